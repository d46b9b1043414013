// Contracts for StatisticProcessingEngine (statengine.cc) and StatisticGroup: when a statistic is output, what each output clears,
// and enabling/disabling at the configured times.
// VF:ASSUME StatisticOutput::output/outputGroup are used by contract (one call = one output of that statistic/group)
// VF:ASSUME OneShotManager calls the registered handler once at the registered time (its registration is checked, its map is trusted)
// VF:BOUNDED group_output0, group_output1, group_output3, default_group_clock, end_of_sim, start_stop, start_stop_set: groups of at most 3 statistics and maps of at most 2 times
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sim_env.h"
#include "statapi/statengine.cc"
#include "statapi/statgroup.cc"
using namespace SST;
using namespace SST::Statistics;
namespace SST {
Output Simulation::sim_output;
StatisticProcessingEngine* Simulation_stat_engine(Simulation* s) { return &s->stat_engine; }
uint64_t n_reg_oneshot, oneshot_time; int oneshot_prio;
namespace Core {
void OneShotManager::registerHandlerBase(SimTime_t t, int priority, bool relative, OneShot::HandlerBase*)
{ n_reg_oneshot++; oneshot_time = t; oneshot_prio = priority; CHECK("absolute", !relative); }
}
uint64_t clock_factor; int clock_prio; unsigned n_clock;
void Simulation::registerClock(SimTime_t f, Clock::HandlerBase*, int prio) { n_clock++; clock_factor = f; clock_prio = prio; }
}
struct TStat : public StatisticBase
{
    unsigned n_reset = 0, n_clear = 0, n_output = 0, n_reg = 0; bool eos = false; bool after_output = true;
    void resetCollectionCount() override { n_reset++; if (!n_output) after_output = false; output_collection_count_ = 0; }
    void clearStatisticData() override { n_clear++; if (!n_output) after_output = false; }
    void registerOutputFields(StatisticFieldsOutput*) override {}
    void outputStatisticFields(StatisticFieldsOutput*, bool) override {}
    std::string getELIName() const override { return ""; }
};
void StatisticBase::resetCollectionCount() {}
void StatisticBase::incrementCollectionCount(uint64_t) {}
void StatisticBase::setCollectionCount(uint64_t) {}
static uint64_t limit_set; static unsigned n_limit_set;
void StatisticBase::setCollectionCountLimit(uint64_t l) { limit_set = l; n_limit_set++; collection_count_limit_ = l; }
void StatisticBase::serialize_order(SST::Core::Serialization::serializer&) {}
static unsigned n_group_out; static StatisticGroup* group_out; static bool group_eos; static StatisticGroup* the_group;
static void output_stub(StatisticOutput*, StatisticBase* s, bool eos) { TStat* t = (TStat*)s; t->n_output++; t->eos = eos; }
static void register_stub(StatisticOutput*, StatisticBase* s) { ((TStat*)s)->n_reg++; }
static void group_stub(StatisticOutput*, StatisticGroup* g, bool eos)
{
    n_group_out++; group_out = g; group_eos = eos;
    for (auto* s : g->stats) { TStat* t = (TStat*)s; t->n_output++; t->eos = eos; }
}
struct Flags { bool rst, clr; };
static StatisticOutput* out;
static void* table[64];
static StatisticProcessingEngine* engine(bool& started)
{
    Simulation* sim = vfsim::setup(); n_reg_oneshot = 0; n_clock = 0; n_group_out = 0; n_limit_set = 0;
    out = vf::raw_object<StatisticOutput>("output");
    for (int i = 0; i < 64; i++) table[i] = nullptr;
    uint64_t w; auto pm = &StatisticOutput::output; memcpy(&w, &pm, 8); table[(w - 1) / 8] = (void*)&output_stub;
    *(void***)out = table;
    vf_use_contract(vf::mfn(&StatisticOutput::outputGroup), (void*)&group_stub);
    auto pr = &StatisticOutput::registerStatistic; memcpy(&w, &pr, 8); table[(w - 1) / 8] = (void*)&register_stub;
    void* mem = ::operator new(sizeof(StatisticProcessingEngine));
    StatisticProcessingEngine* e = ::new (mem) StatisticProcessingEngine();
    e->simulation_started_ = started = vf::any<bool>("started");
    e->stat_default_groups_[0].output = out;
    return e;
}
static TStat* stat(Flags& f)
{
    TStat* s = ::new (::operator new(sizeof(TStat))) TStat();
    s->reset_count_on_output_ = f.rst = vf::any<bool>("reset"); s->clear_data_on_output_ = f.clr = vf::any<bool>("clear");
    s->stat_enabled_ = vf::any<bool>("enabled"); s->registered_collection_mode_ = vf::any<bool>("periodic");
    return s;
}
static void was_output(TStat* s, const Flags& f, bool yes, bool eos)
{
    CHECK("output-once-iff-started", s->n_output == (yes ? 1u : 0u));
    CHECK("end-of-sim-flag", vf::implies(yes, s->eos == eos));
    CHECK("count-reset-iff-asked", s->n_reset == (yes && !eos && f.rst ? 1u : 0u));
    CHECK("data-cleared-iff-asked", s->n_clear == (yes && !eos && f.clr ? 1u : 0u));
    CHECK("cleared-after-output", s->after_output);
}
HARNESS(output_one)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    Flags f; TStat* s = stat(f); StatisticGroup g; g.output = out; g.stats.reserve(4); g.addStatistic(s);
    CHECK("group", s->getGroup() == &g && g.containsStatistic(s));
    bool eos = vf::any<bool>("eos"), via = vf::any<bool>("via_impl");
    if (via) e->performStatisticOutputImpl(s, eos); else e->performStatisticOutput(s, eos);
    was_output(s, f, started, eos);
    CHECK("no-group-output", n_group_out == 0);
    g.stats.clear();
}
static void group_of(StatisticGroup& g, TStat** s, Flags* f, unsigned n)
{
    g.output = out; g.stats.reserve(4);
    for (unsigned i = 0; i < n; i++) { s[i] = stat(f[i]); g.addStatistic(s[i]); }
}
static void group_output_n(unsigned n)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    Flags f[3]; TStat* s[3]; StatisticGroup g; g.is_default = false;
    group_of(g, s, f, n);
    bool eos = vf::any<bool>("eos"), via = vf::any<bool>("via_stat"), clk = vf::any<bool>("via_clock");
    if (via && n > 0) e->performStatisticOutput(s[n - 1], eos);
    else if (clk) { CHECK("keeps-ticking", !e->handleGroupClockEvent(vf::any<uint64_t>("cycle"), &g)); eos = false; }
    else e->performStatisticGroupOutputImpl(g, eos);
    CHECK("group-output-once-iff-started", n_group_out == (started ? 1u : 0u));
    CHECK("this-group", vf::implies(started, group_out == &g && group_eos == eos));
    for (unsigned i = 0; i < n; i++) was_output(s[i], f[i], started, eos);
    g.stats.clear();
}
HARNESS(group_output0) { group_output_n(0); }
HARNESS(group_output1) { group_output_n(1); }
HARNESS(group_output3) { group_output_n(3); }
HARNESS(default_group_clock)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    uint64_t t1 = vf::any<uint64_t>("t1"), t2 = vf::any<uint64_t>("t2"); vf_assume(t1 != t2);
    Flags f1[3], f2[3]; TStat *s1[3], *s2[3];
    group_of(e->stat_default_groups_[t1], s1, f1, 3); group_of(e->stat_default_groups_[t2], s2, f2, 1);
    CHECK("keeps-ticking", !e->handleStatisticEngineClockEvent(vf::any<uint64_t>("cycle"), t1));
    for (int i = 0; i < 3; i++) was_output(s1[i], f1[i], started, false);
    was_output(s2[0], f2[0], false, false);
    e->stat_default_groups_[t1].stats.clear(); e->stat_default_groups_[t2].stats.clear();
}
HARNESS(end_of_sim)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    uint64_t t1 = vf::any<uint64_t>("t1"), t2 = vf::any<uint64_t>("t2"); vf_assume(t1 != t2);
    Flags f1[3], f2[3], fg[3]; TStat *s1[3], *s2[3], *sg[3];
    group_of(e->stat_default_groups_[t1], s1, f1, 2); group_of(e->stat_default_groups_[t2], s2, f2, 1);
    e->stat_groups_.emplace_back(); e->stat_groups_[0].is_default = false;
    group_of(e->stat_groups_[0], sg, fg, 2);
    unsigned how = vf::any_in<unsigned>("how", 0, 2); bool eos = how != 2;
    if (how == 0) e->endOfSimulation(); else e->performGlobalStatisticOutput(eos);
    for (int i = 0; i < 2; i++) was_output(s1[i], f1[i], started, eos);
    was_output(s2[0], f2[0], started, eos);
    for (int i = 0; i < 2; i++) was_output(sg[i], fg[i], started, eos);
    e->stat_default_groups_[t1].stats.clear(); e->stat_default_groups_[t2].stats.clear(); e->stat_groups_[0].stats.clear();
}
HARNESS(start_stop_set)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    Flags f; TStat *a = stat(f), *b = stat(f); bool ea = a->isEnabled(), eb = b->isEnabled();
    uint64_t now = vfsim::sim->currentSimCycle, ta = vf::any<uint64_t>("ta"), tb = vf::any<uint64_t>("tb");
    bool start = vf::any<bool>("start");
    if (start) { e->setStatisticStartTime(a, ta); e->setStatisticStartTime(b, tb); }
    else { e->setStatisticStopTime(a, ta); e->setStatisticStopTime(b, tb); }
    bool la = ta > now, lb = tb > now;
    CHECK("disabled-until-start", a->isEnabled() == (start && la ? false : ea) && b->isEnabled() == (start && lb ? false : eb));
    CHECK("flags", a->getStartAtFlag() == (start && la) && b->getStartAtFlag() == (start && lb) && a->getStopAtFlag() == (!start && la) && b->getStopAtFlag() == (!start && lb));
    CHECK("one-callback-per-time", n_reg_oneshot == (la ? 1u : 0u) + (lb && !(la && ta == tb) ? 1u : 0u));
    CHECK("at-that-time", vf::implies(lb, vf::implies(!(la && ta == tb), oneshot_time == tb) && oneshot_prio == STATISTICCLOCKPRIORITY) && vf::implies(la && !lb, oneshot_time == ta));
    CHECK("factor-a", (start ? e->getStatisticStartTimeFactor(a) : e->getStatisticStopTimeFactor(a)) == (la ? ta : 0));
    CHECK("factor-b", (start ? e->getStatisticStartTimeFactor(b) : e->getStatisticStopTimeFactor(b)) == (lb ? tb : 0));
}
HARNESS(start_stop)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    Flags f; TStat *a = stat(f), *b = stat(f), *c = stat(f); bool ec = c->isEnabled();
    uint64_t now = vfsim::sim->currentSimCycle, ta = vf::any<uint64_t>("ta"), tc = vf::any<uint64_t>("tc");
    vf_assume(ta > now && tc > now && ta != tc);
    bool start = vf::any<bool>("start");
    if (start) { e->setStatisticStartTime(a, ta); e->setStatisticStartTime(b, ta); e->setStatisticStartTime(c, tc); ec = false; }
    else { e->setStatisticStopTime(a, ta); e->setStatisticStopTime(b, ta); e->setStatisticStopTime(c, tc); }
    if (start) e->handleStatisticEngineStartTimeEvent(ta); else e->handleStatisticEngineStopTimeEvent(ta);
    CHECK("all-of-that-time", a->isEnabled() == start && b->isEnabled() == start);
    CHECK("others-wait", c->isEnabled() == ec && (start ? c->getStartAtFlag() : c->getStopAtFlag()));
    CHECK("flags-consumed", !a->getStartAtFlag() && !a->getStopAtFlag() && !b->getStartAtFlag() && !b->getStopAtFlag());
    CHECK("time-removed", (start ? e->start_time_map_ : e->stop_time_map_).count(ta) == 0 && (start ? e->start_time_map_ : e->stop_time_map_).count(tc) == 1);
}
HARNESS(periodic_registration)
{
    bool started; StatisticProcessingEngine* e = engine(started);
    Flags f; TStat *a = stat(f), *b = stat(f);
    uint64_t ta = vf::any<uint64_t>("ta"), tb = vf::any<uint64_t>("tb");
    CHECK("ok", e->addPeriodicBasedStatistic(ta, a) && e->addPeriodicBasedStatistic(tb, b));
    CHECK("group-of-its-period", a->getGroup() == &e->stat_default_groups_[ta] && b->getGroup() == &e->stat_default_groups_[tb]);
    CHECK("one-clock-per-period", n_clock == (ta != 0 ? 1u : 0u) + (tb != 0 && tb != ta ? 1u : 0u));
    CHECK("clock-period", vf::implies(n_clock > 0, clock_prio == STATISTICCLOCKPRIORITY && clock_factor == (tb != 0 && tb != ta ? tb : ta)));
    CHECK("output-kept", a->getGroup()->output == out && b->getGroup()->output == out && a->getGroup()->output_freq == ta && b->getGroup()->output_freq == tb);
    CHECK("rate-flag", a->getOutputRateFlag() == (ta != 0) && b->getOutputRateFlag() == (tb != 0));
    CHECK("output-of", e->getOutputForStatistic(a) == out);
    e->stat_default_groups_[ta].stats.clear(); e->stat_default_groups_[tb].stats.clear();
}
