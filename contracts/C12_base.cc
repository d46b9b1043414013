// Contracts for StatisticBase / Statistic<T> (statbase.h, statbase.cc): gating by enable, collection counts, count-triggered output.
// VF:ASSUME StatisticProcessingEngine::performStatisticOutput is used by contract (proved in C12_engine)
// VF:ASSUME no 64-bit overflow of the collection counts
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "statapi/statbase.cc"
using namespace SST;
using namespace SST::Statistics;
namespace SST { Output Simulation::sim_output; Statistics::StatisticProcessingEngine* Simulation::getStatisticsProcessingEngine() { return &stat_engine; } }
static unsigned n_out; static StatisticBase* out_stat; static bool out_eos;
void StatisticProcessingEngine::performStatisticOutput(StatisticBase* s, bool eos) { n_out++; out_stat = s; out_eos = eos; }
struct TStat : public Statistic<uint64_t>
{
    unsigned n_one = 0, n_many = 0; uint64_t last = 0, lastN = 0; unsigned out_at = 0;
    void addData_impl(uint64_t v) override { n_one++; last = v; CHECK("recorded-before-output", n_out == 0); }
    void addData_impl_Ntimes(uint64_t N, uint64_t v) override { n_many++; last = v; lastN = N; CHECK("recorded-before-output", n_out == 0); }
    void registerOutputFields(StatisticFieldsOutput*) override {}
    void outputStatisticFields(StatisticFieldsOutput*, bool) override {}
    std::string getELIName() const override { return ""; }
};
struct St { uint64_t cnt, ocnt, lim; bool en, per, rst, clr; };
static TStat* any_stat(St& s)
{
    vfsim::setup(); n_out = 0; out_stat = nullptr; out_eos = false;
    TStat* a = ::new (::operator new(sizeof(TStat))) TStat();
    a->current_collection_count_ = s.cnt = vf::any<uint64_t>("count");
    a->output_collection_count_ = s.ocnt = vf::any<uint64_t>("output_count");
    a->collection_count_limit_ = s.lim = vf::any<uint64_t>("limit");
    a->stat_enabled_ = s.en = vf::any<bool>("enabled");
    a->registered_collection_mode_ = s.per = vf::any<bool>("periodic");
    a->reset_count_on_output_ = s.rst = vf::any<bool>("reset"); a->clear_data_on_output_ = s.clr = vf::any<bool>("clear");
    return a;
}
static bool fires(const St& s, uint64_t oc, uint64_t lim) { return !s.per && lim != 0 && oc >= lim; }
static void config_kept(TStat* a, const St& s, uint64_t lim)
{
    CHECK("settings-kept", a->collection_count_limit_ == lim && a->stat_enabled_ == s.en && a->registered_collection_mode_ == s.per && a->reset_count_on_output_ == s.rst && a->clear_data_on_output_ == s.clr);
}
static void outputs(TStat* a, bool f)
{
    CHECK("output-iff-limit-reached", n_out == (f ? 1u : 0u));
    CHECK("output-of-this-stat", vf::implies(n_out == 1, out_stat == a && !out_eos));
}
HARNESS(addData)
{
    St s; TStat* a = any_stat(s); uint64_t v = vf::any<uint64_t>("v");
    vf_assume(s.cnt != ~0ull && s.ocnt != ~0ull);
    a->addData(v);
    CHECK("recorded-iff-enabled", a->n_one == (s.en ? 1u : 0u) && a->n_many == 0);
    CHECK("value", vf::implies(s.en, a->last == v));
    CHECK("count", a->getCollectionCount() == s.cnt + (s.en ? 1 : 0));
    CHECK("output-count", a->output_collection_count_ == s.ocnt + (s.en ? 1 : 0));
    outputs(a, s.en && fires(s, s.ocnt + 1, s.lim));
    config_kept(a, s, s.lim);
}
HARNESS(addDataNTimes)
{
    St s; TStat* a = any_stat(s); uint64_t v = vf::any<uint64_t>("v"), N = vf::any<uint64_t>("N");
    vf_assume(s.cnt <= ~0ull - N && s.ocnt <= ~0ull - N);
    a->addDataNTimes(N, v);
    CHECK("recorded-iff-enabled", vf::implies(s.en, a->n_many == 1 && a->n_one == 0) && vf::implies(!s.en, a->n_one == 0 && a->n_many == 0));
    CHECK("value", vf::implies(s.en, a->last == v && a->lastN == N));
    CHECK("count", a->getCollectionCount() == s.cnt + (s.en ? N : 0));
    CHECK("output-count", a->output_collection_count_ == s.ocnt + (s.en ? N : 0));
    if (N != 0) outputs(a, s.en && fires(s, s.ocnt + N, s.lim));
    config_kept(a, s, s.lim);
}
HARNESS(default_ntimes)      // the default N-times recording: bounded stand-in below 5 repeats
{
    St s; TStat* a = any_stat(s); uint64_t v = vf::any<uint64_t>("v"), N = vf::any<uint64_t>("N");
    vf_assume(N < 5);
    vf_unroll(6);
    a->Statistic<uint64_t>::addData_impl_Ntimes(N, v);
    CHECK("once-per-repeat", a->n_one == N && a->n_many == 0 && vf::implies(N > 0, a->last == v));
    CHECK("counts-untouched", a->getCollectionCount() == s.cnt && a->output_collection_count_ == s.ocnt && n_out == 0);
}
HARNESS(set_count)
{
    St s; TStat* a = any_stat(s); uint64_t n = vf::any<uint64_t>("n");
    a->setCollectionCount(n);
    CHECK("count", a->getCollectionCount() == n && a->output_collection_count_ == n);
    outputs(a, fires(s, n, s.lim));
    config_kept(a, s, s.lim);
}
HARNESS(reset_count)
{
    St s; TStat* a = any_stat(s);
    a->resetCollectionCount();
    CHECK("count-since-output-zero", a->output_collection_count_ == 0);
    CHECK("total-kept", a->getCollectionCount() == s.cnt && n_out == 0);
    config_kept(a, s, s.lim);
}
HARNESS(set_limit)
{
    St s; TStat* a = any_stat(s); uint64_t n = vf::any<uint64_t>("n");
    a->setCollectionCountLimit(n);
    CHECK("limit", a->getCollectionCountLimit() == n);
    CHECK("counts-kept", a->getCollectionCount() == s.cnt && a->output_collection_count_ == s.ocnt);
    outputs(a, fires(s, s.ocnt, n));
    config_kept(a, s, n);
}
HARNESS(flags)
{
    St s; TStat* a = any_stat(s); bool b = vf::any<bool>("b");
    unsigned w = vf::any_in<unsigned>("which", 0, 5);
    uint8_t f = vf::any<uint8_t>("flags"); a->flags_ = f; bool eos = vf::any<bool>("eos"); a->output_at_end_of_sim_ = eos;
    if (w == 0) { if (b) a->enable(); else a->disable(); s.en = b; }
    if (w == 1) { a->setFlagResetCountOnOutput(b); s.rst = b; }
    if (w == 2) { a->setFlagClearDataOnOutput(b); s.clr = b; }
    if (w == 3) { a->setFlagOutputAtEndOfSim(b); eos = b; }
    if (w == 4) { a->setRegisteredCollectionMode(b); s.per = b; }
    CHECK("enabled", a->isEnabled() == s.en);
    CHECK("reset", a->getFlagResetCountOnOutput() == s.rst);
    CHECK("clear", a->getFlagClearDataOnOutput() == s.clr);
    CHECK("end-of-sim", a->getFlagOutputAtEndOfSim() == eos);
    CHECK("mode", a->isOutputPeriodic() == s.per && a->isOutputEventBased() == !s.per);
    CHECK("counts-kept", a->getCollectionCount() == s.cnt && a->output_collection_count_ == s.ocnt && n_out == 0);
    bool sa = a->getStartAtFlag(), so = a->getStopAtFlag(), ra = a->getOutputRateFlag();
    if (w == 5) {
        unsigned k = vf::any_in<unsigned>("flag", 0, 2);
        if (k == 0) { if (b) a->setStartAtFlag(); else a->unsetStartAtFlag(); sa = b; }
        if (k == 1) { if (b) a->setStopAtFlag(); else a->unsetStopAtFlag(); so = b; }
        if (k == 2) { if (b) a->setOutputRateFlag(); else a->unsetOutputRateFlag(); ra = b; }
    }
    CHECK("start-stop-rate-flags", a->getStartAtFlag() == sa && a->getStopAtFlag() == so && a->getOutputRateFlag() == ra);
    CHECK("fresh", TStat().isEnabled() && TStat().getCollectionCount() == 0 && TStat().getCollectionCountLimit() == 0 && !TStat().getFlagClearDataOnOutput() && !TStat().getFlagResetCountOnOutput());
}
