// Contracts for the watchpoint itself (watchPoint.cc): combination of conditions, selection of handlers, sampling and invocation of the action.
// VF:ASSUME a single comparison by its contract (an arbitrary truth value here; proved in C23_compare.cc)
// VF:BOUNDED combinations of up to 4 conditions; a buffer of two records (any capacity 1..3: C23_trace.cc)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sim_env.h"
#include "watchPoint.cc"
#include <cstring>
using namespace SST;
using namespace SST::Core::Serialization;
typedef ObjTreeTraceBuffer TB;
static bool res[4]; static unsigned n_eval; static bool in_order;
static unsigned n_cp, n_stat, n_down; static bool down_arg, stat_arg;
static ObjTreeComparison* cond;
namespace SST::Core::Serialization {
bool ObjTreeComparison::evaluateComparison(unsigned index, ObjTreeCont*)
{
    if (this != cond || index != n_eval || n_eval >= 4) { in_order = false; return false; }
    return res[n_eval++];
}
}
namespace SST {
void Simulation::scheduleCheckpoint() { n_cp++; }
void Simulation::printStatus(bool b) { n_stat++; stat_arg = b; }
void Simulation::consoleShutdown(bool b) { n_down++; down_arg = b; }
}
static uint8_t pick(const char* n, uint8_t m)
{
    uint8_t c = vf::any_in<uint8_t>(n, 0, m);
    for (uint8_t k = 0; k < m; k++) if (c == k) return k;
    vf_assume(c == m);
    return m;
}
static uint64_t live;
struct Probe : public ObjTreeCont {
    uint64_t val = 0;
    Probe() = default;
    Probe(const Probe& r) : ObjTreeCont(), val(r.val) {}
    ObjTreeCont* clone() const override { return new Probe(*this); }
    void syncFromSim() override { val = live; }
    void Dump(const int, std::ios_base::fmtflags, std::ostream&) override {}
};
static unsigned n_set; static const std::string* set_to; static bool set_ok;
struct SetProbe : public ObjTreeCont {
    bool setFromString(const std::string& v) override { n_set++; set_to = &v; return set_ok; }
};
static unsigned n_act; static WatchPoint* wp; static unsigned act_h; static uint64_t act_recs; static bool act_trigger; static bool act_resets;
struct Act : public WatchPoint::WPAction {
    std::string actionToString() override { return "act"; }
    void invokeAction(WatchPoint* w) override
    {
        n_act++; act_h = w->triggerHandler; act_recs = w->tb_ ? w->tb_->numRecs_ : 0;
        CHECK("own-watchpoint", w == wp);
        if (act_resets && w->checkReset() && w->tb_) w->resetTraceBuffer();
    }
};
static TB* tb; static Act* act; static Simulation* sim;
static void world(bool buffer)
{
    vf_merge(false);
    sim = vfsim::setup();
    cond = new ObjTreeComparison();
    wp = new WatchPoint(3, "w", cond);
    act = new Act();
    wp->setAction(act);
    wp->verbosity = 0;
    n_act = n_eval = n_cp = n_stat = n_down = n_set = 0; in_order = true; act_h = 99;
    tb = nullptr;
    if (buffer) {
        tb = new TB(2, vf::any<uint64_t>("delay"));
        wp->addTraceBuffer(tb);
        wp->addObjectBuffer(std::unique_ptr<ObjTreeCont>(new Probe()));
        CHECK("buffer-size-reported", wp->getBufferSize() == 2);
    }
    else CHECK("no-buffer-reported", wp->getBufferSize() == 0);
    CHECK("starts-idle", !wp->trigger && !wp->reset_ && wp->triggerCount == 0 && wp->handler == WatchPoint::ALL);
    sim->enter_interactive_ = pick("interactive", 1);
}
HARNESS(conditions_combined)
{
    world(false);
    unsigned n = 1 + pick("more", 3);
    bool want = false;
    for (unsigned i = 0; i < n; i++) {
        cond->operators.push_back(ObjTreeComparison::Op::EQ);
        res[i] = vf::any<bool>("res");
        if (i == 0) want = res[0];
        else if (pick("or", 1)) { wp->addLogicOp(WatchPoint::OR); want = want || res[i]; }
        else { wp->addLogicOp(WatchPoint::AND); want = want && res[i]; }
    }
    wp->check();
    CHECK("each-condition-once-in-order", in_order && n_eval == n);
    CHECK("trigger-exactly-when-combination-holds", wp->trigger == want);
}
static void run_handler(unsigned which)
{
    uint64_t c = vf::any<uint64_t>("cycle");
    if (which == 0) static_cast<Event::HandlerBase::AttachPoint*>(wp)->beforeHandler(0, nullptr);
    if (which == 1) static_cast<Event::HandlerBase::AttachPoint*>(wp)->afterHandler(0);
    if (which == 2) static_cast<Clock::HandlerBase::AttachPoint*>(wp)->beforeHandler(0, c);
    if (which == 3) { bool r = vf::any<bool>("ret"); static_cast<Clock::HandlerBase::AttachPoint*>(wp)->afterHandler(0, r); }
}
static const unsigned BIT[4] = { WatchPoint::BEFORE_EVENT, WatchPoint::AFTER_EVENT, WatchPoint::BEFORE_CLOCK, WatchPoint::AFTER_CLOCK };
static const char* NAME[4] = { "BE", "AE", "BC", "AC" };
static void no_buffer(unsigned which)
{
    world(false);
    unsigned mask = vf::any_in<unsigned>("mask", 0, 15);
    wp->setHandler(mask);
    cond->operators.push_back(ObjTreeComparison::Op::EQ); res[0] = vf::any<bool>("res");
    wp->reset_ = vf::any<bool>("reset"); wp->triggerCount = vf::any<uint32_t>("count");
    bool r0 = wp->reset_; uint64_t tc = wp->triggerCount; bool inter = sim->enter_interactive_;
    run_handler(which);
    bool on = (mask & BIT[which]) != 0;
    CHECK("checked-only-where-selected", in_order && n_eval == (on ? 1 : 0));
    CHECK("action-exactly-when-triggered", n_act == (on && res[0] ? 1 : 0));
    if (n_act) { CHECK("trigger-place", act_h == BIT[which]); }
    CHECK("trigger-consumed", !wp->trigger && wp->triggerHandler == WatchPoint::NONE);
    if (on) {
        uint64_t base = r0 && !inter ? 0 : tc;
        CHECK("trigger-count", wp->triggerCount == base + (res[0] ? 1 : 0));
        CHECK("reset-pending", wp->reset_ == (res[0] || (r0 && inter)));
    }
    else CHECK("untouched", wp->triggerCount == tc && wp->reset_ == r0);
}
HARNESS(before_event) { no_buffer(0); }
HARNESS(after_event) { no_buffer(1); }
HARNESS(before_clock) { no_buffer(2); }
HARNESS(after_clock) { no_buffer(3); }
static void with_buffer(unsigned which, unsigned st)
{
    world(true);
    act_resets = pick("resets", 1);
    unsigned mask = vf::any_in<unsigned>("mask", 0, 15);
    wp->setHandler(mask);
    cond->operators.push_back(ObjTreeComparison::Op::EQ); res[0] = pick("res", 1);
    bool r0 = pick("reset", 1); wp->reset_ = r0; wp->triggerCount = vf::any<uint32_t>("count");
    uint64_t tc = wp->triggerCount; bool inter = sim->enter_interactive_;
    // the buffer holds one record, in any state
    live = vf::any<uint64_t>("live0");
    tb->sampleT(st != TB::CLEAR, 5, "BC");
    tb->state_ = (TB::BufferState)st; tb->postCount_ = st == TB::POSTTRIGGER ? vf::any_in<uint64_t>("post", 1, ~0ull - 1) : 0;
    uint64_t post0 = tb->postCount_, delay = tb->postDelay_;
    live = vf::any<uint64_t>("live");
    uint64_t now = sim->currentSimCycle;
    run_handler(which);
    bool on = (mask & BIT[which]) != 0;
    CHECK("checked-only-where-selected", in_order && n_eval == (on ? 1 : 0));
    if (!on) {
        CHECK("untouched", n_act == 0 && tb->numRecs_ == 1 && wp->triggerCount == tc && wp->reset_ == r0 && tb->state_ == (TB::BufferState)st);
        return;
    }
    bool fresh = r0 && !inter;              // a finished recording starts over once the console is done with it
    unsigned s0 = fresh ? (unsigned)TB::CLEAR : st; if (fresh) post0 = 0;
    unsigned s1 = s0 == TB::CLEAR ? (res[0] ? TB::TRIGGER : TB::CLEAR) : TB::POSTTRIGGER;
    bool take = !(s1 == TB::POSTTRIGGER && post0 >= delay);
    bool due = s1 == TB::TRIGGER ? delay == 0 : s1 == TB::POSTTRIGGER ? post0 + 1 >= delay : false;
    CHECK("action-exactly-when-due", n_act == (due ? 1 : 0));
    if (due) {
        CHECK("trigger-place", act_h == BIT[which]);
        CHECK("action-sees-the-sample", act_recs == (fresh ? 0 : 1) + (take ? 1 : 0));
        CHECK("reset-requested", wp->reset_ && (tb->reset_ || act_resets));
        if (act_resets) { CHECK("recording-restarted", tb->numRecs_ == 0 && tb->state_ == TB::CLEAR); }
    }
    else CHECK("reset-only-when-due", wp->reset_ == (r0 && inter));
    CHECK("trigger-consumed", !wp->trigger && wp->triggerHandler == WatchPoint::NONE);
    CHECK("trigger-count", wp->triggerCount == (fresh ? 0 : tc) + (res[0] ? 1 : 0));
    if (!(due && act_resets)) {
        CHECK("sampled-once", tb->numRecs_ == (fresh ? 0 : 1) + (take ? 1 : 0) && tb->state_ == (TB::BufferState)s1);
        if (take) {
            unsigned k = fresh ? 0 : 1;
            CHECK("sample-time-and-place", tb->cycleBuffer_[k] == now && strcmp(tb->handlerBuffer_[k].c_str(), NAME[which]) == 0);
            CHECK("sample-value", static_cast<Probe*>(std::get<0>(tb->objBuffers_[0])[k].get())->val == live);
        }
    }
}
HARNESS(trace_be_clear) { with_buffer(0, TB::CLEAR); }
HARNESS(trace_be_trigger) { with_buffer(0, TB::TRIGGER); }
HARNESS(trace_be_post) { with_buffer(0, TB::POSTTRIGGER); }
HARNESS(trace_ac_clear) { with_buffer(3, TB::CLEAR); }
HARNESS(trace_ac_post) { with_buffer(3, TB::POSTTRIGGER); }
HARNESS(trace_ae_clear) { with_buffer(1, TB::CLEAR); }
HARNESS(trace_bc_clear) { with_buffer(2, TB::CLEAR); }
static void buffer_with_record()
{
    tb->sampleT(true, 5, "BC");
    wp->reset_ = vf::any<bool>("reset");
}
HARNESS(action_checkpoint)
{
    world(true); buffer_with_record();
    new (&sim->checkpoint_directory_) std::string();
    bool enabled = pick("enabled", 1);
    if (enabled) sim->checkpoint_directory_ = "d";
    WatchPoint::CheckpointWPAction a;
    a.invokeAction(wp);
    CHECK("one-checkpoint-when-enabled", n_cp == (enabled ? 1 : 0));
    CHECK("recording-restarted", tb->numRecs_ == (wp->reset_ ? 0 : 1));
}
HARNESS(action_status)
{
    world(true); buffer_with_record();
    WatchPoint::PrintStatusWPAction a;
    a.invokeAction(wp);
    CHECK("status-once", n_stat == 1 && stat_arg);
    CHECK("recording-restarted", tb->numRecs_ == (wp->reset_ ? 0 : 1));
}
HARNESS(action_shutdown)
{
    world(true); buffer_with_record();
    WatchPoint::ShutdownWPAction a;
    a.invokeAction(wp);
    CHECK("shutdown-once", n_down == 1 && !down_arg);
}
HARNESS(action_print)
{
    world(true); buffer_with_record();
    WatchPoint::PrintTraceWPAction a;
    a.invokeAction(wp);
    CHECK("recording-restarted", tb->numRecs_ == (wp->reset_ ? 0 : 1));
}
HARNESS(action_set)
{
    world(true); buffer_with_record();
    SetProbe* o = new SetProbe(); set_ok = vf::any<bool>("accepted");
    WatchPoint::SetVarWPAction a("v", o, "17");
    a.invokeAction(wp);
    CHECK("set-once-to-the-value", n_set == 1 && strcmp(set_to->c_str(), "17") == 0);
    if (set_ok) { CHECK("recording-restarted", tb->numRecs_ == (wp->reset_ ? 0 : 1)); }
    else CHECK("recording-kept", tb->numRecs_ == 1);
}
