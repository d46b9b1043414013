// Contracts for the watchpoint trace buffer (impl/interactive/ObjTreeHelpers.h): one step of sampleT from any state of its invariant, so any history.
// VF:ASSUME traced nodes are represented by their contract: clone copies the value, syncFromSim takes the live value (proved per node type in C23_compare.cc)
// VF:BOUNDED capacities of 1 to 3 records and one traced variable; post-delays, histories, values and times are unbounded
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "impl/interactive/ObjTreeHelpers.h"
#include <cstring>
using namespace SST;
using namespace SST::Core::Serialization;
typedef ObjTreeTraceBuffer TB;
static uint64_t upto(const char* n, uint64_t m)
{
    uint8_t c = vf::any_in<uint8_t>(n, 0, (uint8_t)m);
    for (uint64_t k = 0; k < m; k++) if (c == k) return k;
    return m;
}
static uint64_t live;            // the traced simulation variable
static uint64_t dumped[8]; static unsigned n_dump;
struct Probe : public ObjTreeCont {
    uint64_t val = 0;
    Probe() = default;
    Probe(const Probe& r) : ObjTreeCont(), val(r.val) {}
    ObjTreeCont* clone() const override { return new Probe(*this); }
    void syncFromSim() override { val = live; }
    void Dump(const int, std::ios_base::fmtflags, std::ostream&) override { if (n_dump < 8) dumped[n_dump] = val; n_dump++; }
};
static const char* HN[4] = { "BC", "AC", "BE", "AE" };
// ghost: the last records taken, oldest first
struct Rec { uint64_t cycle; int tag; unsigned hand; uint64_t val; };
static Rec g[4]; static size_t g_n; static bool g_trig_in; static size_t g_trig; static uint64_t g_trig_val;
static TB* tb; static size_t B;
static std::vector<std::unique_ptr<ObjTreeCont>>& vals() { return std::get<0>(tb->objBuffers_[0]); }
static unsigned& trig() { return std::get<1>(tb->objBuffers_[0]); }
static size_t slot(size_t i) { return (tb->first_ + i) % B; }
static void put(size_t i, const Rec& r)
{
    size_t k = slot(i);
    tb->cycleBuffer_[k] = r.cycle; tb->tagBuffer_[k] = (TB::BufferState)r.tag; tb->handlerBuffer_[k] = HN[r.hand];
}
static void world()
{
    vf_merge(false);
    B = (size_t)upto("capacity", 2) + 1;
    tb = new TB(B, vf::any<size_t>("postdelay"));
    Probe* p = new Probe();
    tb->addObjectBuffer(std::unique_ptr<ObjTreeCont>(p));
    n_dump = 0;
}
// any state that satisfies the invariant
static void any_state()
{
    world();
    bool full = upto("full", 1) == 1;
    g_n = full ? B : upto("records", 2);
    vf_assume(g_n <= B && (full || g_n < B));
    if (full) {
        size_t c = upto("cur", 2); vf_assume(c < B);
        tb->cur_ = c; tb->first_ = c;
        tb->numRecs_ = B + (vf::any<uint32_t>("taken") );          // any number taken before
        vf_assume(tb->numRecs_ != B || c == 0);
    }
    else { tb->cur_ = g_n; tb->first_ = 0; tb->numRecs_ = g_n; }
    int st = (int)upto("state", 2);
    vf_assume(st == TB::CLEAR || tb->numRecs_ > 0);
    tb->state_ = (TB::BufferState)st;
    tb->postCount_ = st == TB::POSTTRIGGER ? vf::any<size_t>("postcount") : 0;
    vf_assume(st != TB::POSTTRIGGER || (tb->postCount_ >= 1 && tb->postCount_ < ~(size_t)0));
    // where the trigger record is: the newest one in TRIGGER, anywhere or gone in POSTTRIGGER
    g_trig_in = false; g_trig = 0;
    if (st == TB::TRIGGER) { g_trig_in = true; g_trig = g_n - 1; }
    if (st == TB::POSTTRIGGER) {
        size_t w = upto("where", 3); vf_assume(w <= g_n);
        if (w < g_n) { g_trig_in = true; g_trig = w; }
        else vf_assume(full);
    }
    for (size_t i = 0; i < g_n; i++) {
        g[i].cycle = vf::any<uint64_t>("cyc"); g[i].val = vf::any<uint64_t>("val"); g[i].hand = i & 3;
        g[i].tag = st == TB::POSTTRIGGER && !g_trig_in ? TB::POSTTRIGGER
            : !g_trig_in || i < g_trig ? TB::CLEAR : i == g_trig ? TB::TRIGGER : TB::POSTTRIGGER;
        put(i, g[i]);
        if (i == 0) static_cast<Probe*>(vals()[0].get())->val = g[0].val;
        else { Probe* p = new Probe(); p->val = g[i].val; vals().push_back(std::unique_ptr<ObjTreeCont>(p)); }
    }
    // samples are kept with the trigger during the post-trigger phase
    if (g_n == 0) trig() = INT_MAX;
    else trig() = g_trig_in ? (unsigned)g_trig : (unsigned)upto("stale", 2);
    vf_assume(g_n == 0 || trig() < g_n);
    tb->isOverrun_ = st == TB::POSTTRIGGER && !g_trig_in;
    tb->samplesLost_ = tb->isOverrun_ ? vf::any<uint32_t>("lost") : 0;
    tb->triggerCycle = vf::any<uint64_t>("trigcyc");
}
static void same_records()
{
    CHECK("record-count", vals().size() == (g_n ? g_n : 1));
    CHECK("ring-position", tb->cur_ == (tb->first_ + g_n) % B && tb->cur_ < B && (g_n < B ? tb->numRecs_ == g_n && tb->first_ == 0 : tb->numRecs_ >= B));
    for (size_t i = 0; i < g_n; i++) {
        size_t k = slot(i);
        CHECK("record-time", tb->cycleBuffer_[k] == g[i].cycle);
        CHECK("record-tag", (int)tb->tagBuffer_[k] == g[i].tag);
        CHECK("record-handler", strcmp(tb->handlerBuffer_[k].c_str(), HN[g[i].hand]) == 0);
        CHECK("record-value", static_cast<Probe*>(vals()[i].get())->val == g[i].val);
    }
}
HARNESS(created_empty)
{
    world();
    g_n = 0;
    same_records();
    CHECK("starts-clear", tb->state_ == TB::CLEAR && tb->postCount_ == 0 && !tb->isOverrun_ && tb->samplesLost_ == 0 && tb->getBufferSize() == B);
    CHECK("no-trigger-record", trig() == INT_MAX);
}
static void step(bool trigger)
{
    size_t lost = tb->samplesLost_; bool over = tb->isOverrun_;
    int st0 = tb->state_; size_t post0 = tb->postCount_, delay = tb->postDelay_; uint64_t tc = tb->triggerCycle;
    live = vf::any<uint64_t>("live"); uint64_t now = vf::any<uint64_t>("now");
    unsigned hand = 3;
    bool inv = tb->sampleT(trigger, now, std::string(HN[hand]));
    int st1 = st0 == TB::CLEAR ? (trigger ? TB::TRIGGER : TB::CLEAR) : TB::POSTTRIGGER;
    bool take = !(st1 == TB::POSTTRIGGER && post0 >= delay);
    CHECK("state", tb->state_ == st1);
    bool pushed_out_trigger = false;
    if (take) {
        if (g_n == B) {
            pushed_out_trigger = g_trig_in && g_trig == 0;
            for (size_t i = 1; i < B; i++) g[i - 1] = g[i];
            g_n--;
            if (pushed_out_trigger) g_trig_in = false;
            else if (g_trig_in) g_trig--;
        }
        g[g_n].cycle = now; g[g_n].tag = st1; g[g_n].hand = hand; g[g_n].val = live;
        if (st1 == TB::TRIGGER) { g_trig_in = true; g_trig = g_n; }
        g_n++;
    }
    same_records();
    if (trigger && take) { CHECK("trigger-time", tb->triggerCycle == now); }
    else { CHECK("trigger-time-kept", tb->triggerCycle == tc); }
    // the action: at the trigger itself without a delay, else with the sample that completes the delay
    CHECK("post-trigger-count", tb->postCount_ == (st1 == TB::POSTTRIGGER ? post0 + 1 : 0));
    bool want = st1 == TB::TRIGGER ? delay == 0 : st1 == TB::POSTTRIGGER ? post0 + 1 >= delay : false;
    CHECK("action-exactly-when-due", inv == want);
    CHECK("overrun-noticed", tb->isOverrun_ == (over || pushed_out_trigger));
    CHECK("lost-counted", tb->samplesLost_ == lost + (over || pushed_out_trigger ? 1 : 0));
    if (trigger && take) { CHECK("last-trigger-sample", trig() == g_n - 1); }
    else if (g_trig_in) { CHECK("trigger-sample-kept", trig() == g_trig); }
    CHECK("trigger-index-valid", trig() < vals().size() || g_n == 0);
}
HARNESS(sample_clear)       { any_state(); vf_assume(tb->state_ == TB::CLEAR); step(false); }
HARNESS(sample_trigger)     { any_state(); vf_assume(tb->state_ == TB::CLEAR); step(true); }
HARNESS(sample_after)       { any_state(); vf_assume(tb->state_ == TB::TRIGGER); step(vf::any<bool>("again")); }
HARNESS(sample_post)        { any_state(); vf_assume(tb->state_ == TB::POSTTRIGGER); step(false); }
HARNESS(sample_post_again)  { any_state(); vf_assume(tb->state_ == TB::POSTTRIGGER); step(true); }
HARNESS(reset)
{
    any_state();
    live = vf::any<uint64_t>("live");
    tb->setBufferReset();
    CHECK("reset-pending", tb->reset_);
    tb->resetTraceBuffer();
    g_n = 0; g_trig_in = false;
    CHECK("cleared", tb->numRecs_ == 0 && tb->cur_ == 0 && tb->first_ == 0 && tb->postCount_ == 0 && tb->state_ == TB::CLEAR && !tb->reset_);
    CHECK("loss-forgotten", !tb->isOverrun_ && tb->samplesLost_ == 0);
    CHECK("one-spare-node", vals().size() == 1 && trig() == INT_MAX);
    step(false);
}
HARNESS(dump_in_order)
{
    any_state();
    tb->dumpTraceBufferT(std::cout);
    CHECK("each-record-once", n_dump == g_n);
    for (size_t i = 0; i < g_n; i++) CHECK("oldest-first", dumped[i] == g[i].val);
}
HARNESS(dump_trigger)
{
    any_state();
    tb->dumpTriggerRecord(std::cout);
    if (g_n == 0 || tb->state_ == TB::CLEAR) { CHECK("nothing-to-show", n_dump == 0); }
    else {
        CHECK("one-value", n_dump == 1);
        if (g_trig_in) { CHECK("the-trigger-value", dumped[0] == g[g_trig].val); }
    }
}
