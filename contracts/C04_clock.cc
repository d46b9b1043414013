// Contracts for SST::Clock and Clock::Group (clock.cc, clock.h): ticks, handler lists, ordered groups, scheduling.
// VF:ASSUME Simulation::insertActivity/getCurrentSimCycle/getCurrentPriority are used by contract (proved in C05)
// VF:ASSUME a handler called by its clock does not itself change that clock's handler lists
// VF:ASSUME no 64-bit overflow of tick times and cycle counts; group order numbers below 2^31
// VF:BOUNDED exec_*, reg_*, unreg_*, greg_*, gact_*, gdeact_*, gexec_*, groups_*: at most 4 handlers / 3 groups per list (all answers, orders, times symbolic)
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "clock.cc"
using namespace SST;
namespace SST { Output Simulation::sim_output; }
struct Log { int id; uint64_t cyc; }; static Log lg[32]; static unsigned n_lg; static bool ans[32];
struct TH : public Clock::HandlerBase {
    int id;
    bool operator_impl(Cycle_t c) override { lg[n_lg].id = id; lg[n_lg].cyc = c; n_lg++; return ans[id]; }
};
static TH* th(int id) { TH* h = ::new (::operator new(sizeof(TH))) TH(); h->id = id; return h; }
static uint64_t now, per, cyc; static int prio, curprio; static Simulation* sim;
static Clock* any_clock(bool sched)
{
    vf_merge(false);
    sim = vfsim::setup(); now = sim->currentSimCycle; n_lg = 0;
    curprio = vf::any<int>("cur_priority"); sim->currentPriority = curprio; sim->endSim = vf::any<bool>("ending");
    per = vf::any<uint64_t>("period"); vf_assume(per >= 1); prio = vf::any_in<int>("priority", 0, 99);
    Clock* c = ::new (::operator new(sizeof(Clock))) Clock(TimeConverter(per), prio);
    cyc = vf::any<uint64_t>("cycle"); c->current_cycle_ = cyc; c->scheduled_ = sched;
    vf_assume(now <= ~0ull - per && cyc < ~0ull);
    return c;
}
static TH* add(Clock* c, int id) { TH* h = th(id); h->clock_ = c; h->index_ = (int)c->handlers_.size(); c->handlers_.push_back(h); return h; }
// a group in any valid state: k active handlers in order, the others behind them in any order
static Clock::Group* grp(Clock* c, TH** hs, int m, int k, int id0, int32_t* ord)
{
    Clock::Group* g = new Clock::Group();
    for (int i = 0; i < m; i++) {
        TH* h = th(id0 + i); hs[i] = h; h->group_ = g; h->order_ = ord[i]; h->index_ = i < k ? i : -1 - i;
        g->handlers_.push_back(h);
    }
    g->inactive_start_ = k; g->handler_count_ = vf::any_in<int32_t>("count", 0, 1000000); g->clock_ = c; g->index_ = (int)c->groups_.size();
    c->groups_.push_back(g);
    return g;
}
static void orders(int32_t* ord, int m, int k)
{
    for (int i = 0; i < m; i++) {
        ord[i] = vf::any_in<int32_t>("order", 0, 0x7ffffffe);
        for (int j = 0; j < i; j++) vf_assume(ord[i] != ord[j]);
        if (i && i < k) vf_assume(ord[i - 1] < ord[i]);
    }
}
// every handler once, index_ names its place and its state, active ones first and by increasing order
static bool valid(Clock::Group* g, TH** hs, int m)
{
    if ((int)g->handlers_.size() != m || g->inactive_start_ < 0 || g->inactive_start_ > m) return false;
    for (int i = 0; i < m; i++) {
        if (g->handlers_[i]->index_ != (i < g->inactive_start_ ? i : -1 - i)) return false;
        int seen = 0;
        for (int j = 0; j < m; j++) seen += g->handlers_[i] == hs[j];
        if (seen != 1) return false;
        for (int j = 0; j < i; j++) if (g->handlers_[i] == g->handlers_[j]) return false;
        if (i && i < g->inactive_start_ && g->handlers_[i - 1]->order_ >= g->handlers_[i]->order_) return false;
    }
    return true;
}
static bool groups_ok(Clock* c)
{
    for (int i = 0; i < (int)c->groups_.size(); i++) {
        if (c->groups_[i]->index_ != i) return false;
        for (int j = 0; j < i; j++) if (c->groups_[i] == c->groups_[j]) return false;
    }
    return true;
}
// the tick: n plain handlers and ng active groups of sizes m
static void exec(int n, int ng, int m)
{
    Clock* c = any_clock(true); TH* hs[8]; TH* gh[4][4]; Clock::Group* gs[4]; int32_t ord[8];
    for (int i = 0; i < n; i++) hs[i] = add(c, i);
    for (int q = 0; q < ng; q++) { orders(ord, m, m); gs[q] = grp(c, gh[q], m, m, 8 + q * 4, ord); }
    for (int i = 0; i < 20; i++) ans[i] = vf::any<bool>("remove");
    c->groups_inactive_start_ = ng;
    c->Clock::execute();
    if (n == 0 && ng == 0) {
        CHECK("idle-clock-stops", !c->scheduled_ && vfsim::n_ins == 0 && c->current_cycle_ == cyc && n_lg == 0);
        return;
    }
    CHECK("cycle-plus-one", c->current_cycle_ == cyc + 1);
    CHECK("next-tick-one-period-later", vfsim::n_ins == 1 && vfsim::ins[0].t == now + per && vfsim::ins[0].a == c && c->scheduled_);
    CHECK("each-called-once", n_lg == (unsigned)(n + ng * m));
    bool ok = true, cy = true;
    for (unsigned i = 0; i < n_lg; i++) cy = cy && lg[i].cyc == cyc + 1;
    for (int i = 0; i < n; i++) ok = ok && lg[i].id == i;
    CHECK("in-registration-order", ok);
    CHECK("with-the-new-cycle", cy);
    // in each group in group order; every group once
    ok = true;
    for (int q = 0; q < ng; q++) {
        int cnt = 0;
        for (unsigned i = n; i < n_lg; i += m) {
            if (lg[i].id == 8 + q * 4) { cnt++; for (int j = 0; j < m; j++) ok = ok && lg[i + j].id == 8 + q * 4 + j; }
        }
        ok = ok && cnt == 1;
    }
    CHECK("groups-once-and-in-order", ok);
    size_t p = 0; ok = true;
    for (int i = 0; i < n; i++) {
        if (ans[i]) ok = ok && !hs[i]->isActive();
        else { ok = ok && p < c->handlers_.size() && c->handlers_[p] == hs[i] && hs[i]->index_ == (int)p; p++; }
    }
    CHECK("exactly-the-askers-removed", ok && c->handlers_.size() == p);
    int act = 0; ok = true;
    for (int q = 0; q < ng; q++) {
        int left = 0; for (int j = 0; j < m; j++) { left += !ans[8 + q * 4 + j]; ok = ok && gh[q][j]->isActive() == !ans[8 + q * 4 + j]; }
        ok = ok && gs[q]->inactive_start_ == left && valid(gs[q], gh[q], m) && (gs[q]->index_ < c->groups_inactive_start_) == (left > 0);
        act += left > 0;
    }
    CHECK("groups-keep-their-active-handlers", ok && groups_ok(c) && c->groups_inactive_start_ == act && (int)c->groups_.size() == ng);
}
#define EX(n, g, m) HARNESS(exec_##n##_##g##_##m) { exec(n, g, m); }
EX(0, 0, 0) EX(1, 0, 0) EX(2, 0, 0) EX(3, 0, 0) EX(4, 0, 0) EX(0, 1, 1) EX(0, 1, 2) EX(0, 2, 1) EX(1, 1, 2) EX(0, 3, 1) EX(0, 2, 2)
static void gexec(int m, int k)
{
    Clock* c = any_clock(true); TH* hs[8]; int32_t ord[8]; orders(ord, m, k);
    Clock::Group* g = grp(c, hs, m, k, 0, ord); bool was[8];
    for (int i = 0; i < 20; i++) ans[i] = vf::any<bool>("remove");
    uint64_t cy = vf::any<uint64_t>("tick");
    bool none = g->execute(cy);
    bool ok = n_lg == (unsigned)k; int left = 0;
    for (int i = 0; i < k; i++) ok = ok && lg[i].id == i && lg[i].cyc == cy;
    CHECK("each-active-called-once-in-order", ok);
    ok = true;
    for (int i = 0; i < m; i++) { was[i] = i < k && !ans[i]; left += was[i]; ok = ok && hs[i]->isActive() == was[i]; }
    CHECK("exactly-the-askers-inactive", ok && g->inactive_start_ == left);
    CHECK("valid", valid(g, hs, m));
    CHECK("empty-reported", none == (left == 0));
}
#define GE(m, k) HARNESS(gexec_##m##_##k) { gexec(m, k); }
GE(1, 0) GE(1, 1) GE(2, 1) GE(2, 2) GE(3, 2) GE(3, 3) GE(4, 3) GE(4, 4)
static bool sched_right(Clock* c)
{
    uint64_t q = now / per;
    bool same = curprio < prio && now != 0 && !sim->endSim && now % per == 0;
    return vfsim::n_ins == 1 && vfsim::ins[0].a == c && vfsim::ins[0].t == (same ? now : q * per + per) && c->current_cycle_ == (same ? q - 1 : q) && c->scheduled_;
}
static void greg(int m, int k, bool sched)
{
    Clock* c = any_clock(sched); TH* hs[8]; int32_t ord[8]; orders(ord, m, k);
    Clock::Group* g = grp(c, hs, m, k, 0, ord); if (k) c->groups_inactive_start_ = 1;
    int32_t hc = g->handler_count_; for (int i = 0; i < m; i++) vf_assume(ord[i] < hc);
    TH* h = th(9); hs[m] = h;
    g->registerHandler(h);
    CHECK("valid", valid(g, hs, m + 1));
    CHECK("last-active", h->isActive() && h->group_ == g && g->inactive_start_ == k + 1 && g->handlers_[k] == h && h->order_ == hc && g->handler_count_ == hc + 1);
    bool ok = true; for (int i = 0; i < m; i++) ok = ok && hs[i]->isActive() == (i < k) && hs[i]->order_ == ord[i];
    CHECK("others-kept", ok);
    CHECK("group-active", g->index_ < c->groups_inactive_start_ && groups_ok(c));
    CHECK("clock-runs", c->scheduled_ && (k || sched ? vfsim::n_ins == 0 : sched_right(c)));
}
#define GR(m, k) HARNESS(greg_##m##_##k) { greg(m, k, true); } HARNESS(gregs_##m##_##k) { greg(m, k, k > 0); }
GR(0, 0) GR(1, 0) GR(1, 1) GR(2, 0) GR(2, 1) GR(2, 2) GR(3, 1) GR(3, 2)
static void gact(int m, int k, int w, bool sched)
{
    Clock* c = any_clock(sched); TH* hs[8]; int32_t ord[8]; orders(ord, m, k);
    Clock::Group* g = grp(c, hs, m, k, 0, ord); if (k) c->groups_inactive_start_ = 1;
    if (vf::any<bool>("through-handler")) { hs[w]->activate(); } else g->activateHandler(hs[w]);
    CHECK("valid", valid(g, hs, m));
    bool ok = true; for (int i = 0; i < m; i++) ok = ok && hs[i]->isActive() == (i < k || i == w) && hs[i]->order_ == ord[i];
    CHECK("exactly-it-activated", ok && g->inactive_start_ == (w < k ? k : k + 1));
    CHECK("group-active", g->index_ < c->groups_inactive_start_ && groups_ok(c));
    CHECK("clock-runs", c->scheduled_ && (k || sched ? vfsim::n_ins == 0 : sched_right(c)));
}
#define GA(m, k, w) HARNESS(gact_##m##_##k##_##w) { gact(m, k, w, true); } HARNESS(gacts_##m##_##k##_##w) { gact(m, k, w, k > 0); }
GA(1, 0, 0) GA(1, 1, 0) GA(2, 0, 0) GA(2, 0, 1) GA(2, 1, 0) GA(2, 1, 1) GA(3, 1, 1) GA(3, 1, 2) GA(3, 2, 2) GA(3, 2, 0) GA(4, 3, 3) GA(4, 2, 3)
static void gdeact(int m, int k, int w)
{
    Clock* c = any_clock(true); TH* hs[8]; int32_t ord[8]; orders(ord, m, k);
    Clock::Group* g = grp(c, hs, m, k, 0, ord); if (k) c->groups_inactive_start_ = 1;
    if (vf::any<bool>("through-handler")) hs[w]->deactivate(); else g->deactivateHandler(hs[w]);
    CHECK("valid", valid(g, hs, m));
    bool ok = true; for (int i = 0; i < m; i++) ok = ok && hs[i]->isActive() == (i < k && i != w) && hs[i]->order_ == ord[i];
    CHECK("exactly-it-deactivated", ok && g->inactive_start_ == (w < k ? k - 1 : k));
    CHECK("clock-untouched", vfsim::n_ins == 0 && c->scheduled_);
}
#define GD(m, k, w) HARNESS(gdeact_##m##_##k##_##w) { gdeact(m, k, w); }
GD(1, 1, 0) GD(1, 0, 0) GD(2, 2, 0) GD(2, 2, 1) GD(2, 1, 0) GD(2, 1, 1) GD(3, 3, 0) GD(3, 3, 1) GD(3, 3, 2) GD(3, 2, 0) GD(4, 3, 0) GD(4, 3, 1)
// clock's own list
static void reg(int n, bool sched)
{
    Clock* c = any_clock(sched); TH* hs[8];
    for (int i = 0; i < n; i++) hs[i] = add(c, i);
    TH* h = th(9); Clock* other = ::new (::operator new(sizeof(Clock))) Clock(TimeConverter(per), prio);
    int kind = vf::any_in<int>("owner", 0, 2);
    int32_t idx = vf::any_in<int32_t>("index", -1000, 1000);
    h->clock_ = kind == 0 ? nullptr : kind == 1 ? c : other; h->index_ = idx;
    if (kind == 0) vf_assume(idx < 0);
    if (kind == 1 && idx >= 0 && n == 0) vf_assume(false);
    TH* hh = kind == 1 && idx >= 0 ? hs[0] : h;      // registered handlers are in the list
    bool fatal = false;
    bool viaact = kind == 1 && vf::any<bool>("through-handler");
    try { if (viaact) hh->activate(); else c->registerHandler(hh); } catch (vf::Fatal&) { fatal = true; }
    CHECK("two-clocks-rejected", fatal == (kind == 2 && idx >= 0));
    bool ok = true; for (int i = 0; i < n; i++) ok = ok && c->handlers_[i] == hs[i] && hs[i]->index_ == i && hs[i]->clock_ == c;
    CHECK("others-kept", ok);
    if (fatal) { CHECK("nothing-added", (int)c->handlers_.size() == n); return; }
    if (hh != h) { CHECK("not-twice", (int)c->handlers_.size() == n && vfsim::n_ins == 0); return; }
    CHECK("added-last", (int)c->handlers_.size() == n + 1 && c->handlers_[n] == h && h->index_ == n && h->clock_ == c && h->isActive());
    CHECK("clock-runs", c->scheduled_ && (sched ? vfsim::n_ins == 0 : sched_right(c)));
    CHECK("found", c->isHandlerRegistered(h));
}
#define RG(n) HARNESS(reg_##n) { reg(n, true); } HARNESS(regs_##n) { reg(n, false); }
RG(0) RG(1) RG(2)
static void rereg(int n, bool sched)     // re-registration at restart
{
    Clock* c = any_clock(sched); TH* hs[8];
    for (int i = 0; i < n; i++) hs[i] = add(c, i);
    TH* h = th(9); int32_t idx = vf::any<int32_t>("index"); h->index_ = idx;
    c->registerHandler_restart(h);
    CHECK("belongs", h->clock_ == c);
    bool ok = true; for (int i = 0; i < n; i++) ok = ok && c->handlers_[i] == hs[i] && hs[i]->index_ == i;
    CHECK("others-kept", ok);
    if (idx < 0) { CHECK("inactive-stays-out", (int)c->handlers_.size() == n && h->index_ == idx && vfsim::n_ins == 0); return; }
    CHECK("added-last", (int)c->handlers_.size() == n + 1 && c->handlers_[n] == h && h->index_ == n);
    CHECK("clock-runs", c->scheduled_ && (sched ? vfsim::n_ins == 0 : sched_right(c)));
}
HARNESS(rereg_0) { rereg(0, false); }
HARNESS(rereg_2) { rereg(2, true); }
static void unreg(int n, int w)       // w == n: a handler that is not registered
{
    Clock* c = any_clock(true); TH* hs[8];
    for (int i = 0; i < n; i++) hs[i] = add(c, i);
    if (w == n) { hs[n] = th(n); hs[n]->clock_ = c; hs[n]->index_ = vf::any_in<int32_t>("index", -1000, -1); }
    bool empty = vf::any<bool>("garbage");
    bool viah = vf::any<bool>("through-handler");
    if (viah) hs[w]->deactivate(); else c->unregisterHandler(hs[w], empty);
    CHECK("inactive", !hs[w]->isActive());
    size_t p = 0; bool ok = true;
    for (int i = 0; i < n; i++) if (i != w) { ok = ok && p < c->handlers_.size() && c->handlers_[p] == hs[i] && hs[i]->index_ == (int)p; p++; }
    CHECK("exactly-it-removed", ok && c->handlers_.size() == p);
    if (!viah) CHECK("empty-reported", empty == (p == 0));
    CHECK("clock-untouched", vfsim::n_ins == 0 && c->scheduled_ && c->current_cycle_ == cyc);
    CHECK("not-found", !c->isHandlerRegistered(hs[w]));
}
#define UR(n, w) HARNESS(unreg_##n##_##w) { unreg(n, w); }
UR(0, 0) UR(1, 0) UR(1, 1) UR(2, 0) UR(2, 1) UR(3, 0) UR(3, 1) UR(3, 2) UR(3, 3) UR(4, 1)
HARNESS(schedule)
{
    Clock* c = any_clock(false);
    c->schedule();
    CHECK("at-its-next-tick", sched_right(c));
}
HARNESS(schedule_law)     // what the formula means
{
    Clock* c = any_clock(false);
    uint64_t q = now / per, r = now % per, n1 = q * per + per;
    vf_lemma("division", q * per + r == now);
    CHECK("after-now", n1 > now);
    CHECK("at-most-one-period", n1 - now <= per);
    if (r == 0) CHECK("exact", q * per == now);
    CHECK("cycle-is-time-over-period", n1 == (q + 1) * per);
}
HARNESS(next_cycle)
{
    bool s = vf::any<bool>("scheduled"); Clock* c = any_clock(s);
    Cycle_t n = c->getNextCycle();
    CHECK("next-cycle", n == (s ? cyc : now / per) + 1);
    c->updateCurrentCycle();
    CHECK("recomputed", c->current_cycle_ == now / per);
    CHECK("period", c->getPeriod().getFactor() == per && c->getPriority() == prio);
    CHECK("nothing-scheduled", vfsim::n_ins == 0 && c->scheduled_ == s);
    TH* h = th(0); h->clock_ = c;
    CHECK("handler-period", h->getClockPeriod().getFactor() == per && h->getClockPriority() == prio);
    Clock::Group g; h->group_ = &g; h->order_ = 3; g.clock_ = c;
    CHECK("grouped-handler-period", h->getClockPeriod().getFactor() == per && h->getClockPriority() == prio);
}
static void actgroup(int n, int k, int w, bool sched)
{
    Clock* c = any_clock(sched); Clock::Group* gs[4]; TH* hs[4];
    for (int i = 0; i < n; i++) { gs[i] = new Clock::Group(); c->registerGroup(gs[i]); }
    bool ok = true; for (int i = 0; i < n; i++) ok = ok && gs[i]->clock_ == c && c->groups_[i] == gs[i] && gs[i]->index_ == i;
    CHECK("registered", ok && c->groups_inactive_start_ == 0 && vfsim::n_ins == 0);
    c->groups_inactive_start_ = k;
    c->activateGroup(gs[w]);
    CHECK("partition", groups_ok(c) && (int)c->groups_.size() == n && c->groups_inactive_start_ == (w < k ? k : k + 1));
    ok = true; for (int i = 0; i < n; i++) ok = ok && (gs[i]->index_ < c->groups_inactive_start_) == (i < k || i == w);
    CHECK("exactly-it-activated", ok);
    if (w >= k) CHECK("clock-runs", c->scheduled_ && (sched ? vfsim::n_ins == 0 : sched_right(c)));
    else CHECK("no-op", vfsim::n_ins == 0);
}
#define AG(n, k, w) HARNESS(groups_##n##_##k##_##w) { actgroup(n, k, w, k > 0); }
AG(1, 0, 0) AG(2, 0, 1) AG(2, 1, 1) AG(2, 1, 0) AG(3, 1, 1) AG(3, 1, 2) AG(3, 0, 2) AG(3, 3, 1)
