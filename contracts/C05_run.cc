// Contracts for the run loop and the clocks of SST::Simulation (simulation.cc), for any number of iterations by loop invariant.
// VF:ASSUME the event queue by its contract (C02): pop returns a pending activity, here any activity with any delivery time and priority
// VF:ASSUME the other threads' part of the barriers, the interactive console and the real-time manager have no effect on the clock
// VF:BOUNDED end_adjust_*: at most 2 clocks; next_of_*: at most 3 threads
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#define VF_REAL_SIMULATION
#include "sim_env.h"
#include "simulation.cc"
#include "timeVortex.cc"
#include "exit.cc"
#include "unitAlgebra.cc"
using namespace SST;
static Simulation* sim;
static uint64_t before, t_now; static int p_now; static unsigned n_exec, n_pop;
static Activity* last;
static void any_flags()
{
    sim->endSim = vf::any<bool>("endsim");
    sim->signal_arrived_ = vf::any<int>("signal");
    sim->enter_interactive_ = vf::any<bool>("interactive");
}
struct Act : public Action {
    void execute() override
    {
        CHECK("clock-is-its-delivery-time", sim->currentSimCycle == getDeliveryTime() && sim->getCurrentSimCycle() == getDeliveryTime());
        CHECK("priority-is-its-priority", sim->currentPriority == getPriority() && sim->getCurrentPriority() == getPriority());
        CHECK("the-popped-one", this == last && getDeliveryTime() == t_now && getPriority() == p_now);
        CHECK("executed-once", n_exec == 0);
        n_exec++;
        vf::ghost_flag = t_now < before;     // it lies in the past
        vf::ghost_time = t_now;
        any_flags();
    }
    std::string toString() const override { return ""; }
};
struct Vortex : public TimeVortex {
    bool empty() override { return false; }
    int size() override { return 1; }
    void insert(Activity* a) override { inserted = a; n_ins++; }
    Activity* inserted = nullptr; unsigned n_ins = 0;
    Activity* pop() override
    {
        CHECK("nothing-runs-after-a-time-fault", !vf::ghost_flag);
        CHECK("clock-kept-between-activities", vf::ghost_time <= sim->currentSimCycle);
        before = sim->currentSimCycle; n_exec = 0; n_pop++;
        Act* a = ::new (::operator new(sizeof(Act))) Act();
        t_now = vf::any<uint64_t>("time");
        VF_ONLY_NATIVE(t_now = vfn_random(8) ? before + t_now % 4 : t_now;)
        p_now = vf::any_in<int>("prio", -1000000, 1000000);
        a->setDeliveryTime(t_now); a->setPriority(p_now);
        VF_ONLY_NATIVE(if (n_pop > 20) { sim->endSim = true; throw vf::Ended(); })
        return last = a;
    }
    Activity* front() override { return last; }
    uint64_t getCurrentDepth() const override { return 7; }
    void getContents(std::vector<Activity*>&) const override {}
};

static unsigned n_setup, n_notify; static uint64_t end_by_exit; static unsigned n_compute;
static void no_setup(Simulation*) { n_setup++; }
static void notify(RealTimeManager*) { CHECK("signal-taken-once", sim->signal_arrived_ == 0); n_notify++; }
static SimTime_t compute_end(Exit*) { n_compute++; return end_by_exit; }
static double no_wait(Core::ThreadSafe::Barrier*) { return 0; }
double sst_get_cpu_time() { return 1.0; }
struct Console : public InteractiveConsole {
    int execute(const std::string&) override { any_flags(); return 0; }
    void summary() override {}
};
static Vortex* tv;
static void state()
{
    sim = vfsim::setup();
    tv = ::new (::operator new(sizeof(Vortex))) Vortex(); sim->timeVortex = tv;
    sim->interactive_ = vf::any<bool>("console") ? ::new (::operator new(sizeof(Console))) Console() : nullptr;
    ::new (&sim->interactive_msg_) std::string();
    sim->real_time_ = vf::raw_object<RealTimeManager>("rt");
    Simulation::m_exit = vf::raw_object<Exit>("exit");
    sim->num_ranks.rank = vf::any_in<uint32_t>("ranks", 1, ~0u - 1); sim->num_ranks.thread = vf::any_in<uint32_t>("threads", 1, ~0u - 1);
    sim->my_rank.thread = vf::any<uint32_t>("thread");
    Simulation::minPart = vf::any<bool>("uncut") ? MAX_SIMTIME_T : vf::any<uint64_t>("minpart");
    sim->endSimCycle = vf::any<uint64_t>("end_cycle"); sim->currentPriority = vf::any<int>("prio0");
    end_by_exit = vf::any<uint64_t>("exit_end");
    n_setup = n_notify = n_compute = n_pop = n_exec = 0; last = nullptr;
    vf_use_contract(vf::mfn(&Simulation::setup_interactive_mode), (void*)&no_setup);
    vf_use_contract(vf::mfn(&RealTimeManager::notifySignal), (void*)&notify);
    vf_use_contract(vf::mfn(&Exit::computeEndTime), (void*)&compute_end);
    vf_use_contract(vf::mfn(&Core::ThreadSafe::Barrier::wait), (void*)&no_wait);
    any_flags();
}
HARNESS(run)
{
    state();
    uint64_t start = sim->currentSimCycle, e0 = sim->endSimCycle; int pr0 = sim->currentPriority;
    vf::ghost_flag = false; vf::ghost_time = start;
    bool fatal = false, ended = false, never = sim->endSim;
    try { sim->run(); } catch (vf::Fatal&) { fatal = true; } catch (vf::Ended&) { ended = true; }
    if (ended) return;
    CHECK("time-fault-reported-exactly-when-one-happened", fatal == vf::ghost_flag);
    if (fatal) { vf_cover("fault"); return; }
    CHECK("clock-stays-at-the-last-activity", sim->currentSimCycle >= vf::ghost_time);
    if (never) CHECK("nothing-runs-after-the-end", n_pop == 0 && sim->currentSimCycle == start && sim->currentPriority == pr0);
    else { CHECK("clock-is-the-last-activity's", sim->currentSimCycle == vf::ghost_time); vf_cover("ran"); }
    CHECK("stops-only-when-ended", sim->endSim);
    bool recompute = Simulation::minPart == MAX_SIMTIME_T && sim->num_ranks.rank > 1 && sim->my_rank.thread == 0;
    CHECK("end-time", sim->endSimCycle == (recompute ? end_by_exit : e0) && n_compute == (recompute ? 1 : 0));
}
HARNESS(end_now)
{
    state();
    uint64_t now = sim->currentSimCycle; uint64_t e0 = Simulation::m_exit->end_time_;
    sim->endSimulation();
    CHECK("ends", sim->endSim);
    CHECK("end-is-now", sim->endSimCycle == now && sim->getEndSimCycle() == now && Simulation::m_exit->end_time_ == now);
    CHECK("clock-kept", sim->currentSimCycle == now);
}
HARNESS(end_at)
{
    state();
    uint64_t now = sim->currentSimCycle, e0 = Simulation::m_exit->end_time_, t = vf::any<uint64_t>("at");
    sim->endSimulation(t);
    CHECK("ends", sim->endSim);
    CHECK("end-is-that-time", sim->endSimCycle == t && sim->getEndSimCycle() == t && Simulation::m_exit->end_time_ == e0);
    CHECK("clock-kept", sim->currentSimCycle == now);
}
HARNESS(shutdown)
{
    state();
    uint64_t now = sim->currentSimCycle, e0 = sim->endSimCycle;
    bool ab = vf::any<bool>("abnormal"), con = vf::any<bool>("from_console"); bool was = sim->endSim;
    sim->enter_shutdown_ = false;
    bool serial = sim->num_ranks.rank == 1 && sim->num_ranks.thread == 1;
    if (con) sim->consoleShutdown(ab); else sim->signalShutdown(ab);
    CHECK("mode", sim->shutdown_mode_ == (ab ? Simulation::SHUTDOWN_SIGNAL : Simulation::SHUTDOWN_CLEAN));
    CHECK("ends-or-asks-the-sync", sim->endSim == (was || !con || serial) && sim->enter_shutdown_ == (con && !serial));
    CHECK("times-kept", sim->currentSimCycle == now && sim->endSimCycle == e0);
    sim->setEndSim();
    CHECK("set-end", sim->endSim && sim->currentSimCycle == now && sim->endSimCycle == e0);
}
HARNESS(queries)
{
    state();
    const Simulation* s = sim;
    CHECK("current", s->getCurrentSimCycle() == sim->currentSimCycle);
    CHECK("priority", s->getCurrentPriority() == sim->currentPriority);
    CHECK("end", s->getEndSimCycle() == sim->endSimCycle);
    Act* a = ::new (::operator new(sizeof(Act))) Act(); a->setDeliveryTime(vf::any<uint64_t>("front")); last = a;
    CHECK("next", s->getNextActivityTime() == a->getDeliveryTime());
    uint64_t now = sim->currentSimCycle, t = vf::any<uint64_t>("at");
    Act* b = ::new (::operator new(sizeof(Act))) Act(); b->setPriority(5); b->setOrderTag(9);
    sim->insertActivity(t, b);
    CHECK("scheduled", tv->n_ins == 1 && tv->inserted == b && b->getDeliveryTime() == t && b->getPriority() == 5 && b->getOrderTag() == 9);
    CHECK("clock-kept", sim->currentSimCycle == now);
}
static UnitAlgebra base()
{
    UnitAlgebra& tb = Simulation::timeLord.timebase_;
    ::new (&tb) UnitAlgebra();
    for (int i = 0; i < 6; i++) tb.value.data[i] = vf::any<uint32_t>("base");
    tb.unit.numerator.push_back(3);
    return tb;
}
static bool same_quantity(const UnitAlgebra& a, const UnitAlgebra& b)
{
    bool r = a.value.negative == b.value.negative && a.unit.numerator.size() == 1 && a.unit.numerator[0] == b.unit.numerator[0] && a.unit.denominator.empty();
    for (int i = 0; i < 6; i++) r = r && a.value.data[i] == b.value.data[i];
    return r;
}
HARNESS(elapsed)
{
    state(); UnitAlgebra tb = base();
    sst_big_num want = tb.value; want *= sim->currentSimCycle;
    UnitAlgebra got = sim->getElapsedSimTime();
    tb.value = want;
    CHECK("elapsed-is-cycle-times-base", same_quantity(got, tb));
}
HARNESS(end_time)
{
    state(); UnitAlgebra tb = base();
    sst_big_num want = tb.value; want *= sim->endSimCycle;
    UnitAlgebra got = sim->getEndSimTime();
    tb.value = want;
    CHECK("end-is-end-cycle-times-base", same_quantity(got, tb));
}
static Clock* ck[2]; static unsigned n_upd[2];
static void update(Clock* c)
{
    CHECK("clock-set-before-the-update", sim->currentSimCycle == sim->endSimCycle);
    n_upd[c == ck[1]]++;
}
template <unsigned N> static void adjust()
{
    state();
    ::new (&sim->clockMap) Simulation::clockMap_t();
    vf_use_contract(vf::mfn(&Clock::updateCurrentCycle), (void*)&update);
    uint64_t e = sim->endSimCycle; uint64_t f = vf::any<uint64_t>("f");
    for (unsigned i = 0; i < N; i++) { ck[i] = vf::raw_object<Clock>(i ? "c1" : "c0"); n_upd[i] = 0; sim->clockMap[std::make_pair(f + i, 5)] = ck[i]; }
    sim->adjustTimeAtSimEnd();
    CHECK("clock-is-the-end", sim->currentSimCycle == e && sim->endSimCycle == e);
    for (unsigned i = 0; i < N; i++) CHECK("every-clock-updated-once", n_upd[i] == 1);
}
HARNESS(end_adjust_0) { adjust<0>(); }
HARNESS(end_adjust_1) { adjust<1>(); }
HARNESS(end_adjust_2) { adjust<2>(); }
template <unsigned N> static void minimum()
{
    state();
    ::new (&Simulation::instanceVec_) std::vector<Simulation*>();
    uint64_t t[3], m = MAX_SIMTIME_T;
    struct V1 : public Vortex { Act* f; Activity* front() override { return f; } };
    for (unsigned i = 0; i < N; i++) {
        Simulation* s = vf::raw_object<Simulation>("thr");
        V1* v = ::new (::operator new(sizeof(V1))) V1();
        v->f = ::new (::operator new(sizeof(Act))) Act();
        t[i] = vf::any<uint64_t>("next"); v->f->setDeliveryTime(t[i]);
        s->timeVortex = v; Simulation::instanceVec_.push_back(s);
        if (t[i] < m) m = t[i];
    }
    CHECK("earliest-of-all-threads", sim->getLocalMinimumNextActivityTime() == m);
}
HARNESS(next_of_1) { minimum<1>(); }
HARNESS(next_of_2) { minimum<2>(); }
HARNESS(next_of_3) { minimum<3>(); }
