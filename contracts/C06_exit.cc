// Contracts for SST::Exit (exit.cc) and the primary-component calls of BaseComponent (baseComponent.cc).
// VF:ASSUME Simulation::insertActivity/endSimulation/getCurrentSimCycle are used by contract (proved in C05)
// VF:ASSUME MPI_Allreduce is modelled: SUM of the ranks' flags (>0 iff some rank's flag is set), MAX of the ranks' end times
// VF:ASSUME calls on one Exit object are serialised by its lock (each call is verified as one atomic step)
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "mpi.h"
#include "exit.cc"
using namespace SST;
static int mpi_calls; static unsigned other_flags; static uint64_t other_end;
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, MPI_Comm)
{
    mpi_calls++;
    if (mpi_calls == 1) { int v = *(const int*)s; *(int*)r = v + (int)other_flags; }
    else { uint64_t v = *(const uint64_t*)s; *(uint64_t*)r = v > other_end ? v : other_end; }
    return 0;
}
struct Ctx { Exit* e; uint32_t nt; uint32_t* tc; uint32_t* old; uint32_t ref; uint64_t end; bool single; };
static Ctx any_exit()
{
    Ctx c;
    Simulation* sim = vfsim::setup();
    sim->independent = vf::any<bool>("independent");
    c.nt = vf::any_in<uint32_t>("threads", 1, vf_symbolic() ? 0x7fffffff : 6);
    c.e = vf::raw_object<Exit>("exit");
    c.tc = (uint32_t*)vf_any_array("thread_counts", 4, c.nt);
    c.e->num_threads_ = (int)c.nt;
    c.e->thread_counts_ = c.tc;
    c.e->ref_count_ = c.ref = vf::any<uint32_t>("ref_count");
    c.e->end_time_ = c.end = vf::any<uint64_t>("end_time");
    c.e->single_rank_ = c.single = vf::any<bool>("single_rank");
    c.e->slock_.latch.clear();
    c.old = (uint32_t*)vf_snapshot(c.tc, 4 * (uint64_t)c.nt);
    return c;
}
static bool unlocked(Exit* e) { bool r = !e->slock_.latch.test_and_set(); e->slock_.latch.clear(); return r; }
HARNESS(refInc)
{
    Ctx c = any_exit();
    uint32_t th = vf::any<uint32_t>("thread");
    vf_assume(th < c.nt && c.ref < 0xffffffffu && c.old[th] < 0xffffffffu);
    c.e->refInc(th);
    CHECK("count-plus-one", c.e->ref_count_ == c.ref + 1);
    CHECK("thread-count-plus-one", c.tc[th] == c.old[th] + 1);
    CHECK("other-threads-unchanged", vf::forall(0, c.nt, [&](uint64_t k) { return k == th || c.tc[k] == c.old[k]; }));
    CHECK("nothing-scheduled", vfsim::n_ins == 0 && vfsim::n_end == 0 && c.e->end_time_ == c.end);
    CHECK("unlocked", unlocked(c.e));
    CHECK("getRefCount", c.e->getRefCount() == c.ref + 1);
}
HARNESS(refDec)
{
    Ctx c = any_exit();
    uint32_t th = vf::any<uint32_t>("thread");
    vf_assume(th < c.nt);
    // invariant kept by every call: a thread's own count never exceeds the total, and they agree for one thread
    vf_assume(c.old[th] <= c.ref);
    if (c.nt == 1) vf_assume(c.old[0] == c.ref);
    vf_assume(vf::implies(c.ref > 0, c.old[th] > 0));   // the calling thread has a registered component
    uint64_t now = vfsim::sim->currentSimCycle;
    bool fatal = false;
    // Exit is abstract only through its Action base: its vtable pointer is not needed here, priority is
    try { c.e->refDec(th); } catch (vf::Fatal&) { fatal = true; }
    CHECK("underflow-rejected", fatal == (c.ref == 0));
    if (fatal) { CHECK("nothing-changed-on-error", c.e->ref_count_ == 0 && vfsim::n_ins == 0); vf_cover("fatal"); return; }
    CHECK("count-minus-one", c.e->ref_count_ == c.ref - 1);
    CHECK("thread-count-minus-one", c.tc[th] == c.old[th] - 1);
    CHECK("other-threads-unchanged", vf::forall(0, c.nt, [&](uint64_t k) { return k == th || c.tc[k] == c.old[k]; }));
    CHECK("unlocked", unlocked(c.e));
    CHECK("not-ended-here", vfsim::n_end == 0);
    bool serial = c.single && c.nt == 1;
    bool zero_total = c.ref == 1, zero_thread = c.old[th] == 1;
    if (serial) {
        // serial run: the exit activity is scheduled when, and only when, the last component agreed
        CHECK("serial-exit-iff-last", vf::implies(zero_total, vfsim::n_ins == 1 && vfsim::ins[0].a == c.e && vfsim::ins[0].t == now + 1));
        CHECK("serial-no-exit-before-last", vf::implies(!zero_total, vfsim::n_ins == 0));
        CHECK("serial-end-time", c.e->end_time_ == (zero_total ? now : c.end));
    }
    else {
        CHECK("end-time-is-latest", c.e->end_time_ == (zero_thread && now > c.end ? now : c.end));
        bool stop = zero_thread && vfsim::sim->independent;
        CHECK("independent-thread-stops-iff-its-last", (vfsim::n_ins == 1) == stop && vfsim::n_ins <= 1);
        CHECK("stop-at-current-time", vf::implies(stop, vfsim::ins[0].t == now && vfsim::ins[0].a != c.e && vfsim::ins[0].prio == STOPACTIONPRIORITY));
    }
    vf_cover("end");
}
HARNESS(check)
{
    Ctx c = any_exit();
    mpi_calls = 0; other_flags = vf::any_in<uint32_t>("other_flags", 0, 1u << 20); other_end = vf::any<uint64_t>("other_end");
    bool via_execute = vf::any<bool>("via_execute");
    if (via_execute) c.e->Exit::execute(); else c.e->check();
    bool end = c.ref == 0 && (c.single || other_flags == 0);
    CHECK("global-count-zero-iff-all-agreed", (c.e->getGlobalCount() == 0) == end);
    uint64_t et = c.single || c.end > other_end ? c.end : other_end;
    CHECK("end-time-is-global-max", c.e->getEndTime() == (end ? et : c.end));
    // a single rank ends through endSimulation at the recorded end time; several ranks end through the sync manager
    CHECK("ended-iff-all-agreed", vfsim::n_end == (end && c.single ? 1u : 0u));
    CHECK("ended-at-end-time", vf::implies(vfsim::n_end == 1, vfsim::end_at == c.end && vfsim::end_with_time));
    CHECK("counts-kept", c.e->ref_count_ == c.ref);
}
HARNESS(construct)
{
    int nt = vf::any_in<int>("threads", 1, vf_symbolic() ? 0x7fffffff : 20);
    bool single = vf::any<bool>("single");
    Exit e(nt, single);
    CHECK("zero-counts", e.ref_count_ == 0 && vf::forall(0, nt, [&](uint64_t k) { return e.thread_counts_[k] == 0; }));
    CHECK("mode", e.num_threads_ == nt && e.single_rank_ == single && e.end_time_ == 0);
    CHECK("priority", e.getPriority() == EXITPRIORITY);
    CHECK("unlocked", unlocked(&e));
}
