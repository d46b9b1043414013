// Contracts for the schedule of periodic checkpoints: SST::CheckpointAction (checkpointAction.cc).
// VF:ASSUME CheckpointAction::createCheckpoint (writing the files) is used by contract: one call = one checkpoint
// VF:ASSUME no 64-bit overflow of the next checkpoint time
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "checkpointAction.cc"
using namespace SST;
static unsigned n_ckpt; static uint64_t ckpt_at; static uint64_t cur;
static void create_stub(CheckpointAction*, Simulation* sim) { n_ckpt++; ckpt_at = sim->currentSimCycle; }
namespace SST { Output Simulation::sim_output; }
double sst_get_cpu_time() { return 0; }
static CheckpointAction* any_action(uint64_t& per, uint64_t& next, bool& gen)
{
    vfsim::setup(); n_ckpt = 0; ckpt_at = 0;
    vf_use_contract(vf::mfn(&CheckpointAction::createCheckpoint), (void*)&create_stub);
    CheckpointAction* a = vf::raw_object<CheckpointAction>("action");
    per = vf::any<uint64_t>("period"); next = vf::any<uint64_t>("next"); gen = vf::any<bool>("requested");
    a->period_ = TimeConverter(per); a->next_sim_time_ = next; a->generate_ = gen;
    return a;
}
HARNESS(first)
{
    Simulation* sim = vfsim::setup(); uint64_t now = sim->currentSimCycle;
    uint64_t per = vf::any<uint64_t>("period");
    Config* cfg = vf::raw_object<Config>("config");
    new ((void*)&cfg->checkpoint_name_format_.value) std::string("%p_%n/%t");
    RankInfo r(1, 0);
    vf_assume(per == 0 || now / per < ~0ull / per);
    char mem[sizeof(CheckpointAction) + 64] __attribute__((aligned(64)));
    CheckpointAction* a = ::new ((void*)mem) CheckpointAction(cfg, r, sim, TimeConverter(per));
    uint64_t n = a->getNextCheckpointSimTime();
    CHECK("none-without-period", vf::implies(per == 0, n == MAX_SIMTIME_T));
    if (per != 0) {
        CHECK("next-multiple", n == (now / per + 1) * per);
    }
    CHECK("nothing-requested", !a->getCheckpoint() && a->getPeriod().getFactor() == per);
    CHECK("sync-priority", a->getPriority() == SYNCPRIORITY);
    CHECK("none-taken", vfsim::n_ins == 0);
}
HARNESS(first_is_after_now)      // the formula above is the first whole multiple after now
{
    uint64_t now = vf::any<uint64_t>("now"), per = vf::any<uint64_t>("period");
    vf_assume(per != 0);
    vf_assume(now / per < ~0ull / per);
    uint64_t n = (now / per + 1) * per;
    CHECK("after-now", n > now);
    CHECK("at-most-one-period", n - now <= per);
}
HARNESS(insert)
{
    uint64_t per, next; bool gen; CheckpointAction* a = any_action(per, next, gen);
    uint32_t nr = vf::any<uint32_t>("ranks"), nt = vf::any<uint32_t>("threads");
    vfsim::sim->num_ranks.rank = nr; vfsim::sim->num_ranks.thread = nt;
    a->insertIntoTimeVortex(vfsim::sim);
    bool ins = next != MAX_SIMTIME_T && nr == 1 && nt == 1;
    CHECK("inserted-iff-serial-and-periodic", vfsim::n_ins == (ins ? 1u : 0u));
    if (ins) CHECK("at-its-time", vfsim::ins[0].t == next && vfsim::ins[0].a == a);
    CHECK("schedule-kept", a->next_sim_time_ == next && a->generate_ == gen && n_ckpt == 0);
}
HARNESS(serial_run)
{
    uint64_t per, next; bool gen; CheckpointAction* a = any_action(per, next, gen);
    vf_assume(next <= ~0ull - per);
    a->CheckpointAction::execute();
    CHECK("one-checkpoint", n_ckpt == 1 && ckpt_at == vfsim::sim->currentSimCycle);
    CHECK("one-period-later", a->next_sim_time_ == next + per && a->getNextCheckpointSimTime() == next + per);
    CHECK("rescheduled-once", vfsim::n_ins == 1 && vfsim::ins[0].t == next + per && vfsim::ins[0].a == a);
    CHECK("period-kept", a->period_.getFactor() == per);
}
HARNESS(parallel_check)
{
    uint64_t per, next; bool gen; CheckpointAction* a = any_action(per, next, gen);
    uint64_t t = vf::any<uint64_t>("t");
    vf_assume(next == MAX_SIMTIME_T || next <= ~0ull - per);
    vf_assume(t < MAX_SIMTIME_T);
    uint64_t r = a->check(t);
    bool due = t == next;
    CHECK("taken-iff-due-or-requested", n_ckpt == ((due || gen) ? 1u : 0u));
    CHECK("request-consumed", !a->getCheckpoint());
    CHECK("shifted-only-when-due", a->next_sim_time_ == (due ? next + per : next));
    CHECK("answers-next", r == a->next_sim_time_);
    CHECK("nothing-scheduled", vfsim::n_ins == 0 && a->period_.getFactor() == per);
}
HARNESS(request)
{
    uint64_t per, next; bool gen; CheckpointAction* a = any_action(per, next, gen);
    CHECK("flag", a->getCheckpoint() == gen);
    a->setCheckpoint();
    CHECK("requested", a->getCheckpoint() && a->next_sim_time_ == next && n_ckpt == 0 && vfsim::n_ins == 0);
    uint64_t t = vf::any<uint64_t>("t"); vf_assume(t != next);
    a->check(t);
    CHECK("taken-once", n_ckpt == 1);
    a->check(t);
    CHECK("not-again", n_ckpt == 1 && a->next_sim_time_ == next);
}
