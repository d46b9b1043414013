// Contracts for SST::Action::endSimulation (action.cc): the run ends now, or at the given time, once.
#include "sst_config.h"
#include "verif.h"
#define VF_REAL_ACTION
#include "sim_env.h"
#include "action.cc"
#include "sst/core/stopAction.h"
using namespace SST;
struct A : public Action { void execute() override {} };
HARNESS(end_now)
{
    Simulation* sim = vfsim::setup(); uint64_t now = sim->currentSimCycle;
    A a; a.endSimulation();
    CHECK("once-now", vfsim::n_end == 1 && !vfsim::end_with_time && vfsim::end_at == now);
}
HARNESS(end_at)
{
    vfsim::setup(); uint64_t t = vf::any<uint64_t>("t");
    A a; a.endSimulation(t);
    CHECK("once-at-that-time", vfsim::n_end == 1 && vfsim::end_with_time && vfsim::end_at == t);
}
static unsigned n_del;
struct Stop : public StopAction { Stop() : StopAction() {} ~Stop() override { n_del++; } };
HARNESS(stop_action)
{
    Simulation* sim = vfsim::setup(); uint64_t now = sim->currentSimCycle; n_del = 0;
    Stop* s = new Stop();
    CHECK("priority", s->getPriority() == STOPACTIONPRIORITY);
    s->execute();
    CHECK("ends-now", vfsim::n_end == 1 && !vfsim::end_with_time && vfsim::end_at == now);
    CHECK("gone", n_del == 1);
}
