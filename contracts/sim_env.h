// Environment of the functions under contract: a Simulation object in an arbitrary state and recording contracts for the
// Simulation members the verified code calls (their own contracts are proved in C05).
#ifndef VF_SIM_ENV_H
#define VF_SIM_ENV_H
#include "sst/core/simulation.h"
#include "sst/core/action.h"
#include "verif.h"
namespace SST {
#ifndef VF_REAL_SIMULATION
std::unordered_map<std::thread::id, Simulation*> Simulation::instanceMap;
#endif
}
namespace vfsim {
struct Ins { uint64_t t; SST::Activity* a; int prio; uint64_t dt; };
inline Ins ins[8]; inline unsigned n_ins; inline unsigned n_end; inline uint64_t end_at; inline bool end_with_time;
inline SST::Simulation* sim;
inline SST::Simulation* the_sim() { return sim; }
inline SST::Simulation* setup()
{
    sim = vf::raw_object<SST::Simulation>("sim");
    n_ins = 0; n_end = 0; end_at = 0; end_with_time = false;
    vf_use_contract((void*)&SST::Simulation::getSimulation, (void*)&the_sim);
#ifdef VF_NATIVE
    SST::Simulation::instanceMap[std::this_thread::get_id()] = sim;
#endif
    sim->currentSimCycle = vf::any<uint64_t>("now");
    return sim;
}
}
#ifndef VF_REAL_SIMULATION
namespace SST {
void Simulation::insertActivity(SimTime_t t, Activity* a)
{
    // contract of Simulation::insertActivity: the activity is scheduled at t
    if (vfsim::n_ins >= 8) vf_assume(false);
    vfsim::ins[vfsim::n_ins].t = t; vfsim::ins[vfsim::n_ins].a = a; vfsim::ins[vfsim::n_ins].prio = a->getPriority();
    a->setDeliveryTime(t);
    vfsim::n_ins++;
}
SimTime_t Simulation::getCurrentSimCycle() const { return currentSimCycle; }
int Simulation::getCurrentPriority() const { return currentPriority; }
#ifndef VF_REAL_ACTION
void Action::endSimulation(SimTime_t end) { vfsim::n_end++; vfsim::end_at = end; vfsim::end_with_time = true; }   // one call, proved in C05
#endif
void Simulation::endSimulation() { vfsim::n_end++; vfsim::end_at = currentSimCycle; vfsim::end_with_time = false; }
void Simulation::endSimulation(SimTime_t end) { vfsim::n_end++; vfsim::end_at = end; vfsim::end_with_time = true; }
}
#endif
#endif
