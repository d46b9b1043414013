// Contracts for the primary-component calls of SST::BaseComponent (baseComponent.cc).
// VF:ASSUME Exit::refInc/refDec are used by contract here (proved in C06_exit.cc)
// VF:ASSUME Simulation::isWireUpFinished answers arbitrarily
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "sst/core/exit.h"
#include "baseComponent.cc"
using namespace SST;
static unsigned n_inc, n_dec, at_thread;
namespace SST {
void Exit::refInc(uint32_t th) { n_inc++; at_thread = th; }
void Exit::refDec(uint32_t th) { n_dec++; at_thread = th; }
}
struct VComp : public BaseComponent {
    void execute() {}
    void serialize_order(SST::Core::Serialization::serializer&) override {}
};
// the registration automaton of one component: not primary -> primary -> counted <-> agreed
static BaseComponent* any_comp(uint8_t& st, uint32_t& th)
{
    Simulation* sim = vfsim::setup();
    BaseComponent* b = vf::raw_object<BaseComponent>("comp");
    b->sim_ = sim;
    th = vf::any<uint32_t>("my_thread");
    sim->my_rank.thread = th;
    Simulation::m_exit = vf::raw_object<Exit>("exit");
    st = vf::any<uint8_t>("state");
    b->component_state_ = (BaseComponent::ComponentState)st;
    b->my_info_ = vf::raw_object<ComponentInfo>("info");
    b->my_info_->parent_info = nullptr;
    new ((void*)&b->my_info_->name) std::string("c");
    n_inc = n_dec = 0;
    return b;
}
using CS = BaseComponent::ComponentState;
static bool has(uint8_t s, CS f) { return (s & (uint8_t)f) != 0; }
HARNESS(doNotEnd)
{
    uint8_t s; uint32_t th; BaseComponent* b = any_comp(s, th);
    vf_assume(!(has(s, CS::DoNotEndSim) && has(s, CS::OKToEndSim)));   // invariant, kept by every call below
    b->primaryComponentDoNotEndSim();
    uint8_t n = (uint8_t)b->component_state_;
    bool counts = has(s, CS::Primary) && !has(s, CS::DoNotEndSim);
    CHECK("counted-once", n_inc == (counts ? 1u : 0u) && n_dec == 0);
    CHECK("own-thread", vf::implies(counts, at_thread == th));
    CHECK("state-counted", has(n, CS::DoNotEndSim) == (has(s, CS::DoNotEndSim) || counts));
    CHECK("state-exclusive", !(has(n, CS::DoNotEndSim) && has(n, CS::OKToEndSim)));
    CHECK("state-rest", has(n, CS::Primary) == has(s, CS::Primary) && has(n, CS::Extension) == has(s, CS::Extension));
}
HARNESS(okToEnd)
{
    uint8_t s; uint32_t th; BaseComponent* b = any_comp(s, th);
    vf_assume(!(has(s, CS::DoNotEndSim) && has(s, CS::OKToEndSim)));
    b->primaryComponentOKToEndSim();
    uint8_t n = (uint8_t)b->component_state_;
    bool releases = has(s, CS::Primary) && has(s, CS::DoNotEndSim);
    // a component leaves the count exactly when it was in it
    CHECK("released-once-iff-counted", n_dec == (releases ? 1u : 0u) && n_inc == 0);
    CHECK("own-thread", vf::implies(releases, at_thread == th));
    CHECK("state-not-counted", !has(n, CS::DoNotEndSim) || !has(s, CS::Primary));
    CHECK("state-agreed", has(n, CS::OKToEndSim) == (has(s, CS::OKToEndSim) || has(s, CS::Primary)));
    CHECK("state-rest", has(n, CS::Primary) == has(s, CS::Primary) && has(n, CS::Extension) == has(s, CS::Extension));
}
HARNESS(registerPrimary)
{
    uint8_t s; uint32_t th; BaseComponent* b = any_comp(s, th);
    bool wired = vf::any<bool>("wired");
    b->sim_->wireUpFinished_ = wired;
    bool fatal = false;
    try { b->registerAsPrimaryComponent(); } catch (vf::Fatal&) { fatal = true; }
    uint8_t n = (uint8_t)b->component_state_;
    CHECK("late-registration-rejected", fatal == wired);
    CHECK("primary", has(n, CS::Primary) == (has(s, CS::Primary) || !wired));
    CHECK("rest-unchanged", (n | (uint8_t)CS::Primary) == (s | (uint8_t)CS::Primary));
    CHECK("count-unchanged", n_inc == 0 && n_dec == 0);
}
