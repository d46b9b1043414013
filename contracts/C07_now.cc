// Contracts for the current-time queries of SST::BaseComponent (baseComponent.cc).
// VF:ASSUME TimeLord::getTimeConverter answers with an arbitrary non-zero factor or reports underflow (its contract: C07_lord.cc)
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "sst/core/timeLord.h"
#include "baseComponent.cc"
using namespace SST;
static SimTime_t fac; static bool under; static unsigned n_conv; static int asked;
static bool is(const std::string& a, const char* b) { return a == b; }
namespace SST {
TimeLord Simulation::timeLord;
TimeConverter TimeLord::getTimeConverter(const std::string& s)
{
    n_conv++;
    asked = is(s, "1 ns") ? 1 : is(s, "1 us") ? 2 : is(s, "1 ms") ? 3 : is(s, "unit") ? 4 : 0;
    if (under) throw std::underflow_error("small");
    return TimeConverter(fac);
}
TimeLord::~TimeLord() {}
}
struct VComp : public BaseComponent {};
static BaseComponent* comp(uint64_t& now)
{
    Simulation* sim = vfsim::setup();
    now = sim->currentSimCycle;
    BaseComponent* b = vf::raw_object<BaseComponent>("comp");
    b->sim_ = sim;
    n_conv = 0; asked = 0; under = false;
    fac = vf::any_in<uint64_t>("factor", 1, ~0ull - 1);
    return b;
}
HARNESS(now_in_converter)
{
    uint64_t now; BaseComponent* b = comp(now);
    CHECK("floor", b->getCurrentSimTime(TimeConverter(fac)) == now / fac);
    CHECK("core-cycle", b->getCurrentSimCycle() == now);
}
HARNESS(now_in_named_unit)
{
    uint64_t now; BaseComponent* b = comp(now);
    std::string u("unit");
    CHECK("floor", b->getCurrentSimTime(u) == now / fac);
    CHECK("asked-for-that-unit", n_conv == 1 && asked == 4);
}
HARNESS(now_nano_micro_milli)
{
    uint64_t now; BaseComponent* b = comp(now);
    SimTime_t n = vf::any<uint64_t>("nano"), u = vf::any<uint64_t>("micro"), m = vf::any<uint64_t>("milli");
    Simulation::timeLord.nano_ = TimeConverter(n); Simulation::timeLord.micro_ = TimeConverter(u); Simulation::timeLord.milli_ = TimeConverter(m);
    SimTime_t a = b->getCurrentSimTimeNano();
    CHECK("nano", a == now / (n ? n : fac) && (n ? n_conv == 0 : asked == 1));
    n_conv = 0;
    SimTime_t c = b->getCurrentSimTimeMicro();
    CHECK("micro", c == now / (u ? u : fac) && (u ? n_conv == 0 : asked == 2));
    n_conv = 0;
    SimTime_t d = b->getCurrentSimTimeMilli();
    CHECK("milli", d == now / (m ? m : fac) && (m ? n_conv == 0 : asked == 3));
}
