// Contracts for TimeConverter (timeConverter.h): exact conversions between component and core time.
#include "sst_config.h"
#include "sst/core/timeConverter.h"
#include "verif.h"
using namespace SST;
static bool overflows(uint64_t a, uint64_t b) { uint64_t r; return __builtin_mul_overflow(a, b, &r); }
static TimeConverter tc(SimTime_t& f) { f = vf::any<uint64_t>("factor"); return TimeConverter(f); }
HARNESS(convert)
{
    SimTime_t f, t = vf::any<uint64_t>("t"); TimeConverter c = tc(f);
    CHECK("factor", c.getFactor() == f);
    CHECK("initialised", c.isInitialized() == (f != 0) && (bool)c == (f != 0));
    CHECK("to-core", c.convertToCoreTime(t) == t * f);
    vf_assume(f != 0);
    SimTime_t q = c.convertFromCoreTime(t);
    CHECK("from-core", q == t / f);
    TimeConverter d(c), e; e = c;
    CHECK("copies", d.getFactor() == f && e.getFactor() == f && c.getFactor() == f);
    c.reset();
    CHECK("reset", c.getFactor() == 0 && !c.isInitialized());
    TimeConverter z;
    CHECK("default", z.getFactor() == 0);
}
HARNESS(floor)       // converting from core time: q units fit in t, q+1 do not
{
    SimTime_t f, t = vf::any<uint64_t>("t"); TimeConverter c = tc(f);
    vf_assume(f != 0);
    SimTime_t q = c.convertFromCoreTime(t);
    SimTime_t r = t - q * f;
    vf_lemma("remainder", r == t % f);
    CHECK("remainder-below-one-unit", r < f);
    CHECK("never-forward", q <= t);
    SimTime_t back = c.convertToCoreTime(q);
    CHECK("back", back == t - r);
}
HARNESS(round_trip)
{
    SimTime_t f, t = vf::any<uint64_t>("t"); TimeConverter c = tc(f);
    vf_assume(f != 0);
    vf_assume(!overflows(t, f));
    CHECK("identity", c.convertFromCoreTime(c.convertToCoreTime(t)) == t);
}
