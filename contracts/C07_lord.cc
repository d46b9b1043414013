// Contracts for TimeLord (timeLord.cc): from a period or frequency to the factor of a TimeConverter.
// VF:ASSUME UnitAlgebra's operators and unit tests are used by contract (their own: C09); the quotient is any normal-form number
// VF:ASSUME decimal_fixedpoint comparisons and toLong: real code (C08)
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "timeLord.cc"
using namespace SST;
using D = sst_big_num;
static const uint64_t R = 100000000ull;
static D quot; static unsigned n_div, n_inv; static const UnitAlgebra* inv_of; static D div_l, div_r; static bool div_after_inv, inv_was_lhs;
static bool deq(const D& a, const D& b) { bool e = true; for (int i = 0; i < 6; i++) e = e & (a.data[i] == b.data[i]); return e & (a.negative == b.negative); }
static D any_d(const char* nm)
{
    D d; d.negative = false;
    for (int i = 0; i < 6; i++) d.data[i] = vf::any_in<uint32_t>(nm, 0, (uint32_t)R - 1);
    return d;
}
enum : uint8_t { SEC = 1, HZ = 2, OTHER = 3, NONE = 9, INV = 10 };
static UnitAlgebra ua(const D& v, uint8_t code) { UnitAlgebra u; u.value = v; u.unit.numerator.push_back(code); return u; }
static TimeLord* TL;
namespace SST {
bool UnitAlgebra::hasUnits(const std::string& s) const
{
    if (s == "s") return unit.numerator[0] == SEC;
    if (s == "Hz") return unit.numerator[0] == HZ;
    vf_assume(false); return false;
}
UnitAlgebra& UnitAlgebra::operator/=(const UnitAlgebra& v)
{
    n_div++; div_l = value; div_r = v.value; inv_was_lhs = unit.numerator[0] == INV;
    value = quot; unit.numerator[0] = NONE;
    return *this;
}
UnitAlgebra& UnitAlgebra::invert() { n_inv++; unit.numerator[0] = INV; return *this; }
int64_t UnitAlgebra::getRoundedValue() const { return value.toLong(); }
std::string UnitAlgebra::toStringBestSI(int32_t) const { return "x"; }
}
static UnitAlgebra* setup(const D& p, uint8_t code, const D& tb)
{
    TL = vf::raw_object<TimeLord>("timelord");
    new ((void*)&TL->timebase_) UnitAlgebra(); TL->timebase_.value = tb; TL->timebase_.unit.numerator.push_back(SEC);
    TL->initialized_ = true;
    n_div = n_inv = 0; inv_was_lhs = false;
    return new UnitAlgebra(ua(p, code));
}
static void outcome(UnitAlgebra* t, int& how, SimTime_t& r)     // 0 value, 1 overflow, 2 underflow, 3 invalid
{
    how = -1; r = 0;
    try { r = TL->getFactorForTime(*t); how = 0; }
    catch (const std::overflow_error&) { how = 1; }
    catch (const std::underflow_error&) { how = 2; }
    catch (const std::invalid_argument&) { how = 3; }
}
static bool big(const D& q)      // q > 2^64-1
{
    const uint64_t M = ~0ull;
    uint64_t w5 = M / R / R, w4 = (M / R) % R, w3 = M % R;
    bool frac = q.data[0] != 0 || q.data[1] != 0 || q.data[2] != 0;
    if (q.data[5] != w5) return q.data[5] > w5;
    if (q.data[4] != w4) return q.data[4] > w4;
    if (q.data[3] != w3) return q.data[3] > w3;
    return frac;
}
static void contract(uint8_t code)
{
    D p = any_d("period"), tb = any_d("timebase"); quot = any_d("quot");
    UnitAlgebra* t = setup(p, code, tb);
    int how; SimTime_t r; outcome(t, how, r);
    CHECK("argument-kept", deq(t->value, p) && t->unit.numerator[0] == code);
    CHECK("timebase-kept", deq(TL->timebase_.value, tb) && TL->timebase_.unit.numerator[0] == SEC);
    if (code == OTHER) { CHECK("other-units-rejected", how == 3); return; }
    CHECK("one-quotient", n_div == 1 && n_inv == (code == HZ ? 1u : 0u));
    if (code == SEC) CHECK("period-over-timebase", deq(div_l, p) && deq(div_r, tb) && !inv_was_lhs);
    else CHECK("inverse-timebase-over-frequency", deq(div_l, tb) && deq(div_r, p) && inv_was_lhs);
    bool zero = true, below1 = true;
    for (int i = 0; i < 6; i++) { zero = zero && quot.data[i] == 0; if (i >= 3) below1 = below1 && quot.data[i] == 0; }
    CHECK("too-large", (how == 1) == big(quot));
    CHECK("too-small", (how == 2) == (below1 && !zero));
    if (how == 0 && quot.data[5] < 900) {
        uint64_t whole = quot.data[3] + R * quot.data[4] + R * R * quot.data[5];
        bool above = quot.data[2] > R / 2 || (quot.data[2] == R / 2 && (quot.data[1] != 0 || quot.data[0] != 0));
        bool tie = quot.data[2] == R / 2 && quot.data[1] == 0 && quot.data[0] == 0;
        CHECK("nearest-whole-factor", r == whole + ((above || (tie && (whole & 1))) ? 1 : 0));
    }
}
HARNESS(factor_from_period) { vf_merge(true); contract(SEC); }
HARNESS(factor_from_frequency) { vf_merge(true); contract(HZ); }
HARNESS(factor_from_other) { vf_merge(true); contract(OTHER); }
HARNESS(converter_from_units)
{
    D p = any_d("period"), tb = any_d("timebase"); quot = any_d("quot");
    for (int i = 0; i < 3; i++) quot.data[i] = 0;
    vf_assume(quot.data[5] < 900 && quot.data[3] > 0);
    UnitAlgebra* t = setup(p, SEC, tb);
    TimeConverter c = TL->getTimeConverter(*t);
    CHECK("factor", c.getFactor() == quot.data[3] + R * quot.data[4] + R * R * quot.data[5]);
}
