// Contracts for SST::Units and the arithmetic and comparison operators of SST::UnitAlgebra (unitAlgebra.cc, unitAlgebra.h).
// VF:BOUNDED reduce_*: at most 5 units in any order, or 4 on each side already in order (any ids); mul_*, div_*, invert_*, equal_*: at most 2 units in each of the four lists (over the contract of reduce)
// VF:ASSUME decimal arithmetic by its own contracts (C08); unit names (parsing, printing) are not part of this property
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "unitAlgebra.cc"
#include <thread>
#include "sst/core/simulation.h"
namespace SST { Output Simulation::sim_output; }
using namespace SST;
typedef std::vector<uint8_t> V;
static unsigned count(const V& v, uint8_t u) { unsigned c = 0; for (unsigned i = 0; i < v.size(); i++) { c += v[i] == u; } return c; }
static int expo(const Units& u, uint8_t k) { return (int)count(u.numerator, k) - (int)count(u.denominator, k); }
static uint8_t any_id() { uint8_t i = vf::any<uint8_t>("unit"); VF_ONLY_NATIVE(i %= 4;) return i; }
static V any_list(unsigned n) { V v; for (unsigned i = 0; i < n; i++) v.push_back(any_id()); return v; }
static bool sorted(const V& v) { bool r = true; for (unsigned i = 1; i < v.size(); i++) r &= v[i - 1] <= v[i]; return r; }
static bool disjoint(const Units& u)
{
    bool r = true;
    for (unsigned i = 0; i < u.numerator.size(); i++) r &= count(u.denominator, u.numerator[i]) == 0;
    return r;
}
template <unsigned N, unsigned D> static void reduce(bool in_order = false)
{
    vf_merge(true);
    Units u; u.numerator = any_list(N); u.denominator = any_list(D);
    if (in_order) vf_assume(sorted(u.numerator) & sorted(u.denominator));
    uint8_t k = any_id(); int e = expo(u, k);
    vf_merge(false);
    u.reduce();
    vf_merge(true);
    CHECK("exponent-kept", expo(u, k) == e);
    CHECK("cancelled", disjoint(u));
    CHECK("sorted", sorted(u.numerator) && sorted(u.denominator));
}
HARNESS(reduce_00) { reduce<0, 0>(); }
HARNESS(reduce_10) { reduce<1, 0>(); }
HARNESS(reduce_01) { reduce<0, 1>(); }
HARNESS(reduce_11) { reduce<1, 1>(); }
HARNESS(reduce_21) { reduce<2, 1>(); }
HARNESS(reduce_12) { reduce<1, 2>(); }
HARNESS(reduce_22) { reduce<2, 2>(); }
HARNESS(reduce_31) { reduce<3, 1>(); }
HARNESS(reduce_13) { reduce<1, 3>(); }
HARNESS(reduce_32) { reduce<3, 2>(); }
HARNESS(reduce_23) { reduce<2, 3>(); }
HARNESS(reduce_40) { reduce<4, 0>(); }
HARNESS(reduce_04) { reduce<0, 4>(); }
HARNESS(reduce_sorted_33) { reduce<3, 3>(true); }
HARNESS(reduce_sorted_42) { reduce<4, 2>(true); }
HARNESS(reduce_sorted_24) { reduce<2, 4>(true); }
HARNESS(reduce_sorted_44) { reduce<4, 4>(true); }

// ---- the operations, over the contract of reduce just proved (exponents kept; natively the real one runs)
static unsigned n_reduce; static size_t at_n, at_d;
static void reduce_contract(Units* u) { n_reduce++; at_n = u->numerator.size(); at_d = u->denominator.size(); }
static bool canonical(const Units& u)
{
#ifdef VF_NATIVE
    return sorted(u.numerator) && sorted(u.denominator) && disjoint(u);
#else
    return n_reduce >= 1 && at_n == u.numerator.size() && at_d == u.denominator.size();    // reduced last
#endif
}
static void begin()
{
    vf_merge(true); n_reduce = 0;
#ifndef VF_NATIVE
    vf_use_contract(vf::mfn(&Units::reduce), (void*)&reduce_contract);
#endif
}
static Units any_units(unsigned n, unsigned d) { Units u; u.numerator = any_list(n); u.denominator = any_list(d); return u; }
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; bool r = true; for (unsigned i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
template <unsigned S> static void combine()
{
    begin();
    unsigned an = S & 3, ad = S >> 2 & 3, bn = S >> 4 & 3, bd = S >> 6 & 3;
    Units a = any_units(an, ad), b = any_units(bn, bd), b0 = b, q = a;
    uint8_t k = any_id(); int ea = expo(a, k), eb = expo(b, k);
    a *= b;
    CHECK("product-adds-exponents", expo(a, k) == ea + eb);
    CHECK("product-canonical", canonical(a));
    CHECK("operand-kept", same(b.numerator, b0.numerator) && same(b.denominator, b0.denominator));
    n_reduce = 0;
    q /= b;
    CHECK("quotient-subtracts-exponents", expo(q, k) == ea - eb);
    CHECK("quotient-canonical", canonical(q));
    CHECK("operand-kept-by-division", same(b.numerator, b0.numerator) && same(b.denominator, b0.denominator));
    Units i = b; i.invert();
    CHECK("inverse-swaps", same(i.numerator, b0.denominator) && same(i.denominator, b0.numerator) && expo(i, k) == -eb);
    bool eq = b == q;
    CHECK("equal-exactly-when-all-units-agree", eq == (same(b.numerator, q.numerator) && same(b.denominator, q.denominator)));
    CHECK("unequal-is-not-equal", (b != q) == !eq && (q == b) == eq && b == b0);
}
template <unsigned S> static void with_itself()
{
    begin();
    Units a = any_units(S & 3, S >> 2 & 3), b = a;
    uint8_t k = any_id(); int ea = expo(a, k);
    a *= a;
    CHECK("square-doubles-exponents", expo(a, k) == 2 * ea);
    CHECK("square-canonical", canonical(a));
    n_reduce = 0;
    b /= b;
    CHECK("self-quotient-has-no-units", expo(b, k) == 0);
    CHECK("self-quotient-canonical", canonical(b));
}
#define S4(a, b, c, d) (a | b << 2 | c << 4 | d << 6)
HARNESS(self_00) { with_itself<S4(0, 0, 0, 0)>(); }
HARNESS(combine_00_00) { combine<S4(0, 0, 0, 0)>(); }
HARNESS(combine_00_01) { combine<S4(0, 0, 0, 1)>(); }
HARNESS(combine_00_02) { combine<S4(0, 0, 0, 2)>(); }
HARNESS(combine_00_10) { combine<S4(0, 0, 1, 0)>(); }
HARNESS(combine_00_11) { combine<S4(0, 0, 1, 1)>(); }
HARNESS(combine_00_12) { combine<S4(0, 0, 1, 2)>(); }
HARNESS(combine_00_20) { combine<S4(0, 0, 2, 0)>(); }
HARNESS(combine_00_21) { combine<S4(0, 0, 2, 1)>(); }
HARNESS(combine_00_22) { combine<S4(0, 0, 2, 2)>(); }
HARNESS(self_01) { with_itself<S4(0, 1, 0, 0)>(); }
HARNESS(combine_01_00) { combine<S4(0, 1, 0, 0)>(); }
HARNESS(combine_01_01) { combine<S4(0, 1, 0, 1)>(); }
HARNESS(combine_01_02) { combine<S4(0, 1, 0, 2)>(); }
HARNESS(combine_01_10) { combine<S4(0, 1, 1, 0)>(); }
HARNESS(combine_01_11) { combine<S4(0, 1, 1, 1)>(); }
HARNESS(combine_01_12) { combine<S4(0, 1, 1, 2)>(); }
HARNESS(combine_01_20) { combine<S4(0, 1, 2, 0)>(); }
HARNESS(combine_01_21) { combine<S4(0, 1, 2, 1)>(); }
HARNESS(combine_01_22) { combine<S4(0, 1, 2, 2)>(); }
HARNESS(self_02) { with_itself<S4(0, 2, 0, 0)>(); }
HARNESS(combine_02_00) { combine<S4(0, 2, 0, 0)>(); }
HARNESS(combine_02_01) { combine<S4(0, 2, 0, 1)>(); }
HARNESS(combine_02_02) { combine<S4(0, 2, 0, 2)>(); }
HARNESS(combine_02_10) { combine<S4(0, 2, 1, 0)>(); }
HARNESS(combine_02_11) { combine<S4(0, 2, 1, 1)>(); }
HARNESS(combine_02_12) { combine<S4(0, 2, 1, 2)>(); }
HARNESS(combine_02_20) { combine<S4(0, 2, 2, 0)>(); }
HARNESS(combine_02_21) { combine<S4(0, 2, 2, 1)>(); }
HARNESS(combine_02_22) { combine<S4(0, 2, 2, 2)>(); }
HARNESS(self_10) { with_itself<S4(1, 0, 0, 0)>(); }
HARNESS(combine_10_00) { combine<S4(1, 0, 0, 0)>(); }
HARNESS(combine_10_01) { combine<S4(1, 0, 0, 1)>(); }
HARNESS(combine_10_02) { combine<S4(1, 0, 0, 2)>(); }
HARNESS(combine_10_10) { combine<S4(1, 0, 1, 0)>(); }
HARNESS(combine_10_11) { combine<S4(1, 0, 1, 1)>(); }
HARNESS(combine_10_12) { combine<S4(1, 0, 1, 2)>(); }
HARNESS(combine_10_20) { combine<S4(1, 0, 2, 0)>(); }
HARNESS(combine_10_21) { combine<S4(1, 0, 2, 1)>(); }
HARNESS(combine_10_22) { combine<S4(1, 0, 2, 2)>(); }
HARNESS(self_11) { with_itself<S4(1, 1, 0, 0)>(); }
HARNESS(combine_11_00) { combine<S4(1, 1, 0, 0)>(); }
HARNESS(combine_11_01) { combine<S4(1, 1, 0, 1)>(); }
HARNESS(combine_11_02) { combine<S4(1, 1, 0, 2)>(); }
HARNESS(combine_11_10) { combine<S4(1, 1, 1, 0)>(); }
HARNESS(combine_11_11) { combine<S4(1, 1, 1, 1)>(); }
HARNESS(combine_11_12) { combine<S4(1, 1, 1, 2)>(); }
HARNESS(combine_11_20) { combine<S4(1, 1, 2, 0)>(); }
HARNESS(combine_11_21) { combine<S4(1, 1, 2, 1)>(); }
HARNESS(combine_11_22) { combine<S4(1, 1, 2, 2)>(); }
HARNESS(self_12) { with_itself<S4(1, 2, 0, 0)>(); }
HARNESS(combine_12_00) { combine<S4(1, 2, 0, 0)>(); }
HARNESS(combine_12_01) { combine<S4(1, 2, 0, 1)>(); }
HARNESS(combine_12_02) { combine<S4(1, 2, 0, 2)>(); }
HARNESS(combine_12_10) { combine<S4(1, 2, 1, 0)>(); }
HARNESS(combine_12_11) { combine<S4(1, 2, 1, 1)>(); }
HARNESS(combine_12_12) { combine<S4(1, 2, 1, 2)>(); }
HARNESS(combine_12_20) { combine<S4(1, 2, 2, 0)>(); }
HARNESS(combine_12_21) { combine<S4(1, 2, 2, 1)>(); }
HARNESS(combine_12_22) { combine<S4(1, 2, 2, 2)>(); }
HARNESS(self_20) { with_itself<S4(2, 0, 0, 0)>(); }
HARNESS(combine_20_00) { combine<S4(2, 0, 0, 0)>(); }
HARNESS(combine_20_01) { combine<S4(2, 0, 0, 1)>(); }
HARNESS(combine_20_02) { combine<S4(2, 0, 0, 2)>(); }
HARNESS(combine_20_10) { combine<S4(2, 0, 1, 0)>(); }
HARNESS(combine_20_11) { combine<S4(2, 0, 1, 1)>(); }
HARNESS(combine_20_12) { combine<S4(2, 0, 1, 2)>(); }
HARNESS(combine_20_20) { combine<S4(2, 0, 2, 0)>(); }
HARNESS(combine_20_21) { combine<S4(2, 0, 2, 1)>(); }
HARNESS(combine_20_22) { combine<S4(2, 0, 2, 2)>(); }
HARNESS(self_21) { with_itself<S4(2, 1, 0, 0)>(); }
HARNESS(combine_21_00) { combine<S4(2, 1, 0, 0)>(); }
HARNESS(combine_21_01) { combine<S4(2, 1, 0, 1)>(); }
HARNESS(combine_21_02) { combine<S4(2, 1, 0, 2)>(); }
HARNESS(combine_21_10) { combine<S4(2, 1, 1, 0)>(); }
HARNESS(combine_21_11) { combine<S4(2, 1, 1, 1)>(); }
HARNESS(combine_21_12) { combine<S4(2, 1, 1, 2)>(); }
HARNESS(combine_21_20) { combine<S4(2, 1, 2, 0)>(); }
HARNESS(combine_21_21) { combine<S4(2, 1, 2, 1)>(); }
HARNESS(combine_21_22) { combine<S4(2, 1, 2, 2)>(); }
HARNESS(self_22) { with_itself<S4(2, 2, 0, 0)>(); }
HARNESS(combine_22_00) { combine<S4(2, 2, 0, 0)>(); }
HARNESS(combine_22_01) { combine<S4(2, 2, 0, 1)>(); }
HARNESS(combine_22_02) { combine<S4(2, 2, 0, 2)>(); }
HARNESS(combine_22_10) { combine<S4(2, 2, 1, 0)>(); }
HARNESS(combine_22_11) { combine<S4(2, 2, 1, 1)>(); }
HARNESS(combine_22_12) { combine<S4(2, 2, 1, 2)>(); }
HARNESS(combine_22_20) { combine<S4(2, 2, 2, 0)>(); }
HARNESS(combine_22_21) { combine<S4(2, 2, 2, 1)>(); }
HARNESS(combine_22_22) { combine<S4(2, 2, 2, 2)>(); }
