// Contracts for the operators of SST::UnitAlgebra: unit part by the contracts of Units (C09_units.cc), value part by decimal
// arithmetic (C08); mismatching units are rejected and change nothing.
// VF:ASSUME Units operations and decimal multiplication, division and inversion by contract (C09_units.cc, C08)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "unitAlgebra.cc"
#include <thread>
#include "sst/core/simulation.h"
namespace SST { Output Simulation::sim_output; Output Output::m_defaultObject; }
using namespace SST;
typedef sst_big_num D;
enum { NW = 6 };
static UnitAlgebra A, B; static D va, vb; static bool eq; static unsigned n_mul, n_div, n_inv, n_vmul, n_vdiv, n_vinv;
static D any_value(const char* nm)
{
    D d;
    for (int i = 0; i < NW; i++) d.data[i] = vf::any_in<uint32_t>(nm, 0, 99999999);
    d.negative = vf::any<bool>("neg");
    bool z = true; for (int i = 0; i < NW; i++) z &= d.data[i] == 0;
    if (z) d.negative = false;
    VF_ONLY_NATIVE(if (vfn_random(8) & 1) { for (int i = 0; i < NW; i++) if (i != 3) d.data[i] = 0; d.data[3] %= 3; if (!d.data[3]) d.negative = false; })
    return d;
}
static bool same(const D& a, const D& b) { bool r = a.negative == b.negative; for (int i = 0; i < NW; i++) r &= a.data[i] == b.data[i]; return r; }
static const UnitAlgebra *X, *Y;         // the two operands of the operation under contract
static Units& u_mul(Units* u, const Units& v) { CHECK("unit-operands", u == &X->unit && &v == &Y->unit); n_mul++; return *u; }
static Units& u_div(Units* u, const Units& v) { CHECK("unit-operands", u == &X->unit && &v == &Y->unit); n_div++; return *u; }
static Units& u_inv(Units* u) { CHECK("unit-operand", u == &X->unit); n_inv++; return *u; }
static bool u_eq(const Units* u, const Units& v) { CHECK("unit-operands", (u == &X->unit && &v == &Y->unit) || (u == &Y->unit && &v == &X->unit)); return eq; }
static std::string u_str(const Units*) { return std::string("?"); }
static D& d_mul(D* d, const D& v) { CHECK("value-operands", d == &X->value && same(v, Y->value)); n_vmul++; return *d; }
static D& d_div(D* d, const D& v) { CHECK("value-operands", d == &X->value && same(v, Y->value)); n_vdiv++; return *d; }
static D& d_inv(D* d) { CHECK("value-operand", d == &X->value); n_vinv++; return *d; }
static void state()
{
    vf_merge(true);
    ::new (&A) UnitAlgebra(); ::new (&B) UnitAlgebra();
    A.value = va = any_value("a"); B.value = vb = any_value("b"); X = &A; Y = &B;
    eq = vf::any<bool>("same_units");
    n_mul = n_div = n_inv = n_vmul = n_vdiv = n_vinv = 0;
    Units& (Units::*m)(const Units&) = &Units::operator*=; vf_use_contract(vf::mfn(m), (void*)&u_mul);
    Units& (Units::*d)(const Units&) = &Units::operator/=; vf_use_contract(vf::mfn(d), (void*)&u_div);
    vf_use_contract(vf::mfn(&Units::invert), (void*)&u_inv);
    vf_use_contract(vf::mfn(&Units::operator==), (void*)&u_eq);
    vf_use_contract(vf::mfn(&Units::toString), (void*)&u_str);
}
static void by_contract()
{
    D& (D::*m)(const D&) = &D::operator*=; vf_use_contract(vf::mfn(m), (void*)&d_mul);
    D& (D::*d)(const D&) = &D::operator/=; vf_use_contract(vf::mfn(d), (void*)&d_div);
    vf_use_contract(vf::mfn(&D::inverse), (void*)&d_inv);
}
HARNESS(multiply)
{
    state(); by_contract();
    A *= B;
    CHECK("units-and-value-multiplied-once", n_mul == 1 && n_vmul == 1 && !n_div && !n_vdiv && !n_inv && !n_vinv);
    CHECK("right-kept", same(B.value, vb));
}
HARNESS(divide)
{
    state(); by_contract();
    A /= B;
    CHECK("units-and-value-divided-once", n_div == 1 && n_vdiv == 1 && !n_mul && !n_vmul && !n_inv && !n_vinv);
    CHECK("right-kept", same(B.value, vb));
}
HARNESS(invert)
{
    state(); by_contract();
    A.invert();
    CHECK("units-and-value-inverted-once", n_inv == 1 && n_vinv == 1 && !n_mul && !n_vmul && !n_div && !n_vdiv);
}
template <bool SUB> static void add_or_subtract()
{
    state();
    D want = va; if (SUB) want -= vb; else want += vb;
    bool rejected = false;
    try { if (SUB) A -= B; else A += B; } catch (const UnitAlgebra::NonMatchingUnits&) { rejected = true; }
    CHECK("rejected-exactly-when-units-differ", rejected == !eq);
    CHECK("value", same(A.value, rejected ? va : want));
    CHECK("right-kept", same(B.value, vb));
    CHECK("units-kept", !n_mul && !n_div && !n_inv);
}
HARNESS(add) { add_or_subtract<false>(); }
HARNESS(subtract) { add_or_subtract<true>(); }
template <unsigned OP> static void order()
{
    state();
    bool r = false, rejected = false;
    try { r = OP == 0 ? A < B : OP == 1 ? A <= B : OP == 2 ? A > B : A >= B; } catch (const UnitAlgebra::NonMatchingUnits&) { rejected = true; }
    CHECK("rejected-exactly-when-units-differ", rejected == !eq);
    if (!rejected) CHECK("as-the-values", r == (OP == 0 ? va < vb : OP == 1 ? va <= vb : OP == 2 ? va > vb : va >= vb));
    CHECK("operands-kept", same(A.value, va) && same(B.value, vb));
}
HARNESS(less) { order<0>(); }
HARNESS(less_equal) { order<1>(); }
HARNESS(greater) { order<2>(); }
HARNESS(greater_equal) { order<3>(); }
HARNESS(equality)
{
    state();
    CHECK("equal", (A == B) == (eq && same(va, vb)));
    CHECK("unequal", (A != B) == !(eq && same(va, vb)));
}
