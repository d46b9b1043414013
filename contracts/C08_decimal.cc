// Contracts for SST::decimal_fixedpoint<3,3> (sst_big_num; decimal_fixedpoint.h): schoolbook exactness, word by word.
// VF:ASSUME numbers in normal form (every word below the radix) are given; each contract proves that the result is again
#include "sst_config.h"
#include "sst/core/unitAlgebra.h"
#include "verif.h"
using namespace SST;
using D = sst_big_num;
static const int N = 6, F = 3;
static const uint64_t R = 100000000ull;
struct Num { uint32_t w[6]; bool neg; };
static D any_num(Num& n, const char* nm)
{
    D d;
    for (int i = 0; i < N; i++) { n.w[i] = vf::any_in<uint32_t>(nm, 0, (uint32_t)R - 1); d.data[i] = n.w[i]; }
    n.neg = vf::any<bool>("neg"); d.negative = n.neg;
    return d;
}
static bool normal(const D& d) { bool ok = true; for (int i = 0; i < N; i++) ok = ok & (d.data[i] < R); return ok; }
static bool zero(const uint32_t* a) { bool z = true; for (int i = 0; i < N; i++) z = z & (a[i] == 0); return z; }
static bool mag_less(const uint32_t* a, const uint32_t* b)   // |a| < |b|
{
    bool less = false;
    for (int i = 0; i < N; i++) less = (a[i] < b[i]) | ((a[i] == b[i]) & less);
    return less;
}
static bool mag_eq(const uint32_t* a, const uint32_t* b) { bool e = true; for (int i = 0; i < N; i++) e = e & (a[i] == b[i]); return e; }
// x + y == s as magnitudes, where the last carry must be `over`
static bool sum_is(const uint32_t* x, const uint32_t* y, const uint32_t* s, uint64_t& over)
{
    uint64_t c = 0; bool ok = true;
    for (int i = 0; i < N; i++) {
        uint64_t v = (uint64_t)x[i] + y[i] + c;
        c = v >= R ? 1 : 0;
        ok = ok & (s[i] == v - (c ? R : 0));
    }
    over = c;
    return ok;
}
HARNESS(add)
{
    vf_merge(true);
    Num a, b; D x = any_num(a, "a"), y = any_num(b, "b");
    x += y;
    CHECK("right-operand-kept", mag_eq(y.data, b.w) & (y.negative == b.neg));
    CHECK("normal-form", normal(x));
    uint64_t ov;
    if (a.neg == b.neg) {
        CHECK("same-sign-exact", sum_is(a.w, b.w, x.data, ov));     // exact modulo the range of the type
        CHECK("same-sign-sign", x.negative == a.neg);
    }
    else if (mag_less(a.w, b.w)) {
        CHECK("smaller-minus", sum_is(x.data, a.w, b.w, ov) & (ov == 0));
        CHECK("smaller-sign", x.negative == b.neg);
    }
    else {
        CHECK("larger-minus", sum_is(x.data, b.w, a.w, ov) & (ov == 0));
        CHECK("larger-sign", (x.negative == a.neg) | zero(x.data));
    }
}
HARNESS(subtract)
{
    vf_merge(true);
    Num a, b; D x = any_num(a, "a"), y = any_num(b, "b");
    D z = x - y;
    CHECK("operands-kept", mag_eq(y.data, b.w) & (y.negative == b.neg) & mag_eq(x.data, a.w) & (x.negative == a.neg));
    CHECK("normal-form", normal(z));
    uint64_t ov;
    if (a.neg != b.neg) {
        CHECK("different-sign-exact", sum_is(a.w, b.w, z.data, ov));
        CHECK("different-sign-sign", z.negative == a.neg);
    }
    else if (mag_less(a.w, b.w)) {
        CHECK("smaller-minus", sum_is(z.data, a.w, b.w, ov) & (ov == 0));
        CHECK("smaller-sign", z.negative == !b.neg);
    }
    else {
        CHECK("larger-minus", sum_is(z.data, b.w, a.w, ov) & (ov == 0));
        CHECK("larger-sign", (z.negative == a.neg) | zero(z.data));
    }
}
HARNESS(with_itself)
{
    // the same object on both sides: as with an equal copy
    vf_merge(true);
    Num a; D x = any_num(a, "a"), c = x, p = x, s = x, t = x;
    p *= c; x *= x;
    CHECK("square", mag_eq(x.data, p.data) & (x.negative == p.negative));
    s += c; t += t;
    CHECK("double", mag_eq(s.data, t.data) & (s.negative == t.negative));
    t -= t;
    CHECK("difference-zero", zero(t.data));
}
HARNESS(multiply)
{
    vf_merge(true);
    Num a, b; D x = any_num(a, "a"), y = any_num(b, "b");
    D z = x * y;
    // column k of the product carries into column k+1; the F lowest columns are dropped (truncation)
    uint64_t carry = 0;
    for (int k = 0; k < N + F; k++) {
        uint64_t col = carry;
        for (int i = 0; i < N; i++)
            if (k - i >= 0 && k - i < N) col += (uint64_t)a.w[i] * (uint64_t)b.w[k - i];
        carry = col / R;
        if (k >= F) CHECK("column", z.data[k - F] == col % R);
    }
    CHECK("normal-form", normal(z));
    CHECK("sign", z.negative == (a.neg != b.neg));
    CHECK("operands-kept", mag_eq(y.data, b.w) & mag_eq(x.data, a.w));
}
HARNESS(compare)
{
    vf_merge(true);
    Num a, b; D x = any_num(a, "a"), y = any_num(b, "b");
    bool bothzero = zero(a.w) & zero(b.w);
    bool eq = bothzero | ((a.neg == b.neg) & mag_eq(a.w, b.w));
    bool lt = !bothzero & ((a.neg & !b.neg) | (!a.neg & !b.neg & mag_less(a.w, b.w)) | (a.neg & b.neg & mag_less(b.w, a.w)));
    CHECK("eq", (x == y) == eq);
    CHECK("ne", (x != y) == !eq);
    CHECK("lt", (x < y) == lt);
    CHECK("le", (x <= y) == (lt | eq));
    CHECK("gt", (x > y) == (!lt & !eq));
    CHECK("ge", (x >= y) == !lt);
    CHECK("is-zero", x.isZero() == zero(a.w));
}
static bool words(const D& d, uint64_t m)
{
    return d.data[0] == 0 && d.data[1] == 0 && d.data[2] == 0 && d.data[3] == m % R && d.data[4] == (m / R) % R && d.data[5] == m / R / R % R;
}
HARNESS(from_unsigned)
{
    uint64_t u = vf::any<uint64_t>("u");
    D d(u);
    CHECK("value", words(d, u));
    CHECK("sign", !d.negative);
    D f; f = u;
    CHECK("assign", words(f, u) && !f.negative);
    D h(d); D k; k = d;
    CHECK("copy", mag_eq(h.data, d.data) && h.negative == d.negative && mag_eq(k.data, d.data) && k.negative == d.negative);
    D z;
    CHECK("default-zero", z.isZero() && !z.negative);
}
HARNESS(from_signed)
{
    int64_t s = vf::any<int64_t>("s");
    vf_assume(s != INT64_MIN);
    if (s < 0) {
        D e(s); D g; g = s;
        CHECK("negative-value", words(e, (uint64_t)-s) && e.negative);
        CHECK("negative-assign", words(g, (uint64_t)-s) && g.negative);
    }
    else {
        D e(s); D g; g = s;
        CHECK("positive-value", words(e, (uint64_t)s) && !e.negative);
        CHECK("positive-assign", words(g, (uint64_t)s) && !g.negative);
    }
}
HARNESS(to_long)
{
    vf_merge(true);
    Num a; D x = any_num(a, "a");
    vf_assume(a.w[5] < 922);                             // integer part within 63 bits
    uint64_t whole = a.w[3] + R * a.w[4] + R * R * a.w[5];
    bool above = a.w[2] > R / 2 || (a.w[2] == R / 2 && (a.w[1] != 0 || a.w[0] != 0));
    bool tie = a.w[2] == R / 2 && a.w[1] == 0 && a.w[0] == 0;
    uint64_t r = whole + ((above || (tie && (whole & 1))) ? 1 : 0);    // round to nearest, ties to even
    CHECK("rounded", x.toLong() == (a.neg ? -(int64_t)r : (int64_t)r));
    CHECK("unsigned-integer-part", x.toUnsignedLong() == whole);
    CHECK("number-kept", mag_eq(x.data, a.w) && x.negative == a.neg);
}
HARNESS(negate)
{
    Num a; D x = any_num(a, "a");
    x.negate();
    CHECK("sign-only", x.negative == !a.neg && mag_eq(x.data, a.w));
}
