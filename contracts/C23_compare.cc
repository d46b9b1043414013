// Contracts for one watchpoint condition (ObjTreeHelpers.cc, NumericHandle.h) and for the nodes that mirror simulation variables (ObjTreeLeaves.h).
// VF:ASSUME traced objects are of the listed arithmetic types, bool or string (containers report a size fixed when the console was entered)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "impl/interactive/ObjTreeHelpers.cc"
#include "impl/interactive/ObjMapToTree.h"
#include <cstring>
#include <cmath>
using namespace SST;
using namespace SST::Core::Serialization;
typedef ObjTreeComparison Cmp;
static uint8_t pick(const char* n, uint8_t m)
{
    uint8_t c = vf::any_in<uint8_t>(n, 0, m);
    for (uint8_t k = 0; k < m; k++) if (c == k) return k;
    vf_assume(c == m);
    return m;
}
// a simulation variable of type number t and its node; types 0-7 integers, 8-9 float and double, 10 bool, 11 string
static const unsigned N_INT = 8;
struct Var { unsigned t; union { int8_t a; int16_t b; int32_t c; int64_t d; uint8_t e; uint16_t f; uint32_t g; uint64_t h; float x; double y; bool z; uint64_t raw; } u; };
static std::string text;
static void fresh(Var& v, const char* n)
{
    v.u.raw = vf::any<uint64_t>(n);
    if (v.t == 10) v.u.raw &= 1;
}
static ObjTreeCont* node(Var& v)
{
    switch (v.t) {
    case 0: return new IntegerObj(v.u.a, &v.u.a);
    case 1: return new IntegerObj(v.u.b, &v.u.b);
    case 2: return new IntegerObj(v.u.c, &v.u.c);
    case 3: return new IntegerObj(v.u.d, &v.u.d);
    case 4: return new IntegerObj(v.u.e, &v.u.e);
    case 5: return new IntegerObj(v.u.f, &v.u.f);
    case 6: return new IntegerObj(v.u.g, &v.u.g);
    case 7: return new IntegerObj(v.u.h, &v.u.h);
    case 8: return new FloatObj(v.u.x, &v.u.x);
    case 9: return new FloatObj(v.u.y, &v.u.y);
    case 10: return new BoolObj(v.u.z, &v.u.z);
    default: return new StringObj(text, &text);
    }
}
static bool is_float(const Var& v) { return v.t == 8 || v.t == 9; }
static __int128 ival(const Var& v)
{
    switch (v.t) {
    case 0: return v.u.a; case 1: return v.u.b; case 2: return v.u.c; case 3: return v.u.d;
    case 4: return v.u.e; case 5: return v.u.f; case 6: return v.u.g; case 7: return v.u.h;
    default: return v.u.z ? 1 : 0;
    }
}
static long double fval(const Var& v)
{
    switch (v.t) {
    case 0: return v.u.a; case 1: return v.u.b; case 2: return v.u.c; case 3: return v.u.d;
    case 4: return v.u.e; case 5: return v.u.f; case 6: return v.u.g; case 7: return v.u.h;
    case 8: return v.u.x; case 9: return v.u.y;
    default: return v.u.z ? 1 : 0;
    }
}
template <class T> static bool rel(Cmp::Op op, T a, T b)
{
    switch (op) {
    case Cmp::Op::LT: return a < b;
    case Cmp::Op::LTE: return a <= b;
    case Cmp::Op::GT: return a > b;
    case Cmp::Op::GTE: return a >= b;
    case Cmp::Op::EQ: return a == b;
    default: return a != b;
    }
}
// the relation between the two values as mathematical numbers (every value of these types is exact in 128 bits or in a long double)
static bool truth(Cmp::Op op, const Var& a, const Var& b)
{
    if (a.t == 11 || b.t == 11) return false;      // not numbers: no relation between them holds
    if (is_float(a) || is_float(b)) return rel<long double>(op, fval(a), fval(b));
    return rel<__int128>(op, ival(a), ival(b));
}
static const Cmp::Op OPS[6] = { Cmp::Op::LT, Cmp::Op::LTE, Cmp::Op::GT, Cmp::Op::GTE, Cmp::Op::EQ, Cmp::Op::NEQ };
static Cmp* cond;
static void add(Cmp::Op op, Var& l, Var& r)
{
    cond->operators.push_back(op);
    cond->objectsToCompare.emplace_back(std::deque<std::string>(), Cmp::valType::OBJ, std::unique_ptr<ObjTreeCont>(node(l)));
    cond->objectsToCompare.emplace_back(std::deque<std::string>(), Cmp::valType::OBJ, std::unique_ptr<ObjTreeCont>(node(r)));
}
static void compare(unsigned t, unsigned lo, unsigned hi)
{
    vf_merge(false); VF_ONLY_PROOF(new (&text) std::string("5");)
    VF_ONLY_NATIVE(text = "5";)
    cond = new Cmp();
    Var l, r; l.t = t; r.t = lo + pick("type", hi - lo); Cmp::Op op = OPS[pick("op", 5)];
    fresh(l, "l0"); fresh(r, "r0");
    add(op, l, r);
    fresh(l, "l"); fresh(r, "r");            // the simulation goes on
    VF_ONLY_NATIVE(if (vfn_random(2)) r.u.raw = l.u.raw;)
    bool res = cond->evaluateComparison(0, nullptr);
    CHECK("relation-of-the-current-values", res == truth(op, l, r));
}
HARNESS(compare_int8) { compare(0, 0, 7); }
HARNESS(compare_int16) { compare(1, 0, 7); }
HARNESS(compare_int32) { compare(2, 0, 7); }
HARNESS(compare_int64) { compare(3, 0, 7); }
HARNESS(compare_uint8) { compare(4, 0, 7); }
HARNESS(compare_uint16) { compare(5, 0, 7); }
HARNESS(compare_uint32) { compare(6, 0, 7); }
HARNESS(compare_uint64) { compare(7, 0, 7); }
HARNESS(compare_int32_float) { compare(2, 8, 10); }
HARNESS(compare_int64_float) { compare(3, 8, 10); }
HARNESS(compare_uint64_float) { compare(7, 8, 10); }
HARNESS(compare_float) { compare(8, 8, 10); }
HARNESS(compare_double) { compare(9, 8, 10); }
HARNESS(compare_double_int) { compare(9, 0, 7); }
HARNESS(compare_bool) { compare(10, 8, 10); }
HARNESS(compare_bool_int) { compare(10, 0, 7); }
HARNESS(compare_text) { compare(11, 2, 2); }
HARNESS(compare_with_text) { compare(2, 11, 11); }
// change detection: against the value seen by the previous evaluation
static void changed(unsigned lo, unsigned hi)
{
    vf_merge(false);
    cond = new Cmp();
    Var v; v.t = lo + pick("type", hi - lo); fresh(v, "v0");
    Var w; w.t = 2; w.u.raw = 0;
    add(Cmp::Op::CHANGED, v, w);
    Var p = v;
    for (int i = 0; i < 3; i++) {
        fresh(v, i == 0 ? "v1" : i == 1 ? "v2" : "v3");
        VF_ONLY_NATIVE(if (vfn_random(2)) v = p;)
        CHECK("changed-since-last-evaluation", cond->evaluateComparison(0, nullptr) == truth(Cmp::Op::NEQ, p, v));
        p = v;
    }
}
HARNESS(changed_integers) { changed(0, 7); }
HARNESS(changed_others) { changed(8, 10); }
HARNESS(changed_text)
{
    vf_merge(false); VF_ONLY_PROOF(new (&text) std::string("a");)
    VF_ONLY_NATIVE(text = "a";)
    cond = new Cmp();
    Var v; v.t = 11; Var w; w.t = 2; w.u.raw = 0;
    add(Cmp::Op::CHANGED, v, w);
    CHECK("unchanged-text", !cond->evaluateComparison(0, nullptr));
    text = "b";
    CHECK("changed-text", cond->evaluateComparison(0, nullptr));
    CHECK("seen-text", !cond->evaluateComparison(0, nullptr));
}
// conditions are evaluated independently of each other
HARNESS(second_condition)
{
    vf_merge(false);
    cond = new Cmp();
    Var a, b, c, d; a.t = b.t = c.t = d.t = 3;
    fresh(a, "a"); fresh(b, "b"); fresh(c, "c"); fresh(d, "d");
    add(Cmp::Op::LT, a, b); add(Cmp::Op::GTE, c, d);
    CHECK("second", cond->evaluateComparison(1, nullptr) == (c.u.d >= d.u.d));
    CHECK("first", cond->evaluateComparison(0, nullptr) == (a.u.d < b.u.d));
}
// a copy of a node keeps the value it was taken with
static void copies(unsigned lo, unsigned hi)
{
    vf_merge(false);
    Var v; v.t = lo + pick("type", hi - lo); fresh(v, "v0");
    Var p = v;
    ObjTreeCont* n = node(v);
    n->setName("n");
    ObjTreeCont* c = n->clone();
    CHECK("same-kind", c->getKind() == n->getKind() && strcmp(c->getObjName().c_str(), "n") == 0);
    fresh(v, "v1");
    CHECK("copy-compares-with-its-own", c->hasChanged() == truth(Cmp::Op::NEQ, p, v));
    n->syncFromSim();
    CHECK("copy-keeps-its-value", c->hasChanged() == truth(Cmp::Op::NEQ, p, v));
    if (!is_float(v)) { CHECK("original-follows", !n->hasChanged()); }
    c->syncFromSim();
    if (!is_float(v)) { CHECK("copy-follows-when-asked", !c->hasChanged()); }
}
HARNESS(copies_integers) { copies(0, 7); }
HARNESS(copies_others) { copies(8, 10); }
// the operator written by the user
HARNESS(operators)
{
    vf_merge(false);
    CHECK("lt", Cmp::getOperationFromString("<") == Cmp::Op::LT);
    CHECK("le", Cmp::getOperationFromString("<=") == Cmp::Op::LTE);
    CHECK("gt", Cmp::getOperationFromString(">") == Cmp::Op::GT);
    CHECK("ge", Cmp::getOperationFromString(">=") == Cmp::Op::GTE);
    CHECK("eq", Cmp::getOperationFromString("==") == Cmp::Op::EQ);
    CHECK("ne", Cmp::getOperationFromString("!=") == Cmp::Op::NEQ);
    CHECK("changed", Cmp::getOperationFromString("changed") == Cmp::Op::CHANGED);
    CHECK("else", Cmp::getOperationFromString("=") == Cmp::Op::INVALID && Cmp::getOperationFromString("") == Cmp::Op::INVALID);
    cond = new Cmp();
    CHECK("nothing-to-compare", !cond->evaluateComparison(0, nullptr));
    Var a, b; a.t = b.t = 2; a.u.raw = b.u.raw = 0;
    add(Cmp::Op::INVALID, a, b);
    CHECK("invalid-never-holds", !cond->evaluateComparison(0, nullptr));
}
// the node for a variable has the variable's type
HARNESS(node_of_type)
{
    vf_merge(false);
    static const char* N[8] = { "signed char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned int", "unsigned long" };
    unsigned t = pick("type", 7);
    Var v; v.t = t; fresh(v, "v");
    std::unique_ptr<IntegerObj> o = ObjectMapToTree::makeIntegerObj(N[t], &v.u.raw);
    CHECK("made", o.get() != nullptr);
    CHECK("type", o->val_.index() == t);
    CHECK("value", o->visit([](auto x) -> __int128 { return x; }) == ival(v));
}
