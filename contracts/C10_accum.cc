// Contracts for AccumulatorStatistic (stataccumulator.h) for every supported number type.
// VF:ASSUME Params::find<bool> (constructor parameter) returns an arbitrary flag
// VF:ASSUME StatisticFieldsOutput::registerField/outputField are used by contract: a handle per field name, one recorded value per call
// VF:ASSUME no integer overflow of the exact sums; floating point data are finite
#include "sst_config.h"
#include "verif.h"
#include "sim_env.h"
#include "statapi/statbase.cc"
#include "sst/core/statapi/statoutput.h"
#include <cmath>
using namespace SST;
using namespace SST::Statistics;
namespace SST { Output Simulation::sim_output; }
static unsigned n_out; 
void StatisticProcessingEngine::performStatisticOutput(StatisticBase*, bool) { n_out++; }
static bool find_stub(Params*, const std::string&, bool) { return vf::any<bool>("resetOnOutput"); }
template <class T> static int reg_stub(StatisticFieldsOutput*, const char* n)
{
    int r = -1;
    if (!strcmp(n, "Sum")) r = 10; if (!strcmp(n, "SumSQ")) r = 11; if (!strcmp(n, "Count")) r = 12; if (!strcmp(n, "Min")) r = 13; if (!strcmp(n, "Max")) r = 14;
    CHECK("known-field", r >= 0);
    return r;
}
struct Rec { unsigned n; long double dummy; };
static unsigned n_f[5]; static uint64_t f_int[5]; static double f_fp[5]; static bool f_isfp[5];
static void rec_i(int h, uint64_t v) { if (h < 10 || h > 14) return; n_f[h - 10]++; f_int[h - 10] = v; f_isfp[h - 10] = false; }
static void rec_f(int h, double v) { if (h < 10 || h > 14) return; n_f[h - 10]++; f_fp[h - 10] = v; f_isfp[h - 10] = true; }
static void o_i32(StatisticFieldsOutput*, int h, int32_t v) { rec_i(h, (uint64_t)(int64_t)v); }
static void o_u32(StatisticFieldsOutput*, int h, uint32_t v) { rec_i(h, v); }
static void o_i64(StatisticFieldsOutput*, int h, int64_t v) { rec_i(h, (uint64_t)v); }
static void o_u64(StatisticFieldsOutput*, int h, uint64_t v) { rec_i(h, v); }
static void o_f(StatisticFieldsOutput*, int h, float v) { rec_f(h, v); }
static void o_d(StatisticFieldsOutput*, int h, double v) { rec_f(h, v); }
// the six outputField overloads are virtual: a recording object with its own table
struct FakeOut { void** vt; void* table[64]; };

template <class T> using Acc = AccumulatorStatistic<T>;
template <class T> static Acc<T>* fresh()
{
    vf_use_contract(vf::mfn((bool (Params::*)(const std::string&, bool) const) & Params::find<bool>), (void*)&find_stub);
    n_out = 0;
    void* mem = ::operator new(sizeof(Acc<T>) + 64);
    Params* p = vf::raw_object<Params>("params");
    static std::string nm("s"), id("i");
    Acc<T>* a = ::new (mem) Acc<T>((BaseComponent*)nullptr, nm, id, *p);
    return a;
}
template <class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <class T> static bool isfin(T v) 
{
    if constexpr (std::is_same<T, float>::value) { uint32_t b; memcpy(&b, &v, 4); return (b & 0x7f800000u) != 0x7f800000u; }
    else if constexpr (std::is_same<T, double>::value) { uint64_t b; memcpy(&b, &v, 8); return (b >> 52 & 0x7ff) != 0x7ff; }
    else return true;
}
template <class T> static bool mulov(T a, T b, T* r) { if constexpr (std::is_integral<T>::value) return __builtin_mul_overflow(a, b, r); else { *r = a * b; return false; } }
template <class T> static bool addov(T a, T b, T* r) { if constexpr (std::is_integral<T>::value) return __builtin_add_overflow(a, b, r); else { *r = a + b; return false; } }
template <class T> struct St { T sum, sq, mn, mx; uint64_t cnt, ocnt; bool en; };
template <class T> static Acc<T>* any_acc(St<T>& s)
{
    Acc<T>* a = fresh<T>();
    a->m_sum = s.sum = vf::any<T>("sum"); a->m_sum_sq = s.sq = vf::any<T>("sumsq"); a->m_min = s.mn = vf::any<T>("min"); a->m_max = s.mx = vf::any<T>("max");
    a->current_collection_count_ = s.cnt = vf::any<uint64_t>("count"); a->output_collection_count_ = s.ocnt = vf::any<uint64_t>("output_count");
    a->stat_enabled_ = s.en = vf::any<bool>("enabled");
    vf_assume(isfin(s.mn) && isfin(s.mx));
    return a;
}
template <class T> static void add_one()
{
    St<T> s; Acc<T>* a = any_acc<T>(s); T v = vf::any<T>("v");
    vf_assume(isfin(v));
    T sq, nsum, nsq;
    vf_assume(!mulov(v, v, &sq)); vf_assume(!addov(s.sum, v, &nsum)); vf_assume(!addov(s.sq, sq, &nsq));
    a->addData(v);
    if (!s.en) { nsum = s.sum; nsq = s.sq; }
    CHECK("sum", same(a->getSum(), nsum));
    CHECK("sum-of-squares", same(a->getSumSquared(), nsq));
    CHECK("min", a->getMin() == (s.en && v < s.mn ? v : s.mn));
    CHECK("max", a->getMax() == (s.en && v > s.mx ? v : s.mx));
    CHECK("count", a->getCount() == s.cnt + (s.en ? 1 : 0));
}
template <class T> static void add_n()
{
    St<T> s; Acc<T>* a = any_acc<T>(s); T v = vf::any<T>("v"); uint64_t N = vf::any<uint64_t>("N");
    vf_assume(isfin(v));
    vf_assume(N >= 1);
    T nsum, nsq;
    if constexpr (std::is_integral<T>::value) {
        T n, p, q; vf_assume((uint64_t)(T)N == N && (T)N > 0); n = (T)N;
        vf_assume(!mulov(n, v, &p)); vf_assume(!mulov(p, v, &q)); vf_assume(!addov(s.sum, p, &nsum)); vf_assume(!addov(s.sq, q, &nsq));
    } else { nsum = s.sum + (T)N * v; nsq = s.sq + (T)N * v * v; }
    a->addDataNTimes(N, v);
    if (!s.en) { nsum = s.sum; nsq = s.sq; }
    CHECK("sum", same(a->getSum(), nsum));
    CHECK("sum-of-squares", same(a->getSumSquared(), nsq));
    CHECK("min", a->getMin() == (s.en && v < s.mn ? v : s.mn));
    CHECK("max", a->getMax() == (s.en && v > s.mx ? v : s.mx));
    CHECK("count", a->getCount() == s.cnt + (s.en ? N : 0));
}
template <class T> static void fresh_then_one()
{
    bool cleared = vf::any<bool>("cleared");
    St<T> s; Acc<T>* a = cleared ? any_acc<T>(s) : fresh<T>();
    if (cleared) a->clearStatisticData();
    CHECK("zero", a->getSum() == 0 && a->getSumSquared() == 0 && a->getCount() == 0 && a->output_collection_count_ == 0);
    CHECK("enabled-flag-kept", a->isEnabled() == (cleared ? s.en : true));
    vf_assume(a->isEnabled());
    T v = vf::any<T>("v"), sq; vf_assume(isfin(v)); vf_assume(!mulov(v, v, &sq));
    if (vf::any<bool>("ntimes")) a->addDataNTimes(1, v); else a->addData(v);
    CHECK("first-sum", a->getSum() == v);
    CHECK("first-sumsq", same(a->getSumSquared(), (T)(v * v)));
    CHECK("first-is-min", a->getMin() == v);
    CHECK("first-is-max", a->getMax() == v);
    CHECK("first-count", a->getCount() == 1);
}
template <class T> static bool got(int i, T v)
{
    if (n_f[i] != 1) return false;
    if (f_isfp[i]) return same(f_fp[i], (double)v);
    if constexpr (std::is_integral<T>::value) return f_int[i] == (uint64_t)(int64_t)v;
    else return v == 0 && f_int[i] == 0;
}
template <class T> static void output()
{
    St<T> s; Acc<T>* a = any_acc<T>(s);
    StatisticFieldsOutput* o = vf::raw_object<StatisticFieldsOutput>("fields_output");
    for (int i = 0; i < 5; i++) { n_f[i] = 0; f_isfp[i] = false; f_int[i] = 0; f_fp[i] = 0; }
    vf_use_contract(vf::mfn(&StatisticFieldsOutput::registerField<T>), (void*)&reg_stub<T>);
    vf_use_contract(vf::mfn(&StatisticFieldsOutput::registerField<uint64_t>), (void*)&reg_stub<uint64_t>);
    static void* table[64];
    for (int i = 0; i < 64; i++) table[i] = nullptr;
    using SO = StatisticFieldsOutput;
    auto put = [&](auto pm, void* f) { uint64_t w; memcpy(&w, &pm, 8); table[(w - 1) / 8] = f; };
    put((void (SO::*)(int, int32_t)) & SO::outputField, (void*)&o_i32); put((void (SO::*)(int, uint32_t)) & SO::outputField, (void*)&o_u32);
    put((void (SO::*)(int, int64_t)) & SO::outputField, (void*)&o_i64); put((void (SO::*)(int, uint64_t)) & SO::outputField, (void*)&o_u64);
    put((void (SO::*)(int, float)) & SO::outputField, (void*)&o_f); put((void (SO::*)(int, double)) & SO::outputField, (void*)&o_d);
    *(void***)o = table;
    a->registerOutputFields(o);
    a->outputStatisticFields(o, vf::any<bool>("eos"));
    CHECK("out-sum", got<T>(0, s.sum));
    CHECK("out-sumsq", got<T>(1, s.sq));
    CHECK("out-count", got<uint64_t>(2, s.cnt));
    CHECK("out-min", got<T>(3, s.cnt ? s.mn : (T)0));
    CHECK("out-max", got<T>(4, s.cnt ? s.mx : (T)0));
    CHECK("data-kept", same(a->getSum(), s.sum) && same(a->getSumSquared(), s.sq) && a->getMin() == s.mn && a->getMax() == s.mx && a->getCount() == s.cnt);
}
#define ALL(T, n) HARNESS(add_##n) { add_one<T>(); } HARNESS(addN_##n) { add_n<T>(); } HARNESS(fresh_##n) { fresh_then_one<T>(); } HARNESS(out_##n) { output<T>(); }
ALL(int32_t, i32)
ALL(uint32_t, u32)
ALL(int64_t, i64)
ALL(uint64_t, u64)
ALL(float, f32)
ALL(double, f64)
