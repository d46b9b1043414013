// Contracts for HistogramStatistic (stathistogram.h) for every supported number type.
// VF:ASSUME Params::find/pushAllowedKeys (constructor parameters) return arbitrary values; StatisticFieldsOutput::outputField is used by contract
// VF:ASSUME no integer overflow of bounds and sums; numbins >= 1, binwidth >= 1; floating point data finite, floating point operations uninterpreted (same operations)
// VF:ASSUME each add touches one entry of std::map; proved for maps that hold the point's bin or not and up to two other arbitrary bins
// VF:BOUNDED out_*: numbins at most 3; add_*: at most 3 bins present
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sim_env.h"
#include "statapi/statbase.cc"
#include "sst/core/statapi/statoutput.h"
#include "sst/core/statapi/stathistogram.h"
#include <cmath>
using namespace SST;
using namespace SST::Statistics;
namespace SST { Output Simulation::sim_output; Statistics::StatisticProcessingEngine* Simulation::getStatisticsProcessingEngine() { return &stat_engine; } void Params::pushAllowedKeys(const std::vector<std::string>&) {} }
void StatisticProcessingEngine::performStatisticOutput(StatisticBase*, bool) { CHECK("no-output-here", false); }
template <class T> struct P { static T minv; static uint32_t w, nb; };
static uint32_t p_w, p_nb; static unsigned n_u32;
template <class T> T P<T>::minv;
template <class T> static T find_min(Params*, const std::string&, T) { return P<T>::minv; }
static uint32_t find_u32(Params*, const std::string& k, uint32_t) { return k == "binwidth" ? p_w : k == "numbins" ? p_nb : P<uint32_t>::minv; }
static bool find_bool(Params*, const std::string&, bool) { return false; }
template <class T> using H = HistogramStatistic<T>;
template <class T> static H<T>* fresh()
{
    p_w = vf::any<uint32_t>("binwidth"); p_nb = vf::any<uint32_t>("numbins"); P<T>::minv = vf::any<T>("minvalue");
    vf_assume(p_w >= 1 && p_nb >= 1);
    vf_use_contract(vf::mfn((bool (Params::*)(const std::string&, bool) const) & Params::find<bool>), (void*)&find_bool);
    if constexpr (!std::is_same<T, uint32_t>::value) vf_use_contract(vf::mfn((T (Params::*)(const std::string&, T) const) & Params::find<T>), (void*)&find_min<T>);
    vf_use_contract(vf::mfn((uint32_t (Params::*)(const std::string&, uint32_t) const) & Params::find<uint32_t>), (void*)&find_u32);
    Params* p = vf::raw_object<Params>("params");
    static std::string nm("s"), id("i");
    return ::new (::operator new(sizeof(H<T>))) H<T>((BaseComponent*)nullptr, nm, id, *p);
}
template <class T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <class T> static bool isfin(T v)
{
    if constexpr (std::is_same<T, float>::value) { uint32_t b; memcpy(&b, &v, 4); return (b & 0x7f800000u) != 0x7f800000u; }
    else if constexpr (std::is_same<T, double>::value) { uint64_t b; memcpy(&b, &v, 8); return (b >> 52 & 0x7ff) != 0x7ff; }
    else return true;
}
template <class T> static bool mulov(T a, T b, T* r) { if constexpr (std::is_integral<T>::value) return __builtin_mul_overflow(a, b, r); else { *r = a * b; return false; } }
template <class T> static bool addov(T a, T b, T* r) { if constexpr (std::is_integral<T>::value) return __builtin_add_overflow(a, b, r); else { *r = a + b; return false; } }
// the largest value in the last bin; false when it does not fit the type
template <class T> static bool upper(T& mx)
{
    uint64_t span = (uint64_t)p_w * p_nb;
    if constexpr (std::is_floating_point<T>::value) { mx = (T)(span + P<T>::minv - 1); return true; }
    else {
        __int128 m = (__int128)P<T>::minv + (__int128)span - 1;
        if (m > (__int128)std::numeric_limits<T>::max()) return false;
        mx = (T)m; return true;
    }
}
template <class T> static T bin_of(T v)
{
    if constexpr (std::is_floating_point<T>::value) { uint64_t k = (uint64_t)floor(((double)v - (double)P<T>::minv) / (double)p_w); return (T)((double)P<T>::minv + (double)k * (double)p_w); }
    else return (T)((uint64_t)P<T>::minv + ((uint64_t)v - (uint64_t)P<T>::minv) / p_w * p_w);
}
template <class T> static void construct()
{
    H<T>* h = fresh<T>();
    CHECK("parameters", same(h->m_minValue, P<T>::minv) && h->m_binWidth == p_w && h->m_numBins == p_nb);
    CHECK("empty", h->m_totalSummed == 0 && h->m_totalSummedSqr == 0 && h->m_OOBMinCount == 0 && h->m_OOBMaxCount == 0 && h->m_itemsBinnedCount == 0 && h->m_binsMap.empty() && h->getCollectionCount() == 0);
}
template <class T> struct St { T sum, sq, k[3]; uint64_t lo, hi, in, c[3], cnt; unsigned n; bool has[3]; };
template <class T> static H<T>* any_histo(St<T>& s, unsigned n)
{
    H<T>* h = fresh<T>();
    h->m_totalSummed = s.sum = vf::any<T>("sum"); h->m_totalSummedSqr = s.sq = vf::any<T>("sumsq");
    h->m_OOBMinCount = s.lo = vf::any<uint64_t>("below"); h->m_OOBMaxCount = s.hi = vf::any<uint64_t>("above"); h->m_itemsBinnedCount = s.in = vf::any<uint64_t>("inside");
    h->current_collection_count_ = s.cnt = vf::any<uint64_t>("count");
    s.n = n;
    for (unsigned i = 0; i < n; i++) {
        s.k[i] = vf::any<T>("key"); s.c[i] = vf::any<uint64_t>("bin");
        vf_assume(isfin(s.k[i]));
        for (unsigned j = 0; j < i; j++) vf_assume(s.k[j] != s.k[i]);
        h->m_binsMap[s.k[i]] = s.c[i];
    }
    return h;
}
template <class T> static void add(unsigned n, bool one)
{
    St<T> s; H<T>* h = any_histo<T>(s, n); T v = vf::any<T>("v"); uint64_t N = vf::any<uint64_t>("N"); T mn = P<T>::minv, mx;
    vf_assume(isfin(v) && isfin(mn));
    vf_assume(upper(mx));
    T sq, p, q, nsum = s.sum, nsq = s.sq;
    if (one) N = 1;
    vf_assume(N >= 1 && N <= ~0ull - s.in && N <= ~0ull - s.lo && N <= ~0ull - s.hi);
    bool below = v < mn, above = v > mx;
    if (!below && !above) vf_assume(isfin(bin_of(v)));
    if (!below && !above) {
        if constexpr (std::is_integral<T>::value) {
            vf_assume((uint64_t)(T)N == N && (T)N > 0); T t = (T)N;
            vf_assume(!mulov(v, v, &sq)); vf_assume(!mulov(t, v, &p)); vf_assume(!mulov(t, sq, &q)); vf_assume(!addov(s.sum, p, &nsum)); vf_assume(!addov(s.sq, q, &nsq));
        } else { nsum = s.sum + (T)N * v; nsq = s.sq + (T)N * (v * v); }
    }
    if (one) h->addData_impl(v); else h->addData_impl_Ntimes(N, v);
    CHECK("below-minimum", h->m_OOBMinCount == s.lo + (below ? N : 0));
    CHECK("above-maximum", h->m_OOBMaxCount == s.hi + (!below && above ? N : 0));
    bool in = !below && !above;
    CHECK("inside", h->getItemsBinnedCount() == s.in + (in ? N : 0));
    CHECK("sum", same(h->getValuesSummed(), nsum));
    CHECK("sum-of-squares", same(h->getValuesSquaredSummed(), nsq));
    T b = in ? bin_of(v) : T(0); bool had = false;
    for (unsigned i = 0; i < n; i++) {
        bool is = in && s.k[i] == b; had = had || is;
        CHECK("bin-count", h->getBinCountByBinStart(s.k[i]) == s.c[i] + (is ? N : 0));
    }
    if (in && !had) CHECK("new-bin", h->getBinCountByBinStart(b) == N);
    CHECK("bins-in-use", h->getActiveBinCount() == n + (in && !had ? 1 : 0));
    CHECK("bounds-kept", same(h->getBinsMinValue(), mn) && h->getNumBins() == p_nb && h->getBinWidth() == p_w && same(h->getBinsMaxValue(), mx));
    CHECK("collection-count-untouched", h->getCollectionCount() == s.cnt);
}
template <class T> static void bin_law()     // the bin formula used above is "the one bin whose range contains v"
{
    if constexpr (std::is_integral<T>::value) {
        H<T>* h = fresh<T>(); T v = vf::any<T>("v"), mn = P<T>::minv, mx;
        vf_assume(upper(mx) && v >= mn && v <= mx);
        uint64_t d = (uint64_t)v - (uint64_t)mn, k = d / p_w;
        vf_lemma("rem", d % p_w == d - k * p_w);
        T b = bin_of(v);
        CHECK("is-a-bin-start", (uint64_t)b - (uint64_t)mn == k * p_w);
        CHECK("in-range", b <= v && (uint64_t)v - (uint64_t)b < p_w && b >= mn);
    }
}
template <class T> static void clear()
{
    St<T> s; H<T>* h = any_histo<T>(s, 2); bool en = vf::any<bool>("enabled"); h->stat_enabled_ = en;
    h->clearStatisticData();
    CHECK("empty", h->m_totalSummed == 0 && h->m_totalSummedSqr == 0 && h->m_OOBMinCount == 0 && h->m_OOBMaxCount == 0 && h->m_itemsBinnedCount == 0 && h->m_binsMap.empty() && h->getCollectionCount() == 0);
    CHECK("settings-kept", same(h->m_minValue, P<T>::minv) && h->m_binWidth == p_w && h->m_numBins == p_nb && h->stat_enabled_ == en);
}
static unsigned n_f; static int f_h[32]; static uint64_t f_int[32]; static double f_fp[32]; static bool f_isfp[32];
static void rec_i(int h, uint64_t v) { if (n_f < 32) { f_h[n_f] = h; f_int[n_f] = v; f_isfp[n_f] = false; } n_f++; }
static void rec_f(int h, double v) { if (n_f < 32) { f_h[n_f] = h; f_fp[n_f] = v; f_isfp[n_f] = true; } n_f++; }
static void o_i32(StatisticFieldsOutput*, int h, int32_t v) { rec_i(h, (uint64_t)(int64_t)v); }
static void o_u32(StatisticFieldsOutput*, int h, uint32_t v) { rec_i(h, v); }
static void o_i64(StatisticFieldsOutput*, int h, int64_t v) { rec_i(h, (uint64_t)v); }
static void o_u64(StatisticFieldsOutput*, int h, uint64_t v) { rec_i(h, v); }
static void o_f(StatisticFieldsOutput*, int h, float v) { rec_f(h, v); }
static void o_d(StatisticFieldsOutput*, int h, double v) { rec_f(h, v); }
template <class T> static bool got(int i, T v)
{
    if (f_h[i] != 100 + i) return false;
    if constexpr (std::is_floating_point<T>::value) return f_isfp[i] && same(f_fp[i], (double)v);
    else return !f_isfp[i] && f_int[i] == (uint64_t)(int64_t)v;
}
template <class T> static void output(unsigned nb)
{
    St<T> s; H<T>* h = any_histo<T>(s, 0);
    p_nb = nb; h->m_numBins = nb; T mx; vf_assume(upper(mx) && isfin(P<T>::minv));
    h->m_includeOutOfBounds = nb & 1; h->m_dumpBinsOnOutput = true;
    uint64_t c[3]; bool has[3]; T prev = P<T>::minv;
    for (unsigned y = 0; y < nb; y++) {
        c[y] = vf::any<uint64_t>("bincount"); has[y] = vf::any<bool>("present");
        T start; if constexpr (std::is_floating_point<T>::value) start = (T)((double)P<T>::minv + (double)(uint64_t)y * (double)p_w); else start = (T)((uint64_t)P<T>::minv + (uint64_t)y * p_w);
        if constexpr (std::is_floating_point<T>::value) { vf_assume(isfin(start)); if (y) vf_assume(start > prev); prev = start; }
        if (has[y]) h->m_binsMap[start] = c[y]; else c[y] = 0;
    }
    if constexpr (std::is_floating_point<T>::value) vf_assume(nb < 3);
    for (int i = 0; i < 20; i++) h->m_Fields.push_back(100 + i);
    StatisticFieldsOutput* o = vf::raw_object<StatisticFieldsOutput>("fields_output");
    static void* table[64];
    for (int i = 0; i < 64; i++) table[i] = nullptr;
    using SO = StatisticFieldsOutput;
    auto put = [&](auto pm, void* f) { uint64_t w; memcpy(&w, &pm, 8); table[(w - 1) / 8] = f; };
    put((void (SO::*)(int, int32_t)) & SO::outputField, (void*)&o_i32); put((void (SO::*)(int, uint32_t)) & SO::outputField, (void*)&o_u32);
    put((void (SO::*)(int, int64_t)) & SO::outputField, (void*)&o_i64); put((void (SO::*)(int, uint64_t)) & SO::outputField, (void*)&o_u64);
    put((void (SO::*)(int, float)) & SO::outputField, (void*)&o_f); put((void (SO::*)(int, double)) & SO::outputField, (void*)&o_d);
    *(void***)o = table;
    n_f = 0;
    unsigned act = h->m_binsMap.size();
    h->outputStatisticFields(o, vf::any<bool>("eos"));
    unsigned base = 9 + (nb & 1 ? 2 : 0);
    CHECK("one-value-per-field", n_f == base + nb);
    CHECK("bounds", got<T>(0, P<T>::minv) && got<T>(1, mx) && got<uint32_t>(2, p_w) && got<uint32_t>(3, nb));
    CHECK("sums", got<T>(4, s.sum) && got<T>(5, s.sq));
    CHECK("counts", got<uint32_t>(6, act) && got<uint64_t>(7, s.cnt) && got<uint64_t>(8, s.in));
    if (nb & 1) CHECK("out-of-bounds", got<uint64_t>(9, s.lo) && got<uint64_t>(10, s.hi));
    for (unsigned y = 0; y < nb; y++) CHECK("bin", got<uint64_t>(base + y, c[y]));
    CHECK("data-kept", h->m_binsMap.size() == act && h->m_itemsBinnedCount == s.in);
}
#define ALL(T, n) HARNESS(new_##n) { construct<T>(); } HARNESS(add_##n) { add<T>(0, true); } HARNESS(addn_##n) { add<T>(0, false); } HARNESS(add2_##n) { add<T>(2, true); } HARNESS(addn2_##n) { add<T>(2, false); } HARNESS(clear_##n) { clear<T>(); } HARNESS(out_##n) { output<T>(std::is_floating_point<T>::value ? 2 : 3); } HARNESS(outn_##n) { output<T>(2); }
ALL(int32_t, i32)
ALL(uint32_t, u32)
ALL(int64_t, i64)
ALL(uint64_t, u64)
ALL(float, f32)
ALL(double, f64)
#define LAW(T, n) HARNESS(law_##n) { bin_law<T>(); }
LAW(int32_t, i32)
LAW(uint32_t, u32)
LAW(int64_t, i64)
LAW(uint64_t, u64)
