// Contracts for the random number generators (rng/*.cc): state update, tempering, seeding, draws.
// VF:ASSUME malloc returns fresh memory of the size asked for (C library)
// VF:BOUNDED nextUniform: at most two consecutive re-draws (the loop carries no state but the generator's)
#include "sst_config.h"
#include "verif.h"
#include "rng/mersenne.cc"
#include "rng/xorshift.cc"
#include "rng/marsaglia.cc"
using namespace SST;
using namespace SST::RNG;

// ---------------------------------------------------------------- Mersenne twister MT19937 (reference algorithm)
static const int N = 624, M = 397;
static MersenneRNG* any_mt(uint32_t*& nums)
{
    MersenneRNG* r = vf::raw_object<MersenneRNG>("mt");
    nums = (uint32_t*)vf_any_array("state", 4, N);
    r->numbers = nums;
    r->index = (int)vf::any_in<uint32_t>("index", 0, N - 1);
    return r;
}
static uint32_t temper(uint32_t y)
{
    y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18;
    return y;
}
static uint32_t twist(uint32_t hi, uint32_t lo)
{
    uint32_t y = (hi & 0x80000000u) | (lo & 0x7fffffffu);
    return (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0u);
}
HARNESS(mersenne_seed)
{
    uint32_t* old; MersenneRNG* r = any_mt(old);
    uint64_t s = vf::any<uint64_t>("seed");
    r->seed(s);
    uint32_t* n = r->numbers;
    CHECK("index-reset", r->index == 0);
    CHECK("first-word-is-the-seed", n[0] == (uint32_t)s);
    for (uint32_t i = 1; i < (uint32_t)N; i++)
        CHECK("recurrence", n[i] == 1812433253u * (n[i - 1] ^ (n[i - 1] >> 30)) + i);
}
HARNESS(mersenne_constructor)
{
    uint32_t s = vf::any<uint32_t>("seed");
    MersenneRNG* r = ::new (::operator new(sizeof(MersenneRNG))) MersenneRNG(s);
    uint32_t* n = r->numbers;
    CHECK("index-reset", r->index == 0);
    CHECK("first-word-is-the-seed", n[0] == s);
    for (uint32_t i = 1; i < (uint32_t)N; i++)
        CHECK("recurrence", n[i] == 1812433253u * (n[i - 1] ^ (n[i - 1] >> 30)) + i);
}
HARNESS(mersenne_batch)
{
    uint32_t* n; MersenneRNG* r = any_mt(n);
    static uint32_t old[N];
    for (int i = 0; i < N; i++) old[i] = n[i];
    r->generateNextBatch();
    CHECK("index-reset", r->index == 0 && r->numbers == n);
    for (int i = 0; i < N; i++) {
        uint32_t next = i + 1 < N ? old[i + 1] : n[0];
        uint32_t mid = i + M < N ? old[i + M] : n[i + M - N];
        CHECK("twisted", n[i] == (mid ^ twist(old[i], next)));
    }
}
static unsigned n_batch;
static void batch_contract(MersenneRNG* r) { n_batch++; r->numbers = (uint32_t*)vf_any_array("next_state", 4, N); r->index = 0; }
HARNESS(mersenne_draw)
{
    uint32_t* n; MersenneRNG* r = any_mt(n);
    n_batch = 0;
    vf_use_contract(vf::mfn(&MersenneRNG::generateNextBatch), (void*)&batch_contract);
    int i = r->index;
    uint32_t before = n[i];
    uint32_t x = r->MersenneRNG::generateNextUInt32();
    CHECK("batch-exactly-when-exhausted", n_batch == (i == 0));
    CHECK("tempered-word", x == temper(r->numbers[i]));
    CHECK("state-kept", vf::implies(i != 0, n[i] == before));
    CHECK("next-index", r->index == (i + 1 == N ? 0 : i + 1));
}
// ---------------------------------------------------------------- xorshift128 (Marsaglia 2003)
HARNESS(xorshift_draw)
{
    XORShiftRNG* r = vf::raw_object<XORShiftRNG>("xs");
    uint32_t x = r->x, y = r->y, z = r->z, w = r->w;
    uint32_t t = x ^ (x << 11);
    uint32_t e = w ^ (w >> 19) ^ (t ^ (t >> 8));
    uint32_t g = r->XORShiftRNG::generateNextUInt32();
    CHECK("word", g == e);
    CHECK("state", r->x == y && r->y == z && r->z == w && r->w == e);
}
HARNESS(xorshift_seed)
{
    XORShiftRNG* r = vf::raw_object<XORShiftRNG>("xs");
    uint64_t s = vf::any<uint64_t>("seed");
    r->seed(s);
    CHECK("state-from-seed-only", r->x == (uint32_t)s && r->y == 0 && r->z == 0 && r->w == 0);
    uint32_t s2 = vf::any<uint32_t>("seed2"); vf_assume(s2 != 0);
    XORShiftRNG* q = ::new (::operator new(sizeof(XORShiftRNG))) XORShiftRNG(s2);
    CHECK("constructed-from-seed-only", q->x == s2 && q->y == 0 && q->z == 0 && q->w == 0);
}
// ---------------------------------------------------------------- Marsaglia multiply with carry
HARNESS(marsaglia_draw)
{
    MarsagliaRNG* r = vf::raw_object<MarsagliaRNG>("ms");
    uint32_t z = r->m_z, w = r->m_w;
    uint32_t z1 = 36969 * (z & 65535) + (z >> 16), w1 = 18000 * (w & 65535) + (w >> 16);
    unsigned g = r->generateNext();
    CHECK("state", r->m_z == z1 && r->m_w == w1);
    CHECK("word", g == (z1 << 16) + w1);
}
HARNESS(marsaglia_words)
{
    MarsagliaRNG* r = ::new (::operator new(sizeof(MarsagliaRNG))) MarsagliaRNG(1u, 1u);
    r->m_z = vf::any<uint32_t>("z"); r->m_w = vf::any<uint32_t>("w");
    uint32_t z = r->m_z, w = r->m_w;
    uint32_t z1 = 36969 * (z & 65535) + (z >> 16), w1 = 18000 * (w & 65535) + (w >> 16);
    uint32_t e = (z1 << 16) + w1;
    bool sgn = vf::any<bool>("signed");
    uint32_t g = sgn ? (uint32_t)r->MarsagliaRNG::generateNextInt32() : r->MarsagliaRNG::generateNextUInt32();
    CHECK("raw-word", g == e);
    CHECK("one-step", r->m_z == z1 && r->m_w == w1);
}
HARNESS(marsaglia_seed)
{
    MarsagliaRNG* r = vf::raw_object<MarsagliaRNG>("ms");
    uint64_t s = vf::any<uint64_t>("seed");
    r->seed(s);
    uint32_t z = r->m_z, w = r->m_w;
    MarsagliaRNG* q = vf::raw_object<MarsagliaRNG>("other");
    q->seed(s);
    CHECK("state-from-seed-only", q->m_z == z && q->m_w == w);
    CHECK("seed-words", z == (uint32_t)s && w == (uint32_t)(((~s) << 1) + 1) && w != 0);
    uint32_t a = vf::any<uint32_t>("z"), b = vf::any<uint32_t>("w");
    r->restart(a, b);
    CHECK("restart", r->m_z == a && r->m_w == b);
    MarsagliaRNG* c = ::new (::operator new(sizeof(MarsagliaRNG))) MarsagliaRNG(a, b);
    CHECK("constructed", c->m_z == a && c->m_w == b);
}
// ---------------------------------------------------------------- wider draws: two words, low half first
static uint32_t word[3]; static unsigned n_word;
struct FM : MersenneRNG { FM() : MersenneRNG(1u) {} uint32_t generateNextUInt32() override { return word[n_word++]; } };
struct FX : XORShiftRNG { FX() : XORShiftRNG(1u) {} uint32_t generateNextUInt32() override { return word[n_word++]; } };
struct FS : MarsagliaRNG { FS() : MarsagliaRNG(1u, 1u) {} int32_t generateNextInt32() override { return (int32_t)word[n_word++]; } };
static void seed_contract(MersenneRNG*, uint64_t) {}
static unsigned next_contract(MarsagliaRNG*) { return word[n_word++]; }
template <class F> static F* mk()
{
    n_word = 0;
    for (int i = 0; i < 3; i++) word[i] = vf::any<uint32_t>("word");
    vf_use_contract(vf::mfn(&MersenneRNG::seed), (void*)&seed_contract);
    return ::new (::operator new(sizeof(F))) F();
}
template <class F> static void wide()
{
    F* r = mk<F>();
    unsigned kind = vf::any_in<uint32_t>("kind", 0, 1);
    uint64_t e = word[0] | ((uint64_t)word[1] << 32);
    uint64_t g = kind ? (uint64_t)r->generateNextInt64() : r->generateNextUInt64();
    CHECK("two-words-low-first", g == e);
    CHECK("two-draws", n_word == 2);
}
HARNESS(mersenne_wide) { wide<FM>(); }
HARNESS(xorshift_wide) { wide<FX>(); }
HARNESS(marsaglia_wide) { wide<FS>(); }
template <class F> static void narrow()
{
    F* r = mk<F>();
    CHECK("raw-word", (uint32_t)r->generateNextInt32() == word[0] && n_word == 1);
}
HARNESS(mersenne_narrow) { narrow<FM>(); }
HARNESS(xorshift_narrow) { narrow<FX>(); }
// ---------------------------------------------------------------- unit interval
template <class F> static void unit()
{
    F* r = mk<F>();
    vf_fp_exact(true); vf_merge(false);
    vf_assume(word[2] != 0xffffffffu);
    double d = r->nextUniform();
    CHECK("below-one", d < 1.0);
    CHECK("not-negative", d >= 0.0);
    uint32_t used = n_word == 1 ? word[0] : n_word == 2 ? word[1] : word[2];
    CHECK("last-word-used", used != 0xffffffffu);
    CHECK("value", d == (double)used / 4294967295.0);
    CHECK("redraws-only-one", vf::implies(word[0] != 0xffffffffu, n_word == 1));
}
HARNESS(mersenne_unit) { unit<FM>(); }
HARNESS(xorshift_unit) { unit<FX>(); }
HARNESS(marsaglia_unit)
{
    MarsagliaRNG* r = vf::raw_object<MarsagliaRNG>("ms");
    n_word = 0;
    for (int i = 0; i < 3; i++) word[i] = vf::any<uint32_t>("word");
    vf_use_contract(vf::mfn(&MarsagliaRNG::generateNext), (void*)&next_contract);
    vf_fp_exact(true);
    double d = r->MarsagliaRNG::nextUniform();
    CHECK("below-one", d < 1.0);
    CHECK("not-negative", d >= 0.0);
    CHECK("one-draw", n_word == 1);
}
