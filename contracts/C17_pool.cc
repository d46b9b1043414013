// Contracts for one memory pool (mempool.cc): allocation, release, arenas, the shared overflow store and the counters.
// VF:ASSUME mmap returns fresh zero-filled memory of the requested length, disjoint from every earlier arena
// VF:ASSUME calls on the shared overflow store are serialised by its spinlock (each call is verified as one atomic step)
// VF:BOUNDED store_*: at most 3 element sizes with at most 2 lists each
#include "sst_config.h"
#include "verif.h"
#include "verif_list.h"
#include "sst/core/mempool.h"
#include "sst/core/mempoolAccessor.h"
#include "sst/core/output.h"
#include "sst/core/threadsafe.h"
#include <list>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
static uint64_t map_base, map_len; static unsigned n_map; static bool map_fails;
static void* vf_mmap(void*, size_t len, int, int, int, long)
{
    n_map++; map_len = len;
    return map_fails ? MAP_FAILED : (void*)map_base;
}
namespace std { static void* vf_memset(void* p, int v, size_t n)
{
    // the memory is zero already: filling may only write zeros inside the arena
    CHECK("clears-only-the-new-arena", v == 0 && (uint64_t)p >= map_base && (uint64_t)p - map_base <= map_len && n <= map_len - ((uint64_t)p - map_base));
    return p;
} }
#define mmap vf_mmap
#define memset vf_memset
#include "mempool.cc"
#undef mmap
#undef memset
namespace SST { Output Output::m_defaultObject; }
using namespace SST; using namespace SST::Core;
typedef std::vector<void*> List;
static void any_list(List& v, const char* n)
{
    vf::any_vector(v, n, [](const char* nm, unsigned occ, uint64_t i) -> void* {
        VF_ONLY_NATIVE(return (void*)vf::elem_scalar<uint64_t>(nm, occ, i);)
        VF_ONLY_PROOF(return nullptr;)
    });
}
static uint64_t at(const List& v, uint64_t i) { return (uint64_t)v[i]; }
static const uint64_t ARENA = 2 << 20;
// ---- a pool in any state its operations can leave it in
struct S { MemPoolNoMutex* p; uint64_t nf, no, alloc, freed, maxf, maxo; const uint64_t *f, *o; };
static S pool(bool no_free = false)
{
    S s; memPoolCacheAlign = vf::any<bool>("align");
    uint64_t es = vf::any_in<uint64_t>("elem", 8, 1ull << 32);
    s.p = ::new (::operator new(sizeof(MemPoolNoMutex))) MemPoolNoMutex(es);
    any_list(s.p->freelist, "freelist"); if (no_free) { VF_ONLY_NATIVE(s.p->freelist.clear();) vf_assume(s.p->freelist.size() == 0); } any_list(s.p->overflow, "overflow");
    s.nf = s.p->freelist.size(); s.no = s.p->overflow.size();
    s.f = (const uint64_t*)vf::snapshot(s.p->freelist); s.o = (const uint64_t*)vf::snapshot(s.p->overflow);
    s.p->numAlloc = s.alloc = vf::any<uint64_t>("allocs"); s.p->numFree = s.freed = vf::any<uint64_t>("frees");
    s.p->max_freelist_size = s.maxf = vf::any<uint64_t>("max_free") >> 4;
    s.maxo = s.p->max_overflow_size;
    return s;
}
static bool list_is(const List& v, const uint64_t* old, uint64_t n)
{ return v.size() == n && vf::forall(0, n, [&](uint64_t i) { return at(v, i) == old[i]; }); }
HARNESS(construct)
{
    bool al = vf::any<bool>("align"); memPoolCacheAlign = al;
    uint64_t size = vf::any_in<uint64_t>("size", 1, 1ull << 32), es = size + 8;
    MemPoolNoMutex* p = ::new (::operator new(sizeof(MemPoolNoMutex))) MemPoolNoMutex(es);
    CHECK("element-size", p->getElementSize() == es);
    CHECK("block-holds-header-and-object", p->getAllocSize() >= size + 8);
    CHECK("block-word-aligned", vf::implies(size % 8 == 0, p->getAllocSize() % 8 == 0));
    CHECK("cache-aligned-blocks", vf::implies(al, p->getAllocSize() % 64 == 0));
    CHECK("an-arena-holds-a-block", p->getArenaSize() >= p->getAllocSize());
    CHECK("overflow-hands-over-real-lists", p->max_overflow_size >= 1);
    CHECK("starts-empty", p->freelist.empty() && p->overflow.empty() && p->getNumArenas() == 0 && p->getBytesMemUsed() == 0);
    CHECK("counts-zero", p->getNumAllocatedEntries() == 0 && p->getNumFreedEntries() == 0);
}
// ---- a new arena: every block lies inside it, blocks do not overlap
HARNESS(arena)
{
    S s = pool(true); MemPoolNoMutex* p = s.p;
    
    map_fails = vf::any<bool>("no_memory"); map_base = vf::any_in<uint64_t>("page", 1, 1ull << 34) << 12; n_map = 0;
    uint64_t as = p->getAllocSize(), ar = p->getArenaSize(), ne = ar / as;
    bool ok = p->allocPool();
    CHECK("one-arena-mapped-or-failure", n_map == 1 && ok == !map_fails && map_len == ar);
    CHECK("overflow-kept", list_is(p->overflow, s.o, s.no));
    CHECK("sizes-kept", p->getAllocSize() == as && p->getArenaSize() == ar);
    if (!ok) { CHECK("nothing-added-on-failure", p->freelist.empty() && p->getNumArenas() == 0 && p->max_freelist_size == s.maxf); vf_cover("failed"); return; }
    CHECK("arena-recorded", p->getNumArenas() == 1 && (uint64_t)p->getArenas().back() == map_base);
    CHECK("all-blocks-free", p->freelist.size() == ne && ne >= 1);
    CHECK("capacity-grows", p->max_freelist_size == s.maxf + ne);
    CHECK("first-block-at-the-start", at(p->freelist, 0) == map_base);
    CHECK("next-block-right-after", vf::forall(1, ne, [&](uint64_t k) { return at(p->freelist, k) == at(p->freelist, k - 1) + as; }));
    vf_lemma("last-block", at(p->freelist, ne - 1) + as == map_base + as * ne);
    CHECK("last-block-inside-the-arena", as * ne <= ar);
    CHECK("bytes-used", p->getBytesMemUsed() >= ar);
    vf_cover("mapped");
}
// ---- allocate: the block leaves exactly one list, everything else stays; callees by contract
static S cur; static unsigned n_remove, n_arena, n_insert; static bool give; static uint64_t given_n; static const uint64_t* given;
static bool remove_contract(OverflowFreeList*, size_t size, List& l)
{
    n_remove++;
    CHECK("asks-only-when-out-of-blocks", cur.nf == 0 && cur.no == 0 && &l == &cur.p->overflow && l.empty() && cur.p->freelist.empty());
    CHECK("asks-for-its-element-size", size == cur.p->elemSize);
    if (!give) return false;
    any_list(l, "given"); given_n = l.size(); given = (const uint64_t*)vf::snapshot(l);
    vf_assume(given_n >= 1);
    return true;
}
static bool arena_contract(MemPoolNoMutex* p)
{
    n_arena++;
    CHECK("new-arena-only-when-out-of-blocks", p == cur.p && p->freelist.empty() && p->overflow.empty() && !give);
    if (map_fails) return false;
    any_list(p->freelist, "fresh"); given_n = p->freelist.size(); given = (const uint64_t*)vf::snapshot(p->freelist);
    vf_assume(given_n >= 1);
    return true;
}
static void insert_contract(OverflowFreeList*, size_t size, List& l)
{
    n_insert++;
    CHECK("hands-over-its-overflow", &l == &cur.p->overflow && size == cur.p->elemSize);
    CHECK("hands-over-only-full-lists", l.size() == cur.maxo);
    CHECK("block-handed-over-once", l.size() == cur.no + 1 && at(l, cur.no) == given_n && vf::forall(0, cur.no, [&](uint64_t i) { return at(l, i) == cur.o[i]; }));
    l.clear();
}
HARNESS(alloc)
{
    give = vf::any<bool>("shared_has_some"); map_fails = vf::any<bool>("no_memory"); n_remove = n_arena = 0;
    vf_use_contract(vf::mfn(&OverflowFreeList::remove), (void*)&remove_contract);
    vf_use_contract(vf::mfn(&MemPoolNoMutex::allocPool), (void*)&arena_contract);
    cur = pool(); S& s = cur; MemPoolNoMutex* p = s.p;
    uint64_t r = (uint64_t)p->malloc();
    CHECK("counted-once", p->numAlloc == (int64_t)(s.alloc + 1) && p->numFree == (int64_t)s.freed);
    CHECK("capacity-kept", p->max_overflow_size == s.maxo && p->max_freelist_size == s.maxf);
    if (s.nf) {
        CHECK("a-free-block", r == s.f[s.nf - 1] && list_is(p->freelist, s.f, s.nf - 1) && list_is(p->overflow, s.o, s.no) && n_remove + n_arena == 0);
        vf_cover("from-free");
    } else if (s.no) {
        CHECK("an-overflow-block", r == s.o[s.no - 1] && list_is(p->overflow, s.o, s.no - 1) && p->freelist.empty() && n_remove + n_arena == 0);
        vf_cover("from-overflow");
    } else if (give) {
        CHECK("a-shared-block", r == given[given_n - 1] && list_is(p->overflow, given, given_n - 1) && p->freelist.empty() && n_arena == 0);
        vf_cover("from-shared");
    } else if (map_fails) {
        CHECK("fails-without-memory", r == 0 && p->freelist.empty() && p->overflow.empty());
        vf_cover("failed");
    } else {
        CHECK("a-new-block", r == given[given_n - 1] && list_is(p->freelist, given, given_n - 1) && p->overflow.empty() && n_arena == 1);
        vf_cover("from-arena");
    }
}
HARNESS(release)
{
    n_insert = 0;
    vf_use_contract(vf::mfn(&OverflowFreeList::insert), (void*)&insert_contract);
    cur = pool(); S& s = cur; MemPoolNoMutex* p = s.p;
    vf_assume(s.no < s.maxo);       // kept by every operation (below)
    uint64_t b = given_n = vf::any<uint64_t>("block");
    p->free((void*)b);
    CHECK("counted-once", p->numFree == (int64_t)(s.freed + 1) && p->numAlloc == (int64_t)s.alloc);
    bool to_free = p->freelist.size() == s.nf + 1;
    CHECK("available-in-exactly-one-list", to_free + (p->overflow.size() == s.no + 1) + (n_insert == 1) == 1);
    CHECK("free-list-kept", vf::forall(0, s.nf, [&](uint64_t i) { return at(p->freelist, i) == s.f[i]; }) && p->freelist.size() == s.nf + to_free);
    CHECK("the-block-is-available", !to_free || at(p->freelist, s.nf) == b);
    if (n_insert) CHECK("overflow-handed-over", p->overflow.empty() && n_insert == 1);
    else {
        CHECK("overflow-kept", vf::forall(0, s.no, [&](uint64_t i) { return at(p->overflow, i) == s.o[i]; }));
        CHECK("the-block-is-in-overflow", to_free || at(p->overflow, s.no) == b);
    }
    CHECK("overflow-below-its-limit", p->overflow.size() < s.maxo);
    CHECK("free-list-bounded", vf::implies(s.nf <= s.maxf, p->freelist.size() <= s.maxf));
    if (n_insert) vf_cover("handed-over"); else if (to_free) vf_cover("to-free"); else vf_cover("to-overflow");
}
HARNESS(release_then_alloc)
{
    cur = pool(); S& s = cur; MemPoolNoMutex* p = s.p;
    vf_assume(s.no + 1 < s.maxo);
    n_remove = n_arena = 0; give = false;
    vf_use_contract(vf::mfn(&OverflowFreeList::remove), (void*)&remove_contract);
    vf_use_contract(vf::mfn(&MemPoolNoMutex::allocPool), (void*)&arena_contract);
    uint64_t b = vf::any<uint64_t>("block");
    p->free((void*)b);
    uint64_t r = (uint64_t)p->malloc();
    CHECK("no-new-memory-while-a-block-is-available", n_arena == 0 && n_remove == 0);
    CHECK("live-count-unchanged", p->getNumAllocatedEntries() - p->getNumFreedEntries() == (int64_t)(s.alloc - s.freed));
    CHECK("lists-conserve-blocks", p->freelist.size() + p->overflow.size() == s.nf + s.no);
}
// ---- the shared overflow store: lists go in and out whole, keyed by element size
static bool unlocked(OverflowFreeList* o) { bool r = !o->lock.latch.test_and_set(); o->lock.latch.clear(); return r; }
static OverflowFreeList* sto; static unsigned n_sizes; static uint64_t sz[3]; static unsigned nl[3];
static uint64_t mark[3][2];
static void store(unsigned sizes)
{
    sto = ::new (::operator new(sizeof(OverflowFreeList))) OverflowFreeList(); n_sizes = sizes;
    sto->store.reserve(sizes + 1);
    for (unsigned i = 0; i < sizes; i++) {
        sz[i] = vf::any<uint64_t>("size"); for (unsigned j = 0; j < i; j++) vf_assume(sz[i] != sz[j]);
        List l; mark[i][0] = vf::any<uint64_t>("mark"); l.push_back((void*)mark[i][0]);
        sto->store.emplace_back(sz[i], l);
        unsigned c = vf::any_in<uint32_t>("lists", 0, 2); if (c == 0) nl[i] = 0; else if (c == 1) nl[i] = 1; else nl[i] = 2;
        if (nl[i] == 0) sto->store[i].lists.clear();
        if (nl[i] == 2) { List m; mark[i][1] = vf::any<uint64_t>("mark2"); m.push_back((void*)mark[i][1]); sto->store[i].lists.push_back(m); }
    }
}
static bool same_but(unsigned k)
{
    bool ok = true;
    for (unsigned i = 0; i < n_sizes; i++) {
        auto& e = sto->store[i]; ok = ok && e.size == sz[i];
        if (i == k) continue;
        ok = ok && e.lists.size() == nl[i];
        for (unsigned j = 0; ok && j < nl[i]; j++) ok = e.lists[j].size() == 1 && at(e.lists[j], 0) == mark[i][j];
    }
    return ok;
}
static void do_insert(unsigned sizes)
{
    vf_merge(false);
    store(sizes);
    uint64_t size = vf::any<uint64_t>("of_size"), x = vf::any<uint64_t>("b1"), y = vf::any<uint64_t>("b2");
    List l; l.push_back((void*)x); l.push_back((void*)y);
    sto->insert(size, l);
    unsigned k = sizes; for (unsigned i = 0; i < sizes; i++) if (sz[i] == size) k = i;
    CHECK("unlocked", unlocked(sto));
    CHECK("taken-over", l.empty());
    CHECK("others-kept", same_but(k));
    CHECK("filed-once", sto->store.size() == (k == sizes ? sizes + 1 : sizes) && sto->store[k].size == size);
    auto& ls = sto->store[k].lists; unsigned n = k == sizes ? 0 : nl[k];
    CHECK("one-list-more", ls.size() == n + 1);
    CHECK("whole-list", ls[n].size() == 2 && at(ls[n], 0) == x && at(ls[n], 1) == y);
    bool ok = true; for (unsigned j = 0; j < n; j++) ok = ok && ls[j].size() == 1 && at(ls[j], 0) == mark[k][j];
    CHECK("earlier-lists-kept", ok);
}
HARNESS(store_insert_0) { do_insert(0); }
HARNESS(store_insert_1) { do_insert(1); }
HARNESS(store_insert_2) { do_insert(2); }
HARNESS(store_insert_3) { do_insert(3); }
static void do_remove(unsigned sizes)
{
    vf_merge(false);
    store(sizes);
    uint64_t size = vf::any<uint64_t>("of_size"); List l;
    bool got = sto->remove(size, l);
    unsigned k = sizes; for (unsigned i = 0; i < sizes; i++) if (sz[i] == size) k = i;
    CHECK("unlocked", unlocked(sto));
    CHECK("others-kept", same_but(k) && sto->store.size() == sizes);
    CHECK("found-exactly-when-there-is-one", got == (k < sizes && nl[k] > 0));
    if (!got) { CHECK("nothing-changed", l.empty() && (k == sizes || sto->store[k].lists.empty())); vf_cover("none"); return; }
    auto& ls = sto->store[k].lists;
    CHECK("one-list-less", ls.size() == nl[k] - 1);
    bool a = l.size() == 1 && at(l, 0) == mark[k][0], b = l.size() == 1 && nl[k] == 2 && at(l, 0) == mark[k][1];
    CHECK("a-list-of-that-size", a || b);
    CHECK("the-other-list-stays", nl[k] == 1 || (ls[0].size() == 1 && ((b && at(ls[0], 0) == mark[k][0]) || (a && at(ls[0], 0) == mark[k][1]))));
    vf_cover("some");
}
HARNESS(store_remove_1) { do_remove(1); }
HARNESS(store_remove_2) { do_remove(2); }
HARNESS(store_remove_3) { do_remove(3); }
