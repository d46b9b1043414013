// Contracts for MemPoolItem's operator new / delete, the per-thread pool tables and the usage queries (mempool.cc).
// VF:ASSUME one pool's malloc and free by contract (proved in C17_pool)
// VF:BOUNDED find_*: at most 3 pools per thread; usage: at most 2 threads with 2 pools each; undeleted: at most 2 arenas of at most 3 blocks
#include "sst_config.h"
#include "verif.h"
#include "verif_list.h"
#include "sst/core/mempool.h"
#include "sst/core/mempoolAccessor.h"
#include "sst/core/output.h"
#include "mempool.cc"
namespace SST { Output Output::m_defaultObject; }
using namespace SST; using namespace SST::Core;
static std::vector<PoolInfo_t> table; static MemPoolNoMutex* pools[3]; static uint64_t sizes[3];
static MemPoolNoMutex* mk(uint64_t es) { return ::new (::operator new(sizeof(MemPoolNoMutex))) MemPoolNoMutex(es); }
static void find(unsigned n)
{
    vf_merge(false);
    ::new (&table) std::vector<PoolInfo_t>(); table.reserve(n + 1); myPools = &table; memPoolCacheAlign = vf::any<bool>("align");
    for (unsigned i = 0; i < n; i++) {
        sizes[i] = vf::any_in<uint64_t>("size", 1, 1ull << 32); for (unsigned j = 0; j < i; j++) vf_assume(sizes[i] != sizes[j]);
        pools[i] = mk(sizes[i] + 8); table.emplace_back(sizes[i], pools[i]);
    }
    uint64_t s = vf::any_in<uint64_t>("for", 1, 1ull << 32);
    unsigned k = n; for (unsigned i = 0; i < n; i++) if (sizes[i] == s) k = i;
    MemPoolNoMutex* p = getMemPool(s);
    CHECK("the-pool-of-that-size", k == n || p == pools[k]);
    CHECK("new-only-when-missing", table.size() == (k == n ? n + 1 : n));
    CHECK("filed-under-its-size", table[k].size == s && table[k].pool == p);
    CHECK("room-for-header-and-object", p->getAllocSize() >= s + 8 && p->getArenaSize() >= p->getAllocSize());
    bool ok = true; for (unsigned i = 0; i < n; i++) ok = ok && table[i].size == sizes[i] && table[i].pool == pools[i] && (i == k || p != pools[i]);
    CHECK("others-kept", ok);
    CHECK("same-pool-again", getMemPool(s) == p && table.size() == (k == n ? n + 1 : n));
    CHECK("accessors", MemPoolAccessor::getArenaSize(s) == p->getArenaSize() && MemPoolAccessor::getNumArenas(s) == p->getNumArenas() && MemPoolAccessor::getBytesMemUsedBy(s) == p->getBytesMemUsed());
}
HARNESS(find_0) { find(0); }
HARNESS(find_1) { find(1); }
HARNESS(find_2) { find(2); }
HARNESS(find_3) { find(3); }
// ---- operator new / delete
static uint64_t *block, want; static bool none; static unsigned n_malloc, n_free; static void* freed; static MemPoolNoMutex *asked, *fromp;
static MemPoolNoMutex* pool_contract(std::size_t size) noexcept { CHECK("pool-of-the-object's-size", size == want); return asked; }
static void* malloc_contract(MemPoolNoMutex* p) { n_malloc++; fromp = p; return none ? nullptr : (void*)block; }
static void free_contract(MemPoolNoMutex* p, void* b) { n_free++; fromp = p; freed = b; CHECK("marked-free-before-it-can-be-reused", block[0] == 0); }
static void contracts()
{
    n_malloc = n_free = 0; fromp = nullptr; freed = nullptr;
    asked = mk(64);
    vf_use_contract((void*)&getMemPool, (void*)&pool_contract);
    vf_use_contract(vf::mfn(&MemPoolNoMutex::malloc), (void*)&malloc_contract);
    vf_use_contract(vf::mfn(&MemPoolNoMutex::free), (void*)&free_contract);
}
static uint64_t snap[4];
static void any_block() { block = (uint64_t*)::operator new(32); for (int i = 0; i < 4; i++) block[i] = snap[i] = vf::any<uint64_t>("word"); }
HARNESS(item_new)
{
    contracts(); any_block(); none = vf::any<bool>("no_memory"); want = vf::any_in<uint64_t>("size", 1, 1ull << 40);
    void* p = MemPoolItem::operator new(want);
    CHECK("one-block-from-its-pool", n_malloc == 1 && n_free == 0 && fromp == asked);
    if (none) { CHECK("null-without-memory", p == nullptr); return; }
    CHECK("object-after-the-header", p == (void*)(block + 1));
    CHECK("header-is-the-size", block[0] == want);
    CHECK("object-bytes-untouched", block[1] == snap[1] && block[2] == snap[2] && block[3] == snap[3]);
}
struct Item : public MemPoolItem {
    std::string toString() const override { return std::string(); }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    const char* cls_name() const override { return ""; }
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return std::string(); }
    uint64_t a, b;
};
static_assert(sizeof(Item) == 24, "block");
static bool dead;
static void fatal_contract(const Output*, uint32_t, const char*, const char*, int, const char*, ...)
{
    CHECK("reports-only-a-double-delete", dead);
    CHECK("double-delete-frees-nothing", n_free == 0 && n_malloc == 0);
    vf_cover("double");
    vf_stop();              // the program ends here (operator delete does not throw)
}
HARNESS(item_delete)
{
    contracts(); any_block();
    want = block[0]; dead = want == 0;
    ::new ((void*)(block + 1)) Item();     // (the report asks the object for its name)
    VF_ONLY_NATIVE(if (dead) return;)
    void (Output::*f)(uint32_t, const char*, const char*, int, const char*, ...) const = &Output::fatal;
    void* fp; memcpy(&fp, &f, 8);
    vf_use_contract(fp, (void*)&fatal_contract);
    MemPoolItem::operator delete((void*)(block + 1));
    CHECK("double-delete-reported", !dead);
    CHECK("block-returned-once-to-its-pool", n_free == 1 && n_malloc == 0 && freed == (void*)block && fromp == asked);
    CHECK("header-cleared", block[0] == 0);
    vf_cover("deleted");
}
// ---- usage over all threads
HARNESS(usage)
{
    vf_merge(false);
    memPoolCacheAlign = false;
    ::new (&memPoolThreadVector) std::vector<std::vector<PoolInfo_t>>();
    int64_t bytes = 0, al = 0, fr = 0;
    unsigned nt = vf::any_in<uint32_t>("threads", 1, 2); nt = nt == 1 ? 1 : 2;
    MemPoolAccessor::initializeGlobalData((int)nt, false);
    CHECK("one-table-per-thread", memPoolThreadVector.size() == nt);
    for (unsigned t = 0; t < nt; t++) {
        thread_num = -1;
        MemPoolAccessor::initializeLocalData((int)t);
        CHECK("own-table", myPools == &memPoolThreadVector[t] && thread_num == (int)t);
        MemPoolAccessor::initializeLocalData((int)(nt - 1 - t));
        CHECK("set-once", myPools == &memPoolThreadVector[t] && thread_num == (int)t);
        unsigned np = vf::any_in<uint32_t>("pools", 0, 2); np = np == 0 ? 0 : np == 1 ? 1 : 2;
        for (unsigned i = 0; i < np; i++) {
            MemPoolNoMutex* p = mk(64 + i);
            if (vf::any<bool>("arena")) p->arenas.push_back(nullptr);
            p->freelist.reserve(3);
            p->numAlloc = vf::any<int64_t>("allocs"); p->numFree = vf::any<int64_t>("frees");
            al = (int64_t)((uint64_t)al + (uint64_t)p->numAlloc); fr = (int64_t)((uint64_t)fr + (uint64_t)p->numFree);
            bytes += p->arenas.size() * p->arenaSize + 24;
            myPools->emplace_back(64 + i, p);
        }
    }
    MemPoolAccessor::initializeGlobalData(7, false);
    CHECK("tables-made-once", memPoolThreadVector.size() == nt);
    int64_t b = vf::any<int64_t>("b0"), e = vf::any<int64_t>("e0");
    MemPoolAccessor::getMemPoolUsage(b, e);
    CHECK("bytes-of-all-pools", b == bytes);
    CHECK("live-blocks-of-all-pools", e == (int64_t)((uint64_t)al - (uint64_t)fr));
}
// ---- what is still in use: every block of every arena with a header is reported, no other
static unsigned n_print[6]; static uint64_t* cells[6];
struct Shown : public Item { void print(const std::string&, Output&) const override; };
void Shown::print(const std::string&, Output&) const { for (int i = 0; i < 6; i++) if ((void*)this == (void*)(cells[i] + 1)) n_print[i]++; }
HARNESS(undeleted)
{
    vf_merge(false);
    memPoolCacheAlign = false;
    ::new (&memPoolThreadVector) std::vector<std::vector<PoolInfo_t>>();
    memPoolThreadVector.resize(1);
    MemPoolNoMutex* p = ::new (::operator new(sizeof(MemPoolNoMutex))) MemPoolNoMutex(32, 3 * 40);
    memPoolThreadVector[0].emplace_back(24, p);
    unsigned na = vf::any<bool>("two") ? 2 : 1;
    for (unsigned a = 0; a < na; a++) {
        uint8_t* m = (uint8_t*)::operator new(120); p->arenas.push_back(m);
        for (int i = 0; i < 3; i++) { cells[a * 3 + i] = (uint64_t*)(m + 40 * i); *cells[a * 3 + i] = vf::any<uint64_t>("header"); ::new ((void*)(cells[a * 3 + i] + 1)) Shown(); n_print[a * 3 + i] = 0; }
    }
    VF_ONLY_NATIVE(for (unsigned i = 0; i < na * 3; i++) if (vfn_random(1)) *cells[i] = 0;)
    Output* o = vf::raw_object<Output>("out");
    MemPoolAccessor::printUndeletedMemPoolItems(std::string(), *o);
    bool ok = true; for (unsigned i = 0; i < na * 3; i++) ok = ok && n_print[i] == (*cells[i] != 0);
    CHECK("exactly-the-live-blocks", ok);
}
