// Contracts for SparseVectorMap (sparseVectorMap.h), its three versions, for maps of any size: the binary searches by loop
// invariant, insertion and lookup over the contracts of the searches, positions and shifting by the vector.
// VF:BOUNDED sorting constructor and filter: at most 4 entries
// VF:ASSUME fewer than 2^30 entries (positions are int)
#include "sst_config.h"
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include "sst/core/sst_types.h"
#include "verif.h"
#include "sparseVectorMap.h"
using namespace SST;
struct Item { uint64_t k, v; uint64_t key() const { return k; } };
struct Obj { uint64_t k, v; uint64_t key() const { return k; } };
template <> struct vf::Make<Obj> {
    static Obj* make() { return new Obj(); }
    static std::vector<vf::Field> fields() { return { vf::field(&Obj::k), vf::field(&Obj::v) }; }
};
typedef SparseVectorMap<uint64_t, Item> VMap;          // objects by value (links)
typedef SparseVectorMap<uint64_t, Obj*> PMap;          // objects by pointer (components)
typedef SparseVectorMap<uint64_t, uint64_t> SMap;      // a set of keys
static uint64_t key(const Item& x) { return x.k; }
static uint64_t key(Obj* x) { return x->k; }
static uint64_t key(uint64_t x) { return x; }
static bool same(const Item& a, const Item& b) { return a.k == b.k && a.v == b.v; }
static bool same(Obj* a, Obj* b) { return a == b; }
static bool same(uint64_t a, uint64_t b) { return a == b; }
static bool valid(const Item&) { return true; }
static bool valid(Obj* p) { return vf_valid_ptr(p); }
static bool valid(uint64_t) { return true; }
#ifdef VF_NATIVE
static void gen(Item& x, const char* nm, unsigned occ, uint64_t i)
{
    if (!vfn_elem(nm, occ, i, 0, 8, &x.k)) x.k = i * 3 + vfn_random(8) % 3;
    if (!vfn_elem(nm, occ, i, 8, 8, &x.v)) x.v = vfn_random(64);
}
static void gen(uint64_t& x, const char* nm, unsigned occ, uint64_t i)
{ if (!vfn_elem(nm, occ, i, 0, 8, &x)) x = i * 3 + vfn_random(8) % 3; }
static void gen(Obj*& x, const char* nm, unsigned occ, uint64_t i)
{
    uint64_t a;
    if (vfn_elem(nm, occ, i, 0, 8, &a)) x = vf::native_obj<Obj>(a);
    else x = new Obj { i * 3 + vfn_random(8) % 3, vfn_random(64) };
}
#endif
template <class M> struct Map {
    typedef typename std::remove_reference<decltype(((M*)nullptr)->data[0])>::type E;
    M* m; uint64_t n; const E* old;
    Map()
    {
        m = vf::raw_object<M>("map");
        vf::any_vector(m->data, "data", [](const char* nm, unsigned occ, uint64_t i) -> E {
            E e = E();
            VF_ONLY_NATIVE(gen(e, nm, occ, i);)
            return e;
        });
        n = m->data.size();
        vf_assume(n < (1u << 30));
        auto& d = m->data;
        vf_assume(vf::forall(0, n, [&](uint64_t i) { return valid(d[i]); }));
        vf_assume(vf::forall(0, n, [&](uint64_t i) { return vf::forall(0, n, [&](uint64_t j) { return !(i < j) || key(d[i]) < key(d[j]); }); }));
        old = vf::snapshot(d);
    }
};
static uint64_t any_key() { uint64_t id = vf::any<uint64_t>("key"); VF_ONLY_NATIVE(if (id > 40 && vfn_random(8) % 4) id %= 24;) return id; }
template <class M> static void find_position()
{
    Map<M> x; uint64_t id = any_key(); auto* old = x.old;
    int r = x.m->binary_search_find(id);
    CHECK("absent", vf::implies(r == -1, vf::forall(0, x.n, [&](uint64_t k) { return key(old[k]) != id; })));
    CHECK("present", r == -1 || (r >= 0 && (uint64_t)r < x.n && key(old[r]) == id));
}
template <class M> static void insert_position()
{
    Map<M> x; uint64_t id = any_key(); auto* old = x.old; uint64_t n = x.n;
    int r = x.m->binary_search_insert(id);
    CHECK("present", vf::implies(r == -1, vf::exists(0, n, [&](uint64_t k) { return key(old[k]) == id; })));
    CHECK("position", r == -1 || (r >= 0 && (uint64_t)r <= n && ((uint64_t)r == n || id < key(old[r])) && (r == 0 || key(old[r - 1]) < id)));
}
// the contracts just proved, used by the operations below (natively the real searches run)
template <class M> static int find_contract(const M* m, uint64_t id)
{
    int r = (int)vf::any<int32_t>("found");
    auto& d = m->data; uint64_t n = d.size();
    vf_assume(r == -1 || (r >= 0 && (uint64_t)r < n && key(d[r]) == id));
    vf_assume(vf::implies(r == -1, vf::forall(0, n, [&](uint64_t k) { return key(d[k]) != id; })));
    return r;
}
static int place;      // what the insertion search answered
template <class M> static int insert_contract(const M* m, uint64_t id)
{
    int r = place = (int)vf::any<int32_t>("place");
    auto& d = m->data; uint64_t n = d.size();
    vf_assume(vf::implies(r == -1, vf::exists(0, n, [&](uint64_t k) { return key(d[k]) == id; })));
    vf_assume(r == -1 || (r >= 0 && (uint64_t)r <= n && ((uint64_t)r == n || id < key(d[r])) && (r == 0 || key(d[r - 1]) < id)));
    return r;
}
template <class M> static void searches()
{
#ifndef VF_NATIVE
    vf_use_contract(vf::mfn(&M::binary_search_find), (void*)&find_contract<M>);
    vf_use_contract(vf::mfn(&M::binary_search_insert), (void*)&insert_contract<M>);
#endif
}
template <class M> static void lookup()
{
    Map<M> x; searches<M>(); uint64_t id = any_key(); auto* old = x.old; uint64_t n = x.n;
    bool c = x.m->contains(id);
    CHECK("contains", c == vf::exists(0, n, [&](uint64_t k) { return key(old[k]) == id; }));
    CHECK("size", x.m->size() == n);
    CHECK("unchanged", vf::forall(0, n, [&](uint64_t k) { return same(x.m->data[k], old[k]); }));
}
template <class M> static void get()
{
    Map<M> x; searches<M>(); uint64_t id = any_key(); auto* old = x.old; uint64_t n = x.n;
    bool cst = vf::any<bool>("const"), thrown = false;
    const M* cm = x.m;
    try {
        if (cst) { auto&& r = (*cm)[id]; CHECK("const-element", vf::exists(0, n, [&](uint64_t k) { return key(old[k]) == id && same(old[k], (typename Map<M>::E)r); })); }
        else     { auto&& r = (*x.m)[id]; CHECK("element", vf::exists(0, n, [&](uint64_t k) { return key(old[k]) == id && same(old[k], r); })); }
    } catch (const std::out_of_range&) { thrown = true; }
    CHECK("error-exactly-when-absent", thrown == !vf::exists(0, n, [&](uint64_t k) { return key(old[k]) == id; }));
}
template <class M> static void clear()
{
    Map<M> x;
    x.m->clear();
    CHECK("empty", x.m->size() == 0 && x.m->begin() == x.m->end());
}
template <class M> static void iterate()
{
    Map<M> x; const M* cm = x.m;
    CHECK("whole-range", (uint64_t)(x.m->end() - x.m->begin()) == x.n && (uint64_t)(cm->end() - cm->begin()) == x.n);
}
HARNESS(value_find) { find_position<VMap>(); }
HARNESS(pointer_find) { find_position<PMap>(); }
HARNESS(set_find) { find_position<SMap>(); }
HARNESS(value_insert_position) { insert_position<VMap>(); }
HARNESS(pointer_insert_position) { insert_position<PMap>(); }
HARNESS(set_insert_position) { insert_position<SMap>(); }
HARNESS(value_lookup) { lookup<VMap>(); }
HARNESS(pointer_lookup) { lookup<PMap>(); }
HARNESS(set_lookup) { lookup<SMap>(); }
HARNESS(value_get) { get<VMap>(); }
HARNESS(pointer_get) { get<PMap>(); }
HARNESS(value_clear) { clear<VMap>(); }
HARNESS(pointer_clear) { clear<PMap>(); }
HARNESS(set_clear) { clear<SMap>(); }
HARNESS(value_iterate) { iterate<VMap>(); }
HARNESS(pointer_iterate) { iterate<PMap>(); }
HARNESS(set_iterate) { iterate<SMap>(); }
HARNESS(value_insert)
{
    Map<VMap> x; searches<VMap>();
    Item e { any_key(), vf::any<uint64_t>("val") };
    const Item* old = x.old; uint64_t n = x.n, id = e.k;
    Item& r = x.m->insert(e);
    auto& d = x.m->data;
    CHECK("has-the-key", r.k == id);
    CHECK("size", d.size() == n || d.size() == n + 1);
    if (d.size() == n) {
        CHECK("kept-all", vf::forall(0, n, [&](uint64_t k) { return same(d[k], old[k]); }));
        CHECK("existing-object", vf::exists(0, n, [&](uint64_t k) { return old[k].k == id && &d[k] == &r; }));
        vf_cover("present");
        return;
    }
    CHECK("placed", same(r, e) && vf::exists(0, n + 1, [&](uint64_t k) { return &d[k] == &r; }));
    // for any one old entry
    uint64_t k = vf::any<uint64_t>("entry");
    VF_ONLY_NATIVE(if (n) k %= n;)
    vf_assume(k < n);
    VF_ONLY_PROOF(vf_lemma("split", (k < (uint64_t)place) == (old[k].k < id));)
    vf_lemma("no-equal-key", old[k].k != id);
    if (old[k].k < id) CHECK("below-kept", same(d[k], old[k]));
    else CHECK("above-shifted", same(d[k + 1], old[k]));
    vf_cover("inserted");
}
HARNESS(pointer_insert)
{
    Map<PMap> x; searches<PMap>();
    Obj* e = vf::any_ptr<Obj>("obj");
    VF_ONLY_NATIVE(if (e->k > 40 && vfn_random(8) % 4) e->k %= 24;)
    Obj* const* old = x.old; uint64_t n = x.n, id = e->k;
    Obj* r = x.m->insert(e);
    auto& d = x.m->data;
    CHECK("has-the-key", r->k == id);
    CHECK("size", d.size() == n || d.size() == n + 1);
    if (d.size() == n) {
        CHECK("kept-all", vf::forall(0, n, [&](uint64_t k) { return d[k] == old[k]; }));
        CHECK("existing-object", vf::exists(0, n, [&](uint64_t k) { return old[k]->k == id && old[k] == r; }));
        vf_cover("present");
        return;
    }
    CHECK("new-object", r == e);
    CHECK("object-unchanged", e->k == id);
    // one new place; everything before it kept, everything after it shifted by one
    CHECK("placed", vf::exists(0, n + 1, [&](uint64_t k) { return d[k] == e; }));
    uint64_t k = vf::any<uint64_t>("entry");
    VF_ONLY_NATIVE(if (n) k %= n;)
    vf_assume(k < n);
    VF_ONLY_PROOF(vf_lemma("split", (k < (uint64_t)place) == (old[k]->k < id));)
    vf_lemma("no-equal-key", old[k]->k != id);
    if (old[k]->k < id) CHECK("below-kept", d[k] == old[k]);
    else CHECK("above-shifted", d[k + 1] == old[k]);
    vf_cover("inserted");
}
HARNESS(set_insert)
{
    Map<SMap> x; searches<SMap>();
    uint64_t id = any_key(); const uint64_t* old = x.old; uint64_t n = x.n;
    x.m->insert(id);
    auto& d = x.m->data;
    CHECK("size", d.size() == n || d.size() == n + 1);
    if (d.size() == n) {
        CHECK("kept-all", vf::forall(0, n, [&](uint64_t k) { return d[k] == old[k]; }));
        CHECK("was-present", vf::exists(0, n, [&](uint64_t k) { return old[k] == id; }));
        vf_cover("present");
        return;
    }
    CHECK("placed", vf::exists(0, n + 1, [&](uint64_t k) { return d[k] == id; }));
    uint64_t k = vf::any<uint64_t>("entry");
    VF_ONLY_NATIVE(if (n) k %= n;)
    vf_assume(k < n);
    VF_ONLY_PROOF(vf_lemma("split", (k < (uint64_t)place) == (old[k] < id));)
    vf_lemma("no-equal-key", old[k] != id);
    if (old[k] < id) CHECK("below-kept", d[k] == old[k]);
    else CHECK("above-shifted", d[k + 1] == old[k]);
    vf_cover("inserted");
}

// ---- building from an unsorted list, and filtering (pointer map): every list of at most 4 distinct keys
template <class M, class E> static void build(unsigned n, E (*mk)(uint64_t k))
{
    std::vector<E> in; uint64_t ks[4];
    for (unsigned i = 0; i < n; i++) {
        ks[i] = vf::any<uint64_t>("k");
        VF_ONLY_NATIVE(ks[i] %= 13;)
        for (unsigned j = 0; j < i; j++) vf_assume(ks[j] != ks[i]);
        in.push_back(mk(ks[i]));
    }
    std::vector<E> keep = in;
    M m(in, false);
    CHECK("size", m.size() == n && in.empty());
    for (unsigned i = 1; i < n; i++) CHECK("sorted", key(m.data[i - 1]) < key(m.data[i]));
    for (unsigned i = 0; i < n; i++) {
        bool f = false;
        for (unsigned j = 0; j < n; j++) f = f || same(m.data[j], keep[i]);
        CHECK("nothing-lost", f);
    }
}
static Item mk_item(uint64_t k) { return Item { k, k ^ 0x55 }; }
static Obj* mk_obj(uint64_t k) { return new Obj { k, k ^ 0x55 }; }
HARNESS(value_build_1) { build<VMap, Item>(1, mk_item); }
HARNESS(value_build_2) { build<VMap, Item>(2, mk_item); }
HARNESS(value_build_3) { build<VMap, Item>(3, mk_item); }
HARNESS(value_build_4) { build<VMap, Item>(4, mk_item); }
HARNESS(pointer_build_2) { build<PMap, Obj*>(2, mk_obj); }
HARNESS(pointer_build_3) { build<PMap, Obj*>(3, mk_obj); }
HARNESS(pointer_build_4) { build<PMap, Obj*>(4, mk_obj); }
struct Filter {
    unsigned n = 0; bool keep[4]; Obj* seen[4]; Obj* ret[4]; bool swap[4], bad[4];
    Obj* operator()(Obj* o)
    {
        unsigned i = n++; seen[i] = o;
        if (!keep[i]) return ret[i] = nullptr;
        if (swap[i]) return ret[i] = new Obj { bad[i] ? o->k + 1 : o->k, 99 };
        return ret[i] = o;
    }
};
template <unsigned N> static void filter()
{
    vf_merge(false);
    PMap m; Obj* o[4]; Filter f; bool anybad = false;
    for (unsigned i = 0; i < N; i++) {
        o[i] = new Obj { vf::any_in<uint64_t>("k", 0, ~0ull - 1), 0 };
        VF_ONLY_NATIVE(o[i]->k = 3 * i;)
        if (i) vf_assume(o[i - 1]->k < o[i]->k);
        m.data.push_back(o[i]);
        f.keep[i] = vf::any<bool>("keep"); f.swap[i] = vf::any<bool>("swap"); f.bad[i] = vf::any<bool>("bad");
        if (f.keep[i] && f.swap[i] && f.bad[i]) anybad = true;
    }
    bool thrown = false;
    try { m.filter(f); } catch (const bad_filtered_key_error&) { thrown = true; }
    CHECK("changed-key-rejected", thrown == anybad);
    if (thrown) return;
    unsigned w = 0;
    CHECK("each-object-offered-once", f.n == N);
    for (unsigned i = 0; i < N; i++) {
        CHECK("offered-in-order", f.seen[i] == o[i]);
        if (f.ret[i]) { CHECK("survivor-kept-in-order", w < m.size() && m.data[w] == f.ret[i]); w++; }
    }
    CHECK("size", m.size() == w);
}
HARNESS(filter_0) { filter<0>(); }
HARNESS(filter_1) { filter<1>(); }
HARNESS(filter_2) { filter<2>(); }
HARNESS(filter_3) { filter<3>(); }
