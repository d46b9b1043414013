// Contracts for the shared objects: SharedArray / SharedMap / SharedSet data and change sets (shared/*.h) and the manager (sharedObject.cc).
// VF:ASSUME updateState is run in one process; change sets of other ranks are applied through their own applyChanges
// VF:BOUNDED maps and sets hold at most 2 earlier entries, change sets at most 2 changes, the manager at most 2 objects, full/empty resizes at most 3 entries
// VF:ASSUME SharedMap/SharedSet NO_VERIFY writes are outside the property (the in-code comment promises no verification)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sim_env.h"
#include "sst/core/serialization/serializer.cc"
#include "sst/core/serialization/impl/unpacker.cc"
#include "sst/core/serialization/impl/ser_shared_ptr_tracker.cc"
#include "sst/core/serialization/serializable.cc"
#include "sst/core/serialization/serializable_base.cc"
#include "sst/core/shared/sharedObject.cc"
using namespace SST;
using namespace SST::Shared;
typedef SharedObject::verify_type VT;
static const VT FE = SharedObject::FE_VERIFY, INI = SharedObject::INIT_VERIFY, NOV = SharedObject::NO_VERIFY, UNI = SharedObject::VERIFY_UNINITIALIZED;
namespace SST { Output Simulation::sim_output; Output Output::m_defaultObject; }
template <class D> static D* data(uint32_t ranks = 0)
{
    Simulation* sim = vfsim::setup();
    if ( ranks ) sim->num_ranks.rank = ranks;
    else if ( vf::any<bool>("several_ranks") ) sim->num_ranks.rank = 2;
    else sim->num_ranks.rank = 1;
    D* d = new D(std::string("obj"));
    CHECK("starts-unpublished", d->share_count == 0 && d->publish_count == 0 && !d->fully_published && !d->locked && d->verify == UNI);
    CHECK("change-set-iff-several-ranks", (d->change_set != nullptr) == (sim->num_ranks.rank > 1));
    return d;
}
static VT any_mode() { if ( vf::any<bool>("mode_init") ) return INI; else { if ( vf::any<bool>("mode_fe") ) return FE; else return NOV; } }
static bool free_lock(std::mutex& m) { bool r = m.try_lock(); if ( r ) m.unlock(); return r; }
// --- one write to an array of any length
template <class T>
static void array_write(VT mode)
{
    typedef typename SharedArray<T>::Data D;
    vf_merge(false);
    D* d = data<D>();
    vf::any_vector(d->array, "array");
    uint64_t n = d->array.size();
    d->init = vf::any<T>("init"); d->verify = mode;
    bool locked; if ( vf::any<bool>("locked") ) locked = true; else locked = false;
    bool pub; if ( vf::any<bool>("published") ) pub = true; else pub = false;
    d->locked = locked;
    int i = vf::any<int>("index"); T v = vf::any<T>("value");
    vf_assume(i >= 0 && (uint64_t)i < n);
    T cur = d->array[i]; auto old = vf::snapshot(d->array);
    SharedArray<T> a; a.data = d; a.published = pub;
    bool fatal = false;
    try { a.write(i, v); } catch ( vf::Fatal& ) { fatal = true; }
    bool clash = mode == INI && cur != d->init && cur != v;
    CHECK("rejected-iff-published-locked-or-different", fatal == (pub || locked || clash));
    if ( fatal ) CHECK("rejected-changes-nothing", d->array[i] == cur);
    else {
        CHECK("entry-holds-the-value", a[i] == v && a.mutex_read(i) == v);
        CHECK("same-value-changes-nothing", vf::implies(cur == v, d->array[i] == cur));
    }
    CHECK("other-entries-unchanged", d->array.size() == n && a.size() == n && vf::forall(0, n, [&](uint64_t k) { return k == (uint64_t)i || d->array[k] == old[k]; }));
    if ( d->change_set ) {
        CHECK("told-to-other-ranks-once", d->change_set->changes.size() == (fatal ? 0u : 1u));
        if ( !fatal ) CHECK("told-what-was-written", d->change_set->changes[0].first == i && d->change_set->changes[0].second == v);
    }
    if ( !fatal ) CHECK("unlocked", free_lock(d->mtx));
    CHECK("mode-kept", d->verify == mode && d->locked == locked && !d->fully_published);
}
HARNESS(array_write_init32) { array_write<int32_t>(INI); }
HARNESS(array_write_init64) { array_write<uint64_t>(INI); }
HARNESS(array_write_noverify) { array_write<int32_t>(NOV); }
HARNESS(array_write_init_byte) { array_write<uint8_t>(INI); }
// --- bits of any length: the full/empty bits and bool arrays
static void any_bits(std::vector<bool>& b, const char* name, uint64_t n)
{
    uint64_t w = (n + 63) / 64;
    std::_Bit_type* p = (std::_Bit_type*)vf_any_array(name, 8, w);
    b._M_impl._M_start._M_p = p; b._M_impl._M_start._M_offset = 0;
    b._M_impl._M_finish._M_p = p + n / 64; b._M_impl._M_finish._M_offset = (unsigned)(n % 64);
    b._M_impl._M_end_of_storage = p + w;
}
static bool bit(const uint64_t* w, uint64_t k) { return (w[k >> 6] >> (k & 63)) & 1; }
static uint64_t any_len() { return vf::any_in<uint64_t>("length", 1, vf_symbolic() ? 0x7fffffff : 200); }
HARNESS(array_write_full_empty)
{
    typedef SharedArray<int32_t>::Data D;
    vf_merge(false);
    D* d = data<D>();
    uint64_t n = any_len();
    int32_t* arr = (int32_t*)vf_any_array("array", 4, n);
    d->array._M_impl._M_start = arr; d->array._M_impl._M_finish = arr + n; d->array._M_impl._M_end_of_storage = arr + n;
    any_bits(d->written, "written", n);
    d->init = vf::any<int32_t>("init"); d->verify = FE;
    int i = vf::any<int>("index"); int32_t v = vf::any<int32_t>("value");
    vf_assume(i >= 0 && (uint64_t)i < n);
    int32_t cur = arr[i]; bool full = d->written[i];
    auto old = (const int32_t*)vf_snapshot(arr, 4 * n);
    uint64_t* wp = (uint64_t*)d->written._M_impl._M_start._M_p; uint64_t w = (n + 63) / 64;
    auto oldw = (const uint64_t*)vf_snapshot(wp, 8 * w);
    bool fatal = false;
    try { d->write(i, v); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("rejected-iff-written-differently", fatal == (full && cur != v));
    if ( fatal ) CHECK("rejected-changes-nothing", arr[i] == cur && d->written[i] == full);
    else CHECK("holds-the-value-and-is-full", arr[i] == v && d->written[i]);
    CHECK("other-entries-unchanged", vf::forall(0, n, [&](uint64_t k) { return k == (uint64_t)i || arr[k] == old[k]; }));
    CHECK("other-words-unchanged", vf::forall(0, w, [&](uint64_t k) { return k == ((uint64_t)i >> 6) || wp[k] == oldw[k]; }));
    CHECK("other-bits-unchanged", ((wp[i >> 6] ^ oldw[i >> 6]) & ~(1ull << (i & 63))) == 0);
    if ( d->change_set ) CHECK("told-to-other-ranks-once", d->change_set->changes.size() == (fatal ? 0u : 1u));
    // a second write of the same value is accepted, of a different one rejected
    if ( !fatal ) {
        int32_t v2 = vf::any<int32_t>("value2");
        try { d->write(i, v2); } catch ( vf::Fatal& ) { fatal = true; }
        CHECK("second-write-must-agree", fatal == (v2 != v) && arr[i] == v);
    }
}
HARNESS(bool_array_write)
{
    typedef SharedArray<bool>::Data D;
    vf_merge(false);
    D* d = data<D>();
    uint64_t n = any_len();
    any_bits(d->array, "array", n); any_bits(d->written, "written", n);
    VT mode = any_mode();
    bool init; if ( vf::any<bool>("init") ) init = true; else init = false;
    d->init = init; d->verify = mode;
    bool locked; if ( vf::any<bool>("locked") ) locked = true; else locked = false;
    bool pub; if ( vf::any<bool>("published") ) pub = true; else pub = false;
    d->locked = locked;
    int i = vf::any<int>("index"); bool v = vf::any<bool>("value");
    vf_assume(i >= 0 && (uint64_t)i < n);
    bool cur = d->array[i], full = d->written[i];
    uint64_t* ap = (uint64_t*)d->array._M_impl._M_start._M_p; uint64_t w = (n + 63) / 64;
    auto olda = (const uint64_t*)vf_snapshot(ap, 8 * w);
    SharedArray<bool> a; a.data = d; a.published = pub;
    bool fatal = false;
    try { a.write(i, v); } catch ( vf::Fatal& ) { fatal = true; }
    bool clash = (mode == INI && cur != init && cur != v) || (mode == FE && full && cur != v);
    CHECK("rejected-iff-published-locked-or-different", fatal == (pub || locked || clash));
    if ( fatal ) CHECK("rejected-changes-nothing", d->array[i] == cur && d->written[i] == full);
    else {
        CHECK("entry-holds-the-value", a[i] == v && a.mutex_read(i) == v && a.size() == n);
        CHECK("marked-written", d->written[i] == (full || mode == FE));
    }
    CHECK("other-words-unchanged", vf::forall(0, w, [&](uint64_t k) { return k == ((uint64_t)i >> 6) || ap[k] == olda[k]; }));
    CHECK("other-bits-unchanged", ((ap[i >> 6] ^ olda[i >> 6]) & ~(1ull << (i & 63))) == 0);
    if ( d->change_set ) {
        CHECK("told-to-other-ranks-once", d->change_set->changes.size() == (fatal ? 0u : 1u));
        if ( !fatal ) CHECK("told-what-was-written", d->change_set->changes[0].first == i && d->change_set->changes[0].second == v);
    }
}
// --- resizing: the largest requested length wins, earlier entries are kept, new ones hold the initial value
template <class T>
static void array_size(VT mode)
{
    typedef typename SharedArray<T>::Data D;
    vf_merge(false);
    D* d = data<D>();
    vf::any_vector(d->array, "array");
    uint64_t n = d->array.size(); auto old = vf::snapshot(d->array);
    bool first; if ( vf::any<bool>("first_instance") ) first = true; else first = false;
    VT had; if ( first ) had = UNI; else { if ( vf::any<bool>("other_mode") ) had = mode == INI ? NOV : INI; else had = mode; }
    T init0 = vf::any<T>("init0"); d->init = init0; d->verify = had;
    uint64_t want = vf::any_in<uint64_t>("want", 0, vf_symbolic() ? 0x7fffffff : 50); T init = vf::any<T>("init");
    bool fatal = false;
    try { d->setSize(want, init, mode); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("rejected-iff-instances-disagree", fatal == (!first && (had != mode || init0 != init)));
    if ( fatal ) return;
    uint64_t m = want > n ? want : n;
    CHECK("largest-request-wins", d->array.size() == m && d->getSize() == m);
    CHECK("earlier-entries-kept", vf::forall(0, n, [&](uint64_t k) { return d->array[k] == old[k]; }));
    CHECK("new-entries-hold-the-initial-value", vf::forall(n, m, [&](uint64_t k) { return d->array[k] == init; }));
    CHECK("mode-recorded", d->verify == mode && d->init == init);
    if ( d->change_set && want > n ) CHECK("told-to-other-ranks", d->change_set->size == want && d->change_set->init == init && d->change_set->verify == mode);
    CHECK("unlocked", free_lock(d->mtx));
}
HARNESS(array_size_init) { array_size<int32_t>(INI); }
HARNESS(array_size_noverify) { array_size<uint64_t>(NOV); }
static unsigned upto(const char* nm, unsigned m) { unsigned k = vf::any<unsigned>(nm); vf_assume(k <= m); for ( unsigned j = 0; j < m; j++ ) if ( k == j ) return j; return m; }
template <class T>
static void full_empty_size()
{
    typedef typename SharedArray<T>::Data D;
    vf_merge(false);
    D* d = data<D>();
    T init = vf::any<T>("init");
    unsigned n = upto("length", 2), want = upto("want", 3);
    T val[3]; bool w[3];
    d->setSize(n, init, FE);
    for ( unsigned k = 0; k < 2; k++ ) {
        val[k] = init; w[k] = false;
        if ( k < n ) { if ( vf::any<bool>("written") ) { val[k] = vf::any<T>("value"); w[k] = true; d->write(k, val[k]); } }
    }
    d->setSize(want, init, FE);
    unsigned m = want > n ? want : n;
    if ( n == 0 && want == 0 ) return;
    CHECK("largest-request-wins", d->array.size() == m && d->getSize() == m && d->written.size() == m);
    for ( unsigned k = 0; k < 3; k++ ) {
        if ( k >= m ) continue;
        if ( k < n ) { CHECK("earlier-entry-kept", d->array[k] == val[k] && d->written[k] == w[k]); }
        else CHECK("new-entry-empty", d->array[k] == init && !d->written[k]);
    }
    // a first write to an empty entry is accepted whatever it holds
    for ( unsigned k = 0; k < 3; k++ ) {
        if ( k >= m ) continue;
        T v = vf::any<T>("later"); bool fatal = false, was = k < n && w[k];
        try { d->write(k, v); } catch ( vf::Fatal& ) { fatal = true; }
        if ( was ) CHECK("must-agree-with-earlier", fatal == (v != val[k]));
        else CHECK("first-write-accepted", !fatal && d->array[k] == v);
        if ( fatal ) return;
    }
}
HARNESS(full_empty_size) { full_empty_size<int32_t>(); }
HARNESS(full_empty_size_bool) { full_empty_size<bool>(); }
// --- initialise / publish through the element's handle
template <class A, class INIT>
static void life(INIT init)
{
    vf_merge(false);
    Simulation* sim = vfsim::setup(); sim->num_ranks.rank = 1;
    new ((void*)&SharedObject::manager) SharedObjectDataManager();
    A a, b, c;
    int ra = init(a, "x"), rb = init(b, "x"), rc = init(c, "y");
    CHECK("number-of-earlier-instances", ra == 0 && rb == 1 && rc == 0);
    CHECK("same-name-same-data", a.data == b.data && a.data != c.data);
    CHECK("counted", a.data->getShareCount() == 2 && a.data->getPublishCount() == 0 && c.data->getShareCount() == 1);
    bool again = false; try { init(a, "y"); } catch ( vf::Fatal& ) { again = true; }
    CHECK("initialise-twice-rejected", again);
    bool pa, pb; if ( vf::any<bool>("a") ) pa = true; else pa = false; if ( vf::any<bool>("b") ) pb = true; else pb = false;
    if ( pa ) { a.publish(); a.publish(); }
    if ( pb ) b.publish();
    c.publish();
    SharedObject::manager.updateState(false);
    CHECK("fully-published-iff-all-have", a.isFullyPublished() == (pa && pb) && b.isFullyPublished() == (pa && pb) && c.isFullyPublished());
    CHECK("publish-counted-once", a.data->getPublishCount() == (pa ? 1 : 0) + (pb ? 1 : 0));
    bool late; if ( vf::any<bool>("late_instance") ) late = true; else late = false;
    A e;
    if ( late ) {
        CHECK("late-counted", init(e, "x") == 2);
        SharedObject::manager.updateState(false);
        CHECK("late-instance-unpublishes", !a.isFullyPublished());
    }
    CHECK("open-before-finalise", !a.data->locked);
    SharedObject::manager.updateState(true);
    CHECK("final-is-published-and-locked", a.isFullyPublished() && c.isFullyPublished() && a.data->locked && c.data->locked);
    A f; bool fatal = false;
    try { init(f, "z"); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("no-new-objects-after-init", fatal);
}
HARNESS(life_array) { life<SharedArray<int32_t>>([](SharedArray<int32_t>& a, const char* n) { return a.initialize(n, 2, 7, INI); }); }
HARNESS(life_bool) { life<SharedArray<bool>>([](SharedArray<bool>& a, const char* n) { return a.initialize(n, 2, false, FE); }); }
HARNESS(life_map) { life<SharedMap<int32_t, int32_t>>([](SharedMap<int32_t, int32_t>& a, const char* n) { return a.initialize(n); }); }
HARNESS(life_set) { life<SharedSet<int32_t>>([](SharedSet<int32_t>& a, const char* n) { return a.initialize(n); }); }
HARNESS(two_types)
{
    vf_merge(false);
    Simulation* sim = vfsim::setup(); sim->num_ranks.rank = 1;
    new ((void*)&SharedObject::manager) SharedObjectDataManager();
    SharedMap<int32_t, int32_t> m; SharedSet<int32_t> s; m.initialize("x");
    bool fatal = false; try { s.initialize("x"); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("one-name-one-type", fatal);
    SharedArray<int32_t> a; fatal = false;
    try { a.initialize("y", 3, 0, UNI); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("reserved-mode-rejected", fatal);
}
// --- maps and sets
HARNESS(map_write)
{
    typedef SharedMap<int32_t, int64_t>::Data D;
    vf_merge(false);
    D* d = data<D>();
    if ( vf::any<bool>("fe") ) d->setVerify(FE); else d->setVerify(INI);
    unsigned n = upto("entries", 2); int32_t k[2]; int64_t x[2];
    for ( unsigned j = 0; j < 2; j++ ) { k[j] = vf::any<int32_t>("key"); x[j] = vf::any<int64_t>("old"); if ( j && n == 2 ) vf_assume(k[0] < k[1]); if ( j < n ) d->map[k[j]] = x[j]; }
    bool locked; if ( vf::any<bool>("locked") ) locked = true; else locked = false;
    bool pub; if ( vf::any<bool>("published") ) pub = true; else pub = false;
    d->locked = locked;
    int32_t key = vf::any<int32_t>("wkey"); int64_t v = vf::any<int64_t>("value");
    int at = -1; for ( unsigned j = 0; j < 2; j++ ) if ( j < n ) { if ( k[j] == key ) at = (int)j; }
    SharedMap<int32_t, int64_t> m; m.data = d; m.published = pub;
    bool fatal = false;
    try { m.write(key, v); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("rejected-iff-published-locked-or-different", fatal == (pub || locked || (at >= 0 && x[at] != v)));
    unsigned want = n; if ( !fatal && at < 0 ) want = n + 1;
    CHECK("size", m.size() == want && m.empty() == (want == 0));
    for ( unsigned j = 0; j < 2; j++ ) if ( j < n ) CHECK("earlier-entries-unchanged", m[k[j]] == x[j] && m.mutex_read(k[j]) == x[j]);
    if ( !fatal ) { CHECK("entry-holds-the-value", m[key] == v && m.count(key) == 1 && m.find(key)->second == v); CHECK("unlocked", free_lock(d->mtx)); }
    if ( d->change_set ) {
        CHECK("told-to-other-ranks-once", d->change_set->changes.size() == (fatal ? 0u : 1u));
        if ( !fatal ) CHECK("told-what-was-written", d->change_set->changes[key] == v);
    }
}
HARNESS(map_bounds)
{
    typedef SharedMap<int32_t, int64_t>::Data D;
    vf_merge(false);
    D* d = data<D>(1);
    int32_t k0 = vf::any<int32_t>("k0"), k1 = vf::any<int32_t>("k1"), key = vf::any<int32_t>("key");
    vf_assume(k0 < k1);
    d->map[k0] = 1; d->map[k1] = 2;
    SharedMap<int32_t, int64_t> m; m.data = d;
    int lo = key <= k0 ? 0 : key <= k1 ? 1 : 2, up = key < k0 ? 0 : key < k1 ? 1 : 2, r = 0, u = 0;
    auto L = m.lower_bound(key), U = m.upper_bound(key);
    for ( auto i = m.begin(); i != L; ++i ) r++;
    for ( auto i = m.begin(); i != U; ++i ) u++;
    CHECK("lower-bound-first-not-before", r == lo);
    CHECK("upper-bound-first-after", u == up);
    bool missing = false; if ( key != k0 ) { if ( key != k1 ) { try { m[key]; } catch ( const std::out_of_range& ) { missing = true; } CHECK("missing-key-throws", missing); } }
}
HARNESS(set_insert)
{
    typedef SharedSet<int32_t>::Data D;
    vf_merge(false);
    D* d = data<D>();
    if ( vf::any<bool>("fe") ) d->setVerify(FE); else d->setVerify(INI);
    unsigned n = upto("entries", 2); int32_t k[2];
    for ( unsigned j = 0; j < 2; j++ ) { k[j] = vf::any<int32_t>("key"); if ( j && n == 2 ) vf_assume(k[0] < k[1]); if ( j < n ) d->set.insert(k[j]); }
    bool locked; if ( vf::any<bool>("locked") ) locked = true; else locked = false;
    bool pub; if ( vf::any<bool>("published") ) pub = true; else pub = false;
    d->locked = locked;
    int32_t v = vf::any<int32_t>("value"); bool had = false;
    for ( unsigned j = 0; j < 2; j++ ) if ( j < n ) { if ( k[j] == v ) had = true; }
    SharedSet<int32_t> s; s.data = d; s.published = pub;
    bool fatal = false;
    try { s.insert(v); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("rejected-iff-published-or-locked", fatal == (pub || locked));
    unsigned want = n; if ( !fatal && !had ) want = n + 1;
    CHECK("size", s.size() == want && s.empty() == (want == 0));
    for ( unsigned j = 0; j < 2; j++ ) if ( j < n ) CHECK("earlier-members-kept", s.count(k[j]) == 1);
    if ( !fatal ) { CHECK("member", s.count(v) == 1 && *s.find(v) == v && *s.mutex_find(v) == v); CHECK("unlocked", free_lock(d->mtx)); }
    if ( d->change_set ) CHECK("told-to-other-ranks-once", d->change_set->changes.size() == (fatal ? 0u : 1u));
}
struct KV { int32_t k, v; bool operator<(const KV& o) const { return k < o.k; } bool operator==(const KV& o) const { return k == o.k && v == o.v; } void serialize_order(Core::Serialization::serializer& ser) { SST_SER(k); SST_SER(v); } };
HARNESS(set_insert_partial)    // equivalent under the order but not equal: an error, the first one stays
{
    typedef SharedSet<KV>::Data D;
    vf_merge(false);
    D* d = data<D>();
    d->setVerify(FE);
    KV a { vf::any<int32_t>("k"), vf::any<int32_t>("v") }, b { vf::any<int32_t>("k2"), vf::any<int32_t>("v2") };
    d->write(a);
    bool fatal = false;
    try { d->write(b); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("rejected-iff-equivalent-but-different", fatal == (a.k == b.k && a.v != b.v));
    CHECK("first-stays", d->set.find(a)->v == a.v && d->set.size() == (a.k == b.k ? 1u : 2u));
}
template <class D> static void modes()
{
    vf_merge(false);
    D* d = data<D>();
    VT m1 = any_mode(), m2 = any_mode();
    d->setVerify(m1);
    CHECK("first-mode-accepted", d->verify == m1);
    bool fatal = false;
    try { d->setVerify(m2); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("instances-must-agree-on-the-mode", fatal == (m1 != m2) && d->verify == m1);
}
HARNESS(map_modes) { modes<SharedMap<int32_t, int32_t>::Data>(); }
HARNESS(set_modes) { modes<SharedSet<int32_t>::Data>(); }
// --- changes of another rank
template <class A, class D> static D* fresh(SharedObjectDataManager& mg, const char* name) { return mg.getSharedObjectData<D>(name); }
HARNESS(apply_array)
{
    typedef SharedArray<int32_t>::Data D;
    vf_merge(false);
    Simulation* sim = vfsim::setup(); sim->num_ranks.rank = 2;
    static SharedObjectDataManager mg;
    D* d = mg.getSharedObjectData<D>("x");
    VT mode; if ( vf::any<bool>("fe") ) mode = FE; else mode = INI;
    int32_t init = vf::any<int32_t>("init"), v0 = vf::any<int32_t>("v0"), v1 = vf::any<int32_t>("v1"), mine = vf::any<int32_t>("mine");
    unsigned here = upto("length_here", 2);
    bool wrote = false;
    if ( here ) d->setSize(here, init, mode);
    if ( here == 2 ) { if ( vf::any<bool>("wrote_here") ) { d->write(1, mine); wrote = true; } }
    D::ChangeSet cs("x");                         // what the other rank did: setSize(3), writes to 0 and 1
    cs.setSize(3, init, mode); cs.addChange(0, v0); cs.addChange(1, v1);
    bool fatal = false;
    try { cs.applyChanges(&mg); } catch ( vf::Fatal& ) { fatal = true; }
    bool taken = wrote && (mode == FE || mine != init);
    CHECK("ranks-must-agree", fatal == (taken && mine != v1));
    if ( fatal ) return;
    CHECK("agreed-values", d->array.size() == 3 && d->array[0] == v0 && d->array[1] == v1 && d->array[2] == init);
    CHECK("changes-cleared", (cs.clear(), cs.changes.empty()));
    CHECK("own-changes-only", d->change_set->changes.size() == (wrote ? 1u : 0u));
}
HARNESS(apply_map)
{
    typedef SharedMap<int32_t, int32_t>::Data D;
    vf_merge(false);
    Simulation* sim = vfsim::setup(); sim->num_ranks.rank = 2;
    static SharedObjectDataManager mg;
    D* d = mg.getSharedObjectData<D>("x"); d->setVerify(FE);
    int32_t k0 = vf::any<int32_t>("k0"), v0 = vf::any<int32_t>("v0"), k1 = vf::any<int32_t>("k1"), v1 = vf::any<int32_t>("v1"), k = vf::any<int32_t>("k"), v = vf::any<int32_t>("v");
    d->write(k, v);
    vf_assume(k0 != k1);
    D::ChangeSet cs("x"); cs.setVerify(FE); cs.addChange(k0, v0); cs.addChange(k1, v1);
    bool fatal = false;
    try { cs.applyChanges(&mg); } catch ( vf::Fatal& ) { fatal = true; }
    CHECK("ranks-must-agree", fatal == ((k == k0 && v != v0) || (k == k1 && v != v1)));
    CHECK("own-entry-kept", d->map.at(k) == v);
    if ( fatal ) return;
    CHECK("agreed-values", d->map.at(k0) == v0 && d->map.at(k1) == v1);
    CHECK("own-changes-only", d->change_set->changes.size() == 1);
}
HARNESS(apply_set)
{
    typedef SharedSet<int32_t>::Data D;
    vf_merge(false);
    Simulation* sim = vfsim::setup(); sim->num_ranks.rank = 2;
    static SharedObjectDataManager mg;
    D* d = mg.getSharedObjectData<D>("x"); d->setVerify(FE);
    int32_t k0 = vf::any<int32_t>("k0"), k1 = vf::any<int32_t>("k1"), k = vf::any<int32_t>("k");
    d->write(k);
    D::ChangeSet cs("x"); cs.setVerify(FE); cs.addChange(k0); cs.addChange(k1);
    cs.applyChanges(&mg);
    CHECK("union", d->set.count(k) == 1 && d->set.count(k0) == 1 && d->set.count(k1) == 1);
    CHECK("own-changes-only", d->change_set->changes.size() == 1);
}
// --- after a restart the data is the same and stays locked and published as it was
HARNESS(restart)
{
    typedef SharedArray<int32_t>::Data D;
    vf_merge(false);
    D* d = data<D>(1);
    d->setSize(2, vf::any<int32_t>("init"), INI);
    d->write(1, vf::any<int32_t>("value"));
    d->share_count = vf::any_in<int>("sharers", 0, 1000); d->publish_count = vf::any_in<int>("publishers", 0, 1000);
    d->fully_published = vf::any<bool>("published"); d->locked = vf::any<bool>("locked");
    Core::Serialization::serializer ser;
    ser.start_sizing(); d->serialize_order(ser); size_t n = ser.size();
    char* buf = new char[n];
    ser.start_packing(buf, n); d->serialize_order(ser);
    D* e = new D();
    ser.start_unpacking(buf, n); e->serialize_order(ser);
    CHECK("same-entries", e->array.size() == 2 && e->array[0] == d->array[0] && e->array[1] == d->array[1] && e->name == d->name);
    CHECK("still-locked", e->locked == d->locked);
    CHECK("still-published", e->fully_published == d->fully_published && e->share_count == d->share_count && e->publish_count == d->publish_count);
}
