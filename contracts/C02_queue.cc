// Contracts for the simulation's event queues: TimeVortexPQBase and TimeVortexBinnedMapBase, plain and thread-safe.
// VF:ASSUME each public operation of the thread-safe queues is verified as one atomic step (it runs under its spinlock); std::priority_queue, std::map and std::sort are the real library code
// VF:ASSUME the caller never pops or looks at the front of an empty queue unless stated, and never inserts an activity earlier than the last popped one (C05)
// VF:BOUNDED all: queue contents of at most 4 activities (3 for the binned map) with arbitrary keys and any heap layout; one operation from any such state
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sst/core/params.h"
#include "sst/core/output.h"
#include "sst/core/timeVortex.h"
#include "impl/timevortex/timeVortexPQ.cc"
#include "impl/timevortex/timeVortexBinnedMap.cc"
using namespace SST;
using namespace SST::IMPL;
namespace SST { TimeVortex::TimeVortex() { max_depth = MAX_SIMTIME_T; } void TimeVortex::print(Output&) const {} }
struct TA : public Activity {
    void execute() override {}
    bool isEvent() const override { return false; }
    bool isAction() const override { return false; }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    const char* cls_name() const override { return "TA"; }
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return ""; }
};
struct Key { uint64_t t; int p; uint32_t tag; uint64_t q; };
static bool before(const Key& a, const Key& b)
{
    if (a.t != b.t) return a.t < b.t;
    if (a.p != b.p) return a.p < b.p;
    if (a.tag != b.tag) return a.tag < b.tag;
    return a.q < b.q;
}
static TA* act(Key& k)
{
    TA* a = ::new (::operator new(sizeof(TA))) TA();
    k.t = vf::any<uint64_t>("t"); k.p = vf::any_in<int>("prio", 0, 0x7fffffff); k.tag = vf::any<uint32_t>("tag"); k.q = vf::any<uint64_t>("queue_order");
    a->setDeliveryTime(k.t); a->setPriority(k.p); a->setOrderTag(k.tag); a->setQueueOrder(k.q);
    return a;
}
static bool same_keys(Activity* a, const Key& k) { return a->getDeliveryTime() == k.t && a->getPriority() == k.p && a->getOrderTag() == k.tag; }
template <class Q> static bool unlocked(Q* q) { bool r = !q->slock.latch.test_and_set(); q->slock.latch.clear(); return r; }
static int min_of(const Key* k, int n) { int m = 0; for (int i = 1; i < n; i++) if (before(k[i], k[m])) m = i; return m; }
// ---- priority queue
template <bool TS> struct S { TimeVortexPQBase<TS>* q; TA* a[5]; Key k[5]; int n; uint64_t ord, md, cd; };
template <bool TS> static std::vector<Activity*>& cont(TimeVortexPQBase<TS>* q) { return const_cast<std::vector<Activity*>&>(q->getContainer()); }
template <bool TS> static bool heap(S<TS>& s)
{
    auto& c = cont(s.q); bool ok = true;
    for (size_t i = 1; i < c.size(); i++) {
        int x = -1, y = -1;
        for (int j = 0; j < s.n; j++) { if (c[i] == s.a[j]) x = j; if (c[(i - 1) / 2] == s.a[j]) y = j; }
        ok = ok && x >= 0 && y >= 0 && !before(s.k[x], s.k[y]);
    }
    return ok;
}
template <bool TS> static bool holds(S<TS>& s, int skip)
{
    auto& c = cont(s.q); bool ok = c.size() == (size_t)(s.n - (skip >= 0 ? 1 : 0));
    for (int j = 0; j < s.n; j++) { int m = 0; for (auto* x : c) m += x == s.a[j]; ok = ok && m == (j == skip ? 0 : 1); }
    return ok;
}
template <bool TS> static void pq(S<TS>& s, int n)
{
    vf_merge(false);
    Params* p = vf::raw_object<Params>("params");
    s.q = ::new (::operator new(sizeof(TimeVortexPQBase<TS>) + 128)) TimeVortexPQBase<TS>(*p);
    CHECK("starts-empty", s.q->empty() && s.q->size() == 0 && s.q->getCurrentDepth() == 0 && s.q->getMaxDepth() == 0 && unlocked(s.q));
    s.n = n; cont(s.q).reserve(8);
    s.ord = vf::any<uint64_t>("next_order"); vf_assume(s.ord < ~0ull);
    for (int i = 0; i < n; i++) {
        s.a[i] = act(s.k[i]); vf_assume(s.k[i].q < s.ord);
        for (int j = 0; j < i; j++) vf_assume(s.k[i].q != s.k[j].q);
        if (i) vf_assume(!before(s.k[i], s.k[(i - 1) / 2]));
        cont(s.q).push_back(s.a[i]);
    }
    s.q->insertOrder = s.ord; s.cd = (uint64_t)n; s.q->current_depth = s.cd;
    s.md = vf::any<uint64_t>("max_depth"); vf_assume(s.md >= s.cd); s.q->max_depth = s.md;
}
template <bool TS> static void pq_insert(int n)
{
    S<TS> s; pq(s, n);
    TA* x = act(s.k[n]); s.a[n] = x;
    s.q->insert(x);
    s.k[n].q = s.ord; s.n = n + 1;
    CHECK("all-kept-and-added-once", holds(s, -1));
    CHECK("insertion-order-recorded", x->getQueueOrder() == s.ord && s.q->insertOrder == s.ord + 1 && same_keys(x, s.k[n]));
    CHECK("earliest-on-top", heap(s));
    CHECK("depths", s.q->getCurrentDepth() == s.cd + 1 && s.q->getMaxDepth() == (s.md > s.cd ? s.md : s.cd + 1));
    CHECK("unlocked", unlocked(s.q));
    CHECK("size", s.q->size() == n + 1 && !s.q->empty());
}
template <bool TS> static void pq_pop(int n)
{
    S<TS> s; pq(s, n);
    Activity* r = s.q->pop();
    CHECK("unlocked", unlocked(s.q));
    if (n == 0) { CHECK("nothing-in-empty-queue", r == nullptr && s.q->getCurrentDepth() == 0 && s.q->getMaxDepth() == s.md); return; }
    int m = min_of(s.k, n);
    CHECK("earliest-returned", r == s.a[m]);
    CHECK("keys-untouched", same_keys(r, s.k[m]) && r->getQueueOrder() == s.k[m].q);
    CHECK("exactly-it-removed", holds(s, m));
    CHECK("earliest-on-top", heap(s));
    CHECK("depths", s.q->getCurrentDepth() == s.cd - 1 && s.q->getMaxDepth() == s.md && s.q->insertOrder == s.ord);
    CHECK("size", s.q->size() == n - 1 && s.q->empty() == (n == 1));
}
template <bool TS> static void pq_look(int n)
{
    S<TS> s; pq(s, n); std::vector<Activity*> v;
    unsigned op = vf::any_in<unsigned>("op", 0, 3);
    if (op == 0) { if (n) CHECK("front-is-earliest", s.q->front() == s.a[min_of(s.k, n)]); }
    else if (op == 1) CHECK("empty", s.q->empty() == (n == 0));
    else if (op == 2) CHECK("size", s.q->size() == n);
    else {
        s.q->getContents(v); bool ok = v.size() == (size_t)n;
        for (int i = 0; i < n; i++) { int c = 0; for (auto* x : v) c += x == s.a[i]; ok = ok && c == 1; }
        CHECK("contents", ok);
    }
    CHECK("nothing-changed", holds(s, -1) && heap(s) && s.q->getCurrentDepth() == s.cd && s.q->getMaxDepth() == s.md && s.q->insertOrder == s.ord);
    CHECK("unlocked", unlocked(s.q));
}
#define PQ(n) HARNESS(pq_insert_##n) { pq_insert<false>(n); } HARNESS(pqts_insert_##n) { pq_insert<true>(n); } HARNESS(pq_pop_##n) { pq_pop<false>(n); } HARNESS(pqts_pop_##n) { pq_pop<true>(n); } \
    HARNESS(pq_look_##n) { pq_look<false>(n); } HARNESS(pqts_look_##n) { pq_look<true>(n); }
PQ(0) PQ(1) PQ(2) PQ(3)
HARNESS(pq_pop_4) { pq_pop<false>(4); }
HARNESS(pq_insert_4) { pq_insert<false>(4); }
// ---- binned map: current time unit of time T plus units of later times
template <bool TS> struct B { TimeVortexBinnedMapBase<TS>* q; TA* a[6]; Key k[6]; int n; uint64_t T, ord, md; };
template <bool TS> using TU = typename TimeVortexBinnedMapBase<TS>::TimeUnit;
template <bool TS> static void fill(B<TS>& s, TU<TS>* u, uint64_t t, int n)
{
    u->setSortTime(t); u->activities.reserve(8);
    bool sorted = vf::any<bool>("sorted");
    for (int i = 0; i < n; i++) {
        int j = s.n++; s.a[j] = act(s.k[j]); s.k[j].t = t; s.a[j]->setDeliveryTime(t); vf_assume(s.k[j].q < s.ord);
        for (int l = 0; l < j; l++) vf_assume(s.k[l].q != s.k[j].q);
        if (i) vf_assume(!sorted || before(s.k[j], s.k[j - 1]));
        u->activities.push_back(s.a[j]);
    }
    u->sorted = sorted;
}
template <bool TS> static void bm(B<TS>& s, int c, int m1, int m2)
{
    vf_merge(false);
    Params* p = vf::raw_object<Params>("params");
    s.q = ::new (::operator new(sizeof(TimeVortexBinnedMapBase<TS>) + 128)) TimeVortexBinnedMapBase<TS>(*p);
    CHECK("starts-empty", s.q->empty() && s.q->size() == 0 && s.q->getCurrentDepth() == 0 && s.q->getMaxDepth() == 0 && unlocked(s.q));
    s.n = 0; s.T = vf::any<uint64_t>("current"); s.ord = vf::any<uint64_t>("next_order"); vf_assume(s.ord < ~0ull);
    fill(s, s.q->current_time_unit, s.T, c);
    uint64_t t1 = vf::any<uint64_t>("t1"), t2 = vf::any<uint64_t>("t2"); vf_assume(t1 > s.T && t2 > s.T && t1 != t2);
    if (m1) { auto* u = s.q->pool.remove(); fill(s, u, t1, m1); s.q->map[t1] = u; }
    if (m2) { auto* u = s.q->pool.remove(); fill(s, u, t2, m2); s.q->map[t2] = u; }
    s.q->insertOrder = s.ord; s.q->current_depth = (uint64_t)s.n; s.md = vf::any<uint64_t>("max_depth"); vf_assume(s.md >= (uint64_t)s.n); s.q->max_depth = s.md;
}
template <bool TS> static bool drain(B<TS>& s, bool* gone)      // everything still queued comes out once, in order
{
    bool ok = true; int left = 0;
    for (int i = 0; i < s.n; i++) left += !gone[i];
    ok = ok && s.q->size() == left && s.q->getCurrentDepth() == (uint64_t)left;
    for (; left > 0; left--) {
        int m = -1; for (int i = 0; i < s.n; i++) if (!gone[i] && (m < 0 || before(s.k[i], s.k[m]))) m = i;
        ok = ok && s.q->front() == s.a[m] && s.q->pop() == s.a[m] && unlocked(s.q); gone[m] = true;
    }
    return ok && s.q->empty() && s.q->pop() == nullptr && unlocked(s.q);
}
template <bool TS> static void bm_insert(int c, int m1, int m2)
{
    B<TS> s; bm(s, c, m1, m2); int n = s.n; bool gone[6] = { false, false, false, false, false, false };
    TA* x = act(s.k[n]); s.a[n] = x; vf_assume(s.k[n].t >= s.T);
    s.q->insert(x); s.k[n].q = s.ord; s.n++;
    CHECK("insertion-order-recorded", x->getQueueOrder() == s.ord && same_keys(x, s.k[n]));
    CHECK("depths", s.q->getCurrentDepth() == (uint64_t)n + 1 && s.q->getMaxDepth() == (s.md > (uint64_t)n ? s.md : (uint64_t)n + 1));
    CHECK("unlocked", unlocked(s.q));
    CHECK("all-come-out-once-in-order", drain(s, gone));
}
template <bool TS> static void bm_pop(int c, int m1, int m2)
{
    B<TS> s; bm(s, c, m1, m2); bool gone[6] = { false, false, false, false, false, false };
    if (s.n) { int m = min_of(s.k, s.n); CHECK("front-is-earliest", s.q->front() == s.a[m]); CHECK("earliest-returned", s.q->pop() == s.a[m]); gone[m] = true; CHECK("keys-untouched", same_keys(s.a[m], s.k[m]) && s.a[m]->getQueueOrder() == s.k[m].q); }
    CHECK("max-depth-kept", s.q->getMaxDepth() == s.md);
    CHECK("unlocked", unlocked(s.q));
    CHECK("all-come-out-once-in-order", drain(s, gone));
}
#define BM(c, a, b) HARNESS(bm_insert_##c##a##b) { bm_insert<false>(c, a, b); } HARNESS(bmts_insert_##c##a##b) { bm_insert<true>(c, a, b); } HARNESS(bm_pop_##c##a##b) { bm_pop<false>(c, a, b); } HARNESS(bmts_pop_##c##a##b) { bm_pop<true>(c, a, b); }
BM(0, 0, 0) BM(1, 0, 0) BM(0, 1, 0) BM(2, 0, 0) BM(1, 1, 0) BM(0, 1, 1) BM(0, 2, 0)
