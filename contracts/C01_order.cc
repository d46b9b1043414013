// Contracts for SST::Activity ordering (activity.h, event.h, action.h).
#include "sst_config.h"
#include "sst/core/activity.h"
#include "sst/core/action.h"
#include "sst/core/event.h"
#include "verif.h"
using namespace SST;

struct VAct : public Activity {
    void execute() override {}
    bool isEvent() const override { return false; }
    bool isAction() const override { return false; }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    const char* cls_name() const override { return "VAct"; }
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return ""; }
};
struct VAction : public Action {
    void execute() override {}
    const char* cls_name() const override { return "VAct"; }
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return ""; }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
};
static void fill(Activity& a, uint64_t t, int p, uint32_t tag, uint64_t q)
{
    a.setDeliveryTime(t);
    a.setPriority(p);
    a.setOrderTag(tag);
    a.setQueueOrder(q);
}
struct Key { uint64_t t; int p; uint32_t tag; uint64_t q; };
static Key key(const char* n)
{
    Key k;
    k.t = vf::any<uint64_t>(n);
    k.p = vf::any_in<int>("prio", 0, 0x7fffffff);   // priorities are non-negative
    k.tag = vf::any<uint32_t>("tag");
    k.q = vf::any<uint64_t>("qord");
    return k;
}
// the specification: lexicographic order on (time, priority, order tag, insertion order)
static bool spec_less(const Key& a, const Key& b, bool T, bool P, bool Q)
{
    if (T && a.t != b.t) return a.t < b.t;
    if (P && a.p != b.p) return a.p < b.p;
    if (P && a.tag != b.tag) return a.tag < b.tag;
    return Q && a.q < b.q;
}
template <bool T, bool P, bool Q>
static void one(const Activity& a, const Activity& b, const Key& x, const Key& y)
{
    Activity::less<T, P, Q> l; Activity::greater<T, P, Q> g;
    CHECK("less-is-lexicographic", l(&a, &b) == spec_less(x, y, T, P, Q));
    CHECK("greater-is-reverse", g(&a, &b) == spec_less(y, x, T, P, Q));
}
HARNESS(order_spec)
{
    Key x = key("t"), y = key("t");
    VAct a, b; fill(a, x.t, x.p, x.tag, x.q); fill(b, y.t, y.p, y.tag, y.q);
    one<true, true, true>(a, b, x, y);
    one<true, true, false>(a, b, x, y);
    one<false, true, true>(a, b, x, y);
    one<true, false, false>(a, b, x, y);
    one<false, true, false>(a, b, x, y);
    one<true, false, true>(a, b, x, y);
    one<false, false, true>(a, b, x, y);
}
// strict weak order: irreflexive, asymmetric, transitive, incomparability transitive; total on distinct keys
template <bool T, bool P, bool Q>
static void swo()
{
    Key x = key("t"), y = key("t"), z = key("t");
    VAct a, b, c; fill(a, x.t, x.p, x.tag, x.q); fill(b, y.t, y.p, y.tag, y.q); fill(c, z.t, z.p, z.tag, z.q);
    Activity::less<T, P, Q> l;
    Activity::greater<T, P, Q> g;
    CHECK("irreflexive", !l(&a, &a) && !g(&a, &a));
    CHECK("asymmetric", !(l(&a, &b) && l(&b, &a)));
    CHECK("transitive", vf::implies(l(&a, &b) && l(&b, &c), l(&a, &c)));
    bool iab = !l(&a, &b) && !l(&b, &a), ibc = !l(&b, &c) && !l(&c, &b), iac = !l(&a, &c) && !l(&c, &a);
    CHECK("incomparability-transitive", vf::implies(iab && ibc, iac));
    CHECK("greater-mirrors-less", g(&a, &b) == l(&b, &a));
    if (T && P && Q) CHECK("total", vf::implies(iab, x.t == y.t && x.p == y.p && x.tag == y.tag && x.q == y.q));
    vf_cover("swo");
}
HARNESS(swo_tpq) { swo<true, true, true>(); }
HARNESS(swo_tp) { swo<true, true, false>(); }
HARNESS(swo_pq) { swo<false, true, true>(); }
HARNESS(swo_t) { swo<true, false, false>(); }

// setters change one component only and read back over the full documented range
HARNESS(fields)
{
    Key x = key("t");
    VAct a; fill(a, x.t, x.p, x.tag, x.q);
    CHECK("readback", a.getDeliveryTime() == x.t && a.getPriority() == x.p && a.getOrderTag() == x.tag && a.getQueueOrder() == x.q);
    Key y = key("t");
    a.setOrderTag(y.tag);
    CHECK("tag-only", a.getOrderTag() == y.tag && a.getPriority() == x.p && a.getDeliveryTime() == x.t && a.getQueueOrder() == x.q);
    a.setPriority(y.p);
    CHECK("priority-only", a.getOrderTag() == y.tag && a.getPriority() == y.p && a.getDeliveryTime() == x.t && a.getQueueOrder() == x.q);
    a.setDeliveryTime(y.t);
    CHECK("time-only", a.getOrderTag() == y.tag && a.getPriority() == y.p && a.getDeliveryTime() == y.t && a.getQueueOrder() == x.q);
    a.setQueueOrder(y.q);
    CHECK("queue-order-only", a.getOrderTag() == y.tag && a.getPriority() == y.p && a.getDeliveryTime() == y.t && a.getQueueOrder() == y.q);
    VAct b;
    b.copyAllDeliveryInfo(&a);
    CHECK("copy", b.getOrderTag() == y.tag && b.getPriority() == y.p && b.getDeliveryTime() == y.t && b.getQueueOrder() == y.q);
}
// defaults of the derived kinds
HARNESS(kinds)
{
    VAction a;
    int p = vf::any_in<int>("p", 0, 0x7fffffff);
    uint32_t tag = vf::any<uint32_t>("tag");
    a.setOrderTag(tag);
    a.setPriority(p);
    CHECK("action-priority", a.getPriority() == p && a.getOrderTag() == tag);
    CHECK("action-kind", a.isAction() && !a.isEvent());
    VAct z;
    CHECK("zero-init", z.getDeliveryTime() == 0 && z.getPriority() == 0 && z.getOrderTag() == 0 && z.getQueueOrder() == 0);
}
