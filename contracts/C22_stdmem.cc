// Contracts for the standard memory interface's requests and responses (interfaces/stdMem.h).
// VF:ASSUME fetch-and-add on the id counter is one atomic step
// VF:ASSUME sizes of requests below 2^32 bytes (the placeholder read data is allocated)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sst/core/interfaces/stdMem.cc"
#include "sst/core/serialization/serializer.cc"
#include "sst/core/serialization/impl/unpacker.cc"
#include "sst/core/serialization/impl/ser_shared_ptr_tracker.cc"
#include "sst/core/serialization/serializable.cc"
#include "sst/core/serialization/serializable_base.cc"
#include "sst/core/output.h"
namespace SST { Output Output::m_defaultObject; }
using namespace SST;
typedef Interfaces::StandardMem SM;
typedef SM::Request Rq;
static Rq* got; static int kind; static unsigned n_handle;
enum { NONE, READ, READRESP, WRITE, WRITERESP, FLUSHADDR, FLUSHCACHE, FLUSHRESP, READLOCK, WRITEUNLOCK, LOADLINK, STORECOND, MOVE, CUSTOMREQ, CUSTOMRESP, INV };
struct H : public SM::RequestHandler {
    H() {}
#define K(T, k) void handle(SM::T* r) override { got = r; kind = k; n_handle++; }
    K(Read, READ) K(ReadResp, READRESP) K(Write, WRITE) K(WriteResp, WRITERESP) K(FlushAddr, FLUSHADDR) K(FlushCache, FLUSHCACHE) K(FlushResp, FLUSHRESP)
    K(ReadLock, READLOCK) K(WriteUnlock, WRITEUNLOCK) K(LoadLink, LOADLINK) K(StoreConditional, STORECOND) K(MoveData, MOVE) K(CustomReq, CUSTOMREQ) K(CustomResp, CUSTOMRESP) K(InvNotify, INV)
#undef K
};
static H* h;
static uint64_t id0, pa, va, sz, ip; static uint32_t fl, ti;
static void any_args()
{
    h = ::new (::operator new(sizeof(H))) H(); n_handle = 0; kind = NONE; got = nullptr;
    id0 = vf::any<uint64_t>("next_id"); Rq::main_id = id0;
    pa = vf::any<uint64_t>("paddr"); va = vf::any<uint64_t>("vaddr"); ip = vf::any<uint64_t>("iptr");
    sz = vf::any_in<uint64_t>("size", 0, 0xffffffff); VF_ONLY_NATIVE(sz %= 5000;)
    fl = vf::any<uint32_t>("flags"); ti = vf::any<uint32_t>("tid");
}
static int kind_of(Rq* r) { kind = NONE; n_handle = 0; got = nullptr; r->handle(h); return n_handle == 1 && got == r ? kind : NONE; }
static void new_request(Rq* r, int k)
{
    CHECK("own-id", r->getID() == id0 && Rq::main_id == id0 + 1);
    CHECK("flags-as-given", r->getAllFlags() == fl);
    CHECK("handled-as-its-kind", kind_of(r) == k);
}
// a response answers that request only: same id and flags, no new id drawn, needs no answer itself
static void response(Rq* q, Rq* r, int k)
{
    CHECK("kind-of-response", r != nullptr && kind_of(r) == k);
    CHECK("id-of-its-request", r->getID() == id0 && q->getID() == id0 && Rq::main_id == id0 + 1);
    CHECK("flags-of-its-request", r->getAllFlags() == fl && q->getAllFlags() == fl);
    CHECK("no-response-to-a-response", !r->needsResponse() && r->makeResponse() == nullptr);
}
#define SAME(r, P, V, S) do { CHECK("address", (r)->pAddr == (P)); CHECK("virtual-address", (r)->vAddr == (V)); CHECK("size", (r)->size == (S)); CHECK("instruction-pointer", (r)->iPtr == ip); CHECK("thread", (r)->tid == ti); } while (0)
template <class Q> static void read_like(int k)
{
    any_args();
    Q* q = new Q(pa, sz, fl, va, ip, ti);
    new_request(q, k); SAME(q, pa, va, sz);
    CHECK("needs-response", q->needsResponse());
    auto* r = (SM::ReadResp*)q->makeResponse();
    response(q, r, READRESP); SAME(r, pa, va, sz); SAME(q, pa, va, sz);
    CHECK("data-of-the-size", r->data.size() == sz);
}
HARNESS(read) { read_like<SM::Read>(READ); }
HARNESS(read_lock) { read_like<SM::ReadLock>(READLOCK); }
HARNESS(load_link) { read_like<SM::LoadLink>(LOADLINK); }
static std::vector<uint8_t> data3() { std::vector<uint8_t> d; for (int i = 0; i < 3; i++) d.push_back(vf::any<uint8_t>("byte")); return d; }
static bool same_data(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { return a.size() == 3 && a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
template <class Q> static void write_like(int k)
{
    any_args();
    std::vector<uint8_t> d = data3(); bool po = vf::any<bool>("posted");
    Q* q = new Q(pa, sz, d, po, fl, va, ip, ti);
    new_request(q, k); SAME(q, pa, va, sz);
    CHECK("data-as-given", same_data(q->data, d));
    CHECK("needs-response-unless-posted", q->needsResponse() == !po && q->posted == po);
    auto* r = (SM::WriteResp*)q->makeResponse();
    response(q, r, WRITERESP); SAME(r, pa, va, sz); SAME(q, pa, va, sz);
    CHECK("data-kept", same_data(q->data, d));
}
HARNESS(write) { write_like<SM::Write>(WRITE); }
HARNESS(write_unlock) { write_like<SM::WriteUnlock>(WRITEUNLOCK); }
HARNESS(store_conditional)
{
    any_args();
    std::vector<uint8_t> d = data3();
    auto* q = new SM::StoreConditional(pa, sz, d, fl, va, ip, ti);
    new_request(q, STORECOND); SAME(q, pa, va, sz);
    CHECK("needs-response", q->needsResponse() && same_data(q->data, d));
    auto* r = (SM::WriteResp*)q->makeResponse();
    response(q, r, WRITERESP); SAME(r, pa, va, sz); SAME(q, pa, va, sz);
    r->setFail();
    CHECK("failure-only-on-the-response", r->getFail() && !r->getSuccess() && q->getAllFlags() == fl);
}
HARNESS(flush_addr)
{
    any_args();
    bool inv = vf::any<bool>("inv"); uint32_t dep = vf::any<uint32_t>("depth"), nf = vf::any<uint32_t>("new_flags");
    auto* q = new SM::FlushAddr(pa, sz, inv, dep, fl, va, ip, ti);
    new_request(q, FLUSHADDR); SAME(q, pa, va, sz);
    CHECK("as-given", q->inv == inv && q->depth == dep);
    CHECK("needs-response", q->needsResponse());
    auto* r = (SM::FlushResp*)q->makeResponse();
    response(q, r, FLUSHRESP); SAME(r, pa, va, sz); SAME(q, pa, va, sz);
    auto* r2 = new SM::FlushResp(q, nf);
    CHECK("extra-flags", r2->getAllFlags() == (fl | nf) && r2->getID() == id0 && q->getAllFlags() == fl); SAME(r2, pa, va, sz);
}
HARNESS(flush_cache)
{
    any_args();
    uint32_t dep = vf::any<uint32_t>("depth"), nf = vf::any<uint32_t>("new_flags");
    auto* q = new SM::FlushCache(dep, fl, ip, ti);
    new_request(q, FLUSHCACHE);
    CHECK("as-given", q->depth == dep && q->iPtr == ip && q->tid == ti);
    CHECK("needs-response", q->needsResponse());
    auto* r = (SM::FlushResp*)q->makeResponse();
    response(q, r, FLUSHRESP); SAME(r, 0, 0, 0);
    auto* r2 = new SM::FlushResp(q, nf);
    CHECK("extra-flags", r2->getAllFlags() == (fl | nf) && r2->getID() == id0); SAME(r2, 0, 0, 0);
}
HARNESS(move)
{
    any_args();
    bool po = vf::any<bool>("posted"); uint64_t ps = vf::any<uint64_t>("psrc"), vs = vf::any<uint64_t>("vsrc");
    auto* q = new SM::MoveData(ps, pa, sz, po, fl, vs, va, ip, ti);
    new_request(q, MOVE);
    CHECK("as-given", q->pSrc == ps && q->vSrc == vs && q->pDst == pa && q->vDst == va && q->size == sz && q->iPtr == ip && q->tid == ti);
    CHECK("needs-response-unless-posted", q->needsResponse() == !po && q->posted == po);
    auto* r = (SM::WriteResp*)q->makeResponse();
    response(q, r, WRITERESP); SAME(r, pa, va, sz);
    CHECK("request-kept", q->pSrc == ps && q->vSrc == vs && q->pDst == pa && q->vDst == va && q->size == sz);
}
HARNESS(notify)
{
    any_args();
    auto* q = new SM::InvNotify(pa, sz, fl, va, ip, ti);
    new_request(q, INV); SAME(q, pa, va, sz);
    CHECK("no-response", !q->needsResponse() && q->makeResponse() == nullptr);
}
struct Data : public SM::CustomData {
    bool needs; Data* resp; unsigned n = 0;
    SM::Addr getRoutingAddress() override { return 0; }
    uint64_t getSize() override { return 0; }
    SM::CustomData* makeResponse() override { n++; return resp; }
    bool needsResponse() override { return needs; }
    std::string getString() override { return std::string(); }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    const char* cls_name() const override { return ""; }
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return std::string(); }
};
HARNESS(custom)
{
    any_args();
    Data* d = new Data(); Data* e = new Data(); d->resp = e; d->needs = vf::any<bool>("needs"); e->needs = vf::any<bool>("resp_needs");
    auto* q = new SM::CustomReq(d, fl, ip, ti);
    new_request(q, CUSTOMREQ);
    CHECK("as-given", &q->getData() == d && q->iPtr == ip && q->tid == ti);
    CHECK("its-data-decides", q->needsResponse() == d->needs);
    auto* r = (SM::CustomResp*)q->makeResponse();
    response(q, r, CUSTOMRESP);
    CHECK("data's-own-response", &r->getData() == e && d->n == 1 && r->iPtr == ip && r->tid == ti);
    CHECK("request-kept", &q->getData() == d);
    CHECK("released", q->releaseData() == d && q->data == nullptr && r->resetData(d) == e && r->data == d);
}
// ids are drawn once each, in order; building responses draws none
HARNESS(ids)
{
    any_args(); vf_assume(id0 < ~0ull - 3);
    auto* a = new SM::Read(pa, 1, fl); Rq* ra = a->makeResponse(); auto* b = new SM::InvNotify(pa, sz); auto* c = new SM::FlushCache();
    CHECK("distinct-never-reused", a->getID() == id0 && b->getID() == id0 + 1 && c->getID() == id0 + 2 && ra->getID() == id0 && Rq::main_id == id0 + 3);
}
// ---- carried to another partition (serialised): the same request arrives, and no id is ever handed out again
template <class Q> static Q* carried(Q* q)
{
    Core::Serialization::serializer ser;
    ser.start_sizing(); q->serialize_order(ser); size_t n = ser.size();
    char* buf = new char[n];
    ser.start_packing(buf, n); q->serialize_order(ser);
    CHECK("packs-what-it-sized", ser.size() == n);
    uint64_t sent = Rq::main_id, here = vf::any<uint64_t>("next_id_here");
    Q* r = new Q(); Rq::main_id = here;
    ser.start_unpacking(buf, n); r->serialize_order(ser);
    CHECK("consumes-what-was-packed", ser.size() == n);
    CHECK("same-id-and-flags", r->getID() == q->getID() && r->getAllFlags() == q->getAllFlags());
    CHECK("counter-never-moves-back", Rq::main_id >= here && Rq::main_id >= sent && (Rq::main_id == here || Rq::main_id == sent));
    return r;
}
HARNESS(carry_reads)
{
    vf_merge(false);
    any_args();
    auto* a = carried(new SM::Read(pa, sz, fl, va, ip, ti)); SAME(a, pa, va, sz);
    auto* b = carried(new SM::ReadLock(pa, sz, fl, va, ip, ti)); SAME(b, pa, va, sz);
    auto* c = carried(new SM::LoadLink(pa, sz, fl, va, ip, ti)); SAME(c, pa, va, sz);
    auto* d = carried(new SM::InvNotify(pa, sz, fl, va, ip, ti)); SAME(d, pa, va, sz);
}
HARNESS(carry_writes)
{
    vf_merge(false);
    any_args();
    std::vector<uint8_t> x = data3(); bool po = vf::any<bool>("posted");
    auto* a = carried(new SM::Write(pa, sz, x, po, fl, va, ip, ti)); SAME(a, pa, va, sz); CHECK("data", same_data(a->data, x) && a->posted == po);
    auto* b = carried(new SM::WriteUnlock(pa, sz, x, po, fl, va, ip, ti)); SAME(b, pa, va, sz); CHECK("data", same_data(b->data, x) && b->posted == po);
    auto* c = carried(new SM::StoreConditional(pa, sz, x, fl, va, ip, ti)); SAME(c, pa, va, sz); CHECK("data", same_data(c->data, x));
}
HARNESS(carry_others)
{
    vf_merge(false);
    any_args();
    bool inv = vf::any<bool>("inv"), po = vf::any<bool>("posted"); uint32_t dep = vf::any<uint32_t>("depth"); uint64_t ps = vf::any<uint64_t>("psrc"), vs = vf::any<uint64_t>("vsrc");
    auto* a = carried(new SM::FlushAddr(pa, sz, inv, dep, fl, va, ip, ti)); SAME(a, pa, va, sz); CHECK("kind-of-flush", a->inv == inv && a->depth == dep);
    auto* b = carried(new SM::FlushCache(dep, fl, ip, ti)); CHECK("kind-of-flush", b->depth == dep && b->iPtr == ip && b->tid == ti);
    auto* c = carried(new SM::MoveData(ps, pa, sz, po, fl, vs, va, ip, ti));
    CHECK("move", c->pSrc == ps && c->vSrc == vs && c->pDst == pa && c->vDst == va && c->size == sz && c->iPtr == ip && c->tid == ti && c->posted == po);
}
HARNESS(carry_responses)
{
    vf_merge(false);
    any_args(); std::vector<uint8_t> x = data3();
    auto* q = new SM::Read(pa, sz, fl, va, ip, ti); auto* f = new SM::FlushAddr(pa, sz, false, 1, fl, va, ip, ti); auto* w = new SM::Write(pa, sz, x, false, fl, va, ip, ti);
    auto* a = carried(new SM::ReadResp(q, x)); SAME(a, pa, va, sz); CHECK("data", same_data(a->data, x) && a->getID() == q->getID());
    auto* b = carried((SM::WriteResp*)w->makeResponse()); SAME(b, pa, va, sz); CHECK("its-request", b->getID() == w->getID());
    auto* c = carried((SM::FlushResp*)f->makeResponse()); SAME(c, pa, va, sz); CHECK("its-request", c->getID() == f->getID());
}
// ---- flags: each reads back exactly as set and disturbs no other
HARNESS(flags)
{
    any_args();
    Rq* q = new SM::InvNotify(pa, sz, fl);
    const uint32_t NC = 1u << 1, FA = 1u << 2, TR = 1u << 3;
    CHECK("reads", q->getNoncacheable() == !!(fl & NC) && q->getFail() == !!(fl & FA) && q->getSuccess() == !(fl & FA) && q->getTrace() == !!(fl & TR));
    uint32_t f = vf::any<uint32_t>("flag");
    CHECK("any-flag", q->getFlag(f) == !!(fl & f));
    CHECK("named-flag", q->getFlag(Rq::Flag::F_NONCACHEABLE) == !!(fl & NC) && q->getFlag(Rq::Flag::F_FAIL) == !!(fl & FA) && q->getFlag(Rq::Flag::F_TRACE) == !!(fl & TR));
#define STEP(name, call, want) do { q->clearAllFlags(); CHECK("cleared", q->getAllFlags() == 0); q->setFlag((Rq::flags_t)fl); call; CHECK(name, q->getAllFlags() == (uint32_t)(want)); } while (0)
    STEP("noncacheable", q->setNoncacheable(), fl | NC); STEP("cacheable", q->unsetNoncacheable(), fl & ~NC);
    STEP("fail", q->setFail(), fl | FA); STEP("fail-off", q->unsetFail(), fl & ~FA); STEP("success", q->setSuccess(), fl & ~FA); STEP("success-off", q->unsetSuccess(), fl | FA);
    STEP("trace", q->setTrace(), fl | TR); STEP("trace-off", q->unsetTrace(), fl & ~TR);
    STEP("set", q->setFlag((Rq::flags_t)f), fl | f); STEP("unset", q->unsetFlag((Rq::flags_t)f), fl & ~f);
    STEP("set-named", q->setFlag(Rq::Flag::F_TRACE), fl | TR); STEP("unset-named", q->unsetFlag(Rq::Flag::F_TRACE), fl & ~TR);
    CHECK("id-kept", q->getID() == id0);
}
