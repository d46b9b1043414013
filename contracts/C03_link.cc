// Contracts for links: SST::Link, LinkPair, SelfLink (link.cc, link.h, linkPair.h), PollingLinkQueue, InitQueue, Event delivery.
// VF:ASSUME Simulation::getCurrentSimCycle, TimeLord::getSimCycles and the receiving queue's insert are used by contract (C07, C02)
// VF:ASSUME no 64-bit overflow of send time + delay + latency (machine arithmetic is exact modulo 2^64; the law is stated without overflow)
// VF:BOUNDED recv_*, poll_queue_*, init_queue_*, untimed_recv_*: queues of at most 3 pending events with arbitrary times (one step from any such queue); tools_*: at most 2 attached tools
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sim_env.h"
#include "link.cc"
#include "pollingLinkQueue.cc"
#include "initQueue.cc"
#include "event.cc"
#include "sst/core/linkPair.h"
using namespace SST;
namespace SST { Output Simulation::sim_output; }
struct RQ : public ActivityQueue {          // the receiving queue by contract: remembers what was handed over
    unsigned n = 0; Activity* a[4] = {}; bool deleted = false;
    ~RQ() override { deleted = true; }
    bool empty() override { return n == 0; } int size() override { return n; }
    Activity* pop() override { CHECK("sender-does-not-pop", false); return nullptr; }
    void insert(Activity* x) override { if (n < 4) a[n] = x; n++; }
    Activity* front() override { return a[0]; }
};
struct TE : public Event { uint64_t payload; };
static uint64_t now, lat, dinfo; static uint32_t tg; static Simulation* sim; static RQ* rq; static Link *L, *R;
static Link* any_link()
{
    sim = vfsim::setup(); now = sim->currentSimCycle;
    LinkId_t id = vf::any<uint64_t>("id");
    LinkPair p(id); L = p.getLeft(); R = p.getRight();
    CHECK("pair-connected", L != R && L->pair_link == R && R->pair_link == L && L->getId() == id && R->getId() == id);
    rq = ::new (::operator new(sizeof(RQ))) RQ(); L->send_queue = rq;
    L->mode = Link::RUN; L->type = Link::HANDLER;
    L->latency = lat = vf::any<uint64_t>("latency"); L->delivery_info = dinfo = vf::any<uint64_t>("receiver"); L->tag = tg = vf::any<uint32_t>("tag");
    L->defaultTimeBase = vf::any<uint64_t>("default_timebase");
    return L;
}
static TE* ev() { TE* e = ::new (::operator new(sizeof(TE))) TE(); e->payload = 77; return e; }
static bool sent(Event* e, uint64_t t) { return rq->n == 1 && rq->a[0] == e && e->getDeliveryTime() == t && e->getOrderTag() == tg && e->delivery_info == dinfo; }
HARNESS(send_delay_tc)
{
    Link* l = any_link(); TE* e = ev(); uint64_t d = vf::any<uint64_t>("delay"), f = vf::any<uint64_t>("factor"); int p = e->getPriority();
    l->send(d, TimeConverter(f), e);
    CHECK("at-now-plus-delay-plus-latency", sent(e, now + d * f + lat));
    CHECK("payload-kept", e->payload == 77 && e->getPriority() == p && p == EVENTPRIORITY);
    CHECK("link-unchanged", l->latency == lat && l->tag == tg && l->delivery_info == dinfo && sim->currentSimCycle == now);
}
HARNESS(send_delay)
{
    Link* l = any_link(); TE* e = ev(); uint64_t d = vf::any<uint64_t>("delay");
    l->send(d, e);
    CHECK("at-now-plus-delay-plus-latency", sent(e, now + d * l->defaultTimeBase + lat) && e->payload == 77);
}
HARNESS(send_plain)
{
    Link* l = any_link(); TE* e = ev();
    l->send(e);
    CHECK("at-now-plus-latency", sent(e, now + lat) && e->payload == 77);
    if (lat <= ~0ull - now) CHECK("not-in-the-past", e->getDeliveryTime() >= now);
    TE* e2 = ev(); sim->currentSimCycle = now + 5;
    l->send(e2);
    CHECK("each-once", rq->n == 2 && rq->a[0] == e && rq->a[1] == e2 && e2->getDeliveryTime() == now + 5 + lat);
}
static unsigned n_h; static Event* h_ev;
struct TH : public Event::HandlerBase { void operator_impl(Event* e) override { n_h++; h_ev = e; } };
HARNESS(send_null)
{
    Link* l = any_link(); TH h; l->setDeliveryInfo((uintptr_t)&h); dinfo = (uintptr_t)&h;
    l->send((Event*)nullptr);
    Event* e = (Event*)rq->a[0];
    CHECK("delivered-like-any-event", rq->n == 1 && e != nullptr && sent(e, now + lat));
    n_h = 0; h_ev = e; e->execute();
    CHECK("receiver-gets-nullptr", n_h == 1 && h_ev == nullptr);
}
HARNESS(deliver)
{
    any_link(); TH h; TE* e = ev(); e->delivery_info = (uintptr_t)&h; n_h = 0;
    e->Event::execute();
    CHECK("handed-to-its-receiver-once", n_h == 1 && h_ev == e);
}
HARNESS(send_wrong_phase)
{
    Link* l = any_link(); TE* e = ev(); bool init = vf::any<bool>("init"); l->mode = init ? Link::INIT : Link::COMPLETE;
    bool fatal = false;
    try { l->send(e); } catch (vf::Fatal&) { fatal = true; }
    CHECK("rejected", fatal && rq->n == 0);
}
static unsigned n_t; static int t_id[4]; static Event* t_ev[4]; static uintptr_t t_key[4]; static Event* repl[2];
struct AP : public Link::AttachPoint {
    int id; uintptr_t key; int what;      // what: 0 keep, 1 drop, 2 replace
    uintptr_t registerLinkAttachTool(const AttachPointMetaData&) override { return key; }
    void eventSent(uintptr_t k, Event*& e) override { if (n_t < 4) { t_id[n_t] = id; t_ev[n_t] = e; t_key[n_t] = k; } n_t++; if (what == 1) e = nullptr; if (what == 2) e = repl[id]; }
};
struct MD : public AttachPointMetaData {};
static void tools(int n)
{
    vf_merge(false);
    Link* l = any_link(); LinkId_t id = l->getId(); AP ap[2]; MD md; n_t = 0;
    for (int i = 0; i < n; i++) { ap[i].id = i; ap[i].key = vf::any<uint64_t>("key"); ap[i].what = vf::any_in<int>("what", 0, 2); repl[i] = ev(); l->attachTool(&ap[i], md); }
    CHECK("id-kept", l->getId() == id && l->has_tool_list && l->attached_tools->size() == (size_t)n + 1);
    TE* e = ev(); Event* cur = e; unsigned calls = 0; bool seq = true;
    l->send(e);
    for (int i = 0; i < n && cur; i++) {
        seq = seq && calls < n_t && t_id[calls] == i && t_ev[calls] == cur && t_key[calls] == ap[i].key; calls++;
        if (ap[i].what == 1) cur = nullptr; else if (ap[i].what == 2) cur = repl[i];
    }
    CHECK("each-tool-asked-once-in-order", seq && n_t == calls);
    CHECK("delivered-unless-dropped", cur ? rq->n == 1 && rq->a[0] == cur : rq->n == 0);
    if (cur == e) CHECK("as-sent", sent(e, now + lat));
    int w = n == 1 ? 0 : (vf::any<bool>("second") ? 1 : 0);
    l->detachTool(&ap[w]);
    CHECK("detached", l->attached_tools->size() == (size_t)n && l->getId() == id);
    bool gone = true; for (auto& x : *l->attached_tools) gone = gone && x.first != &ap[w];
    CHECK("exactly-that-tool", gone && (n == 1 || (*l->attached_tools)[1].first == &ap[1 - w]));
}
HARNESS(tools_1) { tools(1); }
HARNESS(tools_2) { tools(2); }
HARNESS(latency)
{
    Link* l = any_link(); uint64_t rl = R->latency = vf::any<uint64_t>("pair_latency"), c = vf::any<uint64_t>("cycles"), f = vf::any<uint64_t>("factor");
    uint64_t n = vf::any<uint64_t>("set");
    unsigned w = vf::any_in<unsigned>("which", 0, 2);
    if (w == 0) l->setLatency(n); else if (w == 1) l->addSendLatency(c, TimeConverter(f)); else l->addRecvLatency(c, TimeConverter(f));
    CHECK("own-latency", l->getLatency() == (w == 0 ? n : w == 1 ? lat + c * f : lat));
    CHECK("others-latency", R->getLatency() == (w == 2 ? rl + c * f : rl));
    CHECK("rest-kept", l->tag == tg && l->getDeliveryInfo() == dinfo && l->getPairLink() == R && R->getPairLink() == l);
    uint64_t tb = vf::any<uint64_t>("tb"); l->setDefaultTimeBase(TimeConverter(tb));
    CHECK("default-timebase", l->defaultTimeBase == tb && R->defaultTimeBase == 0);
}
static uint64_t sc; static SimTime_t tl_cycles(TimeLord*, const std::string&, const std::string&) { return sc; }
HARNESS(latency_text)
{
    Link* l = any_link(); uint64_t rl = R->latency = vf::any<uint64_t>("pair_latency"); int c = vf::any_in<int>("cycles", 0, 0x7fffffff); sc = vf::any<uint64_t>("core_time");
    vf_use_contract(vf::mfn((SimTime_t (TimeLord::*)(const std::string&, const std::string&)) & TimeLord::getSimCycles), (void*)&tl_cycles);
    bool snd = vf::any<bool>("send"); std::string tb("1ns");
    if (snd) l->addSendLatency(c, tb); else l->addRecvLatency(c, tb);
    CHECK("own-latency", l->getLatency() == lat + (snd ? (uint64_t)c * sc : 0));
    CHECK("others-latency", R->getLatency() == rl + (snd ? 0 : (uint64_t)c * sc));
}
HARNESS(receiver)
{
    Link* l = any_link(); TH* h = ::new (::operator new(sizeof(TH))) TH(); TH* h2 = ::new (::operator new(sizeof(TH))) TH();
    bool poll = vf::any<bool>("polling"); l->type = poll ? Link::POLL : Link::UNINITIALIZED; R->delivery_info = 0;
    bool fatal = false;
    try { l->setFunctor(h); } catch (vf::Fatal&) { fatal = true; }
    CHECK("polled-link-takes-no-handler", fatal == poll);
    if (poll) { CHECK("untouched", R->delivery_info == 0 && l->getFunctor() == nullptr && l->type == Link::POLL); return; }
    CHECK("receiver-set-on-the-sending-side", R->getDeliveryInfo() == (uintptr_t)h && l->getFunctor() == h && l->type == Link::HANDLER && l->getDeliveryInfo() == dinfo && l->isConfigured());
    l->replaceFunctor(h2);
    CHECK("replaced", R->getDeliveryInfo() == (uintptr_t)h2 && l->getFunctor() == h2 && l->getDeliveryInfo() == dinfo);
    l->setPolling();
    CHECK("polling", l->type == Link::POLL && R->type == Link::UNINITIALIZED);
}
HARNESS(tags)
{
    Link* l = any_link(); uint32_t rt = R->tag = vf::any<uint32_t>("pair_tag"), t = vf::any<uint32_t>("new_tag");
    l->setTag(t);
    CHECK("tag-goes-to-the-sending-side", R->tag == (tg != 0xffffffffu ? t : rt) && l->tag == tg);
}
HARNESS(self_link)
{
    sim = vfsim::setup(); now = sim->currentSimCycle;
    SelfLink* s = ::new (::operator new(sizeof(SelfLink))) SelfLink();
    CHECK("own-pair-no-latency", s->getPairLink() == s && s->getLatency() == 0 && s->tag == 0xffffffffu);
    TH h; s->setFunctor(&h); s->finalizeConfiguration();
    CHECK("own-receiver", s->getDeliveryInfo() == (uintptr_t)&h && s->mode == Link::RUN);
    rq = ::new (::operator new(sizeof(RQ))) RQ(); s->send_queue = rq; TE* e = ev(); uint64_t d = vf::any<uint64_t>("delay"), f = vf::any<uint64_t>("factor");
    s->send(d, TimeConverter(f), e);
    tg = 0xffffffffu; dinfo = (uintptr_t)&h;
    CHECK("at-now-plus-delay", sent(e, now + d * f));
}
// phases
HARNESS(finalize)
{
    Link* l = any_link(); l->mode = Link::INIT; R->mode = Link::INIT; R->send_queue = nullptr; rq->n = 0;
    RQ tv; sim->timeVortex = (TimeVortex*)(void*)&tv;
    unsigned ty = vf::any_in<unsigned>("type", 0, 3); l->type = ty == 0 ? Link::POLL : ty == 1 ? Link::HANDLER : ty == 2 ? Link::SYNC : Link::UNINITIALIZED;
    bool psync = ty != 2 && vf::any<bool>("pair_is_sync"); R->type = psync ? Link::SYNC : Link::HANDLER;
    RQ* init = nullptr; bool had = vf::any<bool>("init_events"); if (had) { init = ::new (::operator new(sizeof(RQ))) RQ(); R->send_queue = init; }
    l->finalizeConfiguration();
    CHECK("running", l->mode == Link::RUN && R->mode == (psync ? Link::RUN : Link::INIT));
    if (ty == 1) CHECK("events-go-to-the-time-vortex", R->send_queue == (ActivityQueue*)sim->timeVortex);
    else if (ty == 0) CHECK("events-go-to-an-empty-poll-queue", R->send_queue != nullptr && R->send_queue != init && dynamic_cast<PollingLinkQueue*>(R->send_queue) != nullptr && R->send_queue->empty());
    else if (ty == 2) CHECK("sync-link-untouched", R->send_queue == init);
    else CHECK("unused-link-has-no-queue", R->send_queue == nullptr);
    CHECK("own-queue-kept", l->send_queue == rq);
    CHECK("rest-kept", l->latency == lat && l->tag == tg && l->delivery_info == dinfo);
    l->prepareForComplete();
    CHECK("completing", l->mode == Link::COMPLETE && R->mode == (psync ? Link::COMPLETE : Link::INIT));
    if (ty != 2) CHECK("queue-detached", R->send_queue == nullptr);
    CHECK("own-queue-kept", l->send_queue == rq);
}
// polled links: R receives; events wait in the queue L sends to
static void recv(int n)
{
    vf_merge(false);
    Link* l = any_link(); R->type = Link::POLL; PollingLinkQueue* q = new PollingLinkQueue(); l->send_queue = q;
    TE* e[3]; uint64_t t[3]; int first = -1;
    for (int i = 0; i < n; i++) { e[i] = ev(); e[i]->payload = i; t[i] = vf::any<uint64_t>("t"); e[i]->setDeliveryTime(t[i]); e[i]->setOrderTag(vf::any<uint32_t>("etag")); e[i]->setQueueOrder(vf::any<uint64_t>("qo")); q->insert(e[i]); }
    for (int i = 0; i < n; i++) if (first < 0 || t[i] < t[first]) first = i;
    CHECK("size", q->size() == n && q->empty() == (n == 0));
    Event* r = R->recv();
    if (n == 0 || t[first] > now) {
        CHECK("nothing-before-its-time", r == nullptr);
        CHECK("kept", q->size() == n);
    } else {
        CHECK("earliest-first-sent-first", r == e[first] && e[first]->payload == (uint64_t)first && e[first]->getDeliveryTime() == t[first]);
        CHECK("removed-once", q->size() == n - 1);
    }
    // the rest comes out in time order, events of equal time in the order sent, none lost, none twice
    bool ok = true; bool used[3] = { false, false, false }; if (r) used[first] = true;
    for (int k = r ? 1 : 0; k < n; k++) {
        int m = -1; for (int i = 0; i < n; i++) if (!used[i] && (m < 0 || t[i] < t[m])) m = i;
        ok = ok && q->front() == e[m] && q->pop() == e[m]; used[m] = true;
    }
    CHECK("rest-in-order", ok && q->empty() && q->pop() == nullptr && q->front() == nullptr);
}
HARNESS(recv_0) { recv(0); }
HARNESS(recv_1) { recv(1); }
HARNESS(recv_2) { recv(2); }
HARNESS(recv_3) { recv(3); }
HARNESS(recv_needs_polling)
{
    any_link(); R->type = vf::any<bool>("handler") ? Link::HANDLER : Link::SYNC; bool fatal = false;
    rq->n = 0;
    try { R->recv(); } catch (vf::Fatal&) { fatal = true; }
    CHECK("rejected", fatal && rq->n == 0);
}
// init/complete phase data
HARNESS(untimed_send)
{
    Link* l = any_link(); bool run = vf::any<bool>("running"), comp = vf::any<bool>("complete"); l->mode = run ? Link::RUN : comp ? Link::COMPLETE : Link::INIT;
    unsigned ph = sim->untimed_phase = vf::any_in<unsigned>("phase", 0, 1000000); uint64_t cnt = vf::any<uint32_t>("count") & 0xffffff; sim->untimed_msg_count = cnt;
    bool fresh = vf::any<bool>("no_queue"); if (fresh) l->send_queue = nullptr;
    TE* e = ev(); bool fatal = false;
    try { l->sendUntimedData(e); } catch (vf::Fatal&) { fatal = true; }
    CHECK("only-outside-the-run", fatal == run);
    if (fatal) { CHECK("nothing-sent", rq->n == 0 && sim->untimed_msg_count == cnt); return; }
    CHECK("counted-once", sim->untimed_msg_count == cnt + 1);
    CHECK("available-next-phase", e->getDeliveryTime() == (uint64_t)ph + 1 && e->getOrderTag() == tg && e->delivery_info == dinfo && e->payload == 77);
    if (fresh) CHECK("handed-over-once", l->send_queue->size() == 1 && l->send_queue->front() == e);
    else CHECK("handed-over-once", rq->n == 1 && rq->a[0] == e);
}
HARNESS(untimed_sync)
{
    Link* l = any_link(); bool fresh = vf::any<bool>("no_queue"); if (fresh) l->send_queue = nullptr;
    TE* e = ev(); uint64_t t = vf::any<uint64_t>("t"); e->setDeliveryTime(t);
    l->sendUntimedData_sync(e);
    CHECK("time-kept", e->getDeliveryTime() == t && e->payload == 77);
    if (fresh) CHECK("handed-over-once", l->send_queue->size() == 1 && l->send_queue->front() == e);
    else CHECK("handed-over-once", rq->n == 1 && rq->a[0] == e);
}
static void untimed_recv(int n)
{
    vf_merge(false);
    Link* l = any_link(); l->send_queue = n < 0 ? nullptr : new InitQueue(); unsigned ph = sim->untimed_phase = vf::any_in<unsigned>("phase", 0, 1000000);
    TE* e[3]; uint64_t t[3];
    for (int i = 0; i < n; i++) { e[i] = ev(); t[i] = vf::any<uint64_t>("t"); e[i]->setDeliveryTime(t[i]); l->send_queue->insert(e[i]); }
    Event* r = R->recvUntimedData();
    if (n <= 0) { CHECK("nothing", r == nullptr); return; }
    bool due = t[0] <= ph;
    CHECK("first-when-its-phase-came", r == (due ? e[0] : nullptr));
    CHECK("others-kept", l->send_queue->size() == n - (due ? 1 : 0));
    bool ok = true; for (int i = due ? 1 : 0; i < n; i++) ok = ok && l->send_queue->front() == e[i] && l->send_queue->pop() == e[i];
    CHECK("in-send-order", ok && l->send_queue->empty() && l->send_queue->pop() == nullptr && l->send_queue->front() == nullptr);
}
HARNESS(untimed_recv_none) { untimed_recv(-1); }
HARNESS(untimed_recv_0) { untimed_recv(0); }
HARNESS(untimed_recv_1) { untimed_recv(1); }
HARNESS(untimed_recv_3) { untimed_recv(3); }
