// Contracts for the exchange between ranks: RankSync, RankSyncSerialSkip, RankSyncParallelSkip and RankSyncQueue (sync/*.cc), with the
// real Link::send, event serialisation and Comms helpers. Both ranks run their real code; the second rank's code is run inside the
// first blocking MPI call of the first.
// VF:ASSUME MPI: a receive gets the oldest unreceived message of that sender and tag, whole; reductions return the exact minimum, maximum or sum of both ranks
// VF:ASSUME memory of events by contract (C17); getLocalMinimumNextActivityTime by contract (arbitrary per rank)
// VF:ASSUME no 64-bit overflow of event times + latencies; messages below 2^31 bytes
// VF:BOUNDED 2 ranks with 2 links between them, at most 2 events per direction; parallel sync with 2 threads per rank, run one after the other
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "verif_hash.h"
#include "sim_env.h"
#include "sst/core/serialization/serializer.cc"
#include "sst/core/serialization/impl/unpacker.cc"
#include "sst/core/serialization/impl/ser_shared_ptr_tracker.cc"
#include "sst/core/serialization/serializable.cc"
#include "sst/core/serialization/serializable_base.cc"
#include "link.cc"
#include "initQueue.cc"
#include "event.cc"
#include "sst/core/linkPair.h"
#include "sst/core/objectComms.h"
#include "sync/syncQueue.cc"
#include "sync/syncManager.cc"
#include "sync/rankSyncSerialSkip.cc"
#include "sync/rankSyncParallelSkip.cc"
#include <mpi.h>
using namespace SST;
namespace SST { Output Simulation::sim_output; Output Output::m_defaultObject; TimeConverter Simulation::minPartTC; }
static unsigned n_deleted; static void* deleted[8];
namespace SST::Core {
void* MemPoolItem::operator new(std::size_t n) noexcept { return ::operator new(n); }
void MemPoolItem::operator delete(void* p) { if ( n_deleted < 8 ) deleted[n_deleted] = p; n_deleted++; }
}
#ifndef VF_NATIVE
namespace std::chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return {}; } steady_clock::time_point steady_clock::now() noexcept { return {}; } } }
#endif
// --- MPI between two ranks
struct Msg { const char* live; char* copy; int n, from, tag; bool taken, done; };
struct Rec { char* buf; int cap, tag; bool done; };
static Msg msg[16]; static unsigned n_msg; static Rec rec_[2][8]; static unsigned n_rec[2];
static int me;                                  // the rank whose code is running
static void (*other_side)(); static bool other_ran;
static uint64_t red_in[2][8]; static unsigned n_red[2];
static Msg* oldest(int from, int tag) { for ( unsigned k = 0; k < n_msg; k++ ) if ( msg[k].from == from && msg[k].tag == tag && !msg[k].taken ) return &msg[k]; return nullptr; }
static void run_other() { if ( other_ran ) return; other_ran = true; int m = me; me = 1 - m; other_side(); me = m; }
static int put(const void* b, int n, int dest, int tag)
{
    CHECK("sent-to-the-partner", dest == 1 - me);
    if ( n_msg >= 16 ) vf_assume(false);
    Msg& m = msg[n_msg++]; m.live = (const char*)b; m.n = n; m.from = me; m.tag = tag; m.taken = m.done = false; m.copy = new char[n ? n : 1]; memcpy(m.copy, b, n);
    return n_msg;
}
static void get(char* b, int cap, int tag)
{
    if ( !oldest(1 - me, tag) ) run_other();
    Msg* m = oldest(1 - me, tag);
    CHECK("message-was-sent", m != nullptr); if ( !m ) vf_assume(false);
    CHECK("receive-buffer-large-enough", m->n <= cap); if ( m->n > cap ) vf_assume(false);
    m->taken = true; memcpy(b, m->copy, m->n);
}
extern "C" {
int MPI_Send(const void* b, int n, MPI_Datatype, int dest, int tag, MPI_Comm) { put(b, n, dest, tag); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Status*) { CHECK("received-from-the-partner", src == 1 - me); get((char*)b, n, tag); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype, int dest, int tag, MPI_Comm, MPI_Request* r) { *r = (MPI_Request)(uintptr_t)(100 + put(b, n, dest, tag)); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request* r)
{
    CHECK("received-from-the-partner", src == 1 - me);
    unsigned k = n_rec[me]++; if ( k >= 8 ) vf_assume(false);
    rec_[me][k] = { (char*)b, n, tag, false }; *r = (MPI_Request)(uintptr_t)(1 + k); return 0;
}
static void complete(MPI_Request q)
{
    uint64_t k = (uintptr_t)q;
    if ( k >= 100 ) { Msg& m = msg[k - 101]; const RankSyncQueue::Header *a = (const RankSyncQueue::Header*)m.live, *b = (const RankSyncQueue::Header*)m.copy;
        CHECK("buffer-unchanged-until-sent", (m.n == 12 || a->mode == b->mode) && a->buffer_size == b->buffer_size && memcmp(m.live + 12, m.copy + 12, m.n - 12) == 0); m.done = true; }
    else { Rec& r = rec_[me][k - 1]; if ( !r.done ) get(r.buf, r.cap, r.tag); r.done = true; }
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status*) { for ( int k = 0; k < n; k++ ) complete(r[k]); return 0; }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status*) { complete(*r); *flag = 1; return 0; }
// a reduction over both ranks: each contributes the value the harness expects of it, and gets the exact result
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
{
    bool wide = t == MPI_UINT64_T;
    vf_merge(true);
    for ( int k = 0; k < n; k++ ) {
        uint64_t v = wide ? ((const uint64_t*)in)[k] : ((const uint32_t*)in)[k];
        unsigned i = n_red[me]++; if ( i >= 8 ) vf_assume(false);
        CHECK("contributes-its-own-value", v == red_in[me][i]);
        uint64_t a = red_in[0][i], b = red_in[1][i], r;
        if ( op == MPI_MIN ) r = a < b ? a : b; else if ( op == MPI_MAX ) r = (int32_t)a > (int32_t)b ? a : b; else r = (uint32_t)(a + b);
        if ( wide ) ((uint64_t*)out)[k] = r; else ((uint32_t*)out)[k] = (uint32_t)r;
    }
    vf_merge(false);
    return 0;
}
}
// --- events and links
static uint32_t id_te;
struct TE : public Event {
    uint64_t payload = 0;
    void serialize_order(SST::Core::Serialization::serializer& ser) override { Event::serialize_order(ser); SST_SER(payload); }
    const char* cls_name() const override { return "TE"; } uint32_t cls_id() const override { return id_te; } std::string serialization_name() const override { return "TE"; }
};
struct BuildTE : public SST::Core::Serialization::serializable_builder { SST::Core::Serialization::serializable_base* build() const override { return new TE; } const char* name() const override { return "TE"; } uint32_t cls_id() const override { return 0; } bool sanity(SST::Core::Serialization::serializable_base*) override { return true; } };
struct RQ : public ActivityQueue {
    unsigned n = 0; Activity* a[4] = {}; uint64_t t[4] = {};
    bool empty() override { return n == 0; } int size() override { return n; }
    Activity* pop() override { CHECK("sync-does-not-pop", false); return nullptr; }
    void insert(Activity* x) override { if ( n < 4 ) { a[n] = x; t[n] = x->getDeliveryTime(); } n++; }
    Activity* front() override { return a[0]; }
};
static uint64_t lmin[2];
static SimTime_t lmin_stub() { return lmin[me]; }
static double wait_stub(Core::ThreadSafe::Barrier*) { return 0; }
static Simulation* setup(uint32_t threads)
{
    VF_ONLY_PROOF(id_te = SST::Core::Serialization::serializable_factory::add_builder(new BuildTE, "vf-TE"); ::new (&Simulation::minPartTC) TimeConverter();)
    VF_ONLY_NATIVE(static uint32_t i = SST::Core::Serialization::serializable_factory::add_builder(new BuildTE, "vf-TE"); id_te = i;)
    n_msg = 0; n_rec[0] = n_rec[1] = 0; n_red[0] = n_red[1] = 0; other_ran = false; n_deleted = 0; me = 0;
    Simulation* sim = vfsim::setup();
    sim->num_ranks.rank = 2; sim->num_ranks.thread = threads; sim->my_rank.rank = 0; sim->my_rank.thread = 0;
    Simulation::minPartTC.factor = vf::any<uint64_t>("min_part");
    vf_use_contract((void*)&Simulation::getLocalMinimumNextActivityTime, (void*)&lmin_stub);
    vf_use_contract(vf::mfn(&Core::ThreadSafe::Barrier::wait), (void*)&wait_stub);
    return sim;
}
// two links between rank 0 and rank 1; C[r][k] is the component's end on rank r, S[r][k] the sync's end there
static RankSync* sync_[2]; static Link *C[2][2], *S[2][2]; static ActivityQueue* q[2][2]; static RQ* to[2][2]; static LinkId_t ids[2];
static void links(unsigned th1, bool any_order = false)
{
    ids[0] = vf::any<uint64_t>("id0"); ids[1] = vf::any<uint64_t>("id1"); vf_assume(ids[0] != ids[1]);
    for ( int r = 0; r < 2; r++ ) for ( int k = 0; k < 2; k++ ) {
        LinkPair p(ids[k]); C[r][k] = p.getLeft(); S[r][k] = p.getRight();
        C[r][k]->latency = vf::any<uint64_t>("latency"); S[r][k]->latency = vf::any<uint64_t>("recv_latency");
        C[r][k]->mode = S[r][k]->mode = Link::RUN; S[r][k]->setAsSyncLink(); S[r][k]->defaultTimeBase = 1;
        to[r][k] = ::new (::operator new(sizeof(RQ))) RQ(); S[r][k]->send_queue = to[r][k];
        S[r][k]->delivery_info = vf::any<uint64_t>("handler");
    }
    bool rev; if ( any_order && vf::any<bool>("other_order") ) rev = true; else rev = false;
    for ( int r = 0; r < 2; r++ ) for ( int j = 0; j < 2; j++ ) {
        int k = r && rev ? 1 - j : j;
        uint32_t th = k ? th1 : 0;
        q[r][k] = sync_[r]->registerLink(RankInfo(1 - r, th), RankInfo(r, th), S[r][k]);
        C[r][k]->send_queue = q[r][k];
    }
}
static void info_other() { sync_[me]->exchangeLinkInfo(me); }
static void exchange_info()
{
    other_side = &info_other; other_ran = false; me = 0;
    sync_[0]->exchangeLinkInfo(0);
}
static uint64_t interval1;
static void interval_other() { interval1 = sync_[me]->findSyncInterval(me); }
static RankSyncSerialSkip* serial() { return new RankSyncSerialSkip(RankInfo(2, 1)); }
HARNESS(link_info)          // both ends of every link know each other, whatever order the links were registered in
{
    vf_merge(false);
    setup(1); sync_[0] = serial(); sync_[1] = serial();
    CHECK("first-sync-after-the-smallest-latency", sync_[0]->getNextSyncTime() == Simulation::minPartTC.factor);
    links(0, true); exchange_info();
    for ( int r = 0; r < 2; r++ ) for ( int k = 0; k < 2; k++ ) CHECK("each-end-knows-the-other", C[r][k]->delivery_info == (uintptr_t)S[1 - r][k]);
    CHECK("one-queue-per-rank", q[0][0] == q[0][1] && q[1][0] == q[1][1]);
}
HARNESS(link_mismatch)
{
    vf_merge(false);
    setup(1); sync_[0] = serial(); sync_[1] = serial();
    links(0);
    LinkPair p(vf::any<uint64_t>("id2")); unsigned k; if ( vf::any<bool>("extra") ) k = 1; else k = 0;
    if ( k ) sync_[1]->registerLink(RankInfo(0, 0), RankInfo(1, 0), p.getRight());
    else { uint64_t i = vf::any<uint64_t>("wrong"); vf_assume(i != ids[0] && i != ids[1]); sync_[1]->link_maps[0][0].first = i; }
    bool threw = false;
    try { exchange_info(); } catch ( vf::Fatal& ) { threw = true; }
    CHECK("unmatched-links-reported", threw);
}
HARNESS(interval)
{
    vf_merge(false);
    setup(1); sync_[0] = serial(); sync_[1] = serial();
    links(0); exchange_info();
    uint64_t best = ~0ull;
    vf_merge(true);
    for ( int r = 0; r < 2; r++ ) {
        uint64_t mine = ~0ull;
        for ( int k = 0; k < 2; k++ ) {
            vf_assume(C[1 - r][k]->latency <= ~0ull - S[r][k]->latency);
            uint64_t t = C[1 - r][k]->latency + S[r][k]->latency; if ( t < mine ) mine = t;
        }
        red_in[r][0] = mine; if ( mine < best ) best = mine;
    }
    vf_merge(false);
    other_side = &interval_other; other_ran = false; me = 0;
    uint64_t got = sync_[0]->findSyncInterval(0);
    CHECK("smallest-total-latency-of-all-links", got == best && interval1 == best);
    CHECK("link-lists-dropped", sync_[0]->link_maps[1].empty() && sync_[1]->link_maps[0].empty());
}
static TE* ev(uint64_t p) { TE* e = new TE(); e->payload = p; return e; }
static unsigned upto(const char* nm, unsigned m) { unsigned k = vf::any<unsigned>(nm) % (m + 1); for ( unsigned j = 0; j < m; j++ ) if ( k == j ) return j; return m; }
// --- the buffer a queue turns into
HARNESS(get_data)
{
    vf_merge(false);
    setup(1);
    RankSyncQueue rq(RankInfo(1, 0));
    CHECK("target", rq.getToRank() == RankInfo(1, 0) && rq.empty());
    unsigned n = upto("events", 2); TE* e[2]; uint64_t t[2], o[2], d[2], p[2];
    unsigned old = upto("old", 2);
    if ( old ) { rq.buf_size = old == 1 ? 20 : 400; rq.buffer = new char[rq.buf_size]; }
    for ( unsigned k = 0; k < n; k++ ) {
        e[k] = ev(p[k] = vf::any<uint64_t>("payload")); e[k]->delivery_time = t[k] = vf::any<uint64_t>("time"); e[k]->queue_order = o[k] = vf::any<uint64_t>("order"); e[k]->delivery_info = d[k] = vf::any<uint64_t>("info");
        rq.insert(e[k]);
    }
    CHECK("queued", rq.size() == (int)n && rq.empty() == (n == 0));
    char* b = rq.getData();
    RankSyncQueue::Header* h = (RankSyncQueue::Header*)b;
    CHECK("emptied", rq.empty() && rq.size() == 0 && n_deleted == n);
    CHECK("size-in-the-header", h->buffer_size >= sizeof(RankSyncQueue::Header) && h->buffer_size <= rq.buf_size);
    SST::Core::Serialization::serializer ser; ser.start_unpacking(b + sizeof(RankSyncQueue::Header), h->buffer_size - sizeof(RankSyncQueue::Header));
    std::vector<Activity*> v; SST_SER(v);
    CHECK("whole-buffer-read-back", ser.size() == h->buffer_size - sizeof(RankSyncQueue::Header) && v.size() == n);
    for ( unsigned k = 0; k < n && k < v.size(); k++ ) {
        TE* x = (TE*)v[k];
        CHECK("same-event-in-order", x != e[k] && x->payload == p[k] && x->getDeliveryTime() == t[k] && x->queue_order == o[k] && x->delivery_info == d[k]);
    }
}
// --- one synchronisation of two ranks
static int sig[2][3]; static bool fl[2][3]; static unsigned mode_[2]; static uint64_t nexts[2]; static int gsig[2][3]; static bool gfl[2][3]; static unsigned gmode[2];
template <class R> static void statics_in() { R::sig_end_ = sig[me][0]; R::sig_usr_ = sig[me][1]; R::sig_alrm_ = sig[me][2]; R::enter_interactive_ = fl[me][0]; R::enter_shutdown_ = fl[me][1]; R::generate_ckpt_ = fl[me][2]; R::shutdown_mode_ = mode_[me]; }
template <class R> static void statics_out() { nexts[me] = sync_[me]->getNextSyncTime(); gsig[me][0] = R::sig_end_; gsig[me][1] = R::sig_usr_; gsig[me][2] = R::sig_alrm_; gfl[me][0] = R::enter_interactive_; gfl[me][1] = R::enter_shutdown_; gfl[me][2] = R::generate_ckpt_; gmode[me] = R::shutdown_mode_; }
static void both_any(bool flags)
{
    for ( int r = 0; r < 2; r++ ) {
        for ( int k = 0; k < 3; k++ ) { sig[r][k] = 0; fl[r][k] = false; if ( flags ) { sig[r][k] = vf::any<int>("signal"); fl[r][k] = vf::any<bool>("flag"); } }
        mode_[r] = 0; if ( flags ) mode_[r] = vf::any<unsigned>("mode") % 3; lmin[r] = vf::any<uint64_t>("earliest");
        uint64_t* e = red_in[r]; e[0] = lmin[r]; for ( int k = 0; k < 3; k++ ) e[1 + k] = (uint32_t)sig[r][k]; e[4] = fl[r][0]; e[5] = fl[r][1]; e[6] = mode_[r]; e[7] = fl[r][2];
    }
}
template <class R> static void side() { int m = me; statics_in<R>(); sync_[m]->execute(0); statics_out<R>(); }
template <class R> static void outer()      // the other rank's statics are its own
{
    int m = me; statics_in<R>();
    int s0 = R::sig_end_;
    (void)s0; sync_[m]->execute(0); statics_out<R>();
}
template <class R> static void serial_other() { int keep[3] = { R::sig_end_, R::sig_usr_, R::sig_alrm_ }; bool f0 = R::enter_interactive_, f1 = R::enter_shutdown_, f2 = R::generate_ckpt_; unsigned md = R::shutdown_mode_;
    side<R>(); R::sig_end_ = keep[0]; R::sig_usr_ = keep[1]; R::sig_alrm_ = keep[2]; R::enter_interactive_ = f0; R::enter_shutdown_ = f1; R::generate_ckpt_ = f2; R::shutdown_mode_ = md; }
static void agreed()
{
    vf_merge(true);
    uint64_t first = lmin[0] < lmin[1] ? lmin[0] : lmin[1], p = sync_[0]->max_period;
    CHECK("same-next-sync-everywhere", nexts[0] == nexts[1]);
    CHECK("no-later-than-earliest-plus-latency", vf::implies(first <= ~0ull - p, nexts[0] == first + p));
    CHECK("never-before-the-earliest-work", nexts[0] >= first);
    for ( int k = 0; k < 3; k++ ) { int hi = sig[0][k] > sig[1][k] ? sig[0][k] : sig[1][k]; CHECK("signals-of-any-rank-reach-all", gsig[0][k] == hi && gsig[1][k] == hi); bool any = fl[0][k] || fl[1][k]; CHECK("requests-of-any-rank-reach-all", gfl[0][k] == any && gfl[1][k] == any); }
    vf_merge(false);
}
static uint64_t tt[2][2]; static unsigned cnt[2]; static unsigned lk[2][2]; static uint64_t pl[2][2];
static void send_some(Simulation* sim, unsigned max0, unsigned max1, unsigned least)
{
    for ( int r = 0; r < 2; r++ ) {
        unsigned most = r ? max1 : max0, lo = least < most ? least : most; cnt[r] = lo + upto(r ? "events1" : "events0", most - lo);
        for ( unsigned k = 0; k < cnt[r]; k++ ) {
            lk[r][k] = upto("on_link", 1); TE* e = ev(pl[r][k] = vf::any<uint64_t>("payload"));
            C[r][lk[r][k]]->send(vf::any<uint64_t>("delay"), TimeConverter(1), e); tt[r][k] = e->getDeliveryTime();
        }
    }
    uint64_t ts = vf::any<uint64_t>("sync_time");
    vf_merge(true);
    for ( int r = 0; r < 2; r++ ) for ( unsigned k = 0; k < cnt[r]; k++ ) if ( tt[r][k] < ts ) ts = tt[r][k];       // any time before the deliveries
    vf_merge(false);
    sim->currentSimCycle = ts;
}
static void delivered()
{
    for ( int r = 0; r < 2; r++ ) {
        unsigned seen[2] = { 0, 0 };
        for ( unsigned k = 0; k < cnt[r]; k++ ) {
            unsigned l = lk[r][k], i = seen[l]++; RQ* x = to[1 - r][l]; Link* s = S[1 - r][l];
            CHECK("delivered", x->n > i); if ( x->n <= i ) continue;
            TE* e = (TE*)x->a[i];
            CHECK("unchanged-in-order", e->payload == pl[r][k]);
            CHECK("original-time-plus-receive-latency", x->t[i] == tt[r][k] + s->latency);
            CHECK("for-the-receiver's-handler", e->delivery_info == s->delivery_info);
        }
        for ( int l = 0; l < 2; l++ ) CHECK("each-once", to[1 - r][l]->n == seen[l]);
    }
}
template <class R> static R* as(int r) { return static_cast<R*>(sync_[r]); }
static void small_buffers(int r)      // the partner's knowledge of this rank's receive buffer is exact
{
    auto& mine = as<RankSyncSerialSkip>(r)->comm_map[1 - r]; auto& theirs = as<RankSyncSerialSkip>(1 - r)->comm_map[r];
    CHECK("buffer-size-known-to-the-partner", mine.local_size == theirs.remote_size);
    if ( vf::any<bool>("small") ) { delete[] mine.rbuf; mine.rbuf = new char[24]; mine.local_size = theirs.remote_size = 24; }
}
static void outer_serial(unsigned max0, unsigned max1, bool flags, unsigned least = 0)
{
    Simulation* sim = setup(1); sync_[0] = serial(); sync_[1] = serial();
    links(0); exchange_info();
    if ( max0 ) small_buffers(1);
    if ( max1 ) small_buffers(0);
    both_any(flags); send_some(sim, max0, max1, least);
    CHECK("not-delivered-before-the-sync", to[0][0]->n == 0 && to[0][1]->n == 0 && to[1][0]->n == 0 && to[1][1]->n == 0);
    n_red[0] = n_red[1] = 0; other_ran = false; other_side = &serial_other<RankSyncSerialSkip>;
    me = upto("first", 1); outer<RankSyncSerialSkip>();
    delivered(); agreed();
    for ( unsigned k = 0; k < n_msg; k++ ) CHECK("every-message-received", msg[k].taken);
    for ( int r = 0; r < 2; r++ ) {
        CHECK("buffer-size-still-known", as<RankSyncSerialSkip>(r)->comm_map[1 - r].local_size == as<RankSyncSerialSkip>(1 - r)->comm_map[r].remote_size);
        CHECK("queues-empty", q[r][0]->empty());
    }
}
HARNESS(serial_one) { vf_merge(false); outer_serial(1, 0, false); }
HARNESS(serial_two) { vf_merge(false); outer_serial(2, 0, false, 2); }
HARNESS(serial_both) { vf_merge(false); outer_serial(1, 1, false, 1); }
HARNESS(serial_agree) { vf_merge(false); outer_serial(0, 0, true); }
// --- untimed data (init and complete phases)
static std::atomic<int> count_[2];
static void untimed_other() { sync_[me]->exchangeLinkUntimedData(0, count_[me]); }
static void untimed_round(unsigned th1)
{
    links(th1); exchange_info();
    for ( int r = 0; r < 2; r++ ) { int c = vf::any<int>("messages"); vf_assume(c >= 0 && c < (1 << 30)); count_[r] = c; red_in[r][0] = (uint32_t)c; }
    int total = count_[0] + count_[1];
    cnt[0] = 2; cnt[1] = 1;
    for ( int r = 0; r < 2; r++ ) for ( unsigned k = 0; k < cnt[r]; k++ ) {
        lk[r][k] = upto("on_link", 1); TE* e = ev(pl[r][k] = vf::any<uint64_t>("payload")); e->delivery_time = vf::any<uint64_t>("time"); e->delivery_info = (uintptr_t)S[1 - r][lk[r][k]]; q[r][lk[r][k]]->insert(e);
    }
    n_red[0] = n_red[1] = 0; other_ran = false; other_side = &untimed_other;
    me = upto("first", 1); untimed_other();
    for ( int r = 0; r < 2; r++ ) {
        unsigned seen[2] = { 0, 0 };
        for ( unsigned k = 0; k < cnt[r]; k++ ) { unsigned l = lk[r][k], i = seen[l]++; RQ* x = to[1 - r][l]; CHECK("delivered-in-order", x->n > i && ((TE*)x->a[i])->payload == pl[r][k]); }
        for ( int l = 0; l < 2; l++ ) CHECK("each-once", to[1 - r][l]->n == seen[l]);
        CHECK("all-ranks-know-the-number-of-messages", count_[r] == total);
        CHECK("queues-empty", q[r][0]->empty() && q[r][1]->empty());
    }
    std::atomic<int> c2(5); sync_[0]->exchangeLinkUntimedData(1, c2);
    CHECK("only-thread-0-exchanges", c2 == 5 && n_red[0] == 1);
}
HARNESS(serial_untimed) { vf_merge(false); setup(1); sync_[0] = serial(); sync_[1] = serial(); untimed_round(0); }
// --- ranks with two threads each
static RankSyncParallelSkip* parallel() { return new RankSyncParallelSkip(RankInfo(2, 2)); }
template <class R> static void both_threads() { sync_[me]->execute(0); sync_[me]->execute(1); }
static void par_other()
{
    typedef RankSyncParallelSkip R;
    int keep[3] = { R::sig_end_, R::sig_usr_, R::sig_alrm_ }; bool f0 = R::enter_interactive_, f1 = R::enter_shutdown_, f2 = R::generate_ckpt_; unsigned md = R::shutdown_mode_;
    statics_in<R>(); both_threads<R>(); statics_out<R>();
    R::sig_end_ = keep[0]; R::sig_usr_ = keep[1]; R::sig_alrm_ = keep[2]; R::enter_interactive_ = f0; R::enter_shutdown_ = f1; R::generate_ckpt_ = f2; R::shutdown_mode_ = md;
}
static void outer_parallel(unsigned max0, unsigned max1, bool flags, unsigned least)
{
    typedef RankSyncParallelSkip R;
    Simulation* sim = setup(2); sync_[0] = parallel(); sync_[1] = parallel();
    CHECK("first-sync-after-the-smallest-latency", sync_[0]->getNextSyncTime() == Simulation::minPartTC.factor);
    links(1); exchange_info();
    sync_[0]->finalizeLinkConfigurations(); sync_[1]->finalizeLinkConfigurations();
    CHECK("a-queue-per-receiving-thread", q[0][0] != q[0][1] && q[1][0] != q[1][1]);
    bool small = false;
    for ( int r = 0; r < 2; r++ ) for ( uint32_t th = 0; th < 2; th++ ) {
        auto& mine = as<R>(r)->comm_recv_map[RankInfo(1 - r, th)]; auto& theirs = as<R>(1 - r)->comm_send_map[RankInfo(r, th)];
        CHECK("buffer-size-known-to-the-partner", mine.local_size == theirs.remote_size);
        if ( th == 0 || max0 < 2 ) { if ( (r ? max0 : max1) && vf::any<bool>("small") ) small = true; else small = false; }
        if ( small ) { delete[] mine.rbuf; mine.rbuf = new char[24]; mine.local_size = theirs.remote_size = 24; }
    }
    both_any(flags); send_some(sim, max0, max1, least);
    n_red[0] = n_red[1] = 0; other_ran = false; other_side = &par_other;
    me = 0; if ( max0 < 2 ) me = upto("first", 1); statics_in<R>(); both_threads<R>(); statics_out<R>();
    delivered(); agreed();
    for ( unsigned k = 0; k < n_msg; k++ ) CHECK("every-message-received", msg[k].taken);
    for ( int r = 0; r < 2; r++ ) {
        for ( uint32_t th = 0; th < 2; th++ ) CHECK("buffer-size-still-known", as<R>(r)->comm_recv_map[RankInfo(1 - r, th)].local_size == as<R>(1 - r)->comm_send_map[RankInfo(r, th)].remote_size);
        CHECK("queues-empty", q[r][0]->empty() && q[r][1]->empty());
    }
}
HARNESS(parallel_one) { vf_merge(false); outer_parallel(1, 0, false, 0); }
HARNESS(parallel_two) { vf_merge(false); outer_parallel(2, 0, false, 2); }
HARNESS(parallel_agree) { vf_merge(false); outer_parallel(0, 0, true, 0); }
HARNESS(parallel_untimed) { vf_merge(false); setup(2); sync_[0] = parallel(); sync_[1] = parallel(); untimed_round(1); }
