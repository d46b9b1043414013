// Contracts for the exchange between threads and the schedule of synchronisations: ThreadSyncSimpleSkip, ThreadSyncDirectSkip,
// ThreadSyncQueue and SyncManager (sync/*.cc) with the real Link::send (link.cc).
// VF:ASSUME barriers separate the phases of the threads; the other threads' phases are run in the harness one after the other
// VF:ASSUME CheckpointAction::check, RealTimeManager and Exit::check are used by contract (C24, C06); no interactive console
// VF:ASSUME no 64-bit overflow of event times + latencies
// VF:BOUNDED exchanges of at most 2 events in each direction of one link between 2 threads; sync intervals over at most 3 links
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "verif_hash.h"
#include "sim_env.h"
#include "link.cc"
#include "initQueue.cc"
#include "event.cc"
#include "sst/core/linkPair.h"
#include "sync/threadSyncSimpleSkip.cc"
#include "sync/threadSyncDirectSkip.cc"
#include "sync/syncManager.cc"
using namespace SST;
namespace SST { Output Simulation::sim_output; Output Output::m_defaultObject; std::vector<Simulation*> Simulation::instanceVec_; }
struct RQ : public ActivityQueue {
    unsigned n = 0; Activity* a[4] = {}; uint64_t t[4] = {};
    bool empty() override { return n == 0; } int size() override { return n; }
    Activity* pop() override { CHECK("sync-does-not-pop", false); return nullptr; }
    void insert(Activity* x) override { if ( n < 4 ) { a[n] = x; t[n] = x->getDeliveryTime(); } n++; }
    Activity* front() override { return a[0]; }
};
struct TE : public Event { uint64_t payload; };
static TE* ev(uint64_t p) { TE* e = ::new (::operator new(sizeof(TE))) TE(); e->payload = p; return e; }
static RQ* rq() { return ::new (::operator new(sizeof(RQ))) RQ(); }
static uint64_t lmin;
static SimTime_t lmin_stub() { return lmin; }
static double wait_stub(Core::ThreadSafe::Barrier*) { return 0; }
static Simulation* setup(uint32_t ranks, uint32_t threads)
{
    Simulation* sim = vfsim::setup();
    sim->num_ranks.rank = ranks; sim->num_ranks.thread = threads; sim->my_rank.rank = 0; sim->my_rank.thread = 0;
    sim->interThreadMinLatency = vf::any<uint64_t>("min_latency");
    sim->interactive_ = nullptr;
    vf_use_contract((void*)&Simulation::getLocalMinimumNextActivityTime, (void*)&lmin_stub);
    vf_use_contract(vf::mfn(&Core::ThreadSafe::Barrier::wait), (void*)&wait_stub);
    return sim;
}
// --- one link between two threads: whatever order the two sides register in, events cross once, in order, at their own time
struct X { ThreadSyncSimpleSkip *s0, *s1; Link *LA, *RA, *LB, *RB; ActivityQueue *qa, *qb; RQ *ta, *tb; };
static X cross(Simulation* sim)
{
    X x;
    x.s0 = new ThreadSyncSimpleSkip(2, 0, sim); x.s1 = new ThreadSyncSimpleSkip(2, 1, sim);
    CHECK("first-sync-after-the-smallest-latency", x.s0->getNextSyncTime() == sim->interThreadMinLatency && x.s1->getNextSyncTime() == sim->interThreadMinLatency);
    LinkId_t id = vf::any<uint64_t>("id");
    LinkPair a(id), b(id);
    x.LA = a.getLeft(); x.RA = a.getRight(); x.LB = b.getLeft(); x.RB = b.getRight();
    x.LA->latency = vf::any<uint64_t>("lat_a"); x.LB->latency = vf::any<uint64_t>("lat_b");
    x.RA->latency = vf::any<uint64_t>("recv_lat_a"); x.RB->latency = vf::any<uint64_t>("recv_lat_b");
    // each side does (own sync, then the other thread's sync); the six interleavings
    unsigned o = vf::any<unsigned>("order") % 6;
#define A1 x.s0->registerLink(x.RA)
#define A2 x.qa = x.s1->registerRemoteLink(0, x.RA)
#define B1 x.s1->registerLink(x.RB)
#define B2 x.qb = x.s0->registerRemoteLink(1, x.RB)
    if ( o == 0 ) { A1; A2; B1; B2; } else if ( o == 1 ) { A1; B1; A2; B2; } else if ( o == 2 ) { A1; B1; B2; A2; }
    else if ( o == 3 ) { B1; A1; A2; B2; } else if ( o == 4 ) { B1; A1; B2; A2; } else { B1; B2; A1; A2; }
    CHECK("each-side-knows-the-other", x.LA->delivery_info == (uintptr_t)x.RB && x.LB->delivery_info == (uintptr_t)x.RA);
    CHECK("own-queue-per-sender", x.qa == x.s1->queues[0] && x.qb == x.s0->queues[1]);
    CHECK("nothing-left-to-match", x.s0->link_map.empty() && x.s1->link_map.empty());
    x.LA->send_queue = x.qa; x.LB->send_queue = x.qb;
    x.ta = rq(); x.tb = rq(); x.RA->send_queue = x.ta; x.RB->send_queue = x.tb;
    x.RA->setAsSyncLink(); x.RB->setAsSyncLink();
    x.RA->defaultTimeBase = 1; x.RB->defaultTimeBase = 1;
    x.RA->delivery_info = vf::any<uint64_t>("handler_a"); x.RB->delivery_info = vf::any<uint64_t>("handler_b");
    x.LA->mode = x.LB->mode = x.RA->mode = x.RB->mode = Link::RUN;
    return x;
}
HARNESS(exchange)
{
    vf_merge(false);
    Simulation* sim = setup(1, 2);
    X x = cross(sim);
    uint64_t now = sim->currentSimCycle, d1 = vf::any<uint64_t>("d1"), d2 = vf::any<uint64_t>("d2"), d3 = vf::any<uint64_t>("d3");
    TE *e1 = ev(1), *e2 = ev(2), *e3 = ev(3);
    x.LA->send(d1, TimeConverter(1), e1); x.LA->send(d2, TimeConverter(1), e2); x.LB->send(d3, TimeConverter(1), e3);
    uint64_t t1 = e1->getDeliveryTime(), t2 = e2->getDeliveryTime(), t3 = e3->getDeliveryTime();
    CHECK("sent-with-the-link-latency", t1 == now + d1 + x.LA->latency && t2 == now + d2 + x.LA->latency && t3 == now + d3 + x.LB->latency);
    CHECK("not-delivered-before-the-sync", x.ta->n == 0 && x.tb->n == 0);
    uint64_t ts = vf::any<uint64_t>("sync_time"); sim->currentSimCycle = ts;
    vf_assume(ts <= t1 && ts <= t2 && ts <= t3);
    x.s1->before();
    CHECK("delivered-once-each", x.tb->n == 2 && x.ta->n == 0 && x.tb->a[0] == e1 && x.tb->a[1] == e2);
    CHECK("original-time-plus-receive-latency", x.tb->t[0] == t1 + x.RB->latency && x.tb->t[1] == t2 + x.RB->latency);
    CHECK("for-the-receiver's-handler", e1->delivery_info == x.RB->delivery_info && e2->delivery_info == x.RB->delivery_info && e1->payload == 1 && e2->payload == 2);
    x.s0->before();
    CHECK("other-direction-too", x.ta->n == 1 && x.ta->a[0] == e3 && x.ta->t[0] == t3 + x.RA->latency && e3->delivery_info == x.RA->delivery_info);
    x.s1->before(); x.s0->before();
    CHECK("never-again", x.ta->n == 1 && x.tb->n == 2);
    CHECK("queues-empty", x.qa->empty() && x.qb->empty() && x.qa->size() == 0);
    // the next sync point
    lmin = vf::any<uint64_t>("earliest");
    x.s0->max_period = vf::any<uint64_t>("period");
    x.s0->after();
    uint64_t p = x.s0->max_period, n = x.s0->getNextSyncTime();
    CHECK("no-later-than-earliest-plus-latency", vf::implies(lmin <= ~0ull - p, n == lmin + p));
    CHECK("never-before-the-earliest-work", n >= lmin);
}
HARNESS(untimed)
{
    vf_merge(false);
    Simulation* sim = setup(1, 2);
    X x = cross(sim);
    TE *e1 = ev(1), *e2 = ev(2), *e3 = ev(3);
    e1->delivery_info = e2->delivery_info = (uintptr_t)x.RB; e3->delivery_info = (uintptr_t)x.RA;
    x.qa->insert(e1); x.qa->insert(e2); x.qb->insert(e3);
    x.s1->processLinkUntimedData();
    CHECK("delivered-once-in-order", x.tb->n == 2 && x.tb->a[0] == e1 && x.tb->a[1] == e2 && x.ta->n == 0);
    x.s0->processLinkUntimedData(); x.s0->processLinkUntimedData(); x.s1->processLinkUntimedData();
    CHECK("never-again", x.ta->n == 1 && x.ta->a[0] == e3 && x.tb->n == 2);
}
HARNESS(after_direct)
{
    Simulation* sim = setup(1, 2);
    ThreadSyncDirectSkip* s = new ThreadSyncDirectSkip(2, 0, sim);
    uint64_t lat = sim->interThreadMinLatency;
    CHECK("first-sync-after-the-smallest-latency", s->getNextSyncTime() == lat);
    vf_assume(sim->currentSimCycle <= ~0ull - lat);
    s->after();
    CHECK("no-later-than-now-plus-latency", s->getNextSyncTime() == sim->currentSimCycle + lat);
}
HARNESS(execute_simple)      // a full exchange: deliver, then choose the next sync
{
    vf_merge(false);
    Simulation* sim = setup(1, 2);
    X x = cross(sim);
    TE* e1 = ev(1); uint64_t d1 = vf::any<uint64_t>("d1");
    x.LA->send(d1, TimeConverter(1), e1); uint64_t t1 = e1->getDeliveryTime();
    sim->currentSimCycle = vf::any<uint64_t>("sync_time"); vf_assume(sim->currentSimCycle <= t1);
    lmin = vf::any<uint64_t>("earliest"); uint64_t p = x.s1->max_period;
    vf_assume(lmin <= ~0ull - p);
    x.s1->execute();
    CHECK("delivered", x.tb->n == 1 && x.tb->a[0] == e1 && x.tb->t[0] == t1 + x.RB->latency);
    CHECK("next-sync", x.s1->getNextSyncTime() == lmin + p);
}
static unsigned upto(const char* nm, unsigned m) { unsigned k = vf::any<unsigned>(nm) % (m + 1); for ( unsigned j = 0; j < m; j++ ) if ( k == j ) return j; return m; }
HARNESS(sync_interval)
{
    vf_merge(false);
    Simulation* sim = setup(1, 2);
    ThreadSyncSimpleSkip* s = new ThreadSyncSimpleSkip(2, 0, sim);
    unsigned n = upto("links", 3); uint64_t best = ~0ull;
    for ( unsigned k = 0; k < 3; k++ ) if ( k < n ) {
        Link* l = vf::raw_object<Link>("link"); Link* r = vf::raw_object<Link>("remote");
        l->latency = vf::any<uint64_t>("latency"); r->latency = vf::any<uint64_t>("recv_latency"); l->delivery_info = (uintptr_t)r;
        vf_assume(l->latency <= ~0ull - r->latency);
        uint64_t t = l->latency + r->latency; if ( t < best ) best = t;
        s->link_vec.push_back(l);
    }
    uint64_t other = vf::any<uint64_t>("other_thread"), first = ThreadSync::updateMinimumLatency(other);
    uint64_t got = s->findSyncInterval();
    uint64_t want = first < best ? first : best;
    CHECK("smallest-total-latency-of-any-thread", got == want && got <= other);
    CHECK("links-forgotten", s->link_vec.empty());
    CHECK("stays-the-minimum", ThreadSync::updateMinimumLatency() == want);
}
// --- the manager: recording syncs
static char logv[64]; static unsigned nlog; static uint64_t t_rank, t_thread, t_ckpt, t_ckpt_arg; static int ends; static uint64_t per; static bool gen_flag;
static void rec(char c) { if ( nlog < 64 ) logv[nlog] = c; nlog++; }
static int first_of(char c) { for ( unsigned k = 0; k < nlog && k < 64; k++ ) if ( logv[k] == c ) return (int)k; return -1; }
static unsigned count_of(char c) { unsigned r = 0; for ( unsigned k = 0; k < nlog && k < 64; k++ ) if ( logv[k] == c ) r++; return r; }
static bool barrier_between(int a, int b) { for ( int k = a + 1; k < b; k++ ) if ( logv[k] == 'B' ) return true; return false; }
struct RS : public RankSync {
    RS() : RankSync(RankInfo(1, 1)) {}
    ActivityQueue* registerLink(const RankInfo&, const RankInfo&, Link*) override { rec('R'); return nullptr; }
    void execute(int) override { rec('x'); } void exchangeLinkUntimedData(int, std::atomic<int>&) override { rec('u'); }
    void finalizeLinkConfigurations() override { rec('f'); } void prepareForComplete() override { rec('p'); }
    void setSignals(int, int, int) override {} bool getSignals(int& a, int& b, int& c) override { a = b = c = 0; return false; }
    void setShutdownFlags(bool, Simulation::ShutdownMode_t) override {} void setCkptFlag(bool) override {}
    void setFlags(bool, bool, Simulation::ShutdownMode_t) override {} void getShutdownFlags(bool&, Simulation::ShutdownMode_t&) override {}
    void getCkptFlag(bool& g) override { g = gen_flag; } void getFlags(bool&, bool&, Simulation::ShutdownMode_t&) override {} void clearFlags() override {}
    SimTime_t getNextSyncTime() override { return t_rank; } uint64_t getDataSize() const override { return 0; }
};
struct TS : public ThreadSync {
    void before() override { rec('b'); } void after() override { rec('a'); t_thread = vf::any<uint64_t>("thread_after"); } void execute() override { rec('t'); t_thread = vf::any<uint64_t>("thread_exec"); }
    void processLinkUntimedData() override { rec('l'); } void finalizeLinkConfigurations() override { rec('F'); } void prepareForComplete() override { rec('P'); }
    void setSignals(int, int, int) override {} bool getSignals(int& a, int& b, int& c) override { a = b = c = 0; return false; }
    void setShutdownFlags(bool, Simulation::ShutdownMode_t) override {} void setFlags(bool, bool, Simulation::ShutdownMode_t) override {}
    void getShutdownFlags(bool&, Simulation::ShutdownMode_t&) override {} void getFlags(bool&, bool&, Simulation::ShutdownMode_t&) override {} void clearFlags() override {}
    SimTime_t getNextSyncTime() override { return t_thread; }
    void registerLink(Link* l) override { reg = l; rec('L'); } ActivityQueue* registerRemoteLink(int tid, Link* l) override { rem = l; rtid = tid; rec('M'); return q; }
    SimTime_t findSyncInterval() override { return per; }
    Link *reg = nullptr, *rem = nullptr; int rtid = -1; ActivityQueue* q = nullptr;
};
static double rec_wait(Core::ThreadSafe::Barrier*) { rec('B'); return 0; }
static SimTime_t check_stub(CheckpointAction*, SimTime_t now) { rec('c'); t_ckpt_arg = now; return t_ckpt; }
static SimTime_t next_ckpt_stub(CheckpointAction* c) { return c->next_sim_time_; }
static bool get_ckpt(CheckpointAction* c) { return c->generate_; }
static void set_ckpt(CheckpointAction* c) { c->generate_ = true; }
static unsigned ref_stub(Exit* e) { return e->ref_count_; }
static void exit_stub(Exit*) { rec('e'); }
static bool sig_stub(RealTimeManager*, int&, int&, int&) { return false; }
static TS* ts; static RS* rs; static Exit* ex; static CheckpointAction* ck;
static SyncManager* manager(uint32_t ranks, uint32_t threads, uint32_t thread)
{
    Simulation* sim = setup(ranks, threads);
    nlog = 0; ends = 0; t_rank = vf::any<uint64_t>("next_rank"); t_thread = vf::any<uint64_t>("next_thread"); t_ckpt = vf::any<uint64_t>("next_ckpt"); gen_flag = vf::any<bool>("gen");
    vf_use_contract(vf::mfn(&Core::ThreadSafe::Barrier::wait), (void*)&rec_wait);
    vf_use_contract(vf::mfn(&CheckpointAction::check), (void*)&check_stub);
    vf_use_contract(vf::mfn(&Exit::check), (void*)&exit_stub);
    vf_use_contract(vf::mfn(&RealTimeManager::getSignals), (void*)&sig_stub);
    vf_use_contract(vf::mfn(&CheckpointAction::getCheckpoint), (void*)&get_ckpt);
    vf_use_contract(vf::mfn(&CheckpointAction::setCheckpoint), (void*)&set_ckpt);
    vf_use_contract(vf::mfn(&Exit::getRefCount), (void*)&ref_stub);
    vf_use_contract(vf::mfn(&CheckpointAction::getNextCheckpointSimTime), (void*)&next_ckpt_stub);
    SyncManager* m = vf::raw_object<SyncManager>("manager");
    m->sim_ = sim; m->rank_.rank = 0; m->rank_.thread = thread; m->num_ranks_.rank = ranks; m->num_ranks_.thread = threads;
    m->profile_tools_ = nullptr; m->min_part_ = vf::any<uint64_t>("min_part");
    m->exit_ = ex = vf::raw_object<Exit>("exit"); m->checkpoint_ = ck = vf::raw_object<CheckpointAction>("ckpt"); m->real_time_ = vf::raw_object<RealTimeManager>("rt");
    ck->generate_ = vf::any<bool>("generate"); 
    m->setDeliveryTime(sim->currentSimCycle);
    ts = ::new (::operator new(sizeof(TS))) TS(); rs = ::new (::operator new(sizeof(RS))) RS();
    m->threadSync_ = ts; SyncManager::rankSync_ = rs;
    return m;
}
// the manager is next at the earliest of the two syncs and the checkpoint, and knows which kind of sync is then due
static void next_is(SyncManager* m, uint64_t r, uint64_t t, uint64_t c, uint32_t ranks)
{
    CHECK("next-is-the-earliest", vfsim::n_ins == 1 && vfsim::ins[0].a == m && vfsim::ins[0].t <= r && vfsim::ins[0].t <= t && vfsim::ins[0].t <= c && (vfsim::ins[0].t == r || vfsim::ins[0].t == t || vfsim::ins[0].t == c));
    uint64_t at = vfsim::ins[0].t;
    bool rank = m->next_sync_type_ == SyncManager::RANK;
    CHECK("a-due-rank-sync-is-done", vf::implies(at == r, rank || (c < r && c < t && ranks == 1)));
    CHECK("checkpoint-on-all-ranks", vf::implies(at == c && c < r && c < t, rank == (ranks > 1)));
    CHECK("otherwise-thread-sync", vf::implies(at == t && t < r && !(c < t), !rank));
}
HARNESS(next_insert)
{
    vf_merge(false);
    uint32_t ranks; if ( vf::any<bool>("several_ranks") ) ranks = 2; else ranks = 1;
    SyncManager* m = manager(ranks, 2, 0);
    m->computeNextInsert(t_ckpt);
    next_is(m, t_rank, t_thread, t_ckpt, ranks);
}
HARNESS(execute_rank)
{
    vf_merge(false);
    uint32_t th; if ( vf::any<bool>("thread0") ) th = 0; else th = 1;
    SyncManager* m = manager(2, 2, th);
    uint64_t now = vfsim::sim->currentSimCycle;
    m->next_sync_type_ = SyncManager::RANK;
    uint32_t gc = ex->global_count_; uint64_t et = ex->end_time_;
    m->SyncManager::execute();
    int b = first_of('b'), x = first_of('x'), a = first_of('a');
    CHECK("thread-events-first-then-ranks-then-next-time", count_of('b') == 1 && count_of('x') == 1 && count_of('a') == 1 && count_of('t') == 0 && b >= 0 && b < x && x < a);
    CHECK("all-threads-arrived-before-each-step", barrier_between(-1, b) && barrier_between(b, x) && barrier_between(x, a));
    CHECK("exit-decided-by-thread-0-after-the-exchange", count_of('e') == (th == 0 ? 1u : 0u));
    if ( th == 0 ) CHECK("exit-after-exchange", first_of('e') > x);
    CHECK("ends-iff-all-done", vfsim::n_end == (gc == 0 ? 1u : 0u));
    if ( gc == 0 ) CHECK("ends-at-the-end-time", vfsim::end_at == et);
    CHECK("checkpoint-checked-now", count_of('c') == 1 && t_ckpt_arg == now && first_of('c') > x);
    CHECK("checkpoint-request-shared", vf::implies(gen_flag, ck->generate_));
    next_is(m, t_rank, t_thread, t_ckpt, 2);
}
HARNESS(execute_thread)
{
    vf_merge(false);
    uint32_t ranks; if ( vf::any<bool>("several_ranks") ) ranks = 2; else ranks = 1;
    uint32_t th; if ( vf::any<bool>("thread0") ) th = 0; else th = 1;
    SyncManager* m = manager(ranks, 2, th);
    uint64_t now = vfsim::sim->currentSimCycle;
    m->next_sync_type_ = SyncManager::THREAD;
    uint32_t rc = ex->ref_count_; uint64_t et = ex->end_time_;
    bool last = m->min_part_ == MAX_SIMTIME_T && rc == 0;
    m->SyncManager::execute();
    CHECK("exchanged-once", count_of('t') == 1 && count_of('x') == 0 && count_of('b') == 0);
    CHECK("ends-iff-no-ranks-to-wait-for-and-all-done", vfsim::n_end == (last ? 1u : 0u));
    if ( last ) CHECK("ends-at-the-end-time", vfsim::end_at == et);
    if ( ranks == 1 ) CHECK("checkpoint-checked-now", count_of('c') == 1 && t_ckpt_arg == now);
    else CHECK("checkpoint-only-at-rank-syncs", count_of('c') == 0);
    next_is(m, t_rank, t_thread, ranks == 1 ? t_ckpt : MAX_SIMTIME_T, ranks);
}
HARNESS(untimed_round)
{
    vf_merge(false);
    SyncManager* m = manager(2, 2, 0);
    std::atomic<int> n(3);
    m->exchangeLinkUntimedData(n);
    int l = first_of('l'), u = first_of('u');
    CHECK("thread-data-then-rank-data", count_of('l') == 1 && count_of('u') == 1 && l < u && barrier_between(-1, l) && barrier_between(l, u) && barrier_between(u, (int)nlog));
}
HARNESS(finalize)
{
    vf_merge(false);
    uint32_t ranks; if ( vf::any<bool>("several_ranks") ) ranks = 2; else ranks = 1;
    uint32_t nt; if ( vf::any<bool>("several_threads") ) nt = 2; else nt = 1;
    SyncManager* m = manager(ranks, nt, 0);
    bool with; if ( vf::any<bool>("with_ckpt") ) with = true; else { with = false; m->checkpoint_ = nullptr; }
    uint64_t c = with ? ck->next_sim_time_ : MAX_SIMTIME_T;
    m->finalizeLinkConfigurations();
    CHECK("both-finalised", count_of('F') == 1 && count_of('f') == 1);
    if ( ranks == 1 && nt == 1 ) CHECK("no-sync-when-serial", vfsim::n_ins == 0);
    else next_is(m, t_rank, t_thread, c, ranks);
}
HARNESS(register_link)
{
    vf_merge(false);
    SyncManager* m = manager(2, 2, 0);
    Simulation* other = vf::raw_object<Simulation>("other");
    SyncManager* m1 = vf::raw_object<SyncManager>("manager1");
    TS* t1 = ::new (::operator new(sizeof(TS))) TS(); RQ* q = rq(); t1->q = q;
    m1->threadSync_ = t1; other->syncManager = m1;
    Simulation::instanceVec_.clear(); Simulation::instanceVec_.push_back(vfsim::sim); Simulation::instanceVec_.push_back(other);
    Link* l = vf::raw_object<Link>("link");
    ActivityQueue* r = m->registerLink(RankInfo(0, 1), RankInfo(0, 0), l);
    CHECK("both-threads-told", r == q && ts->reg == l && t1->rem == l && t1->rtid == 0 && count_of('R') == 0);
    m->registerLink(RankInfo(1, 0), RankInfo(0, 0), l);
    CHECK("other-rank-through-the-rank-sync", count_of('R') == 1 && count_of('L') == 1 && count_of('M') == 1);
}
HARNESS(thread_interval)
{
    vf_merge(false);
    SyncManager* m = manager(1, 2, 0);
    per = vf::any<uint64_t>("interval");
    uint64_t got = m->findThreadSyncInterval();
    CHECK("interval-used", got == per && m->threadSync_->getMaxPeriod() == per);
    if ( per == MAX_SIMTIME_T ) CHECK("no-links-no-sync", m->threadSync_ != ts && m->threadSync_->getNextSyncTime() == MAX_SIMTIME_T);
    else CHECK("same-sync", m->threadSync_ == ts);
}
// --- which kind of synchronisation a partition needs
HARNESS(choose_sync)
{
    vf_merge(false);
    uint32_t nt; if ( vf::any<bool>("several_threads") ) nt = 2; else nt = 1;
    SyncManager* m = manager(1, nt, 1);
    bool direct; if ( vf::any<bool>("direct") ) direct = true; else direct = false;
    vfsim::sim->direct_interthread = direct;
    uint64_t lat = vfsim::sim->interThreadMinLatency;
    m->setupSyncObjects();
    uint64_t n = m->threadSync_->getNextSyncTime();
    bool simple = dynamic_cast<ThreadSyncSimpleSkip*>(m->threadSync_) != nullptr, dir = dynamic_cast<ThreadSyncDirectSkip*>(m->threadSync_) != nullptr;
    CHECK("kind", (simple || dir) == (nt > 1 && lat != MAX_SIMTIME_T) && (!simple || !direct) && (!dir || direct));
    uint64_t interval = m->findThreadSyncInterval();
    CHECK("synchronised-iff-threads-share-links", n == (nt > 1 ? lat : MAX_SIMTIME_T));
    if ( direct && nt > 1 ) CHECK("direct-links-are-synchronised-too", interval == lat && m->threadSync_->getNextSyncTime() == lat);
}
