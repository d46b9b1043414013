// Contracts for wiring the links of a thread (Simulation::prepareLinks, processGraphInfo): one link end per configured end of
// this thread, paired with the right partner, with the latency of its sender on its configured port; lookahead between threads.
// VF:ASSUME SyncManager::registerLink by contract (C21); two threads wire one after the other (prepareLinks holds a lock on the shared map)
// VF:BOUNDED graphs of 3 components (one with a subcomponent) and 1 or 2 links; lookahead over at most 2 links
#undef SST_CORE_VERIF   // maps of known size: no loop is cut here
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "verif_hash.h"
#define VF_REAL_SIMULATION
#include "sim_env.h"
#include "simulation.cc"
#include "componentInfo.cc"
#include "link.cc"
#include "event.cc"
#include "initQueue.cc"
#include "params.cc"
#include "sst/core/linkPair.h"
#include "model/configComponent.cc"
#include "model/configLink.cc"
using namespace SST;
static unsigned upto(const char* name, unsigned m) { unsigned v = vf::any<uint8_t>(name) % (m + 1); for ( unsigned k = 0; k < m; k++ ) if ( v == k ) return k; return m; }
static bool fork(const char* name) { if ( vf::any<bool>(name) ) return true; return false; }
static Simulation* sim; static ConfigGraph* g; static ConfigComponent *c[3], *sub; static ConfigLink* l[2]; static unsigned e[2][2]; static uint64_t lat[2][2];
static const char* ports[2][2] = { { "p0", "q0" }, { "p1", "q1" } };
static RankInfo me, job;
static unsigned n_reg; static RankInfo reg_to, reg_from; static Link* reg_link; static ActivityQueue* reg_q;
static uint64_t sm_min; static std::vector<SimTime_t>* sm_lat; static unsigned n_sm;
static uint32_t pos(uint32_t i) { return i; }
ActivityQueue* SyncManager::registerLink(const RankInfo& to, const RankInfo& from, Link* x) { n_reg++; reg_to = to; reg_from = from; reg_link = x; return reg_q; }
SyncManager::SyncManager(const RankInfo& r, const RankInfo& n, SimTime_t m, const std::vector<SimTime_t>& t, RealTimeManager*) { n_sm++; sm_min = m; CHECK("sync-manager-for-this-thread", r == me && n == job); }
TimeConverter TimeLord::getTimeConverter(SimTime_t c) { return TimeConverter(c); }
static bool no_direct;
static void state()
{
    sim = vfsim::setup(); n_reg = n_sm = 0; reg_q = (ActivityQueue*)::operator new(64);
    ::new (&sim->compInfoMap) ComponentInfoMap(); ::new (&sim->interThreadLatencies) std::vector<SimTime_t>();
    ::new (&sim->profiler_map) std::map<std::string, std::vector<std::string>>();
    VF_ONLY_PROOF(::new (&Simulation::cross_thread_links) decltype(Simulation::cross_thread_links)();)
    Simulation::cross_thread_links.clear();
    sim->my_rank = me; sim->num_ranks = job;
    sim->syncManager = (SyncManager*)::operator new(sizeof(SyncManager));
    if ( no_direct ) sim->direct_interthread = false; else sim->direct_interthread = fork("direct");
}
static void graph(unsigned n_links)
{
    g = vf::raw_object<ConfigGraph>("graph");
    ::new (&g->comps_) ConfigComponentMap_t(); ::new (&g->links_) ConfigLinkMap_t();
    for ( unsigned i = 0; i < 3; i++ ) { c[i] = new ConfigComponent(i, g, "c", "t", 1.0f, RankInfo(0, 0)); g->comps_.data.push_back(c[i]); }
    sub = new ConfigComponent(SUBCOMPONENT_ID_CREATE(1, 1), g, 1, "slot", 0, "t", 1.0f, RankInfo(0, 0)); c[1]->subComponents.push_back(sub);
    for ( unsigned k = 0; k < n_links; k++ ) { l[k] = new ConfigLink(); l[k]->id_ = 7 + k; g->links_.data.push_back(l[k]); }
}
static void place(unsigned i, uint32_t r, uint32_t t) { c[i]->rank = RankInfo(r, t); if ( i == 1 ) sub->rank = c[1]->rank; }
static void link(unsigned k, unsigned a, unsigned b)
{
    unsigned at[2] = { a, b };
    for ( int s = 0; s < 2; s++ ) {
        ConfigComponent* x = at[s] == 3 ? sub : c[at[s]];
        e[k][s] = at[s]; l[k]->component_[s] = x->id; l[k]->port_[s] = ports[k][s]; l[k]->latency_[s] = lat[k][s] = vf::any<uint64_t>("latency");
    }
}
static unsigned comp_of(unsigned a) { return a == 3 ? 1 : a; }
static Link* at(unsigned a, const char* port)
{
    ComponentInfo* i = sim->compInfoMap.getByID(a == 3 ? sub->id : a);
    CHECK("component-known", i != nullptr); if ( !i ) vf_assume(false);
    return i->getLinkMap()->getLink(port);
}
static unsigned n_ends(unsigned a) { ComponentInfo* i = sim->compInfoMap.getByID(a == 3 ? sub->id : a); return i ? i->getLinkMap()->getLinkMap().size() : 0; }
// where the two ends of link 0 lie, as seen from this thread
static void wire(unsigned a, unsigned b)
{
    me = RankInfo(1, 1); job = RankInfo(3, 3);
    state(); graph(1);
    unsigned where[2]; unsigned ca = comp_of(a), cb = comp_of(b);
    for ( int i = 0; i < 3; i++ ) place(i, 2, 2);
    for ( int s = 0; s < 2; s++ ) {
        if ( s && ca == cb ) { where[1] = where[0]; break; }
        where[s] = upto("where", 3);     // here, other thread here, same thread elsewhere, elsewhere
        place(s ? cb : ca, where[s] < 2 ? 1 : 0, where[s] == 0 || where[s] == 2 ? 1 : 2);
    }
    link(0, a, b);
    sim->prepareLinks(*g, me, 0);
    unsigned n_here = 0;
    for ( unsigned i = 0; i < 3; i++ ) { bool here = c[i]->rank == me; n_here += here; CHECK("components-of-this-thread-only", (sim->compInfoMap.getByID(i) != nullptr) == here); }
    CHECK("no-other-components", sim->compInfoMap.size() == n_here);
    bool h0 = where[0] == 0, h1 = where[1] == 0;
    CHECK("no-sync-needed-here", h0 != h1 || n_reg == 0);
    if ( h0 && h1 ) {
        Link *x = at(a, "p0"), *y = at(b, "q0");
        CHECK("both-ends", x && y && x != y); if ( !x || !y ) vf_assume(false);
        CHECK("paired", x->pair_link == y && y->pair_link == x && x->id == 7 && y->id == 7);
        CHECK("latency-of-the-sender", x->latency == lat[0][0] && y->latency == lat[0][1]);
        for ( unsigned i = 0; i < 4; i++ ) CHECK("one-end-per-port", n_ends(i) == (i == a) + (i == b));
    }
    else if ( h0 || h1 ) {
        int s = h0 ? 0 : 1; unsigned near = s ? b : a, far = s ? a : b;
        Link* x = at(near, ports[0][s]);
        CHECK("own-end", x != nullptr); if ( !x ) vf_assume(false);
        CHECK("own-latency", x->latency == lat[0][s] && x->id == 7);
        for ( unsigned i = 0; i < 4; i++ ) CHECK("one-end-here", n_ends(i) == (i == near));
        bool direct = sim->direct_interthread && where[1 - s] == 1;
        CHECK("through-the-sync-unless-direct", n_reg == (direct ? 0 : 1));
        if ( !direct ) {
            CHECK("registered-with-the-other-position", reg_to == c[comp_of(far)]->rank && reg_from == me);
            CHECK("sync-gets-the-other-end", reg_link == x->pair_link && reg_link->pair_link == x && reg_link->type == Link::SYNC && reg_link->latency == 0 && reg_link->defaultTimeBase == 1);
            CHECK("sends-to-the-sync", x->send_queue == reg_q);
        }
        else CHECK("waits-for-the-other-thread", Simulation::cross_thread_links.size() == 1 && Simulation::cross_thread_links[7] == x);
    }
    else for ( unsigned i = 0; i < 4; i++ ) CHECK("nothing-here", n_ends(i) == 0);
}
HARNESS(wire_0_1) { vf_merge(false); wire(0, 1); }
HARNESS(wire_sub_2) { vf_merge(false); wire(3, 2); }
HARNESS(wire_same) { vf_merge(false); wire(1, 3); }
HARNESS(wire_one_component) { vf_merge(false); wire(2, 2); }
// a link from a port to itself
HARNESS(wire_loopback)
{
    vf_merge(false);
    me = RankInfo(1, 1); job = RankInfo(3, 3);
    state(); graph(1); for ( int i = 0; i < 3; i++ ) place(i, 1, i == 1 ? 1 : 0);
    link(0, 3, 3); l[0]->port_[1] = "p0"; l[0]->latency_[1] = l[0]->latency_[0];
    sim->prepareLinks(*g, me, 0);
    Link* x = at(3, "p0");
    CHECK("own-partner", x && x->pair_link == x && x->latency == lat[0][0] && n_ends(3) == 1 && n_reg == 0);
}
// direct links between threads: whichever thread wires first, both ends become one pair
HARNESS(wire_direct)
{
    vf_merge(false);
    me = RankInfo(1, 1); job = RankInfo(3, 3);
    state(); sim->direct_interthread = true; graph(2); place(0, 1, 1); place(1, 1, 2); place(2, 1, 1);
    unsigned a0, b0, a1, b1; if ( fork("swap0") ) { a0 = 3; b0 = 0; } else { a0 = 0; b0 = 3; } if ( fork("swap1") ) { a1 = 2; b1 = 1; } else { a1 = 1; b1 = 2; }
    link(0, a0, b0); link(1, a1, b1);
    bool other; if ( fork("other_first") ) other = true; else other = false;
    Simulation* s1 = sim; RankInfo m1 = me, m2(1, 2);
    me = m2; Simulation* s2 = vf::raw_object<Simulation>("sim2"); ::new (&s2->compInfoMap) ComponentInfoMap(); s2->my_rank = m2; s2->num_ranks = job; s2->direct_interthread = true; s2->syncManager = s1->syncManager;
    if ( other ) { s2->prepareLinks(*g, m2, 0); s1->prepareLinks(*g, m1, 0); } else { s1->prepareLinks(*g, m1, 0); s2->prepareLinks(*g, m2, 0); }
    Link *x[2], *y[2];
    sim = s1; x[0] = at(0, ports[0][a0 == 3]); x[1] = at(2, ports[1][a1 == 1]);
    sim = s2; y[0] = at(3, ports[0][a0 != 3]); y[1] = at(1, ports[1][a1 != 1]);
    for ( int k = 0; k < 2; k++ ) {
        CHECK("both-ends", x[k] && y[k]); if ( !x[k] || !y[k] ) vf_assume(false);
        CHECK("paired-across-threads", x[k]->pair_link == y[k] && y[k]->pair_link == x[k]);
        int s = k == 0 ? a0 == 3 : a1 == 1;
        CHECK("latency-of-the-sender", x[k]->latency == lat[k][s] && y[k]->latency == lat[k][1 - s]);
    }
    CHECK("nothing-left-over", Simulation::cross_thread_links.empty() && n_reg == 0);
}
// a link whose other end is on another rank (after splitting)
HARNESS(wire_remote)
{
    vf_merge(false);
    me = RankInfo(1, 1); job = RankInfo(3, 3);
    state(); graph(1); bool here; if ( fork("here") ) here = true; else here = false;
    for ( int i = 0; i < 3; i++ ) place(i, 1, i == 1 && here ? 1 : 0);
    link(0, 3, 0); l[0]->port_[1] = ""; l[0]->nonlocal_ = true; l[0]->component_[1] = vf::any<uint32_t>("rank"); l[0]->latency_[1] = vf::any<uint32_t>("thread");
    uint32_t r = l[0]->component_[1], t = l[0]->latency_[1]; vf_assume(r != 1);
    sim->prepareLinks(*g, me, 0);
    CHECK("registered-iff-here", n_reg == (here ? 1 : 0));
    if ( !here ) return;
    Link* x = at(3, "p0");
    CHECK("own-end", x && x->latency == lat[0][0] && n_ends(3) == 1 && x->send_queue == reg_q);
    CHECK("registered-with-the-other-position", reg_to.rank == r && reg_to.thread == t && reg_from == me && reg_link == x->pair_link && reg_link->pair_link == x && reg_link->latency == 0);
}
// --- the lookahead
static void lookahead(unsigned n_links, bool remote)
{
    job = RankInfo(2, 3);
    unsigned mt = upto("my_thread", 1); me = RankInfo(1, mt);
    no_direct = true; state(); no_direct = false; graph(n_links);
    for ( int i = 0; i < 3; i++ ) { uint32_t r; if ( i < 2 && fork("other_rank") ) r = 0; else r = 1; unsigned t = upto("thread", i == 2 ? 0 : 2); place(i, r, t); }
    link(0, 0, 3); if ( n_links > 1 ) link(1, 2, 0);
    if ( remote ) { l[0]->nonlocal_ = true; l[0]->component_[1] = 0; l[0]->latency_[1] = 1; }
    uint64_t mp = vf::any<uint64_t>("min_part"), w[3] = { ~0ull, ~0ull, ~0ull }, all = ~0ull; bool crosses = false;
    Simulation::minPart = 5;
    sim->processGraphInfo(*g, me, mp);
    for ( unsigned k = 0; k < n_links; k++ ) {
        if ( k == 0 && remote ) continue;
        RankInfo &x = c[comp_of(e[k][0])]->rank, &y = c[comp_of(e[k][1])]->rank;
        if ( x.rank != 1 || y.rank != 1 || x.thread == y.thread ) continue;
        crosses = true; uint64_t m = lat[k][0] < lat[k][1] ? lat[k][0] : lat[k][1];
        all = m < all ? m : all;
        if ( x.thread == mt && m < w[y.thread] ) w[y.thread] = m;
        if ( y.thread == mt && m < w[x.thread] ) w[x.thread] = m;
    }
    CHECK("smallest-latency-between-threads", sim->interThreadMinLatency == all);
    CHECK("one-entry-per-thread", sim->interThreadLatencies.size() == 3);
    for ( int i = 0; i < 3; i++ ) CHECK("smallest-latency-to-each-thread", sim->interThreadLatencies[i] == w[i]);
    CHECK("one-sync-manager", n_sm == 1 && sm_min == mp);
    CHECK("independent-iff-nothing-crosses", sim->independent == (mp == MAX_SIMTIME_T && !crosses));
    if ( mt == 0 ) CHECK("lookahead-between-ranks", Simulation::minPart == mp); else CHECK("only-thread-0-sets-it", Simulation::minPart == 5);
}
HARNESS(lookahead_one) { vf_merge(false); lookahead(1, false); }
HARNESS(lookahead_two) { vf_merge(false); lookahead(2, false); }
HARNESS(lookahead_remote) { vf_merge(false); lookahead(2, true); }
