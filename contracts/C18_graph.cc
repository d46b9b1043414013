// Contracts for the partition graph (model/configGraph.cc): no-cut links are never crossed, every component gets the position of
// the one group it belongs to, bad positions are refused and the crossing flags of links are right.
// VF:BOUNDED graphs of 3 components (one with a subcomponent) and at most 3 links, two of them with any ends; any weights, latencies, positions and no-cut marks
#undef SST_CORE_VERIF   // maps of known size: no loop is cut here
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sst/core/simulation.h"
#include "model/configGraph.cc"
#include "model/configLink.cc"
#include "model/configComponent.cc"
using namespace SST;
namespace SST { Output Output::m_defaultObject; Output Simulation::sim_output; }
static unsigned upto(const char* name, unsigned m) { unsigned v = vf::any<uint8_t>(name) % (m + 1); for ( unsigned k = 0; k < m; k++ ) if ( v == k ) return k; return m; }
static ConfigGraph* g; static ConfigComponent *c[3], *sub; static ConfigLink* l[4]; static unsigned e[4][2]; static bool nc[4];
static ConfigComponent* comp(uint64_t id)
{
    ConfigComponent* x = vf::raw_object<ConfigComponent>("component");
    ::new (&x->links) std::vector<LinkId_t>(); ::new (&x->subComponents) std::vector<ConfigComponent*>(); x->id = id;
    uint32_t w = vf::any_in<uint32_t>("weight", 0, 1000); x->weight = w;
    return x;
}
// end 0-2: the components; 3: the subcomponent of component 1
static void end(unsigned k, int s, unsigned at)
{
    ConfigComponent* x = at == 3 ? sub : c[at];
    l[k]->component_[s] = x->id; e[k][s] = at == 3 ? 1 : at;
    if ( s == 0 || l[k]->component_[0] != x->id ) x->links.push_back(l[k]->id_);
}
static void graph(unsigned n_links)
{
    g = vf::raw_object<ConfigGraph>("graph");
    ::new (&g->comps_) ConfigComponentMap_t(); ::new (&g->links_) ConfigLinkMap_t();
    uint64_t first; if ( vf::any<bool>("first_is_1") ) first = 1; else first = 0;
    for ( unsigned i = 0; i < 3; i++ ) { c[i] = comp(first + i); g->comps_.data.push_back(c[i]); }
    sub = comp(SUBCOMPONENT_ID_CREATE(c[1]->id, 1)); c[1]->subComponents.push_back(sub);
    for ( unsigned k = 0; k < n_links; k++ ) {
        l[k] = vf::raw_object<ConfigLink>("link"); l[k]->id_ = k; l[k]->nonlocal_ = false; l[k]->cross_rank_ = l[k]->cross_thread_ = false;
        g->links_.data.push_back(l[k]);
    }
}
static void fixed_link(unsigned k, unsigned a, unsigned b) { end(k, 0, a); end(k, 1, b); if ( vf::any<bool>("no_cut") ) nc[k] = true; else nc[k] = false; l[k]->no_cut_ = nc[k]; }
static void any_link(unsigned k, int which = -1)
{
    switch ( which >= 0 ? (unsigned)which : upto("ends", 5) ) {
    case 0: fixed_link(k, 0, 1); break;
    case 1: fixed_link(k, 2, 3); break;
    case 2: fixed_link(k, 3, 0); break;
    case 3: fixed_link(k, 1, 3); break;
    case 4: fixed_link(k, 1, 1); break;
    default: fixed_link(k, 2, 0); break;
    }
}
static void collapse(unsigned n_links)
{
    // the groups no-cut links force
    unsigned root[3] = { 0, 1, 2 };
    for ( int it = 0; it < 2; it++ ) for ( unsigned k = 0; k < n_links; k++ ) if ( nc[k] ) { unsigned a = root[e[k][0]], b = root[e[k][1]], m = a < b ? a : b; for ( int i = 0; i < 3; i++ ) if ( root[i] == a || root[i] == b ) root[i] = m; }
    unsigned n_groups = 0; for ( unsigned i = 0; i < 3; i++ ) n_groups += root[i] == i;
    float weight[3]; for ( int i = 0; i < 3; i++ ) weight[i] = c[i]->weight;
    PartitionGraph* p = g->getCollapsedPartitionGraph();
    CHECK("one-part-per-group", p->comps_.data.size() == n_groups);
    PartitionComponent* of[3] = {};
    for ( unsigned j = 0; j < p->comps_.data.size() && j < 3; j++ ) {
        PartitionComponent* pc = p->comps_.data[j];
        CHECK("parts-in-key-order", pc->id == j);
        float w = 0;
        for ( unsigned i = 0; i < 3; i++ ) if ( pc->group.contains(c[i]->id) ) { CHECK("in-one-group-only", of[i] == nullptr); of[i] = pc; w = w + weight[i]; }
        CHECK("weight-of-the-group", memcmp(&w, &pc->weight, 4) == 0);
    }
    for ( unsigned i = 0; i < 3; i++ ) { CHECK("in-some-group", of[i] != nullptr); if ( !of[i] ) vf_assume(false); }
    for ( unsigned i = 0; i < 3; i++ ) for ( unsigned j = 0; j < 3; j++ ) CHECK("together-iff-joined-by-no-cut-links", (of[i] == of[j]) == (root[i] == root[j]));
    unsigned n_cut = 0;
    for ( unsigned k = 0; k < n_links; k++ ) {
        bool cut = of[e[k][0]] != of[e[k][1]]; n_cut += cut;
        CHECK("link-kept-iff-between-groups", p->links_.contains(k) == cut);
        if ( !cut ) continue;
        PartitionLink& pl = p->links_[k];
        CHECK("link-joins-the-groups", pl.component_[0] == of[e[k][0]]->id && pl.component_[1] == of[e[k][1]]->id && pl.latency_[0] == l[k]->latency_[0] && pl.latency_[1] == l[k]->latency_[1] && pl.no_cut_ == l[k]->no_cut_);
        for ( int s = 0; s < 2; s++ ) { unsigned n = 0; for ( auto x : of[e[k][s]]->links ) n += x == k; CHECK("link-listed-at-its-group", n == 1); }
    }
    CHECK("no-other-links", p->links_.data.size() == n_cut);
    // positions
    for ( unsigned j = 0; j < p->comps_.data.size(); j++ ) { p->comps_.data[j]->rank.rank = vf::any<uint32_t>("rank"); p->comps_.data[j]->rank.thread = vf::any<uint32_t>("thread"); }
    g->annotateRanks(p);
    for ( unsigned i = 0; i < 3; i++ ) CHECK("position-of-the-group", c[i]->rank.rank == of[i]->rank.rank && c[i]->rank.thread == of[i]->rank.thread);
    CHECK("subcomponent-with-its-component", sub->rank.rank == c[1]->rank.rank && sub->rank.thread == c[1]->rank.thread);
}
HARNESS(collapse_chain) { vf_merge(false); graph(3); fixed_link(0, 0, 3); fixed_link(1, 3, 2); fixed_link(2, 1, 0); collapse(3); }
HARNESS(collapse_chain_back) { vf_merge(false); graph(2); fixed_link(0, 1, 2); fixed_link(1, 2, 0); collapse(2); }
#define ANY(n) HARNESS(collapse_two_##n) { vf_merge(false); graph(2); any_link(0, n); any_link(1); collapse(2); } \
               HARNESS(collapse_three_##n) { vf_merge(false); graph(3); fixed_link(0, 0, 2); any_link(1, n); fixed_link(2, 3, 3); collapse(3); }
ANY(0) ANY(1) ANY(2) ANY(3) ANY(4) ANY(5)
static void ranks(int remote)
{
    RankInfo job(vf::any<uint32_t>("ranks"), vf::any<uint32_t>("threads"));
    for ( int i = 0; i < 3; i++ ) { c[i]->rank.rank = vf::any<uint32_t>("rank"); c[i]->rank.thread = vf::any<uint32_t>("thread"); }
    if ( remote >= 0 ) { l[remote]->nonlocal_ = true; l[remote]->component_[1] = vf::any<uint32_t>("remote_rank"); l[remote]->latency_[1] = vf::any<uint32_t>("remote_thread"); }
    bool ok = true; for ( int i = 0; i < 3; i++ ) ok = ok & (c[i]->rank.rank < job.rank) & (c[i]->rank.thread < job.thread);
    vf_merge(true);
    bool r = g->checkRanks(job);
    CHECK("accepts-valid-positions-only", r == ok);
    if ( r ) {
        for ( unsigned k = 0; k < g->links_.data.size(); k++ ) {
            uint32_t r0 = c[e[k][0]]->rank.rank, t0 = c[e[k][0]]->rank.thread, r1 = c[e[k][1]]->rank.rank, t1 = c[e[k][1]]->rank.thread;
            if ( (int)k == remote ) { r1 = l[k]->component_[1]; t1 = l[k]->latency_[1]; }
            CHECK("crosses-ranks", l[k]->cross_rank_ == (r0 != r1));
            CHECK("crosses-threads", l[k]->cross_thread_ == (r0 == r1 && t0 != t1));
        }
    }
    vf_merge(false);
}
HARNESS(check_ranks_local) { vf_merge(false); graph(2); fixed_link(0, 0, 3); fixed_link(1, 2, 2); ranks(-1); }
HARNESS(check_ranks_any_link) { vf_merge(false); graph(1); any_link(0); ranks(-1); }
HARNESS(check_ranks_remote) { vf_merge(false); graph(2); fixed_link(0, 0, 1); fixed_link(1, 3, 2); ranks(1); }
