// Contracts for distributing the configuration graph over ranks (model/configGraph.cc, configLink.cc): every part gets its
// components and the links ending there, with their own end first and the position of the other end; smallest crossing latency.
// VF:BOUNDED graphs of 3 components (one with a subcomponent) and at most 2 links; any ranks, threads, latencies
#undef SST_CORE_VERIF   // maps of known size: no loop is cut here
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sst/core/simulation.h"
#include "model/configGraph.cc"
#include "model/configLink.cc"
#include "model/configComponent.cc"
#include "params.cc"
using namespace SST;
namespace SST { Output Output::m_defaultObject; Output Simulation::sim_output; }
int SST_MPI_GetRank() { return 0; }
std::string Output::getPrefix() const { return ""; }
uint32_t Output::getVerboseLevel() const { return 0; }
uint32_t Output::getVerboseMask() const { return 0; }
VF_ONLY_NATIVE(void Output::init(const std::string&, uint32_t, uint32_t, output_location_t, const std::string&) {})
static unsigned upto(const char* name, unsigned m) { unsigned v = vf::any<uint8_t>(name) % (m + 1); for ( unsigned k = 0; k < m; k++ ) if ( v == k ) return k; return m; }
static ConfigGraph* g; static ConfigComponent *c[3], *sub; static ConfigLink* l[2]; static unsigned e[2][2]; static unsigned part[3]; static uint64_t lat[2][2];
static const char* ports[2][2] = { { "p0", "q0" }, { "p1", "q1" } };
static ConfigComponent* comp(uint64_t id)
{
    ConfigComponent* x = vf::raw_object<ConfigComponent>("component");
    ::new (&x->links) std::vector<LinkId_t>(); ::new (&x->subComponents) std::vector<ConfigComponent*>(); x->id = id; x->graph = g;
    return x;
}
// part 0: ranks 0 and 1 stay; part 1: ranks 2 and 3 go to the new graph; part 2: ranks 4 and up (in neither)
static void graph(unsigned n_links)
{
    g = vf::raw_object<ConfigGraph>("graph");
    ::new (&g->comps_) ConfigComponentMap_t(); ::new (&g->links_) ConfigLinkMap_t();
    ::new (&g->cpt_libnames) std::shared_ptr<std::set<std::string>>(); ::new (&g->cpt_shared_objects) std::shared_ptr<std::vector<char>>(); ::new (&g->cpt_stats_config) std::shared_ptr<std::vector<char>>();
    g->stats_config_ = new StatsConfig();
    for ( unsigned i = 0; i < 3; i++ ) { c[i] = comp(i); g->comps_.data.push_back(c[i]); }
    sub = comp(SUBCOMPONENT_ID_CREATE(1, 1)); c[1]->subComponents.push_back(sub);
    for ( unsigned k = 0; k < n_links; k++ ) {
        l[k] = new ConfigLink(); l[k]->id_ = 7 + k; g->links_.data.push_back(l[k]);
        l[k]->no_cut_ = vf::any<bool>("no_cut"); 
    }
}
static void place(unsigned i, unsigned p)
{
    part[i] = p;
    RankInfo r(p == 2 ? 4 : 2 * p + (i & 1), vf::any<uint32_t>("thread"));
    c[i]->rank = r; if ( i == 1 ) sub->rank = r;
}
static void link(unsigned k, unsigned a, unsigned b)
{
    unsigned at[2] = { a, b };
    for ( int s = 0; s < 2; s++ ) {
        ConfigComponent* x = at[s] == 3 ? sub : c[at[s]];
        e[k][s] = at[s]; l[k]->component_[s] = x->id; l[k]->port_[s] = ports[k][s]; l[k]->latency_[s] = lat[k][s] = vf::any<uint64_t>("latency");
    }
}
static unsigned comp_of(unsigned a) { return a == 3 ? 1 : a; }
// the link as part p must see it
static void seen(ConfigGraph* h, unsigned k, unsigned p)
{
    unsigned a = comp_of(e[k][0]), b = comp_of(e[k][1]);
    bool in = part[a] == p || part[b] == p;
    CHECK("link-in-the-part-of-its-ends-only", h->links_.contains(7 + k) == in);
    if ( !in ) return;
    ConfigLink* x = h->links_[7 + k];
    CHECK("no-cut-kept", x->no_cut_ == l[k]->no_cut_);
    if ( part[a] == p && part[b] == p ) {
        CHECK("link-unchanged", !x->nonlocal_ && x->component_[0] == (e[k][0] == 3 ? sub->id : e[k][0]) && x->component_[1] == (e[k][1] == 3 ? sub->id : e[k][1]) && x->latency_[0] == lat[k][0] && x->latency_[1] == lat[k][1] && x->port_[0] == ports[k][0] && x->port_[1] == ports[k][1]);
        return;
    }
    int s = part[a] == p ? 0 : 1; unsigned far = s ? a : b;
    CHECK("own-end-kept", x->nonlocal_ && x->component_[0] == (e[k][s] == 3 ? sub->id : e[k][s]) && x->latency_[0] == lat[k][s] && x->port_[0] == ports[k][s]);
    CHECK("position-of-the-other-end", x->component_[1] == c[far]->rank.rank && x->latency_[1] == c[far]->rank.thread);
}
static RankInfo old[3];
static uint64_t cyc[4];
static void split(unsigned n_links, bool with_new, bool neither = false)
{
    std::set<uint32_t> mine, yours; mine.insert(0); mine.insert(1); if ( with_new ) { yours.insert(2); yours.insert(3); }
    for ( int i = 0; i < 3; i++ ) old[i] = c[i]->rank;
    ConfigGraph* h = g->splitGraph(mine, yours);
    CHECK("new-graph-iff-asked-for", (h != nullptr) == with_new);
    unsigned n0 = 0, n1 = 0;
    for ( unsigned i = 0; i < 3; i++ ) {
        CHECK("component-in-its-part-only", g->comps_.contains(i) == (part[i] == 0) && (!h || h->comps_.contains(i) == (part[i] == 1)));
        n0 += part[i] == 0; n1 += part[i] == 1;
        if ( part[i] == 0 ) CHECK("same-component", g->comps_[i] == c[i] && c[i]->graph == g);
        if ( part[i] == 1 && h ) CHECK("same-component-moved", h->comps_[i] == c[i] && c[i]->graph == h);
    }
    CHECK("no-other-components", g->comps_.data.size() == n0 && (!h || h->comps_.data.size() == n1));
    for ( unsigned k = 0; k < n_links; k++ ) { seen(g, k, 0); if ( h ) seen(h, k, 1); }
}
static unsigned in2(unsigned i) { return upto(i == 0 ? "part0" : i == 1 ? "part1" : "part2", 1); }
#define TWO(name, a, b) HARNESS(split_##name) { vf_merge(false); graph(1); for ( int i = 0; i < 3; i++ ) place(i, in2(i)); link(0, a, b); split(1, true); }
TWO(sub_second, 0, 3) TWO(sub_first, 3, 2) TWO(plain, 2, 0) TWO(within, 1, 3) TWO(loop, 2, 2)
HARNESS(split_two_links) { vf_merge(false); graph(2); for ( int i = 0; i < 3; i++ ) place(i, in2(i)); link(0, 2, 3); link(1, 0, 1); split(2, true); }
// a link whose other end is already elsewhere stays as it is
HARNESS(split_remote)
{
    vf_merge(false); graph(1); for ( int i = 0; i < 3; i++ ) place(i, in2(i));
    link(0, 3, 0); l[0]->nonlocal_ = true; l[0]->port_[1] = ""; l[0]->component_[1] = vf::any<uint32_t>("remote_rank"); l[0]->latency_[1] = vf::any<uint32_t>("remote_thread");
    uint64_t rr = l[0]->component_[1], rt = l[0]->latency_[1]; unsigned p = part[1];
    std::set<uint32_t> mine, yours; mine.insert(0); mine.insert(1); yours.insert(2); yours.insert(3);
    ConfigGraph* h = g->splitGraph(mine, yours);
    CHECK("remote-link-follows-its-end", g->links_.contains(7) == (p == 0) && h->links_.contains(7) == (p == 1));
    ConfigLink* x = (p ? h : g)->links_[7];
    CHECK("remote-link-unchanged", x->nonlocal_ && x->component_[0] == sub->id && x->latency_[0] == lat[0][0] && x->port_[0] == "p0" && x->component_[1] == rr && x->latency_[1] == rt);
}
// reduced to one rank: only what touches that rank stays
HARNESS(reduce)
{
    vf_merge(false); graph(1); unsigned p[3];
    for ( int i = 0; i < 3; i++ ) { ConfigComponent* x = new ConfigComponent(i, g, "c", "t", 1.0f, RankInfo()); x->links = c[i]->links; x->subComponents = c[i]->subComponents; c[i] = x; g->comps_.data[i] = x; }
    for ( int i = 0; i < 3; i++ ) { p[i] = in2(i); c[i]->rank.rank = p[i] ? 3 : 0; c[i]->rank.thread = vf::any<uint32_t>("thread"); if ( i == 1 ) { sub->rank = c[1]->rank; } part[i] = p[i] ? 2 : 0; }
    link(0, 3, 2);
    g->reduceGraphToSingleRank(0);
    for ( unsigned i = 0; i < 3; i++ ) CHECK("only-this-rank-stays", g->comps_.contains(i) == (part[i] == 0));
    bool in = part[1] == 0 || part[2] == 0;
    CHECK("only-its-links-stay", g->links_.contains(7) == in);
}
// the smallest latency of the links between ranks
HARNESS(min_latency)
{
    vf_merge(false); graph(2); link(0, 0, 1); link(1, 3, 2);
    bool empty, remote; if ( vf::any<bool>("no_components") ) empty = true; else empty = false; if ( vf::any<bool>("remote") ) remote = true; else remote = false;
    for ( int k = 0; k < 2; k++ ) l[k]->cross_rank_ = vf::any<bool>("crosses");
    if ( remote ) l[1]->nonlocal_ = true;
    if ( empty ) { g->comps_.data.clear(); g->cpt_minPart = vf::any<uint64_t>("checkpointed"); }
    uint64_t m = g->getMinimumPartitionLatency(), w = ~0ull;
    for ( int k = 0; k < 2; k++ ) if ( l[k]->cross_rank_ ) { if ( lat[k][0] < w ) w = lat[k][0]; if ( lat[k][1] < w && !(k == 1 && remote) ) w = lat[k][1]; }
    CHECK("smallest-crossing-latency", m == (empty ? g->cpt_minPart : w));
}
// --- links as configured
SimTime_t TimeLord::getSimCycles(const std::string& s, const std::string&) { return s == "1ns" ? cyc[1] : s == "2ns" ? cyc[2] : cyc[3]; }
bool NameCheck::isNameValid(const std::string&, bool, bool) { return true; }
static bool fork(const char* name) { if ( vf::any<bool>(name) ) return true; return false; }
static const char* lat_name(unsigned k) { return k == 0 ? nullptr : k == 1 ? "1ns" : "2ns"; }
static void build()
{
    VF_ONLY_PROOF(::new (&ConfigLink::lat_to_index) std::map<std::string, uint32_t>();)
    ConfigLink::lat_to_index.clear();
    g = vf::raw_object<ConfigGraph>("graph");
    ::new (&g->comps_) ConfigComponentMap_t(); ::new (&g->links_) ConfigLinkMap_t();
    for ( unsigned i = 0; i < 2; i++ ) { c[i] = comp(i); g->comps_.data.push_back(c[i]); }
    sub = comp(SUBCOMPONENT_ID_CREATE(1, 1)); c[1]->subComponents.push_back(sub);
    for ( int i = 1; i < 4; i++ ) cyc[i] = vf::any<uint64_t>("cycles");
    g->link_rank_mask = (uint64_t)vf::any<uint32_t>("rank") << 32;
}
static unsigned times(ConfigComponent* x, LinkId_t id) { unsigned n = 0; for ( auto i : x->links ) n += i == id; return n; }
template <unsigned d> static void configured()
{
    vf_merge(false); build();
    LinkId_t other = g->createLink("other", "3ns"), id = g->createLink("l", lat_name(d));
    CHECK("own-id", id != other && g->links_.data.size() == 2);
    unsigned a = upto("lat0", 2), b = upto("lat1", 2); bool loop = fork("same_component");
    ConfigComponent *x = sub, *y = loop ? sub : c[0];
    ConfigLink* k = g->links_[id];
    bool bad = false;
    try { g->addLink(x->id, id, "p", lat_name(a)); } catch ( vf::Fatal& ) { bad = true; }
    CHECK("first-end-needs-a-latency", bad == (a == 0 && d == 0)); if ( bad ) return;
    try { g->addLink(y->id, id, "q", lat_name(b)); } catch ( vf::Fatal& ) { bad = true; }
    CHECK("second-end-needs-a-latency", bad == (b == 0 && d == 0)); if ( bad ) return;
    CHECK("ends-in-order", k->component_[0] == x->id && k->component_[1] == y->id && k->port_[0] == "p" && k->port_[1] == "q" && !k->nonlocal_ && !k->no_cut_);
    CHECK("listed-once-at-each-end", times(x, id) == 1 && times(y, id) == 1);
    CHECK("other-link-untouched", g->links_[other]->component_[0] == UNSET_COMPONENT_ID);
    bool third = false; try { g->addLink(c[0]->id, id, "r", "1ns"); } catch ( vf::Fatal& ) { third = true; }
    CHECK("only-two-ends", third);
    k->updateLatencies();
    CHECK("configured-latencies", k->latency_[0] == cyc[a ? a : d] && k->latency_[1] == cyc[b ? b : d]);
}
HARNESS(configured_without_latency) { configured<0>(); }
HARNESS(configured_with_latency) { configured<1>(); }
HARNESS(configured_remote)
{
    vf_merge(false); build();
    LinkId_t id = g->createLink("l", "1ns"); unsigned a = upto("lat0", 2);
    int r = vf::any<int>("rank"), t = vf::any<int>("thread"); vf_assume(r >= 0 && t >= 0);
    if ( fork("remote_first") ) { g->addNonLocalLink(id, r, t); g->addLink(sub->id, id, "p", lat_name(a)); } else { g->addLink(sub->id, id, "p", lat_name(a)); g->addNonLocalLink(id, r, t); }
    bool again = false, more = false; try { g->addNonLocalLink(id, 1, 1); } catch ( vf::Fatal& ) { again = true; } try { g->addLink(c[0]->id, id, "q", "1ns"); } catch ( vf::Fatal& ) { more = true; }
    CHECK("one-remote-end-only", again && more);
    ConfigLink* k = g->links_[id]; k->updateLatencies();
    CHECK("own-end-and-remote-position", k->nonlocal_ && k->component_[0] == sub->id && k->port_[0] == "p" && k->latency_[0] == cyc[a ? a : 1] && k->component_[1] == (uint64_t)r && k->latency_[1] == (uint64_t)t);
}
static unsigned n_ports; static void ports_stub(ConfigComponent*) { n_ports++; }
HARNESS(structure)
{
    vf_merge(false); build(); n_ports = 0;
    vf_use_contract(vf::mfn(&ConfigComponent::checkPorts), (void*)&ports_stub);
    LinkId_t id = g->createLink("l", "1ns");
    bool a = fork("first"), b = fork("second"), r = fork("remote"), s = fork("sub");
    ConfigLink* k = g->links_[id];
    if ( a ) k->component_[0] = s ? sub->id : c[0]->id;
    if ( a && b ) k->component_[1] = c[1]->id;
    k->nonlocal_ = r && !b;
    new (&c[0]->name) std::string("c0"); new (&c[1]->name) std::string("c1");
    bool bad = g->checkForStructuralErrors();
    CHECK("every-dangling-link-found", bad == !(a && (b || k->nonlocal_)));
    CHECK("ports-of-every-component", n_ports == 2);
}
