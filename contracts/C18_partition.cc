// Contracts for the partitioners (impl/partitioners/*.cc): every component of the graph gets one position inside the job,
// linear and round-robin partitioning balance, linear keeps the order of ids.
// VF:ASSUME rank and thread counts between 1 and 65535
// VF:BOUNDED graphs of at most 6 components for linear and round-robin (any rank and thread counts), 5 for the simple partitioner (at most 8 parts)
#undef SST_CORE_VERIF   // maps of known size: no loop is cut here
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "sst/core/simulation.h"
#include "impl/partitioners/linpart.cc"
#include "impl/partitioners/rrobin.cc"
#include "impl/partitioners/singlepart.cc"
#include "impl/partitioners/simplepart.cc"
using namespace SST;
namespace SST { Output Output::m_defaultObject; }
static uint32_t R, T;
static unsigned upto(const char* name, unsigned m) { unsigned v = vf::any<uint8_t>(name) % (m + 1); for ( unsigned k = 0; k < m; k++ ) if ( v == k ) return k; return m; }
static PartitionComponent* pc[12]; static unsigned n_pc;
static PartitionGraph* graph(unsigned n)
{
    // by case: few threads (one case each) or more threads than components; few ranks with few threads or more positions than components
    unsigned t = upto("few_threads", n);
    if ( t ) { T = t; unsigned r = upto("few_ranks", n / t); if ( r ) R = r; else { R = vf::any<uint16_t>("ranks"); vf_assume(R > n / t); } }
    else { T = vf::any<uint16_t>("threads"); vf_assume(T > n); R = vf::any<uint16_t>("ranks"); vf_assume(R >= 1); }
    PartitionGraph* g = new PartitionGraph();
    n_pc = n;
    for ( unsigned i = 0; i < n; i++ ) {
        pc[i] = new PartitionComponent((LinkId_t)(i ? pc[i - 1]->id + 1 + vf::any<uint16_t>("gap") : vf::any<uint16_t>("id")));
        pc[i]->weight = 1; pc[i]->rank.rank = vf::any<uint32_t>("old_rank"); pc[i]->rank.thread = vf::any<uint32_t>("old_thread");
        g->comps_.data.push_back(pc[i]);
    }
    return g;
}
static void placed(PartitionGraph* g)
{
    CHECK("same-components", g->comps_.data.size() == n_pc);
    for ( unsigned i = 0; i < n_pc; i++ ) {
        CHECK("same-components", g->comps_.data[i] == pc[i]);
        CHECK("inside-the-job", pc[i]->rank.rank < R && pc[i]->rank.thread < T);
    }
}
static void balanced()
{
    vf_merge(true);
    RankInfo a(vf::any<uint32_t>("ra"), vf::any<uint32_t>("ta")), b(vf::any<uint32_t>("rb"), vf::any<uint32_t>("tb"));
    vf_assume(a.rank < R && a.thread < T && b.rank < R && b.thread < T);
    unsigned na = 0, nb = 0;
    for ( unsigned i = 0; i < n_pc; i++ ) {
        na += pc[i]->rank.rank == a.rank && pc[i]->rank.thread == a.thread;
        nb += pc[i]->rank.rank == b.rank && pc[i]->rank.thread == b.thread;
    }
    CHECK("balanced", na <= nb + 1 && nb <= na + 1);
    vf_merge(false);
}
static Output* out_() { return vf::raw_object<Output>("out"); }
static void linear(unsigned n)
{
    vf_merge(false);
    PartitionGraph* g = graph(n);
    auto* p = vf::raw_object<IMPL::Partition::SSTLinearPartition>("part");
    p->rankcount.rank = R; p->rankcount.thread = T; p->partOutput = out_();
    p->SSTLinearPartition::performPartition(g);
    placed(g); balanced();
    for ( unsigned i = 1; i < n; i++ ) CHECK("ids-in-order", pc[i - 1]->rank.rank < pc[i]->rank.rank || (pc[i - 1]->rank.rank == pc[i]->rank.rank && pc[i - 1]->rank.thread <= pc[i]->rank.thread));
}
HARNESS(linear_0) { linear(0); }
HARNESS(linear_1) { linear(1); }
HARNESS(linear_2) { linear(2); }
HARNESS(linear_3) { linear(3); }
HARNESS(linear_4) { linear(4); }
HARNESS(linear_6) { linear(6); }
static void rrobin(unsigned n)
{
    vf_merge(false);
    PartitionGraph* g = graph(n);
    auto* p = vf::raw_object<IMPL::Partition::SSTRoundRobinPartition>("part");
    p->world_size.rank = R; p->world_size.thread = T;
    p->SSTRoundRobinPartition::performPartition(g);
    placed(g); balanced();
}
HARNESS(rrobin_1) { rrobin(1); }
HARNESS(rrobin_2) { rrobin(2); }
HARNESS(rrobin_4) { rrobin(4); }
HARNESS(rrobin_6) { rrobin(6); }
HARNESS(single)
{
    vf_merge(false);
    ConfigGraph* g = vf::raw_object<ConfigGraph>("graph"); ::new (&g->comps_) ConfigComponentMap_t();
    ConfigComponent* c[3]; unsigned n = upto("components", 3);
    for ( unsigned i = 0; i < n; i++ ) { c[i] = vf::raw_object<ConfigComponent>("c"); g->comps_.data.push_back(c[i]); }
    auto* p = vf::raw_object<IMPL::Partition::SSTSinglePartition>("part");
    p->SSTSinglePartition::performPartition(g);
    for ( unsigned i = 0; i < n; i++ ) CHECK("on-the-only-position", c[i]->rank.rank == 0 && c[i]->rank.thread == 0);
}
// simple partitioner: any links and latencies
static void simple(unsigned n, unsigned nl, unsigned r, unsigned t)
{
    vf_merge(false);
    PartitionGraph* g = new PartitionGraph();
    R = r; T = t; n_pc = n;
    for ( unsigned i = 0; i < n; i++ ) { pc[i] = new PartitionComponent((LinkId_t)i); g->comps_.data.push_back(pc[i]); }
    for ( unsigned k = 0; k < nl; k++ ) {
        PartitionLink* l = vf::raw_object<PartitionLink>("link"); l->id_ = k;
        unsigned a = upto("a", n - 1), b = upto("b", n - 1); vf_assume(a < b);
        l->component_[0] = a; l->component_[1] = b; l->latency_[0] = vf::any<uint32_t>("latency"); l->latency_[1] = vf::any<uint32_t>("latency");
        g->links_.data.push_back(*l); pc[a]->links.push_back(k); pc[b]->links.push_back(k);
    }
    auto* p = vf::raw_object<IMPL::Partition::SimplePartitioner>("part");
    p->world_size.rank = R; p->world_size.thread = T; *(uint32_t*)&p->total_parts = R * T;
    p->SimplePartitioner::performPartition(g);
    placed(g);
}
HARNESS(simple_one) { simple(3, 1, 1, 1); }
HARNESS(simple_2_ranks) { simple(3, 2, 2, 1); }
HARNESS(simple_6_parts) { simple(3, 2, 3, 2); }
HARNESS(simple_4) { simple(4, 1, 1, 3); }
HARNESS(simple_more_parts) { simple(2, 1, 2, 4); }
HARNESS(simple_6_parts_5) { simple(5, 0, 2, 3); }
HARNESS(simple_5_parts_5) { simple(5, 0, 5, 1); }
HARNESS(simple_7_parts_3) { simple(3, 0, 1, 7); }
