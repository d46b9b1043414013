// Contracts for the allocation of subcomponent and statistic numbers (model/configComponent.cc).
// VF:ASSUME ConfigGraph::findComponent returns the configuration object with the given id (property C14 for its map)
#include "sst_config.h"
#include "verif.h"
#include "model/configComponent.cc"
using namespace SST;
static ConfigComponent *top, *mid; static unsigned n_find; static ComponentId_t asked;
namespace SST {
ConfigComponent* ConfigGraph::findComponent(ComponentId_t id)
{
    n_find++; asked = id;
    if (id == top->id) return top;
    if (id == mid->id) return mid;
    vf_assume(false);
    return nullptr;
}
}
static ConfigComponent* mk(const char* n)
{
    ConfigComponent* c = vf::raw_object<ConfigComponent>(n);
    c->nextSubID = vf::any<uint16_t>("nextSubID");
    c->next_stat_id = vf::any<uint64_t>("nextStat");
    return c;
}
// top: a component; mid: its subcomponent number m, with parent number p (0: child of the component itself)
static void world(uint64_t& cid, uint16_t& sub)
{
    top = mk("top"); mid = mk("mid"); n_find = 0;
    cid = vf::any_in<uint64_t>("cid", 0, 0xfffffffe);
    sub = vf::any_in<uint16_t>("midsub", 1, 0xffff);
    top->id = cid;
    mid->id = SUBCOMPONENT_ID_CREATE(cid, sub);
    mid->nextSubID = 0;                 // number of its parent
    top->graph = mid->graph = (ConfigGraph*)vf::raw_object<ConfigComponent>("graph");
}
HARNESS(next_sub_from_component)
{
    uint64_t cid; uint16_t sub; world(cid, sub);
    uint16_t k = top->nextSubID; uint64_t st = top->next_stat_id;
    ComponentId_t a = top->getNextSubComponentID();
    CHECK("own-component", COMPONENT_ID_MASK(a) == cid);
    CHECK("next-number", SUBCOMPONENT_ID_MASK(a) == k && top->nextSubID == (uint16_t)(k + 1));
    CHECK("clean-id", CONFIG_COMPONENT_ID_MASK(a) == a);
    CHECK("stat-counter-kept", top->next_stat_id == st);
    ComponentId_t b = top->getNextSubComponentID();
    CHECK("numbers-differ", a != b);
}
HARNESS(next_sub_from_subcomponent)
{
    uint64_t cid; uint16_t sub; world(cid, sub);
    uint16_t k = top->nextSubID;
    ComponentId_t a = mid->getNextSubComponentID();
    CHECK("from-the-component", a == SUBCOMPONENT_ID_CREATE(cid, k) && top->nextSubID == (uint16_t)(k + 1));
    CHECK("own-parent-number-kept", mid->nextSubID == 0);
    ComponentId_t b = top->getNextSubComponentID();
    CHECK("shared-counter", a != b);
}
HARNESS(parent)
{
    uint64_t cid; uint16_t sub; world(cid, sub);
    CHECK("component-has-no-parent", top->getParent() == nullptr && n_find == 0);
    CHECK("parent-of-subcomponent", mid->getParent() == top);
    // a subcomponent of a subcomponent
    ConfigComponent* leaf = mk("leaf");
    uint16_t ls = vf::any_in<uint16_t>("leafsub", 1, 0xffff);
    leaf->id = SUBCOMPONENT_ID_CREATE(cid, ls); leaf->nextSubID = sub; leaf->graph = top->graph;
    CHECK("parent-of-nested", leaf->getParent() == mid);
}
HARNESS(statistic_numbers)
{
    uint64_t cid; uint16_t sub; world(cid, sub);
    uint64_t k = top->next_stat_id;
    StatisticId_t a = mid->getNextStatisticID();
    StatisticId_t b = top->getNextStatisticID();
    StatisticId_t c = mid->getNextStatisticID();
    CHECK("one-counter-per-component", a == k && b == k + 1 && c == k + 2 && top->next_stat_id == k + 3);
}
