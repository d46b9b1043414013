// Contracts for the identifier functions (sst_types.h) and RankInfo's order (rankInfo.h).
#include "sst_config.h"
#include <string>
#include "sst/core/sst_types.h"
#include "sst/core/rankInfo.h"
#include "verif.h"
using namespace SST;
static const uint64_t SUBMAX = 0xffff, COMPMAX = 0xffffffffull;
HARNESS(subcomponent_id)
{
    ComponentId_t c = vf::any_in<uint64_t>("comp", 0, COMPMAX), s = vf::any_in<uint64_t>("sub", 0, SUBMAX);
    ComponentId_t id = SUBCOMPONENT_ID_CREATE(c, s);
    CHECK("component-back", COMPONENT_ID_MASK(id) == c);
    CHECK("number-back", SUBCOMPONENT_ID_MASK(id) == s);
    CHECK("no-statistic-bits", CONFIG_COMPONENT_ID_MASK(id) == id);
    CHECK("not-anonymous", !COMPDEFINED_SUBCOMPONENT_ID_MASK(id));
    CHECK("component-vs-subcomponent", (COMPONENT_ID_MASK(id) == id) == (s == 0));
    ComponentId_t c2 = vf::any_in<uint64_t>("comp", 0, COMPMAX), s2 = vf::any_in<uint64_t>("sub", 0, SUBMAX);
    CHECK("injective", (SUBCOMPONENT_ID_CREATE(c2, s2) == id) == (c == c2 && s == s2));
}
HARNESS(anonymous_id)
{
    ComponentId_t c = vf::any_in<uint64_t>("comp", 0, COMPMAX), s = vf::any_in<uint64_t>("sub", 0, SUBMAX);
    ComponentId_t id = COMPDEFINED_SUBCOMPONENT_ID_CREATE(c, s);
    CHECK("component-back", COMPONENT_ID_MASK(id) == c);
    CHECK("number-back", SUBCOMPONENT_ID_MASK(id) == s);
    CHECK("anonymous", COMPDEFINED_SUBCOMPONENT_ID_MASK(id));
    CHECK("never-a-component", COMPONENT_ID_MASK(id) != id);
    ComponentId_t c2 = vf::any_in<uint64_t>("comp", 0, COMPMAX), s2 = vf::any_in<uint64_t>("sub", 0, SUBMAX);
    CHECK("injective", (COMPDEFINED_SUBCOMPONENT_ID_CREATE(c2, s2) == id) == (c == c2 && s == s2));
    CHECK("never-a-user-subcomponent", SUBCOMPONENT_ID_CREATE(c2, s2) != id);
    // numbers beyond 16 bits still give distinct anonymous ids of the same component
    uint64_t big = vf::any_in<uint64_t>("bigsub", 0, 0x7fffffff), big2 = vf::any_in<uint64_t>("bigsub", 0, 0x7fffffff);
    CHECK("large-numbers", COMPONENT_ID_MASK(COMPDEFINED_SUBCOMPONENT_ID_CREATE(c, big)) == c && COMPDEFINED_SUBCOMPONENT_ID_MASK(COMPDEFINED_SUBCOMPONENT_ID_CREATE(c, big)));
    CHECK("large-numbers-injective", vf::implies(big != big2, COMPDEFINED_SUBCOMPONENT_ID_CREATE(c, big) != COMPDEFINED_SUBCOMPONENT_ID_CREATE(c, big2)));
}
HARNESS(statistic_id)
{
    ComponentId_t c = vf::any_in<uint64_t>("comp", 0, (1ull << 48) - 1); StatisticId_t s = vf::any_in<uint64_t>("stat", 0, 0xffff);
    StatisticId_t id = STATISTIC_ID_CREATE(c, s);
    CHECK("component-back", CONFIG_COMPONENT_ID_MASK(id) == c);
    CHECK("parent-component-back", COMPONENT_ID_MASK(id) == COMPONENT_ID_MASK(c) && SUBCOMPONENT_ID_MASK(id) == SUBCOMPONENT_ID_MASK(c));
    ComponentId_t c2 = vf::any_in<uint64_t>("comp", 0, (1ull << 48) - 1); StatisticId_t s2 = vf::any_in<uint64_t>("stat", 0, 0xffff);
    CHECK("injective", (STATISTIC_ID_CREATE(c2, s2) == id) == (c == c2 && s == s2));
}
HARNESS(masks)
{
    uint64_t x = vf::any<uint64_t>("id");
    CHECK("component-mask", COMPONENT_ID_MASK(x) == (x & 0xffffffffull));
    CHECK("number-mask", SUBCOMPONENT_ID_MASK(x) == ((x >> 32) & 0xffff));
    CHECK("config-mask", CONFIG_COMPONENT_ID_MASK(x) == (x & 0xffffffffffffull));
    CHECK("anonymous-bit", COMPDEFINED_SUBCOMPONENT_ID_MASK(x) == (x >> 63 == 1));
    CHECK("unset-values", UNSET_COMPONENT_ID == ~0ull && UNSET_STATISTIC_ID == ~0ull && STATALL_ID == ~0ull);
}
static RankInfo any_rank() { uint32_t r = vf::any<uint32_t>("rank"), t = vf::any<uint32_t>("thread"); return RankInfo(r, t); }
HARNESS(rank_order)
{
    RankInfo a = any_rank(), b = any_rank();
    bool lt = a.rank < b.rank || (a.rank == b.rank && a.thread < b.thread), eq = a.rank == b.rank && a.thread == b.thread;
    CHECK("eq", (a == b) == eq);
    CHECK("ne", (a != b) == !eq);
    CHECK("lt", (a < b) == lt);
    CHECK("le", (a <= b) == (lt || eq));
    CHECK("gt", (a > b) == (!lt && !eq));
    CHECK("ge", (a >= b) == !lt);
    CHECK("assigned", a.isAssigned() == (a.rank != 0xffffffffu && a.thread != 0xffffffffu));
    CHECK("in-range", a.inRange(b) == (b.rank < a.rank && b.thread < a.thread));
    RankInfo d;
    CHECK("default-unassigned", !d.isAssigned());
}
