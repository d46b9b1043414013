// Contracts for the distributions (rng/*.h): they draw from their generator only, use the documented formula and stay
// within their documented support.
// VF:ASSUME log, exp and sqrt are functions of their argument (C library)
// VF:BOUNDED discrete tables of at most 4 outcomes; uniform with 1-8, 10 and 49 bins; at most two re-draws per value
#include "sst_config.h"
#include "verif.h"
#include "rng/rng.h"
#include "rng/mersenne.h"
#include "rng/constant.h"
#include "rng/discrete.h"
#include "rng/expon.h"
#include "rng/gaussian.h"
#include "rng/poisson.h"
#include "rng/uniform.h"
using namespace SST;
using namespace SST::RNG;
static double draw[8]; static unsigned n_draw, n_other;
struct FR : Random {
    double   nextUniform() override { double d = draw[n_draw]; n_draw++; return d; }
    uint32_t generateNextUInt32() override { n_other++; return 0; }
    uint64_t generateNextUInt64() override { n_other++; return 0; }
    int64_t  generateNextInt64() override { n_other++; return 0; }
    int32_t  generateNextInt32() override { n_other++; return 0; }
    void serialize_order(SST::Core::Serialization::serializer&) override {}
    uint32_t cls_id() const override { return 0; }
    std::string serialization_name() const override { return ""; }
};
static FR* gen(unsigned n)
{
    n_draw = 0; n_other = 0;
    for (unsigned i = 0; i < n; i++) {
        draw[i] = vf::any_unit("u");
    }
    return ::new (::operator new(sizeof(FR))) FR();
}
HARNESS(constant)
{
    double v = vf::any_double("v");
    ConstantDistribution d(v);
    double x = d.getNextDouble(), y = d.getNextDouble(), m = d.getMean();
    CHECK("always-the-constant", memcmp(&x, &v, 8) == 0 && memcmp(&y, &v, 8) == 0 && memcmp(&m, &v, 8) == 0);
}
template <unsigned n> static void discrete_construct()
{
    double p[n + 1], acc[n + 1], cum = 0;
    for (unsigned i = 0; i < n; i++) p[i] = vf::any_in<uint32_t>("p", 0, 1000000) / 1000000.0;
    DiscreteDistribution* d = ::new (::operator new(sizeof(DiscreteDistribution))) DiscreteDistribution(p, n, gen(0));
    CHECK("size", d->probCount == n && !d->deleteDistrib);
    for (unsigned i = 0; i < n; i++) { CHECK("cumulative", memcmp(&d->probabilities[i], &cum, 8) == 0); cum = cum + p[i]; }
}
HARNESS(discrete_construct_1) { discrete_construct<1>(); }
HARNESS(discrete_construct_3) { discrete_construct<3>(); }
HARNESS(discrete_construct_4) { discrete_construct<4>(); }
HARNESS(discrete_draw)
{
    vf_merge(false);
    DiscreteDistribution* d = ::new (::operator new(sizeof(DiscreteDistribution))) DiscreteDistribution();
    d->deleteDistrib = false;
    uint32_t n = vf::any_in<uint32_t>("n", 1, 4);
    double tab[4];
    for (int i = 0; i < 4; i++) { tab[i] = vf::any_unit("t"); if (i) vf_assume(tab[i] >= tab[i - 1]); }
    d->baseDistrib = gen(1); d->probabilities = tab; d->probCount = n;
    double r = d->getNextDouble();
    uint32_t k = (uint32_t)r;
    CHECK("one-draw-only", n_draw == 1 && n_other == 0);
    CHECK("whole-number-in-support", r == (double)k && k <= n);
    CHECK("covers-the-draw", k == n || tab[k] >= draw[0]);
    for (uint32_t i = 0; i < k && i < 4; i++) CHECK("first-such-outcome", tab[i] < draw[0]);
}
template <unsigned n> static void uniform()
{
    vf_merge(false); vf_fp_exact(true);
    UniformDistribution* d = ::new (::operator new(sizeof(UniformDistribution))) UniformDistribution(n, gen(0));
    draw[0] = vf::any_unit("u");
    vf_assume(draw[0] <= 1.0 - 1.0 / 4294967296.0);
    double r = d->getNextDouble();
    uint32_t k = (uint32_t)r;
    CHECK("one-draw-only", n_draw == 1 && n_other == 0);
    CHECK("whole-number", r == (double)k);
    CHECK("in-support", k < n);
    double p = 1.0 / n;
    CHECK("its-bin", draw[0] <= (k + 1) * p && (k == 0 || draw[0] > k * p));
}
HARNESS(uniform_1) { uniform<1>(); }
HARNESS(uniform_2) { uniform<2>(); }
HARNESS(uniform_3) { uniform<3>(); }
HARNESS(uniform_4) { uniform<4>(); }
HARNESS(uniform_5) { uniform<5>(); }
HARNESS(uniform_6) { uniform<6>(); }
HARNESS(uniform_7) { uniform<7>(); }
HARNESS(uniform_8) { uniform<8>(); }
HARNESS(uniform_10) { uniform<10>(); }
HARNESS(uniform_49) { uniform<49>(); }
HARNESS(exponential)
{
    double lambda = vf::any_unit("lambda") * 64.0; vf_assume(lambda >= 0.0);
    ExponentialDistribution* d = ::new (::operator new(sizeof(ExponentialDistribution))) ExponentialDistribution(lambda, gen(1));
    double r = d->getNextDouble();
    double e = log(1 - draw[0]) / (-1 * lambda);
    CHECK("one-draw-only", n_draw == 1 && n_other == 0);
    CHECK("inverse-transform", memcmp(&r, &e, 8) == 0);
    CHECK("lambda", d->getLambda() == lambda);
}
HARNESS(gaussian)
{
    vf_merge(false);
    double mean = vf::any_double("mean"), sd = vf::any_double("sd"); vf_assume(sd >= 0.0); vf_assume(mean == mean);
    GaussianDistribution* d = ::new (::operator new(sizeof(GaussianDistribution))) GaussianDistribution(mean, sd, gen(8));
    CHECK("fresh", !d->usePair);
    double q0 = draw[0] * draw[0] + draw[1] * draw[1], q1 = draw[2] * draw[2] + draw[3] * draw[3];
    bool ok0 = !(q0 >= 1 || q0 == 0), ok1 = !(q1 >= 1 || q1 == 0);
    vf_assume(ok0 || ok1);
    unsigned b = 2; if (ok0) b = 0;
    double r = d->getNextDouble();
    CHECK("draws", n_draw == b + 4 && n_other == 0);
    double u = draw[b], v = draw[b + 1], q = q1; if (ok0) q = q0;
    if (draw[b + 2] < 0.5) u *= -1.0;
    if (draw[b + 3] < 0.5) v *= -1.0;
    double m = sqrt(-2.0 * log(q) / q);
    double e1 = mean + sd * u * m, e2 = mean + sd * v * m;
    CHECK("polar-first", memcmp(&r, &e1, 8) == 0);
    double r2 = d->getNextDouble();
    CHECK("pair-second", memcmp(&r2, &e2, 8) == 0 && n_draw == b + 4 && !d->usePair);
    CHECK("parameters", d->getMean() == mean && d->getStandardDev() == sd);
}
HARNESS(gaussian_pair)
{
    // a kept second value is handed out without a draw, whatever the state, and the next value draws again
    GaussianDistribution* d = ::new (::operator new(sizeof(GaussianDistribution))) GaussianDistribution(vf::any_double("mean"), vf::any_double("sd"), nullptr);
    d->baseDistrib = gen(0); d->usePair = true; d->unusedPair = vf::any_double("kept");
    double kept = d->unusedPair, r = d->getNextDouble();
    CHECK("kept-value", memcmp(&r, &kept, 8) == 0 && n_draw == 0 && !d->usePair);
}
HARNESS(poisson)
{
    vf_merge(false);
    double lambda = vf::any_unit("lambda") * 64.0; vf_assume(lambda >= 0.0);
    PoissonDistribution* d = ::new (::operator new(sizeof(PoissonDistribution))) PoissonDistribution(lambda, gen(3));
    double L = exp(-lambda);
    double p1 = 1.0 * draw[0], p2 = p1 * draw[1], p3 = p2 * draw[2];
    vf_assume(!(p1 > L) || !(p2 > L) || !(p3 > L));
    unsigned e = !(p1 > L) ? 0 : !(p2 > L) ? 1 : 2;
    double r = d->getNextDouble();
    unsigned k = e == 0 ? (r == 0.0) : e == 1 ? (r == 1.0) : (r == 2.0);
    CHECK("count-of-draws-before-the-product-falls-to-exp(-lambda)", k && n_draw == e + 1 && n_other == 0);
    CHECK("lambda", d->getLambda() == lambda);
}
