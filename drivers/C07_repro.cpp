// C07: draws are reproducible: a function of the generator's state and the parameters alone.
// LIBS: random math_utils
#include "verif.h"
#include "random.h"
using namespace cuhksz;

// ---- generators
#define SAME(TAG, PARAMS, OK, EXPR)                                                       \
  SPEC(seed_##TAG) PARAMS {                                                               \
    vf_assume(OK);                                                                        \
    VALID("draws from two generators with one seed");                                     \
    Random a(seed), b(seed), c(other);                                                    \
    auto x = [&](Random& g) { return EXPR; };                                             \
    auto a1 = x(a); x(c); auto a2 = x(a);                                                 \
    auto b1 = x(b), b2 = x(b);                                                            \
    CHECK(a1 == b1 && a2 == b2, "equal seeds give equal draws: " #EXPR);                  \
  }                                                                                       \
  SPEC(reseed_##TAG) PARAMS {                                                             \
    vf_assume(OK);                                                                        \
    VALID("draws after setSeed");                                                         \
    Random a(other), b(seed);                                                             \
    auto x = [&](Random& g) { return EXPR; };                                             \
    x(a);                                                                                 \
    a.setSeed(seed);                                                                      \
    auto a1 = x(a), a2 = x(a), b1 = x(b), b2 = x(b);                                      \
    CHECK(a1 == b1 && a2 == b2, "setSeed restarts the sequence of that seed: " #EXPR);    \
  }                                                                                       \
  SPEC(copy_##TAG) PARAMS {                                                               \
    vf_assume(OK);                                                                        \
    VALID("draws from a copy");                                                           \
    Random a(seed), r(seed);                                                              \
    auto x = [&](Random& g) { return EXPR; };                                             \
    x(a); x(r);                                                                           \
    Random b(a);                                                                          \
    auto b1 = x(b), b2 = x(b);                                                            \
    auto a1 = x(a), a2 = x(a), r1 = x(r), r2 = x(r);                                      \
    CHECK(a1 == b1 && a2 == b2, "a copy continues with the same draws: " #EXPR);          \
    CHECK(a1 == r1 && a2 == r2, "drawing from a copy leaves the original alone: " #EXPR); \
  }
#define SEEDS int seed, int other
SAME(int0, (SEEDS), true, g.nextInt())
SAME(int1, (SEEDS, int m), m > 0, g.nextInt(m))
SAME(int2, (SEEDS, int l, int h), l < h, g.nextInt(l, h))
SAME(dbl0, (SEEDS), true, g.nextDouble())
SAME(dbl1, (SEEDS, double m), m >= 0, g.nextDouble(m))
SAME(dbl2, (SEEDS, double l, double h), l <= h, g.nextDouble(l, h))
SAME(bool0, (SEEDS), true, g.nextBool())
SAME(mix, (SEEDS, int l, int h), l < h, (g.nextBool(), g.nextDouble(), g.nextInt(l, h)))

// the functions without a generator do not disturb a generator, nor a generator them
SPEC(free_fn)(int seed, int l, int h) {
  vf_assume(l < h);
  VALID("free functions");
  Random a(seed), b(seed);
  int a1 = a.nextInt();
  vf_sink(randomInt(), randomBool(), randomInt(l, h), randomDouble(), randomDouble(1.0, 2.0));
  int a2 = a.nextInt();
  int b1 = b.nextInt(), b2 = b.nextInt();
  CHECK(a1 == b1 && a2 == b2, "the shared generator is separate from every other");
}

// ---- distributions: a draw reads nothing but the generator, the parameters and the distribution's own state
#define DIST(TAG, D, PARAMS, OK, ...)                                                     \
  SPEC(fun_##TAG)(Random& g PARAMS) {                                                     \
    vf_assume(OK);                                                                        \
    VALID("draws from a distribution");                                                   \
    vf_opt("functional");                                                                 \
    D d(g __VA_ARGS__);                                                                   \
    vf_sink(d.next(), d.next());                                                          \
  }                                                                                       \
  SPEC(rel_##TAG)(int seed, int other PARAMS) {                                           \
    vf_assume(OK);                                                                        \
    VALID("draws from two distributions on generators with one seed");                    \
    Random a(seed), b(seed), c(other);                                                    \
    D z(c __VA_ARGS__), x(a __VA_ARGS__), y(b __VA_ARGS__);                               \
    auto x1 = x.next();                                                                   \
    vf_sink(z.next());                                                                    \
    auto y1 = y.next();                                                                   \
    REFUTE(x1 == y1, "equal seeds and parameters give equal draws (" #D ")");             \
    auto x2 = x.next();                                                                   \
    vf_sink(z.next());                                                                    \
    auto y2 = y.next();                                                                   \
    REFUTE(x2 == y2, "equal seeds and parameters give equal draws (" #D ")");             \
  }                                                                                       \
  SPEC(swap_##TAG)(int seed, int other PARAMS) {                                          \
    vf_assume(OK);                                                                        \
    VALID("draws after setRandomGenerator");                                              \
    Random a(seed), b(seed), c(other);                                                    \
    D x(c __VA_ARGS__), y(b __VA_ARGS__);                                                 \
    x.setRandomGenerator(a);                                                              \
    auto x1 = x.next(), y1 = y.next();                                                    \
    REFUTE(x1 == y1, "draws come from the generator set last (" #D ")");                  \
    REFUTE(c.nextInt() == Random(other).nextInt(), "a replaced generator is not drawn from (" #D ")"); \
  }
#define C ,
DIST(bern, BernoulliDistribution, C double p, p >= 0 && p <= 1, C p)
DIST(binom, BinomialDistribution, C int n C double p, n >= 0 && n < 2147483647 && p >= 0 && p <= 1, C n C p)
DIST(gamma, GammaDistribution, C double k C double t, k > 0 && t > 0 && k < 1000, C k C t)
DIST(chi, ChiSquaredDistribution, C double r, r > 0 && r < 1000, C r)
DIST(expo, ExponentialDistribution, C double l, l > 0, C l)
DIST(negb, NegativeBinomialDistribution, C int r C double p, r > 0 && p > 0 && p <= 1, C r C p)
DIST(geom, GeometricDistribution, C double p, p > 0 && p <= 1, C p)
DIST(norm, NormalDistribution, C double m C double s, s > 0, C m C s)
DIST(pois, PoissonDistribution, C double l, l > 0, C l)
DIST(stud, StudentTDistribution, C double r, r > 0 && r < 1000, C r)
DIST(unif, UniformDistribution, C double l C double h, l <= h, C l C h)
DIST(uint, UniformIntDistribution, C int l C int h, l < h, C l C h)
