// C09: every sampled value lies in the documented range of its generator method or distribution.
// LIBS: random math_utils
#include "verif.h"
#include "random.h"
using namespace cuhksz;

// ---- generator methods and free functions
#define INTS(TAG, PARAMS, OK, LO, HI, EXPR)                                     \
  SPEC(TAG) PARAMS {                                                            \
    vf_assume(OK);                                                              \
    VALID(#EXPR);                                                               \
    auto x = EXPR;                                                              \
    CHECK(x >= (LO), "not below the lower bound: " #EXPR);                      \
    CHECK(x < (HI), "below the excluded upper bound: " #EXPR);                  \
    auto y = EXPR;                                                              \
    CHECK(y >= (LO) && y < (HI), "every draw is in range: " #EXPR);             \
  }
INTS(int2, (Random& g, int a, int b), a < b, a, b, g.nextInt(a, b))
INTS(int1, (Random& g, int b), b > 0, 0, b, g.nextInt(b))
INTS(dbl2, (Random& g, double a, double b), a < b, a, b, g.nextDouble(a, b))
INTS(dbl1, (Random& g, double b), b > 0, 0, b, g.nextDouble(b))
INTS(dbl0, (Random& g), true, 0, 1, g.nextDouble())
INTS(rint2, (int a, int b), a < b, a, b, randomInt(a, b))
INTS(rint1, (int b), b > 0, 0, b, randomInt(b))
INTS(rdbl2, (double a, double b), a < b, a, b, randomDouble(a, b))
INTS(rdbl1, (double b), b > 0, 0, b, randomDouble(b))
INTS(rdbl0, (), true, 0, 1, randomDouble())
INTS(rint2_seed, (int seed, int a, int b), a < b, a, b, Random(seed).nextInt(a, b))
INTS(rdbl2_seed, (int seed, double a, double b), a < b, a, b, Random(seed).nextDouble(a, b))
SPEC(dbl2_point)(Random& g, double a) {
  VALID("nextDouble(a, a)");
  CHECK(g.nextDouble(a, a) == a, "an empty range gives its only bound");
  CHECK(randomDouble(a, a) == a, "an empty range gives its only bound");
}
SPEC(dbl1_zero)(Random& g) {
  VALID("nextDouble(0)");
  CHECK(g.nextDouble(0.0) == 0 && randomDouble(0.0) == 0, "an empty range gives its only bound");
}
// the whole range of a draw is used: both ends of an int range can come up
SPEC(int_word)(Random& g) {
  VALID("nextInt()");
  vf_opt("overflow");
  vf_sink(g.nextInt(), randomInt());
}
// rounding: the excluded bound is excluded for every value of the generator, not only for exact arithmetic
// ---- distributions
#define DIST(TAG, D, PARAMS, OK, GARGS, ARGS, POST)                             \
  SPEC(TAG) PARAMS {                                                            \
    vf_assume(OK);                                                              \
    VALID("draws from " #D);                                                    \
    vf_opt("sqrtdom");                                                          \
    D d GARGS;                                                                  \
    auto x = d.next();                                                          \
    CHECK(POST, "the sample is in the support (" #D ")");                       \
    x = d.next();                                                               \
    CHECK(POST, "the next sample is in the support (" #D ")");                  \
  }                                                                             \
  SPEC(TAG##_own) PARAMS {                                                      \
    vf_assume(OK);                                                              \
    VALID("draws from " #D);                                                    \
    D d ARGS;                                                                   \
    auto x = d.next();                                                          \
    CHECK(POST, "the sample is in the support (" #D ", own generator)");        \
  }
DIST(unif, UniformDistribution, (Random& g, double l, double h), l < h, (g, l, h), (l, h), x >= l && x < h)
DIST(unif1, UniformDistribution, (Random& g, double h), h > 0, (g, h), (h), x >= 0 && x < h)
DIST(unif_p, UniformDistribution, (Random& g, double l), true, (g, l, l), (l, l), x == l)
DIST(uint, UniformIntDistribution, (Random& g, int l, int h), l < h, (g, l, h), (l, h), x >= l && x < h)
DIST(uint1, UniformIntDistribution, (Random& g, int h), h > 0, (g, h), (h), x >= 0 && x < h)
DIST(bern_0, BernoulliDistribution, (Random& g), true, (g, 0), (0.0), !x)
DIST(bern_1, BernoulliDistribution, (Random& g), true, (g, 1), (1.0), x)
DIST(binom, BinomialDistribution, (Random& g, int n, double p), n >= 0 && n < 2147483647 && p >= 0 && p <= 1, (g, n, p), (n, p), x >= 0 && x <= n)
DIST(binom_1, BinomialDistribution, (Random& g), true, (g, 2, 1), (2, 1.0), x == 2)
DIST(binom_0, BinomialDistribution, (Random& g), true, (g, 2, 0), (2, 0.0), x == 0)
DIST(pois, PoissonDistribution, (Random& g, double l), l > 0 && l < 100, (g, l), (l), x >= 0)
DIST(negb, NegativeBinomialDistribution, (Random& g, int r, double p), r > 0 && r < 1000 && p > 0 && p <= 1, (g, r, p), (r, p), x >= 0)
DIST(negb_1, NegativeBinomialDistribution, (Random& g, int r), r > 0, (g, r, 1), (r, 1.0), x == 0)
DIST(geom, GeometricDistribution, (Random& g, double p), p > 0 && p <= 1, (g, p), (p), x >= 0)
DIST(geom_1, GeometricDistribution, (Random& g), true, (g, 1), (1.0), x == 0)
DIST(gamma, GammaDistribution, (Random& g, double k, double t), k > 0 && t > 0 && k < 1000, (g, k, t), (k, t), x >= 0)
DIST(chi, ChiSquaredDistribution, (Random& g, double r), r > 0 && r < 1000, (g, r), (r), x >= 0)
DIST(expo, ExponentialDistribution, (Random& g, double l), l > 0, (g, l), (l), x >= 0)
DIST(norm, NormalDistribution, (Random& g, double m, double s), s > 0, (g, m, s), (m, s), true)
DIST(stud, StudentTDistribution, (Random& g, double r), r > 0 && r < 1000, (g, r), (r), true)
