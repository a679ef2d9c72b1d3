// C05: generators and distributions accept exactly their documented parameters.
// LIBS: random math_utils
#include "verif.h"
#include "random.h"
using namespace cuhksz;

#define DIST(TAG, D, PARAMS, ARGS, OK, ACC)                               \
  SPEC(TAG##_ok) PARAMS {                                                 \
    vf_assume(OK);                                                        \
    VALID("valid parameters (" #D ")");                                   \
    D d ARGS;                                                             \
    CHECK(ACC, "accessors return the parameters (" #D ")");               \
  }                                                                       \
  SPEC(TAG##_bad) PARAMS {                                                \
    vf_assume(!(OK));                                                     \
    INVALID("invalid parameters (" #D ")");                               \
    D d ARGS;                                                             \
    MUST_STOP("invalid parameters are rejected (" #D ")");                \
  }

// Bernoulli: 0 <= p <= 1
DIST(bern, BernoulliDistribution, (double p), (p), (p >= 0 && p <= 1), (d.p() == p))
DIST(bern_r, BernoulliDistribution, (Random& g, double p), (g, p), (p >= 0 && p <= 1), (d.p() == p))
// Binomial: n >= 0, 0 <= p <= 1
#define BINOM(TAG, PARAMS, ARGS)                                          \
  SPEC(TAG##_ok) PARAMS {                                                 \
    vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);              \
    VALID("valid parameters (BinomialDistribution)");                     \
    BinomialDistribution d ARGS;                                          \
    CHECK(d.n() == n && d.p() == p, "accessors return the parameters (BinomialDistribution)"); \
  }                                                                       \
  SPEC(TAG##_bad) PARAMS {                                                \
    vf_assume(n < 0 || p < 0 || p > 1);                                   \
    INVALID("invalid parameters (BinomialDistribution)");                 \
    BinomialDistribution d ARGS;                                          \
    MUST_STOP("invalid parameters are rejected (BinomialDistribution)");  \
  }
BINOM(binom, (int n, double p), (n, p))
BINOM(binom_r, (Random& g, int n, double p), (g, n, p))
// Gamma: k > 0, theta > 0
DIST(gamma, GammaDistribution, (double k, double t), (k, t), (k > 0 && t > 0), (d.k() == k && d.theta() == t))
DIST(gamma_r, GammaDistribution, (Random& g, double k, double t), (g, k, t), (k > 0 && t > 0), (d.k() == k && d.theta() == t))
// Chi-squared: r > 0
DIST(chi, ChiSquaredDistribution, (double r), (r), (r > 0), (d.r() == r && d.k() == r / 2 && d.theta() == 2))
DIST(chi_r, ChiSquaredDistribution, (Random& g, double r), (g, r), (r > 0), (d.r() == r && d.k() == r / 2 && d.theta() == 2))
// Exponential: lambda > 0
DIST(expo, ExponentialDistribution, (double l), (l), (l > 0), (d.theta() * l == 1 && d.k() == 1 && d.lambda() == l))
DIST(expo_r, ExponentialDistribution, (Random& g, double l), (g, l), (l > 0), (d.theta() * l == 1 && d.k() == 1 && d.lambda() == l))
// Negative binomial: r > 0, 0 < p <= 1
DIST(negb, NegativeBinomialDistribution, (int r, double p), (r, p), (r > 0 && p > 0 && p <= 1), (d.r() == r && d.p() == p))
DIST(negb_r, NegativeBinomialDistribution, (Random& g, int r, double p), (g, r, p), (r > 0 && p > 0 && p <= 1), (d.r() == r && d.p() == p))
// Geometric: 0 < p <= 1
DIST(geom, GeometricDistribution, (double p), (p), (p > 0 && p <= 1), (d.p() == p && d.r() == 1))
DIST(geom_r, GeometricDistribution, (Random& g, double p), (g, p), (p > 0 && p <= 1), (d.p() == p && d.r() == 1))
// Normal: stddev > 0
DIST(norm, NormalDistribution, (double m, double s), (m, s), (s > 0), (d.mean() == m && d.stddev() == s))
DIST(norm_r, NormalDistribution, (Random& g, double m, double s), (g, m, s), (s > 0), (d.mean() == m && d.stddev() == s))
// Poisson: lambda > 0
DIST(pois, PoissonDistribution, (double l), (l), (l > 0), (d.lambda() == l))
DIST(pois_r, PoissonDistribution, (Random& g, double l), (g, l), (l > 0), (d.lambda() == l))
// Student t: r > 0
DIST(stud, StudentTDistribution, (double r), (r), (r > 0), (d.r() == r))
DIST(stud_r, StudentTDistribution, (Random& g, double r), (g, r), (r > 0), (d.r() == r))
// Uniform: min <= max
DIST(unif, UniformDistribution, (double a, double b), (a, b), (a <= b), (d.min() == a && d.max() == b))
DIST(unif_r, UniformDistribution, (Random& g, double a, double b), (g, a, b), (a <= b), (d.min() == a && d.max() == b))
DIST(unif1, UniformDistribution, (double b), (b), (b >= 0), (d.min() == 0 && d.max() == b))
DIST(unif1_r, UniformDistribution, (Random& g, double b), (g, b), (b >= 0), (d.min() == 0 && d.max() == b))
// Uniform integers: min < max
DIST(uint, UniformIntDistribution, (int a, int b), (a, b), (a < b), (d.min() == a && d.max() == b))
DIST(uint_r, UniformIntDistribution, (Random& g, int a, int b), (g, a, b), (a < b), (d.min() == a && d.max() == b))
DIST(uint1, UniformIntDistribution, (int b), (b), (b > 0), (d.min() == 0 && d.max() == b))
DIST(uint1_r, UniformIntDistribution, (Random& g, int b), (g, b), (b > 0), (d.min() == 0 && d.max() == b))

// defaults
SPEC(defaults)(Random& g) {
  VALID("default parameters");
  BernoulliDistribution b;
  BernoulliDistribution b2(g);
  NormalDistribution n;
  NormalDistribution n2(g);
  UniformDistribution u;
  GeometricDistribution e(g);
  CHECK(b.p() == 0.5 && b2.p() == 0.5, "Bernoulli defaults to p = 0.5");
  CHECK(n.mean() == 0 && n.stddev() == 1 && n2.mean() == 0 && n2.stddev() == 1, "Normal defaults to mean 0, stddev 1");
  CHECK(u.min() == 0 && u.max() == 1, "Uniform defaults to [0, 1)");
  CHECK(e.p() == 0.5, "Geometric defaults to p = 0.5");
}

#define CALL(TAG, PARAMS, EXPR, OK)                                       \
  SPEC(TAG##_ok) PARAMS {                                                 \
    vf_opt("overflow");                                                   \
    vf_assume(OK);                                                        \
    VALID("valid range for " #EXPR);                                      \
    vf_sink(EXPR);                                                        \
  }                                                                       \
  SPEC(TAG##_bad) PARAMS {                                                \
    vf_assume(!(OK));                                                     \
    INVALID("invalid range for " #EXPR);                                  \
    vf_sink(EXPR);                                                        \
    MUST_STOP("an invalid range is rejected: " #EXPR);                    \
  }
CALL(nextint2, (Random& g, int a, int b), g.nextInt(a, b), a < b)
CALL(nextint1, (Random& g, int b), g.nextInt(b), b > 0)
CALL(nextdbl2, (Random& g, double a, double b), g.nextDouble(a, b), a <= b)
CALL(nextdbl1, (Random& g, double b), g.nextDouble(b), b >= 0)
CALL(rint2, (int a, int b), randomInt(a, b), a < b)
CALL(rint1, (int b), randomInt(b), b > 0)
CALL(rdbl2, (double a, double b), randomDouble(a, b), a <= b)
CALL(rdbl1, (double b), randomDouble(b), b >= 0)
SPEC(noarg)(Random& g) {
  vf_opt("overflow");
  VALID("calls without parameters");
  vf_sink(g.nextInt(), g.nextDouble(), g.nextBool(), randomInt(), randomDouble(), randomBool());
}

// the shared generator is reused, not only created, by the free functions
CALL(rint2_warm, (int a, int b), (randomBool(), randomInt(a, b)), a < b)
CALL(rdbl2_warm, (double a, double b), (randomBool(), randomDouble(a, b)), a <= b)
