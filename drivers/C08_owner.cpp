// C08: a distribution releases exactly the generator it created, and draws from the one it was given last.
// LIBS: random math_utils
#include "verif.h"
#include "random.h"
#include <type_traits>
#include <utility>
using namespace cuhksz;
#define RELEASED "the distribution releases what it allocated"

// ---- BernoulliDistribution
SPEC(own_bern)(double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("lifetime of a distribution with its own generator");
  { BernoulliDistribution d(p); }
  vf_noleak(RELEASED);
}
SPEC(heap_bern)(double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("lifetime of a distribution on the heap");
  auto* d = new BernoulliDistribution(p);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_bern)(int seed, double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { BernoulliDistribution d(*g, p); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_bern)(int seed, double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    BernoulliDistribution d(p);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_bern)(int seed, double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    BernoulliDistribution d(*g, p);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_bern(Random& g, double p) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(p); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(p); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(p); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(p); T e(p); e = d; T f(g, p); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(p); T e(p); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(p); T e(p); e = std::move(d); }
}
SPEC(copy_bern)(Random& g, double p) {
  vf_assume(p >= 0 && p <= 1);
  VALID("copies of a distribution, where they compile");
  cp_bern<BernoulliDistribution>(g, p);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- BinomialDistribution
SPEC(own_binom)(int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("lifetime of a distribution with its own generator");
  { BinomialDistribution d(n, p); }
  vf_noleak(RELEASED);
}
SPEC(heap_binom)(int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("lifetime of a distribution on the heap");
  auto* d = new BinomialDistribution(n, p);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_binom)(int seed, int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { BinomialDistribution d(*g, n, p); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_binom)(int seed, int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    BinomialDistribution d(n, p);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_binom)(int seed, int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    BinomialDistribution d(*g, n, p);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_binom(Random& g, int n, double p) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(n, p); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(n, p); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(n, p); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(n, p); T e(n, p); e = d; T f(g, n, p); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(n, p); T e(n, p); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(n, p); T e(n, p); e = std::move(d); }
}
SPEC(copy_binom)(Random& g, int n, double p) {
  vf_assume(n >= 0 && n < 2147483647 && p >= 0 && p <= 1);
  VALID("copies of a distribution, where they compile");
  cp_binom<BinomialDistribution>(g, n, p);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- GammaDistribution
SPEC(own_gamma)(double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("lifetime of a distribution with its own generator");
  { GammaDistribution d(k, t); }
  vf_noleak(RELEASED);
}
SPEC(heap_gamma)(double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new GammaDistribution(k, t);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_gamma)(int seed, double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { GammaDistribution d(*g, k, t); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_gamma)(int seed, double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    GammaDistribution d(k, t);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_gamma)(int seed, double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    GammaDistribution d(*g, k, t);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_gamma(Random& g, double k, double t) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(k, t); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(k, t); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(k, t); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(k, t); T e(k, t); e = d; T f(g, k, t); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(k, t); T e(k, t); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(k, t); T e(k, t); e = std::move(d); }
}
SPEC(copy_gamma)(Random& g, double k, double t) {
  vf_assume(k > 0 && t > 0);
  VALID("copies of a distribution, where they compile");
  cp_gamma<GammaDistribution>(g, k, t);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- ChiSquaredDistribution
SPEC(own_chi)(double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution with its own generator");
  { ChiSquaredDistribution d(r); }
  vf_noleak(RELEASED);
}
SPEC(heap_chi)(double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new ChiSquaredDistribution(r);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_chi)(int seed, double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { ChiSquaredDistribution d(*g, r); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_chi)(int seed, double r) {
  vf_assume(r > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    ChiSquaredDistribution d(r);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_chi)(int seed, double r) {
  vf_assume(r > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    ChiSquaredDistribution d(*g, r);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_chi(Random& g, double r) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(r); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(r); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(r); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(r); T e(r); e = d; T f(g, r); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(r); T e(r); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(r); T e(r); e = std::move(d); }
}
SPEC(copy_chi)(Random& g, double r) {
  vf_assume(r > 0);
  VALID("copies of a distribution, where they compile");
  cp_chi<ChiSquaredDistribution>(g, r);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- ExponentialDistribution
SPEC(own_expo)(double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution with its own generator");
  { ExponentialDistribution d(l); }
  vf_noleak(RELEASED);
}
SPEC(heap_expo)(double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new ExponentialDistribution(l);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_expo)(int seed, double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { ExponentialDistribution d(*g, l); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_expo)(int seed, double l) {
  vf_assume(l > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    ExponentialDistribution d(l);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_expo)(int seed, double l) {
  vf_assume(l > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    ExponentialDistribution d(*g, l);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_expo(Random& g, double l) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(l); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(l); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(l); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(l); T e(l); e = d; T f(g, l); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(l); T e(l); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(l); T e(l); e = std::move(d); }
}
SPEC(copy_expo)(Random& g, double l) {
  vf_assume(l > 0);
  VALID("copies of a distribution, where they compile");
  cp_expo<ExponentialDistribution>(g, l);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- NegativeBinomialDistribution
SPEC(own_negb)(int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("lifetime of a distribution with its own generator");
  { NegativeBinomialDistribution d(r, p); }
  vf_noleak(RELEASED);
}
SPEC(heap_negb)(int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("lifetime of a distribution on the heap");
  auto* d = new NegativeBinomialDistribution(r, p);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_negb)(int seed, int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { NegativeBinomialDistribution d(*g, r, p); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_negb)(int seed, int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    NegativeBinomialDistribution d(r, p);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_negb)(int seed, int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    NegativeBinomialDistribution d(*g, r, p);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_negb(Random& g, int r, double p) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(r, p); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(r, p); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(r, p); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(r, p); T e(r, p); e = d; T f(g, r, p); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(r, p); T e(r, p); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(r, p); T e(r, p); e = std::move(d); }
}
SPEC(copy_negb)(Random& g, int r, double p) {
  vf_assume(r > 0 && p > 0 && p <= 1);
  VALID("copies of a distribution, where they compile");
  cp_negb<NegativeBinomialDistribution>(g, r, p);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- GeometricDistribution
SPEC(own_geom)(double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("lifetime of a distribution with its own generator");
  { GeometricDistribution d(p); }
  vf_noleak(RELEASED);
}
SPEC(heap_geom)(double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("lifetime of a distribution on the heap");
  auto* d = new GeometricDistribution(p);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_geom)(int seed, double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { GeometricDistribution d(*g, p); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_geom)(int seed, double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    GeometricDistribution d(p);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_geom)(int seed, double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    GeometricDistribution d(*g, p);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_geom(Random& g, double p) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(p); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(p); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(p); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(p); T e(p); e = d; T f(g, p); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(p); T e(p); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(p); T e(p); e = std::move(d); }
}
SPEC(copy_geom)(Random& g, double p) {
  vf_assume(p > 0 && p <= 1);
  VALID("copies of a distribution, where they compile");
  cp_geom<GeometricDistribution>(g, p);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- NormalDistribution
SPEC(own_norm)(double m, double s) {
  vf_assume(s > 0);
  VALID("lifetime of a distribution with its own generator");
  { NormalDistribution d(m, s); }
  vf_noleak(RELEASED);
}
SPEC(heap_norm)(double m, double s) {
  vf_assume(s > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new NormalDistribution(m, s);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_norm)(int seed, double m, double s) {
  vf_assume(s > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { NormalDistribution d(*g, m, s); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_norm)(int seed, double m, double s) {
  vf_assume(s > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    NormalDistribution d(m, s);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_norm)(int seed, double m, double s) {
  vf_assume(s > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    NormalDistribution d(*g, m, s);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_norm(Random& g, double m, double s) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(m, s); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(m, s); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(m, s); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(m, s); T e(m, s); e = d; T f(g, m, s); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(m, s); T e(m, s); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(m, s); T e(m, s); e = std::move(d); }
}
SPEC(copy_norm)(Random& g, double m, double s) {
  vf_assume(s > 0);
  VALID("copies of a distribution, where they compile");
  cp_norm<NormalDistribution>(g, m, s);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- PoissonDistribution
SPEC(own_pois)(double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution with its own generator");
  { PoissonDistribution d(l); }
  vf_noleak(RELEASED);
}
SPEC(heap_pois)(double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new PoissonDistribution(l);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_pois)(int seed, double l) {
  vf_assume(l > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { PoissonDistribution d(*g, l); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_pois)(int seed, double l) {
  vf_assume(l > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    PoissonDistribution d(l);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_pois)(int seed, double l) {
  vf_assume(l > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    PoissonDistribution d(*g, l);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_pois(Random& g, double l) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(l); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(l); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(l); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(l); T e(l); e = d; T f(g, l); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(l); T e(l); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(l); T e(l); e = std::move(d); }
}
SPEC(copy_pois)(Random& g, double l) {
  vf_assume(l > 0);
  VALID("copies of a distribution, where they compile");
  cp_pois<PoissonDistribution>(g, l);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- StudentTDistribution
SPEC(own_stud)(double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution with its own generator");
  { StudentTDistribution d(r); }
  vf_noleak(RELEASED);
}
SPEC(heap_stud)(double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution on the heap");
  auto* d = new StudentTDistribution(r);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_stud)(int seed, double r) {
  vf_assume(r > 0);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { StudentTDistribution d(*g, r); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_stud)(int seed, double r) {
  vf_assume(r > 0);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    StudentTDistribution d(r);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_stud)(int seed, double r) {
  vf_assume(r > 0);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    StudentTDistribution d(*g, r);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_stud(Random& g, double r) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(r); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(r); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(r); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(r); T e(r); e = d; T f(g, r); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(r); T e(r); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(r); T e(r); e = std::move(d); }
}
SPEC(copy_stud)(Random& g, double r) {
  vf_assume(r > 0);
  VALID("copies of a distribution, where they compile");
  cp_stud<StudentTDistribution>(g, r);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- UniformDistribution
SPEC(own_unif)(double l, double h) {
  vf_assume(l <= h);
  VALID("lifetime of a distribution with its own generator");
  { UniformDistribution d(l, h); }
  vf_noleak(RELEASED);
}
SPEC(heap_unif)(double l, double h) {
  vf_assume(l <= h);
  VALID("lifetime of a distribution on the heap");
  auto* d = new UniformDistribution(l, h);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_unif)(int seed, double l, double h) {
  vf_assume(l <= h);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { UniformDistribution d(*g, l, h); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_unif)(int seed, double l, double h) {
  vf_assume(l <= h);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    UniformDistribution d(l, h);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_unif)(int seed, double l, double h) {
  vf_assume(l <= h);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    UniformDistribution d(*g, l, h);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_unif(Random& g, double l, double h) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(l, h); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(l, h); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(l, h); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(l, h); T e(l, h); e = d; T f(g, l, h); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(l, h); T e(l, h); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(l, h); T e(l, h); e = std::move(d); }
}
SPEC(copy_unif)(Random& g, double l, double h) {
  vf_assume(l <= h);
  VALID("copies of a distribution, where they compile");
  cp_unif<UniformDistribution>(g, l, h);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- UniformIntDistribution
SPEC(own_uint)(int l, int h) {
  vf_assume(l < h);
  VALID("lifetime of a distribution with its own generator");
  { UniformIntDistribution d(l, h); }
  vf_noleak(RELEASED);
}
SPEC(heap_uint)(int l, int h) {
  vf_assume(l < h);
  VALID("lifetime of a distribution on the heap");
  auto* d = new UniformIntDistribution(l, h);
  delete d;
  vf_noleak(RELEASED);
}
SPEC(given_uint)(int seed, int l, int h) {
  vf_assume(l < h);
  VALID("lifetime of a distribution on the caller's generator");
  Random* g = new Random(seed);
  { UniformIntDistribution d(*g, l, h); }
  int a = g->nextInt();
  delete g;
  CHECK(a == Random(seed).nextInt(), "building a distribution draws nothing from the caller's generator");
  vf_noleak(RELEASED);
}
SPEC(set_own_uint)(int seed, int l, int h) {
  vf_assume(l < h);
  VALID("setRandomGenerator on a distribution with its own generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    UniformIntDistribution d(l, h);
    d.setRandomGenerator(*g);
    vf_sink(g->nextInt());
    d.setRandomGenerator(*h2);
    d.setRandomGenerator(*h2);
    vf_sink(d.next());
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
SPEC(set_given_uint)(int seed, int l, int h) {
  vf_assume(l < h);
  VALID("setRandomGenerator on a distribution with the caller's generator");
  Random* g = new Random(seed);
  Random* h2 = new Random(seed);
  {
    UniformIntDistribution d(*g, l, h);
    d.setRandomGenerator(*h2);
    vf_sink(g->nextInt(), h2->nextInt());
    d.setRandomGenerator(*g);
  }
  vf_sink(g->nextInt(), h2->nextInt());
  delete g;
  delete h2;
  vf_noleak(RELEASED);
}
// where the class can be copied, moved or assigned at all, that keeps the same discipline
template <class T> static void cp_uint(Random& g, int l, int h) {
  if constexpr (std::is_constructible<T, T&>::value) { T d(l, h); T e(d); }
  if constexpr (std::is_constructible<T, const T&>::value) { T d(l, h); T e(static_cast<const T&>(d)); }
  if constexpr (std::is_constructible<T, T&&>::value) { T d(l, h); T e(std::move(d)); }
  if constexpr (std::is_assignable<T&, T&>::value) { T d(l, h); T e(l, h); e = d; T f(g, l, h); f = d; d = f; }
  if constexpr (std::is_assignable<T&, const T&>::value) { T d(l, h); T e(l, h); e = static_cast<const T&>(d); }
  if constexpr (std::is_assignable<T&, T&&>::value) { T d(l, h); T e(l, h); e = std::move(d); }
}
SPEC(copy_uint)(Random& g, int l, int h) {
  vf_assume(l < h);
  VALID("copies of a distribution, where they compile");
  cp_uint<UniformIntDistribution>(g, l, h);
  vf_sink(g.nextInt());
  vf_noleak(RELEASED);
}

// ---- the shared generator of the free functions is created once and stays reachable
SPEC(shared)(int l, int h) {
  vf_assume(l < h);
  VALID("free functions");
  vf_sink(randomInt(), randomBool(), randomDouble(), randomInt(l, h));
  vf_noleak("the shared generator is created once");
}
