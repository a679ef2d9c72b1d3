// C16: sums, means, variances, powers, factorials and permutations are what their definitions say.
// LIBS: math_utils
#include "verif.h"
#include "math_utils/math_functions.h"
#include "containers.h"
#include <vector>
using namespace cuhksz;

// ---- the definitions (Sigma x, Sigma x^2 over the first n elements)
template <class T> static double S1(const T* a, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i]; return s; }
template <class T> static double S2(const T* a, int n) { double s = 0; for (int i = 0; i < n; i++) s += (double)a[i] * a[i]; return s; }
template <class T> static T ST(const T* a, int n) { T s = 0; for (int i = 0; i < n; i++) s += a[i]; return s; }

#define ARR(a, n, T) vf_extent(a, (long)n * (long)sizeof(T)); vf_readonly(a, "the array is not modified")

#define STATS(TAG, T)                                                                      \
  SPEC(sum_##TAG)(const T* a, int n) {                                                     \
    vf_assume(n >= 0 && n < 1000000); ARR(a, n, T);                                        \
    VALID("sum");                                                                          \
    CHECK(sum(a, n) == ST(a, n), "sum is the sum of the first n elements");                \
  }                                                                                        \
  SPEC(sum_neg_##TAG)(const T* a, int n) {                                                 \
    vf_assume(n <= 0);                                                                     \
    VALID("sum of no elements");                                                           \
    CHECK(sum(a, n) == 0, "sum over size <= 0 is 0");                                      \
  }                                                                                        \
  SPEC(sum_fn_##TAG)(const T* a, int n, double k) {                                        \
    vf_assume(n >= 0 && n < 1000000); ARR(a, n, T);                                        \
    VALID("sum with a function");                                                          \
    CHECK(sum(a, n, [k](T x) { return x * k + 1; }) == k * S1(a, n) + n, "sum maps every element"); \
  }                                                                                        \
  SPEC(mean_##TAG)(const T* a, int n) {                                                    \
    vf_assume(n > 0 && n < 1000000); ARR(a, n, T); vf_opt("overflow");                     \
    VALID("mean");                                                                         \
    CHECK(mean(a, n) * n == S1(a, n), "mean is the sum over the size");                    \
  }                                                                                        \
  SPEC(mean_neg_##TAG)(const T* a, int n) {                                                \
    vf_assume(n < 0);                                                                      \
    VALID("mean of no elements");                                                          \
    CHECK(mean(a, n) == 0, "mean over size < 0 is 0");                                     \
  }                                                                                        \
  SPEC(var_##TAG)(const T* a, int n) {                                                     \
    vf_assume(n > 0 && n < 1000000); ARR(a, n, T); vf_opt("overflow");                     \
    VALID("variance");                                                                     \
    double m = S1(a, n) / n;                                                               \
    CHECK(variance(a, n) * n == S2(a, n) - m * m * n, "population variance");              \
  }                                                                                        \
  SPEC(var_neg_##TAG)(const T* a, int n) {                                                 \
    vf_assume(n < 0);                                                                      \
    VALID("variance of no elements");                                                      \
    CHECK(variance(a, n) == 0 && sample_variance(a, n) == 0, "variance over size < 0 is 0"); \
  }                                                                                        \
  SPEC(svar_##TAG)(const T* a, int n) {                                                    \
    vf_assume(n > 1 && n < 1000000); ARR(a, n, T); vf_opt("overflow");                     \
    VALID("sample variance");                                                              \
    double m = S1(a, n) / n;                                                               \
    CHECK(sample_variance(a, n) * (n - 1) == S2(a, n) - m * m * n, "sample variance");     \
  }                                                                                        \
  SPEC(dev_##TAG)(const T* a, int n) {                                                     \
    vf_assume(n > 1 && n < 1000000); ARR(a, n, T); vf_opt("overflow");                     \
    VALID("standard deviations");                                                          \
    CHECK(stddev(a, n) == std::sqrt(variance(a, n)), "stddev is the root of the variance"); \
    CHECK(sample_stddev(a, n) == std::sqrt(sample_variance(a, n)), "sample stddev is the root of the sample variance"); \
  }
STATS(d, double)
STATS(i, int)

#define CONT(TAG, C, T)                                                                    \
  SPEC(csum_##TAG)(const C& c) {                                                           \
    vf_readonly(&c, "the container is not modified");                                      \
    VALID("sum");                                                                          \
    T s = 0; for (auto x : c) s += x;                                                      \
    CHECK(sum(c) == s, "sum is the sum of the elements");                                  \
  }                                                                                        \
  SPEC(csum_fn_##TAG)(const C& c, double k) {                                              \
    vf_readonly(&c, "the container is not modified");                                      \
    VALID("sum with a function");                                                          \
    double s = 0; for (auto x : c) s += x;                                                 \
    CHECK(sum(c, [k](T x) { return x * k + 1; }) == k * s + (int)c.size(), "sum maps every element"); \
  }                                                                                        \
  SPEC(cmean_##TAG)(const C& c) {                                                          \
    vf_readonly(&c, "the container is not modified"); vf_opt("overflow");                  \
    int n = c.size(); vf_assume(n > 0);                                                    \
    VALID("mean");                                                                         \
    double s = 0; for (auto x : c) s += x;                                                 \
    CHECK(mean(c) * n == s, "mean is the sum over the size");                              \
  }                                                                                        \
  SPEC(cvar_##TAG)(const C& c) {                                                           \
    vf_readonly(&c, "the container is not modified"); vf_opt("overflow");                  \
    int n = c.size(); vf_assume(n > 0);                                                    \
    VALID("variance");                                                                     \
    double s = 0, q = 0; for (auto x : c) { s += x; q += (double)x * x; }                  \
    CHECK(variance(c) * n == q - s / n * s, "population variance");                        \
  }                                                                                        \
  SPEC(csvar_##TAG)(const C& c) {                                                          \
    vf_readonly(&c, "the container is not modified"); vf_opt("overflow");                  \
    int n = c.size(); vf_assume(n > 1);                                                    \
    VALID("sample variance");                                                              \
    double s = 0, q = 0; for (auto x : c) { s += x; q += (double)x * x; }                  \
    CHECK(sample_variance(c) * (n - 1) == q - s / n * s, "sample variance");               \
  }                                                                                        \
  SPEC(cdev_##TAG)(const C& c) {                                                           \
    vf_readonly(&c, "the container is not modified");                                      \
    int n = c.size(); vf_assume(n > 1);                                                    \
    VALID("standard deviations");                                                          \
    CHECK(stddev(c) == std::sqrt(variance(c)), "stddev is the root of the variance");      \
    CHECK(sample_stddev(c) == std::sqrt(sample_variance(c)), "sample stddev is the root of the sample variance"); \
  }
CONT(sv, std::vector<double>, double)
CONT(si, std::vector<int>, int)
CONT(cv, Vector<double>, double)
CONT(ci, Vector<int>, int)
CONT(li, List<int>, int)

// ---- factorial, permutation: the products of their definitions
template <class T> static T FACT(T n) { T p = 1; for (T i = 1; i <= n; i++) p *= i; return p; }
template <class T> static T PERM(T n, T r) { T p = 1; for (T i = 0; i < r; i++) p *= n - i; return p; }
SPEC(fact_d)(int n) {
  vf_assume(n >= 0 && n <= 12);
  VALID("factorial");
  CHECK(factorial(n) == FACT(n), "n! is 1 * 2 * ... * n");
}
SPEC(perm_d)(int n, int r) {
  vf_assume(n >= 0 && n <= 12 && r >= 0 && r <= n);
  VALID("permutation");
  CHECK(permutation(n, r) == PERM(n, r), "nPr is n (n-1) ... (n-r+1)");
}
SPEC(fact_l)(long n) {
  vf_assume(n >= 0 && n <= 20);
  VALID("factorial");
  CHECK(factorial(n) == FACT(n), "n! is 1 * 2 * ... * n");
}
SPEC(perm_l)(long n, long r) {
  vf_assume(n >= 0 && n <= 20 && r >= 0 && r <= n);
  VALID("permutation");
  CHECK(permutation(n, r) == PERM(n, r), "nPr is n (n-1) ... (n-r+1)");
}

// ---- powers: b^e is the e-fold product
template <class T> static T POW(T b, int e) { T p = 1; for (int i = 0; i < e; i++) p *= b; return p; }
SPEC(bpow)(int64_t b, int e) {
  vf_assume(e >= 0 && e <= 62);
  VALID("binaryPow");
  CHECK(binaryPow(b, e) == POW(b, e), "binaryPow is the e-fold product");
}
SPEC(gpow_l)(long b, int e) {
  vf_assume(e >= 0 && e <= 62);
  VALID("genericBinaryPow");
  CHECK(genericBinaryPow(b, e) == POW(b, e), "genericBinaryPow is the e-fold product");
}
SPEC(gpow_d)(double b, int e) {
  vf_assume(e >= 0 && e <= 1000);
  VALID("genericBinaryPow");
  CHECK(genericBinaryPow(b, e) == POW(b, e), "genericBinaryPow is the e-fold product");
}
struct Elem { double v; Elem& operator*=(const Elem& o) { v *= o.v; return *this; } };
SPEC(gpow_nc)(Elem& b, int e) {
  vf_assume(e > 0 && e <= 1000);
  VALID("genericBinaryPow");
  double v = b.v;
  CHECK(genericBinaryPow(b, e).v == POW(v, e), "genericBinaryPow is the e-fold product");
}

// ---- binomial: the numbers of Pascal's triangle
template <typename T>
static void pascal(int from, int to) {
  long row[70];
  for (int i = 0; i < 70; i++) row[i] = 0;
  row[0] = 1;
  for (int n = 0; n <= to; n++) {
    if (n >= from)
      for (int r = 0; r <= n; r++) CHECK(binomial((T)n, (T)r) == row[r], "nCr is the number of choices");
    for (int r = n + 1; r > 0; r--) row[r] += row[r - 1];
  }
}
SPEC(binomial_int)() { VALID("binomial"); vf_opt("paths"); pascal<int>(0, 13); }
SPEC(binomial_int_20)() { VALID("binomial"); vf_opt("paths"); pascal<int>(20, 21); }
SPEC(binomial_int_33)() { VALID("binomial"); vf_opt("paths"); pascal<int>(33, 33); }
SPEC(binomial_long)() { VALID("binomial"); vf_opt("paths"); pascal<long>(0, 8); }
SPEC(binomial_long_40)() { VALID("binomial"); vf_opt("paths"); pascal<long>(40, 40); }
SPEC(binomial_line)(int n) {
  vf_assume(n >= 0);
  VALID("binomial");
  CHECK(binomial(n, 0) == 1 && binomial(n, n) == 1, "one way to choose none or all");
}
// ---- powers of given bases, one by one
static void powers(int64_t b, int to) {
  int64_t p = 1;
  for (int e = 0; e <= to; e++) {
    CHECK(binaryPow(b, e) == p, "binaryPow is the e-fold product");
    CHECK(genericBinaryPow(b, e) == p, "genericBinaryPow is the e-fold product");
    if (e < to) p *= b;
  }
}
#define POWERS(name, b, to) SPEC(powers_##name)() { vf_opt("paths"); VALID("powers"); powers(b, to); }
POWERS(0, 0, 9)
POWERS(1, 1, 40)
POWERS(2, 2, 61)
POWERS(3, 3, 16)
POWERS(7, 7, 16)
POWERS(10, 10, 15)
POWERS(m1, -1, 9)
POWERS(m2, -2, 31)
POWERS(m5, -5, 15)
