// C06: math functions stop outside their domain and only there, and stay in bounds.
// LIBS: math_utils
#include "verif.h"
#include "math_utils/math_functions.h"
#include "math_utils/Fraction.h"
#include <vector>
using namespace cuhksz;

#define STOPS(TAG, PARAMS, COND, EXPR)                 \
  SPEC(TAG) PARAMS {                                   \
    vf_assume(COND);                                   \
    INVALID("out of domain: " #EXPR);                  \
    vf_sink(EXPR);                                     \
    MUST_STOP("rejected: " #EXPR);                     \
  }
#define RETURNS(TAG, PARAMS, COND, EXPR)               \
  SPEC(TAG) PARAMS {                                   \
    vf_assume(COND);                                   \
    vf_opt("divzero");                                 \
    VALID("in domain: " #EXPR);                        \
    vf_sink(EXPR);                                     \
  }

STOPS(bpow_neg, (int64_t b, int e), e < 0, binaryPow(b, e))
RETURNS(bpow_ok, (int64_t b, int e), e >= 0, binaryPow(b, e))
SPEC(bpow_zero)(int64_t b) { VALID("binaryPow(b, 0)"); CHECK(binaryPow(b, 0) == 1, "b^0 == 1"); }
SPEC(bpow_one)(int64_t b) { VALID("binaryPow(b, 1)"); CHECK(binaryPow(b, 1) == b, "b^1 == b"); }

STOPS(gpow_neg, (double b, int e), e < 0, genericBinaryPow(b, e))
STOPS(gpow_neg_i, (long b, long e), e < 0, genericBinaryPow(b, e))
RETURNS(gpow_ok, (double b, int e), e >= 0, genericBinaryPow(b, e))
RETURNS(gpow_ok_i, (long b, long e), e >= 0, genericBinaryPow(b, e))

struct Elem { double v; Elem& operator*=(const Elem& o) { v *= o.v; return *this; } };
STOPS(gpow_nc_neg, (Elem& b, int e), e <= 0, genericBinaryPow(b, e).v)
RETURNS(gpow_nc_ok, (Elem& b, int e), e > 0, genericBinaryPow(b, e).v)

STOPS(fact_neg, (int n), n < 0, factorial(n))
RETURNS(fact_ok, (int n), n >= 0 && n < 2147483647, factorial(n))
STOPS(fact_neg_l, (long n), n < 0, factorial(n))
RETURNS(fact_ok_l, (long n), n >= 0 && n < 1000000, factorial(n))
STOPS(perm_bad, (int n, int r), n < 0 || r < 0 || r > n, permutation(n, r))
RETURNS(perm_ok, (int n, int r), n >= 0 && r >= 0 && r <= n, permutation(n, r))
STOPS(perm_bad_l, (long n, long r), n < 0 || r < 0 || r > n, permutation(n, r))
STOPS(binom_bad, (int n, int r), n < 0 || r < 0 || r > n, binomial(n, r))
RETURNS(binom_ok, (int n, int r), n >= 0 && r >= 0 && r <= n, binomial(n, r))
STOPS(binom_bad_l, (long n, long r), n < 0 || r < 0 || r > n, binomial(n, r))
RETURNS(binom_ok_l, (long n, long r), n >= 0 && r >= 0 && r <= n && n < 2000000000, binomial(n, r))

RETURNS(gcd_ok, (int a, int b), true, gcd(a, b))
RETURNS(gcd_ok_l, (long a, long b), true, gcd(a, b))
RETURNS(lcm_ok, (int a, int b), a > 0 && b > 0, lcm(a, b))

STOPS(frac_zero, (int n), true, Fraction(n, 0).getNumerator())
RETURNS(frac_ok, (int n, int d), d != 0, Fraction(n, d).getNumerator())
STOPS(frac_div0, (int n, int d), d > 0, (Fraction(n, d) / Fraction(0)).getNumerator())
STOPS(frac_div0_i, (int n), true, (n / Fraction(0)).getNumerator())
SPEC(frac_div0_eq)(int n, int d) {
  vf_assume(d > 0 && n > -1000 && n < 1000 && d < 1000);
  Fraction f(n, d);
  INVALID("f /= 0");
  f /= 0;
  MUST_STOP("rejected: f /= 0");
}
