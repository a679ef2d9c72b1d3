// C15: gcd, lcm and Fraction arithmetic are exact.
// LIBS: math_utils
#include "verif.h"
#include "math_utils/math_functions.h"
#include "math_utils/Fraction.h"
using namespace cuhksz;

// ---- gcd / lcm
#define GCD(TAG, T)                                                          \
  SPEC(gcd_divides_##TAG)(T a, T b) {                                        \
    vf_assume((a != 0 || b != 0) && a > -30000 && b > -30000 && a < 30000 && b < 30000); \
    VALID("gcd");                                                            \
    T g = gcd(a, b);                                                         \
    CHECK(g != 0, "gcd of a pair that is not (0, 0) is not 0");              \
    CHECK(a % g == 0 && b % g == 0, "gcd divides both arguments");           \
  }                                                                          \
  SPEC(gcd_greatest_##TAG)(T c, T x, T y) {                                  \
    vf_assume(c > 0 && c < 1000 && x > 0 && y > 0 && x < 30000 && y < 30000); \
    VALID("gcd");                                                            \
    T g = gcd(c * x, c * y);                                                 \
    CHECK(g % c == 0, "every common divisor divides the gcd");               \
  }                                                                          \
  SPEC(gcd_sign_##TAG)(T a, T b) {                                           \
    vf_assume(a >= 0 && b >= 0);                                             \
    VALID("gcd");                                                            \
    CHECK(gcd(a, b) >= 0, "gcd of non-negative numbers is non-negative");    \
  }                                                                          \
  SPEC(gcd_zero_##TAG)(T a) {                                                \
    VALID("gcd");                                                            \
    CHECK(gcd(a, (T)0) == a && gcd((T)0, a) == a, "gcd with 0 is the other number"); \
  }                                                                          \
  SPEC(lcm_##TAG)(T a, T b) {                                                \
    vf_assume(a > 0 && b > 0 && a < 30000 && b < 30000);                     \
    VALID("lcm");                                                            \
    CHECK(lcm(a, b) * gcd(a, b) == a * b, "lcm * gcd == a * b");             \
  }
GCD(i, int)
GCD(l, long)
SPEC(gcd_mixed)(int a, long b) {
  vf_assume(a != 0 && b != 0 && a > -30000 && a < 30000 && b > -30000 && b < 30000);
  VALID("gcd of mixed types");
  long g = gcd(a, b);
  CHECK(a % g == 0 && b % g == 0, "gcd divides both arguments");
}

// ---- construction: same value, lowest terms, positive denominator
SPEC(frac_ctor)(int n, int d) {
  vf_assume(d != 0 && n > -30000 && n < 30000 && d > -30000 && d < 30000);
  VALID("Fraction(n, d)");
  Fraction f(n, d);
  CHECK(f.getDenominator() > 0, "the denominator is positive");
  CHECK(f.getNumerator() * d == n * f.getDenominator(), "the value is n / d");
}
SPEC(frac_reduced)(int n, int d) {
  vf_assume(d != 0 && n > -30000 && n < 30000 && d > -30000 && d < 30000);
  VALID("Fraction(n, d)");
  Fraction f(n, d);
  int g = gcd(f.getNumerator(), f.getDenominator());
  CHECK(g == 1 || g == -1, "numerator and denominator have no common factor");
}
SPEC(frac_int)(int n) {
  VALID("Fraction(n)");
  Fraction f(n);
  CHECK(f.getNumerator() == n && f.getDenominator() == 1, "an integer is n / 1");
  Fraction z;
  CHECK(z.getNumerator() == 0 && z.getDenominator() == 1, "the default is 0 / 1");
}

// any two fractions (small enough that int holds the products)
#define SMALL(f) vf_assume(f.getDenominator() > 0 && f.getDenominator() < 10000 && f.getNumerator() > -10000 && f.getNumerator() < 10000)
#define TWO                                                                \
  SMALL(a); SMALL(b);                                                      \
  int an = a.getNumerator(), ad = a.getDenominator();                      \
  int bn = b.getNumerator(), bd = b.getDenominator();

#define ARITH(TAG, OP, NUM, DEN, PRE)                                      \
  SPEC(frac_##TAG)(Fraction& a, Fraction& b) {                             \
    TWO;                                                                   \
    vf_assume(PRE);                                                        \
    VALID("a " #OP " b");                                                  \
    Fraction r = a OP b;                                                   \
    CHECK(r.getDenominator() > 0, "positive denominator after " #OP);      \
    CHECK((long)r.getNumerator() * (DEN) == (long)r.getDenominator() * (NUM), "value of a " #OP " b"); \
    CHECK(a.getNumerator() == an && a.getDenominator() == ad && b.getNumerator() == bn && b.getDenominator() == bd, "operands of " #OP " unchanged"); \
  }                                                                        \
  SPEC(frac_##TAG##_eq)(Fraction& a, Fraction& b) {                        \
    TWO;                                                                   \
    vf_assume(PRE);                                                        \
    VALID("a " #OP "= b");                                                 \
    a OP##= b;                                                             \
    CHECK(a.getDenominator() > 0, "positive denominator after " #OP "=");  \
    CHECK((long)a.getNumerator() * (DEN) == (long)a.getDenominator() * (NUM), "value of a " #OP "= b"); \
    CHECK(b.getNumerator() == bn && b.getDenominator() == bd, "right operand of " #OP "= unchanged"); \
  }                                                                        \
  SPEC(frac_##TAG##_int)(Fraction& a, int bn) {                            \
    SMALL(a);                                                              \
    int an = a.getNumerator(), ad = a.getDenominator(), bd = 1;            \
    vf_assume(bn > -10000 && bn < 10000);                                  \
    vf_assume(PRE);                                                        \
    VALID("a " #OP " int");                                                \
    Fraction r = a OP bn;                                                  \
    CHECK((long)r.getNumerator() * (DEN) == (long)r.getDenominator() * (NUM), "value of a " #OP " int"); \
  }                                                                        \
  SPEC(int_##TAG##_frac)(int an, Fraction& b) {                            \
    SMALL(b);                                                              \
    int bn = b.getNumerator(), bd = b.getDenominator(), ad = 1;            \
    vf_assume(an > -10000 && an < 10000);                                  \
    vf_assume(PRE);                                                        \
    VALID("int " #OP " b");                                                \
    Fraction r = an OP b;                                                  \
    CHECK((long)r.getNumerator() * (DEN) == (long)r.getDenominator() * (NUM), "value of int " #OP " b"); \
  }                                                                        \
  SPEC(frac_##TAG##_self)(Fraction& a) {                                   \
    SMALL(a);                                                              \
    int an = a.getNumerator(), ad = a.getDenominator(), bn = an, bd = ad;  \
    vf_assume(PRE);                                                        \
    VALID("a " #OP "= a");                                                 \
    a OP##= a;                                                             \
    CHECK((long)a.getNumerator() * (DEN) == (long)a.getDenominator() * (NUM), "value of a " #OP "= a"); \
  }
ARITH(add, +, an * bd + bn * ad, ad * bd, true)
ARITH(sub, -, an * bd - bn * ad, ad * bd, true)
ARITH(mul, *, an * bn, ad * bd, true)
ARITH(div, /, an * bd, ad * bn, bn != 0)

// ---- comparison: by value, for fractions built by the library
#define COMPARE(TAG, OP)                                                   \
  SPEC(frac_##TAG)(Fraction& a, Fraction& b) {                             \
    TWO;                                                                   \
    VALID("a " #OP " b");                                                  \
    CHECK((a OP b) == (an * bd OP bn * ad), "a " #OP " b compares the values"); \
  }                                                                        \
  SPEC(frac_##TAG##_int)(Fraction& a, int bn) {                            \
    SMALL(a);                                                              \
    int an = a.getNumerator(), ad = a.getDenominator();                    \
    vf_assume(bn > -10000 && bn < 10000);                                  \
    VALID("a " #OP " int");                                                \
    CHECK((a OP bn) == (an OP bn * ad), "a " #OP " int compares the values"); \
  }
COMPARE(lt, <)
COMPARE(le, <=)
COMPARE(gt, >)
COMPARE(ge, >=)
#define EQUAL(TAG, OP)                                                     \
  SPEC(frac_##TAG)(Fraction& a, Fraction& b) {                             \
    TWO;                                                                   \
    VALID("a " #OP " b");                                                  \
    CHECK((a OP b) == !(an == bn && ad == bd) == !(1 OP 1), "a " #OP " b agrees with the terms"); \
  }
SPEC(frac_eq)(Fraction& a, Fraction& b) {
  TWO;
  VALID("a == b");
  CHECK((a == b) == (an == bn && ad == bd), "fractions in lowest terms are equal exactly when their terms are");
  CHECK((a != b) == !(a == b), "!= is the negation of ==");
}
