// C25: BigNum is exact integer arithmetic.
#include "verif.h"
#include "math_utils/BigNum.h"
#include <sstream>
#include <string>
using namespace cuhksz;
typedef BigNum<6> Big;

static int adigit() {
  int d = vf_int();
  vf_assume(d >= 0 && d <= 9);
  return d;
}
// a text of n digits, the first not 0, and its value
static std::string digits(int n, bool minus, long& v) {
  std::string s(minus ? "-" : "");
  v = 0;
  for (int i = 0; i < n; i++) {
    int d = adigit();
    if (i == 0) vf_assume(d != 0);
    s += (char)('0' + d);
    v = 10 * v + d;
  }
  if (minus) v = -v;
  return s;
}
// the value a decimal text denotes; it must be canonical
static long value(const std::string& s) {
  bool minus = s[0] == '-';
  std::size_t i = minus ? 1 : 0;
  long v = 0;
  CHECK(s.size() > i, "there is a digit");
  CHECK(s[i] != '0' || (s.size() == 1 && !minus), "no leading zeros, no minus before 0");
  for (; i < s.size(); i++) {
    CHECK(s[i] >= '0' && s[i] <= '9', "digits only");
    v = 10 * v + (s[i] - '0');
  }
  return minus ? -v : v;
}
#define PAIR(m, a, n, b) \
  long x, y;             \
  Big p(digits(m, a, x)), q(digits(n, b, y));
// each operator in all its forms
static void sum(int m, bool a, int n, bool b) {
  PAIR(m, a, n, b)
  CHECK(value((p + q).toString()) == x + y, "a + b");
  Big r = p;
  Big& s = (r += q);
  CHECK(&s == &r && value(r.toString()) == x + y, "a += b");
  CHECK(value(p.toString()) == x && value(q.toString()) == y, "the operands are unchanged");
}
static void difference(int m, bool a, int n, bool b) {
  PAIR(m, a, n, b)
  CHECK(value((p - q).toString()) == x - y, "a - b");
  Big r = p;
  Big& s = (r -= q);
  CHECK(&s == &r && value(r.toString()) == x - y, "a -= b");
  CHECK(value(p.toString()) == x && value(q.toString()) == y, "the operands are unchanged");
}
static void order(int m, bool a, int n, bool b) {
  PAIR(m, a, n, b)
  CHECK((p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y) && (p == q) == (x == y) && (p != q) == (x != y),
        "the order of the values");
}
#define FORMS(f)                                                             \
  SPEC(f##_1_1)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(1, false, 1, false); }     \
  SPEC(f##_2_2)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, false, 2, false); }     \
  SPEC(f##_3_1)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(3, false, 1, false); }     \
  SPEC(f##_1_3)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(1, false, 3, false); }     \
  SPEC(f##_2n_2)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, true, 2, false); }     \
  SPEC(f##_2_2n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, false, 2, true); }     \
  SPEC(f##_2n_2n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, true, 2, true); }     \
  SPEC(f##_1n_2)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(1, true, 2, false); }     \
  SPEC(f##_2_1n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, false, 1, true); }     \
  SPEC(f##_1n_2n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(1, true, 2, true); }     \
  SPEC(f##_2n_1n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, true, 1, true); }     \
  SPEC(f##_0_2)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(0, false, 2, false); }     \
  SPEC(f##_2_0)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, false, 0, false); }     \
  SPEC(f##_0_2n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(0, false, 2, true); }     \
  SPEC(f##_2n_0)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, true, 0, false); }     \
  SPEC(f##_0_0)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(0, false, 0, false); }
FORMS(sum)
FORMS(difference)
FORMS(order)

#define MORE(f)                                                              \
  SPEC(f##_3_3)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(3, false, 3, false); }     \
  SPEC(f##_3n_3)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(3, true, 3, false); }     \
  SPEC(f##_2_3n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(2, false, 3, true); }     \
  SPEC(f##_3n_2n)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(3, true, 2, true); }     \
  SPEC(f##_4_4)() { vf_opt("paths"); vf_opt("ends"); VALID(#f); f(4, false, 4, false); }
MORE(sum)
MORE(difference)
MORE(order)
// the product with a given number k, of any number of n digits
static void product(int n, bool a, const char* k, long y) {
  long x;
  Big p(digits(n, a, x)), q{std::string(k)};
  CHECK(value((p * q).toString()) == x * y, "a * b");
  CHECK(value((q * p).toString()) == x * y, "b * a");
  CHECK(value((p * y).toString()) == x * y, "a * int");
  Big r = p;
  Big& s = (r *= q);
  CHECK(&s == &r && value(r.toString()) == x * y, "a *= b");
  Big t = p;
  Big& u = (t *= y);
  CHECK(&u == &t && value(t.toString()) == x * y, "a *= int");
  CHECK(value(p.toString()) == x && value(q.toString()) == y, "the operands are unchanged");
}
#define PRODUCT(name, n, a, k) SPEC(name)() { vf_opt("paths"); vf_opt("ends"); VALID("product"); product(n, a, #k, k); }
PRODUCT(product_1_0, 1, false, 0)
PRODUCT(product_2n_0, 2, true, 0)
PRODUCT(product_2_1, 2, false, 1)
PRODUCT(product_3_2, 3, false, 2)
PRODUCT(product_2_3, 2, false, 3)
PRODUCT(product_2_4, 2, false, 4)
PRODUCT(product_3_5, 3, false, 5)
PRODUCT(product_2_6, 2, false, 6)
PRODUCT(product_2_7, 2, false, 7)
PRODUCT(product_2n_8, 2, true, 8)
PRODUCT(product_3_9, 3, false, 9)
PRODUCT(product_1_m3, 1, false, -3)
PRODUCT(product_2n_m6, 2, true, -6)
PRODUCT(product_1_99, 1, false, 99)
PRODUCT(product_2_10, 2, false, 10)
PRODUCT(product_2_25, 2, false, 25)
PRODUCT(product_2n_47, 2, true, 47)
PRODUCT(product_2_99, 2, false, 99)
PRODUCT(product_2_100, 2, false, 100)
PRODUCT(product_0_12, 0, false, 12)
// any two digits: the product of every pair
SPEC(product_digits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("product of two digits");
  long x;
  Big p(digits(1, false, x));
  for (long y = 1; y <= 9; y++) CHECK(value((p * Big(y)).toString()) == x * y, "a * b");
}
#define TENS(t)                                                             \
  SPEC(product_tens_##t)() {                                                \
    vf_opt("paths"); vf_opt("ends");                                                        \
    VALID("product of numbers of two digits");                              \
    long x;                                                                 \
    Big p(digits(2, false, x));                                             \
    for (long y = 10 * t; y < 10 * t + 10; y++) CHECK(value((p * Big(y)).toString()) == x * y, "a * b"); \
  }
TENS(1) TENS(2) TENS(3) TENS(4) TENS(5) TENS(6) TENS(7) TENS(8) TENS(9)

// operators with an ordinary number on the right
static void smallOperand(int n, bool a, long y) {
  long x;
  Big p(digits(n, a, x));
  CHECK(value((p + y).toString()) == x + y && value((p - y).toString()) == x - y, "a + int, a - int");
  Big r = p, t = p;
  Big& s = (r += y);
  CHECK(&s == &r && value(r.toString()) == x + y, "a += int");
  Big& u = (t -= y);
  CHECK(&u == &t && value(t.toString()) == x - y, "a -= int");
  CHECK(value(p.toString()) == x, "the operand is unchanged");
}
#define SMALL(name, n, a, k) SPEC(name)() { vf_opt("paths"); vf_opt("ends"); VALID("int operand"); smallOperand(n, a, k); }
SMALL(small_2_0, 2, false, 0)
SMALL(small_2n_0, 2, true, 0)
SMALL(small_0_5, 0, false, 5)
SMALL(small_0_m5, 0, false, -5)
SMALL(small_2_1, 2, false, 1)
SMALL(small_2n_1, 2, true, 1)
SMALL(small_2_m1, 2, false, -1)
SMALL(small_2_37, 2, false, 37)
SMALL(small_2_m37, 2, false, -37)
SMALL(small_2n_37, 2, true, 37)
SMALL(small_2n_m37, 2, true, -37)
SMALL(small_1_100, 1, false, 100)
SMALL(small_3_999, 3, false, 999)

static void unary(int n, bool a) {
  long x;
  Big p(digits(n, a, x));
  CHECK(value((-p).toString()) == -x, "-a");
  CHECK(value(p.abs().toString()) == (x < 0 ? -x : x) && value(abs(p).toString()) == (x < 0 ? -x : x), "abs");
  CHECK(value(toString(p)) == x, "toString(a)");
  CHECK(p == p && p <= p && p >= p && !(p != p) && !(p < p) && !(p > p), "a number equals itself");
  CHECK((-p == p) == (x == 0) && (-p < p) == (x > 0), "a and -a");
  Big q = p;
  CHECK(&(++q) == &q && value(q.toString()) == x + 1, "++a");
  CHECK(&(--q) == &q && value(q.toString()) == x, "--a");
  CHECK(value((q++).toString()) == x && value(q.toString()) == x + 1, "a++");
  CHECK(value((q--).toString()) == x + 1 && value(q.toString()) == x, "a--");
  CHECK(value((--q).toString()) == x - 1, "--a");
  CHECK(value(p.toString()) == x, "the operand is unchanged");
}
SPEC(unary_0)() { vf_opt("paths"); vf_opt("ends"); VALID("unary"); unary(0, false); }
SPEC(unary_1)() { vf_opt("paths"); vf_opt("ends"); VALID("unary"); unary(1, false); }
SPEC(unary_1n)() { vf_opt("paths"); vf_opt("ends"); VALID("unary"); unary(1, true); }
SPEC(unary_2)() { vf_opt("paths"); vf_opt("ends"); VALID("unary"); unary(2, false); }
SPEC(unary_3n)() { vf_opt("paths"); vf_opt("ends"); VALID("unary"); unary(3, true); }
// an operand that is the target as well
static void same(int n, bool a) {
  long x;
  Big p(digits(n, a, x));
  Big q = p, r = p;
  q += q;
  CHECK(value(q.toString()) == 2 * x && value((p + p).toString()) == 2 * x, "a + a");
  r -= r;
  CHECK(value(r.toString()) == 0 && value((p - p).toString()) == 0, "a - a");
  CHECK(r == Big() && r == Big(0) && !(r < Big(0)), "a - a is zero");
  q = p;
  q = *&q;
  CHECK(value(q.toString()) == x, "a = a");
  CHECK(value((p + (-p)).toString()) == 0, "a + -a");
}
SPEC(same_0)() { vf_opt("paths"); vf_opt("ends"); VALID("same"); same(0, false); }
SPEC(same_2)() { vf_opt("paths"); vf_opt("ends"); VALID("same"); same(2, false); }
SPEC(same_3n)() { vf_opt("paths"); vf_opt("ends"); VALID("same"); same(3, true); }
SPEC(square_concrete)() {
  VALID("square");
  for (long y = -30; y <= 30; y++) {
    Big p(y);
    p *= p;
    CHECK(p == Big(y * y) && value(p.toString()) == y * y, "a * a");
  }
}
// numbers from ordinary numbers
static void fromInt(long lo, long hi) {
  long v = vf_int();
  vf_assume(v >= lo && v <= hi);
  Big p(v);
  CHECK(value(p.toString()) == v, "BigNum(int)");
}
SPEC(from_int_1)() { vf_opt("paths"); vf_opt("ends"); VALID("from int"); fromInt(0, 9); }
SPEC(from_int_2)() { vf_opt("paths"); vf_opt("ends"); VALID("from int"); fromInt(10, 99); }
SPEC(from_int_3)() { vf_opt("paths"); vf_opt("ends"); VALID("from int"); fromInt(0, 999); }
SPEC(from_int_neg)() { vf_opt("paths"); vf_opt("ends"); VALID("from int"); fromInt(-999, -1); }
SPEC(from_int_limits)() {
  VALID("from int");
  CHECK(BigNum<30>(INT64_MAX).toString() == "9223372036854775807", "the greatest");
  CHECK(BigNum<30>(INT64_MIN).toString() == "-9223372036854775808", "the least");
  CHECK(BigNum<30>(0).toString() == "0" && BigNum<30>().toString() == "0", "zero");
  CHECK(BigNum<30>(1000000).toString() == "1000000" && BigNum<30>(-1000000).toString() == "-1000000", "zeros within");
}
// texts with zeros in front
static void zeros(bool minus, int z, int n) {
  std::string s(minus ? "-" : "");
  for (int i = 0; i < z; i++) s += '0';
  long x;
  s += digits(n, false, x);
  Big p(s);
  if (minus) x = -x;
  CHECK(value(p.toString()) == x, "zeros in front do not count");
  CHECK(p == Big(x) && !(p != Big(x)), "the same number");
}
SPEC(zeros_1_0)() { vf_opt("paths"); vf_opt("ends"); VALID("text"); zeros(false, 1, 0); }
SPEC(zeros_3_0)() { vf_opt("paths"); vf_opt("ends"); VALID("text"); zeros(false, 3, 0); }
SPEC(zeros_m1_0)() { vf_opt("paths"); vf_opt("ends"); VALID("text"); zeros(true, 1, 0); }
SPEC(zeros_2_1)() { vf_opt("paths"); vf_opt("ends"); VALID("text"); zeros(false, 2, 1); }
SPEC(zeros_m1_2)() { vf_opt("paths"); vf_opt("ends"); VALID("text"); zeros(true, 1, 2); }
SPEC(text_6)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("text");
  long x;
  std::string s = digits(6, false, x);
  Big p(s);
  CHECK(p.toString() == s && value(p.toString()) == x, "all the digits it has room for");
}
// copies
SPEC(copies)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("copies");
  long x, y;
  Big p(digits(3, false, x)), q(digits(1, true, y));
  Big r(p);
  CHECK(value(r.toString()) == x, "copy");
  r = q;
  CHECK(value(r.toString()) == y, "assigned a shorter number");
  CHECK(value((r + p).toString()) == x + y && value((r - p).toString()) == y - x, "nothing of the longer number is left");
  r += Big(5);
  CHECK(value(q.toString()) == y && value(p.toString()) == x, "copies are independent");
}
SPEC(copies_grow)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("copies");
  long x;
  Big p(digits(1, false, x)), q;
  q = Big(std::string("999"));
  q -= Big(990);
  q = q + p;
  CHECK(value(q.toString()) == 9 + x, "digits of an earlier, longer value do not come back");
  q = q * Big(7);
  CHECK(value(q.toString()) == 7 * (9 + x), "nor in products");
}
SPEC(streamed)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator<<");
  long x;
  Big p(digits(2, true, x));
  std::ostringstream os;
  os << p << '.';
  CHECK(os.str() == p.toString() + ".", "written as its text");
}
// values that fill the number, and those that do not fit
typedef BigNum<3> Tight;
SPEC(tight_full)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("three digits fit");
  long x;
  Tight p(digits(3, false, x));
  CHECK(value(p.toString()) == x && value((-p).toString()) == -x, "kept");
  CHECK(value((p - Tight(100)).toString()) == x - 100 && value((p + Tight(-100)).toString()) == x - 100, "less");
  CHECK(value((p * Tight(1)).toString()) == x && value((p + Tight(0)).toString()) == x, "the same");
}
SPEC(tight_sum_fits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("a sum of three digits fits");
  long x, y;
  Tight p(digits(3, false, x)), q(digits(3, false, y));
  vf_assume(x + y <= 999);
  CHECK(value((p + q).toString()) == x + y, "a + b");
}
SPEC(tight_sum_stops)() {
  vf_opt("paths"); vf_opt("ends");
  long x, y;
  Tight p(digits(3, false, x)), q(digits(3, false, y));
  vf_assume(x + y > 999);
  INVALID("a sum too long");
  Tight r = p + q;
  vf_sink(&r);
  MUST_STOP("a sum too long");
}
SPEC(tight_increment_stops)() {
  Tight p(999);
  INVALID("999 + 1 in three digits");
  ++p;
  MUST_STOP("999 + 1 in three digits");
}
SPEC(tight_product_fits)() {
  VALID("products of three digits fit");
  CHECK((Tight(37) * Tight(27)).toString() == "999" && (Tight(111) * Tight(9)).toString() == "999" && (Tight(10) * Tight(10)).toString() == "100", "a * b");
}
SPEC(tight_product_stops)() {
  INVALID("a product too long");
  Tight r = Tight(40) * Tight(25);
  vf_sink(&r);
  MUST_STOP("a product too long");
}
SPEC(tight_product_stops2)() {
  vf_opt("paths"); vf_opt("ends");
  long x, y;
  Tight p(digits(3, false, x)), q(digits(2, false, y));
  INVALID("a product too long");
  Tight r = p * q;
  vf_sink(&r);
  MUST_STOP("a product too long");
}
SPEC(tight_text_stops)() {
  long x;
  std::string s = digits(4, false, x);
  INVALID("a text too long");
  Tight p(s);
  vf_sink(&p);
  MUST_STOP("a text too long");
}
SPEC(tight_int_stops)() {
  vf_opt("paths"); vf_opt("ends");
  long x = vf_int();
  vf_assume(x >= 1000 && x <= 99999);
  INVALID("an int too long");
  Tight p(x);
  vf_sink(&p);
  MUST_STOP("an int too long");
}

// long numbers: digits of a known range, so that every carry is known
static std::string between(int n, int lo, int hi, int first, int* d) {
  std::string s;
  for (int i = 0; i < n; i++) {
    d[i] = vf_int();
    vf_assume(d[i] >= (i == 0 ? first : lo) && d[i] <= hi);
    s += (char)('0' + d[i]);
  }
  return s;
}
template <int N> static void longSum(int lo, int hi) {
  typedef BigNum<40> Long;
  int x[N], y[N];
  Long p(between(N, lo, hi, lo > 0 ? lo : 1, x)), q(between(N, lo, hi, lo > 0 ? lo : 1, y));
  int c = lo >= 5 ? 1 : 0;
  std::string want;
  if (c) want += '1';
  for (int i = 0; i < N; i++) want += (char)('0' + (x[i] + y[i] + (i + 1 < N ? c : 0) - 10 * c));
  CHECK((p + q).toString() == want && (q + p).toString() == want, "a + b, of long numbers");
  CHECK((-p - q).toString() == "-" + want, "-a - b, of long numbers");
  p += q;
  CHECK(p.toString() == want, "a += b, of long numbers");
}
template <int N> static void longDifference() {
  typedef BigNum<40> Long;
  int x[N + 1], y[N];
  Long p(between(N + 1, 0, 4, 2, x)), q(between(N, 5, 9, 5, y));
  std::string want;
  want += (char)('0' + (x[0] - 1));
  for (int i = 0; i < N; i++) want += (char)('0' + (x[i + 1] + 10 - y[i] - (i + 1 < N ? 1 : 0)));
  CHECK((p - q).toString() == want && (q - p).toString() == "-" + want, "a - b, of long numbers");
  CHECK((p + -q).toString() == want, "a + -b, of long numbers");
  p -= q;
  CHECK(p.toString() == want, "a -= b, of long numbers");
}
SPEC(long_sum_carry)() { vf_opt("paths"); vf_opt("ends"); VALID("long sum"); longSum<24>(5, 9); }
SPEC(long_sum_plain)() { vf_opt("paths"); vf_opt("ends"); VALID("long sum"); longSum<24>(0, 4); }
SPEC(long_sum_carry_38)() { vf_opt("paths"); vf_opt("ends"); VALID("long sum"); longSum<38>(5, 9); }
SPEC(long_difference)() { vf_opt("paths"); vf_opt("ends"); VALID("long difference"); longDifference<23>(); }
SPEC(long_difference_37)() { vf_opt("paths"); vf_opt("ends"); VALID("long difference"); longDifference<37>(); }
// a carry or a borrow through every length
SPEC(long_ripple)() {
  VALID("carry through all digits");
  for (int n = 1; n <= 35; n++) {
    std::string nines(n, '9'), one = "1" + std::string(n, '0');
    BigNum<40> p(nines), q(one);
    CHECK((p + 1).toString() == one && (p + BigNum<40>(1)).toString() == one, "99...9 + 1");
    CHECK((q - 1).toString() == nines && (q - BigNum<40>(1)).toString() == nines, "10...0 - 1");
    CHECK((q - p).toString() == "1" && (p - q).toString() == "-1", "10...0 - 99...9");
    CHECK((p * BigNum<40>(10)).toString() == nines + "0", "99...9 * 10");
    CHECK(p < q && q > p && !(p == q) && -q < -p, "99...9 < 10...0");
    BigNum<40> r = p;
    r++;
    CHECK(r == q && r-- == q && r == p, "++ and --");
  }
}
// numbers that differ in one digit only
template <int N> static void longOrder(int k0, int k1) {
  typedef BigNum<40> Long;
  for (int k = k0; k < k1; k++) {
    int d[N], e = vf_int(), m = vf_int();
    std::string s = between(N, 0, 9, 1, d), t = s;
    vf_assume(e >= 1 && e <= 9 && m >= 0 && m < e);
    if (k == 0) vf_assume(m > 0);
    s[k] = (char)('0' + e);
    t[k] = (char)('0' + m);
    Long p(s), q(t);
    CHECK(q < p && q <= p && p > q && p >= q && p != q && !(p == q) && !(p < q) && !(p <= q) && !(q > p) && !(q >= p), "one digit decides");
    CHECK(-p < -q && !(-q < -p) && q == Long(t) && q <= Long(t), "and for negative numbers");
  }
}
SPEC(long_order)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<12>(0, 12); }
SPEC(long_order_33_0)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(0, 1); }
SPEC(long_order_33_8)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(8, 9); }
SPEC(long_order_33_16)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(16, 17); }
SPEC(long_order_33_17)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(17, 18); }
SPEC(long_order_33_31)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(31, 32); }
SPEC(long_order_33_32)() { vf_opt("paths"); vf_opt("ends"); VALID("long order"); longOrder<33>(32, 33); }
SPEC(long_text)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("long text");
  int d[33];
  std::string s = between(33, 0, 9, 1, d);
  CHECK(BigNum<40>(s).toString() == s && BigNum<33>("-" + s).toString() == "-" + s, "all the digits");
  CHECK(BigNum<40>("0000" + s).toString() == s, "zeros in front do not count");
}
SPEC(long_products)() {
  VALID("long products");
  typedef BigNum<60> B;
  CHECK((B(std::string("123456789012345678901234567890")) * B(std::string("987654321098765432109876543210"))).toString() ==
            "121932631137021795226185032733622923332237463801111263526900", "a product of 30 digits each");
  CHECK((B(999999999999) * B(999999999999)).toString() == "999999999998000000000001", "carries everywhere");
  CHECK((B(std::string("-99999999999999999999")) * 99).toString() == "-9899999999999999999901", "times an ordinary number");
  CHECK((B(1000000007) * 1000000009).toString() == "1000000016000000063", "a product of primes");
  B f(1);
  for (int i = 2; i <= 25; i++) f *= i;
  CHECK(f.toString() == "15511210043330985984000000", "25!");
  B p(1);
  for (int i = 0; i < 100; i++) p *= B(2);
  CHECK(p.toString() == "1267650600228229401496703205376", "2 to the 100th");
  B a(0), b(1);
  for (int i = 0; i < 150; i++) { B c = a + b; a = b; b = c; }
  CHECK(a.toString() == "9969216677189303386214405760200", "the 150th Fibonacci number");
}
SPEC(from_int_powers)() {
  VALID("from int");
  std::string z;
  for (std::int64_t v = 1; ; v *= 10, z += "0") {
    CHECK(BigNum<20>(v).toString() == "1" + z && BigNum<20>(-v).toString() == "-1" + z, "a power of ten");
    if (v > 1) CHECK(BigNum<20>(v - 1).toString() == std::string(z.size(), '9'), "one less");
    if (v == 1000000000000000000) break;
  }
}

// ---- results are numbers like any others: they can be used again
static void reused(int n, bool a, int m, bool b) {
  PAIR(n, a, m, b)
  long ax = x < 0 ? -x : x, ay = y < 0 ? -y : y;
  CHECK((p.abs() < q.abs()) == (ax < ay) && (p.abs() == q.abs()) == (ax == ay) && (abs(p) > abs(q)) == (ax > ay), "absolute values are compared");
  CHECK((p.abs() == p) == (x >= 0) && (p.abs() == -p) == (x <= 0), "the absolute value is the number or its negative");
  CHECK((p.abs() < q) == (ax < y) && (q >= abs(p)) == (y >= ax), "an absolute value and a number");
  CHECK(value((p.abs() + q).toString()) == ax + y && value((q - p.abs()).toString()) == y - ax && value((-p.abs()).toString()) == -ax, "computing with an absolute value");
  CHECK((-p).abs() == p.abs() && -(-p) == p, "signs");
  CHECK((p - q) + q == p && q + (p - q) == p && (p + q) - p == q && (p - q) == -(q - p), "sums and differences undo each other");
  CHECK(((p - q) < Big("0")) == (x < y) && ((p - q) == Big("0")) == (x == y), "the sign of a difference");
  Big z = p - p;
  CHECK(z == Big() && z == -z && z.abs() == z && value((z + q).toString()) == y && value((q - z).toString()) == y && value((z - q).toString()) == -y, "the zero of a difference");
}
#define REUSED(name, ...) SPEC(reused_##name)() { vf_opt("paths"); vf_opt("ends"); VALID("results used again"); reused(__VA_ARGS__); }
REUSED(11, 1, false, 1, false)
REUSED(1n1, 1, true, 1, false)
REUSED(11n, 1, false, 1, true)
REUSED(1n1n, 1, true, 1, true)
REUSED(21n, 2, false, 1, true)
REUSED(2n1, 2, true, 1, false)
static void products(int n, bool a, long k) {
  long x;
  Big p(digits(n, a, x)), q((int64_t)k);
  long ak = k < 0 ? -k : k;
  CHECK(value((p.abs() * q).toString()) == (x < 0 ? -x : x) * k && value((p * q.abs()).toString()) == x * ak, "products with absolute values");
  CHECK(value((p * q - p).toString()) == x * k - x && value((p + p * q).toString()) == x + x * k, "products used again");
  CHECK(p * q == q * p && -(p * q) == -p * q && (p * q < p) == (x * k < x), "products compared");
}
#define PRODUCTS(name, ...) SPEC(reused_product_##name)() { vf_opt("paths"); vf_opt("ends"); VALID("products used again"); products(__VA_ARGS__); }
PRODUCTS(1_7, 1, false, 7)
PRODUCTS(1n_7, 1, true, 7)
PRODUCTS(1_m3, 1, false, -3)
PRODUCTS(1n_m3, 1, true, -3)
PRODUCTS(1_0, 1, false, 0)
PRODUCTS(2_11, 2, false, 11)
// a number of ten and more digits that fills its room
SPEC(full_12)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("a full number of twelve digits");
  typedef BigNum<12> F;
  F p("912345678901"), q("-912345678901"), r("87654321098"), nines("999999999999"), m("999999"), one("1");
  CHECK((p + r).toString() == "999999999999" && (p - r).toString() == "824691357803" && (p + q).toString() == "0", "sums that fill it");
  CHECK((q - r) == -nines && (nines - one).toString() == "999999999998" && (m * m).toString() == "999998000001", "differences and products that fill it");
  CHECK(p * one == p && one * q == q && (p < nines) && q < p && p.abs() == q.abs(), "products by one, order");
  F s = p;
  s += r;
  CHECK(s == nines && (--s).toString() == "999999999998" && (++s) == nines, "in place");
}
