// C30: values are written to streams as their text, and a vector is read back from one.
#include "verif.h"
#include "containers/Vector.h"
#include "geometry/Point.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include <sstream>
#include <string>
using namespace cuhksz;

// ---- writing a vector
#define OUT(name, T, n, ...)                                                   \
  SPEC(out_##name)(T a, T b, T c, T d) {                                       \
    VALID("<< of a Vector");                                                   \
    Vector<T> v{__VA_ARGS__};                                                  \
    std::ostringstream s, t;                                                   \
    std::ostream& r = (s << "before " << v);                                   \
    CHECK(&r == &s, "the stream is returned");                                 \
    s << " behind";                                                            \
    T x[] = {a, b, c, d};                                                      \
    t << "before {";                                                           \
    for (int i = 0; i < n; i++) {                                              \
      if (i) t << ", ";                                                        \
      t << x[i];                                                               \
    }                                                                          \
    t << "} behind";                                                           \
    CHECK(s.str() == t.str(), "the elements, in order, with commas between");  \
    CHECK(v.size() == n, "the vector is unchanged");                           \
    for (int i = 0; i < n; i++) CHECK(v[i] == x[i], "the vector is unchanged");\
  }
SPEC(out_int0)() {
  VALID("<< of an empty Vector");
  Vector<int> v;
  Vector<std::string> w;
  std::ostringstream s;
  std::ostream& r = (s << "before " << v << w);
  CHECK(&r == &s && s.str() == "before {}{}" && v.size() == 0, "only the braces");
}
OUT(int1, int, 1, a)
OUT(int2, int, 2, a, b)
OUT(int3, int, 3, a, b, c)
OUT(int4, int, 4, a, b, c, d)
OUT(long3, long, 3, a, b, c)
OUT(double1, double, 1, a)
OUT(double2, double, 2, a, b)
OUT(double4, double, 4, a, b, c, d)
OUT(char1, char, 1, a)
OUT(char3, char, 3, a, b, c)
#define OUTS(name, n, ...)                                                     \
  SPEC(out_##name)(const std::string& a, const std::string& b, const std::string& c) {  \
    VALID("<< of a Vector");                                                   \
    Vector<std::string> v{__VA_ARGS__};                                        \
    std::ostringstream s;                                                      \
    s << v;                                                                    \
    CHECK(s.str() == (n == 1 ? "{" + a + "}" : n == 2 ? "{" + a + ", " + b + "}" : "{" + a + ", " + b + ", " + c + "}"), "the texts, with commas between");  \
  }
OUTS(string1, 1, a)
OUTS(string2, 2, a, b)
OUTS(string3, 3, a, b, c)
SPEC(out_two)(int a, int b, int c) {
  VALID("<< of two Vectors");
  Vector<int> v{a, b}, w{c};
  std::ostringstream s, t;
  s << v << '|' << w << v;
  t << "{" << a << ", " << b << "}|{" << c << "}{" << a << ", " << b << "}";
  CHECK(s.str() == t.str(), "one text behind the other");
}
SPEC(out_long)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("<< of a long Vector");
  Vector<int> v;
  std::ostringstream s, t;
  t << "{";
  for (int i = 0; i < 60; i++) {
    v.push(i * i - 30);
    if (i) t << ", ";
    t << i * i - 30;
  }
  t << "}";
  s << v;
  CHECK(s.str() == t.str(), "every element");
}
SPEC(out_after_changes)(int a, int b, int c, int d) {
  VALID("<< after changes");
  Vector<int> v{a, b, c};
  v.push(d);
  v.erase(0);
  v.set(0, a);
  std::ostringstream s, t;
  s << v;
  t << "{" << a << ", " << c << ", " << d << "}";
  CHECK(s.str() == t.str(), "the present elements");
  v.clear();
  std::ostringstream u;
  u << v;
  CHECK(u.str() == "{}", "nothing after clear");
}

// ---- reading a vector
static char space() {
  int c = vf_int();
  vf_assume(c == ' ' || (c >= '\t' && c <= '\r'));
  return (char)c;
}
static int digit() {
  int d = vf_int();
  vf_assume(d >= 0 && d <= 9);
  return d;
}
SPEC(in_0)() {
  vf_opt("paths"); vf_opt("ends");
  VALID(">> of an empty Vector");
  const char* t[] = {"{}", " {}", "{ }", "\n{\t\n }rest"};
  for (int i = 0; i < 4; i++) {
    Vector<int> v{1, 2, 3};
    std::istringstream s(t[i]);
    std::istream& r = (s >> v);
    CHECK(&r == &s, "the stream is returned");
    CHECK(v.size() == 0, "no element, and none of the old ones");
    CHECK(!s.fail(), "the stream is still good");
  }
}
SPEC(in_digits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID(">> of a Vector");
  int a = digit(), b = digit(), c = digit(), d = digit();
  std::string x = "{";
  x += (char)('0' + a);
  x += ", ";
  x += (char)('0' + b);
  x += (char)('0' + c);
  x += ", -";
  x += (char)('0' + d);
  x += "}";
  Vector<int> v{7};
  std::istringstream s(x);
  s >> v;
  CHECK(v.size() == 3 && v[0] == a && v[1] == 10 * b + c && v[2] == -d, "each element");
  Vector<long> w;
  std::istringstream t(x + "9");
  t >> w;
  CHECK(w.size() == 3 && w[0] == a && w[1] == 10 * b + c && w[2] == -d, "each element of a Vector of long");
  int n = 0;
  t >> n;
  CHECK(n == 9, "the stream continues behind the brace");
}
SPEC(in_space)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("white space in a Vector");
  char a = space(), b = space();
  for (int i = 0; i < 6; i++) {
    std::string x, y;
    x += a;
    y += b;
    y += a;
    std::string e = "", t = (i == 0 ? y : e) + "{" + (i == 1 ? y : e) + "12" + (i == 2 ? y : e) + "," + (i == 3 ? x : e) + "-345" + (i == 4 ? x : e) + "}" + (i == 5 ? y : e);
    Vector<int> v;
    std::istringstream s(t);
    s >> v;
    CHECK(v.size() == 2 && v[0] == 12 && v[1] == -345, "white space does not matter");
  }
}
SPEC(in_types)() {
  vf_opt("paths"); vf_opt("ends");
  VALID(">> of Vectors of several types");
  Vector<double> d;
  Vector<char> c;
  std::istringstream s("{0.5, -12.25, 3}{a, b,c} {4}");
  s >> d >> c;
  CHECK(d.size() == 3 && d[0] == 0.5 && d[1] == -12.25 && d[2] == 3, "double");
  CHECK(c.size() == 3 && c[0] == 'a' && c[1] == 'b' && c[2] == 'c', "char");
  Vector<int> i;
  s >> i;
  CHECK(i.size() == 1 && i[0] == 4, "one behind the other");
}
static void roundTrip(int n, int f) {
  Vector<int> v, w{5, 6}, u;
  for (int i = 0; i < n; i++) v.push(f * (i * i - 7) - i);
  std::stringstream s;
  s << v << v;
  s >> w >> u;
  CHECK(w.size() == n && u.size() == n, "as many elements as were written");
  for (int i = 0; i < n; i++) CHECK(w[i] == v[i] && u[i] == v[i], "what was written is read back");
}
SPEC(round_small)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("<< and >>");
  for (int n = 0; n < 6; n++) roundTrip(n, 1000003);
}
SPEC(round_long)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("<< and >>");
  roundTrip(40, -1300);
}
SPEC(in_limits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID(">> of the extreme numbers");
  Vector<int> v;
  std::istringstream s("{2147483647, -2147483648, +5, 007}");
  s >> v;
  CHECK(v.size() == 4 && v[0] == 2147483647 && v[1] == -2147483647 - 1 && v[2] == 5 && v[3] == 7, "each element");
}

// ---- texts that are no vector
#define REFUSE(name, text)                    \
  SPEC(refuse_##name)() {                     \
    vf_opt("paths"); vf_opt("ends");          \
    Vector<int> v;                            \
    std::istringstream s(text);               \
    INVALID(">> of a text that is no Vector");\
    s >> v;                                   \
    MUST_STOP("a text that is no Vector");    \
  }
REFUSE(empty, "")
REFUSE(blank, " \n")
REFUSE(no_brace, "1, 2, 3}")
REFUSE(other_brace, "[1, 2]")
REFUSE(closed, "}")
REFUSE(open, "{")
REFUSE(open_space, "{ ")
REFUSE(unfinished1, "{1")
REFUSE(unfinished1s, "{1 ")
REFUSE(unfinished2, "{1,")
REFUSE(unfinished2s, "{1, ")
REFUSE(unfinished3, "{1, 2, 3")
REFUSE(no_comma, "{1 2}")
REFUSE(no_comma2, "{1, 2 3}")
REFUSE(semicolon, "{1;2}")
REFUSE(twice, "{1,,2}")
REFUSE(last_comma, "{1,}")
REFUSE(last_comma2, "{1, 2, }")
REFUSE(first_comma, "{,1}")
REFUSE(word, "{x}")
REFUSE(word2, "{1,x}")
REFUSE(word3, "{1, 2x}")
REFUSE(sign, "{-}")
REFUSE(sign2, "{1, -, 2}")
REFUSE(large, "{99999999999}")
REFUSE(large2, "{1, 99999999999}")
REFUSE(fraction, "{1.5}")
REFUSE(bracket, "{1, 2]")
REFUSE(nested, "{1, {2}}")
static char nonspace() {
  int c = vf_int();
  vf_assume(c >= -128 && c <= 127 && c != ' ' && (c < '\t' || c > '\r'));
  return (char)c;
}
SPEC(refuse_start)() {
  vf_opt("paths"); vf_opt("ends");
  char c = nonspace();
  vf_assume(c != '{');
  std::string t(1, c);
  Vector<int> v;
  std::istringstream s(t + "1}");
  INVALID(">> of a text that does not start with a brace");
  s >> v;
  MUST_STOP("a text that does not start with a brace");
}
SPEC(refuse_between)() {
  vf_opt("paths"); vf_opt("ends");
  char c = nonspace();
  vf_assume(c != ',' && c != '}' && (c < '0' || c > '9'));
  Vector<int> v;
  std::istringstream s("{1" + std::string(1, c) + " 2}");
  INVALID(">> of elements separated by something else");
  s >> v;
  MUST_STOP("elements separated by something else");
}
SPEC(refuse_element)() {
  vf_opt("paths"); vf_opt("ends");
  char c = nonspace();
  vf_assume(c != '+' && c != '-' && (c < '0' || c > '9'));
  Vector<int> v;
  std::istringstream s("{1, " + std::string(1, c) + ", 2}");
  INVALID(">> of an element that is no number");
  s >> v;
  MUST_STOP("an element that is no number");
}

// ---- other values
SPEC(out_point2)(double a, double b) {
  VALID("<< of a Point");
  Point<2> p{a, b};
  std::ostringstream s, t;
  std::ostream& r = (s << p);
  t << "(" << a << ", " << b << ")";
  CHECK(&r == &s && s.str() == t.str(), "the coordinates, in order, with commas between");
}
SPEC(out_point4)(double a, double b, double c, double d) {
  VALID("<< of a Point");
  Point<4> p;
  p[0] = a, p[1] = b, p[2] = c, p[3] = d;
  Point<1> q{d};
  std::ostringstream s, t;
  s << p << q;
  t << "(" << a << ", " << b << ", " << c << ", " << d << ")(" << d << ")";
  CHECK(s.str() == t.str(), "the coordinates, in order, with commas between");
}
SPEC(out_fraction)(int a, int b) {
  vf_assume(a > -30000 && a < 30000);
  VALID("<< of a Fraction");
  Fraction f(a), g(6, -8), h(0, 5), k(14, 7);
  std::ostringstream s, t;
  std::ostream& r = (s << f << ' ' << g << ' ' << h << ' ' << k);
  t << a << "/1 -3/4 0/1 2/1";
  CHECK(&r == &s && s.str() == t.str(), "numerator and denominator in lowest terms");
}
SPEC(out_matrix)(int a, int b, int c) {
  VALID("<< of a Matrix");
  Matrix<int> m(3, 2);
  m[0][0] = a;
  m[0][1] = b;
  m[1][0] = c;
  m[2][1] = a;
  Matrix<int> n(1, 3), o(2, 1);
  n[0][0] = b;
  n[0][2] = c;
  o[0][0] = a;
  o[1][0] = b;
  std::ostringstream s, t;
  std::ostream& r = (s << m << n << o);
  t << a << ", " << b << "\n" << c << ", 0\n0, " << a << "\n" << b << ", 0, " << c << "\n" << a << "\n" << b << "\n";
  CHECK(&r == &s && s.str() == t.str(), "one line for each row");
}
