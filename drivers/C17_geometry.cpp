// C17: points, lines and circles compute their definitions, leave their operands alone and leak nothing.
// LIBS: geometry
#include "verif.h"
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include <cmath>
#include <utility>
using namespace cuhksz;
#define CLEAN "an operation leaves nothing allocated"

// ---- points of 1, 2 and 3 dimensions; every coordinate arbitrary
template <int N> static bool is(const Point<N>& p, const double (&c)[N]) {
  for (int i = 0; i < N; i++)
    if (!(p[i] == c[i])) return false;
  return true;
}
template <int N> static Point<N> at(const double (&c)[N]) {
  Point<N> p;
  for (int i = 0; i < N; i++) p[i] = c[i];
  return p;
}
#define EACH(V, E) double V[N]; for (int i = 0; i < N; i++) V[i] = E

template <int N> static void t_default() {
  VALID("default point");
  Point<N> p;
  const Point<N> q;
  for (int i = 0; i < N; i++) CHECK(p[i] == 0 && q[i] == 0, "the default point is the origin");
}
template <int N> static void t_copy(const double (&a)[N], const double (&b)[N]) {
  VALID("copies of points");
  Point<N> p = at(a), r = at(b);
  Point<N> q(p), m(std::move(p));
  CHECK(is(q, a) && is(m, a), "a copy has the coordinates of its source");
  Point<N>& ref = (r = q);
  CHECK(is(r, a) && &ref == &r, "assignment copies the coordinates");
  for (int i = 0; i < N; i++) q[i] = b[i];
  CHECK(is(q, b) && is(r, a), "a copy is independent of its source");
  r = r;
  CHECK(is(r, a), "self-assignment changes nothing");
  vf_noleak(CLEAN);
}
template <int N> static void t_index(const double (&a)[N], double x, int k) {
  vf_assume(k >= 0 && k < N);
  VALID("indexing");
  Point<N> p = at(a);
  const Point<N>& cp = p;
  CHECK(p[k] == a[k] && cp[k] == a[k], "an index reads that coordinate");
  p[k] = x;
  for (int i = 0; i < N; i++) CHECK(i == k ? cp[i] == x : cp[i] == a[i], "an index writes that coordinate only");
}
template <int N> static void t_add(const double (&a)[N], const double (&b)[N]) {
  VALID("addition");
  const Point<N> p = at(a), q = at(b);
  EACH(s, a[i] + b[i]);
  CHECK(is(p + q, s), "the sum adds the coordinates");
  CHECK(is(p, a) && is(q, b), "addition leaves its operands alone");
  Point<N> r = p;
  Point<N>& ref = (r += q);
  CHECK(is(r, s) && &ref == &r && is(q, b), "+= adds the coordinates in place");
  EACH(d, a[i] + a[i]);
  r = p;
  r += r;
  CHECK(is(r, d) && is(p + p, d), "a point can be added to itself");
  vf_noleak(CLEAN);
}
template <int N> static void t_sub(const double (&a)[N], const double (&b)[N]) {
  VALID("subtraction");
  const Point<N> p = at(a), q = at(b);
  EACH(s, a[i] - b[i]);
  CHECK(is(p - q, s), "the difference subtracts the coordinates");
  CHECK(is(p, a) && is(q, b), "subtraction leaves its operands alone");
  Point<N> r = p;
  Point<N>& ref = (r -= q);
  CHECK(is(r, s) && &ref == &r && is(q, b), "-= subtracts the coordinates in place");
  EACH(z, 0);
  r = p;
  r -= r;
  CHECK(is(r, z) && is(p - p, z), "a point minus itself is the origin");
  vf_noleak(CLEAN);
}
template <int N> static void t_scale(const double (&a)[N], double k) {
  VALID("scaling");
  const Point<N> p = at(a);
  EACH(s, a[i] * k);
  CHECK(is(p * k, s) && is(k * p, s), "scaling multiplies every coordinate, from either side");
  CHECK(is(p, a), "scaling leaves its operand alone");
  Point<N> r = p;
  Point<N>& ref = (r *= k);
  CHECK(is(r, s) && &ref == &r, "*= scales in place");
  vf_noleak(CLEAN);
}
template <int N> static void t_div(const double (&a)[N], double k) {
  vf_assume(k != 0);
  VALID("division");
  const Point<N> p = at(a);
  EACH(s, a[i] / k);
  CHECK(is(p / k, s), "division divides every coordinate");
  CHECK(is(p, a), "division leaves its operand alone");
  Point<N> r = p;
  Point<N>& ref = (r /= k);
  CHECK(is(r, s) && &ref == &r, "/= divides in place");
  vf_noleak(CLEAN);
}
// scaling by one of the point's own coordinates: the factor is the value before the operation
template <int N> static void t_dot(const double (&a)[N], const double (&b)[N]) {
  VALID("dot product");
  const Point<N> p = at(a), q = at(b);
  double s = 0, n = 0;
  for (int i = 0; i < N; i++) s += a[i] * b[i], n += a[i] * a[i];
  CHECK(p * q == s && dot(p, q) == s && q * p == s && dot(q, p) == s, "the dot product sums the coordinate products");
  CHECK(p * p == n && dot(p, p) == n, "the dot product of a point with itself");
  CHECK(is(p, a) && is(q, b), "the dot product leaves its operands alone");
}
template <int N> static void t_len(const double (&a)[N]) {
  VALID("length");
  Point<N> p = at(a);
  double n = 0;
  for (int i = 0; i < N; i++) n += a[i] * a[i];
  double l = p.len();
  CHECK(l == std::sqrt(n) && l >= 0, "the length is the root of the squared coordinates");
  CHECK(is(p, a), "len() leaves the point alone");
}
template <int N> static void t_norm(const double (&a)[N]) {
  double n = 0;
  for (int i = 0; i < N; i++) n += a[i] * a[i];
  vf_assume(n > 0);
  VALID("normalize");
  Point<N> p = at(a);
  p.normalize();
  double l = std::sqrt(n);
  for (int i = 0; i < N; i++) CHECK(p[i] == a[i] / l, "normalize divides every coordinate by the original length");
}
template <int N> static bool close(const double (&a)[N], const double (&b)[N]) {
  for (int i = 0; i < N; i++)
    if (std::fabs(a[i] - b[i]) > 1e-6) return false;
  return true;
}
template <int N> static void t_eq(const double (&a)[N], const double (&b)[N]) {
  VALID("equality");
  const Point<N> p = at(a), q = at(b);
  bool e = close(a, b);
  CHECK((p == q) == e, "points are equal when no coordinate differs by more than the tolerance");
  CHECK((p != q) == !e, "!= is the negation of ==");
  CHECK((q == p) == e, "equality is symmetric");
  CHECK(p == p && !(p != p), "a point equals itself");
  CHECK(is(p, a) && is(q, b), "comparing leaves the operands alone");
}
template <int N> static void t_order(const double (&a)[N], const double (&b)[N]) {
  VALID("order");
  const Point<N> p = at(a), q = at(b);
  int c = 0;
  for (int i = 0; i < N && c == 0; i++) c = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
  CHECK((p < q) == (c < 0), "< is the lexicographic order");
  CHECK((p <= q) == (c <= 0), "<= is the lexicographic order");
  CHECK((p > q) == (c > 0), "> is the lexicographic order");
  CHECK((p >= q) == (c >= 0), ">= is the lexicographic order");
  CHECK(!(p < p) && p <= p && !(p > p) && p >= p, "a point compared with itself");
}
#define DIM(N, PA, A, PB, B)                                             \
  SPEC(default_##N)() { t_default<N>(); }                                \
  SPEC(copy_##N)(PA, PB) { double a[] = A, b[] = B; t_copy<N>(a, b); }   \
  SPEC(index_##N)(PA, double x, int k) { double a[] = A; t_index<N>(a, x, k); } \
  SPEC(add_##N)(PA, PB) { double a[] = A, b[] = B; t_add<N>(a, b); }     \
  SPEC(sub_##N)(PA, PB) { double a[] = A, b[] = B; t_sub<N>(a, b); }     \
  SPEC(scale_##N)(PA, double k) { double a[] = A; t_scale<N>(a, k); }    \
  SPEC(div_##N)(PA, double k) { double a[] = A; t_div<N>(a, k); }        \
  SPEC(dot_##N)(PA, PB) { double a[] = A, b[] = B; t_dot<N>(a, b); }     \
  SPEC(len_##N)(PA) { double a[] = A; t_len<N>(a); }                     \
  SPEC(norm_##N)(PA) { double a[] = A; t_norm<N>(a); }                   \
  SPEC(eq_##N)(PA, PB) { double a[] = A, b[] = B; t_eq<N>(a, b); }       \
  SPEC(order_##N)(PA, PB) { double a[] = A, b[] = B; t_order<N>(a, b); }
#define CM ,
#define A1 {x0}
#define B1 {y0}
#define A2 {x0, x1}
#define B2 {y0, y1}
#define A3 {x0, x1, x2}
#define B3 {y0, y1, y2}
DIM(1, double x0, {x0}, double y0, {y0})
DIM(2, double x0 CM double x1, {x0 CM x1}, double y0 CM double y1, {y0 CM y1})
DIM(3, double x0 CM double x1 CM double x2, {x0 CM x1 CM x2}, double y0 CM double y1 CM double y2, {y0 CM y1 CM y2})

SPEC(construct)(double x, double y, double z) {
  VALID("points from coordinates");
  Point<1> a(x);
  Point<2> b(x, y);
  Point<3> c(x, y, z);
  CHECK(a[0] == x && b[0] == x && b[1] == y && c[0] == x && c[1] == y && c[2] == z, "a point has the coordinates given");
}
SPEC(cross)(double x0, double x1, double y0, double y1) {
  VALID("cross product");
  const Point<2> p(x0, x1), q(y0, y1);
  CHECK(cross(p, q) == x0 * y1 - x1 * y0, "the cross product is x0*y1 - x1*y0");
  CHECK(cross(q, p) == -cross(p, q) && cross(p, p) == 0, "the cross product is antisymmetric");
  CHECK(p[0] == x0 && p[1] == x1 && q[0] == y0 && q[1] == y1, "the cross product leaves its operands alone");
}

// ---- lines
#define L(N) double a##N##x, double a##N##y, double v##N##x, double v##N##y
#define LINE(N) Line(Point<2>(a##N##x, a##N##y), GVector<2>(v##N##x, v##N##y))
SPEC(line_len)(L(1)) {
  VALID("length of a line");
  Line l = LINE(1);
  CHECK(l.len() == std::sqrt(v1x * v1x + v1y * v1y), "the length of a line is that of its vector");
  Line m(l), n(Point<2>(0, 0), GVector<2>(0, 0));
  Line& ref = (n = l);
  CHECK(m.len() == l.len() && n.len() == l.len() && &ref == &n, "a copied line has the same length");
  vf_noleak(CLEAN);
}
SPEC(line_meet)(L(1), L(2)) {
  vf_assume(v1x * v2y - v1y * v2x != 0);
  VALID("intersection of two lines that are not parallel");
  Line l = LINE(1), m = LINE(2);
  Point<2> p = getIntersection(l, m);
  CHECK(v1x * (p[1] - a1y) == v1y * (p[0] - a1x), "the intersection lies on the first line");
  CHECK(v2x * (p[1] - a2y) == v2y * (p[0] - a2x), "the intersection lies on the second line");
  vf_noleak(CLEAN);
}
SPEC(line_meet_copy)(L(1), L(2)) {
  vf_assume(v1x * v2y - v1y * v2x != 0);
  VALID("intersection of copied lines");
  Line l = LINE(1), m = LINE(2);
  Line lc(l), mc(Point<2>(1, 2), GVector<2>(3, 4));
  mc = m;
  Point<2> p = getIntersection(l, m), q = getIntersection(lc, mc);
  CHECK(p[0] == q[0] && p[1] == q[1], "a copied line has the position and direction of its source");
}
SPEC(line_dist)(L(1), double x, double y) {
  vf_assume(v1x * v1x + v1y * v1y > 0);
  VALID("distance to a line");
  double d = disToLine(Point<2>(x, y), LINE(1));
  double c = v1x * (y - a1y) - v1y * (x - a1x);
  CHECK(d >= 0, "a distance is not negative");
  CHECK(d * d * (v1x * v1x + v1y * v1y) == c * c, "the distance to a line is that to the foot of the perpendicular");
  vf_noleak(CLEAN);
}
// outside the tolerance of the projections' signs
SPEC(seg_before)(L(1), double x, double y) {
  vf_assume(v1x * v1x + v1y * v1y > 0);
  double t = v1x * (x - a1x) + v1y * (y - a1y);
  vf_assume(t <= -1e-6);
  VALID("distance to a segment, before its start");
  double d = disToSegment(Point<2>(x, y), LINE(1));
  CHECK(d >= 0 && d * d == (x - a1x) * (x - a1x) + (y - a1y) * (y - a1y), "the distance to a segment is that to its start");
  vf_noleak(CLEAN);
}
SPEC(seg_after)(L(1), double x, double y) {
  vf_assume(v1x * v1x + v1y * v1y > 0);
  double ex = a1x + v1x, ey = a1y + v1y;
  double t = v1x * (x - a1x) + v1y * (y - a1y);
  double u = v1x * (x - ex) + v1y * (y - ey);
  vf_assume(t >= 0 && u >= 1e-6);
  VALID("distance to a segment, after its end");
  double d = disToSegment(Point<2>(x, y), LINE(1));
  CHECK(d >= 0 && d * d == (x - ex) * (x - ex) + (y - ey) * (y - ey), "the distance to a segment is that to its end");
  vf_noleak(CLEAN);
}
SPEC(seg_inside)(L(1), double x, double y) {
  vf_assume(v1x * v1x + v1y * v1y > 0);
  double ex = a1x + v1x, ey = a1y + v1y;
  double t = v1x * (x - a1x) + v1y * (y - a1y);
  double u = v1x * (x - ex) + v1y * (y - ey);
  vf_assume(t >= 0 && u <= 0);
  VALID("distance to a segment, beside it");
  double d = disToSegment(Point<2>(x, y), LINE(1));
  double c = v1x * (y - a1y) - v1y * (x - a1x);
  CHECK(d >= 0 && d * d * (v1x * v1x + v1y * v1y) == c * c, "the distance to a segment is that to the foot of the perpendicular");
  vf_noleak(CLEAN);
}

// ---- circles
SPEC(circle)(double x, double y, double r, double t) {
  vf_assume(r > 0);
  VALID("circles");
  Circle c(Point<2>(x, y), r), u, v(r), w(Point<2>(x, y));
  const double pi = 3.1415926;
  CHECK(c.getArea() == pi * r * r && v.getArea() == pi * r * r, "the area is pi r r");
  CHECK(c.getPerimeter() == 2.0 * pi * r && v.getPerimeter() == 2.0 * pi * r, "the perimeter is 2 pi r");
  CHECK(u.getArea() == pi && w.getArea() == pi, "the default radius is 1");
  Point<2> p = c.getPoint(t), q = v.getPoint(t), s = u.getPoint(t), m = w.getPoint(t);
  CHECK(p[0] == x + r * std::cos(t) && p[1] == y + r * std::sin(t), "the point at an angle");
  CHECK(q[0] == r * std::cos(t) && q[1] == r * std::sin(t), "the default centre is the origin");
  CHECK(s[0] == std::cos(t) && s[1] == std::sin(t), "the default circle is the unit circle");
  CHECK(m[0] == x + std::cos(t) && m[1] == y + std::sin(t), "the centre is the one given");
  vf_noleak(CLEAN);
}
