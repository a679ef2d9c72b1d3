// C18: matrices hold their own elements, compute the definitions, and neither leak nor share memory.
// LIBS: math_utils
#include "verif.h"
#include "math_utils/Matrix.h"
#include <utility>
using namespace cuhksz;
#define CLEAN "the elements are released exactly once"
typedef std::vector<std::vector<int>> VV;

// an R x C matrix with arbitrary elements
template <class T> static T any();
template <> int any<int>() { int x = vf_int(); vf_assume(x > -1000 && x < 1000); return x; }
template <> double any<double>() { return vf_double(); }
template <class T, int R, int C> struct G {
  T e[R][C];
  G() {
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) e[i][j] = any<T>();
  }
  Matrix<T> mk() const {
    Matrix<T> m(R, C);
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) m[i][j] = e[i][j];
    return m;
  }
  bool is(const Matrix<T>& m) const {
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++)
        if (!(m[i][j] == e[i][j])) return false;
    return m == m;
  }
};

template <class T, int R, int C> static void t_make() {
  VALID("construction");
  {
    Matrix<T> m(R, C);
    const Matrix<T>& c = m;
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) CHECK(c[i][j] == 0, "a new matrix is zero");
    T x = any<T>();
    m[R - 1][C - 1] = x;
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++)
        CHECK(c[i][j] == (i == R - 1 && j == C - 1 ? x : (T)0), "an element is written on its own");
  }
  vf_noleak(CLEAN);
}
template <class T, int N> static void t_square() {
  VALID("construction of a square matrix");
  {
    Matrix<T> m(N), n(N, N);
    CHECK(m == n && !(m != n), "a square matrix has as many columns as rows");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_vec() {
  VALID("construction from rows");
  {
    G<int, R, C> g;
    VV v;
    for (int i = 0; i < R; i++) {
      std::vector<int> r;
      for (int j = 0; j < C; j++) r.push_back(g.e[i][j]);
      v.push_back(r);
    }
    Matrix<T> m(v);
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) CHECK(m[i][j] == g.e[i][j], "the elements are those of the rows given");
    CHECK(m == Matrix<T>(v), "the size is that of the rows given");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_copy() {
  VALID("copies");
  {
    G<T, R, C> g, h;
    Matrix<T> m = g.mk();
    Matrix<T> c(m);
    CHECK(c == m && g.is(c), "a copy has the elements of its source");
    T x = any<T>();
    c[0][0] = x;
    CHECK(g.is(m) && c[0][0] == x, "a copy is independent of its source");
    m[0][0] = h.e[0][0];
    CHECK(c[0][0] == x, "a source is independent of its copy");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_assign() {
  VALID("assignment");
  {
    G<T, R, C> g, h;
    Matrix<T> m = g.mk(), n = h.mk(), big(R + 1, C + 2), small(1, 1);
    Matrix<T>& ref = (n = m);
    big = m;
    small = m;
    CHECK(g.is(n) && &ref == &n && n == m, "assignment copies the elements");
    CHECK(g.is(big) && big == m && g.is(small) && small == m, "assignment takes over the size");
    n[0][0] = h.e[0][0];
    CHECK(g.is(m), "an assigned matrix is independent of its source");
    m = m;
    CHECK(g.is(m), "self-assignment changes nothing");
    n = Matrix<T>(2, 1);
    CHECK(n[0][0] == 0 && n[1][0] == 0 && n == Matrix<T>(2, 1), "assignment from a temporary");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_eq() {
  VALID("equality");
  {
    G<T, R, C> g, h;
    const Matrix<T> m = g.mk(), n = h.mk();
    bool e = g.is(n);
    CHECK((m == n) == e && (m != n) == !e, "matrices of one size are equal when all elements are");
    CHECK(m == m && !(m != m), "a matrix equals itself");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_eq_size() {
  VALID("equality of different sizes");
  {
    const Matrix<T> m(R, C), n(R + 1, C), p(R, C + 1);
    CHECK(!(m == n) && m != n && !(n == m) && n != m && !(m == p) && m != p && !(p == m) && p != m,
          "matrices of different sizes are not equal");
    const Matrix<T> w(1, R * C + R), t(R * C + R, 1), q(R, C + 1);
    CHECK(w != t && t != w && !(w == t) && (R == 1 || w != q), "matrices of different shape are not equal");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int C> static void t_addsub() {
  VALID("sum and difference");
  {
    G<T, R, C> g, h, s, d, dd, z;
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) {
        s.e[i][j] = g.e[i][j] + h.e[i][j], d.e[i][j] = g.e[i][j] - h.e[i][j];
        dd.e[i][j] = g.e[i][j] + g.e[i][j], z.e[i][j] = 0;
      }
    const Matrix<T> m = g.mk(), n = h.mk();
    CHECK(s.is(m + n) && d.is(m - n) && m + n == s.mk() && m - n == d.mk(), "sum and difference are element-wise");
    CHECK(g.is(m) && h.is(n), "sum and difference leave their operands alone");
    Matrix<T> a(m), b(m);
    Matrix<T>& ra = (a += n);
    Matrix<T>& rb = (b -= n);
    CHECK(s.is(a) && d.is(b) && h.is(n) && &ra == &a && &rb == &b, "+= and -= change their left operand");
    a = m, b = m;
    a += a;
    b -= b;
    CHECK(dd.is(a) && z.is(b), "a matrix can be added to and subtracted from itself");
  }
  vf_noleak(CLEAN);
}
template <class T, int R, int K, int C> static void t_mul() {
  VALID("product");
  {
    G<T, R, K> g;
    G<T, K, C> h;
    G<T, R, C> p;
    for (int i = 0; i < R; i++)
      for (int j = 0; j < C; j++) {
        p.e[i][j] = 0;
        for (int k = 0; k < K; k++) p.e[i][j] += g.e[i][k] * h.e[k][j];
      }
    const Matrix<T> m = g.mk(), n = h.mk();
    CHECK(p.is(m * n) && m * n == p.mk(), "the product sums row times column");
    CHECK(g.is(m) && h.is(n), "the product leaves its operands alone");
    Matrix<T> a(m);
    Matrix<T>& ra = (a *= n);
    CHECK(p.is(a) && a == p.mk() && h.is(n) && &ra == &a, "*= changes its left operand to the product");
  }
  vf_noleak(CLEAN);
}
template <class T> static void t_self() {
  VALID("product of a matrix with itself");
  {
    G<T, 2, 2> g, p;
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < 2; j++) p.e[i][j] = g.e[i][0] * g.e[0][j] + g.e[i][1] * g.e[1][j];
    Matrix<T> m = g.mk();
    CHECK(p.is(m * m), "the square of a matrix");
    m *= m;
    CHECK(p.is(m), "a matrix can be multiplied by itself in place");
  }
  vf_noleak(CLEAN);
}
template <class T> static void t_pow(unsigned n) {
  VALID("powers");
  {
    G<T, 2, 2> g;
    const Matrix<T> m = g.mk();
    Matrix<T> r(2, 2);
    r[0][0] = 1;
    r[1][1] = 1;
    for (unsigned i = 0; i < n; i++) r = r * m;
    CHECK(pow(m, n) == r, "the power is the repeated product");
    CHECK(g.is(m), "the power leaves its operand alone");
  }
  vf_noleak(CLEAN);
}
#define DIMS(T, R, C)                                                          \
  SPEC(make_##T##R##C)() { t_make<T, R, C>(); }                                \
  SPEC(vec_##T##R##C)() { t_vec<T, R, C>(); }                                  \
  SPEC(copy_##T##R##C)() { t_copy<T, R, C>(); }                                \
  SPEC(assign_##T##R##C)() { t_assign<T, R, C>(); }                            \
  SPEC(eq_##T##R##C)() { t_eq<T, R, C>(); }                                    \
  SPEC(eqs_##T##R##C)() { t_eq_size<T, R, C>(); }                              \
  SPEC(addsub_##T##R##C)() { t_addsub<T, R, C>(); }
DIMS(int, 1, 1)
DIMS(int, 1, 2)
DIMS(int, 2, 1)
DIMS(int, 2, 2)
DIMS(int, 2, 3)
DIMS(double, 2, 2)
DIMS(double, 3, 2)
#define MULS(T, R, K, C) SPEC(mul_##T##R##K##C)() { t_mul<T, R, K, C>(); }
MULS(int, 1, 1, 1)
MULS(int, 1, 2, 1)
MULS(int, 2, 1, 2)
MULS(int, 2, 2, 2)
MULS(int, 2, 3, 2)
MULS(int, 2, 3, 1)
MULS(double, 2, 2, 2)
MULS(double, 1, 2, 3)
SPEC(square_int1)() { t_square<int, 1>(); }
SPEC(square_int2)() { t_square<int, 2>(); }
SPEC(square_double3)() { t_square<double, 3>(); }
SPEC(self_int)() { t_self<int>(); }
SPEC(self_double)() { t_self<double>(); }
SPEC(pow_0)() { t_pow<int>(0); }
SPEC(pow_1)() { t_pow<int>(1); }
SPEC(pow_2)() { t_pow<int>(2); }
SPEC(pow_3)() { t_pow<int>(3); }
SPEC(pow_4)() { t_pow<int>(4); }
SPEC(pow_5)() { t_pow<int>(5); }
SPEC(pow_d2)() { t_pow<double>(2); }
SPEC(pow_d3)() { t_pow<double>(3); }
// ---- reduction to row echelon form
SPEC(reduce_22)(double a, double b, double c, double d) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(a != 0 && a * d - b * c != 0);
  VALID("reduction of a regular matrix");
  {
    Matrix<double> m(2, 2);
    m[0][0] = a, m[0][1] = b, m[1][0] = c, m[1][1] = d;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == b / a && m[1][0] == 0 && m[1][1] == 1, "reduction gives the row echelon form");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_22_swap)(double b, double c, double d) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(b != 0 && c != 0);
  VALID("reduction of a matrix with a zero first pivot");
  {
    Matrix<double> m(2, 2);
    m[0][0] = 0, m[0][1] = b, m[1][0] = c, m[1][1] = d;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == d / c && m[1][0] == 0 && m[1][1] == 1, "reduction exchanges rows for a pivot");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_22_singular)(double a, double b, double k) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(a != 0);
  VALID("reduction of a singular matrix");
  {
    Matrix<double> m(2, 2);
    m[0][0] = a, m[0][1] = b, m[1][0] = k * a, m[1][1] = k * b;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == b / a && m[1][0] == 0 && m[1][1] == 0, "dependent rows become zero");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_22_column)(double b, double d) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(b != 0);
  VALID("reduction of a matrix with a zero column");
  {
    Matrix<double> m(2, 2);
    m[0][1] = b, m[1][1] = d;
    m.reduce();
    CHECK(m[0][0] == 0 && m[0][1] == 1 && m[1][0] == 0 && m[1][1] == 0, "a zero column is skipped");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_zero)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("reduction of a zero matrix");
  {
    Matrix<double> m(2, 3);
    m.reduce();
    CHECK(m == Matrix<double>(2, 3), "the zero matrix is its own reduction");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_wide)(double a, double b, double c) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(a != 0);
  VALID("reduction of one row");
  {
    Matrix<double> m(1, 3);
    m[0][0] = a, m[0][1] = b, m[0][2] = c;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == b / a && m[0][2] == c / a, "a row is divided by its leading element");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_tall)(double a, double b, double c) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(a != 0);
  VALID("reduction of one column");
  {
    Matrix<double> m(3, 1);
    m[0][0] = a, m[1][0] = b, m[2][0] = c;
    m.reduce();
    CHECK(m[0][0] == 1 && m[1][0] == 0 && m[2][0] == 0, "one column is reduced to its first element");
  }
  vf_noleak(CLEAN);
}
// ---- text
SPEC(text)(int a, int b, int c, int d) {
  VALID("text of a matrix");
  {
    Matrix<int> m(2, 2);
    m[0][0] = a, m[0][1] = b, m[1][0] = c, m[1][1] = d;
    CHECK(m.toString() == std::to_string(a) + ", " + std::to_string(b) + "\n" + std::to_string(c) + ", " + std::to_string(d) + "\n",
          "the text lists the rows");
    Matrix<int> v(2, 1);
    v[0][0] = a, v[1][0] = b;
    CHECK(v.toString() == std::to_string(a) + "\n" + std::to_string(b) + "\n", "the text of a column");
  }
  vf_noleak(CLEAN);
}
template <class T, int N> static void t_id() {
  VALID("identity matrix");
  {
    Matrix<T> m = Matrix<T>::idMat(N);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) CHECK(m[i][j] == (i == j ? 1 : 0), "the identity has ones on the diagonal only");
    CHECK(m != Matrix<T>(N, N + 1), "the identity is square");
  }
  vf_noleak(CLEAN);
}
SPEC(id_1)() { t_id<int, 1>(); }
SPEC(id_3)() { t_id<double, 3>(); }
// every regular 3 x 3 matrix with non-zero leading minors is such a product
SPEC(reduce_33)(double p, double x, double y, double q, double s, double z, double t, double u, double w) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(p != 0 && s != 0 && w != 0);
  VALID("reduction of a regular 3 x 3 matrix");
  {
    Matrix<double> m(3, 3);
    m[0][0] = p, m[0][1] = p * x, m[0][2] = p * y;
    m[1][0] = q, m[1][1] = q * x + s, m[1][2] = q * y + s * z;
    m[2][0] = t, m[2][1] = t * x + u, m[2][2] = t * y + u * z + w;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == x && m[0][2] == y, "first row of the echelon form");
    CHECK(m[1][0] == 0 && m[1][1] == 1 && m[1][2] == z, "second row of the echelon form");
    CHECK(m[2][0] == 0 && m[2][1] == 0 && m[2][2] == 1, "third row of the echelon form");
  }
  vf_noleak(CLEAN);
}
SPEC(reduce_34)(double p, double x, double y, double v, double q, double z, double t, double s) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(p != 0 && s != 0);
  VALID("reduction of a 3 x 4 matrix with a skipped column");
  {
    Matrix<double> m(3, 4);
    m[0][0] = p, m[0][1] = p * x, m[0][2] = p * y, m[0][3] = p * v;
    m[1][0] = q, m[1][1] = q * x, m[1][2] = q * y + s, m[1][3] = q * v + s * z;
    m[2][0] = t, m[2][1] = t * x, m[2][2] = t * y, m[2][3] = t * v;
    m.reduce();
    CHECK(m[0][0] == 1 && m[0][1] == x && m[0][2] == y && m[0][3] == v, "first row of the echelon form");
    CHECK(m[1][0] == 0 && m[1][1] == 0 && m[1][2] == 1 && m[1][3] == z, "second row of the echelon form");
    CHECK(m[2][0] == 0 && m[2][1] == 0 && m[2][2] == 0 && m[2][3] == 0, "dependent rows become zero");
  }
  vf_noleak(CLEAN);
}
// operands that do not fit
template <int R, int C, int R2, int C2> static void t_misfit(int op) {
  G<int, R, C> g;
  G<int, R2, C2> h;
  Matrix<int> m = g.mk(), n = h.mk();
  INVALID("operands whose shapes do not fit");
  if (op == 0) m + n;
  if (op == 1) m - n;
  if (op == 2) m += n;
  if (op == 3) m -= n;
  if (op == 4) m * n;
  if (op == 5) m *= n;
  if (op == 6) pow(m, 3);
  MUST_STOP("operands whose shapes do not fit");
}
#define MISFIT(name, op)                                      \
  SPEC(misfit_rows_##name)() { t_misfit<3, 2, 2, 2>(op); }     \
  SPEC(misfit_cols_##name)() { t_misfit<2, 3, 2, 2>(op); }     \
  SPEC(misfit_more_rows_##name)() { t_misfit<2, 2, 3, 2>(op); } \
  SPEC(misfit_more_cols_##name)() { t_misfit<2, 2, 2, 3>(op); }
MISFIT(sum, 0)
MISFIT(difference, 1)
MISFIT(add, 2)
MISFIT(subtract, 3)
SPEC(misfit_product_wide)() { t_misfit<2, 3, 2, 2>(4); }
SPEC(misfit_product_tall)() { t_misfit<2, 2, 3, 2>(4); }
SPEC(misfit_multiply_wide)() { t_misfit<2, 3, 2, 2>(5); }
SPEC(misfit_multiply_tall)() { t_misfit<2, 2, 3, 2>(5); }
SPEC(misfit_power)() { t_misfit<2, 3, 2, 2>(6); }
SPEC(misfit_power_tall)() { t_misfit<3, 2, 2, 2>(6); }
// without columns
SPEC(no_columns)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("a matrix without columns");
  {
    Matrix<double> m(2, 0), n(m);
    m.reduce();
    CHECK(m == n, "nothing to change");
    n = m + m;
    CHECK(n == m, "nothing to add");
    CHECK(m.toString() == "\n\n", "two empty rows");
  }
  vf_noleak(CLEAN);
}
