// C21: interval queries equal a naive scan of the values after any updates.
// LIBS: graph
#include "verif.h"
#include "graph/SegmentTree.h"
#include <vector>
using namespace cuhksz;

template <class T> static T any();
template <> int any<int>() { int x = vf_int(); vf_assume(x > -1000 && x < 1000); return x; }
template <> double any<double>() { double x = vf_double(); vf_assume(x > -1000 && x < 1000); return x; }

// a number whose order is not looked at: sums do not depend on it
struct Num {
  int v;
  Num& operator+=(const Num& o) { v += o.v; return *this; }
  Num& operator*=(const Num& o) { v *= o.v; return *this; }
};
static Num operator+(const Num& a, const Num& b) { Num r = {a.v + b.v}; return r; }
static Num operator*(const Num& a, const Num& b) { Num r = {a.v * b.v}; return r; }
static Num operator*(const Num& a, int b) { Num r = {a.v * b}; return r; }
static bool operator==(const Num& a, const Num& b) { return a.v == b.v; }
static bool operator<(const Num&, const Num&) { return false; }
template <> Num any<Num>() { Num r = {any<int>()}; return r; }

// reference: the plain array
template <class T, int N> struct Ref {
  T a[N];
  std::vector<T> v;
  Ref() {
    vf_opt("paths"); vf_opt("ends");
    for (int i = 0; i < N; i++) a[i] = any<T>(), v.push_back(a[i]);
  }
  T sum(int l, int r) { T s = a[l]; for (int i = l + 1; i <= r; i++) s = s + a[i]; return s; }
  T mx(int l, int r) { T s = a[l]; for (int i = l + 1; i <= r; i++) if (s < a[i]) s = a[i]; return s; }
  T mn(int l, int r) { T s = a[l]; for (int i = l + 1; i <= r; i++) if (a[i] < s) s = a[i]; return s; }
  void add(int l, int r, T x) { for (int i = l; i <= r; i++) a[i] = a[i] + x; }
  void mul(int l, int r, T x) { for (int i = l; i <= r; i++) a[i] = a[i] * x; }
};
template <class T, int N> static void sums(SegmentTree<T>& t, Ref<T, N>& f) {
  for (int l = 0; l < N; l++)
    for (int r = l; r < N; r++) CHECK(t.querySum(l, r) == f.sum(l, r), "querySum is the sum of the values in the interval");
}
template <class T, int N> static void ext(SegmentTree<T>& t, Ref<T, N>& f, int l, int r) {
  CHECK(t.queryMax(l, r) == f.mx(l, r), "queryMax is the greatest value in the interval");
  CHECK(t.queryMin(l, r) == f.mn(l, r), "queryMin is the least value in the interval");
}
template <class T, int N> static void t_new() {
  VALID("construction");
  {
    Ref<T, N> f;
    SegmentTree<T> t(f.v);
    CHECK(t.getSize() == N, "the size is the number of values");
    sums(t, f);
    for (int i = 0; i < N; i++) CHECK(f.v[i] == f.a[i], "the given values are not changed");
    f.v[0] = any<T>();
    CHECK(t.querySum(0, 0) == f.a[0], "the tree holds its own values");
  }
  vf_noleak("nothing is left behind");
}
template <class T, int N, int L, int R> static void t_ext() {
  VALID("queryMax and queryMin");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  ext(t, f, L, R);
}
// one update on [L, R], then all sums
template <class T, int N, int L, int R> static void t_add() {
  VALID("addInterval");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = any<T>();
  t.addInterval(L, R, x);
  f.add(L, R, x);
  sums(t, f);
}
template <class T, int N, int L, int R> static void t_mul() {
  VALID("mulInterval");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = any<T>();
  t.mulInterval(L, R, x);
  f.mul(L, R, x);
  sums(t, f);
}
template <class T, int N, int L, int R, int P, int Q> static void t_add_ext() {
  VALID("extremes after addInterval");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = any<T>();
  t.addInterval(L, R, x);
  f.add(L, R, x);
  ext(t, f, P, Q);
}
template <class T, int N, int L, int R, int P, int Q, int X> static void t_mul_ext() {
  VALID("extremes after mulInterval");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = X;
  t.mulInterval(L, R, x);
  f.mul(L, R, x);
  ext(t, f, P, Q);
}
// two updates (K: bit 0 = first multiplies, bit 1 = second multiplies, bit 2 = a query in between)
template <class T, int N, int K, int L, int R, int P, int Q> static void t_two() {
  VALID("two updates");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = any<T>(), y = any<T>();
  if (K & 1) t.mulInterval(L, R, x), f.mul(L, R, x);
  else t.addInterval(L, R, x), f.add(L, R, x);
  if (K & 4) CHECK(t.querySum(0, N - 1) == f.sum(0, N - 1), "querySum is the sum of the values in the interval");
  if (K & 2) t.mulInterval(P, Q, y), f.mul(P, Q, y);
  else t.addInterval(P, Q, y), f.add(P, Q, y);
  sums(t, f);
}
template <class T, int N, int L, int R, int P, int Q> static void t_three() {
  VALID("three updates");
  Ref<T, N> f;
  SegmentTree<T> t(f.v);
  T x = any<T>(), y = any<T>(), z = any<T>();
  t.addInterval(L, R, x), f.add(L, R, x);
  t.mulInterval(P, Q, y), f.mul(P, Q, y);
  t.addInterval(0, N - 1, z), f.add(0, N - 1, z);
  for (int i = 0; i < N; i++) CHECK(t.querySum(i, i) == f.a[i], "querySum is the sum of the values in the interval");
  CHECK(t.querySum(0, N - 1) == f.sum(0, N - 1), "querySum is the sum of the values in the interval");
}
SPEC(empty)() {
  VALID("construction from no values");
  {
    std::vector<int> v;
    SegmentTree<int> t(v);
    CHECK(t.getSize() == 0, "the size is the number of values");
  }
  vf_noleak("nothing is left behind");
}
SPEC(two_trees)(int x) {
  VALID("two trees");
  vf_assume(x > -1000 && x < 1000);
  Ref<int, 2> f, g;
  SegmentTree<int> t(f.v), u(g.v);
  t.addInterval(0, 1, x);
  CHECK(u.querySum(0, 1) == g.sum(0, 1), "trees are independent");
  SegmentTree<int> c(t);
  c.addInterval(0, 0, 5);
  CHECK(t.querySum(0, 1) == f.sum(0, 1) + 2 * x, "a copy is independent");
  CHECK(c.querySum(0, 1) == f.sum(0, 1) + 2 * x + 5, "a copy has the same values");
}
#define S1(n, ...) SPEC(n)() { __VA_ARGS__(); }
S1(new_1, t_new<Num, 1>) S1(new_2, t_new<Num, 2>) S1(new_3, t_new<Num, 3>) S1(new_4, t_new<Num, 4>) S1(new_5, t_new<Num, 5>)
S1(new_6, t_new<Num, 6>) S1(new_7, t_new<Num, 7>) S1(new_d3, t_new<double, 3>)
S1(ext_1, t_ext<int, 1, 0, 0>) S1(ext_2, t_ext<int, 2, 0, 1>) S1(ext_3a, t_ext<int, 3, 0, 2>) S1(ext_3b, t_ext<int, 3, 1, 2>)
S1(ext_4a, t_ext<int, 4, 0, 3>) S1(ext_4b, t_ext<int, 4, 1, 3>) S1(ext_4c, t_ext<int, 4, 1, 2>) S1(ext_5a, t_ext<int, 5, 1, 4>) S1(ext_d3, t_ext<double, 3, 0, 2>)
#define IV2(M, T, N) S1(M##_##T##N##_00, t_##M<T, N, 0, 0>) S1(M##_##T##N##_01, t_##M<T, N, 0, 1>) S1(M##_##T##N##_11, t_##M<T, N, 1, 1>)
#define IV3(M, T, N) IV2(M, T, N) S1(M##_##T##N##_02, t_##M<T, N, 0, 2>) S1(M##_##T##N##_12, t_##M<T, N, 1, 2>) S1(M##_##T##N##_22, t_##M<T, N, 2, 2>)
#define IV4(M, T, N) IV3(M, T, N) S1(M##_##T##N##_03, t_##M<T, N, 0, 3>) S1(M##_##T##N##_13, t_##M<T, N, 1, 3>) S1(M##_##T##N##_23, t_##M<T, N, 2, 3>) S1(M##_##T##N##_33, t_##M<T, N, 3, 3>)
#define IV5(M, T, N) IV4(M, T, N) S1(M##_##T##N##_04, t_##M<T, N, 0, 4>) S1(M##_##T##N##_14, t_##M<T, N, 1, 4>) S1(M##_##T##N##_24, t_##M<T, N, 2, 4>) S1(M##_##T##N##_34, t_##M<T, N, 3, 4>) S1(M##_##T##N##_44, t_##M<T, N, 4, 4>)
S1(add_1, t_add<Num, 1, 0, 0>) S1(mul_1, t_mul<Num, 1, 0, 0>)
IV2(add, Num, 2) IV3(add, Num, 3) IV4(add, Num, 4) IV5(add, Num, 5) IV2(add, int, 2) IV2(add, double, 2)
IV2(mul, Num, 2) IV3(mul, Num, 3) IV4(mul, Num, 4) IV5(mul, Num, 5) IV2(mul, int, 2)
S1(adde_1, t_add_ext<int, 1, 0, 0, 0, 0>) S1(adde_2, t_add_ext<int, 2, 0, 1, 0, 1>) S1(adde_2b, t_add_ext<int, 2, 0, 0, 0, 1>) S1(adde_2c, t_add_ext<int, 2, 1, 1, 0, 1>)
#define EA(L, R) S1(adde_3_##L##R##_02, t_add_ext<int, 3, L, R, 0, 2>) S1(adde_3_##L##R##_01, t_add_ext<int, 3, L, R, 0, 1>) S1(adde_3_##L##R##_12, t_add_ext<int, 3, L, R, 1, 2>)
EA(0, 0) EA(0, 1) EA(1, 2) EA(0, 2)
#define EM(TAG, X) S1(mule_1_##TAG, t_mul_ext<int, 1, 0, 0, 0, 0, X>) S1(mule_2_##TAG, t_mul_ext<int, 2, 0, 1, 0, 1, X>) S1(mule_2b_##TAG, t_mul_ext<int, 2, 0, 0, 0, 1, X>) \
  S1(mule_3_##TAG, t_mul_ext<int, 3, 0, 2, 0, 2, X>) S1(mule_3b_##TAG, t_mul_ext<int, 3, 1, 2, 0, 2, X>) S1(mule_3c_##TAG, t_mul_ext<int, 3, 0, 1, 1, 2, X>)
EM(m1, -1) EM(2, 2) EM(0, 0) EM(m3, -3)
#define T2(N, L, R, P, Q) S1(two_##N##_##L##R##_##P##Q##_0, t_two<Num, N, 0, L, R, P, Q>) S1(two_##N##_##L##R##_##P##Q##_1, t_two<Num, N, 1, L, R, P, Q>) \
  S1(two_##N##_##L##R##_##P##Q##_2, t_two<Num, N, 2, L, R, P, Q>) S1(two_##N##_##L##R##_##P##Q##_3, t_two<Num, N, 3, L, R, P, Q>) \
  S1(two_##N##_##L##R##_##P##Q##_5, t_two<Num, N, 5, L, R, P, Q>) S1(two_##N##_##L##R##_##P##Q##_6, t_two<Num, N, 6, L, R, P, Q>)
T2(1, 0, 0, 0, 0) T2(2, 0, 1, 0, 1) T2(2, 0, 1, 1, 1) T2(2, 0, 0, 0, 1)
T2(3, 0, 2, 0, 1) T2(3, 0, 1, 1, 2) T2(3, 0, 2, 0, 2) T2(3, 1, 2, 0, 2) T2(3, 0, 1, 0, 0) T2(3, 2, 2, 1, 2)
T2(4, 0, 3, 1, 2) T2(4, 0, 1, 1, 3) T2(4, 1, 2, 0, 3) T2(4, 0, 3, 0, 3) T2(4, 2, 3, 3, 3) T2(4, 0, 1, 0, 1)
S1(three_2, t_three<Num, 2, 0, 1, 1, 1>) S1(three_3a, t_three<Num, 3, 0, 1, 1, 2>) S1(three_3b, t_three<Num, 3, 0, 2, 0, 1>) S1(three_4, t_three<Num, 4, 0, 3, 1, 2>)
S1(three_4b, t_three<Num, 4, 1, 3, 0, 3>) S1(three_5, t_three<Num, 5, 0, 2, 1, 4>)
S1(add_6_14, t_add<Num, 6, 1, 4>) S1(add_7_25, t_add<Num, 7, 2, 5>) S1(add_8_07, t_add<Num, 8, 0, 7>) S1(add_9_18, t_add<Num, 9, 1, 8>)
S1(mul_6_14, t_mul<Num, 6, 1, 4>) S1(mul_7_06, t_mul<Num, 7, 0, 6>) S1(mul_8_16, t_mul<Num, 8, 1, 6>) S1(mul_9_08, t_mul<Num, 9, 0, 8>)
T2(5, 0, 4, 1, 3) T2(6, 0, 5, 2, 4) T2(7, 1, 5, 0, 6)
template <int N, int L, int R, int P, int Q, int X> static void t_two_ext() {
  VALID("extremes after two updates");
  Ref<int, N> f;
  SegmentTree<int> t(f.v);
  int y = any<int>();
  t.mulInterval(L, R, X), f.mul(L, R, X);
  t.addInterval(P, Q, y), f.add(P, Q, y);
  t.mulInterval(0, N - 1, -1), f.mul(0, N - 1, -1);
  ext(t, f, 0, N - 1);
}
S1(twoe_1, t_two_ext<1, 0, 0, 0, 0, -2>) S1(twoe_2, t_two_ext<2, 0, 1, 0, 1, -2>) S1(twoe_2b, t_two_ext<2, 0, 1, 0, 0, 3>) S1(twoe_2c, t_two_ext<2, 1, 1, 0, 1, -1>)
S1(twoe_3a, t_two_ext<3, 0, 2, 0, 1, 2>) S1(twoe_3b, t_two_ext<3, 0, 1, 1, 2, -1>)

// longer arrays and histories: sums for any values, extremes for given values and for values that move together
template <int N> static void t_history_sum() {
  VALID("a longer history");
  Ref<Num, N> f;
  SegmentTree<Num> t(f.v);
  int l = 0, r = N - 1;
  for (int k = 0; k < 6; k++) {
    l = (l * 5 + 7 * k + 1) % N;
    r = (r * 3 + 5 * k + 2) % N;
    if (r < l) std::swap(l, r);
    if (k == 2 || k == 5) {
      Num x = {k - 4};
      t.mulInterval(l, r, x), f.mul(l, r, x);
    } else {
      Num x = any<Num>();
      t.addInterval(l, r, x), f.add(l, r, x);
    }
    int p = (l + 3) % N, q = (r + 4) % N;
    if (q < p) std::swap(p, q);
    CHECK(t.querySum(p, q) == f.sum(p, q), "querySum is the sum of the values in the interval");
  }
  for (int p = 0; p < N; p += 3)
    for (int q = p; q < N; q += 5) CHECK(t.querySum(p, q) == f.sum(p, q), "querySum is the sum of the values in the interval");
  for (int p = 0; p < N; p++) CHECK(t.querySum(p, p) == f.a[p], "querySum of one value");
}
template <int N> static void t_history_ext(int seed) {
  VALID("a longer history");
  vf_opt("paths"); vf_opt("ends");
  int a[N];
  std::vector<int> v;
  for (int i = 0; i < N; i++) a[i] = (i * 37 + seed * 11) % 101 - 50, v.push_back(a[i]);
  SegmentTree<int> t(v);
  int l = 0, r = N - 1;
  for (int k = 0; k < 12; k++) {
    l = (l * 5 + 7 * k + seed) % N;
    r = (r * 3 + 5 * k + 2 + seed) % N;
    if (r < l) std::swap(l, r);
    int x = k % 4 == 3 ? -2 : k % 4 == 2 ? 3 : k % 4 == 1 ? -17 : 29;
    if (k == 7) x = 0;
    if (k % 4 >= 2) {
      t.mulInterval(l, r, x);
      for (int i = l; i <= r; i++) a[i] *= x;
    } else {
      t.addInterval(l, r, x);
      for (int i = l; i <= r; i++) a[i] += x;
    }
    for (int m = 0; m < 4; m++) {
      int p = (l * (m + 1) + m) % N, q = (r * (m + 2) + 3 * m) % N;
      if (q < p) std::swap(p, q);
      int hi = a[p], lo = a[p], s = 0;
      for (int i = p; i <= q; i++) {
        if (a[i] > hi) hi = a[i];
        if (a[i] < lo) lo = a[i];
        s += a[i];
      }
      CHECK(t.queryMax(p, q) == hi, "queryMax is the greatest value in the interval");
      CHECK(t.queryMin(p, q) == lo, "queryMin is the least value in the interval");
      CHECK(t.querySum(p, q) == s, "querySum is the sum of the values in the interval");
    }
  }
}
S1(history_sum_10, t_history_sum<10>) S1(history_sum_13, t_history_sum<13>) S1(history_sum_16, t_history_sum<16>) S1(history_sum_17, t_history_sum<17>)
S1(history_sum_24, t_history_sum<24>) S1(history_sum_33, t_history_sum<33>) S1(history_sum_50, t_history_sum<50>)
SPEC(history_ext_5)() { t_history_ext<5>(1); }
SPEC(history_ext_8)() { t_history_ext<8>(2); }
SPEC(history_ext_11)() { t_history_ext<11>(3); }
SPEC(history_ext_16)() { t_history_ext<16>(4); }
SPEC(history_ext_19)() { t_history_ext<19>(5); }
SPEC(history_ext_32)() { t_history_ext<32>(6); }
SPEC(history_ext_47)() { t_history_ext<47>(7); }
SPEC(history_ext_70)() { t_history_ext<70>(8); }
