// C19: the binary search tree finds, orders and forgets exactly the inserted nodes.
// LIBS: graph
#include "verif.h"
#include "graph/BST.h"
#include <utility>
using namespace cuhksz;

// ranks are arbitrary; the nodes belong to the caller
template <int N> struct Nodes {
  BSTNode* n[N];
  int r[N], v[N];
  Nodes(bool distinct) {
    vf_opt("paths"); vf_opt("ends");
    for (int i = 0; i < N; i++) {
      r[i] = vf_int();
      v[i] = vf_int();
      for (int j = 0; distinct && j < i; j++) vf_assume(r[j] != r[i]);
      n[i] = new BSTNode(r[i], v[i]);
    }
  }
  ~Nodes() {
    for (int i = 0; i < N; i++) delete n[i];
  }
  void kept() const {
    for (int i = 0; i < N; i++)
      CHECK(n[i]->getRank() == r[i] && n[i]->getVal() == v[i], "the tree does not change ranks or values");
  }
};
template <int N> static void has(BST& t, const Nodes<N>& s, const bool* in) {
  for (int i = 0; i < N; i++)
    CHECK(t.find(s.r[i]) == (in[i] ? s.n[i] : nullptr), "find gives exactly the nodes that are in the tree");
}
template <int N> static void absent(BST& t, const Nodes<N>& s, const bool* in) {
  int k = vf_int();
  for (int i = 0; i < N; i++)
    if (in[i]) vf_assume(k != s.r[i]);
  CHECK(t.find(k) == nullptr, "find of a rank that is not in the tree gives null");
}
template <int N> static void around(BST& t, const Nodes<N>& s, const bool* in, int j) {
  BSTNode *p = nullptr, *q = nullptr;
  for (int i = 0; i < N; i++) {
    if (!in[i] || i == j) continue;
    if (s.n[i]->getRank() < s.n[j]->getRank() && (!p || p->getRank() < s.n[i]->getRank())) p = s.n[i];
    if (s.n[i]->getRank() > s.n[j]->getRank() && (!q || q->getRank() > s.n[i]->getRank())) q = s.n[i];
  }
  CHECK(t.pre(s.n[j]) == p, "pre is the node with the next lower rank");
  CHECK(t.suf(s.n[j]) == q, "suf is the node with the next higher rank");
}

template <int N> static void t_find() {
  VALID("insert and find");
  {
    Nodes<N> s(true);
    bool in[N];
    BST t;
    for (int i = 0; i < N; i++) in[i] = false;
    for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
    has(t, s, in);
    s.kept();
  }
  vf_noleak("the tree frees nothing that is not its own and keeps nothing");
}
template <int N> static void t_absent() {
  VALID("find");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  absent(t, s, in);
}
template <int N, int J> static void t_around() {
  VALID("pre and suf");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  around(t, s, in, J);
  has(t, s, in);
}
template <int N, int J> static void t_erase() {
  VALID("erase");
  {
    Nodes<N> s(true);
    bool in[N];
    BST t;
    for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
    t.erase(s.n[J]);
    in[J] = false;
    has(t, s, in);
    absent(t, s, in);
    s.kept();
  }
  vf_noleak("erase neither frees nor keeps the caller's nodes");
}
// the erased node is freed: nothing may touch it again
template <int N, int J, int K> static void t_erase_freed() {
  VALID("use after erase");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  t.erase(s.n[J]);
  delete s.n[J];
  s.n[J] = nullptr;
  in[J] = false;
  around(t, s, in, K);
  has(t, s, in);
}
template <int N, int J, int K> static void t_erase_two() {
  VALID("two erases");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  t.erase(s.n[J]);
  in[J] = false;
  t.erase(s.n[K]);
  in[K] = false;
  has(t, s, in);
}
template <int N> static void t_empty() {
  VALID("emptying a tree");
  Nodes<N> s(true);
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]);
  for (int i = 0; i < N; i++) t.erase(s.n[i]);
  CHECK(t.find(vf_int()) == nullptr, "a tree all of whose nodes were erased is empty");
  bool in[N];
  for (int i = 0; i < N; i++) in[i] = false;
  for (int i = N - 1; i >= 0; i--) t.insert(s.n[i]), in[i] = true;
  has(t, s, in);
}
template <int N, int J> static void t_again() {
  VALID("insert after erase");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  t.erase(s.n[J]);
  t.insert(s.n[J]);
  has(t, s, in);
  around(t, s, in, J);
}
// equal ranks: find gives one of them, erasing one leaves the others
template <int N> static void t_equal() {
  VALID("equal ranks");
  Nodes<N> s(false);
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]);
  for (int i = 0; i < N; i++) {
    BSTNode* f = t.find(s.r[i]);
    CHECK(f != nullptr, "a rank that was inserted is found");
    if (f) CHECK(f->getRank() == s.r[i], "find gives a node of the rank asked for");
  }
}
template <int N, int J> static void t_equal_erase() {
  VALID("erase among equal ranks");
  Nodes<N> s(false);
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]);
  t.erase(s.n[J]);
  for (int i = 0; i < N; i++)
    if (i != J) {
      BSTNode* f = t.find(s.r[i]);
      CHECK(f != nullptr && f != s.n[J], "the nodes not erased are still found");
      if (f) CHECK(f->getRank() == s.r[i], "find gives a node of the rank asked for");
    }
}
SPEC(empty)(int k) {
  VALID("find in an empty tree");
  BST t;
  CHECK(t.find(k) == nullptr, "an empty tree has no nodes");
}
SPEC(node)(int k, int v, int w) {
  VALID("node accessors");
  BSTNode n(k, v);
  CHECK(n.getRank() == k && n.getVal() == v, "a node has the rank and value given");
  n.setVal(w);
  CHECK(n.getRank() == k && n.getVal() == w, "setVal changes the value only");
}
SPEC(two_trees)(int a, int b) {
  VALID("two trees");
  vf_opt("paths"); vf_opt("ends");
  vf_assume(a != b);
  BST t, u;
  BSTNode x(a, 1), y(b, 2);
  t.insert(&x);
  u.insert(&y);
  CHECK(t.find(a) == &x && t.find(b) == nullptr && u.find(b) == &y && u.find(a) == nullptr, "trees are independent");
}
#define S0(n, f) SPEC(n)() { f(); }
#define S1(n, ...) SPEC(n)() { __VA_ARGS__(); }
S1(find_1, t_find<1>) S1(find_2, t_find<2>) S1(find_3, t_find<3>) S1(find_4, t_find<4>)
S1(absent_1, t_absent<1>) S1(absent_2, t_absent<2>) S1(absent_3, t_absent<3>)
S1(around_1_0, t_around<1, 0>)
S1(around_2_0, t_around<2, 0>) S1(around_2_1, t_around<2, 1>)
S1(around_3_0, t_around<3, 0>) S1(around_3_1, t_around<3, 1>) S1(around_3_2, t_around<3, 2>)
S1(around_4_0, t_around<4, 0>) S1(around_4_1, t_around<4, 1>) S1(around_4_2, t_around<4, 2>) S1(around_4_3, t_around<4, 3>)
S1(erase_1_0, t_erase<1, 0>)
S1(erase_2_0, t_erase<2, 0>) S1(erase_2_1, t_erase<2, 1>)
S1(erase_3_0, t_erase<3, 0>) S1(erase_3_1, t_erase<3, 1>) S1(erase_3_2, t_erase<3, 2>)
S1(erase_4_0, t_erase<4, 0>) S1(erase_4_1, t_erase<4, 1>) S1(erase_4_2, t_erase<4, 2>) S1(erase_4_3, t_erase<4, 3>)
S1(freed_2_0_1, t_erase_freed<2, 0, 1>) S1(freed_2_1_0, t_erase_freed<2, 1, 0>)
S1(freed_3_0_1, t_erase_freed<3, 0, 1>) S1(freed_3_0_2, t_erase_freed<3, 0, 2>) S1(freed_3_1_0, t_erase_freed<3, 1, 0>)
S1(freed_3_1_2, t_erase_freed<3, 1, 2>) S1(freed_3_2_0, t_erase_freed<3, 2, 0>) S1(freed_3_2_1, t_erase_freed<3, 2, 1>)
S1(freed_4_0_1, t_erase_freed<4, 0, 1>) S1(freed_4_1_3, t_erase_freed<4, 1, 3>) S1(freed_4_2_0, t_erase_freed<4, 2, 0>)
S1(freed_4_3_0, t_erase_freed<4, 3, 0>) S1(freed_4_3_2, t_erase_freed<4, 3, 2>)
S1(two_2_01, t_erase_two<2, 0, 1>) S1(two_2_10, t_erase_two<2, 1, 0>)
S1(two_3_01, t_erase_two<3, 0, 1>) S1(two_3_12, t_erase_two<3, 1, 2>) S1(two_3_20, t_erase_two<3, 2, 0>)
S1(two_4_03, t_erase_two<4, 0, 3>) S1(two_4_12, t_erase_two<4, 1, 2>) S1(two_4_31, t_erase_two<4, 3, 1>)
S1(refill_2, t_empty<2>) S1(refill_3, t_empty<3>)
S1(again_1, t_again<1, 0>) S1(again_2_0, t_again<2, 0>) S1(again_2_1, t_again<2, 1>)
S1(again_3_0, t_again<3, 0>) S1(again_3_1, t_again<3, 1>) S1(again_3_2, t_again<3, 2>)
S1(equal_2, t_equal<2>) S1(equal_3, t_equal<3>) S1(equal_4, t_equal<4>)
S1(equal_erase_2, t_equal_erase<2, 0>) S1(equal_erase_3_0, t_equal_erase<3, 0>) S1(equal_erase_3_1, t_equal_erase<3, 1>)
S1(equal_erase_3_2, t_equal_erase<3, 2>) S1(equal_erase_4_1, t_equal_erase<4, 1>)
S1(find_5, t_find<5>) S1(around_5_0, t_around<5, 0>) S1(around_5_2, t_around<5, 2>) S1(around_5_4, t_around<5, 4>)
S1(freed_5_0_4, t_erase_freed<5, 0, 4>) S1(freed_5_1_0, t_erase_freed<5, 1, 0>) S1(freed_5_2_1, t_erase_freed<5, 2, 1>)
S1(freed_5_3_1, t_erase_freed<5, 3, 1>) S1(freed_5_4_2, t_erase_freed<5, 4, 2>)
S1(two_5_02, t_erase_two<5, 0, 2>) S1(two_5_43, t_erase_two<5, 4, 3>) S1(two_5_14, t_erase_two<5, 1, 4>)
S1(refill_4, t_empty<4>) S1(again_4_0, t_again<4, 0>) S1(again_4_2, t_again<4, 2>)
template <int N> static void t_all() {
  VALID("pre and suf of every node");
  Nodes<N> s(true);
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) t.insert(s.n[i]), in[i] = true;
  for (int i = 0; i < N; i++) around(t, s, in, i);
  for (int i = N - 2; i >= 0; i--) around(t, s, in, i);
}
S1(all_3, t_all<3>) S1(all_4, t_all<4>) S1(all_5, t_all<5>)
// a longer script over increasing, decreasing and alternating ranks: deeper trees
template <int N, int K> static void t_deep() {
  VALID("longer scripts");
  BSTNode* n[N];
  int r0 = vf_int();
  vf_assume(r0 > -1000 && r0 < 1000);
  BST t;
  for (int i = 0; i < N; i++) {
    int off = K == 0 ? i : K == 1 ? N - i : K == 2 ? (i % 2 ? i : -i) : (i * 5) % 11;
    n[i] = new BSTNode(r0 + off, i);
    t.insert(n[i]);
  }
  bool gone[N];
  for (int i = 0; i < N; i++) gone[i] = false;
  for (int k = 0; k < N; k++) {
    int j = (k * 4 + 1) % N;
    for (int i = 0; i < N; i++) {
      if (gone[i]) continue;
      BSTNode *p = nullptr, *q = nullptr;
      for (int m = 0; m < N; m++) {
        if (gone[m] || m == i) continue;
        if (n[m]->getRank() < n[i]->getRank() && (!p || p->getRank() < n[m]->getRank())) p = n[m];
        if (n[m]->getRank() > n[i]->getRank() && (!q || q->getRank() > n[m]->getRank())) q = n[m];
      }
      if ((i + k) % 2) {
        CHECK(t.pre(n[i]) == p, "pre is the node with the next lower rank");
        CHECK(t.suf(n[i]) == q, "suf is the node with the next higher rank");
      }
    }
    for (int i = 0; i < N; i++)
      CHECK(t.find(r0 + (K == 0 ? i : K == 1 ? N - i : K == 2 ? (i % 2 ? i : -i) : (i * 5) % 11)) == (gone[i] ? nullptr : n[i]),
            "find gives exactly the nodes that are in the tree");
    if (!gone[j]) {
      t.erase(n[j]);
      delete n[j];
      gone[j] = true;
    }
  }
}
S1(deep_7_0, t_deep<7, 0>) S1(deep_7_1, t_deep<7, 1>) S1(deep_7_2, t_deep<7, 2>) S1(deep_9_3, t_deep<9, 3>)
S1(deep_9_0, t_deep<9, 0>) S1(deep_9_1, t_deep<9, 1>) S1(deep_9_2, t_deep<9, 2>)
S1(deep_13_0, t_deep<13, 0>) S1(deep_16_1, t_deep<16, 1>) S1(deep_15_2, t_deep<15, 2>) S1(deep_11_3, t_deep<11, 3>)
// a long history: insert, erase and insert again in changing order
template <int N> static void t_history(int a, int b) {
  VALID("a long history");
  vf_opt("paths"); vf_opt("ends");
  int r0 = vf_int();
  vf_assume(r0 > -1000 && r0 < 1000);
  BSTNode* n[N];
  bool in[N];
  BST t;
  for (int i = 0; i < N; i++) n[i] = new BSTNode(r0 + 2 * i, i), in[i] = false;
  for (int k = 0; k < 4 * N; k++) {
    int j = (k * a + k * k * b) % N;
    if (in[j]) t.erase(n[j]); else t.insert(n[j]);
    in[j] = !in[j];
    int i = (k * 7 + 3) % N;
    if (in[i]) {
      int p = i - 1, q = i + 1;
      while (p >= 0 && !in[p]) p--;
      while (q < N && !in[q]) q++;
      CHECK(t.pre(n[i]) == (p < 0 ? nullptr : n[p]), "pre is the node with the next lower rank");
      CHECK(t.suf(n[i]) == (q == N ? nullptr : n[q]), "suf is the node with the next higher rank");
    }
    if (k % 5 == 0)
      for (int m = 0; m < N; m++) {
        CHECK(t.find(r0 + 2 * m) == (in[m] ? n[m] : nullptr), "find gives exactly the nodes that are in the tree");
        CHECK(t.find(r0 + 2 * m + 1) == nullptr, "find of a rank that is not in the tree gives null");
      }
  }
  for (int i = 0; i < N; i++) {
    CHECK(n[i]->getRank() == r0 + 2 * i && n[i]->getVal() == i, "the tree does not change ranks or values");
    delete n[i];
  }
}
SPEC(history_11)() { t_history<11>(3, 0); }
SPEC(history_13)() { t_history<13>(5, 1); }
SPEC(history_17)() { t_history<17>(6, 3); }
SPEC(history_23)() { t_history<23>(9, 2); }
SPEC(history_31)() { t_history<31>(12, 5); }
