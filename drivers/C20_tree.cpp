// C20: the rooted tree answers ancestor, lowest common ancestor and distance queries by definition.
// LIBS: graph
#include "verif.h"
#include "graph/Tree.h"
using namespace cuhksz;

// an arbitrary tree of N nodes: the parent of each node is any earlier node
template <int N> struct Any {
  Node* n[N];
  int v[N];
  int pa[N];
  Tree t;
  Any() {
    vf_opt("paths"); vf_opt("ends");
    for (int i = 0; i < N; i++) v[i] = vf_int(), n[i] = new Node(i, v[i]);
    t.setRoot(n[0]);
    pa[0] = -1;
    for (int i = 1; i < N; i++) {
      int p = vf_int();
      vf_assume(p >= 0 && p < i);
      for (int j = 0; j < i; j++)
        if (p == j) {
          t.addNode(n[i], n[j]);
          pa[i] = j;
        }
    }
  }
  ~Any() {
    for (int i = 0; i < N; i++) delete n[i];
  }
};
static int depth(const int* pa, int x) {
  int d = 0;
  while (pa[x] >= 0) x = pa[x], d++;
  return d;
}
static int lca(const int* pa, int x, int y) {
  int dx = depth(pa, x), dy = depth(pa, y);
  while (dx > dy) x = pa[x], dx--;
  while (dy > dx) y = pa[y], dy--;
  while (x != y) x = pa[x], y = pa[y];
  return x;
}

template <int N> static void t_shape() {
  VALID("building a tree");
  {
    Any<N> a;
    CHECK(a.t.getRoot() == a.n[0], "the root is the node set");
    for (int i = 0; i < N; i++) {
      CHECK(a.n[i]->getHeight() == depth(a.pa, i), "the height is the number of steps to the root");
      CHECK(a.n[i]->getFa() == (i ? a.n[a.pa[i]] : nullptr), "the father is the node it was added to");
      CHECK(a.n[i]->getVal() == a.v[i] && a.n[i]->getID() == i, "the tree does not change values or ids");
      int k = 0;
      std::vector<Node*> s = a.n[i]->getSon();
      for (int j = i + 1; j < N; j++)
        if (a.pa[j] == i) CHECK(s[k] == a.n[j], "the sons are the nodes added, in order"), k++;
      CHECK(a.n[i]->getDegree() == k && (int)s.size() == k, "the degree is the number of sons");
    }
  }
  vf_noleak("the tree frees nothing that is not its own and keeps nothing");
}
template <int N> static void t_lca() {
  VALID("LCA");
  Any<N> a;
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      CHECK(a.t.LCA(a.n[i], a.n[j]) == a.n[lca(a.pa, i, j)], "LCA is the deepest node above both");
}
template <int N> static void t_dist() {
  VALID("getDistance");
  Any<N> a;
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      CHECK(a.t.getDistance(a.n[i], a.n[j]) == depth(a.pa, i) + depth(a.pa, j) - 2 * depth(a.pa, lca(a.pa, i, j)),
            "the distance is the length of the path between the nodes");
}
template <int N> static void t_anc() {
  VALID("getAncestor");
  Any<N> a;
  for (int i = 0; i < N; i++) {
    int x = i;
    for (int l = 0; l <= depth(a.pa, i); l++) {
      CHECK(a.n[i]->getAncestor(l) == a.n[x], "getAncestor(l) is l steps up");
      x = a.pa[x];
    }
  }
}
// deep trees: a stem of S nodes below the root, then branches of A and B nodes; the values are arbitrary
template <int S, int A, int B> static void t_fork() {
  const int N = 1 + S + A + B;
  VALID("a forked path");
  {
    Node* n[N];
    int pa[N];
    Tree t;
    for (int i = 0; i < N; i++) n[i] = new Node(i, vf_int());
    t.setRoot(n[0]);
    pa[0] = -1;
    for (int i = 1; i < N; i++) {
      pa[i] = i == 1 + S + A ? S : i - 1;
      t.addNode(n[i], n[pa[i]]);
    }
    for (int i = 0; i < N; i++) {
      int x = i;
      for (int l = 0; l <= depth(pa, i); l++) {
        CHECK(n[i]->getAncestor(l) == n[x], "getAncestor(l) is l steps up");
        x = pa[x];
      }
      for (int j = 0; j < N; j++) {
        int c = lca(pa, i, j);
        CHECK(t.LCA(n[i], n[j]) == n[c], "LCA is the deepest node above both");
        CHECK(t.getDistance(n[i], n[j]) == depth(pa, i) + depth(pa, j) - 2 * depth(pa, c),
              "the distance is the length of the path between the nodes");
      }
    }
    for (int i = 0; i < N; i++) delete n[i];
  }
  vf_noleak("the tree frees nothing that is not its own and keeps nothing");
}
SPEC(fresh)(int id, int val) {
  VALID("a new node and a new tree");
  Node n(id, val);
  Node m(id);
  Tree t;
  CHECK(t.getRoot() == nullptr, "a new tree has no root");
  CHECK(n.getVal() == val && n.getID() == id && m.getVal() == 0 && m.getID() == id, "a node has the id and value given");
  CHECK(n.getFa() == nullptr && n.getHeight() == 0 && n.getDegree() == 0, "a new node stands alone");
}
SPEC(accessors)(int id, int val, int h) {
  VALID("node accessors");
  Node f(id, val), n(id, val);
  n.setFa(&f);
  n.setHeight(h);
  f.addSon(&n);
  CHECK(n.getFa() == &f && n.getHeight() == h && n.getVal() == val && n.getID() == id, "a setter changes its field only");
  CHECK(f.getDegree() == 1 && f.getSon()[0] == &n && f.getFa() == nullptr && n.getDegree() == 0, "addSon changes the father only");
}
#define S1(n, ...) SPEC(n)() { __VA_ARGS__(); }
S1(shape_1, t_shape<1>) S1(shape_2, t_shape<2>) S1(shape_3, t_shape<3>) S1(shape_4, t_shape<4>) S1(shape_5, t_shape<5>)
S1(lca_1, t_lca<1>) S1(lca_2, t_lca<2>) S1(lca_3, t_lca<3>) S1(lca_4, t_lca<4>) S1(lca_5, t_lca<5>)
S1(dist_2, t_dist<2>) S1(dist_3, t_dist<3>) S1(dist_4, t_dist<4>) S1(dist_5, t_dist<5>)
S1(anc_1, t_anc<1>) S1(anc_2, t_anc<2>) S1(anc_3, t_anc<3>) S1(anc_4, t_anc<4>) S1(anc_5, t_anc<5>)
S1(fork_0_3_3, t_fork<0, 3, 3>) S1(fork_0_5_5, t_fork<0, 5, 5>) S1(fork_1_5_4, t_fork<1, 5, 4>) S1(fork_2_6_3, t_fork<2, 6, 3>)
S1(fork_3_1_7, t_fork<3, 1, 7>) S1(fork_0_9_9, t_fork<0, 9, 9>) S1(fork_5_4_7, t_fork<5, 4, 7>) S1(fork_8_1_0, t_fork<8, 1, 0>)
S1(fork_4_4_4, t_fork<4, 4, 4>) S1(fork_0_8_7, t_fork<0, 8, 7>)
// long branches: queries between some of the nodes
template <int L> static void t_long() {
  const int N = 1 + 2 * L;
  VALID("long branches");
  Node* n[N];
  Tree t;
  for (int i = 0; i < N; i++) n[i] = new Node(i, vf_int());
  t.setRoot(n[0]);
  for (int i = 1; i < N; i++) t.addNode(n[i], i == 1 + L ? n[0] : n[i - 1]);
  for (int i = 0; i < L; i++) {
    CHECK(t.LCA(n[L - i], n[N - 1]) == n[0] && t.LCA(n[N - 1], n[L - i]) == n[0], "LCA is the deepest node above both");
    CHECK(t.LCA(n[L - i], n[L]) == n[L - i] && t.LCA(n[L], n[L - i]) == n[L - i], "LCA of a node and one above it is the upper one");
    CHECK(n[L]->getAncestor(i) == n[L - i], "getAncestor(l) is l steps up");
    CHECK(t.getDistance(n[N - 1], n[L - i]) == 2 * L - i && t.getDistance(n[L - i], n[L]) == i,
          "the distance is the length of the path between the nodes");
  }
}
S1(long_17, t_long<17>) S1(long_35, t_long<35>)
// larger trees of several shapes, every pair of nodes
template <int N> static void t_shaped(int a, int b) {
  VALID("a larger tree");
  Node* n[N];
  int pa[N];
  Tree t;
  for (int i = 0; i < N; i++) n[i] = new Node(i, vf_int());
  t.setRoot(n[0]);
  pa[0] = -1;
  for (int i = 1; i < N; i++) {
    pa[i] = a == 0 ? (i - 1) / b : i - 1 - (i * a + i * i * b) % (i < 5 ? i : 5);
    t.addNode(n[i], n[pa[i]]);
  }
  for (int i = 0; i < N; i++) {
    CHECK(n[i]->getHeight() == depth(pa, i), "the height is the number of steps to the root");
    for (int x = i, l = 0; x >= 0; x = pa[x], l++) CHECK(n[i]->getAncestor(l) == n[x], "getAncestor(l) is l steps up");
    for (int j = 0; j < N; j++) {
      int c = lca(pa, i, j);
      CHECK(t.LCA(n[i], n[j]) == n[c], "LCA is the deepest node above both");
      CHECK(t.getDistance(n[i], n[j]) == depth(pa, i) + depth(pa, j) - 2 * depth(pa, c),
            "the distance is the length of the path between the nodes");
    }
  }
}
SPEC(shaped_binary)() { t_shaped<23>(0, 2); }
SPEC(shaped_ternary)() { t_shaped<22>(0, 3); }
SPEC(shaped_mixed_a)() { t_shaped<24>(3, 1); }
SPEC(shaped_mixed_b)() { t_shaped<25>(1, 2); }
SPEC(shaped_mixed_c)() { t_shaped<30>(7, 0); }
S1(long_70, t_long<70>)

// a node that has been in a tree becomes the root of another
SPEC(new_root)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("setRoot");
  Node a(1, 2), b(3, 4), c(5, 6), d(7, 8), e(9, 10);
  Tree s, t;
  s.setRoot(&a);
  s.addNode(&b, &a);
  t.setRoot(&b);
  CHECK(t.getRoot() == &b && b.getFa() == nullptr && b.getHeight() == 0, "a root has no father and height 0");
  t.addNode(&c, &b);
  t.addNode(&d, &b);
  t.addNode(&e, &c);
  CHECK(c.getHeight() == 1 && d.getHeight() == 1 && e.getHeight() == 2, "heights count from the root");
  CHECK(t.LCA(&d, &e) == &b && t.LCA(&c, &e) == &c && t.LCA(&e, &b) == &b, "LCA in the new tree");
  CHECK(t.getDistance(&d, &e) == 3 && t.getDistance(&b, &e) == 2, "distance in the new tree");
  CHECK(s.getRoot() == &a, "the other tree keeps its root");
}
SPEC(root_of_any)() {
  VALID("setRoot");
  Node a(vf_int(), vf_int()), b(vf_int(), vf_int());
  a.setFa(&b);
  a.setHeight(vf_int());
  Tree t;
  t.setRoot(&a);
  CHECK(t.getRoot() == &a && a.getFa() == nullptr && a.getHeight() == 0, "a root has no father and height 0");
}
