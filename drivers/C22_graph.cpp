// C22: vertices and edges have their own identity and agree about how they are connected.
// LIBS: graph
#include "verif.h"
#include "graph/Edge.h"
#include "graph/Vertex.h"
using namespace cuhksz;
#define ALLFREED "every edge is freed exactly once"

SPEC(vertex_new)(int a) {
  VALID("new vertices");
  Vertex v, w(a);
  CHECK(v.getVal() == 0 && w.getVal() == a, "a vertex has the value given, or 0");
  CHECK(v.isValid() && w.isValid(), "a new vertex is valid");
  CHECK(v.getInDegree() == 0 && v.getOutDegree() == 0 && w.getInDegree() == 0 && w.getOutDegree() == 0, "a new vertex has no edges");
}
SPEC(vertex_ids)(int a) {
  VALID("ids of vertices");
  Vertex u, v(a), w, x(a);
  Vertex c(v);
  CHECK(u.getID() != v.getID() && u.getID() != w.getID() && u.getID() != x.getID() && u.getID() != c.getID() && v.getID() != w.getID() &&
            v.getID() != x.getID() && v.getID() != c.getID() && w.getID() != x.getID() && w.getID() != c.getID() && x.getID() != c.getID(),
        "no two vertices have the same id");
}
SPEC(vertex_ids_reused)(int a) {
  VALID("ids of vertices");
  int id;
  { Vertex u(a); id = u.getID(); }
  Vertex v(a), w;
  CHECK(v.getID() != id && w.getID() != id, "an id is not used again");
}
SPEC(vertex_setters)(int a, int b, bool f) {
  VALID("setters of a vertex");
  Vertex v(a);
  int id = v.getID();
  v.setVal(b);
  CHECK(v.getVal() == b && v.isValid() && v.getID() == id && v.getInDegree() == 0, "setVal changes the value only");
  if (f) v.setInvalid();
  CHECK(v.isValid() == !f && v.getVal() == b && v.getID() == id, "setInvalid marks the vertex");
  v.setValid();
  CHECK(v.isValid() && v.getVal() == b && v.getID() == id, "setValid marks the vertex");
}
SPEC(vertex_copy)(int a, bool f) {
  VALID("copy of a vertex");
  {
    Vertex v(a);
    if (f) v.setInvalid();
    int id = v.getID();
    Vertex c(v);
    CHECK(c.getVal() == a && c.isValid() == !f && c.getInDegree() == 0 && c.getOutDegree() == 0, "a copy has the value and mark of its source");
    c.setVal(a ^ 1);
    c.setInvalid();
    CHECK(v.getVal() == a && v.isValid() == !f && v.getID() == id, "changing a copy leaves its source unchanged");
  }
  vf_noleak(ALLFREED);
}
SPEC(vertex_assign)(int a, int b, bool f) {
  VALID("assignment of a vertex");
  {
    Vertex v(a), w(b);
    if (f) v.setInvalid();
    int i = v.getID(), j = w.getID();
    Vertex& r = (w = v);
    CHECK(&r == &w && w.getVal() == a && w.isValid() == !f, "assignment copies the value and the mark");
    CHECK(w.getID() == j && v.getID() == i && v.getVal() == a && v.isValid() == !f, "assignment keeps the id and the source");
  }
  vf_noleak(ALLFREED);
}
SPEC(vertex_assign_temp)(int a) {
  VALID("assignment of a temporary vertex");
  {
    Vertex v[2];
    int i = v[0].getID();
    v[0] = Vertex(a);
    CHECK(v[0].getVal() == a && v[1].getVal() == 0 && v[0].getID() == i && v[0].isValid(), "assignment changes the target only");
  }
  vf_noleak(ALLFREED);
}
SPEC(vertex_compare)(int a, int b) {
  VALID("comparison of vertices");
  Vertex v(a), w(b);
  CHECK((v < w) == (a < b) && (w < v) == (b < a) && !(v < v), "vertices are ordered by value");
  CHECK(v == v && !(v != v) && !(v == w) && v != w, "vertices are equal when they are the same one");
}
SPEC(edge_new)(int a, bool dflt) {
  VALID("new edges");
  Vertex u, v;
  Edge e(&u, &v, a), d(&v, &u);
  CHECK(e.getFrom() == &u && e.getTo() == &v && e.getVal() == a && e.isValid(), "an edge has the ends and value given and is valid");
  CHECK(d.getFrom() == &v && d.getTo() == &u && d.getVal() == 0 && d.isValid(), "the value of an edge is 0 if none is given");
  CHECK(u.getOutDegree() == 0 && v.getInDegree() == 0, "an edge that is not added is not counted");
}
SPEC(edge_ids)(int a) {
  VALID("ids of edges");
  Vertex u, v;
  Edge e(&u, &v, a), f(&u, &v, a), g(e);
  CHECK(e.getID() != f.getID() && e.getID() != g.getID() && f.getID() != g.getID(), "no two edges have the same id");
  u.addEdge(v, a);
  Edge* h = u.outEdges.front();
  CHECK(h->getID() != e.getID() && h->getID() != f.getID() && h->getID() != g.getID(), "no two edges have the same id");
}
SPEC(edge_setters)(int a, int b, bool f) {
  VALID("setters of an edge");
  Vertex u, v;
  Edge e(&u, &v, a);
  int id = e.getID();
  e.setVal(b);
  if (f) e.setInvalid();
  CHECK(e.getVal() == b && e.isValid() == !f && e.getID() == id && e.getFrom() == &u && e.getTo() == &v, "a setter changes its field only");
  e.setValid();
  CHECK(e.isValid() && e.getVal() == b && e.getID() == id, "a setter changes its field only");
}
SPEC(edge_copy)(int a, int b, bool f) {
  VALID("copies of edges");
  Vertex u, v;
  Edge e(&u, &v, a);
  if (f) e.setInvalid();
  Edge c(e);
  CHECK(c.getFrom() == &u && c.getTo() == &v && c.getVal() == a && c.isValid() == !f, "a copy has the ends, value and mark of its source");
  c.setVal(b);
  CHECK(e.getVal() == a, "changing a copy leaves its source unchanged");
}
SPEC(edge_assign)(int a, int b, bool f) {
  VALID("assignment of edges");
  Vertex u, v;
  Edge e(&u, &v, a), g(&v, &u, b);
  if (f) e.setInvalid();
  int i = e.getID(), j = g.getID();
  Edge& r = (g = e);
  CHECK(&r == &g && g.getFrom() == &u && g.getTo() == &v && g.getVal() == a && g.isValid() == !f, "assignment copies ends, value and mark");
  CHECK(g.getID() == j && e.getID() == i && e.getVal() == a, "assignment keeps the id and the source");
  g = g;
  CHECK(g.getFrom() == &u && g.getVal() == a && g.getID() == j, "assignment to itself changes nothing");
}
SPEC(edge_compare)(int a, int b) {
  VALID("comparison of edges");
  Vertex u, v;
  Edge e(&u, &v, a), f(&u, &v, b);
  CHECK((e < f) == (a < b) && (f < e) == (b < a) && !(e < e), "edges are ordered by value");
  CHECK(e == e && !(e != e) && !(e == f) && e != f, "edges are equal when they are the same one");
}
SPEC(add_edge)(int a, int x) {
  VALID("addEdge");
  {
    Vertex u(a), v(x);
    int i = u.getID(), j = v.getID();
    u.addEdge(v, x);
    CHECK(u.getOutDegree() == 1 && u.getInDegree() == 0 && v.getInDegree() == 1 && v.getOutDegree() == 0, "an edge counts once at each end");
    Edge* e = u.outEdges.front();
    CHECK(v.inEdges.front() == e, "both ends hold the same edge");
    CHECK(e->getFrom() == &u && e->getTo() == &v && e->getVal() == x && e->isValid(), "the edge has the ends and value given");
    CHECK(u.getID() == i && v.getID() == j && u.getVal() == a && v.getVal() == x, "addEdge changes neither id nor value");
  }
  vf_noleak(ALLFREED);
}
SPEC(add_edge_default)() {
  VALID("addEdge without a value");
  {
    Vertex u, v;
    u.addEdge(v);
    CHECK(u.outEdges.front()->getVal() == 0 && v.inEdges.front()->getVal() == 0, "the value of an edge is 0 if none is given");
  }
  vf_noleak(ALLFREED);
}
SPEC(add_edges)(int x, int y, int z) {
  VALID("several edges");
  {
    Vertex u, v, w;
    u.addEdge(v, x);
    u.addEdge(w, y);
    v.addEdge(w, z);
    CHECK(u.getOutDegree() == 2 && v.getOutDegree() == 1 && w.getOutDegree() == 0, "the out-degree is the number of edges added from a vertex");
    CHECK(u.getInDegree() == 0 && v.getInDegree() == 1 && w.getInDegree() == 2, "the in-degree is the number of edges added to a vertex");
    CHECK(u.outEdges.front()->getVal() == x && u.outEdges.front()->getTo() == &v && u.outEdges.back()->getVal() == y &&
              u.outEdges.back()->getTo() == &w, "the edges are listed in the order added");
    CHECK(w.inEdges.front() == u.outEdges.back() && w.inEdges.back() == v.outEdges.front() && v.inEdges.front() == u.outEdges.front(),
          "both ends hold the same edge");
    CHECK(*w.inEdges.front() != *w.inEdges.back(), "edges differ");
  }
  vf_noleak(ALLFREED);
}
SPEC(add_parallel)(int x, int y) {
  VALID("parallel edges and a loop");
  {
    Vertex u, v;
    u.addEdge(v, x);
    u.addEdge(v, y);
    v.addEdge(u, y);
    u.addEdge(u, x);
    CHECK(u.getOutDegree() == 3 && u.getInDegree() == 2 && v.getInDegree() == 2 && v.getOutDegree() == 1, "parallel edges, back edges and loops are all counted");
    CHECK(u.outEdges.back()->getFrom() == &u && u.outEdges.back()->getTo() == &u && u.inEdges.back() == u.outEdges.back(), "a loop has one edge, listed on both sides");
    CHECK(*u.outEdges.front() != *v.outEdges.front() && u.outEdges.front()->getVal() == x && v.outEdges.front()->getVal() == y,
          "parallel edges are different edges");
  }
  vf_noleak(ALLFREED);
}
SPEC(edge_outlives_change)(int x, int y) {
  VALID("changing an edge through one end");
  {
    Vertex u, v;
    u.addEdge(v, x);
    u.outEdges.front()->setVal(y);
    u.outEdges.front()->setInvalid();
    CHECK(v.inEdges.front()->getVal() == y && !v.inEdges.front()->isValid(), "both ends see a change of the edge");
  }
  vf_noleak(ALLFREED);
}
// copies of vertices with edges
SPEC(vertex_copy_edges)(int a, int x) {
  VALID("copy of a vertex with edges");
  {
    Vertex u(a), v;
    u.addEdge(v, x);
    Vertex c(u);
    CHECK(c.getVal() == a, "a copy has the value of its source");
  }
  vf_noleak(ALLFREED);
}
SPEC(vertex_assign_edges)(int a, int x) {
  VALID("assignment of a vertex with edges");
  {
    Vertex u(a), v, w;
    u.addEdge(v, x);
    w = u;
    CHECK(w.getVal() == a, "assignment copies the value");
  }
  vf_noleak(ALLFREED);
}
SPEC(vertex_assign_over_edges)(int a, int x) {
  VALID("assignment to a vertex with edges");
  {
    Vertex u(a), v, w;
    w.addEdge(v, x);
    w = u;
    CHECK(w.getVal() == a, "assignment copies the value");
  }
  vf_noleak(ALLFREED);
}
// ids stay distinct however new vertices and copies follow each other
SPEC(vertex_ids_mixed)(int a) {
  vf_opt("paths");
  VALID("ids of vertices");
  Vertex u(a), c(u), v, d(c), w(a), e(v), x;
  int id[] = {u.getID(), c.getID(), v.getID(), d.getID(), w.getID(), e.getID(), x.getID()};
  for (int i = 0; i < 7; i++)
    for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "no two vertices have the same id");
  w = u;
  CHECK(w.getID() == id[4] && u.getID() == id[0], "assignment keeps the ids");
}
SPEC(edge_ids_mixed)(int a) {
  vf_opt("paths");
  VALID("ids of edges");
  Vertex u, v;
  Edge e(&u, &v, a), f(e), g(&v, &u), h(g), k(&u, &u, a), l(f), m(&v, &v);
  int id[] = {e.getID(), f.getID(), g.getID(), h.getID(), k.getID(), l.getID(), m.getID()};
  for (int i = 0; i < 7; i++)
    for (int j = 0; j < i; j++) CHECK(id[i] != id[j], "no two edges have the same id");
  k = e;
  CHECK(k.getID() == id[4] && e.getID() == id[0], "assignment keeps the ids");
}
// a copy of a vertex with incoming edges only has the same incoming edges
SPEC(vertex_copy_in)(int a, int x, int y) {
  VALID("copy of a vertex with incoming edges");
  {
    Vertex u(a), t(x), v(y);
    u.addEdge(v, x);
    t.addEdge(v, y);
    Vertex c(v), w(a);
    w = v;
    CHECK(c.getInDegree() == 2 && w.getInDegree() == 2 && c.getOutDegree() == 0 && w.getOutDegree() == 0, "as many edges as the source");
    CHECK(c.inEdges.front() == u.outEdges.front() && c.inEdges.back() == t.outEdges.front(), "the same edges, in order (copy)");
    CHECK(w.inEdges.front() == u.outEdges.front() && w.inEdges.back() == t.outEdges.front(), "the same edges, in order (assignment)");
    CHECK(v.getInDegree() == 2 && u.getOutDegree() == 1 && t.getOutDegree() == 1, "the source is unchanged");
    v = w;
    CHECK(v.getInDegree() == 2 && v.inEdges.front() == u.outEdges.front(), "assigned back");
    Vertex n;
    w = n;
    CHECK(w.getInDegree() == 0 && w.getVal() == 0, "nothing of the old edges stays");
  }
  vf_noleak("every edge is freed");
}
SPEC(vertex_copy_out)(int a, int x) {
  VALID("copy of a vertex with outgoing edges");
  Vertex &u = *new Vertex(a), &v = *new Vertex(x);
  u.addEdge(v, x);
  u.addEdge(u, a);
  Vertex &c = *new Vertex(u), &w = *new Vertex();
  w = u;
  CHECK(c.getOutDegree() == 2 && w.getOutDegree() == 2 && c.getInDegree() == 1 && w.getInDegree() == 1, "as many edges as the source");
  CHECK(c.outEdges.front()->getVal() == x && c.outEdges.back()->getVal() == a && w.outEdges.front()->getVal() == x && w.outEdges.back()->getVal() == a, "edges with the same values, in order");
  CHECK(u.getOutDegree() == 2 && u.getInDegree() == 1, "the source is unchanged");
}
