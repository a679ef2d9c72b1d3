// C04: comparison operators agree with the standard containers'.
#include "verif.h"
#include <list>
#include <vector>
#include <queue>
#include <stack>
#include <map>
#include <set>
#include <string>
#include "containers.h"
using namespace cuhksz;
typedef std::string Str;
typedef Map<int, int> Mii; typedef std::map<int, int> SMii;
typedef Map<Str, int> Msi; typedef std::map<Str, int> SMsi;
typedef MultiMap<int, int> MMii; typedef std::multimap<int, int> SMMii;
#define ONEOP(CT, ST, C, TAG, OP, NAME)                                         \
  SPEC(TAG##_##NAME)(ST & s, ST & t) {                                          \
    CT a(s);                                                                    \
    CT b(t);                                                                    \
    VALID("comparison (" #C " " #OP ")");                                       \
    CHECK((a OP b) == (s OP t), #OP " agrees with the standard container (" #C ")");\
    CHECK((ST)a == s && (ST)b == t, "comparison changes nothing (" #C " " #OP ")");\
  }                                                                             \
  SPEC(TAG##_##NAME##_self)(ST & s) {                                           \
    CT a(s);                                                                    \
    CT b(s);                                                                    \
    VALID("comparison (" #C " " #OP ")");                                       \
    CHECK((a OP b) == (s OP s), #OP " on equal contents (" #C ")");             \
    CHECK((a OP a) == (s OP s), #OP " with itself (" #C ")");                   \
  }
#define OPS(CT, ST, C, TAG)                                                     \
  ONEOP(CT, ST, C, TAG, ==, eq)                                                 \
  ONEOP(CT, ST, C, TAG, !=, ne)                                                 \
  ONEOP(CT, ST, C, TAG, <, lt)                                                  \
  ONEOP(CT, ST, C, TAG, <=, le)                                                 \
  ONEOP(CT, ST, C, TAG, >, gt)                                                  \
  ONEOP(CT, ST, C, TAG, >=, ge)
OPS(List<int>, std::list<int>, List, list_i)
OPS(List<Str>, std::list<Str>, List, list_s)
OPS(Vector<int>, std::vector<int>, Vector, vec_i)
OPS(Vector<Str>, std::vector<Str>, Vector, vec_s)
OPS(Queue<int>, std::queue<int>, Queue, queue_i)
OPS(Stack<int>, std::stack<int>, Stack, stack_i)
OPS(Mii, SMii, Map, map_i)
OPS(Msi, SMsi, Map, map_s)
OPS(MMii, SMMii, MultiMap, mmap_i)
OPS(Set<int>, std::set<int>, Set, set_i)
OPS(Set<Str>, std::set<Str>, Set, set_s)
OPS(MultiSet<int>, std::multiset<int>, MultiSet, mset_i)
