// C03: the associative containers hold exactly the entries they were given.
#include "verif.h"
#include <map>
#include <set>
#include <string>
#include "containers.h"
using namespace cuhksz;
typedef std::string Str;

#define COMMON(CT, ST, C, TAG, TOSTL)                                           \
  SPEC(TAG##_from)(ST & s) {                                                    \
    ST o(s);                                                                    \
    VALID("construct from STL (" #C ")");                                       \
    CT c(s);                                                                    \
    CHECK(c.TOSTL() == o, "constructed contents equal the source (" #C ")");    \
    CHECK((ST)c == o, "implicit conversion equals the contents (" #C ")");      \
    CHECK(s == o, "construction leaves the source unchanged (" #C ")");         \
    CHECK(c.TOSTL() == o, "conversion leaves the container unchanged (" #C ")");\
  }                                                                             \
  SPEC(TAG##_size)(ST & s) {                                                    \
    CT c(s);                                                                    \
    VALID("size queries (" #C ")");                                             \
    CHECK(c.size() == (int)s.size(), "size is the entry count (" #C ")");       \
    CHECK(c.isEmpty() == s.empty(), "isEmpty exactly when no entries (" #C ")");\
    CHECK(c.TOSTL() == s, "queries leave the contents unchanged (" #C ")");     \
  }                                                                             \
  SPEC(TAG##_default)() {                                                       \
    VALID("default construction (" #C ")");                                     \
    CT c;                                                                       \
    CHECK(c.size() == 0 && c.isEmpty(), "default construction is empty (" #C ")");\
    CHECK(c.TOSTL() == ST(), "default construction is empty (" #C ")");         \
  }                                                                             \
  SPEC(TAG##_clear)(ST & s) {                                                   \
    CT c(s);                                                                    \
    VALID("clear (" #C ")");                                                    \
    c.clear();                                                                  \
    CHECK(c.size() == 0 && c.isEmpty(), "clear removes every entry (" #C ")");  \
    CHECK(c.TOSTL() == ST(), "clear removes every entry (" #C ")");             \
  }                                                                             \
  SPEC(TAG##_copy)(ST & s, ST & s2) {                                           \
    CT a(s);                                                                    \
    CT b(s2);                                                                   \
    VALID("copy (" #C ")");                                                     \
    CT d(a);                                                                    \
    CHECK(d.TOSTL() == s, "a copy has the same entries (" #C ")");              \
    b = a;                                                                      \
    CHECK(b.TOSTL() == s, "assignment replaces the entries (" #C ")");          \
    CHECK(a.TOSTL() == s, "copying leaves the source unchanged (" #C ")");      \
    a.clear();                                                                  \
    CHECK(b.TOSTL() == s && d.TOSTL() == s, "copies are independent of the source (" #C ")");\
  }                                                                             \
  SPEC(TAG##_self)(ST & s) {                                                    \
    CT a(s);                                                                    \
    VALID("self assignment (" #C ")");                                          \
    CT& r = a;                                                                  \
    a = r;                                                                      \
    CHECK(a.TOSTL() == s, "self-assignment keeps the entries (" #C ")");        \
  }                                                                             \
  SPEC(TAG##_iter)(ST & s) {                                                    \
    CT c(s);                                                                    \
    VALID("iterate (" #C ")");                                                  \
    CHECK(ST(c.begin(), c.end()) == s, "iteration visits exactly the entries (" #C ")");\
    const CT d(s);                                                              \
    CHECK(ST(d.begin(), d.end()) == s, "const iteration visits exactly the entries (" #C ")");\
  }

#define MAPS(K, V, X)                                                           \
  SPEC(map_set_##X)(std::map<K, V> & s, K & k, V & v) {                         \
    vf_assume(s.size() < 2147483646);                                           \
    Map<K, V> c(s);                                                             \
    VALID("set (Map)");                                                         \
    c.set(k, v);                                                                \
    s[k] = v;                                                                   \
    CHECK(c.toStlMap() == s, "set stores the value and touches no other key (Map)");\
    CHECK(c.size() == (int)s.size(), "set adds at most one entry (Map)");       \
  }                                                                             \
  SPEC(map_set2_##X)(std::map<K, V> & s, K & k, V & v, K & k2, V & v2) {        \
    vf_assume(s.size() < 2147483646);                                           \
    Map<K, V> c(s);                                                             \
    VALID("set twice (Map)");                                                   \
    c.set(k, v);                                                                \
    c.set(k2, v2);                                                              \
    CHECK(c.get(k2) == v2, "the latest value is returned (Map)");               \
    CHECK(k == k2 || c.get(k) == v, "an earlier key keeps its value (Map)");    \
  }                                                                             \
  SPEC(map_idx_##X)(std::map<K, V> & s, K & k, V & v) {                         \
    vf_assume(s.size() < 2147483646);                                           \
    Map<K, V> c(s);                                                             \
    VALID("operator[] (Map)");                                                  \
    c[k] = v;                                                                   \
    s[k] = v;                                                                   \
    CHECK(c.toStlMap() == s, "writing through operator[] stores the value (Map)");\
  }                                                                             \
  SPEC(map_idxread_##X)(std::map<K, V> & s, K & k) {                            \
    vf_assume(s.size() < 2147483646);                                           \
    Map<K, V> c(s);                                                             \
    VALID("operator[] (Map)");                                                  \
    V r(c[k]);                                                                  \
    V q(s[k]);                                                                  \
    CHECK(r == q, "operator[] reads the value or a default (Map)");             \
    CHECK(c.toStlMap() == s, "operator[] inserts only a missing key (Map)");    \
  }                                                                             \
  SPEC(map_getw_##X)(std::map<K, V> & s, K & k, V & v) {                        \
    vf_assume(s.find(k) != s.end());                                            \
    Map<K, V> c(s);                                                             \
    VALID("write through get (Map)");                                           \
    c.get(k) = v;                                                               \
    s[k] = v;                                                                   \
    CHECK(c.toStlMap() == s, "writing through get replaces that value (Map)");  \
  }                                                                             \
  SPEC(map_erase_##X)(std::map<K, V> & s, K & k) {                              \
    Map<K, V> c(s);                                                             \
    VALID("erase (Map)");                                                       \
    c.erase(k);                                                                 \
    s.erase(k);                                                                 \
    CHECK(c.toStlMap() == s, "erase removes exactly that key (Map)");           \
  }                                                                             \
  SPEC(map_contains_##X)(std::map<K, V> & s, K & k) {                           \
    Map<K, V> c(s);                                                             \
    VALID("contains (Map)");                                                    \
    CHECK(c.contains(k) == (s.count(k) > 0), "contains exactly the present keys (Map)");\
    CHECK(c.toStlMap() == s, "contains changes nothing (Map)");                 \
  }                                                                             \
  SPEC(map_hist_##X)(std::map<K, V> & s, K & k, V & v) {                        \
    vf_assume(s.size() < 2147483646);                                           \
    Map<K, V> c(s);                                                             \
    VALID("set then erase (Map)");                                              \
    c.set(k, v);                                                                \
    CHECK(c.contains(k), "a stored key is found (Map)");                        \
    c.erase(k);                                                                 \
    CHECK(!c.contains(k), "an erased key is not found (Map)");                  \
    s.erase(k);                                                                 \
    CHECK(c.toStlMap() == s, "set then erase leaves the other keys (Map)");     \
  }                                                                             \
  SPEC(map_init_##X)(K & k, V & v, K & k2, V & v2) {                            \
    VALID("initializer-list construction (Map)");                               \
    Map<K, V> c{{k, v}, {k2, v2}};                                              \
    std::map<K, V> o{{k, v}, {k2, v2}};                                         \
    CHECK(c.toStlMap() == o, "initializer-list construction holds the given entries (Map)");\
  }                                                                             \
  SPEC(mmap_count_##X)(std::multimap<K, V> & s, K & k) {                        \
    MultiMap<K, V> c(s);                                                        \
    VALID("count (MultiMap)");                                                  \
    CHECK(c.count(k) == (int)s.count(k), "count is the number of entries of the key (MultiMap)");\
    CHECK(c.toStlMultimap() == s, "count changes nothing (MultiMap)");          \
  }                                                                             \
  SPEC(mmap_find0_##X)(std::multimap<K, V> & s, K & k) {                        \
    vf_assume(s.count(k) == 0);                                                 \
    MultiMap<K, V> c(s);                                                        \
    VALID("find (MultiMap)");                                                   \
    Set<V> r = c.find(k);                                                       \
    CHECK(r.isEmpty(), "find of an absent key is empty (MultiMap)");            \
    CHECK(c.toStlMultimap() == s, "find changes nothing (MultiMap)");           \
  }                                                                             \
  SPEC(mmap_erase_##X)(std::multimap<K, V> & s, K & k) {                        \
    MultiMap<K, V> c(s);                                                        \
    VALID("erase (MultiMap)");                                                  \
    c.erase(k);                                                                 \
    s.erase(k);                                                                 \
    CHECK(c.toStlMultimap() == s, "erase removes every entry of the key (MultiMap)");\
    CHECK(c.size() == (int)s.size(), "erase removes only entries of the key (MultiMap)");\
  }

#define SETS(K, X)                                                              \
  SPEC(set_insert_##X)(std::set<K> & s, K & k) {                                \
    vf_assume(s.size() < 2147483646);                                           \
    Set<K> c(s);                                                                \
    VALID("insert (Set)");                                                      \
    c.insert(k);                                                                \
    s.insert(k);                                                                \
    CHECK(c.toStlSet() == s, "insert adds exactly that value (Set)");           \
    CHECK(c.size() == (int)s.size(), "insert keeps values unique (Set)");       \
    CHECK(c.contains(k), "an inserted value is found (Set)");                   \
  }                                                                             \
  SPEC(set_erase_##X)(std::set<K> & s, K & k) {                                 \
    Set<K> c(s);                                                                \
    VALID("erase (Set)");                                                       \
    c.erase(k);                                                                 \
    s.erase(k);                                                                 \
    CHECK(c.toStlSet() == s, "erase removes exactly that value (Set)");         \
    CHECK(c.size() == (int)s.size(), "erase removes exactly that value (Set)"); \
  }                                                                             \
  SPEC(set_contains_##X)(std::set<K> & s, K & k) {                              \
    Set<K> c(s);                                                                \
    VALID("contains (Set)");                                                    \
    CHECK(c.contains(k) == (s.count(k) > 0), "contains exactly the present values (Set)");\
    CHECK(c.toStlSet() == s, "contains changes nothing (Set)");                 \
  }                                                                             \
  SPEC(set_init_##X)(K & x, K & y, K & z) {                                     \
    VALID("initializer-list construction (Set)");                               \
    Set<K> c{x, y, z};                                                          \
    std::set<K> o;                                                              \
    o.insert(x); o.insert(y); o.insert(z);                                      \
    CHECK(c.toStlSet() == o, "initializer-list construction holds the values (Set)");\
  }                                                                             \
  SPEC(mset_insert_##X)(std::multiset<K> & s, K & k) {                          \
    vf_assume(s.size() < 2147483646);                                           \
    MultiSet<K> c(s);                                                           \
    VALID("insert (MultiSet)");                                                 \
    c.insert(k);                                                                \
    int n = (int)s.count(k);                                                    \
    s.insert(k);                                                                \
    CHECK(c.toStlMultiset() == s, "insert adds one copy (MultiSet)");           \
    CHECK(c.count(k) == n + 1, "insert adds one copy (MultiSet)");              \
    CHECK(c.size() == (int)s.size(), "insert adds one copy (MultiSet)");        \
  }                                                                             \
  SPEC(mset_count_##X)(std::multiset<K> & s, K & k) {                           \
    MultiSet<K> c(s);                                                           \
    VALID("count (MultiSet)");                                                  \
    CHECK(c.count(k) == (int)s.count(k), "count is the number of copies (MultiSet)");\
    CHECK(c.contains(k) == (s.count(k) > 0), "contains exactly the present values (MultiSet)");\
    CHECK(c.toStlMultiset() == s, "count changes nothing (MultiSet)");          \
  }                                                                             \
  SPEC(mset_erase_##X)(std::multiset<K> & s, K & k) {                           \
    vf_assume(s.count(k) > 0);                                                  \
    MultiSet<K> c(s);                                                           \
    VALID("erase (MultiSet)");                                                  \
    c.erase(k);                                                                 \
    s.erase(k);                                                                 \
    CHECK(c.toStlMultiset() == s, "erase removes every copy and nothing else (MultiSet)");\
    CHECK(c.size() == (int)s.size(), "erase removes every copy and nothing else (MultiSet)");\
  }                                                                             \
  SPEC(mset_init_##X)(K & x, K & y, K & z) {                                    \
    VALID("initializer-list construction (MultiSet)");                          \
    MultiSet<K> c{x, y, z};                                                     \
    std::multiset<K> o;                                                         \
    o.insert(x); o.insert(y); o.insert(z);                                      \
    CHECK(c.toStlMultiset() == o, "initializer-list construction holds the values (MultiSet)");\
  }

typedef Map<int, int> Mii; typedef std::map<int, int> SMii;
typedef Map<Str, Str> Mss; typedef std::map<Str, Str> SMss;
typedef MultiMap<int, int> MMii; typedef std::multimap<int, int> SMMii;
typedef MultiMap<Str, int> MMsi; typedef std::multimap<Str, int> SMMsi;
COMMON(Mii, SMii, Map, map_ii, toStlMap)
COMMON(Mss, SMss, Map, map_ss, toStlMap)
COMMON(MMii, SMMii, MultiMap, mmap_ii, toStlMultimap)
COMMON(MMsi, SMMsi, MultiMap, mmap_si, toStlMultimap)
COMMON(Set<int>, std::set<int>, Set, set_i, toStlSet)
COMMON(Set<Str>, std::set<Str>, Set, set_s, toStlSet)
COMMON(MultiSet<int>, std::multiset<int>, MultiSet, mset_i, toStlMultiset)
COMMON(MultiSet<Str>, std::multiset<Str>, MultiSet, mset_s, toStlMultiset)
MAPS(int, int, ii)
MAPS(Str, int, si)
MAPS(int, Str, is)
SETS(int, i)
SETS(Str, s)
// find on a multimap: the set of the values stored under the key
SPEC(mmap_find_given)() {
  vf_opt("paths");
  VALID("find (MultiMap)");
  MultiMap<int, int> m{{1, 5}, {2, 6}, {1, 7}, {1, 5}, {3, 5}};
  Set<int> r = m.find(1), s = m.find(2), t = m.find(3), u = m.find(4);
  CHECK(r.contains(5) && r.contains(7) && r.size() == 2, "every value of the key, once each (MultiMap)");
  CHECK(s.contains(6) && s.size() == 1 && t.contains(5) && t.size() == 1 && u.size() == 0, "and no other (MultiMap)");
  CHECK(m.size() == 5 && m.count(1) == 3, "find changes nothing (MultiMap)");
}
SPEC(mmap_find_any)() {
  vf_opt("paths");
  VALID("find (MultiMap)");
  int k = vf_int(), l = vf_int(), a = vf_int(), b = vf_int(), c = vf_int(), x = vf_int();
  if (k == l) return;
  MultiMap<int, int> m{{k, a}, {l, c}, {k, b}};
  Set<int> r = m.find(k), s = m.find(l);
  CHECK(r.contains(x) == (x == a || x == b), "exactly the values of the key (MultiMap)");
  CHECK(r.size() == (a == b ? 1 : 2), "once each (MultiMap)");
  CHECK(s.contains(x) == (x == c) && s.size() == 1, "and of the other (MultiMap)");
}
SPEC(mmap_find_three)() {
  vf_opt("paths");
  VALID("find (MultiMap)");
  int a = vf_int(), b = vf_int(), c = vf_int();
  MultiMap<int, int> m{{1, a}, {1, b}, {1, c}, {1, a}};
  Set<int> r = m.find(1);
  CHECK(r.contains(a) && r.contains(b) && r.contains(c), "every value of the key (MultiMap)");
  CHECK(r.size() == 1 + (b != a) + (c != a && c != b), "once each (MultiMap)");
}
