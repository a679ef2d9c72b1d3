// C01 (associative containers): guarded access.
#include "verif.h"
#include <map>
#include <set>
#include <string>
#include "containers.h"
using namespace cuhksz;
typedef std::string Str;

#define ALL(K, V, X)                                                            \
  SPEC(map_get_valid_##X)(std::map<K, V> & s, K & k) {                          \
    vf_assume(s.find(k) != s.end());                                            \
    Map<K, V> c(s);                                                             \
    VALID("get of a present key accepted (Map)");                               \
    V r(c.get(k));                                                              \
    CHECK(r == s.at(k), "get returns the value stored under the key (Map)");    \
  }                                                                             \
  SPEC(map_get_invalid_##X)(std::map<K, V> & s, K & k) {                        \
    vf_assume(s.find(k) == s.end());                                            \
    Map<K, V> c(s);                                                             \
    INVALID("get of a missing key (Map)");                                      \
    V r(c.get(k));                                                              \
    vf_sink(&r);                                                                \
    MUST_STOP("get of a missing key (Map)");                                    \
  }                                                                             \
  SPEC(map_cget_valid_##X)(std::map<K, V> & s, K & k) {                         \
    vf_assume(s.find(k) != s.end());                                            \
    const Map<K, V> c(s);                                                       \
    VALID("get of a present key accepted (const Map)");                         \
    V r(c.get(k));                                                              \
    CHECK(r == s.at(k), "get returns the value stored under the key (const Map)"); \
  }                                                                             \
  SPEC(map_cget_invalid_##X)(std::map<K, V> & s, K & k) {                       \
    vf_assume(s.find(k) == s.end());                                            \
    const Map<K, V> c(s);                                                       \
    INVALID("get of a missing key (const Map)");                                \
    V r(c.get(k));                                                              \
    vf_sink(&r);                                                                \
    MUST_STOP("get of a missing key (const Map)");                              \
  }                                                                             \
  SPEC(map_index_##X)(std::map<K, V> & s, K & k) {                              \
    Map<K, V> c(s);                                                             \
    VALID("operator[] accepts any key (Map)");                                  \
    V r(c[k]);                                                                  \
    CHECK(r == s[k], "operator[] returns the value under the key (Map)");       \
  }                                                                             \
  SPEC(map_erase_ok_##X)(std::map<K, V> & s, K & k) {                           \
    Map<K, V> c(s);                                                             \
    VALID("erase accepts any key (Map)");                                       \
    c.erase(k);                                                                 \
    CHECK(c.size() == (int)s.size() - (s.count(k) ? 1 : 0), "erase removes at most one entry (Map)"); \
  }                                                                             \
  SPEC(mset_erase_valid_##X)(std::multiset<K> & s, K & k) {                     \
    vf_assume(s.find(k) != s.end());                                            \
    MultiSet<K> c(s);                                                           \
    VALID("erase of a present value accepted (MultiSet)");                      \
    c.erase(k);                                                                 \
    CHECK(c.count(k) == 0, "erase removes every copy of the value (MultiSet)"); \
  }                                                                             \
  SPEC(mset_erase_invalid_##X)(std::multiset<K> & s, K & k) {                   \
    vf_assume(s.find(k) == s.end());                                            \
    MultiSet<K> c(s);                                                           \
    INVALID("erase of a missing value (MultiSet)");                             \
    c.erase(k);                                                                 \
    MUST_STOP("erase of a missing value (MultiSet)");                           \
  }                                                                             \
  SPEC(set_erase_ok_##X)(std::set<K> & s, K & k) {                              \
    Set<K> c(s);                                                                \
    VALID("erase accepts any value (Set)");                                     \
    c.erase(k);                                                                 \
    CHECK(!c.contains(k), "erase removes the value (Set)");                     \
  }                                                                             \
  SPEC(mmap_erase_ok_##X)(std::multimap<K, V> & s, K & k) {                     \
    MultiMap<K, V> c(s);                                                        \
    VALID("erase accepts any key (MultiMap)");                                  \
    c.erase(k);                                                                 \
    CHECK(c.count(k) == 0, "erase removes every entry of the key (MultiMap)");  \
  }

ALL(int, int, ii)
ALL(Str, int, si)
ALL(int, Str, is)
