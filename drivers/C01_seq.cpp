// C01 (sequence containers): guarded access.
#include "verif.h"
#include <list>
#include <vector>
#include <queue>
#include <stack>
#include <deque>
#include <string>
#include "containers.h"
using namespace cuhksz;

// an index operation: valid indices return the element, all others stop
#define INDEX_SPECS(C, STL, TAG, T, EXPR, CQ)                                   \
  SPEC(TAG##_valid)(STL<T> & s, int i) {                                        \
    int n = (int)s.size();                                                      \
    vf_assume(i >= 0 && i < n);                                                 \
    CQ C<T> c(s);                                                               \
    VALID("in-range index accepted (" #C " " #EXPR ")");                        \
    T r(c EXPR);                                                                \
    STL<T>::iterator it = s.begin();                                   \
    std::advance(it, i);                                                        \
    CHECK(r == *it, "in-range index returns that element (" #C " " #EXPR ")");  \
  }                                                                             \
  SPEC(TAG##_invalid)(STL<T> & s, int i) {                                      \
    int n = (int)s.size();                                                      \
    vf_assume(i < 0 || i >= n);                                                 \
    CQ C<T> c(s);                                                               \
    INVALID("out-of-range index (" #C " " #EXPR ")");                           \
    T r(c EXPR);                                                                \
    vf_sink(&r);                                                                \
    MUST_STOP("out-of-range index (" #C " " #EXPR ")");                         \
  }

// an end operation: on a non-empty container returns first/last, on an empty one stops
#define END_SPECS(C, STL, TAG, T, EXPR, ORACLE, CQ)                             \
  SPEC(TAG##_valid)(STL<T> & s) {                                               \
    vf_assume(!s.empty());                                                      \
    CQ C<T> c(s);                                                               \
    VALID("non-empty container accepted (" #C " " #EXPR ")");                   \
    T r(c EXPR);                                                                \
    CHECK(r == s.ORACLE, "returns the right end (" #C " " #EXPR ")");           \
  }                                                                             \
  SPEC(TAG##_invalid)(STL<T> & s) {                                             \
    vf_assume(s.empty());                                                       \
    CQ C<T> c(s);                                                               \
    INVALID("empty container (" #C " " #EXPR ")");                              \
    T r(c EXPR);                                                                \
    vf_sink(&r);                                                                \
    MUST_STOP("empty container (" #C " " #EXPR ")");                            \
  }

#define INSERT_SPECS(C, STL, TAG, T)                                            \
  SPEC(TAG##_valid)(STL<T> & s, int i, T & v) {                                 \
    int n = (int)s.size();                                                      \
    vf_assume(i >= 0 && i <= n && n < 2147483647);                              \
    C<T> c(s);                                                                  \
    VALID("insert position accepted (" #C ")");                                 \
    c.insert(i, v);                                                             \
    STL<T>::iterator it = s.begin();                                   \
    std::advance(it, i);                                                        \
    s.insert(it, v);                                                            \
    CHECK((STL<T>)c == s, "insert puts the value before the position (" #C ")");  \
  }                                                                             \
  SPEC(TAG##_invalid)(STL<T> & s, int i, T & v) {                               \
    int n = (int)s.size();                                                      \
    vf_assume(i < 0 || i > n);                                                  \
    C<T> c(s);                                                                  \
    INVALID("insert position out of range (" #C ")");                           \
    c.insert(i, v);                                                             \
    MUST_STOP("insert position out of range (" #C ")");                         \
  }

#define ERASE_SPECS(C, STL, TAG, T)                                             \
  SPEC(TAG##_valid)(STL<T> & s, int i) {                                        \
    int n = (int)s.size();                                                      \
    vf_assume(i >= 0 && i < n);                                                 \
    C<T> c(s);                                                                  \
    VALID("erase index accepted (" #C ")");                                     \
    c.erase(i);                                                                 \
    STL<T>::iterator it = s.begin();                                   \
    std::advance(it, i);                                                        \
    s.erase(it);                                                                \
    CHECK((STL<T>)c == s, "erase removes exactly that element (" #C ")");       \
  }                                                                             \
  SPEC(TAG##_invalid)(STL<T> & s, int i) {                                      \
    int n = (int)s.size();                                                      \
    vf_assume(i < 0 || i >= n);                                                 \
    C<T> c(s);                                                                  \
    INVALID("erase index out of range (" #C ")");                               \
    c.erase(i);                                                                 \
    MUST_STOP("erase index out of range (" #C ")");                             \
  }

#define ALL(T, X)                                                               \
  INDEX_SPECS(List, std::list, list_idx_##X, T, [i], )                          \
  INDEX_SPECS(List, std::list, list_cidx_##X, T, [i], const)                    \
  INDEX_SPECS(Vector, std::vector, vec_idx_##X, T, [i], )                       \
  INDEX_SPECS(Vector, std::vector, vec_cidx_##X, T, [i], const)                 \
  INDEX_SPECS(Vector, std::vector, vec_get_##X, T, .get(i), )                   \
  INDEX_SPECS(Vector, std::vector, vec_cget_##X, T, .get(i), const)             \
  END_SPECS(List, std::list, list_first_##X, T, .first(), front(), )            \
  END_SPECS(List, std::list, list_cfirst_##X, T, .first(), front(), const)      \
  END_SPECS(List, std::list, list_last_##X, T, .last(), back(), )               \
  END_SPECS(List, std::list, list_clast_##X, T, .last(), back(), const)         \
  END_SPECS(List, std::list, list_pop_##X, T, .pop(), back(), )                 \
  END_SPECS(List, std::list, list_popf_##X, T, .pop_front(), front(), )         \
  END_SPECS(Vector, std::vector, vec_first_##X, T, .first(), front(), )         \
  END_SPECS(Vector, std::vector, vec_cfirst_##X, T, .first(), front(), const)   \
  END_SPECS(Vector, std::vector, vec_last_##X, T, .last(), back(), )            \
  END_SPECS(Vector, std::vector, vec_clast_##X, T, .last(), back(), const)      \
  END_SPECS(Vector, std::vector, vec_pop_##X, T, .pop(), back(), )              \
  END_SPECS(Queue, std::queue, queue_first_##X, T, .first(), front(), )         \
  END_SPECS(Queue, std::queue, queue_cfirst_##X, T, .first(), front(), const)   \
  END_SPECS(Queue, std::queue, queue_last_##X, T, .last(), back(), )            \
  END_SPECS(Queue, std::queue, queue_clast_##X, T, .last(), back(), const)      \
  END_SPECS(Queue, std::queue, queue_deq_##X, T, .dequeue(), front(), )         \
  END_SPECS(Stack, std::stack, stack_top_##X, T, .top(), top(), )               \
  END_SPECS(Stack, std::stack, stack_ctop_##X, T, .top(), top(), const)         \
  END_SPECS(Stack, std::stack, stack_pop_##X, T, .pop(), top(), )               \
  INSERT_SPECS(List, std::list, list_ins_##X, T)                                \
  INSERT_SPECS(Vector, std::vector, vec_ins_##X, T)                             \
  ERASE_SPECS(List, std::list, list_era_##X, T)                                 \
  ERASE_SPECS(Vector, std::vector, vec_era_##X, T)                              \
  SPEC(vec_set_valid_##X)(std::vector<T> & s, int i, T & v) {                   \
    int n = (int)s.size();                                                      \
    vf_assume(i >= 0 && i < n);                                                 \
    Vector<T> c(s);                                                             \
    VALID("set index accepted (Vector)");                                       \
    c.set(i, v);                                                                \
    s[i] = v;                                                                   \
    CHECK((std::vector<T>)c == s, "set replaces exactly that element (Vector)");  \
  }                                                                             \
  SPEC(vec_set_invalid_##X)(std::vector<T> & s, int i, T & v) {                 \
    int n = (int)s.size();                                                      \
    vf_assume(i < 0 || i >= n);                                                 \
    Vector<T> c(s);                                                             \
    INVALID("set index out of range (Vector)");                                 \
    c.set(i, v);                                                                \
    MUST_STOP("set index out of range (Vector)");                               \
  }

ALL(int, int)
typedef std::string Str;
ALL(Str, str)
