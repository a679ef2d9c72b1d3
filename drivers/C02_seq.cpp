// C02: the sequence containers hold exactly the elements they were given, in order.
#include "verif.h"
#include <list>
#include <vector>
#include <queue>
#include <stack>
#include <deque>
#include <string>
#include "containers.h"
using namespace cuhksz;
typedef std::string Str;

#define COMMON(C, STL, TAG, T, TOSTL)                                           \
  SPEC(TAG##_from)(STL<T> & s) {                                                \
    STL<T> o(s);                                                                \
    VALID("construct from STL (" #C ")");                                       \
    C<T> c(s);                                                                  \
    CHECK(c.TOSTL() == o, "constructed contents equal the source (" #C ")");    \
    CHECK((STL<T>)c == o, "implicit conversion equals the contents (" #C ")");  \
    CHECK(s == o, "construction leaves the source unchanged (" #C ")");         \
    CHECK(c.TOSTL() == o, "conversion leaves the container unchanged (" #C ")");\
  }                                                                             \
  SPEC(TAG##_size)(STL<T> & s) {                                                \
    C<T> c(s);                                                                  \
    VALID("size queries (" #C ")");                                             \
    CHECK(c.size() == (int)s.size(), "size is the element count (" #C ")");     \
    CHECK(c.isEmpty() == s.empty(), "isEmpty exactly when no elements (" #C ")");\
    CHECK(c.TOSTL() == s, "queries leave the contents unchanged (" #C ")");     \
  }                                                                             \
  SPEC(TAG##_default)() {                                                       \
    VALID("default construction (" #C ")");                                     \
    C<T> c;                                                                     \
    CHECK(c.size() == 0 && c.isEmpty(), "default construction is empty (" #C ")");\
    CHECK(c.TOSTL() == STL<T>(), "default construction is empty (" #C ")");     \
  }                                                                             \
  SPEC(TAG##_clear)(STL<T> & s, T & v) {                                        \
    C<T> c(s);                                                                  \
    VALID("clear (" #C ")");                                                    \
    c.clear();                                                                  \
    CHECK(c.TOSTL() == STL<T>(), "clear removes every element (" #C ")");       \
  }                                                                             \
  SPEC(TAG##_copy)(STL<T> & s, STL<T> & s2, T & v) {                            \
    vf_assume(s.size() < 2147483646);                                           \
    C<T> a(s);                                                                  \
    C<T> b(s2);                                                                 \
    VALID("copy (" #C ")");                                                     \
    C<T> d(a);                                                                  \
    CHECK(d.TOSTL() == s, "a copy has the same elements (" #C ")");             \
    b = a;                                                                      \
    CHECK(b.TOSTL() == s, "assignment replaces the elements (" #C ")");         \
    CHECK(a.TOSTL() == s, "copying leaves the source unchanged (" #C ")");      \
    a.clear();                                                                  \
    CHECK(b.TOSTL() == s && d.TOSTL() == s, "copies are independent of the source (" #C ")");\
  }                                                                             \
  SPEC(TAG##_self)(STL<T> & s) {                                                \
    C<T> a(s);                                                                  \
    VALID("self assignment (" #C ")");                                          \
    C<T>& r = a;                                                                \
    a = r;                                                                      \
    CHECK(a.TOSTL() == s, "self-assignment keeps the elements (" #C ")");       \
  }

#define LISTVEC(C, STL, TAG, T, TOSTL)                                          \
  SPEC(TAG##_fill)(int n, T & v) {                                              \
    vf_assume(n >= 0);                                                          \
    VALID("fill construction (" #C ")");                                        \
    C<T> c(n, v);                                                               \
    STL<T> o(n, v);                                                             \
    CHECK(c.TOSTL() == o, "fill construction gives n copies (" #C ")");         \
  }                                                                             \
  SPEC(TAG##_filldef)(int n) {                                                  \
    vf_assume(n >= 0);                                                          \
    VALID("fill construction (" #C ")");                                        \
    C<T> c(n);                                                                  \
    STL<T> o(n, T());                                                           \
    CHECK(c.TOSTL() == o, "fill construction gives n default values (" #C ")"); \
  }                                                                             \
  SPEC(TAG##_init)(T & x, T & y, T & z) {                                       \
    VALID("initializer-list construction (" #C ")");                            \
    C<T> c{x, y, z};                                                            \
    STL<T> o;                                                                   \
    o.push_back(x); o.push_back(y); o.push_back(z);                             \
    CHECK(c.TOSTL() == o, "initializer-list construction keeps the order (" #C ")");\
  }                                                                             \
  SPEC(TAG##_push)(STL<T> & s, T & v) {                                         \
    vf_assume(s.size() < 2147483646);                                           \
    C<T> c(s);                                                                  \
    VALID("push (" #C ")");                                                     \
    c.push(v);                                                                  \
    s.push_back(v);                                                             \
    CHECK(c.TOSTL() == s, "push appends the value (" #C ")");                   \
  }                                                                             \
  SPEC(TAG##_pushalias)(STL<T> & s) {                                           \
    vf_assume(s.size() > 0 && s.size() < 2147483646);                           \
    C<T> c(s);                                                                  \
    VALID("push of an own element (" #C ")");                                   \
    c.push(c.first());                                                          \
    T v(s.front());                                                             \
    s.push_back(v);                                                             \
    CHECK(c.TOSTL() == s, "push appends a copy of an own element (" #C ")");    \
  }                                                                             \
  SPEC(TAG##_pop)(STL<T> & s) {                                                 \
    vf_assume(!s.empty());                                                      \
    C<T> c(s);                                                                  \
    VALID("pop (" #C ")");                                                      \
    T r(c.pop());                                                               \
    CHECK(r == s.back(), "pop returns the last element (" #C ")");              \
    s.pop_back();                                                               \
    CHECK(c.TOSTL() == s, "pop removes exactly the last element (" #C ")");     \
  }                                                                             \
  SPEC(TAG##_write)(STL<T> & s, int i, T & v) {                                 \
    vf_assume(i >= 0 && i < (int)s.size());                                     \
    C<T> c(s);                                                                  \
    VALID("write through operator[] (" #C ")");                                 \
    c[i] = v;                                                                   \
    STL<T>::iterator it = s.begin();                                            \
    std::advance(it, i);                                                        \
    *it = v;                                                                    \
    CHECK(c.TOSTL() == s, "writing through operator[] replaces that element (" #C ")");\
  }                                                                             \
  SPEC(TAG##_writeends)(STL<T> & s, T & v, T & w) {                             \
    vf_assume(s.size() > 1);                                                    \
    C<T> c(s);                                                                  \
    VALID("write through first/last (" #C ")");                                 \
    c.first() = v;                                                              \
    c.last() = w;                                                               \
    s.front() = v;                                                              \
    s.back() = w;                                                               \
    CHECK(c.TOSTL() == s, "writing through first()/last() replaces the ends (" #C ")");\
  }                                                                             \
  SPEC(TAG##_iter)(STL<T> & s) {                                                \
    C<T> c(s);                                                                  \
    VALID("iterate (" #C ")");                                                  \
    CHECK(STL<T>(c.begin(), c.end()) == s, "iteration visits the elements in order (" #C ")");\
    const C<T> d(s);                                                            \
    CHECK(STL<T>(d.begin(), d.end()) == s, "const iteration visits the elements in order (" #C ")");\
  }                                                                             \
  SPEC(TAG##_seq)(STL<T> & s, int i, int j, T & v) {                            \
    int n = (int)s.size();                                                      \
    vf_assume(n < 2147483645 && i >= 0 && i <= n && j >= 0 && j <= n);          \
    C<T> c(s);                                                                  \
    VALID("insert then erase (" #C ")");                                        \
    c.insert(i, v);                                                             \
    c.erase(i);                                                                 \
    CHECK(c.TOSTL() == s, "insert followed by erase restores the contents (" #C ")");\
  }

#define LISTONLY(T, X)                                                          \
  SPEC(list_pushf_##X)(std::list<T> & s, T & v) {                               \
    vf_assume(s.size() < 2147483646);                                           \
    List<T> c(s);                                                               \
    VALID("push_front (List)");                                                 \
    c.push_front(v);                                                            \
    s.push_front(v);                                                            \
    CHECK(c.toStlList() == s, "push_front prepends the value (List)");          \
  }                                                                             \
  SPEC(list_popf_##X)(std::list<T> & s) {                                       \
    vf_assume(!s.empty());                                                      \
    List<T> c(s);                                                               \
    VALID("pop_front (List)");                                                  \
    T r(c.pop_front());                                                         \
    CHECK(r == s.front(), "pop_front returns the first element (List)");        \
    s.pop_front();                                                              \
    CHECK(c.toStlList() == s, "pop_front removes exactly the first element (List)");\
  }                                                                             \
  SPEC(list_sort_##X)(std::list<T> & s) {                                       \
    List<T> c(s);                                                               \
    VALID("sort (List)");                                                       \
    c.sort();                                                                   \
    s.sort();                                                                   \
    CHECK(c.toStlList() == s, "sort orders the elements (List)");               \
  }                                                                             \
  SPEC(list_reverse_##X)(std::list<T> & s) {                                    \
    List<T> c(s);                                                               \
    VALID("reverse (List)");                                                    \
    c.reverse();                                                                \
    s.reverse();                                                                \
    CHECK(c.toStlList() == s, "reverse reverses the elements (List)");          \
  }                                                                             \
  SPEC(list_merge_##X)(std::list<T> & s, std::list<T> & t) {                    \
    vf_assume(s.size() + t.size() < 2147483646);                                \
    List<T> c(s);                                                               \
    List<T> d(t);                                                               \
    VALID("merge (List)");                                                      \
    c.merge(d);                                                                 \
    s.merge(t);                                                                 \
    CHECK(c.toStlList() == s, "merge moves the other list's elements in (List)");\
    CHECK(d.toStlList() == t, "merge empties the other list (List)");           \
  }

#define QS(T, X)                                                                \
  SPEC(queue_enq_##X)(std::queue<T> & s, T & v) {                               \
    vf_assume(s.size() < 2147483646);                                           \
    Queue<T> c(s);                                                              \
    VALID("enqueue (Queue)");                                                   \
    c.enqueue(v);                                                               \
    s.push(v);                                                                  \
    CHECK(c.toStlQueue() == s, "enqueue appends the value (Queue)");            \
  }                                                                             \
  SPEC(queue_deq_##X)(std::queue<T> & s) {                                      \
    vf_assume(!s.empty());                                                      \
    Queue<T> c(s);                                                              \
    VALID("dequeue (Queue)");                                                   \
    T r(c.dequeue());                                                           \
    CHECK(r == s.front(), "dequeue returns the oldest element (Queue)");        \
    s.pop();                                                                    \
    CHECK(c.toStlQueue() == s, "dequeue removes exactly the oldest element (Queue)");\
  }                                                                             \
  SPEC(queue_write_##X)(std::queue<T> & s, T & v, T & w) {                      \
    vf_assume(s.size() > 1);                                                    \
    Queue<T> c(s);                                                              \
    VALID("write through first/last (Queue)");                                  \
    c.first() = v;                                                              \
    c.last() = w;                                                               \
    s.front() = v;                                                              \
    s.back() = w;                                                               \
    CHECK(c.toStlQueue() == s, "writing through first()/last() replaces the ends (Queue)");\
  }                                                                             \
  SPEC(queue_fifo_##X)(T & x, T & y, T & z) {                                   \
    Queue<T> c;                                                                 \
    VALID("fifo (Queue)");                                                      \
    c.enqueue(x);                                                               \
    c.enqueue(y);                                                               \
    T a(c.dequeue());                                                           \
    c.enqueue(z);                                                               \
    T b(c.dequeue());                                                           \
    T d(c.dequeue());                                                           \
    CHECK(a == x && b == y && d == z && c.isEmpty(), "first in, first out (Queue)");\
  }                                                                             \
  SPEC(stack_push_##X)(std::stack<T> & s, T & v) {                              \
    vf_assume(s.size() < 2147483646);                                           \
    Stack<T> c(s);                                                              \
    VALID("push (Stack)");                                                      \
    c.push(v);                                                                  \
    s.push(v);                                                                  \
    CHECK(c.toStlStack() == s, "push puts the value on top (Stack)");           \
  }                                                                             \
  SPEC(stack_pop_##X)(std::stack<T> & s) {                                      \
    vf_assume(!s.empty());                                                      \
    Stack<T> c(s);                                                              \
    VALID("pop (Stack)");                                                       \
    T r(c.pop());                                                               \
    CHECK(r == s.top(), "pop returns the newest element (Stack)");              \
    s.pop();                                                                    \
    CHECK(c.toStlStack() == s, "pop removes exactly the newest element (Stack)");\
  }                                                                             \
  SPEC(stack_write_##X)(std::stack<T> & s, T & v) {                             \
    vf_assume(s.size() > 0);                                                    \
    Stack<T> c(s);                                                              \
    VALID("write through top (Stack)");                                         \
    c.top() = v;                                                                \
    s.top() = v;                                                                \
    CHECK(c.toStlStack() == s, "writing through top() replaces the top (Stack)");\
  }                                                                             \
  SPEC(stack_lifo_##X)(T & x, T & y, T & z) {                                   \
    Stack<T> c;                                                                 \
    VALID("lifo (Stack)");                                                      \
    c.push(x);                                                                  \
    c.push(y);                                                                  \
    T a(c.pop());                                                               \
    c.push(z);                                                                  \
    T b(c.pop());                                                               \
    T d(c.pop());                                                               \
    CHECK(a == y && b == z && d == x && c.isEmpty(), "last in, first out (Stack)");\
  }

#define ALL(T, X)                                                               \
  COMMON(List, std::list, list_##X, T, toStlList)                               \
  COMMON(Vector, std::vector, vec_##X, T, toStlVector)                          \
  COMMON(Queue, std::queue, queue_##X, T, toStlQueue)                           \
  COMMON(Stack, std::stack, stack_##X, T, toStlStack)                           \
  LISTVEC(List, std::list, list_##X, T, toStlList)                              \
  LISTVEC(Vector, std::vector, vec_##X, T, toStlVector)                         \
  LISTONLY(T, X)                                                                \
  QS(T, X)

ALL(int, int)
ALL(Str, str)
