// C23: the algorithms agree with their definitions.
// LIBS: algorithm
#include "verif.h"
#include "algorithm.h"
#include <string>
#include <vector>
#include <list>
using namespace cuhksz;

static char ch() {
  int x = vf_int();
  vf_assume(x >= -128 && x <= 127);
  return (char)x;
}
static std::string str(int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += ch();
  return s;
}
// first position >= start at which p occurs in b, by definition
static int occurs(const std::string& b, const std::string& p, std::size_t start) {
  for (std::size_t i = start; i + p.size() <= b.size(); i++) {
    bool same = true;
    for (std::size_t k = 0; same && k < p.size(); k++)
      if (b[i + k] != p[k]) same = false;
    if (same) return (int)i;
  }
  return -1;
}
static void search(int n, int m, std::size_t start) {
  std::string b = str(n), p = str(m);
  int r = kmpSearch(b, p, start);
  CHECK(r == occurs(b, p, start), "the first occurrence at or after start, -1 if there is none");
}
SPEC(kmp_0_1)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(0, 1, 0); }
SPEC(kmp_3_1)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(3, 1, 0); }
SPEC(kmp_3_1_from_1)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(3, 1, 1); }
SPEC(kmp_1_2)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(1, 2, 0); }
SPEC(kmp_2_2)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(2, 2, 0); }
SPEC(kmp_4_2)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(4, 2, 0); }
SPEC(kmp_4_2_from_1)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(4, 2, 1); }
SPEC(kmp_3_3)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(3, 3, 0); }
SPEC(kmp_4_3)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(4, 3, 0); }
SPEC(kmp_5_3)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(5, 3, 0); }
SPEC(kmp_4_3_from_1)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(4, 3, 1); }
SPEC(kmp_4_4)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); search(4, 4, 0); }
// a fixed pattern in an arbitrary text
static void fixed(const char* pat, int n, const char* begin = "") {
  std::string b(begin), p(pat);
  b += str(n);
  CHECK(kmpSearch(b, p) == occurs(b, p, 0), "the first occurrence, -1 if there is none");
}
SPEC(kmp_aaab)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("aaab", 6); }
SPEC(kmp_abab)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("abab", 6); }
SPEC(kmp_aaaa)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("aaaa", 6); }
SPEC(kmp_abac)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("abac", 6); }
SPEC(kmp_aabaaa)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("aabaaa", 8); }
SPEC(kmp_ababac)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("ababac", 5, "aba"); }
SPEC(kmp_abcabd)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("abcabd", 5, "abcab"); }
SPEC(kmp_abaabac)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); fixed("abaabac", 5, "abaaba"); }
// every pattern of two letters behind a part of itself
static void bordered(int n, int k) {
  std::string p, b;
  for (int i = 0; i < n; i++) p += (char)('a' + vf_bit());
  for (int i = 0; i < k; i++) b += p[i];
  b += p;
  CHECK(kmpSearch(b, p) == occurs(b, p, 0), "the first occurrence, -1 if there is none");
}
SPEC(kmp_border_5_2)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(5, 2); }
SPEC(kmp_border_5_3)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(5, 3); }
SPEC(kmp_border_6_3)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(6, 3); }
SPEC(kmp_border_6_4)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(6, 4); }
SPEC(kmp_border_7_4)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(7, 4); }
SPEC(kmp_border_8_5)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(8, 5); }
SPEC(kmp_border_8_7)() { vf_opt("paths"); vf_opt("ends"); VALID("kmpSearch"); bordered(8, 7); }
// long texts and patterns: positions and borders beyond a byte
SPEC(kmp_long_position)() {
  vf_opt("paths");
  VALID("kmpSearch");
  char c = ch();
  std::string b(300, 'a');
  b += c;
  b += "bb";
  CHECK(kmpSearch(b, "b") == (c == 'b' ? 300 : 301), "the first occurrence in a long text");
  CHECK(kmpSearch(b, "b", 302) == 302, "the first occurrence from a late start");
}
SPEC(kmp_long_pattern)() {
  vf_opt("paths");
  VALID("kmpSearch");
  char c = ch();
  std::string p(140, 'a'), b(280, 'a');
  p += p;
  p += 'b';
  b += c;
  b += b;
  CHECK(kmpSearch(b, p) == (c == 'b' ? 0 : -1), "a long pattern with long borders");
}
// empty pattern and positions past the end
SPEC(kmp_empty_pattern)(std::size_t start) {
  vf_opt("paths");
  VALID("kmpSearch for an empty pattern");
  std::string b = str(3);
  int r = kmpSearch(b, "", start);
  if (start <= 3) CHECK(r == (int)start, "an empty pattern occurs where the search starts");
}
SPEC(kmp_any_start)(std::size_t start) {
  vf_opt("paths");
  VALID("kmpSearch from any position");
  std::string b = str(3), p = str(1);
  int r = kmpSearch(b, p, start);
  if (start >= 3) CHECK(r == -1, "nothing occurs past the end");
}
SPEC(kmp_any_start_long)(std::size_t start) {
  vf_opt("paths");
  VALID("kmpSearch from any position");
  std::string b = str(2), p = str(3);
  CHECK(kmpSearch(b, p, start) == -1, "a longer pattern does not occur");
}

static int least(int a, int b) { return a < b ? a : b; }
static int dist(const std::string& a, const std::string& b, int i, int j) {
  // the definition on the prefixes of length i and j
  if (i == 0) return j;
  if (j == 0) return i;
  int d[5][5];
  for (int x = 0; x <= i; x++)
    for (int y = 0; y <= j; y++)
      if (x == 0)
        d[x][y] = y;
      else if (y == 0)
        d[x][y] = x;
      else
        d[x][y] = least(least(d[x - 1][y], d[x][y - 1]) + 1, d[x - 1][y - 1] + (a[x - 1] == b[y - 1] ? 0 : 1));
  return d[i][j];
}
SPEC(edit_long)() {
  vf_opt("paths");
  VALID("editDistance");
  char c = ch();
  std::string a(300, 'x'), b(1, c);
  int d = c == 'x' ? 299 : 300;
  CHECK(editDistance(a, b) == d && editDistance(b, a) == d, "a distance beyond a byte");
  CHECK(editDistance(a, "") == 300 && editDistance("", a) == 300, "a distance to nothing");
}
static void edit(int m, int n) {
  std::string a = str(m), b = str(n);
  CHECK(editDistance(a, b) == dist(a, b, m, n), "the least number of insertions, deletions and replacements");
}
SPEC(edit_0_0)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(0, 0); }
SPEC(edit_0_3)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(0, 3); }
SPEC(edit_3_0)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(3, 0); }
SPEC(edit_1_1)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(1, 1); }
SPEC(edit_1_3)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(1, 3); }
SPEC(edit_4_1)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(4, 1); }
SPEC(edit_2_2)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(2, 2); }
SPEC(edit_2_3)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(2, 3); }
SPEC(edit_3_2)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(3, 2); }
SPEC(edit_3_3)() { vf_opt("paths"); vf_opt("ends"); VALID("editDistance"); edit(3, 3); }

struct Twice {
  int operator()(int& x) const { return x % 1000 * 2; }
};
struct Big {
  bool operator()(int& x) const { return x > 2; }
};
SPEC(map_all)(int a, int b, int c) {
  VALID("mapAll");
  std::vector<int> e, v{a, b, c};
  CHECK(mapAll(e, Twice()).empty(), "nothing maps to nothing");
  std::vector<int> r = mapAll(v, Twice());
  CHECK(r.size() == 3 && r[0] == a % 1000 * 2 && r[1] == b % 1000 * 2 && r[2] == c % 1000 * 2, "one result per element, in order");
  CHECK(v.size() == 3 && v[0] == a && v[1] == b && v[2] == c, "the container is unchanged");
}
SPEC(map_list)(int a, int b) {
  VALID("mapAll");
  std::list<int> v{a, b};
  std::vector<int> r = mapAll(v, Twice());
  CHECK(r.size() == 2 && r[0] == a % 1000 * 2 && r[1] == b % 1000 * 2, "one result per element, in order");
}
SPEC(filter)(int a, int b, int c) {
  vf_opt("paths");
  VALID("filterContainer");
  std::vector<int> e, v{a, b, c}, w;
  CHECK(filterContainer(e, Big()).empty(), "nothing to keep");
  std::vector<int> r = filterContainer(v, Big());
  if (a > 2) w.push_back(a);
  if (b > 2) w.push_back(b);
  if (c > 2) w.push_back(c);
  CHECK(r == w, "exactly the elements that satisfy the predicate, in order");
  CHECK(v.size() == 3 && v[0] == a && v[1] == b && v[2] == c, "the container is unchanged");
}
SPEC(zip_one)(int a, int b) {
  VALID("zip");
  std::vector<int> x{a, b};
  std::vector<std::vector<int>> r = zip(x);
  CHECK(r.size() == 2 && r[0].size() == 1 && r[0][0] == a && r[1].size() == 1 && r[1][0] == b, "one container gives rows of one");
}
SPEC(zip_three)(int a, int b, int c, int d, int e, int f) {
  VALID("zip");
  std::vector<int> x{a, b}, y{c, d}, z{e, f};
  std::vector<std::vector<int>> r = zip(x, y, z);
  CHECK(r.size() == 2, "as many rows as the shortest container has elements");
  CHECK(r[0].size() == 3 && r[0][0] == a && r[0][1] == c && r[0][2] == e, "the first elements");
  CHECK(r[1].size() == 3 && r[1][0] == b && r[1][1] == d && r[1][2] == f, "the second elements");
}
SPEC(zip_short_first)(int a, int c, int d) {
  VALID("zip");
  std::vector<int> x{a}, y{c, d};
  std::vector<std::vector<int>> r = zip(x, y);
  CHECK(r.size() == 1 && r[0].size() == 2 && r[0][0] == a && r[0][1] == c, "as many rows as the shortest container has elements");
}
SPEC(zip_short_last)(int a, int b, int c) {
  VALID("zip");
  std::vector<int> x{a, b}, y{c};
  std::vector<std::vector<int>> r = zip(x, y);
  CHECK(r.size() == 1 && r[0].size() == 2 && r[0][0] == a && r[0][1] == c, "as many rows as the shortest container has elements");
}
SPEC(zip_short_middle)(int a, int b, int c, int d, int e) {
  VALID("zip");
  std::vector<int> x{a, b}, y{c}, z{d, e, a};
  std::vector<std::vector<int>> r = zip(x, y, z);
  CHECK(r.size() == 1 && r[0].size() == 3 && r[0][0] == a && r[0][1] == c && r[0][2] == d, "as many rows as the shortest container has elements");
}
SPEC(zip_empty)(int a, int b) {
  VALID("zip");
  std::vector<int> x{a, b}, y;
  CHECK(zip(x, y).empty() && zip(y, x).empty() && zip(y).empty(), "an empty container leaves no row");
}
SPEC(zip_list)(int a, int b, int c, int d) {
  VALID("zip");
  std::list<int> x{a, b}, y{c, d};
  std::vector<std::list<int>> r = zip(x, y);
  CHECK(r.size() == 2 && r[0].size() == 2 && r[0].front() == a && r[0].back() == c && r[1].front() == b && r[1].back() == d, "rows of a list");
}
