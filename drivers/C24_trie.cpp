// C24: Trie is a set of strings.
// LIBS: string_utils
#include "verif.h"
#include "string_utils/Trie.h"
#include <string>
using namespace cuhksz;

// the letters of the small alphabet, and an adapter for them
static int toNumber(char c) { return c == '\001' ? 1 : c - 'p' + 2; }
static char toChar(int n) { return n == 1 ? '\001' : (char)(n - 2 + 'p'); }

static std::string letters(int n, int kinds) {
  std::string s;
  for (int i = 0; i < n; i++) {
    int d = vf_int();
    vf_assume(d >= 0 && d < kinds);
    s += (char)('p' + d);
  }
  return s;
}
SPEC(empty)() {
  VALID("empty");
  Trie t;
  CHECK(t.size() == 0 && !t.contain("") && !t.contain("a") && !t.contain("zebra"), "a new trie is empty");
  CHECK(t.begin() == t.end(), "nothing to visit");
  t.remove("a");
  t.remove("");
  CHECK(t.size() == 0, "removing what is not there");
}
// the trie holds exactly the words w[i] with in[i]; equal words have equal in[i]
static void holds(Trie& t, const std::string* w, const bool* in, int n) {
  int count = 0;
  for (int i = 0; i < n; i++) {
    CHECK(t.contain(w[i]) == in[i], "contain tells the elements");
    bool first = in[i];
    for (int j = 0; j < i; j++)
      if (w[j] == w[i]) first = false;
    if (first) count++;
  }
  CHECK(t.size() == count, "size counts the elements");
  int visited = 0;
  for (auto s : t) {
    visited++;
    CHECK(visited <= count, "no element is visited twice");
    bool found = false;
    for (int i = 0; i < n; i++)
      if (in[i] && w[i] == s) found = true;
    CHECK(found, "only elements are visited");
    if (visited > count) return;
  }
  CHECK(visited == count, "every element is visited");
}
static void put(Trie& t, const std::string* w, bool* in, int n, int k) {
  t.insert(w[k]);
  for (int i = 0; i < n; i++)
    if (w[i] == w[k]) in[i] = true;
}
static void drop(Trie& t, const std::string* w, bool* in, int n, int k) {
  t.remove(w[k]);
  for (int i = 0; i < n; i++)
    if (w[i] == w[k]) in[i] = false;
}
// three words of given lengths: all in, one out, in again
static void three(int a, int b, int c, int kinds) {
  Trie t(toNumber, toChar);
  std::string w[3] = {letters(a, kinds), letters(b, kinds), letters(c, kinds)};
  bool in[3] = {false, false, false};
  put(t, w, in, 3, 0);
  holds(t, w, in, 3);
  put(t, w, in, 3, 1);
  holds(t, w, in, 3);
  put(t, w, in, 3, 2);
  holds(t, w, in, 3);
  drop(t, w, in, 3, 1);
  holds(t, w, in, 3);
  put(t, w, in, 3, 1);
  holds(t, w, in, 3);
  drop(t, w, in, 3, 0);
  drop(t, w, in, 3, 2);
  holds(t, w, in, 3);
  put(t, w, in, 3, 2);
  drop(t, w, in, 3, 1);
  holds(t, w, in, 3);
}
#define THREE(name, a, b, c, k) SPEC(name)() { vf_opt("paths"); vf_opt("ends"); VALID("three words"); three(a, b, c, k); }
THREE(three_1_1_1, 1, 1, 1, 3)
THREE(three_0_1_2, 0, 1, 2, 2)
THREE(three_2_1_0, 2, 1, 0, 2)
THREE(three_1_2_2, 1, 2, 2, 2)
THREE(three_2_2_2, 2, 2, 2, 2)
THREE(three_2_1_2, 2, 1, 2, 2)
THREE(three_1_2_1, 1, 2, 1, 3)
THREE(three_3_3_1, 3, 3, 1, 2)
// four words, taken out in another order
static void four(int a, int b, int c, int d, int kinds) {
  Trie t(toNumber, toChar);
  std::string w[4] = {letters(a, kinds), letters(b, kinds), letters(c, kinds), letters(d, kinds)};
  bool in[4] = {false, false, false, false};
  for (int i = 0; i < 4; i++) put(t, w, in, 4, i);
  holds(t, w, in, 4);
  drop(t, w, in, 4, 2);
  holds(t, w, in, 4);
  drop(t, w, in, 4, 0);
  put(t, w, in, 4, 2);
  holds(t, w, in, 4);
}
SPEC(four_1_1_1_1)() { vf_opt("paths"); vf_opt("ends"); VALID("four words"); four(1, 1, 1, 1, 3); }
SPEC(four_1_2_1_2)() { vf_opt("paths"); vf_opt("ends"); VALID("four words"); four(1, 2, 1, 2, 2); }
SPEC(four_2_0_1_2)() { vf_opt("paths"); vf_opt("ends"); VALID("four words"); four(2, 0, 1, 2, 2); }
// any two letters of the default alphabet
SPEC(default_letters)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("letters a to z");
  int d = vf_int();
  vf_assume(d >= 0 && d < 26);
  std::string w[3] = {std::string(1, (char)('a' + d)), std::string("m"), std::string("mm")};
  bool in[3] = {false, false, false};
  Trie t;
  for (int i = 0; i < 3; i++) {
    put(t, w, in, 3, i);
    holds(t, w, in, 3);
  }
  drop(t, w, in, 3, 0);
  holds(t, w, in, 3);
}
static void rejected(char lo, char hi, int where) {
  int d = vf_int();
  vf_assume(d >= lo && d <= hi && d != 1);
  Trie t;
  t.insert("abc");
  std::string s(1, (char)d);
  INVALID("a character that is no lower letter");
  if (where == 0) t.insert(s);
  if (where == 1) t.contain(s);
  if (where == 2) t.remove(s);
  if (where == 3) t.contain("ab" + s);
  MUST_STOP("a character that is no lower letter");
}
SPEC(reject_insert_low)() { vf_opt("paths"); vf_opt("ends"); rejected(-128, '`', 0); }
SPEC(reject_insert_high)() { vf_opt("paths"); vf_opt("ends"); rejected('{', 127, 0); }
SPEC(reject_contain_low)() { vf_opt("paths"); vf_opt("ends"); rejected(-128, '`', 1); }
SPEC(reject_remove_high)() { vf_opt("paths"); vf_opt("ends"); rejected('{', 127, 2); }
// tries of their own, with adapters of their own
static int wide(char c) { return c == '\001' ? 1 : c - ' ' + 2; }
static char unwide(int n) { return n == 1 ? '\001' : (char)(n - 2 + ' '); }
static int reversed(char c) { return c == '\001' ? 1 : 'z' - c + 2; }
static char unreversed(int n) { return n == 1 ? '\001' : (char)('z' - (n - 2)); }
SPEC(adapters)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("two tries");
  Trie t(wide, unwide), u, v(reversed, unreversed);
  std::string a[5] = {"~x", "A b", "~", "zz", "A"}, b[5] = {"cd", "c", "zz", "a", "cde"};
  bool in[5] = {false}, jn[5] = {false}, kn[5] = {false};
  for (int i = 0; i < 5; i++) {
    put(t, a, in, 5, i);
    put(u, b, jn, 5, i);
    put(v, b, kn, 5, 4 - i);
    holds(t, a, in, 5);
    holds(u, b, jn, 5);
    holds(v, b, kn, 5);
  }
  for (int i = 0; i < 5; i++) {
    drop(u, b, jn, 5, i);
    drop(t, a, in, 5, 4 - i);
    holds(t, a, in, 5);
    holds(u, b, jn, 5);
    holds(v, b, kn, 5);
  }
}
SPEC(wide_letters)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("an adapter of many characters");
  int d = vf_int(), e = vf_int();
  vf_assume(d >= 'u' && d <= '~' && e == '~');
  std::string w[3] = {std::string(1, (char)d), std::string(1, (char)e), std::string("~~")};
  bool in[3] = {false, false, false};
  Trie t(wide, unwide);
  for (int i = 0; i < 3; i++) put(t, w, in, 3, i);
  holds(t, w, in, 3);
  drop(t, w, in, 3, 1);
  holds(t, w, in, 3);
}
// longer histories of given words
static void history(const char* const* words, int n, int stride) {
  Trie t;
  std::string w[12];
  bool in[12];
  for (int i = 0; i < n; i++) {
    w[i] = words[i];
    in[i] = false;
  }
  for (int i = 0; i < n; i++) {
    put(t, w, in, n, i);
    holds(t, w, in, n);
  }
  for (int i = 0; i < n; i++) {
    drop(t, w, in, n, i * stride % n);
    holds(t, w, in, n);
  }
  for (int i = 0; i < n; i++) {
    put(t, w, in, n, i * stride % n);
    if (i % 2) drop(t, w, in, n, i / 2);
    holds(t, w, in, n);
  }
}
SPEC(history_words)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("history");
  const char* w[] = {"black", "blue", "red", "", "bl", "white", "whine", "b", "bachelor", "jar", "badge"};
  history(w, 11, 3);
}
SPEC(history_prefixes)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("history");
  const char* w[] = {"aaaa", "aaa", "aa", "a", "", "ab", "aab", "aaab", "b", "ba"};
  history(w, 10, 7);
}
SPEC(history_fan)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("history");
  const char* w[] = {"a", "z", "b", "y", "az", "za", "ay", "zb", "m", "azz", "zaa"};
  history(w, 11, 4);
}
SPEC(history_aoe)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("history");
  const char* w[] = {"bachelor", "jar", "badge", "baby", "back", "badger", "badness", "bcs"};
  history(w, 8, 5);
}
// many words: nodes with all letters below them, long words, words sharing tails
static void crowd(const char* const* words, int n, int stride) {
  Trie t;
  std::string w[40];
  bool in[40];
  for (int i = 0; i < n; i++) {
    w[i] = words[i];
    in[i] = false;
  }
  for (int i = 0; i < n; i++) put(t, w, in, n, i);
  holds(t, w, in, n);
  for (int i = 0; i < n; i += 2) drop(t, w, in, n, i * stride % n);
  holds(t, w, in, n);
  for (int i = 0; i < n; i += 3) put(t, w, in, n, i);
  holds(t, w, in, n);
}
SPEC(crowd_letters)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("many words");
  const char* w[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
                     "zz", "za", "az", "mm", "mz", "zzz"};
  crowd(w, 32, 5);
}
SPEC(crowd_below)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("many words");
  const char* w[] = {"qz", "qy", "qx", "qw", "qv", "qu", "qt", "qs", "qr", "qq", "qp", "qo", "qn", "qm", "ql", "qk", "qj", "qi", "qh", "qg", "qf", "qe", "qd", "qc", "qb", "qa",
                     "q", "a", "z", "", "qaz", "zq"};
  crowd(w, 32, 7);
}
SPEC(crowd_long)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("many words");
  const char* w[] = {"internationalization", "internationalize", "international", "internal", "intern", "inter", "in", "i", "antidisestablishmentarianism",
                     "disestablish", "zymurgy", "zoology", "zoo", "quick", "brown", "fox", "jumps", "over", "lazy", "dog", "thequickbrownfoxjumpsoverthelazydog"};
  crowd(w, 21, 4);
}
