// C13: URL encoding is safe to transmit and decoding undoes it.
// LIBS: network
#include "verif.h"
#include "network/network_functions.h"
#include <string>
using namespace cuhksz;

static char anychar() {
  int x = vf_int();
  vf_assume(x >= -128 && x <= 127);
  return (char)x;
}
static bool plain(char c) {
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.' || c == '~';
}
static bool hexdig(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); }
static int val(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }

SPEC(encode_empty)() {
  VALID("urlEncode");
  std::string e;
  CHECK(urlEncode(e).size() == 0 && urlDecode(e).size() == 0, "the empty string is its own encoding");
}
SPEC(encode_one)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("urlEncode");
  char c = anychar();
  std::string s(1, c), e = urlEncode(s);
  if (plain(c)) {
    CHECK(e.size() == 1 && e[0] == c, "letters, digits and -_.~ are kept");
  } else {
    CHECK(e.size() == 3 && e[0] == '%' && hexdig(e[1]) && hexdig(e[2]), "any other byte becomes %XX");
    if (e.size() == 3) CHECK(val(e[1]) * 16 + val(e[2]) == (unsigned char)c, "XX is the byte in upper-case hexadecimal");
  }
  CHECK(s.size() == 1 && s[0] == c, "the argument is unchanged");
}
SPEC(round_one)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("urlDecode of urlEncode");
  char c = anychar();
  std::string s(1, c), d = urlDecode(urlEncode(s));
  CHECK(d.size() == 1 && d[0] == c, "decoding undoes encoding");
}
SPEC(decode_plain)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("urlDecode");
  char c = anychar();
  vf_assume(c != '%');
  std::string d = urlDecode(std::string(1, c));
  CHECK(d.size() == 1 && d[0] == (c == '+' ? ' ' : c), "a plus stands for a space, any other character for itself");
}
// a character before and after an arbitrary one
SPEC(round_context)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("urlDecode of urlEncode");
  char c = anychar();
  std::string s;
  s += "a+";
  s += c;
  s += "% b";
  std::string d = urlDecode(urlEncode(s));
  CHECK(d == s, "decoding undoes encoding");
}
SPEC(encode_context)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("urlEncode");
  char c = anychar();
  std::string s;
  s += "x";
  s += c;
  s += "/z";
  std::string e = urlEncode(s);
  if (plain(c)) {
    CHECK(e.size() == 6 && e[0] == 'x' && e[1] == c && e[2] == '%' && e[3] == '2' && e[4] == 'F' && e[5] == 'z', "each byte is encoded on its own");
  } else {
    CHECK(e.size() == 8 && e[0] == 'x' && e[1] == '%' && hexdig(e[2]) && hexdig(e[3]) && e[4] == '%' && e[5] == '2' && e[6] == 'F' && e[7] == 'z',
          "each byte is encoded on its own");
    if (e.size() == 8) CHECK(val(e[2]) * 16 + val(e[3]) == (unsigned char)c, "XX is the byte in upper-case hexadecimal");
  }
}
// escapes in either case
SPEC(decode_escape)() {
  vf_opt("paths");
  VALID("urlDecode");
  int h = vf_int(), l = vf_int();
  vf_assume(h >= 0 && h < 16 && l >= 0 && l < 16);
  std::string s("%");
  s += (char)(h < 10 ? '0' + h : 'A' + h - 10);
  s += (char)(l < 10 ? '0' + l : 'a' + l - 10);
  std::string d = urlDecode(s);
  CHECK(d.size() == 1 && (unsigned char)d[0] == h * 16 + l, "an escape in either case stands for its byte");
}
SPEC(decode_escape_context)() {
  vf_opt("paths");
  VALID("urlDecode");
  int h = vf_int(), l = vf_int();
  vf_assume(h >= 0 && h < 16 && l >= 0 && l < 16);
  std::string s("+%");
  s += (char)(h < 10 ? '0' + h : 'a' + h - 10);
  s += (char)(l < 10 ? '0' + l : 'A' + l - 10);
  s += "1";
  std::string d = urlDecode(s);
  CHECK(d.size() == 3 && d[0] == ' ' && (unsigned char)d[1] == h * 16 + l && d[2] == '1', "an escape takes two digits and no more");
}
// an escape that is cut off at the end
SPEC(decode_cut_0)() {
  VALID("urlDecode of a trailing %");
  std::string d = urlDecode("%");
  CHECK(d == "%", "a cut escape stays as it is");
}
SPEC(decode_cut_1)() {
  vf_opt("paths");
  VALID("urlDecode of a cut escape");
  char c = anychar();
  vf_assume(c != '%');
  std::string s("%");
  s += c;
  std::string d = urlDecode(s);
  CHECK(d.size() == 2 && d[0] == '%' && d[1] == (c == '+' ? ' ' : c), "a cut escape stays as it is");
}
SPEC(decode_cut_2)() {
  vf_opt("paths");
  VALID("urlDecode of a cut escape");
  char c = anychar();
  std::string s("ab%");
  s += c;
  std::string d = urlDecode(s);
  CHECK(d.size() == 4 && d[0] == 'a' && d[1] == 'b' && d[2] == '%' && d[3] == (c == '+' ? ' ' : c), "what precedes a cut escape is decoded");
}
SPEC(decode_safe_3)() {
  vf_opt("paths");
  VALID("urlDecode of any three characters");
  char a = anychar(), b = anychar(), c = anychar();
  std::string s;
  s += a;
  s += b;
  s += c;
  std::string d = urlDecode(s);
  CHECK(d.size() <= 3, "no more characters than given");
}
// two arbitrary characters
SPEC(round_two)() {
  vf_opt("paths");
  VALID("urlDecode of urlEncode");
  char a = anychar(), b = anychar();
  vf_assume(!plain(a) || a == 'F' || a == '.');
  vf_assume(b < 'A');
  std::string s;
  s += a;
  s += b;
  std::string d = urlDecode(urlEncode(s));
  CHECK(d.size() == 2 && d[0] == a && d[1] == b, "decoding undoes encoding");
}
// every text of every length: no access outside it, and it is not changed
SPEC(safe_encode)(const std::string& s) {
  VALID("urlEncode");
  vf_readonly(&s, "the text");
  vf_sink(urlEncode(s).size());
}
SPEC(safe_decode)(const std::string& s) {
  VALID("urlDecode");
  vf_readonly(&s, "the text");
  vf_sink(urlDecode(s).size());
}
// long texts: every byte value in a row, in both directions, and a known encoding
static void whole(int from, int step, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += (char)(from + step * i);
  std::string e = urlEncode(s), want;
  for (int i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    if (plain(s[i])) {
      want += s[i];
    } else {
      want += '%';
      want += "0123456789ABCDEF"[c / 16];
      want += "0123456789ABCDEF"[c % 16];
    }
  }
  CHECK(e == want, "letters, digits and -_.~ are kept, any other byte becomes %XX");
  CHECK(urlDecode(e) == s, "decoding undoes encoding");
}
SPEC(long_all)() { VALID("long texts"); whole(0, 1, 256); }
SPEC(long_back)() { VALID("long texts"); whole(255, -1, 300); }
SPEC(long_mixed)() { VALID("long texts"); whole(32, 37, 400); }
SPEC(long_decode)() {
  VALID("long texts");
  std::string s, want;
  for (int i = 0; i < 256; i++) {
    s += '%';
    s += "0123456789ABCDEF"[i / 16];
    s += "0123456789ABCDEF"[i % 16];
    s += i % 3 ? "+" : "x";
    want += (char)i;
    want += i % 3 ? ' ' : 'x';
  }
  CHECK(urlDecode(s) == want, "%XX is a byte and + a space, anywhere in the text");
}
