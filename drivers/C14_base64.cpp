// C14: base64 text is the standard encoding, and decoding undoes it for every byte string.
// LIBS: base64
#include "verif.h"
#include "base64/base64_functions.h"
#include <string>
using namespace cuhksz;

static const char digit[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

struct Byte {
  int b7 = vf_bit(), b6 = vf_bit(), b5 = vf_bit(), b4 = vf_bit(), b3 = vf_bit(), b2 = vf_bit(), b1 = vf_bit(), b0 = vf_bit();
  char c() const { return (char)(-128 * b7 + 64 * b6 + 32 * b5 + 16 * b4 + 8 * b3 + 4 * b2 + 2 * b1 + b0); }
};
static int six(int a, int b, int c, int d, int e, int f) { return 32 * a + 16 * b + 8 * c + 4 * d + 2 * e + f; }

SPEC(empty)() {
  VALID("base64Encode");
  CHECK(base64Encode("").size() == 0, "nothing encodes to nothing");
  CHECK(base64Decode("").size() == 0, "nothing decodes to nothing");
  CHECK(base64Decode("====").size() == 0, "padding alone decodes to nothing");
}
SPEC(encode_1)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("base64Encode");
  Byte x;
  std::string e = base64Encode(std::string(1, x.c()));
  CHECK(e.size() == 4 && e[2] == '=' && e[3] == '=', "one byte is two digits and two pad characters");
  CHECK(e[0] == digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)], "the first digit is the six high bits");
  CHECK(e[1] == digit[six(x.b1, x.b0, 0, 0, 0, 0)], "the second digit is the low bits, filled with zeros");
}
SPEC(encode_2)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("base64Encode");
  Byte x, y;
  std::string s;
  s += x.c();
  s += y.c();
  std::string e = base64Encode(s);
  CHECK(e.size() == 4 && e[3] == '=', "two bytes are three digits and one pad character");
  CHECK(e[0] == digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)], "first digit");
  CHECK(e[1] == digit[six(x.b1, x.b0, y.b7, y.b6, y.b5, y.b4)], "second digit");
  CHECK(e[2] == digit[six(y.b3, y.b2, y.b1, y.b0, 0, 0)], "third digit");
}
SPEC(encode_3)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("base64Encode");
  Byte x, y, z;
  std::string s;
  s += x.c();
  s += y.c();
  s += z.c();
  std::string e = base64Encode(s);
  CHECK(e.size() == 4, "three bytes are four digits");
  CHECK(e[0] == digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)], "first digit");
  CHECK(e[1] == digit[six(x.b1, x.b0, y.b7, y.b6, y.b5, y.b4)], "second digit");
  CHECK(e[2] == digit[six(y.b3, y.b2, y.b1, y.b0, z.b7, z.b6)], "third digit");
  CHECK(e[3] == digit[six(z.b5, z.b4, z.b3, z.b2, z.b1, z.b0)], "fourth digit");
}
SPEC(encode_5)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("base64Encode");
  Byte x, y, z, u, v;
  std::string s;
  s += x.c();
  s += y.c();
  s += z.c();
  s += u.c();
  s += v.c();
  std::string e = base64Encode(s);
  CHECK(e.size() == 8 && e[7] == '=', "five bytes are seven digits and one pad character");
  CHECK(e[3] == digit[six(z.b5, z.b4, z.b3, z.b2, z.b1, z.b0)], "fourth digit");
  CHECK(e[4] == digit[six(u.b7, u.b6, u.b5, u.b4, u.b3, u.b2)], "fifth digit");
  CHECK(e[5] == digit[six(u.b1, u.b0, v.b7, v.b6, v.b5, v.b4)], "sixth digit");
  CHECK(e[6] == digit[six(v.b3, v.b2, v.b1, v.b0, 0, 0)], "seventh digit");
}
template <int N>
static void round() {
  Byte x[N];
  std::string s;
  for (int i = 0; i < N; i++) s += x[i].c();
  std::string d = base64Decode(base64Encode(s));
  CHECK(d.size() == N, "decoding gives back as many bytes as were encoded");
  for (int i = 0; i < N; i++) CHECK(d[i] == x[i].c(), "decoding gives back the bytes");
}
SPEC(round_1)() { vf_opt("paths"); vf_opt("ends"); VALID("base64Decode"); round<1>(); }
SPEC(round_2)() { vf_opt("paths"); vf_opt("ends"); VALID("base64Decode"); round<2>(); }
SPEC(round_3)() { vf_opt("paths"); vf_opt("ends"); VALID("base64Decode"); round<3>(); }
SPEC(round_4)() { vf_opt("paths"); vf_opt("ends"); VALID("base64Decode"); round<4>(); }
SPEC(round_7)() { vf_opt("paths"); vf_opt("ends"); VALID("base64Decode"); round<7>(); }
// without the pad characters
SPEC(decode_unpadded)() {
  vf_opt("paths");
  VALID("base64Decode");
  Byte x, y;
  std::string s;
  s += digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)];
  s += digit[six(x.b1, x.b0, y.b7, y.b6, y.b5, y.b4)];
  s += digit[six(y.b3, y.b2, y.b1, y.b0, 0, 0)];
  std::string d = base64Decode(s);
  CHECK(d.size() == 2 && d[0] == x.c() && d[1] == y.c(), "the pad characters may be left out");
}
// bits left over at the end are no byte
SPEC(decode_leftover)() {
  vf_opt("paths");
  VALID("base64Decode");
  Byte x, y;
  std::string s;
  s += digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)];
  s += digit[six(x.b1, x.b0, y.b7, y.b6, y.b5, y.b4)];
  s += "==";
  std::string d = base64Decode(s);
  CHECK(d.size() == 1 && d[0] == x.c(), "bits that do not fill a byte are not decoded");
}
// the length argument
SPEC(length_1)() {
  vf_opt("paths");
  VALID("base64Encode with a length");
  Byte x;
  int n = vf_int();
  vf_assume(n <= 6);
  std::string e = base64Encode(std::string(1, x.c()), n);
  if (n == -1) {
    CHECK(e.size() == 4, "-1 asks for standard padding");
  } else if (n < 2) {
    CHECK(e.size() == 0, "too short a length gives the empty string");
  } else {
    CHECK((int)e.size() == n, "the text has the length asked for");
    CHECK(e[0] == digit[six(x.b7, x.b6, x.b5, x.b4, x.b3, x.b2)] && e[1] == digit[six(x.b1, x.b0, 0, 0, 0, 0)], "the digits do not depend on the length");
    for (int i = 2; i < (int)e.size(); i++) CHECK(e[i] == '=', "the rest is padding");
  }
}
SPEC(length_3)() {
  vf_opt("paths");
  VALID("base64Encode with a length");
  Byte x, y, z;
  int n = vf_int();
  vf_assume(n <= 7);
  std::string s;
  s += x.c();
  s += y.c();
  s += z.c();
  std::string e = base64Encode(s, n);
  if (n == -1)
    CHECK(e.size() == 4, "-1 asks for standard padding");
  else if (n < 4)
    CHECK(e.size() == 0, "too short a length gives the empty string");
  else
    CHECK((int)e.size() == n && e[3] == digit[six(z.b5, z.b4, z.b3, z.b2, z.b1, z.b0)], "the text has the length asked for");
}
// any characters at all
SPEC(decode_any)() {
  vf_opt("paths");
  VALID("base64Decode of any characters");
  Byte x, y;
  std::string s;
  s += x.c();
  s += y.c();
  std::string d = base64Decode(s);
  CHECK(d.size() <= 1, "two characters hold at most one byte");
}
SPEC(round_13)() { vf_opt("paths"); VALID("base64Decode"); round<13>(); }
SPEC(round_20)() { vf_opt("paths"); VALID("base64Decode"); round<20>(); }
// long texts, of every length modulo three
static void lengths(int from, int to, int a, int b) {
  for (int n = from; n < to; n++) {
    std::string s, want;
    for (int i = 0; i < n; i++) s += (char)(i * a + b * n);
    for (int i = 0; i < n; i += 3) {
      int x = (unsigned char)s[i], y = i + 1 < n ? (unsigned char)s[i + 1] : 0, z = i + 2 < n ? (unsigned char)s[i + 2] : 0;
      want += digit[x / 4];
      want += digit[x % 4 * 16 + y / 16];
      want += i + 1 < n ? digit[y % 16 * 4 + z / 64] : '=';
      want += i + 2 < n ? digit[z % 64] : '=';
    }
    std::string e = base64Encode(s);
    CHECK(e == want, "the encoding of RFC 4648");
    CHECK(base64Decode(e) == s, "decoding gives back the bytes");
  }
}
SPEC(lengths_16)() { VALID("long texts"); lengths(8, 17, 11, 3); }
SPEC(lengths_60)() { VALID("long texts"); lengths(54, 61, 37, 5); }
SPEC(lengths_130)() { VALID("long texts"); lengths(126, 130, 251, 7); }
SPEC(lengths_260)() { VALID("long texts"); lengths(255, 258, 1, 0); }
SPEC(lengths_zeros)() { VALID("long texts"); lengths(30, 33, 0, 0); }
SPEC(lengths_ones)() { VALID("long texts"); lengths(51, 52, 0, 5); }
