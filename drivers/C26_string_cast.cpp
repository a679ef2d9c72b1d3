// C26: stringCast reads the number a text begins with.
#include "verif.h"
#include "string_utils/StringCast.h"
#include <string>
using namespace cuhksz;

static int adigit() {
  int d = vf_int();
  vf_assume(d >= 0 && d <= 9);
  return d;
}
static char anychar() {
  int c = vf_int();
  vf_assume(c >= -128 && c <= 127);
  return (char)c;
}
static std::string digits(const char* pre, int a, int b, int c, const char* post) {
  std::string s(pre);
  s += (char)('0' + a);
  s += (char)('0' + b);
  s += (char)('0' + c);
  s += post;
  return s;
}
SPEC(int_digits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast<int>");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  CHECK(stringCast<int>(digits("", a, b, c, ""))() == v, "the number written");
  CHECK((int)stringCast<int>(digits("-", a, b, c, "")) == -v, "a minus sign negates");
  CHECK(stringCast<int>(digits("+", a, b, c, ""))() == v, "a plus sign");
  CHECK(stringCast<int>(digits(" \t\n", a, b, c, " "))() == v, "white space around");
  CHECK(stringCast<int>(digits("", a, b, c, "x1"))() == v, "reading ends at the first other character");
  CHECK(stringCast<int>(digits("", a, b, c, ".5"))() == v, "an int has no fraction");
}
SPEC(long_digits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast<long>");
  int a = adigit(), b = adigit(), c = adigit();
  CHECK(stringCast<long>(digits("9", a, b, c, "000000"))() == 9000000000L + 100000000L * a + 10000000L * b + 1000000L * c, "a number too large for int");
  CHECK(stringCast<long>(digits("-9", a, b, c, "000000"))() == -(9000000000L + 100000000L * a + 10000000L * b + 1000000L * c), "and its negation");
}
SPEC(double_digits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast<double>");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  CHECK(stringCast<double>(digits("", a, b, c, ""))() == v, "a whole number");
  CHECK(stringCast<double>(digits("-", a, b, c, ".5"))() == -(v + 0.5), "a fraction");
  CHECK(stringCast<double>(digits("0.", a, b, c, ""))() * 1000 == v, "digits after the point");
  CHECK((double)stringCast<double>(digits(" .", a, b, c, "z")) * 1000 == v, "no digit before the point");
}
// the length of the text does not matter
SPEC(long_text)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast of a long text");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  std::string spaces(40, ' '), zeros(40, '0');
  CHECK(stringCast<int>(spaces + digits("", a, b, c, ""))() == v, "much white space");
  CHECK(stringCast<int>(digits("", a, b, c, "") + spaces + "1")() == v, "much text behind");
  CHECK(stringCast<int>(zeros + digits("", a, b, c, ""))() == v && stringCast<long>("-" + zeros + digits("", a, b, c, ""))() == -v, "many zeros");
  CHECK(stringCast<double>(spaces + digits("", a, b, c, ".") + zeros)() == v, "many decimals");
}
SPEC(empty)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast of nothing");
  CHECK(stringCast<int>("")() == 0 && stringCast<double>("")() == 0 && stringCast<long>(" ")() == 0, "nothing to read gives 0");
}
SPEC(no_number)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast of a word");
  char c = anychar();
  vf_assume(c > '9');
  std::string s(1, c);
  s += "12";
  CHECK(stringCast<int>(s)() == 0 && stringCast<int>("-" + s)() == 0, "a text that does not begin with a number gives 0");
}
SPEC(any_text)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast of any text");
  std::string s;
  for (int i = 0; i < 3; i++) s += anychar();
  int x = stringCast<int>(s)(), y = stringCast<int>(s)();
  CHECK(x == y && x <= 999 && x >= -99, "the result depends on the text only");
}
// the conversion may be kept, copied and used after the text is gone or changed
SPEC(kept)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast kept");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  std::string* s = new std::string(digits("", a, b, c, ""));
  stringCast<int> k(*s);
  *s = "7";
  CHECK(k() == v && (int)k == v && k() == v, "later changes of the text do not matter");
  delete s;
  CHECK(k() == v, "nor its end");
  stringCast<double> t(digits("", a, b, c, ".5"));
  CHECK(t() == v + 0.5 && (double)t == v + 0.5, "a temporary text");
}
// every text
SPEC(every_int)(const std::string& s) {
  VALID("stringCast<int>");
  vf_readonly(&s, "the text");
  stringCast<int> k(s);
  CHECK(k() == (int)k, "both forms agree");
}
SPEC(every_double)(const std::string& s) {
  VALID("stringCast<double>");
  vf_readonly(&s, "the text");
  stringCast<double> k(s);
  CHECK(k() == (double)k, "both forms agree");
}
SPEC(exponents)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast<double> with an exponent");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  CHECK(stringCast<double>(digits("", a, b, c, "e2"))() == 100.0 * v, "a positive exponent");
  CHECK(stringCast<double>(digits("-", a, b, c, "E+3 "))() == -1000.0 * v, "with its sign");
  CHECK(stringCast<double>(digits("", a, b, c, "e-1x"))() * 10 == v, "a negative exponent");
  CHECK(stringCast<double>(digits(" 0.", a, b, c, "e+03,"))() == v, "a fraction and an exponent");
}
SPEC(limits)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast of the extreme numbers");
  CHECK(stringCast<int>("2147483647")() == 2147483647 && stringCast<int>("-2147483648")() == -2147483647 - 1, "int");
  CHECK(stringCast<long>("9223372036854775807")() == INT64_MAX && stringCast<long>("-9223372036854775808 ")() == INT64_MIN, "long");
  CHECK(stringCast<unsigned>("4294967295")() == 4294967295u && stringCast<unsigned long>("18446744073709551615")() == UINT64_MAX, "unsigned");
  CHECK(stringCast<short>("-32768")() == -32768 && stringCast<short>("32767;")() == 32767, "short");
}
SPEC(other_types)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("stringCast to other types");
  int a = adigit(), b = adigit(), c = adigit(), v = 100 * a + 10 * b + c;
  CHECK(stringCast<float>(digits("", a, b, c, ".5"))() == v + 0.5, "float");
  CHECK(stringCast<short>(digits("-", a, b, c, ""))() == -v, "short");
  CHECK(stringCast<unsigned>(digits("+", a, b, c, " 1"))() == (unsigned)v && stringCast<unsigned long>(digits("", a, b, c, ""))() == (unsigned long)v, "unsigned");
  CHECK(stringCast<long long>(digits("-", a, b, c, "000000000"))() == -1000000000LL * v, "long long");
}
