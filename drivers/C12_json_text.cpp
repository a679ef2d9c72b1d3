// C12: JSON text is read and written faithfully, and bad text is refused.
// LIBS: json
// INC: stdlite
#include "verif.h"
#include "json/Json.h"
#include <sstream>
#include <string>
using namespace cuhksz;
typedef JSONObject::Type Type;

static char anychar() {
  int x = vf_int();
  vf_assume(x >= -128 && x <= 127);
  return (char)x;
}
static char dig(int d) { return (char)('0' + d); }
static int adigit() {
  int d = vf_int();
  vf_assume(d >= 0 && d <= 9);
  return d;
}

// ---- literals and numbers
SPEC(literals)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON");
  {
    CHECK(loadJSON("null").isNull(), "null");
    JSONObject t = loadJSON("true"), f = loadJSON(" \t\r\nfalse");
    CHECK(t.getType() == Type::Boolean && t.toBool(), "true");
    CHECK(f.getType() == Type::Boolean && !f.toBool(), "false");
    CHECK(loadJSON("[]").length() == 0 && loadJSON(" [ \n ] ").length() == 0, "an empty array");
    CHECK(loadJSON("{}").size() == 0 && loadJSON("{ \t}").getType() == Type::Object, "an empty object");
  }
  vf_noleak("every value is released");
}
SPEC(integer)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of an integer");
  int a = adigit(), b = adigit(), c = adigit();
  std::string s;
  s += dig(a);
  s += dig(b);
  s += dig(c);
  JSONObject x = loadJSON(s), y = loadJSON("-" + s), z = loadJSON("\n " + s + " ");
  CHECK(x.getType() == Type::Integral && x.toInt() == 100 * a + 10 * b + c, "a number without a point is an integer");
  CHECK(y.getType() == Type::Integral && y.toInt() == -(100 * a + 10 * b + c), "a minus sign negates it");
  CHECK(z.getType() == Type::Integral && z.toInt() == 100 * a + 10 * b + c, "white space around it is skipped");
}
SPEC(fraction)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a fraction");
  int a = adigit(), b = adigit(), c = adigit();
  std::string s;
  s += dig(a);
  s += '.';
  s += dig(b);
  s += dig(c);
  JSONObject x = loadJSON(s), y = loadJSON("-" + s);
  CHECK(x.getType() == Type::Float && x.toDouble() * 100 == 100 * a + 10 * b + c, "a number with a point is a float");
  CHECK(y.getType() == Type::Float && y.toDouble() * 100 == -(100 * a + 10 * b + c), "a minus sign negates it");
}
static void exponent(const char* e, double scale) {
  int a = adigit(), b = adigit();
  std::string s;
  s += dig(a);
  std::string t = s + ".";
  t += dig(b);
  JSONObject x = loadJSON(s + e), y = loadJSON(t + e);
  CHECK(x.getType() == Type::Float && x.toDouble() == a * scale, "an exponent scales an integer");
  CHECK(y.getType() == Type::Float && y.toDouble() * 10 == (10 * a + b) * scale, "an exponent scales a fraction");
  JSONObject z = loadJSON("[" + t + e + "," + s + e + "]");
  CHECK(z.length() == 2 && z[0].toDouble() * 10 == (10 * a + b) * scale && z[1].toDouble() == a * scale, "also inside an array");
}
SPEC(exponent_2)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent("e2", 100); }
SPEC(exponent_plus_3)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent("E+3", 1000); }
SPEC(exponent_0)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent("e0", 1); }
SPEC(exponent_10)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent("e10", 1e10); }

static void exponent_minus(const char* e, double scale) {
  int a = adigit(), b = adigit();
  std::string s;
  s += dig(a);
  std::string t = s + ".";
  t += dig(b);
  JSONObject x = loadJSON(s + e), y = loadJSON("-" + t + e);
  CHECK(x.getType() == Type::Float && x.toDouble() * scale == a, "a negative exponent divides an integer");
  CHECK(y.getType() == Type::Float && y.toDouble() * 10 * scale == -(10 * a + b), "a negative exponent divides a fraction");
}
SPEC(exponent_minus_1)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent_minus("e-1", 10); }
SPEC(exponent_minus_3)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an exponent"); exponent_minus("E-03", 1000); }

// ---- strings
SPEC(string_char)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a string");
  char c = anychar();
  vf_assume(c != '"' && c != '\\');
  std::string s("\"a");
  s += c;
  s += "b\"";
  JSONObject x = loadJSON(s), y("a" + std::string(1, c) + "b");
  CHECK(x.getType() == Type::String && x.toString() == y.toString(), "a character stands for itself");
}
static void escape(const char* text, const char* value) {
  {
    std::string s("\"x");
    s += text;
    s += "y\"";
    std::string v("x");
    v += value;
    v += "y";
    JSONObject x = loadJSON(s), y(v), z = loadJSON("[" + s + "," + s + "]");
    CHECK(x.getType() == Type::String && x.dump() == y.dump(), "an escape stands for its character");
    CHECK(z.length() == 2 && z[1].toString() == y.toString(), "also inside an array");
  }
  vf_noleak("every value is released");
}
SPEC(escape_quote)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\\"", "\""); }
SPEC(escape_backslash)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\\\", "\\"); }
SPEC(escape_slash)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\/", "/"); }
SPEC(escape_b)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\b", "\b"); }
SPEC(escape_f)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\f", "\f"); }
SPEC(escape_n)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\n", "\n"); }
SPEC(escape_r)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\r", "\r"); }
SPEC(escape_t)() { vf_opt("paths"); vf_opt("ends"); VALID("loadJSON of an escape"); escape("\\t", "\t"); }
SPEC(escape_u)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a unicode escape");
  int a = adigit();
  std::string h;
  h += dig(a);
  JSONObject x = loadJSON("\"\\u" + h + "aF9z\"");
  CHECK(x.toString() == "\\\\u" + h + "aF9z", "a unicode escape is kept as written");
}
SPEC(escape_u_bad)(int k) {
  vf_opt("paths"); vf_opt("ends");
  char c = anychar();
  vf_assume(!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')));
  k = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3;
  std::string s("\"\\u0a1F\"");
  s[3 + k] = c;
  INVALID("a unicode escape without four digits");
  loadJSON(s);
  MUST_STOP("a unicode escape without four digits");
}

// ---- structure
SPEC(array)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of an array");
  {
    int a = adigit(), b = adigit();
    std::string s("[ ");
    s += dig(a);
    s += ",\"t\" ,[";
    s += dig(b);
    s += "], {\"k\":null} ,false]";
    JSONObject x = loadJSON(s);
    CHECK(x.getType() == Type::Array && x.length() == 5, "all elements");
    CHECK(x[0].toInt() == a && x[1].toString() == "t" && x[2].length() == 1 && x[2][0].toInt() == b && x[3].size() == 1 && x[3].hasKey("k") && x[3]["k"].isNull() &&
              x[4].getType() == Type::Boolean && !x[4].toBool(),
          "in order");
  }
  vf_noleak("every value is released");
}
SPEC(object)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of an object");
  {
    int a = adigit(), b = adigit();
    std::string s("{\n \"z\" : ");
    s += dig(a);
    s += ",\"b\":{ \"c\": [";
    s += dig(b);
    s += ", 7 ] } ,\"a\":true}";
    JSONObject x = loadJSON(s);
    CHECK(x.getType() == Type::Object && x.size() == 3, "all members");
    CHECK(x["z"].toInt() == a && x["b"].size() == 1 && x["b"]["c"].length() == 2 && x["b"]["c"][0].toInt() == b && x["b"]["c"][1].toInt() == 7 && x["a"].toBool(),
          "under their keys");
    CHECK(x.size() == 3, "and no others");
  }
  vf_noleak("every value is released");
}
SPEC(object_twice)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of an object");
  int a = adigit(), b = adigit();
  std::string s("{\"k\":");
  s += dig(a);
  s += ",\"k\":";
  s += dig(b);
  s += "}";
  JSONObject x = loadJSON(s);
  CHECK(x.size() == 1 && x["k"].toInt() == b, "the last of equal keys counts");
}

// ---- bad text is refused with a message
static void refuse(const char* s) {
  INVALID("text that is not JSON");
  loadJSON(s);
  MUST_STOP("text that is not JSON");
}
#define REFUSE(n, t) SPEC(refuse_##n)() { vf_opt("paths"); vf_opt("ends"); refuse(t); }
REFUSE(empty, "")
REFUSE(blank, " \n")
REFUSE(array_open, "[")
REFUSE(array_open_1, "[1")
REFUSE(array_open_2, "[1,")
REFUSE(array_open_3, "[\"a\"")
REFUSE(array_open_4, "[1.5e3")
REFUSE(array_comma, "[1,]")
REFUSE(array_nocomma, "[1 2]")
REFUSE(array_close, "[1}")
REFUSE(object_open, "{")
REFUSE(object_open_1, "{\"a\"")
REFUSE(object_open_2, "{\"a\":")
REFUSE(object_open_3, "{\"a\":1")
REFUSE(object_open_4, "{\"a\":1,")
REFUSE(object_colon, "{\"a\" 1}")
REFUSE(object_comma, "{\"a\":1 \"b\":2}")
REFUSE(object_trail, "{\"a\":1,}")
REFUSE(object_close, "{\"a\":1]")
REFUSE(string_open, "\"")
REFUSE(string_open_1, "\"abc")
REFUSE(string_open_2, "\"abc\\")
REFUSE(string_open_3, "\"abc\\\"")
REFUSE(string_open_4, "[\"a\\u12")
REFUSE(string_open_5, "{\"a")
REFUSE(tru, "tru")
REFUSE(fals, "[fals]")
REFUSE(nul, "nul")
REFUSE(number_letter, "12a")
REFUSE(number_exp, "1e")
REFUSE(number_exp_sign, "1e-")
REFUSE(number_exp_letter, "1e2x")
REFUSE(number_exp_none, "[1e]")
REFUSE(close_only, "]")
REFUSE(key_number, "{1:2}")
REFUSE(key_none, "{:2}")
REFUSE(key_null, "{\"a\":1,null:2}")

// ---- any text is read without touching anything else
static void survive(const std::string& s) {
  vf_allow_error();
  JSONObject x = loadJSON(s);
  vf_sink(x.isNull());
}
static std::string put(const char* a, int n, const char* b) {
  std::string s(a);
  for (int i = 0; i < n; i++) s += anychar();
  s += b;
  return s;
}
SPEC(any_1)() { vf_opt("paths"); vf_opt("ends"); survive(put("", 1, "")); }
SPEC(any_2)() { vf_opt("paths"); vf_opt("ends"); survive(put("", 2, "")); }
SPEC(any_after_bracket)() { vf_opt("paths"); vf_opt("ends"); survive(put("[", 2, "")); }
SPEC(any_in_array)() { vf_opt("paths"); vf_opt("ends"); survive(put("[1", 1, "2]")); }
SPEC(any_in_string)() { vf_opt("paths"); vf_opt("ends"); survive(put("\"a", 2, "")); }
SPEC(any_after_backslash)() { vf_opt("paths"); vf_opt("ends"); survive(put("\"\\", 2, "")); }
SPEC(any_after_u)() { vf_opt("paths"); vf_opt("ends"); survive(put("\"\\u1", 2, "")); }
SPEC(any_in_number)() { vf_opt("paths"); vf_opt("ends"); survive(put("1", 2, "")); }
SPEC(any_after_minus)() { vf_opt("paths"); vf_opt("ends"); survive(put("-", 1, "")); }
SPEC(any_after_e)() { vf_opt("paths"); vf_opt("ends"); survive(put("1e", 2, "")); }
SPEC(any_after_exp)() { vf_opt("paths"); vf_opt("ends"); survive(put("[1.5e1", 1, "]")); }
SPEC(any_after_t)() { vf_opt("paths"); vf_opt("ends"); survive(put("t", 2, "")); }
SPEC(any_after_n)() { vf_opt("paths"); vf_opt("ends"); survive(put("nul", 1, "")); }
SPEC(any_in_object)() { vf_opt("paths"); vf_opt("ends"); survive(put("{", 1, "\"a\":1}")); }
SPEC(any_after_key)() { vf_opt("paths"); vf_opt("ends"); survive(put("{\"a\"", 1, "1}")); }
SPEC(any_after_member)() { vf_opt("paths"); vf_opt("ends"); survive(put("{\"a\":1", 1, "")); }

// ---- writing
SPEC(dump_scalars)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("dump");
  int n = vf_int();
  vf_assume(n >= -99 && n <= 99);
  CHECK(JSONObject().dump() == "null", "null");
  CHECK(JSONObject(true).dump() == "true" && JSONObject(false).dump() == "false", "booleans");
  CHECK(JSONObject(n).dump() == std::to_string(n), "an integer in decimal");
  CHECK(JSONObject("ab").dump() == "\"ab\"", "a string in quotes");
}
SPEC(dump_array)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("dump");
  int d = adigit();
  JSONObject e = JSONObject::Array(), a = JSONObject::Array(d, "t", true);
  a.append(e);
  std::string w("[");
  w += dig(d);
  w += ", \"t\", true, []]";
  CHECK(e.dump() == "[]" && a.dump() == w, "the elements in order");
}
SPEC(dump_object)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("dump");
  int d = adigit();
  JSONObject o;
  o["b"] = d;
  o["a"]["x"] = "y";
  std::string w("{\n  \"a\" : {\n    \"x\" : \"y\"\n  },\n  \"b\" : ");
  w += dig(d);
  w += "\n}";
  CHECK(o.dump() == w, "the members in the order of their keys, one per line, indented by depth");
  CHECK(JSONObject::Object().dump() == "{\n\n}", "an empty object");
}
SPEC(dump_stream)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator<<");
  int d = adigit();
  JSONObject a = JSONObject::Array(d, "t");
  std::ostringstream os;
  os << a;
  CHECK(os.str() == a.dump(), "the stream gets the dump");
}
SPEC(escape_text)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("jsonEscape");
  char c = anychar(), d = anychar();
  vf_assume(d > 'a');
  std::string s(1, c), e, f;
  s += d;
  f += d;
  switch (c) {
    case '"': e = "\\\""; break;
    case '\\': e = "\\\\"; break;
    case '\b': e = "\\b"; break;
    case '\f': e = "\\f"; break;
    case '\n': e = "\\n"; break;
    case '\r': e = "\\r"; break;
    case '\t': e = "\\t"; break;
    default: e += c;
  }
  CHECK(jsonEscape(s) == e + f && jsonEscape(f) == f, "quotes, backslashes and control characters are escaped, all else is kept");
  CHECK(jsonEscape("").empty(), "nothing to escape");
  CHECK(JSONObject(s).dump() == "\"" + e + f + "\"", "dump escapes strings");
}

// ---- reading what was written
static void round(JSONObject& x) {
  JSONObject y = loadJSON(x.dump());
  CHECK(y.getType() == x.getType(), "the type survives");
}
SPEC(round_int)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a dump");
  int n = vf_int();
  vf_assume(n >= -999 && n <= 999);
  JSONObject y = loadJSON(JSONObject(n).dump());
  CHECK(y.getType() == Type::Integral && y.toInt() == n, "an integer survives");
}
SPEC(round_string)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a dump");
  char c = anychar(), d = anychar();
  std::string s("p");
  s += c;
  s += d;
  JSONObject x(s), y = loadJSON(x.dump());
  CHECK(y.getType() == Type::String && y.toString() == jsonEscape(s), "a string survives");
}
SPEC(round_key)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a dump");
  char c = anychar(), d = anychar();
  vf_assume(c != 0 && d != 0);
  std::string s(1, c);
  s += d;
  JSONObject x;
  x[s] = 1;
  JSONObject y = loadJSON(x.dump());
  CHECK(y.size() == x.size() && y.hasKey(s) && y[s].toInt() == x[s].toInt(), "a key survives");
}
SPEC(key_escape)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of an object");
  JSONObject x = loadJSON("{\"a\\\"b\\n\" : 1}");
  CHECK(x.size() == 1 && x.hasKey("a\"b\n"), "escapes in a key are read like those in a string");
  JSONObject y{std::initializer_list<JSONObject>{"a\"b", 2}};
  CHECK(y.size() == 1 && y.hasKey("a\"b"), "a key is the text given");
  CHECK(y.dump() == "{\n\"a\\\"b\" : 2\n}" || y.dump() == "{\n  \"a\\\"b\" : 2\n}", "a key is written escaped");
}
SPEC(round_tree)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("loadJSON of a dump");
  {
    int n = adigit(), m = adigit();
    char c = anychar();
    std::string s(1, c);
    JSONObject o;
    o["n"] = n;
    o["s"] = s;
    o["a"].append(m, true, nullptr);
    o["a"][3]["in"] = "x";
    o["e"] = JSONObject::Array();
    o["o"] = JSONObject::Object();
    JSONObject y = loadJSON(o.dump());
    CHECK(y.getType() == Type::Object && y.size() == 5, "all members survive");
    CHECK(y["n"].getType() == Type::Integral && y["n"].toInt() == n && y["s"].toString() == jsonEscape(s), "scalars survive");
    CHECK(y["a"].length() == 4 && y["a"][0].toInt() == m && y["a"][1].getType() == Type::Boolean && y["a"][1].toBool() && y["a"][2].isNull() &&
              y["a"][3].size() == 1 && y["a"][3]["in"].toString() == "x",
          "the array survives");
    CHECK(y["e"].length() == 0 && y["o"].getType() == Type::Object && y["o"].size() == 0, "empty containers survive");
  }
  vf_noleak("every value is released");
}

// ---- larger documents
static std::string decimal(long n) {
  std::string s;
  bool minus = n < 0;
  if (minus) n = -n;
  do s.insert(s.begin(), (char)('0' + n % 10)), n /= 10; while (n);
  return minus ? "-" + s : s;
}
static void wideInt(long n) {
  std::string s = decimal(n);
  JSONObject x = loadJSON(s), y((int)n), z = loadJSON("[" + s + "," + s + "]"), w = loadJSON("{\"k\":" + s + "}");
  CHECK(x.getType() == Type::Integral && x.toInt() == n, "an integer of any size is read");
  CHECK(y.dump() == s, "and written");
  CHECK(z.length() == 2 && z[0].toInt() == n && z[1].toInt() == n && w["k"].toInt() == n, "inside arrays and objects, too");
}
SPEC(wide_ints)() {
  VALID("integers of all sizes");
  vf_opt("paths");
  for (long p = 1; p <= 1000000000; p *= 10) {
    wideInt(p);
    wideInt(-p);
    wideInt(p - 1);
    wideInt(1 - p);
    if (p < 1000000000) wideInt(2 * p + 1);
  }
  wideInt(2147483647);
  wideInt(-2147483647 - 1);
}
SPEC(wide_floats)() {
  VALID("floats of all sizes");
  vf_opt("paths");
  const char* t[] = {"0.5", "-0.5", "0.25", "123456.75", "-1024.125", "1.0", "0.0", "100000000.5", "1.5e3", "-2.5E+2", "25e1", "7e0", "-3E2", "1e5", "2.5e-0"};
  double v[] = {0.5, -0.5, 0.25, 123456.75, -1024.125, 1, 0, 100000000.5, 1500, -250, 250, 7, -300, 100000, 2.5};
  for (int i = 0; i < 15; i++) {
    std::string s = t[i];
    JSONObject x = loadJSON(s), y = loadJSON("[" + s + " ," + s + "]"), z = loadJSON("{\"a\":" + s + "\n}");
    CHECK(x.getType() == Type::Float && x.toDouble() == v[i], "a number with a point or an exponent is read as a float");
    CHECK(y.length() == 2 && y[0].toDouble() == v[i] && y[1].toDouble() == v[i] && z["a"].toDouble() == v[i], "inside arrays and objects, too");
  }
}
SPEC(exponent_digits)() {
  VALID("exponents of every digit");
  vf_opt("paths"); vf_opt("ends");
  double p = 1;
  for (int i = 0; i < 20; i++, p *= 10) {
    std::string e;
    if (i >= 10) e += '1';
    e += (char)('0' + i % 10);
    JSONObject x = loadJSON("3e" + e), y = loadJSON("[2.5E+" + e + ",1e0" + e + "]"), z = loadJSON("{\"a\":-7E" + e + "}");
    CHECK(x.toDouble() == 3 * p && y[0].toDouble() == 2.5 * p && y[1].toDouble() == p && z["a"].toDouble() == -7 * p, "the exponent is the number written");
  }
}
static void nest(int depth) {
  std::string a, o, spaced;
  for (int i = 0; i < depth; i++) a += "[", o += "{\"k\":", spaced += i % 2 ? " \n{ \"k\"\t: " : "\r[ ";
  a += "7", o += "7", spaced += "7";
  for (int i = depth - 1; i >= 0; i--) a += "]", o += "}", spaced += i % 2 ? " \t} " : "\n ] ";
  JSONObject x = loadJSON(a), y = loadJSON(o), z = loadJSON(spaced);
  CHECK(x.dump() == a, "nested arrays survive");
  JSONObject *p = &x, *q = &y, *r = &z;
  for (int i = 0; i < depth; i++) {
    CHECK(p->length() == 1 && q->size() == 1 && q->hasKey("k") && r->size() == 1, "one value at every level");
    p = &(*p)[0];
    q = &(*q)["k"];
    if (i % 2) r = &(*r)["k"]; else r = &(*r)[0];
  }
  CHECK(p->getType() == Type::Integral && p->toInt() == 7 && q->toInt() == 7 && r->toInt() == 7, "the innermost value");
  JSONObject w = loadJSON(z.dump());
  CHECK(w.dump() == z.dump(), "what was written is read back");
}
SPEC(nest_3)() { VALID("nesting"); vf_opt("paths"); { nest(3); } vf_noleak("every value is released"); }
SPEC(nest_6)() { VALID("nesting"); vf_opt("paths"); { nest(6); } vf_noleak("every value is released"); }
SPEC(nest_9)() { VALID("nesting"); vf_opt("paths"); { nest(9); } vf_noleak("every value is released"); }
SPEC(long_array)() {
  VALID("a long array");
  vf_opt("paths");
  {
    std::string t = "[", s = "[ ";
    JSONObject a = JSONObject::Array();
    for (int i = 0; i < 40; i++) {
      if (i) t += ", ", s += " ,\n";
      std::string e = i % 5 == 0 ? decimal(i * i * i - 700) : i % 5 == 1 ? "\"x" + decimal(i) + "\"" : i % 5 == 2 ? "true" : i % 5 == 3 ? "null" : "[]";
      t += e;
      s += e;
      if (i % 5 == 0) a.append(i * i * i - 700);
      else if (i % 5 == 1) a.append("x" + decimal(i));
      else if (i % 5 == 2) a.append(true);
      else if (i % 5 == 3) a.append(nullptr);
      else a.append(JSONObject::Array());
    }
    t += "]";
    s += "\t]";
    CHECK(a.length() == 40 && a.dump() == t, "every element is written, in order");
    JSONObject x = loadJSON(t), y = loadJSON(s);
    CHECK(x.length() == 40 && x.dump() == t && y.dump() == t, "every element is read, in order, whatever white space is between");
  }
  vf_noleak("every value is released");
}
SPEC(long_object)() {
  VALID("a large object");
  vf_opt("paths");
  {
    std::string t = "{", s;
    for (int i = 0; i < 30; i++) {
      int k = i * 7 % 30;
      if (i) t += " ,";
      t += "\n\"key" + decimal(100 + k) + "\"\t: " + (k % 3 ? decimal(k) : "{\"v\" : [" + decimal(k) + "]}");
    }
    t += "}";
    JSONObject x = loadJSON(t), y = loadJSON(x.dump());
    CHECK(x.size() == 30 && y.size() == 30 && x.dump() == y.dump(), "every member is read");
    for (int k = 0; k < 30; k++) {
      std::string key = "key" + decimal(100 + k);
      CHECK(y.hasKey(key) && (k % 3 ? y[key].toInt() : y[key]["v"][0].toInt()) == k, "under its key");
    }
    s = "{\n";
    for (int k = 0; k < 30; k++)
      s += (k ? ",\n  \"key" : "  \"key") + decimal(100 + k) + "\" : " + (k % 3 ? decimal(k) : "{\n    \"v\" : [" + decimal(k) + "]\n  }");
    s += "\n}";
    CHECK(x.dump() == s, "the members in the order of their keys, one per line, indented by depth");
  }
  vf_noleak("every value is released");
}
SPEC(long_string)() {
  VALID("a long text");
  std::string s, e;
  for (int i = 0; i < 220; i++) {
    char c = (char)(i * 53 % 128);
    if (c == 0) c = '\\';
    s += c;
  }
  e = jsonEscape(s);
  JSONObject x(s), y = loadJSON("\"" + e + "\""), z = loadJSON(x.dump());
  CHECK(x.dump() == "\"" + e + "\"", "a long text is written");
  CHECK(y.getType() == Type::String && y.dump() == x.dump() && z.dump() == x.dump(), "and read back");
  JSONObject o;
  o[s] = s;
  JSONObject p = loadJSON(o.dump());
  CHECK(p.size() == 1 && p.hasKey(s) && p[s].dump() == x.dump(), "as a key and as a value");
}
SPEC(escapes_in_a_row)() {
  VALID("escapes next to each other");
  JSONObject x = loadJSON("\"\\\\\\\"\\n\\\\n\\/\\t\\\\\\\\\\\"\\b\\f\\r\"");
  CHECK(x.dump() == JSONObject("\\\"\n\\n/\t\\\\\"\b\f\r").dump(), "each escape stands for its character");
  JSONObject y = loadJSON("[\"\\\\\",\"\\\"\",\"a\\\\\"]");
  CHECK(y.length() == 3 && y[0].dump() == "\"\\\\\"" && y[1].dump() == "\"\\\"\"" && y[2].dump() == "\"a\\\\\"", "an escaped backslash does not escape the quote");
}
