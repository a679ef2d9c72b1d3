// C10: a JSON value owns its contents.
// LIBS: json
// INC: stdlite
#include "verif.h"
#include "json/Json.h"
#include <string>
using namespace cuhksz;
typedef JSONObject::Type Type;

SPEC(life_scalars)(int i, double d, bool b) {
  vf_opt("paths"); vf_opt("ends");
  VALID("building scalars");
  {
    JSONObject n, x(i), y(d), z(b), s("text"), t(nullptr);
    CHECK(n.getType() == Type::Null && t.isNull(), "a fresh value is null");
    CHECK(x.getType() == Type::Integral && x.toInt() == i, "an integer");
    CHECK(y.getType() == Type::Float && y.toDouble() == d, "a float");
    CHECK(z.getType() == Type::Boolean && z.toBool() == b, "a boolean");
    CHECK(s.getType() == Type::String && s.toString() == "text", "a string");
  }
  vf_noleak("every value is released");
}
SPEC(life_nested)(int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("building a tree");
  {
    JSONObject o;
    o["a"] = i;
    o["b"]["c"] = "x";
    o["d"].append(i, "y");
    CHECK(o.size() == 3 && o["a"].toInt() == i && o["b"]["c"].toString() == "x" && o["d"].length() == 2, "the members are there");
  }
  vf_noleak("every value is released");
}
SPEC(copy_object)(int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("copying an object");
  {
    JSONObject o;
    o["a"] = i;
    o["b"]["c"] = "x";
    JSONObject p(o);
    CHECK(p.getType() == Type::Object && p.size() == 2 && p["a"].toInt() == i && p["b"]["c"].toString() == "x", "a copy equals its source");
    p["a"] = j;
    p["b"]["c"] = "z";
    p["e"] = 1;
    CHECK(o.size() == 2 && o["a"].toInt() == i && o["b"]["c"].toString() == "x", "changing a copy leaves its source");
    o["b"]["c"] = "w";
    CHECK(p["a"].toInt() == j && p["b"]["c"].toString() == "z" && p.size() == 3, "changing the source leaves the copy");
  }
  vf_noleak("every value is released");
}
SPEC(copy_array)(int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("copying an array");
  {
    JSONObject o = JSONObject::Array(i, "s");
    JSONObject p(o);
    CHECK(p.length() == 2 && p[0].toInt() == i && p[1].toString() == "s", "a copy equals its source");
    p[0] = j;
    p[1] = "t";
    p.append(3);
    CHECK(o.length() == 2 && o[0].toInt() == i && o[1].toString() == "s", "changing a copy leaves its source");
  }
  vf_noleak("every value is released");
}
SPEC(copy_string)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("copying a string");
  {
    JSONObject o("abc"), p(o);
    p = "def";
    CHECK(o.toString() == "abc" && p.toString() == "def", "strings are not shared");
  }
  vf_noleak("every value is released");
}
SPEC(copy_outlives)(int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("a copy outlives its source");
  {
    JSONObject p;
    {
      JSONObject o;
      o["a"].append(i);
      p = o;
    }
    CHECK(p["a"][0].toInt() == i, "a copy is independent of its source's life");
  }
  vf_noleak("every value is released");
}
// one of the seven types, also empty, case by case
static int pick(int a) {
  for (int k = 0; k < 9; k++)
    if (a == k) return k;
  return 9;
}
static JSONObject any(int kind, int i) {
  JSONObject r;
  if (kind == 1) r = i;
  if (kind == 2) r = "s";
  if (kind == 3) r.append(i);
  if (kind == 4) r["k"] = i;
  if (kind == 5) r = true;
  if (kind == 6) r = 1.5;
  if (kind == 7) r = "";
  if (kind == 8) r = JSONObject::Array();
  if (kind == 9) r = JSONObject::Object();
  return r;
}
static bool is(const JSONObject& r, int kind, int i) {
  switch (kind) {
    case 1: return r.getType() == Type::Integral && r.toInt() == i;
    case 2: return r.getType() == Type::String && r.toString() == "s";
    case 3: return r.getType() == Type::Array && r.length() == 1 && r.at(0u).toInt() == i;
    case 4: return r.getType() == Type::Object && r.size() == 1 && r.hasKey("k") && r.at("k").toInt() == i;
    case 5: return r.getType() == Type::Boolean && r.toBool();
    case 6: return r.getType() == Type::Float && r.toDouble() == 1.5;
    case 7: return r.getType() == Type::String && r.toString().empty();
    case 8: return r.getType() == Type::Array && r.length() == 0;
    case 9: return r.getType() == Type::Object && r.size() == 0;
    default: return r.isNull();
  }
}
// whatever a moved-from value is, it can be read
static void look(const JSONObject& r) {
  vf_sink(r.toInt(), r.toBool(), r.toDouble(), r.length(), r.size(), r.hasKey("k"));
  std::string s = r.toString();
  vf_sink(s.size());
}
SPEC(assign_copy)(int a, int b, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("copy assignment");
  a = pick(a);
  b = pick(b);
  {
    JSONObject x = any(a, i), y = any(b, 7);
    JSONObject& r = (y = x);
    CHECK(&r == &y && is(y, a, i) && is(x, a, i), "the target becomes a copy, the source is unchanged");
  }
  vf_noleak("the old and the new contents are released");
}
SPEC(assign_move)(int a, int b, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("move assignment");
  a = pick(a);
  b = pick(b);
  {
    JSONObject x = any(a, i), y = any(b, 7);
    y = static_cast<JSONObject&&>(x);
    CHECK(is(y, a, i), "the target takes over the contents");
    look(x);
    x = 3;
    CHECK(is(y, a, i) && x.toInt() == 3, "the moved-from value can be given a new value");
  }
  vf_noleak("the old and the new contents are released");
}
SPEC(move_construct)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("move construction");
  a = pick(a);
  {
    JSONObject x = any(a, i), y(static_cast<JSONObject&&>(x));
    CHECK(is(y, a, i), "the new value takes over the contents");
    look(x);
  }
  vf_noleak("the contents are released once");
}
SPEC(self_assign)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning a value to itself");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    JSONObject& y = x;
    x = y;
    CHECK(is(x, a, i), "assigning a value to itself changes nothing");
  }
  vf_noleak("the contents are released once");
}
SPEC(self_move)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("moving a value to itself");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    JSONObject& y = x;
    x = static_cast<JSONObject&&>(y);
  }
  vf_noleak("the contents are released once");
}
// x = x["child"], x = x[0]
SPEC(assign_member)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning a member to its owner");
  a = pick(a);
  {
    JSONObject x;
    x["m"] = any(a, i);
    x["n"] = 1;
    x = x["m"];
    CHECK(is(x, a, i), "the member becomes the value");
  }
  vf_noleak("every value is released");
}
SPEC(assign_element)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning an element to its owner");
  a = pick(a);
  {
    JSONObject x;
    x.append(1);
    x.append(any(a, i));
    x = x[1];
    CHECK(is(x, a, i), "the element becomes the value");
  }
  vf_noleak("every value is released");
}
SPEC(move_member)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("moving a member to its owner");
  a = pick(a);
  {
    JSONObject x;
    x["m"] = any(a, i);
    x = static_cast<JSONObject&&>(x["m"]);
    CHECK(is(x, a, i), "the member becomes the value");
  }
  vf_noleak("every value is released");
}
SPEC(assign_into_member)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("putting a copy of a value into itself");
  vf_assume(a >= 3 && a < 5);
  {
    JSONObject x = any(a, i);
    if (a == 3)
      x[0] = x;
    else
      x["k"] = x;
    if (a == 3)
      CHECK(x.length() == 1 && is(x[0], a, i), "the member is a copy of the former value");
    else
      CHECK(x.size() == 1 && is(x["k"], a, i), "the member is a copy of the former value");
  }
  vf_noleak("every value is released");
}
// a value changes type on assignment of a scalar
SPEC(assign_int)(int a, int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning an integer");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    x = j;
    CHECK(x.getType() == Type::Integral && x.toInt() == j, "the value is the integer");
  }
  vf_noleak("the former contents are released");
}
SPEC(assign_double)(int a, int i, double d) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning a float");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    x = d;
    CHECK(x.getType() == Type::Float && x.toDouble() == d, "the value is the float");
  }
  vf_noleak("the former contents are released");
}
SPEC(assign_bool)(int a, int i, bool b) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning a boolean");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    x = b;
    CHECK(x.getType() == Type::Boolean && x.toBool() == b, "the value is the boolean");
  }
  vf_noleak("the former contents are released");
}
SPEC(assign_text)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning a string");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    std::string t("new");
    x = t;
    t += "er";
    CHECK(x.getType() == Type::String && x.toString() == "new", "the value is the string");
  }
  vf_noleak("the former contents are released");
}
SPEC(assign_null)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("assigning null");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    x = JSONObject();
    CHECK(x.isNull(), "the value is null");
  }
  vf_noleak("the former contents are released");
}
SPEC(initializer)(int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("an initializer list");
  {
    JSONObject o = {"a", i, "b", {"c", "x"}};
    CHECK(o.size() == 2 && o["a"].toInt() == i && o["b"]["c"].toString() == "x", "keys and values alternate");
  }
  vf_noleak("every value is released");
}
SPEC(initializer_empty)() {
  vf_opt("paths"); vf_opt("ends");
  VALID("an initializer list");
  {
    JSONObject o{std::initializer_list<JSONObject>()};
    CHECK(o.getType() == Type::Object && o.size() == 0, "an empty list is an empty object");
  }
  vf_noleak("every value is released");
}
SPEC(array_builder)(int i, bool b) {
  vf_opt("paths"); vf_opt("ends");
  VALID("JSONObject::Array");
  {
    JSONObject e = JSONObject::Array(), o = JSONObject::Object();
    CHECK(e.getType() == Type::Array && e.length() == 0 && o.getType() == Type::Object && o.size() == 0, "empty containers");
    JSONObject a = JSONObject::Array(b, "t", i, 1.5);
    CHECK(a.length() == 4 && a[0].toBool() == b && a[1].toString() == "t" && a[2].toInt() == i && a[3].toDouble() == 1.5, "the elements in order");
  }
  vf_noleak("every value is released");
}
