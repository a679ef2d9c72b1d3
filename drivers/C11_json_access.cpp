// C11: a JSON value is accessed as what it is.
// LIBS: json
// INC: stdlite
#include "verif.h"
#include "json/Json.h"
#include <string>
using namespace cuhksz;
typedef JSONObject::Type Type;

// one of the seven types, case by case
static int pick(int a) {
  for (int k = 0; k < 6; k++)
    if (a == k) return k;
  return 6;
}
static JSONObject any(int kind, int i) {
  JSONObject r;
  if (kind == 1) r = i;
  if (kind == 2) r = "s";
  if (kind == 3) r.append(i);
  if (kind == 4) r["k"] = i;
  if (kind == 5) r = true;
  if (kind == 6) r = 1.5;
  return r;
}
static Type type(int kind) {
  switch (kind) {
    case 1: return Type::Integral;
    case 2: return Type::String;
    case 3: return Type::Array;
    case 4: return Type::Object;
    case 5: return Type::Boolean;
    case 6: return Type::Float;
    default: return Type::Null;
  }
}
// reading never depends on bits of another type and never changes the value
SPEC(read_any)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("reading a value of any type");
  a = pick(a);
  {
    const JSONObject x = any(a, i);
    CHECK(x.getType() == type(a), "the type is that of the contents");
    CHECK(x.toInt() == (a == 1 ? i : 0), "toInt of another type is 0");
    CHECK(x.toDouble() == (a == 6 ? 1.5 : 0.0), "toDouble of another type is 0");
    CHECK(x.toFloat() == (a == 6 ? 1.5f : 0.0f), "toFloat of another type is 0");
    CHECK(x.toBool() == (a == 5), "toBool of another type is false");
    CHECK(x.toString() == (a == 2 ? "s" : ""), "toString of another type is empty");
    CHECK(x.length() == (a == 3 ? 1 : -1), "length of another type is -1");
    CHECK(x.size() == (a == 3 || a == 4 ? 1 : -1), "size of another type is -1");
    CHECK(x.hasKey("k") == (a == 4), "only an object has keys");
    CHECK(!x.hasKey("l"), "a key that was not set is absent");
    CHECK(x.isNull() == (a == 0), "isNull");
    CHECK(x.getType() == type(a), "reading does not change the type");
  }
  vf_noleak("every value is released");
}
SPEC(convert_any)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("converting a value of any type");
  a = pick(a);
  const JSONObject x = any(a, i);
  CHECK((int)x == (a == 1 ? i : 0), "conversion to int");
  CHECK((double)x == (a == 6 ? 1.5 : 0.0), "conversion to double");
  CHECK((float)x == (a == 6 ? 1.5f : 0.0f), "conversion to float");
  CHECK((bool)x == (a == 5), "conversion to bool");
  CHECK((std::string)x == (a == 2 ? "s" : ""), "conversion to a string");
}
SPEC(ranges_any)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("ranging over a value of any type");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    const JSONObject& y = x;
    int n = 0, m = 0;
    for (JSONObject& e : x.ArrayRange()) {
      n++;
      CHECK(e.toInt() == i, "the element");
      m += 2;
    }
    for (auto& e : x.ObjectRange()) {
      n++;
      CHECK(e.first == "k" && e.second.toInt() == i, "the member");
    }
    for (const JSONObject& e : y.ArrayRange()) {
      m++;
      CHECK(e.toInt() == i, "the element");
    }
    for (auto& e : y.ObjectRange()) {
      m++;
      CHECK(e.second.toInt() == i, "the member");
    }
    CHECK(n == (a == 3 || a == 4 ? 1 : 0), "a range covers the members of an object or the elements of an array");
    CHECK(m == (a == 3 ? 3 : a == 4 ? 1 : 0), "the same for a constant value");
  }
  vf_noleak("every value is released");
}
// writing through [] turns the value into what the index says
SPEC(index_key)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator[] with a key");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    JSONObject& e = x["n"];
    CHECK(e.isNull() && x.getType() == Type::Object, "a missing member is created as null");
    e = 5;
    CHECK(x["n"].toInt() == 5 && x.size() == (a == 4 ? 2 : 1), "it is the member itself");
    if (a == 4) CHECK(x["k"].toInt() == i, "the other members stay");
  }
  vf_noleak("former contents are released");
}
SPEC(index_existing)(int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator[] with a key");
  {
    JSONObject x;
    x["b"] = i;
    x["a"] = 1;
    x["c"] = 2;
    std::string k("b");
    x[k] = j;
    CHECK(x.size() == 3 && x["b"].toInt() == j && x["a"].toInt() == 1 && x["c"].toInt() == 2, "an existing member is replaced");
    CHECK(x.at(k).toInt() == j && x.hasKey(k), "at finds the same member");
  }
  vf_noleak("former contents are released");
}
SPEC(index_number)(int a, int i, int n) {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator[] with an index");
  a = pick(a);
  n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 2 : 3;
  {
    JSONObject x = any(a, i);
    JSONObject& e = x[n];
    CHECK(x.getType() == Type::Array, "the value is an array");
    CHECK(x.length() == (n + 1), "the array reaches up to the index");
    if (a == 3 && n == 0)
      CHECK(e.toInt() == i, "an existing element is found");
    else
      CHECK(e.isNull(), "a missing element is created as null");
    e = 5;
    CHECK(x[n].toInt() == 5 && x.length() == (n + 1), "it is the element itself");
    if (a == 3 && n > 0) CHECK(x[0].toInt() == i, "the other elements stay");
    for (int k = a == 3 ? 1 : 0; k < n; k++) CHECK(x[k].isNull(), "elements in between are null");
  }
  vf_noleak("former contents are released");
}
SPEC(index_shorter)(int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("operator[] with an index");
  {
    JSONObject x = JSONObject::Array(1, 2, 3);
    x[0] = i;
    x.at(1u) = j;
    CHECK(x.length() == 3 && x[0].toInt() == i && x[1].toInt() == j && x[2].toInt() == 3, "indexing never shortens an array");
  }
  vf_noleak("former contents are released");
}
SPEC(index_negative)(int a, int i, int n) {
  vf_opt("paths"); vf_opt("ends");
  a = pick(a); vf_assume(n < 0);
  JSONObject x = any(a, i);
  INVALID("operator[] with a negative index");
  x[n];
  MUST_STOP("operator[] with a negative index");
}
SPEC(append_any)(int a, int i, int j) {
  vf_opt("paths"); vf_opt("ends");
  VALID("append");
  a = pick(a);
  {
    JSONObject x = any(a, i);
    x.append(j, "t");
    CHECK(x.getType() == Type::Array, "the value is an array");
    if (a == 3)
      CHECK(x.length() == 3 && x[0].toInt() == i && x[1].toInt() == j && x[2].toString() == "t", "elements are added at the end");
    else
      CHECK(x.length() == 2 && x[0].toInt() == j && x[1].toString() == "t", "a value of another type becomes an array first");
  }
  vf_noleak("former contents are released");
}
// lookups in a constant value
SPEC(const_key)(int i) {
  vf_opt("paths"); vf_opt("ends");
  VALID("at on a constant object");
  {
    JSONObject x;
    x["k"] = i;
    const JSONObject& y = x;
    CHECK(y.at("k").toInt() == i, "at finds the member");
    const JSONObject& z = y.at("missing");
    CHECK(x.size() == 1 && !x.hasKey("missing"), "looking up a missing key adds nothing");
    CHECK(z.isNull(), "a missing member reads as null");
  }
  vf_noleak("every value is released");
}
SPEC(const_key_other)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  a = pick(a);
  vf_assume(a != 4);
  const JSONObject x = any(a, i);
  vf_allow_error();
  vf_sink(x.at("k").isNull());
}
SPEC(const_index)(int i, unsigned n) {
  vf_opt("paths"); vf_opt("ends");
  VALID("at on a constant array");
  vf_assume(n < 3);
  {
    JSONObject x = JSONObject::Array(i, i, i);
    x[(int)n] = 7;
    const JSONObject& y = x;
    CHECK(y.at(n).toInt() == 7 && y.at(n == 0 ? 1u : 0u).toInt() == i, "at finds the element");
    CHECK(x.length() == 3, "looking up an element adds nothing");
  }
  vf_noleak("every value is released");
}
SPEC(const_index_other)(int a, int i) {
  vf_opt("paths"); vf_opt("ends");
  a = pick(a);
  vf_assume(a != 3);
  const JSONObject x = any(a, i);
  vf_allow_error();
  vf_sink(x.at(0u).isNull());
}
SPEC(const_index_outside)(int i, unsigned n) {
  vf_opt("paths"); vf_opt("ends");
  vf_assume(n >= 3);
  JSONObject x = JSONObject::Array(i, i, i);
  const JSONObject& y = x;
  vf_allow_error();
  vf_sink(y.at(n).isNull());
  MUST_STOP("at on a constant array, outside it");
}
SPEC(initializer_odd)(int i) {
  vf_opt("paths"); vf_opt("ends");
  INVALID("an initializer list with a key and no value");
  JSONObject o{std::initializer_list<JSONObject>{"a", i, "b"}};
  MUST_STOP("an initializer list with a key and no value");
}
SPEC(build_any)(int a) {
  vf_opt("paths"); vf_opt("ends");
  VALID("Build");
  a = pick(a);
  {
    JSONObject x = JSONObject::Build(type(a));
    CHECK(x.getType() == type(a), "the value has the type asked for");
    CHECK(x.toInt() == 0 && x.toDouble() == 0 && !x.toBool() && x.toString() == "" && x.size() == (a == 3 || a == 4 ? 0 : -1), "and is empty");
  }
  vf_noleak("every value is released");
}
