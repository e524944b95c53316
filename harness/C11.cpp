// C11: an application is accepted exactly when its arguments fit the function type
#include "terms.h"
#include <map>

typedef std::map<str, T> Env;
// types: (-> A R), (quote N A R) where N is the argument of type A
static std::map<str, T> sigs;
static bool isParam(const T& t) { return t.k.empty() && (t.op == "T" || t.op == "U" || t.op == "N" || t.op == "M"); }
static bool ground(const T& t)
{
  if (isParam(t)) return false;
  for (const T& c : t.k)
    if (!ground(c)) return false;
  return true;
}
static bool stuck(const T& t)
{
  if (t.op.compare(0, 4, "eo::") == 0) return true;
  for (const T& c : t.k)
    if (stuck(c)) return true;
  return false;
}
static bool match(const T& p, const T& t, Env& e)
{
  if (isParam(p))
  {
    auto it = e.find(p.op);
    if (it != e.end()) return it->second == t;
    e[p.op] = t;
    return true;
  }
  if (p.k.size() != t.k.size() || p.op != t.op) return false;
  for (size_t i = 0; i < p.k.size(); i++)
    if (!match(p.k[i], t.k[i], e)) return false;
  return true;
}
static bool intVal(const T& t, int& v)
{
  if (t.k.size() || t.op.empty()) return false;
  size_t i = t.op[0] == '-';
  if (t.op[i] < '0' || t.op[i] > '9') return false;
  v = 0;
  for (; i < t.op.size(); i++) v = v * 10 + (int)sx_conc((unsigned char)t.op[i]) - '0';
  if (t.op[0] == '-') v = -v;
  return true;
}
static T num(int v) { return T{std::to_string(v), {}}; }
static T subst(const T& t, const Env& e)
{
  if (isParam(t))
  {
    auto it = e.find(t.op);
    return it == e.end() ? t : it->second;
  }
  T r{t.op, {}};
  for (const T& c : t.k) r.k.push_back(subst(c, e));
  int a, b;
  if (r.op == "eo::add" && intVal(r.k[0], a) && intVal(r.k[1], b)) return num(a + b);
  if (r.op == "eo::neg" && intVal(r.k[0], a)) return num(-a);
  if (r.op == "eo::gt" && intVal(r.k[0], a) && intVal(r.k[1], b)) return T{a > b ? "true" : "false", {}};
  if (r.op == "eo::requires" && ground(r.k[0]) && !stuck(r.k[0]) && r.k[0] == r.k[1]) return r.k[2];
  return r;
}
// the type of a term; false if it has none
static bool typeOf(const T& t, T& r)
{
  if (t.k.empty())
  {
    if (t.op[0] == '#') r = T{"BV", {num((int)t.op.size() - 2)}};
    else if (t.op[0] >= '0' && t.op[0] <= '9') r = T{"Int", {}};
    else if (t.op == "Int" || t.op == "Bool" || t.op == "Type") r = T{"Type", {}};
    else if (t.op == "true") r = T{"Bool", {}};
    else r = sigs.at(t.op);
    return true;
  }
  if (t.op == "->")
  {
    r = T{"Type", {}};
    return true;
  }
  if (t.op == "as")
  {
    // the instance of the type that the function returns
    T f = sigs.at(t.k[0].op), g = f;
    while (g.op == "->") g = T(g.k[1]);
    Env e;
    if (!match(g, t.k[1], e)) return false;
    r = subst(f, e);
    return true;
  }
  T h;
  if (t.op == "@")
  {
    // the application of a term
    if (!typeOf(t.k[0], h)) return false;
  }
  else h = sigs.at(t.op);
  for (size_t i = t.op == "@"; i < t.k.size(); i++)
  {
    T a;
    Env e;
    if (!typeOf(t.k[i], a)) return false;
    if (h.op == "quote")
    {
      if (!(a == h.k[1])) return false;
      e[h.k[0].op] = t.k[i];
      h = subst(h.k[2], e);
    }
    else
    {
      if (h.op != "->" || !match(h.k[0], a, e)) return false;
      h = subst(h.k[1], e);
    }
    if (ground(h) && stuck(h)) return false;
  }
  r = h;
  return true;
}
static T fn(const std::vector<T>& a)
{
  T r = a.back();
  for (size_t i = a.size() - 1; i-- > 0;) r = T{"->", {a[i], r}};
  return r;
}
static T quote(const str& n, const T& ty, const T& r) { return T{"quote", {T{n, {}}, ty, r}}; }
static str show(const T& t)
{
  if (t.op == "@" || t.op == "quote")
  {
    str r = t.op == "@" ? "(_" : "(";
    for (const T& c : t.k) r += " " + show(c);
    return r + ")";
  }
  if (t.k.empty()) return t.op;
  str r = "(" + t.op;
  for (const T& c : t.k) r += " " + show(c);
  return r + ")";
}
static bool hasQuote(const T& t)
{
  if (t.op == "quote") return true;
  for (const T& c : t.k)
    if (hasQuote(c)) return true;
  return false;
}
static int nDigits;
static str fill(const str& s, unsigned n = 3)
{
  str r;
  for (char c : s)
    if (c == '~')
    {
      str d = symDigits(("digit" + std::to_string(nDigits++)).c_str(), 1);
      sx_assume((unsigned char)d[0] < '0' + n);
      r += d;
    }
    else r += c;
  return r;
}
static T draw(const str& n, const std::vector<const char*>& pool, size_t q, unsigned digits = 3)
{
  size_t c = sx_tier() ? pool.size() : std::min(pool.size(), q);
  return parse(fill(pool[pick(n.c_str(), 5, c)], digits));
}
// the text is accepted
static bool accepts(const str& t, bool sig = true)
{
  Out o = guarded([&]() { W->cmds(t, sig); });
  sx_check(o.kind == SX_RETURN || o.diagnosed(), "neither accepted nor rejected");
  return o.kind == SX_RETURN;
}
static const std::vector<const char*> TYPES = {"Int", "Bool", "(BV 2)", "(Array Int Bool)", "(-> Int Bool)", "Type", "(Array Int Int)"};
static void verify(const T& t, bool others = true)
{
  T ty;
  bool ok = typeOf(t, ty);
  str s = show(t);
  sx_note("term", s.c_str());
  sx_note("type", ok ? show(ty).c_str() : "none");
  if (!ok)
  {
        // contexts that take a term of any type come first
    unsigned c = pick("context", 3, sx_tier() ? 7 : 4);
    static const char* cx[] = {"(assume d1 (eq ", "(step d1 :rule refl :args (", "(define d1 () (id ", "(declare-const d1 (BV ",
                               "(assume d1 ", "(define d1 () (wrap ", "(define d1 () "};
    static const str end[] = {" " + s + "))", "))", ") :type Bool)", "))", ")", ") :type Int)", " :type Int)"};
    sx_check(!accepts(cx[c] + s + end[c]), "an ill-typed application is accepted");
    sx_reach("ill-typed");
    return;
  }
  if (!ground(ty))
  {
    Out o = guarded([&]() {
      Expr e = W->term(s);
      std::stringstream ss;
      ss << W->st->getTypeChecker().getType(e);
      sx_note("type found", ss.str().c_str());
      if (!hasQuote(ty)) sx_check(parse(ss.str()) == parse(show(ty)), "type of a term");
    });
    sx_check(o.kind == SX_RETURN, "a well-typed application is rejected");
    sx_reach("polymorphic");
    return;
  }
  sx_check(accepts("(define d1 () " + s + " :type " + show(ty) + ")"), "a well-typed application is rejected");
  sx_reach("well-typed");
  if (!others) return;
  T u = parse(TYPES[pick("other type", 3, sx_tier() ? 7 : 3)]);
  sx_check(accepts("(define d2 () (id " + s + ") :type " + show(u) + ")") == (u == ty), "a definition has another type");
}
// polymorphic signatures of two arguments
static const std::vector<const char*> ARGT = {"T", "(Array T U)", "Int", "(-> T U)", "(Array T Int)", "U", "(Array U T)", "(-> T T)", "(-> Int U)", "(-> T (-> U Bool))"};
static const std::vector<const char*> RETT = {"(Array U T)", "T", "Bool", "(-> U T)", "(-> T (-> T Bool))", "U"};
static const std::vector<const char*> TERMS = {"~", "a", "g", "p", "(g ~)", "(g p)", "c", "h", "#b0~", "(r2 ~)", "(at a ~)", "(at c)", "Int", "k", "b"};
static bool occurs(const str& n, const T& t)
{
  if (t.op == n) return true;
  for (const T& c : t.k)
    if (occurs(n, c)) return true;
  return false;
}
static void cPoly()
{
  T a = draw("argument type", ARGT, 5), b = draw("argument type 2", ARGT, 3), r = draw("return type", RETT, 2);
  for (const char* n : {"T", "U"}) sx_assume(!occurs(n, r) || occurs(n, a) || occurs(n, b));
  T f = fn({a, b, r});
  W->cmds("(declare-parameterized-const f ((T Type :implicit) (U Type :implicit)) " + show(f) + ")\n");
  sigs["f"] = f;
  sx_note("signature", show(f).c_str());
  T t{"f", {draw("argument", TERMS, 6, 1)}};
  if (pick("arguments", 1, 2)) t.k.push_back(draw("argument 2", TERMS, 4, 1));
  if (pick("more", 1, 2))
  {
    sx_assume(t.k.size() == 2 && (r.op == "->" || pick("extra", 1, 2)));
    t.k.push_back(draw("argument 3", TERMS, 3, 2));
  }
  verify(t, sx_tier());
}
// dependent types
static void cDep()
{
  static const std::vector<const char*> bv = {"#b~", "#b~~", "#b~1~", "bx", "b3", "(cat #b~ #b1)", "(cat bx #b~)", "(ext 1 0 #b~~1)", "1", "(zero 2)"};
  static const std::vector<const char*> ints = {"~", "x", "(s 1)", "p", "#b~", "(ub #b11)", "Int"};
  unsigned k = pick("operator", 4, 10);
  auto bin = [&](const char* n, size_t q) { return draw(n, bv, q, 2); };
  T t;
  switch (k)
  {
    case 0: t = T{"cat", {bin("first", 8), bin("second", 6)}}; break;
    case 1: t = T{"ext", {draw("high", ints, 5, 4), draw("low", ints, 4), bin("vector", 5)}}; break;
    case 2: t = T{"same", {bin("first", 8), bin("second", 6)}}; break;
    case 3: t = T{"zero", {draw("width", ints, 7)}}; break;
    case 4: t = T{"cat", {T{"zero", {draw("width", ints, 3)}}, bin("second", 5)}}; break;
    case 5: t = T{"same", {T{"zero", {draw("width", ints, 3)}}, bin("second", 5)}}; break;
    case 6: t = T{"sized", {draw("width", ints, 5), bin("vector", 6)}}; break;
    case 7: t = T{"eqt", {draw("type", TYPES, 5), bin("first", 4), draw("second", TERMS, 3)}}; break;
    case 8: t = T{"mk", {draw("type", TYPES, 6), draw("argument", TERMS, 4)}}; break;
    default: t = T{"cat", {T{"cat", {bin("first", 3), bin("second", 4)}}, bin("third", 4)}};
  }
  verify(t, sx_tier() || k == 3 || k == 8);
}
// ambiguous functions and opaque arguments
static void cAs()
{
  static const std::vector<const char*> ty = {"(Set Int)", "(Set Bool)", "Int", "(Set (Set Int))", "(Array Int Bool)", "(BV 2)", "(-> Int (Set Int))"};
  unsigned k = pick("operator", 3, 7);
  T s = draw("type", ty, 5), t;
  auto as = [&](const char* f) { return T{"as", {T{f, {}}, s}}; };
  switch (k)
  {
    case 0: t = as("empty"); break;
    case 1: t = T{"union", {as("empty"), T{"as", {T{"empty", {}}, draw("type 2", ty, 4)}}}}; break;
    case 2: t = T{"@", {as("amb"), draw("argument", TERMS, 6)}}; break;
    case 3: t = T{"member", {draw("argument", TERMS, 5), as("empty")}}; break;
    case 4: t = T{"diff", {draw("array", TERMS, 8), draw("array 2", TERMS, 8)}}; break;
    case 5: t = T{"purify", {draw("function", TERMS, 8), draw("argument", TERMS, 6)}}; break;
    default: t = T{"member", {draw("argument", TERMS, 2), T{"@", {as("amb"), draw("argument 2", TERMS, 4)}}}}; break;
  }
  verify(t, sx_tier());
}
// everywhere a term occurs
static void cWhere()
{
  static const std::vector<const char*> fs = {"P", "s", "eq", "at", "g", "p", "r2", "k"};
  auto app = [&](const str& n, size_t q) {
    T t{draw(n + " function", fs, q).op, {}};
    unsigned c = 1 + pick((n + " arguments").c_str(), 1, 2);
    for (unsigned i = 0; i < c; i++) t.k.push_back(draw(n + " argument" + std::to_string(i), TERMS, i ? 4 : 6, 1));
    return t;
  };
  T t = app("term", 6);
  if (pick("nested", 1, 2)) t = T{draw("outer", fs, 4).op, {t}};
  T ty;
  bool ok = typeOf(t, ty), isBool = ok && ty == T{"Bool", {}}, isInt = ok && ty == T{"Int", {}};
  str s = show(t);
  sx_note("term", s.c_str());
  sx_note("type", ok ? show(ty).c_str() : "none");
  static const struct { const char *a, *b; int want; } cx[] = {
      {"(assume d1 ", ")", 1},
      {"(step d1 :rule refl :args (", "))", 0},
      {"(step d1 :rule id1 :args (", "))", 1},
      {"(declare-const d1 (BV ", "))", 2},
      {"(assume-push d1 ", ")", 1},
      {"(assume d1 (and ", " true))", 1},
      {"(assume d1 (P ", "))", 2},
      {"(assume d1 (forall ((z Int)) ", "))", 1},
      {"(assume d1 (let ((z ", ")) (P z)))", 2},
      {"(define d1 () ", " :type Int)", 2},
      {"(assume d1 (or true ", "))", 1},
      {"(assume d1 (distinct 1 ", "))", 2},
      {"(step d1 (= true ", ") :rule eqt1)", 3},
      {"(assume d1 (and true true ", "))", 1},
      {"(assume d1 (twice ", "))", 1},
  };
  for (auto& c : cx)
  {
    bool want = c.want == 0 ? ok && ground(ty) : c.want == 1 ? isBool : c.want == 2 ? isInt : t == T{"?", {}};
    if (c.want == 0 && ok && !ground(ty)) continue;
    if (c.want == 3) continue;
    bool got = accepts(c.a + s + c.b, !strstr(c.a, "let"));
    if (got != want) sx_note("context", c.a);
    sx_check(got == want, want ? "a well-typed term is rejected" : "an ill-typed term is accepted");
  }
  sx_reach(ok ? "well-typed occurrence" : "ill-typed occurrence");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World([](Options& o) { o.d_printDag = false; });
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Array (-> Type Type Type)) (declare-const Set (-> Type Type))"
          "(declare-const BV (-> Int Type)) (declare-consts <binary> (BV (eo::len eo::self)))"
          "(declare-const x Int) (declare-const p Bool) (declare-const a (Array Int Bool)) (declare-const b (Array Bool Int)) (declare-const c (Array Int Int))"
          "(declare-const g (-> Int Bool)) (declare-const h (-> Int Int)) (declare-const k (-> (-> Int Bool) Bool)) (declare-const P (-> Int Bool)) (declare-const s (-> Int Int)) (declare-const r2 (-> Int Int Bool))"
          "(declare-const bx (BV x)) (declare-const b3 (BV 3)) (declare-const ub (-> (BV 2) Int))"
          "(declare-parameterized-const eq ((T Type :implicit)) (-> T T Bool))"
          "(declare-parameterized-const wrap ((T Type :implicit)) (-> T Int))"
          "(declare-parameterized-const id ((T Type :implicit)) (-> T T))"
          "(declare-parameterized-const at ((T Type :implicit) (U Type :implicit)) (-> (Array T U) T U))"
          "(declare-parameterized-const cat ((N Int :implicit) (M Int :implicit)) (-> (BV N) (BV M) (BV (eo::add N M))))"
          "(declare-parameterized-const ext ((N Int :implicit) (h Int) (l Int)) (-> (BV N) (eo::requires (eo::gt N h) true (BV (eo::add (eo::neg l) (eo::add h 1))))))"
          "(declare-parameterized-const same ((N Int :implicit)) (-> (BV N) (BV N) Bool))"
          "(declare-parameterized-const zero ((N Int)) (BV N))"
          "(declare-parameterized-const sized ((N Int)) (-> (BV N) (BV (eo::add N N))))"
          "(declare-parameterized-const eqt ((T Type)) (-> T T Bool))"
          "(declare-parameterized-const mk ((T Type)) (-> T (Array T T)))"
          "(declare-parameterized-const empty ((T Type :implicit)) (Set T))"
          "(declare-parameterized-const amb ((T Type :implicit)) (-> Int (Set T)))"
          "(declare-parameterized-const union ((T Type :implicit)) (-> (Set T) (Set T) (Set T)))"
          "(declare-parameterized-const member ((T Type :implicit)) (-> T (Set T) Bool))"
          "(declare-parameterized-const diff ((T Type :implicit) (U Type :implicit) (t (Array T U) :opaque) (u (Array T U) :opaque)) T)"
          "(declare-parameterized-const purify ((f (-> Int Int) :opaque)) (-> Int Int))"
          "(declare-const and (-> Bool Bool Bool) :right-assoc-nil true) (declare-const or (-> Bool Bool Bool) :left-assoc)"
          "(declare-parameterized-const distinct ((T Type :implicit)) (-> T T Bool) :pairwise and)"
          "(declare-const @cons (-> eo::List Bool Bool)) (declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)"
          "(define twice ((B Bool)) (and B B))"
          "(declare-rule refl ((T Type) (t T)) :args (t) :conclusion (eq t t))"
          "(declare-rule id1 ((B Bool)) :args (B) :conclusion B)\n");
  T I{"Int", {}}, B{"Bool", {}}, Ty{"Type", {}}, A{"T", {}}, U{"U", {}}, N{"N", {}}, M{"M", {}};
  auto ap = [](const char* f, std::vector<T> k) { return T{f, k}; };
  sigs = {{"x", I}, {"p", B}, {"a", ap("Array", {I, B})}, {"b", ap("Array", {B, I})}, {"c", ap("Array", {I, I})}, {"g", fn({I, B})}, {"h", fn({I, I})},
          {"k", fn({fn({I, B}), B})}, {"P", fn({I, B})}, {"s", fn({I, I})}, {"r2", fn({I, I, B})}, {"bx", ap("BV", {T{"x", {}}})}, {"b3", ap("BV", {num(3)})},
          {"ub", fn({ap("BV", {num(2)}), I})}, {"eq", fn({A, A, B})}, {"id", fn({A, A})}, {"at", fn({ap("Array", {A, U}), A, U})},
          {"cat", fn({ap("BV", {N}), ap("BV", {M}), ap("BV", {ap("eo::add", {N, M})})})}, {"same", fn({ap("BV", {N}), ap("BV", {N}), B})},
          {"zero", quote("N", I, ap("BV", {N}))}, {"sized", quote("N", I, fn({ap("BV", {N}), ap("BV", {ap("eo::add", {N, N})})}))},
          {"eqt", quote("T", Ty, fn({A, A, B}))}, {"mk", quote("T", Ty, fn({A, ap("Array", {A, A})}))}, {"empty", ap("Set", {A})}, {"amb", fn({I, ap("Set", {A})})},
          {"union", fn({ap("Set", {A}), ap("Set", {A}), ap("Set", {A})})}, {"member", fn({A, ap("Set", {A}), B})},
          {"diff", fn({ap("Array", {A, U}), ap("Array", {A, U}), A})}, {"purify", fn({fn({I, I}), I, I})},
          {"Array", fn({Ty, Ty, Ty})}, {"Set", fn({Ty, Ty})}, {"BV", fn({I, Ty})}};
  // h and l of ext are the parameters M and U here
  sigs["ext"] = quote("M", I, quote("U", I, fn({ap("BV", {N}), ap("eo::requires", {ap("eo::gt", {N, M}), T{"true", {}}, ap("BV", {ap("eo::add", {ap("eo::neg", {U}), ap("eo::add", {M, num(1)})})})})})));
}
void (*sx_setup)() = setup;
CASES({"poly", cPoly}, {"dep", cDep}, {"as", cAs}, {"where", cWhere});
