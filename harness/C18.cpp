// C18: binders and let denote their variables and bodies exactly
#include "terms.h"

typedef std::vector<std::pair<str, T>> Env;
static T global(const str& n) { return n == "z" ? T{"", {}} : T{n == "x" ? "gx" : n, {}}; }
static bool bad;  // an unbound name was used
static T lookup(const Env& e, const str& n)
{
  for (size_t i = e.size(); i-- > 0;)
    if (e[i].first == n) return e[i].second;
  T g = global(n);
  if (g.op.empty()) bad = true;
  return g;
}
static T var(const str& n, const str& ty)
{
  // types that mention the parameter T are instantiated with Int
  str t = ty;
  size_t i = t.find('T');
  if (i != str::npos) t.replace(i, 1, "Int");
  return T{"(eo::var \"" + n + "\" " + t + ")", {}};
}
static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : 4;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static std::vector<str> names = {"x", "z"}, types = {"Int", "Bool"};
struct G
{
  str text;
  T t;
};
static T list(const std::vector<T>& v)
{
  T r{"eo::List::nil", {}};
  for (size_t i = v.size(); i-- > 0;) r = T{"eo::List::cons", {v[i], r}};
  return r;
}
// allowed: bit 0 binders, 1 let, 2 let-binders
static int kinds = 3;
static str letWord = "let";
static G gen(int depth, const Env& e);
static G leaf(const Env& e)
{
  unsigned k = choose(names.size());
  return {names[k], lookup(e, names[k])};
}
static G quant(int depth, const Env& e, unsigned n)
{
  Env b = e;
  std::vector<T> vars;
  str vl;
  str q = n == 2 ? "exists" : "forall";
  for (unsigned i = 0; i < n; i++)
  {
    str m = names[choose(names.size())], ty = types[i && !sx_tier() ? 0 : choose(types.size())];
    T v = var(m, ty);
    vl += "(" + m + " " + ty + ")";
    vars.push_back(v);
    b.push_back({m, v});
  }
  G g = gen(depth - 1, b);
  return {"(" + q + " (" + vl + ") " + g.text + ")", T{q, {list(vars), g.t}}};
}
static G let(int depth, const Env& e, unsigned n)
{
  Env b = e;
  str bl;
  for (unsigned i = 0; i < n; i++)
  {
    str m = names[choose(names.size())];
    G v = depth > 1 && !i ? gen(0, e) : leaf(e);
    if (depth > 1 && choose(2)) v = {"(P " + v.text + ")", T{"P", {v.t}}};
    bl += "(" + m + " " + v.text + ")";
    b.push_back({m, v.t});
  }
  G g = gen(depth - 1, b);
  return {"(" + letWord + " (" + bl + ") " + g.text + ")", g.t};
}
static G gen(int depth, const Env& e)
{
  if (depth == 0) return leaf(e);
  unsigned k = choose(kinds == 3 ? 6 : 4);
  if (k == 0)
  {
    G a = gen(depth > 1 ? 0 : depth - 1, e), b = gen(depth - 1, e);
    return {"(tup " + b.text + " " + a.text + ")", T{"tup", {b.t, a.t}}};
  }
  if (k == 1)
  {
    G a = leaf(e);
    return {"(P " + a.text + ")", T{"P", {a.t}}};
  }
  if (k < 4) return (kinds & 1) ? quant(depth, e, k - 1) : let(depth, e, k - 1);
  return let(depth, e, k - 3);
}
// the environment is as it was
static void restored()
{
  sx_check(W->term("x") == W->term("gx"), "a binding is visible outside of its body");
  Out o = guarded([&]() { W->term("z"); });
  sx_check(o.diagnosed(), "a bound name is visible outside of its body");
}
static void same(const G& g, bool sig)
{
  sx_note("term", g.text.c_str());
  sx_note("expected", text(g.t).c_str());
  Expr e;
  Out o = guarded([&]() { e = W->term(g.text, sig); });
  if (bad)
  {
    sx_check(o.diagnosed(), "a name that is not bound is accepted");
    sx_reach("unbound");
    return;
  }
  sx_check(o.kind == SX_RETURN, "a binder or let is rejected");
  sx_check(e == build(g.t), "denotation of a term with bindings");
  restored();
  sx_reach("bound");
}
static void cNested()
{
  letWord = "let";
  same(gen(sx_tier() ? 3 : 2, {}), false);
}
static void cDefine()
{
  kinds = 0;
  letWord = "eo::define";
  same(gen(sx_tier() ? 3 : 2, {}), true);
}
// three and more bindings at once
static void cWide()
{
  names = {"x", "z", "c"};
  unsigned what = choose(4);  // let, eo::define, binder, let-binder
  unsigned n = 3 + (sx_tier() ? choose(2) : 0);
  Env b;
  str bl;
  std::vector<T> l;
  for (unsigned i = 0; i < n; i++)
  {
    str m = names[i == 1 && !sx_tier() ? choose(2) : choose(3)];
    T v;
    if (what == 2)
    {
      unsigned y = i == 1 ? 0 : choose(2);
      v = var(m, types[y]);
      bl += "(" + m + " " + types[y] + ")";
      l.push_back(v);
    }
    else
    {
      G g = leaf({});
      sx_assume(!bad || what < 2);
      if (what == 3)
      {
        v = var(m, "Int");
        l.push_back(T{"pair", {v, g.t}});
      }
      else v = g.t;
      bl += "(" + m + " " + g.text + ")";
      if (bad) { l.clear(); }
    }
    b.push_back({m, v});
  }
  G g = leaf(b);
  static const char* w[] = {"let", "eo::define", "exists", "mylet"};
  G t{"(" + str(w[what]) + " (" + bl + ") " + (what < 2 ? g.text : "(P " + g.text + ")") + ")", g.t};
  if (what > 1) t.t = T{w[what], {list(l), T{"P", {g.t}}}};
  same(t, what > 0);
  sx_reach("wide");
}
// variables whose types mention parameters, in definitions, programs and rules
static void cTypes()
{
  types = {"T", "Int", "(Set T)", "(-> T Bool)"};
  names = {"x", "z", "t"};
  letWord = "eo::define";
  unsigned where = pick("where", 2, 3);
  // t is the argument: a constant, or a variable
  static const char* args[] = {"c", "(eo::var \"z\" Int)", "(eo::var \"t\" Int)"};
  str a = args[pick("argument", 2, 3)];
  G g = gen(sx_tier() ? 2 : 1, {{"t", T{a, {}}}});
  sx_assume(!bad);
  str b = g.text;
  sx_note("body", b.c_str());
  sx_note("argument", a.c_str());
  Expr e;
  Out o = guarded([&]() {
    if (where == 0)
    {
      W->cmds("(define d ((T Type) (t T)) " + b + ")\n");
      e = W->term("(d Int " + a + ")");
    }
    else if (where == 1)
    {
      W->cmds("(program $p ((T Type) (t T)) :signature (Type T) Bool ((($p T t) " + b + ")))\n");
      e = W->term("($p Int " + a + ")");
    }
    else
    {
      W->cmds("(declare-rule r ((T Type) (t T)) :args (T t) :conclusion (is " + b + "))\n(step s :rule r :args (Int " + a + "))\n");
      e = W->st->getVar("s")[0];
      Expr c = e[1];
      e = c;
    }
  });
  if (o.kind != SX_RETURN && where == 2)
  {
    // the conclusion may be ill-typed
    sx_reach("ill-typed rule");
    return;
  }
  sx_check(o.kind == SX_RETURN, "a binder is rejected");
  sx_check(e == build(g.t), "denotation of a term with bindings of parametric type");
  restored();
  sx_reach("parametric");
}
// let-binders: variables and their definitions are both kept
static void cLetBinder()
{
  letWord = "eo::define";
  unsigned n = 1 + pick("bindings", 1, 2);
  bool par = pick("parametric", 1, 2);
  static const char* vals[] = {"c", "x", "(P c)", "(s c)", "t"};
  static const char* tys[] = {"Int", "Int", "Bool", "Int", "Int"};
  Env b;
  if (par) b.push_back({"t", T{"c", {}}});
  str bl;
  std::vector<T> l;
  std::vector<std::pair<str, T>> add;
  for (unsigned i = 0; i < n; i++)
  {
    str m = names[choose(2)];
    unsigned k = choose(i && !sx_tier() ? 2 : par ? 5 : 4);
    T v = var(m, tys[k]);
    bl += "(" + m + " " + vals[k] + ")";
    T d = k == 0 || k == 4 ? T{"c", {}} : k == 1 ? T{"gx", {}} : T{k == 2 ? "P" : "s", {T{"c", {}}}};
    l.push_back(T{"pair", {v, d}});
    add.push_back({m, v});
  }
  b.insert(b.end(), add.begin(), add.end());
  G g = gen(1, b);
  sx_assume(!bad);
  str t = "(mylet (" + bl + ") " + g.text + ")";
  T want{"mylet", {list(l), g.t}};
  sx_note("term", t.c_str());
  sx_note("expected", text(want).c_str());
  Expr e;
  Out o = guarded([&]() {
    if (par)
    {
      W->cmds("(define d ((T Type) (t T)) " + t + ")\n");
      e = W->term("(d Int c)");
    }
    else e = W->term(t);
  });
  sx_check(o.kind == SX_RETURN, "a let-binder is rejected");
  sx_check(e == build(want), "denotation of a let-binder");
  restored();
  sx_reach("let-binder");
}
// equality of bound terms is that of names and types
static void cSame()
{
  unsigned la = 1 + (sx_tier() ? pick("length", 1, 2) : 0), lb = 1 + (sx_tier() ? pick("length 2", 1, 2) : 0);
  auto name = [&](const char* n, unsigned l) {
    str s = symBytes(n, l);
    for (unsigned char c : s) sx_assume((c >= ' ') & (c < 127) & (c != '|') & (c != '\\'));
    return s;
  };
  str a = name("name", la), b = name("name 2", lb);
  static const char* ty[] = {"Int", "Bool", "(Set Int)", "(-> Int Bool)"};
  unsigned s = choose(sx_tier() ? 4 : 2), t = choose(4);
  auto q = [&](const str& n, unsigned y) { return "(forall ((|" + n + "| " + ty[y] + ")) (tup |" + n + "| c))"; };
  sx_note("terms", (q(a, s) + " " + q(b, t)).c_str());
  Out o = guarded([&]() {
    Expr e = W->term(q(a, s)), f = W->term(q(b, t));
    bool eq = s == t && a == b;
    sx_check((e == f) == eq, "bound terms are the same iff their names and types are");
    Expr v = e[1][0][1];
    sx_check(isKind(v, Kind::VARIABLE) && W->st->getTypeChecker().getType(v) == W->term(ty[s]), "type of a bound variable");
    sx_check(W->term("(forall (eo::List::cons (eo::var \"" + (a.find('"') == str::npos ? a : a == "\"" ? str("\"\"") : str("?")) + "\" " + ty[s] + ")) c)")[0][1] == e[0][1] || a.find('"') != str::npos,
             "an explicit variable list");
    sx_reach(eq ? "same" : "different");
  });
  sx_check(o.kind == SX_RETURN, "a binder is rejected");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World();
  W->cmds("(declare-const Int Type) (declare-const Set (-> Type Type)) (declare-const x Int) (define gx () x) (declare-const c Int) (declare-const P (-> Int Bool)) (declare-const s (-> Int Int))"
          "(declare-parameterized-const tup ((T Type :implicit) (U Type :implicit)) (-> T U Bool)) (declare-parameterized-const is ((T Type :implicit)) (-> T Bool))"
          "(declare-const Pair (-> Type Type Type)) (declare-parameterized-const pair ((T Type :implicit) (U Type :implicit)) (-> T U (Pair T U)))"
          "(declare-parameterized-const mylet ((T Type :implicit)) (-> eo::List T T) :let-binder (pair eo::List::cons))"
          "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons) (declare-const exists (-> eo::List Bool Bool) :binder eo::List::cons)\n");
}
void (*sx_setup)() = setup;
CASES({"nested", cNested}, {"define", cDefine}, {"wide", cWide}, {"types", cTypes}, {"letbinder", cLetBinder}, {"same", cSame});
