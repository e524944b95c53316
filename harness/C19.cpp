// C19: definitions are transparent macros
#include "terms.h"

typedef std::vector<std::pair<str, T>> Env;
static unsigned nPick, nDigits;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : 5;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static str fill(const str& s, unsigned n = 2)
{
  str r;
  for (char c : s)
    if (c == '~')
    {
      str d = symDigits(("digit" + std::to_string(nDigits++)).c_str(), 1);
      sx_assume((unsigned char)d[0] < '0' + n);
      r += d;
    }
    else r += c;
  return r;
}
static T form(const std::vector<const char*>& p, size_t q)
{
  return parse(fill(p[choose(sx_tier() ? p.size() : std::min(q, p.size()))]));
}
// replace the names, except where a binder or let hides them
static T subst(const T& t, const Env& e)
{
  if (t.k.empty())
  {
    for (size_t i = e.size(); i-- > 0;)
      if (e[i].first == t.op) return e[i].second;
    return t;
  }
  T r{t.op, {}};
  for (auto& p : e)
    if (p.first == t.op && t.op != "f")
    {
      // the head of an application
      T h = p.second;
      r = h.k.empty() ? T{h.op, {}} : T{"_", {h}};
    }
  for (const T& c : t.k) r.k.push_back(subst(c, e));
  return r;
}
// as a user would write it
static str plain(const T& t)
{
  if (t.k.empty()) return t.op;
  str r = "(" + t.op;
  for (const T& c : t.k) r += " " + plain(c);
  return r + ")";
}
// the bodies mention the parameters x and y, and globals of any name
static const std::vector<const char*> BODIES = {"(f x y)", "(f y x)", "(f y y)", "(f (f x y) x)", "y", "(eo::add x y)", "(or (P x) (P y) true)", "(eo::ite (eo::eq x y) (f x c) (P y))", "(f c d)",
                                               "(eo::define ((z (f x y))) (f z x))", "(eo::define ((x y) (y x)) (f x y))", "($sw x y)", "(f (h x) (h (h y)))", "(eo::is_ok (eo::add x y))", "(chain x y x)",
                                               "(eo::cons or (P x) (or (P y) true))", "(eo::requires x y (f x y))", "(-> x y)", "(P ($sw (eo::add x 1) y))", "(eo::list_len or (or (P x) (P y)))"};
static const std::vector<const char*> ARGS = {"~", "c", "(f ~ c)", "vx", "vy", "x", "(eo::neg c)", "($sw ~ c)", "P", "Int", "(k0 ~)", "\"~\"", "#b0~"};
// the macro written in full
static str expand(const str& body, const str& a, const str& b)
{
  // textual replacement of x and y, and of a let that hides them
  T t = parse(body);
  if (body.find("eo::define") != str::npos)
  {
    if (body.find("((x y)") != str::npos) return "(f " + b + " " + a + ")";
    return "(f (f " + a + " " + b + ") " + a + ")";
  }
  return plain(subst(t, {{"x", parse(a)}, {"y", parse(b)}}));
}
static void verify(const str& got, const str& want)
{
  sx_note("macro", got.c_str());
  sx_note("expansion", want.c_str());
  Out o = guarded([&]() {
    Expr e = W->term(want), g = W->term(got);
    sx_check(g == e, "a definition is not its expansion");
  });
  sx_check(o.kind == SX_RETURN, "a definition is rejected");
  sx_reach("expanded");
}
static str atom(const T& t) { return plain(t); }
static void cDirect()
{
  str body = fill(BODIES[choose(BODIES.size())]);
  sx_note("body", body.c_str());
  str a = atom(form(ARGS, 9)), b = atom(form(ARGS, 6));
  W->cmds("(define d2 ((x Int) (y Int)) " + body + ")\n");
  verify("(d2 " + a + " " + b + ")", expand(body, a, b));
}
// through other definitions, whose parameters have the same names
static void cThrough()
{
  str body = fill(BODIES[choose(sx_tier() ? BODIES.size() : 16)]);
  sx_note("body", body.c_str());
  str a = atom(form(ARGS, 4)), b = atom(form(ARGS, 4));
  W->cmds("(define d2 ((x Int) (y Int)) " + body + ")\n");
  unsigned k = choose(8);
  str d, want;
  switch (k)
  {
    case 0: d = "(define e ((y Int) (x Int)) (d2 y x))"; want = expand(body, a, b); break;
    case 1: d = "(define e ((y Int) (x Int)) (d2 x y))"; want = expand(body, b, a); break;
    case 2: d = "(define e ((x Int) (y Int)) (d2 (f y x) x))"; want = expand(body, "(f " + b + " " + a + ")", a); break;
    case 3: d = "(define e () d2)"; want = expand(body, a, b); break;
    case 4: d = "(define e ((z Int) (x Int)) (f (d2 x z) (d2 z x)))"; want = "(f " + expand(body, b, a) + " " + expand(body, a, b) + ")"; break;
    case 5: d = "(program $e ((x Int) (y Int)) :signature (Int Int) Int ((($e x y) (d2 y x))))"; want = expand(body, b, a); break;
    case 6: d = "(define d2 ((x Int)) (d2 x x))"; want = expand(body, a, a); break;
    default: d = "(define e ((x Int) (y Int)) (eo::define ((x y) (z x)) (d2 x z)))"; want = expand(body, b, a);
  }
  // the program does not apply to what does not evaluate
  sx_assume(k != 5 || (a.find("eo::") == str::npos && b.find("eo::") == str::npos && a.find('$') == str::npos && a.find('x') != 0 && b.find('x') != 0));
  W->cmds(d + "\n");
  sx_note("definition", d.c_str());
  verify(k == 5 ? "($e " + a + " " + b + ")" : k == 6 ? "(d2 " + a + ")" : "(e " + a + " " + b + ")", want);
}
// parameters that are functions, types or lists; implicit and repeated parameters
static void cParams()
{
  unsigned k = choose(sx_tier() ? 12 : 12);
  str a = atom(form(ARGS, 6)), b = atom(form(ARGS, 4));
  struct { const char* d; str got, want; } c[] = {
      {"(define e ((g (-> Int Int Int)) (x Int)) (g x c))", "(e f " + a + ")", "(f " + a + " c)"},
      {"(define e ((g (-> Int Int)) (x Int)) (g (g x)))", "(e (f " + b + ") " + a + ")", "(_ (f " + b + ") (_ (f " + b + ") " + a + "))"},
      {"(define e ((o (-> Bool Bool Bool))) (o true false))", "(e or)", "(_ or true false)"},
      {"(define e ((T Type) (t T)) (eq T t))", "(e Int " + a + ")", "(eq Int " + a + ")"},
      {"(define e ((T Type :implicit) (t T)) (f t t))", "(e " + a + ")", "(f " + a + " " + a + ")"},
      {"(define e ((xs Bool :list) (x Bool)) (or x xs))", "(e (or (P " + a + ") (P c)) (P " + b + "))", "(or (P " + b + ") (P " + a + ") (P c))"},
      {"(define e ((x Int) (x Int)) (f x c))", "(e " + a + " " + b + ")", "(f " + b + " c)"},
      {"(define e ((f Int)) (P f))", "(e " + a + ")", "(P " + a + ")"},
      {"(define e ((e Int)) (P e))", "(e " + a + ")", "(P " + a + ")"},
      {"(define e ((x Int) (z Int)) (forall ((y Int)) (Q x y z)))", "(e " + a + " " + b + ")", "(forall ((y Int)) (Q " + a + " y " + b + "))"},
      {"(define e ((x Int) (z Int)) (forall ((x Int)) (Q x x z)))", "(e " + a + " " + b + ")", "(forall ((x Int)) (Q x x " + b + "))"},
      {"(define e () (f c c))", "(eo::define ((z e)) (f z " + a + "))", "(f (f c c) " + a + ")"},
  };
  W->cmds(str(c[k].d) + "\n");
  sx_note("definition", c[k].d);
  // in a binder, x is the variable
  bool clash = k == 10 && (b == "x");
  sx_assume(!clash && !(k == 9 && false));
  verify(c[k].got, c[k].want);
}
// sorts, and constants of a reference
static void cSorts()
{
  unsigned k = choose(5);
  static const std::vector<const char*> S = {"Int", "(Arr Int Bool)", "(-> Int Bool)", "Bool", "(Arr (Arr Int Int) Bool)", "Type"};
  str a = atom(form(S, 6)), b = atom(form(S, 6));
  struct { const char* d; str got, want; } c[] = {
      {"(define-sort S (A B) (Arr B A))", "(S " + a + " " + b + ")", "(Arr " + b + " " + a + ")"},
      {"(define-sort S (A B) (Arr B (Arr A B)))", "(S " + a + " " + b + ")", "(Arr " + b + " (Arr " + a + " " + b + "))"},
      {"(define-sort S () (Arr Int Bool))", "(Arr S " + a + ")", "(Arr (Arr Int Bool) " + a + ")"},
      {"(define-sort S (A) (-> A Int A))", "(S " + a + ")", "(-> " + a + " Int " + a + ")"},
      {"(define-sort S (A) A)", "(Arr (S " + a + ") (S " + b + "))", "(Arr " + a + " " + b + ")"},
  };
  Out o = guarded([&]() {
    Parser* p = new Parser(*W->st, false, true);
    p->setStringInput(str(c[k].d) + "\n");
    while (p->parseNextCommand()) {}
  });
  sx_check(o.kind == SX_RETURN, "a definition is rejected");
  sx_note("definition", c[k].d);
  verify(c[k].got, c[k].want);
  sx_reach("sort");
}
// other numbers of arguments are not expanded
static void cNumber()
{
  str body = BODIES[choose(5)];
  W->cmds("(define d2 ((x Int) (y Int)) " + body + ")\n(define d1 ((x Int)) (f x))\n");
  str a = atom(form(ARGS, 5)), b = atom(form(ARGS, 3));
  unsigned k = choose(3);
  str t = k == 0 ? "(d2 " + a + ")" : k == 1 ? "(d2 " + a + " " + b + " c)" : "d2";
  sx_note("term", t.c_str());
  Out o = guarded([&]() {
    Expr e = W->term(t), d = W->term("d2");
    sx_check(isKind(d, Kind::LAMBDA), "a definition with parameters");
    std::vector<T> none;
    Expr want = d;
    std::vector<str> as = k == 0 ? std::vector<str>{a} : k == 1 ? std::vector<str>{a, b, "c"} : std::vector<str>{};
    for (const str& s : as)
    {
      Expr c = W->term(s);
      want = Expr(W->st->mkExprInternal(Kind::APPLY, {want.getValue(), c.getValue()}));
    }
    sx_check(e == want, "a definition with another number of arguments");
  });
  sx_check(o.kind == SX_RETURN || o.diagnosed(), "neither a term nor a diagnosis");
  // too many arguments are never well typed
  if (k == 1)
  {
    o = guarded([&]() { W->cmds("(assume a1 " + t + ")\n"); });
    sx_check(o.diagnosed(), "too many arguments are accepted");
  }
  sx_reach("other number");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World();
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-consts <string> Int) (declare-consts <binary> Int) (declare-const Arr (-> Type Type Type))"
          "(declare-const c Int) (declare-const d Int) (declare-const f (-> Int Int Int)) (declare-const x Int) (declare-const P (-> Int Bool)) (declare-const Q (-> Int Int Int Bool)) (declare-const h (-> Int Int)) (declare-const k0 (-> Int Int))"
          "(define vx () (eo::var \"x\" Int)) (define vy () (eo::var \"y\" Int))"
          "(declare-parameterized-const eq ((T Type)) (-> T Bool))"
          "(declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const chain (-> Int Int Bool) :chainable or)"
          "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)"
          "(program $sw ((N Int) (M Int)) :signature (Int Int) Int ((($sw N M) (f M N))))\n");
}
void (*sx_setup)() = setup;
CASES({"direct", cDirect}, {"through", cThrough}, {"params", cParams}, {"sorts", cSorts}, {"number", cNumber});
