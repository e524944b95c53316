// C12: programs evaluate by the first matching case under a consistent substitution
#include "terms.h"

typedef std::vector<std::pair<str, T>> Env;
// parameters are upper case
static bool isParam(const str& s) { return s[0] >= 'A' && s[0] <= 'Z'; }
static const T* lookup(const Env& e, const str& n)
{
  for (auto& p : e)
    if (p.first == n) return &p.second;
  return nullptr;
}
static bool bindTo(const str& n, const T& t, Env& e)
{
  if (const T* o = lookup(e, n)) return *o == t;
  e.push_back({n, t});
  return true;
}
static bool match(const T& p, const T& t, Env& e)
{
  if (p.k.empty())
    return isParam(p.op) ? bindTo(p.op, t, e) : p.op.size() == t.op.size() && t.k.empty() && p.op == t.op;
  if (t.k.empty()) return false;
  // one argument at a time
  T pf{p.op, {p.k.begin(), p.k.end() - 1}}, tf{t.op, {t.k.begin(), t.k.end() - 1}};
  return match(pf, tf, e) && match(p.k.back(), t.k.back(), e);
}
static T subst(const T& p, const Env& e)
{
  T r{p.op, {}};
  if (isParam(p.op)) r = *lookup(e, p.op);
  for (const T& c : p.k) r.k.push_back(subst(c, e));
  return r;
}
struct Program
{
  str name;
  std::vector<std::pair<T, T>> cases;
};
static std::vector<Program> progs;
static bool stuck(const T& t)
{
  if (t.op[0] == '$' || t.op.compare(0, 4, "eo::") == 0) return true;
  for (const T& c : t.k)
    if (stuck(c)) return true;
  return false;
}
static int fuel;
static bool digitVal(const T& t, int& v)
{
  if (!t.k.empty() || t.op[0] < '0' || t.op[0] > '9') return false;
  v = 0;
  for (char c : t.op) v = v * 10 + (int)sx_conc((unsigned char)c) - '0';
  return true;
}
static T eval(const T& t);
static T call(const T& r)
{
  if (--fuel < 0) return r;
  for (const T& c : r.k)
    if (stuck(c)) return r;
  for (const Program& p : progs)
  {
    if (p.name != r.op) continue;
    for (auto& c : p.cases)
    {
      Env e;
      bool ok = c.first.k.size() == r.k.size();
      for (size_t i = 0; ok && i < r.k.size(); i++) ok = match(c.first.k[i], r.k[i], e);
      if (ok) return eval(subst(c.second, e));
    }
  }
  return r;
}
static T eval(const T& t)
{
  if (t.op == "eo::ite")
  {
    T c = eval(t.k[0]);
    if (c.op == "true" && c.k.empty()) return eval(t.k[1]);
    if (c.op == "false" && c.k.empty()) return eval(t.k[2]);
    return T{t.op, {c, eval(t.k[1]), eval(t.k[2])}};
  }
  T r{t.op, {}};
  for (const T& c : t.k) r.k.push_back(eval(c));
  int a, b;
  if (t.op == "eo::add")
  {
    if (digitVal(r.k[0], a) && digitVal(r.k[1], b)) return T{std::to_string(a + b), {}};
    return r;
  }
  if (t.op == "eo::eq")
  {
    if (!stuck(r.k[0]) && !stuck(r.k[1])) return T{r.k[0] == r.k[1] ? "true" : "false", {}};
    return r;
  }
  return r.op[0] == '$' ? call(r) : r;
}
// ------------------------------------------------------------------- inputs
static int nDigits;
static str digit(unsigned n = 2)
{
  str d = symDigits(("digit" + std::to_string(nDigits++)).c_str(), 1);
  sx_assume((unsigned char)d[0] < '0' + n);
  return d;
}
// replaces every # by a symbolic digit
static str fill(const str& s, unsigned n = 2)
{
  str r;
  for (char c : s)
    if (c == '#') r += digit(n);
    else r += c;
  return r;
}
static const char* PARAMS = "((X Int) (Y Int) (F (-> Int Int)) (B Bool) (C Bool :list) (U Bool) (T Type) (Z T))";
static str source(const Program& p, const char* sig)
{
  str s = "(program " + p.name + " " + PARAMS + " :signature " + sig;
  if (p.cases.size())
  {
    s += " (";
    for (auto& c : p.cases)
    {
      str l = text(c.first), r = text(c.second);
      // the sugared list patterns
      s += "(" + l + " " + r + ")";
    }
    s += ")";
  }
  return s + ")\n";
}
static void evaluates(const T& t)
{
  fuel = 60;
  T want = eval(t);
  if (fuel < 0) { sx_done(); return; }
  sx_note("term", text(t).c_str());
  sx_note("expected", text(want).c_str());
  Out o = guarded([&]() {
    Expr e = W->term(text(t));
    sx_check(e == build(want), "value of a program application");
    // the same as an argument
    sx_check(W->term("($delay " + text(t) + " 0)") == (stuck(want) ? build(T{"$delay", {want, T{"0", {}}}}) : build(want)), "value of a program application");
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
  sx_reach(want == t ? "not evaluated" : stuck(want) ? "partly evaluated" : "evaluated");
}
// quick: only the first q of them
static str pickOf(const char* name, const std::vector<const char*>& l, size_t q = 99)
{
  return l[pick(name, 5, sx_tier() || q > l.size() ? l.size() : q)];
}
static void define(const Program& p, const char* sig)
{
  str s = source(p, sig);
  sx_note("program", s.c_str());
  Out o = guarded([&]() { W->cmds(s); });
  sx_check(o.kind == SX_RETURN, "a legal program is rejected");
}
// ---------------------------------------------- one case: consistent matching
static void cMatch()
{
  static const std::vector<const char*> pat = {"X", "#", "(f X)", "(g X X)", "(g (f X) X)", "(g # X)", "(F X)", "(F (F X))", "(g (F X) (F Y))", "(h (F X) Y X)"},
      pat2 = {"Y", "X", "(f X)", "(F Y)"},
      arg = {"#", "(f #)", "(g # #)", "(g (f #) #)", "(h # # #)", "(g (f #) (f #))", "(f (f #))", "(h (f #) # #)"},
      arg2 = {"#", "(f #)"};
  Program p{"$p", {}};
  T l = parse("($p " + fill(pickOf("pattern", pat)) + " " + fill(pickOf("pattern 2", pat2, 3)) + ")");
  // all that was bound
  str all;
  std::function<void(const T&)> vars = [&](const T& t) {
    if (isParam(t.op) && all.find(t.op) == str::npos) all += t.op;
    for (const T& c : t.k) vars(c);
  };
  vars(l);
  T r{"t", {}};
  for (char c : all)
  {
    T v{str(1, c), {}};
    if (c == 'F') v.k.push_back(T{"9", {}});
    r.k.push_back(v);
  }
  p.cases.push_back({l, r});
  progs.push_back(p);
  str a1 = fill(pickOf("argument", arg)), a2 = fill(pickOf("argument 2", arg2));
  define(p, "(Int Int) Int");
  evaluates(parse("($p " + a1 + " " + a2 + ")"));
}
// ------------------------------------------------ several cases: first match
static void cFirst()
{
  static const std::vector<const char*> pat = {"X", "#", "(f X)", "(g X X)", "(F X)", "(g X #)", "(f #)"};
  static const std::vector<const char*> arg = {"#", "(f #)", "(g # #)", "c"};
  Program p{"$p", {}};
  int n = sx_tier() ? 4 : 3;
  for (int i = 0; i < n; i++)
    p.cases.push_back({parse("($p " + fill(pickOf(("pattern" + std::to_string(i)).c_str(), pat, 5)) + ")"), parse(std::to_string(i))});
  progs.push_back(p);
  str a = fill(pickOf("argument", arg));
  define(p, "(Int) Int");
  evaluates(parse("($p " + a + ")"));
}
// ------------------------------------------------------ recursion and calls
static void cCalls()
{
  static const std::vector<const char*> rec = {"(g ($p X) X)", "(eo::ite (eo::eq X 0) ($p X) ($q X))", "($q ($p X))", "(eo::add ($p X) 1)", "($p ($p X))", "($p X)", "(f ($p X))", "($q (f X))", "(g ($p X) ($q X))"};
  static const std::vector<const char*> base = {"#", "($q #)", "($p 0)", "(f ($q #))", "(eo::add # ($q #))", "($p (f #))"};
  static const std::vector<const char*> other = {"X", "($p X)", "($p #)", "(f X)", "5"};
  Program p{"$p", {}}, q{"$q", {}};
  p.cases.push_back({parse("($p (f X))"), parse(pickOf("recursion", rec, 5))});
  p.cases.push_back({parse("($p " + fill("#", 2) + ")"), parse(fill(pickOf("base", base, 3)))});
  if (pick("default", 1, 2)) p.cases.push_back({parse("($p X)"), parse(fill("#"))});
  q.cases.push_back({parse(pick("other pattern", 1, 2) ? "($q (f X))" : "($q X)"), parse(fill(pickOf("other", other, 3)))});
  progs.push_back(p);
  progs.push_back(q);
  static const std::vector<const char*> arg = {"($p (f #))", "($q (f (f #)))", "($p (f (f #)))", "($p #)"};
  str a = fill(pickOf("argument", arg, 2));
  // does it end at all?
  fuel = 200;
  eval(parse(a));
  // ground calls are evaluated when they are read
  std::function<bool(const T&)> ground = [&](const T& t) {
    bool g = !isParam(t.op);
    for (const T& c : t.k) g = ground(c) && g;
    if (g && t.op[0] == '$') eval(t);
    return g;
  };
  for (const Program& r : progs)
    for (auto& c : r.cases) ground(c.second);
  if (fuel < 0) { sx_done(); return; }
  define(Program{"$q", {}}, "(Int) Int");
  define(p, "(Int) Int");
  define(q, "(Int) Int");
  evaluates(parse(a));
}
// -------------------------------------------------------------- list programs
static void cLists()
{
  static const std::vector<const char*> pat = {"(or B C)", "(or U (or U C))", "(or (pr X) C)", "(or B false)"};
  static const std::vector<const char*> body = {"($p C)", "(or B ($p C))", "(pr ($p C))", "C", "(or C (or B false))", "(eo::ite (eo::eq B (pr #)) ($p C) (or B ($p C)))"};
  static const std::vector<const char*> elem = {"(pr #)", "true", "(or (pr #) false)", "false"};
  Program p{"$p", {}};
  str l = pickOf("pattern", pat);
  str r = fill(pickOf("body", body));
  T lt = parse("($p " + l + ")"), rt = parse(r);
  std::function<bool(const T&)> free = [&](const T& t) {
    if (isParam(t.op) && l.find(t.op) == str::npos) return true;
    for (const T& c : t.k)
      if (free(c)) return true;
    return false;
  };
  if (free(rt)) { sx_done(); return; }
  p.cases.push_back({lt, rt});
  p.cases.push_back({parse("($p false)"), parse("false")});
  progs.push_back(p);
  define(p, "(Bool) Bool");
  unsigned n = pick("length", 2, sx_tier() ? 4 : 3);
  str a = "false";
  for (unsigned i = 0; i < n; i++) a = "(or " + fill(pickOf(("element" + std::to_string(i)).c_str(), elem)) + " " + a + ")";
  fuel = 60;
  T t = parse("($p " + a + ")"), want = eval(t);
  sx_note("term", text(t).c_str());
  sx_note("expected", text(want).c_str());
  sx_check(W->term(text(t)) == build(want), "value of a program on a list");
  sx_reach("list");
}
// -------------------------------------- any argument that is stuck, anywhere
static void cStuck()
{
  static const std::vector<const char*> form = {"#", "($part #)", "(f #)", "(eo::add # c)", "(f ($part (f #)))", "(g # (f ($part 0)))", "($part (f (f #)))", "(eo::ite (eo::eq ($part #) 1) 2 3)"};
  Program part{"$part", {}}, p{"$p", {}}, q{"$q", {}};
  part.cases.push_back({parse("($part (f X))"), parse("X")});
  unsigned n = 2 + pick("arguments", 1, 2), r = pick("result", 2, n + 1);
  str vars[] = {"X", "Y", "Z"}, l, a;
  // the first of the result's cases takes one literal, so matching matters too
  for (unsigned i = 0; i < n; i++)
  {
    l += " " + vars[i];
    a += " " + fill(pickOf(("argument" + std::to_string(i)).c_str(), form, n == 3 ? 4 : 99));
  }
  p.cases.push_back({parse("($p" + l + ")"), parse(r == n ? "7" : vars[r])});
  // called by another program, which passes on what it computes
  bool via = pick("called", 1, 2);
  q.cases.push_back({parse("($q" + l + ")"), parse(n == 2 ? "($p ($part Y) ($part X))" : "($p Y ($part X) Z)")});
  progs = {part, p, q};
  str ps = "((X Int) (Y Int) (Z Int))", sig = n == 2 ? "(Int Int)" : "(Int Int Int)";
  auto src = [&](const Program& g, const str& s) { return "(program " + g.name + " " + ps + " :signature " + s + " Int ((" + text(g.cases[0].first) + " " + text(g.cases[0].second) + ")))\n"; };
  W->cmds(src(part, "(Int)") + src(p, sig) + src(q, sig));
  evaluates(parse((via ? "($q" : "($p") + a + ")"));
}
// -------------------------------- arguments that are not values, binders, misuse
static void cOther()
{
  W->cmds("(program $p " + str(PARAMS) + " :signature (Int Int) Int ((($p X X) 1) (($p (f X) Y) Y) (($p X (f Y)) X)))\n"
          "(program $k " + PARAMS + " :signature (Int Int) Int ((($k X Y) Y)))\n"
          "(program $part ((X Int)) :signature (Int) Int ((($part (f X)) X)))\n"
          "(program $a " + PARAMS + " :signature (T) Int ((($a X) 3)))\n"
          "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)\n"
          "(program $b ((L eo::List) (x Int) (B Bool)) :signature (Bool Int) Bool ((($b (forall L B) x) (forall L (_ or (pr x) B)))))\n"
          "(program $s ((x Int) (y Int) (F Bool) (G Bool)) :signature (Int Int Bool) Bool ((($s x y (pr x)) (pr y)) (($s x y (_ or F G)) (_ or ($s x y F) ($s x y G))) (($s x y F) F)))\n");
  str d = digit(3), e = digit(3);
  bool same = d == e;
  str t, want;
  switch (pick("what", 4, 13))
  {
    // a stuck argument is not matched, not even by a variable that is not used
    case 0: t = "($k ($part " + d + ") " + e + ")"; want = t; break;
    case 1: t = "($k (f ($part " + d + ")) " + e + ")"; want = t; break;
    case 2: t = "($k (eo::add " + d + " c) 1)"; want = t; break;
    case 3: t = "($p ($part (f " + d + ")) " + e + ")"; want = same ? "1" : "($p " + d + " " + e + ")"; break;
    case 4: t = "($a $part)"; want = t; break;
    case 5: t = "($k (eo::ite (eo::eq " + d + " " + e + ") 7 ($part 0)) 8)"; want = same ? "8" : "($k ($part 0) 8)"; break;
    // programs are only applied to all their arguments
    case 6: t = "($k " + d + ")"; want = "($k " + d + ")"; break;
    // a variable is not a parameter, a parameter never stands for itself
    case 7: t = "($b (forall ((x Int)) (pr x)) " + d + ")"; want = "(forall ((x Int)) (_ or (pr " + d + ") (pr x)))"; break;
    case 8: t = "(forall ((x Int)) ($b (forall ((y Int)) (pr y)) x))"; want = "(forall ((x Int)) (forall ((y Int)) (_ or (pr x) (pr y))))"; break;
    case 9: t = "($s " + d + " " + e + " (_ or (pr 0) (_ or (pr " + d + ") (pr 2))))"; want = "(_ or (pr " + (d == "0" ? e : "0") + ") (_ or (pr " + e + ") (pr " + (d == "2" ? e : "2") + ")))"; break;
    // literals of other categories, function symbols without arguments
    case 10: t = "($p " + d + ".0 " + e + ")"; want = t; break;
    case 11: t = "($p (_ f " + d + ") f)"; want = "f"; break;
    // in parameterised definitions: evaluated when applied
    default:
      W->cmds("(define m ((x Int)) ($p (f x) (f " + e + ")))\n(program $m ((X Int) (Y Int)) :signature (Int Int) Int ((($m X Y) (m ($k X Y)))))\n");
      t = pick("how", 1, 2) ? "($m 0 " + d + ")" : "(m " + d + ")";
      want = same ? "1" : "(f " + e + ")";
  }
  sx_note("term", t.c_str());
  sx_note("expected", want.c_str());
  Out o = guarded([&]() {
    sx_check(W->term(t) == (want.find("forall") != str::npos ? W->term(want) : build(parse(want))), "value of a program application");
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
  sx_reach("other");
}
// ------------------------------------------------ what is not a legal program
static void cReject()
{
  static const char* bad[] = {
      "(program $p ((X Int) (Y Int)) :signature (Int) Int ((($p X) Y)))",
      "(program $p ((X Int)) :signature (Int) Int ((($p X X) X)))",
      "(program $p ((X Int) (Y Int)) :signature (Int Int) Int ((($p X) X)))",
      "(program $p ((X Int)) :signature (Int) Int (((f X) X)))",
      "(program $p ((X Int)) :signature (Int) Int (((eo::add X 1) X)))",
      "(program $p ((X Int)) :signature (Int) Int ((X X)))",
      "(program $p ((X Int)) :signature (Int) Int ((($p (eo::add X 1)) X)))",
      "(program $p ((X Int)) :signature (Int) Int ((($p ($id X)) X)))",
      "(program $p ((X Int)) :signature (Int) Int ())",
      "(program $p ((X Int)) :signature () Int ((($p) X)))",
      "(program $p ((X Int)) (Int) Int ((($p X) X)))",
      "(program f ((X Int)) :signature (Int) Int (((f X) X)))",
      "(program $id ((X Int)) :signature (Int) Int ((($id X) X)))",
      "(program $p ((X Int)) :signature (Int) Int) (program $p ((X Bool)) :signature (Bool) Int ((($p X) 1)))",
      "(program $p ((X Int) (C Bool :list)) :signature (Bool) Int ((($p (eo::list_concat or C C)) 1)))",
  };
  str t = bad[pick("program", 4, sizeof(bad) / sizeof(bad[0]))];
  sx_note("program", t.c_str());
  Out o = guarded([&]() { W->cmds(t); });
  sx_check(!o.crashed(), "a program neither accepted nor rejected with a diagnosis");
  sx_check(o.diagnosed(), "an illegal program is accepted");
  sx_reach("illegal program");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World();
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const c Int)\n"
          "(declare-const f (-> Int Int)) (declare-const g (-> Int Int Int)) (declare-const h (-> Int Int Int Int))\n"
          "(declare-const t (-> Int Int Int Int Int)) (declare-const pr (-> Int Bool)) (declare-const or (-> Bool Bool Bool) :right-assoc-nil false)\n"
          "(program $id ((T Type) (X T)) :signature (T) T ((($id X) X)))\n"
          "(program $delay ((T Type) (X T) (N Int)) :signature (T Int) T ((($delay X 2) X) (($delay X N) ($delay X (eo::add N 1)))))\n");
}
void (*sx_setup)() = setup;
CASES({"match", cMatch}, {"first", cFirst}, {"calls", cCalls}, {"lists", cLists}, {"stuck", cStuck}, {"other", cOther}, {"reject", cReject});
