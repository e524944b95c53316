// C17: a symbol always denotes its innermost visible binding or declared overload
#include "terms.h"

struct Bind
{
  str name;
  Expr e;
  T type;
  int level;
};
static std::vector<Bind> binds;
static int level;
static const std::vector<const char*> TYPES = {"(-> Int Int)", "(-> Bool Int)", "Int", "(-> Int Int Int)", "Bool"};
static const std::vector<const char*> USES = {"", "1", "true", "1 1", "1 true"};
// the type of an application; op is empty if it does not fit
static T applied(T t, const str& args)
{
  size_t i = 0;
  while (i < args.size())
  {
    str a = args.substr(i, args.find(' ', i) - i);
    i += a.size() + 1;
    if (t.op != "->" || t.k[0].op != (a == "1" ? "Int" : "Bool")) return T{"", {}};
    t = t.k.size() == 2 ? T(t.k[1]) : T{"->", {t.k.begin() + 1, t.k.end()}};
  }
  return t;
}
// the binding that a use denotes; the innermost that fits
static const Bind* denotes(const str& name, const str& args)
{
  for (size_t i = binds.size(); i-- > 0;)
    if (binds[i].name == name && applied(binds[i].type, args).op.size()) return &binds[i];
  return nullptr;
}
static bool visible(const str& name)
{
  for (Bind& b : binds)
    if (b.name == name) return true;
  return false;
}
static Expr app(const Expr& h, const str& args)
{
  Expr r = h;
  size_t i = 0;
  while (i < args.size())
  {
    str a = args.substr(i, args.find(' ', i) - i);
    i += a.size() + 1;
    Expr c = W->term(a);
    r = Expr(W->st->mkExprInternal(Kind::APPLY, {r.getValue(), c.getValue()}));
  }
  return r;
}
static str use(const str& name, const str& args) { return args.empty() ? name : "(" + name + " " + args + ")"; }
static void verifyUses()
{
  for (const str name : {"f", "g"})
    for (const str args : USES)
    {
      const Bind* b = denotes(name, args);
      str u = use(name, args);
      bool typed = false;
      Expr e;
      Out o = guarded([&]() {
        e = W->term(u);
        typed = !W->st->getTypeChecker().getType(e).isNull();
      });
      bool ok = o.kind == SX_RETURN && typed;
      if (ok != !!b) sx_note("use", u.c_str());
      sx_check(ok == !!b, b ? "a visible symbol is rejected" : "a symbol without a fitting visible binding is accepted");
      sx_check(ok || visible(name) || o.diagnosed(), "an invisible name is not rejected");
      if (!b) continue;
      bool same = e == app(b->e, args);
      if (!same) sx_note("use", u.c_str());
      sx_check(same, "a symbol does not denote its innermost fitting binding");
    }
}
static bool run(const str& c)
{
  Out o = guarded([&]() { W->cmds(c + "\n"); });
  sx_check(o.kind == SX_RETURN || o.diagnosed(), "neither accepted nor rejected");
  return o.kind == SX_RETURN;
}
static str hist;
static void op(unsigned k)
{
  str c;
  Bind b;
  b.level = level;
  if (k == 0) c = "(push)", level++;
  else if (k == 1)
  {
    sx_assume(level > 0);
    c = "(pop)";
    level--;
    while (!binds.empty() && binds.back().level > level) binds.pop_back();
  }
  else if (k == 4 || k == 5)
  {
    // another name for what a symbol denotes
    b.name = k == 4 ? "f" : "g";
    const Bind* o = denotes(k == 4 ? "g" : "f", "");
    sx_assume(!!o);
    b.e = o->e;
    b.type = o->type;
    c = "(define " + b.name + " () " + (k == 4 ? "g" : "f") + ")";
  }
  else if (k == 8 || k == 10)
  {
    b.name = "f";
    b.type = T{k == 8 ? "Proof" : "Int", {}};
    c = k == 8 ? "(assume f p)" : "(define f () 7)";
  }
  else
  {
    // k: 2 f 0, 3 f 1, 6 g 0, 7 g 1, 9 f 3
    b.name = k == 6 || k == 7 ? "g" : "f";
    const char* t = TYPES[k == 9 ? 3 : k == 2 || k == 6 ? 0 : k == 3 || k == 7 ? 1 : 2];
    b.type = parse(t);
    c = "(declare-const " + b.name + " " + t + ")";
  }
  hist += c;
  sx_note("history", hist.c_str());
  sx_check(run(c), "a declaration or scope command is rejected");
  if (b.name.size())
  {
    if (b.e.isNull())
    {
      b.e = W->st->getVar(b.name);
      if (k != 8 && k != 10)
        for (Bind& o : binds) sx_check(!(o.e == b.e), "a declaration does not make a new symbol");
      if (b.type.op != "Proof" && k != 10)
      {
        sx_check(isKind(b.e, Kind::CONST), "a declaration does not make a constant");
        sx_check(W->st->getTypeChecker().getType(b.e) == W->term(TYPES[b.type.k.size() == 3 ? 3 : b.type.k.empty() ? 2 : b.type.k[0].op == "Int" ? 0 : 1]), "type of a symbol");
      }
    }
    binds.push_back(b);
  }
}
static void cHistory()
{
  unsigned n = sx_tier() ? 6 : 5;
  for (unsigned i = 0; i < n; i++)
  {
    op(pick(("command" + std::to_string(i)).c_str(), 4, sx_tier() ? (i < 3 ? 11 : 8) : i < 2 ? 11 : i < 3 ? 8 : 6));
    verifyUses();
  }
  if (!level)
  {
    sx_check(!run("(pop)"), "a scope is left that was not entered");
    sx_reach("unbalanced pop");
  }
  sx_reach("history");
}
// the term inside of a local binding of name to (e, type)
static str bodyText(const str& name, const Expr& e, const T& type, std::vector<Expr>* want)
{
  binds.push_back({name, e, type, level + 1});
  str t = "(tup";
  for (const str n : {"f", "g"})
    for (const str args : USES)
    {
      const Bind* b = denotes(n, args);
      if (!b) continue;
      t += " " + use(n, args);
      if (!e.isNull()) want->push_back(app(b->e, args));
    }
  binds.pop_back();
  return t + ")";
}
static void verifyBody(Expr b, std::vector<Expr>& want, const char* m)
{
  for (size_t i = want.size(); i-- > 0;)
  {
    sx_check(isKind(b, Kind::APPLY) && b.getNumChildren() == 2, "structure of the body");
    if (!(b[1] == want[i])) sx_note("use", std::to_string(i).c_str());
    sx_check(b[1] == want[i], m);
    Expr n = b[0];
    b = n;
  }
  sx_check(b == W->term("tup"), "structure of the body");
}
static void cLocal()
{
  unsigned n = 3;
  for (unsigned i = 0; i < n; i++) op(pick(("command" + std::to_string(i)).c_str(), 4, sx_tier() ? 10 : i ? 6 : 8));
  unsigned form = pick("form", 3, 7), ty = pick("type", 3, sx_tier() ? 5 : 3);
  str name = pick("name", 1, 2) ? "g" : "f";
  T type = parse(TYPES[ty]);
  std::vector<Expr> want;
  str c;
  str var = "((" + name + " " + TYPES[ty] + "))";
  Out o = guarded([&]() {
    if (form == 0 || form == 1)
    {
      // a bound variable, nested in another of the same name
      Expr v = W->term("(eo::var \"" + name + "\" " + str(TYPES[ty]) + ")");
      c = "(forall " + var + " " + bodyText(name, v, type, &want) + ")";
      if (form == 1) c = "(forall ((" + name + " Bool)) (tup2 " + c + " " + name + "))";
      sx_note("term", c.c_str());
      Expr e = W->term(c);
      sx_check(isKind(e, Kind::APPLY), "structure of a binder");
      if (form == 1)
      {
        Expr b = e[1];
        sx_check(b[1] == W->term("(eo::var \"" + name + "\" Bool)"), "a variable after an inner binder");
        e = b[0][1];
      }
      verifyBody(e[1], want, "a name in a binder");
    }
    else if (form == 2)
    {
      // let
      static const char* vals[] = {"i2i", "b2i", "7", "i2i2i", "true"};
      Expr v = W->term(vals[ty]);
      if (ty == 3) type = parse("(-> Int Int Int)");
      c = "(eo::define ((" + name + " " + vals[ty] + ")) " + bodyText(name, v, type, &want) + ")";
      sx_note("term", c.c_str());
      verifyBody(W->term(c), want, "a name in a let");
    }
    else if (form == 3)
    {
      Expr none;
      c = "(define dd " + var + " " + bodyText(name, none, type, &want) + ")";
      sx_note("term", c.c_str());
      W->cmds(c + "\n");
      Expr d = W->st->getVar("dd");
      sx_check(isKind(d, Kind::LAMBDA), "structure of a definition");
      bodyText(name, d[0][0], type, &want);
      verifyBody(d[1], want, "a name in a definition");
    }
    else if (form == 4)
    {
      // what the parameter denotes is what the program is applied to
      c = "(program $pp (" + var.substr(1, var.size() - 2) + " (N Int)) :signature (" + TYPES[ty] + " Int) Bool ((($pp " + name + " N) (tup3 N " + name + "))))";
      sx_note("term", c.c_str());
      W->cmds(c + "\n");
      static const char* vals[] = {"i2i", "b2i", "7", "i2i2i", "true"};
      sx_check(W->term(str("($pp ") + vals[ty] + " 5)") == W->term(str("(tup3 5 ") + vals[ty] + ")"), "a name in a program");
    }
    else if (form == 5)
    {
      c = "(declare-rule rr (" + var.substr(1, var.size() - 2) + ") :args (" + name + ") :conclusion (is " + name + "))";
      sx_note("term", c.c_str());
      W->cmds(c + "\n");
      static const char* vals[] = {"i2i", "b2i", "7", "i2i2i", "true"};
      W->cmds(str("(step ss :rule rr :args (") + vals[ty] + "))\n");
      sx_check(W->st->getVar("ss")[0] == W->term(str("(is ") + vals[ty] + ")"), "a name in a rule");
    }
    else
    {
      c = "(declare-parameterized-const qq (" + var.substr(1, var.size() - 2) + ") (-> (BV " + name + ") Bool))";
      sx_assume(ty == 2);
      sx_note("term", c.c_str());
      W->cmds(c + "\n");
      sx_check(!W->st->getTypeChecker().getType(*new Expr(W->term("(qq 3 b3)"))).isNull(), "a name in a parameterized constant");
    }
  });
  sx_check(o.kind == SX_RETURN, "a local binding is rejected");
  verifyUses();
  sx_reach("local");
}
// rules have scopes too
static void cRules()
{
  struct R { str name; int concl, level; };
  std::vector<R> rules;
  unsigned n = sx_tier() ? 7 : 6, steps = 0;
  for (unsigned i = 0; i < n; i++)
  {
    unsigned k = pick(("command" + std::to_string(i)).c_str(), 3, 6);
    str c;
    bool want = true;
    if (k == 0) c = "(push)", level++;
    else if (k == 1)
    {
      sx_assume(level > 0);
      c = "(pop)";
      level--;
      while (!rules.empty() && rules.back().level > level) rules.pop_back();
    }
    else if (k < 4)
    {
      str name = k == 2 ? "q" : "r";
      for (R& r : rules) want = want && r.name != name;
      c = "(declare-rule " + name + " () :conclusion (P " + std::to_string(i) + "))";
      if (want) rules.push_back({name, (int)i, level});
    }
    else
    {
      str name = k == 4 ? "q" : "r";
      int concl = -1;
      for (R& r : rules)
        if (r.name == name) concl = r.concl;
      want = concl >= 0;
      str s = "s" + std::to_string(steps++);
      c = "(step " + s + " :rule " + name + ")";
      hist += c;
      sx_note("history", hist.c_str());
      sx_check(run(c) == want, want ? "a step by a visible rule is rejected" : "a step by an invisible rule is accepted");
      if (!want) break;
      sx_check(W->st->getVar(s)[0] == W->term("(P " + std::to_string(concl) + ")"), "a step used another rule");
      continue;
    }
    hist += c;
    sx_note("history", hist.c_str());
    sx_check(run(c) == want, want ? "a command is rejected" : "a rule is declared twice");
    if (!want) break;
  }
  sx_reach("rules");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World([](Options& o) { o.d_printDag = false; });
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const p Bool) (declare-const tup Bool) (declare-const tup2 (-> Bool Bool Bool)) (declare-const P (-> Int Bool))"
          "(declare-const BV (-> Int Type)) (declare-const b3 (BV 3)) (declare-parameterized-const is ((T Type :implicit)) (-> T Bool))"
          "(declare-parameterized-const tup3 ((T Type :implicit)) (-> Int T Bool))"
          "(declare-const i2i (-> Int Int)) (declare-const b2i (-> Bool Int)) (declare-const i2i2i (-> Int Int Int))"
          "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)\n");
}
void (*sx_setup)() = setup;
CASES({"history", cHistory}, {"local", cLocal}, {"rules", cRules});
