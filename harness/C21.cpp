// C21: datatype declarations give exactly the declared constructors and selectors
#include "terms.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : 5;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
struct Con
{
  str name;
  std::vector<str> sel, type;
};
struct Dt
{
  str name;
  std::vector<str> par;
  std::vector<Con> cons;
};
typedef std::vector<Dt> Block;
static str self(const Dt& d, const std::vector<str>& args)
{
  if (args.empty()) return d.name;
  str r = "(" + d.name;
  for (const str& a : args) r += " " + a;
  return r + ")";
}
// all types here are printed with names as whole words
static str subst(const str& t, const std::vector<str>& p, const std::vector<str>& a)
{
  str r;
  for (size_t i = 0; i < t.size();)
  {
    if (t[i] == '(' || t[i] == ')' || t[i] == ' ') { r += t[i++]; continue; }
    str w;
    while (i < t.size() && t[i] != '(' && t[i] != ')' && t[i] != ' ') w += t[i++];
    for (size_t j = 0; j < p.size(); j++)
      if (p[j] == w) { w = a[j]; break; }
    r += w;
  }
  return r;
}
static bool mentions(const str& t, const str& p) { return subst(t, {p}, {"?"}) != t; }
static bool ambiguous(const Dt& d, const Con& c)
{
  for (const str& p : d.par)
  {
    bool f = false;
    for (const str& t : c.type) f |= mentions(t, p);
    if (!f) return true;
  }
  return false;
}
static str body(const Dt& d)
{
  str r = "(";
  for (const Con& c : d.cons)
  {
    r += "(" + c.name;
    for (size_t i = 0; i < c.sel.size(); i++) r += " (" + c.sel[i] + " " + c.type[i] + ")";
    r += ")";
  }
  r += ")";
  if (d.par.empty()) return r;
  str p;
  for (const str& x : d.par) p += (p.empty() ? "" : " ") + x;
  return "(par (" + p + ") " + r + ")";
}
static str command(const Block& b, bool multi)
{
  if (!multi) return "(declare-datatype " + b[0].name + " " + body(b[0]) + ")";
  str n, t;
  for (const Dt& d : b)
  {
    n += "(" + d.name + " " + std::to_string(d.par.size()) + ")";
    t += body(d);
  }
  return "(declare-datatypes (" + n + ") (" + t + "))";
}
// a block of datatypes; fields: what their types are chosen from
static bool few;
static Block block(unsigned maxDt, unsigned maxCon, unsigned maxSel, bool par)
{
  Block b(1 + choose(maxDt));
  static const char* dn[] = {"D", "E"};
  static const char* pn[] = {"X", "Y"};
  for (size_t i = 0; i < b.size(); i++)
  {
    b[i].name = dn[i];
    if (par)
      for (unsigned n = (i ? 1 : 1 + choose(2)), j = 0; j < n; j++) b[i].par.push_back(pn[(i + j) % 2]);
  }
  unsigned con = 0, sel = 0;
  for (Dt& d : b)
  {
    unsigned n = 1 + choose(maxCon);
    for (unsigned i = 0; i < n; i++)
    {
      Con c;
      c.name = "c" + std::to_string(con++);
      unsigned m = choose(maxSel + 1);
      for (unsigned j = 0; j < m; j++)
      {
        std::vector<str> ts = {"Int", self(d, d.par)};
        if (par) ts.push_back(d.par[0]);
        if (par && d.par.size() > 1) ts.push_back(d.par[1]), ts.push_back("(D Int X)"), ts.push_back("(-> X Y)");
        if (b.size() > 1)
        {
          const Dt& o = &d == &b[0] ? b[1] : b[0];
          ts.push_back(self(o, o.par.size() > 1 ? std::vector<str>{"Int", d.par[0]} : o.par.size() ? std::vector<str>{d.par[0]} : o.par));
        }
        if (sx_tier()) ts.push_back(par ? "(Set " + d.par[0] + ")" : "(-> Int Bool)");
        c.sel.push_back("s" + std::to_string(sel++));
        if (few) ts.resize(2);
        c.type.push_back(ts[choose(ts.size())]);
      }
      d.cons.push_back(c);
    }
  }
  return b;
}
static Expr typeOf(const str& t)
{
  Expr e = W->term(t);
  return W->st->getTypeChecker().getType(e);
}
static str arg(const str& t) { return "(eo::var \"v\" " + t + ")"; }
// the elements of a list
static std::vector<Expr> elements(Expr l)
{
  std::vector<Expr> r;
  while (isKind(l, Kind::APPLY))
  {
    sx_check(isKind(l[0], Kind::APPLY) && l[0][0] == W->term("eo::List::cons"), "a list");
    r.push_back(l[0][1]);
    l = l[1];
  }
  sx_check(l == W->term("eo::List::nil"), "a list");
  return r;
}
// what is declared for one datatype, at one instance
static void verify(const Dt& d, const std::vector<str>& inst, bool byName)
{
  str dt = self(d, inst);
  sx_note("instance", dt.c_str());
  Expr D = W->term(dt);
  auto at = [&](const str& t) { return subst(t, d.par, inst); };
  str args[4];
  for (const Con& c : d.cons)
  {
    bool amb = ambiguous(d, c);
    str head = amb ? "(as " + c.name + " " + dt + ")" : c.name;
    str app, bad;
    for (size_t i = 0; i < c.sel.size(); i++)
    {
      str t = at(c.type[i]);
      app += " " + arg(t);
      bad += " " + (i ? arg(t) : arg("Other"));
      if (byName)
      {
        sx_check(typeOf("(" + c.sel[i] + " " + arg(dt) + ")") == W->term(t), "type of a selection");
        sx_check(typeOf("(" + c.sel[i] + " " + arg("Other") + ")").isNull(), "a selector is applied to another type");
        sx_check(typeOf("(update-" + c.sel[i] + " " + arg(dt) + " " + arg(t) + ")") == D, "type of an update");
        sx_check(typeOf("(update-" + c.sel[i] + " " + arg(dt) + " " + arg("Other") + ")").isNull(), "an update to another type");
        if (d.par.empty()) sx_check(typeOf(c.sel[i]) == W->term("(-> " + dt + " " + t + ")"), "type of a selector");
      }
    }
    if (byName)
    {
      sx_check(typeOf(app.empty() ? head : "(_ " + head + app + ")") == D, "type of a construction");
      if (c.sel.size()) {
        Expr t = typeOf("(_ " + head + bad + ")");
        sx_check(t.isNull() || t != D, "a constructor is applied to another type");
      }
      if (d.par.empty())
      {
        str ft;
        for (const str& t : c.type) ft += t + " ";
        sx_check(typeOf(c.name) == W->term(ft.empty() ? dt : "(-> " + ft + dt + ")"), "type of a constructor");
      }
      sx_check(typeOf("(is-" + c.name + " " + arg(dt) + ")") == W->term("Bool"), "type of a test");
      sx_check(typeOf("(is-" + c.name + " " + arg("Other") + ")").isNull(), "a tester is applied to another type");
      if (amb)
      {
        // without annotation or with another type
        Expr t = typeOf(app.empty() ? c.name : "(" + c.name + app + ")");
        sx_check(t.isNull() || t != D, "an ambiguous constructor without annotation");
        Out o = guarded([&]() {
          Expr u = typeOf("(as " + c.name + " Other)");
          sx_check(u.isNull() || isKind(u, Kind::APPLY), "an ambiguous constructor at another type");
        });
        o = guarded([&]() { W->cmds("(define @bad () (as " + c.name + " Other) :type Other)"); });
        sx_check(o.diagnosed(), "an ambiguous constructor at another type");
        sx_reach("ambiguous");
      }
      // selectors of the constructor, annotated or not
      for (const str& h : {c.name, head})
      {
        std::vector<Expr> l = elements(W->term("(eo::dt_selectors " + h + ")"));
        sx_check(l.size() == c.sel.size(), "number of selectors");
        for (size_t i = 0; i < l.size(); i++) sx_check(l[i] == W->term(c.sel[i]), "a selector in the list");
      }
    }
  }
  // constructors
  for (int k = 0; k < (inst.empty() ? 1 : 2); k++)
  {
    std::vector<Expr> l = elements(W->term("(eo::dt_constructors " + (k ? d.name : dt) + ")"));
    sx_check(l.size() == d.cons.size(), "number of constructors");
    for (size_t i = 0; i < l.size(); i++)
    {
      const Con& c = d.cons[i];
      bool amb = ambiguous(d, c);
      Expr e = l[i];
      if (amb && !k && inst.size())
      {
        sx_check(isKind(e, Kind::APPLY_OPAQUE) && e.getNumChildren() == 2 && e[1] == D, "an ambiguous constructor in the list");
        e = e[0];
      }
      sx_check(isKind(e, Kind::CONST) && e.getSymbol() == c.name, "a constructor in the list");
      if (byName) sx_check(e == W->term(c.name), "a constructor in the list");
      else
      {
        // names are used more than once
        std::vector<Expr> s = elements(Expr(W->st->mkExpr(Kind::EVAL_DT_SELECTORS, {e})));
        sx_check(s.size() == c.sel.size(), "number of selectors");
        for (size_t j = 0; j < s.size(); j++)
        {
          sx_check(isKind(s[j], Kind::CONST) && s[j].getSymbol() == c.sel[j], "a selector in the list");
          sx_check(inst.size() || W->st->getTypeChecker().getType(s[j]) == W->term("(-> " + dt + " " + c.type[j] + ")"), "type of a selector");
        }
      }
    }
  }
}
static void declare(const Block& b, bool multi)
{
  str t = command(b, multi);
  sx_note("command", t.c_str());
  Out o = guarded([&]() { W->cmds(t + "\n"); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.kind == SX_RETURN, "a datatype declaration is rejected");
}
static void cSimple()
{
  bool two = choose(2);
  Block b = two ? block(2, 2, sx_tier() ? 2 : 1, false) : block(1, 2, 2, false);
  declare(b, b.size() > 1 || choose(2));
  for (const Dt& d : b) verify(d, {}, true);
  sx_reach("simple");
}
static void cThree()
{
  Block b = block(1, sx_tier() ? 4 : 3, sx_tier() ? 2 : 1, false);
  declare(b, choose(2));
  verify(b[0], {}, true);
}
static void cParametric()
{
  Block b = block(1, 2, sx_tier() ? 3 : 2, true);
  bool multi = choose(2);
  declare(b, multi);
  static const std::vector<str> I[] = {{"Int", "Bool"}, {"(Set Int)", "Int"}, {"(D2 Int)", "(-> Int Bool)"}};
  std::vector<str> inst = I[choose(sx_tier() ? 3 : 2)];
  inst.resize(b[0].par.size());
  verify(b[0], inst, true);
  sx_reach("parametric");
}
// three and four parameters
static void cWide()
{
  static const char* pn[] = {"X", "Y", "Z", "U"};
  static const char* in[] = {"Int", "Bool", "(Set Int)", "(-> Int Bool)"};
  Dt d;
  d.name = "D";
  unsigned n = 3 + choose(2);
  for (unsigned i = 0; i < n; i++) d.par.push_back(pn[i]);
  unsigned cons = 1 + choose(2);
  for (unsigned k = 0; k < cons; k++)
  {
    Con c;
    c.name = "c" + std::to_string(k);
    unsigned m = k ? choose(2) : choose(n == 3 || sx_tier() ? n + 1 : n);
    for (unsigned j = 0; j < m; j++)
    {
      std::vector<str> ts = {"X", "Y", "Z"};
      if (n > 3) ts.push_back("U");
      if (!k && (j == 0 || sx_tier())) ts.push_back(self(d, d.par)), ts.push_back("(-> Y Z)"), ts.push_back("(Arr Z X)"), ts.push_back("Int");
      if (k && !sx_tier()) ts = {"(Set Y)", self(d, {"Y", "X", "X", "Int"})};
      if (k && n == 3 && !sx_tier()) ts[1] = self(d, {"Y", "X", "X"});
      c.sel.push_back("s" + std::to_string(k) + std::to_string(j));
      c.type.push_back(ts[choose(ts.size())]);
    }
    d.cons.push_back(c);
  }
  declare({d}, sx_tier() ? choose(2) : cons == 1);
  std::vector<str> inst;
  for (unsigned i = 0; i < n; i++) inst.push_back(in[i]);
  verify(d, inst, true);
  sx_reach("wide");
}
static void cMutual()
{
  Block b = block(2, sx_tier() ? 2 : 1, 2, true);
  sx_assume(b.size() == 2);
  declare(b, true);
  for (const Dt& d : b) verify(d, d.par.size() > 1 ? std::vector<str>{"(E Bool)", "Bool"} : std::vector<str>{"(E Int)"}, true);
  sx_reach("mutual");
}
// names that are used more than once, in one or several scopes
static void cNames()
{
  unsigned where = choose(3);
  few = !sx_tier();
  bool par = choose(2);
  Block a = block(1, 2, 1, par), b = block(1, sx_tier() ? 2 : 1, 1, par);
  static const char* n[] = {"c0", "c1", "s0"};
  for (Block* x : {&a, &b})
    for (Con& c : (*x)[0].cons)
    {
      c.name = n[choose(sx_tier() ? 3 : 2)];
      for (str& s : c.sel) s = n[where == 2 || choose(2) ? 0 : 2];
    }
  auto rename = [](Block& x) {
    for (Con& c : x[0].cons)
      for (str& t : c.type) t = subst(t, {"D"}, {"E"});
    x[0].name = "E";
  };
  if (where == 0)
  {
    // one block
    sx_assume(a[0].par == b[0].par);
    rename(b);
    a.push_back(b[0]);
    declare(a, true);
  }
  else
  {
    declare(a, par);
    if (where == 1) { rename(b); declare(b, false); a.push_back(b[0]); }
    else
    {
      W->cmds("(push)\n");
      declare(b, true);
      W->cmds("(pop)\n");
    }
  }
  for (const Dt& d : a)
  {
    std::vector<str> inst = {"Int", "Bool"};
    inst.resize(d.par.size());
    verify(d, inst, false);
  }
  sx_reach("names");
}
// other terms are left unevaluated
static void cOther()
{
  Block b = block(1, 2, 1, choose(2));
  declare(b, true);
  const Dt& d = b[0];
  std::vector<str> inst = {"Int", "Bool"};
  inst.resize(d.par.size());
  str dt = self(d, inst), s = d.cons[0].sel.size() ? d.cons[0].sel[0] : "k";
  const Con& c = d.cons[0];
  str app = "k";
  if (c.sel.size())
  {
    app = ambiguous(d, c) ? "(_ (as " + c.name + " " + dt + ")" : "(" + c.name;
    for (const str& t : c.type) app += " " + arg(subst(t, d.par, inst));
    app += ")";
  }
  str partial = inst.size() > 1 ? "(D Int)" : "(Arr Int)";
  std::vector<str> ts = {"Int", "(Set Int)", "Bool", "Type", "eo::List", "(-> " + dt + " " + dt + ")", s, "is-" + c.name, "7", "\"D\"", partial, "(D2 Int Int)", arg(dt), "k", "true", "(as k Int)", "Other", "(as none (Set Int))", "(is-" + c.name + " " + arg(dt) + ")", app};
  if (c.sel.size()) ts.push_back("update-" + s);
  str t = ts[choose(ts.size())];
  sx_note("term", t.c_str());
  bool isCons = false, isDt = false;
  for (bool sel : {false, true})
    for (bool prog : {false, true})
    {
      str q = sel ? "eo::dt_selectors" : "eo::dt_constructors";
      Out o = guarded([&]() {
        Expr e = W->term(prog ? (sel ? "($ds " : "($dc ") + t + ")" : "(" + q + " " + t + ")");
        sx_note(q.c_str(), "evaluated");
        sx_check(isKind(e, sel ? Kind::EVAL_DT_SELECTORS : Kind::EVAL_DT_CONSTRUCTORS) || prog, "a term that is no datatype or constructor");
        if (prog)
        {
          bool stuck = isKind(e, sel ? Kind::EVAL_DT_SELECTORS : Kind::EVAL_DT_CONSTRUCTORS) || (isKind(e, Kind::APPLY) && e[0] == W->term(sel ? "$ds" : "$dc"));
          sx_check(stuck, "a term that is no datatype or constructor, in a program");
        }
      });
      sx_check(o.kind == SX_RETURN || (prog && o.diagnosed()), "an operator is rejected");
    }
  // constructors have no constructors, datatypes no selectors
  str h = ambiguous(d, c) ? "(as " + c.name + " " + dt + ")" : c.name;
  sx_check(isKind(W->term("(eo::dt_selectors " + dt + ")"), Kind::EVAL_DT_SELECTORS), "selectors of a datatype");
  sx_check(isKind(W->term("(eo::dt_constructors " + c.name + ")"), Kind::EVAL_DT_CONSTRUCTORS), "constructors of a constructor");
  sx_check(isKind(W->term("(eo::dt_constructors " + h + ")"), Kind::EVAL_DT_CONSTRUCTORS), "constructors of a constructor");
  // in programs and definitions
  std::vector<Expr> want = elements(W->term("(eo::dt_constructors " + dt + ")"));
  sx_check(elements(W->term("($dc " + dt + ")")) == want, "constructors in a program");
  sx_check(elements(W->term("(ddc " + dt + ")")) == want, "constructors in a definition");
  sx_check(W->term("($ds " + h + ")") == W->term("(eo::dt_selectors " + c.name + ")"), "selectors in a program");
  sx_reach("other");
}
// declarations that are not well formed
static void cMalformed()
{
  bool par = choose(2);
  Block b = block(2, 1, 1, par);
  unsigned k = choose(8);
  str t = command(b, true);
  auto cut = [&](const str& a, const str& n) {
    size_t p = t.find(a);
    if (p == str::npos) return false;
    t = t.substr(0, p) + n + t.substr(p + a.size());
    return true;
  };
  str d0 = body(b[0]), d1 = body(b.back()), n = "(" + b.back().name + " " + std::to_string(b.back().par.size()) + ")";
  switch (k)
  {
    case 0: cut(d1 + "))", "))"); break;                        // too few
    case 1: cut(d1 + "))", d1 + d1 + "))"); break;              // too many
    case 2: cut(n, "(" + b.back().name + " 3)"); break;         // another arity
    case 3: cut(n, ""); break;                                  // not declared
    case 4: t = "(declare-datatype D " + d0 + d0 + ")"; break;
    case 5: t = "(declare-datatype D)"; break;
    case 6: cut(d1 + "))", "(par () " + (par ? d1.substr(d1.find("((") ) : d1 + ")") + "))"); break;
    default: cut(d1 + "))", "((c9 (s9))))" + str(")")); break;  // no type
  }
  sx_note("command", t.c_str());
  Out o = guarded([&]() { W->cmds(t + "\n"); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.diagnosed(), "a malformed datatype declaration is accepted");
  sx_reach("malformed");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World();
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Other Type) (declare-consts <string> Other) (declare-const Set (-> Type Type)) (declare-const Arr (-> Type Type Type)) (declare-const k Int)"
          "(declare-parameterized-const none ((T Type :implicit)) (Set T))"
          "(declare-datatypes ((D2 1)) ((par (X) ((e0) (e1 (f0 X))))))"
          "(program $dc ((T Type)) :signature (Type) eo::List ((($dc T) (eo::dt_constructors T))))"
          "(program $ds ((T Type) (x T)) :signature (T) eo::List ((($ds x) (eo::dt_selectors x))))"
          "(define ddc ((T Type)) (eo::dt_constructors T))\n");
}
void (*sx_setup)() = setup;
CASES({"simple", cSimple}, {"three", cThree}, {"parametric", cParametric}, {"wide", cWide}, {"mutual", cMutual}, {"names", cNames}, {"other", cOther}, {"malformed", cMalformed});
