// C08: applications of attributed functions desugar exactly as declared
#include "common.h"

static World* W;
enum A { RA, LA, RAN, LAN, RASN, LASN, CHAIN, PAIR, ARGL, NA };
static const char* fn[] = {"ra", "la", "ran", "lan", "rasn", "lasn"};
static Expr sym(const str& s) { return W->st->getVar(s); }
static Expr ap(const Expr& h, const Expr& t)
{
  return Expr(W->st->mkExprInternal(Kind::APPLY, {h.getValue(), t.getValue()}));
}
static Expr bin(const Expr& f, const Expr& a, const Expr& b) { return ap(ap(f, a), b); }
static Expr node(Kind k, const Exprs& c)
{
  std::vector<ExprValue*> v;
  for (const Expr& e : c) v.push_back(e.getValue());
  return Expr(W->st->mkExprInternal(k, v));
}
struct Arg
{
  Expr e;
  bool list;
};
static bool isLeft(A a) { return a == LA || a == LAN || a == LASN; }
static bool isNil(A a) { return a >= RAN && a <= LASN; }
static bool isNs(A a) { return a == RASN || a == LASN; }
// the manual's definition of (f t1 ... tn); nil: the terminator
static Expr assoc(A a, const Expr& f, std::vector<Arg> t, const Expr& nil)
{
  size_t nl = 0;
  for (Arg& x : t) nl += !x.list;
  if (isLeft(a))
  {
    size_t i = 0;
    Expr r = !isNil(a) || t[0].list ? t[i++].e : nil;
    for (; i < t.size(); i++)
      r = isNil(a) && t[i].list ? node(Kind::EVAL_LIST_CONCAT, {f, r, t[i].e}) : bin(f, r, t[i].e);
    return r;
  }
  size_t i = t.size();
  Expr r = !isNil(a) || t.back().list ? t[--i].e : nil;
  while (i-- > 0)
    r = isNil(a) && t[i].list ? node(Kind::EVAL_LIST_CONCAT, {f, t[i].e, r}) : bin(f, t[i].e, r);
  return r;
}
static Expr nilOf(A a) { return sym(str("nil-") + fn[a]); }
// f is a non-singleton operator with fewer than two proper elements
static bool elims(A a, const std::vector<Arg>& t)
{
  size_t nl = 0;
  for (const Arg& x : t) nl += !x.list;
  return isNs(a) && nl < 2;
}
static void expectAssoc(A a, const Expr& f, const std::vector<Arg>& t, const Expr& got, const Expr& nil)
{
  Expr r = assoc(a, f, t, nil);
  if (elims(a, t))
  {
    // evaluates to the element itself when there is just one
    bool one = t.size() == 1 && !t[0].list;
    sx_check(got == node(Kind::EVAL_LIST_SINGLETON_ELIM, {f, r}) || (one && got == t[0].e),
             "non-singleton application");
    return;
  }
  sx_check(got == r, "associative application");
}
static str digit(const str& n) { return symDigits(n.c_str(), 1); }
static unsigned maxArgs() { return sx_tier() ? 5 : 4; }
// (define d ((params)) body): body and parameters
static Exprs body(const str& params, const str& b, Exprs* vars)
{
  W->cmds("(define d (" + params + ") " + b + ")");
  Expr d = sym("d");
  if (d.getKind() != Kind::LAMBDA) return {d};
  for (size_t i = 0; i < d[0].getNumChildren(); i++) vars->push_back(d[0][i]);
  return {d[1]};
}
// n arguments, each a literal, a parameter or a :list parameter
struct Args
{
  std::vector<Arg> t;
  std::vector<unsigned> kind;
  str text, params, ty;
  std::vector<str> lits;
  std::vector<int> param;  // index of the parameter, or -1
};
static Args symArgs(unsigned n, bool lists, const str& ty)
{
  Args a;
  int np = 0;
  for (unsigned i = 0; i < n; i++)
  {
    str s = std::to_string(i);
    unsigned k = pick(("argument" + s).c_str(), 2, lists ? 3 : 2);
    a.kind.push_back(k);
    str l;
    if (k == 0)
      l = digit("digit" + s), a.text += " " + l;
    else
    {
      a.text += " p" + s;
      a.params += " (p" + s + " " + ty + (k == 2 ? " :list)" : ")");
    }
    a.lits.push_back(l);
    a.param.push_back(k ? np++ : -1);
  }
  return a;
}
static void resolve(Args& a, const Exprs& vars)
{
  for (size_t i = 0; i < a.kind.size(); i++)
    a.t.push_back({a.kind[i] ? vars[a.param[i]] : W->st->mkLiteral(Kind::NUMERAL, a.lits[i]), a.kind[i] == 2});
}
static void cAssoc()
{
  A a = (A)pick("attribute", 3, 6);
  unsigned n = 1 + pick("arguments", 3, maxArgs());
  sx_assume(isNil(a) || n > 1);
  Args g = symArgs(n, true, "Int");
  Exprs vars, b = body(g.params, str("(") + fn[a] + g.text + ")", &vars);
  resolve(g, vars);
  expectAssoc(a, sym(fn[a]), g.t, b[0], isNil(a) ? nilOf(a) : Expr());
  sx_reach(fn[a]);
}
// the same with ground lists for the :list parameters: all elements in order
static void cInstance()
{
  A a = (A)(RAN + pick("attribute", 2, 4));
  unsigned n = 1 + pick("arguments", 2, sx_tier() ? 3 : 2);
  Args g = symArgs(n, true, "Int");
  Exprs vars, b = body(g.params, str("(") + fn[a] + g.text + ")", &vars);
  std::vector<Arg> flat;
  str call = "(d";
  if (g.params.empty()) return;
  for (unsigned i = 0; i < n; i++)
  {
    str s = std::to_string(i);
    if (g.kind[i] == 0)
      flat.push_back({W->st->mkLiteral(Kind::NUMERAL, g.lits[i]), false});
    else if (g.kind[i] == 1)
    {
      str v = digit("value" + s);
      call += " " + v;
      flat.push_back({W->term(v), false});
    }
    else
    {
      unsigned len = pick(("length" + s).c_str(), 2, 3);
      Expr l = nilOf(a);
      str v[] = {digit("element" + s + "a"), digit("element" + s + "b")};
      str txt = str("nil-") + fn[a];
      for (unsigned j = 0; j < len; j++)
        txt = isLeft(a) ? str("(_ (_ ") + fn[a] + " " + txt + ") " + v[j] + ")" : str("(_ (_ ") + fn[a] + " " + v[len - 1 - j] + ") " + txt + ")";
      for (unsigned j = 0; j < len; j++) flat.push_back({W->term(v[j]), false});
      call += " " + txt;
    }
  }
  Expr got = W->term(call + ")");
  Expr want = flat.empty() ? nilOf(a) : assoc(a, sym(fn[a]), flat, nilOf(a));
  if (isNs(a) && flat.size() == 1)
  {
    size_t nl = 0;
    for (unsigned k : g.kind) nl += k != 2;
    if (nl < 2) want = flat[0].e;
  }
  sx_check(got == want, "instance with ground lists");
  sx_reach("instance");
}
// :chainable, :pairwise and :arg-list
static void cCombine()
{
  static const char* conn[] = {"bra", "bla", "bran", "blan", "brasn"};
  static const A connA[] = {RA, LA, RAN, LAN, RASN};
  bool pair = pick("pairwise", 1, 2);
  unsigned c = pick("connective", 3, 5), n = 1 + pick("arguments", 3, maxArgs());
  sx_assume(n > 1 || isNil(connA[c]));
  Args g = symArgs(n, false, "Int");
  str op = str(pair ? "pair-" : "chain-") + conn[c];
  Exprs vars, b = body(g.params, "(" + op + g.text + ")", &vars);
  resolve(g, vars);
  std::vector<Arg> parts;
  for (unsigned i = 0; i < n; i++)
    for (unsigned j = i + 1; j < (pair ? n : std::min(n, i + 2)); j++)
      parts.push_back({bin(sym(op), g.t[i].e, g.t[j].e), false});
  Expr nil = isNil(connA[c]) ? sym("false") : Expr(), want;
  if (parts.empty())
    want = nil;
  else if (parts.size() == 1)
    want = parts[0].e;
  else
    want = assoc(connA[c], sym(conn[c]), parts, nil);
  sx_check(b[0] == want, pair ? "pairwise application" : "chained application");
  sx_reach(pair ? "pairwise" : "chainable");
  if (n == 1) sx_reach("one argument");
}
static void cArgList()
{
  A c = (A)(RAN + pick("constructor", 2, 4));
  unsigned n = 1 + pick("arguments", 3, maxArgs());
  Args g = symArgs(n, true, "Int");
  str op = str("argl-") + fn[c];
  Exprs vars, b = body(g.params, "(" + op + g.text + ")", &vars);
  resolve(g, vars);
  sx_check(b[0].getKind() == Kind::APPLY && b[0].getNumChildren() == 2 && b[0][0] == sym(op), "argument list");
  if (n == 1 && g.t[0].list)
    sx_check(b[0][1] == g.t[0].e, "a single list is the argument");
  else
    expectAssoc(c, sym(fn[c]), g.t, b[0][1], nilOf(c));
  sx_reach("arg-list");
}
// (_ f ...) is not desugared, whatever the attribute
static void cHigher()
{
  static const char* ops[] = {"ra", "la", "ran", "lan", "rasn", "lasn", "chain-bran", "pair-bra", "argl-ran", "plain"};
  unsigned o = pick("operator", 4, 10), n = 1 + pick("arguments", 2, 3);
  Args g = symArgs(n, true, "Int");
  // alternatively as nested unary applications
  bool nested = pick("nested", 1, 2);
  str txt;
  if (nested)
  {
    txt = ops[o];
    for (unsigned i = 0; i < n; i++)
      txt = "(_ " + txt + " " + (g.kind[i] ? "p" + std::to_string(i) : g.lits[i]) + ")";
  }
  else
    txt = str("(_ ") + ops[o] + g.text + ")";
  if (n > 2 && o < 9) return;  // ill-typed
  if (o == 8 && n > 1) return;
  Exprs vars, b = body(g.params, txt, &vars);
  resolve(g, vars);
  Expr want = sym(ops[o]);
  for (Arg& x : g.t) want = ap(want, x.e);
  sx_check(b[0] == want, "higher-order application");
  sx_reach("higher-order");
}
// longer applications: one argument is a literal, a parameter or a list, the others distinct literals
static void cLong()
{
  static const char* conn[] = {"bra", "bla", "bran", "blan", "brasn"};
  static const A connA[] = {RA, LA, RAN, LAN, RASN};
  unsigned k = pick("attribute", 5, 6 + 4 + 5 + 5), n = 5 + pick("arguments", 4, sx_tier() ? 12 : 5);
  bool combine = k >= 10;
  unsigned pos = pick("position", 4, n), kind = pick("kind", 2, combine ? 2 : 3);
  str l = digit("digit"), text, op;
  for (unsigned i = 0; i < n; i++)
    text += i != pos ? " " + std::to_string(10 + i) : kind ? " p" : " " + l;
  op = k < 6 ? str(fn[k]) : k < 10 ? str("argl-") + fn[RAN + k - 6] : str(k < 15 ? "chain-" : "pair-") + conn[(k - 10) % 5];
  Exprs vars, b = body(!kind ? "" : kind == 1 ? "(p Int)" : "(p Int :list)", "(" + op + text + ")", &vars);
  std::vector<Arg> t, parts;
  for (unsigned i = 0; i < n; i++)
    t.push_back(i == pos && kind ? Arg{vars[0], kind == 2}
                                 : Arg{W->st->mkLiteral(Kind::NUMERAL, i == pos ? l : std::to_string(10 + i)), false});
  sx_reach("long");
  if (k < 6) return expectAssoc((A)k, sym(op), t, b[0], isNil((A)k) ? nilOf((A)k) : Expr());
  if (k < 10)
  {
    A c = (A)(RAN + k - 6);
    sx_check(b[0].getKind() == Kind::APPLY && b[0].getNumChildren() == 2 && b[0][0] == sym(op), "argument list");
    return expectAssoc(c, sym(fn[c]), t, b[0][1], nilOf(c));
  }
  bool pair = k >= 15;
  unsigned c = (k - 10) % 5;
  for (unsigned i = 0; i < n; i++)
    for (unsigned j = i + 1; j < (pair ? n : std::min(n, i + 2)); j++)
      parts.push_back({bin(sym(op), t[i].e, t[j].e), false});
  sx_check(b[0] == assoc(connA[c], sym(conn[c]), parts, isNil(connA[c]) ? sym("false") : Expr()),
           pair ? "pairwise application" : "chained application");
}
// a nil terminator that depends on the type of the arguments
static void cParam()
{
  bool left = pick("left", 1, 2), generic = pick("generic", 1, 2);
  unsigned n = 1 + pick("arguments", 2, sx_tier() ? 4 : 3);
  unsigned w = generic ? 0 : 1 + pick("width", 3, sx_tier() ? 8 : 4);
  str ty = generic ? "(BitVec m)" : "(BitVec " + std::to_string(w) + ")";
  str params = generic ? "(m Int)" : "", text;
  std::vector<bool> list;
  for (unsigned i = 0; i < n; i++)
  {
    str s = std::to_string(i);
    bool l = pick(("list" + s).c_str(), 1, 2);
    list.push_back(l);
    params += " (p" + s + " " + ty + (l ? " :list)" : ")");
    text += " p" + s;
  }
  str op = left ? "bvl" : "bvr";
  Exprs vars, b = body(params, "(" + op + text + ")", &vars);
  std::vector<Arg> t;
  for (unsigned i = 0; i < n; i++) t.push_back({vars[i + generic], list[i]});
  Expr nil = generic ? node(Kind::EVAL_NIL, {sym(op), node(Kind::EVAL_TYPE_OF, {t[0].e})})
                     : W->term("#b" + str(w, '0'));
  sx_check(b[0] == assoc(left ? LAN : RAN, sym(op), t, nil), "parametric nil terminator");
  sx_reach(generic ? "placeholder" : "inferred nil");
  if (generic && !list[0] && n == 1)
  {
    // the placeholder evaluates once the width is known
    str bits = symDigits("bits", 2, 2);
    Expr e = W->term("(d 2 #b" + bits + ")"), v = W->term("#b" + bits), z = W->term("#b00");
    sx_check(e == (left ? bin(sym(op), z, v) : bin(sym(op), v, z)), "instantiated nil terminator");
    sx_reach("instantiated");
  }
}
// nested applications: every application is desugared on its own
static void cNested()
{
  A a = (A)pick("outer", 3, 6), c = (A)pick("inner", 3, 6);
  unsigned pos = pick("position", 1, 2);
  str d1 = digit("digit1"), d2 = digit("digit2"), d3 = digit("digit3");
  str in = str("(") + fn[c] + " " + d1 + " " + d2 + ")";
  Expr got = W->term(str("(") + fn[a] + " " + (pos ? d3 + " " + in : in + " " + d3) + ")");
  auto L = [&](const str& d) { return Arg{W->st->mkLiteral(Kind::NUMERAL, d), false}; };
  Expr ie = assoc(c, sym(fn[c]), {L(d1), L(d2)}, isNil(c) ? nilOf(c) : Expr());
  std::vector<Arg> t = {Arg{ie, false}, L(d3)};
  if (pos) std::swap(t[0], t[1]);
  sx_check(got == assoc(a, sym(fn[a]), t, isNil(a) ? nilOf(a) : Expr()), "nested application");
  sx_reach("nested");
}
static void setup()
{
  W = new World;
  str c = "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const plain (-> Int Int Int Int))";
  static const char* at[] = {":right-assoc", ":left-assoc", ":right-assoc-nil", ":left-assoc-nil", ":right-assoc-non-singleton-nil",
                             ":left-assoc-non-singleton-nil"};
  for (int i = 0; i < 6; i++)
  {
    str f = fn[i], nil = i >= 2 ? " nil-" + f : "";
    if (i >= 2) c += "(declare-const nil-" + f + " Int)";
    c += "(declare-const " + f + " (-> Int Int Int) " + at[i] + nil + ")";
    c += "(declare-const b" + f + " (-> Bool Bool Bool) " + at[i] + (i >= 2 ? " false" : "") + ")";
    c += "(declare-const chain-b" + f + " (-> Int Int Bool) :chainable b" + f + ")";
    c += "(declare-const pair-b" + f + " (-> Int Int Bool) :pairwise b" + f + ")";
    if (i >= 2) c += "(declare-const argl-" + f + " (-> Int Bool) :arg-list " + f + ")";
  }
  c += "(declare-const BitVec (-> Int Type)) (declare-consts <binary> (BitVec (eo::len eo::self)))"
       "(define bvzero ((m Int)) (eo::to_bin m 0))";
  for (str s : {"r", "l"})
    c += "(declare-parameterized-const bv" + s + " ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :"
         + (s == "r" ? "right" : "left") + "-assoc-nil (bvzero m))";
  W->cmds(c);
}
void (*sx_setup)() = setup;
CASES({"assoc", cAssoc}, {"instance", cInstance}, {"combine", cCombine}, {"arglist", cArgList}, {"long", cLong}, {"higher", cHigher},
      {"parametric", cParam}, {"nested", cNested});
