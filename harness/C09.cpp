// C09: list operators compute the specified list, for either associativity
#include "common.h"

static World* W;
static const char* fn[] = {"ran", "lan", "rasn", "lasn"};
static unsigned F;
static bool left() { return F & 1; }
static Expr sym(const str& s) { return W->st->getVar(s); }
static Expr f() { return sym(fn[F]); }
static Expr nil() { return sym("nil"); }
static Expr node(Kind k, const Exprs& c)
{
  std::vector<ExprValue*> v;
  for (const Expr& e : c) v.push_back(e.getValue());
  return Expr(W->st->mkExprInternal(k, v));
}
static Expr ap(const Expr& h, const Expr& t) { return node(Kind::APPLY, {h, t}); }
// the list of the given elements; the first one is the outermost
static Expr mk(const Exprs& l, Expr end)
{
  for (size_t i = l.size(); i-- > 0;) end = left() ? ap(ap(f(), end), l[i]) : ap(ap(f(), l[i]), end);
  return end;
}
static Expr mk(const Exprs& l) { return mk(l, nil()); }
static Expr num(unsigned n) { return W->st->mkLiteral(Kind::NUMERAL, std::to_string(n)); }
static Expr num(int n) { return W->st->mkLiteral(Kind::NUMERAL, std::to_string(n)); }
static char domain = '6';
static Expr element(const str& n)
{
  str d = symDigits(n.c_str(), 1);
  // the terminator may be an element too
  if (d[0] == '9') return nil();
  sx_assume(d[0] < domain);
  return W->st->mkLiteral(Kind::NUMERAL, d);
}
static Exprs elements(const str& n, unsigned len)
{
  Exprs r;
  for (unsigned i = 0; i < len; i++) r.push_back(element(n + "." + std::to_string(i)));
  return r;
}
static Exprs upTo(const str& n, unsigned max) { return elements(n, pick((n + ".length").c_str(), 3, max + 1)); }
static Exprs rev(Exprs l)
{
  std::reverse(l.begin(), l.end());
  return l;
}
static int index(const Exprs& l, const Expr& x)
{
  for (size_t i = 0; i < l.size(); i++)
    if (l[i] == x) return i;
  return -1;
}
static unsigned count(const Exprs& l, const Expr& x)
{
  unsigned r = 0;
  for (const Expr& e : l) r += e == x;
  return r;
}
static Expr eval(const str& op, const Exprs& args)
{
  str t = "(" + op + " " + fn[F];
  for (size_t i = 0; i < args.size(); i++)
  {
    str n = "arg" + std::to_string(i);
    W->st->bind(n, args[i]);
    t += " " + n;
  }
  return W->term(t + ")");
}
static Exprs all(const Exprs& args)
{
  Exprs r = {f()};
  r.insert(r.end(), args.begin(), args.end());
  return r;
}
static unsigned bits(unsigned q, unsigned t) { return sx_tier() ? t : q; }
static void op() { F = pick("operator", 2, 4); }

static void one(const Exprs& l, unsigned operation)
{
  Expr L = mk(l);
  switch (operation)
  {
    case 0:
      sx_check(eval("eo::list_len", {L}) == num((unsigned)l.size()), "eo::list_len");
      sx_reach("list_len");
      break;
    case 1:
      sx_check(eval("eo::list_rev", {L}) == mk(rev(l)), "eo::list_rev");
      sx_reach("list_rev");
      break;
    case 2:
    {
      Exprs r;
      for (const Expr& e : l)
        if (index(r, e) < 0) r.push_back(e);
      sx_check(eval("eo::list_setof", {L}) == mk(r), "eo::list_setof");
      sx_reach(r.size() < l.size() ? "list_setof drops" : "list_setof");
      break;
    }
    case 3:
      sx_check(eval("eo::list_singleton_elim", {L}) == (l.size() == 1 ? l[0] : L), "eo::list_singleton_elim");
      sx_reach("list_singleton_elim");
      break;
    case 4:
      sx_check(eval("eo::nil", {sym("Int")}) == nil(), "eo::nil");
      sx_reach("nil");
      break;
    case 5:
    {
      Expr x = element("element");
      Exprs r = l;
      r.insert(r.begin(), x);
      sx_check(eval("eo::cons", {x, L}) == mk(r), "eo::cons");
      sx_reach("cons");
    }
  }
}
static void elem(Exprs l, const Expr& x, unsigned operation)
{
  Expr L = mk(l);
  int i = index(l, x);
  switch (operation)
  {
    case 0:
      sx_check(eval("eo::list_find", {L, x}) == num(i), "eo::list_find");
      sx_reach(i < 0 ? "list_find fails" : "list_find");
      break;
    case 1:
      if (i >= 0) l.erase(l.begin() + i);
      sx_check(eval("eo::list_erase", {L, x}) == mk(l), "eo::list_erase");
      sx_reach("list_erase");
      break;
    case 2:
    {
      Exprs r;
      for (const Expr& e : l)
        if (e != x) r.push_back(e);
      sx_check(eval("eo::list_erase_all", {L, x}) == mk(r), "eo::list_erase_all");
      sx_reach(r.size() + 1 < l.size() ? "list_erase_all several" : "list_erase_all");
    }
  }
}
static void cOne()
{
  op();
  Exprs l = upTo("list", bits(3, 5));
  one(l, pick("operation", 3, 6));
}
static void cElem()
{
  op();
  Exprs l = upTo("list", bits(3, 4));
  Expr x = element("element");
  elem(l, x, pick("operation", 2, 3));
}
static void cNth()
{
  op();
  Exprs l;
  unsigned len = pick("length", 3, bits(4, 6));
  for (unsigned i = 0; i < len; i++) l.push_back(num(i + 10));
  Expr L = mk(l), i, r;
  int w = pick("index", 3, 5);
  if (w == 0)
  {
    str d = symDigits("digit", 1);
    i = W->term(d);
    unsigned v = d[0] - '0';
    if (v < l.size()) r = l[sx_conc(v)];
  }
  else if (w == 1)
  {
    // far outside, also modulo the word sizes
    str d = symDigits("digits", 2);
    static const char* pre[] = {"42949672", "-", "184467440737095516", "21474836"};
    unsigned p = pick("far", 2, 4);
    i = W->term(pre[p] + d);
    if (p == 1 && d == "00" && len) r = l[0];
  }
  else
    i = w == 2 ? W->term("1.0") : w == 3 ? W->term("#b1") : nil();
  Exprs a = {L, i};
  sx_check(eval("eo::list_nth", a) == (r.isNull() ? node(Kind::EVAL_LIST_NTH, all(a)) : r), "eo::list_nth");
  sx_reach(r.isNull() ? "list_nth outside" : "list_nth");
}
static void two(const Exprs& a, const Exprs& b, unsigned k);
static void cTwo()
{
  op();
  unsigned k = pick("operation", 3, 5);
  unsigned max = bits(F < 2 ? 5 : 3, 7), most = bits(4, 5);
  unsigned n = pick("length1", 3, std::min(max, most)), m = pick("length2", 3, std::min(max - n, most));
  if (!sx_tier()) domain = '3';
  Exprs a = elements("list1", n), b = elements("list2", m);
  two(a, b, k);
}
static void two(const Exprs& a, const Exprs& b, unsigned k)
{
  Expr A = mk(a), B = mk(b);
  switch (k)
  {
    case 0:
    {
      // the order in the text is kept
      Exprs r = left() ? b : a;
      r.insert(r.end(), left() ? a.begin() : b.begin(), left() ? a.end() : b.end());
      sx_check(eval("eo::list_concat", {A, B}) == mk(r), "eo::list_concat");
      sx_reach("list_concat");
      break;
    }
    case 1:
    case 2:
    {
      bool ok = true, ok2 = true;
      for (const Expr& e : a) ok &= count(a, e) <= count(b, e);
      for (const Expr& e : b) ok2 &= count(b, e) <= count(a, e);
      bool r = ok && (k == 1 || ok2);
      sx_check(eval(k == 1 ? "eo::list_minclude" : "eo::list_meq", {A, B}) == W->st->mkBool(r), k == 1 ? "eo::list_minclude" : "eo::list_meq");
      sx_reach(k == 1 ? r ? "included" : "not included" : r ? "equal multisets" : "unequal multisets");
      break;
    }
    default:
    {
      Exprs r, rest = b;
      for (const Expr& e : a)
      {
        int i = index(rest, e);
        if (i >= 0) rest.erase(rest.begin() + i);
        if ((i >= 0) == (k == 4)) r.push_back(e);
      }
      sx_check(eval(k == 3 ? "eo::list_diff" : "eo::list_inter", {A, B}) == mk(r), k == 3 ? "eo::list_diff" : "eo::list_inter");
      sx_reach(k == 3 ? "list_diff" : "list_inter");
    }
  }
}
// longer lists, up to renaming of their elements
static unsigned used;
static Exprs pattern(const str& n, unsigned len, unsigned max)
{
  Exprs r;
  for (unsigned i = 0; i < len; i++)
  {
    unsigned v = used < max ? used + 1 : max;
    v = v < 2 ? 0 : pick((n + std::to_string(i)).c_str(), 3, v);
    if (v == used) used++;
    r.push_back(v == 2 ? nil() : num(v));
  }
  return r;
}
static void cLong()
{
  unsigned k = pick("operation", 4, bits(12, 13));
  if (k < 8)
  {
    op();
    static const int ops[] = {1, 2, 3, 5, 0, 1, 2};
    Exprs l = pattern("list", bits(5, 7) - (k == 3 || k > 3 ? 1 : 0), bits(4, 5));
    if (k < 4) one(l, ops[k]);
    else if (k < 7) elem(l, pattern("element", 1, 5)[0], ops[k]);
    else one(l, 0);
  }
  else
  {
    F = k > 9 || sx_tier() ? pick("operator", 1, 2) : 0;
    // two lists of the same length, or one longer
    unsigned d = F && !sx_tier() ? 0 : pick("longer", 2, bits(2, 3));
    unsigned n = bits(d ? 3 : 4, 4);
    Exprs a = pattern("list1", n + (d == 1), 3), b = pattern("list2", n + (d == 2), 3);
    static const int ops[] = {1, 2, 3, 4, 0};
    two(a, b, ops[k - 8]);
  }
  sx_reach("long");
}
// not a list: the operators do not evaluate
static void cNot()
{
  op();
  struct { const char* name; Kind k; unsigned lists; bool elem; } ops[] = {
      {"eo::list_len", Kind::EVAL_LIST_LENGTH, 1, false}, {"eo::list_rev", Kind::EVAL_LIST_REV, 1, false},
      {"eo::list_setof", Kind::EVAL_LIST_SETOF, 1, false}, {"eo::list_singleton_elim", Kind::EVAL_LIST_SINGLETON_ELIM, 1, false},
      {"eo::list_find", Kind::EVAL_LIST_FIND, 1, true}, {"eo::list_erase", Kind::EVAL_LIST_ERASE, 1, true},
      {"eo::list_erase_all", Kind::EVAL_LIST_ERASE_ALL, 1, true}, {"eo::list_nth", Kind::EVAL_LIST_NTH, 1, true},
      {"eo::list_concat", Kind::EVAL_LIST_CONCAT, 2, false}, {"eo::list_minclude", Kind::EVAL_LIST_MINCLUDE, 2, false},
      {"eo::list_meq", Kind::EVAL_LIST_MEQ, 2, false}, {"eo::list_diff", Kind::EVAL_LIST_DIFF, 2, false},
      {"eo::list_inter", Kind::EVAL_LIST_INTER, 2, false}, {"eo::cons", Kind::EVAL_CONS, 3, true}};
  auto& o = ops[pick("operation", 4, 14)];
  Exprs l = upTo("list", bits(1, 2));
  // the end is not the terminator
  unsigned e = pick("end", 3, 6);
  Expr end = e == 0 ? sym("c") : e == 1 ? W->term("5") : e == 2 ? sym("nil2") : e == 3 ? ap(f(), nil())
             : e == 4 ? ap(ap(sym("other"), num(1u)), nil()) : ap(sym("g"), mk({num(1u)}));
  Expr bad = mk(l, end), good = mk(pick("good", 1, 2) ? l : Exprs{});
  Exprs a;
  if (o.lists == 3)
    a = {num(0u), bad};
  else if (o.lists == 2)
    a = pick("second", 1, 2) ? Exprs{good, bad} : Exprs{bad, good};
  else
    a = {bad};
  if (o.elem && o.lists == 1) a.push_back(num(0u));
  if (!pick("sort", 1, 2))
  {
    sx_check(eval(o.name, a) == node(o.k, all(a)), "an operator evaluates on a term that is not a list");
    sx_reach(o.name);
    return;
  }
  // nor on operators that are not associative with a terminator
  sx_assume(!F && l.empty() && !e && good == mk({}));
  static const char* no[] = {"other", "ra", "la", "ch", "c"};
  unsigned w = pick("no operator", 3, 5);
  str t = str("(") + o.name + " " + no[w];
  Exprs b = {sym(no[w])};
  for (unsigned i = 1; i <= a.size(); i++)
  {
    t += " nil";
    b.push_back(nil());
  }
  sx_check(W->term(t + ")") == node(o.k, b), "an operator evaluates for a function without terminator");
  sx_check(W->term(str("(eo::nil ") + no[w] + " Int)") == node(Kind::EVAL_NIL, {sym(no[w]), sym("Int")}), "eo::nil of a function without terminator");
  sx_reach("no terminator");
}
// terminators that depend on the type
static void cParam()
{
  F = 0;
  bool l = pick("left", 1, 2);
  str g = l ? "bvl" : "bvr";
  unsigned w = 1 + pick("width", 2, bits(2, 3)), len = pick("length", 2, bits(3, 4));
  Expr z = W->term("#b" + str(w, '0')), G = sym(g);
  auto bv = [&](const str& n) { return W->term("#b" + symDigits(n.c_str(), w, 2)); };
  auto mkb = [&](const Exprs& x) {
    Expr r = z;
    for (size_t i = x.size(); i-- > 0;) r = l ? ap(ap(G, r), x[i]) : ap(ap(G, x[i]), r);
    return r;
  };
  Exprs x;
  for (unsigned i = 0; i < len; i++) x.push_back(bv("bits" + std::to_string(i)));
  W->st->bind("arg", mkb(x));
  W->st->bind("elem", bv("element"));
  Expr e = sym("elem");
  auto run = [&](const str& op, const str& rest) { return W->term("(" + op + " " + g + " " + rest + ")"); };
  switch (pick("operation", 3, 6))
  {
    case 0: sx_check(run("eo::list_len", "arg") == num(len), "eo::list_len, parametric"); break;
    case 1: sx_check(run("eo::list_rev", "arg") == mkb(rev(x)), "eo::list_rev, parametric"); break;
    case 2: sx_check(run("eo::list_find", "arg elem") == num(index(x, e)), "eo::list_find, parametric"); break;
    case 3:
    {
      Exprs r = x;
      r.insert(r.begin(), e);
      sx_check(run("eo::cons", "elem arg") == mkb(r), "eo::cons, parametric");
      break;
    }
    case 4:
    {
      Exprs r = x;
      r.insert(r.end(), x.begin(), x.end());
      sx_check(run("eo::list_concat", "arg arg") == mkb(r), "eo::list_concat, parametric");
      break;
    }
    default: sx_check(run("eo::nil", "(BitVec " + std::to_string(w) + ")") == z, "eo::nil, parametric");
  }
  sx_reach("parametric");
}
// warnings are of no interest
struct Null : std::streambuf
{
  int overflow(int c) override { return c; }
};
static void setup()
{
  std::cerr.rdbuf(new Null);
  W = new World;
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const nil Int) (declare-const nil2 Int) (declare-const c Int)"
          "(declare-const ran (-> Int Int Int) :right-assoc-nil nil) (declare-const lan (-> Int Int Int) :left-assoc-nil nil)"
          "(declare-const rasn (-> Int Int Int) :right-assoc-non-singleton-nil nil)"
          "(declare-const lasn (-> Int Int Int) :left-assoc-non-singleton-nil nil)"
          "(declare-const other (-> Int Int Int)) (declare-const ra (-> Int Int Int) :right-assoc)"
          "(declare-const la (-> Int Int Int) :left-assoc) (declare-const and (-> Bool Bool Bool) :right-assoc-nil true)"
          "(declare-const ch (-> Int Int Bool) :chainable and) (declare-const g (-> Int Int))"
          "(declare-const BitVec (-> Int Type)) (declare-consts <binary> (BitVec (eo::len eo::self)))"
          "(define bvzero ((m Int)) (eo::to_bin m 0))"
          "(declare-parameterized-const bvr ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :right-assoc-nil (bvzero m))"
          "(declare-parameterized-const bvl ((m Int :implicit)) (-> (BitVec m) (BitVec m) (BitVec m)) :left-assoc-nil (bvzero m))");
}
void (*sx_setup)() = setup;
CASES({"one", cOne}, {"element", cElem}, {"nth", cNth}, {"two", cTwo}, {"long", cLong}, {"notlist", cNot}, {"parametric", cParam});
