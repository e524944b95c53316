// C01: arithmetic literal operators compute exact integer and rational results
#include "common.h"

static World* W;
struct V
{
  Kind k;
  Z n, d;
  str text;
};
static const char* cats[] = {"num", "rat", "dec"};
static unsigned bits(unsigned q, unsigned t) { return sx_tier() ? t : q; }
static bool wide = true;  // operands as symbolic values; otherwise as symbolic tokens

static V operandText(const char* nm, unsigned c)
{
  str s(nm);
  bool neg = pick((s + ".neg").c_str(), 1, 2);
  unsigned digs = bits(1, 2);
  str a = symDigits((s + ".int").c_str(), digs);
  V v;
  v.d = 1;
  v.n = digitsZ(a);
  v.k = Kind::NUMERAL;
  v.text = a;
  if (c == 1)
  {
    str b = symDigits((s + ".den").c_str(), 1);
    sx_assume(b[0] != '0' && (sx_tier() || b[0] < '4'));
    sx_conc(b[0]);
    v.d = digitsZ(b);
    v.text += "/" + b;
    v.k = Kind::RATIONAL;
  }
  else if (c == 2)
  {
    // (two symbolic fractions make hard divisibility queries)
    str b = sx_tier() || s == "x" ? symDigits((s + ".frac").c_str(), 1) : str("5");
    v.n = v.n * 10 + digitsZ(b);
    v.d = 10;
    v.text += "." + b;
    v.k = Kind::DECIMAL;
  }
  if (neg)
  {
    v.text = "-" + v.text;
    v.n = -v.n;
  }
  return v;
}
// a literal with a symbolic value, bound to the name nm
static V operandWide(const char* nm, unsigned c, unsigned w)
{
  str s(nm);
  V v;
  v.n = sxb_var((s + ".value").c_str(), w);
  v.d = 1;
  mpz_class n;
  sxb_to_mpz(n.get_mpz_t(), v.n.b);
  v.k = c == 0 ? Kind::NUMERAL : c == 1 ? Kind::RATIONAL : Kind::DECIMAL;
  Literal l;
  if (c == 0)
    l = Literal(Integer(n));
  else
  {
    unsigned d = 1 + pick((s + ".den").c_str(), 3, bits(3, 6));
    if (c == 2 && d == 3) d = 10;
    v.d = (long)d;
    l = Literal(v.k, Rational(Integer(n), Integer(d)));
  }
  W->st->bind(nm, Expr(W->st->mkLiteralInternal(l)));
  v.text = nm;
  return v;
}
static V operand(const char* nm, unsigned c, unsigned w = 0)
{
  if (!w) w = c ? bits(7, 10) : 64;
  return wide ? operandWide(nm, c, w) : operandText(nm, c);
}
static Expr eval(const str& op, std::vector<V> a)
{
  str t = "(" + op;
  for (V& v : a) t += " " + v.text;
  return W->term(t + ")");
}
static void expectInt(const Expr& e, Z v)
{
  sx_check(isKind(e, Kind::NUMERAL), "result is a numeral");
  check(zeq(intOf(e), v), "exact integer result");
}
static void expectRat(const Expr& e, Kind k, Z n, Z d)
{
  sx_check(isKind(e, k), "result has the specified category");
  check(zlt(0, denOf(e)), "positive denominator");
  check(zeq(numOf(e) * d, n * denOf(e)), "exact rational result");
}
static void expect(const Expr& e, Kind k, Z n, Z d)
{
  if (k == Kind::NUMERAL) expectInt(e, n);
  else expectRat(e, k, n, d);
}
static void expectBool(const Expr& e, Z v)
{
  sx_check(e == W->st->mkTrue() || e == W->st->mkFalse(), "result is a Boolean");
  check(zeq(Z(e == W->st->mkTrue() ? 1 : 0), v), "exact truth value");
}
static void stuck(const Expr& e)
{
  sx_check(!e.isNull() && !isLiteral(e.getKind()), "application is left unevaluated");
}
static void nary(bool mul)
{
  unsigned c = pick("category", 2, 3);
  unsigned n = wide && c == 0 ? 2 + pick("third", 1, 2) : 2;
  std::vector<V> a;
  unsigned w = c ? (mul ? bits(4, 6) : bits(5, 7)) : mul ? bits(8, 12) : 64;
  a.push_back(operand("x", c, w));
  a.push_back(operand("y", c, w));
  if (n == 3) a.push_back(operand("z", c, w));
  Expr e = eval(mul ? "eo::mul" : "eo::add", a);
  Z rn = a[0].n, rd = a[0].d;
  for (size_t i = 1; i < a.size(); i++)
  {
    rn = mul ? rn * a[i].n : rn * a[i].d + a[i].n * rd;
    rd = rd * a[i].d;
  }
  sx_reach(mul ? "mul" : "add");
  expect(e, a[0].k, rn, rd);
}
static void cAdd() { nary(false); }
static void cMul() { nary(true); }
static void cUnary()
{
  unsigned c = pick("category", 2, 3);
  unsigned op = pick("op", 2, 4);
  V x = operand("x", c);
  const char* ops[] = {"eo::neg", "eo::is_neg", "eo::to_z", "eo::to_q"};
  Expr e = eval(ops[op], {x});
  switch (op)
  {
    case 0: expect(e, x.k, -x.n, x.d); break;
    case 1: expectBool(e, zlt(x.n, 0)); break;
    case 2: expectInt(e, zfdiv(x.n, x.d)); break;
    case 3:
      if (c == 2) break;  // the manual does not define to_q of a decimal
      expectRat(e, Kind::RATIONAL, x.n, x.d);
      break;
  }
  sx_reach(ops[op]);
}
static void cGt()
{
  unsigned c = pick("category", 2, 3);
  V x = operand("x", c), y = operand("y", c);
  Expr e = eval("eo::gt", {x, y});
  expectBool(e, zlt(y.n * x.d, x.n * y.d));
  sx_reach("gt");
}
static void cQdiv()
{
  unsigned c = pick("category", 2, 3);
  V x = operand("x", c, bits(7, 9)), y = operand("y", c, bits(4, 6));
  Expr e = eval("eo::qdiv", {x, y});
  if (decide(zeq(y.n, 0)))
  {
    stuck(e);
    sx_reach("qdiv by zero");
    return;
  }
  Z n = x.n * y.d, d = x.d * y.n;
  // the manual gives the category for numerals and rationals
  sx_check(isKind(e, Kind::RATIONAL) || (c == 2 && isKind(e, Kind::DECIMAL)), "result is a rational");
  check(zlt(0, denOf(e)), "positive denominator");
  check(zeq(numOf(e) * d, n * denOf(e)), "exact quotient");
  sx_reach("qdiv");
}
static void cZdiv()
{
  V x = operand("x", 0, bits(8, 11)), y = operand("y", 0, bits(8, 11));
  Expr q = eval("eo::zdiv", {x, y}), r = eval("eo::zmod", {x, y});
  if (decide(zeq(y.n, 0)))
  {
    stuck(q);
    stuck(r);
    sx_reach("zdiv by zero");
    return;
  }
  sx_check(isKind(q, Kind::NUMERAL) && isKind(r, Kind::NUMERAL), "results are numerals");
  // Euclidean division: 0 <= x - y*zdiv = zmod < |y|
  Z ay = zabs(y.n), fq = zfdiv(x.n, ay);
  check(zeq(intOf(r), zfmod(x.n, ay)), "zmod is the least non-negative remainder");
  check(zeq(intOf(q), zite(zlt(y.n, 0), -fq, fq)), "zdiv is the quotient belonging to zmod");
  sx_reach(decide(zlt(y.n, 0)) ? "zdiv negative divisor" : "zdiv");
}
// wrong categories
static void cMixed()
{
  unsigned op = pick("op", 3, 8);
  const char* ops[] = {"eo::add", "eo::mul", "eo::gt", "eo::qdiv", "eo::zdiv", "eo::zmod", "eo::and", "eo::concat"};
  unsigned c1 = pick("c1", 2, 3), c2 = pick("c2", 2, 3);
  if (op < 4) sx_assume(c1 != c2);
  else if (op < 6) sx_assume(c1 != 0 || c2 != 0);
  V x = operand("x", c1), y = operand("y", c2);
  Expr e = eval(ops[op], {x, y});
  stuck(e);
  sx_reach("mixed");
}
static void cOther()
{
  const char* other[] = {"\"ab\"", "#b101", "#xa1", "true", "Int"};
  unsigned op = pick("op", 3, 8);
  const char* ops[] = {"eo::add", "eo::mul", "eo::gt", "eo::qdiv", "eo::zdiv", "eo::zmod", "eo::neg", "eo::is_neg"};
  unsigned o = pick("other", 3, 5), c = pick("category", 2, 3);
  bool flip = pick("flip", 1, 2);
  V x = operand("x", c);
  V y;
  y.text = other[o];
  if (op >= 6)
  {
    sx_assume(o == 0 || o == 3 || o == 4 || op == 7);
    stuck(eval(ops[op], {y}));
  }
  else
    stuck(flip ? eval(ops[op], {y, x}) : eval(ops[op], {x, y}));
  sx_reach("foreign operand");
}
static void cText()
{
  wide = false;
  switch (pick("what", 3, bits(2, 6)))
  {
    case 0: cAdd(); break;
    case 1: cUnary(); break;
    case 2: cZdiv(); break;
    case 3: cMul(); break;
    case 4: cGt(); break;
    case 5: cQdiv(); break;
  }
  sx_reach("tokens");
}
static void setup()
{
  W = new World;
  W->cmds("(declare-const Int Type)(declare-const a Int)");
}
void (*sx_setup)() = setup;
CASES({"add", cAdd}, {"mul", cMul}, {"unary", cUnary}, {"gt", cGt}, {"qdiv", cQdiv}, {"zdiv", cZdiv},
      {"tokens", cText}, {"mixed", cMixed}, {"other", cOther});
