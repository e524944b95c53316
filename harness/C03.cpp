// C03: string literal operators follow the SMT-LIB sequence semantics
#include "common.h"

static World* W;
typedef std::vector<unsigned> Cps;
struct V
{
  Cps s;
  Z n;
  str text;
};
static unsigned bits(unsigned q, unsigned t) { return sx_tier() ? t : q; }
static bool text = false;
static V operand(const char* nm, unsigned len)
{
  V v;
  str n(nm);
  if (text)
  {
    // printable characters other than the quote (escapes: C04)
    str b = symBytes(nm, len);
    v.text = "\"" + b + "\"";
    for (unsigned char c : b)
    {
      sx_assume((c >= 32) & (c < 127) & (c != '"') & (c != '\\'));
      v.s.push_back(c);
    }
    return v;
  }
  for (unsigned i = 0; i < len; i++)
  {
    unsigned c = sx_sym((n + "." + std::to_string(i)).c_str(), 18);
    sx_assume(c < 196608);
    v.s.push_back(c);
  }
  W->st->bind(nm, Expr(W->st->mkLiteralInternal(*new Literal(String(v.s)))));
  v.text = nm;
  return v;
}
static V numeral(const char* nm, unsigned b)
{
  V v;
  v.n = sxb_var((str(nm) + ".value").c_str(), b);
  mpz_class n;
  sxb_to_mpz(n.get_mpz_t(), v.n.b);
  W->st->bind(nm, Expr(W->st->mkLiteralInternal(*new Literal(Integer(n)))));
  v.text = nm;
  return v;
}
static Expr eval(const str& op, std::vector<V> a)
{
  str t = "(" + op;
  for (V& v : a) t += " " + v.text;
  return W->term(t + ")");
}
static void expect(const Expr& e, const Cps& s)
{
  sx_check(isKind(e, Kind::STRING), "result is a string");
  const Cps& r = lit(e)->d_str.d_str;
  sx_check(r.size() == s.size(), "length of the result");
  for (size_t i = 0; i < s.size(); i++) sx_check(r[i] == s[i], "characters of the result");
}
static void expectInt(const Expr& e, Z v)
{
  sx_check(isKind(e, Kind::NUMERAL), "result is a numeral");
  check(zeq(intOf(e), v), "exact integer result");
}
static void stuck(const Expr& e)
{
  sx_check(!e.isNull() && !isLiteral(e.getKind()), "application is left unevaluated");
}
static unsigned length(const char* n, unsigned m) { return pick((str(n) + ".length").c_str(), 3, m + 1); }
static void cLen()
{
  V x = operand("x", length("x", bits(5, 7)));
  expectInt(eval("eo::len", {x}), (long)x.s.size());
  Expr z = eval("eo::to_z", {x});
  if (x.s.size() == 1)
  {
    expectInt(z, Z(sxb_of_u64(x.s[0])));
    sx_reach("to_z");
  }
  else
    stuck(z);
  expect(eval("eo::to_str", {x}), x.s);
  sx_reach("len");
}
static void cConcat()
{
  V x = operand("x", length("x", bits(3, 4))), y = operand("y", length("y", bits(3, 4)));
  Cps r = x.s;
  r.insert(r.end(), y.s.begin(), y.s.end());
  expect(eval("eo::concat", {x, y}), r);
  if (!text)
  {
    V z = operand("z", length("z", 2));
    r.insert(r.end(), z.s.begin(), z.s.end());
    expect(eval("eo::concat", {x, y, z}), r);
  }
  sx_reach("concat");
}
static void cExtract()
{
  V x = operand("x", length("x", bits(4, 7)));
  V i = numeral("i", 40), j = numeral("j", 40);
  Expr e = eval("eo::extract", {x, i, j});
  Z n = (long)x.s.size();
  Z last = zite(zlt(j.n, n), j.n, n - 1);
  if (decide(zor(zor(zlt(i.n, 0), zle(n, i.n)), zlt(last, i.n))))
  {
    expect(e, {});
    sx_reach("empty extract");
    return;
  }
  for (unsigned a = 0; a < x.s.size(); a++)
    for (unsigned b = a; b < x.s.size(); b++)
      if (decide(zand(zeq(i.n, (long)a), zeq(last, (long)b))))
      {
        expect(e, Cps(x.s.begin() + a, x.s.begin() + b + 1));
        sx_reach("extract");
      }
}
static void cFind()
{
  V x = operand("x", length("x", bits(4, 6))), y = operand("y", length("y", bits(3, 4)));
  Expr e = eval("eo::find", {x, y});
  Z r = -1;
  for (int i = (int)x.s.size() - (int)y.s.size(); i >= 0; i--)
  {
    int eq = 1;
    for (size_t j = 0; j < y.s.size(); j++) eq &= x.s[i + j] == y.s[j];
    r = zite(Z(sxb_of_u64(eq)), (long)i, r);
  }
  expectInt(e, r);
  sx_reach(decide(zeq(r, -1)) ? "not found" : decide(zlt(0, r)) ? "found later" : "found at 0");
}
static void cToStr()
{
  V n = numeral("n", 50);
  Expr e = eval("eo::to_str", {n});
  if (decide(zand(zle(0, n.n), zlt(n.n, 196608))))
  {
    sx_check(isKind(e, Kind::STRING), "result is a string");
    const Cps& r = lit(e)->d_str.d_str;
    sx_check(r.size() == 1, "one character");
    check(zeq(Z(sxb_of_u64(r[0])), n.n), "the character of the code point");
    // and back
    W->st->bind("e", e);
    V v;
    v.text = "e";
    expectInt(eval("eo::to_z", {v}), n.n);
    sx_reach("to_str");
  }
  else
  {
    stuck(e);
    sx_reach("to_str not a code point");
  }
}
static void cToStrOther()
{
  // printing of small rationals and bit-vectors
  bool neg = pick("neg", 1, 2);
  unsigned what = pick("what", 2, 3);
  Cps r;
  V v;
  if (what == 0)
  {
    unsigned n = pick("n", 4, 13), d = 1 + pick("d", 3, 7);
    unsigned g = 1;
    for (unsigned i = 2; i <= d; i++)
      if (n % i == 0 && d % i == 0) g = i;
    v.text = (neg ? "-" : "") + std::to_string(n) + "/" + std::to_string(d);
    str s = (neg && n ? "-" : "") + std::to_string(n / g) + "/" + std::to_string(d / g);
    if (d / g == 1) return;
    r.assign(s.begin(), s.end());
  }
  else
  {
    // a token with symbolic digits prints as itself, in lower case
    unsigned len = 1 + pick("len", 2, 3);
    str d = symBytes("digit", len);
    str s = what == 1 ? "#b" : "#x";
    for (char& c0 : d)
    {
      unsigned char c = c0;
      if (what == 1) sx_assume((c == '0') | (c == '1'));
      else sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')));
    }
    v.text = s + d;
    r = {'#', unsigned(what == 1 ? 'b' : 'x')};
    for (unsigned char c : d) r.push_back(c);
  }
  expect(eval("eo::to_str", {v}), r);
  sx_reach(what == 0 ? "to_str of a rational" : "to_str of a bit-vector");
}
static void cOther()
{
  static const char* other[] = {"1", "-1/2", "0.5", "#b1", "#xa", "true", "Int", "|a b|"};
  const char* ops[] = {"eo::concat", "eo::find", "eo::extract", "eo::extract", "eo::and", "eo::add", "eo::zdiv", "eo::gt",
                       "eo::neg", "eo::is_neg", "eo::not", "eo::to_q", "eo::to_bin"};
  V x = operand("x", length("x", 2)), y = operand("y", length("y", 1)), o, n;
  o.text = other[pick("other", 3, 8)];
  n.text = "0";
  unsigned op = pick("op", 4, 13);
  if (op == 0 || op == 1)
  {
    stuck(eval(ops[op], {x, o}));
    stuck(eval(ops[op], {o, x}));
  }
  else if (op < 4)
  {
    if (o.text != "1")
      stuck(op == 2 ? eval(ops[op], {x, o, n}) : eval(ops[op], {x, n, o}));
    stuck(eval(ops[op], {x, n, x}));
    stuck(eval(ops[op], {x, x, n}));
  }
  else if (op < 8)
    stuck(eval(ops[op], {x, y}));
  else if (op < 12)
    stuck(eval(ops[op], {x}));
  else
    stuck(eval(ops[op], {n, x}));
  if (o.text == "Int" || o.text == "|a b|" || o.text == "true" || o.text == "1") stuck(eval("eo::len", {o}));
  if (o.text == "Int" || o.text == "|a b|" || o.text == "true") stuck(eval("eo::to_z", {o})), stuck(eval("eo::to_str", {o}));
  sx_reach("other arguments");
}
static void cText()
{
  text = true;
  switch (pick("what", 2, 4))
  {
    case 0: cLen(); break;
    case 1: cConcat(); break;
    case 2: cExtract(); break;
    case 3: cFind(); break;
  }
  sx_reach("tokens");
}
static void setup()
{
  W = new World;
  W->cmds("(declare-const Int Type)(declare-const |a b| Int)");
}
void (*sx_setup)() = setup;
CASES({"len", cLen}, {"concat", cConcat}, {"extract", cExtract}, {"find", cFind}, {"tostr", cToStr},
      {"print", cToStrOther}, {"other", cOther}, {"tokens", cText});
