// C02: bit-vector literal operators are exact modular arithmetic on their width
#include "common.h"

static World* W;
struct V
{
  Kind k;
  unsigned w;
  Z n;
  str text;
};
static unsigned bits(unsigned q, unsigned t) { return sx_tier() ? t : q; }
static Kind kinds[] = {Kind::BINARY, Kind::HEXADECIMAL};
static Z fromDigits(const str& s, unsigned lg)
{
  Z r = 0;
  for (unsigned char c : s)
  {
    unsigned d = lg == 1 ? c & 1 : (c & 15) + (c >> 6) * 9;
    r = r * (long)(1 << lg) + Z(sxb_of_u64(d));
  }
  return r;
}
static bool text = false;
// a bit-vector literal with a symbolic value
static V operand(const char* nm, unsigned w, Kind k)
{
  str s(nm);
  V v;
  v.k = k;
  if (text)
  {
    // the token, with symbolic digits
    if (k == Kind::BINARY)
    {
      str d = symDigits((s + ".bits").c_str(), w, 2);
      v.n = fromDigits(d, 1);
      v.w = w;
      v.text = "#b" + d;
    }
    else
    {
      str d = symBytes((s + ".hex").c_str(), (w + 3) / 4);
      for (unsigned char c : d) sx_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
      v.n = fromDigits(d, 4);
      v.w = 4 * d.size();
      v.text = "#x" + d;
    }
    return v;
  }
  v.w = w;
  v.n = w <= 64 ? w ? Z(sxb_uvar((s + ".value").c_str(), w)) : Z(0) : symZ(s + ".value", w);
  mpz_class n;
  sxb_to_mpz(n.get_mpz_t(), v.n.b);
  W->st->bind(nm, Expr(W->st->mkLiteralInternal(*new Literal(k, BitVector(w, Integer(n))))));
  v.text = nm;
  return v;
}
static V numeral(const char* nm, unsigned b)
{
  V v;
  v.k = Kind::NUMERAL;
  v.w = 0;
  v.n = sxb_var((str(nm) + ".value").c_str(), b);
  mpz_class n;
  sxb_to_mpz(n.get_mpz_t(), v.n.b);
  W->st->bind(nm, Expr(W->st->mkLiteralInternal(*new Literal(Integer(n)))));
  v.text = nm;
  return v;
}
static Expr eval(const str& op, std::vector<V> a)
{
  str t = "(" + op;
  for (V& v : a) t += " " + v.text;
  return W->term(t + ")");
}
static void expect(const Expr& e, Kind k, unsigned w, Z n)
{
  sx_check(isKind(e, k), "result has the category of the operands");
  sx_check(widthOf(e) == w, "result has the specified width");
  check(zeq(bvOf(e), n), "exact value of the result");
}
static void stuck(const Expr& e)
{
  sx_check(!e.isNull() && !isLiteral(e.getKind()), "application is left unevaluated");
}
static void expectInt(const Expr& e, Z v)
{
  sx_check(isKind(e, Kind::NUMERAL), "result is a numeral");
  check(zeq(intOf(e), v), "exact integer result");
}
static unsigned width(const std::vector<unsigned>& ws) { return ws[pick("width", 4, ws.size())]; }
static std::vector<unsigned> upto(unsigned a, unsigned n)
{
  std::vector<unsigned> r;
  for (; a <= n; a++) r.push_back(a);
  return r;
}
static Kind kind(const char* n) { return kinds[pick(n, 1, 2)]; }
static void cNary()
{
  unsigned op = pick("op", 3, 4);
  const char* ops[] = {"eo::and", "eo::or", "eo::xor", "eo::add"};
  Kind k = kind("kind");
  std::vector<unsigned> ws = {1, 3, 8, 31, 32, 33, 64, 65};
  if (text) ws = upto(1, bits(3, 5));
  unsigned w = width(ws);
  unsigned n = text ? 2 : 2 + pick("third", 1, 2);
  std::vector<V> a;
  for (unsigned i = 0; i < n; i++) a.push_back(operand(i == 0 ? "x" : i == 1 ? "y" : "z", w, k));
  Expr e = eval(ops[op], a);
  Z r = a[0].n;
  for (unsigned i = 1; i < n; i++)
    r = op == 0 ? Z(sxb_and(r.b, a[i].n.b)) : op == 1 ? Z(sxb_or(r.b, a[i].n.b)) : op == 2 ? Z(sxb_xor(r.b, a[i].n.b))
                : zfmod(r + a[i].n, pow2(a[i].w));
  expect(e, k, a[0].w, r);
  sx_reach(ops[op]);
}
static void cMul()
{
  Kind k = kind("kind");
  unsigned w = text ? 2 : width(upto(1, bits(6, 10)));
  unsigned n = text ? 2 : 2 + pick("third", 1, w <= bits(3, 5) ? 2 : 1);
  std::vector<V> a;
  for (unsigned i = 0; i < n; i++) a.push_back(operand(i == 0 ? "x" : i == 1 ? "y" : "z", w, k));
  Expr e = eval("eo::mul", a);
  Z r = a[0].n;
  for (unsigned i = 1; i < n; i++) r = r * a[i].n;
  expect(e, k, a[0].w, zfmod(r, pow2(a[0].w)));
  sx_reach("eo::mul");
}
static void cUnary()
{
  bool neg = pick("neg", 1, 2);
  Kind k = kind("kind");
  std::vector<unsigned> ws = {0, 1, 2, 3, 8, 31, 32, 33, 63, 64, 65};
  if (text) ws = upto(1, bits(4, 6));
  V x = operand("x", width(ws), k);
  Expr e = eval(neg ? "eo::neg" : "eo::not", {x});
  Z m = pow2(x.w);
  expect(e, k, x.w, neg ? zite(zeq(x.n, 0), 0, m - x.n) : m - 1 - x.n);
  sx_reach(neg ? "eo::neg" : "eo::not");
}
static void cDiv()
{
  bool mod = pick("mod", 1, 2);
  Kind k = kind("kind");
  unsigned w = text ? 2 : width(upto(1, bits(6, 8)));
  V x = operand("x", w, k), y = operand("y", w, k);
  Expr e = eval(mod ? "eo::zmod" : "eo::zdiv", {x, y});
  if (decide(zeq(y.n, 0)))
  {
    expect(e, k, x.w, mod ? x.n : pow2(x.w) - 1);
    sx_reach("division by zero");
    return;
  }
  expect(e, k, x.w, mod ? zfmod(x.n, y.n) : zfdiv(x.n, y.n));
  sx_reach(mod ? "eo::zmod" : "eo::zdiv");
}
static void cMixed()
{
  unsigned op = pick("op", 3, 7);
  const char* ops[] = {"eo::and", "eo::or", "eo::xor", "eo::add", "eo::mul", "eo::zdiv", "eo::zmod"};
  Kind k1 = kind("kind1"), k2 = kind("kind2");
  static unsigned ws[] = {0, 1, 2, 4, 5};
  unsigned w1 = ws[pick("w1", 3, 5)], w2 = ws[pick("w2", 3, 5)];
  sx_assume(k1 != k2 || w1 != w2);
  V x = operand("x", w1, k1), y = operand("y", w2, k2);
  stuck(eval(ops[op], {x, y}));
  if (op < 5 && pick("third", 1, 2)) stuck(eval(ops[op], {x, y, x})), stuck(eval(ops[op], {x, x, y}));
  if (k1 != k2) stuck(eval("eo::concat", {x, y}));
  sx_reach("mixed");
}
static void cConcat()
{
  Kind k = kind("kind");
  std::vector<unsigned> ws = {0, 1, 2, 3, 5, 8, 32, 33};
  if (text) ws = upto(1, 3);
  unsigned w1 = ws[pick("w1", 4, ws.size())], w2 = ws[pick("w2", 4, ws.size())];
  V x = operand("x", w1, k), y = operand("y", w2, k);
  Expr e = eval("eo::concat", {x, y});
  expect(e, k, x.w + y.w, x.n * pow2(y.w) + y.n);
  if (!text)
  {
    V z = operand("z", 3, k);
    expect(eval("eo::concat", {x, y, z}), k, w1 + w2 + 3, (x.n * pow2(w2) + y.n) * 8 + z.n);
  }
  sx_reach("concat");
}
static void cExtract()
{
  Kind k = kind("kind");
  V x = operand("x", text ? 2 : width(upto(0, bits(5, 9))), k);
  V i = numeral("i", 40), j = numeral("j", 40);
  Expr e = eval("eo::extract", {x, i, j});
  Z w = (long)x.w;
  Z last = zite(zlt(j.n, w), j.n, w - 1);
  if (decide(zor(zor(zlt(i.n, 0), zle(w, i.n)), zlt(last, i.n))))
  {
    expect(e, k, 0, 0);
    sx_reach("empty extract");
    return;
  }
  Z len = last - i.n + 1;
  sx_check(isKind(e, k), "result has the category of the operand");
  check(zeq(Z((long)widthOf(e)), len), "width of the extracted range");
  // bit p of the result is bit i+p of the operand
  for (unsigned s = 0; s < x.w; s++)
    if (decide(zeq(i.n, (long)s)))
      check(zeq(bvOf(e), zfmod(zfdiv(x.n, pow2(s)), pow2(widthOf(e)))), "bits i to j");
  sx_reach("extract");
}
// wide operands, ranges around the word sizes
static void cExtractWide()
{
  V x = operand("x", width({16, 31, 32, 33, 64, 65}), kind("kind"));
  static const unsigned p[] = {0, 1, 15, 30, 31, 32, 33, 47, 62, 63, 64, 70};
  unsigned i = p[pick("low", 4, 12)], j = p[pick("high", 4, 12)];
  sx_assume((i <= j) & (i < x.w));
  if (!sx_tier()) sx_assume(j - i > 13);
  Expr e = W->term("(eo::extract " + x.text + " " + std::to_string(i) + " " + std::to_string(j) + ")");
  unsigned w = std::min(j, x.w - 1) - i + 1;
  expect(e, x.k, w, zfmod(zfdiv(x.n, pow2(i)), pow2(w)));
  sx_reach("wide extract");
}
static void cExtractBad()
{
  V x = operand("x", 4, kind("kind")), y = operand("y", 4, kind("kind2"));
  V i = numeral("i", 3);
  switch (pick("what", 2, 3))
  {
    case 0: stuck(eval("eo::extract", {x, y, i})); break;
    case 1: stuck(eval("eo::extract", {x, i, y})); break;
    case 2: stuck(eval("eo::extract", {i, i, i})); break;
  }
  sx_reach("extract of other arguments");
}
static void cToBin()
{
  unsigned what = pick("what", 2, 3);
  V n = numeral("n", bits(5, 6));
  if (what == 0)
  {
    V x = numeral("x", 40);
    Expr e = eval("eo::to_bin", {n, x});
    if (decide(zor(zlt(n.n, 0), zlt(x.n, 0))))
    {
      stuck(e);
      sx_reach("to_bin of negative");
      return;
    }
    sx_check(isKind(e, Kind::BINARY), "result is a binary literal");
    unsigned w = widthOf(e);
    check(zeq((long)w, n.n), "requested width");
    check(zeq(bvOf(e), zfmod(x.n, pow2(w))), "value modulo 2^width");
    sx_reach("to_bin of numeral");
    return;
  }
  std::vector<unsigned> ws = {0, 1, 4, 7, 8, 12};
  V x = operand("x", width(ws), kinds[what - 1]);
  Expr e = eval("eo::to_bin", {n, x});
  if (decide(zlt(n.n, 0)))
  {
    stuck(e);
    return;
  }
  sx_check(isKind(e, Kind::BINARY), "result is a binary literal");
  unsigned w = widthOf(e);
  check(zeq((long)w, n.n), "requested width");
  check(zeq(bvOf(e), zfmod(x.n, pow2(w))), "value modulo 2^width");
  sx_reach("to_bin of bit-vector");
}
static void cToBinBig()
{
  // widths that are not 32-bit numerals
  V n = numeral("n", 50);
  assume(zle(pow2(32), n.n));
  V x = operand("x", 4, kind("kind")), y = numeral("y", 4);
  stuck(eval("eo::to_bin", {n, x}));
  stuck(eval("eo::to_bin", {n, y}));
  stuck(eval("eo::to_bin", {x, y}));
  sx_reach("to_bin not a 32-bit width");
}
static void cConv()
{
  std::vector<unsigned> ws = {0, 1, 2, 3, 8, 31, 32, 33, 64, 65};
  if (text) ws = upto(1, 5);
  V x = operand("x", width(ws), Kind::BINARY);
  expectInt(eval("eo::len", {x}), (long)x.w);
  expectInt(eval("eo::to_z", {x}), x.n);
  sx_reach("len and to_z");
}
static void cText()
{
  text = true;
  switch (pick("what", 3, 7))
  {
    case 0: cNary(); break;
    case 1: cMul(); break;
    case 2: cUnary(); break;
    case 3: cDiv(); break;
    case 4: cConcat(); break;
    case 5: cExtract(); break;
    case 6: cConv(); break;
  }
  sx_reach("tokens");
}
static void setup()
{
  W = new World;
}
void (*sx_setup)() = setup;
CASES({"nary", cNary}, {"mul", cMul}, {"unary", cUnary}, {"div", cDiv}, {"mixed", cMixed}, {"concat", cConcat},
      {"extract", cExtract}, {"extractwide", cExtractWide}, {"extractbad", cExtractBad}, {"tobin", cToBin}, {"tobinbig", cToBinBig},
      {"conv", cConv}, {"tokens", cText});
