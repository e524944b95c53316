// C04: literal tokens denote their value; equal values are one term; printing re-parses
#include "common.h"

static World* W;
static unsigned bits(unsigned q, unsigned t) { return sx_tier() ? t : q; }
// a literal token with symbolic digits and what it denotes
struct Tok
{
  unsigned c;   // 0 numeral 1 rational 2 decimal 3 binary 4 hexadecimal
  str text;
  Z n, d;
  unsigned w = 0;
  Kind k;
};
static Kind kindOf[] = {Kind::NUMERAL, Kind::RATIONAL, Kind::DECIMAL, Kind::BINARY, Kind::HEXADECIMAL};
static Tok token(const char* nm, unsigned c, unsigned digs, bool simple = false)
{
  str s(nm);
  Tok t;
  t.c = c;
  t.k = kindOf[c];
  t.d = 1;
  if (c < 3)
  {
    bool neg = pick((s + ".neg").c_str(), 1, 2);
    str a = symDigits((s + ".int").c_str(), digs);
    t.n = digitsZ(a);
    t.text = a;
    if (c == 1)
    {
      str b = symDigits((s + ".den").c_str(), simple ? 1 : bits(1, 2));
      sx_assume(simple || !sx_tier() ? b[0] != '0' : b[0] < '3');
      if (simple) sx_assume(b[0] < '5');
      for (char ch : b) sx_conc(ch);
      t.d = digitsZ(b);
      assume(zlt(0, t.d));
      t.text += "/" + b;
    }
    else if (c == 2)
    {
      str b = symDigits((s + ".frac").c_str(), simple ? 1 : 2);
      t.n = digitsZ(a + b);
      t.d = simple ? 10 : 100;
      t.text += "." + b;
    }
    if (neg)
    {
      t.text = "-" + t.text;
      t.n = -t.n;
    }
  }
  else if (c == 3)
  {
    str d = symDigits((s + ".bits").c_str(), digs, 2);
    t.n = 0;
    for (unsigned char ch : d) t.n = t.n * 2 + Z(sxb_of_u64(ch & 1));
    t.w = digs;
    t.text = "#b" + d;
  }
  else
  {
    str d = symBytes((s + ".hex").c_str(), digs);
    t.n = 0;
    for (unsigned char ch : d)
    {
      sx_assume(((ch >= '0') & (ch <= '9')) | ((ch >= 'a') & (ch <= 'f')) | ((ch >= 'A') & (ch <= 'F')));
      t.n = t.n * 16 + Z(sxb_of_u64((ch & 15) + (ch >> 6) * 9));
    }
    t.w = 4 * digs;
    t.text = "#x" + d;
  }
  return t;
}
static void denotes(const Expr& e, const Tok& t)
{
  sx_check(isKind(e, t.k), "the token is a literal of its category");
  if (t.k == Kind::NUMERAL)
    check(zeq(intOf(e), t.n), "value of a numeral");
  else if (t.k == Kind::RATIONAL || t.k == Kind::DECIMAL)
  {
    check(zlt(0, denOf(e)), "positive denominator");
    check(zeq(numOf(e) * t.d, t.n * denOf(e)), "value of a rational");
  }
  else
  {
    sx_check(widthOf(e) == t.w, "width of a bit-vector");
    check(zeq(bvOf(e), t.n), "value of a bit-vector");
  }
}
static const char* cn[] = {"numeral", "rational", "decimal", "binary", "hexadecimal"};
static void cValue()
{
  unsigned c = pick("category", 3, 5);
  Tok t = token("x", c, 1 + pick("digits", 3, c == 1 || c == 2 ? bits(1, 2) : bits(4, 6)));
  denotes(W->term(t.text), t);
  sx_reach(cn[c]);
}
// long tokens: free digits at both ends of a run of equal ones
static void cLong()
{
  static const unsigned lens[] = {8, 9, 10, 15, 16, 17, 19, 20, 31, 32, 33, 38, 63, 64, 65, 128};
  unsigned c = pick("category", 3, 5);
  unsigned len = lens[pick("length", 4, bits(12, 16))];
  static const char fills[] = "0917";
  char fill = fills[pick("fill", 2, 2)];
  if (c == 3 && fill == '9') fill = '1';
  bool neg = c < 3 && pick("neg", 1, 2);
  Tok t;
  t.c = c;
  t.k = kindOf[c];
  t.d = 1;
  int base = c == 3 ? 2 : c == 4 ? 16 : 10;
  str run(len - 2, fill), a = symDigits("first", 1, c == 3 ? 2 : 10), b = symDigits("last", 1, c == 3 ? 2 : 10);
  if (c < 3)
  {
    sx_assume(a[0] < '2');
    if (!sx_tier()) sx_assume((b[0] == '0') | (b[0] == '1') | (b[0] == '5'));
    sx_conc(a[0]);
    sx_conc(b[0]);
  }
  str d = a + run + b;
  t.n = 0;
  for (unsigned char ch : d) t.n = t.n * base + Z(sxb_of_u64(ch - '0'));
  if (c == 1)
  {
    // the long part above, below or on both sides
    unsigned shape = pick("shape", 2, 3);
    if (shape)
    {
      assume(zlt(0, t.n));
      t.d = t.n;
      t.n = shape == 1 ? 6 : 0;
      str up = shape == 1 ? "6" : str(len, '3');
      if (shape == 2)
        for (char ch : up) t.n = t.n * 10 + Z(ch - '0');
      t.text = up + "/" + d;
    }
    else
    {
      t.d = 6;
      t.text = d + "/6";
    }
  }
  else if (c == 2)
  {
    // all digits after the point, all before, or half of them
    unsigned shape = pick("shape", 2, 3), k = shape == 0 ? 0 : shape == 1 ? len - 1 : len / 2;
    t.text = (k ? d.substr(0, k) : str("0")) + "." + d.substr(k);
    for (unsigned i = k; i < len; i++) t.d = t.d * 10;
  }
  else
    t.text = (c == 3 ? "#b" : c == 4 ? "#x" : "") + d;
  if (c > 2) t.w = len * (c == 3 ? 1 : 4);
  if (neg)
  {
    t.text = "-" + t.text;
    t.n = -t.n;
  }
  Expr e = W->term(t.text);
  denotes(e, t);
  // proofs may normalise, and printing reads again
  if (c != 2)
  {
    std::ostringstream os;
    os << e;
    sx_check(W->term(os.str()) == e, "the printed literal reads as the same term");
  }
  sx_reach("long");
}
static Z same(const Tok& a, const Tok& b)
{
  return a.k == b.k && a.w == b.w ? zeq(a.n * b.d, b.n * a.d) : Z(0);
}
// two tokens are one term if and only if they denote the same
static void cIdentity()
{
  unsigned c1 = pick("category1", 3, 5), c2 = pick("category2", 3, 5);
  sx_assume(sx_tier() || c1 <= c2);
  unsigned n1 = 1, n2 = 1;
  if (c1 != 1 || c2 != 1)
  {
    n1 += pick("digits1", 2, 2);
    n2 += pick("digits2", 2, bits(2, 3));
  }
  Tok a = token("x", c1, n1, true), b = token("y", c2, n2, true);
  Expr x = W->term(a.text);
  Expr y = W->term(b.text);
  Z s = same(a, b);
  if (x == y)
  {
    check(s, "one term only for the same category, value and width");
    sx_reach("same");
  }
  else
  {
    check(znot(s), "one term for the same category, value and width");
    sx_reach("different");
  }
}
// normalisation options apply to proofs and references only
static void cNorm()
{
  W->opts.d_normalizeDecimal = pick("normalize-decimal", 1, 2);
  W->opts.d_normalizeHexadecimal = pick("normalize-hex", 1, 2);
  W->opts.d_normalizeNumeral = pick("normalize-num", 1, 2);
  bool sig = pick("signature", 1, 2);
  unsigned c = pick("category", 3, 5);
  Tok t = token("x", c, bits(1, 2), true);
  Expr e = W->term(t.text, sig);
  if (!sig)
  {
    if (c == 0 && W->opts.d_normalizeNumeral) t.k = Kind::RATIONAL;
    if (c == 2 && W->opts.d_normalizeDecimal) t.k = Kind::RATIONAL;
    if (c == 4 && W->opts.d_normalizeHexadecimal) t.k = Kind::BINARY;
  }
  denotes(e, t);
  sx_reach(t.k != kindOf[c] ? "normalised" : "not normalised");
}
// printing and reading again
static void cPrint()
{
  unsigned c = pick("category", 3, 5);
  sx_assume(c != 2);
  Tok t = token("x", c, 1 + pick("digits", 2, c == 0 ? bits(2, 3) : c == 1 ? 1 : bits(3, 4)), true);
  Expr e = W->term(t.text);
  std::ostringstream os;
  os << e;
  Expr f = W->term(os.str());
  sx_check(e == f, "the printed literal reads as the same term");
  sx_reach("printed");
}
static int hexVal(unsigned char c)
{
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
// the code points of a string literal, as SMT-LIB defines its escapes
static std::vector<unsigned> decode(const str& b)
{
  std::vector<unsigned> r;
  for (size_t i = 0; i < b.size();)
  {
    if (b[i] == '\\' && i + 1 < b.size() && b[i + 1] == 'u')
    {
      size_t j = i + 2;
      bool brace = j < b.size() && b[j] == '{';
      if (brace) j++;
      unsigned v = 0, n = 0;
      while (j < b.size() && n < (brace ? 6 : 4))
      {
        int h = hexVal(b[j]);
        if (h < 0) break;
        v = v * 16 + h;
        n++;
        j++;
      }
      bool ok = brace ? n >= 1 && n <= 5 && j < b.size() && b[j] == '}' : n == 4;
      if (ok && v < 196608)
      {
        r.push_back(v);
        i = j + brace;
        continue;
      }
    }
    r.push_back((unsigned char)b[i++]);
  }
  return r;
}
static bool printable(const str& b)
{
  int ok = 1;
  for (unsigned char c : b) ok &= (c >= 32) & (c < 127);
  return ok;
}
static void expectStr(const Expr& e, const str& content)
{
  std::vector<unsigned> s = decode(content);
  sx_check(isKind(e, Kind::STRING), "a string token is a string literal");
  const std::vector<unsigned>& r = lit(e)->d_str.d_str;
  sx_check(r.size() == s.size(), "length of a string literal");
  for (size_t i = 0; i < s.size(); i++) sx_check(r[i] == s[i], "characters of a string literal");
}
static str strip(const str& b)  // doubled quotes
{
  str r;
  for (size_t i = 0; i < b.size(); i++)
  {
    r += b[i];
    if (b[i] == '"') i++;
  }
  return r;
}
static void checkString(const str& content, const char* reach)
{
  for (unsigned char c : content) sx_assume(c != 127);
  if (!printable(content))
  {
    Out o = guarded([&]() { W->term("\"" + content + "\""); });
    sx_check(o.diagnosed(), "an unprintable character in a string is diagnosed");
    sx_reach("unprintable");
    return;
  }
  Expr e = W->term("\"" + content + "\"");
  expectStr(e, strip(content));
  sx_reach(reach);
  // print and read again
  std::ostringstream os;
  os << e;
  sx_check(W->term(os.str()) == e, "the printed string reads as the same term");
}
static void cStr()
{
  str b = symBytes("byte", pick("length", 3, bits(3, 4)));
  for (unsigned char c : b) sx_assume(c != '"');
  unsigned at = pick("quote", 3, b.size() + 2);
  if (at <= b.size()) b.insert(at, "\"\"");
  checkString(b, "string");
}
static void cEsc()
{
  static const char* skel[] = {"\\u{?}", "\\u{?1}", "\\u{2?}", "\\u{0?41}", "\\u{1?f3e}", "\\u{?F3e1}", "\\u{2fff?}",
                               "\\u{123?4}", "\\u{12345?}", "\\u?041", "\\u00?1", "\\u004?", "\\u004?1", "\\u{41?",
                               "\\u?41}", "\\?{41}", "?u{41}", "\\u{41?}", "\\u{4?", "\\u{?", "\\u?", "\\?", "\\\\u004?",
                               "\\u\\u004?", "\\u{\\u004?", "\\u{3?000}", "\\u{?}a", "a\\u{?}"};
  const int n = sizeof(skel) / sizeof(skel[0]);
  str b = skel[pick("skeleton", 5, n)];
  size_t p = b.find('?');
  b[p] = symBytes("byte", 1)[0];
  sx_assume(b[p] != '"');
  checkString(b, "escape");
}
static void cStrIdentity()
{
  static const char* forms[] = {"?", "\\u{?}", "\\u{0?}", "\\u{4?}", "\\u004?", "\\u00?1", "?b", "\"\""};
  unsigned f1 = pick("form1", 3, 8), f2 = pick("form2", 3, 8);
  sx_assume(sx_tier() || f1 <= f2);
  str a = forms[f1], b = forms[f2];
  for (str* s : {&a, &b})
  {
    size_t p = s->find('?');
    if (p == str::npos) continue;
    (*s)[p] = symBytes(s == &a ? "byte1" : "byte2", 1)[0];
    unsigned char c = (*s)[p];
    sx_assume((c >= 32) & (c < 127) & (c != '"'));
  }
  Expr x = W->term("\"" + a + "\""), y = W->term("\"" + b + "\"");
  sx_check((x == y) == (decode(strip(a)) == decode(strip(b))), "string literals are one term iff they spell one value");
  sx_reach(x == y ? "same string" : "different strings");
}
static void cBad()
{
  // a symbolic byte in a token where it makes the token malformed
  static const char* skel[] = {"#b?", "#x?", "#?1", "5/?", "5.?", "-5.?", "5/0?", "0/00", "-5/0", "-5/00", ":?", "#"};
  unsigned w = pick("skeleton", 4, 12);
  str t = skel[w];
  size_t p = t.find('?');
  unsigned char c = 0;
  if (p != str::npos)
  {
    t[p] = symBytes("byte", 1)[0];
    c = t[p];
  }
  bool ok;
  switch (w)
  {
    case 0: ok = c == '0' || c == '1'; break;
    case 1: ok = hexVal(c) >= 0; break;
    case 2: ok = c == 'b' || c == 'x'; break;
    case 3: ok = c >= '1' && c <= '9'; break;
    case 4: ok = c >= '0' && c <= '9'; break;
    case 5: ok = true; break;
    case 6: ok = c >= '1' && c <= '9'; break;
    default: ok = false; break;
  }
  if (w == 5 && (c < '0' || c > '9')) return;  // a symbol or two tokens
  Expr e;
  Out o = guarded([&]() { e = W->term(t); });
  if (ok)
  {
    sx_check(o.kind == SX_RETURN && !e.isNull() && isLiteral(e.getKind()), "a well-formed token is accepted");
    sx_reach("well-formed");
  }
  else
  {
    sx_check(o.diagnosed(), "a malformed token is diagnosed");
    sx_reach("malformed");
  }
}
static void setup() { W = new World; }
void (*sx_setup)() = setup;
CASES({"value", cValue}, {"long", cLong}, {"identity", cIdentity}, {"normalise", cNorm}, {"print", cPrint}, {"string", cStr},
      {"escape", cEsc}, {"strident", cStrIdentity}, {"bad", cBad});
