// C07: layout, comments and quoting do not change what an input means
#include "terms.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = 1;
  while ((1u << bits) < n) bits++;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
// Texts are written as tokens with spaces between them; 'x is a symbol that
// may be quoted, ~ is a space inside of a string.
static const char* SIG =
    "( 'declare-const 'Int Type ) ( 'declare-const 'Set ( '-> Type Type ) ) ( 'declare-consts <numeral> 'Int ) ( 'declare-const 'P ( '-> 'Int Bool ) ) ( 'declare-const 'f ( '-> 'Int 'Int 'Int ) ) "
    "( 'declare-const 'or ( '-> Bool Bool Bool ) :right-assoc-nil 'false ) ( 'declare-parameterized-const '= ( ( 'T Type :implicit ) ) ( '-> 'T 'T Bool ) ) "
    "( 'declare-const 'forall ( '-> 'eo::List Bool Bool ) :binder 'eo::List::cons ) ( 'declare-const 'c 'Int ) ( 'declare-parameterized-const 'none ( ( 'U Type :implicit ) ) ( 'Set 'U ) ) "
    "( 'program '$p ( ( 'N 'Int ) ( 'M 'Int ) ) :signature ( 'Int ) 'Int ( ( ( '$p ( 'f 'N 'M ) ) 'M ) ( ( '$p 'N ) 0 ) ) ) "
    "( 'declare-rule 'id ( ( 'F Bool ) ) :premises ( 'F ) :conclusion 'F ) ( 'declare-rule 'lt ( ( 'n 'Int ) ) :args ( 'n ) :requires ( ( ( 'eo::gt 3 'n ) 'true ) ) :conclusion ( 'P ( '$p ( 'f 5 'n ) ) ) ) "
    "( 'declare-rule 'sc ( ( 'F Bool ) ( 'G Bool ) ) :assumption 'F :premises ( 'G ) :conclusion ( 'or 'F 'G ) ) ( 'define 'd ( ( 'x 'Int ) ) ( 'f 'x -1 ) ) "
    "( 'declare-datatype 'D ( ( 'k0 ) ( 'k1 ( 's 'D ) ) ) ) ";
static const char* PROOF =
    "( 'assume '@p0 ( 'or ( 'P 'c ) 'true ) ) ( 'step '@p1 ( 'P 2 ) :rule 'lt :args ( 2 ) ) ( 'step '@p2 ( 'or ( 'P 'c ) 'true ) :rule 'id :premises ( '@p0 ) ) "
    "( 'declare-const 'a~b 'Int ) ( 'define '@t ( ) ( 'forall ( ( 'y 'Int ) ( 'z Bool ) ) ( 'or 'z ( 'P 'y ) ) ) ) ( 'assume-push '@p3 '@t ) ( 'step '@p4 :rule 'id :premises ( '@p3 ) ) ( 'step-pop '@p5 ( 'or '@t '@t ) :rule 'sc :premises ( '@p4 ) ) "
    "( 'echo \"a~b\" ) ( 'push ) ( 'define '@u ( ( 'w 'Int ) ) ( 'd 'w ) ) ( 'step '@p6 ( 'P ( '$p ( '@u 1 ) ) ) :rule 'lt :args ( ( 'eo::neg 1 ) ) ) ( 'pop ) ";
static const char* TERMS[] = {
    "( 'or ( 'P 'c ) ( 'P ( 'f 'c 1 ) ) 'true )", "( 'forall ( ( 'x 'Int ) ( 'y Bool ) ) ( 'or 'y ( 'P 'x ) ) )", "( '_ 'f 'c )", "( ( '_ 'f 'c ) 12 )", "( '= ( 'as 'none ( 'Set 'Int ) ) ( 'as 'none ( 'Set 'Int ) ) )", "( 'eo::extract \"a~b\" 0 1 )",
    "( eo::define ( ( 'x ( 'f 1 'c ) ) ( 'y #b01 ) ) ( '= 'x ( 'f 'x ( 'eo::to_z 'y ) ) ) )", "( ! ( 'f -12 #xaf ) )", "( 'eo::concat \"a\" \"\" \"b\"\"c\" )", "( 'k1 ( 'k1 'k0 ) )", "( '$p ( 'f 'c -3/4 ) )", "( 'eo::var \"x~y\" 'Int )", "( 'd 1 )", "'c", "12", "\"a;b\"", "( 'f 1.50 1/2 )"};
static std::vector<str> tokens(const str& t)
{
  std::vector<str> r;
  std::istringstream s(t);
  str w;
  while (s >> w)
  {
    for (char& c : w)
      if (c == '~') c = ' ';
    r.push_back(w);
  }
  return r;
}
static bool paren(const str& t) { return t == "(" || t == ")"; }
// white space and comments, as the reader of the manual sees them
static bool separator(const str& s)
{
  size_t i = 0;
  while (i < s.size())
  {
    unsigned char c = s[i++];
    if (c == ';')
    {
      while (i < s.size() && s[i] != '\n') i++;
      if (i++ >= s.size()) return false;
    }
    else if (!((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'))) return false;
  }
  return true;
}
static bool needsQuotes(const str& s) { return s.find(' ') != str::npos; }
// the tokens with one space between them
static str plain(const std::vector<str>& t)
{
  str r;
  for (const str& x : t) r += (x[0] == '\'' ? needsQuotes(x) ? "|" + x.substr(1) + "|" : x.substr(1) : x) + " ";
  return r;
}
// ... and with any separators and quotes; at: where any bytes are
static str layout(const std::vector<str>& t, size_t at, const str& bytes, unsigned style, unsigned quote, size_t from)
{
  static const char* sep[] = {" ", "", ";;)\" |\n", "\n", "\t \r\n", "\r"};
  str r;
  for (size_t i = 0; i < t.size(); i++)
  {
    bool q = t[i][0] == '\'' && (needsQuotes(t[i]) || (quote == 1 && i == at) || quote == 2) && i >= from;
    q |= needsQuotes(t[i]) && t[i][0] == '\'';
    r += q ? "|" + t[i].substr(1) + "|" : t[i][0] == '\'' ? t[i].substr(1) : t[i];
    bool free = paren(t[i]) || i + 1 == t.size() || paren(t[i + 1]);
    if (i == at)
    {
      if (bytes.empty()) sx_assume(free);
      r += bytes;
    }
    else
      r += style == 1 && !free ? " " : sep[style];
  }
  return r;
}
static str anySeparator(unsigned max)
{
  str b = symBytes("separator", choose(max + 1));
  sx_assume(separator(b));
  return b;
}
// ------------------------------------------------------------------ terms
static World* base;
static void cTerms()
{
  std::vector<str> t = tokens(TERMS[choose(sizeof(TERMS) / sizeof(TERMS[0]))]);
  size_t at = choose(t.size());
  str b = anySeparator(sx_tier() ? 3 : 2);
  str v = layout(t, at, b, choose(sx_tier() ? 6 : 3), choose(3), 0);
  W = base;
  Expr e = W->term(plain(t));
  sx_note("input", v.c_str());
  Expr r;
  Out o = guarded([&]() { r = W->term(v); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.kind == SX_RETURN, "a term in another layout is not read");
  sx_check(r == e, "a term in another layout is another term");
  sx_reach("terms");
}
// ------------------------------------------------------------------ proofs
static Out run(const str& sig, const str& t, bool stream = false)
{
  sx_note("input", t.c_str());
  std::vector<str> args = {"--include=" + putFile("sig.eo", sig)};
  Out o;
  if (stream) o = runMain(args, &t);
  else
  {
    args.push_back(putFile("p.smt3", t));
    o = runMain(args);
  }
  sx_note("output", (o.out + o.err).c_str());
  return o;
}
static void cProofs()
{
  std::vector<str> s = tokens(SIG), p = tokens(PROOF);
  bool inSig = choose(2);
  std::vector<str>& t = inSig ? s : p;
  // a wrong proof remains one
  bool wrong = choose(2);
  if (wrong)
    for (str& x : p)
      if (x == "2") { x = "3"; break; }
  size_t at = choose(t.size());
  if (!sx_tier() && wrong) sx_assume(at % 8 == 0);
  str b = anySeparator(sx_tier() ? 2 : 1);
  unsigned style = sx_tier() ? choose(6) : 1 + choose(2), quote = choose(3);
  // tokens after which the quoted form is a symbol like any other; names of commands are no symbols
  int depth = 0;
  for (size_t i = 0; i < t.size(); i++)
  {
    depth += t[i] == "(" ? 1 : t[i] == ")" ? -1 : 0;
    if (t[i][0] == '\'' && depth == 1 && t[i - 1] == "(") t[i] = t[i].substr(1);
  }
  str v = layout(t, at, b, style, quote, 0);
  for (std::vector<str>* q : {&s, &p})
    if (q != &t)
    {
      str w = plain(*q);
      Out o = inSig ? run(v, w) : run(w, v, choose(2));
      sx_check(o.accepted() == !wrong, "the verdict depends on the layout");
      sx_check(!o.accepted() || o.out == "a b\ncorrect\n", "the output depends on the layout");
    }
  sx_reach(wrong ? "wrong" : "proofs");
}
// ---------------------------------------------------------------- comments
static void cComments()
{
  str b = symBytes("comment", 1 + choose(sx_tier() ? 3 : 2));
  static const char* frame[] = {"(echo \"a\");%(echo \"b\")\n(echo \"c\")", ";%\n(echo \"c\")", "(echo ;%\n\"c\")", "(echo \"a\")\n;%", "(echo \"a\") (assume @p true);;%|\n", "(echo \";%\")", "(assume @p (or true;%\n false)) (step @q (or true false) :rule id :premises (@p))"};
  unsigned k = choose(7);
  str t = frame[k], u;
  size_t at = t.find('%');
  t = t.substr(0, at) + b + t.substr(at + 1);
  // without the comment
  if (k == 5) for (unsigned char c : b) sx_assume((c >= 32) & (c < 127));
  if (k == 5) u = t, sx_assume(b[0] != '"' && (b.size() < 2 || b[1] != '"') && (b.size() < 3 || b[2] != '"'));
  else
  {
    size_t i = t.find(';'), j = i;
    while (j < t.size() && t[j] != '\n') j++;
    u = t.substr(0, i) + t.substr(j);
  }
  static str sig = plain(tokens(SIG));
  bool s = choose(2);
  Out x = run(sig, t, s), y = run(sig, u, s);
  sx_check(x.accepted() == y.accepted() && !x.crashed(), "a comment changes the verdict");
  sx_check(!x.accepted() || x.out == y.out, "a comment changes the output");
  if (k == 1 && b.find('\n') == str::npos) sx_check(x.accepted() && x.out == "c\ncorrect\n", "a comment extends beyond its line");
  if (k == 3 && b.find('\n') == str::npos) sx_check(x.accepted() && x.out == "a\ncorrect\n", "a comment at the end");
  if (k == 5) sx_check(x.accepted() && x.out == ";" + b + "\ncorrect\n", "a comment in a string");
  sx_reach("comments");
}
// ----------------------------------------------------------------- symbols
static bool simple(unsigned char c)
{
  return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '~') | (c == '!') | (c == '@') | (c == '$') | (c == '%') | (c == '^') | (c == '&') | (c == '*') | (c == '_') | (c == '-') | (c == '+') | (c == '=') | (c == '<') | (c == '>') | (c == '.') | (c == '?') | (c == '/') | (c == ':');
}
static str symbol(const char* n, unsigned max, bool& quoted)
{
  str s = symBytes(n, choose(max + 1));
  for (unsigned char c : s) sx_assume((c != '|') & (c != 0));  // null characters are rejected
  quoted = !choose(2);
  if (!quoted)
  {
    sx_assume(s.size() > 0);
    for (unsigned char c : s) sx_assume(simple(c));
    unsigned char c = s[0];
    sx_assume(!((c >= '0') & (c <= '9')) & (c != ':'));
    // negative numerals and attributes
    if (c == '-' && s.size() > 1) sx_assume(!((unsigned char)s[1] >= '0' && (unsigned char)s[1] <= '9'));
    if (s.size() == 1) sx_assume(c != '!');
  }
  return s;
}
static void cSymbols()
{
  bool q, r;
  unsigned m = sx_tier() ? 2 : 1;
  str a, b;
  // words that are close to each other
  static const char* words[] = {"or", "eo::", "a b", "-1", "1", ":a", "\"a\"", "(", "#b1", "a\nb", "_v", "abcdefgh", ""};
  unsigned k = choose(14);
  a = symbol("first", m, q);
  if (k < 13) b = words[k], r = true;
  else b = symbol("second", m, r);
  if (k < 13 && choose(2)) a = words[k] + a, q = true;
  sx_assume(a != "or" && b != "or" && a != "f" && b != "f" && a != "c" && b != "c" && a != "=" && b != "=" && a != "_" && b != "_" && a != "P" && b != "P" && a != "d" && b != "d" && a != "D" && b != "D");
  W = base;
  str ta = q ? "|" + a + "|" : a, tb = r ? "|" + b + "|" : b;
  sx_note("first", ta.c_str());
  sx_note("second", tb.c_str());
  Out o = guarded([&]() {
    // every name is new
    for (const str* x : {&a, &b}) sx_assume(*x != "->" && *x != "as" && *x != "Int" && *x != "Set");
    W->cmds("(declare-const " + ta + " Int)");
    W->cmds("(declare-const " + tb + " Bool)");
  });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.kind == SX_RETURN, "a symbol is not declared");
  Expr x, y, z;
  o = guarded([&]() { x = W->term("|" + a + "|"); y = W->term("|" + b + "|"); z = W->term(ta); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.kind == SX_RETURN, "a symbol is not found");
  if (a == b) sx_check(x == y, "a symbol is not the same in both forms");
  else
  {
    sx_check(!(x == y), "different symbols are confused");
    sx_check(W->st->getTypeChecker().getType(x) == W->term("Int"), "another symbol");
  }
  sx_check(x == z, "a symbol is not the same in quotes");
  sx_check(W->st->getTypeChecker().getType(y) == W->term("Bool"), "another symbol");
  sx_check(y.getSymbol() == b && x.getSymbol() == a, "the name of a symbol");
  sx_reach(a == b ? "same" : "different");
}
// ------------------------------------------------------ keywords and words
static void cWords()
{
  static const char* words[] = {":right-assoc", ":list", ":left-assoc-nil", ":premises", ":args", ":rule", ":conclusion", ":signature", ":type", ":implicit", "declare-const", "step", "Bool", "Type", "eo::define", "assume-push", "<numeral>", "true"};
  static const char* frame[] = {"(declare-const g (-> Int Int Int) %) (step @z (= (g c c c) (g c (g c c))) :rule id :premises (@a))", "(define g ((x Bool %)) (or x false)) (assume @b (g (or true)))", "(declare-const g (-> Bool Bool Bool) % true)  (assume @b (g false))", "(step @z :rule id % (@a))", "(step @z :rule lt % (1))", "(step @z % id :premises (@a))", "(declare-rule z () % true)",
    "(program $q ((x Int)) % (Int) Int ((($q x) x)))", "(define z () true % Bool)", "(declare-parameterized-const z ((T Type %) (x T)) Bool) (define @z () (z 1))", "(% zz Int)", "(% @z :rule lt :args (1))", "(declare-const zz %)", "(declare-const zz %)", "(define zz () (% ((x 1)) x))", "(% @y true) (step-pop @w :rule sc :premises (@y))", "(declare-consts % Int)", "(assume zz %)"};
  unsigned k = choose(18);
  str w = words[k], f = frame[k];
  str v = w;
  // another word, one byte of which is any
  size_t at = choose(w.size() + 1);
  unsigned char b = symBytes("byte", 1)[0];
  sx_assume(simple(b));
  if (choose(2)) v.insert(at, 1, b);
  else { sx_assume(at < w.size()); v[at] = b; }
  bool same = v == w;
  W = base;
  str t = f;
  t.replace(t.find('%'), 1, v);
  sx_note("input", t.c_str());
  Out o = guarded([&]() { W->cmds("(declare-const @a0 Bool) (assume @a true) " + t); });
  sx_note("output", (o.out + o.err).c_str());
  // what is expected of the word itself
  bool ok = o.kind == SX_RETURN;
  sx_check(ok || o.diagnosed(), "neither accepted nor diagnosed");
  if (same)
  {
    if (k == 0) sx_check(!ok, "the frame");  // id of another formula
    else if (k != 1 && k != 2 && k != 9) sx_check(ok, "a word is not accepted");
  }
  else
  {
    // another word that is known in its place
    static const std::vector<std::vector<str>> also = {{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {"declare-fun"}, {}, {}, {}, {}, {}, {}, {}};
    bool attr = k < 3 || k == 9 || k == 8;
    if (attr)
    {
      // unknown attributes are reported
      sx_check(!ok || o.out.find("nsupported") != str::npos || o.out.find("nhandled") != str::npos || o.err.find("nsupported") != str::npos || o.err.find("nhandled") != str::npos, "another word is taken for an attribute");
    }
    else sx_check(!ok, "another word is taken for the word");
  }
  sx_reach("words");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  base = new World();
  base->cmds(plain(tokens(SIG)));
}
void (*sx_setup)() = setup;
CASES({"terms", cTerms}, {"proofs", cProofs}, {"comments", cComments}, {"symbols", cSymbols}, {"words", cWords});
