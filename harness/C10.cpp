// C10: core operators decide syntactic equality and control evaluation as specified
#include "terms.h"

static bool ground(const T& t)
{
  if (t.op == "X" || t.op == "Y") return false;
  for (const T& c : t.k)
    if (!ground(c)) return false;
  return true;
}
static bool stuck(const T& t)
{
  if ((t.op[0] == '$' && t.k.size()) || t.op.compare(0, 4, "eo::") == 0) return true;
  for (const T& c : t.k)
    if (stuck(c)) return true;
  return false;
}
static bool value(const T& t) { return ground(t) && !stuck(t); }
static T B(bool b) { return T{b ? "true" : "false", {}}; }
static bool isBool(const T& t) { return t.k.empty() && (t.op == "true" || t.op == "false"); }
// the category of a literal: z, d(ecimal), q, s(tring), b(inary), h, or that of another term
static char cat(const T& t)
{
  if (isBool(t)) return 'B';
  if (t.k.size()) return 'a';
  if (t.op[0] == '"') return 's';
  if (t.op[0] == '#') return t.op[1];
  if (t.op[0] >= '0' && t.op[0] <= '9') return t.op.find('.') != str::npos ? 'd' : t.op.find('/') != str::npos ? 'q' : 'z';
  if (t.op == "v" || t.op == "w") return 'v';
  if (t.op == "Bool") return 't';
  return 'c';
}
// the type of a value ("" if it has none)
static bool typeOf(const T& t, T& r)
{
  switch (cat(t))
  {
    case 'B': r = T{"Bool", {}}; return true;
    case 'z': r = T{"Int", {}}; return true;
    case 'd': case 'q': r = T{"Real", {}}; return true;
    case 's': r = T{"Str", {}}; return true;
    case 'b': case 'x': r = T{"BV", {}}; return true;
    case 'v': r = T{t.op == "v" ? "Int" : "Bool", {}}; return true;
    case 't': r = T{"Type", {}}; return true;
    case 'c':
      if (t.op == "x" || t.op == "y") r = T{"Int", {}};
      else if (t.op == "f") r = T{"->", {T{"Int", {}}, T{"Int", {}}}};
      else if (t.op == "P") r = T{"->", {T{"Int", {}}, T{"Bool", {}}}};
      else r = T{"Type", {}};
      return true;
    default:
    {
      if (t.op == "->") { r = T{"Type", {}}; return true; }
      T a;
      if (!typeOf(t.k[0], a) || !(a == T{"Int", {}})) return false;
      r = T{t.op == "f" ? "Int" : "Bool", {}};
      return true;
    }
  }
}
static T eval(const T& t)
{
  if (t.op == "eo::ite")
  {
    T c = eval(t.k[0]);
    if (isBool(c)) return eval(t.k[c.op == "true" ? 1 : 2]);
    return T{t.op, {c, eval(t.k[1]), eval(t.k[2])}};
  }
  T r{t.op, {}};
  bool g = true, s = false;
  for (const T& c : t.k)
  {
    r.k.push_back(eval(c));
    g = g && ground(r.k.back());
    s = s || stuck(r.k.back());
  }
  const str& o = t.op;
  if (o == "$part" && r.k.size())
    return g && !s && r.k[0].op == "f" && r.k[0].k.size() ? r.k[0].k[0] : r;
  if (o.compare(0, 4, "eo::")) return r;
  if (o == "eo::requires") return value(r.k[0]) && value(r.k[1]) && r.k[0] == r.k[1] ? r.k[2] : r;
  if (!g) return r;
  if (o == "eo::is_ok") return B(!s);
  if (o == "eo::is_eq") return B(!s && r.k[0] == r.k[1]);
  if (o == "eo::eq") return s ? r : B(r.k[0] == r.k[1]);
  if (o == "eo::neg") return r;  // only used on what it does not evaluate on
  char k = cat(r.k[0]);
  if (o == "eo::is_z") return B(k == 'z');
  if (o == "eo::is_q") return B(k == 'q');
  if (o == "eo::is_bin") return B(k == 'b');
  if (o == "eo::is_str") return B(k == 's');
  if (o == "eo::is_bool") return B(k == 'B');
  if (o == "eo::is_var") return B(k == 'v');
  if (o == "eo::nameof") return k == 'v' || k == 'c' ? T{"\"" + r.k[0].op + "\"", {}} : r;
  T ty;
  if (o == "eo::typeof") return !s && typeOf(r.k[0], ty) ? ty : r;
  if (o == "eo::not") return isBool(r.k[0]) ? B(r.k[0].op == "false") : r;
  bool b = isBool(r.k[0]) && isBool(r.k[1]);
  if (!b) return r;
  bool p = r.k[0].op == "true", q = r.k[1].op == "true";
  return B(o == "eo::and" ? p && q : o == "eo::or" ? p || q : p != q);
}
// ------------------------------------------------------------------- inputs
static int nDigits;
static str digit(unsigned n)
{
  str d = symDigits(("digit" + std::to_string(nDigits++)).c_str(), 1);
  sx_assume((unsigned char)d[0] < '0' + n);
  return d;
}
static str fill(const str& s, unsigned n = 2)
{
  str r;
  for (char c : s)
    if (c == '~') r += digit(n);
    else r += c;
  return r;
}
static const std::vector<const char*> LEAVES = {
    "~", "(f ~)", "x", "true", "(eo::neg x)", "($part ~)", "X", "v", "(f X)", "($part (f ~))", "false", "Int", "~.0", "\"~\"", "~/1", "#b0~",
    "f", "(f true)", "(-> Int Bool)", "w", "#x~", "Bool", "(eo::is_ok X)", "(P (eo::neg x))"};
static T leaf(const str& n, size_t q = 99)
{
  return parse(fill(LEAVES[pick((n + " form").c_str(), 5, q < LEAVES.size() ? q : LEAVES.size())]));
}
// the value read directly, and computed later by programs and definitions
static void evaluates(const T& t, bool later = true)
{
  T want = eval(t);
  sx_note("term", text(t).c_str());
  sx_note("expected", text(want).c_str());
  Out o = guarded([&]() {
    Expr w = build(want);
    sx_check(W->term(text(t)) == w, "value of an operator");
    if (!later) return;
    // in the body of a program and of a definition, where # stands for a parameter
    str p = text(t);
    bool has = false;
    for (size_t i = 0; i + 1 < p.size(); i++)
      if (p[i] == '1' && (p[i - 1] == ' ') && (p[i + 1] == ')' || p[i + 1] == ' ')) { p[i] = 'N'; has = true; }
    if (!has || !ground(t)) return;
    W->cmds("(program $later ((N Int)) :signature (Int) Int ((($later N) " + p + ")))\n(define later ((N Int)) " + p + ")\n");
    sx_check(W->term("($later 1)") == w, "value of an operator in a program");
    sx_check(W->term("(later 1)") == w, "value of an operator in a definition");
    sx_reach("later");
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
  sx_reach(!ground(want) ? "non-ground" : want == t ? "not evaluated" : stuck(want) ? "partly evaluated" : "evaluated");
}
static const char* UNARY[] = {"eo::is_ok", "eo::is_z", "eo::is_q", "eo::is_bin", "eo::is_str", "eo::is_bool", "eo::is_var", "eo::typeof", "eo::nameof", "eo::not"};
// the Boolean operators are bitwise on binary and hexadecimal literals, which C02 covers
static bool bitwise(const T& t)
{
  bool r = false;
  for (const T& c : t.k) r = r || bitwise(c) || c.op[0] == '#';
  return r;
}
static const char* BINARY[] = {"eo::eq", "eo::is_eq", "eo::and", "eo::or", "eo::xor"};
static void cUnary()
{
  str op = UNARY[pick("operator", 4, 10)];
  T a = leaf("argument");
  if (pick("nested", 1, 2)) a = T{UNARY[pick("inner operator", 4, sx_tier() ? 10 : 3)], {a}};
  sx_assume(!(op == "eo::not" && bitwise(T{op, {a}})));
  evaluates(T{op, {a}});
}
static void cBinary()
{
  str op = BINARY[pick("operator", 3, 5)];
  T t{op, {leaf("first", sx_tier() ? 99 : 12), leaf("second", sx_tier() ? 99 : 10)}};
  sx_assume(op == "eo::eq" || op == "eo::is_eq" || !bitwise(t));
  evaluates(t);
}
static void cControl()
{
  bool req = pick("requires", 1, 2);
  size_t q = sx_tier() ? 99 : 8;
  if (req)
    evaluates(T{"eo::requires", {leaf("first", q), leaf("second", q), leaf("third", sx_tier() ? 12 : 3)}});
  else
  {
    T c = leaf("condition", sx_tier() ? 99 : 6);
    if (pick("compared", 1, 2)) c = T{BINARY[pick("operator", 1, 2)], {c, leaf("condition 2", sx_tier() ? 99 : 3)}};
    evaluates(T{"eo::ite", {c, leaf("then", sx_tier() ? 12 : 2), leaf("else", sx_tier() ? 12 : 5)}});
  }
}
// operators below operators
static void cNested()
{
  auto inner = [&](const str& n) {
    unsigned k = pick((n + " operator").c_str(), 3, 5);
    T a = leaf(n, sx_tier() ? 10 : 6);
    switch (k)
    {
      case 0: return a;
      case 1: return T{"eo::is_ok", {a}};
      case 2: return T{"eo::eq", {a, T{"1", {}}}};
      case 3: return T{"eo::requires", {a, T{"1", {}}, T{"true", {}}}};
      default: return T{"eo::ite", {T{"eo::is_eq", {a, T{"1", {}}}}, T{"false", {}}, T{"$part", {T{"1", {}}}}}};
    }
  };
  unsigned k = pick("operator", 3, 5);
  T a = inner("first");
  if (k == 0) evaluates(T{"eo::is_ok", {a}});
  else if (k == 1) evaluates(T{"f", {a}});
  else if (k == 2) evaluates(T{"eo::is_eq", {a, inner("second")}});
  else if (k == 3) evaluates(T{"eo::and", {a, inner("second")}});
  else evaluates(T{"eo::ite", {a, inner("second"), T{"eo::neg", {T{"x", {}}}}}}, false);
}
// only the selected branch is evaluated
static void cLazy()
{
  W->cmds("(program $loop ((N Int)) :signature (Int) Int ((($loop N) ($loop N))))\n"
          "(program $sel ((N Int) (M Int)) :signature (Int Int) Int ((($sel N M) (eo::ite (eo::eq N M) (f N) ($loop N)))))\n"
          "(program $les ((N Int) (M Int)) :signature (Int Int) Int ((($les N M) (eo::ite (eo::is_eq N M) ($loop N) (f N)))))\n"
          "(program $cnt ((N Int)) :signature (Int) Int ((($cnt N) (eo::ite (eo::eq N 9) x ($cnt (eo::add N 1))))))\n");
  str a = digit(10), b = digit(10);
  bool same = a == b;
  str t = "(" + str(same ? "$sel " : "$les ") + a + " " + b + ")";
  sx_note("term", t.c_str());
  Out o = guarded([&]() {
    sx_check(W->term(t) == W->term("(f " + a + ")"), "value of a conditional");
    sx_check(W->term("($cnt " + b + ")") == W->term("x"), "value of a recursion");
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
  sx_reach("lazy");
}
// hash and compare
static void cHash()
{
  static const std::vector<const char*> pool = {"~", "(f ~)", "(f (f ~))", "x", "\"~\"", "f", "v"};
  int n = sx_tier() ? 4 : 3;
  std::vector<str> t, h;
  int perm = pick("order", 1, 2);
  for (int i = 0; i < n; i++) t.push_back(fill(pool[pick(("term" + std::to_string(i)).c_str(), 3, sx_tier() ? 7 : 5)]));
  std::vector<Expr> hs(n);
  Out o = guarded([&]() {
    // the first use of each term is in any order, by either operator
    if (perm) W->term("(eo::cmp " + t[1] + " " + t[0] + ")");
    for (int i = 0; i < n; i++) hs[i] = W->term("(eo::hash " + t[i] + ")");
    // other terms come and go
    W->term("(eo::hash (f (f (f 7))))");
    W->term("(eo::hash (f (f (f 8))))");
    bool lt[4][4];
    for (int i = 0; i < n; i++)
    {
      sx_check(isKind(hs[i], Kind::NUMERAL), "hash is not a numeral");
      sx_check(W->term("(eo::hash " + t[i] + ")") == hs[i], "the hash of a term changed");
      for (int j = 0; j < n; j++)
      {
        sx_check((hs[i] == hs[j]) == (t[i] == t[j]), "hash is not injective");
        Expr c = W->term("(eo::cmp " + t[i] + " " + t[j] + ")");
        sx_check(isKind(c, Kind::BOOLEAN), "cmp does not evaluate");
        lt[i][j] = c == W->term("true");
        check(zeq(zlt(intOf(hs[j]), intOf(hs[i])), lt[i][j]), "cmp is not the order of the hashes");
      }
    }
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
      {
        sx_check(lt[i][j] + lt[j][i] == (t[i] == t[j] ? 0 : 1), "cmp is not total");
        for (int k = 0; k < n; k++) sx_check(!(lt[i][j] && lt[j][k]) || lt[i][k], "cmp is not transitive");
      }
    // not on what did not evaluate
    for (const char* s : {"(eo::neg x)", "($part 1)", "X", "(f X)"})
    {
      sx_check(W->term(str("(eo::hash ") + s + ")") == build(parse(str("(eo::hash ") + s + ")")), "hash of a term that is not a value");
      sx_check(W->term(str("(eo::cmp x ") + s + ")") == build(parse(str("(eo::cmp x ") + s + ")")), "cmp of a term that is not a value");
      sx_check(W->term(str("(eo::cmp ") + s + " x)") == build(parse(str("(eo::cmp ") + s + " x)")), "cmp of a term that is not a value");
    }
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
  sx_reach("hash");
}
// variables
static void cVar()
{
  unsigned la = pick("length", 2, sx_tier() ? 4 : 3), lb = pick("length 2", 2, sx_tier() ? 4 : 3);
  auto name = [&](const char* n, unsigned l) {
    str s = symBytes(n, l);
    for (unsigned char c : s) sx_assume((c >= ' ') & (c < 127) & (c != '"') & (c != '\\'));
    return s;
  };
  str a = name("name", la), b = name("name 2", lb);
  static const char* types[] = {"Int", "Bool", "(-> Int Int)"};
  unsigned s = pick("type", 2, 3), t = pick("type 2", 2, 3);
  str va = "(eo::var \"" + a + "\" " + types[s] + ")", vb = "(eo::var \"" + b + "\" " + types[t] + ")";
  sx_note("variables", (va + " " + vb).c_str());
  Out o = guarded([&]() {
    Expr x = W->term(va), y = W->term(vb);
    sx_check(isKind(x, Kind::VARIABLE), "not a variable");
    bool same = s == t && a == b;
    sx_check((x == y) == same, "variables are the same iff their names and types are");
    W->st->bind("v1", x);
    sx_check(W->term("(eo::nameof v1)") == W->term("\"" + a + "\""), "name of a variable");
    sx_check(W->term("(eo::typeof v1)") == W->term(types[s]), "type of a variable");
    sx_check(W->term("(eo::var (eo::nameof v1) (eo::typeof v1))") == x, "a variable is not its name and type");
    sx_check(W->term("(eo::is_eq " + va + " " + vb + ")") == W->term(same ? "true" : "false"), "equality of variables");
    // what is not a variable
    for (const char* u : {"(eo::var x Int)", "(eo::var \"a\" 1)", "(eo::var \"a\" x)", "(eo::var \"a\" (eo::neg x))", "(eo::var 1 Int)", "(eo::var \"a\" X)", "(eo::var \"a\" f)"})
      sx_check(W->term(u) == build(parse(u)), "a variable without a string or a type");
    sx_reach(same ? "same variable" : "other variable");
  });
  sx_check(o.kind == SX_RETURN, "evaluation ended");
}
// more than two arguments, and too few
static void cNary()
{
  str op = BINARY[2 + pick("operator", 2, 3)];
  unsigned n = 1 + pick("arguments", 3, 5);
  T t{op, {}}, want;
  for (unsigned i = 0; i < n; i++)
  {
    static const char* v[] = {"true", "false", "x"};
    t.k.push_back(T{v[pick(("argument" + std::to_string(i)).c_str(), 2, i < 3 || sx_tier() ? 3 : 2)], {}});
  }
  sx_note("term", text(t).c_str());
  if (n >= 2)
  {
    want = t.k[0];
    for (unsigned i = 1; i < n; i++) want = eval(T{op, {want, t.k[i]}});
    sx_check(W->term(text(t)) == build(want), "value of an n-ary operator");
    sx_reach("n-ary");
  }
  else
  {
    // must not be accepted in a step
    Out o = guarded([&]() { W->cmds("(step @a :rule r :args (" + text(t) + "))\n", false); });
    sx_check(o.diagnosed(), "a malformed operator application is accepted");
    sx_reach("malformed");
  }
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  W = new World();
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Real Type) (declare-consts <decimal> Real) (declare-consts <rational> Real)"
          "(declare-const Str Type) (declare-consts <string> Str) (declare-const BV Type) (declare-consts <binary> BV) (declare-consts <hexadecimal> BV)"
          "(declare-const x Int) (declare-const y Int) (declare-const f (-> Int Int)) (declare-const P (-> Int Bool))"
          "(define v () (eo::var \"v\" Int)) (define w () (eo::var \"w\" Bool))"
          "(declare-rule r ((B Bool)) :args (B) :conclusion B)"
          "(program $part ((Z Int)) :signature (Int) Int ((($part (f Z)) Z)))\n");
  W->st->bind("X", W->st->mkSymbol(Kind::PARAM, "X", W->term("Int")));
}
void (*sx_setup)() = setup;
CASES({"unary", cUnary}, {"binary", cBinary}, {"control", cControl}, {"nested", cNested}, {"lazy", cLazy}, {"hash", cHash}, {"var", cVar}, {"nary", cNary});
