// C05: live terms are identical iff structurally equal, and collection never
// frees, alters or duplicates them
#include "common.h"

static World* W;
// the structure a term was built from
struct S
{
  Kind k;
  Expr sym;          // symbols
  Z num;             // literals
  str text;
  unsigned w = 0;
  std::vector<S> ch;
  S(Kind k, std::vector<S> ch) : k(k), ch(ch) {}
  S(Expr s) : k(s.getKind()), sym(s) {}
  S(Kind k, str text, Z num, unsigned w = 0) : k(k), num(num), text(text), w(w) {}
};
static bool leaf(const S& s) { return s.ch.empty(); }
static Expr build(const S& s)
{
  if (!s.sym.isNull()) return s.sym;
  if (leaf(s)) return W->st->mkLiteral(s.k, s.text);
  Exprs c;
  for (const S& x : s.ch) c.push_back(build(x));
  if (s.k == Kind::FUNCTION_TYPE) return W->st->mkFunctionType({c[0]}, c[1]);
  if (s.k == Kind::PROGRAM_TYPE)
  {
    Expr r = c.back();
    c.pop_back();
    return W->st->mkProgramType(c, r);
  }
  if (s.k == Kind::QUOTE_TYPE) return W->st->mkQuoteType(c[0]);
  return W->st->mkExpr(s.k, c);
}
// are two structures equal? (an exact formula over the symbolic literals)
static Z same(const S& a, const S& b)
{
  if (a.k != b.k || a.ch.size() != b.ch.size() || a.w != b.w) return 0;
  if (leaf(a)) return a.sym.isNull() ? (b.sym.isNull() ? zeq(a.num, b.num) : Z(0)) : Z(a.sym == b.sym);
  Z r = 1;
  for (size_t i = 0; i < a.ch.size(); i++) r = zand(r, same(a.ch[i], b.ch[i]));
  return r;
}
// e still is what it was built as
static void intact(const Expr& e, const S& s)
{
  sx_check(isKind(e, s.k), "kind of a live term");
  if (!s.sym.isNull())
  {
    sx_check(e == s.sym, "symbol in a live term");
    return;
  }
  if (leaf(s))
  {
    if (s.k == Kind::NUMERAL) check(zeq(intOf(e), s.num), "value of a live literal");
    if (s.k == Kind::BINARY)
    {
      sx_check(widthOf(e) == s.w, "width of a live literal");
      check(zeq(bvOf(e), s.num), "value of a live literal");
    }
    return;
  }
  sx_check(e.getNumChildren() == s.ch.size(), "children of a live term");
  for (size_t i = 0; i < s.ch.size(); i++) intact(e[i], s.ch[i]);
}

static Expr x, y, z, a, b, f, P, I, T;
static S numeral(const char* n)
{
  str d = symDigits(n, 1);
  return S(Kind::NUMERAL, d, digitsZ(d));
}
static S binary(const char* n, unsigned w)
{
  str d = symDigits(n, w, 2);
  Z v = 0;
  for (unsigned char c : d) v = v * 2 + Z(sxb_of_u64(c & 1));
  return S(Kind::BINARY, d, v, w);
}
static S ap(S h, S t) { return S(Kind::APPLY, {h, t}); }
enum { NT = 30 };
static S shape(const str& n, char* family = nullptr)
{
  unsigned t = pick((n + ".shape").c_str(), 5, NT);
  // quick: histories of related shapes only
  static const char fam[] = "EEEEEAAAATTTTTFFFFFLLLEEFFFFAA";
  if (family && !sx_tier()) sx_assume(!*family || fam[t] == *family);
  if (family) *family = fam[t];
  auto L = [&]() { return numeral((n + ".digit").c_str()); };
  auto B = [&](unsigned w) { return binary((n + ".bits").c_str(), w); };
  typedef std::vector<S> V;
  switch (t)
  {
    case 0: return S(Kind::EVAL_EXTRACT, V{x, y});
    case 1: return S(Kind::EVAL_EXTRACT, V{x, y, z});
    case 2: return S(Kind::EVAL_EXTRACT, V{x, L()});
    case 3: return S(Kind::EVAL_EXTRACT, V{x, L(), z});
    case 4: return S(Kind::EVAL_MUL, V{x, L()});
    case 5: return ap(f, a);
    case 6: return ap(ap(f, a), L());
    case 7: return ap(ap(f, L()), a);
    case 8: return ap(ap(f, a), ap(ap(f, b), L()));
    case 9: return S(Kind::TUPLE, V{a});
    case 10: return S(Kind::TUPLE, V{a, L()});
    case 11: return S(Kind::TUPLE, V{a, b, L()});
    case 12: return S(Kind::TUPLE, V{a, b});
    case 13: return S(Kind::TUPLE, V{a, b, L(), a});
    case 14: return S(Kind::FUNCTION_TYPE, V{I, I});
    case 15: return S(Kind::FUNCTION_TYPE, V{I, S(Kind::FUNCTION_TYPE, V{I, I})});
    case 16: return S(Kind::PROGRAM_TYPE, V{I, I});
    case 17: return S(Kind::PROGRAM_TYPE, V{I, I, I});
    case 18: return S(Kind::QUOTE_TYPE, V{L()});
    case 19: return L();
    case 20: return B(1);
    case 21: return B(2);
    case 22: return S(Kind::EVAL_CONCAT, V{x, B(1)});
    case 23: return S(Kind::EVAL_IF_THEN_ELSE, V{x, y, L()});
    // the same children under other kinds
    case 24: return S(Kind::TUPLE, V{I, I});
    case 25: return ap(I, I);
    case 26: return S(Kind::APPLY_OPAQUE, V{I, I});
    case 27: return S(Kind::EVAL_CONCAT, V{I, I});
    case 28: return S(Kind::APPLY_OPAQUE, V{f, a});
    default: return S(Kind::APPLY_OPAQUE, V{ap(f, a), L()});
  }
}
struct Live
{
  S s;
  Expr e;
};
static void all(std::vector<Live>& l)
{
  for (size_t i = 0; i < l.size(); i++)
  {
    intact(l[i].e, l[i].s);
    for (size_t j = 0; j < i; j++)
    {
      Z eq = same(l[i].s, l[j].s);
      if (l[i].e == l[j].e)
      {
        check(eq, "two different terms share one handle");
        sx_reach("shared");
      }
      else
      {
        check(znot(eq), "one term has two handles");
        sx_reach("distinct");
      }
    }
  }
  sx_check(sx_quarantine_intact(), "freed memory is not written to");
}
// build, build, release, rebuild (thorough: release and rebuild once more)
static void cHistory()
{
  sx_quarantine(1);
  std::vector<Live> l;
  char fam = 0;
  for (const char* n : {"first", "second"})
  {
    S s = shape(n, &fam);
    l.push_back({s, build(s)});
  }
  for (unsigned r = 0; r < (sx_tier() ? 2 : 1); r++)
  {
    str n = r ? "fourth" : "third";
    unsigned d = pick((n + ".release").c_str(), 1, 2);
    l[d].e = Expr();
    sx_reach("released");
    sx_check(sx_quarantine_intact(), "freed memory is not written to");
    intact(l[1 - d].e, l[1 - d].s);
    S s = shape(n, &fam);
    l[d].s = s;
    l[d].e = build(s);
    all(l);
  }
}
// a term that is built and released between two constructions of another
static void cChurn()
{
  sx_quarantine(1);
  S s = shape("kept");
  std::vector<Live> l = {{s, build(s)}};
  for (unsigned i = 0; i < (sx_tier() ? 2 : 1); i++)
  {
    S t = shape(i ? "temporary2" : "temporary");
    Expr e = build(t);
    intact(e, t);
  }
  // the same structure again, with a literal of its own
  S u = s;
  std::function<void(S&)> fresh = [&](S& v) {
    if (v.sym.isNull() && leaf(v)) v = v.k == Kind::NUMERAL ? numeral("again.digit") : binary("again.bits", v.w);
    for (S& c : v.ch) fresh(c);
  };
  fresh(u);
  l.push_back({u, build(u)});
  all(l);
}
// nothing recorded for a released symbol is seen by what is allocated later
static void cReuse()
{
  static const Attr attrs[] = {Attr::NONE, Attr::RIGHT_ASSOC, Attr::LEFT_ASSOC, Attr::RIGHT_ASSOC_NIL};
  State& st = *W->st;
  Expr fty = W->term("(-> Int Int Int)");
  Expr tys[] = {fty, I, W->term("(-> Int Int Int Int)")};
  const ExprValue* old = nullptr;
  size_t h1 = 0, ha = st.getHash(a.getValue());
  unsigned w = pick("what", 2, 4);
  {
    Expr e;
    unsigned at = pick("attribute", 2, 4), ty = at ? 0 : pick("type", 2, 3);
    if (w < 2)
    {
      e = st.mkSymbol(w ? Kind::CONST : Kind::PARAM, "s", tys[ty]);
      if (at) st.markConstructorKind(e, attrs[at], at == 3 ? a : Expr());
    }
    else
      e = st.mkExpr(w == 2 ? Kind::APPLY : Kind::TUPLE, {W->term(w == 2 ? "q" : "b"), b});
    if (w < 3) st.getTypeChecker().getType(e);
    // a term with a hash may be kept
    if (pick("hashed", 1, 2)) h1 = st.getHash(e.getValue());
    old = e.getValue();
  }
  // now a new term, often at the same address
  unsigned v = pick("then", 2, 3), at = v == 2 ? 0 : pick("new attribute", 2, 4), ty = at || v == 2 ? 0 : pick("new type", 2, 3);
  Expr n, want;
  if (v < 2)
  {
    n = st.mkSymbol(v ? Kind::CONST : Kind::PARAM, "t", tys[ty]);
    if (at) st.markConstructorKind(n, attrs[at], at == 3 ? a : Expr());
    want = tys[ty];
  }
  else
  {
    n = st.mkExpr(Kind::APPLY, {f, a});
    want = W->term("(-> Int Int)");
  }
  sx_reach(n.getValue() != old ? "new address" : v == 2 ? "address of an application reused" : "address of a symbol reused");
  sx_check(st.getTypeChecker().getType(n) == want, "type of a new term");
  sx_check(st.getConstructorKind(n.getValue()) == attrs[at], "attribute of a new term");
  size_t h2 = st.getHash(n.getValue());
  sx_check(h2 != ha && h1 != ha && ha == st.getHash(a.getValue()), "hashes identify live terms");
  if (v < 2 && ty != 1)
  {
    Expr app = st.mkExpr(Kind::APPLY, {n, a, b, a});
    auto A = [&](Expr h, Expr t) { return st.mkExpr(Kind::APPLY, {f, t}); };
    // the same application of a symbol declared for good
    static const char* decl[] = {"u0", "u1", "u2", "u3"};
    Expr r = st.mkExpr(Kind::APPLY, {W->term(decl[at]), a, b, a});
    std::function<bool(const Expr&, const Expr&)> alike = [&](const Expr& p, const Expr& q) {
      if (p == n) return q == W->term(decl[at]);
      if (p.getKind() != q.getKind() || p.getNumChildren() != q.getNumChildren()) return false;
      if (!p.getNumChildren()) return p == q;
      for (size_t i = 0; i < p.getNumChildren(); i++)
        if (!alike(p[i], q[i])) return false;
      return true;
    };
    sx_check(alike(app, r), "application of a new symbol");
  }
}
// the same texts are the same terms, whatever was parsed and dropped in scopes meanwhile
static void cScopes()
{
  sx_quarantine(pick("quarantine", 1, 2));
  static const char* kept[] = {"(f a ?)", "(g a ? b)", "(f (f a ?) (f a ?))", "(-> Int Int (P ?))", "(eo::add xx ? 1)",
                               "(forall ((v Int)) (q (f v ?)))", "(eo::define ((w (f a ?))) (f w w))"};
  static const char* inner[] = {"(define t () (f a ?))",
                                "(define t ((xx Int)) (eo::add xx ?))",
                                "(declare-const t (P ?)) (define u () (g a ? b ?))",
                                "(program t ((xx Int)) :signature (Int) Int (((t ?) 0) ((t xx) (eo::add xx ? 1))))",
                                "(define t () (-> Int Int (P ?))) (define t () t)",
                                "(define t () (forall ((v Int)) (q (f v ?)))) (define t () (eo::add 1 ?))",
                                "(declare-parameterized-const t ((xx Int)) (P (eo::add xx ?)))",
                                "(declare-rule t ((xx Int)) :premises ((q xx)) :args (?) :conclusion (q (eo::add xx ?)))"};
  unsigned k = pick("kept", 3, 7), i = pick("inner", 3, 8);
  auto fill = [](str s, const str& d) {
    for (char& c : s)
      if (c == '?') c = d[0];
    return s;
  };
  str d1 = symDigits("digit1", 1), d2 = symDigits("digit2", 1), d3 = symDigits("digit3", 1);
  W->cmds("(push 1) (define xx () 7)");
  Expr e1 = W->term(fill(kept[k], d1));
  W->cmds("(push 1)" + fill(inner[i], d2) + "(pop 1)");
  Expr e2 = W->term(fill(kept[k], d3));
  sx_check((e1 == e2) == (d1[0] == d3[0]), "equal texts are equal terms");
  W->cmds("(pop 1)");
  sx_check(sx_quarantine_intact(), "freed memory is not written to");
  sx_reach(e1 == e2 ? "same text" : "other text");
}
static void setup()
{
  W = new World;
  W->cmds("(declare-const Int Type) (declare-consts <numeral> Int) (declare-const P (-> Int Type))"
          "(declare-const a Int) (declare-const b Int) (declare-const f (-> Int Int Int)) (declare-const q (-> Int Bool))"
          "(declare-const g (-> Int Int Int) :right-assoc-nil a)"
          "(declare-const u0 (-> Int Int Int)) (declare-const u1 (-> Int Int Int) :right-assoc)"
          "(declare-const u2 (-> Int Int Int) :left-assoc) (declare-const u3 (-> Int Int Int) :right-assoc-nil a)"
          "(declare-const @list (-> Int Int Int) :right-assoc-nil a) "
          "(declare-const forall (-> Int Bool Bool) :binder @list)");
  State& st = *W->st;
  I = W->term("Int");
  a = W->term("a");
  b = W->term("b");
  f = W->term("f");
  x = st.mkSymbol(Kind::PARAM, "x", I);
  y = st.mkSymbol(Kind::PARAM, "y", I);
  z = st.mkSymbol(Kind::PARAM, "z", I);
}
void (*sx_setup)() = setup;
CASES({"history", cHistory}, {"churn", cChurn}, {"reuse", cReuse}, {"scopes", cScopes});
