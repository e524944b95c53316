// C24: after reset, a run continues as a new one
#include "common.h"

static World *A, *B, *W;
static void use(World* w)
{
  W = w;
  ExprValue::d_state = w->st;
}
static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : n <= 32 ? 5 : 6;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static const char* menu[] = {
    "(declare-const Int Type) (declare-consts <numeral> Int)",
    "(declare-consts <numeral> Bool)",
    "(declare-const Str Type) (declare-consts <string> Str) (declare-const BV (-> Bool Type)) (declare-consts <binary> (BV true))",
    "(declare-const f (-> Bool Bool Bool) :right-assoc-nil true)",
    "(declare-const f (-> Bool Bool Bool) :left-assoc)",
    "(declare-const f Type)",
    "(define f ((x Bool)) x)",
    "(define f () true)",
    "(program f ((x Bool)) :signature (Bool) Bool (((f x) x)))",
    "(program f ((x Bool)) :signature (Bool) Bool)",
    "(declare-datatype D ((f (s Bool))))",
    "(declare-datatype D ((h)))",
    "(declare-rule f () :conclusion true)",
    "(declare-rule f () :conclusion true :sorry)",
    "(declare-rule f ((x Bool)) :assumption x :conclusion x)",
    "(step h true :rule f)",
    "(step-pop h :rule f)",
    "(assume h true)",
    "(assume-push h true)",
    "(push)",
    "(pop)",
    "(declare-parameterized-const f ((x Bool)) Bool)",
    "(declare-const q (-> eo::List Bool Bool) :binder eo::List::cons) (define t () (q ((h Bool)) h))",
    "(define h () 1) (define t () (eo::typeof h))",
    "(define t () (eo::List::cons 1 eo::List::nil) :type eo::List)",
    "(reset)"};
static const unsigned nMenu = sizeof(menu) / sizeof(menu[0]);
static const unsigned sorryRule = 13, step = 15;
static const char* probes[] = {"f", "(f true)", "(f true false true)", "(eo::nil f Bool)", "(eo::typeof f)", "1", "(eo::typeof 1)", "(eo::typeof \"a\")", "(eo::typeof #b0)",
                               "h", "t", "D", "Int", "q", "s", "(s f)", "is-f", "(eo::dt_constructors D)", "(eo::dt_selectors f)", "(eo::var \"h\" Bool)",
                               "(eo::typeof (eo::List::cons 1 eo::List::nil))", "(eo::hash true)", "true", "(-> Bool Bool)", "(_ f true)"};
static str replaceAll(str t, const str& a, const str& b)
{
  for (size_t i = 0; (i = t.find(a, i)) != str::npos; i += b.size()) t.replace(i, a.size(), b);
  return t;
}
static bool run(const str& c)
{
  Out o = guarded([&]() { W->cmds(c + "\n"); });
  sx_check(o.kind == SX_RETURN || o.diagnosed(), "a command is neither accepted nor rejected");
  return o.kind == SX_RETURN;
}
// what a name or a term means now
static str meaning(const str& t)
{
  str r = "rejected";
  Out o = guarded([&]() {
    Expr e = W->term(t, true);
    std::ostringstream os;
    os << e << " of type ";
    Expr ty = W->st->getTypeChecker().getType(e);
    if (ty.isNull()) os << "none";
    else os << ty;
    r = os.str();
  });
  sx_check(o.kind == SX_RETURN || o.diagnosed(), "a term is neither accepted nor rejected");
  return o.kind == SX_RETURN ? r : "rejected";
}
static void cCommands()
{
  bool longer = choose(2);
  unsigned nh = longer ? 2 : 1, nt = longer ? 1 : 2;
  if (sx_tier()) nh = 2, nt = 2;
  use(A);
  str hist;
  for (unsigned i = 0; i < nh; i++)
  {
    unsigned k = choose(nMenu);
    hist += str(menu[k]) + " ";
    sx_note("before", hist.c_str());
    sx_assume(run(menu[k]));
  }
  sx_check(run("(reset)"), "reset is rejected");
  str rest;
  bool ok = true;
  for (unsigned i = 0; i < nt && ok; i++)
  {
    unsigned k = choose(nMenu);
    sx_assume(i + 1 < nt || nt < 2 || k != nMenu - 1);
    rest += str(menu[k]) + " ";
    sx_note("after", rest.c_str());
    use(A);
    ok = run(menu[k]);
    use(B);
    bool fresh = run(menu[k]);
    if (fresh) sx_check(ok, "a command is rejected after reset");
    else sx_check(!ok, "a command is accepted after reset that is rejected at first");
  }
  if (!ok)
  {
    sx_reach("rejected");
    return;
  }
  for (const char* p : probes)
  {
    use(A);
    str a = meaning(p);
    use(B);
    str b = meaning(p);
    if (a != b) { sx_note("term", p); sx_note("after reset", a.c_str()); sx_note("at first", b.c_str()); }
    sx_check(a == b, "a term has another meaning after reset");
  }
  sx_check(A->st->getAssumptionLevel() == B->st->getAssumptionLevel(), "open assumptions after reset");
  sx_reach("same");
}
// the verdict of the whole run
static void cVerdict()
{
  str hist, rest;
  unsigned how = choose(3);
  unsigned nh = sx_tier() ? 2 : how ? 1 : 1 + choose(2);
  bool sorry = false, used = false;
  static const unsigned quick[] = {0, 5, 10, 12, 13, 14, 15, 16, 17, 18, 19, 23};
  unsigned first = 0;
  for (unsigned i = 0; i < nh; i++)
  {
    unsigned k = sx_tier() ? choose(nMenu) : quick[choose(12)];
    if (!i) first = k;
    if (i && !sx_tier()) sx_assume(k >= 15 && k <= 19);
    if (i && k == step && first == sorryRule) used = true;
    hist += str(menu[k]) + "\n";
  }
  for (unsigned i = 0; i < 2; i++)
  {
    unsigned k = quick[choose(12)];
    if (!sx_tier() && i) sx_assume((k >= 14 && k < 19) || k == 0);
    rest += str(menu[k]) + "\n";
  }
  // from a file or included, with a reference or without
  str f, ref;
  auto go = [&](const str& name, const str& t) {
    std::vector<str> args;
    if (how == 2)
    {
      ref = putFile(name + "ref", "(assert true)\n(check-sat)\n");
      args.push_back("--reference=" + ref);
    }
    str p = putFile(name + ".eo", t);
    if (how == 1) p = putFile(name + "main.eo", "(include \"" + p + "\")\n");
    args.push_back(p);
    return runMain(args);
  };
  sx_note("before", hist.c_str());
  sx_note("after", rest.c_str());
  Out h = go("h", hist + "(reset)\n");
  if (!h.accepted())
  {
    sx_check(h.diagnosed(), "a run is neither accepted nor rejected");
    sx_reach("rejected before");
    return;
  }
  Out a = go("a", hist + "(reset)\n" + rest), b = go("b", rest);
  sx_check(a.accepted() || a.diagnosed(), "a run is neither accepted nor rejected");
  sx_note("output after reset", (a.out + a.err).c_str());
  sx_note("output at first", (b.out + b.err).c_str());
  sx_check(a.accepted() == b.accepted(), "the verdict after reset differs from that of a new run");
  if (a.accepted())
  {
    str want = used ? "incomplete\n" : b.out;
    sx_check(a.out == want, "the output after reset differs from that of a new run");
    sx_reach(used ? "sorry before reset" : "verdict");
  }
  else sx_reach("rejected after");
  (void)sorry;
}
// literals of symbolic value: their types, and terms that were typed before
static void cLiterals()
{
  static const char* cat[] = {"<numeral>", "<rational>", "<decimal>", "<binary>", "<hexadecimal>", "<string>"};
  static const char* pre[] = {"", "", "", "#b", "#x", "\""};
  static const char* post[] = {"", "/7", ".5", "", "", "\""};
  static const char* ty[] = {"U", "(V 1)", "(V eo::self)", "(V (eo::len eo::self))", "Bool"};
  unsigned c = choose(6);
  str d = symDigits("digit", 1, c == 3 ? 2 : 10);
  sx_assume((d[0] < '3') & (c != 1 || d[0] != '0'));
  str lit = pre[c] + d + post[c];
  unsigned t1 = choose(6), t2 = choose(6);
  str sig = "(declare-const U Type) (declare-const N Type) (declare-parameterized-const V ((T Type :implicit) (x T)) Type)";
  str form[] = {lit, "(eo::List::cons " + lit + " eo::List::nil)", "(eo::typeof " + lit + ")", "(eo::requires (eo::typeof " + lit + ") U true)", "(eo::is_eq " + lit + " " + lit + ")"};
  str probe = form[choose(5)];
  bool first = choose(2);
  auto decl = [&](unsigned t) { return t == 5 ? str() : "(declare-consts " + str(cat[c]) + " " + ty[t] + ")"; };
  use(A);
  sx_note("literal", lit.c_str());
  sx_assume(run(sig + decl(t1)));
  if (first) meaning(probe);
  // kept by a reference of the harness over the reset
  Expr* keep = new Expr;
  Out o = guarded([&]() { *keep = W->term(probe); });
  sx_check(run("(reset)"), "reset is rejected");
  bool a = run(sig + decl(t2));
  str ma = meaning(probe);
  use(B);
  bool b = run(sig + decl(t2));
  str mb = meaning(probe);
  sx_check(a == b, "a declaration of the type of literals after reset");
  sx_note("after reset", ma.c_str());
  sx_note("at first", mb.c_str());
  sx_check(ma == mb, "the type of a literal after reset");
  sx_reach("literal");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  B = new World();
  A = new World();
}
void (*sx_setup)() = setup;
CASES({"commands", cCommands}, {"verdict", cVerdict}, {"literals", cLiterals});
