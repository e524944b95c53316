// C22: printed terms re-read as the same term, with or without dag printing
#include "terms.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : n <= 32 ? 5 : 6;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static World *dag, *full;
static const char* SIG =
    "(declare-const Int Type) (declare-const Str Type) (declare-const Arr (-> Type Type Type)) (declare-const Set (-> Type Type))"
    "(declare-consts <numeral> Int) (declare-consts <rational> Int) (declare-consts <string> Str) (declare-consts <binary> Int) (declare-consts <hexadecimal> Int)"
    "(declare-const c Int) (declare-const f (-> Int Int Int)) (declare-const g (-> (-> Int Int) Int Int)) (declare-const P (-> Int Bool)) (declare-const h (-> Int Int)) (declare-const q (-> Str Int))"
    "(declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const ro (-> Bool Bool Bool) :right-assoc-non-singleton-nil false) (declare-const and (-> Bool Bool Bool) :left-assoc-nil true) (declare-const imp (-> Bool Bool Bool) :right-assoc) (declare-const sub (-> Int Int Int) :left-assoc)"
    "(declare-const lt (-> Int Int Bool) :chainable or) (declare-const ne (-> Int Int Bool) :pairwise or) (declare-const sum (-> eo::List Int) :arg-list eo::List::cons)"
    "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons) (declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))"
    "(declare-const Pair (-> Type Type Type)) (declare-parameterized-const pair ((T Type :implicit) (U Type :implicit)) (-> T U (Pair T U)))"
    "(declare-parameterized-const mylet ((T Type :implicit)) (-> eo::List T T) :let-binder (pair eo::List::cons))"
    "(declare-parameterized-const none ((T Type :implicit)) (Set T)) (declare-parameterized-const sk ((b Bool :opaque) (n Int)) (-> Int Int))"
    "(declare-datatypes ((L 1)) ((par (X) ((nil) (cons (head X) (tail (L X)))))))"
    "(define vx () (eo::var \"x\" Int)) (define vb () (eo::var \"b\" Bool)) (define vf () (eo::var \"w\" (-> Int Int)))"
    "(program $p ((N Int)) :signature (Int) Int ((($p (f N 1)) (h N))))\n";
static str print(World* w, const Expr& e)
{
  ExprValue::d_state = w->st;
  std::stringstream s;
  s << e;
  return s.str();
}
// the text read back is the term
static void again(const str& t, bool dagify)
{
  World* w = W = dagify ? dag : full;
  ExprValue::d_state = w->st;
  Expr e;
  Out o = guarded([&]() { e = w->term(t); });
  sx_assume(o.kind == SX_RETURN);
  str p = print(w, e);
  sx_note("term", t.c_str());
  sx_note("printed", p.c_str());
  Expr r;
  o = guarded([&]() { r = w->term(p); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(o.kind == SX_RETURN, "a printed term is not read");
  sx_check(r == e, "a printed term is read as another one");
  // printing does not change it
  sx_check(print(w, e) == p, "a term is printed differently the second time");
  // nothing follows the term
  o = guarded([&]() {
    Parser* q = new Parser(*w->st, true);
    q->setStringInput(p + " c");
    q->parseNextExpr();
    sx_check(q->parseNextExpr() == w->term("c"), "more than a term is printed");
  });
  sx_check(o.kind == SX_RETURN, "more than a term is printed");
  sx_reach(dagify ? "with dag" : "in full");
}
// ------------------------------------------------------------------ terms
static str dig()
{
  static unsigned n = 0;
  str d = symDigits(("digit" + std::to_string(n++)).c_str(), 1);
  sx_assume((unsigned char)d[0] < '2');
  return d;
}
#define D2 (sx_tier() ? d - 1 : 0)
static str gInt(unsigned d);
static str gBool(unsigned d)
{
  switch (choose(d ? sx_tier() ? 16 : 12 : 3))
  {
    case 0: return "true";
    case 1: return "vb";
    case 2: return "(P c)";
    case 3: return "(P " + gInt(d - 1) + ")";
    case 4: return "(or " + gBool(d - 1) + " " + gBool(D2) + ")";
    case 5: return "(and " + gBool(d - 1) + " vb " + gBool(0) + ")";
    case 6: return "(lt " + gInt(D2) + " c " + gInt(d - 1) + ")";
    case 7: return "(forall ((y Int) (z Bool)) (or z (P y) " + gBool(d - 1) + "))";
    case 8: { str a = gInt(d - 1); return "(= " + a + " " + a + ")"; }
    case 9: return "(imp vb " + gBool(D2) + " " + gBool(d - 1) + ")";
    case 10: return "(_ or " + gBool(d - 1) + ")";
    case 11: return "(mylet ((y " + gInt(d - 1) + ")) (P y))";
    case 12: return "(ro " + gBool(d - 1) + " " + gBool(d - 1) + ")";
    case 13: return "(ne " + gInt(d - 1) + " " + gInt(0) + " c)";
    case 14: return "(= (as none (Set Int)) (as none (Set Int)))";
    default: return "(eo::not " + gBool(d - 1) + ")";
  }
}
static str gInt(unsigned d)
{
  switch (choose(d ? sx_tier() ? 15 : 12 : 3))
  {
    case 0: return dig();
    case 1: return "c";
    case 2: return "vx";
    case 3: { str a = gInt(d - 1); return "(f " + a + " " + a + ")"; }
    case 4: return "(f " + gInt(d - 1) + " " + gInt(D2) + ")";
    case 5: return "(g (f " + gInt(d - 1) + ") " + gInt(0) + ")";
    case 6: return "(sub " + gInt(d - 1) + " " + gInt(0) + " c)";
    case 7: return "(vf " + gInt(d - 1) + ")";
    case 8: return "(eo::add " + gInt(d - 1) + " " + gInt(0) + ")";
    case 9: return "($p " + gInt(d - 1) + ")";
    case 10: return "(sum " + gInt(d - 1) + " " + gInt(0) + " vx)";
    case 11: return "(sk " + gBool(d - 1) + " " + gInt(0) + ")";
    case 12: return "(head (cons " + gInt(d - 1) + " (as nil (L Int))))";
    case 13: return "(f (eo::add c 1))";
    default: return "(sk (P c) c " + gInt(d - 1) + ")";
  }
}
static void cTerms()
{
  bool d = choose(2);
  again(choose(2) ? gBool(2) : gInt(2), d);
}
static void cTypes()
{
  static const char* base[] = {"Int", "Bool", "(Set Bool)", "Type"};
  std::function<str(unsigned)> ty = [&](unsigned d) -> str {
    unsigned k = choose(d ? 9 : 3);
    if (k < 4) return base[k];
    str a = ty(d - 1);
    switch (k)
    {
      case 4: return "(-> " + a + " " + ty(sx_tier() ? d - 1 : 0) + ")";
      case 5: return "(-> " + a + " Int " + ty(sx_tier() ? d - 1 : 0) + ")";
      case 6: return "(Arr " + ty(sx_tier() ? d - 1 : 0) + " " + a + ")";
      case 7: return "(Set " + a + ")";
      default: return "(L " + a + ")";
    }
  };
  bool d = choose(2);
  str t = ty(2);
  switch (choose(3))
  {
    case 0: again(t, d); break;
    case 1: again("(= (eo::var \"x\" " + t + ") (eo::var \"y\" " + t + "))", d); break;
    default: again("(= (as nil (L " + t + ")) (cons (eo::var \"x\" " + t + ") (as nil (L " + t + "))))", d);
  }
  sx_reach("types");
}
static void cLiterals()
{
  bool d = choose(2);
  str l;
  unsigned n = sx_tier() ? 3 : 2;
  switch (choose(8))
  {
    case 0: l = (choose(2) ? "-" : "") + symDigits("numeral", 1 + choose(n)); break;
    case 1: { str a = (choose(2) ? "-" : "") + symDigits("numerator", 1 + choose(n)); l = a + "/" + (choose(2) ? "2" : "6"); break; }
    case 2: l = "#b" + symDigits("bits", 1 + choose(n + 1), 2); break;
    case 3: l = "#x" + symDigits("digits", 1 + choose(n)); break;
    case 4: { str x = symDigits("digits", 2); static const char* ix[] = {"0", "1", "3", "4", "6", "7", "9"}; str i = ix[choose(7)]; l = "(eo::extract #x" + x + " " + i + " " + ix[choose(7)] + ")"; break; }
    case 5: { str x = symDigits("bits", 3, 2); static const char* ix[] = {"0", "1", "2", "3"}; str i = ix[choose(4)]; l = "(eo::extract #b" + x + " " + i + " " + ix[choose(4)] + ")"; break; }
    case 6: l = "#xaB"; break;
    default: l = "(eo::to_q " + symDigits("numeral", 1) + ")";
  }
  again(choose(2) ? l : "(f " + l + " " + l + ")", d);
  sx_reach("literals");
}
static void cStrings()
{
  bool d = choose(2);
  unsigned n = choose(sx_tier() ? 4 : 3);
  str s = symBytes("string", n);
  str l = "\"";
  for (unsigned char c : s)
  {
    sx_assume((c >= ' ') & (c < 127) & (c != '\\'));
    if (c == '"') l += '"';
    l += c;
  }
  l += "\"";
  static const char* esc[] = {"\\u{5c}", "\\u{41}", "\\u{0}", "\\u{2ffff}", "\\u00e9", "\\u{7f}", "\\u{22}", "\\u{5c}u{41}"};
  if (choose(2))
  {
    str e = esc[choose(8)];
    l = "\"" + e + l.substr(1);
  }
  switch (choose(3))
  {
    case 0: again(l, d); break;
    case 1: again("(f (q " + l + ") (q (eo::concat " + l + " \"a\")))", d); break;
    default: sx_assume(l.find('\\') == str::npos); again("(f (eo::var " + l + " Int) (eo::var " + l + " Int))", d);
  }
  sx_reach("strings");
}
// symbols of any name
static void cSymbols()
{
  bool d = choose(2);
  unsigned n = choose(sx_tier() ? 3 : 2), k = choose(3);
  static const char* words[] = {"Type", "Bool", "let", "par", "!", "eo::x", "eo::a b", "-1", "-1/2", "-1.5", "-", "_v", "_v0", "a:b", ":a", "#b1", "12", "1a", "eo::define", "a b", "(", "\"a\"", "", ".5", "define", "-1a"};
  str s;
  if (choose(2)) s = words[choose(26)];
  else
  {
    s = symBytes("symbol", n);
    for (unsigned char c : s) sx_assume((c >= ' ') & (c < 127) & (c != '\\') & (c != '|'));
  }
  W = d ? dag : full;
  ExprValue::d_state = W->st;
  // a new name
  bool isNew = true;
  Out o = guarded([&]() { W->term("|" + s + "|"); });
  isNew = o.kind != SX_RETURN;
  sx_assume(isNew && s != "_" && s != "as" && s != "->");
  o = guarded([&]() { W->cmds("(declare-const |" + s + "| Int)\n"); });
  sx_check(o.kind == SX_RETURN, "a quoted symbol is not declared");
  sx_note("symbol", s.c_str());
  str q = "|" + s + "|";
  again(k == 0 ? q : k == 1 ? "(f (f " + q + " 1) (f " + q + " 1))" : "(f (eo::var \"a\" Int) (f (eo::var \"a\" Int) " + q + "))", d);
  sx_reach("symbols");
}
// names of the printed lets
static void cLets()
{
  unsigned m = 1 + choose(7);
  W = dag;
  ExprValue::d_state = W->st;
  for (unsigned i = 0; i < 3; i++)
    if (m & (1 << i)) W->cmds("(declare-const _v" + std::to_string(i) + " Int)\n");
  auto leaf = [&]() -> str {
    unsigned k = choose(4);
    return k < 3 && (m & (1 << k)) ? "_v" + std::to_string(k) : "c";
  };
  str a = "(f " + leaf() + " 1)", b = "(f " + a + " " + leaf() + ")";
  again("(f (f " + b + " " + a + ") (f " + leaf() + " " + b + "))", true);
  sx_reach("lets");
}
// messages of the checker: the expression it prints is the one that was given
static void cMessages()
{
  bool d = choose(2);
  str t = choose(2) ? gBool(1) : gInt(1);
  W = full;
  ExprValue::d_state = W->st;
  Expr e;
  Out o = guarded([&]() { e = W->term(t); });
  sx_assume(o.kind == SX_RETURN);
  o = guarded([&]() { sx_assume(!W->st->getTypeChecker().getType(e).isNull()); });
  sx_assume(o.kind == SX_RETURN);
  str sig = putFile("sig.eo", SIG);
  str m = putFile("m.eo", "(define @x () " + t + " :type Type)\n");
  std::vector<str> args = {"--include=" + sig, m};
  if (!d) args.push_back("--no-print-dag");
  o = runMain(args);
  sx_note("message", o.err.c_str());
  sx_check(o.diagnosed(), "a term of another type is accepted");
  size_t i = o.err.find("Expression: "), j = o.err.find("\n", i);
  sx_check(i != str::npos && j != str::npos, "a message with the expression");
  str p = o.err.substr(i + 12, j - i - 12);
  ExprValue::d_state = full->st;
  Expr r;
  Out u = guarded([&]() { r = full->term(p); });
  sx_check(u.kind == SX_RETURN && r == e, "the printed expression is not the one that was given");
  sx_reach("message");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  full = new World([](Options& o) { o.d_printDag = false; });
  full->cmds(SIG);
  dag = new World();
  dag->cmds(SIG);
}
void (*sx_setup)() = setup;
CASES({"terms", cTerms}, {"types", cTypes}, {"literals", cLiterals}, {"strings", cStrings}, {"symbols", cSymbols}, {"lets", cLets}, {"messages", cMessages});
