// C06: any input bytes end in acceptance or a diagnosed error, never a crash
#include "terms.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = 1;
  while ((1u << bits) < n) bits++;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static const char* SIG =
    "(declare-const Int Type) (declare-const Str Type) (declare-const Set (-> Type Type)) (declare-consts <numeral> Int) (declare-consts <string> Str) (declare-consts <binary> Int)"
    "(declare-const c Int) (declare-const f (-> Int Int Int)) (declare-const h (-> Int Int)) (declare-const P (-> Int Bool)) (declare-const w (-> Int Int))"
    "(declare-const or (-> Bool Bool Bool) :right-assoc-nil false) (declare-const and (-> Bool Bool Bool) :left-assoc-nil true) (declare-const imp (-> Bool Bool Bool) :right-assoc)"
    "(declare-const lt (-> Int Int Bool) :chainable or) (declare-const sum (-> eo::List Int) :arg-list eo::List::cons)"
    "(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons) (declare-parameterized-const = ((T Type :implicit)) (-> T T Bool))"
    "(declare-const Pair (-> Type Type Type)) (declare-parameterized-const pair ((T Type :implicit) (U Type :implicit)) (-> T U (Pair T U)))"
    "(declare-parameterized-const mylet ((T Type :implicit)) (-> eo::List T T) :let-binder (pair eo::List::cons))"
    "(declare-parameterized-const none ((T Type :implicit)) (Set T)) (declare-parameterized-const sk ((b Bool :opaque) (n Int)) (-> Int Int))"
    "(declare-parameterized-const cat ((T Type :implicit)) (-> (Set T) (Set T) (Set T)) :right-assoc-nil (as none (Set T)))"
    "(declare-datatypes ((L 1)) ((par (X) ((nil) (cons (head X) (tail (L X))))))) (declare-datatype D ((e0) (e1 (se D))))"
    "(declare-const ov Int) (declare-const ov (-> Int Int))"
    "(define dd ((x Int)) (f x x)) (program $p ((N Int) (M Int)) :signature (Int) Int ((($p (f N M)) (h N)) (($p c) 1)))"
    "(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry) (declare-rule id ((F Bool)) :premises (F) :conclusion F)"
    "(declare-rule all ((F Bool)) :premise-list F or :conclusion F) (declare-rule ex ((F Bool) (G Bool)) :premises (F) :conclusion-explicit G)"
    "(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (imp F G))\n";
// --------------------------------------------------------------- a reader
// is the text a list of commands as far as parentheses and tokens go, and is
// the byte at `at` between two of them?
struct Read { bool wf = true, between = false, nothing = true; };
static Read reader(const str& t, size_t at)
{
  Read r;
  int depth = 0, head = 0;
  size_t i = 0, n = t.size();
  while (i < n)
  {
    if (i == at) r.between = depth == 0;
    unsigned char c = t[i];
    if ((c == ' ') | (c == '\t') | (c == '\r') | (c == '\n')) { i++; continue; }
    if (c == ';')
    {
      while (i < n && t[i] != '\n') i++;
      continue;
    }
    r.nothing = false;
    if (c == '(')
    {
      // the name of the command is a symbol
      if (head == 1) return r.wf = false, r;
      head = depth++ == 0;
      i++;
      continue;
    }
    if (depth == 0) return r.wf = false, r;
    if (c == ')')
    {
      if (head == 1) return r.wf = false, r;
      depth--;
      i++;
      continue;
    }
    head = 2;
    if (c == '"')
    {
      for (i++;; i++)
      {
        while (i < n && t[i] != '"') i++;
        if (i >= n) return r.wf = false, r;
        if (++i < n && t[i] == '"') continue;
        break;
      }
      continue;
    }
    if (c == '|')
    {
      i++;
      while (i < n && t[i] != '|') i++;
      if (i++ >= n) return r.wf = false, r;
      continue;
    }
    if ((c < 32) | (c > 126) | (c == '\'') | (c == ',') | (c == '[') | (c == ']') | (c == '`') | (c == '{') | (c == '}') | (c == '\\')) return r.wf = false, r;
    i++;
  }
  if (depth) r.wf = false;
  return r;
}
static const str MARK = "(echo \"MARK\")\n";
enum { MAIN, SIGNATURE, REFERENCE, STDIN, INCLUDED, HOWS };
// the input is given as a file of some kind; marked: it ends with MARK
static Out run(const str& t, int how, bool marked, bool sig = true, bool okay = false)
{
  std::vector<str> args;
  if (sig) args.push_back("--include=" + putFile("sig.eo", SIG));
  Out o;
  sx_note("input", t.c_str());
  switch (how)
  {
    case MAIN: args.push_back(putFile("m.smt3", t)); o = runMain(args); break;
    case SIGNATURE: args.push_back("--include=" + putFile("s.eo", t)); args.push_back(putFile("e.smt3", "")); o = runMain(args); break;
    case REFERENCE: args.push_back("--reference=" + putFile("r.smt2", t)); args.push_back(putFile("e.smt3", "")); o = runMain(args); break;
    case STDIN: o = runMain(args, &t); break;
    default: putFile("i.eo", t); args.push_back(putFile("m.eo", "(include \"" + std::to_string(getpid()) + "-i.eo\")\n")); o = runMain(args);
  }
  sx_note("output", (o.out + o.err + " (" + std::to_string(o.kind) + ", " + std::to_string(o.code) + ")").c_str());
  sx_check(!o.crashed(), "neither a verdict nor a diagnosed error");
  sx_check(o.accepted() || o.diagnosed(), "neither a verdict nor a diagnosed error");
  bool verdict = o.out.find("correct\n") != str::npos || o.out.find("incomplete\n") != str::npos;
  sx_check(verdict == o.accepted(), "a verdict and an error, or neither");
  Read r = reader(t, marked ? t.size() - MARK.size() : t.size());
  if (o.accepted())
  {
    sx_check(r.wf, "a verdict on what is not a list of commands");
    if (marked && r.between) sx_check(o.out.find("MARK") != str::npos, "the rest of a file is ignored");
    sx_reach("verdict");
  }
  else
  {
    sx_check(!okay, "an error");
    sx_reach("error");
  }
  if (r.nothing) sx_check(o.accepted(), "an input without commands is an error");
  return o;
}
// ------------------------------------------------------------------ bytes
static void cBytes()
{
  int how = choose(HOWS);
  str t = symBytes("bytes", choose(sx_tier() ? 4 : 3));
  bool m = choose(2);
  run(m ? t + MARK : t, how, m, false);
  sx_reach("bytes");
}
// any byte at any place of a command
static const char* TEXTS[] = {
    "(echo \"a\")", "(declare-const a (-> Int Int))", "(assume a (or true (P 1)))", "(step s (P 1) :rule trust :args ((P 1)))",
    "(define a ((x Int)) (f x -1) :type Int)", "(set-option :a b)", "(declare-consts <binary> D)",
    "(program $q ((x Int)) :signature (Int) Int ((($q x) x)))", "(declare-rule r ((x Bool)) :requires ((x true)) :conclusion x)",
    "(declare-datatype E ((a (b E))))", "(define a () #b01 :type Int)", "(assume a (= \"x\" \"\"))", "(assume |a b| (eo::define ((x true)) x))",
    "(define a () (as nil (L Int)))", "(declare-fun a (Int) Bool)", "(define-fun a ((x Int)) Int x)", "(push) (pop)", "(assume-push a true) (step-pop s :rule scope :premises (a))",
    "(assume a (forall ((x Int)) (P x)))", "(assume a (! true :b))", "(include \"x\")", "(define a () 1/2)",
};
static void cWindow()
{
  unsigned n = sizeof(TEXTS) / sizeof(TEXTS[0]);
  str t = TEXTS[choose(n)];
  size_t at = choose(t.size() + 1);
  // quick: where a token begins or ends
  if (!sx_tier())
  {
    auto in = [&](size_t i) { return i < t.size() && strchr("() \"|:#", t[i]) == nullptr; };
    sx_assume(!(in(at) && at > 0 && in(at - 1) && in(at - 2)));
  }
  unsigned char b = symBytes("byte", 1)[0];
  unsigned how = choose(3);
  switch (how)
  {
    case 0: t = t.substr(0, at) + (char)b + t.substr(at); break;
    case 1: sx_assume(at < t.size()); t[at] = b; break;
    default: sx_assume(b == 0); t = t.substr(0, at);
  }
  bool m = sx_tier() ? choose(2) : how < 2;
  run(m ? t + "\n" + MARK : t, sx_tier() ? choose(HOWS) : MAIN + 0, m);
  sx_reach("window");
}
// ------------------------------------------------ what looks like a literal
static void cLiterals()
{
  static const char* frames[] = {"(define a () %)", "(define a () (f c %))", "(define a () c :unknown %)", "(set-option :a %)", "(set-info :a %)", "(declare-consts % Int)"};
  unsigned q = choose(6), n = 4 + (sx_tier() || q == 0 ? choose(sx_tier() ? 3 : 2) : 0);
  str b = symBytes("bytes", n), t = frames[q];
  static const char* cls = "01./-#bx";
  for (unsigned char c : b)
  {
    bool in = false;
    for (const char* p = cls; *p; p++) in |= c == (unsigned char)*p;
    sx_assume(in);
  }
  size_t at = t.find('%');
  run("(declare-consts <rational> Int) (declare-consts <decimal> Int) (declare-consts <hexadecimal> Int)\n" + t.substr(0, at) + b + t.substr(at + 1) + "\n" + MARK, q == 4 ? REFERENCE : MAIN, true);
  sx_reach("literals");
}
// ----------------------------------------------------- sequences of tokens
static const char* TOKENS[] = {"(", ")", "c", "_", "as", "let", "!", ":a", "\"s\"", "1", "f", "eo::define", "forall", "or", "->", "Type", "sum", "par", "|f|", "1/2", "mylet", "ov", "none", "eo::quote", "eo::List", "sk", "Bool", "-1", "#b1", "L", ":list", "nil", "dd", "$p", "id"};
static const char* FRAMES[] = {"(define a () %)", "(define a ((x Int)) (f x %))", "(declare-const a %)", "(assume a %)", "(step a :rule %)", "(step a % :rule trust)", "(define a (%) c)",
    "(declare-const a (-> Int Int Int) %)", "(declare-rule r ((x Bool)) %)", "(program $q % :signature (Int) Int ((($q c) c)))", "(%)", "(declare-datatype E %)", "(program $q ((x Int)) :signature (Int) Int %)", "(declare-consts %)", "(declare-datatypes % (((a))))",
    "(declare-parameterized-const a ((x Int) %) Int)", "(define-fun a ((x Int)) %)", "(include %)", "(assume a (forall (%) true))", "(define a () (let (%) c))", "(set-option %)", "(set-option :a %)", "(define a () c :unknown %)", "(declare-rule r % :conclusion true)", "(reference %)"};
static void cTokens()
{
  unsigned nf = sizeof(FRAMES) / sizeof(FRAMES[0]), nt = sizeof(TOKENS) / sizeof(TOKENS[0]);
  str t = FRAMES[choose(nf)], w;
  unsigned n = choose(sx_tier() ? 4 : 3);
  for (unsigned i = 0; i < n; i++) w += (i ? " " : "") + str(TOKENS[choose(i == 0 || sx_tier() ? nt : 14)]);
  size_t at = t.find('%');
  t = t.substr(0, at) + w + t.substr(at + 1);
  run(t + "\n" + MARK, MAIN, true);
  sx_reach("tokens");
}
// ------------------------------------------- terms where they do not belong
static const char* FORMS[] = {"c", "Int", "true", "Type", "Bool", "(-> Int Int)", "(-> Type Type)", "1", "\"s\"", "f", "(f c)", "(P c)", "(or)", "(or true)", "(f)", "none", "(as none (Set Int))", "(eo::quote c)", "(eo::add 1 c)", "(eo::add 1 true)", "$p", "($p c)", "($p 2)", "or", "(Set Int)", "(Set c)", "nil", "ov",
    "(eo::var \"x\" Int)", "(eo::nil or Bool)", "eo::List", "(sum c)", "(forall ((x Int)) true)", "dd", "(dd c)", "trust", "(trust true)", "(Proof true)", "-", "(_ f c)", "(_ f c c c)", "(c c)", "(true true)", "(1 1)", "(-> Int)", "(->)", "cat", "(cat (as none (Set Int)))", "(eo::typeof c)", "(_)", "(as)", "(as c)", "(as none c)", "(as ov Int)", "(as ov (-> Int Int))", "(let () c)", "(eo::define () c)", "((_ f c) c)", "((_ f c))", "((as none (Set Int)))", "((_))", "(_ f)", "(_ _ c)", "(_ as c)", "(as as c)", "(_ -> Int Int)", "(as -> Int)", "(as _ Int)", "(eo::as)", "(eo::as ov Int)", "(eo::as c (->))", "(! c)", "(! c :a)", "(! c :list)", "(! c :type Int)", "(let ((z c)) z)", "(as nil Int)", "(as nil (L Bool))", "(_ as none (Set Int))", "(_ none (Set Int))", "(none Int)", "(nil Int)", "(head c)", "(cons c)", "(cons c c)", "(sk true c)", "sk", "(lt c)", "(eo::ite true 1)", "1/00", "(f -1/2 0.50)", "x", "(f x c)", "(P x)", "(eo::is_z x)", "T", "(Set T)"};
static const char* SLOTS[] = {
    "(declare-const a %)", "(declare-const a (-> % %))", "(declare-parameterized-const a ((x %)) %)", "(declare-parameterized-const a ((T Type :implicit) (x T)) %)", "(declare-parameterized-const a ((x % :opaque)) %)",
    "(declare-const a (-> % % %) :right-assoc-nil %)", "(declare-const a (-> Int Int Int) :left-assoc-nil %)", "(declare-const a (-> Int Int Bool) :chainable %)", "(declare-const a (-> Int Int Bool) :pairwise %)", "(declare-const a (-> eo::List Bool Bool) :binder %)", "(declare-const a (-> Int Int) :arg-list %)",
    "(declare-const a % :right-assoc) (assume z (a c c c))", "(declare-consts <numeral> %) (define a () (h 1) :type Int)", "(define a () %)", "(define a () % :type %)", "(define a ((x %)) %)", "(define a ((x %)) (f x x))", "(define a ((T Type) (x T)) %)", "(define a ((x Int :list)) %)",
    "(declare-rule r ((x %)) :premises (%) :conclusion %)", "(declare-rule r ((x Bool)) :premises (%) :conclusion x)", "(declare-rule r ((x Int)) :args (%) :conclusion (P x)) (step s :rule r :args (%))", "(declare-rule r ((x Int)) :requires ((% %)) :conclusion (P x))", "(declare-rule r ((x Int)) :assumption % :conclusion %)", "(declare-rule r ((x Int)) :premise-list % % :conclusion true)", "(declare-rule r ((x Bool)) :premise-list x % :conclusion x)", "(declare-rule r () :conclusion %) (step s :rule r)", "(declare-rule r ((x Bool)) :premises (x) :conclusion-explicit %)",
    "(program $q ((x %)) :signature (%) Int ((($q x) x)))", "(program $q ((x Int)) :signature (Int) % ((($q x) %)))", "(program $q ((x Int)) :signature (Int) Int ((($q %) %))) (define a () ($q c))", "(program $q ((T Type) (x T)) :signature (%) T ((($q x) x))) (define a () ($q %))", "(program $q ((x Int)) :signature (Int Int) Int ((($q x %) %)))",
    "(assume a %)", "(assume-push a %) (step-pop s :rule scope :premises (a))", "(step a % :rule trust :args (%))", "(step a % :rule ex :premises (%))", "(step a :rule % :args (true))", "(assume a true) (step b % :rule id :premises (a))", "(assume a true) (step b :rule all :premises (% a))",
    "(declare-datatype E ((a (b %))))", "(declare-datatypes ((E 1)) ((par (x) ((a (b %))))))", "(declare-fun a (%) %)", "(define-fun a ((x %)) % x)", "(define-fun a () % %)", "(define-sort A (x) %)", "(declare-sort A %)", "(assume a (forall ((x %)) %))", "(assume a (let ((x %)) %))", "(assume a (eo::define ((x %) (z %)) (P x)))", "(assume a (mylet ((x %)) %))", "(define a () (as % %))", "(define a () (as % (-> Int (Set Int))))", "(define a () (_ % %))", "(define a () (% %))", "(define a () (% c %))", "(define a () ((_ % c) %))", "(define a () ((as % (Set Int)) %))", "(define a () (f % %)) (step s (= a a) :rule trust :args ((= a a)))", "(assume a (= % %))", "(define a () (eo::var % %))", "(define a () (or % %))", "(define a () (sum % %))", "(define a () (cat % %)) (define b () a :type Int)",
    "(declare-consts <boolean> %)", "(define a () (! % :b %))", "(echo %)", "(pop %)", "(push %)", "(set-option :a %)", "(exit %)", "(reset %)", "(include %)", "(% %)",
    "(define a () % :type Int) (define b () (f a a) :type %)"};
static str fill(const str& t, unsigned few)
{
  unsigned n = sizeof(FORMS) / sizeof(FORMS[0]), k = 0;
  str r;
  for (char c : t)
  {
    if (c != '%') { r += c; continue; }
    r += FORMS[choose(k++ == 0 ? n : few)];
  }
  return r;
}
static void cSlots()
{
  unsigned n = sizeof(SLOTS) / sizeof(SLOTS[0]);
  str t = fill(SLOTS[choose(n)], sx_tier() ? 28 : 2);
  run(t + "\n" + MARK, MAIN, true);
  sx_reach("slots");
}
// ---------------------------------------------------------- the operators
static World* ops;
static const char* OPS[] = {"is_ok", "is_eq", "eq", "ite", "requires", "hash", "nameof", "typeof", "var", "cmp", "is_z", "is_q", "is_bin", "is_str", "is_bool", "is_var", "nil", "cons", "list_len", "list_concat", "list_nth", "list_find", "list_erase", "list_erase_all", "list_rev", "list_setof", "list_minclude", "list_meq", "list_diff", "list_inter", "list_singleton_elim", "not", "and", "or", "xor", "add", "neg", "mul", "zdiv", "zmod", "qdiv", "is_neg", "to_z", "to_q", "to_bin", "to_str", "gt", "len", "concat", "extract", "find", "dt_constructors", "dt_selectors", "as"};
static const char* VALUES[] = {"0", "-1", "true", "or", "(or true)", "\"a\"", "1/2", "#b10", "Int", "c", "(or true (P c))", "eo::List::cons", "(eo::List::cons c eo::List::nil)", "nil", "cat", "(as none (Set Int))", "4294967296", "-9223372036854775809", "18446744073709551616", "ov", "(eo::var \"x\" Int)", "x", "T", "(or x true)", "D", "(L Int)", "L", "e1", "(eo::add 1 c)", "Type", "$p", "f", "(as nil (L Int))", "(_ f c)", "\"\"", "(-> Int Int)", "dd", "trust", "#x0f", "and", "(and true (P c))"};
static void cOps()
{
  unsigned n = sizeof(OPS) / sizeof(OPS[0]), m = sizeof(VALUES) / sizeof(VALUES[0]);
  str t = "(eo::" + str(OPS[choose(n)]);
  unsigned k = choose(5);
  for (unsigned i = 0; i < k; i++)
  {
    // quick: all values of one argument, some of several
    unsigned all[] = {k > 2 ? 12u : m, k == 2 ? 5u : k == 3 ? 4u : 1u, k == 3 ? 2u : 1u, 1u}, deep[] = {m, m, 12, 6};
    t += " " + str(VALUES[choose(sx_tier() ? deep[i] : all[i])]);
  }
  t += ")";
  // this many zeroes or bits do not fit
  sx_assume(t.find("to_bin 4294967296") == str::npos && t.find("to_bin 18446744073709551616") == str::npos);
  W = ops;
  sx_note("term", t.c_str());
  static const char* ctx[] = {"(define a () %)", "(define a () % :type Int)", "(define a ((T Type) (x T)) %)", "(step s :rule trust :args ((= c %)))", "(declare-const a %)"};
  unsigned q = choose(sx_tier() ? 5 : k < 2 ? 2 : 1);
  if (q == 1) q = 3;
  str s = ctx[q];
  s.replace(s.find('%'), 1, t);
  Out o = guarded([&]() { W->cmds(s); });
  sx_note("diagnosis", o.err.c_str());
  sx_check(!o.crashed() && (o.kind == SX_RETURN || o.diagnosed()), "neither a term nor a diagnosed error");
  sx_reach("operators");
}
// ------------------------------------------------------- pairs of commands
static const char* CMDS[] = {"(push)", "(pop)", "(reset)", "(exit)", "(assume a true)", "(assume-push a true)", "(step a :rule id :premises (a))", "(step-pop b :rule scope :premises (a))", "(declare-const a Int)", "(declare-const id Bool)", "(define a () true)", "(declare-const or Int)",
    "(declare-const a (-> Int Int) :right-assoc)", "(program $q ((x Int)) :signature (Int) Int)", "(program $q ((x Int)) :signature (Int) Int ((($q x) x)))", "(program $q ((x Bool)) :signature (Bool) Int ((($q x) 1)))", "(define b () ($q 1))", "(declare-rule a ((F Bool)) :args (F) :conclusion F)", "(step b true :rule a :args (true))", "(declare-consts <numeral> Bool)", "(declare-consts <decimal> Int)", "(define b () 1.5)", "(assume b (= a a))", "(declare-datatype a ((b)))", "(declare-datatypes ((E 0)) (((a (b E)))))", "(include \"1\")", "(reference \"2\")", "(set-option :a b)", "(check-sat)", "(assert true)", "(declare-sort a 0)", "(define-sort a () Int)", "(define-fun a ((x Int)) Int x)", "(declare-fun a (Int) Int)", "(set-logic ALL)", "(declare-const eo::List::nil Int)", "(declare-const a Type)", "(declare-const = Int)", "(declare-const Int Int)", "(echo)"};
static void cPairs()
{
  unsigned n = sizeof(CMDS) / sizeof(CMDS[0]);
  str t;
  putFile("1", "(declare-const a Int)\n");
  putFile("2", "(declare-const a Int)\n(assert (P a))\n");
  unsigned k = sx_tier() ? 3 : 2;
  for (unsigned i = 0; i < k; i++)
  {
    str c = CMDS[choose(n)];
    for (char d : {'1', '2'})
    {
      size_t p = c.find(str("\"") + d + "\"");
      if (p != str::npos) c.insert(p + 1, std::to_string(getpid()) + "-");
    }
    t += c + "\n";
  }
  run(t, choose(HOWS), false);
  sx_reach("pairs");
}
// --------------------------------------------------------- reading fails
struct Faulty : std::streambuf
{
  str t;
  size_t chunk, at = 0;
  bool throws = true;
  int underflow() override
  {
    if (at >= t.size())
    {
      if (throws) throw std::runtime_error("read");
      return EOF;
    }
    size_t n = std::min(chunk, t.size() - at);
    setg(&t[at], &t[at], &t[at] + n);
    at += n;
    return (unsigned char)*gptr();
  }
};
static void cFault()
{
  // a signature, proof or reference that is no file, or whose reading fails
  unsigned n = sizeof(TEXTS) / sizeof(TEXTS[0]);
  str t = str(TEXTS[choose(n)]) + "\n" + MARK;
  Faulty* b = new Faulty;
  b->t = t.substr(0, choose(t.size() + 1));
  b->chunk = choose(2) ? 1000 : 1 + choose(2);
  b->throws = true;
  std::vector<str> args = {"--include=" + putFile("sig.eo", SIG)};
  sx_note("input", b->t.c_str());
  std::streambuf* si = std::cin.rdbuf(b);
  Out o = guarded([&]() {
    std::cin.clear();
    World* w = new World();
    Parser* p = new Parser(*w->st, false, false);
    p->setStreamInput(std::cin);
    w->cmds(SIG);
    while (p->parseNextCommand()) {}
  });
  std::cin.rdbuf(si);
  sx_note("output", (o.out + o.err).c_str());
  sx_check(o.diagnosed() && !o.crashed(), "an input that cannot be read is accepted");
  sx_reach("fault");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
  ops = new World();
  ops->cmds(SIG);
}
void (*sx_setup)() = setup;
CASES({"bytes", cBytes}, {"window", cWindow}, {"literals", cLiterals}, {"tokens", cTokens}, {"slots", cSlots}, {"operators", cOps}, {"pairs", cPairs}, {"fault", cFault});
