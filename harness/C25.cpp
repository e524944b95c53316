// C25: command line and options mean what the manual says, in any order
#include "common.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = 1;
  while ((1u << bits) < n) bits++;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static const char* SIG =
    "(declare-const Int Type) (declare-const Rat Type) (declare-const Dec Type) (declare-const Hex Type) (declare-const Bin Type) (declare-consts <numeral> Int) (declare-consts <rational> Rat)\n"
    "(declare-consts <decimal> Dec) (declare-consts <hexadecimal> Hex) (declare-consts <binary> Bin) (declare-const c Int) (declare-const f (-> Int Int Int))\n"
    "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool)) (declare-rule id ((F Bool)) :premises (F) :conclusion F)\n";
struct Opts
{
  bool let = true, dag = true, stats = false, all = false, compact = false, table = true, dec = true, num = false, hex = true;
};
enum { DEC, NUM, HEX, LET, DAG, TABLE, STATS, ALL, COMPACT, KEYS };
static const char* keys[] = {"normalize-dec", "normalize-num", "normalize-hex", "parse-let", "print-dag", "rule-sym-table", "stats", "stats-all", "stats-compact"};
static void apply(Opts& o, unsigned k, bool v)
{
  switch (k)
  {
    case DEC: o.dec = v; break;
    case NUM: o.num = v; break;
    case HEX: o.hex = v; break;
    case LET: o.let = v; break;
    case DAG: o.dag = v; break;
    case TABLE: o.table = v; break;
    case STATS: o.stats = v; break;
    case ALL: o.all = v; if (v) o.stats = true; break;
    default: o.compact = v; if (v) o.stats = true;
  }
}
// what shows the value of an option
struct Probe { const char* text; bool (*accepted)(const Opts&, bool sig); unsigned key; };
static const Probe probes[] = {
    {"(define a () 1.5 :type Rat)", [](const Opts& o, bool sig) { return !sig && o.dec; }, DEC},
    {"(define a () -1.50 :type Dec)", [](const Opts& o, bool sig) { return sig || !o.dec; }, DEC},
    {"(define a () 3 :type Rat)", [](const Opts& o, bool sig) { return !sig && o.num; }, NUM},
    {"(define a () -3 :type Int)", [](const Opts& o, bool sig) { return sig || !o.num; }, NUM},
    {"(define a () #xA :type Bin)", [](const Opts& o, bool sig) { return !sig && o.hex; }, HEX},
    {"(define a () #xA :type Hex)", [](const Opts& o, bool sig) { return sig || !o.hex; }, HEX},
    {"(define a () (let ((y c)) (f y y)) :type Int)", [](const Opts& o, bool sig) { return !sig && o.let; }, LET},
    {"(declare-const let (-> Int Int)) (define a () (let c) :type Int)", [](const Opts& o, bool sig) { return sig || !o.let; }, LET},
    {"(declare-const id Int) (assume a (= c c)) (step b (= c c) :rule id :premises (a))", [](const Opts& o, bool) { return o.table; }, TABLE},
    {"(assume a (= c c)) (step id (= c c) :rule id :premises (a)) (step b (= c c) :rule id :premises (id))", [](const Opts& o, bool) { return o.table; }, TABLE},
    {"(define a () 1/2 :type Rat) (define b () #b01 :type Bin) (assume z (= c c)) (step w (= c c) :rule id :premises (z))", [](const Opts&, bool) { return true; }, STATS},
    {"(define a () (f (f c c) (f c c)) :type Bool)", [](const Opts&, bool) { return false; }, DAG},
};
static const unsigned NPROBES = sizeof(probes) / sizeof(probes[0]);
static void outcome(const Out& o, bool ok, const Opts& op)
{
  sx_note("output", (o.out + o.err + std::to_string(o.kind)).c_str());
  sx_check(!o.crashed(), "neither accepted nor rejected with a diagnosis");
  bool verdict = o.out.compare(0, 8, "correct\n") == 0, any = o.out.find("correct\n") != str::npos || o.out.find("incomplete\n") != str::npos;
  if (ok)
  {
    sx_check(o.accepted() && verdict, "an input is rejected under options that accept it");
    sx_check((o.out.size() > 8) == op.stats, "statistics are printed exactly when asked for");
    sx_reach("accepted");
  }
  else
  {
    sx_check(o.diagnosed() && !any, "an input is accepted under options that reject it");
    sx_reach("rejected");
  }
}
enum { PROOF, SIGNATURE, STREAM, REFERENCED, KINDS };
static bool refable(unsigned p) { return p == 0 || p == 2 || p == 4 || p == 6 || p == 11; }
// a reference has no define: the same in an assertion
static str refText(unsigned p)
{
  switch (p)
  {
    case 0: return "(assert (= 1.5 1/2))";
    case 2: return "(assert (= 3 1/2))";
    case 4: return "(assert (= #xA #b1))";
    case 6: return "(assert (= c (let ((y c)) y)))";
    default: return "(assert (f (f c c) (f c c)))";
  }
}
static void probe(unsigned p, unsigned kind, std::vector<str> args, const str& before, const Opts& o, const Opts& late)
{
  const Probe& q = probes[p];
  // the options read when a file is opened, and those when a term is read
  Opts e = late;
  e.let = o.let;
  str t = before + (kind == REFERENCED ? refText(p) : str(q.text)) + "\n";
  size_t at = 0;
  while (at < args.size() && args[at] != "<file>") at++;
  str in;
  bool stream = kind == STREAM;
  switch (kind)
  {
    case PROOF: args[at] = putFile("p.smt3", t); break;
    case SIGNATURE: args[at] = putFile("p.eo", t); break;
    case STREAM: in = t; args.erase(args.begin() + at); break;
    // the reference follows the signature
    default: args[at] = putFile("e.smt3", ""); args.push_back("--reference=" + putFile("r.smt2", t));
  }
  str all;
  for (const str& a : args) all += a + " ";
  sx_note("arguments", all.c_str());
  sx_note("input", t.c_str());
  Out r = runMain(args, stream ? &in : nullptr);
  bool ok = q.accepted(e, kind == SIGNATURE);
  outcome(r, ok, e);
  if (q.key == DAG) sx_check((r.err.find("eo::define") != str::npos) == e.dag, "terms of a message are printed as asked for");
}
static str spell(unsigned k, bool v) { return (v ? "--" : "--no-") + str(keys[k]); }
// options on the command line, in any order with the files
static void cOrder()
{
  unsigned kind = choose(KINDS), p = choose(NPROBES);
  if (kind == REFERENCED && !refable(p)) { sx_done(); return; }
  unsigned n = choose(sx_tier() ? 4 : 3);
  std::vector<str> args = {"<file>"};
  str inc = "--include=" + putFile("sig.eo", SIG);
  args.insert(args.begin() + choose(2), inc);
  Opts o;
  struct Opt { unsigned k; bool v; size_t at; };
  // options are applied in their order on the command line
  std::vector<unsigned> mark(args.size(), KEYS * 2);
  for (unsigned i = 0; i < n; i++)
  {
    // quick: the first concerns the probe, the second may, too
    unsigned few[] = {probes[p].key, NUM, LET, ALL}, k = sx_tier() ? choose(KEYS) : few[i ? choose(4) : 0];
    bool v = choose(2);
    size_t at = choose(args.size() + 1);
    args.insert(args.begin() + at, spell(k, v));
    mark.insert(mark.begin() + at, k * 2 + v);
  }
  for (unsigned m : mark)
    if (m < KEYS * 2) apply(o, m / 2, m % 2);
  probe(p, kind, args, "", o, o);
  sx_reach("order");
}
// options set by commands
static void cCommand()
{
  unsigned kind = choose(KINDS), p = choose(NPROBES), n = 1 + choose(2), where = choose(3);
  if (kind == REFERENCED && !refable(p)) { sx_done(); return; }
  Opts o, late;
  std::vector<str> args = {"<file>"};
  unsigned k0 = probes[p].key;
  if (n == 2)
  {
    bool v = choose(2);
    args.insert(args.begin() + choose(2), spell(k0, v));
    apply(o, k0, v);
  }
  unsigned k = choose(sx_tier() ? KEYS : TABLE), v = choose(4);
  // whether a table is used is fixed for a run
  if (k == TABLE) { sx_done(); return; }
  static const char* values[] = {"false", "true", "yes", "\"true\""};
  str c = "(set-option :" + str(keys[k]) + " " + values[v] + ")\n", sig = SIG;
  late = o;
  switch (where)
  {
    // before anything else of the run is read
    case 0: sig = c + sig; break;
    case 1: sig += c; break;
    default: c += "";
  }
  if (where < 2)
  {
    if (v < 2) apply(o, k, v);
    late = o;
    c = "";
  }
  else if (v < 2 && kind != REFERENCED) apply(late, k, v);
  args.insert(args.begin(), "--include=" + putFile("sig.eo", sig));
  probe(p, kind, args, c, o, late);
  sx_reach("command");
}
// what is no option
static void cNames()
{
  std::vector<str> all;
  for (unsigned i = 0; i < 2 * KEYS; i++) all.push_back(spell(i / 2, i % 2));
  static const char* more[] = {"--help", "--show-config", "--include=", "--reference=", "--"};
  for (const char* m : more) all.push_back(m);
  unsigned n = choose(all.size());
  str t = all[n];
  bool path = t.back() == '=';
  size_t len = t.size();
  unsigned char b = 0;
  size_t at = choose(len + 1);
  unsigned how = choose(3);
  if (how < 2)
  {
    b = symBytes("byte", 1)[0];
    sx_assume(b != 0);
  }
  switch (how)
  {
    case 0: t = t.substr(0, at) + (char)b + t.substr(at); break;
    case 1: sx_assume(at < len); t[at] = b; break;
    default: t = t.substr(0, at);
  }
  str file = putFile("p.smt3", "(define a () \"x\")\n(declare-const s Type)");
  file = putFile("p.smt3", "(assume a true)\n");
  bool ref = t.compare(0, 12, "--reference=") == 0, known = ref || t.compare(0, 10, "--include=") == 0, same = false, info = t == "--help" || t == "--show-config";
  for (unsigned i = 0; i < 2 * KEYS; i++) same = same || t == all[i];
  bool isT = t == "-t" || t == "-v";
  sx_assume(!isT);
  std::vector<str> args = {file};
  bool first = choose(2);
  args.insert(args.begin() + (first ? 0 : 1), t);
  sx_note("argument", t.c_str());
  Out o = runMain(args);
  sx_note("output", (o.out + o.err).c_str());
  bool verdict = o.out.find("correct\n") != str::npos;
  sx_check(!o.crashed(), "neither accepted nor rejected with a diagnosis");
  // no file has such a name
  (void)path;
  if (same) sx_check(o.accepted() && verdict, "an option is not recognized");
  else if (info) sx_check(o.accepted() && !verdict && o.out.size() > 20, "information");
  else
  {
    // the empty path is the one of a directory
    sx_check(o.diagnosed() && !verdict, known ? "a file that does not exist is included" : "an unknown option is ignored");
  }
  sx_reach(same ? "option" : info ? "information" : known ? "path" : "unknown");
}
// files
static void cFiles()
{
  // what the files need and give
  str a = putFile("a.eo", "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const P (-> Int Bool))\n"),
      b = putFile("b.eo", "(declare-rule id ((n Int)) :args (n) :conclusion (P n))\n"),
      r = putFile("r.smt2", "(assert (P 1))\n"), q = putFile("q.smt2", "(assert true)\n"),
      m1 = putFile("m1.smt3", "(assume x (P 1)) (step y (P 2) :rule id :args (2))\n"), m2 = putFile("m2.smt3", "(step z (P 2) :rule id :args (2))\n(assume x true)\n"),
      m3 = putFile("m3.eo", "(assume x (P 2))\n");
  struct { str arg; int what; } all[] = {{"--include=" + a, 0}, {"--include=" + b, 1}, {"--reference=" + r, 2}, {"--reference=" + q, 3}, {m1, 4}, {m2, 5}, {m3, 6}, {"--include=" + a + "x", 7}, {"--reference=" + a + "x", 7}, {m1 + "x", 8}};
  unsigned n = 1 + choose(sx_tier() ? 5 : 4);
  std::vector<str> args;
  bool hasA = false, hasB = false, hasR = false, ok = true;
  int ref = 0, main = 0, mains = 0;
  str t;
  for (unsigned i = 0; i < n; i++)
  {
    auto& c = all[choose(10)];
    args.push_back(c.arg);
    t += c.arg + " ";
    switch (c.what)
    {
      case 0: hasA = true; break;
      case 1: ok = ok && hasA; hasB = true; break;
      case 2: ok = ok && hasA && !hasR; hasR = true; ref = 1; break;
      case 3: ok = ok && !hasR; hasR = true; ref = 2; break;
      case 7: ok = false; break;
      default: mains++; main = c.what;
    }
  }
  if (mains != 1 || main == 8) ok = mains == 0 && ok;
  else if (main == 4) ok = ok && hasB && ref != 2;
  else if (main == 5) ok = ok && hasB && ref != 1;
  else ok = ok && hasA && ref == 0;
  str none = "(assume u true)";
  if (mains == 0) ok = ok && ref != 1;
  sx_note("arguments", t.c_str());
  Out o = runMain(args, mains ? nullptr : &none);
  Opts op;
  outcome(o, ok, op);
  sx_reach("files");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
}
void (*sx_setup)() = setup;
CASES({"order", cOrder}, {"command", cCommand}, {"names", cNames}, {"files", cFiles});
