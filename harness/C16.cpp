// C16: the verdict is correct only for complete proofs, incomplete iff sorry was used
#include "common.h"

static const char* SIG =
    "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const P (-> Int Bool)) (declare-const => (-> Bool Bool Bool))\n"
    "(declare-rule id ((F Bool)) :premises (F) :conclusion F)\n"
    "(declare-rule same ((n Int)) :args (n) :conclusion (P n))\n"
    "(declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)\n"
    "(declare-rule believe ((F Bool)) :premises () :conclusion-explicit F :sorry)\n"
    "(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))\n"
    "(declare-rule unscope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion G :sorry)\n";
static str fileName(const str& n) { return std::to_string(getpid()) + "-" + n; }
static str digit(const str& n) { return symDigits(n.c_str(), 1); }
enum { OK, SORRY, BAD, STOP };
// the verdict of a run of which we know the outcome
static void verdict(const Out& o, bool ok, bool sorry)
{
  sx_note("output", (o.out + o.err + std::to_string(o.kind)).c_str());
  sx_check(!o.crashed(), "the run neither accepted nor rejected with a diagnosis");
  if (ok)
  {
    sx_check(o.accepted(), "exit status");
    sx_check(o.out == (sorry ? "incomplete\n" : "correct\n"), "verdict");
  }
  else
  {
    sx_check(!o.accepted(), "a rejected command does not make the run fail");
    sx_check(o.out.find("correct") == str::npos && o.out.find("incomplete") == str::npos, "a verdict after a rejected command");
  }
  sx_reach(ok ? sorry ? "incomplete" : "correct" : "rejected");
}
static const char* BADS[] = {
    "(step @x (P 1) :rule nosuch)",
    "(step @x (P 1) :rule same)",
    "(step @x (Q 1) :rule same :args (1))",
    "(step @x :rule id :premises (@none))",
    "(step @x (P 1) :rule trust :args ((P 2)))",
    "(step @x 1 :rule trust :args (1))",
    "(step-pop @x :rule unscope :premises (@t))",
    "(assume @x 1)",
    "(assume @x)",
    "(nosuch)",
    ")",
    "assume",
    "(declare-const)",
    "(declare-const c Nosuch)",
    "(pop)",
    "(include \"nosuch.eo\")",
    "(reference \"nosuch.smt2\")",
    "(define d () (P true) :type Bool)",
    "(declare-rule id ((F Bool)) :premises (F) :conclusion F)",
    // these may be completed by what follows
    "(echo \"unterminated)",
    "|unterminated",
};
static const unsigned NBADS = sizeof(BADS) / sizeof(BADS[0]);

// one command and what it does
static str command(const str& n, int& what, int depth)
{
  str r;
  what = OK;
  switch (pick(("command" + n).c_str(), 4, depth ? 14 : 12))
  {
    case 0:
    {
      str a = "1", b = digit("claimed" + n);
      if (!(a == b)) what = BAD;
      return "(step @s" + n + " (P " + b + ") :rule same :args (" + a + "))\n";
    }
    case 1:
    {
      str a = "1", b = digit("claimed" + n);
      what = a == b ? SORRY : BAD;
      return "(step @s" + n + " (P " + b + ") :rule trust :args ((P " + a + ")))\n";
    }
    case 2: what = SORRY; return "(step @s" + n + " :rule trust :args ((P 1)))\n";
    case 3: what = SORRY; return "(step @s" + n + " (P 1) :rule believe)\n";
    case 4: what = SORRY; return "(assume-push @a" + n + " (P 1)) (step-pop @s" + n + " :rule unscope :premises (@a" + n + "))\n";
    case 5: return "(assume-push @a" + n + " (P 1)) (step-pop @s" + n + " :rule scope :premises (@a" + n + "))\n";
    case 6: return "(assume @a" + n + " false) (step @s" + n + " false :rule id :premises (@a" + n + "))\n";
    case 7: what = SORRY; return "(push) (step @s" + n + " :rule trust :args ((P 1))) (pop)\n";
    case 8: what = STOP; return "(exit)\n";
    // rules declared but not used, or with nearly the same name
    case 9: return "(declare-rule trust" + n + " ((F Bool)) :args (F) :conclusion F :sorry) (declare-rule sorry" + n + " ((F Bool)) :args (F) :conclusion F)"
        " (step @s" + n + " :rule sorry" + n + " :args (true))\n";
    case 10: what = BAD; return BADS[pick(("bad" + n).c_str(), 5, NBADS)] + str("\n");
    case 11: return "; (step @s :rule trust :args (true)) |\n";
    // a file, included once or twice
    default:
    {
      int k;
      str c = command(n + "i", k, 0);
      putFile("i" + n + ".eo", c);
      what = k == STOP ? OK : k;
      r = "(include \"" + fileName("i" + n + ".eo") + "\")\n";
      return r;
    }
  }
}
static Out run(const str& t, bool fast = false)
{
  std::vector<str> args = {"--include=" + putFile("sig.eo", SIG)};
  sx_note("input", t.c_str());
  switch (fast ? 0 : pick("how", 2, 4))
  {
    case 0: args.push_back(putFile("p.smt3", t)); return runMain(args);
    case 1: args.push_back(putFile("p.eo", t)); return runMain(args);
    case 2: args.push_back("--include=" + putFile("p.eo", t)); args.push_back(putFile("empty.eo", "")); return runMain(args);
    default: return runMain(args, &t);
  }
}
static void cHistory()
{
  str t;
  bool ok = true, sorry = false;
  int n = sx_tier() ? 3 : 2, what;
  for (int i = 0; i < n; i++)
  {
    str c = command(std::to_string(i), what, 1);
    t += c;
    if (what == SORRY) sorry = true;
    if (what == BAD) ok = false;
    if (what == BAD || what == STOP)
    {
      if (i < n - 1)
      {
        // whatever follows
        static const char* rest[] = {"(exit)\n", "(step @z :rule trust :args (true))\n", "(reset)\n", ")))\n"};
        t += rest[pick("rest", 2, 4)];
      }
      break;
    }
  }
  verdict(run(t), ok, sorry);
}
// any bytes after a rejected command, or after the end of the file
static void cRest()
{
  unsigned k = pick("bad", 5, NBADS - 1);
  if (k == NBADS - 2) k = NBADS;
  str rest = symBytes("rest", sx_tier() ? 3 : 2);
  verdict(run(k < NBADS ? BADS[k] + str("\n") + rest : "(assume @a true)\n(exit)" + rest, true), k == NBADS, false);
}
// rules in scopes; a rule must not be taken for another one that is gone
static void cScoped()
{
  str t = "(assume @a true)\n";
  bool sorry = false;
  int n = 0, r = sx_tier() ? 4 : 3;
  for (int scope = 0; scope < 2; scope++)
  {
    t += "(push)\n";
    for (int i = 0; i < r - (scope && !sx_tier()); i++, n++)
    {
      str s = std::to_string(n);
      unsigned k = pick(("rule" + s).c_str(), 3, scope && !sx_tier() ? 4 : 5);
      if (k == 4)
      {
        t += "(declare-const c" + s + " Bool)\n";
        continue;
      }
      t += "(declare-rule r" + s + " ((F Bool)) :premises (F) :conclusion F" + (k & 1 ? " :sorry" : "") + ")\n";
      if (k & 2) t += "(step @s" + s + " true :rule r" + s + " :premises (@a))\n";
      if (k == 3) sorry = true;
    }
    t += "(pop)\n";
  }
  std::vector<str> args = {};
  if (pick("options", 1, 2)) args.push_back("--no-rule-sym-table");
  args.push_back(putFile("p.eo", t));
  sx_note("input", t.c_str());
  verdict(runMain(args), true, sorry);
}
// the options that print, and echo
static void cOutput()
{
  bool sorry = pick("sorry", 1, 2), bad = pick("bad", 1, 2);
  str text = symBytes("text", 3);
  for (char c : text) sx_assume((c >= 'a') & (c <= 'z'));
  str t = str("(assume @a true)\n") + (sorry ? "(step @s :rule trust :args (true))\n" : "(step @s :rule same :args (1))\n") + "(echo \"" + text + "\")\n(echo)\n";
  if (bad) t += "(step @t :rule same)\n";
  std::vector<str> args = {"--include=" + putFile("sig.eo", SIG), putFile("p.smt3", t)};
  static const char* opt[] = {"--stats", "--stats-all", "--stats-compact", "--no-print-dag", "--no-parse-let"};
  unsigned k = pick("option", 3, 5);
  args.push_back(opt[k]);
  Out o = runMain(args);
  str want = text + "\n\n";
  if (!bad) want += sorry ? "incomplete\n" : "correct\n";
  sx_note("output", (o.out + o.err).c_str());
  sx_check(o.accepted() == !bad && !o.crashed(), "exit status");
  sx_check(k < 3 ? o.out.compare(0, want.size(), want) == 0 : o.out == want, "output");
  sx_check(o.out.find("correct", want.size()) == str::npos && o.out.find("incomplete", want.size()) == str::npos, "two verdicts");
  sx_reach("output");
}
static void setup() {}
void (*sx_setup)() = setup;
CASES({"history", cHistory}, {"rest", cRest}, {"scoped", cScoped}, {"output", cOutput});
