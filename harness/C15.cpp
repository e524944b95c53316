// C15: with a reference file, every proof assumption is one of its assertions
#include "common.h"

static const char* SIG =
    "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const Real Type) (declare-consts <rational> Real) (declare-consts <decimal> Real)\n"
    "(declare-const c Int) (declare-const P (-> Int Bool)) (declare-const Q (-> Int Bool)) (declare-const R (-> Int Int Bool)) (declare-const N (-> Bool Bool))\n"
    "(declare-parameterized-const E ((T Type :implicit)) (-> T Bool)) (declare-parameterized-const V ((n Int :implicit)) (-> Int Bool))\n"
    "(declare-const BV Type) (declare-consts <binary> BV) (declare-consts <hexadecimal> BV)\n"
    "(declare-parameterized-const = ((T Type :implicit)) (-> T T Bool)) (declare-parameterized-const lambda ((T Type :implicit)) (-> eo::List T (-> Int T)) :binder eo::List::cons)\n"
    "(declare-rule drop ((F Bool)) :assumption F :conclusion F)\n"
    "(program $nf ((x Int) (y Int) (F Bool)) :signature (Bool) Bool ((($nf (Q x)) (P x)) (($nf (R x y)) (P x)) (($nf (N (N F))) ($nf F))))\n";
static str inc() { return "--include=" + putFile("sig.eo", SIG); }
static str fileName(const str& n) { return std::to_string(getpid()) + "-" + n; }
static const char* NOTREF = "was not part of the referenced assertions";
static void verdict(const Out& o, bool ok, const char* why)
{
  sx_note("output", (o.out + o.err + std::to_string(o.kind)).c_str());
  sx_check(!o.crashed(), "the run neither accepted nor rejected with a diagnosis");
  if (ok)
    sx_check(o.accepted() && o.out == "correct\n", "a proof from assertions of the reference is rejected");
  else
  {
    sx_check(!o.accepted() && o.out == "", "an assumption that is not an assertion of the reference is accepted");
    if (why) sx_check(o.err.find(why) != str::npos, "diagnosis");
  }
}
static str digit(const str& n) { return symDigits(n.c_str(), 1); }

// ------------------------------------------------ histories of commands
static void cOrder()
{
  int n = sx_tier() ? 4 : 3;
  str a = digit("asserted");
  str ref = putFile("r.smt2", pick("second assertion", 1, 2) ? "(assert (P " + a + "))(assert (Q 0))\n" : "(assert (P " + a + "))\n");
  putFile("i.eo", "(assume @i (P 1))\n");
  putFile("j.eo", "(reference \"" + fileName("r.smt2") + "\")\n");
  std::vector<str> args = {inc()};
  bool has = false;
  // 0: the assumption is in the main file only, 1: given on the command line
  if (pick("command line", 1, 2)) { args.push_back("--reference=" + ref); has = true; }
  str t;
  // what is expected: the first failure decides
  const char* why = nullptr;
  bool ok = true;
  bool iDone = false, jDone = false;
  std::vector<bool> local;
  for (int i = 0; i < n && ok; i++)
  {
    str s = std::to_string(i);
    unsigned k = pick(("command" + s).c_str(), 3, 8);
    switch (k)
    {
      case 0:
        t += "(reference \"" + fileName("r.smt2") + "\")\n";
        if (has) { ok = false; why = "Cannot use more than one reference"; }
        else if (local.size()) { ok = false; why = "level zero"; }
        else if (jDone) ok = false;
        has = true;
        break;
      case 1:
        t += "(include \"" + fileName("i.eo") + "\")\n";
        if (local.size()) { ok = false; why = "level zero"; }
        else if (has && !iDone && a != "1") { ok = false; why = NOTREF; }
        iDone = true;
        break;
      case 2:
        t += "(include \"" + fileName("j.eo") + "\")\n";
        if (local.size()) { ok = false; why = "level zero"; }
        else if (!jDone)
        {
          if (has) { ok = false; why = "Cannot use more than one reference"; }
          has = true;
        }
        jDone = true;
        break;
      case 3:
      {
        str d = digit("assumed" + s);
        t += "(assume @a" + s + " (P " + d + "))\n";
        if (has && !(d == a)) { ok = false; why = NOTREF; }
        break;
      }
      case 4: t += "(assume-push @a" + s + " (P 2))\n"; local.push_back(true); break;
      case 5:
        t += "(step-pop @a" + s + " :rule drop)\n";
        if (local.empty()) { ok = false; break; }
        while (!local.back()) local.pop_back();
        local.pop_back();
        break;
      case 6: t += "(push)\n"; if (local.size()) local.push_back(false); break;
      default:
        t += "(include \"" + fileName("r.smt2") + "\")\n";
        // a second time it is skipped, otherwise not a signature
        if (local.size()) { ok = false; why = "level zero"; }
        else if (!has) ok = false;
    }
  }
  if (ok)
    for (bool b : local)
      if (b) { ok = false; why = nullptr; }
  args.push_back(putFile("p.smt3", t));
  sx_note("proof", t.c_str());
  verdict(runMain(args), ok, why);
  sx_reach(has ? ok ? "from the reference" : why == NOTREF ? "not from the reference" : "wrong for another reason" : "no reference");
}

// -------------------------------------------- which formulas are the same
// a random formula: its text, and what it denotes without/with normalisation
struct Form { str text, val, nf, sub; };
static Form formula(const str& n, int depth)
{
  unsigned k = pick((n + " shape").c_str(), 3, depth ? 5 : 3);
  str d = digit(n + " digit");
  switch (k)
  {
    case 0: return {"(P " + d + ")", "P" + d, "$P" + d, ""};
    case 1: return {"(Q " + d + ")", "Q" + d, "P" + d, ""};
    case 2:
    {
      str e = digit(n + " digit2");
      return {"(R " + d + " " + e + ")", "R" + d + e, "P" + d, ""};
    }
    case 3:
    {
      Form f = formula(n + "'", depth - 1);
      return {"(N " + f.text + ")", "N" + f.val, f.val[0] == 'N' ? f.sub : "$N" + f.val, f.nf};
    }
    default:
    {
      Form f = formula(n + "'", depth - 1);
      return {"(N (N " + f.text + "))", "NN" + f.val, f.nf, f.val[0] == 'N' ? f.sub : "$N" + f.val};
    }
  }
}
static void cNormal()
{
  int depth = sx_tier() ? 2 : 1;
  Form f = formula("asserted", depth), g = formula("assumed", depth);
  bool nf = pick("normalisation", 1, 2);
  putFile("r.smt2", "(assert " + f.text + ")\n");
  str t = "(reference \"" + fileName("r.smt2") + "\"" + (nf ? " $nf" : "") + ")\n(assume @a " + g.text + ")\n";
  Out o = runMain({inc(), putFile("p.smt3", t)});
  sx_note("formulas", (f.text + " " + g.text).c_str());
  bool ok = nf ? f.nf == g.nf : f.val == g.val;
  verdict(o, ok, NOTREF);
  sx_reach(nf ? ok ? f.val == g.val ? "same" : "same normal form" : "different normal form" : ok ? "same formula" : "different formula");
}

// ------------------------------- ways to write a formula in the reference
static void cSyntax()
{
  str a = digit("asserted"), d = digit("assumed"), r, p = "(P " + d + ")";
  bool same = a == d, other = false;
  unsigned k = pick("how", 4, 12);
  switch (k)
  {
    // a defined function is a constant, its definition one more assertion
    case 0:
      r = "(define-fun f ((x Int)) Bool (P x)) (define-fun g () Int " + a + ") (assert (f " + a + "))";
      switch (pick("defined", 3, 5))
      {
        case 0: same = false; break;
        case 1: p = "(f " + d + ")"; break;
        case 2: p = "(= f (lambda ((x Int)) (P x)))"; same = true; break;
        case 3: p = "(= g " + d + ")"; break;
        default: p = "(= " + d + " g)"; same = false;
      }
      break;
    case 1: r = "(define-const e Int " + a + ") (assert (P e))"; break;
    case 2: r = "(assert (let ((x " + a + ")) (P x)))"; break;
    case 3: r = "(set-logic ALL) (set-info :status unsat) (assert (P 0)) (assert true) (assert (P " + a + ")) (check-sat) (exit)"; other = d == "0"; break;
    // declared in the reference file only: visible to the proof
    case 4: r = "(declare-fun k (Int) Bool) (declare-const l Int) (assert (k " + a + "))"; p = "(k " + d + ")"; break;
    case 5: r = "(declare-sort S 0) (declare-fun k (Int) S) (declare-fun h (S) Bool) (assert (h (k " + a + ")))"; p = "(h (k " + d + "))"; break;
    // an overload of P is another function
    case 6: r = "(declare-fun P (Int) Bool) (assert (P " + a + "))"; break;
    // a comment does not assert
    case 7: r = "; (assert (P 0))\n(assert (P " + a + ")) ; (assert (P 0))"; break;
    // arguments are not commutative
    case 8: r = "(assert (R " + a + " 0))"; p = "(R 0 " + d + ")"; same = a == "0" && d == "0"; break;
    // an assertion is not its negation, nor part of an assertion
    case 9: r = "(assert (N (P " + a + ")))"; same = false; break;
    // definitions in the proof
    case 10: r = "(assert (P " + a + "))"; p = "(P " + d + ")) (define q ((x Int)) (P x)) (assume @b (q " + d + ")"; break;
    // in scopes
    default: r = "(assert (P " + a + "))"; p = "(P " + a + ")) (assume-push @b (P 0)) (push) (assume @c (P " + d + ")) (pop) (step-pop @d :rule drop"; break;
  }
  putFile("r.smt2", r + "\n");
  str t = "(reference \"" + fileName("r.smt2") + "\")\n(assume @a " + p + ")\n";
  sx_note("reference", r.c_str());
  sx_note("proof", t.c_str());
  verdict(runMain({inc(), putFile("p.smt3", t)}), same | other, NOTREF);
  sx_reach(same ? "written the same" : "written differently");
}

// ----------------------------------------------- literals and the options
// a token, what it denotes in a reference or proof, and in a signature
struct Tok { str text, val; };
static Tok token(const str& n, bool num, bool dec, bool hex)
{
  // digits without a zero in front
  str d = digit(n);
  bool z = d == "0";
  switch (pick((n + " token").c_str(), 3, 6))
  {
    case 0: return {d, (num ? "q" : "z") + d};
    case 1: return {d + ".0", (dec ? "q" : "d") + d};
    case 2: return {d + "/1", "q" + d};
    case 3: return {"0" + d + ".00", (dec ? "q" : "d") + d};
    case 4: return {"#x" + d, hex ? "b" + d : "h" + d};
    default:
    {
      int v = z ? 0 : (int)sx_conc((unsigned char)d[0]) - '0';
      str b;
      for (int i = 3; i >= 0; i--) b += v >> i & 1 ? '1' : '0';
      return {"#b" + b, "b" + d};
    }
  }
}
static void cTokens()
{
  unsigned o = pick("options", 2, 4);
  Tok a = token("asserted", o == 1, o != 2, o != 3), d = token("assumed", o == 1, o != 2, o != 3);
  static const char* opt[] = {"", "--normalize-num", "--no-normalize-dec", "--no-normalize-hex"};
  std::vector<str> args = {inc(), "--reference=" + putFile("r.smt2", "(assert (E " + a.text + "))\n")};
  if (o) args.push_back(opt[o]);
  args.push_back(putFile("p.smt3", "(assume @a (E " + d.text + "))\n"));
  bool same = a.val == d.val;
  sx_note("tokens", (a.text + " " + d.text + " " + opt[o]).c_str());
  verdict(runMain(args), same, NOTREF);
  sx_reach(same ? a.text == d.text ? "same token" : "same value" : "other value");
}
// ------------------------------------------------------------------ others
static void cMisc()
{
  str r = "(assert (P 1))\n";
  putFile("r.smt2", r);
  putFile("e.eo", "(declare-const k Int)\n");
  str R = "(reference \"" + fileName("r.smt2") + "\")\n";
  str d = digit("assumed");
  bool ok = d == "1";
  unsigned k = pick("what", 4, 9);
  std::vector<str> args = {inc()};
  str t, A = "(assume @a (P " + d + "))\n";
  const char* why = NOTREF;
  bool in = false, eo = false;
  switch (k)
  {
    // a file that was included cannot serve as the reference
    case 0: t = "(include \"" + fileName("e.eo") + "\")(reference \"" + fileName("e.eo") + "\")" + A; ok = false; why = nullptr; break;
    case 1: args.push_back("--include=" + scratch(fileName("e.eo"))); args.push_back("--reference=" + scratch(fileName("e.eo"))); t = A; ok = false; why = nullptr; break;
    // order of the options
    case 2: args.insert(args.begin(), "--reference=" + putFile("r2.smt2", "(declare-const P Bool)(assert P)\n")); t = A; ok = false; break;
    case 3: args.push_back("--reference=" + scratch(fileName("r.smt2"))); args.push_back("--include=" + putFile("a.eo", A)); t = ""; break;
    // two references
    case 4: args.push_back("--reference=" + scratch(fileName("r.smt2"))); args.push_back("--reference=" + putFile("r2.smt2", "(assert (P 2))\n")); t = A; ok = false; why = nullptr; break;
    // standard input, signatures
    case 5: args.push_back("--reference=" + scratch(fileName("r.smt2"))); t = A; in = true; break;
    case 6: t = R + A; eo = true; break;
    // commands between
    case 7: t = R + "(include \"" + fileName("e.eo") + "\")(declare-const k Bool)(push)(set-option :print-dag false)(pop)" + A; break;
    // a missing reference
    default: t = "(reference \"" + fileName("none.smt2") + "\")" + A; ok = false; why = nullptr; break;
  }
  sx_note("proof", t.c_str());
  if (in)
    verdict(runMain(args, &t), ok, why);
  else
  {
    args.push_back(putFile(eo ? "p.eo" : "p.smt3", t));
    verdict(runMain(args), ok, why);
  }
  sx_reach(ok ? "misc accepted" : "misc rejected");
}
void (*sx_setup)() = nullptr;
CASES({"order", cOrder}, {"normal", cNormal}, {"syntax", cSyntax}, {"tokens", cTokens}, {"misc", cMisc});
