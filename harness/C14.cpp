// C14: local assumptions are discharged exactly once, innermost first, and never leak
#include "common.h"

static World* W;
static const char* SIG =
    "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const P (-> Int Bool)) (declare-const => (-> Bool Bool Bool))\n"
    "(declare-rule id ((F Bool)) :premises (F) :conclusion F)\n"
    "(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))\n"
    "(declare-rule drop ((F Bool)) :assumption F :conclusion F)\n";
// the visible names and what they prove, innermost scope last
struct Scope
{
  bool local;       // opened by assume-push
  str assumption;
  std::vector<std::pair<str, str>> names;
};
static std::vector<Scope> scopes;
static const str* find(const str& n)
{
  for (size_t i = scopes.size(); i-- > 0;)
    for (size_t j = scopes[i].names.size(); j-- > 0;)
      if (scopes[i].names[j].first == n) return &scopes[i].names[j].second;
  return nullptr;
}
static void bindName(const str& n, const str& f) { scopes.back().names.push_back({n, f}); }
static int level()
{
  int r = 0;
  for (Scope& s : scopes) r += s.local;
  return r;
}
static const char* names[] = {"@a", "@b"};
// one command: its text, and whether it is to be accepted
static str command(int i, bool& ok, str& name)
{
  str n = std::to_string(i);
  unsigned k = pick(("command" + n).c_str(), 3, 7);
  str f = "(P " + std::to_string(i + 1) + ")";
  ok = true;
  name = "";
  if (k < 5) name = names[pick(("name" + n).c_str(), 1, 2)];
  str prem;
  if (k == 2 || k == 3) prem = names[pick(("premise" + n).c_str(), 1, 2)];
  switch (k)
  {
    case 0: bindName(name, f); return "(assume " + name + " " + f + ")";
    case 1:
      scopes.push_back(Scope{true, f, {{name, f}}});
      return "(assume-push " + name + " " + f + ")";
    case 2:
    {
      const str* p = find(prem);
      ok = p;
      if (ok) bindName(name, str(*p));
      return "(step " + name + " :rule id :premises (" + prem + "))";
    }
    case 3:
    case 4:
    {
      const str* p = k == 3 ? find(prem) : nullptr;
      ok = level() && (k == 4 || p);
      if (ok)
      {
        str q = p ? *p : "";
        while (!scopes.back().local) scopes.pop_back();
        str a = scopes.back().assumption;
        scopes.pop_back();
        bindName(name, k == 3 ? "(=> " + a + " " + q + ")" : a);
      }
      return "(step-pop " + name + (k == 3 ? " :rule scope :premises (" + prem + "))" : " :rule drop)");
    }
    case 5: scopes.push_back(Scope{false, "", {}}); return "(push)";
    default:
      ok = scopes.size() > 1 && !scopes.back().local;
      if (ok) scopes.pop_back();
      return "(pop)";
  }
}
// checks every command, then the end of the input
static void run(int n, const str& pre, int from)
{
  str all = pre;
  for (int i = from; i < n; i++)
  {
    bool ok;
    str name, c = command(i, ok, name);
    all += c + "\n";
    sx_note("commands", all.c_str());
    Out o = guarded([&]() { W->cmds(c, false); });
    sx_check(!o.crashed(), "a command neither accepted nor rejected with a diagnosis");
    sx_check((o.kind == SX_RETURN) == ok, ok ? "a correct command is rejected" : "a wrong command is accepted");
    if (!ok)
    {
      sx_reach("rejected");
      return;
    }
    if (name != "")
      sx_check(W->st->getVar(name) == W->st->mkProof(W->term(*find(name))), "a name denotes the proof of another formula");
    for (const char* m : names)
      if (!find(m)) sx_check(W->st->getVar(m).isNull(), "a name is visible outside its scope");
    sx_check((int)W->st->getAssumptionLevel() == level(), "number of open scopes");
  }
  sx_reach(level() ? "open at the end" : "closed at the end");
  // a file with an open scope is rejected
  unsigned how = !sx_tier() && pre != "" ? 0 : pick("how", 2, 3);
  Out o;
  str t = all, inc = "--include=" + putFile("sig.eo", SIG);
  if (how == 0)
    o = runMain({inc, putFile("p.smt3", t)});
  else if (how == 1)
  {
    str f = putFile("q.eo", t), g = putFile("p.eo", "(include \"" + std::to_string(getpid()) + "-q.eo\")\n");
    o = runMain({inc, g});
  }
  else
    o = runMain({inc}, &t);
  sx_note("output", (o.out + o.err + std::to_string(o.kind)).c_str());
  sx_check(!o.crashed(), "the run neither accepted nor rejected with a diagnosis");
  sx_check(o.accepted() == !level(), level() ? "a file with an open assumption is accepted" : "a closed proof is rejected");
  sx_check(o.out == (level() ? "" : "correct\n"), "verdict");
}
static void cAll()
{
  scopes = {Scope{false, "", {}}};
  run(sx_tier() ? 5 : 3, "", 0);
}
// from a state with two open assumptions
static void cNested()
{
  scopes = {Scope{false, "", {}}};
  str pre;
  static const char* start[] = {"(assume-push @a (P 8)) (push) (assume-push @b (P 9))\n",
                                "(assume-push @a (P 8)) (assume-push @a (P 9)) (push)\n"};
  unsigned k = pick("start", 1, 2);
  pre = start[k];
  W->cmds(pre, false);
  scopes.push_back(Scope{true, "(P 8)", {{"@a", "(P 8)"}}});
  if (!k) scopes.push_back(Scope{false, "", {}});
  scopes.push_back(Scope{true, "(P 9)", {{k ? "@a" : "@b", "(P 9)"}}});
  if (k) scopes.push_back(Scope{false, "", {}});
  run(sx_tier() ? 4 : 3, pre, 0);
}
// other rules must not be used to discharge, nor other ends of a scope
static void cMisc()
{
  unsigned k = pick("what", 3, 7);
  static const char* t[] = {
      "(assume-push @a (P 1)) (declare-rule late () :conclusion true)",
      "(assume-push @a (P 1)) (include \"x.eo\")",
      "(assume-push @a (P 1)) (step-pop @b :rule id :premises (@a))",
      "(assume-push @a (P 1)) (step @b :rule scope :premises (@a))",
      "(assume-push @a (P 1)) (assume @c (P 2)) (step-pop @b (=> (P 2) (P 1)) :rule scope :premises (@a))",
      "(assume-push @a (P 1)) (step-pop @b :rule drop) (step @c :rule id :premises (@a))",
      "(assume-push @a (P 1)) (step-pop @b :rule drop) (step-pop @c :rule drop)"};
  Out o = guarded([&]() { W->cmds(t[k], false); });
  sx_check(o.diagnosed(), "a wrong use of an assumption is not diagnosed");
  sx_reach("misuse");
}
static void setup()
{
  W = new World;
  W->cmds(SIG);
}
void (*sx_setup)() = setup;
CASES({"all", cAll}, {"nested", cNested}, {"misuse", cMisc});
