// C13: a step is accepted iff its rule proves exactly the stated conclusion
#include "common.h"

static World* W;
// terms of the oracle
struct T
{
  str op;
  std::vector<T> k;
};
static bool operator==(const T& a, const T& b)
{
  if (a.op.size() != b.op.size() || a.k.size() != b.k.size() || a.op != b.op) return false;
  for (size_t i = 0; i < a.k.size(); i++)
    if (!(a.k[i] == b.k[i])) return false;
  return true;
}
static str text(const T& t)
{
  if (t.k.empty()) return t.op;
  str r = "(" + t.op;
  for (const T& c : t.k) r += " " + text(c);
  return r + ")";
}
static T parse(const str& s, size_t& i)
{
  T t;
  while (s[i] == ' ') i++;
  bool app = s[i] == '(';
  i += app;
  while (i < s.size() && s[i] != ' ' && s[i] != ')') t.op += s[i++];
  if (!app) return t;
  while (true)
  {
    while (s[i] == ' ') i++;
    if (s[i] == ')') break;
    t.k.push_back(parse(s, i));
  }
  i++;
  return t;
}
static T parse(const str& s)
{
  size_t i = 0;
  return parse(s, i);
}
typedef std::vector<std::pair<str, T>> Env;
static bool isParam(const str& s) { return s == "x" || s == "y" || s == "F" || s == "G"; }
static const T* find(const Env& e, const str& n)
{
  for (auto& p : e)
    if (p.first == n) return &p.second;
  return nullptr;
}
static bool match(const T& p, const T& t, Env& e)
{
  if (isParam(p.op))
  {
    if (const T* o = find(e, p.op)) return *o == t;
    e.push_back({p.op, t});
    return true;
  }
  if (p.op.size() != t.op.size() || p.k.size() != t.k.size() || p.op != t.op) return false;
  for (size_t i = 0; i < p.k.size(); i++)
    if (!match(p.k[i], t.k[i], e)) return false;
  return true;
}
static T subst(const T& p, const Env& e)
{
  if (isParam(p.op)) return *find(e, p.op);
  T r{p.op, {}};
  for (const T& c : p.k) r.k.push_back(subst(c, e));
  return r;
}
static char sort(const T& t)
{
  if (t.k.empty() && t.op.size() == 1 && t.op[0] >= '0' && t.op[0] <= '9') return 'i';
  if (t.op == "true" || t.op == "false") return 'b';
  if (t.op[0] == '@' || t.op == "pf") return 'p';
  str in;
  for (const T& c : t.k) in += sort(c);
  if (t.op == "f") return in == "i" ? 'i' : 0;
  if (t.op == "P") return in == "i" ? 'b' : 0;
  if (t.op == "Q") return in == "ii" ? 'b' : 0;
  if (t.op == "not") return in == "b" ? 'b' : 0;
  if (t.op == "=>") return in == "bb" ? 'b' : 0;
  if (t.op == "and") return in.find_first_not_of('b') == str::npos ? 'b' : 0;
  return 0;
}
// -------------------------------------------------------------------- rules
struct Rule
{
  const char* assumption;
  std::vector<const char*> premises;
  const char* list;  // pattern of a premise list
  std::vector<const char*> args;
  const char* require;  // two numerals, separated by a space
  bool explicitly;
  const char* conclusion;
};
static Rule rules[] = {
    {0, {}, 0, {}, 0, 0, "true"},                       // 0
    {0, {}, 0, {"x"}, 0, 0, "(P x)"},                   // 1
    {0, {}, 0, {"x", "y"}, 0, 0, "(Q y x)"},            // 2
    {0, {}, 0, {"x", "x"}, 0, 0, "(P x)"},              // 3
    {0, {"(P x)"}, 0, {}, 0, 0, "(Q x x)"},             // 4
    {0, {"(P x)", "(Q x y)"}, 0, {}, 0, 0, "(P y)"},    // 5
    {0, {"F"}, 0, {"G"}, 0, 0, "(=> G F)"},             // 6
    {0, {}, 0, {"x", "y"}, "(eo::add x y) 3", 0, "(Q x y)"},  // 7
    {0, {}, 0, {}, 0, 1, "(Q x x)"},                    // 8
    {0, {"F"}, 0, {}, 0, 1, "F"},                       // 9
    {0, {}, 0, {"x"}, "(eo::add x y) 3", 1, "(Q x y)"}, // 10
    {0, {}, "F", {}, 0, 0, "F"},                        // 11
    {0, {}, "(and (P x) F)", {}, 0, 0, "(=> F (P x))"}, // 12
    {"F", {"G"}, 0, {}, 0, 0, "(=> F G)"},              // 13
    {"F", {"false"}, 0, {"G"}, 0, 0, "(=> (not F) G)"}, // 14
    {"(P x)", {"F"}, 0, {"x"}, 0, 0, "(=> F (P x))"},   // 15
    {"F", {}, "G", {}, 0, 1, "(=> F G)"},               // 16
    {0, {}, 0, {"(f x)"}, 0, 0, "(P x)"},               // 17
    {0, {}, 0, {"F"}, 0, 0, "F"},                       // 18
    {"F", {}, 0, {"G"}, 0, 0, "(=> F G)"},              // 19
};
static const int NRULES = sizeof(rules) / sizeof(rules[0]);
static str declare(int i)
{
  const Rule& r = rules[i];
  str s = "(declare-rule r" + std::to_string(i) + " ((x Int) (y Int) (F Bool) (G Bool))";
  auto list = [&](const char* k, const std::vector<const char*>& l) {
    if (l.empty()) return;
    s += str(" ") + k + " (";
    for (const char* c : l) s += str(" ") + c;
    s += ")";
  };
  if (r.assumption) s += str(" :assumption ") + r.assumption;
  list(":premises", r.premises);
  if (r.list) s += str(" :premise-list ") + r.list + " and";
  list(":args", r.args);
  if (r.require) s += str(" :requires ((") + r.require + "))";
  return s + (r.explicitly ? " :conclusion-explicit " : " :conclusion ") + r.conclusion + ")\n";
}
// ------------------------------------------------------------------- inputs
static int nDigits;
static T digit(bool any = false)
{
  str n = "digit" + std::to_string(nDigits++);
  str d = symDigits(n.c_str(), 1);
  if (!any) sx_assume((d[0] == '1') | (d[0] == '2'));
  return T{d, {}};
}
static str pre;  // the assumptions
static int nProofs;
static T proof(const T& f)
{
  str n = "@p" + std::to_string(nProofs++);
  pre += "(assume " + n + " " + text(f) + ")\n";
  return T{n, {f}};
}
// a term of the form of a pattern, with fresh symbolic digits
static T like(const T& p, bool any = false)
{
  if (p.op == "x" || p.op == "y") return digit(any);
  if (p.op == "F" || p.op == "G") return T{"P", {digit()}};
  T r{p.op, {}};
  for (const T& c : p.k) r.k.push_back(like(c, any));
  return r;
}
// proofs are named terms
static str arg(const T& t) { return t.op[0] == '@' ? t.op : text(t); }
static str args(const char* k, const std::vector<T>& l)
{
  if (l.empty()) return "";
  str s = str(" ") + k + " (";
  for (const T& t : l) s += " " + arg(t);
  return s + ")";
}
static T asProof(const T& t) { return t.op[0] == '@' ? T{"pf", {t.k[0]}} : t; }

// the formula proven, if any
static bool oracle(const Rule& r, bool pop, const T* assumption, const T* stated, const std::vector<T>& prem,
                   const std::vector<T>& as, T* res)
{
  Env e;
  if (pop != (r.assumption != nullptr)) return false;
  // terms for arguments may be given as premises, unless the rule has an assumption or an explicit conclusion
  std::vector<T> items, pats;
  for (const T& a : as) items.push_back(asProof(a));
  if ((r.assumption || r.explicitly) && as.size() != r.args.size()) return false;
  if (r.list)
  {
    T c{"and", {}};
    for (const T& p : prem)
    {
      if (p.op[0] != '@') return false;
      c.k.push_back(p.k[0]);
    }
    if (prem.empty()) c.op = "true";
    items.push_back(T{"pf", {c}});
  }
  else
    for (const T& p : prem) items.push_back(asProof(p));
  for (const char* p : r.args) pats.push_back(parse(p));
  for (const char* p : r.premises) pats.push_back(T{"pf", {parse(p)}});
  if (r.list) pats.push_back(T{"pf", {parse(r.list)}});
  if (items.size() != pats.size()) return false;
  if (r.explicitly && (!stated || !match(parse(r.conclusion), *stated, e))) return false;
  if (r.assumption && !match(parse(r.assumption), *assumption, e)) return false;
  for (size_t i = 0; i < items.size(); i++)
    if (!match(pats[i], items[i], e)) return false;
  if (r.require)
  {
    const T &x = *find(e, "x"), &y = *find(e, "y");
    if (x.op.size() != 1 || y.op.size() != 1 || !x.k.empty() || !y.k.empty()) return false;
    if ((x.op[0] - '0') + (y.op[0] - '0') != 3) return false;
  }
  *res = subst(parse(r.conclusion), e);
  if (sort(*res) != 'b') return false;
  return !stated || *res == *stated;
}
// one item that does not have the form of its pattern
static T other(unsigned k)
{
  switch (k)
  {
    case 0: return digit();
    case 1: return T{"P", {digit()}};
    case 2: return proof(T{"P", {digit()}});
    default: return T{"f", {digit()}};
  }
}
static void run(int first, int last)
{
  nDigits = nProofs = 0;
  pre = "";
  int ri = first + pick("rule", 4, last - first);
  const Rule& r = rules[ri];
  // how many premises and arguments, compared to the rule: as many, an argument or a premise less or more,
  // or a premise in the place of an argument, or the reverse
  static const int dn[] = {0, -1, 1, 0, 0, -1, 1}, dp[] = {0, 0, 0, -1, 1, 1, -1};
  unsigned shape = pick("shape", 3, 7);
  int sa = r.args.size() + dn[shape], sp = r.premises.size() + dp[shape];
  if (r.list && !shape) sp = pick("premises", 2, 4);
  sx_assume((sa >= 0) & (sp >= 0));
  unsigned na = sa, np = sp;
  std::vector<T> prem, as;
  // which item is not of the expected form (0: none)
  unsigned odd = shape && shape < 5 ? 0 : pick("odd item", 3, np + na + 1), what = odd ? pick("odd form", 2, 4) : 0;
  for (unsigned i = 0; i < na; i++)
    as.push_back(odd == i + 1 ? other(what)
                 : i < r.args.size() ? like(parse(r.args[i]), r.require != 0)
                                     : other(i & 1));
  for (unsigned i = 0; i < np; i++)
    prem.push_back(odd == na + i + 1 ? other(what)
                   : i < r.premises.size() ? proof(like(parse(r.premises[i])))
                                           : proof(i & 1 ? T{"Q", {digit(), digit()}} : T{"P", {digit()}}));
  unsigned st = pick("stated", 2, odd || shape ? 2 : 3);
  T stated, assumption, res;
  if (st) stated = st == 1 ? like(parse(r.conclusion)) : T{"true", {}};
  if (st == 1 && r.list && r.explicitly && np)
  {
    // the list of the premises
    T l{"and", {}};
    for (T& p : prem) l.k.push_back(p.op[0] == '@' ? p.k[0] : p);
    stated.k[1] = l;
  }
  bool pop = r.assumption != nullptr;
  if (pick("other command", 1, 2))
  {
    // step for step-pop, or the reverse
    sx_assume(!odd && !shape && st < 2);
    pop = !pop;
  }
  str s = pre;
  if (pop)
  {
    assumption = r.assumption ? like(parse(r.assumption)) : T{"P", {digit()}};
    s += "(assume-push @a " + text(assumption) + ")\n";
  }
  s += str(pop ? "(step-pop" : "(step") + " s" + (st ? " " + text(stated) : "") + " :rule r" + std::to_string(ri)
       + args(":premises", prem) + args(":args", as) + ")\n";
  sx_note("commands", s.c_str());
  bool ok = oracle(r, pop, &assumption, st ? &stated : nullptr, prem, as, &res);
  Out o = guarded([&]() { W->cmds(s, false); });
  sx_check(!o.crashed(), "a step neither accepted nor rejected with a diagnosis");
  sx_check((o.kind == SX_RETURN) == ok, ok ? "a correct step is rejected" : "a wrong step is accepted");
  if (ok)
  {
    sx_check(W->st->getVar("s") == W->st->mkProof(W->term(text(res))), "the name of a step denotes a proof of another formula");
    sx_reach(("accepted " + std::to_string(ri)).c_str());
  }
  else
    sx_reach(("rejected " + std::to_string(ri)).c_str());
}
static void cPlain() { run(0, 8); }
static void cSpecial() { run(8, 13); }
static void cPop() { run(13, NRULES); }
// only the clauses of the grammar, each at most once and in order
static void cClauses()
{
  nDigits = nProofs = 0;
  pre = "";
  T p = proof(like(parse("(P x)")));
  static const char* c[] = {"", " :premises (@p0)", " :args (1)", " :premises", " :args", " :rule r1", " :premise (1)", " :p"};
  unsigned two = pick("rule", 1, 2), k[3], n = 0;
  str s = pre + "(step s :rule r" + (two ? "4" : "1");
  for (int i = 0; i < 3; i++)
  {
    k[i] = pick(("clause" + std::to_string(i)).c_str(), 3, 8);
    if (k[i] == 7) s += " :" + symBytes("keyword", 1);
    else s += c[k[i]];
    if (k[i]) k[n++] = k[i];
  }
  bool ok = n == 1;
  Out o = guarded([&]() { W->cmds(s + ")", false); });
  sx_check(!o.crashed(), "a step neither accepted nor rejected with a diagnosis");
  // a premise may take the place of an argument only if it fits
  if (ok) ok = two ? k[0] == 1 : k[0] == 2;
  sx_check((o.kind == SX_RETURN) == ok, ok ? "a correct step is rejected" : "a malformed step is accepted");
  sx_reach(ok ? "well-formed" : "malformed");
}
static void setup()
{
  W = new World;
  str s = "(declare-const Int Type) (declare-consts <numeral> Int) (declare-const f (-> Int Int)) (declare-const P (-> Int Bool))"
          "(declare-const Q (-> Int Int Bool)) (declare-const not (-> Bool Bool)) (declare-const => (-> Bool Bool Bool))"
          "(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)\n";
  W->cmds(s);
  for (int i = 0; i < NRULES; i++)
  {
    // only the parameters that occur
    str d = declare(i), body = d.substr(d.find("(G Bool))") + 9), vars;
    for (const char* v : {"x Int", "y Int", "F Bool", "G Bool"})
      for (size_t j = 1; j + 1 < body.size(); j++)
        if (body[j] == v[0] && strchr(" ()", body[j - 1]) && strchr(" ()", body[j + 1]))
        {
          vars += str(" (") + v + ")";
          break;
        }
    W->cmds("(declare-rule r" + std::to_string(i) + " (" + vars + ")" + body);
  }
}
void (*sx_setup)() = setup;
CASES({"plain", cPlain}, {"special", cSpecial}, {"pop", cPop}, {"clauses", cClauses});
