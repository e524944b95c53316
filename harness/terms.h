// Terms of the oracles: text <-> T -> Expr
#ifndef TERMS_H
#define TERMS_H
#include "common.h"

static World* W;
// terms of the oracle; applications are curried: k are the arguments so far
struct T
{
  str op;
  std::vector<T> k;
};
static bool operator==(const T& a, const T& b)
{
  if (a.op.size() != b.op.size() || a.k.size() != b.k.size() || a.op != b.op) return false;
  for (size_t i = 0; i < a.k.size(); i++)
    if (!(a.k[i] == b.k[i])) return false;
  return true;
}
static str text(const T& t)
{
  if (t.k.empty()) return t.op;
  str r = t.op == "or" ? "(_ or" : "(" + t.op;
  for (const T& c : t.k) r += " " + text(c);
  return r + ")";
}
static T parse(const str& s, size_t& i)
{
  T t;
  while (s[i] == ' ') i++;
  bool app = s[i] == '(';
  i += app;
  while (i < s.size() && s[i] != ' ' && s[i] != ')') t.op += s[i++];
  if (!app) return t;
  while (true)
  {
    while (s[i] == ' ') i++;
    if (s[i] == ')') break;
    t.k.push_back(parse(s, i));
  }
  i++;
  if (t.op == "_")
  {
    T h = t.k[0];
    h.k.insert(h.k.end(), t.k.begin() + 1, t.k.end());
    return h;
  }
  return t;
}
static T parse(const str& s)
{
  size_t i = 0;
  return parse(s, i);
}
// the expression that a term denotes, built without evaluation or desugaring
static Kind opKind(const str& op)
{
  static const std::map<str, Kind>* m = nullptr;
  if (!m)
    m = new std::map<str, Kind>{
        {"eo::is_ok", Kind::EVAL_IS_OK}, {"eo::is_eq", Kind::EVAL_IS_EQ}, {"eo::eq", Kind::EVAL_EQ},
        {"eo::ite", Kind::EVAL_IF_THEN_ELSE}, {"eo::requires", Kind::EVAL_REQUIRES}, {"eo::hash", Kind::EVAL_HASH},
        {"eo::nameof", Kind::EVAL_NAME_OF}, {"eo::typeof", Kind::EVAL_TYPE_OF}, {"eo::var", Kind::EVAL_VAR},
        {"eo::cmp", Kind::EVAL_COMPARE}, {"eo::is_z", Kind::EVAL_IS_Z}, {"eo::is_q", Kind::EVAL_IS_Q},
        {"eo::is_bin", Kind::EVAL_IS_BIN}, {"eo::is_str", Kind::EVAL_IS_STR}, {"eo::is_bool", Kind::EVAL_IS_BOOL},
        {"eo::is_var", Kind::EVAL_IS_VAR}, {"eo::add", Kind::EVAL_ADD}, {"eo::neg", Kind::EVAL_NEG},
        {"eo::and", Kind::EVAL_AND}, {"eo::or", Kind::EVAL_OR}, {"eo::xor", Kind::EVAL_XOR}, {"eo::not", Kind::EVAL_NOT},
        {"->", Kind::FUNCTION_TYPE}};
  auto it = m->find(op);
  return it == m->end() ? Kind::APPLY : it->second;
}
static Expr build(const T& t)
{
  if (t.k.empty()) return W->term(t.op);
  Kind k = opKind(t.op);
  std::vector<Expr> c;
  std::vector<ExprValue*> v;
  for (const T& x : t.k) c.push_back(build(x));
  if (k != Kind::APPLY || t.op[0] == '$')
  {
    if (k == Kind::APPLY) c.insert(c.begin(), W->term(t.op));
    for (Expr& e : c) v.push_back(e.getValue());
    return Expr(W->st->mkExprInternal(k, v));
  }
  Expr r = W->term(t.op);
  for (Expr& e : c)
  {
    v = {r.getValue(), e.getValue()};
    r = Expr(W->st->mkExprInternal(Kind::APPLY, v));
  }
  return r;
}
#endif
