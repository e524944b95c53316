// Shared by all harnesses: worlds, running the checker, reading results.
#ifndef COMMON_H
#define COMMON_H
#include "sx.h"
#include <fcntl.h>
#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "base/check.h"
#include "base/output.h"
#include "literal.h"
#include "parser.h"
#include "state.h"

using namespace ethos;
typedef std::string str;
typedef std::vector<Expr> Exprs;
int ethos_main(int argc, char** argv);

// ------------------------------------------------------------------- worlds
struct World
{
  Options opts;
  Stats stats;
  State* st;
  World(const std::function<void(Options&)>& f = nullptr)
  {
    if (f) f(opts);
    st = new State(opts, stats);
  }
  void cmds(const str& t, bool sig = true)
  {
    Parser* p = new Parser(*st, sig);
    p->setStringInput(t);
    while (p->parseNextCommand()) {}
  }
  // a term, or null at the end of the input
  Expr term(const str& t, bool sig = true)
  {
    Parser* p = new Parser(*st, sig);
    p->setStringInput(t);
    return p->parseNextExpr();
  }
};

// ------------------------------------------------------------ guarded runs
struct Out
{
  int kind = 0, code = 0;
  str out, err;
  // the run ended in a diagnosed error
  bool diagnosed() const
  {
    return (kind == SX_ABORT || (kind == SX_EXIT && code != 0)) && !internal();
  }
  // ... or in an internal failure
  bool internal() const
  {
    return err.find("Check failure") != str::npos || err.find("Unreachable") != str::npos || err.empty();
  }
  bool crashed() const
  {
    return kind == SX_SEGV || kind == SX_TERMINATE
           || ((kind == SX_ABORT || (kind == SX_EXIT && code != 0)) && internal());
  }
  bool accepted() const { return kind == SX_EXIT && code == 0; }
};
struct Guarded { const std::function<void()>* f; };
static void callGuarded(void* a) { (*((Guarded*)a)->f)(); }
inline Out guarded(const std::function<void()>& f)
{
  Out r;
  std::ostringstream *o = new std::ostringstream, *e = new std::ostringstream;
  std::streambuf* so = std::cout.rdbuf(o->rdbuf());
  std::streambuf* se = std::cerr.rdbuf(e->rdbuf());
  Guarded g{&f};
  r.kind = sx_guard(callGuarded, &g, &r.code);
  std::cout.rdbuf(so);
  std::cerr.rdbuf(se);
  r.out = o->str();
  r.err = e->str();
  return r;
}
// the whole program; in != null: standard input
inline Out runMain(std::vector<str> args, const str* in = nullptr)
{
  args.insert(args.begin(), "ethos");
  std::vector<char*> av;
  for (str& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  std::istringstream* is = new std::istringstream(in ? *in : str());
  std::streambuf* si = std::cin.rdbuf(is->rdbuf());
  std::cin.clear();
  static bool nulled = false;
  if (!nulled)
  {
    nulled = true;
    int fd = open("/dev/null", O_RDONLY);
    dup2(fd, 0);
    close(fd);
  }
  Out r = guarded([&]() { ethos_main((int)args.size(), av.data()); });
  std::cin.rdbuf(si);
  return r;
}
// scratch files
inline str scratch(const str& n)
{
  const char* d = getenv("SX_SCRATCH");
  return str(d ? d : ".") + "/" + n;
}
inline str putFile(const str& n, const str& content)
{
  // one copy per process: paths run in parallel
  str p = scratch(std::to_string(getpid()) + "-" + n);
  sx_file(p.c_str(), content.data(), content.size());
  return p;
}

// ---------------------------------------------------------------- symbolic
inline unsigned pick(const char* n, unsigned bits, unsigned count)
{
  unsigned v = sx_sym(n, bits);
  sx_assume(v < count);
  return sx_conc(v);
}
inline str symBytes(const char* n, size_t len)
{
  str s(len, 0);
  if (len) sx_sym_mem(n, &s[0], len);
  return s;
}
// len symbolic decimal digits
inline str symDigits(const char* n, size_t len, int base = 10)
{
  str s = symBytes(n, len);
  int ok = 1;
  for (size_t i = 0; i < len; i++)
  {
    unsigned char c = s[i];
    ok &= (c >= '0') & (c < '0' + (base < 10 ? base : 10));
  }
  sx_assume(ok);
  return s;
}

// ---------------------------------------------------------- exact integers
struct Z
{
  SxBig b;
  Z(SxBig b) : b(b) {}
  Z(long v = 0) : b(sxb_c(v)) {}
  Z(int v) : b(sxb_c(v)) {}
};
inline Z operator+(Z a, Z b) { return sxb_add(a.b, b.b); }
inline Z operator-(Z a, Z b) { return sxb_sub(a.b, b.b); }
inline Z operator*(Z a, Z b) { return sxb_mul(a.b, b.b); }
inline Z operator-(Z a) { return sxb_neg(a.b); }
// truth values (0/1 integers)
inline Z zeq(Z a, Z b) { return sxb_eq(a.b, b.b); }
inline Z zlt(Z a, Z b) { return sxb_lt(a.b, b.b); }
inline Z zle(Z a, Z b) { return sxb_le(a.b, b.b); }
inline Z znot(Z a) { return sxb_not(a.b); }
inline Z zand(Z a, Z b) { return sxb_mul(a.b, b.b); }
inline Z zor(Z a, Z b) { return sxb_not(sxb_mul(sxb_not(a.b), sxb_not(b.b))); }
inline Z zite(Z c, Z a, Z b) { return sxb_ite(c.b, a.b, b.b); }
inline Z zfdiv(Z a, Z b) { return sxb_fdiv(a.b, b.b); }
inline Z zfmod(Z a, Z b) { return sxb_fmod(a.b, b.b); }
inline Z zabs(Z a) { return zite(zlt(a, 0), -a, a); }
inline void check(Z c, const char* m) { sx_check(sxb_bool(c.b), m); }
inline void assume(Z c) { sx_assume(sxb_bool(c.b)); }
// fork on a truth value
inline bool decide(Z c) { return sxb_bool(c.b) != 0; }
inline Z pow2(unsigned n)
{
  Z r = 1;
  for (unsigned i = 0; i < n; i++) r = r * 2;
  return r;
}
// an unsigned value of any width
inline Z symZ(const str& n, unsigned bits)
{
  Z r = 0;
  for (unsigned i = 0; i < bits; i += 32)
  {
    unsigned b = bits - i < 32 ? bits - i : 32;
    r = r + Z(sxb_uvar((n + (i ? "." + std::to_string(i) : "")).c_str(), b)) * pow2(i);
  }
  return r;
}
// the value of digits (already constrained) as an exact integer
inline Z digitsZ(const str& s, unsigned base = 10)
{
  Z r = 0;
  for (unsigned char c : s)
  {
    unsigned d = base <= 10 ? c & 15 : (c & 15) + (c >> 6) * 9;
    r = r * (long)base + Z(sxb_of_u64(d));
  }
  return r;
}

// ----------------------------------------------------------------- results
inline const Literal* lit(const Expr& e)
{
  return e.isNull() ? nullptr : e.getValue()->asLiteral();
}
inline bool isKind(const Expr& e, Kind k) { return !e.isNull() && e.getKind() == k; }
inline Z intOf(const Expr& e) { return sxb_of_mpz(lit(e)->d_int.getValue().get_mpz_t()); }
inline Z numOf(const Expr& e) { return sxb_of_mpz(mpq_numref(lit(e)->d_rat.d_value.get_mpq_t())); }
inline Z denOf(const Expr& e) { return sxb_of_mpz(mpq_denref(lit(e)->d_rat.d_value.get_mpq_t())); }
inline unsigned widthOf(const Expr& e) { return lit(e)->d_bv.getSize(); }
inline Z bvOf(const Expr& e) { return sxb_of_mpz(lit(e)->d_bv.getValue().getValue().get_mpz_t()); }

#define CASES(...)                      \
  SxCase sx_cases[] = {__VA_ARGS__};    \
  int sx_ncases = sizeof(sx_cases) / sizeof(sx_cases[0])
#endif
