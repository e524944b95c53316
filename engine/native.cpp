// Concrete replay of a harness against the uninstrumented code under test.
// usage: replay --case NAME --in v,v,...   exit 0 held, 1 assertion failed,
// 2 usage, 4 input outside the assumptions
#include "sx.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <gmp.h>
#include <malloc.h>
#include <string>
#include <sys/resource.h>
#include <unistd.h>
#include <vector>

void (*sx_end_cb)(int kind, int code) = nullptr;
static std::vector<uint64_t> in;
static size_t pos;
static bool ended;
static void out(const char* s) { (void)!write(1, s, strlen(s)); }
[[noreturn]] static void quit(int rc)
{
  ended = true;
  _exit(rc);
}
static jmp_buf* guardJ;
static int guardKind, guardCode;
[[noreturn]] static void theEnd(int kind, int code)
{
  if (ended) _exit(97);
  if (kind == SX_TIMEOUT)
  {
    out("CHECK-FAILED no termination within the time limit\n");
    _exit(1);
  }
  if (guardJ)
  {
    guardKind = kind;
    guardCode = code;
    longjmp(*guardJ, 1);
  }
  ended = true;
  if (sx_end_cb)
  {
    auto cb = sx_end_cb;
    sx_end_cb = nullptr;
    cb(kind, code);
    out("REPLAY-HELD\n");
    _exit(0);
  }
  char b[100];
  snprintf(b, sizeof b, "CHECK-FAILED code under test ended the process: kind %d code %d\n", kind, code);
  out(b);
  _exit(1);
}
extern "C" {
[[noreturn]] void __wrap_abort() { theEnd(SX_ABORT, 0); }
[[noreturn]] void __wrap_exit(int c) { theEnd(SX_EXIT, c); }
int sx_guard(void (*f)(void*), void* a, int* code)
{
  jmp_buf j;
  jmp_buf* save = guardJ;
  volatile int k = SX_RETURN;
  guardJ = &j;
  guardCode = 0;
  if (setjmp(j) == 0)
  {
    try { f(a); }
    catch (...) { k = SX_TERMINATE; }
  }
  else
    k = guardKind;
  guardJ = save;
  *code = guardCode;
  return k;
}
}
// quarantine of freed memory
struct Freed
{
  unsigned char* p;
  size_t n;
};
static Freed freed[1 << 20];
static size_t nfreed;
static bool quarantine;
extern "C" {
void __libc_free(void*);
void free(void* p)
{
  if (!p || !quarantine || nfreed == sizeof freed / sizeof *freed) return __libc_free(p);
  size_t n = malloc_usable_size(p);
  memset(p, 0xdd, n);
  freed[nfreed++] = {(unsigned char*)p, n};
}
void sx_quarantine(int on) { quarantine = on; }
int sx_quarantine_intact()
{
  for (size_t k = 0; k < nfreed; k++)
    for (size_t i = 0; i < freed[k].n; i++)
      if (freed[k].p[i] != 0xdd) return 0;
  return 1;
}
}
static uint64_t nxt() { return pos < in.size() ? in[pos++] : (pos++, 0); }
extern "C" {
uint64_t sx_sym(const char*, unsigned bits)
{
  uint64_t v = nxt();
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sx_sym_mem(const char*, void* p, size_t n)
{
  for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = nxt();
}
void sx_assume(int c)
{
  if (!c) { out("REPLAY-ASSUMPTION\n"); quit(4); }
}
void sx_check(int c, const char* m)
{
  if (c) return;
  out("CHECK-FAILED ");
  out(m);
  out("\n");
  quit(1);
}
void sx_reach(const char*) {}
uint64_t sx_conc(uint64_t v) { return v; }
void sx_done() { out("REPLAY-HELD\n"); quit(0); }
int sx_symbolic() { return 0; }
void sx_note(const char* k, const char* v)
{
  out("NOTE ");
  out(k);
  out(": ");
  out(v);
  out("\n");
}
void sx_file(const char* path, const char* buf, size_t n)
{
  FILE* f = fopen(path, "wb");
  if (!f) { out("cannot write scratch file\n"); quit(3); }
  fwrite(buf, 1, n, f);
  fclose(f);
}
static int tier;
int sx_tier() { return tier; }
}
struct SxBigS { mpz_t v; };
static SxBig nw() { SxBig r = new SxBigS; mpz_init(r->v); return r; }
extern "C" {
SxBig sxb_var(const char*, unsigned bits)
{
  uint64_t v = nxt();
  SxBig r = nw();
  if (bits < 64) v &= (1ull << bits) - 1;
  mpz_set_ui(r->v, v);
  if (mpz_tstbit(r->v, bits - 1))
  {
    mpz_t t;
    mpz_init(t);
    mpz_setbit(t, bits);
    mpz_sub(r->v, r->v, t);
  }
  return r;
}
SxBig sxb_uvar(const char*, unsigned bits)
{
  uint64_t v = nxt();
  SxBig r = nw();
  if (bits < 64) v &= (1ull << bits) - 1;
  mpz_set_ui(r->v, v);
  return r;
}
SxBig sxb_c(long v) { SxBig r = nw(); mpz_set_si(r->v, v); return r; }
SxBig sxb_of_u64(uint64_t v) { SxBig r = nw(); mpz_set_ui(r->v, v); return r; }
SxBig sxb_of_i64(int64_t v) { SxBig r = nw(); mpz_set_si(r->v, v); return r; }
SxBig sxb_of_mpz(const void* p) { SxBig r = nw(); mpz_set(r->v, (mpz_srcptr)p); return r; }
void sxb_to_mpz(void* p, SxBig v) { mpz_set((mpz_ptr)p, v->v); }
#define B2(n, e) SxBig n(SxBig a, SxBig b) { SxBig r = nw(); e; return r; }
B2(sxb_add, mpz_add(r->v, a->v, b->v))
B2(sxb_sub, mpz_sub(r->v, a->v, b->v))
B2(sxb_mul, mpz_mul(r->v, a->v, b->v))
B2(sxb_fdiv, if (mpz_sgn(b->v)) mpz_fdiv_q(r->v, a->v, b->v))
B2(sxb_fmod, if (mpz_sgn(b->v)) mpz_fdiv_r(r->v, a->v, b->v))
B2(sxb_and, mpz_and(r->v, a->v, b->v))
B2(sxb_or, mpz_ior(r->v, a->v, b->v))
B2(sxb_xor, mpz_xor(r->v, a->v, b->v))
B2(sxb_eq, mpz_set_ui(r->v, mpz_cmp(a->v, b->v) == 0))
B2(sxb_lt, mpz_set_ui(r->v, mpz_cmp(a->v, b->v) < 0))
B2(sxb_le, mpz_set_ui(r->v, mpz_cmp(a->v, b->v) <= 0))
SxBig sxb_neg(SxBig a) { SxBig r = nw(); mpz_neg(r->v, a->v); return r; }
SxBig sxb_not(SxBig a) { return sxb_c(mpz_sgn(a->v) == 0); }
SxBig sxb_ite(SxBig c, SxBig a, SxBig b) { return mpz_sgn(c->v) ? a : b; }
int sxb_bool(SxBig a) { return mpz_sgn(a->v) != 0; }
int64_t sxb_i64(SxBig a) { return mpz_get_si(a->v); }
}
static void onSig(int s) { theEnd(s == SIGABRT ? SX_ABORT : s == SIGALRM ? SX_TIMEOUT : SX_SEGV, 0); }
static void onTerm() { theEnd(SX_TERMINATE, 0); }
static void onExit(int code, void*)
{
  if (!ended) theEnd(SX_EXIT, code);
}
int main(int argc, char** argv)
{
  std::string cs;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    if (a == "--case") cs = argv[++i];
    else if (a == "--tier") tier = atoi(argv[++i]);
    else if (a == "--in")
    {
      char* x = argv[++i];
      while (*x) { in.push_back(strtoull(x, &x, 10)); while (*x == ',') x++; }
    }
  }
  struct rlimit rl = {512u << 20, 512u << 20};
  if (!getenv("SX_STACKSET"))
  {
    setrlimit(RLIMIT_STACK, &rl);
    setenv("SX_STACKSET", "1", 1);
    execv("/proc/self/exe", argv);
  }
  static char alt[1 << 20];
  stack_t ss = {alt, 0, sizeof alt};
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerm);
  on_exit(onExit, nullptr);
  alarm(60);
  if (sx_setup) sx_setup();
  for (int i = 0; i < sx_ncases; i++)
    if (cs == sx_cases[i].name)
    {
      try { sx_cases[i].run(); } catch (...) { theEnd(SX_TERMINATE, 1); }
      out("REPLAY-HELD\n");
      quit(0);
    }
  out("no such case\n");
  quit(2);
}
