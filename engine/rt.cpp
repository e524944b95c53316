// Symbolic run-time: expressions, shadow memory, instrumentation hooks.
#include "rt.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>
#include <malloc.h>
#include <dlfcn.h>
#include <algorithm>

extern "C" {
void* __sx_callee;
void* __sx_rtok;
Expr* __sx_arg[64];
Expr* __sx_ret[64];
void* __sx_argptr[64];
uint8_t __sx_pagemap[65536];
Expr* __sx_ovf;
}
uint64_t stConcretized, stExt, stTable;

// The engine's own C++ allocations (these operators become local symbols of the
// run-time object): the heap of the code under test must not depend on them,
// so that addresses are the same in every run with the same path prefix.
static char *poolP, *poolEnd, *poolLo = (char*)-1, *poolHi;
static void* poolFree[48];
static void* poolNew(size_t n)
{
  unsigned k = 5;
  while (((size_t)1 << k) < n + 16) k++;
  char* p = (char*)poolFree[k];
  if (p)
  {
    poolFree[k] = *(void**)(p + 16);
    return p + 16;
  }
  size_t sz = (size_t)1 << k;
  if (poolP == nullptr || (size_t)(poolEnd - poolP) < sz)
  {
    size_t c = sz > (64u << 20) ? sz : 64u << 20;
    poolP = (char*)mmap(nullptr, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (poolP == MAP_FAILED) abort();
    poolEnd = poolP + c;
    if (poolP < poolLo) poolLo = poolP;
    if (poolEnd > poolHi) poolHi = poolEnd;
  }
  p = poolP;
  poolP += sz;
  *(size_t*)p = k;
  return p + 16;
}
static void poolDelete(void* q)
{
  if (!q) return;
  if ((char*)q < poolLo || (char*)q >= poolHi) { free(q); return; }
  char* p = (char*)q - 16;
  size_t k = *(size_t*)p;
  *(void**)q = poolFree[k];
  poolFree[k] = p;
}
void* operator new(size_t n) { return poolNew(n); }
void* operator new[](size_t n) { return poolNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return poolNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return poolNew(n); }
void operator delete(void* p) noexcept { poolDelete(p); }
void operator delete[](void* p) noexcept { poolDelete(p); }
void operator delete(void* p, size_t) noexcept { poolDelete(p); }
void operator delete[](void* p, size_t) noexcept { poolDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { poolDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { poolDelete(p); }

// ------------------------------------------------------------------ arena
static char *aCur, *aEnd;
void* arena(size_t n)
{
  n = (n + 15) & ~size_t(15);
  if (aCur + n > aEnd)
  {
    size_t sz = std::max<size_t>(n, 16u << 20);
    aCur = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (aCur == MAP_FAILED) engineError("out of memory");
    aEnd = aCur + sz;
  }
  char* r = aCur;
  aCur += n;
  return r;
}

// ------------------------------------------------------------- expressions
static Expr** table;
static size_t tabCap, tabN;
static uint32_t nextId = 1;

static inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, uint32_t w)
{
  return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w);
}
static uint64_t hmix(uint64_t a, uint64_t b)
{
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  return a ^ (a >> 32);
}
static void concUz(Expr* e, mpz_t out)
{
  if (e->w <= 64)
    mpz_set_ui(out, e->v);
  else
    mpz_set(out, e->wv);
}
void concSigned(Expr* e, mpz_t out)
{
  concUz(e, out);
  if (mpz_tstbit(out, e->w - 1))
  {
    mpz_t t;
    mpz_init(t);
    mpz_setbit(t, e->w);
    mpz_sub(out, out, t);
    mpz_clear(t);
  }
}
uint64_t concU(Expr* e) { return e->v; }

static mpz_ptr newWide()
{
  mpz_ptr p = (mpz_ptr)arena(sizeof(__mpz_struct));
  mpz_init(p);
  return p;
}
static void setConc(Expr* e, mpz_t v)
{
  mpz_t r;
  mpz_init(r);
  mpz_fdiv_r_2exp(r, v, e->w);
  if (e->w <= 64)
    e->v = mpz_get_ui(r);
  else
  {
    e->wv = newWide();
    mpz_set(e->wv, r);
  }
  mpz_clear(r);
}

static void evalConc(Expr* e)
{
  Expr *a = e->a, *b = e->b, *c = e->c;
  bool wide = e->w > 64 || (a && a->w > 64) || (b && b->w > 64) || (c && c->w > 64);
  if (!wide)
  {
    uint64_t x = a ? a->v : 0, y = b ? b->v : 0, r = 0;
    uint32_t w = e->w;
    switch (e->op)
    {
      case O_ADD: r = x + y; break;
      case O_SUB: r = x - y; break;
      case O_MUL: r = x * y; break;
      case O_UDIV: r = y ? x / y : mask(w); break;
      case O_UREM: r = y ? x % y : x; break;
      case O_SDIV:
      {
        int64_t p = sx64(x, w), q = sx64(y, w);
        if (q == 0)
          r = p < 0 ? 1 : mask(w);
        else if (q == -1)
          r = -(uint64_t)p;
        else
          r = p / q;
        break;
      }
      case O_SREM:
      {
        int64_t p = sx64(x, w), q = sx64(y, w);
        if (q == 0)
          r = x;
        else if (q == -1)
          r = 0;
        else
          r = p % q;
        break;
      }
      case O_AND: r = x & y; break;
      case O_OR: r = x | y; break;
      case O_XOR: r = x ^ y; break;
      case O_SHL: r = y >= w ? 0 : x << y; break;
      case O_LSHR: r = y >= w ? 0 : x >> y; break;
      case O_ASHR: r = sx64(x, w) >> (y >= w ? (w - 1 > 63 ? 63 : w - 1) : y); break;
      case O_EQ: r = x == y; break;
      case O_ULT: r = x < y; break;
      case O_ULE: r = x <= y; break;
      case O_SLT: r = sx64(x, a->w) < sx64(y, a->w); break;
      case O_SLE: r = sx64(x, a->w) <= sx64(y, a->w); break;
      case O_NOT: r = ~x; break;
      case O_ZEXT: r = x; break;
      case O_SEXT: r = sx64(x, a->w); break;
      case O_EXTRACT: r = x >> e->aux; break;
      case O_CONCAT: r = (x << b->w) | y; break;
      case O_ITE: r = a->v ? b->v : c->v; break;
      case O_MPZ:
      {
        int64_t s = sx64(x, a->w);
        r = s < 0 ? -1 : (s > 0 ? 1 : 0);
        break;
      }
      default: break;
    }
    e->v = r & mask(w);
    return;
  }
  mpz_t x, y, z;
  mpz_inits(x, y, z, nullptr);
  bool sg = e->op == O_SDIV || e->op == O_SREM || e->op == O_ASHR || e->op == O_SLT
            || e->op == O_SLE || e->op == O_SEXT || e->op == O_MPZ;
  if (a) { if (sg) concSigned(a, x); else concUz(a, x); }
  if (b) { if (sg && e->op != O_ASHR) concSigned(b, y); else concUz(b, y); }
  switch (e->op)
  {
    case O_ADD: mpz_add(z, x, y); break;
    case O_SUB: mpz_sub(z, x, y); break;
    case O_MUL: mpz_mul(z, x, y); break;
    case O_UDIV:
      if (mpz_sgn(y)) mpz_tdiv_q(z, x, y); else mpz_set_si(z, -1);
      break;
    case O_UREM:
      if (mpz_sgn(y)) mpz_tdiv_r(z, x, y); else mpz_set(z, x);
      break;
    case O_SDIV:
      if (mpz_sgn(y)) mpz_tdiv_q(z, x, y); else mpz_set_si(z, mpz_sgn(x) < 0 ? 1 : -1);
      break;
    case O_SREM:
      if (mpz_sgn(y)) mpz_tdiv_r(z, x, y); else mpz_set(z, x);
      break;
    case O_AND: mpz_and(z, x, y); break;
    case O_OR: mpz_ior(z, x, y); break;
    case O_XOR: mpz_xor(z, x, y); break;
    case O_SHL:
      if (mpz_cmp_ui(y, e->w) >= 0) mpz_set_ui(z, 0); else mpz_mul_2exp(z, x, mpz_get_ui(y));
      break;
    case O_LSHR:
    case O_ASHR:
      if (mpz_cmp_ui(y, e->w) >= 0)
        mpz_set_si(z, (e->op == O_ASHR && mpz_sgn(x) < 0) ? -1 : 0);
      else
        mpz_fdiv_q_2exp(z, x, mpz_get_ui(y));
      break;
    case O_EQ: mpz_set_ui(z, mpz_cmp(x, y) == 0); break;
    case O_ULT: case O_SLT: mpz_set_ui(z, mpz_cmp(x, y) < 0); break;
    case O_ULE: case O_SLE: mpz_set_ui(z, mpz_cmp(x, y) <= 0); break;
    case O_NOT: mpz_com(z, x); break;
    case O_ZEXT: case O_SEXT: mpz_set(z, x); break;
    case O_EXTRACT: mpz_fdiv_q_2exp(z, x, e->aux); break;
    case O_CONCAT: mpz_mul_2exp(z, x, b->w); mpz_add(z, z, y); break;
    case O_ITE: if (a->v) concUz(b, z); else concUz(c, z); break;
    case O_MPZ:
    {
      int s = mpz_sgn(x);
      long n = mpz_size(x);
      mpz_set_si(z, s < 0 ? -n : n);
      break;
    }
    default: break;
  }
  setConc(e, z);
  mpz_clears(x, y, z, nullptr);
}

static Expr* intern(Op op, uint32_t w, Expr* a, Expr* b, Expr* c, uint64_t aux, uint64_t cv, mpz_ptr wv)
{
  uint64_t h = hmix(hmix(op, w), aux);
  h = hmix(h, a ? a->id : 0);
  h = hmix(h, b ? b->id : 0);
  h = hmix(h, c ? c->id : 0);
  if (op == O_CONST)
  {
    h = hmix(h, cv);
    if (wv)
      for (size_t i = 0; i < mpz_size(wv); i++) h = hmix(h, mpz_getlimbn(wv, i));
  }
  if (!table)
  {
    tabCap = 1 << 18;
    table = (Expr**)mmap(nullptr, tabCap * sizeof(Expr*), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  for (Expr* e = table[h & (tabCap - 1)]; e; e = e->next)
  {
    if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c
        && e->aux == aux)
    {
      if (op != O_CONST) return e;
      if (w <= 64 ? e->v == cv : mpz_cmp(e->wv, wv) == 0) return e;
    }
  }
  Expr* e = (Expr*)arena(sizeof(Expr));
  memset(e, 0, sizeof(Expr));
  e->op = op;
  e->w = w;
  e->a = a;
  e->b = b;
  e->c = c;
  e->aux = aux;
  e->hash = h;
  e->id = nextId++;
  if (op == O_CONST)
  {
    e->v = cv;
    if (w > 64)
    {
      e->wv = newWide();
      mpz_set(e->wv, wv);
    }
  }
  else if (op == O_VAR)
    e->v = cv;
  else
    evalConc(e);
  Expr** slot = &table[h & (tabCap - 1)];
  e->next = *slot;
  *slot = e;
  tabN++;
  return e;
}

Expr* mkC(uint32_t w, uint64_t v)
{
  if (w > 64)
  {
    mpz_t t;
    mpz_init_set_ui(t, v);
    Expr* r = mkCz(w, t);
    mpz_clear(t);
    return r;
  }
  return intern(O_CONST, w, nullptr, nullptr, nullptr, 0, v & mask(w), nullptr);
}
Expr* mkCz(uint32_t w, mpz_srcptr v)
{
  mpz_t r;
  mpz_init(r);
  mpz_fdiv_r_2exp(r, v, w);
  Expr* e;
  if (w <= 64)
    e = intern(O_CONST, w, nullptr, nullptr, nullptr, 0, mpz_get_ui(r), nullptr);
  else
    e = intern(O_CONST, w, nullptr, nullptr, nullptr, 0, 0, r);
  mpz_clear(r);
  return e;
}
static Expr* constOf(Expr* e)
{
  if (e->op == O_CONST) return e;
  return e->w <= 64 ? mkC(e->w, e->v) : mkCz(e->w, e->wv);
}
static bool isZero(Expr* e)
{
  return e->op == O_CONST && (e->w <= 64 ? e->v == 0 : mpz_sgn(e->wv) == 0);
}
static bool isOnes(Expr* e)
{
  return e->op == O_CONST && e->w <= 64 && e->v == mask(e->w);
}
Expr* zext(Expr* e, uint32_t w)
{
  if (w == e->w) return e;
  return mk(O_ZEXT, w, e);
}
Expr* sext(Expr* e, uint32_t w)
{
  if (w == e->w) return e;
  return mk(O_SEXT, w, e);
}
Expr* extract(Expr* e, uint32_t lo, uint32_t w)
{
  if (lo == 0 && w == e->w) return e;
  return mk(O_EXTRACT, w, e, nullptr, nullptr, lo);
}
Expr* bnot(Expr* e) { return mk(O_NOT, 1, e); }

Expr* mk(Op op, uint32_t w, Expr* a, Expr* b, Expr* c, uint64_t aux)
{
  if (a && a->known) a = constOf(a);
  if (b && b->known) b = constOf(b);
  if (c && c->known) c = constOf(c);
  bool ca = !a || a->op == O_CONST, cb = !b || b->op == O_CONST, cc = !c || c->op == O_CONST;
  if (ca && cb && cc)
  {
    Expr t;
    memset(&t, 0, sizeof t);
    t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux;
    evalConc(&t);
    return w <= 64 ? mkC(w, t.v) : mkCz(w, t.wv);
  }
  switch (op)
  {
    case O_ADD:
      if (isC(a)) std::swap(a, b);
      if (isZero(b)) return a;
      if (isC(b) && a->op == O_ADD && isC(a->b))
        return mk(O_ADD, w, a->a, mk(O_ADD, w, a->b, b));
      break;
    case O_SUB:
      if (isZero(b)) return a;
      if (a == b) return mkC(w, 0);
      if (isC(b)) return mk(O_ADD, w, a, mk(O_SUB, w, mkC(w, 0), b));
      break;
    case O_MUL:
      if (isC(a)) std::swap(a, b);
      if (isZero(b)) return b;
      if (isC(b) && w <= 64 && b->v == 1) return a;
      break;
    case O_UDIV:
    case O_SDIV:
      if (isC(b) && w <= 64 && b->v == 1 && w > 1) return a;
      break;
    case O_AND:
      if (isC(a)) std::swap(a, b);
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (a == b) return a;
      if (isC(b) && w <= 64 && ((b->v + 1) & b->v) == 0)
      {
        // low mask
        uint32_t k = __builtin_popcountll(b->v);
        return zext(extract(a, 0, k), w);
      }
      break;
    case O_OR:
      if (isC(a)) std::swap(a, b);
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (a == b) return a;
      break;
    case O_XOR:
      if (isC(a)) std::swap(a, b);
      if (isZero(b)) return a;
      if (a == b) return mkC(w, 0);
      if (isOnes(b)) return mk(O_NOT, w, a);
      break;
    case O_NOT:
      if (a->op == O_NOT) return a->a;
      break;
    case O_SHL:
    case O_LSHR:
    case O_ASHR:
      if (isZero(b)) return a;
      if (op == O_SHL && isC(b) && b->w <= 64 && b->v < w)
        return mk(O_CONCAT, w, extract(a, 0, w - b->v), mkC(b->v, 0));
      if (op == O_LSHR && isC(b) && b->w <= 64 && b->v < w)
        return zext(extract(a, b->v, w - b->v), w);
      break;
    case O_EQ:
      if (a == b) return mkC(1, 1);
      if (isC(a)) std::swap(a, b);
      if (isC(b))
      {
        if (a->w == 1) return b->v ? a : bnot(a);
        if (a->op == O_MPZ && b->v == 0) return eq(a->a, mkC(a->a->w, 0));
        if (a->op == O_ZEXT)
        {
          // high bits of b must be zero
          Expr* hi = extract(b, a->a->w, a->w - a->a->w);
          if (!isZero(hi)) return mkC(1, 0);
          return eq(a->a, extract(b, 0, a->a->w));
        }
        if (a->op == O_SEXT)
        {
          Expr* lo = extract(b, 0, a->a->w);
          Expr* back = sext(lo, a->w);
          if (back != b) return mkC(1, 0);
          return eq(a->a, lo);
        }
        if (a->op == O_CONCAT)
        {
          Expr* h = eq(a->a, extract(b, a->b->w, a->a->w));
          if (isZero(h)) return h;
          Expr* l = eq(a->b, extract(b, 0, a->b->w));
          return land(h, l);
        }
        if (a->op == O_ADD && isC(a->b)) return eq(a->a, mk(O_SUB, a->w, b, a->b));
        if (a->op == O_ITE && isC(a->b) && isC(a->c))
        {
          bool t = a->b == b, f = a->c == b;
          if (t && f) return mkC(1, 1);
          if (t) return a->a;
          if (f) return bnot(a->a);
          return mkC(1, 0);
        }
        if (a->op == O_ITE && isC(a->b) && a->b != b) return land(bnot(a->a), eq(a->c, b));
        if (a->op == O_ITE && isC(a->c) && a->c != b) return land(a->a, eq(a->b, b));
      }
      else if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w)
        return eq(a->a, b->a);
      else if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w)
        return eq(a->a, b->a);
      break;
    case O_ULT:
      if (a == b) return mkC(1, 0);
      if (isZero(b)) return mkC(1, 0);
      if (isC(b) && b->w <= 64 && b->v == 1) return eq(a, mkC(a->w, 0));
      if (isC(b) && a->op == O_ZEXT)
      {
        Expr* hi = extract(b, a->a->w, a->w - a->a->w);
        if (!isZero(hi)) return mkC(1, 1);
        return mk(O_ULT, 1, a->a, extract(b, 0, a->a->w));
      }
      if (isC(a) && b->op == O_ZEXT)
      {
        Expr* hi = extract(a, b->a->w, b->w - b->a->w);
        if (!isZero(hi)) return mkC(1, 0);
        return mk(O_ULT, 1, extract(a, 0, b->a->w), b->a);
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w)
        return mk(O_ULT, 1, a->a, b->a);
      break;
    case O_MPZ:
      if (a->op == O_CONST) break;
      break;
    case O_ULE:
      if (a == b) return mkC(1, 1);
      return bnot(mk(O_ULT, 1, b, a));
    case O_SLE:
      if (a == b) return mkC(1, 1);
      return bnot(mk(O_SLT, 1, b, a));
    case O_SLT:
      if (a == b) return mkC(1, 0);
      if (a->op == O_MPZ && isC(b) && (b->v == 0 || b->v == 1))
        return mk(O_SLT, 1, a->a, a->a->w == 1 ? mkC(1, 0) : mkC(a->a->w, b->v));
      if (b->op == O_MPZ && isC(a) && (a->v == 0 || a->v == 0xffffffff))
      {
        if (a->v == 0)
          return b->a->w == 1 ? mkC(1, 0) : mk(O_SLT, 1, mkC(b->a->w, 0), b->a);
        return bnot(mk(O_SLT, 1, b->a, mkC(b->a->w, 0)));
      }
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w)
        return mk(O_ULT, 1, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w)
        return mk(O_SLT, 1, a->a, b->a);
      if (a->op == O_ZEXT && isC(b) && b->w <= 64)
        return sx64(b->v, b->w) <= 0 ? mkC(1, 0) : mk(O_ULT, 1, a, b);
      if (b->op == O_ZEXT && isC(a) && a->w <= 64)
        return sx64(a->v, a->w) < 0 ? mkC(1, 1) : mk(O_ULT, 1, a, b);
      break;
    case O_ZEXT:
      if (a->op == O_ZEXT) return zext(a->a, w);
      break;
    case O_SEXT:
      if (a->op == O_SEXT) return sext(a->a, w);
      if (a->op == O_ZEXT) return zext(a->a, w);
      break;
    case O_EXTRACT:
      if (aux == 0 && w == a->w) return a;
      if (a->op == O_EXTRACT) return extract(a->a, a->aux + aux, w);
      if (a->op == O_ZEXT)
      {
        if (aux + w <= a->a->w) return extract(a->a, aux, w);
        if (aux >= a->a->w) return mkC(w, 0);
        return zext(extract(a->a, aux, a->a->w - aux), w);
      }
      if (a->op == O_SEXT && aux + w <= a->a->w) return extract(a->a, aux, w);
      if (a->op == O_SEXT && aux == 0) return sext(a->a, w);
      if (a->op == O_CONCAT)
      {
        if (aux + w <= a->b->w) return extract(a->b, aux, w);
        if (aux >= a->b->w) return extract(a->a, aux - a->b->w, w);
        return mk(O_CONCAT, w, extract(a->a, 0, aux + w - a->b->w),
                  extract(a->b, aux, a->b->w - aux));
      }
      if (a->op == O_ITE && (isC(a->b) || isC(a->c)))
        return ite(a->a, extract(a->b, aux, w), extract(a->c, aux, w));
      if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR) && (isC(a->b)))
        return mk(a->op, w, extract(a->a, aux, w), extract(a->b, aux, w));
      if (a->op == O_NOT) return mk(O_NOT, w, extract(a->a, aux, w));
      if ((a->op == O_ADD || a->op == O_MUL || a->op == O_SUB) && aux == 0)
        return mk(a->op, w, extract(a->a, 0, w), extract(a->b, 0, w));
      break;
    case O_CONCAT:
      if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->aux == b->aux + b->w)
        return extract(a->a, b->aux, w);
      // concat(extract(x), concat(extract(x), y))
      if (isZero(a)) return zext(b, w);
      if (b->op == O_CONCAT && a->op == O_EXTRACT && b->a->op == O_EXTRACT && a->a == b->a->a
          && a->aux == b->a->aux + b->a->w)
        return mk(O_CONCAT, w, extract(a->a, b->a->aux, a->w + b->a->w), b->b);
      if (a->op == O_EXTRACT && a->aux == b->w && a->a == b && false) return b;
      // sign extension bytes: concat(extract(sext(x))..) handled by extract rules
      if (a->op == O_EXTRACT && a->aux == b->w && a->w + b->w == a->a->w
          && extract(a->a, 0, b->w) == b)
        return a->a;
      break;
    case O_ITE:
      if (isC(a)) return a->v ? b : c;
      if (b == c) return b;
      if (w == 1)
      {
        if (isC(b) && isC(c)) return b->v ? a : bnot(a);
        if (isC(b)) return b->v ? lor(a, c) : land(bnot(a), c);
        if (isC(c)) return c->v ? lor(bnot(a), b) : land(a, b);
      }
      if (a->op == O_NOT) return ite(a->a, c, b);
      break;
    default: break;
  }
  return intern(op, w, a, b, c, aux, 0, nullptr);
}

Expr* internVar(uint32_t w, uint64_t idx, uint64_t val)
{
  return intern(O_VAR, w, nullptr, nullptr, nullptr, idx, val & mask(w), nullptr);
}

// ----------------------------------------------------------- shadow memory
struct Page { Expr* b[4096]; };
static Page** l1[512];  // lazily allocated, key = page number hashed
struct PEnt { uint64_t pn; Page* p; };
static PEnt* ptab;
static const size_t PCAP = 1 << 16;
static Page* findPage(uint64_t pn, bool create)
{
  if (!ptab)
  {
    if (!create) return nullptr;
    ptab = (PEnt*)mmap(nullptr, PCAP * sizeof(PEnt), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  size_t i = (pn * 0x9e3779b97f4a7c15ull) >> 48;
  for (;; i = (i + 1) & (PCAP - 1))
  {
    if (ptab[i].p && ptab[i].pn == pn) return ptab[i].p;
    if (!ptab[i].p)
    {
      if (!create) return nullptr;
      ptab[i].pn = pn;
      ptab[i].p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      __sx_pagemap[pn & 65535] = 1;
      return ptab[i].p;
    }
  }
}
static inline bool pflag(uint64_t a) { return __sx_pagemap[(a >> 12) & 65535]; }
Expr* shByte(const void* p)
{
  uint64_t a = (uint64_t)p;
  if (!pflag(a)) return nullptr;
  Page* pg = findPage(a >> 12, false);
  if (!pg) return nullptr;
  Expr* e = pg->b[a & 4095];
  if (e && e->known) return nullptr;
  return e;
}
Expr* byteE(const void* p)
{
  Expr* e = shByte(p);
  return e ? e : mkC(8, *(const uint8_t*)p);
}
static void setByte(void* p, Expr* e)
{
  uint64_t a = (uint64_t)p;
  if (e && e->op == O_CONST) e = nullptr;
  if (!e && !pflag(a)) return;
  Page* pg = findPage(a >> 12, e != nullptr);
  if (!pg) return;
  pg->b[a & 4095] = e;
}
bool shAny(const void* p, size_t n)
{
  for (size_t i = 0; i < n; i++)
  {
    uint64_t a = (uint64_t)p + i;
    if (!pflag(a))
    {
      i += 4095 - (a & 4095);
      continue;
    }
    if (shByte((char*)p + i)) return true;
  }
  return false;
}
Expr* shLoad(const void* p, unsigned n)
{
  if (!shAny(p, n)) return nullptr;
  const char* q = (const char*)p;
  Expr* r = byteE(q);
  for (unsigned i = 1; i < n; i++) r = mk(O_CONCAT, 8 * (i + 1), byteE(q + i), r);
  if (r->op == O_CONST || r->known) return nullptr;
  return r;
}
void shStore(void* p, unsigned n, Expr* e)
{
  if (e && (e->op == O_CONST || e->known)) e = nullptr;
  if (!e)
  {
    shClear(p, n);
    return;
  }
  for (unsigned i = 0; i < n; i++)
  {
    Expr* b;
    if (8 * i >= e->w)
      b = nullptr;
    else if (8 * i + 8 <= e->w)
      b = extract(e, 8 * i, 8);
    else
      b = zext(extract(e, 8 * i, e->w - 8 * i), 8);
    setByte((char*)p + i, b);
  }
}
void shClear(void* p, size_t n)
{
  uint64_t a = (uint64_t)p, end = a + n;
  while (a < end)
  {
    uint64_t pe = (a | 4095) + 1;
    uint64_t lim = pe < end ? pe : end;
    if (pflag(a))
    {
      Page* pg = findPage(a >> 12, false);
      if (pg) memset(&pg->b[a & 4095], 0, (lim - a) * sizeof(Expr*));
    }
    a = lim;
  }
}
void shCopy(void* d, const void* s, size_t n)
{
  if (!shAny(s, n))
  {
    shClear(d, n);
    return;
  }
  std::vector<Expr*> t(n);
  for (size_t i = 0; i < n; i++) t[i] = shByte((const char*)s + i);
  for (size_t i = 0; i < n; i++) setByte((char*)d + i, t[i]);
}

// ------------------------------------------------------------------- hooks
static Expr* live(Expr* e) { return e && (e->known || e->op == O_CONST) ? nullptr : e; }

static void collectVars(Expr* e, std::vector<Expr*>& vars, std::unordered_map<Expr*, int>& seen)
{
  if (seen.count(e)) return;
  seen[e] = 1;
  if (e->op == O_VAR)
  {
    if (!e->known) vars.push_back(e);
    return;
  }
  if (e->a) collectVars(e->a, vars, seen);
  if (e->b) collectVars(e->b, vars, seen);
  if (e->c) collectVars(e->c, vars, seen);
}
// evaluate e with var x := val (all other variables absent)
static uint64_t evalWith(Expr* e, Expr* x, uint64_t val, std::unordered_map<Expr*, uint64_t>& memo, bool& ok)
{
  if (e->w > 64) { ok = false; return 0; }
  if (e == x) return val & mask(e->w);
  if (e->op == O_CONST || e->known || e->op == O_VAR) return e->v;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr A, B, Cc, T = *e;
  if (e->a) { A = *e->a; A.v = evalWith(e->a, x, val, memo, ok); T.a = &A; }
  if (e->b) { B = *e->b; B.v = evalWith(e->b, x, val, memo, ok); T.b = &B; }
  if (e->c) { Cc = *e->c; Cc.v = evalWith(e->c, x, val, memo, ok); T.c = &Cc; }
  if (!ok) return 0;
  evalConc(&T);
  memo[e] = T.v;
  return T.v;
}

// e evaluated with variable i := m[i]
Expr* evalUnder(Expr* e, const std::vector<uint64_t>& m, std::unordered_map<Expr*, Expr*>& memo)
{
  if (e->op == O_CONST) return e;
  Expr*& r = memo[e];
  if (r) return r;
  Expr* t = (Expr*)arena(sizeof(Expr));
  *t = *e;
  if (e->op == O_VAR)
    t->v = e->aux < m.size() ? m[e->aux] & mask(e->w) : e->v;
  else
  {
    if (e->a) t->a = evalUnder(e->a, m, memo);
    if (e->b) t->b = evalUnder(e->b, m, memo);
    if (e->c) t->c = evalUnder(e->c, m, memo);
    evalConc(t);
  }
  return memo[e] = t;
}

static Expr* tableLoad(const void* addr, Expr* as, unsigned n)
{
  if (as->op != O_ADD && as->op != O_VAR && as->op != O_CONCAT && as->op != O_ZEXT) {}
  std::vector<Expr*> vars;
  std::unordered_map<Expr*, int> seen;
  collectVars(as, vars, seen);
  if (vars.size() != 1 || vars[0]->w > 8 || n > 8) return nullptr;
  Expr* x = vars[0];
  unsigned N = 1u << x->w;
  std::vector<uint64_t> vals(N);
  std::vector<char> have(N, 0);
  for (unsigned k = 0; k < N; k++)
  {
    std::unordered_map<Expr*, uint64_t> memo;
    bool ok = true;
    uint64_t ad = evalWith(as, x, k, memo, ok);
    if (!ok) return nullptr;
    uint64_t val = 0;
    struct iovec l = {&val, n}, r = {(void*)ad, n};
    if (process_vm_readv(getpid(), &l, 1, &r, 1, 0) != (ssize_t)n) return nullptr;
    if (shAny((void*)ad, n)) return nullptr;
    vals[k] = val;
  }
  stTable++;
  // group by value: default = most frequent
  std::unordered_map<uint64_t, int> cnt;
  for (uint64_t v : vals) cnt[v]++;
  if (cnt.size() > 64) return nullptr;
  uint64_t def = vals[0];
  for (auto& kv : cnt)
    if (kv.second > cnt[def] || (kv.second == cnt[def] && kv.first < def)) def = kv.first;
  Expr* res = mkC(8 * n, def);
  // deterministic order
  std::vector<uint64_t> keys;
  for (auto& kv : cnt) if (kv.first != def) keys.push_back(kv.first);
  std::sort(keys.begin(), keys.end());
  for (uint64_t kv : keys)
  {
    Expr* cond = mkC(1, 0);
    for (unsigned k = 0; k < N;)
    {
      if (vals[k] != kv) { k++; continue; }
      unsigned j = k;
      while (j + 1 < N && vals[j + 1] == kv) j++;
      Expr* in = (j == k) ? eq(x, mkC(x->w, k))
                          : mk(O_ULE, 1, mk(O_SUB, x->w, x, mkC(x->w, k)), mkC(x->w, j - k));
      cond = lor(cond, in);
      k = j + 1;
    }
    res = ite(cond, mkC(8 * n, kv), res);
  }
  return res;
}

extern "C" {
Expr* __sx_node(Expr* s, uint64_t lo, uint64_t hi, uint32_t w)
{
  if (s && !s->known) return s;
  if (w <= 64) return mkC(w, lo);
  mpz_t t;
  mpz_init_set_ui(t, hi);
  mpz_mul_2exp(t, t, 64);
  mpz_add_ui(t, t, lo);
  Expr* r = mkCz(w, t);
  mpz_clear(t);
  return r;
}
Expr* __sx_bin(uint32_t op, Expr* a, Expr* b)
{
  Op o;
  switch (op)
  {
    // llvm::Instruction opcodes (LLVM 18)
    case 13: o = O_ADD; break;
    case 15: o = O_SUB; break;
    case 17: o = O_MUL; break;
    case 19: o = O_UDIV; break;
    case 20: o = O_SDIV; break;
    case 22: o = O_UREM; break;
    case 23: o = O_SREM; break;
    case 25: o = O_SHL; break;
    case 26: o = O_LSHR; break;
    case 27: o = O_ASHR; break;
    case 28: o = O_AND; break;
    case 29: o = O_OR; break;
    case 30: o = O_XOR; break;
    default: engineError("unknown binary opcode");
  }
  return live(mk(o, a->w, a, b));
}
Expr* __sx_cmp(uint32_t p, Expr* a, Expr* b)
{
  switch (p)
  {
    case 32: return live(eq(a, b));
    case 33: return live(bnot(eq(a, b)));
    case 34: return live(mk(O_ULT, 1, b, a));
    case 35: return live(mk(O_ULE, 1, b, a));
    case 36: return live(mk(O_ULT, 1, a, b));
    case 37: return live(mk(O_ULE, 1, a, b));
    case 38: return live(mk(O_SLT, 1, b, a));
    case 39: return live(mk(O_SLE, 1, b, a));
    case 40: return live(mk(O_SLT, 1, a, b));
    case 41: return live(mk(O_SLE, 1, a, b));
  }
  engineError("unknown predicate");
}
Expr* __sx_cast(Expr* a, uint32_t w, uint32_t sg)
{
  if (!(a = live(a))) return nullptr;
  if (w < a->w) return live(extract(a, 0, w));
  return live(sg ? sext(a, w) : zext(a, w));
}
Expr* __sx_gep(Expr* acc, Expr* ix, int64_t scale)
{
  Expr* i = ix->w < 64 ? sext(ix, 64) : extract(ix, 0, 64);
  return mk(O_ADD, 64, acc, mk(O_MUL, 64, i, mkC(64, scale)));
}
Expr* __sx_addc(Expr* a, int64_t c) { return live(mk(O_ADD, 64, a, mkC(64, c))); }
Expr* __sx_ite(Expr* c, Expr* a, Expr* b)
{
  if (!live(c)) return live(c->v ? a : b);
  return live(ite(c, a, b));
}
Expr* __sx_load(const void* p, Expr* as, uint32_t n, uint32_t bits)
{
  as = live(as);
  if (as && as->v != (uint64_t)p) engineError("address shadow mismatch");
  Expr* r = nullptr;
  if (as)
  {
    r = tableLoad(p, as, n);
    if (!r)
    {
      concretizeFull(as);
      r = shLoad(p, n);
    }
    else
    {
      // the concrete value must agree
      uint64_t v = 0;
      memcpy(&v, p, n);
      if (r->v != v) engineError("table load mismatch");
    }
  }
  else
    r = shLoad(p, n);
  if (!r) return nullptr;
  if (bits < 8 * n) r = extract(r, 0, bits);
  return live(r);
}
void __sx_store(void* p, Expr* e, uint32_t n) { shStore(p, n, e); }
void __sx_clear(void* p, uint64_t n) { shClear(p, n); }
void __sx_byval(void* d, void* s, uint64_t n)
{
  if (s) shCopy(d, s, n); else shClear(d, n);
}
void __sx_memcpy(void* d, void* s, uint64_t n) { shCopy(d, s, n); }
void __sx_memset(void* d, Expr* e, uint64_t n)
{
  e = live(e);
  if (!e) { shClear(d, n); return; }
  for (uint64_t i = 0; i < n; i++) shStore((char*)d + i, 1, extract(e, 0, 8));
}
void __sx_concmem(void* p, uint64_t n)
{
  for (uint64_t i = 0; i < n; i++)
    if (Expr* e = shByte((char*)p + i)) concretizeFull(e);
  shClear(p, n);
}
void __sx_concretize(Expr* e)
{
  if (!live(e)) return;
  concretizeFull(e);
}
void __sx_concretize_ext(Expr* e, void* fn)
{
  if (!live(e)) return;
  stExt++;
  if (getenv("SX_TRACE"))
  {
    Dl_info di;
    if (dladdr(fn, &di) && di.dli_sname) fprintf(stderr, "[ext] %s\n", di.dli_sname);
    else fprintf(stderr, "[ext] %p\n", fn);
  }
  concretizeFull(e);
}
void __sx_branch(Expr* c, uint32_t taken)
{
  if (!live(c)) return;
  if ((c->v & 1) != (taken & 1)) engineError("branch shadow mismatch");
  branch(c);
}
void __sx_switch(Expr* e, uint32_t n, const uint64_t* vals, const uint32_t* dests)
{
  if (!live(e)) return;
  // group by destination; default group (0) is what remains
  std::vector<uint32_t> order;
  for (uint32_t i = 0; i < n; i++)
  {
    bool seen = false;
    for (uint32_t d : order) seen |= d == dests[i];
    if (!seen && dests[i] != 0) order.push_back(dests[i]);
  }
  for (uint32_t d : order)
  {
    Expr* c = mkC(1, 0);
    for (uint32_t i = 0; i < n; i++)
      if (dests[i] == d) c = lor(c, eq(e, mkC(e->w, vals[i])));
    if (isC(c)) { if (c->v) return; continue; }
    if (branch(c)) return;
  }
}
Expr* __sx_intr(uint32_t op, Expr* a, Expr* b, Expr* c)
{
  uint32_t w = a->w;
  switch (op)
  {
    case 0: return live(ite(mk(O_ULT, 1, a, b), a, b));
    case 1: return live(ite(mk(O_ULT, 1, a, b), b, a));
    case 2: return live(ite(mk(O_SLT, 1, a, b), a, b));
    case 3: return live(ite(mk(O_SLT, 1, a, b), b, a));
    case 4: return live(ite(mk(O_SLT, 1, a, mkC(w, 0)), mk(O_SUB, w, mkC(w, 0), a), a));
    case 5:
    {
      Expr* s = mk(O_ADD, w, a, b);
      return live(ite(mk(O_ULT, 1, s, a), mk(O_NOT, w, mkC(w, 0)), s));
    }
    case 6: return live(ite(mk(O_ULT, 1, a, b), mkC(w, 0), mk(O_SUB, w, a, b)));
    case 7:
    {
      Expr* r = extract(a, 0, 8);
      for (uint32_t i = 8; i < w; i += 8) r = mk(O_CONCAT, i + 8, r, extract(a, i, 8));
      return live(r);
    }
    case 8:
    case 9:
    {
      Expr* cat = mk(O_CONCAT, 2 * w, a, b);
      Expr* sh = zext(mk(O_UREM, w, c, mkC(w, w)), 2 * w);
      if (op == 8)
        return live(extract(mk(O_SHL, 2 * w, cat, sh), w, w));
      return live(extract(mk(O_LSHR, 2 * w, cat, sh), 0, w));
    }
  }
  engineError("intrinsic");
}
Expr* __sx_ovfop(uint32_t op, Expr* a, Expr* b)
{
  uint32_t w = a->w;
  bool sg = op & 1;
  uint32_t W = op >= 4 ? 2 * w : w + 2;
  Expr* A = sg ? sext(a, W) : zext(a, W);
  Expr* B = sg ? sext(b, W) : zext(b, W);
  Op o = op < 2 ? O_ADD : op < 4 ? O_SUB : O_MUL;
  Expr* R = mk(o, W, A, B);
  Expr* r = mk(o, w, a, b);
  Expr* back = sg ? sext(r, W) : zext(r, W);
  __sx_ovf = live(bnot(eq(R, back)));
  return live(r);
}
}
