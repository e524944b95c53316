// Models of the GMP functions on integers with symbolic values. The real
// operation is always executed on the concrete values; the exact result is
// recorded as a signed bit-vector wide enough never to wrap. The expression of
// an mpz_t is attached to its _mp_size field (node O_MPZ).
#include "rt.h"
#include "sx.h"
#include <algorithm>
#include <cctype>

#define W extern "C"

static Expr* cz(mpz_srcptr v)
{
  uint32_t w = mpz_sizeinbase(v, 2) + 1;
  return mkCz(w < 2 ? 2 : w, v);
}
static Expr* cl(long v)
{
  mpz_t t;
  mpz_init_set_si(t, v);
  Expr* e = cz(t);
  mpz_clear(t);
  return e;
}
static Expr* Zs(mpz_srcptr p)  // null if concrete
{
  Expr* e = shLoad(&p->_mp_size, 4);
  if (!e) return nullptr;
  if (e->op != O_MPZ) engineError("integer size field without integer expression");
  if (e->a->known || isC(e->a)) return nullptr;
  return e->a;
}
static Expr* Z(mpz_srcptr p)
{
  Expr* e = Zs(p);
  return e ? e : cz(p);
}
// drop redundant sign bits
static Expr* norm(Expr* e)
{
  for (;;)
  {
    if (e->op == O_SEXT && e->a->w >= 2) { e = e->a; continue; }
    if (e->op == O_ZEXT && e->w > e->a->w + 1) { e = zext(e->a, e->a->w + 1); continue; }
    return e;
  }
}
static void setZ(mpz_ptr p, Expr* e)
{
  e = norm(e);
  if (isC(e) || e->known) { shClear(&p->_mp_size, 4); return; }
  // the concrete value must agree
  mpz_t t;
  mpz_init(t);
  concSigned(e, t);
  if (mpz_cmp(t, p) != 0)
  {
    gmp_fprintf(stderr, "model %Zd real %Zd\n", t, p);
    engineError("integer model disagrees with GMP");
  }
  mpz_clear(t);
  shStore(&p->_mp_size, 4, mk(O_MPZ, 32, e));
}
static uint32_t mx(Expr* a, Expr* b) { return std::max(a->w, b->w); }
static Expr* addE(Expr* a, Expr* b)
{
  uint32_t w = mx(a, b) + 1;
  return mk(O_ADD, w, sext(a, w), sext(b, w));
}
static Expr* subE(Expr* a, Expr* b)
{
  uint32_t w = mx(a, b) + 1;
  return mk(O_SUB, w, sext(a, w), sext(b, w));
}
static Expr* mulE(Expr* a, Expr* b)
{
  uint32_t w = a->w + b->w;
  return mk(O_MUL, w, sext(a, w), sext(b, w));
}
static Expr* negE(Expr* a)
{
  uint32_t w = a->w + 1;
  return mk(O_SUB, w, mkC(w, 0), sext(a, w));
}
static Expr* ltE(Expr* a, Expr* b)
{
  uint32_t w = mx(a, b);
  return mk(O_SLT, 1, sext(a, w), sext(b, w));
}
static Expr* eqE(Expr* a, Expr* b)
{
  uint32_t w = mx(a, b);
  return eq(sext(a, w), sext(b, w));
}
static Expr* iteE(Expr* c, Expr* a, Expr* b)
{
  uint32_t w = mx(a, b);
  return ite(c, sext(a, w), sext(b, w));
}
static Expr* isNeg(Expr* a) { return mk(O_SLT, 1, a, mkC(a->w, 0)); }
static Expr* isZ(Expr* a) { return eq(a, mkC(a->w, 0)); }
static Expr* absE(Expr* a) { return iteE(isNeg(a), negE(a), a); }
static Expr* bitE(Op o, Expr* a, Expr* b)
{
  uint32_t w = mx(a, b);
  return mk(o, w, sext(a, w), sext(b, w));
}
// division: mode 0 trunc, 1 floor, 2 ceil; b must be non-zero
static void divE(Expr* a, Expr* b, int mode, Expr** q, Expr** r)
{
  uint32_t w = mx(a, b) + 1;
  Expr *A = sext(a, w), *B = sext(b, w);
  Expr* Q = mk(O_SDIV, w, A, B);
  Expr* R = mk(O_SREM, w, A, B);
  if (mode)
  {
    Expr* nz = bnot(isZ(R));
    Expr* diff = mk(O_XOR, 1, isNeg(R), isNeg(B));
    Expr* adj = mode == 1 ? land(nz, diff) : land(nz, bnot(diff));
    Expr* one = mkC(w, 1);
    if (mode == 1)
    {
      Q = ite(adj, mk(O_SUB, w, Q, one), Q);
      R = ite(adj, mk(O_ADD, w, R, B), R);
    }
    else
    {
      Q = ite(adj, mk(O_ADD, w, Q, one), Q);
      R = ite(adj, mk(O_SUB, w, R, B), R);
    }
  }
  if (q) *q = Q;
  if (r) *r = R;
}
// ------------------------------------------------------------ get / put
static Expr* ulE(const void* fn, int i, unsigned long v)  // unsigned arg
{
  Expr* s = __sx_callee == fn ? __sx_arg[i] : nullptr;
  if (s && (s->known || isC(s))) s = nullptr;
  if (s) return norm(zext(s, s->w + 1));
  mpz_t t;
  mpz_init_set_ui(t, v);
  Expr* e = cz(t);
  mpz_clear(t);
  return e;
}
static Expr* slE(const void* fn, int i, long v)
{
  Expr* s = __sx_callee == fn ? __sx_arg[i] : nullptr;
  if (s && (s->known || isC(s))) s = nullptr;
  return s ? s : cl(v);
}
static unsigned long concArg(const void* fn, int i, unsigned long v)
{
  Expr* s = __sx_callee == fn ? __sx_arg[i] : nullptr;
  if (s) concretizeFull(s);
  return v;
}
#define RET(e) do { Expr* re_ = (e); if (re_ && (isC(re_) || re_->known)) re_ = nullptr; __sx_ret[0] = re_; } while (0)
#define SELF(n) (void*)__sxw_##n

#define BIN(name, real, ex)                                        \
  W void __sxw_##name(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)       \
  {                                                                \
    Expr *x = Zs(a), *y = Zs(b), *z = nullptr;                     \
    if (x || y) { x = Z(a); y = Z(b); z = ex; }                    \
    real(r, a, b);                                                 \
    if (z) setZ(r, z); else shClear(&r->_mp_size, 4);              \
    WRETV(SELF(name));                                             \
  }
BIN(__gmpz_add, mpz_add, addE(x, y))
BIN(__gmpz_sub, mpz_sub, subE(x, y))
BIN(__gmpz_mul, mpz_mul, mulE(x, y))
BIN(__gmpz_and, mpz_and, bitE(O_AND, x, y))
BIN(__gmpz_ior, mpz_ior, bitE(O_OR, x, y))
BIN(__gmpz_xor, mpz_xor, bitE(O_XOR, x, y))

static Expr* dv(Expr* a, Expr* b, int mode, int what)
{
  // a zero divisor makes GMP raise SIGFPE
  if (branch(isZ(b))) return nullptr;
  Expr *q, *r;
  divE(a, b, mode, &q, &r);
  return what ? r : q;
}
BIN(__gmpz_fdiv_q, mpz_fdiv_q, dv(x, y, 1, 0))
BIN(__gmpz_fdiv_r, mpz_fdiv_r, dv(x, y, 1, 1))
BIN(__gmpz_tdiv_q, mpz_tdiv_q, dv(x, y, 0, 0))
BIN(__gmpz_tdiv_r, mpz_tdiv_r, dv(x, y, 0, 1))
BIN(__gmpz_cdiv_q, mpz_cdiv_q, dv(x, y, 2, 0))
BIN(__gmpz_cdiv_r, mpz_cdiv_r, dv(x, y, 2, 1))
BIN(__gmpz_divexact, mpz_divexact, dv(x, y, 0, 0))
BIN(__gmpz_mod, mpz_mod, dv(x, absE(y), 1, 1))

#define DQR(name, real, mode)                                                        \
  W void __sxw_##name(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b)              \
  {                                                                                  \
    Expr *x = Zs(a), *y = Zs(b), *Q = nullptr, *R = nullptr;                         \
    if (x || y)                                                                      \
    {                                                                                \
      x = Z(a); y = Z(b);                                                            \
      if (!branch(isZ(y))) divE(x, y, mode, &Q, &R);                                 \
    }                                                                                \
    real(q, r, a, b);                                                                \
    if (Q) { setZ(q, Q); setZ(r, R); }                                               \
    else { shClear(&q->_mp_size, 4); shClear(&r->_mp_size, 4); }                     \
    WRETV(SELF(name));                                                               \
  }
DQR(__gmpz_fdiv_qr, mpz_fdiv_qr, 1)
DQR(__gmpz_tdiv_qr, mpz_tdiv_qr, 0)
DQR(__gmpz_cdiv_qr, mpz_cdiv_qr, 2)

#define UN(name, real, ex)                                         \
  W void __sxw_##name(mpz_ptr r, mpz_srcptr a)                     \
  {                                                                \
    Expr *x = Zs(a), *z = nullptr;                                 \
    if (x) z = ex;                                                 \
    real(r, a);                                                    \
    if (z) setZ(r, z); else shClear(&r->_mp_size, 4);              \
    WRETV(SELF(name));                                             \
  }
UN(__gmpz_set, mpz_set, x)
UN(__gmpz_neg, mpz_neg, negE(x))
UN(__gmpz_abs, mpz_abs, absE(x))
UN(__gmpz_com, mpz_com, mk(O_NOT, x->w, x))
UN(__gmpz_init_set, mpz_init_set, x)

#define UI(name, real, ex)                                                   \
  W void __sxw_##name(mpz_ptr r, mpz_srcptr a, unsigned long u)              \
  {                                                                          \
    Expr *x = Zs(a), *z = nullptr, *y = ulE(SELF(name), 2, u);               \
    if (x || !isC(y)) { x = Z(a); z = ex; }                                  \
    real(r, a, u);                                                           \
    if (z) setZ(r, z); else shClear(&r->_mp_size, 4);                        \
    WRETV(SELF(name));                                                       \
  }
UI(__gmpz_add_ui, mpz_add_ui, addE(x, y))
UI(__gmpz_sub_ui, mpz_sub_ui, subE(x, y))
UI(__gmpz_mul_ui, mpz_mul_ui, mulE(x, y))
W void __sxw___gmpz_mul_si(mpz_ptr r, mpz_srcptr a, long u)
{
  Expr *x = Zs(a), *z = nullptr, *y = slE(SELF(__gmpz_mul_si), 2, u);
  if (x || !isC(y)) z = mulE(Z(a), y);
  mpz_mul_si(r, a, u);
  if (z) setZ(r, z); else shClear(&r->_mp_size, 4);
  WRETV(SELF(__gmpz_mul_si));
}
W void __sxw___gmpz_ui_sub(mpz_ptr r, unsigned long u, mpz_srcptr a)
{
  Expr *x = Zs(a), *z = nullptr, *y = ulE(SELF(__gmpz_ui_sub), 1, u);
  if (x || !isC(y)) z = subE(y, Z(a));
  mpz_ui_sub(r, u, a);
  if (z) setZ(r, z); else shClear(&r->_mp_size, 4);
  WRETV(SELF(__gmpz_ui_sub));
}
// shifts by a bit count: the count is made concrete
static unsigned long cnt(const void* f, int i, unsigned long v) { return concArg(f, i, v); }
static Expr* shlE(Expr* a, unsigned long n)
{
  uint32_t w = a->w + n;
  return mk(O_SHL, w, sext(a, w), mkC(w, n));
}
static Expr* fq2(Expr* a, unsigned long n)
{
  if (n >= a->w) return sext(extract(a, a->w - 1, 1), 2);
  Expr* e = extract(a, n, a->w - n);
  return e->w < 2 ? sext(e, 2) : e;
}
static Expr* fr2(Expr* a, unsigned long n)
{
  if (n == 0) return mkC(2, 0);
  if (n <= a->w) return zext(extract(a, 0, n), n + 1);
  return zext(sext(a, n), n + 1);
}
static Expr* tq2(Expr* a, unsigned long n)
{
  // truncation: -( |a| >> n )
  Expr* ab = absE(a);
  Expr* q = fq2(ab, n);
  return iteE(isNeg(a), negE(q), q);
}
static Expr* tr2(Expr* a, unsigned long n)
{
  Expr* q = fr2(absE(a), n);
  return iteE(isNeg(a), negE(q), q);
}
#define SHF(name, real, ex)                                                  \
  W void __sxw_##name(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n)                \
  {                                                                          \
    n = cnt(SELF(name), 2, n);                                               \
    Expr *x = Zs(a), *z = nullptr;                                           \
    if (x && n < (1u << 20)) z = ex;                                         \
    real(r, a, n);                                                           \
    if (z) setZ(r, z); else shClear(&r->_mp_size, 4);                        \
    WRETV(SELF(name));                                                       \
  }
SHF(__gmpz_mul_2exp, mpz_mul_2exp, shlE(x, n))
SHF(__gmpz_fdiv_q_2exp, mpz_fdiv_q_2exp, fq2(x, n))
SHF(__gmpz_fdiv_r_2exp, mpz_fdiv_r_2exp, fr2(x, n))
SHF(__gmpz_tdiv_q_2exp, mpz_tdiv_q_2exp, tq2(x, n))
SHF(__gmpz_tdiv_r_2exp, mpz_tdiv_r_2exp, tr2(x, n))

static Expr* powE(Expr* a, unsigned long n)
{
  Expr* r = mkC(2, 1);
  for (unsigned long i = 0; i < n; i++)
  {
    r = mulE(r, a);
    if (r->w > 4096) engineError("power too wide");
  }
  return r;
}
W void __sxw___gmpz_pow_ui(mpz_ptr r, mpz_srcptr a, unsigned long n)
{
  n = cnt(SELF(__gmpz_pow_ui), 2, n);
  Expr *x = Zs(a), *z = nullptr;
  if (x) z = powE(x, n);
  mpz_pow_ui(r, a, n);
  if (z) setZ(r, z); else shClear(&r->_mp_size, 4);
  WRETV(SELF(__gmpz_pow_ui));
}
W void __sxw___gmpz_ui_pow_ui(mpz_ptr r, unsigned long b, unsigned long n)
{
  b = cnt(SELF(__gmpz_ui_pow_ui), 1, b);
  n = cnt(SELF(__gmpz_ui_pow_ui), 2, n);
  mpz_ui_pow_ui(r, b, n);
  shClear(&r->_mp_size, 4);
  WRETV(SELF(__gmpz_ui_pow_ui));
}
static Expr* withBit(Expr* a, mp_bitcnt_t n, int v)
{
  uint32_t w = std::max<uint32_t>(a->w, n + 2);
  mpz_t t;
  mpz_init(t);
  mpz_setbit(t, n);
  Expr* m = mkCz(w, t);
  mpz_clear(t);
  if (v) return mk(O_OR, w, sext(a, w), m);
  return mk(O_AND, w, sext(a, w), mk(O_NOT, w, m));
}
W void __sxw___gmpz_setbit(mpz_ptr r, mp_bitcnt_t n)
{
  n = cnt(SELF(__gmpz_setbit), 1, n);
  Expr* x = Zs(r);
  if (x) x = withBit(x, n, 1);
  mpz_setbit(r, n);
  if (x) setZ(r, x);
  WRETV(SELF(__gmpz_setbit));
}
W void __sxw___gmpz_clrbit(mpz_ptr r, mp_bitcnt_t n)
{
  n = cnt(SELF(__gmpz_clrbit), 1, n);
  Expr* x = Zs(r);
  if (x) x = withBit(x, n, 0);
  mpz_clrbit(r, n);
  if (x) setZ(r, x);
  WRETV(SELF(__gmpz_clrbit));
}
W int __sxw___gmpz_tstbit(mpz_srcptr a, mp_bitcnt_t n)
{
  n = cnt(SELF(__gmpz_tstbit), 1, n);
  Expr *x = Zs(a), *z = nullptr;
  if (x) z = zext(n < x->w ? extract(x, n, 1) : extract(x, x->w - 1, 1), 32);
  RET(z);
  WRETV(SELF(__gmpz_tstbit));
  return mpz_tstbit(a, n);
}
// -------------------------------------------------------------- init etc.
W void __sxw___gmpz_init(mpz_ptr r) { mpz_init(r); shClear(r, 16); WRETV(SELF(__gmpz_init)); }
W void __sxw___gmpz_init2(mpz_ptr r, mp_bitcnt_t n) { mpz_init2(r, n); shClear(r, 16); WRETV(SELF(__gmpz_init2)); }
W void __sxw___gmpz_clear(mpz_ptr r) { mpz_clear(r); shClear(r, 16); WRETV(SELF(__gmpz_clear)); }
W void __sxw___gmpz_swap(mpz_ptr a, mpz_ptr b)
{
  Expr *x = Zs(a), *y = Zs(b);
  mpz_swap(a, b);
  if (y) setZ(a, y); else shClear(&a->_mp_size, 4);
  if (x) setZ(b, x); else shClear(&b->_mp_size, 4);
  WRETV(SELF(__gmpz_swap));
}
#define SETU(name, real)                                        \
  W void __sxw_##name(mpz_ptr r, unsigned long u)               \
  {                                                             \
    Expr* y = ulE(SELF(name), 1, u);                            \
    real(r, u);                                                 \
    shClear(r, 16);                                             \
    if (!isC(y)) setZ(r, y);                                    \
    WRETV(SELF(name));                                          \
  }
SETU(__gmpz_set_ui, mpz_set_ui)
SETU(__gmpz_init_set_ui, mpz_init_set_ui)
#define SETS(name, real)                                        \
  W void __sxw_##name(mpz_ptr r, long u)                        \
  {                                                             \
    Expr* y = slE(SELF(name), 1, u);                            \
    real(r, u);                                                 \
    shClear(r, 16);                                             \
    if (!isC(y)) setZ(r, y);                                    \
    WRETV(SELF(name));                                          \
  }
SETS(__gmpz_set_si, mpz_set_si)
SETS(__gmpz_init_set_si, mpz_init_set_si)

// ------------------------------------------------------------- queries
static Expr* sgn3(Expr* lt, Expr* e)
{
  return ite(lt, mkC(32, (uint32_t)-1), ite(e, mkC(32, 0), mkC(32, 1)));
}
static int sg(int c) { return c < 0 ? -1 : c > 0; }
W int __sxw___gmpz_cmp(mpz_srcptr a, mpz_srcptr b)
{
  Expr *x = Zs(a), *y = Zs(b), *z = nullptr;
  if (x || y) { x = Z(a); y = Z(b); z = sgn3(ltE(x, y), eqE(x, y)); }
  RET(z);
  WRETV(SELF(__gmpz_cmp));
  return sg(mpz_cmp(a, b));
}
W int __sxw___gmpz_cmpabs(mpz_srcptr a, mpz_srcptr b)
{
  Expr *x = Zs(a), *y = Zs(b), *z = nullptr;
  if (x || y) { x = absE(Z(a)); y = absE(Z(b)); z = sgn3(ltE(x, y), eqE(x, y)); }
  RET(z);
  WRETV(SELF(__gmpz_cmpabs));
  return sg(mpz_cmpabs(a, b));
}
W int __sxw___gmpz_cmp_ui(mpz_srcptr a, unsigned long u)
{
  Expr *x = Zs(a), *y = ulE(SELF(__gmpz_cmp_ui), 1, u), *z = nullptr;
  if (x || !isC(y)) { x = Z(a); z = sgn3(ltE(x, y), eqE(x, y)); }
  RET(z);
  WRETV(SELF(__gmpz_cmp_ui));
  return sg(__gmpz_cmp_ui(a, u));
}
W int __sxw___gmpz_cmp_si(mpz_srcptr a, long u)
{
  Expr *x = Zs(a), *y = slE(SELF(__gmpz_cmp_si), 1, u), *z = nullptr;
  if (x || !isC(y)) { x = Z(a); z = sgn3(ltE(x, y), eqE(x, y)); }
  RET(z);
  WRETV(SELF(__gmpz_cmp_si));
  return sg(__gmpz_cmp_si(a, u));
}
static Expr* low64abs(Expr* x)
{
  Expr* a = absE(x);
  return a->w >= 64 ? extract(a, 0, 64) : zext(a, 64);
}
W unsigned long __sxw___gmpz_get_ui(mpz_srcptr a)
{
  Expr* x = Zs(a);
  RET(x ? low64abs(x) : nullptr);
  WRETV(SELF(__gmpz_get_ui));
  return mpz_get_ui(a);
}
W long __sxw___gmpz_get_si(mpz_srcptr a)
{
  Expr *x = Zs(a), *z = nullptr;
  if (x)
  {
    if (x->w <= 64) z = sext(x, 64);
    else concretizeFull(x);
  }
  RET(z);
  WRETV(SELF(__gmpz_get_si));
  return mpz_get_si(a);
}
W size_t __sxw___gmpz_size(mpz_srcptr a)
{
  Expr *x = Zs(a), *z = nullptr;
  if (x)
  {
    Expr* n = mk(O_MPZ, 32, absE(x));
    z = zext(n, 64);
  }
  RET(z);
  WRETV(SELF(__gmpz_size));
  return mpz_size(a);
}
W mp_limb_t __sxw___gmpz_getlimbn(mpz_srcptr a, mp_size_t n)
{
  n = cnt(SELF(__gmpz_getlimbn), 1, n);
  Expr *x = Zs(a), *z = nullptr;
  if (x && n >= 0)
  {
    Expr* ab = absE(x);
    uint32_t lo = 64 * n;
    if (lo < ab->w) z = zext(extract(ab, lo, std::min<uint32_t>(64, ab->w - lo)), 64);
  }
  RET(z);
  WRETV(SELF(__gmpz_getlimbn));
  return mpz_getlimbn(a, n);
}
static int fits(Expr* x, uint32_t bits, bool sgd, Expr** out)
{
  if (!x) { *out = nullptr; return 0; }
  Expr *lo, *hi;
  mpz_t l, h;
  mpz_inits(l, h, nullptr);
  if (sgd) { mpz_setbit(h, bits - 1); mpz_neg(l, h); mpz_sub_ui(h, h, 1); }
  else { mpz_setbit(h, bits); mpz_sub_ui(h, h, 1); }
  lo = cz(l);
  hi = cz(h);
  mpz_clears(l, h, nullptr);
  *out = zext(land(bnot(ltE(x, lo)), bnot(ltE(hi, x))), 32);
  return 0;
}
#define FITS(name, real, bits, sgd)                \
  W int __sxw_##name(mpz_srcptr a)                 \
  {                                                \
    Expr* z;                                       \
    fits(Zs(a), bits, sgd, &z);                    \
    RET(z);                                        \
    WRETV(SELF(name));                             \
    return real(a) != 0;                           \
  }
FITS(__gmpz_fits_uint_p, mpz_fits_uint_p, 32, false)
FITS(__gmpz_fits_sint_p, mpz_fits_sint_p, 32, true)
FITS(__gmpz_fits_ulong_p, mpz_fits_ulong_p, 64, false)
FITS(__gmpz_fits_slong_p, mpz_fits_slong_p, 64, true)
FITS(__gmpz_fits_ushort_p, mpz_fits_ushort_p, 16, false)
FITS(__gmpz_fits_sshort_p, mpz_fits_sshort_p, 16, true)

W size_t __sxw___gmpz_sizeinbase(mpz_srcptr a, int base)
{
  Expr *x = Zs(a), *z = nullptr;
  base = concArg(SELF(__gmpz_sizeinbase), 1, base);
  if (x)
  {
    if (base & (base - 1)) concretizeFull(x);
    else
    {
      uint32_t k = __builtin_ctz(base);
      Expr* ab = absE(x);
      z = mkC(64, 1);
      for (uint32_t lo = k, n = 2; lo < ab->w; lo += k, n++)
        z = ite(bnot(eq(extract(ab, lo, ab->w - lo), mkC(ab->w - lo, 0))), mkC(64, n), z);
    }
  }
  RET(z);
  WRETV(SELF(__gmpz_sizeinbase));
  return mpz_sizeinbase(a, base);
}
W mp_bitcnt_t __sxw___gmpz_popcount(mpz_srcptr a)
{
  if (Expr* x = Zs(a)) concretizeFull(x);
  RET(nullptr);
  WRETV(SELF(__gmpz_popcount));
  return mpz_popcount(a);
}
W mp_bitcnt_t __sxw___gmpz_scan1(mpz_srcptr a, mp_bitcnt_t n)
{
  if (Expr* x = Zs(a)) concretizeFull(x);
  n = concArg(SELF(__gmpz_scan1), 1, n);
  RET(nullptr);
  WRETV(SELF(__gmpz_scan1));
  return mpz_scan1(a, n);
}
W int __sxw___gmpz_divisible_p(mpz_srcptr a, mpz_srcptr b)
{
  Expr *x = Zs(a), *y = Zs(b), *z = nullptr;
  if (x || y)
  {
    x = Z(a); y = Z(b);
    if (branch(isZ(y))) z = zext(isZ(x), 32);
    else { Expr* r; divE(x, y, 0, nullptr, &r); z = zext(isZ(r), 32); }
  }
  RET(z);
  WRETV(SELF(__gmpz_divisible_p));
  return mpz_divisible_p(a, b) != 0;
}
W void __sxw___gmpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)
{
  if (Expr* x = Zs(a)) concretizeFull(x);
  if (Expr* x = Zs(b)) concretizeFull(x);
  mpz_gcd(r, a, b);
  shClear(&r->_mp_size, 4);
  WRETV(SELF(__gmpz_gcd));
}
// division by a machine word, quotient stored, |remainder| returned
#define DUI(name, real, mode, hasq)                                                  \
  W unsigned long __sxw_##name(mpz_ptr q, mpz_srcptr a, unsigned long d)             \
  {                                                                                  \
    d = cnt(SELF(name), 2, d);                                                       \
    Expr *x = Zs(a), *Q = nullptr, *R = nullptr;                                     \
    if (x && d) divE(x, ulE(nullptr, 0, d), mode, &Q, &R);                           \
    unsigned long rr = real(q, a, d);                                                \
    if (Q) { setZ(q, hasq ? Q : R); R = low64abs(R); } else shClear(&q->_mp_size, 4);\
    RET(R);                                                                          \
    WRETV(SELF(name));                                                               \
    return rr;                                                                       \
  }
DUI(__gmpz_fdiv_q_ui, mpz_fdiv_q_ui, 1, true)
DUI(__gmpz_tdiv_q_ui, mpz_tdiv_q_ui, 0, true)
DUI(__gmpz_cdiv_q_ui, mpz_cdiv_q_ui, 2, true)
DUI(__gmpz_fdiv_r_ui, mpz_fdiv_r_ui, 1, false)
DUI(__gmpz_tdiv_r_ui, mpz_tdiv_r_ui, 0, false)
#define RUI(name, real, mode)                                                        \
  W unsigned long __sxw_##name(mpz_srcptr a, unsigned long d)                        \
  {                                                                                  \
    d = cnt(SELF(name), 1, d);                                                       \
    Expr *x = Zs(a), *R = nullptr;                                                   \
    if (x && d) { divE(x, ulE(nullptr, 0, d), mode, nullptr, &R); R = low64abs(R); } \
    RET(R);                                                                          \
    WRETV(SELF(name));                                                               \
    return real(a, d);                                                               \
  }
RUI(__gmpz_fdiv_ui, mpz_fdiv_ui, 1)
RUI(__gmpz_tdiv_ui, mpz_tdiv_ui, 0)

// ------------------------------------------------------------- strings
static void concStr(const char* s)
{
  for (size_t i = 0;; i++)
  {
    if (Expr* e = shByte(s + i)) concretizeFull(e);
    if (!s[i]) break;
  }
}
// digits of |x| into the string; returns length (the digit count is branched on)
static size_t putDigits(char* out, Expr* x, int base, mpz_srcptr real, size_t pos)
{
  bool neg = branch(isNeg(x));
  Expr* a = neg ? negE(x) : x;
  char* s = mpz_get_str(nullptr, base, real);
  size_t L = strlen(s) - (neg ? 1 : 0);
  int bb = base < 0 ? -base : base;
  // fork on the number of digits
  mpz_t p;
  mpz_init_set_ui(p, 1);
  Expr* prev = nullptr;
  for (size_t k = 1;; k++)
  {
    mpz_mul_ui(p, p, bb);
    // digits <= k iff a < base^k
    Expr* c = ltE(a, cz(p));
    if (c == prev) engineError("digit count");
    bool r = isC(c) ? c->v & 1 : branch(c);
    if (r) { if (k != L) engineError("digit count model"); break; }
    if (k > 4000) engineError("number too long");
  }
  memcpy(out + pos, s, strlen(s) + 1);
  shClear(out + pos, strlen(s) + 1);
  size_t q = pos + (neg ? 1 : 0);
  mpz_set_ui(p, 1);
  for (size_t i = 0; i < L; i++)
  {
    // digit i from the right
    Expr* d;
    if ((bb & (bb - 1)) == 0)
    {
      uint32_t k = __builtin_ctz(bb), lo = k * i;
      if (lo >= a->w) d = mkC(8, 0);
      else { uint32_t n = std::min<uint32_t>(k, a->w - lo); d = zext(extract(a, lo, n), 8); }
    }
    else
    {
      uint32_t w = std::max<uint32_t>(a->w, 8) + 1;
      mpz_t c;
      mpz_init_set(c, p);
      uint32_t cw = mpz_sizeinbase(c, 2) + 1;
      if (cw > w) w = cw;
      Expr* t = mk(O_UDIV, w, sext(a, w), mkCz(w, c));
      if (i + 1 < L) t = mk(O_UREM, w, t, mkC(w, bb));
      d = extract(t, 0, 8);
      mpz_clear(c);
    }
    int up = base < 0 ? 'A' : 'a';
    Expr* ch = bb <= 10 ? mk(O_ADD, 8, d, mkC(8, '0'))
                        : ite(mk(O_ULT, 1, d, mkC(8, 10)), mk(O_ADD, 8, d, mkC(8, '0')),
                              mk(O_ADD, 8, d, mkC(8, up - 10)));
    char* at = out + q + (L - 1 - i);
    if ((uint8_t)*at != (isC(ch) ? ch->v : ch->v)) engineError("digit model");
    shStore(at, 1, ch);
    mpz_mul_ui(p, p, bb);
  }
  mpz_clear(p);
  size_t r = pos + strlen(s);
  free(s);
  return r;
}
W char* __sxw___gmpz_get_str(char* out, int base, mpz_srcptr a)
{
  base = concArg(SELF(__gmpz_get_str), 1, base);
  Expr* x = Zs(a);
  if (!out)
  {
    size_t n = mpz_sizeinbase(a, base < 0 ? -base : base) + 70;
    out = (char*)malloc(n);
    shClear(out, n);
  }
  if (!x)
  {
    mpz_get_str(out, base, a);
    shClear(out, strlen(out) + 1);
  }
  else
    putDigits(out, x, base, a, 0);
  __sx_ret[0] = nullptr;
  WRETV(SELF(__gmpz_get_str));
  return out;
}
// parse a number; result expression, or null if the text is rejected.
// All characters are classified by branching, digit values stay symbolic.
static Expr* parseDigits(const char*& s, int base, char stop, bool& ok)
{
  ok = true;
  auto chE = [&](const char* p) { return byteE(p); };
  auto is = [&](const char* p, uint8_t c) {
    Expr* e = eq(chE(p), mkC(8, c));
    return isC(e) ? (bool)(e->v & 1) : branch(e);
  };
  auto space = [&](const char* p) {
    Expr* e = chE(p);
    Expr* c = lor(eq(e, mkC(8, ' ')), mk(O_ULT, 1, mk(O_SUB, 8, e, mkC(8, 9)), mkC(8, 5)));
    return isC(c) ? (bool)(c->v & 1) : branch(c);
  };
  auto range = [&](const char* p, int lo, int n) {
    Expr* c = mk(O_ULT, 1, mk(O_SUB, 8, chE(p), mkC(8, lo)), mkC(8, n));
    return isC(c) ? (bool)(c->v & 1) : branch(c);
  };
  while (space(s)) s++;
  bool neg = false;
  if (is(s, '-')) { neg = true; s++; }
  Expr* v = nullptr;
  for (;; s++)
  {
    if (is(s, 0)) break;
    if (stop && is(s, stop)) break;
    if (v && space(s)) continue;
    Expr* d;
    if (range(s, '0', base < 10 ? base : 10))
      d = chE(s);  // the low bits are the digit
    else if (base > 10 && range(s, 'a', base - 10))
      d = mk(O_SUB, 8, chE(s), mkC(8, 'a' - 10));
    else if (base > 10 && range(s, 'A', base - 10))
      d = mk(O_SUB, 8, chE(s), mkC(8, 'A' - 10));
    else { ok = false; return nullptr; }
    uint32_t db = base <= 2 ? 1 : base <= 8 ? 3 : base <= 16 ? 4 : 6;
    d = zext(extract(d, 0, db), db + 1);
    if (!v) v = d;
    else if ((base & (base - 1)) == 0)
    {
      uint32_t k = __builtin_ctz(base);
      Expr* lo = extract(d, 0, k);
      v = mk(O_CONCAT, v->w + k, v, lo);
    }
    else
    {
      uint32_t w = v->w + (base <= 16 ? 4 : 6);
      v = mk(O_ADD, w, mk(O_MUL, w, zext(v, w), mkC(w, base)), zext(d, w));
      // top bit clear: value < base^n <= 2^(bits)
    }
  }
  if (!v) { ok = false; return nullptr; }
  v = zext(v, v->w + 1);
  return neg ? negE(v) : v;
}
static int setStr(mpz_ptr r, const char* s, int base, bool init)
{
  size_t n = strlen(s);
  Expr* v = nullptr;
  if (shAny(s, n + 1))
  {
    if (base >= 2 && base <= 36)
    {
      const char* p = s;
      bool ok;
      v = parseDigits(p, base, 0, ok);
      if (!ok) v = nullptr;
    }
    else concStr(s);
  }
  int rc = init ? mpz_init_set_str(r, s, base) : mpz_set_str(r, s, base);
  shClear(r, 16);
  if (v && rc == 0) setZ(r, v);
  return rc;
}
W int __sxw___gmpz_set_str(mpz_ptr r, const char* s, int base)
{
  base = concArg(SELF(__gmpz_set_str), 2, base);
  int rc = setStr(r, s, base, false);
  __sx_ret[0] = nullptr;
  WRETV(SELF(__gmpz_set_str));
  return rc;
}
W int __sxw___gmpz_init_set_str(mpz_ptr r, const char* s, int base)
{
  base = concArg(SELF(__gmpz_init_set_str), 2, base);
  int rc = setStr(r, s, base, true);
  __sx_ret[0] = nullptr;
  WRETV(SELF(__gmpz_init_set_str));
  return rc;
}
// ------------------------------------------------------------- rationals
static bool symQ(mpq_srcptr a) { return Zs(mpq_numref(a)) || Zs(mpq_denref(a)); }
static void concDen(mpq_srcptr a)
{
  if (Expr* d = Zs(mpq_denref(a))) concretizeFull(d);
}
static void clrQ(mpq_ptr r) { shClear(r, 32); }
// r holds the canonical concrete result of num/den; den is concrete d (> 0)
static void setQ(mpq_ptr r, Expr* num, mpz_srcptr den)
{
  num = norm(num);
  clrQ(r);
  if (isC(num) || num->known) return;
  // divide by the greatest divisor of den that divides num
  unsigned long d = mpz_get_ui(den);
  if (!mpz_fits_ulong_p(den) || d > 1000000) { concretizeFull(num); return; }
  for (unsigned long g = d; g > 1; g--)
  {
    if (d % g) continue;
    uint32_t w = std::max<uint32_t>(num->w, 64 - __builtin_clzl(g) + 2);
    Expr* N = sext(num, w);
    Expr* c = eq(mk(O_SREM, w, N, mkC(w, g)), mkC(w, 0));
    if (isC(c) ? c->v & 1 : branch(c))
    {
      num = mk(O_SDIV, w, N, mkC(w, g));
      break;
    }
  }
  setZ(mpq_numref(r), num);
}
W void __sxw___gmpq_init(mpq_ptr r) { mpq_init(r); clrQ(r); WRETV(SELF(__gmpq_init)); }
W void __sxw___gmpq_clear(mpq_ptr r) { mpq_clear(r); clrQ(r); WRETV(SELF(__gmpq_clear)); }
static void cpQ(mpq_ptr r, mpq_srcptr a, bool neg)
{
  Expr *n = Zs(mpq_numref(a)), *d = Zs(mpq_denref(a));
  if (neg) mpq_neg(r, a); else mpq_set(r, a);
  clrQ(r);
  if (n) setZ(mpq_numref(r), neg ? negE(n) : n);
  if (d) setZ(mpq_denref(r), d);
}
W void __sxw___gmpq_set(mpq_ptr r, mpq_srcptr a) { cpQ(r, a, false); WRETV(SELF(__gmpq_set)); }
W void __sxw___gmpq_neg(mpq_ptr r, mpq_srcptr a) { cpQ(r, a, true); WRETV(SELF(__gmpq_neg)); }
W void __sxw___gmpq_abs(mpq_ptr r, mpq_srcptr a)
{
  Expr *n = Zs(mpq_numref(a)), *d = Zs(mpq_denref(a));
  mpq_abs(r, a);
  clrQ(r);
  if (n) setZ(mpq_numref(r), absE(n));
  if (d) setZ(mpq_denref(r), d);
  WRETV(SELF(__gmpq_abs));
}
W void __sxw___gmpq_set_z(mpq_ptr r, mpz_srcptr a)
{
  Expr* n = Zs(a);
  mpq_set_z(r, a);
  clrQ(r);
  if (n) setZ(mpq_numref(r), n);
  WRETV(SELF(__gmpq_set_z));
}
W void __sxw___gmpq_set_ui(mpq_ptr r, unsigned long a, unsigned long b)
{
  Expr* n = ulE(SELF(__gmpq_set_ui), 1, a);
  b = cnt(SELF(__gmpq_set_ui), 2, b);
  mpq_set_ui(r, a, b);
  clrQ(r);
  if (!isC(n)) setZ(mpq_numref(r), n);
  WRETV(SELF(__gmpq_set_ui));
}
W void __sxw___gmpq_set_si(mpq_ptr r, long a, unsigned long b)
{
  Expr* n = slE(SELF(__gmpq_set_si), 1, a);
  b = cnt(SELF(__gmpq_set_si), 2, b);
  mpq_set_si(r, a, b);
  clrQ(r);
  if (!isC(n)) setZ(mpq_numref(r), n);
  WRETV(SELF(__gmpq_set_si));
}
W void __sxw___gmpq_set_num(mpq_ptr r, mpz_srcptr a)
{
  Expr* n = Zs(a);
  mpq_set_num(r, a);
  shClear(mpq_numref(r), 16);
  if (n) setZ(mpq_numref(r), n);
  WRETV(SELF(__gmpq_set_num));
}
W void __sxw___gmpq_set_den(mpq_ptr r, mpz_srcptr a)
{
  Expr* n = Zs(a);
  mpq_set_den(r, a);
  shClear(mpq_denref(r), 16);
  if (n) setZ(mpq_denref(r), n);
  WRETV(SELF(__gmpq_set_den));
}
W void __sxw___gmpq_get_num(mpz_ptr r, mpq_srcptr a)
{
  Expr* n = Zs(mpq_numref(a));
  mpq_get_num(r, a);
  shClear(&r->_mp_size, 4);
  if (n) setZ(r, n);
  WRETV(SELF(__gmpq_get_num));
}
W void __sxw___gmpq_get_den(mpz_ptr r, mpq_srcptr a)
{
  Expr* n = Zs(mpq_denref(a));
  mpq_get_den(r, a);
  shClear(&r->_mp_size, 4);
  if (n) setZ(r, n);
  WRETV(SELF(__gmpq_get_den));
}
W void __sxw___gmpq_swap(mpq_ptr a, mpq_ptr b)
{
  Expr *an = Zs(mpq_numref(a)), *ad = Zs(mpq_denref(a)), *bn = Zs(mpq_numref(b)), *bd = Zs(mpq_denref(b));
  mpq_swap(a, b);
  clrQ(a);
  clrQ(b);
  if (bn) setZ(mpq_numref(a), bn);
  if (bd) setZ(mpq_denref(a), bd);
  if (an) setZ(mpq_numref(b), an);
  if (ad) setZ(mpq_denref(b), ad);
  WRETV(SELF(__gmpq_swap));
}
W void __sxw___gmpq_canonicalize(mpq_ptr r)
{
  if (symQ(r))
  {
    concDen(r);
    Expr* n = Z(mpq_numref(r));
    mpz_t d;
    mpz_init_set(d, mpq_denref(r));
    if (mpz_sgn(d) < 0) { mpz_neg(d, d); n = negE(n); }
    if (mpz_sgn(d) == 0) { mpq_canonicalize(r); }
    else { mpq_canonicalize(r); setQ(r, n, d); }
    mpz_clear(d);
  }
  else mpq_canonicalize(r);
  WRETV(SELF(__gmpq_canonicalize));
}
static void qop(mpq_ptr r, mpq_srcptr a, mpq_srcptr b, int op)
{
  auto real = [&]() {
    switch (op)
    {
      case 0: mpq_add(r, a, b); break;
      case 1: mpq_sub(r, a, b); break;
      case 2: mpq_mul(r, a, b); break;
      case 3: mpq_div(r, a, b); break;
    }
  };
  if (!symQ(a) && !symQ(b)) { real(); clrQ(r); return; }
  concDen(a);
  concDen(b);
  Expr *na = Z(mpq_numref(a)), *nb = Z(mpq_numref(b)), *n;
  mpz_t da, db, d;
  mpz_init_set(da, mpq_denref(a));
  mpz_init_set(db, mpq_denref(b));
  mpz_init(d);
  if (op == 3)
  {
    // the divisor's numerator becomes a denominator: made concrete
    if (!isC(nb)) concretizeFull(nb);
    if (mpz_sgn(mpq_numref(b)) == 0) { real(); clrQ(r); return; }
    n = mulE(na, cz(db));
    mpz_mul(d, da, mpq_numref(b));
    if (mpz_sgn(d) < 0) { mpz_neg(d, d); n = negE(n); }
  }
  else if (op == 2)
  {
    n = mulE(na, nb);
    mpz_mul(d, da, db);
  }
  else
  {
    Expr *x = mulE(na, cz(db)), *y = mulE(nb, cz(da));
    n = op == 0 ? addE(x, y) : subE(x, y);
    mpz_mul(d, da, db);
  }
  real();
  setQ(r, n, d);
  mpz_clears(da, db, d, nullptr);
}
W void __sxw___gmpq_add(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { qop(r, a, b, 0); WRETV(SELF(__gmpq_add)); }
W void __sxw___gmpq_sub(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { qop(r, a, b, 1); WRETV(SELF(__gmpq_sub)); }
W void __sxw___gmpq_mul(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { qop(r, a, b, 2); WRETV(SELF(__gmpq_mul)); }
W void __sxw___gmpq_div(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { qop(r, a, b, 3); WRETV(SELF(__gmpq_div)); }
W void __sxw___gmpq_inv(mpq_ptr r, mpq_srcptr a)
{
  if (symQ(a))
  {
    concDen(a);
    if (Expr* n = Zs(mpq_numref(a))) concretizeFull(n);
  }
  mpq_inv(r, a);
  clrQ(r);
  WRETV(SELF(__gmpq_inv));
}
W int __sxw___gmpq_cmp(mpq_srcptr a, mpq_srcptr b)
{
  Expr* z = nullptr;
  if (symQ(a) || symQ(b))
  {
    Expr* x = mulE(Z(mpq_numref(a)), Z(mpq_denref(b)));
    Expr* y = mulE(Z(mpq_numref(b)), Z(mpq_denref(a)));
    z = sgn3(ltE(x, y), eqE(x, y));
  }
  RET(z);
  WRETV(SELF(__gmpq_cmp));
  return sg(mpq_cmp(a, b));
}
W int __sxw___gmpq_cmp_si(mpq_srcptr a, long n, unsigned long d)
{
  Expr* z = nullptr;
  Expr *en = slE(SELF(__gmpq_cmp_si), 1, n), *ed = ulE(SELF(__gmpq_cmp_si), 2, d);
  if (symQ(a) || !isC(en) || !isC(ed))
  {
    Expr* x = mulE(Z(mpq_numref(a)), ed);
    Expr* y = mulE(en, Z(mpq_denref(a)));
    z = sgn3(ltE(x, y), eqE(x, y));
  }
  RET(z);
  WRETV(SELF(__gmpq_cmp_si));
  return sg(__gmpq_cmp_si(a, n, d));
}
W int __sxw___gmpq_cmp_ui(mpq_srcptr a, unsigned long n, unsigned long d)
{
  Expr* z = nullptr;
  Expr *en = ulE(SELF(__gmpq_cmp_ui), 1, n), *ed = ulE(SELF(__gmpq_cmp_ui), 2, d);
  if (symQ(a) || !isC(en) || !isC(ed))
  {
    Expr* x = mulE(Z(mpq_numref(a)), ed);
    Expr* y = mulE(en, Z(mpq_denref(a)));
    z = sgn3(ltE(x, y), eqE(x, y));
  }
  RET(z);
  WRETV(SELF(__gmpq_cmp_ui));
  return sg(__gmpq_cmp_ui(a, n, d));
}
W int __sxw___gmpq_equal(mpq_srcptr a, mpq_srcptr b)
{
  Expr* z = nullptr;
  if (symQ(a) || symQ(b))
    z = zext(land(eqE(Z(mpq_numref(a)), Z(mpq_numref(b))), eqE(Z(mpq_denref(a)), Z(mpq_denref(b)))), 32);
  RET(z);
  WRETV(SELF(__gmpq_equal));
  return mpq_equal(a, b) != 0;
}
W char* __sxw___gmpq_get_str(char* out, int base, mpq_srcptr a)
{
  base = concArg(SELF(__gmpq_get_str), 1, base);
  if (!out)
  {
    int bb = base < 0 ? -base : base;
    size_t n = mpz_sizeinbase(mpq_numref(a), bb) + mpz_sizeinbase(mpq_denref(a), bb) + 80;
    out = (char*)malloc(n);
    shClear(out, n);
  }
  if (!symQ(a))
  {
    mpq_get_str(out, base, a);
    shClear(out, strlen(out) + 1);
  }
  else
  {
    concDen(a);
    size_t p = putDigits(out, Z(mpq_numref(a)), base, mpq_numref(a), 0);
    if (mpz_cmp_ui(mpq_denref(a), 1) != 0)
    {
      out[p++] = '/';
      mpz_get_str(out + p, base, mpq_denref(a));
    }
    else out[p] = 0;
    shClear(out + p, strlen(out + p) + 1);
  }
  __sx_ret[0] = nullptr;
  WRETV(SELF(__gmpq_get_str));
  return out;
}
W int __sxw___gmpq_set_str(mpq_ptr r, const char* s, int base)
{
  base = concArg(SELF(__gmpq_set_str), 2, base);
  size_t n = strlen(s);
  Expr *num = nullptr, *den = nullptr;
  if (shAny(s, n + 1))
  {
    if (base >= 2 && base <= 36)
    {
      const char* p = s;
      bool ok;
      num = parseDigits(p, base, '/', ok);
      if (ok && *p == '/') { p++; den = parseDigits(p, base, 0, ok); }
      if (!ok) { num = den = nullptr; }
    }
    else concStr(s);
  }
  int rc = mpq_set_str(r, s, base);
  if (rc == 0) clrQ(r);
  if (rc == 0 && num) setZ(mpq_numref(r), num);
  if (rc == 0 && den) setZ(mpq_denref(r), den);
  __sx_ret[0] = nullptr;
  WRETV(SELF(__gmpq_set_str));
  return rc;
}

// ------------------------------------------------- harness integers (sxb_*)
#define B(x) ((Expr*)(x))
#define S(x) ((SxBig)(x))
Expr* newVar(const char* name, uint32_t bits);
W SxBig __sxw_sxb_var(const char* name, unsigned bits)
{
  Expr* e = newVar(name, bits);
  WRETV(SELF(sxb_var));
  return S(e);
}
W SxBig __sxw_sxb_uvar(const char* name, unsigned bits)
{
  Expr* e = newVar(name, bits);
  WRETV(SELF(sxb_uvar));
  return S(zext(e, bits + 1));
}
W SxBig __sxw_sxb_c(long v)
{
  if (Expr* s = WARG(SELF(sxb_c), 0)) { WRETV(SELF(sxb_c)); return S(s); }
  WRETV(SELF(sxb_c));
  return S(cl(v));
}
W SxBig __sxw_sxb_of_u64(uint64_t v)
{
  Expr* e = ulE(SELF(sxb_of_u64), 0, v);
  WRETV(SELF(sxb_of_u64));
  return S(e);
}
W SxBig __sxw_sxb_of_i64(int64_t v)
{
  Expr* e = slE(SELF(sxb_of_i64), 0, v);
  WRETV(SELF(sxb_of_i64));
  return S(e);
}
W SxBig __sxw_sxb_of_mpz(const void* p) { WRETV(SELF(sxb_of_mpz)); return S(Z((mpz_srcptr)p)); }
W void __sxw_sxb_to_mpz(void* p, SxBig v)
{
  mpz_ptr r = (mpz_ptr)p;
  mpz_t t;
  mpz_init(t);
  concSigned(B(v), t);
  mpz_set(r, t);
  mpz_clear(t);
  shClear(&r->_mp_size, 4);
  setZ(r, B(v));
  WRETV(SELF(sxb_to_mpz));
}
#define B2(n, ex) W SxBig __sxw_##n(SxBig a_, SxBig b_) { Expr *x = B(a_), *y = B(b_); (void)x; (void)y; Expr* r_ = ex; WRETV(SELF(n)); return S(r_); }
static Expr* tv(Expr* c) { return zext(c, 2); }
B2(sxb_add, norm(addE(x, y)))
B2(sxb_sub, norm(subE(x, y)))
B2(sxb_mul, norm(mulE(x, y)))
B2(sxb_and, bitE(O_AND, x, y))
B2(sxb_or, bitE(O_OR, x, y))
B2(sxb_xor, bitE(O_XOR, x, y))
B2(sxb_eq, tv(eqE(x, y)))
B2(sxb_lt, tv(ltE(x, y)))
B2(sxb_le, tv(bnot(ltE(y, x))))
static Expr* fdv(Expr* a, Expr* b, int what)
{
  Expr *q, *r;
  divE(a, b, 1, &q, &r);
  return what ? r : q;
}
B2(sxb_fdiv, fdv(x, y, 0))
B2(sxb_fmod, fdv(x, y, 1))
W SxBig __sxw_sxb_neg(SxBig a) { Expr* r = negE(B(a)); WRETV(SELF(sxb_neg)); return S(r); }
static Expr* truth(Expr* e) { return bnot(isZ(e)); }
W SxBig __sxw_sxb_not(SxBig a) { Expr* r = tv(isZ(B(a))); WRETV(SELF(sxb_not)); return S(r); }
W SxBig __sxw_sxb_ite(SxBig c, SxBig a, SxBig b)
{
  Expr* r = iteE(truth(B(c)), B(a), B(b));
  WRETV(SELF(sxb_ite));
  return S(r);
}
W int __sxw_sxb_bool(SxBig a)
{
  Expr* t = truth(B(a));
  int v = t->v & 1;
  RET(zext(t, 32));
  WRETV(SELF(sxb_bool));
  return v;
}
W int64_t __sxw_sxb_i64(SxBig a)
{
  Expr* e = B(a);
  Expr* x = e->w >= 64 ? extract(e, 0, 64) : sext(e, 64);
  RET(x);
  WRETV(SELF(sxb_i64));
  return x->v;
}
