// Models of the C library functions reached with symbolic data.
#include "rt.h"
#include "sx.h"
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <malloc.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

#define W extern "C"
#define SELF(n) (void*)__sxw_##n
static bool br(Expr* c) { return isC(c) || c->known ? c->v & 1 : branch(c); }
static uint64_t concArg(const void* fn, int i, uint64_t v)
{
  Expr* s = __sx_callee == fn ? __sx_arg[i] : nullptr;
  if (s) concretizeFull(s);
  return v;
}
static Expr* argE(const void* fn, int i, uint32_t w, uint64_t v)
{
  Expr* s = __sx_callee == fn ? __sx_arg[i] : nullptr;
  if (s && (s->known || isC(s))) s = nullptr;
  return s ? s : mkC(w, v);
}
static void ret(Expr* e) { __sx_ret[0] = e && (isC(e) || e->known) ? nullptr : e; }

// ------------------------------------------------------------------ memory
// Freed blocks are kept in quarantine and filled with a pattern, so that a
// use after free neither re-uses a live block nor goes unnoticed.
static uint64_t nAlloc;
static size_t quarantined;
bool sxQuarantine = false;
struct Freed
{
  unsigned char* p;
  size_t n;
};
static std::vector<Freed>* freed;
static void* alloc(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p) engineError("out of memory");
  shClear(p, malloc_usable_size(p));
  nAlloc++;
  return p;
}
static void release(void* p)
{
  if (!p) return;
  size_t n = malloc_usable_size(p);
  shClear(p, n);
  if (sxQuarantine && quarantined < (256u << 20))
  {
    quarantined += n;
    memset(p, 0xdd, n);
    if (!freed) freed = new std::vector<Freed>;
    freed->push_back({(unsigned char*)p, n});
    return;
  }
  free(p);
}
W void* __sxw__Znwm(size_t n) { n = concArg(SELF(_Znwm), 0, n); void* p = alloc(n); __sx_ret[0] = nullptr; WRETV(SELF(_Znwm)); return p; }
W void* __sxw__Znam(size_t n) { n = concArg(SELF(_Znam), 0, n); void* p = alloc(n); __sx_ret[0] = nullptr; WRETV(SELF(_Znam)); return p; }
W void __sxw__ZdlPv(void* p) { release(p); WRETV(SELF(_ZdlPv)); }
W void __sxw__ZdaPv(void* p) { release(p); WRETV(SELF(_ZdaPv)); }
W void __sxw__ZdlPvm(void* p, size_t n) { concArg(SELF(_ZdlPvm), 1, n); release(p); WRETV(SELF(_ZdlPvm)); }
W void __sxw__ZdaPvm(void* p, size_t n) { concArg(SELF(_ZdaPvm), 1, n); release(p); WRETV(SELF(_ZdaPvm)); }
W void* __sxw_malloc(size_t n) { n = concArg(SELF(malloc), 0, n); void* p = alloc(n); __sx_ret[0] = nullptr; WRETV(SELF(malloc)); return p; }
W void* __sxw_calloc(size_t a, size_t b)
{
  a = concArg(SELF(calloc), 0, a);
  b = concArg(SELF(calloc), 1, b);
  void* p = alloc(a * b);
  memset(p, 0, a * b);
  __sx_ret[0] = nullptr;
  WRETV(SELF(calloc));
  return p;
}
W void* __sxw_realloc(void* q, size_t n)
{
  n = concArg(SELF(realloc), 1, n);
  void* p = alloc(n);
  if (q)
  {
    size_t m = std::min(n, malloc_usable_size(q));
    memcpy(p, q, m);
    shCopy(p, q, m);
    release(q);
  }
  __sx_ret[0] = nullptr;
  WRETV(SELF(realloc));
  return p;
}
W void __sxw_free(void* p) { release(p); WRETV(SELF(free)); }

W void __sxw_sx_quarantine(int on) { sxQuarantine = on; WRETV(SELF(sx_quarantine)); }
W int __sxw_sx_quarantine_intact()
{
  int ok = 1;
  if (freed)
    for (Freed& f : *freed)
      for (size_t i = 0; i < f.n; i++) ok &= f.p[i] == 0xdd && !shAny(f.p + i, 1);
  __sx_ret[0] = nullptr;
  WRETV(SELF(sx_quarantine_intact));
  return ok;
}

W void* __sxw_memcpy(void* d, const void* s, size_t n)
{
  n = concArg(SELF(memcpy), 2, n);
  shCopy(d, s, n);
  memcpy(d, s, n);
  __sx_ret[0] = nullptr;
  WRETV(SELF(memcpy));
  return d;
}
W void* __sxw_memmove(void* d, const void* s, size_t n)
{
  n = concArg(SELF(memmove), 2, n);
  shCopy(d, s, n);
  memmove(d, s, n);
  __sx_ret[0] = nullptr;
  WRETV(SELF(memmove));
  return d;
}
W void* __sxw_memset(void* d, int c, size_t n)
{
  n = concArg(SELF(memset), 2, n);
  Expr* e = argE(SELF(memset), 1, 32, c);
  memset(d, c, n);
  shClear(d, n);
  if (!isC(e))
    for (size_t i = 0; i < n; i++) shStore((char*)d + i, 1, extract(e, 0, 8));
  __sx_ret[0] = nullptr;
  WRETV(SELF(memset));
  return d;
}
static Expr* cmpE(const void* a, const void* b, size_t n)
{
  Expr* r = mkC(32, 0);
  for (size_t i = n; i-- > 0;)
  {
    Expr *x = byteE((const char*)a + i), *y = byteE((const char*)b + i);
    if (isC(x) && isC(y))
    {
      if (x->v == y->v) continue;
      r = mkC(32, x->v < y->v ? (uint32_t)-1 : 1);
      continue;
    }
    r = ite(mk(O_ULT, 1, x, y), mkC(32, (uint32_t)-1), ite(mk(O_ULT, 1, y, x), mkC(32, 1), r));
  }
  return r;
}
static int sg(int c) { return c < 0 ? -1 : c > 0; }
W int __sxw_memcmp(const void* a, const void* b, size_t n)
{
  n = concArg(SELF(memcmp), 2, n);
  Expr* z = shAny(a, n) || shAny(b, n) ? cmpE(a, b, n) : nullptr;
  ret(z);
  WRETV(SELF(memcmp));
  return sg(memcmp(a, b, n));
}
W int __sxw_bcmp(const void* a, const void* b, size_t n)
{
  n = concArg(SELF(bcmp), 2, n);
  Expr* z = nullptr;
  if (shAny(a, n) || shAny(b, n))
  {
    Expr* e = mkC(1, 1);
    for (size_t i = 0; i < n; i++) e = land(e, eq(byteE((const char*)a + i), byteE((const char*)b + i)));
    z = ite(e, mkC(32, 0), mkC(32, 1));
  }
  ret(z);
  WRETV(SELF(bcmp));
  return memcmp(a, b, n) != 0;
}
W size_t __sxw_strlen(const char* s)
{
  size_t i = 0;
  for (;; i++)
  {
    if (Expr* e = shByte(s + i)) br(eq(e, mkC(8, 0)));
    if (!s[i]) break;
  }
  __sx_ret[0] = nullptr;
  WRETV(SELF(strlen));
  return i;
}
static int cmpStr(const char* a, const char* b, size_t n)
{
  for (size_t i = 0; i < n; i++)
  {
    Expr *x = byteE(a + i), *y = byteE(b + i);
    br(eq(x, y));
    if (a[i] != b[i])
    {
      br(mk(O_ULT, 1, x, y));
      return (uint8_t)a[i] < (uint8_t)b[i] ? -1 : 1;
    }
    br(eq(x, mkC(8, 0)));
    if (!a[i]) return 0;
  }
  return 0;
}
W int __sxw_strcmp(const char* a, const char* b) { int r = cmpStr(a, b, ~0ul); ret(nullptr); WRETV(SELF(strcmp)); return r; }
W int __sxw_strncmp(const char* a, const char* b, size_t n)
{
  n = concArg(SELF(strncmp), 2, n);
  int r = cmpStr(a, b, n);
  ret(nullptr);
  WRETV(SELF(strncmp));
  return r;
}
W void* __sxw_memchr(const void* p, int c, size_t n)
{
  n = concArg(SELF(memchr), 2, n);
  Expr* e = extract(argE(SELF(memchr), 1, 32, c), 0, 8);
  void* r = nullptr;
  for (size_t i = 0; i < n; i++)
  {
    if (br(eq(byteE((const char*)p + i), e))) { r = (char*)p + i; break; }
  }
  ret(nullptr);
  WRETV(SELF(memchr));
  return r;
}
W char* __sxw_strchr(const char* p, int c)
{
  Expr* e = extract(argE(SELF(strchr), 1, 32, c), 0, 8);
  char* r = nullptr;
  for (size_t i = 0;; i++)
  {
    Expr* x = byteE(p + i);
    if (br(eq(x, e))) { r = (char*)p + i; break; }
    br(eq(x, mkC(8, 0)));
    if (!p[i]) break;
  }
  ret(nullptr);
  WRETV(SELF(strchr));
  return r;
}
W char* __sxw_strcpy(char* d, const char* s)
{
  size_t i = 0;
  for (;; i++)
  {
    if (Expr* e = shByte(s + i)) br(eq(e, mkC(8, 0)));
    if (!s[i]) break;
  }
  shCopy(d, s, i + 1);
  memcpy(d, s, i + 1);
  ret(nullptr);
  WRETV(SELF(strcpy));
  return d;
}
static void concStr(const char* s)
{
  for (size_t i = 0;; i++)
  {
    if (Expr* e = shByte(s + i)) concretizeFull(e);
    if (!s[i]) break;
  }
}
extern "C" {
long __isoc23_strtol(const char*, char**, int);
unsigned long __isoc23_strtoul(const char*, char**, int);
long long __isoc23_strtoll(const char*, char**, int);
unsigned long long __isoc23_strtoull(const char*, char**, int);
}
#define STRTO(T, name)                                          \
  W T __sxw_##name(const char* s, char** e, int b)              \
  {                                                             \
    b = concArg(SELF(name), 2, b);                              \
    concStr(s);                                                 \
    T r = name(s, e, b);                                        \
    if (e) shClear(e, 8);                                       \
    ret(nullptr);                                               \
    WRETV(SELF(name));                                          \
    return r;                                                   \
  }
STRTO(long, strtol)
STRTO(unsigned long, strtoul)
STRTO(long long, strtoll)
STRTO(unsigned long long, strtoull)
STRTO(long, __isoc23_strtol)
STRTO(unsigned long, __isoc23_strtoul)
STRTO(long long, __isoc23_strtoll)
STRTO(unsigned long long, __isoc23_strtoull)
W int __sxw_atoi(const char* s)
{
  concStr(s);
  ret(nullptr);
  WRETV(SELF(atoi));
  return atoi(s);
}
// the library's string hash: everything in one bucket
W size_t __sxw__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t)
{
  ret(nullptr);
  WRETV(SELF(_ZSt11_Hash_bytesPKvmm));
  return 0;
}
// ------------------------------------------------------------------- ctype
static Expr* rng(Expr* c, int lo, int hi)
{
  return mk(O_ULE, 1, mk(O_SUB, 32, c, mkC(32, lo)), mkC(32, hi - lo));
}
#define CT(name, ex)                                              \
  W int __sxw_##name(int ch)                                      \
  {                                                               \
    Expr* c = argE(SELF(name), 0, 32, ch);                        \
    Expr* z = isC(c) ? nullptr : zext(ex, 32);                    \
    ret(z);                                                       \
    WRETV(SELF(name));                                            \
    return name(ch) != 0;                                         \
  }
CT(isprint, rng(c, 32, 126))
CT(isgraph, rng(c, 33, 126))
CT(isdigit, rng(c, '0', '9'))
CT(isupper, rng(c, 'A', 'Z'))
CT(islower, rng(c, 'a', 'z'))
CT(isalpha, lor(rng(c, 'A', 'Z'), rng(c, 'a', 'z')))
CT(isalnum, lor(rng(c, '0', '9'), lor(rng(c, 'A', 'Z'), rng(c, 'a', 'z'))))
CT(isxdigit, lor(rng(c, '0', '9'), lor(rng(c, 'A', 'F'), rng(c, 'a', 'f'))))
CT(isspace, lor(eq(c, mkC(32, ' ')), rng(c, 9, 13)))
CT(isblank, lor(eq(c, mkC(32, ' ')), eq(c, mkC(32, 9))))
CT(iscntrl, lor(rng(c, 0, 31), eq(c, mkC(32, 127))))
CT(ispunct, land(rng(c, 33, 126), bnot(lor(rng(c, '0', '9'), lor(rng(c, 'A', 'Z'), rng(c, 'a', 'z'))))))
#define CV(name, lo, hi, add)                                                        \
  W int __sxw_##name(int ch)                                                         \
  {                                                                                  \
    Expr* c = argE(SELF(name), 0, 32, ch);                                           \
    Expr* z = isC(c) ? nullptr : ite(rng(c, lo, hi), mk(O_ADD, 32, c, mkC(32, add)), c); \
    ret(z);                                                                          \
    WRETV(SELF(name));                                                               \
    return name(ch);                                                                 \
  }
CV(toupper, 'a', 'z', (uint32_t)-32)
CV(tolower, 'A', 'Z', 32)

// ---------------------------------------------------------------- process
W void __sxw_abort() { finish(SX_ABORT, 0); }
W void __sxw_exit(int c)
{
  concArg(SELF(exit), 0, (uint32_t)c);
  finish(SX_EXIT, c);
}
W void __sxw__exit(int c)
{
  concArg(SELF(_exit), 0, (uint32_t)c);
  finish(SX_EXIT, c);
}
W void __sxw_quick_exit(int c) { finish(SX_EXIT, c); }
W void __sxw__ZSt9terminatev() { finish(SX_TERMINATE, 0); }
W void __sxw___assert_fail(const char*, const char*, unsigned, const char*) { finish(SX_ABORT, 1); }

// ------------------------------------------------------------------- files
// bytes of files with symbolic contents
struct SymFile { dev_t d; ino_t i; std::vector<Expr*> b; };
static std::vector<SymFile>& files()
{
  static std::vector<SymFile> f;
  return f;
}
// write buf to path and remember which bytes are symbolic
W void __sxw_sx_file(const char* path, const char* buf, size_t n)
{
  n = concArg(SELF(sx_file), 2, n);
  FILE* f = fopen(path, "wb");
  if (!f) engineError("cannot write scratch file");
  fwrite(buf, 1, n, f);
  fclose(f);
  struct stat st;
  stat(path, &st);
  SymFile sf{st.st_dev, st.st_ino, {}};
  for (size_t i = 0; i < n; i++) sf.b.push_back(shByte(buf + i));
  auto& v = files();
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].d == sf.d && v[i].i == sf.i) { v.erase(v.begin() + i); break; }
  v.push_back(sf);
  WRETV(SELF(sx_file));
}
extern "C" void* _ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(void*, const char*, int, int);
W void* __sxw__ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(void* self, const char* n, int m, int p)
{
  m = concArg(SELF(_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei), 2, (uint32_t)m);
  p = concArg(SELF(_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei), 3, (uint32_t)p);
  concStr(n);
  void* r = _ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei(self, n, m, p);
  ret(nullptr);
  WRETV(SELF(_ZNSt12__basic_fileIcE4openEPKcSt13_Ios_Openmodei));
  return r;
}
extern "C" long _ZNSt12__basic_fileIcE6xsgetnEPcl(void*, char*, long);
extern "C" int _ZNSt12__basic_fileIcE2fdEv(void*);
W long __sxw__ZNSt12__basic_fileIcE6xsgetnEPcl(void* self, char* p, long n)
{
  n = concArg(SELF(_ZNSt12__basic_fileIcE6xsgetnEPcl), 2, n);
  int fd = _ZNSt12__basic_fileIcE2fdEv(self);
  off_t off = lseek(fd, 0, SEEK_CUR);
  long r = _ZNSt12__basic_fileIcE6xsgetnEPcl(self, p, n);
  if (r > 0)
  {
    shClear(p, r);
    struct stat st;
    if (off >= 0 && fstat(fd, &st) == 0)
      for (SymFile& f : files())
        if (f.d == st.st_dev && f.i == st.st_ino)
          for (long k = 0; k < r; k++)
            if ((size_t)(off + k) < f.b.size() && f.b[off + k]) shStore(p + k, 1, f.b[off + k]);
  }
  ret(nullptr);
  WRETV(SELF(_ZNSt12__basic_fileIcE6xsgetnEPcl));
  return r;
}
