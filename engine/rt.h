#ifndef SX_RT_H
#define SX_RT_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <gmp.h>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint16_t
{
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_NOT,    // bitwise
  O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE,
  O_MPZ     // 32-bit _mp_size field of the integer a (signed bit-vector)
};

struct Expr
{
  Op op;
  bool known;      // fixed to its concrete value by the path condition
  uint32_t w;
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t aux;    // extract: low bit; var: index
  uint64_t v;      // concrete value (w<=64)
  mpz_ptr wv;      // concrete value (w>64), unsigned
  uint64_t hash;
  Expr* next;
  void* zbv;
  void* zbool;
};

Expr* mk(Op op, uint32_t w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint64_t aux = 0);
Expr* mkC(uint32_t w, uint64_t v);
Expr* mkCz(uint32_t w, mpz_srcptr v);  // two's complement of v in w bits
Expr* mkVar(const char* name, uint32_t w);
Expr* zext(Expr* e, uint32_t w);
Expr* sext(Expr* e, uint32_t w);
Expr* extract(Expr* e, uint32_t lo, uint32_t w);
Expr* bnot(Expr* e);  // logical not, w==1
inline Expr* ite(Expr* c, Expr* a, Expr* b) { return mk(O_ITE, a->w, c, a, b); }
inline Expr* eq(Expr* a, Expr* b) { return mk(O_EQ, 1, a, b); }
inline Expr* land(Expr* a, Expr* b) { return mk(O_AND, 1, a, b); }
inline Expr* lor(Expr* a, Expr* b) { return mk(O_OR, 1, a, b); }
inline Expr* slt(Expr* a, Expr* b) { return mk(O_SLT, 1, a, b); }
inline bool isC(Expr* e) { return e->op == O_CONST; }
void concSigned(Expr* e, mpz_t out);
uint64_t concU(Expr* e);
void* arena(size_t n);

// path recording
bool branch(Expr* c);                 // record the branch, returns its direction
uint64_t concretizeE(Expr* e);
void concretizeFull(Expr* e);
Expr* evalUnder(Expr* e, const std::vector<uint64_t>& m, std::unordered_map<Expr*, Expr*>& memo);
void assume(Expr* c);
void check(Expr* c, const char* msg);
[[noreturn]] void finish(int kind, int code);
[[noreturn]] void engineError(const char* msg);

// shadow memory
Expr* shLoad(const void* p, unsigned n);   // null if fully concrete
void shStore(void* p, unsigned n, Expr* e);
void shClear(void* p, size_t n);
bool shAny(const void* p, size_t n);
void shCopy(void* d, const void* s, size_t n);
Expr* byteE(const void* p);           // never null
Expr* shByte(const void* p);          // null if concrete

extern "C" {
extern void* __sx_callee;
extern void* __sx_rtok;
extern Expr* __sx_arg[64];
extern Expr* __sx_ret[64];
extern void* __sx_argptr[64];
extern uint8_t __sx_pagemap[65536];
extern Expr* __sx_ovf;
}
extern uint64_t stConcretized, stExt;

// wrappers: ENTER collects the argument shadows
#define WARG(fn, i) (__sx_callee == (void*)(fn) ? __sx_arg[i] : nullptr)
#define WRET(fn, e) do { __sx_ret[0] = (e); __sx_rtok = (void*)(fn); } while (0)
#define WRETV(fn) do { __sx_rtok = (void*)(fn); } while (0)
#endif
