// Harness interface. In the instrumented build these calls are intercepted by
// the symbolic run-time (engine/rt.cpp); in the native replay build
// (engine/native.cpp) they take their values from a counterexample file.
#ifndef SX_H
#define SX_H
#include <cstddef>
#include <cstdint>
extern "C" {
// fresh symbolic unsigned integer of `bits` bits (<= 64)
uint64_t sx_sym(const char* name, unsigned bits);
// n fresh symbolic bytes
void sx_sym_mem(const char* name, void* p, size_t n);
// restrict / assert; c is 0/1
void sx_assume(int c);
void sx_check(int c, const char* msg);
// vacuity witness: the label was reached by a feasible path
void sx_reach(const char* label);
// fork on the value of v
uint64_t sx_conc(uint64_t v);
// run f(a); returns the SxEnd kind of how it ended and resumes after it even if
// the code under test ended the process; *code is the exit status or signal
int sx_guard(void (*f)(void*), void* a, int* code);
// end the path quietly
void sx_done();
// 1 if running on the symbolic engine
int sx_symbolic();
void sx_note(const char* key, const char* val);
// write a (symbolic) buffer to a file; reads of the file see the symbolic bytes
void sx_file(const char* path, const char* buf, size_t n);
// keep freed blocks, filled with a pattern, instead of re-using them
void sx_quarantine(int on);
// 1 if no freed block was written to
int sx_quarantine_intact();
// thorough tier?
int sx_tier();

// ---- exact integers (formula objects; no path forking)
typedef struct SxBigS* SxBig;
SxBig sxb_var(const char* name, unsigned bits);  // signed, `bits` bits
SxBig sxb_uvar(const char* name, unsigned bits); // unsigned
SxBig sxb_c(long v);
SxBig sxb_of_u64(uint64_t v);  // unsigned value of a (symbolic) word
SxBig sxb_of_i64(int64_t v);
SxBig sxb_of_mpz(const void* mpz);
void sxb_to_mpz(void* mpz, SxBig v);
SxBig sxb_add(SxBig, SxBig);
SxBig sxb_sub(SxBig, SxBig);
SxBig sxb_mul(SxBig, SxBig);
SxBig sxb_neg(SxBig);
SxBig sxb_fdiv(SxBig, SxBig);  // floor division, divisor must be non-zero
SxBig sxb_fmod(SxBig, SxBig);
SxBig sxb_and(SxBig, SxBig);   // two's complement
SxBig sxb_or(SxBig, SxBig);
SxBig sxb_xor(SxBig, SxBig);
SxBig sxb_ite(SxBig c, SxBig a, SxBig b);
SxBig sxb_eq(SxBig, SxBig);    // truth values are 0/1 integers
SxBig sxb_lt(SxBig, SxBig);
SxBig sxb_le(SxBig, SxBig);
SxBig sxb_not(SxBig);          // logical
int sxb_bool(SxBig);           // symbolic 0/1 without forking
int64_t sxb_i64(SxBig);        // symbolic word without forking (value must fit)
}
// outcome of a run that does not return normally
enum SxEnd { SX_RETURN = 0, SX_ABORT = 1, SX_EXIT = 2, SX_SEGV = 3, SX_TERMINATE = 4, SX_TIMEOUT = 5 };
// set by the harness: called when the code under test ends the process
extern void (*sx_end_cb)(int kind, int code);
// one bounded exploration
struct SxCase { const char* name; void (*run)(); };
// provided by the harness
extern SxCase sx_cases[];
extern int sx_ncases;
extern void (*sx_setup)();      // concrete, before forking; may be null
#endif
