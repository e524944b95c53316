// libz3 is loaded with dlopen so that it does not share the C++ library with
// the instrumented program.
#ifndef Z3DYN_H
#define Z3DYN_H
#include <z3.h>
#include <dlfcn.h>
#define Z3F(X) \
  X(Z3_mk_config) X(Z3_set_param_value) X(Z3_mk_context) X(Z3_set_error_handler) \
  X(Z3_mk_solver_for_logic) X(Z3_mk_string_symbol) X(Z3_solver_inc_ref) X(Z3_mk_params) \
  X(Z3_params_inc_ref) X(Z3_params_set_uint) X(Z3_solver_set_params) X(Z3_mk_not) \
  X(Z3_solver_push) X(Z3_solver_pop) X(Z3_solver_assert) X(Z3_solver_check) \
  X(Z3_solver_get_model) X(Z3_model_inc_ref) X(Z3_model_dec_ref) X(Z3_get_app_decl) X(Z3_to_app) \
  X(Z3_model_get_const_interp) X(Z3_get_numeral_uint64) X(Z3_mk_bv_sort) X(Z3_mk_unsigned_int64) \
  X(Z3_mk_sign_ext) X(Z3_mk_bvslt) X(Z3_mk_int) X(Z3_mk_ite) X(Z3_mk_bvneg) X(Z3_mk_extract) \
  X(Z3_mk_eq) X(Z3_mk_true) X(Z3_mk_false) X(Z3_mk_iff) X(Z3_mk_bvult) X(Z3_mk_bvule) X(Z3_mk_bvsle) \
  X(Z3_mk_and) X(Z3_mk_or) X(Z3_mk_xor) X(Z3_mk_numeral) X(Z3_mk_const) X(Z3_mk_bvadd) X(Z3_mk_bvsub) \
  X(Z3_mk_bvmul) X(Z3_mk_bvudiv) X(Z3_mk_bvsdiv) X(Z3_mk_bvurem) X(Z3_mk_bvsrem) X(Z3_mk_bvshl) \
  X(Z3_mk_bvlshr) X(Z3_mk_bvashr) X(Z3_mk_zero_ext) X(Z3_mk_concat) X(Z3_mk_bvand) X(Z3_mk_bvor) \
  X(Z3_mk_bvxor) X(Z3_mk_bvnot) X(Z3_get_error_msg) X(Z3_solver_to_string) X(Z3_mk_simple_solver) X(Z3_solver_dec_ref)
#define X(n) static decltype(&n) p_##n;
Z3F(X)
#undef X
static bool loadZ3()
{
  void* h = nullptr;
  const char* e = getenv("SX_Z3LIB");
  if (e) h = dlopen(e, RTLD_NOW | RTLD_LOCAL);
  if (!h) h = dlopen("libz3.so.4", RTLD_NOW | RTLD_LOCAL);
  if (!h) h = dlopen("libz3.so", RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return false; }
#define X(n) p_##n = (decltype(&n))dlsym(h, #n); if (!p_##n) { fprintf(stderr, "no %s\n", #n); return false; }
  Z3F(X)
#undef X
  return true;
}
#define Z3_mk_config p_Z3_mk_config
#define Z3_set_param_value p_Z3_set_param_value
#define Z3_mk_context p_Z3_mk_context
#define Z3_set_error_handler p_Z3_set_error_handler
#define Z3_mk_solver_for_logic p_Z3_mk_solver_for_logic
#define Z3_mk_string_symbol p_Z3_mk_string_symbol
#define Z3_solver_inc_ref p_Z3_solver_inc_ref
#define Z3_mk_params p_Z3_mk_params
#define Z3_params_inc_ref p_Z3_params_inc_ref
#define Z3_params_set_uint p_Z3_params_set_uint
#define Z3_solver_set_params p_Z3_solver_set_params
#define Z3_mk_not p_Z3_mk_not
#define Z3_solver_push p_Z3_solver_push
#define Z3_solver_pop p_Z3_solver_pop
#define Z3_solver_assert p_Z3_solver_assert
#define Z3_solver_check p_Z3_solver_check
#define Z3_solver_get_model p_Z3_solver_get_model
#define Z3_model_inc_ref p_Z3_model_inc_ref
#define Z3_model_dec_ref p_Z3_model_dec_ref
#define Z3_get_app_decl p_Z3_get_app_decl
#define Z3_to_app p_Z3_to_app
#define Z3_model_get_const_interp p_Z3_model_get_const_interp
#define Z3_get_numeral_uint64 p_Z3_get_numeral_uint64
#define Z3_mk_bv_sort p_Z3_mk_bv_sort
#define Z3_mk_unsigned_int64 p_Z3_mk_unsigned_int64
#define Z3_mk_sign_ext p_Z3_mk_sign_ext
#define Z3_mk_bvslt p_Z3_mk_bvslt
#define Z3_mk_int p_Z3_mk_int
#define Z3_mk_ite p_Z3_mk_ite
#define Z3_mk_bvneg p_Z3_mk_bvneg
#define Z3_mk_extract p_Z3_mk_extract
#define Z3_mk_eq p_Z3_mk_eq
#define Z3_mk_true p_Z3_mk_true
#define Z3_mk_false p_Z3_mk_false
#define Z3_mk_iff p_Z3_mk_iff
#define Z3_mk_bvult p_Z3_mk_bvult
#define Z3_mk_bvule p_Z3_mk_bvule
#define Z3_mk_bvsle p_Z3_mk_bvsle
#define Z3_mk_and p_Z3_mk_and
#define Z3_mk_or p_Z3_mk_or
#define Z3_mk_xor p_Z3_mk_xor
#define Z3_mk_numeral p_Z3_mk_numeral
#define Z3_mk_const p_Z3_mk_const
#define Z3_mk_bvadd p_Z3_mk_bvadd
#define Z3_mk_bvsub p_Z3_mk_bvsub
#define Z3_mk_bvmul p_Z3_mk_bvmul
#define Z3_mk_bvudiv p_Z3_mk_bvudiv
#define Z3_mk_bvsdiv p_Z3_mk_bvsdiv
#define Z3_mk_bvurem p_Z3_mk_bvurem
#define Z3_mk_bvsrem p_Z3_mk_bvsrem
#define Z3_mk_bvshl p_Z3_mk_bvshl
#define Z3_mk_bvlshr p_Z3_mk_bvlshr
#define Z3_mk_bvashr p_Z3_mk_bvashr
#define Z3_mk_zero_ext p_Z3_mk_zero_ext
#define Z3_mk_concat p_Z3_mk_concat
#define Z3_mk_bvand p_Z3_mk_bvand
#define Z3_mk_bvor p_Z3_mk_bvor
#define Z3_mk_bvxor p_Z3_mk_bvxor
#define Z3_mk_bvnot p_Z3_mk_bvnot
#define Z3_get_error_msg p_Z3_get_error_msg
#define Z3_solver_to_string p_Z3_solver_to_string
#define Z3_mk_simple_solver p_Z3_mk_simple_solver
#define Z3_solver_dec_ref p_Z3_solver_dec_ref
#endif
