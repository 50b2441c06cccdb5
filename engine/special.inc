// functions handled by the engine itself (everything else is executed from IR)
enum Sp : int {
  sp_nop = 0, sp_ret0, sp_ret1, sp_ret_arg0,
  sp_sx_int, sp_sx_i64, sp_sx_bool, sp_sx_real, sp_sx_f64, sp_sx_choose, sp_sx_assume, sp_sx_assert, sp_sx_reach, sp_sx_conc, sp_sx_eq, sp_sx_issym, sp_sx_ident, sp_sx_note, sp_sx_unsupported, sp_sx_havoc, sp_sx_dconc,
  sp_malloc, sp_calloc, sp_realloc, sp_free, sp_new, sp_delete, sp_aligned_alloc,
  sp_memcpy, sp_memset, sp_smax, sp_smin, sp_umax, sp_umin, sp_abs, sp_ctlz, sp_cttz, sp_ctpop, sp_bswap, sp_fshl, sp_fshr, sp_usubsat, sp_uaddsat,
  sp_uaddo, sp_saddo, sp_usubo, sp_ssubo, sp_umulo, sp_smulo,
  sp_fabs, sp_sqrt, sp_floor, sp_ceil, sp_trunc, sp_round, sp_rint, sp_copysign, sp_minnum, sp_maxnum, sp_fma, sp_pow, sp_powi, sp_exp, sp_log, sp_uf1, sp_fmod, sp_isfpclass, sp_objsize, sp_trap,
  sp_typeid, sp_cxa_alloc, sp_cxa_throw, sp_cxa_begin, sp_cxa_end, sp_cxa_rethrow, sp_cxa_getptr, sp_term, sp_exit, sp_guard_acq, sp_guard_rel, sp_pure, sp_dyncast, sp_errno, sp_hypot, sp_lround, sp_isconst, sp_sx_unwind, sp_cxa_rethrow_primary, sp_sx_fmt, sp_sx_fmti, sp_sx_tok, sp_curexc, sp_rethrowptr, sp_strtod
};
static const std::unordered_map<std::string, int> &specialNames() {
  static std::unordered_map<std::string, int> m = {
    {"sx_int", sp_sx_int}, {"sx_i64", sp_sx_i64}, {"sx_bool", sp_sx_bool}, {"sx_real", sp_sx_real}, {"sx_f64", sp_sx_f64}, {"sx_choose", sp_sx_choose}, {"sx_assume", sp_sx_assume},
    {"sx_assert_", sp_sx_assert}, {"sx_reach", sp_sx_reach}, {"sx_conc", sp_sx_conc}, {"sx_eq", sp_sx_eq}, {"sx_is_symbolic", sp_sx_issym}, {"sx_ident", sp_sx_ident}, {"sx_note", sp_sx_note}, {"sx_unsupported", sp_sx_unsupported}, {"sx_dconc", sp_sx_dconc},
    {"sx_fmt", sp_sx_fmt}, {"sx_fmti", sp_sx_fmti}, {"sx_tok", sp_sx_tok}, {"_ZSt17current_exceptionv", sp_curexc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", sp_rethrowptr}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", sp_nop}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", sp_nop}, {"strtod", sp_strtod},
    {"malloc", sp_malloc}, {"calloc", sp_calloc}, {"realloc", sp_realloc}, {"free", sp_free}, {"aligned_alloc", sp_aligned_alloc},
    {"_Znwm", sp_new}, {"_Znam", sp_new}, {"_ZnwmRKSt9nothrow_t", sp_new}, {"_ZnamRKSt9nothrow_t", sp_new}, {"_ZnwmSt11align_val_t", sp_new}, {"_ZnamSt11align_val_t", sp_new},
    {"_ZdlPv", sp_delete}, {"_ZdaPv", sp_delete}, {"_ZdlPvm", sp_delete}, {"_ZdaPvm", sp_delete}, {"_ZdlPvSt11align_val_t", sp_delete}, {"_ZdlPvmSt11align_val_t", sp_delete}, {"_ZdlPvRKSt9nothrow_t", sp_delete}, {"_ZdaPvRKSt9nothrow_t", sp_delete},
    {"memcpy", sp_memcpy}, {"memmove", sp_memcpy}, {"memset", sp_memset},
    {"fabs", sp_fabs}, {"sqrt", sp_sqrt}, {"floor", sp_floor}, {"ceil", sp_ceil}, {"trunc", sp_trunc}, {"round", sp_round}, {"rint", sp_rint}, {"nearbyint", sp_rint}, {"copysign", sp_copysign}, {"fmin", sp_minnum}, {"fmax", sp_maxnum}, {"fma", sp_fma}, {"pow", sp_pow}, {"exp", sp_exp}, {"log", sp_log}, {"logl", sp_log}, {"fmod", sp_fmod}, {"hypot", sp_hypot}, {"lround", sp_lround},
    {"log2", sp_uf1}, {"log10", sp_uf1}, {"exp2", sp_uf1}, {"log1p", sp_uf1}, {"expm1", sp_uf1}, {"sin", sp_uf1}, {"cos", sp_uf1}, {"tan", sp_uf1}, {"atan", sp_uf1}, {"erf", sp_uf1}, {"erfc", sp_uf1}, {"tgamma", sp_uf1}, {"lgamma", sp_uf1}, {"sinh", sp_uf1}, {"cosh", sp_uf1}, {"tanh", sp_uf1}, {"asin", sp_uf1}, {"acos", sp_uf1}, {"cbrt", sp_uf1},
    {"__cxa_allocate_exception", sp_cxa_alloc}, {"__cxa_free_exception", sp_nop}, {"__cxa_throw", sp_cxa_throw}, {"__cxa_begin_catch", sp_cxa_begin}, {"__cxa_end_catch", sp_cxa_end}, {"__cxa_rethrow", sp_cxa_rethrow}, {"__cxa_get_exception_ptr", sp_cxa_getptr},
    {"_ZSt9terminatev", sp_term}, {"abort", sp_term}, {"__assert_fail", sp_term}, {"exit", sp_exit}, {"_exit", sp_exit}, {"__cxa_atexit", sp_ret0}, {"__cxa_guard_acquire", sp_guard_acq}, {"__cxa_guard_release", sp_guard_rel}, {"__cxa_guard_abort", sp_nop}, {"__cxa_pure_virtual", sp_pure}, {"__dynamic_cast", sp_dyncast}, {"__errno_location", sp_errno},
    {"__cxa_thread_atexit", sp_ret0}, {"pthread_mutex_lock", sp_ret0}, {"pthread_mutex_unlock", sp_ret0}, {"__gthread_active_p", sp_ret0}, {"__libc_single_threaded", sp_nop}, {"_ZNSt18condition_variableC1Ev", sp_nop},
  };
  return m;
}
static std::unordered_map<const Function *, int> specialCache;
static int specialId0(const Function *F) {
  switch (F->getIntrinsicID()) {
  case Intrinsic::not_intrinsic: break;
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return sp_nop;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: return sp_ret0;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: return sp_ret_arg0;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return sp_memcpy;
  case Intrinsic::memset: case Intrinsic::memset_inline: return sp_memset;
  case Intrinsic::smax: return sp_smax; case Intrinsic::smin: return sp_smin; case Intrinsic::umax: return sp_umax; case Intrinsic::umin: return sp_umin; case Intrinsic::abs: return sp_abs;
  case Intrinsic::ctlz: return sp_ctlz; case Intrinsic::cttz: return sp_cttz; case Intrinsic::ctpop: return sp_ctpop; case Intrinsic::bswap: return sp_bswap; case Intrinsic::fshl: return sp_fshl; case Intrinsic::fshr: return sp_fshr;
  case Intrinsic::usub_sat: return sp_usubsat; case Intrinsic::uadd_sat: return sp_uaddsat;
  case Intrinsic::uadd_with_overflow: return sp_uaddo; case Intrinsic::sadd_with_overflow: return sp_saddo; case Intrinsic::usub_with_overflow: return sp_usubo; case Intrinsic::ssub_with_overflow: return sp_ssubo; case Intrinsic::umul_with_overflow: return sp_umulo; case Intrinsic::smul_with_overflow: return sp_smulo;
  case Intrinsic::fabs: return sp_fabs; case Intrinsic::sqrt: return sp_sqrt; case Intrinsic::floor: return sp_floor; case Intrinsic::ceil: return sp_ceil; case Intrinsic::trunc: return sp_trunc; case Intrinsic::round: return sp_round; case Intrinsic::rint: case Intrinsic::nearbyint: return sp_rint; case Intrinsic::copysign: return sp_copysign;
  case Intrinsic::minnum: return sp_minnum; case Intrinsic::maxnum: return sp_maxnum; case Intrinsic::fmuladd: case Intrinsic::fma: return sp_fma; case Intrinsic::pow: return sp_pow; case Intrinsic::powi: return sp_powi; case Intrinsic::exp: return sp_exp; case Intrinsic::log: return sp_log; case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: return sp_uf1;
  case Intrinsic::is_fpclass: return sp_isfpclass; case Intrinsic::objectsize: return sp_objsize; case Intrinsic::is_constant: return sp_isconst; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return sp_trap; case Intrinsic::eh_typeid_for: return sp_typeid;
  default: return -1;
  }
  auto it = specialNames().find(F->getName().str());
  return it == specialNames().end() ? -1 : it->second;
}
static int specialId(const Function *F) {
  auto it = specialCache.find(F); if (it != specialCache.end()) return it->second;
  return specialCache[F] = specialId0(F);
}
