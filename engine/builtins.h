enum { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRCMP, B_STRNCMP, B_STRCASECMP, B_STRNCASECMP, B_STRLEN, B_STRNLEN, B_ABORT, B_EXIT, B_ASSERT_FAIL,
  B_SYM_BYTES, B_SYM_NUM, B_SYM_PICK, B_ASSUME, B_ASSERT, B_REACH, B_LIVE, B_FAIL_AT, B_REUSE, B_NALLOC, B_INIT, B_VALID, B_ITE, B_STOP, B_ARG, B_ENGINE, B_CONC, B_ISSYM,
  B_LOG10, B_FLOOR, B_CEIL, B_POW, B_LOG, B_SQRT, B_FABS, B_LOG2, B_ROUND, B_TRUNC,
  B_LIFE_START, B_LIFE_END, B_VASTART, B_VAEND, B_VACOPY, B_STACKSAVE, B_STACKRESTORE, B_IGNORE, B_IGNORE0, B_EXPECT, B_OBJSIZE, B_ISCONST, B_TRAP, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS,
  B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_FSHL, B_FSHR, B_UADDSAT, B_USUBSAT, B_LASSUME, B_PRINTDBG, B_SYMEQ, B_RACES, B_THREAD, B_TID, B_ACQUIRE, B_RELEASE, B_TOUCH, B_TLS };
static int builtinId(Function *F) {
  static std::map<std::string, int> m = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"strcasecmp", B_STRCASECMP}, {"strncasecmp", B_STRNCASECMP}, {"strlen", B_STRLEN}, {"strnlen", B_STRNLEN},
    {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"_Exit", B_EXIT}, {"__assert_fail", B_ASSERT_FAIL},
    {"sym_bytes", B_SYM_BYTES}, {"sym_num", B_SYM_NUM}, {"sym_pick", B_SYM_PICK}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_reach", B_REACH}, {"sym_live", B_LIVE}, {"sym_fail_at", B_FAIL_AT}, {"sym_reuse", B_REUSE}, {"sym_nalloc", B_NALLOC}, {"sym_init", B_INIT}, {"sym_valid", B_VALID}, {"sym_ite", B_ITE}, {"sym_stop", B_STOP}, {"sym_arg", B_ARG}, {"sym_engine", B_ENGINE}, {"sym_conc", B_CONC}, {"sym_is_symbolic", B_ISSYM}, {"sym_debug", B_PRINTDBG}, {"sym_eq", B_SYMEQ}, {"sym_races", B_RACES}, {"sym_thread", B_THREAD}, {"sym_tid", B_TID}, {"sym_acquire", B_ACQUIRE}, {"sym_release", B_RELEASE}, {"sym_touch", B_TOUCH},
    {"log10", B_LOG10}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"pow", B_POW}, {"log", B_LOG}, {"sqrt", B_SQRT}, {"fabs", B_FABS}, {"log2", B_LOG2}, {"round", B_ROUND}, {"trunc", B_TRUNC} };
  std::string n = F->getName().str();
  if (F->isIntrinsic()) switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memmove: return B_MEMMOVE; case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::lifetime_start: return B_LIFE_START; case Intrinsic::lifetime_end: return B_LIFE_END;
    case Intrinsic::vastart: return B_VASTART; case Intrinsic::vaend: return B_VAEND; case Intrinsic::vacopy: return B_VACOPY;
    case Intrinsic::stacksave: return B_STACKSAVE; case Intrinsic::stackrestore: return B_STACKRESTORE;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::annotation: return B_EXPECT;
    case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::trap: case Intrinsic::ubsantrap: return B_TRAP;
    case Intrinsic::bswap: return B_BSWAP; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ;
    case Intrinsic::umin: return B_UMIN; case Intrinsic::umax: return B_UMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::abs: return B_ABS;
    case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::umul_with_overflow: return B_UMULO; case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::usub_sat: return B_USUBSAT;
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::sideeffect: case Intrinsic::var_annotation: return B_IGNORE;
    case Intrinsic::threadlocal_address: return B_TLS;
    case Intrinsic::floor: return B_FLOOR; case Intrinsic::ceil: return B_CEIL; case Intrinsic::log10: return B_LOG10; case Intrinsic::pow: return B_POW; case Intrinsic::fabs: return B_FABS; case Intrinsic::sqrt: return B_SQRT; case Intrinsic::log2: return B_LOG2; case Intrinsic::log: return B_LOG; case Intrinsic::round: return B_ROUND; case Intrinsic::trunc: return B_TRUNC;
    default: return 0; }
  auto it = m.find(n); if (it == m.end()) return 0;
  if (!F->isDeclaration()) return 0; // an implementation in the program wins
  return it->second;
}
