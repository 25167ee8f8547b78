// Functions provided by the engine itself.
enum BI {
  B_INT, B_SYM, B_CHOOSE, B_ASSUME, B_ASSERT, B_COVER, B_CONC, B_ISSYM, B_TRY, B_THROW, B_MALLOC, B_FREE, B_HEAP_ALLOC,
  B_HEAP_FREE, B_HEAP_SIZE, B_RESET, B_RELEASE, B_CO_NEW, B_CO_SWITCH, B_CO_DONE, B_CO_CUR, B_OBS, B_REGCOMP, B_REGEXEC, B_REGERROR,
  B_FMT_DOUBLE, B_ITE, B_FAIL, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_OBJ_OK, B_PUTS, B_MUST, B_DEPTH,
};
static const char *builtinNames[] = {
  "sx_int", "sx_sym", "sx_choose", "sx_assume", "sx_assert", "sx_cover", "sx_conc", "sx_is_sym", "sx_try", "sx_throw",
  "sx_malloc", "sx_free", "sx_heap_alloc", "sx_heap_free", "sx_heap_size", "sx_reset_globals", "sx_release_heap",
  "sx_co_new", "sx_co_switch", "sx_co_done", "sx_co_cur", "sx_obs", "sx_host_regcomp", "sx_host_regexec", "sx_host_regerror",
  "sx_fmt_double", "sx_ite", "sx_fail", "memcpy", "memmove", "memset", "memcmp", "bcmp", "sx_readable", "sx_puts", "sx_must", "sx_depth",
};
