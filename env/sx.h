// Interface between harnesses, the environment model and the engine. In the
// native replay build these are provided by native.c.
#pragma once
#include <stddef.h>
#include <stdint.h>

uint64_t sx_int(int bits, const char *name);           // symbolic integer, zero-extended
void sx_sym(void *p, size_t n, const char *name);      // n symbolic bytes
unsigned sx_choose(unsigned n, const char *name);      // symbolic value below n, one path each
void sx_assume(int cond);
void sx_assert(int cond, const char *msg);
void sx_fail(const char *msg);
void sx_cover(const char *label);                      // reachability witness
uint64_t sx_conc(uint64_t v);                          // one path per feasible value
int sx_is_sym(uint64_t v);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);        // choice without a branch
int sx_try(void (*fn)(void *), void *arg);             // 0 or the code thrown
void sx_throw(int code) __attribute__((noreturn));
void *sx_malloc(size_t n);                             // zeroed, not part of the program's heap
void sx_free(void *p);
void *sx_heap_alloc(size_t n);
void sx_heap_free(void *p);
size_t sx_heap_size(void *p);
void sx_reset_globals(void);                           // program's static data back to its initial value
void sx_release_heap(void);                            // drops the current process' heap
int sx_co_new(void (*fn)(void *), void *arg);          // process with static data of its own
void sx_co_switch(int id);
int sx_co_done(int id);
int sx_co_cur(void);
void sx_obs(const char *name, uint64_t v);             // compared between engine and native run
uint64_t sx_depth(void);                               // size of the call stack, in calls (natively: in units of 64 bytes)
void sx_puts(const char *s);
int sx_host_regcomp(const char *pat, int flags);
int sx_host_regexec(int id, const char *s, int flags);
size_t sx_host_regerror(int code, char *buf, size_t n);
int sx_fmt_double(char *buf, int cap, int prec, double d);
