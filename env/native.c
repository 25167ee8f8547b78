// Native counterpart of the engine's intrinsics: the values of symbolic
// inputs come from a file written by the engine.
#define _GNU_SOURCE
#include <regex.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include "sx.h"

typedef struct Rec { char name[120]; uint64_t v; } Rec;
static Rec *recs; static int nrecs, at;
typedef struct ObsRec { char name[120]; uint64_t v; } ObsRec;
static ObsRec *obs; static int nobs, obs_at, obs_bad;

static void fin(int code) { fflush(NULL); _Exit(code); }
static uint64_t take(const char *name, int bits) {
  if (at >= nrecs) return 0;
  Rec *r = &recs[at++];
  size_t n = strlen(name);
  if (strncmp(r->name, name, n) != 0 || r->name[n] != '#') { printf("REPLAY-DIVERGED expected %s got %s\n", r->name, name); fin(79); }
  return bits >= 64 ? r->v : r->v & ((1ull << bits) - 1);
}
uint64_t sx_int(int bits, const char *name) { return take(name, bits); }
void sx_sym(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)take(name, 8); }
unsigned sx_choose(unsigned n, const char *name) { unsigned v = (unsigned)take(name, 32); return v < n ? v : 0; }
void sx_assume(int c) { if (!c) { printf("REPLAY-ASSUMPTION-FAILED\n"); fin(78); } }
extern char vx_out[], vx_err[]; extern uint32_t vx_outlen, vx_errlen;
static void last_output(void) { printf("last standard output:\n%.*s\nlast standard error:\n%.*s\n", (int)vx_outlen, vx_out, (int)vx_errlen, vx_err); }
void sx_assert(int c, const char *m) { if (!c) { last_output(); printf("REPLAY-VIOLATION %s\n", m); fin(77); } }
void sx_fail(const char *m) { last_output(); printf("REPLAY-VIOLATION %s\n", m); fin(77); }
void sx_cover(const char *l) { printf("COVER %s\n", l); }
uint64_t sx_conc(uint64_t v) { return v; }
uint64_t sx_depth(void) { return (uint64_t)(INTPTR_MAX - (intptr_t)__builtin_frame_address(0)) / 64; }
int sx_is_sym(uint64_t v) { (void)v; return 0; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sx_obs(const char *name, uint64_t v) {
  if (obs_at < nobs) {
    ObsRec *o = &obs[obs_at++];
    if (strcmp(o->name, name) || o->v != v) { printf("REPLAY-OBS-DIFFERS %s: engine %s=%llu native %llu\n", name, o->name, (unsigned long long)o->v, (unsigned long long)v); obs_bad++; }
  }
}
void sx_puts(const char *s) { if (getenv("SX_TRACE")) { puts(s); } }
int sx_fmt_double(char *buf, int cap, int prec, double d) { return snprintf(buf, cap, "%.*f", prec, d); }

void *sx_malloc(size_t n) { return calloc(1, n ? n : 1); }
void sx_free(void *p) { free(p); }

typedef struct Blk { void *p; size_t n; int proc; } Blk;
static Blk *blk; static int nblk, cblk;
static int cur;
void *sx_heap_alloc(size_t n) {
  if (n > (1ull << 31)) return NULL;
  void *p = malloc(n);
  if (!p) return NULL;
  memset(p, 0xA5, n);
  if (nblk == cblk) { cblk = cblk ? cblk * 2 : 256; blk = realloc(blk, cblk * sizeof *blk); }
  blk[nblk++] = (Blk){p, n, cur};
  return p;
}
static Blk *find(void *p) { for (int i = nblk; i-- > 0;) if (blk[i].p == p) return &blk[i]; return NULL; }
void sx_heap_free(void *p) {
  if (!p) return;
  Blk *b = find(p);
  free(p);  // the sanitizer reports a bad free
  if (b) *b = blk[--nblk];
}
size_t sx_heap_size(void *p) { Blk *b = find(p); if (!b) { free(p); free(p); abort(); } return b->n; }
void sx_release_heap(void) { for (int i = 0; i < nblk;) if (blk[i].proc == cur) { free(blk[i].p); blk[i] = blk[--nblk]; } else i++; }

extern char __start_nbdata[], __stop_nbdata[];
static char nbdummy __attribute__((section("nbdata"), used)) = 1;
static char *pristine;
static size_t gsize(void) { return (size_t)(__stop_nbdata - __start_nbdata); }
__attribute__((no_sanitize_address)) static void gcopy(char *d, const char *s) { size_t n = gsize(); for (size_t i = 0; i < n; i++) d[i] = s[i]; }
void sx_reset_globals(void) { gcopy(__start_nbdata, pristine); }

#define MAXTRY 64
#define MAXCO 8
typedef struct Co { ucontext_t uc; bool done; void (*fn)(void *); void *arg; char *globals; jmp_buf *tries[MAXTRY]; int ntries; void *stack; } Co;
static Co co[MAXCO]; static int nco = 1;
int sx_try(void (*fn)(void *), void *arg) {
  jmp_buf jb;
  Co *c = &co[cur];
  c->tries[c->ntries++] = &jb;
  int r = setjmp(jb);
  if (r == 0) { fn(arg); co[cur].ntries--; return 0; }
  return r;
}
void sx_throw(int code) {
  Co *c = &co[cur];
  if (!c->ntries) { printf("REPLAY-DIVERGED throw\n"); fin(79); }
  jmp_buf *j = c->tries[--c->ntries];
  longjmp(*j, code);
}
void sx_co_switch(int id) {
  int old = cur;
  if (id == old) return;
  if (!co[old].globals) co[old].globals = malloc(gsize());
  gcopy(co[old].globals, __start_nbdata);
  gcopy(__start_nbdata, co[id].globals ? co[id].globals : pristine);
  cur = id;
  swapcontext(&co[old].uc, &co[id].uc);
}
static void co_entry(void) {
  co[cur].fn(co[cur].arg);
  co[cur].done = true;
  sx_co_switch(0);
}
int sx_co_new(void (*fn)(void *), void *arg) {
  int id = nco++;
  Co *c = &co[id];
  c->fn = fn; c->arg = arg;
  getcontext(&c->uc);
  c->stack = malloc(1 << 20);
  c->uc.uc_stack.ss_sp = c->stack; c->uc.uc_stack.ss_size = 1 << 20; c->uc.uc_link = NULL;
  makecontext(&c->uc, co_entry, 0);
  return id;
}
int sx_co_done(int id) { return co[id].done; }
int sx_co_cur(void) { return cur; }

static regex_t *regs[4096]; static int nregs;
int sx_host_regcomp(const char *pat, int flags) {
  regex_t *r = malloc(sizeof *r);
  int e = regcomp(r, pat, flags);
  if (e) { free(r); return -e; }
  regs[nregs] = r;
  return nregs++;
}
int sx_host_regexec(int id, const char *s, int flags) { return regexec(regs[id], s, 0, NULL, flags); }
size_t sx_host_regerror(int code, char *buf, size_t n) { return regerror(code, NULL, buf, n); }

extern void SX_ENTRY(void);
int main(int argc, char **argv) {
  (void)nbdummy;
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  char line[4096];
  while (f && fgets(line, sizeof line, f)) {
    char name[120]; int w; unsigned long long v;
    if (!strncmp(line, "sym ", 4)) {
      char *last = strrchr(line, ' '); if (!last) continue;
      v = strtoull(last + 1, NULL, 0); *last = 0;
      last = strrchr(line, ' '); if (!last) continue;
      w = atoi(last + 1); (void)w; *last = 0;
      recs = realloc(recs, (nrecs + 1) * sizeof *recs);
      snprintf(recs[nrecs].name, sizeof recs->name, "%s", line + 4); recs[nrecs++].v = v;
    } else if (!strncmp(line, "obs ", 4)) {
      char *last = strrchr(line, ' '); if (!last) continue;
      v = strtoull(last + 1, NULL, 0); *last = 0;
      snprintf(name, sizeof name, "%s", line + 4);
      obs = realloc(obs, (nobs + 1) * sizeof *obs);
      snprintf(obs[nobs].name, sizeof obs->name, "%s", name); obs[nobs++].v = v;
    }
  }
  if (f) fclose(f);
  pristine = malloc(gsize());
  gcopy(pristine, __start_nbdata);
  SX_ENTRY();
  if (obs_bad || obs_at != nobs) { printf("REPLAY-DIVERGED observations %d/%d\n", obs_at, nobs); fin(79); }
  printf("REPLAY-CLEAN\n");
  fin(0);
}
