// Several commands on one repository, interleaved at every system call that
// touches the lock, at the first access to the repository's content, and once
// while working. The time from the first to the last access of the content
// must not overlap between two of them.
#include "lib.h"
#ifndef NPROC
#define NPROC 3
#endif
#ifndef PREEMPT
#define PREEMPT 4
#endif

static int rc[NPROC + 1];
static bool is_lock(const char *p) { size_t n = strlen(p); return n >= 8 && memcmp(p + n - 8, "lockfile", 8) == 0; }
static bool has_prefix(const char *p, const char *q) { size_t n = strlen(q); return strlen(p) >= n && memcmp(p, q, n) == 0; }
static bool content(const char *call, const char *p) {
  return has_prefix(p, "/r/") && !is_lock(p) && !has_prefix(call, "lstat");
}
static int seen[NPROC + 1];
static bool yield_at(const char *call, const char *p) {
  // what follows once the lock may have been released is of interest, too
  if (is_lock(p) || has_prefix(call, "lockf")) { if (seen[sx_co_cur()] > 1) seen[sx_co_cur()] = 1; }
  if (is_lock(p)) return true;
  if (has_prefix(call, "lockf") || has_prefix(call, "fcntl") || has_prefix(call, "flock")) return true;
  if (content(call, p)) return ++seen[sx_co_cur()] <= 2;
  return false;
}
static uint32_t clock_, first[NPROC + 1], last[NPROC + 1];  // accesses of each process
static void hook(const char *call, const char *p) {
  int me = sx_co_cur();
  if (!me || !content(call, p)) return;
  clock_++;
  if (!first[me]) first[me] = clock_;
  last[me] = clock_;
}
static int kind[NPROC + 1];
static void proc(void *arg) {
  int i = (int)(intptr_t)arg;
  // collecting garbage and checking do not ask
  switch (kind[i]) {
  case 0: rc[i] = vx_nb("", "/r", "gc", NULL, NULL); break;
  case 1: rc[i] = vx_nb("", "/r", "integrity", NULL, NULL); break;
  case 2: rc[i] = vx_nb("y\n", "/r", NULL, NULL, NULL); break;
  default: rc[i] = vx_nb("y\n", "/r", "0", NULL, NULL); break;
  }
}
void harness(void) {
  fs_basic("[mirror]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/a", "content of the first file, stored", 33, 500);
  sx_assert(nb_backup() == 0, "backup succeeds");
  if (sx_choose(2, "stale")) { vx_mkfile("/r/lockfile", "", 0, 0220, 0, 0, 5); sx_cover("stale lock file"); }
#ifdef KINDS
  for (int i = 1; i <= NPROC; i++) kind[i] = (int)sx_choose(4, "command");
  put_file("/s/b", "content of a new file, to be stored", 35, 600);
  edit("/s/a", "content of the first file, altered", 34, 601);
#else
  for (int i = 1; i <= NPROC; i++) kind[i] = i == 2;
#endif
  vx_multi = true; vx_yield_at = yield_at; vx_hook = hook;
  int id[NPROC + 1];
  for (int i = 1; i <= NPROC; i++) { id[i] = sx_co_new(proc, (void *)(intptr_t)i); }
  // positions of the preemptions, counted in yields
  uint32_t at[PREEMPT + 1], step = 0;
  for (int k = 0; k < PREEMPT; k++) { at[k] = (uint32_t)sx_int(32, "preempt-at"); if (k) sx_assume(at[k - 1] < at[k]); }
  int cur = 0, pre = 0;
  for (;;) {
    int run[NPROC], n = 0;
    for (int i = 1; i <= NPROC; i++) if (!sx_co_done(id[i])) run[n++] = i;
    if (!n) break;
    bool alive = cur && !sx_co_done(id[cur]);
    int next;
    step++;
    if (alive && !(pre < PREEMPT && at[pre] == step)) next = cur;
    else {
      if (alive) {
        pre++;
        int m = 0;
        for (int i = 0; i < n; i++) if (run[i] != cur) run[m++] = run[i];
        if (!(n = m)) { next = cur; goto go; }
      }
      next = run[sx_choose((unsigned)n, "next")];
    }
  go:
    cur = next;
    sx_co_switch(id[cur]);
  }
  vx_multi = false; vx_hook = NULL;
  int ok = 0;
  for (int i = 1; i <= NPROC; i++) {
    if (rc[i] == 0) ok++;
    else sx_assert(!first[i], "a refused command does nothing");
    for (int j = 1; j < i; j++)
      sx_assert(!first[i] || !first[j] || last[i] < first[j] || last[j] < first[i], "two commands work on the repository at once");
  }
  sx_assert(ok >= 1, "one of the commands gets through");
  if (ok == 1) sx_cover("one worked"); else if (ok == NPROC) sx_cover("all worked");
  sx_assert(nb_integrity() == 0, "a later command gets the lock");
}
