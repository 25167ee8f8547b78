// Names of stored files for every hash, size and slot.
#include "meta.h"
#include "repository.h"
#include "CRegion/alloc-growable.h"
static MPoint a_, b_;
static RegularFileInfo fa_, fb_;
static void any(MPoint *p, RegularFileInfo *f, int lead) {
  memset(p, 0, sizeof *p);
  sx_sym(p->hash, 20, "hash");
  p->size = sx_int(64, "size");
  p->slot = (uint8_t)sx_int(8, "slot");
#ifndef THOROUGH
  // number of hexadecimal digits
  static const int digits[] = {1, 2, 9, 15, 16};
  int d = digits[lead];
  sx_assume(((d == 16) | (p->size >> (d * 4 % 64) == 0)) & ((d == 1) | (p->size >> ((d - 1) * 4) != 0)));
#endif
  memcpy(f->hash, p->hash, 20);
  f->size = p->size; f->slot = p->slot;
}
static void go(void *arg) {
  (void)arg;
  char want[120];
  char *x = NULL, *y = NULL;
  repoBuildRegularFilePath(&x, &fa_);
  m_stored(want, "/r", &a_);
  size_t n = strlen(want + 3);
  sx_assert(strlen(x) == n && !vx_bytes_differ(x, want + 3, n), "the name is the documented one");
  unsigned clean = 1;
  for (size_t i = 0; i < n; i++) clean &= ((x[i] >= '0') & (x[i] <= '9')) | ((x[i] >= 'a') & (x[i] <= 'f')) | (x[i] == 'x') | (x[i] == '/');
  sx_assert(clean && x[0] != '/', "it stays inside the repository");
  sx_assert(strcmp(x, "config") && strcmp(x, "metadata") && strcmp(x, "lockfile") && strcmp(x, "tmp-file"), "it is none of the repository's own files");
#ifdef TWO
  repoBuildRegularFilePath(&y, &fb_);
  bool same = (a_.size == b_.size) & (a_.slot == b_.slot) & !vx_bytes_differ(a_.hash, b_.hash, 20);
  size_t m = strlen(y);
  sx_assert((m == n && !vx_bytes_differ(x, y, n)) == same, "different files have different names, equal ones the same");
  sx_cover(same ? "same" : "different");
#else
  // a buffer which is used again
  fa_.slot ^= 0x55; a_.slot ^= 0x55;
  repoBuildRegularFilePath(&x, &fa_);
  m_stored(want, "/r", &a_);
  n = strlen(want + 3);
  sx_assert(strlen(x) == n && !vx_bytes_differ(x, want + 3, n), "the name is the documented one in a used buffer");
  sx_cover("name");
#endif
}
void harness(void) {
  vx_fs_init();
  any(&a_, &fa_, (int)sx_choose(5, "digits"));
#ifdef TWO
  any(&b_, &fb_, (int)sx_choose(5, "digits"));
#endif
  sx_assert(vx_run(go, NULL) == 0, "no error");
}
