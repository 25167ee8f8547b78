// Shared pieces of the whole-program harnesses. The repository is /r, the
// saved tree is /s, expected trees are kept below /x.
#pragma once
#include <string.h>
#include "vx.h"

#ifdef GUARD  // run only for the guard of the environment: everything else which might be wrong ends the path
#define sx_assert(c, m) sx_assume(c)
#define GUARD_ON vx_guard = true
#else
#define GUARD_ON
#endif

static inline void fs_basic(const char *config) {
  vx_fs_init();
  GUARD_ON;
  vx_mkdir_p("/r", 0755, 0, 0, 100);
  vx_mkdir_p("/x", 0755, 0, 0, 100);
  vx_mkfile("/r/config", config, strlen(config), 0644, 0, 0, 100);
}
static inline void set_config(const char *config) { vx_set_data(vx_lookup("/r/config", false), config, strlen(config)); }
static inline int nb_backup(void) { return vx_nb("y\n", "/r", NULL, NULL, NULL); }
// right after a backup there is nothing left to do
static inline void nothing_left(void) {
  sx_assert(vx_nb("", "/r", NULL, NULL, NULL) == 0 && !vx_out_has("(y/n)"), "right after a backup there is nothing left to do");
}
static inline int nb_gc(void) { return vx_nb("", "/r", "gc", NULL, NULL); }
static inline int nb_integrity(void) { return vx_nb("", "/r", "integrity", NULL, NULL); }
static inline int nb_restore(int id, const char *path) {
  char num[4] = {0}; int k = 0;
  if (id > 99) num[k++] = (char)('0' + id / 100);
  if (id > 9) num[k++] = (char)('0' + id / 10 % 10);
  num[k] = (char)('0' + id % 10);
  return vx_nb("y\n", "/r", num, path, NULL);
}
static inline int node(const char *p) { return vx_lookup(p, false); }
static inline VNode *nodep(const char *p) { int i = vx_lookup(p, false); return i < 0 ? NULL : vx_node[i]; }
static inline void put_file(const char *p, const void *d, uint64_t n, int64_t mtime) { vx_mkfile(p, d, n, 0644, 10, 20, mtime); }
// Replaces the content of an existing file, as an editor would.
static inline void edit(const char *p, const void *d, uint64_t n, int64_t mtime) {
  int i = vx_lookup(p, false);
  vx_set_data(i, d, n);
  vx_node[i]->mtime = mtime;
}
static inline void pattern(uint8_t *d, size_t n, unsigned seed) { for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(seed * 31 + i * 7 + 1); }

// ---- states of one path: kind and symbolic attributes
enum { K_ABSENT, K_SMALL, K_BIG, K_LINK, K_DIR, K_EMPTY, K_NKINDS };
static inline void sym_attrs(int i, bool on) {
  VNode *n = vx_node[i];
  if (!on) return;
  n->uid = (uint32_t)sx_int(32, "uid");
  n->gid = (uint32_t)sx_int(32, "gid");
  sx_assume((n->uid != 0xffffffffu) & (n->gid != 0xffffffffu));  // no such owner exists; chown takes it for "keep"
  if (n->type == VT_LNK) return;
  n->mode = (uint32_t)sx_int(12, "mode");
  n->mtime = (int64_t)sx_int(64, "mtime");
  sx_assume((uint64_t)n->mtime - 1000 > 100);  // same size and time count as same content
}
static inline void mkkind(const char *p, int kind, unsigned seed, bool sym) {
  uint8_t d[64];
  pattern(d, sizeof d, seed);
  switch (kind) {
  case K_ABSENT: return;
  case K_EMPTY: vx_mkfile(p, "", 0, 0644, 10, 20, 1000 + seed); break;
  case K_SMALL: vx_mkfile(p, d, 7, 0644, 10, 20, 1000 + seed); break;
  case K_BIG: vx_mkfile(p, d, 30 + seed, 0600, 11, 20, 1000 + seed); break;
  case K_LINK: { char t[5] = {'t', 'g', (char)('a' + seed % 26), 0, 0}; vx_mklink(p, t, 10 + seed, 20); break; }
  case K_DIR: vx_mkdir_p(p, 0755, 12, 22, 1000 + seed); break;
  }
  sym_attrs(node(p), sym);
}
static inline void set_mtime(const char *p, int64_t t) { nodep(p)->mtime = t; }
static inline char *cat(char *buf, const char *a, const char *b) {
  size_t n = strlen(a), m = strlen(b);
  memcpy(buf, a, n); memcpy(buf + n, b, m + 1);
  return buf;
}
// stored files of the repository: inode of the k-th one, or -1
static inline int blob_in(int dir, int *k) {
  VNode *d = vx_node[dir];
  for (int i = 0; i < d->nent; i++) {
    VNode *x = vx_node[d->ent[i].ino];
    if (x->type == VT_DIR) { int r = blob_in(d->ent[i].ino, k); if (r >= 0) return r; }
    else if (dir != node("/r") && x->type == VT_REG && (*k)-- == 0) return d->ent[i].ino;
  }
  return -1;
}
static inline int blob(int k) { return blob_in(node("/r"), &k); }
