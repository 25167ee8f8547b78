// Many paths, and few files which may be open at the same time.
#include "lib.h"
#ifdef THOROUGH
#define N 20
#else
#define N 12
#endif
static char nm_[3 * N][12]; static int nn_;
static const char *name(const char *up, int i) { char *r = nm_[nn_++ % (3 * N)]; cat(r, up, "/a"); r[strlen(up) + 1] = (char)('a' + i); return r; }
enum { DUP = K_NKINDS, TREE };
static const int kinds[] = {K_SMALL, K_BIG, K_EMPTY, K_LINK, K_DIR, DUP, TREE};
static void make(int i, int kind) {
  const char *p = name("/s", i);
  if (kind == DUP) { mkkind(p, K_BIG, 1, false); return; }
  if (kind == TREE) { mkkind(p, K_DIR, (unsigned)i, false); mkkind(name(p, 0), K_BIG, (unsigned)i, false); mkkind(name(p, 1), K_LINK, 2, false); set_mtime(p, 1000); return; }
  mkkind(p, kind, (unsigned)i, false);
}
static uint32_t mode_, uid_;
static void change(int i, int how, int other) {
  const char *p = name("/s", i);
  VNode *n = nodep(p);
  switch (how) {
  case 1: if (n->type == VT_REG && n->len) { n->data[0] ^= 1; n->mtime++; } else n->uid++; break;
  case 2: if (n->type == VT_REG) { n->mtime++; n->mode = mode_; } n->uid = uid_; break;
  case 3: vx_wipe(p); break;
  case 4: vx_wipe(p); make(i, other); break;
  }
}
void harness(void) {
  static const char *conf[] = {"[copy]\n/s\n", "[mirror]\n/s\n", "[track]\n/s\n"};
  unsigned policy = sx_choose(3, "policy");
  fs_basic(conf[policy]);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  int k1 = kinds[sx_choose(7, "kind")], k2 = kinds[sx_choose(7, "other kind")];
  for (int i = 0; i < N; i++) make(i, k1);
  set_mtime("/s", 100);
  vx_fd_limit = 3 + 8;
  sx_assert(nb_backup() == 0, "any number of files can be saved");
  mode_ = (uint32_t)sx_int(12, "mode"); uid_ = (uint32_t)sx_int(16, "uid");
  unsigned how = sx_choose(5, "change");
  if (how != 4) sx_assume(k2 == kinds[0]);
  for (int i = 0; i < N; i++) change(i, (int)how, k2);
  set_mtime("/s", 200);
  vx_clone_tree("/s", "/x/s");
  vx_now += 100;
  sx_assert(nb_backup() == 0, "any number of files can be saved again");
  sx_assert(nb_integrity() == 0, "any number of files can be checked");
  vx_mkdir_p("/r/z", 0755, 0, 0, 1);
  for (int i = 0; i < N; i++) put_file(name("/r/z", i), "stray", 5, 1);
  sx_assert(nb_gc() == 0 && node("/r/z") < 0, "any number of items can be collected");
  vx_now += 100;
  if (sx_choose(2, "over")) { for (int i = 0; i < N; i++) if (nodep(name("/s", i))) change(i, k1 == K_SMALL || k1 == K_BIG || k1 == DUP ? 1 : 3, 0); sx_cover("altered"); }
  else vx_wipe("/s");
  sx_assert(nb_restore(0, NULL) == 0 && ((policy == 0 && (how == 3 || k1 == TREE)) || vx_tree_eq("/s", "/x/s")), "any number of files can be restored");
  sx_cover("all done");
}
