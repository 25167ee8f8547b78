// Histories of backups over one path p (with a child when it is a directory)
// below a directory with policy POL; every backup number is restored.
#include "lib.h"
#ifndef STEPS
#define STEPS 3
#endif
#ifndef POL
#define POL "track"
#define P_TRACK 1
#endif
#ifndef SYMSTEPS
#define SYMSTEPS 1
#endif

static const char *exp_[] = {"/x/0", "/x/1", "/x/2", "/x/3", "/x/4"};
static int nb_count;

static void child(unsigned seed) {
  char b[32];
  if (node("/s/p") >= 0 && nodep("/s/p")->type == VT_DIR) {
    int64_t t = nodep("/s/p")->mtime;
    unsigned c = sx_choose(2, "child");
    if (c) mkkind(cat(b, "/s/p", "/c"), K_BIG, seed, false);
    nodep("/s/p")->mtime = t;
  }
}
#ifdef P_COPY
static void merge(const char *to, const char *from) {
  // the copy policy: what is gone stays as it was last seen
  int f = node(from), t = node(to);
  if (f < 0) return;
  if (t < 0) { vx_clone_tree(from, to); return; }
  if (vx_node[f]->type == VT_DIR && vx_node[t]->type == VT_DIR) {
    vx_node[t]->uid = vx_node[f]->uid; vx_node[t]->gid = vx_node[f]->gid; vx_node[t]->mode = vx_node[f]->mode;
    char a[32], b[32];
    merge(cat(a, to, "/c"), cat(b, from, "/c"));
    vx_node[t]->mtime = vx_node[f]->mtime;
  } else { vx_wipe(to); vx_clone_tree(from, to); }
}
#endif

void harness(void) {
#ifdef NEAR
  vx_hash_near = (int)sx_choose(20, "hashes differ at");
#endif
  fs_basic("[" POL "]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/fix", "constant content, stored in a file", 34, 400);
  set_mtime("/s", 100);
  int n = 0, prev = -1;
  bool changed = true;
  for (int i = 0; i < STEPS; i++) {
    int k = (int)sx_choose(K_NKINDS, "kind");
    if (i) {
      vx_wipe("/s/p");
      vx_now += 1000;
    }
    mkkind("/s/p", k, (unsigned)i + 1, i >= STEPS - SYMSTEPS);
    child((unsigned)i + 1);
    set_mtime("/s", 100 + i);
    vx_clone_tree("/s", exp_[n]);
#ifdef P_COPY
    if (i) {
      vx_wipe("/x/m"); vx_clone_tree(exp_[n - 1], "/x/m");
      merge("/x/m/p", "/s/p");
      vx_wipe(exp_[n]); vx_clone_tree("/x/m", exp_[n]);
      set_mtime(exp_[n], 100 + i);
    }
#endif
    n++;
    sx_assert(nb_backup() == 0, "backup succeeds");
    prev = k;
  }
  (void)prev; (void)changed; (void)nb_count;
#ifndef P_COPY  // which announces what is gone every time
  nothing_left();
#endif
  unsigned id = sx_choose((unsigned)n, "restored-id");
#ifdef P_TRACK
  const char *want = exp_[n - 1 - (int)id];
#else
  const char *want = exp_[n - 1];
#endif
  if (sx_choose(2, "wiped")) vx_wipe("/s");
#ifndef P_TRACK
  // what is not part of the backup stays
  else if (node("/s/p") < 0 || 1) { }
#endif
  bool wiped = node("/s") < 0;
  sx_assert(nb_restore((int)id, "/s") == 0, "every backup number can be restored");
  if (wiped) { sx_assert(vx_tree_eq("/s", want), "the restored tree is the one saved"); sx_cover("restored into nothing"); }
  else {
    // extra paths which were not part of that backup are left alone
    char a[32];
    int wp = node(cat(a, want, "/p")), sp = node("/s/p");
    if (wp < 0) sx_cover("path outside of that backup");
    else if (vx_node[wp]->type == VT_DIR && node(cat(a, want, "/p/c")) < 0) { sx_assert(sp >= 0 && vx_node[sp]->type == VT_DIR, "the directory is back"); }
    else { sx_assert(vx_tree_eq("/s/p", cat(a, want, "/p")), "the path is back as it was"); sx_cover("restored over another state"); }
  }
  sx_assert(nb_integrity() == 0, "integrity holds");
}
