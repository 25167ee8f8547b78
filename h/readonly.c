// Commands on a repository which lies on a read-only file system, compared
// with the same ones where it can be written to.
#include "lib.h"
static char out_[2][2000]; static uint32_t n_[2]; static int rc_[2];
enum { RESTORE, RESTORE_OLD, RESTORE_PART, INTEGRITY, GC, BACKUP, NCMD };
static bool deny_; static bool denied_;
static int changed_;
static void on_mutate(const char *what, const char *path) {
  (void)what;
  if (path[0] == '/' && path[1] == 'r' && strcmp(path, "/r/lockfile") && strcmp(path, "/r")) changed_++;
}
static void hook(const char *call, const char *path) {
  if (!deny_ || denied_ || strcmp(call, "open") || !path || strcmp(path, "/r/lockfile")) return;
  vx_fault_on = true; vx_fault_at = vx_calls; denied_ = true;
}
static int run(unsigned cmd) {
  switch (cmd) {
  case RESTORE: return nb_restore(0, "/s");
  case RESTORE_OLD: return nb_restore(1, NULL);
  case RESTORE_PART: return nb_restore(0, "/s/p");
  case INTEGRITY: return nb_integrity();
  case GC: return nb_gc();
  default: return nb_backup();
  }
}
static void keep(int i, int rc) { rc_[i] = rc; n_[i] = vx_outlen < 2000 ? vx_outlen : 2000; memcpy(out_[i], vx_out, n_[i]); }
static bool forked_;
void harness(void) {
  (void)forked_;
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  mkkind("/s/p", K_BIG, 1, false);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup");
  vx_now += 1000;
  vx_wipe("/s/p");
  static const int kinds[] = {K_BIG, K_SMALL, K_LINK, K_DIR};
  mkkind("/s/p", kinds[sx_choose(4, "kind")], 2, true);
  mkkind("/s/q", K_BIG, 3, false);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup");
  vx_wipe("/r/lockfile");
  unsigned cmd = sx_choose(NCMD, "command");
  bool damaged = cmd == INTEGRITY && sx_choose(2, "damaged");
  if (damaged) { int b = blob(0); vx_node[b]->data[3] ^= 1; }
  unsigned left = sx_choose(3, "left over");
  if (left == 1) put_file("/r/lockfile", "", 0, 10);
  if (left == 2) put_file("/r/tmp-file", "half", 4, 10);
  bool stray = cmd == GC && sx_choose(2, "stray file");
  if (stray) put_file("/r/stray", "x", 1, 10);
  vx_wipe("/s");
  unsigned over = sx_choose(2, "restored over");
  if (over) { vx_mkdir_p("/s", 0700, 1, 2, 100); put_file("/s/p", "other", 5, 8); set_mtime("/s", 100); }
  if (over) vx_clone_tree("/s", "/x/s0");
  vx_clone_tree("/r", "/x/r0");
  // where it can be written to
  keep(0, run(cmd));
  if (node("/s") >= 0) { vx_clone_tree("/s", "/x/rw"); vx_wipe("/s"); }
  vx_wipe("/r"); vx_clone_tree("/x/r0", "/r");
  if (over) vx_clone_tree("/x/s0", "/s");
  bool rofs = sx_choose(2, "read-only");
  vx_rofs = rofs; deny_ = !rofs;
  vx_hook = hook; vx_on_mutate = on_mutate;
  int rc = run(cmd);
  keep(1, rc);
  vx_hook = NULL; vx_on_mutate = NULL; vx_fault_on = false; vx_rofs = false;
  sx_assert(!changed_, "the repository is left alone");
  vx_wipe("/x/r1");
  if (rofs) sx_assert(vx_tree_eq("/r", "/x/r0"), "the repository is left as it was");
  if (!rofs || cmd == GC || cmd == BACKUP) {
    sx_assert(rc == 1 && vx_errlen > 0, rofs ? "what has to modify it ends with an error" : "a lock which can not be taken for another reason is an error");
    sx_assert(over ? vx_tree_eq("/s", "/x/s0") : node("/s") < 0, "and nothing is done");
    sx_cover(rofs ? "refused" : "no lock");
    return;
  }
  sx_assert(rc_[0] == rc_[1] && n_[0] == n_[1] && vx_bytes_differ(out_[0], out_[1], n_[0]) == 0, "the result is the same");
  sx_assert(node("/x/rw") < 0 ? node("/s") < 0 : vx_tree_eq("/s", "/x/rw"), "the same is restored");
  if (cmd < INTEGRITY) { sx_assert(rc == 0, "the restore succeeds"); sx_cover("restored"); }
  else { sx_assert((rc == 0) == !damaged, "damage is found"); sx_cover(damaged ? "damage found" : "healthy"); }
}
