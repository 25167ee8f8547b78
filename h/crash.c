// A backup is cut short at a symbolic point, by the process dying or by the
// machine losing power with a symbolic subset of the unsynced changes kept.
#include "lib.h"
#ifndef POL
#define POL "mirror"
#endif

static uint8_t A[32], B[32], C[40], D[36];

static void second_state(void) {  // one changed, one removed, one new
  edit("/s/a", C, sizeof C, 600);
  vx_wipe("/s/b");
  put_file("/s/n", D, sizeof D, 601);
  edit("/s/i", "tiny", 4, 602);
  nodep("/s")->mtime = 700;
#ifdef GONE
  if (sx_choose(2, "gone")) vx_wipe("/g/p/f"); else vx_wipe("/g/p");
#endif
}
// runs a command which may be cut short, and tells whether it was
static bool interrupted_;
static int attempt(const char *cmd) {
  vx_durable = true;
  vx_sync_all();
  unsigned power = sx_choose(2, "power-loss");
  vx_ops = 0;
  vx_crash_at = (uint32_t)sx_int(32, "crash-at");
  vx_crash_on = true;
  int rc = vx_nb("y\n", "/r", cmd, NULL, NULL);
  vx_crash_on = false;
  if (rc == VX_CRASHED) { if (power) { vx_power_loss(); sx_cover("power loss"); } else sx_cover("process killed"); }
  else { sx_assert(rc == 0, "without an interruption it succeeds"); if (power) { vx_power_loss(); sx_cover("power loss after success"); } else sx_cover("finished"); }
  vx_durable = false;
  interrupted_ |= rc == VX_CRASHED;
  return rc;
}

void harness(void) {
#ifdef GONE
  fs_basic("[" POL "]\n/s\n[" GONE "]\n/g/p\n");
  vx_mkdir_p("/g", 0755, 1, 2, 100);
  vx_mkdir_p("/g/p", 0755, 1, 2, 100);
  put_file("/g/p/f", "stored in a file of its own", 27, 300);
#else
  fs_basic("[" POL "]\n/s\n");
#endif
  pattern(A, 32, 1); pattern(B, 32, 2); pattern(C, 40, 3); pattern(D, 36, 4);
  vx_hash_layout = sx_choose(4, "layout");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/a", A, sizeof A, 500);
  put_file("/s/b", B, sizeof B, 501);
  put_file("/s/i", "small", 5, 502);
#ifdef FIRST
  vx_clone_tree("/s", "/x/new");
  int rc = attempt(NULL);
  bool have = node("/r/metadata") >= 0;
  sx_assert(have || rc != 0, "a backup which reported success is kept");
  if (!have) { sx_cover("no backup"); goto next; }
  sx_cover("new state");
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0 && vx_tree_eq("/s", "/x/new"), "the backup can be restored after an interruption");
  sx_assert(nb_integrity() == 0, "integrity holds after an interruption");
next:
#else
  sx_assert(nb_backup() == 0, "first backup succeeds");
  vx_clone_tree("/s", "/x/old");
  second_state();
  vx_clone_tree("/s", "/x/new");
#ifdef COLLECT
  sx_assert(nb_backup() == 0, "second backup succeeds");
  put_file("/r/stray", "junk", 4, 9);
  vx_mkdir_p("/r/z", 0755, 0, 0, 9); vx_mkdir_p("/r/z/bc", 0755, 0, 0, 9);
  put_file("/r/z/bc/stray", "junk", 4, 9);
  int rc = attempt("gc");
#else
  int rc = attempt(NULL);
#ifdef TWICE
  sx_assume(rc == VX_CRASHED);
  rc = attempt(NULL);
#endif
#endif
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0, "the latest backup can be restored after an interruption");
  bool is_new = vx_tree_eq("/s", "/x/new"), is_old = vx_tree_eq("/s", "/x/old");
  sx_assert(is_new || is_old, "the latest backup is the old or the new one");
#ifdef COLLECT
  sx_assert(is_new, "a collection leaves the latest backup");
#endif
  if (rc == 0) sx_assert(is_new, "a backup which reported success is kept");
  if (is_new) sx_cover("new state"); else sx_cover("old state");
  sx_assert(nb_integrity() == 0, "integrity holds after an interruption");
  if (is_new) {
    vx_wipe("/s");
    sx_assert(nb_restore(1, "/s") == 0, "the earlier backup can be restored");
    if (POL[0] == 't') sx_assert(vx_tree_eq("/s", "/x/old"), "the earlier backup is as it was saved");
  }
#endif
  vx_wipe("/s");
  vx_clone_tree("/x/new", "/s");
#ifdef COLLECT
  set_mtime("/s", 800);
  vx_clone_tree("/s", "/x/last");
#endif
  sx_assert(nb_backup() == 0, "the next backup succeeds");
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0, "the next backup can be restored");
#ifdef COLLECT
  sx_assert(vx_tree_eq("/s", "/x/last"), "the next backup is complete");
#else
  sx_assert(vx_tree_eq("/s", "/x/new"), "the next backup is complete");
#endif
}
