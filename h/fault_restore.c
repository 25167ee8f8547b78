// A system call of a restore or an integrity check fails at a symbolic point.
#include "lib.h"

static uint8_t A[32], B[64];
static void check_repo(void) {
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is untouched");
}
void harness(void) {
  fs_basic("[mirror]\n/s\n");
  pattern(A, 32, 1); pattern(B, 64, 2);
#ifdef SMALL
  vx_blksize = 16;
  vx_bufsize = 24;
#endif
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/a", A, sizeof A, 500);
  put_file("/s/b", B, sizeof B, 501);
  put_file("/s/i", "small", 5, 502);
  put_file("/s/e", "", 0, 502);
  vx_mklink("/s/l", "where", 3, 4);
  vx_mkdir_p("/s/d", 0700, 5, 6, 100);
  put_file("/s/d/x", "x", 1, 503);
  vx_mkdir_p("/s/ro", 0500, 5, 6, 100);
  set_mtime("/s/d", 100); set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup succeeds");
  vx_clone_tree("/s", "/x/old");
#ifndef INTEGRITY
  switch (sx_choose(3, "start")) {
  case 0: vx_wipe("/s"); break;
  case 1:  // altered attributes and content
    edit("/s/a", "other", 5, 600);
    nodep("/s/b")->uid = 77; nodep("/s/b")->mode = 0600; nodep("/s/i")->mtime = 55; nodep("/s/d")->mode = 0; nodep("/s/d")->uid = 9; nodep("/s/ro")->mode = 0755;
    nodep("/s/l")->uid = 4; set_mtime("/s", 3);
    break;
  case 2:  // other types
    vx_wipe("/s/a"); vx_mkdir_p("/s/a", 0755, 0, 0, 0); put_file("/s/a/q", "q", 1, 1);
    vx_wipe("/s/l"); put_file("/s/l", "q", 1, 1);
    vx_wipe("/s/d"); vx_mklink("/s/d", "nowhere", 0, 0);
    vx_wipe("/s/i"); vx_mklink("/s/i", "b", 0, 0);
    break;
  }
#endif
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  set_mtime("/r", 0);
#ifdef OOM
  vx_allocs = 0; vx_oom_at = (uint32_t)sx_int(32, "oom-at"); vx_oom_on = true;
#elif defined NOOUT
  vx_stdout_fails = true;
#else
  vx_fault_sticky = sx_choose(2, "sticky");
  vx_calls = 0; vx_fault_at = (uint32_t)sx_int(32, "fault-at"); vx_fault_on = true;
#endif
#ifdef INTEGRITY
  bool damaged = sx_choose(2, "damaged");
  if (damaged) {
    int i = blob((int)sx_choose(2, "which"));  // alter one byte of a stored file
    vx_node[i]->data[3] ^= 1;
    vx_wipe("/x/r"); vx_clone_tree("/r", "/x/r");
    set_mtime("/r", 0);
  }
  int rc = nb_integrity();
#else
  int rc = nb_restore(0, "/s");
#endif
  bool injected = vx_fault_hits > 0 || vx_oom_hit || vx_stdout_fails;
  vx_fault_on = false; vx_oom_on = false; vx_stdout_fails = false;
  sx_obs("rc", (uint64_t)rc);
  set_mtime("/r", 0);
  check_repo();
  if (rc != 0) { sx_assert(vx_errlen > 0, "a failure prints an error message"); }
#ifdef INTEGRITY
  if (damaged) sx_assert(rc != 0, "damage is never reported as healthy");
  if (damaged && !injected) sx_cover("damage found");
  if (!damaged && !injected) { sx_assert(rc == 0, "healthy"); sx_cover("healthy"); }
  if (injected && rc != 0) sx_cover("failure reported");
#else
  if (!injected) { sx_assert(rc == 0, "without a failure the restore succeeds"); sx_cover("no failure"); }
  if (rc == 0) { sx_assert(vx_tree_eq("/s", "/x/old"), "a restore reported as successful is complete"); if (injected) sx_cover("failure coped with"); }
  else sx_cover("failure reported");
  sx_assert(nb_restore(0, "/s") == 0, "the repeated restore succeeds");
  sx_assert(vx_tree_eq("/s", "/x/old"), "the repeated restore completes it");
  set_mtime("/r", 0);
  check_repo();
#endif
}
