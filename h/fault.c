// A system call or a memory allocation of a backup fails at a symbolic point.
#include "lib.h"

static uint8_t A[32], B[32], C[40], D[36];
static void first_state(void) {
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/a", A, sizeof A, 500);
  put_file("/s/b", B, sizeof B, 501);
  put_file("/s/i", "small", 5, 502);
  vx_mklink("/s/l", "where", 3, 4);
  vx_mkdir_p("/s/d", 0700, 5, 6, 100);
  put_file("/s/d/x", "x", 1, 503);
  set_mtime("/s/d", 100); set_mtime("/s", 100);
}
static void second_state(void) {
  edit("/s/a", C, sizeof C, 600);
  vx_wipe("/s/b");
  put_file("/s/n", D, sizeof D, 601);
  edit("/s/i", "tiny", 4, 602);
  vx_wipe("/s/l"); vx_mklink("/s/l", "elsewhere", 3, 4);
  vx_mkdir_p("/s/e", 0750, 5, 6, 100);
  set_mtime("/s", 700);
}
#ifdef TRACK
#define CONF "[track]\n/s\n"
#else
#define CONF "[mirror]\n/s//.*\n\n[copy]\n/s\n\n[ignore]\nzzz$\n"
#endif

void harness(void) {
  fs_basic(CONF);
  pattern(A, 32, 1); pattern(B, 32, 2); pattern(C, 40, 3); pattern(D, 36, 4);
#ifdef SMALL
  vx_blksize = 16; vx_bufsize = 24;
#endif
  first_state();
  vx_clone_tree("/s", "/x/old");
#ifdef FIRST
  bool have_old = false;
  vx_clone_tree("/s", "/x/new");
#else
  bool have_old = true;
  sx_assert(nb_backup() == 0, "first backup succeeds");
  second_state();
  vx_clone_tree("/s", "/x/new");
  vx_mkfile("/r/stray", "junk", 4, 0644, 0, 0, 1);
#endif
  int rc;
  bool injected;
#ifdef OOM
  vx_allocs = 0;
  vx_oom_at = (uint32_t)sx_int(32, "oom-at");
  vx_oom_on = true;
  rc = nb_backup();
  injected = vx_oom_hit;
  vx_oom_on = false;
#else
  vx_fault_sticky = sx_choose(2, "sticky");
  vx_calls = 0;
  vx_fault_at = (uint32_t)sx_int(32, "fault-at");
  vx_fault_on = true;
  rc = nb_backup();
  injected = vx_fault_hits > 0;
  vx_fault_on = false;
#endif
  sx_obs("rc", (uint64_t)rc);
  if (!injected) { sx_assert(rc == 0, "without a failure the backup succeeds"); sx_cover("no failure"); }
  if (rc != 0) { sx_assert(vx_errlen > 0, "a failed backup prints an error message"); sx_cover("failure reported"); }
  else if (injected) sx_cover("failure coped with");
#ifndef OOM
  if (rc == 0 && injected) sx_assert(strcmp(vx_fault_name, "fsync") && strcmp(vx_fault_name, "fdatasync"), "what could not be flushed is reported");
#endif
  // what was backed up earlier, or the complete new backup
  bool have = node("/r/metadata") >= 0;
  sx_assert(have || (!have_old && rc != 0), "there is a backup");
  vx_clone_tree("/s", "/x/src");
  sx_assert(vx_tree_eq("/s", "/x/new"), "the saved files are untouched");
  if (have) {
    sx_assert(nb_integrity() == 0, "integrity holds after a failure");
    vx_wipe("/s");
    sx_assert(nb_restore(0, NULL) == 0, "the latest backup can be restored after a failure");
    bool is_new = vx_tree_eq("/s", "/x/new"), is_old = have_old && vx_tree_eq("/s", "/x/old");
    sx_assert(is_new || is_old, "the latest backup is the old or the new one");
    if (rc == 0) sx_assert(is_new, "a backup reported as successful is complete");
#ifdef TRACK
    if (is_new && have_old) {
      vx_wipe("/s");
      sx_assert(nb_restore(1, NULL) == 0 && vx_tree_eq("/s", "/x/old"), "the earlier backup can be restored after a failure");
    }
#endif
    vx_wipe("/s"); vx_clone_tree("/x/new", "/s");
  }
  sx_assert(nb_backup() == 0, "a later backup succeeds");
  vx_wipe("/s");
  sx_assert(nb_restore(0, NULL) == 0 && vx_tree_eq("/s", "/x/new"), "a later backup is complete");
  sx_assert(nb_integrity() == 0, "integrity holds after a later backup");
}
