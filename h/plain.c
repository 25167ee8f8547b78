// A user who is not root backs up and restores what belongs to them, with
// whatever permission bits let them read it.
#include "lib.h"
#define ME 7
#define MINE 8
static void mine(const char *p) { nodep(p)->uid = ME; nodep(p)->gid = MINE; }
static void mode(const char *p, uint32_t needed) {
  VNode *n = nodep(p);
  n->mode = (uint32_t)sx_int(12, "mode");
  sx_assume((n->mode & needed) == needed);
}
void harness(void) {
  fs_basic("[copy]\n/s\n");
  vx_user = ME; vx_group = MINE;
  mine("/"); mine("/r"); mine("/r/config");
  vx_mkdir_p("/s", 0755, ME, MINE, 100);
  vx_mkdir_p("/s/d", 0755, ME, MINE, 200);
  put_file("/s/d/f", "a file which is stored on its own", 33, 300);
  put_file("/s/d/t", "tiny", 4, 301);
  vx_mklink("/s/d/l", "target", ME, MINE);
  vx_mkdir_p("/s/d/e", 0755, ME, MINE, 302);
  put_file("/s/d/e/g", "", 0, 303);
  mine("/s/d/f"); mine("/s/d/t"); mine("/s/d/e/g");
  nodep("/s/d/f")->gid = nodep("/s/d/t")->gid = MINE;
#ifdef THOROUGH
  mode("/s/d", 0500); mode("/s/d/e", 0500); mode("/s/d/f", 0400); mode("/s/d/t", 0400);
#else
  switch (sx_choose(4, "any mode")) {
  case 0: mode("/s/d", 0500); break;
  case 1: mode("/s/d/e", 0500); break;
  case 2: mode("/s/d/f", 0400); mode("/s/d/t", 0400); break;
  case 3: nodep("/s/d/e")->mode = 0555; mode("/s/d", 0500); break;
  }
#endif
  set_mtime("/s/d/e", 302); set_mtime("/s/d", 200); set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  unsigned how = sx_choose(7, "then");
  switch (how) {
  case 0: vx_wipe("/s"); break;
  case 1: vx_wipe("/s/d"); break;
  case 2: nodep("/s/d")->mode = 0700; vx_wipe("/s/d/f"); break;
  case 3: nodep("/s/d/e")->mode = 0777; vx_wipe("/s/d/e/g"); nodep("/s/d/t")->mode = 0600; edit("/s/d/t", "else", 4, 500); break;
  case 4: vx_wipe("/s/d"); put_file("/s/d", "a file", 6, 5); mine("/s/d"); break;
  case 5: nodep("/s/d")->mode = 0500; break;
  case 6: edit("/s/d/f", "another content in the same file", 32, 500); break;
  }
  if (how == 0 && sx_choose(2, "part")) {
    sx_assert(nb_restore(0, "/s/d/e/g") == 0, "a part can be restored");
    sx_assert(vx_tree_eq("/s/d/e/g", "/x/s/d/e/g"), "and is as it was");
    sx_assert(nodep("/s/d")->mode == nodep("/x/s/d")->mode && nodep("/s/d/e")->mode == nodep("/x/s/d/e")->mode, "so are the directories above it");
    sx_cover("part");
    return;
  }
  sx_assert(nb_restore(0, "/s") == 0, "everything can be restored");
  sx_assert(vx_tree_eq("/s", "/x/s"), "everything is as it was");
  sx_cover("whole");
}
