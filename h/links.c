// Paths which share a file with others (hard links): a restore changes what it
// was asked for, and the others keep what they have.
#include "lib.h"
static void share(const char *a, const char *b) {  // b becomes another name of a
  char up[24]; strcpy(up, b); *strrchr(up, '/') = 0;
  int64_t t = nodep(up)->mtime;
  vx_wipe(b);
  vx_link_at(a, b);
  nodep(up)->mtime = t;
}
void harness(void) {
  static const int kinds[] = {K_SMALL, K_BIG, K_EMPTY};
  static const char *conf[] = {"[copy]\n/s\n", "[track]\n/s\n", "[mirror]\n/s/p\n/s/q\n"};
  unsigned c = sx_choose(3, "configuration");
  fs_basic(conf[c]);
  vx_mkdir_p("/s", 0755, 1, 2, 100); vx_mkdir_p("/o", 0755, 1, 2, 100);
  mkkind("/s/p", kinds[sx_choose(3, "p")], 1, true);
  mkkind("/s/q", kinds[sx_choose(3, "q")], 2, false);
  bool together = sx_choose(2, "saved while shared");
  if (together) share("/s/p", "/s/q");
  set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  // afterwards: who shares with whom, and what is in it
  unsigned how = sx_choose(3, "shared");
  if (how == 0) { put_file("/o/h", "", 0, 7); share("/s/p", "/o/h"); if (together) { vx_wipe("/s/q"); vx_clone_tree("/x/s/q", "/s/q"); } }
  if (how == 1 && !together) share("/s/p", "/s/q");
  if (how == 2 && !together) share("/s/q", "/s/p");
  switch (sx_choose(3, "altered")) {
  case 1: nodep("/s/p")->mode = (uint32_t)sx_int(12, "mode"); nodep("/s/p")->uid = 4000; break;
  case 2: { uint8_t d[3]; sx_sym(d, 3, "content"); edit("/s/p", d, 3, 5); break; }
  }
  set_mtime("/s", 100);
  if (how == 0) vx_clone_tree("/o", "/x/o");
  bool all = sx_choose(2, "all");

  vx_clone_tree("/s/q", "/x/q");
  sx_assert(nb_restore(0, all ? "/s" : "/s/p") == 0, "the restore succeeds");
  sx_assert(vx_tree_eq("/s/p", "/x/s/p"), "what was asked for is back");
  if (how == 0) { sx_assert(vx_tree_eq("/o", "/x/o"), "other names of the file keep what they have"); sx_cover("outside"); }
  if (c == 2) set_mtime("/s", 100);
  if (all) { sx_assert(vx_tree_eq("/s", "/x/s"), "everything is back"); sx_cover("all"); }
  else { sx_assert(vx_tree_eq("/s/q", "/x/q"), "what was not asked for keeps what it has"); sx_cover("one"); }

}
