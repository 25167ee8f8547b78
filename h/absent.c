// Configured paths none of which exists: the second of two equal backups has
// nothing to do.
#include "lib.h"
void harness(void) {
  static const char *conf[] = {"[copy]\n/s/none\n", "[track]\n/s//no.e\n", "[mirror]\n/s/none/deeper\n", "[copy]\n/none\n", "[copy]\n/s/f\n/t/none\n"};
  fs_basic(conf[sx_choose(5, "configuration")]);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  if (sx_choose(2, "other")) vx_mkdir_p("/t", 0755, 1, 2, 100);
  if (sx_choose(2, "something")) { put_file("/s/f", "abc", 3, 500); set_mtime("/s", 100); }
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  vx_now += 1000;
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  int rc = vx_nb("", "/r", NULL, NULL, NULL);
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone");
  sx_cover("second backup");
  sx_assert(rc == 0, "a backup of paths which do not exist has nothing to do the second time");
}
