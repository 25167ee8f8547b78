// Restore requests with symbolic number and path texts, confirmed: those which
// can not be fulfilled fail and change nothing.
#include "meta.h"
static char num_[32], path_arg_[16];
static void prepare(void) {
  fs_basic("[track]\n/s/t\n[copy]\n/s/c\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkdir_p("/s/t", 0755, 1, 2, 100);
  vx_mkdir_p("/s/c", 0755, 1, 2, 100);
  put_file("/s/t/b", "old", 3, 200);
  put_file("/s/c/f", "copied", 6, 200);
  set_mtime("/s/t", 100); set_mtime("/s/c", 100); set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup");
  vx_now += 1000;
  vx_wipe("/s/t/b");
  put_file("/s/t/a", "new", 3, 200);
  vx_mklink("/s/t/l", "a", 1, 1);
  set_mtime("/s/t", 100);
  sx_assert(nb_backup() == 0, "backup");
  vx_now += 1000;
  // what a restore would change
  vx_wipe("/s/t/a"); vx_wipe("/s/c/f");
  put_file("/s/t/n", "unsaved", 7, 5);
  put_file("/s/n", "unsaved", 7, 5);
  set_mtime("/s/t", 101); set_mtime("/s/c", 101); set_mtime("/s", 101);
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
}
// existed in the newest (1), the older (2) backup; independent of the number (4)
static int known(const char *full) {
  static const struct { const char *p; int k; } t[] = {{"", 4}, {"/s", 4}, {"/s/t", 3}, {"/s/t/a", 1}, {"/s/t/l", 1}, {"/s/t/b", 2}, {"/s/c", 4}, {"/s/c/f", 4}};
  for (int i = 0; i < 8; i++) if (!strcmp(full, t[i].p)) return t[i].k;
  return 0;
}
void harness(void) {
  prepare();
  bool digits = true, toolarge = false;
  uint64_t v = 0;
#ifdef NUMBERS
  static const char *pre[] = {"", "0", "1844674407370955161", "922337203685477580", "000000000000000000000", "99999999999999999999", "-", "+1", "1 ", "0x", "429496729", "25", "6553"};
  strcpy(num_, pre[sx_choose(13, "prefix")]);
  size_t n = strlen(num_);
#ifdef THOROUGH
  size_t k = sx_choose(4, "more");
#else
  size_t k = sx_choose(3, "more");
#endif
  if (k) sx_sym(num_ + n, k, "number");
  num_[n + k] = 0;
  n = strlen(num_);
  if (!strcmp(num_, "gc")) sx_assume(0);  // a command
  if (n == 0) digits = false;
  for (size_t i = 0; i < n; i++) {
    if (num_[i] < '0' || num_[i] > '9') { digits = false; break; }
    unsigned d = (unsigned)(num_[i] - '0');
    if (v > ((uint64_t)INT64_MAX - d) / 10) toolarge = true;
    v = v * 10 + d;
  }
  static const char *paths[] = {NULL, "/s/t", "/s/t/a", "/s/t/b", "/s/c/f"};
  const char *p = paths[sx_choose(5, "path")];
#else
  v = sx_choose(4, "number");
  num_[0] = (char)('0' + v);
  static const char *pre[] = {"", "/s/t/", "/s/c", "/s/", "/", "t", "../s/"};
  unsigned f = sx_choose(7, "start");
  strcpy(path_arg_, pre[f]);
  size_t n = strlen(path_arg_);
#ifdef THOROUGH
  size_t k = sx_choose(f == 0 ? 5 : 4, "more");
#else
  size_t k = sx_choose(f == 0 ? 4 : 3, "more");
#endif
  if (k) sx_sym(path_arg_ + n, k, "path");
  path_arg_[n + k] = 0;
  const char *p = path_arg_;
#endif
  const char *cwd = "/";
  if (p && p[0] != '/') { static const char *cw[] = {"/", "/s", "/s/t"}; cwd = cw[sx_choose(3, "directory")]; }
  vx_set_cwd(cwd);
  char full[40] = "";
  if (p) {
    if (p[0] != '/') { if (cwd[1]) strcpy(full, cwd); strcat(full, "/"); }
    strcat(full, p);
    size_t m = strlen(full);
    while (m > 0 && full[m - 1] == '/') m--;
    full[m] = 0;
  }
  int e = known(full);
  bool ok = digits && !toolarge && ((e & 4) || ((e & 1) && v == 0) || ((e & 2) && v == 1));
  vx_clone_tree("/s", "/x/s");
  vx_clone_tree("/r", "/x/r");
  const char *argv[] = {"nb", "/r", num_, p, NULL};
  vx_set_stdin("y\n", 2);
  int rc = vx_nbv(p ? 4 : 3, argv);
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone");
  if (!ok) {
    sx_assert(rc == 1 && vx_errlen > 0, "an impossible request fails with an error");
    sx_assert(vx_tree_eq("/s", "/x/s"), "an impossible request changes nothing");
    sx_cover(!digits ? "not a number" : toolarge ? "number too large" : e ? "did not exist then" : "never saved");
    return;
  }
  sx_assert(rc == 0 && vx_errlen == 0, "a possible request succeeds");
  sx_cover("restored");
  sx_assert((node("/s/t/a") >= 0) == (v == 0 && (!full[0] || !strcmp(full, "/s") || !strcmp(full, "/s/t") || !strcmp(full, "/s/t/a"))), "what is requested at its number is restored");
  sx_assert((node("/s/t/b") >= 0) == (v == 1 && (!full[0] || !strcmp(full, "/s") || !strcmp(full, "/s/t") || !strcmp(full, "/s/t/b"))), "what is requested at its number is restored");
  sx_assert((node("/s/c/f") >= 0) == (!full[0] || !strcmp(full, "/s") || !strcmp(full, "/s/c") || !strcmp(full, "/s/c/f")), "what is requested is restored");
  if (v > 1) { set_mtime("/s/t", 101); set_mtime("/x/s/t", 101); sx_assert(vx_tree_eq("/s/t", "/x/s/t"), "a number no backup has changes no tracked path"); sx_cover("number of no backup"); }
  sx_assert(vx_tree_eq("/s/n", "/x/s/n") && vx_tree_eq("/s/t/n", "/x/s/t/n"), "what is not saved is left alone");
}
