// A backup with a configuration which is wrong somewhere: nothing happens.
#include "lib.h"
static const char *expr_[] = {"(", "[", "a{1", "a{2,1}", "\\", "[z-a]", "[[:foo:]]", "ok", "a|b", "^(x|y)+$", "[]x]"};
static const char *line_[] = {"[unknown]", "[]", "x", "/a/../b", "/.", "/s", "/s/", "[ copy]", "[copy] ", "[copy]\r"};
static int cfds_;
static void hook(const char *call, const char *path) { (void)call; if (path && !strncmp(path, "/s", 2)) cfds_++; }
void harness(void) {
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 5);
  mkkind("/s/p", K_BIG, 1, false);
  set_mtime("/s", 5);
  bool before = sx_choose(2, "backup before");
  if (before) sx_assert(nb_backup() == 0, "the first backup succeeds");
  unsigned pad = sx_choose(4, "lines before"), where = sx_choose(4, "kind");
  char conf[120], want[60];
  conf[0] = 0;
  for (unsigned i = 0; i < pad; i++) strcat(conf, i == 1 ? "\n" : i == 0 ? "# (\n" : " \t\n");
  int line = (int)pad + 2; bool bad = true;
  const char *x = NULL;
  if (where < 3) {
    static const char *sec[] = {"[copy]\n", "[ignore]\n", "[summarize]\n"};
    x = expr_[sx_choose(11, "expression")];
    strcat(conf, sec[where]);
    if (where == 0) strcat(conf, "/s//");
    strcat(conf, x);
    strcat(conf, "\n[mirror]\n/s\n");
    int id = sx_host_regcomp(x, 1 | 8);  // extended, without positions
    bad = id < 0;
    size_t n = strlen(x);
    if (where && x[0] == '[' && x[n - 1] == ']' ) { bad = true; x = "invalid policy"; }  // a line of this form is always a section
  } else {
    strcat(conf, "[copy]\n/s\n");
    unsigned k = sx_choose(10, "line");
    strcat(conf, line_[k]);
    if (sx_choose(2, "more")) strcat(conf, "\n/t\n[mirror]\n/s\n");
    line++;
  }
  set_config(conf);
  edit("/s/p", "changed", 7, 99);
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_hook = hook;
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  vx_hook = NULL;
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone");
  if (!bad) { sx_assert(cfds_ > 0 && vx_out_has("/s"), "a good configuration is worked with"); sx_cover("good"); return; }
  sx_assert(rc == 1 && vx_outlen == 0, "it ends with an error");
  sx_assert(cfds_ == 0, "before anything is looked at");
  cat(want, "config: line ", "");
  int l = (int)strlen(want);
  want[l] = (char)('0' + line); want[l + 1] = ':'; want[l + 2] = ' '; want[l + 3] = 0;
  sx_assert(vx_err_has(want), "the error names the line");
  if (x) sx_assert(vx_err_has(x), "and the expression");
  sx_cover(x ? "bad expression" : "bad line");
}
