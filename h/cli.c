// Command lines with symbolic arguments, and repository paths in all states.
#include "meta.h"
#include <stdio.h>
extern FILE *vx_stdin;
#ifdef THOROUGH
#define ALEN 4
#else
#define ALEN 3
#endif
static char a_[3][12];
static char *symarg(int i, const char *name) {
  sx_sym(a_[i], ALEN, name);
  a_[i][ALEN] = 0;
  return a_[i];
}
static char *text(int i) {
  static const char *t[] = {"gc", "integrity", "0", "1", "00", "gcc", "", "restore", "-h"};
  unsigned k = sx_choose(10, "argument");
  if (k == 9) return symarg(i, "text");
  memcpy(a_[i], t[k], strlen(t[k]) + 1);
  return a_[i];
}
static void times0(int i) {
  VNode *d = vx_node[i];
  d->mtime = 0;
  for (int k = 0; k < d->nent; k++) if (vx_node[d->ent[k].ino]->type == VT_DIR) times0(d->ent[k].ino);
}
void harness(void) {
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  mkkind("/s/p", K_BIG, 1, false);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup");
  mkkind("/s/q", K_SMALL, 2, false);
  set_mtime("/s", 101);
  vx_now += 1000;
  sx_assert(nb_backup() == 0, "backup");
  vx_wipe("/r/lockfile");
  vx_mklink("/l", "r", 0, 0);
  vx_mkdir_p("/empty", 0755, 0, 0, 5);
  vx_mkdir_p("/fresh", 0755, 0, 0, 5);
  put_file("/fresh/config", "[track]\n/s\n", 11, 5);
  vx_mkfifo_at("/fifo");
  static const char *repos[] = {"/r", "/r/", "r", "//r//", "/l", "/none", "/r/config", "", "/empty", "/fresh", "/r/config/x", "/fifo", "/r/.."};
  enum { OK = 5, NREPO = 13, EMPTY = 8, FRESH = 9, PARENT = 12 };
  unsigned argc = sx_choose(8, "arguments");
  unsigned ri = argc > 1 ? sx_choose(argc < 4 ? NREPO : 2, "repository") : 0;
  const char *argv[9] = {"nb", repos[ri], NULL};
  bool bad_repo = ri >= OK && ri != EMPTY && ri != FRESH && ri != PARENT;
  char *c = argc > 2 ? text(0) : NULL;
  if (c) argv[2] = c;
  const char *p = NULL;
  if (argc > 3) {
    static const char *t[] = {"/s", "/s/p", "/s/q/", "s", "/", "/s/none", "gc"};
    unsigned k = sx_choose(argc > 4 || (c[0] != 'g' && c == a_[0] && sx_is_sym((uint8_t)c[0])) ? 2 : 8, "path");
    argv[3] = p = k == 7 ? symarg(1, "path") : t[k];
  }
  for (unsigned i = 4; i < argc; i++) argv[i] = i % 2 ? "1" : "/s/p";
  vx_tty = ri == 0 && sx_choose(2, "terminal");
  // what has to happen
  bool changes = false, ok = false, backup = false, restore = false;
  if (argc < 2 || bad_repo) ok = false;
  else if (argc == 2) { ok = ri < OK || ri == FRESH; backup = ri == FRESH; }
  else if (ri >= OK) ok = false;
  else if (!strcmp(c, "gc") || !strcmp(c, "integrity")) ok = argc == 3;
  else {
    size_t n = strlen(c);
    bool digits = n > 0; uint64_t v = 0;
    for (size_t i = 0; i < n; i++) { if (c[i] < '0' || c[i] > '9') { digits = false; break; } v = v * 10 + (uint64_t)(c[i] - '0'); }
    char full[24] = "/";
    int path = 0;
    if (p) {
      strcpy(full + (p[0] != '/'), p);
      size_t m = strlen(full);
      while (m > 0 && full[m - 1] == '/') m--;
      full[m] = 0;
      path = !m ? 0 : !strcmp(full, "/s") ? 1 : !strcmp(full, "/s/p") ? 2 : !strcmp(full, "/s/q") ? 3 : 4;
    }
    // number 0: everything is as it was; 1: /s/q did not exist; from 2 on nothing did
    ok = digits && argc < 5 && (path == 0 || (path < 3 && v < 2) || (path == 3 && v < 1));
    restore = ok && v == 1 && path < 3;  // the parents are restored, too
  }
  int s0 = vx_clone_tree("/s", "/x/s"), r0 = vx_clone_tree("/r", "/x/r");
  (void)s0; (void)r0;
  vx_set_stdin("n\n", 2);
  int rc = vx_nbv((int)argc, argv);
  changes = backup || restore;
  if (changes) {
    sx_assert(rc == 1 && vx_out_has("(y/n)"), "what changes something asks first");
    sx_cover("asked");
  } else if (ok) {
    sx_assert(rc == 0 && vx_errlen == 0, "documented forms are accepted");
    sx_cover("accepted");
  } else {
    sx_assert(rc == 1 && vx_errlen > 0 && vx_err[vx_errlen - 1] == '\n', "wrong usage ends with an error");
    sx_assert(!vx_out_has("(y/n)"), "and asks nothing");
    sx_cover("refused");
  }
  sx_assert(vx_tree_eq("/s", "/x/s"), "nothing is modified");
  vx_wipe("/r/lockfile"); vx_wipe("/fresh/lockfile"); vx_wipe("/empty/lockfile"); vx_wipe("/lockfile");
  times0(node("/r")); times0(node("/x/r"));
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is not modified");
  sx_assert(vx_count("/fresh") == 1 && vx_count("/empty") == 0 && nodep("/l")->type == VT_LNK && nodep("/fifo")->type == VT_FIFO, "nothing else is modified");
}
