// A saved path in whose place there is something of any other type, restored:
// it is as it was saved, and what links lead to is untouched.
#include "lib.h"
static void attrs(const char *p) { sym_attrs(node(p), true); }
static void outside(void) {
  vx_mkdir_p("/o", 0755, 7, 7, 50);
  put_file("/o/t", "target", 6, 51);
  attrs("/o/t");
  vx_mkdir_p("/o/dir", 0755, 7, 7, 52);
  put_file("/o/dir/f", "inner", 5, 53);
  put_file("/o/dir/c", "inner", 5, 53);
  put_file("/o/dir/p", "inner", 5, 53);
  set_mtime("/o/dir", 52);
  set_mtime("/o", 50);
}
static void other(const char *p, unsigned how) {
  char c[30];
  switch (how) {
  case 0: put_file(p, "xyz", 3, 5); sx_cover("file"); break;
  case 1: vx_mklink(p, "/o/t", 1, 1); sx_cover("link to a file"); break;
  case 2: vx_mklink(p, "../../o/none", 1, 1); sx_cover("dangling link"); break;
  case 3: vx_mklink(p, "p", 1, 1); sx_cover("link to itself"); break;
  case 4: vx_mkodd(p, sx_choose(4, "odd")); sx_cover("fifo"); break;
  case 5: vx_mklink(p, "/o/dir", 1, 1); sx_cover("link to a directory"); break;
  case 6: vx_mkdir_p(p, 0700, 3, 3, 3); sx_cover("empty directory"); break;
  case 7:
    vx_mkdir_p(p, 0700, 3, 3, 3);
    vx_mklink(cat(c, p, "/l"), "/o/dir", 1, 1);
    vx_mklink(cat(c, p, "/t"), "/o/t", 1, 1);
    vx_mkdir_p(cat(c, p, "/c"), 0, 3, 3, 3);
    vx_mklink(cat(c, p, "/c/l"), "../../..", 1, 1);
    put_file(cat(c, p, "/f"), "f", 1, 1);
    vx_mkfifo_at(cat(c, p, "/x"));
    sx_cover("nested directory");
    break;
  }
}
void harness(void) {
  static const char *conf[] = {"[copy]\n/s\n", "[track]\n/s/q\n", "[mirror]\n/s/q/p\n"};
  unsigned cf = sx_choose(3, "configuration");
  fs_basic(conf[cf]);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkdir_p("/s/q", 0700, 1, 2, 100);
  unsigned kind = sx_choose(6, "saved");
  static const int kinds[] = {K_SMALL, K_BIG, K_EMPTY, K_LINK, K_DIR, K_DIR};
  mkkind("/s/q/p", kinds[kind], 1, true);
  VNode *n = nodep("/s/q/p");
  if (n->type == VT_REG && n->len) sx_sym(n->data, 1, "content");
  if (kind == 5) {
    int64_t t = n->mtime;
    mkkind("/s/q/p/f", K_BIG, 2, false);
    mkkind("/s/q/p/c", K_DIR, 3, false);
    mkkind("/s/q/p/c/f", K_SMALL, 4, false);
    set_mtime("/s/q/p/c", 1003);
    set_mtime("/s/q/p", t);
  }
  set_mtime("/s/q", 100); set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  outside();
  vx_clone_tree("/o", "/x/o");
  vx_now += 1000;
  const char *where[] = {"/s/q/p", "/s/q", "/s"};
  unsigned at = sx_choose(3, "replaced");
  unsigned how = sx_choose(8, "by");
  // links to directories in the place of directories are followed
  if (how == 5 && (at > 0 || kind >= 4)) sx_assume(0);
  if (how >= 6 && (at > 0 || kind >= 4)) sx_assume(0);
  int t0 = nodep(where[at])->type;
  vx_wipe(where[at]);
  other(where[at], how);
  VNode *m = nodep(where[at]);
  if (m->type == VT_REG) { attrs(where[at]); if (m->len) sx_sym(m->data, m->len, "other-content"); }
  if (t0 == VT_REG && m->type == VT_REG) sx_assume(m->len != vx_node[node("/x/s/q/p")]->len || m->mtime != nodep("/x/s/q/p")->mtime);
  const char *req[] = {"/s/q/p", "/s/q", "/s", NULL};
  unsigned r = sx_choose(4, "request");
  sx_assert(nb_restore(0, req[r]) == 0, "the restore succeeds");
  sx_assert(vx_tree_eq("/x/o", "/o"), "what links lead to is untouched");
  sx_assert(node("/s/q/p") >= 0 && vx_tree_eq("/s/q/p", "/x/s/q/p"), "the path is back as it was saved");
  // parents which have no policy of their own are only re-created
  if (cf == 2) { set_mtime("/s/q", 100); }
  if (cf >= 1) { set_mtime("/s", 100); }
  sx_assert(vx_tree_eq("/s", "/x/s"), "and so are the directories above it");
}
