// A restore of a requested path over an altered tree: what is requested is
// back, everything else is as it was, nothing is written through links, and
// what changes is announced.
#include "lib.h"
static const char *all_[] = {"/s", "/s/d", "/s/d/f", "/s/d/g", "/s/d2", "/s/e", "/s/n", "/s/d/n", "/o", "/o/t", "/o/dir", "/o/dir/f"};
#define NALL 12
static char touched_[40][24]; static int ntouched_;
static void on_mutate(const char *what, const char *path) {
  (void)what;
  if (path[0] != '/' || (path[1] != 's' && path[1] != 'o') || strlen(path) > 20) return;
  if (ntouched_ < 40) strcpy(touched_[ntouched_++], path);
}
static bool touched(const char *p) { for (int i = 0; i < ntouched_; i++) if (!strcmp(touched_[i], p)) return true; return false; }
static char jb_[16][40]; static int jn_;
static const char *join(const char *a, const char *b) { char *r = jb_[jn_++ % 16]; cat(r, a, b); return r; }
// same state of the path itself, not of what is below
static bool same1(const char *a, const char *b) {
  VNode *x = nodep(a), *y = nodep(b);
  if (!x || !y) return x == y;
  if (x->type != y->type) return false;
  if (x->type != VT_DIR) return vx_tree_eq(a, b);
  return sx_conc((x->uid == y->uid) & (x->gid == y->gid) & (x->mode == y->mode) & (x->mtime == y->mtime));
}
static void copy1(const char *a, const char *e) {  // the path itself
  VNode *x = nodep(a);
  if (x->type == VT_DIR) vx_mkdir_p(e, x->mode, x->uid, x->gid, x->mtime);
  else vx_clone_tree(a, e);
}
static bool isdir(const char *p) { return node(p) >= 0 && nodep(p)->type == VT_DIR; }
static bool policied(const char *p);
// the saved state a (below /x/a) put over e (below /x/e)
static void merge(const char *p, bool deep, bool exact) {
  const char *a = join("/x/a", p), *e = join("/x/e", p);
  if (node(a) < 0) return;
  if (!isdir(a)) { if (node(e) < 0 || !vx_tree_eq(a, e)) { if (node(e) >= 0) vx_wipe(e); copy1(a, e); } return; }
  bool made = !isdir(e);
  if (made) { if (node(e) >= 0) vx_wipe(e); copy1(a, e); }
  else if (exact) { VNode *x = nodep(a), *y = nodep(e); y->uid = x->uid; y->gid = x->gid; y->mode = x->mode; y->mtime = x->mtime; }
  if (deep) for (int i = 0; i < NALL; i++) {
    size_t n = strlen(p);
    if (!strncmp(all_[i], p, n) && all_[i][n] == '/' && !strchr(all_[i] + n + 1, '/')) merge(all_[i], true, policied(all_[i]));
  }
  if (made || exact) set_mtime(e, nodep(a)->mtime);
}
static int config_;
static bool policied(const char *p) { return config_ != 1 || strcmp(p, "/s"); }
// saved kinds
static void saved(int variant) {
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  if (variant == 2) put_file("/s/d", "d", 1, 90);
  else {
    vx_mkdir_p("/s/d", 0700, 1, 2, 200 + variant);
    mkkind("/s/d/f", variant ? K_SMALL : K_BIG, 1, false);
    vx_mklink("/s/d/g", "/o/dir", 11, 20);
    set_mtime("/s/d", 200 + variant);
  }
  mkkind("/s/d2", K_BIG, 3, false);
  if (!variant) mkkind("/s/e", K_LINK, 4, false);
  set_mtime("/s", 100);
}
enum { SAME, GONE, ATTR, CONTENT, TDIR, TLINK, TLINKDIR, TDANGLING, TFIFO, TFILE, NALT };
static void alter(const char *p, int how) {
  VNode *n = nodep(p);
  if (how == SAME) return;
  if (how == ATTR) { sym_attrs(node(p), true); return; }
  if (how == CONTENT) {
    if (n->type == VT_DIR) sx_assume(0);
    if (n->type == VT_LNK) { vx_set_data(node(p), "oth", 3); return; }
    uint8_t d[3];
    sx_sym(d, 3, "content");
    vx_set_data(node(p), d, 3);
    n->mtime = 5;
    return;
  }
  vx_wipe(p);
  const char *c = join(p, "/c");
  switch (how) {
  case TDIR: vx_mkdir_p(p, 0711, 4, 5, 6); put_file(c, "c", 1, 5); vx_mklink(join(p, "/l"), "/o/dir", 1, 1); break;
  case TLINK: vx_mklink(p, "/o/t", 1, 1); break;
  case TLINKDIR: vx_mklink(p, "/o/dir", 1, 1); break;
  case TDANGLING: vx_mklink(p, "/o/none", 1, 1); break;
  case TFIFO: vx_mkodd(p, sx_choose(4, "odd")); break;
  case TFILE: put_file(p, "x", 1, 9); break;
  }
}
static bool listed(const char *p) {  // printed, or something above it
  for (int o = 0; o < (int)vx_outlen;) {
    int s = o + 3 + (vx_out[o + 3] == '^'), e = s;
    while (vx_out[e] != '\n' && vx_out[e] != ' ') e++;
    int n = e - s;
    if (n > 1 && vx_out[e - 1] == '/') n--;
    if ((int)strlen(p) >= n && vx_bytes_differ(p, vx_out + s, n) == 0) {
      if (p[n] == 0) return true;
      if (p[n] == '/' && (vx_out[o] == '+' || vx_out[o] == '<')) return true;
    }
    while (vx_out[o] != '\n') o++;
    o++;
    if (vx_out[o] == '\n') break;
  }
  return false;
}
// the line which is printed for the path itself, or -1
static int line_of(const char *p) {
  int n = (int)strlen(p);
  for (int o = 0; o < (int)vx_outlen;) {
    int s = o + 3 + (vx_out[o + 3] == '^');
    if (s + n < (int)vx_outlen && !vx_bytes_differ(p, vx_out + s, n)) {
      char c = vx_out[s + n];
      if (c == '/') c = vx_out[s + n + 1];
      if (c == ' ' || c == '\n') return o;
    }
    while (vx_out[o] != '\n') o++;
    o++;
    if (vx_out[o] == '\n') break;
  }
  return -1;
}
static bool line_has(int o, const char *t) {
  int n = (int)strlen(t);
  for (; vx_out[o] != '\n'; o++) if (!vx_bytes_differ(t, vx_out + o, n)) return true;
  return false;
}
static const char *kind_of(const VNode *n) { return n->type == VT_REG ? "File" : n->type == VT_LNK ? "Symlink" : n->type == VT_DIR ? "Directory" : "Other"; }
// the line of a path tells what happened to it
static void check_line(const char *p, const char *b) {
  int o = line_of(p);
  if (o < 0) return;
  VNode *x = nodep(b), *y = nodep(p);
  if (!policied(p)) { sx_assert(!x || x->type != y->type, "a directory without a policy is only announced if it is made"); return; }
  if (same1(b, p)) { sx_assert(false, "what stays as it is is not announced"); return; }
  const char *m = !x ? "++" : x->type != y->type ? "<>" : NULL;
  if (m && m[0] == '<') {
    char t[40];
    cat(t, kind_of(x), " -> "); cat(t, t, kind_of(y));
    sx_assert(line_has(o, t), "the types are named");
    sx_cover("types named");
  }
  if (!m && y->type == VT_LNK) m = x->len == y->len && !vx_bytes_differ(x->data, y->data, x->len) ? "@@" : "!!";
  if (!m && y->type == VT_REG) m = x->len == y->len && !vx_bytes_differ(x->data, y->data, x->len) ? "@@" : "!!";
  if (!m) m = "@@";
  sx_assert(vx_out[o] == m[0] && vx_out[o + 1] == m[1], "the marker tells what happens");
  sx_cover(m);
}
void harness(void) {
  static const char *conf[] = {"[copy]\n/s\n", "[mirror]\n/s/d\n/s/d2\n/s/e\n", "[track]\n/s\n", "[track]\n/s\n"};
  config_ = (int)sx_choose(4, "configuration");  // the last one: the earlier of two backups
  fs_basic(conf[config_]);
  int id = 0;
  if (config_ >= 2) {
    saved(1 + (int)sx_choose(2, "before"));
    if (config_ == 3) { vx_clone_tree("/s", "/x/a"); id = 1; }
    sx_assert(nb_backup() == 0, "the first backup succeeds");
    vx_wipe("/s");
    vx_now += 1000;
  }
  saved(0);
  if (config_ != 3) vx_clone_tree("/s", "/x/a");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  { vx_mkdir_p("/x/b", 0755, 0, 0, 0); vx_mkdir_p("/x/e", 0755, 0, 0, 0); }
  // alter
  vx_mkdir_p("/o", 0755, 7, 7, 50);
  put_file("/o/t", "target", 6, 51);
  vx_mkdir_p("/o/dir", 0755, 7, 7, 52);
  put_file("/o/dir/f", "inner", 5, 53);
  set_mtime("/o", 50);
  unsigned mode = sx_choose(4, "alter");
  if (mode == 0) vx_wipe("/s");
  else {
    if (mode == 1) { unsigned h = sx_choose(NALT, "directory"); if (h == CONTENT || h == TLINKDIR) return; alter("/s/d", (int)h); }
    if (mode == 2) alter("/s/d/f", (int)sx_choose(NALT, "file"));
    if (mode == 3) { alter("/s/e", (int)sx_choose(NALT, "link")); alter("/s/d2", (int)sx_choose(CONTENT + 1, "neighbour")); }
#ifdef THOROUGH
    if (mode == 2) alter("/s/e", (int)sx_choose(NALT, "link"));
    if (mode == 2) alter("/s/d2", (int)sx_choose(CONTENT + 1, "neighbour"));
#endif
    put_file("/s/n", "new", 3, 60);
    if (isdir("/s/d")) { int64_t t = nodep("/s/d")->mtime; put_file("/s/d/n", "new", 3, 60); set_mtime("/s/d", t); }
    set_mtime("/s", mode == 3 ? 77 : 100);
    if (mode == 3) nodep("/s")->uid = 12;
  }
  static const char *req[] = {NULL, "/s", "/s/d", "/s/d/f", "/s/d/g", "/s/d2", "/s/e"};
  const char *r = req[sx_choose(7, "request")];
  // expected
  vx_mkdir_p("/x/a0", 0755, 0, 0, 0);
  vx_clone_tree("/x/a", "/x/a0/s"); vx_wipe("/x/a"); vx_clone_tree("/x/a0", "/x/a");
  if (node("/s") >= 0) { vx_clone_tree("/s", "/x/b/s"); vx_clone_tree("/s", "/x/e/s"); }
  vx_clone_tree("/o", "/x/e/o");
  vx_clone_tree("/o", "/x/b/o");
  const char *top = r ? r : "/s";
  bool exists = node(join("/x/a", top)) >= 0;
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_on_mutate = on_mutate;
  int rc = nb_restore(id, r);
  vx_on_mutate = NULL;
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone");
  if (!exists) {
    sx_assert(rc != 0 && vx_errlen > 0, "what was not there can not be restored");
    sx_assert(ntouched_ == 0, "a restore which fails changes nothing");
    sx_cover("impossible");
    return;
  }
  sx_assert(rc == 0, "the restore succeeds");
  if (strcmp(top, "/s")) { merge("/s", false, policied("/s")); if (strlen(top) > 4 && top[4] == '/') merge("/s/d", false, true); }
  merge(top, true, policied(top));
  if (strlen(top) > 4 && top[4] == '/') set_mtime("/x/e/s/d", nodep("/x/a/s/d")->mtime);
  if (strcmp(top, "/s")) set_mtime("/x/e/s", nodep("/x/a/s")->mtime);
  if (!policied("/s")) set_mtime("/x/e/s", nodep("/s")->mtime);
  sx_assert(vx_tree_eq("/x/e/s", "/s"), "what was requested is restored, and everything else is as before");
  sx_assert(vx_tree_eq("/x/e/o", "/o"), "nothing outside is changed");
  for (int i = 0; i < NALL; i++) {
    const char *p = all_[i], *b = join("/x/b", p);
    if (node(p) >= 0) check_line(p, b);
    bool d = isdir(b) && isdir(p);
    if (same1(b, p) && !d) { sx_assert(!touched(p) || node(b) < 0, "what is right already is not rewritten"); sx_cover("left alone"); }
    else if (!same1(b, p)) {
      sx_cover("restored");
      if (!policied(p)) continue;
      if (node(p) < 0) continue;  // was below something which was replaced
      if (d) {  // a changed time follows from what changed below
        VNode *x = nodep(b), *y = nodep(p);
        bool below = false;
        for (int k = 0; k < NALL; k++) below |= !strncmp(all_[k], p, strlen(p)) && all_[k][strlen(p)] == '/' && !same1(join("/x/b", all_[k]), all_[k]);
        if (below && sx_conc((x->uid == y->uid) & (x->gid == y->gid) & (x->mode == y->mode))) continue;
      }
      sx_assert(listed(p), "what changes is announced");
    }
  }
}
