// Stray entries in a repository with a history, and garbage collections by
// the command and by a backup.
#include "meta.h"
static uint64_t printed_;
void ov_printHumanReadableSize(uint64_t v) { printed_ = v; }

static MIndex ix_;
static char exp_[24][64]; static int nexp_;
static bool expected(const char *path) { for (int i = 0; i < nexp_; i++) if (strcmp(exp_[i], path) == 0) return true; return false; }
static void add_exp(const MPoint *p, int n) {
  for (int i = 0; i < n; i++, p++) {
    if (p->type != MT_REG || p->size <= M_INLINE) continue;
    char b[64];
    m_stored(b, "/r", p);
    if (!expected(b)) { sx_assert(nexp_ < 24, "harness"); memcpy(exp_[nexp_++], b, strlen(b) + 1); }
  }
}
static int found_;
static void scan(const char *path) {
  VNode *d = nodep(path);
  for (int i = 0; i < d->nent; i++) {
    char p[200];
    cat(p, path, "/"); strcat(p, d->ent[i].name);
    VNode *x = vx_node[d->ent[i].ino];
    if (x->type == VT_DIR) { sx_assert(x->nent > 0, "no empty directory remains"); scan(p); continue; }
    if (strcmp(p, "/r/config") == 0 || strcmp(p, "/r/metadata") == 0 || strcmp(p, "/r/lockfile") == 0) continue;
    sx_assert(x->type == VT_REG && expected(p), "nothing which is not referenced remains");
    found_++;
  }
}
static void check_exact(void) {
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "index is readable");
  nexp_ = 0;
  add_exp(ix_.conf, ix_.nconf);
  for (int i = 0; i < ix_.nnode; i++) add_exp(ix_.node[i].p, ix_.node[i].np);
  found_ = 0;
  scan("/r");
  sx_assert(found_ == nexp_, "everything which is referenced remains");
}

static uint64_t sum_;
static void stray_file(const char *p) {
  int i = vx_mkfile(p, "", 0, 0644, 0, 0, 50);
  static int k;
  uint64_t n = k ? 1000ull << (3 * k) : sx_int(60, "stray-size");
  k++;
  vx_node[i]->len = n;  // never read
  sum_ += n;
}
static void dirs_mtime0(int i) {
  VNode *d = vx_node[i];
  d->mtime = 0;
  for (int k = 0; k < d->nent; k++) if (vx_node[d->ent[k].ino]->type == VT_DIR) dirs_mtime0(d->ent[k].ino);
}
#define NSTRAY 11
static char near_[128], dir_[128];
static void stray(int k) {
  switch (k) {
  case 0: stray_file("/r/junk"); stray_file("/r/.junk"); vx_mkdir_p("/r/.d", 0755, 0, 0, 50); stray_file("/r/.d/..x"); break;
  case 1: vx_mkdir_p("/r/empty", 0755, 0, 0, 50); break;
  case 2: vx_mkdir_p("/r/n1", 0755, 0, 0, 50); vx_mkdir_p("/r/n1/n2", 0755, 0, 0, 50); vx_mkdir_p("/r/n1/n3", 0755, 0, 0, 50);
    stray_file("/r/n1/n2/f"); stray_file("/r/n1/metadata"); stray_file("/r/n1/config"); break;
  case 3: vx_mklink("/r/out", "/o", 0, 0); break;
  case 4: vx_mklink("/r/dangling", "nowhere", 0, 0); break;
  case 5: stray_file(near_); break;                       // beside a stored file, same name and a letter more
  case 6: stray_file("/r/tmp-file"); break;
  case 7: stray_file("/r/config2"); stray_file("/r/metadat"); stray_file("/r/lockfil"); break;
  case 8: vx_mkfifo_at("/r/fifo"); vx_mkodd("/r/sock", 1); vx_mkodd("/r/dev", 3); break;
  case 9: vx_mklink(dir_, "../..", 0, 0); break;          // in a directory of stored files, back to the repository
  case 10: vx_mklink("/r/tofile", "/o/f", 0, 0); vx_mklink("/r/toconfig", "config", 0, 0); break;
  }
}
static const char *const spell[][2] = {{"/r", "/"}, {"/r/", "/"}, {"/r//", "/"}, {"r", "/"}, {"./r", "/"}, {"/s/../r", "/"}, {"/lnk", "/"}, {".", "/r"}, {"..//r", "/s"}, {"lnk/", "/"}};

#ifdef ROOT
// The repository is the root directory itself.
void harness(void) {
  fs_basic("[copy]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  mkkind("/s/a", K_BIG, 2, false);
  mkkind("/s/c", K_SMALL, 4, false);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "first backup succeeds");
  vx_wipe("/r/lockfile");
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "index is readable");
  add_exp(m_find(&ix_, "/s/a")->p, 1);
  VNode *r = nodep("/r");
  for (int i = 0; i < r->nent; i++) {
    char from[64], to[64];
    cat(from, "/r/", r->ent[i].name); cat(to, "/", r->ent[i].name);
    vx_clone_tree(from, to);
  }
  vx_wipe("/s");
  VNode *root = nodep("/");
  vx_wipe("/r");
  if (sx_choose(2, "strays")) { stray_file("/junk"); vx_mkdir_p("/n1", 0755, 0, 0, 50); stray_file("/n1/metadata"); vx_mklink("/out", "/config", 0, 0); }
  static const char *const sp[] = {"/", "//", "/.", ".", "n1/.."};
  unsigned k = sx_choose(4, "spelling");
  const char *a[] = {"nb", sp[k], "gc"};
  sx_assert(vx_nbv(3, a) == 0, "the command succeeds");
  sx_assert(printed_ == sum_, "the size of what was removed is printed");
  vx_wipe("/lockfile");
  for (int i = 0; i < root->nent; i++) {
    const char *n = root->ent[i].name;
    VNode *x = vx_node[root->ent[i].ino];
    if (strcmp(n, "config") == 0 || strcmp(n, "metadata") == 0) { found_++; continue; }
    if (strcmp(n, "x") == 0) continue;
    sx_assert(x->type == VT_DIR && n[0] == exp_[0][3] && n[1] == 0, "nothing which is not referenced remains");
  }
  char st[80];
  cat(st, "", exp_[0] + 2);
  sx_assert(found_ == 2 && node(st) >= 0, "everything which is referenced remains");
  sx_cover("collected by the command");
}
#else
void harness(void) {
  fs_basic("[track]\n/s/t\n/s/u\n/s/v\n[mirror]\n/s\n");
  vx_mklink("/lnk", "/r", 0, 0);
  vx_mkdir_p("/o", 0755, 0, 0, 100);
  put_file("/o/f", "outside of the repository", 25, 100);
  unsigned layout = sx_choose(2, "layout");
  vx_hash_layout = layout ? 3 : 0;
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  mkkind("/s/t", K_BIG, 1, false);
  vx_mkdir_p("/s/u", 0755, 1, 2, 100);
  mkkind("/s/u/f", K_BIG, 5, false);
  vx_mkdir_p("/s/v", 0755, 1, 2, 100);
  mkkind("/s/v/g", K_BIG, 6, false);
  mkkind("/s/a", K_BIG, 2, false);
  mkkind("/s/b", K_BIG, 3, false);
  mkkind("/s/c", K_SMALL, 4, false);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "first backup succeeds");
  vx_now += 10;
  uint8_t d[64];
  pattern(d, 64, 9);
  edit("/s/t", d, 44, 5000);
  // one tracked directory vanishes, another one becomes a file
  vx_wipe("/s/u"); vx_wipe("/s/v");
  put_file("/s/v", "now a file", 10, 5100);
  sx_assert(nb_backup() == 0, "second backup succeeds");
  vx_now += 10;
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "index is readable");
  m_stored(near_, "/r", &m_find(&ix_, "/s/a")->p[0]);
  memcpy(dir_, near_, strlen(near_) + 1);
  strcat(near_, "1");
  char *sl = strrchr(dir_, '/');
  memcpy(sl, "/up", 4);
  vx_clone_tree("/o", "/x/o");
  vx_clone_tree("/s", "/x/s");
  unsigned by = sx_choose(2, "by");
  char gone[128] = "";
  bool none = false;
  if (by == 1) {
    // the collection of a backup which changes nothing of what is stored, or
    // makes one stored file unreferenced
    unsigned how = sx_choose(4, "removed");
    if (how == 3) {
      // everything
      set_config("");
      for (int i = 0; i < ix_.nnode; i++) add_exp(ix_.node[i].p, ix_.node[i].np);
      for (int i = 0; i < nexp_; i++) sum_ += nodep(exp_[i])->len;
      gone[0] = '/';
    } else if (how == 2) {
      // a tracked file which vanishes when its policy becomes one without a history
      set_config("[track]\n/s/u\n/s/v\n[mirror]\n/s\n");
      const MNode *t = m_find(&ix_, "/s/t");
      for (int i = 0; i < 2; i++) { m_stored(gone, "/r", &t->p[i]); sum_ += nodep(gone)->len; }
      vx_wipe("/s/t");
      sx_cover("collected after a change of policy");
    } else if (how) { m_stored(gone, "/r", &m_find(&ix_, "/s/b")->p[0]); sum_ += nodep(gone)->len; vx_wipe("/s/b"); }
    else edit("/s/c", "zz", 2, 7000);
    set_mtime("/s", 100);
  } else if (sx_choose(2, "empty")) {
    // nothing is part of the repository anymore
    set_config("");
    sx_assert(nb_backup() == 0, "third backup succeeds");
    vx_now += 10;
    sx_assert(m_parse_file(&ix_, "/r/metadata") && ix_.nnode == 0 && vx_count("/r") == 2 + (node("/r/lockfile") >= 0), "nothing remains");
    none = true;
    sx_cover("nothing to keep");
  }
  vx_wipe("/r/lockfile");
  vx_clone_tree("/r", "/x/r");
  unsigned set = sx_choose(NSTRAY + 3, "strays");
  if (none && (set == 5 || set == 9 || set >= NSTRAY)) return;
  for (unsigned k = 0; k < NSTRAY; k++) if (set == k || set == NSTRAY || (set == NSTRAY + 1 && k % 2)) stray(k);
  unsigned sp = sx_choose(sizeof spell / sizeof *spell, "spelling");
  vx_dir_reverse = sx_choose(2, "order");
  vx_set_cwd(spell[sp][1]);
  printed_ = 0;
  // a backup uses the name of its temporary file itself
  bool tmp_reused = by == 1 && (set == 6 || set == NSTRAY);
  int rc;
  if (by == 1) {
    vx_set_stdin("y\n", 2);
    const char *a[] = {"nb", spell[sp][0]};
    rc = vx_nbv(2, a);
  } else { const char *a[] = {"nb", spell[sp][0], "gc"}; rc = vx_nbv(3, a); }
  sx_assert(rc == 0, "the command succeeds");
  check_exact();
  if (!tmp_reused) sx_assert(printed_ == sum_, "the size of what was removed is printed");
  sx_assert(vx_tree_eq("/o", "/x/o"), "nothing outside of the repository is touched");
  vx_wipe("/r/lockfile");
  if (by == 0) {
    dirs_mtime0(node("/r")); dirs_mtime0(node("/x/r"));
    sx_assert(vx_tree_eq("/r", "/x/r"), "nothing which is referenced is touched");
    sx_cover("collected by the command");
  } else {
    sx_cover(*gone ? "collected after removal" : "collected after change");
  }
  vx_dir_reverse = false;
  vx_set_cwd("/");
  if (by == 0) vx_wipe("/s");
  sx_assert(nb_integrity() == 0, "the repository is intact");
}
#endif
