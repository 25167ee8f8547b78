// Stored files are damaged in every way; the integrity check names exactly
// the paths which need them.
#define M_NODES 20
#include "meta.h"
#ifdef THOROUGH
#define NDAMAGED 2
#else
#define NDAMAGED 1
#endif
#ifdef NEAR
#define NF 5
#define HOW 3 + (int)sx_choose(2, "how")
#else
#define NF 9
#define HOW (int)sx_choose(12, "how")
#endif
static MIndex ix_;
static uint8_t d_[64];
// stored files: content seed and paths which refer to them in any of their states
static struct { MPoint p; uint64_t broken; char at[80]; } f_[12];
static int nf_;
static const char *const paths[] = {"/s/a", "/s/b", "/s/d/c", "/s/t", "/s/d", "/s/small", "/s/empty", "/s/l", "/s", "/s/t2", "/s/tl", "/s/tl/x", "/s/tf", "/s/tf/x", "/s/tr", "/s/tr/x"};
#define NPATHS 16
static uint64_t uses_[12];  // bit per path
static void collect(void) {
  for (int i = 0; i < NPATHS; i++) {
    MNode *n = m_find(&ix_, paths[i]);
    if (!n) continue;
    for (int k = 0; k < n->np; k++) {
      if (n->p[k].type != MT_REG || n->p[k].size <= M_INLINE) continue;
      char at[80];
      m_stored(at, "/r", &n->p[k]);
      int j = 0;
      while (j < nf_ && strcmp(f_[j].at, at) != 0) j++;
      if (j == nf_) { memcpy(f_[nf_].at, at, strlen(at) + 1); nf_++; }
      uses_[j] |= 1u << i;
    }
  }
}
static uint64_t bad; static bool structure;
static void lose_dir(const char *dir) {
  for (int j = 0; j < nf_; j++) if (strncmp(f_[j].at, dir, strlen(dir)) == 0 && f_[j].at[strlen(dir)] == '/') bad |= uses_[j];
}
// returns whether the content is lost
static uint64_t damage(const char *at, int how) {
  int i = node(at);
  VNode *n = vx_node[i];
  uint8_t c[64];
  uint64_t len = n->len;
  memcpy(c, n->data, len);
  char b[100];
  switch (how) {
  case 0: vx_wipe(at); return 1;
  case 1: vx_set_data(i, c, sx_choose((unsigned)len, "cut")); return 1;
  case 2: c[len] = (uint8_t)sx_int(8, "more"); vx_set_data(i, c, len + 1); return 1;
  case 3: {  // any other value for one of the bytes, or the same one
    unsigned at_ = sx_choose((unsigned)len, "position");
    c[at_] = (uint8_t)sx_int(8, "byte");
    uint64_t diff = c[at_] != n->data[at_];
    vx_set_data(i, c, len);
    return diff;
  }
  case 4: {  // all of it
    sx_sym(c, len, "content");
    uint64_t diff = vx_bytes_differ(c, n->data, len) != 0;
    vx_set_data(i, c, len);
    return diff;
  }
  case 5: vx_wipe(at); vx_mkdir_p(at, 0755, 0, 0, 1); return 1;
  case 6: vx_wipe(at); vx_mkfile("/x/copy", c, len, 0644, 0, 0, 1); vx_mklink(at, "/x/copy", 0, 0); return 1;
  case 7: vx_wipe(at); vx_mklink(at, "nothing", 0, 0); return 1;
  case 8: vx_wipe(at); vx_mkodd(at, sx_choose(4, "odd")); return 1;
  case 9: n->mode = (uint32_t)sx_int(12, "mode"); n->mtime = (int64_t)sx_int(64, "mtime"); n->uid = 77; return 0;
  case 10: memcpy(b, at, strlen(at) + 1); *strrchr(b, '/') = 0; vx_wipe(b); lose_dir(b); return 1;           // with its directory
  case 11: memcpy(b, at, strlen(at) + 1); *strrchr(b, '/') = 0; vx_wipe(b); lose_dir(b); structure = true; vx_mkfile(b, "x", 1, 0644, 0, 0, 1); return 1;
  }
  return 0;
}
void harness(void) {
#ifdef NEAR
  vx_hash_near = (int)sx_choose(20, "hashes differ at");
#endif
  fs_basic("[track]\n/s/t\n/s/t2\n/s/tl\n/s/tf\n/s/tr\n[mirror]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkdir_p("/s/d", 0755, 1, 2, 100);
  pattern(d_, 64, 1); put_file("/s/a", d_, 40, 1); put_file("/s/b", d_, 40, 2);
  pattern(d_, 64, 2); put_file("/s/d/c", d_, 21, 3);
  put_file("/s/t", d_, 40, 4);
  put_file("/s/t2", d_, 50, 4);
  put_file("/s/small", "12345678901234567890", 20, 5);
  put_file("/s/empty", "", 0, 5);
  vx_mklink("/s/l", "a", 1, 1);
#ifndef NEAR
  // directories which become something else
  static const char *const td[] = {"/s/tl", "/s/tf", "/s/tr"};
  char tx[20];
  for (int i = 0; i < 3; i++) {
    vx_mkdir_p(td[i], 0755, 1, 2, 100);
    pattern(d_, 64, 7 + i); put_file(cat(tx, td[i], "/x"), d_, 34, 3);
  }
#endif
  sx_assert(nb_backup() == 0, "first backup succeeds");
  vx_now += 10;
  pattern(d_, 64, 1); edit("/s/t", d_, 40, 10);                        // now like a and b
  pattern(d_, 64, 2); put_file("/s/d/e", d_, 33, 3); vx_wipe("/s/t2"); vx_wipe("/s/d/e");
#ifndef NEAR
  for (int i = 0; i < 3; i++) vx_wipe(td[i]);
  vx_mklink("/s/tl", "a", 1, 1);
  pattern(d_, 64, 11); put_file("/s/tf", d_, 48, 3);
#endif
  sx_assert(nb_backup() == 0, "second backup succeeds");
  vx_now += 10;
  pattern(d_, 64, 6); edit("/s/t", d_, 45, 20);
  sx_assert(nb_backup() == 0, "third backup succeeds");
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "index is readable");
  put_file("/r/tmp-file", "left by an interrupted backup", 29, 3);
  collect();
  sx_assert(nf_ == NF, "harness: stored files");
  bad = 0;
  int first = -1;
  unsigned nd = sx_choose(NDAMAGED + 1, "damaged");
  for (unsigned k = 0; k < nd; k++) {
    unsigned j = sx_choose((unsigned)nf_, "which");
    sx_assume((int)j > first && node(f_[j].at) >= 0);
    first = (int)j;
    // the second one: a few ways only
    static const int few[] = {0, 2, 3, 10};
    uint64_t lost = damage(f_[j].at, k ? few[sx_choose(4, "how2")] : HOW);
    if (sx_conc(lost)) bad |= uses_[j];
  }
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_clone_tree("/s", "/x/s");
  vx_dir_reverse = true;
  unsigned blk = sx_choose(4, "block size, terminal");
  vx_blksize = (uint32_t[]){4096, 16, 40, 32}[blk];
  vx_tty = blk == 3;
  int rc = nb_integrity();
  if (vx_err_has("Not a directory")) {  // a directory of the repository is something else: it cannot check anything
    sx_assert(structure && rc != 0, "a repository which cannot be checked is reported");
    sx_cover("directory damaged");
    return;
  }
  int nbad = 0;
  for (int i = 0; i < NPATHS; i++) {
    char line[64];
    if (vx_tty) { cat(line, "m", paths[i]); strcat(line, " \033"); }
    else { cat(line, "?? ", paths[i]); strcat(line, " (corrupted)\n"); }
    int c = vx_out_count(line);
    if (bad >> i & 1) { nbad++; sx_assert(c == 1, "a path whose content is lost is named"); }
    else sx_assert(c == 0, "a path whose content is there is not named");
  }
  sx_assert(vx_out_count("?? ") == nbad, "nothing else is named");
  sx_assert((rc != 0) == (nbad != 0), "it fails exactly if something is lost");
  sx_cover(nbad == 0 ? "healthy" : nbad == 1 ? "one path damaged" : "several paths damaged");
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r") && vx_tree_eq("/s", "/x/s"), "nothing is changed");
}
