// One path of a symbolic kind with symbolic attributes and content is backed
// up, altered in every way, and restored.
#include "lib.h"
#ifndef POL
#define POL "mirror"
#endif

static void fill(int i, unsigned seed) {
  VNode *n = vx_node[i];
  (void)seed;
  n->uid = (uint32_t)sx_int(32, "uid");
  n->gid = (uint32_t)sx_int(32, "gid");
  sx_assume((n->uid != 0xffffffffu) & (n->gid != 0xffffffffu));
  if (n->type == VT_LNK) return;
  n->mode = (uint32_t)sx_int(12, "mode");
  n->mtime = (int64_t)sx_int(64, "mtime");
}
static const unsigned sizes[] = {0, 1, 20, 21, 40, 4097, 4096, 8192};
#define NSIZES 8
static void make(const char *p, unsigned type, unsigned size, bool content) {
  static uint8_t d[8200];
  pattern(d, sizeof d, 3);
  if (type == 0) {
    if (content && size) { sx_sym(d, size < 4 ? size : 4, "content"); if (size > 20) sx_sym(d + size - 1, 1, "last"); }
    vx_mkfile(p, d, size, 0644, 1, 2, 3);
  } else if (type == 1) {
    static char t[300] = "abcd";
    static const char *const odd[] = {"/", "..", "dir/", "a//b///", "new\nline\n", " ", "./\t/", "\xc3\xa4\xff"};
    if (content) {
      unsigned k = sx_choose(10, "target");
      if (k == 0) { strcpy(t, "abcd"); sx_sym(t, 2, "target"); sx_assume((t[0] != 0) & (t[1] != 0)); }
      else if (k == 9) { for (int i = 0; i < 299; i++) t[i] = (char)('a' + i % 26); t[299] = 0; }
      else strcpy(t, odd[k - 1]);
    } else strcpy(t, "abcd");
    vx_mklink(p, t, 1, 2);
  } else vx_mkdir_p(p, 0755, 1, 2, 3);
  fill(node(p), 1);
}

void harness(void) {
#ifdef NESTED
  fs_basic("[" POL "]\n/s/q/p\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkdir_p("/s/q", 0700, 1, 2, 100);
#define PATH "/s/q/p"
#else
  fs_basic("[" POL "]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
#define PATH "/s/p"
#endif
  unsigned type = sx_choose(3, "type");
  unsigned size = type == 0 ? sizes[sx_choose(NSIZES, "size")] : 0;
  make(PATH, type, size, true);
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "backup succeeds");
  vx_now += 50;
  // alter
  unsigned how = sx_choose(7, "altered");
  VNode *n = nodep(PATH);
  switch (how) {
  case 0: vx_wipe(PATH); sx_cover("removed"); break;
  case 1: fill(node(PATH), 2); sx_cover("attributes altered"); break;
  case 2: {  // content of the same size, and attributes
    if (type == 2) return;
    int64_t old = n->mtime;
    fill(node(PATH), 2);
    if (type == 0) {
      if (!size) return;
      sx_assume(n->mtime != old);   // content changes are noticed by their time
      uint8_t d[4]; sx_sym(d, 1, "new-content"); n->data[0] = d[0];
      if (size > 20) { sx_sym(d, 1, "new-last"); n->data[size - 1] = d[0]; }
    } else { uint8_t d[1]; sx_sym(d, 1, "new-target"); sx_assume(d[0] != 0); n->data[n->len - 1] = d[0]; }
    sx_cover("content altered");
    break; }
  case 3: {  // another size, same or other attributes
    if (type == 2) return;
    if (sx_choose(2, "attrs-too")) fill(node(PATH), 2);
    if (type == 0) {
      unsigned ns = sizes[sx_choose(NSIZES, "new-size")];
      if (ns == size) return;
      static uint8_t d[8200]; pattern(d, sizeof d, 9);
      vx_set_data(node(PATH), d, ns);
    } else vx_set_data(node(PATH), "abcdefg", 5 + sx_choose(2, "n"));
    sx_cover("size altered");
    break; }
  default: {
    unsigned nt = sx_choose(4, "new-type");
    if (nt == type) return;
    vx_wipe(PATH);
    if (nt == 3) vx_mkodd(PATH, sx_choose(4, "odd")); else make(PATH, nt, 25, false);
    if (nt == 2 && how == 5) put_file(PATH "/child", "x", 1, 5);
    if (how == 6 && type == 2) return;
    sx_cover("other type");
    break; }
  }
#ifndef NESTED
  if (how == 0 && sx_choose(2, "all")) vx_wipe("/s");
#else
  if (how == 0) { unsigned k = sx_choose(3, "all"); if (k == 1) vx_wipe("/s/q"); else if (k == 2) vx_wipe("/s"); }
#endif
  unsigned whole = sx_choose(3, "request");
  sx_assert(nb_restore(0, whole == 0 ? "/s" : whole == 1 ? PATH : NULL) == 0, "the restore succeeds");
#ifdef NESTED
  sx_assert(node(PATH) >= 0 && vx_tree_eq("/x/s/q/p", PATH), "the path is back as it was saved");
  sx_assert(nodep("/s/q")->uid == 1 && nodep("/s/q")->gid == 2 && nodep("/s/q")->mode == 0700, "the directory above is back");
  if (how == 0 && node("/s") < 0) sx_assert(nodep("/s")->mtime == 100, "time of a re-created directory");
#else
  sx_assert(node(PATH) >= 0 && vx_tree_eq("/x/s/p", PATH), "the path is back as it was saved");
  if (whole != 1) sx_assert(vx_tree_eq("/x/s", "/s"), "the whole tree is back as it was saved");
#endif
  sx_assert(nb_integrity() == 0, "integrity holds");
}
