// Files of equal size whose contents are symbolic, with a hash of which
// nothing is known but that equal contents have equal hashes.
#include "meta.h"
void ov_printHumanReadableSize(uint64_t v) { }
#define LEN 24
static uint8_t data_[6][LEN];
static void content(int i) {
  pattern(data_[i], LEN, 1);
#ifdef THOROUGH
  static const int at[] = {0, 15, 16, 23};
  for (int k = 0; k < 4; k++) data_[i][at[k]] = (uint8_t)sx_int(8, "content");
#else
  static const int at[] = {0, 23};
  data_[i][at[sx_choose(2, "position")]] = (uint8_t)sx_int(8, "content");
#endif
}
static MIndex ix_;
#ifdef FULL
static void hardlink(const char *from, const char *dir, const char *name) {
  int d = node(dir), i = node(from);
  VNode *n = vx_node[d];
  if (n->nent == n->cent) {
    int c = n->cent ? n->cent * 2 : 4;
    VEnt *e = sx_malloc(c * sizeof *e);
    if (n->nent) memcpy(e, n->ent, n->nent * sizeof *e);
    n->ent = e; n->cent = c;
  }
  memset(&n->ent[n->nent], 0, sizeof *n->ent);
  memcpy(n->ent[n->nent].name, name, strlen(name));
  n->ent[n->nent++].ino = i;
  vx_node[i]->nlink++;
}
void harness(void) {
  fs_basic("[track]\n/s\n");
  vx_fd_limit = 12;
  vx_blksize = 16;
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  content(0);
  put_file("/s/a", data_[0], LEN, 500);
  set_mtime("/s", 100);
  // other content in all places but one
  content(1);
  sx_assume(vx_bytes_differ(data_[0], data_[1], LEN) != 0);
  static const int gaps[] = {256, 0, 1, 15, 16, 17, 127, 128, 254, 255};
  int gap = gaps[sx_choose(10, "free slot")];
  bool middle = gap == 16 || gap == 127 || gap == 128 || gap == 255;  // to be in the middle of a history
  if (middle) {
    edit("/s/a", "something before", 16, 400);
    sx_assert(nb_backup() == 0, "an earlier backup succeeds");
    edit("/s/a", data_[0], LEN, 500);
  }
  MPoint p;
  memset(&p, 0, sizeof p);
  p.size = LEN;
  vx_hash_of(data_[0], LEN, p.hash, 20);
  char b[80], d[80];
  m_stored(b, "/r", &p);
  unsigned n = strlen(b);
  while (b[n - 1] != '/') n--;
  memcpy(d, b, n - 1); d[n - 1] = 0;
  d[4] = 0;  // the first of two levels
  vx_mkdir_p(d, 0700, 0, 0, 50);
  d[4] = '/';
  vx_mkdir_p(d, 0700, 0, 0, 50);
  put_file("/x/other", data_[1], LEN, 300);
  for (int s = 0; s < 256; s++) {
    if (s == gap) continue;
    p.slot = (uint8_t)s;
    m_stored(b, "/r", &p);
    hardlink("/x/other", d, b + n);
  }
  int rc = nb_backup();
  sx_assert(!vx_bytes_differ(nodep("/x/other")->data, data_[1], LEN) && nodep("/x/other")->len == LEN, "no stored file is overwritten");
  if (gap == 256) {
    sx_assert(rc != 0 && vx_errlen > 0, "a backup with no free place left fails");
    for (int s = 0; s < 256; s++) { p.slot = (uint8_t)s; sx_assert(node(m_stored(b, "/r", &p)) == node("/x/other"), "nothing is altered"); }
    sx_assert(node("/r/metadata") < 0, "nothing is recorded");
    sx_cover("full");
    return;
  }
  sx_assert(rc == 0, "a free place is found");
  vx_clone_tree("/s", "/x/s");
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0 && vx_tree_eq("/s", "/x/s"), "each file gets its own content back");
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  if (middle) {
    edit("/s/a", "something else", 14, 600);
    sx_assert(nb_backup() == 0, "another backup succeeds");
    sx_assert(nb_restore(1, "/s/a") == 0 && vx_tree_eq("/s/a", "/x/s/a"), "each file gets its own content back");
    edit("/s/a", "and something else again", 24, 700);
    sx_assert(nb_backup() == 0, "another backup succeeds");
    sx_assert(nb_restore(2, "/s/a") == 0 && vx_tree_eq("/s/a", "/x/s/a"), "each file gets its own content back");
    sx_assert(nb_integrity() == 0, "nothing is damaged");
  }
  sx_cover("free place found");
}
#else
static const char *name_[] = {"/s/a", "/s/b", "/s/c", "/s/d"};
static int total_;
static void all_stored(int n) {
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "the index is readable");
  MNode *m[4];
  char b[4][80];
  for (int i = 0; i < n; i++) {
    m[i] = m_find(&ix_, name_[i]);
    sx_assert(m[i] != NULL, "every path is recorded");
    MPoint *p = &m[i]->p[0];
    p->slot = (uint8_t)sx_conc(p->slot);
    for (int k = 0; k < 20; k++) p->hash[k] = (uint8_t)sx_conc(p->hash[k]);
    p->size = sx_conc(p->size);
    m_stored(b[i], "/r", p);
    VNode *s = nodep(b[i]);
    sx_assert(s && s->type == VT_REG && s->len == LEN, "every content is stored");
    sx_assert(!vx_bytes_differ(s->data, data_[i], LEN), "the stored content is that of the file");
    for (int k = 0; k < i; k++)
      sx_assert((vx_bytes_differ(data_[i], data_[k], LEN) == 0) == (strcmp(b[i], b[k]) == 0), "contents share storage if and only if they are equal");
  }
}
void harness(void) {
#ifdef NEAR
  vx_hash_near = (int)sx_choose(20, "hashes differ at");
#else
  vx_hash_collide = true;
#endif
  static const uint32_t bs[] = {4096, 16, 12};
  vx_blksize = bs[sx_choose(3, "block size")];
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
#ifdef THOROUGH
  int first = 2 + (int)sx_choose(2, "first"), all = first + 1;
#else
  int first = 2, all = first + 1;
#endif
  for (int i = 0; i < all; i++) content(i);
  for (int i = 0; i < first; i++) put_file(name_[i], data_[i], LEN, 500 + i);
  set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/old");
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  all_stored(first);
  // the next one finds them stored, and keeps them even if they are gone
  vx_now += 1000;
  unsigned what = sx_choose(3, "second");
  if (what == 1) vx_wipe(name_[0]);
  if (what == 2) edit(name_[0], "changed to something of another size", 36, 700);
  for (int i = first; i < all; i++) put_file(name_[i], data_[i], LEN, 500 + i);
  set_mtime("/s", 200);
  vx_clone_tree("/s", "/x/new");
  sx_assert(nb_backup() == 0, "the second backup succeeds");
  if (what == 0) { all_stored(all); sx_cover("added"); }
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0 && vx_tree_eq("/s", "/x/new"), "each file gets its own content back");
  vx_wipe("/s");
  sx_assert(nb_restore(1, "/s") == 0 && vx_tree_eq("/s", "/x/old"), "what was stored earlier is not changed");
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  sx_cover(what == 1 ? "removed" : what == 2 ? "changed" : "added");
}
#endif
