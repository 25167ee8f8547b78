// Two backups of one path with all its recorded attributes symbolic: the
// second one asks if and only if something differs, and records it.
#include "meta.h"
void ov_printHumanReadableSize(uint64_t v) { }

#ifdef SIZES
// Sizes over their full width: an index made by hand against a file whose
// size is any value. The backup is declined.
void harness(void) {
  vx_print_abstract = true;
  static const char *pol[] = {"", "copy", "mirror", "track"};
  unsigned po = 1 + sx_choose(3, "policy");
  char conf[40];
  cat(conf, "[", pol[po]); strcat(conf, "]\n/f\n");
  fs_basic(conf);
  int big = sx_choose(2, "stored");
  put_file("/f", "", 0, 500);
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(1); m_u64(1000); m_u64(1);
  p.type = MT_REG; p.mode = 0644; p.mtime = 100; p.size = strlen(conf); 
  uint8_t b[20];
  vx_hash_of(conf, strlen(conf), p.hash, 20);
  if (p.size <= 20) memcpy(p.hash, conf, p.size);
  m_point(&p);
  m_u64(1);
  m_u64(1);
  m_name("f"); m_u8(po); m_u64(1);
  p.uid = 10; p.gid = 20; p.mode = 0100644; p.mtime = 500;
  p.size = big ? sx_int(64, "old") : sx_choose(21, "old-small");
  if (big) sx_assume(p.size > 20);
  memset(p.hash, 'h', 20);
  m_point(&p);
  m_u64(0);
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  VNode *f = nodep("/f");
  uint64_t now = sx_int(63, "new");
  f->ghost = true; f->len = now;
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  sx_assert((rc != 0) == (now != p.size), "a backup asks exactly if the size differs");
  if (rc) { sx_cover("asked"); sx_assert(vx_out_has("(y/n)"), "it asks"); }
  else sx_cover("nothing to do");
}
#else
static const int kinds[] = {K_SMALL, K_BIG, K_LINK, K_DIR, K_EMPTY, K_SMALL, K_SMALL, K_BIG};
static const unsigned sizes[] = {0, 0, 0, 0, 0, 1, 20, 21};  // 0: as usual
void harness(void) {
  static const char *pol[] = {"[copy]\n/s\n", "[mirror]\n/s\n", "[track]\n/s\n"};
  fs_basic(pol[sx_choose(3, "policy")]);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  unsigned ki = sx_choose(8, "kind");
  int k = kinds[ki];
  mkkind("/s/p", k, 1, false);
  if (sizes[ki]) { uint8_t d[24]; pattern(d, sizeof d, 5); vx_set_data(node("/s/p"), d, sizes[ki]); }
  unsigned tl = 0;
  VNode *n = nodep("/s/p");
  uint32_t u1 = n->uid = (uint32_t)sx_int(32, "uid"), g1 = n->gid = (uint32_t)sx_int(32, "gid");
  sx_assume((u1 != 0xffffffffu) & (g1 != 0xffffffffu));
  uint32_t m1 = 0777; int64_t t1 = 0;
  if (k != K_LINK) { m1 = n->mode = (uint32_t)sx_int(12, "mode"); t1 = n->mtime = (int64_t)sx_int(64, "mtime"); }
  static const unsigned lens[] = {3, 12, 40, 255};
  char t[260] = {0};
  if (k == K_LINK) {
    unsigned n = lens[sx_choose(4, "length")];
    for (unsigned i = 0; i < n; i++) t[i] = (char)('A' + i % 53);
    vx_set_data(node("/s/p"), t, n);
    tl = n;
  }
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  int i = node("/s/p");
  n = vx_node[i];
  uint32_t u2 = n->uid = (uint32_t)sx_int(32, "uid"), g2 = n->gid = (uint32_t)sx_int(32, "gid");
  sx_assume((u2 != 0xffffffffu) & (g2 != 0xffffffffu));
  uint32_t m2 = 0777; int64_t t2 = 0;
  if (k != K_LINK) { m2 = n->mode = (uint32_t)sx_int(12, "mode"); t2 = n->mtime = (int64_t)sx_int(64, "mtime"); }
  bool diff = (u1 != u2) | (g1 != g2) | (m1 != m2) | (t1 != t2);
  bool changed = false;
  if (k == K_SMALL || k == K_BIG) {
    switch (sx_choose(4, "content")) {
    case 1: {  // same size, one byte differs: noticed along with the time
      unsigned at = sx_choose((unsigned)n->len, "position");
      if (sizes[ki] > 2 && at != 0 && at + 1 != n->len) return;
      changed = true;
      uint8_t d[64];
      memcpy(d, n->data, n->len);
      d[at] ^= 1u << sx_choose(8, "bit");
      vx_set_data(i, d, n->len);
      sx_assume(t1 != t2);
      break;
    }
    case 2: changed = true; vx_set_data(i, n->data, n->len - 1); diff = true; break;
    case 3: { changed = true; uint8_t d[64]; memcpy(d, n->data, n->len); d[n->len] = 'x'; vx_set_data(i, d, n->len + 1); diff = true; break; }
    }
  } else if (k == K_LINK) {
    static const unsigned pos[] = {0, 1, 2, 3, 4, 7, 8, 9, 11, 15, 16, 31, 32, 39, 63, 64, 127, 128, 253, 254};
    unsigned what = sx_choose(23, "target");
    if (what < 20) {
      unsigned at = pos[what];
      if (at >= tl) return;
      char old = t[at];
      t[at] = (char)sx_int(8, "target"); sx_assume(t[at] != 0);
      diff |= t[at] != old;
      vx_set_data(i, t, tl);
    } else if (what == 20) { t[tl] = 'y'; vx_set_data(i, t, tl + 1); diff = true; }
    else if (what == 21) { vx_set_data(i, t, tl - 1); diff = true; }
  }
  vx_node[i]->mtime = t2;
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_now += 5000;
  int rc = vx_nb("", "/r", NULL, NULL, NULL);
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone as long as nothing is confirmed");
  sx_assert((rc != 0) == diff, "a backup asks exactly if something differs");
  if (rc == 0) { sx_cover("nothing to do"); sx_assert(vx_errlen == 0 && !vx_out_has("(y/n)"), "it does not ask"); return; }
  sx_cover("asked");
  if (k == K_SMALL || k == K_BIG) sx_assert(vx_out_has("!!") == changed, "it is shown as changed content exactly if the content differs");
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "the second backup succeeds");
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0, "restoring succeeds");
  sx_assert(vx_tree_eq("/s", "/x/s"), "the new state is what was recorded");
}
#endif
