// The sizes a backup prints before it asks, at full width: saved files whose
// sizes are any values and which are gone, unconfigured or still there, and
// new files of any size.
#include "meta.h"
static uint64_t shown_[16]; static int nshown_;
static bool token_;
void ov_printHumanReadableSize(uint64_t v) {
  sx_assert(nshown_ < 16, "few sizes are printed");
  char t[4] = {'#', (char)('a' + nshown_), 0};
  shown_[nshown_++] = v;
  vx_printf("%s", t);
}
// the size printed after a text, which has to be there
static uint64_t shown(const char *w) {
  int m = (int)strlen(w);
  for (int i = 0; i + m + 1 < (int)vx_outlen; i++)
    if (vx_bytes_differ(vx_out + i, w, m) == 0 && vx_out[i + m] == '#') return shown_[vx_out[i + m + 1] - 'a'];
  sx_fail("a total is printed");
  return 0;
}
#ifdef THOROUGH
#define NOLD 3
#else
#define NOLD 2
#endif
void harness(void) {
  static const char *pol[] = {"", "copy", "mirror", "track"};
  static const char *old[] = {"f", "g", "h"};
  unsigned po = 1 + sx_choose(3, "policy");
  int what[NOLD];
  char conf[60] = "[";
  strcat(conf, pol[po]); strcat(conf, "]\n/d\n/e\n");
  for (int i = 0; i < NOLD; i++) {
    what[i] = sx_choose(3, "what");  // gone, unconfigured, there
    if (what[i] != 1) { strcat(conf, "/"); strcat(conf, old[i]); strcat(conf, "\n"); }
  }
  fs_basic(conf);
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(1); m_u64(1000); m_u64(0);
  m_u64(NOLD);
  m_u64(NOLD);
  uint64_t gone = 0, lost = 0, fresh = 0;
  int ngone = 0, nlost = 0, nfresh = 0;
  bool over = false;
  for (int i = 0; i < NOLD; i++) {
    m_name(old[i]); m_u8(po); m_u64(1);
    p.type = MT_REG; p.uid = 10; p.gid = 20; p.mode = 0100644; p.mtime = 500;
    p.size = sx_int(64, "old");
    sx_assume(p.size > 20);
    memset(p.hash, 'h', 20);
    m_point(&p);
    m_u64(0);
    if (what[i] == 2) {
      char f[3] = {'/', old[i][0], 0};
      put_file(f, "", 0, 500);
      VNode *n = nodep(f);
      n->ghost = true; n->len = p.size;
      sx_assume((int64_t)p.size >= 0);
    } else {
      bool l = what[i] == 1 || po == MP_MIRROR;
      uint64_t *t = l ? &lost : &gone;
      over |= *t + p.size < *t;
      *t += p.size;
      if (l) nlost++; else ngone++;
    }
  }
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  int nnew = sx_choose(4, "new");
  uint64_t below = 0;
  if (nnew) { vx_mkdir_p("/d", 0755, 0, 0, 100); nfresh++; }
  for (int i = 0; i < nnew; i++) {
    static const char *f[] = {"/d/x", "/d/y", "/e"};
    put_file(f[i], "", 0, 500);
    VNode *n = nodep(f[i]);
    n->ghost = true; n->len = sx_int(63, "new");
    over |= fresh + n->len < fresh;
    fresh += n->len; nfresh++;
    if (i < 2) below += n->len;
  }
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  vx_wipe("/r/lockfile"); set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is left alone");
  if (nfresh + ngone + nlost == 0) { sx_assert(rc == 0, "there is nothing to do"); return; }
  sx_assert(rc != 0, "the backup is not done");
  if (sx_conc(over)) { sx_assert(!vx_out_has("(y/n)") && vx_errlen > 0, "a total which does not fit is an error"); sx_cover("overflow"); return; }
  sx_assert(vx_out_has("(y/n)"), "it asks");
  static char n[] = "0123456789";
  char t[24];
  sx_assert(vx_out_has("New: ") == (nfresh > 0) && vx_out_has("Removed: ") == (ngone > 0) && vx_out_has("Lost: ") == (nlost > 0), "totals are printed of what happens");
  if (nfresh) { t[0] = 0; strcat(t, "New: "); t[5] = n[nfresh]; t[6] = 0; strcat(t, " ("); sx_assert(shown(t) == fresh, "the size of what is new is right"); sx_cover("new"); }
  if (ngone) { t[0] = 0; strcat(t, "Removed: "); t[9] = n[ngone]; t[10] = 0; strcat(t, " ("); sx_assert(shown(t) == gone, "the size of what is gone is right"); sx_cover("gone"); }
  if (nlost) { t[0] = 0; strcat(t, "Lost: "); t[6] = n[nlost]; t[7] = 0; strcat(t, " ("); sx_assert(shown(t) == lost, "the size of what is lost is right"); sx_cover("lost"); }
  if (nnew) { t[0] = 0; strcat(t, "item"); if (nnew != 1) strcat(t, "s"); if (nnew > 2) t[5] = 0;
    if (sx_conc(below > 0)) { strcat(t, ", +"); sx_assert(shown(t) == below, "the size of what is in a new directory is right"); } }
}
