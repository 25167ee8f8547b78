// Commands on an index which was damaged.
#include "meta.h"

// Path tables are the subject of another check: here all names share a bucket.
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) { return 0; }

void ov_printHumanReadableSize(uint64_t v) { }

static void build(void) {
  static uint8_t big[40];
  pattern(big, 40, 5);
  MPoint p;
  mn = 0;
  m_len(2); m_u64(2000); m_u64(1000);
  m_u64(0);                       // no configuration history
  m_u64(4);
  m_u64(1);
  m_name("s"); m_u8(MP_TRACK); m_u64(1);
  memset(&p, 0, sizeof p);
  p.id = 1; p.type = MT_DIR; p.uid = 1; p.gid = 2; p.mode = 0755; p.mtime = 100;
  m_point(&p);
  m_u64(3);
  m_name("f"); m_u8(MP_TRACK); m_u64(2);
  p.id = 0; p.type = MT_REG; p.mode = 0644; p.mtime = 500; p.size = 3; memcpy(p.hash, "abc", 3);
  m_point(&p);
  p.id = 1; p.size = 40; vx_hash_of(big, 40, p.hash, 20); p.slot = 0;
  m_point(&p);
  char path[80];
  m_stored(path, "/r", &p);
  char dir[8] = "/r/";
  // directories of the stored file
  memcpy(dir + 3, path + 3, 1); dir[4] = 0; vx_mkdir_p(dir, 0755, 0, 0, 1);
  memcpy(dir, path, 7); dir[7] = 0; vx_mkdir_p(dir, 0755, 0, 0, 1);
  vx_mkfile(path, big, 40, 0644, 0, 0, 1);
  m_u64(0);
  m_name("l"); m_u8(MP_MIRROR); m_u64(1);
  p.id = 0; p.type = MT_LNK; p.tlen = 3; memcpy(p.target, "tgt", 3);
  m_point(&p);
  m_u64(0);
  m_name("d"); m_u8(MP_COPY); m_u64(1);
  p.id = 1; p.type = MT_DIR;
  m_point(&p);
  m_u64(0);
}

#ifdef THOROUGH
#define MAXH 3
#else
#define MAXH 2
#endif
#ifdef ODD
// An index which decodes but means nonsense: any policies, histories of any
// length and type, any order of backup ids, repeated or unusual names.
static void odd_point(int i, const char *what) {
  MPoint p;
  memset(&p, 0, sizeof p);
  p.id = sx_choose(2, "id");
  p.type = sx_choose(4, "type");
  p.uid = 1; p.gid = 2; p.mode = 0644 | (i ? 010000 : 0); p.mtime = i ? (uint64_t)-1 : 500;
  if (p.type == MT_REG) {
    if (sx_choose(2, "stored")) { p.size = 40; memset(p.hash, 0xa5, 20); p.slot = 3; }
    else { p.size = 3; memcpy(p.hash, "abc", 3); }
  }
  if (p.type == MT_LNK) { p.tlen = 2; sx_sym(p.target, 2, "target"); }
  m_point(&p);
}
static void odd_node(const char *name, int maxh) {
  m_name(name);
  m_u8(sx_int(8, "policy"));
  int n = sx_choose(maxh + 1, "points");
  m_u64(n);
  for (int i = 0; i < n; i++) odd_point(i, name);
}
#ifdef THOROUGH
#define NAMELEN 5
#else
#define NAMELEN 4
#endif
static char nm_[NAMELEN]; static uint32_t nml_;
static bool bad_name(void) {
  unsigned bad = 0;
  for (uint32_t i = 0; i < nml_; i++) bad |= (nm_[i] == 0) | (nm_[i] == '/');
  if (nml_ == 1) bad |= nm_[0] == '.';
  if (nml_ == 2) bad |= (nm_[0] == '.') & (nm_[1] == '.');
  return sx_conc(bad) != 0;
}
static void odd(void) {
  mn = 0;
  m_u64(2); m_u64(2000); m_u64(1000);
#if ODD == 3
  int nc = sx_choose(3, "configs");
  m_u64(nc);
  for (int i = 0; i < nc; i++) odd_point(i, "config");
#else
  m_u64(0);
#endif
  m_u64(2);
  m_u64(1);
#if ODD == 4
  {
    m_name("s"); m_u8(MP_MIRROR); m_u64(1);
    MPoint p;
    memset(&p, 0, sizeof p);
    p.type = MT_DIR; p.uid = 1; p.gid = 2; p.mode = 0755; p.mtime = 100;
    m_point(&p);
  }
#else
  odd_node("s", 1);
#endif
#if ODD == 3
  m_u64(0);
#elif ODD == 1
  m_u64(1);
  odd_node("f", MAXH);
  m_u64(0);
#elif ODD == 4
  // one name of any bytes
  nml_ = 1 + sx_choose(NAMELEN, "length");
  sx_sym(nm_, nml_, "name");
  m_u64(1); m_len(nml_); m_bytes(nm_, nml_); m_u8(MP_COPY); m_u64(1);
  MPoint p;
  memset(&p, 0, sizeof p);
  p.type = MT_REG; p.mode = 0644; p.mtime = 1; p.size = 1; p.hash[0] = 'c';
  m_point(&p); m_u64(0);
#else
  m_u64(2);
  odd_node("f", 1);
  m_u64(0);
  static char nm[2];
  sx_sym(nm, 1, "name");
  m_u64(1); m_bytes(nm, 1); m_u8(MP_COPY); m_u64(1);
  MPoint p;
  memset(&p, 0, sizeof p);
  p.type = MT_REG; p.mode = 0644; p.mtime = 1; p.size = 1; p.hash[0] = 'c';
  m_point(&p); m_u64(0);
#endif
}
#endif

void harness(void) {
  vx_print_abstract = true;
#ifdef ODD
  fs_basic(sx_choose(2, "config") ? "[copy]\n/s\n" : "[track]\n/s\n");
#else
  fs_basic("[track]\n/s\n\n[mirror]\n/s/l\n\n[copy]\n/s/d\n");
#endif
  build();
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/f", "xyz", 3, 7);
  vx_mklink("/s/l", "t2", 1, 2);
  set_mtime("/s", 100);
  uint32_t len = mn;
  bool too_long = false;
#ifdef ODD
  odd();
  len = mn;
#elif defined(ANY)
  // nothing of the index is known
  len = sx_choose(ANY + 1, "length");
  sx_sym(mb, len, "byte");
#elif defined(CUT)
  len = sx_choose(mn, "length");
  sx_cover("truncated");
#else
#ifdef FIELD
  uint32_t f = FIELD;
#else
  uint32_t f = sx_choose(mfn, "field");
#endif
  if (mf[f].n) sx_sym(mb + mf[f].at, mf[f].n, "byte");
  if (mf[f].len) {
    // lengths which move the rest of the decoding within the file
    uint64_t v;
    memcpy(&v, mb + mf[f].at, 8);
    too_long = v > mn;
    if (v <= mn) { v = sx_conc(v); memcpy(mb + mf[f].at, &v, 8); }
  }
#endif
  vx_mkfile("/r/metadata", mb, len, 0644, 0, 0, 1);
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_clone_tree("/s", "/x/s");
  int rc = 0;
  bool no = false;
#ifdef CMD
  unsigned c = CMD;
#else
  unsigned c = sx_choose(7, "command");
#endif
  switch (c) {
  case 0: rc = vx_nb("n\n", "/r", "0", NULL, NULL); no = true; break;
  case 1: rc = nb_integrity(); no = true; break;
  case 2: rc = vx_nb("n\n", "/r", NULL, NULL, NULL); no = true; break;
  case 3: rc = nb_gc(); no = rc != 0; break;
  case 4: rc = nb_restore(1, "/s/f"); break;
  case 5: rc = nb_backup(); break;
  case 6: rc = nb_restore(0, NULL); break;
  }
  if (rc != 0) {
    sx_assert(rc == 1 && (vx_errlen > 0 || vx_out_has("(y/n)")), "a failure comes with an error message");
    sx_cover("rejected");
  } else sx_cover("accepted");
  if (no) {
    vx_wipe("/r/lockfile");
    set_mtime("/r", 0);
    sx_assert(vx_tree_eq("/r", "/x/r"), "the repository is not modified");
    sx_assert(vx_tree_eq("/s", "/x/s"), "no file is modified");
  }
  if (too_long) sx_assert(rc != 0 && !vx_out_has("(y/n)"), "a length beyond the end is rejected");
#if defined(ODD) && ODD == 4
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  if (bad_name()) {
    sx_assert(rc != 0 && !vx_out_has("(y/n)"), "an impossible name is rejected");
    sx_assert(vx_tree_eq("/r", "/x/r") && vx_tree_eq("/s", "/x/s"), "an impossible name modifies nothing");
  } else sx_assert(rc == 0 || vx_out_has("(y/n)") || c == 4 || c == 1, "any other name is accepted");
#endif
#ifdef CUT
  sx_assert(rc != 0, "a truncated index is rejected");
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  sx_assert(vx_tree_eq("/r", "/x/r") && vx_tree_eq("/s", "/x/s"), "a truncated index modifies nothing");
#endif
}
