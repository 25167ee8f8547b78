// A history of hundreds of backups: one more is added, and any of them is
// restored.
#define M_SIZE 48000
#include "meta.h"
static uint8_t c_[300][4];
void harness(void) {
  fs_basic("[track]\n/s\n");
  static const unsigned counts[] = {254, 255, 256, 257, 300};
  unsigned n = counts[sx_choose(5, "backups")];
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(n);
  for (unsigned i = 0; i < n; i++) m_u64(90000 - i);
  m_u64(0);
  m_u64(2);
  m_u64(1);
  m_name("s"); m_u8(MP_TRACK); m_u64(1);
  p.id = n - 1; p.type = MT_DIR; p.uid = 1; p.gid = 2; p.mode = 0755; p.mtime = 100;
  m_point(&p);
  m_u64(1);
  m_name("f"); m_u8(MP_TRACK); m_u64(n);
  sx_sym(c_, sizeof c_, "content");
  for (unsigned i = 0; i < n; i++) {
    p.id = i; p.type = MT_REG; p.mode = 0644; p.mtime = 5000 - i; p.size = 4;
    memcpy(p.hash, c_[i], 4);
    m_point(&p);
  }
  m_u64(0);
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkfile("/s/f", "new content", 11, 0644, 1, 2, 6000);
  set_mtime("/s", 100);
  bool again = sx_choose(2, "one more");
  if (again) sx_assert(nb_backup() == 0, "another backup succeeds");
  static const unsigned ids[] = {0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 299, 300};
  unsigned k = ids[sx_choose(13, "number")];
  if (k > n || (!again && k == n)) return;
  int rc = nb_restore(k, "/s");
  sx_assert(rc == 0, "each backup can be restored");
  VNode *f = nodep("/s/f");
  if (again && k == 0) sx_assert(f->len == 11 && f->mtime == 6000, "the latest one is the new one");
  else {
    unsigned i = k - again;
    sx_assert(f->len == 4 && f->mtime == 5000 - (int64_t)i && vx_bytes_differ(f->data, c_[i], 4) == 0, "what was saved is back");
  }
  sx_cover(again ? "after one more" : "as it was");
}
