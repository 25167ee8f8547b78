// An integrity check of many paths, any number of which are damaged.
#define M_SIZE 48000
#include "meta.h"
static char line_[40];
static const char *name(int i) {
  static char n[5] = "f000";
  n[1] = (char)('0' + i / 100); n[2] = (char)('0' + i / 10 % 10); n[3] = (char)('0' + i % 10);
  return n;
}
void harness(void) {
  static const int counts[] = {0, 1, 2, 10, 127, 128, 129, 255, 256, 257, 512};
  fs_basic("");
  int nbad = counts[sx_choose(11, "damaged")], ngood = (int)sx_choose(2, "healthy");
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(1); m_u64(1000); m_u64(0);
  m_u64((uint64_t)(nbad + ngood));
  m_u64((uint64_t)(nbad + ngood));
  p.type = MT_REG; p.uid = 10; p.gid = 20; p.mode = 0100644; p.mtime = 500;
  for (int i = 0; i < nbad + ngood; i++) {
    m_name(name(i)); m_u8(MP_COPY); m_u64(1);
    p.size = i < nbad ? 30 : 3;
    memcpy(p.hash, "\xa1\xb2zzzzzzzzzzzzzzzzzz", 20);
    m_point(&p);
    m_u64(0);
  }
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  int rc = nb_integrity();
  sx_assert((rc != 0) == (nbad != 0), "it fails exactly if something is lost");
  sx_assert(vx_out_count("?? ") == nbad, "as many paths are named as are damaged");
  for (int i = 0; i < nbad; i += nbad > 20 ? nbad / 5 : 1) {
    cat(line_, "?? /", name(i)); strcat(line_, " (corrupted)\n");
    sx_assert(vx_out_count(line_) == 1, "each of them is named once");
  }
  sx_cover(nbad == 0 ? "healthy" : nbad < 200 ? "damaged" : "many damaged");
}
