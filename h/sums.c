// Totals of sizes at full width, other than those of a backup (totals.c).
#include "meta.h"
static uint64_t printed_;
void ov_printHumanReadableSize(uint64_t v) { printed_ = v; }
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) { (void)p; (void)n; (void)k; return 0; }
static uint64_t sum_; static bool over_;
static uint64_t add(unsigned bits) {
  uint64_t n = sx_int(bits, "size");
  over_ |= sum_ + n < sum_;
  sum_ += n;
  return n;
}
void harness(void) {
  fs_basic("[copy]\n/s\n");
#ifdef GC
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(1); m_u64(1000); m_u64(0);
  m_u64(0);
  m_u64(0);
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  static const char *f[] = {"/r/j1", "/r/j2", "/r/n/j3"};
  vx_mkdir_p("/r/n", 0755, 0, 0, 50);
  for (int i = 0; i < 3; i++) {
    int k = vx_mkfile(f[i], "", 0, 0644, 0, 0, 50);
    vx_node[k]->ghost = true;
    uint64_t old = sum_;
    vx_node[k]->len = i ? add(63) : INT64_MAX;
    if (!i) sum_ = old + INT64_MAX;
  }
  const char *a[] = {"nb", "/r", "gc"};
  int rc = vx_nbv(3, a);
  if (sx_conc(over_)) { sx_assert(rc != 0 && vx_errlen > 0, "a total which does not fit is an error"); sx_cover("overflow"); return; }
  sx_assert(rc == 0, "the command succeeds");
  sx_assert(printed_ == sum_, "the size of what was removed is exact");
  sx_cover("fits");
#else
  static const char *f[] = {"f", "g", "h"};
  MPoint p;
  memset(&p, 0, sizeof p);
  mn = 0;
  m_u64(1); m_u64(1000); m_u64(0);
  m_u64(3);
  m_u64(3);
  for (int i = 0; i < 3; i++) {
    m_name(f[i]); m_u8(MP_COPY); m_u64(1);
    p.type = MT_REG; p.uid = 10; p.gid = 20; p.mode = 0100644; p.mtime = 500;
    p.size = add(64);
    sx_assume(p.size >> 60 != 0);  // 16 digits
    memset(p.hash, 'a' + i, 20);
    m_point(&p);
    m_u64(0);
  }
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  const char *a[] = {"nb", "/r", "integrity"};
  int rc = vx_nbv(3, a);
  sx_assert(rc != 0, "the command does not succeed");
  bool listed = vx_out_has("/f") || vx_err_has("/f");
  if (sx_conc(over_)) { sx_assert(!listed && vx_errlen > 0, "a total which does not fit is an error"); sx_cover("overflow"); return; }
  sx_assert(listed && (vx_out_has("/g") || vx_err_has("/g")) && (vx_out_has("/h") || vx_err_has("/h")), "what is missing is named");
  sx_cover("fits");
#endif
}
