// Sizes as they are printed, for every size.
#include "lib.h"
#include "informations.h"
static uint64_t s_;
static void go(void *arg) { (void)arg; printHumanReadableSize(s_); }
static int at_;
static uint64_t number(void) {
  if (vx_out[at_] == '#') { int k = vx_out[at_ + 1] - 'a'; at_ += 2; return vx_token[k]; }
  sx_assert(vx_out[at_] >= '0' && vx_out[at_] <= '9', "a number is printed");
  uint64_t v = 0;
  while (vx_out[at_] >= '0' && vx_out[at_] <= '9') v = v * 10 + (uint64_t)(vx_out[at_++] - '0');
  return v;
}
static bool next(const char *t) {
  size_t n = strlen(t);
  if (at_ + n > vx_outlen || vx_bytes_differ(vx_out + at_, t, n)) return false;
  at_ += (int)n;
  return true;
}
void harness(void) {
  vx_fs_init();
  unsigned bits = sx_choose(65, "bits");
  s_ = bits == 0 ? 0 : bits == 1 ? 1 : (uint64_t)1 << (bits - 1) | (sx_int(64, "size") & (((uint64_t)1 << (bits - 1)) - 1));
  vx_print_tokens = true;
  sx_assert(vx_run(go, NULL) == 0, "no error");
  vx_print_tokens = false;
  uint64_t whole = number();
  if (next(" b")) {
    sx_assert(whole == s_, "bytes are printed as they are");
    sx_assert(s_ < 1000, "what has more than three digits is printed in larger units");
    sx_cover("b");
  } else {
    sx_assert(next("."), "a fraction is printed");
    uint64_t tenth = number();
    static const char *unit[] = {" KiB", " MiB", " GiB", " TiB"};
    unsigned u = 0;
    while (u < 4 && !next(unit[u])) u++;
    sx_assert(u < 4, "a unit is printed");
    unsigned shift = 10 * (u + 1);
    uint64_t f = ((s_ & (((uint64_t)1 << shift) - 1)) * 10) >> shift;
    sx_assert(tenth < 10, "one digit after the point");
    if (s_ >> 49 == 0) sx_assert(whole == s_ >> shift && tenth == f, "the number is the size in this unit");
    else {  // from 512 TiB on the digit after the point is not decided, and the number may be rounded
      sx_assert(whole == s_ >> shift || whole == (s_ >> shift) + 1, "the number is the size in this unit");
      sx_cover("huge");
    }
    uint64_t below = s_ >> (shift - 10), part = ((s_ & (((uint64_t)1 << (shift - 10)) - 1)) * 10) >> (shift - 10);
    sx_assert(below > 999 || (below == 999 && part >= 9), "a smaller unit would not do");
    if (u < 3) sx_assert(whole <= 999, "a larger unit would not do");
    sx_cover(unit[u] + 1);
  }
  sx_assert(at_ == (int)vx_outlen, "nothing else is printed");
}
