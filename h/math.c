// Checked arithmetic on all operands.
#include "lib.h"
#include "safe-math.h"

static uint64_t A, B, R;
static unsigned op;
static bool done;
static void body(void *p) {
  (void)p;
  switch (op) {
  case 0: R = sSizeAdd(A, B); break;
  case 1: R = sUint64Add(A, B); break;
  case 2: R = sUint64GetDifference(A, B); break;
  case 3: R = sSizeMul(A, B); break;
  case 4: R = sUint64Mul(A, B); break;
  }
  done = true;
}
void harness(void) {
  vx_fs_init();
#ifdef MUL
  op = 3 + sx_choose(2, "operation");
#else
  op = sx_choose(3, "operation");
#endif
  A = sx_int(64, "a"); B = sx_int(64, "b");
#ifdef MUL
  // the factor is wide, the count is one of the boundary widths: the solver
  // decides the wrap-around for every factor
  static const uint64_t bs[] = {0, 1, 2, 3, 8, 10, 24, 32, 48, 1000, 1024, 4096, 0x7fffffff, 0x100000000ull, 0x100000001ull, 0xffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
  B = bs[sx_choose(18, "factor")];
  if (sx_choose(2, "swapped")) { uint64_t t = A; A = B; B = t; }
#endif
  int rc = vx_run(body, NULL);
  bool fits;
  uint64_t want;
  if (op < 2) { want = A + B; fits = want >= A; }
  else if (op == 2) { want = A > B ? A - B : B - A; fits = true; }
  else { unsigned __int128 w = (unsigned __int128)A * B; want = (uint64_t)w; fits = (w >> 64) == 0; }
  if (done) {
    sx_assert(fits, "a result which does not fit is not returned");
    sx_assert(R == want && rc == 0, "the result is exact");
    sx_cover("fits");
  } else {
    sx_assert(!fits, "a result which fits is returned");
    sx_assert(rc != 0 && vx_errlen > 0, "an overflow ends the program with an error");
    sx_cover("overflow");
  }
}
