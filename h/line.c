// Lines of input and number arguments.
#include "lib.h"
#include "safe-wrappers.h"
extern FILE *vx_stdin;
#ifndef LEN
#ifdef THOROUGH
#define LEN 8
#else
#define LEN 6
#endif
#endif
static char in_[4200]; static uint32_t len_;
#ifdef NUMBER
#include <limits.h>
static char *s_; static uint64_t got_;
static void go(void *arg) {
  (void)arg;
  got_ = sStringToSize(sx_conc(len_ & 1) ? strUnterminated(s_, len_) : str(s_));
}
void harness(void) {
  vx_fs_init();
  // digits only, as the command line requires before: short ones, and ones
  // around the limits with their last digits symbolic
  static const char *const lim[] = {"9223372036854775807", "18446744073709551615", "92233720368547758070", "340282366920938463463374607431768211456", "00000000000000000000000012"};
  unsigned w = sx_choose(6, "which");
  if (w == 0) { len_ = 1 + sx_choose(5, "length"); sx_sym(in_, len_, "digit"); }
  else {
    len_ = strlen(lim[w - 1]);
    memcpy(in_, lim[w - 1], len_);
    sx_sym(in_ + len_ - 2, 2, "digit");
  }
  uint64_t v = 0; bool big = false;
  for (uint32_t i = 0; i < len_; i++) {
    sx_assume((in_[i] >= '0') & (in_[i] <= '9'));
    uint64_t d = (uint64_t)(in_[i] - '0');
    if (big) continue;
    if (sx_conc(v > ((uint64_t)LLONG_MAX - d) / 10)) big = true; else v = v * 10 + d;
  }
  s_ = sx_heap_alloc(len_ + 1);
  memcpy(s_, in_, len_); s_[len_] = 0;
  int rc = vx_run(go, NULL);
  if (big) { sx_assert(rc == 1 && vx_errlen > 0, "a number which is too large is rejected with a message"); sx_cover("too large"); }
  else { sx_assert(rc == 0 && got_ == v, "a number has exactly its value"); sx_cover("number"); }
}
#else
static void go(void *arg) {
  (void)arg;
  CR_Region *r = CR_RegionNew();
  Allocator *a = allocatorWrapRegion(r);
  uint32_t pos = 0, n = 0, at[64], ln[64];
  const char *got[64];
  for (;;) {
    StringView line = str("untouched");
    bool ok = sReadLine(vx_stdin, a, &line);
    if (pos >= len_) {
      sx_assert(!ok && line.length == 0, "the end of input is told apart from a line");
      break;
    }
    uint32_t e = pos;
    while (e < len_ && in_[e] != '\n' && in_[e] != '\r' && in_[e] != 0) e++;
    sx_assert(ok, "there is another line");
    sx_assert(line.length == e - pos, "a line ends at its terminator");
    sx_assert(!vx_bytes_differ(line.content, in_ + pos, e - pos), "the bytes of a line are returned unchanged");
    at[n] = pos; ln[n] = e - pos; got[n] = line.content; n++;
    pos = e + 1;
  }
  for (uint32_t i = 0; i < n; i++) sx_assert(!vx_bytes_differ(got[i], in_ + at[i], ln[i]), "earlier lines stay as they were");
  sx_cover(n == 0 ? "no line" : n == 1 ? "one line" : "several lines");
}
void harness(void) {
  vx_fs_init();
  static const unsigned longs[] = {126, 250, 500, 508, 1020, 2044, 4092};
  unsigned pre = sx_choose(10, "before");
  if (pre > 2) { len_ = longs[pre - 3]; memset(in_, 'q', len_); }
  if (pre == 1) { memcpy(in_, "abcdefghijklmn", 14); len_ = 14; }
  if (pre == 2) { memcpy(in_, "abc", 3); len_ = 3; }
  unsigned n = pre > 2 ? LEN : sx_choose(LEN + 1, "length");
  sx_sym(in_ + len_, n, "input");
  len_ += n;
  vx_set_stdin(in_, len_);
  sx_assert(vx_run(go, NULL) == 0, "no error");
}
#endif
