// Every answer to the questions of backup and restore.
#include "lib.h"
#ifndef LEN
#ifdef THOROUGH
#define LEN 6
#else
#define LEN 5
#endif
#endif
static char in_[700];
static uint32_t len;

static bool line_is(uint32_t a, uint32_t b, const char *s) {
  uint32_t n = strlen(s);
  if (b - a != n) return false;
  return vx_bytes_differ(in_ + a, s, n) == 0;
}
// number of lines read, negative if the answer is yes
static int judge(void) {
  uint32_t pos = 0;
  for (int lines = 1;; lines++) {
    if (pos >= len) return lines;
    uint32_t a = pos;
    while (pos < len && in_[pos] != '\n' && in_[pos] != '\r' && in_[pos] != 0) pos++;
    uint32_t b = pos++;
    if (line_is(a, b, "n") || line_is(a, b, "no")) return lines;
    if (line_is(a, b, "y") || line_is(a, b, "yes")) return -lines;
  }
}

void harness(void) {
  fs_basic("[copy]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/f", "stored in a file of its own", 27, 300);
  put_file("/s/g", "small", 5, 300);
  set_mtime("/s", 100);
  unsigned what = sx_choose(3, "command");
  if (what != 0) sx_assert(nb_backup() == 0, "backup succeeds");
  vx_clone_tree("/s", "/x/before");
  vx_now += 100;
  if (what == 1) edit("/s/f", "changed after the backup", 24, 301);
  if (what == 2) { vx_wipe("/s/g"); edit("/s/f", "altered", 7, 302); set_mtime("/s", 100); }
  static const char *pre[] = {"", "xxxxxxxx\n", "yesyesy", "\r"};
  unsigned pi = sx_choose(7, "before");
  if (pi < 4) {
    len = strlen(pre[pi]);
    memcpy(in_, pre[pi], len);
  } else { static const unsigned longs[] = {128, 256, 512}; len = longs[pi - 4]; memset(in_, 'x', len); }
  unsigned n = pi < 4 ? sx_choose(LEN + 1, "length") : 2;
  sx_sym(in_ + len, n, "answer");
  len += n;
  vx_set_stdin(in_, len);
  vx_wipe("/r/lockfile");
  set_mtime("/r", 0);
  vx_clone_tree("/r", "/x/r");
  vx_clone_tree("/s", "/x/s");
  vx_tty = pi == 0 && n < 5 && sx_choose(2, "terminal");
  int rc = what < 2 ? vx_nb(NULL, "/r", NULL, NULL, NULL) : vx_nb(NULL, "/r", "0", "/s", NULL);
  int j = judge();
  sx_assert(vx_out_count("(y/n)") == (j < 0 ? -j : j), "it asks again exactly for answers which are neither");
  if (j > 0) {
    sx_cover(j > 1 ? "refused after asking again" : "refused");
    sx_assert(rc == 1, "a refused command fails");
    sx_assert(vx_tree_eq("/s", "/x/s"), "nothing is restored unless confirmed");
    vx_wipe("/r/lockfile");
    set_mtime("/r", 0);
    sx_assert(vx_tree_eq("/r", "/x/r"), "nothing is backed up unless confirmed");
  } else {
    sx_cover(j < -1 ? "confirmed after asking again" : "confirmed");
    sx_assert(rc == 0, "a confirmed command succeeds");
    if (what == 2) sx_assert(vx_tree_eq("/s", "/x/before"), "what was confirmed is restored");
    else {
      sx_assert(vx_nb("", "/r", NULL, NULL, NULL) == 0, "what was confirmed is backed up");
    }
  }
}
