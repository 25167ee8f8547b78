// Warnings about rules which match nothing.
#include "lib.h"
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) { (void)p; (void)n; (void)k; return 0; }
static const char *conf_ =
  "[copy]\n/s\n/s/a\n/s/b/c\n/s//^r[0-9]$\n[ignore]\n/q.$\na/y$\n# nothing\n[summarize]\n^/s/b$\n\n^/s/d.$\n[mirror]\n/t/u/v\n/t/w\n/s/b/e\n//^w/z\n";
//   1      2   3    4      5             6        7     8     9          10           11        12 13       14      15    16    17     18
static char want_[16][80]; static int nwant_;
static char name_[4];
static bool yes(unsigned c) { return sx_conc(c != 0) != 0; }
static void want(const char *w) { strcpy(want_[nwant_++], w); }
static void expect(void) {
  int lines = 0;
  for (uint32_t i = 0; i < vx_errlen; i++) lines += vx_err[i] == '\n';
  for (int k = 0; k < nwant_; k++) {
    char b[100]; cat(b, "config: line ", want_[k]); strcat(b, "\"\n");
    if (!vx_err_has(b)) sx_puts(b);
    sx_assert(vx_err_has(b), "what matched nothing is named");
  }
  sx_assert(lines == nwant_, "and nothing else is");
}
enum { ABSENT, FILE_, DIR_, LINKDIR, FIFO, NKIND };
static bool bdir(int b) { return b == DIR_ || b == LINKDIR; }
static void mk(const char *p, int k) {
  switch (k) {
  case FILE_: put_file(p, "f", 1, 10); break;
  case DIR_: vx_mkdir_p(p, 0755, 1, 2, 10); break;
  case LINKDIR: vx_mklink(p, "/o", 1, 2); break;
  case FIFO: vx_mkodd(p, sx_choose(4, "odd")); break;
  }
}
void harness(void) {
  fs_basic(conf_);
  vx_mkdir_p("/o", 0755, 1, 2, 5);
  put_file("/o/c", "c", 1, 10);
  vx_mkdir_p("/s", 0755, 1, 2, 5);
  unsigned focus = sx_choose(3, "varied");
  int a = ABSENT, b = DIR_, t = ABSENT, u = ABSENT; bool y = false, c = false, e = false, w = false, named = false, nd = false;
  if (focus == 0) { a = (int)sx_choose(NKIND, "a"); if (a == DIR_) y = sx_choose(2, "y"); named = true; }
  if (focus == 1) { b = (int)sx_choose(NKIND, "b"); if (b == DIR_) { c = sx_choose(2, "c"); e = sx_choose(2, "e"); } if (b == LINKDIR) c = true; }
  if (focus == 2) { static const int k[] = {ABSENT, FILE_, DIR_, FIFO}; t = k[sx_choose(4, "t")]; if (t == DIR_) { u = (int)sx_choose(NKIND, "u"); w = sx_choose(2, "w"); } }
#ifdef THOROUGH
  named = true;
#endif
  mk("/s/a", a);
  if (y) put_file("/s/a/y", "y", 1, 10);
  mk("/s/b", b);
  if (c && b == DIR_) put_file("/s/b/c", "c", 1, 10);
  if (e) put_file("/s/b/e", "c", 1, 10);
  if (named) {
    sx_sym(name_, 2, "name");
    for (int i = 0; i < 2; i++) sx_assume((name_[i] != 0) & (name_[i] != '/') & (name_[i] != '.'));
    char p[8]; cat(p, "/s/", name_);
    nd = sx_choose(2, "directory");
    mk(p, nd ? DIR_ : FILE_);
  }
  set_mtime("/s", 5);
  mk("/t", t);
  if (t == DIR_) { mk("/t/u", u); if (w) put_file("/t/w", "w", 1, 10); if (u == DIR_) put_file("/t/u/v", "v", 1, 10); set_mtime("/t", 5); }
  bool w1 = focus == 1 && sx_choose(2, "w1"), w2 = focus == 1 && sx_choose(2, "w2"), z = w1 && sx_choose(2, "z");
  if (w1) { vx_mkdir_p("/w1", 0755, 1, 2, 5); if (z) put_file("/w1/z", "z", 1, 10); }
  if (w2) switch (sx_choose(3, "kind")) {
    case 0: put_file("/w2", "w", 1, 10); break;
    case 1: vx_mkodd("/w2", (int)sx_choose(4, "odd")); break;
    case 2: vx_mklink("/w2", "/o/c", 1, 2); break;
  }
  unsigned second = sx_choose(bdir(b) ? 3 : 2, "second backup");
  if (second) {
    sx_assert(nb_backup() == 0, "backup");
    if (second == 2) { vx_wipe("/s/b"); set_mtime("/s", 5); b = ABSENT; }
    sx_cover("second");
  }
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  sx_assert(rc == 1 || second, "the backup asks");
  uint8_t n0 = (uint8_t)name_[0], n1 = (uint8_t)name_[1];
  if (a == ABSENT) want("3: string never matched a file: \"a");
  if (b == ABSENT) want("4: string never matched a directory: \"b");
  else if (!bdir(b)) want("4: string matches, but not a directory: \"b");
  else { if (!c) want("4: string never matched a file: \"c"); if (!e) want("17: string never matched a file: \"e"); }
  if (!named || !yes((n0 == 'r') & (n1 >= '0') & (n1 <= '9'))) want("5: regex never matched a file: \"^r[0-9]$");
  if (!named || !yes(n0 == 'q')) want("7: regex never matched a path: \"/q.$");
  if (!y) want("8: regex never matched a path: \"a/y$");
  if (!bdir(b) && second != 2) want("11: regex never matched a directory: \"^/s/b$");
  if (!named || !nd || !yes(n0 == 'd')) want("13: regex never matched a directory: \"^/s/d.$");
  if (t == ABSENT) want("15: string never matched a directory: \"t");
  if (t == FILE_ || t == FIFO) want("15: string matches, but not a directory: \"t");
  if (t == DIR_) {
    if (u == ABSENT) want("15: string never matched a directory: \"u");
    if (u == FILE_ || u == FIFO) want("15: string matches, but not a directory: \"u");
    if (u == LINKDIR) want("15: string never matched a file: \"v");
    if (!w) want("16: string never matched a file: \"w");
  }
  if (!w1 && !w2) want("18: regex never matched a directory: \"^w");
  if (w2) want(w1 ? "18: regex matches not only directories: \"^w" : "18: regex matches, but not a directory: \"^w");
  if (w1 && !z) want("18: string never matched a file: \"z");
  expect();
  sx_cover(nwant_ > 8 ? "much" : "little");
}
