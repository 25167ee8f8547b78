// Hashes and comparisons of files of any content, at sizes around the limits
// of blocks, for different block sizes.
#include "meta.h"
#include <sys/stat.h>
#include "file-hash.h"
void ov_printHumanReadableSize(uint64_t v) { }
#ifdef WHOLE
// the block size of the file system differs from run to run
void harness(void) {
  static const uint32_t blk[] = {16, 32, 33, 4096};
  static const unsigned size[] = {21, 31, 32, 33, 48, 64, 65};
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  unsigned n = size[sx_choose(7, "size")];
  uint8_t d[80], e[80];
  sx_sym(d, n, "content");
  memcpy(e, d, n);
  unsigned at = sx_choose(4, "position");
  at = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? 16 : n / 2;
  e[at] ^= (uint8_t)(1 + sx_choose(2, "difference") * 127);
  vx_blksize = blk[sx_choose(4, "block size")];
  put_file("/s/a", d, n, 500);
  set_mtime("/s", 100);
  sx_assert(nb_backup() == 0, "backup");
  vx_blksize = blk[sx_choose(4, "block size")];
  put_file("/s/b", d, n, 600);
  put_file("/s/c", e, n, 600);
  set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/s");
  vx_now += 1000;
  sx_assert(nb_backup() == 0, "backup");
  sx_assert(blob(1) >= 0 && blob(2) < 0, "equal content is stored once, other content on its own");
  vx_blksize = blk[sx_choose(4, "block size")];
  sx_assert(nb_integrity() == 0, "hashes are the same at every block size");
  vx_wipe("/s");
  sx_assert(nb_restore(0, "/s") == 0 && vx_tree_eq("/s", "/x/s"), "every file has its own content");
  sx_cover("whole");
}
#else
static uint8_t d_[200], out_[20], want_[20]; static unsigned n_;
static uint64_t sum_; static int calls_, data_;
static void progress(size_t bytes, void *data) { sx_assert(data == &data_ && bytes > 0, "progress is reported"); sum_ += bytes; calls_++; }
static void go(void *arg) {
  (void)arg;
  struct stat st;
  memset(&st, 0, sizeof st);
  st.st_size = n_; st.st_blksize = vx_blksize;
  memset(out_, 0, 20);
  bool cb = sx_choose(2, "progress");
  fileHash(str("/x/f"), st, out_, cb ? progress : NULL, &data_);
  sx_assert(!vx_bytes_differ(out_, want_, 20), "the hash is that of the whole content");
  sx_assert(!cb || sum_ == n_, "progress adds up to the size");
  // the buffer is used again for another block size
  st.st_blksize = 1 + sx_choose(3, "other block size") * 63;
  memset(out_, 0, 20);
  fileHash(str("/x/f"), st, out_, NULL, NULL);
  sx_assert(!vx_bytes_differ(out_, want_, 20), "the hash does not depend on the block size");
  // the size is not what it was
  long delta = (long)sx_choose(3, "size differs") - 1;
  if (delta == 0 || (delta < 0 && !n_)) { sx_cover("hashed"); return; }
  st.st_size += delta;
  sx_cover("size differs");
  fileHash(str("/x/f"), st, out_, NULL, NULL);
  sx_fail("a size which changed is an error");
}
void harness(void) {
#ifdef THOROUGH
  unsigned max = 80;
#else
  unsigned max = 34;
#endif
  vx_fs_init();
  vx_mkdir_p("/x", 0755, 0, 0, 0);
  n_ = sx_choose(max + 1, "size");
  static const uint32_t more[] = {63, 64, 65, 512, 4096};
  unsigned b = sx_choose(21, "block size");
  vx_blksize = b < 16 ? 1 + b : more[b - 16];
  sx_sym(d_, n_, "content");
  vx_mkfile("/x/f", d_, n_, 0644, 0, 0, 5);
  vx_hash_of(d_, n_, want_, 20);
  int rc = vx_run(go, NULL);
  sx_assert(rc == 0 || (rc == 1 && vx_errlen > 0), "or an error");
}
#endif
