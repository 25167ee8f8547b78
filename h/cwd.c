// Relative paths while the working directory has a path of any length.
#include "lib.h"
static char dir_[800], file_[900];
void harness(void) {
  fs_basic("[copy]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/f", "top", 3, 200);
  uint8_t below[5];
  sx_sym(below, 5, "content");
  strcpy(dir_, "/s");
#ifdef THOROUGH
  unsigned levels = sx_choose(12, "levels");
#else
  unsigned levels = sx_choose(8, "levels");
#endif
  unsigned width = levels ? (unsigned[]){3, 17, 56}[sx_choose(3, "width")] : 0, end = levels ? 1 + sx_choose(56, "last") : 0;
  for (unsigned i = 0; i < levels; i++) {
    size_t n = strlen(dir_);
    unsigned w = i + 1 == levels ? end : width;
    dir_[n] = '/';
    memset(dir_ + n + 1, 'g' + (int)i, w);
    dir_[n + 1 + w] = 0;
    vx_mkdir_p(dir_, 0755, 1, 2, 100);
    cat(file_, dir_, "/f");
    put_file(file_, below, 5, 201 + i);
    set_mtime(dir_, 100);
  }
  set_mtime("/s", 100);
  cat(file_, dir_, "/f");
  vx_clone_tree("/s", "/x/s");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  edit(file_, "altered", 7, 999);
  set_mtime("/s/f", 888);
  vx_set_cwd(dir_);
  unsigned how = sx_choose(3, "request");
  static const char *req[] = {"f", "f/", ""};
  sx_assert(nb_restore(0, req[how]) == 0, "the restore succeeds");
  sx_assert(vx_tree_eq(file_, cat((char[900]){0}, "/x", file_)), "a relative path is below the working directory");
  if (levels) sx_assert(nodep("/s/f")->mtime == 888, "nothing else is restored");
  sx_cover(strlen(dir_) > 255 ? "long" : "short");
}
