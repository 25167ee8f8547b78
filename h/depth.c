// The memory a search takes does not grow with the number of entries which
// are passed over.
#include "lib.h"
#ifdef THOROUGH
#define MANY 120
#else
#define MANY 40
#endif
static uint64_t max_;
static void hook(const char *call, const char *path) { (void)call; (void)path; uint64_t d = sx_depth(); if (d > max_) max_ = d; }
static void names(const char *dir, unsigned n, char *conf) {
  for (unsigned i = 0; i < n; i++) {
    char b[20];
    cat(b, dir, "/f00");
    int l = (int)strlen(b);
    b[l] = (char)('0' + i / 10 % 10); b[l - 1] = (char)('0' + i / 100); b[l + 1] = (char)('0' + i % 10); b[l + 2] = 0;
    if (conf) { strcat(conf, b); strcat(conf, "\n"); }
    else put_file(b, "", 0, 10);
  }
}
static char conf_[MANY * 10 + 80];
static uint64_t measure(unsigned how, unsigned n) {
  vx_wipe("/s"); vx_wipe("/r/metadata");
  vx_mkdir_p("/s", 0755, 1, 2, 5);
  conf_[0] = 0;
  static const char *c[] = {"[copy]\n/s//^z\n", "[copy]\n/s\n[ignore]\n/f[0-9]+$\n", "[copy]\n"};
  strcat(conf_, c[how]);
  names("/s", n, how == 2 ? conf_ : NULL);
  set_config(conf_);
  set_mtime("/s", 5);
  max_ = 0;
  vx_hook = hook;
  sx_assert(nb_backup() == 0, "the backup succeeds");
  vx_hook = NULL;
  return max_;
}
void harness(void) {
  fs_basic("");
  unsigned how = sx_choose(3, "passed over because"), n = 2 + sx_choose(MANY - 1, "number");
  uint64_t few = measure(how, 1), many = measure(how, n);
  sx_assert(many <= few + (n > 20 ? n / 2 : 10), "the stack does not grow with the number of entries passed over");
  static const char *l[] = {"no rule", "ignored", "not there"};
  if (n > 30) sx_cover(l[how]);
}
