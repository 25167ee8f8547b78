// Whatever is configured and whatever lies around: backups, collections and
// integrity checks change nothing outside of the repository.
#include "lib.h"
static const char *const conf[] = {
  "[copy]\n/s\n",
  "[mirror]\n/\n",                                   // the repository within the saved tree
  "[track]\n/s//.*\n[copy]\n/s/d\n",
  "[mirror]\n/s/lnk/inner\n/s/file\n[ignore]\nb$\n",   // through a symlink
  "[copy]\n/s/lnk\n/s/dang\n/s/fifo\n/missing\n",
  "[mirror]\n/s\n[track]\n/r\n[summarize]\n/s\n",
};
static const char *const spell[][2] = {{"/r", "/"}, {"/r/", "/"}, {"r", "/"}, {"../r//", "/s"}, {"/lnk", "/"}, {".", "/r"}};
static void run(unsigned sp, const char *cmd) {
  vx_set_cwd(spell[sp][1]);
  const char *a[] = {"nb", spell[sp][0], cmd};
  vx_set_stdin("y\n", 2);
  vx_now += 7;
  vx_nbv(cmd ? 3 : 2, a);
  vx_set_cwd("/");
}
void harness(void) {
  unsigned c = sx_choose(sizeof conf / sizeof *conf, "config"), sp = sx_choose(6, "spelling");
  fs_basic(conf[c]);
  vx_guard = true;
  vx_mklink("/lnk", "/r", 0, 0);
  vx_mkdir_p("/o", 0755, 0, 0, 100);
  put_file("/o/inner", "outside of the saved tree, but linked to", 40, 100);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put_file("/s/file", "a file which is larger than the limit", 37, 100);
  put_file("/s/ab", "small", 5, 100);
  vx_mkdir_p("/s/d", 0700, 1, 2, 100);
  put_file("/s/d/x", "another file of some size", 25, 100);
  sym_attrs(node("/s/file"), true);
  sym_attrs(node("/s/d"), true);
  vx_mklink("/s/lnk", "../o", 1, 1);
  vx_mklink("/s/dang", "/nothing/there", 1, 1);
  vx_mklink("/s/d/loop", "loop", 1, 1);
  vx_mkodd("/s/fifo", sx_choose(4, "odd"));
  run(sp, NULL);
  sx_cover("first backup");
  switch (sx_choose(6, "change")) {
  case 0: vx_wipe("/s/d"); put_file("/s/d", "now a file, large enough to be stored", 37, 200); break;
  case 1: vx_wipe("/s/file"); vx_mklink("/s/file", "/o/inner", 3, 3); break;
  case 2: vx_wipe("/s"); break;
  case 3: vx_wipe("/s/lnk"); vx_mkdir_p("/s/lnk", 0755, 1, 1, 300); put_file("/s/lnk/inner", "x", 1, 300); break;
  case 4: edit("/s/file", "different content of another length, stored", 43, 300); vx_wipe("/s/d/x"); break;
  case 5: vx_mklink("/r/up", "..", 0, 0); vx_mklink("/r/o", "/o", 0, 0); vx_mklink("/r/inner", "/o/inner", 0, 0); put_file("/o/more", "m", 1, 1); break;
  }
  if (sx_choose(2, "rules")) set_config(conf[sx_choose(sizeof conf / sizeof *conf, "new-config")]);
  run(sx_choose(2, "respelled") ? (sp + 1) % 6 : sp, NULL);
  run(sp, "gc");
  run(sp, "integrity");
  sx_cover("finished");
}
