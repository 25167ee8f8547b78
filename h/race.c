// Another process changes a file at any system call of a backup.
#include "lib.h"
static uint8_t old_[40], new_[48];
static uint32_t n_, at_; static bool on_, done_, asked_, before_answer_;
static int what_; static const char *who_; static int newtime_; static uint32_t newlen_;
enum { APPEND, CUT, EMPTY, REWRITE, REPLACE, REMOVE, ODIR, NWHAT };
static void change(void) {
  int i = node(who_);
  int64_t t = vx_node[i]->mtime;
  switch (what_) {
  case APPEND: newlen_ = (uint32_t)vx_node[i]->len + 5; vx_set_data(i, new_, newlen_); break;
  case CUT: newlen_ = (uint32_t)vx_node[i]->len - 4; vx_set_data(i, new_, newlen_); break;
  case EMPTY: newlen_ = 0; vx_set_data(i, "", 0); break;
  case REWRITE: newlen_ = (uint32_t)vx_node[i]->len; vx_set_data(i, new_, newlen_); break;
  case REPLACE: newlen_ = (uint32_t)vx_node[i]->len; vx_wipe(who_); put_file(who_, new_, newlen_, t); break;
  case REMOVE: vx_wipe(who_); break;
  case ODIR: vx_wipe(who_); vx_mkdir_p(who_, 0755, 1, 2, t); break;
  }
  if (newtime_ && node(who_) >= 0) set_mtime(who_, t + newtime_);
  set_mtime("/s", 100);
}
static void hook(const char *call, const char *path) {
  (void)path;
  if (!on_) return;
  if (strcmp(call, "answer") == 0) { asked_ = true; if (done_) before_answer_ = true; return; }
  if (done_) return;
  if (n_++ == at_) { done_ = true; change(); }
}
static bool is(const char *p, const uint8_t *d, uint32_t n) {
  VNode *x = nodep(p);
  return x && x->type == VT_REG && x->len == n && sx_conc(vx_bytes_differ(x->data, d, n) == 0);
}
void harness(void) {
  fs_basic("[track]\n/s\n");
  vx_blksize = 16;
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  pattern(old_, sizeof old_, 1);
  pattern(new_, sizeof new_, 1);
  unsigned target = sx_choose(2, "target");
  uint32_t len = target ? 12 : 40;
  who_ = "/s/f";
  unsigned before = sx_choose(target ? 3 : 4, "before");  // new, changed, replaced a link, same content stored already
  if (before == 1) put_file("/s/f", "before", 6, 300);
  if (before == 2) vx_mklink("/s/f", "before", 1, 1);
  put_file("/s/a", before == 3 ? (char *)old_ : "the first of all files has more than twenty bytes", 40, 301);
  set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/old");
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  vx_now += 1000;
  vx_wipe("/s/f");
  put_file("/s/f", old_, len, 500);
  put_file("/s/z", "zz", 2, 500);
  set_mtime("/s", 100);
  what_ = (int)sx_choose(NWHAT, "what");
  newtime_ = sx_choose(2, "time");
  if (newtime_) newtime_ = sx_choose(2, "backwards") ? -1 : 3;
  // bytes which differ, in any block
#ifdef THOROUGH
  for (int i = 0; i < 40; i += 13) sx_sym(new_ + i, 1, "byte");
#else
  new_[0] = (uint8_t)sx_int(8, "byte"); new_[len - 1] = (uint8_t)sx_int(8, "byte");
#endif
  at_ = (uint32_t)sx_int(32, "at");
  vx_hook = hook;
  on_ = true;
  int rc = nb_backup();
  on_ = false;
  vx_hook = NULL;
  if (!done_) { sx_assert(rc == 0, "without a change the backup succeeds"); sx_cover("no change"); return; }
  if (rc) { sx_assert(vx_errlen > 0, "a failed backup says so"); sx_cover("refused"); }
  else sx_cover("stored");
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  vx_clone_tree("/s", "/x/now");
  vx_wipe("/s");
  sx_assert(nb_restore(rc ? 0 : 1, NULL) == 0 && vx_tree_eq("/s", "/x/old"), "the earlier backup can be restored");
  if (!rc) {
    vx_wipe("/s");
    sx_assert(nb_restore(0, NULL) == 0, "the new backup can be restored");
    bool o = is("/s/f", old_, len), w = what_ <= REPLACE && is("/s/f", new_, newlen_), gone = what_ == REMOVE && node("/s/f") < 0, dir = what_ == ODIR && node("/s/f") >= 0 && nodep("/s/f")->type == VT_DIR;
    sx_assert(o || w || gone || dir, "what is stored is the content from before or after the change");
    sx_assert(is("/s/z", (const uint8_t *)"zz", 2), "other files are stored as they are");
    if (before_answer_ && newtime_ && w && !o) {
      sx_assert(nodep("/s/f")->mtime == 500 + newtime_, "what changed before the question was answered is not stored with its former time");
      sx_cover("changed before the answer");
    }
    sx_cover(o ? "before" : "after");
  }
  vx_wipe("/s");
  vx_clone_tree("/x/now", "/s");
  sx_assert(nb_backup() == 0, "a later backup succeeds");
  if (!newtime_ && (what_ == REWRITE || what_ == REPLACE)) return;  // not noticed: same size and time
  vx_wipe("/s");
  sx_assert(nb_restore(0, NULL) == 0 && vx_tree_eq("/s", "/x/now"), "a later backup is complete");
}
