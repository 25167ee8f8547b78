// Histories of backups over /s/p (and /s/p/c) during which the configuration
// changes. The latest saved state of what is still configured must be there.
#include "lib.h"
#ifndef STEPS
#ifdef THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
#endif
enum { C_COPY, C_MIRROR, C_TRACK, C_INHERIT = 4, C_UNCONF = 8, C_IGNORED, C_N };
static const char *pol_[] = {"copy", "mirror", "track"};
static void config(int c) {
  static char b[80];
  if (c == C_UNCONF) { set_config("[copy]\n/q\n"); return; }
  if (c == C_IGNORED) { set_config("[copy]\n/s\n[ignore]\n/p$\n"); return; }
  b[0] = 0;
  strcat(b, "["); strcat(b, pol_[c & 3]); strcat(b, (c & C_INHERIT) ? "]\n/s\n" : "]\n/s/p\n");
  set_config(b);
}
// the latest saved state of /s/p and /s/p/c
static const char *path_[] = {"/s/p", "/s/p/c"};
static const char *keep_[] = {"/x/p", "/x/c"};
static bool has_[2], anyid_[2];
static void drop(int i) { has_[i] = false; vx_wipe(keep_[i]); anyid_[i] = false; }
static int last_ = C_UNCONF;
static void model(int c) {
  // leaving track gives up the history, and what was below a directory which is none any more is only part of that
  if (last_ < C_UNCONF && (last_ & 3) == C_TRACK && (c >= C_UNCONF || (c & 3) != C_TRACK) && has_[0] && nodep(keep_[0])->type != VT_DIR) drop(1);
  last_ = c;
  bool isdir = node(path_[0]) >= 0 && nodep(path_[0])->type == VT_DIR;
  for (int i = 0; i < 2; i++) {
    if (c >= C_UNCONF) { drop(i); continue; }
    if (node(path_[i]) >= 0) { drop(i); has_[i] = true; vx_clone_tree(path_[i], keep_[i]); if (i == 0) vx_wipe("/x/p/c"); set_mtime(keep_[i], nodep(path_[i])->mtime); continue; }
    if (!has_[i]) continue;
    switch (c & 3) {
    case C_MIRROR: drop(i); break;
    case C_COPY: if (i == 1 && node(path_[0]) >= 0 && !isdir) drop(i); break;
    case C_TRACK: anyid_[i] = true; break;
    }
  }
}
static void check(int n) {
  for (int i = 0; i < 2; i++) {
    bool ok = false;
    for (int id = 0; id < (anyid_[i] ? n : 1) && !ok; id++) {
      vx_wipe("/s");
      int rc = nb_restore(id, path_[i]);
      if (!has_[i]) { sx_assert(rc != 0 && node(path_[i]) < 0, "what left the backup is not restored"); sx_cover("left the backup"); continue; }
      if (rc != 0) { sx_assert(anyid_[i], "the latest saved state is restored"); continue; }
      if (i == 0 && node("/s/p/c") >= 0) { int64_t t = nodep("/s/p")->mtime; vx_wipe("/s/p/c"); set_mtime("/s/p", t); }
      if (anyid_[i]) ok = vx_tree_eq(path_[i], keep_[i]);
      else { sx_assert(vx_tree_eq(path_[i], keep_[i]), "what is restored is the latest saved state"); ok = true; }
    }
    if (has_[i]) { sx_assert(ok, "the latest saved state can be restored"); sx_cover(anyid_[i] ? "in the history" : "latest"); }
  }
}
static unsigned c1_, c2_;
void harness(void) {
  fs_basic("");
  unsigned f1 = sx_choose(2, "inherited"), p1 = sx_choose(3, "first policy");
  unsigned f2 = sx_choose(3, "second form"), p2 = f2 == 2 ? sx_choose(2, "not") : sx_choose(3, "second policy");
  c1_ = f1 * C_INHERIT + p1;
  c2_ = f2 == 2 ? C_UNCONF + p2 : f2 * C_INHERIT + p2;
  unsigned at = 1 + sx_choose(STEPS - 1, "changed at");
  int k = 0; bool ch = false;
  for (unsigned i = 0; i < STEPS; i++) {
    config(i < at ? (int)c1_ : (int)c2_);
    unsigned what = sx_choose(i ? 6 : 4, "kind");
    if (what < 5) {
      static const int kinds[] = {K_BIG, K_DIR, K_DIR, K_LINK, K_ABSENT};
      k = kinds[what]; ch = what == 2;
      vx_wipe("/s");
      vx_now += 1000;
      vx_mkdir_p("/s", 0755, 1, 2, 100);
      mkkind("/s/p", k, i + 1, i == STEPS - 1);
      if (ch) { int64_t t = nodep("/s/p")->mtime; mkkind("/s/p/c", K_BIG, i + 9, false); set_mtime("/s/p", t); }
      set_mtime("/s", 100);
    } else sx_cover("nothing but the configuration changed");
    model(i < at ? (int)c1_ : (int)c2_);
    vx_wipe("/x/s");
    vx_clone_tree("/s", "/x/s");
    sx_assert(nb_backup() == 0, "the backup succeeds");
    if (i + 1 == STEPS) break;
  }
  // Paths with the policy copy which are gone are announced every time, also
  // if they were below a directory which is gone and got another policy since.
  // So is a directory whose only configured path does not exist (known finding).
  bool gone = false;
  for (int i = 0; i < 2; i++) gone |= has_[i] && node(path_[i]) < 0;
  bool same = c2_ < C_UNCONF && (c2_ & 3) == (c1_ & 3) && (c2_ & 3) != C_COPY;
  if (!gone || same)
    if (c2_ >= C_UNCONF || (c2_ & C_INHERIT) || node("/s/p") >= 0) nothing_left();
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  check(STEPS);
  // what is there is restored together
  if (c2_ < C_UNCONF && node("/x/s/p") >= 0) {
    vx_wipe("/s");
    sx_assert(nb_restore(0, "/s") == 0, "the whole restores");
    if (nodep("/x/s/p")->type != VT_DIR) sx_assert(vx_tree_eq("/s/p", "/x/s/p"), "the path is restored along with its parent");
    else if (node("/x/s/p/c") >= 0) sx_assert(vx_tree_eq("/s/p/c", "/x/s/p/c"), "the path is restored along with its parents");
  }
}
