// A configured path below another configured directory, each with a policy of
// its own: what vanishes is treated by the policy which governs it.
#include "lib.h"
#ifdef THOROUGH
#define LATER 3
#else
#define LATER 2
#endif
enum { P_NONE, P_COPY, P_MIRROR, P_TRACK };
static const char *pol_[] = {"", "copy", "mirror", "track"};
static char conf_[120];
static void rule(const char *policy, const char *path) { strcat(conf_, "["); strcat(conf_, policy); strcat(conf_, "]\n"); strcat(conf_, path); strcat(conf_, "\n"); }
static void keep(const char *path, unsigned policy, const char *saved, bool empty) {
  // the whole tree is wiped, then everything is asked for
  vx_wipe("/s");
  if (sx_choose(2, "alone")) {
    int rc = nb_restore(0, path);
    if (policy == P_COPY) sx_assert(rc == 0, "what vanished is restored on its own");
    else sx_assert(rc != 0, "what was forgotten cannot be restored on its own");
  } else {
    int rc = nb_restore(0, "/s");
    if (empty) sx_assert(rc != 0, "the backup is empty"); else sx_assert(rc == 0, "the rest is restored");
  }
  if (policy == P_COPY) { sx_assert(vx_tree_eq(path, saved), "what vanished is kept"); sx_cover("kept"); }
  else { sx_assert(node(path) < 0, "what vanished is not in the latest backup"); sx_cover(policy == P_TRACK ? "in the history" : "forgotten"); }
  if (policy == P_TRACK) {
    bool ok = false;
    for (int id = 1; id <= LATER && !ok; id++) { vx_wipe("/s"); ok = nb_restore(id, path) == 0 && vx_tree_eq(path, saved); }
    sx_assert(ok, "the history keeps what vanished");
  }
}
void harness(void) {
  unsigned outer = sx_choose(4, "outer policy"), inner = 1 + sx_choose(3, "inner policy"), form = sx_choose(3, "rule");
  static const char *rules[] = {"/s/p", "/s//^p$", "/s/p/c"};
  bool deep = form == 2;
  fs_basic("");
  if (outer != P_NONE) rule(pol_[outer], "/s");
  rule(pol_[inner], rules[form]);
  if (deep && outer == P_NONE) rule("copy", "/s/o");
  set_config(conf_);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  int kind = deep ? K_DIR : (int)sx_choose(K_NKINDS - 1, "kind") + 1;
  mkkind("/s/p", kind, 1, kind != K_DIR);
  if (kind == K_DIR) { mkkind("/s/p/c", deep ? (int)sx_choose(K_NKINDS - 1, "child") + 1 : K_BIG, 2, true); put_file("/s/p/d", "stays", 5, 300); set_mtime("/s/p", 200); }
  put_file("/s/o", "a file of the outer directory", 29, 300);
  put_file("/s/z", "another of the outer directory", 30, 300);
  set_mtime("/s", 100);
  vx_clone_tree("/s", "/x/0");
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  unsigned gone = sx_choose(4, "vanished");
  const char *path = gone == 0 ? "/s/p" : gone == 1 ? "/s/p/c" : gone == 2 ? "/s/o" : "/s/p/d";
  const char *saved = gone == 0 ? "/x/0/p" : gone == 1 ? "/x/0/p/c" : gone == 2 ? "/x/0/o" : "/x/0/p/d";
  unsigned policy = gone == 2 || (deep && gone != 1) ? outer : inner;
  if (deep && outer == P_NONE && gone == 2) policy = P_COPY;
  sx_assume(node(path) >= 0 && policy != P_NONE);
  // a mirrored directory takes everything below along; what is kept of a copied one with a rule of its own inside is not specified
  sx_assume(!(deep && gone == 0));
  vx_wipe(path);
  for (unsigned i = 0; i < LATER; i++) {
    vx_now += 1000;
    sx_assert(nb_backup() == 0, "the later backups succeed");
  }
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  bool empty = outer == P_NONE && gone == 0 && inner == P_MIRROR;  // not even the parents are needed any more
  // what is still there is still saved
  if (sx_choose(2, "the rest")) {
    sx_assume(!empty);
    vx_wipe("/s");
    sx_assert(nb_restore(0, "/s") == 0, "the rest is restored");
    if (gone != 0 && !(deep && outer == P_NONE && gone == 1)) sx_assert(node("/s/p") >= 0 && (kind != K_DIR || gone == 3 || (deep && outer == P_NONE) || vx_tree_eq("/s/p/d", "/x/0/p/d")), "the rest is kept");
    if (outer != P_NONE) sx_assert(vx_tree_eq("/s/z", "/x/0/z"), "the rest is kept");
    sx_cover("the rest");
  } else keep(path, policy, saved, empty);
}
