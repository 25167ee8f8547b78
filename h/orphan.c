// A configured path vanishes along with directories above it which have no
// policy of their own.
#include "lib.h"
static const char *rules[] = {"/s/p/c", "/s/p/q/c", "/s/p//^c$", "/s//p/c"};
static const char *top[] = {"/s/p", "/s/p/q", "/s"};
void harness(void) {
  unsigned form = sx_choose(4, "rule");
#if TRACK
  const char *policy = "[track]\n";
#else
  unsigned mirror = sx_choose(2, "policy");
  const char *policy = mirror ? "[mirror]\n" : "[copy]\n";
#endif
  static char conf[80];
  strcat(conf, policy); strcat(conf, rules[form]); strcat(conf, "\n/s/o\n[copy]\n/t\n");
  fs_basic(conf);
  const char *c = form == 1 ? "/s/p/q/c" : "/s/p/c";
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  vx_mkdir_p("/s/p", 0750, 3, 4, 100);
  if (form == 1) vx_mkdir_p("/s/p/q", 0700, 3, 4, 100);
  int kind = (int)sx_choose(K_NKINDS - 1, "kind") + 1;
  mkkind(c, kind, 1, true);
  put_file("/s/o", "another configured path", 23, 300);
  put_file("/t", "it stays", 8, 300);
  vx_clone_tree("/s", "/x/s"); vx_clone_tree(c, "/x/c");
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  unsigned t = sx_choose(3, "vanished");
  sx_assume(t != 1 || form == 1);
  vx_wipe(top[t]);
  unsigned later = 1 + sx_choose(2, "more");
  for (unsigned i = 0; i < later; i++) { vx_now += 1000; sx_assert(nb_backup() == 0, "the later backups succeed"); }
  sx_assert(nb_integrity() == 0, "nothing is damaged");
  vx_wipe("/s");
  if (sx_choose(2, "back")) {  // what comes back is saved again
    vx_clone_tree("/x/s", "/s");
    sx_assert(nb_backup() == 0, "a backup succeeds when it is back");
    nothing_left();
    vx_wipe("/s");
    sx_assert(nb_restore(0, "/s") == 0 && node(c) >= 0 && vx_tree_eq(c, "/x/c"), "what came back is restored");
    sx_cover("back");
    return;
  }
  bool whole = sx_choose(2, "whole");
  int rc = nb_restore(0, whole ? "/s" : c);
#if TRACK
  bool latest = node(c) >= 0, ok = false;
  for (unsigned id = 0; id <= later && !ok; id++) { vx_wipe("/s"); ok = nb_restore((int)id, c) == 0 && vx_tree_eq(c, "/x/c"); }
  sx_assert(ok, "the history keeps what vanished");
  sx_cover("in the history");
  (void)rc;
  sx_assert(!latest, "a tracked path which vanished along with a directory above it without a policy is not in the latest backup");
#else
  if (!mirror) {
    sx_assert(rc == 0 && node(c) >= 0 && vx_tree_eq(c, "/x/c"), "a copied path which vanished along with a directory above it is kept");
    sx_cover("kept");
  } else {
    if (node(c) >= 0) sx_assert(vx_tree_eq(c, "/x/c"), "what is kept is what was saved");
    sx_assert(node(c) < 0, "a mirrored path which vanished along with a directory above it without a policy is forgotten");
  }
#endif
  if (t != 2) { vx_wipe("/s"); sx_assert(nb_restore(0, "/s/o") == 0 && vx_tree_eq("/s/o", "/x/s/o"), "others are restored as they were"); }
}
