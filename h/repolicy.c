// A path gets another policy: the backup announces it, and says so if saved
// states are given up by that.
#include "lib.h"
static const char *pol_[] = {"copy", "mirror", "track"};
static const char *path_[] = {"/s/p", "/s/p/c"};
static int n_[2];        // saved states of each path
static bool gone_[2];    // recorded as gone
static void config(unsigned p, bool inherit) {
  static char b[40];
  b[0] = 0;
  strcat(b, "["); strcat(b, pol_[p]); strcat(b, inherit ? "]\n/s\n" : "]\n/s/p\n");
  set_config(b);
}
static bool word(int o, int e, const char *w) {
  int m = (int)strlen(w);
  for (; o + m <= e; o++) if (vx_bytes_differ(vx_out + o, w, m) == 0) return true;
  return false;
}
static int line_(const char *p, int *end) {  // the line of a path
  int m = (int)strlen(p);
  for (int o = 0, e; o < (int)vx_outlen; o = e + 1) {
    for (e = o; e < (int)vx_outlen && vx_out[e] != '\n';) e++;
    if (e - o < m + 3 || vx_out[o + 2] != ' ') continue;
    int q = o + 3 + (vx_out[o + 3] == '^');
    if (q + m > e || vx_bytes_differ(vx_out + q, p, m)) continue;
    char c = q + m < e ? vx_out[q + m] : '\n';
    if (c == '/') c = q + m + 1 < e ? vx_out[q + m + 1] : '\n';
    if (c == '\n' || c == ' ') { *end = e; return o; }
  }
  return -1;
}
static bool isdir_;
static void version(int i, int v) {  // v: 0 as before, 1 another state, 2 gone
  if (v == 0) return;
  vx_now += 1000;
  if (v == 2) vx_wipe(path_[i]);
  else if (node(path_[i]) < 0) mkkind(path_[i], i == 0 && isdir_ ? K_DIR : K_SMALL, 1, false);
  if (v == 1) {
    VNode *n = nodep(path_[i]);
    n->mtime = 3000 + (n_[0] + n_[1]) * 10 + i;
    if (n->type == VT_REG) { char d[4] = {'v', (char)('0' + n_[i]), '.', 0}; vx_set_data(node(path_[i]), d, 3); n->mtime = 4000 + n_[i] * 5; }
  }
  set_mtime("/s", 100);
}
void harness(void) {
  fs_basic("");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  isdir_ = sx_choose(2, "directory");
  unsigned a = sx_choose(3, "first policy"), b = sx_choose(3, "second policy");
  bool ia = sx_choose(2, "inherited"), ib = sx_choose(2, "then inherited");
  int top = isdir_ ? 1 : 0;  // the path which changes
  if (isdir_) mkkind("/s/p", K_DIR, 1, false);
  mkkind(path_[top], K_SMALL, 1, false);
  if (isdir_) set_mtime("/s/p", 207);
  set_mtime("/s", 100);
  config(a, ia);
  sx_assert(nb_backup() == 0, "the first backup succeeds");
  n_[0] = n_[1] = 1;
  for (int i = 0; i < 2; i++) {
    unsigned v = sx_choose(3, "then");
    if (v == 2 && node(path_[top]) < 0) return;
    if (v == 0 && i == 0 && sx_choose(2, "twice")) return;
    version(top, v);
    if (isdir_) {
      if (node("/s/p") >= 0) { bool t = v == 0 && sx_choose(2, "touched"); if (t) n_[0]++; set_mtime("/s/p", 200 + 7 * n_[0]); if (a != 2) n_[0] = t || n_[0] > 1 ? n_[0] : 1; }
    }
    if (v == 1) { n_[top]++; gone_[top] = false; }
    if (v == 2) gone_[top] = true;
    sx_assert(nb_backup() == 0, "the next backup succeeds");
  }
  if (a == 1 && gone_[top]) { sx_assert(true, "nothing is left of it"); return; }
  unsigned last = sx_choose(4, "at last");
  if (last >= 2 && node(path_[top]) < 0) return;
  bool owner = false;
  if (last < 3) version(top, last);
  else {
    VNode *n = nodep(path_[top]);
    uint32_t old = n->uid;
    n->uid = (uint32_t)sx_int(32, "uid");
    sx_assume(n->uid != 0xffffffffu);
    owner = sx_conc(n->uid != old);
  }
  if (isdir_) set_mtime("/s/p", 200 + 7 * n_[0]);
  if (!ib && node("/s/p") < 0) return;  // summed up at its parent, see C22
  config(b, ib);
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  if (a != b) sx_assert(rc != 0, "a change of policy is asked for");
  for (int i = 0; i <= top; i++) {
    int e = 0, o = line_(path_[i], &e);
    bool lost = a == 2 && n_[i] > 1;
    if (i == top && last == 1) {
      sx_assert(o >= 0, "a path which changed along with its policy is printed");
      bool anew = gone_[i] && a == 2 && b == 2;
      sx_assert(vx_out[o] == (anew ? '+' : '!'), "with its marker");
      sx_cover("changed");
    }
    if (i == top && last == 2 && !gone_[i]) { sx_assert(o >= 0 && vx_out[o] == (b == 1 ? 'x' : '-'), "a path which vanished along with a change of policy is printed"); sx_cover("vanished"); }
    if (i == top) {
      sx_assert((o >= 0 && word(o, e, "owner")) == owner, "another owner is named, also along with a change of policy");
      if (owner) sx_cover("owner");
    }
    if (a != b) {
      if (o < 0) {
        int pe, po = line_(i ? "/s/p" : "/s", &pe);
        if (po < 0) po = line_("/s", &pe);
        sx_assert(po >= 0 && word(po, pe, "policy changed") && !lost, "a path is left out only if all there is to tell is the policy of its parent");
        continue;
      }
      sx_assert(word(o, e, "policy changed"), "a change of policy is named");
      sx_assert(word(o, e, "looses history") == lost, "saved states which are given up are announced");
      sx_cover(lost ? "history given up" : "nothing given up");
    } else {
      if (o >= 0) sx_assert(!word(o, e, "policy changed") && !word(o, e, "looses history"), "no change of policy is made up");
      sx_cover("same policy");
    }
  }
}
