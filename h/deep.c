// Deep trees: directories within directories to any depth up to LEVELS, a
// file beside each of them, and a second rule somewhere below the first.
#define M_NODES 64
#include "meta.h"
#ifdef THOROUGH
#define LEVELS 24
#else
#define LEVELS 18
#endif
static MIndex ix_;
static char d_[LEVELS + 1][4 + 2 * LEVELS], conf_[600];
static void beside(char *b, int i, char c) { char n[3] = {'/', c, 0}; cat(b, d_[i], n); }
void harness(void) {
  fs_basic("");
  int levels = 1 + (int)sx_choose(LEVELS, "levels"), at = (int)sx_choose((unsigned)levels + 1, "second rule at");
  unsigned form = at ? sx_choose(3, "form") : 0, both = sx_choose(2, "beside");
  vx_dir_reverse = sx_choose(2, "order");
  strcpy(d_[0], "/s");
  for (int i = 1; i <= levels; i++) cat(d_[i], d_[i - 1], "/b");
  char b[8 + 2 * LEVELS];
  strcat(conf_, "[copy]\n/s\n");
  if (form == 2) strcpy(conf_, "");  // only the deep one
  if (at) {
    strcat(conf_, "[track]\n");
    if (form == 1) { strcat(conf_, d_[at - 1]); strcat(conf_, "//^b$\n"); } else { strcat(conf_, d_[at]); strcat(conf_, "\n"); }
  }
  set_config(conf_);
  for (int i = 0; i <= levels; i++) vx_mkdir_p(d_[i], 0755, 1, 2, 50);
  for (int i = 0; i <= levels; i++) {
    beside(b, i, 'a'); put_file(b, "a file", 6, 300 + i);
    if (both) { beside(b, i, 'c'); put_file(b, "a file which is stored on its own", 33, 300 + i); }
  }
  for (int i = levels; i >= 0; i--) set_mtime(d_[i], 500 + i);
  vx_clone_tree("/s", "/x/0");
  sx_assert(nb_backup() == 0, "the backup succeeds");
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "the index can be read");
  int want = 0;
  for (int i = 0; i <= levels; i++) {
    int pol = at && i >= at ? MP_TRACK : form == 2 ? MP_NONE : MP_COPY;
    MNode *m = m_find(&ix_, d_[i]);
    sx_assert(m && m->policy == pol && m->np == 1 && m->p[0].type == MT_DIR && (pol == MP_NONE || m->p[0].mtime == (uint64_t)(500 + i)), "every directory is in the backup with the policy of its rule");
    want++;
    for (int k = 0; k <= (int)both; k++) {
      beside(b, i, k ? 'c' : 'a');
      m = m_find(&ix_, b);
      if (pol == MP_NONE) { sx_assert(!m, "what no rule covers is not in the backup"); continue; }
      sx_assert(m && m->policy == pol && m->np == 1 && m->p[0].type == MT_REG && m->p[0].mtime == (uint64_t)(300 + i), "every file is in the backup with the policy of its directory");
      want++;
    }
  }
  sx_assert(ix_.nnode == want, "each path is there once");
  if (levels > LEVELS - 3) sx_cover("deep");
  // the same tree comes back, from anywhere in it
  int from = (int)sx_choose(3, "restored from");
  from = from == 0 ? 0 : from == 1 ? at : levels;
  if (form != 2) {
    char w[8 + 2 * LEVELS];
    vx_wipe("/s");
    sx_assert(nb_restore(0, d_[from]) == 0, "what was found is restored");
    cat(w, "/x/0", d_[from] + 2);
    sx_assert(vx_tree_eq(d_[from], w), "and is what was saved");
    sx_cover("restored");
  }
  sx_assert(nb_integrity() == 0, "nothing is damaged");
}
