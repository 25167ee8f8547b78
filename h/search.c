// Which paths a configuration selects, and with which policy: the index of a
// first backup against a reading of the rules which knows no directories to
// be walked.
#include "meta.h"
static MIndex ix_;
enum { ROOT, S, A, AX, AY, B, O, OX, OY, NP };
static const char *path_[] = {"", "/s", "/s/a", "/s/a/x", "/s/a/y", "/s/b", "/o", "/o/x", "/o/y"};
static const char *name_[] = {"", "s", "a", "x", "y", "b", "o", "x", "y"};
static const int up_[] = {-1, ROOT, S, A, A, S, ROOT, O, O};
static const char *rule_[] = {"/s", "/s/a", "/s/a/x", "/s//^[ab]$", "/s//^./x", "//^s/a", "/s/b/x", "/s/none/x", "/s//a|b/y", "/"};
#define NRULE 10
static const char *pol_[] = {"copy", "mirror", "track"};
// ---- rules as components
typedef struct { const char *c[3]; int n; int policy, at; } Rule;
static Rule r_[2]; static int nr_;
static char comp_[8][16]; static int ncomp_;
static void read_rule(Rule *r, const char *t) {
  r->n = 0;
  if (!t[1]) return;  // the root
  while (*t) {
    char *o = comp_[ncomp_++];
    t++;
    int k = 0;
    if (*t == '/') o[k++] = *t++;  // an expression
    while (*t && *t != '/') o[k++] = *t++;
    o[k] = 0;
    r->c[r->n++] = o;
  }
}
static bool fits(const char *c, const char *name) {
  if (*c != '/') return !strcmp(c, name);
  if (!strcmp(c, "/^[ab]$")) return !strcmp(name, "a") || !strcmp(name, "b");
  if (!strcmp(c, "/^.")) return true;
  if (!strcmp(c, "/^s")) return name[0] == 's';
  return strchr(name, 'a') || strchr(name, 'b');  // "a|b"
}
// a place in the rules: the components shared by a rule up to some depth
typedef struct { int rule, depth; } Place;
static bool same_place(Place a, Place b) {
  if (a.depth != b.depth) return false;
  for (int i = 0; i < a.depth; i++) if (strcmp(r_[a.rule].c[i], r_[b.rule].c[i])) return false;
  return true;
}
static bool passes(int rule, Place p) {  // the rule goes through that place
  if (r_[rule].n < p.depth) return false;
  Place q = {rule, p.depth};
  return same_place(q, p);
}
static int policy_of(Place p) {
  for (int d = p.depth; d >= 0; d--) for (int i = 0; i < nr_; i++) { Place q = {p.rule, d}; if (r_[i].n == d && passes(i, q)) return r_[i].policy; }
  return MP_NONE;
}
static bool has_below(Place p) { for (int i = 0; i < nr_; i++) if (r_[i].n > p.depth && passes(i, p)) return true; return false; }
// ---- the tree
enum { T_FILE, T_DIR, T_LINKDIR, T_LINKFILE, T_DANGLING, T_FIFO, T_ABSENT, T_N };
static int ta_, tx_, ignore_;
static bool ignored(int i) {
  if (i == ROOT) return false;
  switch (ignore_) {
  case 1: return name_[i][0] == 'x';       // /x$|/Y$|^/S
  case 2: return !strncmp(path_[i], "/s/a", 4);  // ^/s/a
  case 3: return i == S || i == B || i == O;  // ^/[so]$|b$
  }
  return false;
}
static bool seen_[NP]; static int pol_seen_[NP], type_[NP]; static bool fails_;
static int found_type(int i, bool follow) {
  int t = i == A ? ta_ : i == AX || i == OX ? tx_ : i == S || i == O ? T_DIR : T_FILE;
  if (i >= O && i != OX) t = i == O ? T_DIR : T_FILE;
  if (t == T_LINKDIR) return follow ? MT_DIR : MT_LNK;
  if (t == T_LINKFILE) return follow ? MT_REG : MT_LNK;
  if (t == T_DANGLING) { if (follow) fails_ = true; return MT_LNK; }
  return t == T_FILE ? MT_REG : t == T_DIR ? MT_DIR : t == T_FIFO ? 9 : MT_NONE;
}
static bool there(int i) {
  if (i == A) return ta_ != T_ABSENT;
  if (i == AX || i == AY) return (ta_ == T_DIR || ta_ == T_LINKDIR) && (i == AY || tx_ != T_ABSENT);
  if (i == OX) return tx_ != T_ABSENT;
  return true;
}
static void walk(int dir, bool placed, Place at, int policy) {
  for (int i = 1; i < NP; i++) {
    if (up_[i] != dir || !there(i)) continue;
    int n = 0; Place hit = {0, 0};
    if (placed) for (int k = 0; k < nr_; k++) {
      if (r_[k].n <= at.depth || !passes(k, at) || !fits(r_[k].c[at.depth], name_[i])) continue;
      Place q = {k, at.depth + 1};
      if (n && same_place(q, hit)) continue;
      hit = q; n++;
    }
    if (n > 1) { fails_ = true; return; }
    if (!n && (policy == MP_NONE || ignored(i))) continue;
    seen_[i] = true;
    pol_seen_[i] = n ? policy_of(hit) : policy;
    type_[i] = found_type(i, n && has_below(hit));
    if (type_[i] == MT_DIR) walk(i, n, hit, pol_seen_[i]);
    if (fails_) return;
  }
}
static bool needed(int i) {
  if (!seen_[i] || type_[i] == 9) return false;
  if (pol_seen_[i] != MP_NONE) return true;
  for (int k = 1; k < NP; k++) if (up_[k] == i && needed(k)) return true;
  return false;
}
static bool fifo_opened_;
static void hook(const char *call, const char *path) {
  if (!path || (strcmp(call, "open") && strcmp(call, "fopen"))) return;
  int i = vx_lookup(path, true);
  if (i >= 0 && vx_node[i]->type == VT_FIFO) fifo_opened_ = true;
}
static void leaf(const char *p, int t, unsigned k) {
  switch (t) {
  case T_FILE: put_file(p, "content", 7, 10 + k); break;
  case T_DIR: vx_mkdir_p(p, 0755, 1, 2, 10 + k); break;
  case T_LINKDIR: vx_mklink(p, "/o", 1, 2); break;
  case T_LINKFILE: vx_mklink(p, "b", 1, 2); break;
  case T_DANGLING: vx_mklink(p, "nowhere", 1, 2); break;
  case T_FIFO: vx_mkodd(p, sx_choose(2, "odd") ? 1 + k % 3 : 0); break;
  }
}
void harness(void) {
  fs_basic("");
  unsigned p1 = sx_choose(NRULE, "first rule"), p2 = sx_choose(NRULE + 1, "second rule");
  if (p1 == p2) return;
  ta_ = (int)sx_choose(T_N, "a");
  tx_ = T_FILE;
  if (ta_ == T_DIR || ta_ == T_LINKDIR) {
    static const int t[] = {T_FILE, T_FIFO, T_ABSENT, T_DANGLING, T_LINKFILE};
    tx_ = t[sx_choose(
#ifdef THOROUGH
      5,
#else
      2,
#endif
      "x")];
  }
  ignore_ = (int)sx_choose(4, "ignore");
  vx_dir_reverse = sx_choose(2, "order");
  char conf[200];
  conf[0] = 0;
  int pol1 = (int)sx_choose(
#ifdef THOROUGH
    3, "policy"), pol2 = (int)sx_choose(3, "policy");
#else
    2, "policy") * 2, pol2 = 1;
#endif
  nr_ = p2 == NRULE ? 1 : 2;
  strcat(conf, "["); strcat(conf, pol_[pol1]); strcat(conf, "]\n"); strcat(conf, rule_[p1]); strcat(conf, "\n");
  read_rule(&r_[0], rule_[p1]); r_[0].policy = pol1 + 1;
  if (nr_ == 2) { strcat(conf, "["); strcat(conf, pol_[pol2]); strcat(conf, "]\n"); strcat(conf, rule_[p2]); strcat(conf, "\n"); read_rule(&r_[1], rule_[p2]); r_[1].policy = pol2 + 1; }
  strcat(conf, "[ignore]\n^/[rx]$\n");
  static const char *ig[] = {"", "/x$|/Y$|^/S\n", "^/s/a\n", "^/[so]$|b$\n"};
  strcat(conf, ig[ignore_]);
  set_config(conf);
  vx_mkdir_p("/s", 0755, 1, 2, 5);
  leaf("/s/a", ta_, 1);
  if (ta_ == T_DIR) { leaf("/s/a/x", tx_, 2); put_file("/s/a/y", "y", 1, 13); set_mtime("/s/a", 11); }
  put_file("/s/b", "b", 1, 14);
  set_mtime("/s", 5);
  vx_mkdir_p("/o", 0755, 1, 2, 6);
  leaf("/o/x", tx_ == T_LINKFILE ? T_DANGLING : tx_, 2); put_file("/o/y", "y", 1, 13);
  if (tx_ == T_LINKFILE) { vx_wipe("/o/x"); vx_mklink("/o/x", "y", 1, 2); }
  set_mtime("/o", 6);
  Place top = {0, 0};
  walk(ROOT, true, top, policy_of(top));
  vx_hook = hook;
  int rc = nb_backup();
  vx_hook = NULL;
  sx_assert(!fifo_opened_, "special files are not opened");
  if (fails_) {
    sx_assert(rc != 0 && vx_errlen > 0 && vx_outlen == 0, "rules which contradict each other and links to nowhere end the backup");
    sx_assert(node("/r/metadata") < 0, "nothing is stored then");
    sx_cover("rejected");
    return;
  }
  sx_assert(rc == 0, "the backup succeeds");
  int want = 0;
  for (int i = 1; i < NP; i++) want += needed(i);
  if (!want) {
    sx_assert(node("/r/metadata") < 0 || (m_parse_file(&ix_, "/r/metadata") && ix_.nnode == 0), "nothing is selected");
    sx_cover("nothing selected");
    return;
  }
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "the index can be read");
  for (int i = 1; i < NP; i++) {
    MNode *m = m_find(&ix_, path_[i]);
    if (!needed(i)) { sx_assert(!m, "what is not selected is not in the backup"); continue; }
    sx_assert(m != NULL, "what is selected is in the backup");
    sx_assert(m->policy == pol_seen_[i], "with the policy of its rule");
    sx_assert(m->np == 1 && m->p[0].type == type_[i], "and its type");
    if (pol_seen_[i] == MP_NONE) sx_cover("parent");
    if (i == A && ta_ == T_LINKDIR && type_[i] == MT_DIR) sx_cover("link followed");
    if (ignored(i)) sx_cover("ignored but asked for");
  }
  sx_assert(ix_.nnode == want, "each path is there once");
  sx_cover("selected");
}
