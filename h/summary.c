// What a backup prints before it asks, compared with the difference between
// the latest saved and the current states.
#include "lib.h"
#ifndef POL
#define POL "track"
#endif
#define COPY (POL[0] == 'c')
#define MIRROR (POL[0] == 'm')
#define TRACK (POL[0] == 't')
#ifdef DEEP  // a directory in the directory
enum { S, D, F, G, E, H, I, NP };
#else
enum { S, D, F, G, E, NP, H, I };
#endif
static const char *path_[] = {"/s", "/s/d", "/s/d/f", "/s/d/g", "/s/e%d", "/s/d/h", "/s/d/h/i"};
static const int up_[] = {-1, S, D, D, S, D, H};
// a state of a path: kind, variant of content, whether its attributes are symbolic, and these
typedef struct { int kind, seed, sym; uint32_t uid, gid, mode; int64_t mtime; } St;
static St now_[NP], saved_[NP];  // saved_: kind K_ABSENT if there is none
static const St none_ = {K_ABSENT, 0, 0};
static uint64_t size_(St s) { return s.kind == K_SMALL ? 7 : s.kind == K_BIG ? 30 + s.seed : 0; }
enum { A_OWN = 1, A_MODE = 2, A_TIME = 4 };
static int diff_(St a, St b) {
  int d = A_OWN * ((a.uid != b.uid) | (a.gid != b.gid));
  if (a.kind == K_LINK || b.kind == K_LINK) return d;
  return d | A_MODE * (a.mode != b.mode) | A_TIME * (a.mtime != b.mtime);
}
static void put(int i) {
  St *s = &now_[i];
  if (s->kind == K_ABSENT) return;
  mkkind(path_[i], s->kind, s->seed, s->sym);
  VNode *n = nodep(path_[i]);
  s->uid = n->uid; s->gid = n->gid; s->mode = n->mode; s->mtime = n->mtime;
}
static void build(void) {
  vx_wipe("/s");
  vx_now += 1000;
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  put(D);
  if (now_[D].kind == K_DIR) { int64_t t = nodep("/s/d")->mtime; put(F); put(G);
#ifdef DEEP
    put(H);
    if (now_[H].kind == K_DIR) { int64_t u = nodep("/s/d/h")->mtime; put(I); set_mtime("/s/d/h", u); }
#endif
    set_mtime("/s/d", t); }
  put(E);
  set_mtime("/s", 100);
}
static bool last_step_;
static St pick(int i, int full) {
  static const St d[] = {{K_DIR, 1, 0}, {K_ABSENT}, {K_BIG, 1, 0}, {K_LINK, 1, 0}, {K_DIR, 1, 1}};
  static const St f[] = {{K_SMALL, 1, 0}, {K_ABSENT}, {K_SMALL, 2, 0}, {K_BIG, 1, 0}, {K_LINK, 1, 0}, {K_LINK, 2, 0}, {K_DIR, 1, 0}, {K_SMALL, 1, 1}, {K_LINK, 1, 1}};
  static const St g[] = {{K_BIG, 3, 0}, {K_ABSENT}};
#ifdef DEEP
  static const St fs[] = {{K_SMALL, 1, 0}, {K_ABSENT}, {K_SMALL, 1, 1}}, hs[] = {{K_DIR, 1, 0}, {K_ABSENT}}, is[] = {{K_SMALL, 1, 0}, {K_ABSENT}, {K_SMALL, 2, 0}, {K_SMALL, 1, 1}};
  switch (i) {
  case D: return d[0];
  case E: return g[0];
  case F: return fs[sx_choose(full ? 3 : 2, "f")];
  case H: return hs[full ? sx_choose(2, "h") : 0];
  case I: return now_[H].kind == K_DIR ? is[sx_choose(full ? 4 : 2, "i")] : none_;
  }
#endif
  switch (i) {
  case D: return d[sx_choose(full ? 5 : 3, "d")];
  case F: return f[sx_choose(full ? 9 : 2, "f")];
  case E: return g[last_step_ ? sx_choose(2, "e") : 0];
  default: return g[sx_choose(2, "g")];
  }
}
static void choose(int full) {
  for (int i = D; i < NP; i++) {
    if ((i == F || i == G) && now_[D].kind != K_DIR) now_[i] = none_;
    else now_[i] = pick(i, full);
  }
  build();
}
static const char *extra_ = "";  // summarize expressions
enum { ALL, NO_E, NO_D, NO_F, NCONF };
static void config(int c) {
  static char b[100];
  b[0] = 0;
  strcat(b, "["); strcat(b, POL); strcat(b, "]\n");
  if (c != NO_D) strcat(b, "/s/d\n");
  if (c != NO_E) strcat(b, "/s/e%d\n");
  if (c == NO_F) strcat(b, "[ignore]\n/f$\n");
  strcat(b, extra_);
  set_config(b);
}
static bool conf_(int c, int i) { return c == NO_E ? i != E : c == NO_D ? i == S || i == E : c == NO_F ? i != F : true; }
// what happens to each path
enum { M_NONE, M_NEW, M_GONE, M_LOST, M_TYPE, M_CONTENT, M_ATTR };
static int mark_[NP];
static int gone_[NP];  // tracked path which is known to be gone
static int mark(int c, int i) {
  St a = saved_[i], b = now_[i];
  if (i <= S) {  // directories above configured paths
    bool any = false;
    for (int k = S + 1; k < NP; k++) any |= mark_[k] == M_NEW || (saved_[k].kind != K_ABSENT && mark_[k] != M_LOST);
    return any ? (a.kind == K_ABSENT ? M_NEW : M_NONE) : M_LOST;  // even if it is not in the backup: nothing configured was found below
  }
  if (!conf_(c, i)) return a.kind != K_ABSENT ? M_LOST : M_NONE;
  if (a.kind == K_ABSENT) return b.kind == K_ABSENT ? M_NONE : M_NEW;
  if (b.kind == K_ABSENT) {
    if (TRACK && gone_[i]) return M_NONE;
    if (MIRROR) return M_LOST;
    if (COPY && up_[i] == D && now_[D].kind != K_ABSENT && now_[D].kind != K_DIR) return M_LOST;  // it can not be kept below what is no directory
    return M_GONE;
  }
  if (TRACK && gone_[i]) return M_NEW;
  if (a.kind != b.kind) return (a.kind == K_SMALL || a.kind == K_BIG) && (b.kind == K_SMALL || b.kind == K_BIG) ? M_CONTENT : M_TYPE;
  if (a.seed != b.seed && a.kind != K_DIR) return M_CONTENT;
  return sx_conc(diff_(a, b) != 0) ? M_ATTR : M_NONE;
}
static void judge(int c) {
  for (int i = NP; i-- > 0;) mark_[i] = mark(c, i);
}
static void record(int c) {
  for (int i = 0; i < NP; i++) {
    switch (mark_[i]) {
    case M_LOST: saved_[i] = none_; gone_[i] = 0; break;
    case M_GONE: if (TRACK) gone_[i] = 1; break;
    case M_NONE: break;
    default: saved_[i] = now_[i]; gone_[i] = 0;
    }
  }
}
// ---- the printed text
static int at_;
static char text_[64];
static bool word(const char *line, int n, const char *w) {
  int m = (int)strlen(w);
  for (int i = 0; i + m <= n; i++) if (vx_bytes_differ(line + i, w, m) == 0) return true;
  return false;
}
static char *num(char *p, uint64_t v) {
  char t[24]; int k = 0;
  do t[k++] = (char)('0' + v % 10); while (v /= 10);
  while (k) *p++ = t[--k];
  *p = 0;
  return p;
}
// as the totals are documented: bytes below a thousand are printed in full, then KiB with one digit
static char *human(char *p, uint64_t v) {
  if (v < 1000) { p = num(p, v); *p++ = ' '; *p++ = 'b'; }
  else { p = num(p, v / 1024); *p++ = '.'; p = num(p, (v % 1024) * 10 / 1024); memcpy(p, " KiB", 4); p += 4; }
  *p = 0;
  return p;
}
static bool inside(int i, int top) { for (i = up_[i]; i >= 0; i = up_[i]) if (i == top) return true; return false; }
static void count(int top, int m, char sign, char *out) {  // "+3 items, +37 b"
  int n = 0; uint64_t sz = 0;
  for (int i = 0; i < NP; i++) if (mark_[i] == m && inside(i, top)) { n++; sz += size_(m == M_NEW ? now_[i] : saved_[i]); }
  char *p = out;
  if (n) *p++ = sign;
  p = num(p, n);
  strcpy(p, n == 1 ? " item" : " items"); p += strlen(p);
  if (sz) { *p++ = ','; *p++ = ' '; *p++ = sign; human(p, sz); }
}
static int line_of(const char *mk, int i, int *len) {  // offset of the line printed for a path
  St s = (mark_[i] == M_GONE || mark_[i] == M_LOST) && saved_[i].kind != K_ABSENT ? saved_[i] : now_[i];
  char w[40]; w[0] = 0;
  strcat(w, mk); strcat(w, " ");
  if (s.kind == K_LINK) strcat(w, "^");
  strcat(w, path_[i]);
  if (s.kind == K_DIR) strcat(w, "/");
  int m = (int)strlen(w);
  for (int o = 0; o < (int)vx_outlen;) {
    int e = o;
    while (e < (int)vx_outlen && vx_out[e] != '\n') e++;
    if (e - o >= m && vx_bytes_differ(vx_out + o, w, m) == 0 && (e - o == m || vx_out[o + m] == ' ' || vx_out[o + m] == '.')) { *len = e - o; return o; }
    o = e + 1;
  }
  return -1;
}
static void total(const char *name, int m) {
  int n = 0; uint64_t sz = 0;
  for (int i = 0; i < NP; i++) if (mark_[i] == m) { n++; sz += size_(m == M_NEW ? now_[i] : saved_[i]); }
  char w[60], *p = w;
  strcpy(p, name); p += strlen(p);
  if (n == 0) { sx_assert(!vx_out_has(w), "no total is printed of what did not happen"); return; }
  p = num(p, n); *p++ = ' '; *p++ = '(';
  p = human(p, sz); *p++ = ')'; *p = 0;
  sx_assert(vx_out_has(w), "the totals are right");
}
static bool sum_;  // /s/d is summarized
static int kind_(int i) {
  if (mark_[i] == M_GONE || mark_[i] == M_LOST || now_[i].kind == K_ABSENT) return saved_[i].kind;
  return now_[i].kind;
}
static int has_count(const char *l, int n, const char *w) {  // " (" or ", " before, "," or ")" after
  int m = (int)strlen(w);
  for (int i = 2; i + m < n; i++) if (vx_bytes_differ(l + i, w, m) == 0 && (l[i - 1] == ' ' || l[i - 1] == '(') && (l[i + m] == ',' || l[i + m] == ')')) return true;
  return false;
}
// the line of a summarized directory
static int summarized(void) {
  int m = mark_[D], nnew = 0, ndel = 0, nchg = 0, nattr = 0;
  for (int i = 0; i < NP; i++) {
    if (!inside(i, D)) continue;
    nnew += mark_[i] == M_NEW; ndel += mark_[i] == M_GONE || mark_[i] == M_LOST; nchg += mark_[i] == M_CONTENT;
    nattr += mark_[i] == M_ATTR || mark_[i] == M_TYPE || (mark_[i] == M_CONTENT && sx_conc((diff_(saved_[i], now_[i]) & ~A_TIME) != 0));
  }
  if (m == M_NONE && !nnew && !ndel && !nchg && !nattr) return 0;
  static const char *mk[] = {"@@", "++", "--", "xx", "<>", "!!", "@@"};
  const char *w = (m == M_NONE || m == M_ATTR) && nnew + ndel + nchg ? "!!" : mk[m];
  int n, o = line_of(w, D, &n);
  if (m == M_LOST && o < 0) o = line_of("??", D, &n);
  sx_assert(o >= 0, "a summarized directory is listed if anything happens in it");
  const char *l = vx_out + o;
  char t[40];
  if (m == M_NEW || m == M_TYPE) { count(D, M_NEW, '+', t); sx_assert(word(l, n, t), "what is new below is counted"); sx_cover("summarized new"); return 1; }
  if (m == M_GONE || m == M_LOST) { count(D, m, '-', t); sx_assert(word(l, n, t), "what is gone below is counted"); sx_cover("summarized gone"); return 1; }
  count(D, M_NEW, '+', t);
  if (nnew) sx_assert(word(l, n, t), "what is new below is counted");
  { int k = 0; uint64_t sz = 0; char *p = t;
    for (int i = 0; i < NP; i++) if (inside(i, D) && (mark_[i] == M_GONE || mark_[i] == M_LOST)) { k++; sz += size_(saved_[i]); }
    *p++ = '-'; p = num(p, k); strcpy(p, k == 1 ? " item" : " items"); p += strlen(p);
    if (sz) { *p++ = ','; *p++ = ' '; *p++ = '-'; human(p, sz); } }
  if (ndel) sx_assert(word(l, n, t), "what is gone below is counted");
  if (nchg) { strcpy(num(t, nchg), " changed"); sx_assert(has_count(l, n, t), "what has changed below is counted"); }
  else sx_assert(!word(l, n, " changed"), "what has not changed is not counted");
  sx_assert(!!nnew == word(l, n, "+") && !!ndel == word(l, n, "-"), "what has not happened is not counted");
  bool attr = nattr && !(nattr == 1 && mark_[F] == M_TYPE);
  if (attr) sx_assert(word(l, n, "metadata change"), "changed attributes below are mentioned");
  if (!nattr) sx_assert(!word(l, n, "metadata change"), "no others are");
  sx_cover(nnew + ndel + nchg ? "summarized content" : "summarized attributes");
  return 1;
}
static void check(void) {
  int lines = 0, listed = 0;
  for (int o = 0; o < (int)vx_outlen; o++) {
    if (vx_out[o] == '\n') { lines++; if (o == 0 || vx_out[o - 1] == '\n') break; }
  }
  bool any = false;
  for (int i = 0; i < NP; i++) any |= mark_[i] != M_NONE;
  if (!any) { sx_assert(vx_outlen == 0, "nothing is printed if nothing changed"); sx_cover("nothing"); return; }
  for (int i = 0; i < NP; i++) {
    int m = mark_[i], n, o;
    if (m == M_NONE) continue;
    bool above = false;
    for (int k = up_[i]; k >= 0; k = up_[k]) above |= k > S && mark_[k] >= M_NEW && mark_[k] <= M_TYPE;
    for (int k = up_[i]; k >= 0; k = up_[k]) above |= k <= S && mark_[k] == M_LOST;
    if (above || (sum_ && inside(i, D))) continue;  // counted there
    if (sum_ && i == D) continue;
    static const char *mk[] = {"", "++", "--", "xx", "<>", "!!", "@@"};
    o = line_of(mk[m], i, &n);
    if (m == M_LOST && o < 0) o = line_of("??", i, &n);
    if (m == M_NEW && i <= S) { sx_assert(o < 0, "directories above configured paths are not listed"); continue; }
    bool below = false;  // explains a changed time
    for (int k = 0; k < NP; k++) below |= up_[k] == i && mark_[k] != M_NONE && mark_[k] != M_ATTR;
    if (m == M_ATTR && i == D && o < 0 && sx_conc(diff_(saved_[i], now_[i]) == A_TIME)) {
      sx_assert(below, "a changed modification time is listed, except of a directory whose content changed");
      sx_cover("time follows from content");
      continue;
    }
    sx_assert(o >= 0, "everything that happens to a path is printed");
    listed++;
    const char *l = vx_out + o;
    if (m == M_ATTR || m == M_CONTENT) {
      St a = saved_[i], b = now_[i];
      sx_assert(word(l, n, "owner") == !!(diff_(a, b) & A_OWN), "a changed owner is named");
      sx_assert(word(l, n, "permissions") == !!(diff_(a, b) & A_MODE), "changed permissions are named");
      if (m == M_ATTR && !below) sx_assert(word(l, n, "timestamp") == !!(diff_(a, b) & A_TIME), "a changed time is named");
      sx_cover("attributes named");
    }
    St s = m == M_GONE || m == M_LOST ? saved_[i] : now_[i];
    if (i == D && s.kind == K_DIR && m >= M_NEW && m <= M_TYPE) {
      char w[40];
      count(i, m == M_TYPE ? M_NEW : m, m == M_NEW || m == M_TYPE ? '+' : '-', w);
      sx_assert(word(l, n, w), "the items below are counted");
      sx_cover("counted below");
    }
    if (m == M_TYPE && saved_[i].kind == K_DIR) {
      char w[40];
      count(i, TRACK ? M_GONE : M_LOST, '-', w);
      sx_assert(word(l, n, w), "the items which are gone are counted");
    }
    if (s.kind == K_LINK) { char t[10] = " -> tg?"; t[6] = (char)('a' + s.seed % 26); sx_assert(word(l, n, t), "the target of a link is shown"); }
    sx_cover(mk[m]);
  }
  if (sum_ && mark_[S] != M_LOST) listed += summarized();
  // lines before the first empty one
  int got = 0;
  for (int o = 0; o < (int)vx_outlen; ) {
    if (vx_out[o] == '\n') break;
    got++;
    while (o < (int)vx_outlen && vx_out[o] != '\n') o++;
    o++;
  }
  sx_assert(got == listed, "nothing else is printed");
  total("New: ", M_NEW); total("Removed: ", M_GONE); total("Lost: ", M_LOST);
}
#ifdef SUM
static int64_t clock_;
static char totals_[120]; static int ntotals_;
static void totals(char *to, int *n) {  // what follows the listing
  uint32_t o = 0;
  while (o < vx_outlen && !(vx_out[o] == '\n' && o && vx_out[o - 1] == '\n')) o++;
  *n = (int)(vx_outlen - o);
  if (*n > 120) *n = 120;
  memcpy(to, vx_out + o, (size_t)*n);
}
static void plain(void) { vx_wipe("/r/lockfile"); vx_wipe("/r/config"); set_mtime("/r", 0); }
static void times0(int i) {
  VNode *d = vx_node[i];
  d->mtime = 0;
  for (int k = 0; k < d->nent; k++) times0(d->ent[k].ino);
}
void harness(void) {
  fs_basic("");
  now_[S] = (St){K_DIR, 0, 0};
  config(ALL);
#ifdef DEEP
  unsigned k = sx_choose(3, "expressions");  // the last one would summarize the inner directory, too
#else
  unsigned k = sx_choose(4, "expressions");
#endif
#ifdef THOROUGH
  choose(1);
#else
  choose(0);
#endif
  judge(ALL);
  sx_assert(nb_backup() == 0, "the backup succeeds");
  record(ALL);
#ifdef THOROUGH
  int c = (int)sx_choose(NCONF, "configuration");
#else
  int c = k ? ALL : (int)sx_choose(NCONF, "configuration");
#endif
  last_step_ = true;
  choose(1);
  if (c == NO_F && saved_[F].kind != K_ABSENT && now_[D].kind != K_DIR) sx_assume(0);
  judge(c);
  bool any = false;
  for (int i = 0; i < NP; i++) any |= mark_[i] != M_NONE;
  extra_ = "";
  config(c);
  vx_time_fixed = true; clock_ = vx_now;
  sx_assert((vx_nb("n\n", "/r", NULL, NULL, NULL) != 0) == any, "it asks if anything happened");
  totals(totals_, &ntotals_);
  static const char *re[] = {"[summarize]\n^/s/d$\n", "[summarize]\n/s\n", "[summarize]\n/f$\n", "[summarize]\ne\nd/f\n/d/\n"};
  vx_clone_tree("/r", "/x/r0");
  extra_ = re[k];
  config(c);
  sum_ = k < 2 && kind_(D) == K_DIR;
  vx_now = clock_;
  int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
  sx_assert((rc != 0) == any, "it asks all the same");
  check();
  char t[120]; int n;
  totals(t, &n);
  sx_assert(n == ntotals_ && vx_bytes_differ(t, totals_, (size_t)n) == 0, "the totals are the same");
  vx_now = clock_;
  sx_assert(nb_backup() == 0, "the backup succeeds");
  plain();
  vx_clone_tree("/r", "/x/r1");
  vx_wipe("/r");
  vx_clone_tree("/x/r0", "/r");
  vx_now = clock_;
  sx_assert(nb_backup() == 0, "the backup succeeds");
  plain();
  times0(node("/r")); times0(node("/x/r1"));
  sx_assert(vx_tree_eq("/r", "/x/r1"), "the same is stored");
  sx_cover("stored");
}
#else
void harness(void) {
  fs_basic("");
  now_[S] = (St){K_DIR, 0, 0};
#ifdef THOROUGH
  int first = 0;
#else
  int first = 1;
#endif
  for (int k = first; k < 3; k++) {
    int c = k == 2 ? (int)sx_choose(NCONF, "configuration") : ALL;
    config(c);
    last_step_ = k == 2;
    choose(k != 0);
    // what is ignored may stay along with a directory which is gone: not decided
    if (c == NO_F && saved_[F].kind != K_ABSENT && now_[D].kind != K_DIR) sx_assume(0);
    int rc = vx_nb("n\n", "/r", NULL, NULL, NULL);
    judge(c);
    bool any = false;
    for (int i = 0; i < NP; i++) any |= mark_[i] != M_NONE;
    sx_assert((rc != 0) == any, "it asks if anything happened");
    check();
    if (k == 2) break;
    sx_assert(nb_backup() == 0, "the backup succeeds");
    record(c);
  }
}
#endif
