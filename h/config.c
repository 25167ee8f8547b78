// Configuration texts of any bytes against an independent reading of them.
#include "lib.h"
#include "search-tree.h"
#include "CRegion/region.h"
#ifdef THOROUGH
#define NSYM 7
#else
#define NSYM 5
#endif
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) { (void)p; (void)n; (void)k; return 0; }
static int compiled_;
#ifndef REAL
const regex_t *ov_sRegexCompile(CR_Region *r, StringView e, StringView file, size_t line) {
  static regex_t re;
  (void)r; (void)e; (void)file; (void)line;
  compiled_++;
  return &re;
}
#endif
static char t_[160]; static size_t n_;
static SearchNode *root_;
// ---- the documented meaning
typedef struct { size_t at, len; } Str;
static bool is(Str s, const char *w) { return s.len == strlen(w) && sx_conc(vx_bytes_differ(t_ + s.at, w, s.len) == 0); }
static bool chr(size_t i, char c) { return sx_conc((uint8_t)t_[i] == (uint8_t)c); }
#define MAXR 24
typedef struct { Str s; int policy; int line; } Rule;
static Rule rule_[MAXR]; static int nrule_;
static Rule expr_[2][MAXR]; static int nexpr_[2];  // ignore, summarize
enum { OK, E_NUL, E_POLICY, E_NOPOLICY, E_DOTS, E_REDEF, E_REDEFPOL, E_PATH };
static int eline_, eprev_; static Str etext_;
static bool same(Str a, Str b) { return a.len == b.len && sx_conc(vx_bytes_differ(t_ + a.at, t_ + b.at, a.len) == 0); }
// next component of a path: a slash, the slashes which follow belong to it
static size_t component(Str s, size_t from, Str *c) {
  size_t i = from + 1;
  c->at = s.at + i;
  while (i < s.len && chr(s.at + i, '/')) i++;
  while (i < s.len && !chr(s.at + i, '/')) i++;
  c->len = s.at + i - c->at;
  return i;
}
static int read_(void) {
  for (size_t i = 0; i < n_; i++) if (chr(i, 0)) return E_NUL;
  size_t p = 0; int policy = 0;
  if (n_ >= 3 && chr(0, '\xef') && chr(1, '\xbb') && chr(2, '\xbf')) p = 3;
  for (int ln = 1; p < n_; ln++) {
    Str l = {p, 0};
    while (p < n_ && !chr(p, '\n')) { p++; l.len++; }
    p++;
    bool blank = true;
    for (size_t i = 0; i < l.len && blank; i++) blank = sx_conc((t_[l.at + i] == ' ') | (t_[l.at + i] == '\t'));
    if (blank || chr(l.at, '#')) continue;
    eline_ = ln; etext_ = l;
    static const char *sec[] = {"[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]"};
    int k = 0;
    while (k < 5 && !is(l, sec[k])) k++;
    if (k < 5) { policy = k + 1; continue; }
    if (chr(l.at, '[') && chr(l.at + l.len - 1, ']')) { etext_.at++; etext_.len -= 2; return E_POLICY; }
    if (!policy) return E_NOPOLICY;
    if (policy >= 4) { expr_[policy - 4][nexpr_[policy - 4]++] = (Rule){l, 0, ln}; continue; }
    if (!chr(l.at, '/')) return E_PATH;
    for (size_t i = 0; i < l.len;) {
      Str c;
      i = component(l, i, &c);
      if (is(c, ".") || is(c, "..")) return E_DOTS;
    }
    while (l.len && chr(l.at + l.len - 1, '/')) l.len--;
    for (int i = 0; i < nrule_; i++) if (same(rule_[i].s, l)) { eprev_ = rule_[i].line; return rule_[i].policy != policy ? E_REDEFPOL : E_REDEF; }
    rule_[nrule_++] = (Rule){l, policy, ln};
  }
  return OK;
}
static Str done_[60]; static int ndone_;
static bool begins(Str s, Str head) { return s.len >= head.len && (s.len == head.len || s.at == head.at || 1) && same((Str){s.at, head.len}, head); }
static int nodes(const SearchNode *n) { int k = 0; for (n = n->subnodes; n; n = n->next) k += 1 + nodes(n); return k; }
static const SearchNode *sub(const SearchNode *n, Str c) {
  bool re = c.len >= 2 && chr(c.at, '/');
  if (re) { c.at++; c.len--; }
  const SearchNode *hit = NULL;
  for (n = n->subnodes; n; n = n->next)
    if (!!n->regex == re && n->name.length == c.len && sx_conc(vx_bytes_differ(n->name.content, t_ + c.at, c.len) == 0)) {
      sx_assert(!hit, "a place in the tree is there once");
      sx_assert(n->name.content[c.len] == 0, "names are terminated");
      hit = n;
    }
  return hit;
}
static int policy_at(Str s) {  // own, or that of the nearest rule above
  int best = 0; size_t bl = 0; bool any = false;
  for (int i = 0; i < nrule_; i++) {
    Str h = rule_[i].s;
    if (h.len > s.len || (any && h.len < bl)) continue;
    bool above = h.len == s.len;  // the end of a component
    for (size_t k = 0; k < s.len && !above;) { if (k == h.len) { above = true; break; } Str c; k = component(s, k, &c); }
    if (!above || !begins(s, h)) continue;
    best = rule_[i].policy; bl = h.len; any = true;
  }
  return best;
}
static void list(const RegexList *l, int which) {
  int k = nexpr_[which];
  bool got[MAXR] = {0};
  for (; l; l = l->next) {
    int hit = -1;
    for (int i = 0; i < nexpr_[which]; i++) if (expr_[which][i].line == (int)l->line_nr) hit = i;
    sx_assert(hit >= 0 && !got[hit], "no other expressions");
    got[hit] = true; k--;
    Str s = expr_[which][hit].s;
    sx_assert(l->expression.length == s.len && !vx_bytes_differ(l->expression.content, t_ + s.at, s.len) && l->expression.content[s.len] == 0, "expressions are the whole line");
    sx_assert(!l->has_matched && l->regex, "and have matched nothing yet");
  }
  sx_assert(k == 0, "every expression is there");
}
static int e_;
static void check_tree(void) {
  // every place on the way to a rule, once
  int want = 0;
  for (int i = 0; i < nrule_; i++) {
    Str s = rule_[i].s;
    const SearchNode *nd = root_;
    for (size_t k = 0; k < s.len;) {
      Str c;
      k = component(s, k, &c);
      nd = sub(nd, c);
      sx_assert(nd != NULL, "each rule has its place in the tree");
      Str here = {s.at, k};
      bool seen = false;
      for (int d = 0; d < ndone_ && !seen; d++) seen = same(done_[d], here);
      if (seen) continue;
      done_[ndone_++] = here; want++;
      sx_assert((int)nd->policy == policy_at(here), "the policy is its own or that of the rule above");
      sx_assert(nd->line_nr == (size_t)rule_[i].line, "the line is the first one which names it");
      sx_assert(nd->search_match == SRT_none, "nothing has been found yet");
    }
  }
  sx_assert((int)root_->policy == policy_at((Str){0, 0}), "the policy of the root");
  sx_assert(nodes(root_) == want, "nothing else is in the tree");
  list(*root_->ignore_expressions, 0);
  list(*root_->summarize_expressions, 1);
}
static void go(void *arg) {
  (void)arg;
  char *c = sx_heap_alloc(n_);
  memcpy(c, t_, n_);
  root_ = searchTreeParse(CR_RegionNew(), strUnterminated(c, n_));
  if (e_ == OK) check_tree();
}
static const char *pre_[] = {"", "[copy]\n", "[track]\n/a/b\n", "[mirror]\n/", "[copy]\n/a\n[mirror]\n/", "[ignore]\n", "[summarize", "\xef\xbb\xbf[copy]\n/", "\xef\xbb", "[track]\n/\n/a//b", "[mirror]\n/a/b/c\n[copy]\n/a"};
static const char *suf_[] = {"", "\n", "]\n[copy]\n/x", "/b\n", "\n/b\n[mirror]\n/b/"};
#ifdef RULES
// Any RULES rules for these paths in any order.
static const char *path_[] = {"/", "/a", "/a/b", "/a/b/c", "/a//b", "/a/d/"};
void harness(void) {
  vx_fs_init();
  for (int i = 0; i < RULES; i++) {
    static const char *sec[] = {"[copy]\n", "[mirror]\n", "[track]\n"};
    const char *a = path_[sx_choose(6, "path")], *b = sec[sx_choose(3, "policy")];
    memcpy(t_ + n_, b, strlen(b)); n_ += strlen(b);
    memcpy(t_ + n_, a, strlen(a)); n_ += strlen(a);
    t_[n_++] = '\n';
  }
#else
void harness(void) {
  vx_fs_init();
  const char *a = pre_[sx_choose(11, "before")], *b = suf_[sx_choose(5, "after")];
  size_t n = sx_choose(NSYM + 1, "length");
  memcpy(t_, a, strlen(a));
  sx_sym(t_ + strlen(a), n, "text");
  memcpy(t_ + strlen(a) + n, b, strlen(b));
  n_ = strlen(a) + n + strlen(b);
#endif
  int e = e_ = read_();
  int rc = vx_run(go, NULL);
  if (e != OK) {
    sx_assert(rc == 1, "a text which means nothing is rejected");
    char w[200], *p = w;
    if (e == E_NUL) { sx_assert(vx_err_has("config: contains null-bytes"), "the error is named"); sx_cover("null byte"); return; }
    strcpy(p, "config: line "); p += strlen(p);
    if (eline_ > 9) *p++ = (char)('0' + eline_ / 10);
    *p++ = (char)('0' + eline_ % 10);
    static const char *what[] = {"", "", ": invalid policy: \"", ": pattern without policy: \"", ": path contains \".\" or \"..\": \"", ": redefining line ", ": redefining policy of line ", ": invalid path: \""};
    strcpy(p, what[e]); p += strlen(p);
    if (e == E_REDEF || e == E_REDEFPOL) { if (eprev_ > 9) *p++ = (char)('0' + eprev_ / 10); *p++ = (char)('0' + eprev_ % 10); *p++ = ':'; *p++ = ' '; *p++ = '"'; }
    memcpy(p, t_ + etext_.at, etext_.len); p += etext_.len;
    *p++ = '"';
    unsigned hit = 0;
    for (uint32_t o = 0; o + (uint32_t)(p - w) <= vx_errlen; o++) hit |= vx_bytes_differ(vx_err + o, w, (size_t)(p - w)) == 0;
    sx_assert(hit, "the error names the line, the text and what is wrong");
    static const char *cov[] = {"", "", "unknown policy", "no policy", "dots", "redefined", "redefined policy", "no path"};
    sx_cover(cov[e]);
    return;
  }
  sx_assert(rc == 0, "a text which means something is accepted");
  sx_cover(nexpr_[0] ? "ignored" : nexpr_[1] ? "summarized" : nrule_ ? "rules" : "empty");
}
