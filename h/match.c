// Names of any bytes against rules: which of two entries with symbolic names
// are backed up, under which policy.
#include "meta.h"
static MIndex ix_;
#ifdef THOROUGH
#define NLEN 4
#else
#define NLEN 3
#endif
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) { (void)p; (void)n; (void)k; return 0; }
static char n_[NLEN + 1]; static size_t len_;
static uint8_t at(size_t i) { return i < len_ ? (uint8_t)n_[i] : 0; }
static bool yes(unsigned c) { return sx_conc(c != 0) != 0; }
static unsigned in(uint8_t c, uint8_t a, uint8_t b) { return (c >= a) & (c <= b); }
static unsigned eq(const char *s) { unsigned r = strlen(s) == len_; for (size_t i = 0; s[i] && i < len_; i++) r &= at(i) == (uint8_t)s[i]; return r; }
// what the rules below mean, byte by byte
static unsigned rule(int k) {
  unsigned r = 0;
  switch (k) {
  case 0: return eq("ab");
  case 1: return in(at(0), 'a', 'c') & (len_ == 1 || (len_ == 2 ? at(1) == 'x' : len_ == 3 ? (at(1) == 'x') & (at(2) == 'x') : (at(1) == 'x') & (at(2) == 'x') & (at(3) == 'x')));  // ^[a-c]x*$
  case 2: for (size_t i = 0; i < len_; i++) r |= at(i) == '.'; return r;  // \.
  case 3: for (size_t i = 0; i + 1 < len_; i++) r |= (at(i) == 'a') & (at(i + 1) != 'b'); return r;  // a[^b]
  case 4: return len_ > 1 && (at(len_ - 1) == '~');  // .~$
  case 5: return eq("a*");
  }
  return 0;
}
static const char *rule_[] = {"/s/ab", "/s//^[a-c]x*$", "/s//\\.", "/s//a[^b]", "/s//.~$", "/s/a*"};
static const char *ign_[] = {"", "^/s/[b-z]", "~$", "s/.b?$"};
static unsigned ignored(int k) {
  switch (k) {
  case 1: return in(at(0), 'b', 'z');
  case 2: return at(len_ - 1) == '~';
  case 3: return (len_ == 1) | (len_ == 2 ? at(1) == 'b' : 0);  // the rest matches nothing else
  }
  return 0;
}
void harness(void) {
  fs_basic("");
  len_ = 1 + sx_choose(NLEN, "length");
  sx_sym(n_, len_, "name");
  for (size_t i = 0; i < len_; i++) sx_assume((n_[i] != 0) & (n_[i] != '/'));
  sx_assume(!((len_ == 1) & (at(0) == '.')));
  if (len_ == 2) sx_assume(!((at(0) == '.') & (at(1) == '.')));
  if (len_ == 1) sx_assume(at(0) != 'q');
  int r1 = (int)sx_choose(6, "first rule"), r2 = (int)sx_choose(7, "second rule"), ig = (int)sx_choose(4, "ignore");
  bool fallback = sx_choose(2, "all of it");
  if (r1 == r2) return;
  char conf[160];
  conf[0] = 0;
  if (fallback) strcat(conf, "[copy]\n/s\n");
  strcat(conf, "[mirror]\n"); strcat(conf, rule_[r1]); strcat(conf, "\n");
  if (r2 < 6) { strcat(conf, "[track]\n"); strcat(conf, rule_[r2]); strcat(conf, "\n"); }
  if (ig) { strcat(conf, "[ignore]\n"); strcat(conf, ign_[ig]); strcat(conf, "\n"); }
  set_config(conf);
  vx_mkdir_p("/s", 0755, 1, 2, 5);
  char p[8] = "/s/";
  memcpy(p + 3, n_, len_); p[3 + len_] = 0;
  put_file(p, "content", 7, 10);
  put_file("/s/q", "other", 5, 11);
  set_mtime("/s", 5);
  unsigned m1 = rule(r1), m2 = r2 < 6 ? rule(r2) : 0;
  int rc = nb_backup();
  if (yes(m1 & m2)) {
    sx_assert(rc != 0 && vx_err_has("ambiguous rules"), "a path which two rules match is an error");
    sx_assert(node("/r/metadata") < 0, "nothing is stored then");
    sx_cover("ambiguous");
    return;
  }
  sx_assert(rc == 0, "the backup succeeds");
  int want = yes(m1) ? MP_MIRROR : yes(m2) ? MP_TRACK : fallback && !yes(ignored(ig)) ? MP_COPY : MP_NONE;
  bool stored = node("/r/metadata") >= 0;
  if (stored) sx_assert(m_parse_file(&ix_, "/r/metadata"), "the index can be read");
  else ix_.nnode = 0;
  int found = -1, other = -1;
  for (int i = 0; i < ix_.nnode; i++) {
    const char *t = ix_.node[i].path;
    if (strlen(t) == 3 + len_ && yes(vx_bytes_differ(t, p, 3 + len_) == 0)) { sx_assert(found < 0, "a path is there once"); found = i; }
    else if (!strcmp(t, "/s/q")) other = i;
    else sx_assert(!strcmp(t, "/s"), "nothing else is there");
  }
  if (want == MP_NONE) { sx_assert(found < 0, "what is not selected is not in the backup"); sx_cover("left out"); }
  else { sx_assert(found >= 0 && ix_.node[found].policy == want, "what is selected is in the backup, with the policy of its rule"); sx_cover(want == MP_COPY ? "not named" : "named"); }
  bool oq = fallback && ig != 3 && ig != 1;
  sx_assert((other >= 0) == oq, "another file is in the backup if everything is");
}
