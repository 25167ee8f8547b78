// The path helpers on every string of bounded length, which lie in memory of
// exactly that size.
#include "lib.h"
#include "str.h"
#include "CRegion/region.h"
#ifndef N
#ifdef THOROUGH
#define N 7
#else
#define N 5
#endif
#endif

static const char *s_; static size_t n_; static const char *t_; static size_t tn_;
static const char *mem(size_t n, const char *name) {
  char *p = sx_heap_alloc(n);
  sx_sym(p, n, name);
  return p;
}
static int kind(char c) { return c == '/' ? 1 : c == '.' ? 2 : c == ' ' || c == '\t' ? 3 : 0; }
static bool is_dot(const char *s, size_t n) { return (n == 1 && s[0] == '.') || (n == 2 && s[0] == '.' && s[1] == '.'); }
static void check_view(StringView v, const char *p, size_t n, bool terminated_possible) {
  sx_assert(v.length == n && v.content == p, "the part of the string is the right one");
  if (v.is_terminated) sx_assert(terminated_possible, "only what ends in a null byte is said to");
}
static void one(void *arg) {
  (void)arg;
  bool term = sx_choose(2, "terminated");
  char *p = (char *)s_;
  char *q = NULL;
  if (term) {
    q = sx_heap_alloc(n_ + 1);
    if (n_) memcpy(q, s_, n_);
    q[n_] = 0;
    for (size_t i = 0; i < n_; i++) sx_assume(q[i] != 0);
    p = q;
  }
  StringView v = term ? str(q) : strUnterminated(p, n_);
  if (term) {
    p = q;
    sx_assert(v.length == n_ && v.content == q && v.is_terminated, "a C string is wrapped as it is");
  } else {

    sx_assert(v.length == n_ && v.content == p && !v.is_terminated, "a slice is wrapped as it is");
  }
  sx_assert(strIsEmpty(v) == (n_ == 0), "emptiness");
  bool ws = true;
  for (size_t i = 0; i < n_; i++) if (kind(p[i]) != 3) ws = false;
  sx_assert(strIsWhitespaceOnly(v) == ws, "whitespace");
  sx_assert(strIsDotElement(v) == is_dot(p, n_), "dot element");
  // trailing slashes
  size_t k = n_;
  while (k > 0 && p[k - 1] == '/') k--;
  check_view(strStripTrailingSlashes(v), p, k, term && k == n_);
  // split at the last slash, all slashes right before it belong to the tail
  size_t last = n_;
  bool has = false;
  for (size_t i = 0; i < n_; i++) if (p[i] == '/') { last = i; has = true; }
  PathSplit sp = strSplitPath(v);
  if (!has) { sx_assert(sp.head.length == 0, "no slash: no head"); check_view(sp.tail, p, n_, term); }
  else {
    size_t at = last;
    while (at > 0 && p[at - 1] == '/') at--;
    check_view(sp.head, p, at, false);
    check_view(sp.tail, p + at + 1, n_ - at - 1, term);
  }
  // copies
  CR_Region *r = CR_RegionNew();
  Allocator *al = allocatorWrapRegion(r);
  StringView c = strCopy(v, al);
  sx_assert(c.length == n_ && c.is_terminated && c.content[n_] == 0 && c.content != p, "a copy ends in a null byte");
  sx_assert(!vx_bytes_differ(c.content, p, n_), "a copy is equal");
  char *raw = strCopyRaw(v, al);
  sx_assert(raw[n_] == 0 && !vx_bytes_differ(raw, p, n_), "a raw copy is equal");
  const char *g = strGetContent(v, al);
  sx_assert(g[n_] == 0 && !vx_bytes_differ(g, p, n_), "the content is equal and ends in a null byte");
  StringView w = str("zz");
  strSet(&w, v);
  check_view(w, p, n_, term);
  sx_assert(strIsEqual(c, v) && strIsEqual(v, w), "equal strings are equal");
  sx_cover("one string");
}
// components of a path which begins with a slash and has no empty ones
static void dots(void *arg) {
  (void)arg;
  sx_assume(n_ > 0 && s_[0] == '/');
  for (size_t i = 0; i + 1 < n_; i++) sx_assume(s_[i] != '/' || s_[i + 1] != '/');
  bool want = false;
  for (size_t i = 0, a = 1; i <= n_; i++) if (i == n_ || s_[i] == '/') { if (i >= a && is_dot(s_ + a, i - a)) want = true; a = i + 1; }
  sx_assert(strPathContainsDotElements(strUnterminated(s_, n_)) == want, "dot elements are found wherever they are");
  sx_cover(want ? "has dots" : "has no dots");
}
static void two(void *arg) {
  (void)arg;
  StringView a = strUnterminated(s_, n_), b = strUnterminated(t_, tn_);
  sx_assert(strIsEqual(a, b) == (n_ == tn_ && !vx_bytes_differ(s_, t_, n_)), "strings are equal if all their bytes are");
  CR_Region *r = CR_RegionNew();
  StringView j = strAppendPath(a, b, allocatorWrapRegion(r));
  sx_assert(j.length == n_ + tn_ + 1 && j.is_terminated && j.content[j.length] == 0, "a joined path has the length of both and the slash");
  sx_assert(!vx_bytes_differ(j.content, s_, n_) && j.content[n_] == '/' && !vx_bytes_differ(j.content + n_ + 1, t_, tn_), "a joined path has both parts");
  // below: the path continues with a slash and something after it
  size_t k = tn_;
  while (k > 0 && t_[k - 1] == '/') k--;
  bool below = k > n_ && t_[n_] == '/' && !vx_bytes_differ(s_, t_, n_);
  sx_assert(strIsParentPath(a, b) == below, "a path is below another if that one is all of its beginning, up to a slash");
  sx_cover(below ? "below" : "not below");
}
void harness(void) {
  vx_fs_init();
#ifdef TWO
  n_ = sx_choose(N + 2, "length");
  tn_ = sx_choose(N + 2, "length");
  s_ = mem(n_, "first"); t_ = mem(tn_, "second");
  sx_assert(vx_run(two, NULL) == 0, "no error");
#elif defined DOTS
  n_ = sx_choose(N + 5, "length");
  s_ = mem(n_, "path");
  sx_assert(vx_run(dots, NULL) == 0, "no error");
#else
  n_ = sx_choose(N + 1, "length");
  s_ = mem(n_, "string");
  sx_assert(vx_run(one, NULL) == 0, "no error");
#endif
}
