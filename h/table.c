// A path table with keys of symbolic content and a hash which is any function.
#include "lib.h"
#include "string-table.h"
#ifndef NSYM
#define NSYM 2
#endif
#define NKEY (70 + NSYM)
#define KEYLEN 4
static char *key_[NKEY]; static size_t klen_[NKEY]; static uint64_t khash_[NKEY];
static int nkey_;
static bool same(const char *a, size_t an, const char *b, size_t bn) { if (an != bn) return false; return vx_bytes_differ(a, b, an) == 0; }
uint64_t ov_siphash(const uint8_t *p, size_t n, const uint8_t *k) {
  for (int i = 0; i < nkey_; i++) if ((const char *)p == key_[i] && n == klen_[i]) return khash_[i];
  for (int i = nkey_ - 1; i >= 0; i--) if (same((const char *)p, n, key_[i], klen_[i])) return khash_[i];
  return 33;  // a key which was never stored collides with some
}
static const uint64_t hashes[] = {1, 33, 65, ~0ull, 1ull << 63 | 1, 0};
static unsigned before_; static int mode_;
static void go(void *arg) {
  (void)arg;
  CR_Region *r = CR_RegionNew();
  StringTable *t = strTableNew(r);
  sx_assert(strTableCountMappings(t) == 0, "a new table is empty");
  // stored before: distinct hashes, one hash for all, or a few
  for (unsigned i = 0; i < before_; i++) {
    char *k = sx_heap_alloc(2);
    k[0] = 'k'; k[1] = (char)(i + 1);
    key_[nkey_] = k; klen_[nkey_] = 2; khash_[nkey_] = mode_ == 0 ? i * 0x100000001ull : mode_ == 1 ? 33 : i % 3 + 32 * (i % 5);
    nkey_++;
    strTableMap(t, strUnterminated(k, 2), (void *)(uintptr_t)(nkey_));
    sx_assert(strTableCountMappings(t) == i + 1, "the number of entries");
  }
  for (int s = 0; s < NSYM; s++) {
    size_t n = sx_choose(3, "length");
    char *k = sx_heap_alloc(n);
    sx_sym(k, n, "key");
    // as in the program, what is there is not stored again
    bool dup = false;
    for (int i = 0; i < nkey_; i++) dup |= same(k, n, key_[i], klen_[i]);
    void *got = strTableGet(t, strUnterminated(k, n));
    if (dup) { sx_cover("already stored"); sx_assert(got != NULL && same(k, n, key_[(uintptr_t)got - 1], klen_[(uintptr_t)got - 1]), "a stored key is found"); continue; }
    sx_assert(got == NULL, "a key which was not stored is not found");
    key_[nkey_] = k; klen_[nkey_] = n; khash_[nkey_] = hashes[sx_choose(6, "hash")];
    nkey_++;
    strTableMap(t, strUnterminated(k, n), (void *)(uintptr_t)(nkey_));
  }
  sx_assert(strTableCountMappings(t) == (size_t)nkey_, "the number of entries");
  for (int i = 0; i < nkey_; i++) sx_assert(strTableGet(t, strUnterminated(key_[i], klen_[i])) == (void *)(uintptr_t)(i + 1), "every stored key gives its value");
  CR_RegionRelease(r);
  sx_cover(before_ > 33 ? "grown twice" : before_ + NSYM > 32 ? "grown" : "small");
}
void harness(void) {
  vx_fs_init();
  static const unsigned n[] = {0, 31, 32, 64, 30, 63, 65};
#ifdef THOROUGH
  before_ = n[sx_choose(7, "before")];
#else
  before_ = n[sx_choose(4, "before")];
#endif
  mode_ = sx_choose(3, "hashes");
  sx_assert(vx_run(go, NULL) == 0, "no error");
}
