// Regions, growable buffers, allocators and string copies.
#include "lib.h"
#include "allocator.h"
#include "str.h"
#include "CRegion/region.h"
#include "CRegion/alloc-growable.h"
#include "CRegion/mempool.h"

static struct { char *p; size_t n; } block_[64]; static int nblock_;
static void on_malloc(void *p, size_t n) { if (p && nblock_ < 64) { block_[nblock_].p = p; block_[nblock_].n = n; nblock_++; } }
#ifndef NOPS
#ifdef THOROUGH
#define NOPS 4
#else
#define NOPS 3
#endif
#endif

#ifdef SYMSIZE
// ---- any sizes: where the memory lies
static struct { uintptr_t p; uint64_t n; } al_[16]; static int nal_;
static void claim(void *v, uint64_t n, bool aligned) {
  uintptr_t p = (uintptr_t)v;
  if (aligned) sx_assert(p % 8 == 0, "memory is aligned");
  unsigned in = 0, apart = 1;
  for (int i = 0; i < nblock_; i++) {
    uintptr_t b = (uintptr_t)block_[i].p;
    in |= (p >= b) & (p - b <= block_[i].n) & (n <= block_[i].n - (p - b));
  }
  for (int i = 0; i < nal_; i++) apart &= (p >= al_[i].p + al_[i].n) | (al_[i].p >= p + n);
  sx_assert(in, "there is room for what was requested");
  sx_assert(apart, "memory is not handed out twice");
  al_[nal_].p = p; al_[nal_].n = n; nal_++;
}
static CR_Region *r_;
static uint64_t size_; static int op_;
static void go(void *arg) {
  (void)arg;
  CR_Region *r = CR_RegionNew();
  Allocator *a = allocatorWrapRegion(r);
  claim(a, 1, true);
  for (int i = 0; i < NOPS - 1; i++) {
    op_ = sx_choose(4, "what");
    size_ = sx_int(64, "size");
    switch (op_) {
    case 0: claim(CR_RegionAlloc(r, size_), size_, true); break;
    case 1: claim(CR_RegionAllocUnaligned(r, size_), size_, false); break;
    case 2: claim(allocate(a, size_), size_, true); break;
    case 3: claim(allocate(allocatorWrapMalloc(), size_), size_, true); break;
    }
    sx_assert(size_ != 0, "nothing is given for a size of zero");
  }
  sx_cover("allocated");
}
void harness(void) {
  vx_fs_init();
  vx_on_malloc = on_malloc;
  vx_print_abstract = true;
  int rc = vx_run(go, NULL);
  if (rc == 0) return;
  sx_assert(rc == 1 && vx_errlen > 0, "an error is reported");
  sx_assert((size_ == 0) | (size_ > (1ull << 30)), "what there is room for is given");
  sx_cover(size_ == 0 ? "size of zero" : "out of memory");
}

#elif defined(POOL)
// ---- pools of objects
#define NOBJ 6
static struct { uint8_t *p; bool enabled; unsigned seed; } ob_[NOBJ]; static int nob_;
static size_t osz_;
static int expl_, impl_; static uint8_t *expect_; static uint8_t *implseen_[NOBJ];
static int destroy1(void *p) { sx_assert(p == expect_, "the object given up is destroyed"); expl_++; return 0; }
static void destroy2(void *p) { if (impl_ < NOBJ) implseen_[impl_] = p; impl_++; }
static void check(void) {
  for (int i = 0; i < NOBJ; i++) if (ob_[i].p) { unsigned d = 0; for (size_t k = 0; k < osz_; k++) d |= ob_[i].p[k] ^ (uint8_t)(ob_[i].seed + k); sx_assert(!d, "objects keep their content"); }
}
static void go(void *arg) {
  (void)arg;
  static const size_t sizes[] = {1, 8, 24, 450};
  osz_ = sizes[sx_choose(4, "size")];
  bool dtor = sx_choose(2, "destructors");
  CR_Region *r = CR_RegionNew();
  CR_Mempool *mp = CR_MempoolNew(r, osz_, dtor ? destroy1 : NULL, dtor ? destroy2 : NULL);
  int expected = 0;
  for (int s = 0; s < NOPS + 2; s++) {
    int op = sx_choose(3, "step");
    if (op < 2) {
      int i = 0;
      while (i < NOBJ - 1 && ob_[i].p) i++;
      ob_[i].p = CR_MempoolAlloc(mp);
      ob_[i].seed = s * 50 + 1; ob_[i].enabled = op;
      for (int k = 0; k < NOBJ; k++) if (k != i) sx_assert(ob_[k].p != ob_[i].p, "no object is handed out twice");
      for (size_t k = 0; k < osz_; k++) ob_[i].p[k] = (uint8_t)(ob_[i].seed + k);
      if (op) CR_EnableObjectDestructor(ob_[i].p);
      sx_cover("object");
    } else {
      int live[NOBJ], n = 0;
      for (int k = 0; k < NOBJ; k++) if (ob_[k].p) live[n++] = k;
      if (!n) return;
      int i = live[sx_choose(n, "which")];
      expect_ = ob_[i].p;
      if (ob_[i].enabled && dtor) expected++;
      ob_[i].p = NULL;
      CR_DestroyObject(expect_);
      sx_assert(expl_ == expected, "destructor called once");
      sx_cover("given up");
    }
    check();
  }
  int left = 0;
  for (int k = 0; k < NOBJ; k++) left += ob_[k].p && ob_[k].enabled && dtor;
  CR_RegionRelease(r);
  sx_assert(impl_ == left && expl_ == expected, "the remaining objects are destroyed once");
  for (int k = 0; k < NOBJ; k++) if (ob_[k].p && ob_[k].enabled && dtor) { int c = 0; for (int i = 0; i < impl_; i++) c += implseen_[i] == ob_[k].p; sx_assert(c == 1, "each of them"); }
}
void harness(void) { vx_fs_init(); sx_assert(vx_run(go, NULL) == 0, "no error"); }

#else
// ---- sizes around the limits of chunks, all memory in use
static const size_t size_of[] = {1, 8, 13, 432, 440, 504, 512, 1016, 2039, 2040, 2041, 5000};
#ifdef THOROUGH
static const uint8_t sizes_[] = {0, 1, 3, 5, 8, 9, 11};
#define NSZ 7
#else
static const uint8_t sizes_[] = {0, 4, 5, 9, 11};
#define NSZ 5
#endif
static struct { uint8_t *p; size_t n; unsigned seed; bool sym; uint8_t first; } al_[16]; static int nal_;
static int ncb_, ncalled_; static int called_[16];
static bool released_;
static void callback(void *p) { if (ncalled_ < 16) called_[ncalled_] = (int)(uintptr_t)p; ncalled_++; }
static void use(void *v, size_t n) {
  uint8_t *p = v;
  uint8_t s = (uint8_t)sx_int(8, "byte");
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(nal_ * 37 + i);
  p[0] = s; p[n - 1] = s;
  al_[nal_].p = p; al_[nal_].n = n; al_[nal_].seed = nal_ * 37; al_[nal_].first = s;
  nal_++;
}
static void check(void) {
  for (int i = 0; i < nal_; i++) {
    unsigned d = 0;
    for (size_t k = 1; k + 1 < al_[i].n; k++) d |= al_[i].p[k] ^ (uint8_t)(al_[i].seed + k);
    d |= (al_[i].p[0] ^ al_[i].first) | (al_[i].p[al_[i].n - 1] ^ al_[i].first);
    sx_assert(!d, "memory keeps its content");
  }
}
static void go(void *arg) {
  (void)arg;
  CR_Region *r = CR_RegionNew(), *r2 = sx_choose(2, "second region") ? CR_RegionNew() : r;
  uint8_t *g[2] = {NULL, NULL}; size_t gn[2] = {0, 0}; int gi[2] = {-1, -1};
  Allocator *one = NULL;
  for (int s = 0; s < NOPS; s++) {
    int op = sx_choose(7, "step");
    size_t n = op == 4 ? 1 : size_of[sizes_[sx_choose(NSZ, "size")]];
    switch (op) {
    case 0: use(CR_RegionAlloc(r2, n), n); break;
    case 1: use(CR_RegionAllocUnaligned(r, n), n); break;
    case 2: use(allocate(allocatorWrapRegion(r), n), n); break;
    case 3: {  // a buffer which grows
      int k = 0;
      if (g[0]) k = 1;
      uint8_t *old = g[k];
      g[k] = k == 0 ? CR_RegionAllocGrowable(r, n) : CR_EnsureCapacity(g[1], n);
      sx_assert((uintptr_t)g[k] % 8 == 0, "memory is aligned");
      if (!old) { gn[k] = n; gi[k] = nal_; use(g[k], n); }
      else { al_[gi[k]].p = g[k]; if (n > gn[k]) { check(); al_[gi[k]].n = gn[k]; memset(g[k] + gn[k], 7, n - gn[k]); } }
      break;
    }
    case 4: CR_RegionAttach(r, callback, (void *)(uintptr_t)++ncb_); break;
    case 5: {  // grow the first buffer
      if (!g[0]) vx_ext_exit(0);
      g[0] = CR_EnsureCapacity(g[0], n);
      al_[gi[0]].p = g[0];
      if (n > gn[0]) { check(); for (size_t i = gn[0]; i < n; i++) g[0][i] = 7; }
      break;
    }
    case 6: {  // copies of strings, and one buffer for many
      if (!one) one = allocatorWrapOneSingleGrowableBuffer(r);
      char *src = sx_heap_alloc(n);
      for (size_t i = 0; i < n; i++) src[i] = (char)(nal_ * 37 + i);
      src[0] = (char)sx_int(8, "byte"); src[n - 1] = src[0];
      StringView c = strCopy(strUnterminated(src, n), allocatorWrapRegion(r2));
      sx_assert(c.length == n && c.content != src && c.content[n] == 0, "a copy has the same length and ends in a null byte");
      al_[nal_].p = (uint8_t *)c.content; al_[nal_].n = n; al_[nal_].seed = nal_ * 37; al_[nal_].first = (uint8_t)src[0];
      nal_++;
      char *raw = strCopyRaw(strUnterminated(src, n), one);
      sx_assert(!vx_bytes_differ(raw, src, n) && raw[n] == 0, "a copy is equal");
      for (size_t i = 0; i < n; i++) src[i] = 0;
      break;
    }
    }
    check();
  }
  if (sx_choose(2, "release")) {
    released_ = true;
    CR_RegionRelease(r);
    sx_assert(ncalled_ == ncb_, "callbacks are called on release");
    if (r2 != r) CR_RegionRelease(r2);
    sx_cover("released");
  } else sx_cover("released at exit");
  vx_ext_exit(0);
}
void harness(void) {
  vx_fs_init();
#ifdef OOM
  vx_oom_on = true;
  vx_oom_at = sx_choose(7, "failing allocation");
#endif
  int rc = vx_run(go, NULL);
  if (rc != 0) {
    sx_assert(vx_oom_hit && rc == 1 && vx_errlen > 0, "an error is reported if there is no memory, only then");
    sx_cover("out of memory");
  } else sx_assert(!vx_oom_hit, "no memory, no success");
  sx_assert(ncalled_ == ncb_, "each callback is called once");
  for (int i = 0; i < ncalled_; i++) sx_assert(called_[i] == ncb_ - i, "callbacks are called in reverse order");
}
#endif
