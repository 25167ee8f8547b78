// Abstract hash replacing BLAKE2b: a function of the content alone, equal for
// equal contents. Different contents get different hashes unless the harness
// allows collisions, then whether two contents collide is symbolic.
#include <string.h>
#include "BLAKE2/blake2.h"
#include "vx.h"

typedef struct Known { uint8_t *data; uint64_t len; int cls; } Known;
static Known known_[64];
static int nknown_, nclass_;
bool vx_hash_collide;
unsigned vx_hash_layout;
int vx_hash_near = -1;
uint32_t vx_hash_count;

typedef struct Acc { uint8_t *data; uint64_t len, cap; } Acc;
static Acc *acc_of(blake2b_state *s) { Acc *a; memcpy(&a, s->buf, sizeof a); return a; }

int ov_blake2b_init(blake2b_state *s, size_t outlen) {
  Acc *a = sx_malloc(sizeof *a);
  memset(s, 0, sizeof *s);
  s->outlen = outlen;
  memcpy(s->buf, &a, sizeof a);
  return 0;
}
int ov_blake2b_update(blake2b_state *s, const void *p, size_t n) {
  Acc *a = acc_of(s);
  if (!n) return 0;
  if (a->len + n > a->cap) {
    uint64_t c = a->cap ? a->cap : 64;
    while (c < a->len + n) c *= 2;
    uint8_t *d = sx_malloc(c);
    if (a->len) memcpy(d, a->data, a->len);
    if (a->data) sx_free(a->data);
    a->data = d; a->cap = c;
  }
  memcpy(a->data + a->len, p, n);
  a->len += n;
  return 0;
}
static int class_of(const uint8_t *d, uint64_t n) {
  for (int i = 0; i < nknown_; i++)
    if (known_[i].len == n && !vx_bytes_differ(known_[i].data, d, n)) return known_[i].cls;
  if (nknown_ == 64) sx_fail("hash model: too many contents");
  Known *k = &known_[nknown_++];
  k->data = sx_malloc(n ? n : 1);
  if (n) memcpy(k->data, d, n);
  k->len = n;
  k->cls = nclass_;
  if (vx_hash_collide && nclass_) k->cls = sx_choose(nclass_ + 1, "hash-class");
  if (k->cls == nclass_) nclass_++;
  return k->cls;
}
void vx_hash_of(const void *d, uint64_t n, uint8_t *out, size_t outlen) {
  int c = class_of(d, n);
  if (vx_hash_near >= 0) {  // hashes of different contents differ in this byte only
    for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(0xa0 + i * 5);
    if (outlen > 3) out[3] = 0;  // no end of anything
    if ((size_t)vx_hash_near < outlen) out[vx_hash_near] ^= (uint8_t)c;
    return;
  }
  for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(0x30 + c * 7 + i * 5);
  if (outlen > 3) out[3] = 0;
  // Stored files are named after X/YZ, X being the upper half of the first byte
  // and YZ the next two: which contents share directories is the layout.
  int hi, lo;
  switch (vx_hash_layout) {
  default: hi = (c >> 1) & 1; lo = c & 1; break;  // some share a directory, some only its parent
  case 1: hi = 0; lo = 0; break;                  // all in one directory
  case 2: hi = 0; lo = c; break;                  // one directory each
  case 3: hi = c; lo = 0; break;                  // not even a common parent
  }
  out[0] = (uint8_t)(((0xa + hi) << 4) + (lo & 15));
  if (outlen > 1) out[1] = (uint8_t)(0x0b + ((lo >> 4) << 4));
  if (outlen > 19) out[19] = (uint8_t)c;
}
int ov_blake2b_final(blake2b_state *s, void *out, size_t outlen) {
  Acc *a = acc_of(s);
  if (outlen != s->outlen) return -1;
  vx_hash_count++;
  uint8_t none = 0;
  vx_hash_of(a->data ? a->data : &none, a->len, out, outlen);
  if (a->data) sx_free(a->data);
  sx_free(a);
  return 0;
}
