// The documented layout of the index, independent of the program: an encoder
// and a decoder. All numbers are little-endian.
#pragma once
#include "lib.h"

#ifndef M_SIZE
#define M_SIZE 4096
#endif
static uint8_t mb[M_SIZE];
static uint32_t mn;
static struct { uint32_t at, n; bool len; } mf[200];  // fields written so far
static uint32_t mfn;
static inline void m_field(uint32_t n) { if (mfn < 200) { mf[mfn].at = mn; mf[mfn].n = n; mf[mfn++].len = false; } }
static inline void m_u8(uint8_t v) { m_field(1); mb[mn++] = v; }
static inline void m_u32(uint32_t v) { m_field(4); for (int i = 0; i < 4; i++) mb[mn++] = (uint8_t)(v >> (8 * i)); }
static inline void m_u64(uint64_t v) { m_field(8); for (int i = 0; i < 8; i++) mb[mn++] = (uint8_t)(v >> (8 * i)); }
static inline void m_bytes(const void *p, uint64_t n) { m_field((uint32_t)n); memcpy(mb + mn, p, n); mn += (uint32_t)n; }
static inline void m_len(uint64_t v) { m_u64(v); mf[mfn - 1].len = true; }

enum { MT_NONE, MT_REG, MT_LNK, MT_DIR };
enum { MP_NONE, MP_COPY, MP_MIRROR, MP_TRACK };
#define M_INLINE 20
#define M_TGT 272
#define M_PATH 320
typedef struct MPoint {
  uint64_t id; uint8_t type; uint32_t uid, gid, mode; uint64_t mtime, size;
  uint8_t hash[20]; uint8_t slot;
  uint64_t tlen; uint8_t target[M_TGT];
} MPoint;
#define M_PTS 6
typedef struct MNode { char path[M_PATH]; uint8_t policy; int np; MPoint p[M_PTS]; int nsub; } MNode;
#ifndef M_NODES
#define M_NODES 14
#endif
typedef struct MIndex { uint64_t nb; uint64_t time[8]; int nconf; MPoint conf[M_PTS]; uint64_t total; int nroot, nnode; MNode node[M_NODES]; } MIndex;

static inline void m_point(const MPoint *p) {
  m_u64(p->id);
  m_u8(p->type);
  if (p->type != MT_NONE) { m_u32(p->uid); m_u32(p->gid); }
  if (p->type == MT_REG) {
    m_u32(p->mode); m_u64(p->mtime); m_u64(p->size);
    if (sx_conc(p->size > M_INLINE)) { m_bytes(p->hash, 20); m_u8(p->slot); }
    else m_bytes(p->hash, sx_conc(p->size));
  } else if (p->type == MT_LNK) { m_len(p->tlen); m_bytes(p->target, p->tlen); }
  else if (p->type == MT_DIR) { m_u32(p->mode); m_u64(p->mtime); }
}
static inline void m_name(const char *s) { uint64_t n = strlen(s); m_len(n); m_bytes(s, n); }

// ---- decoder
static const uint8_t *md_; static uint64_t mdn_, mdp_; static bool mdbad_;
static inline uint64_t g_n(int n) {
  uint64_t v = 0;
  if (mdp_ + n > mdn_) { mdbad_ = true; return 0; }
  for (int i = 0; i < n; i++) v |= (uint64_t)md_[mdp_ + i] << (8 * i);
  mdp_ += n;
  return v;
}
static inline void g_bytes(void *d, uint64_t n) {
  if (n > mdn_ - mdp_) { mdbad_ = true; return; }
  memcpy(d, md_ + mdp_, n);
  mdp_ += n;
}
static inline void g_point(MPoint *p) {
  memset(p, 0, sizeof *p);
  p->id = g_n(8);
  p->type = (uint8_t)sx_conc(g_n(1));
  if (p->type > MT_DIR) { mdbad_ = true; return; }
  if (p->type != MT_NONE) { p->uid = (uint32_t)g_n(4); p->gid = (uint32_t)g_n(4); }
  if (p->type == MT_REG) {
    p->mode = (uint32_t)g_n(4); p->mtime = g_n(8); p->size = g_n(8);
    if (sx_conc(p->size > M_INLINE)) { g_bytes(p->hash, 20); p->slot = (uint8_t)g_n(1); }
    else g_bytes(p->hash, sx_conc(p->size));
  } else if (p->type == MT_LNK) {
    p->tlen = sx_conc(g_n(8));
    if (p->tlen > M_TGT) { mdbad_ = true; return; }
    g_bytes(p->target, p->tlen);
  } else if (p->type == MT_DIR) { p->mode = (uint32_t)g_n(4); p->mtime = g_n(8); }
}
static inline int g_list(MPoint *p) {
  uint64_t n = sx_conc(g_n(8));
  if (n > M_PTS) { mdbad_ = true; return 0; }
  for (uint64_t i = 0; i < n && !mdbad_; i++) g_point(&p[i]);
  return (int)n;
}
static inline void g_nodes(MIndex *x, const char *parent, int *count) {
  uint64_t n = sx_conc(g_n(8));
  *count = (int)n;
  for (uint64_t i = 0; i < n && !mdbad_; i++) {
    uint64_t len = sx_conc(g_n(8));
    uint64_t pl = strlen(parent);
    if (mdbad_ || !len || pl + len + 2 > M_PATH || x->nnode == M_NODES) { mdbad_ = true; return; }
    MNode *m = &x->node[x->nnode++];
    memset(m->path, 0, M_PATH);
    memcpy(m->path, parent, pl);
    m->path[pl] = '/';
    g_bytes(m->path + pl + 1, len);
    m->policy = (uint8_t)g_n(1);
    m->np = g_list(m->p);
    g_nodes(x, m->path, &m->nsub);
  }
}
static inline bool m_parse(MIndex *x, const uint8_t *d, uint64_t n) {
  memset(x, 0, sizeof *x);
  md_ = d; mdn_ = n; mdp_ = 0; mdbad_ = false;
  x->nb = sx_conc(g_n(8));
  if (x->nb > 8) return false;
  for (uint64_t i = 0; i < x->nb; i++) x->time[i] = g_n(8);
  x->nconf = g_list(x->conf);
  x->total = g_n(8);
  g_nodes(x, "", &x->nroot);
  return !mdbad_ && mdp_ == mdn_;
}
static inline bool m_parse_file(MIndex *x, const char *path) {
  VNode *n = nodep(path);
  return n && n->type == VT_REG && m_parse(x, n->data, n->len);
}
static inline MNode *m_find(MIndex *x, const char *path) {
  for (int i = 0; i < x->nnode; i++) if (strcmp(x->node[i].path, path) == 0) return &x->node[i];
  return NULL;
}
// where a stored file has to be: two levels of directories from the hash
static inline char *m_stored(char *buf, const char *repo, const MPoint *p) {
  static const char hx[] = "0123456789abcdef";
  uint64_t n = strlen(repo);
  memcpy(buf, repo, n);
  buf[n++] = '/';
  buf[n++] = hx[p->hash[0] >> 4]; buf[n++] = '/';
  buf[n++] = hx[p->hash[0] & 15]; buf[n++] = hx[p->hash[1] >> 4]; buf[n++] = '/';
  buf[n++] = hx[p->hash[1] & 15];
  for (int i = 2; i < 20; i++) { buf[n++] = hx[p->hash[i] >> 4]; buf[n++] = hx[p->hash[i] & 15]; }
  buf[n++] = 'x';
  int sh = 60;
  while (sh && !((p->size >> sh) & 15)) sh -= 4;
  for (; sh >= 0; sh -= 4) buf[n++] = hx[(p->size >> sh) & 15];
  buf[n++] = 'x';
  if (p->slot >> 4) buf[n++] = hx[p->slot >> 4];
  buf[n++] = hx[p->slot & 15];
  buf[n] = 0;
  return buf;
}
