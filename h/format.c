// The bytes of a repository against the documented layout.
#include "meta.h"
static MIndex ix_;
static const int kinds[] = {K_ABSENT, K_EMPTY, K_SMALL, K_BIG, K_LINK, K_DIR};

static void check_point(MPoint *p, VNode *n) {
  if (!n) { sx_assert(p->type == MT_NONE, "absence is recorded"); return; }
  static const uint32_t fmt[] = {0, 0100000, 0120000, 0040000};
  sx_assert(p->type == n->type, "type");  // same numbers
  sx_assert((p->uid == n->uid) & (p->gid == n->gid), "owner");
  if (n->type == VT_LNK) { sx_assert(p->tlen == n->len && !vx_bytes_differ(p->target, n->data, n->len), "link target"); return; }
  sx_assert((p->mode == (n->mode | fmt[n->type])) & (p->mtime == (uint64_t)n->mtime), "mode and time");
  if (n->type != VT_REG) return;
  sx_assert(p->size == n->len, "size");
  if (n->len <= M_INLINE) { sx_assert(!vx_bytes_differ(p->hash, n->data, n->len), "small files lie in the index"); return; }
  uint8_t h[20];
  vx_hash_of(n->data, n->len, h, 20);
  sx_assert(!vx_bytes_differ(p->hash, h, 20) && p->slot == 0, "hash and slot");
  char b[80];
  VNode *s = nodep(m_stored(b, "/r", p));
  sx_assert(s && s->type == VT_REG && s->len == n->len && !vx_bytes_differ(s->data, n->data, n->len), "the content lies where its hash says");
}
#ifdef READ
// a repository written by hand is restored and checked
static void sym_p(MPoint *p, int id, int k, unsigned seed) {
  memset(p, 0, sizeof *p);
  p->id = (uint64_t)id;
  if (k == K_ABSENT) return;
  p->uid = (uint32_t)sx_int(32, "uid"); p->gid = (uint32_t)sx_int(32, "gid");
  sx_assume((p->uid != 0xffffffffu) & (p->gid != 0xffffffffu));
  if (k == K_LINK) { p->type = MT_LNK; p->tlen = 3; memcpy(p->target, "t/g", 3); p->target[2] = (uint8_t)('a' + seed); return; }
  p->mode = (uint32_t)sx_int(12, "mode"); p->mtime = sx_int(64, "mtime");
  if (k == K_DIR) { p->type = MT_DIR; p->mode |= 0040000; return; }
  p->type = MT_REG; p->mode |= 0100000;
  uint8_t d[64];
  pattern(d, 64, seed);
  p->size = k == K_EMPTY ? 0 : k == K_SMALL ? 7 : 30 + seed;
  if (p->size <= M_INLINE) { sx_sym(p->hash, p->size, "inline"); return; }
  vx_hash_of(d, p->size, p->hash, 20);
  p->slot = (uint8_t)(sx_choose(3, "slot") * 17);
  char b[80];
  m_stored(b, "/r", p);
  for (int i = 3; b[i]; i++) if (b[i] == '/') { b[i] = 0; if (node(b) < 0) vx_mkdir_p(b, 0700, 0, 0, 50); b[i] = '/'; }
  if (node(b) < 0) vx_mkfile(b, d, p->size, 0600, 0, 0, 50);
}
static void expect(const char *path, const MPoint *p, unsigned seed) {
  uint8_t d[64];
  pattern(d, 64, seed);
  switch (p->type) {
  case MT_NONE: return;
  case MT_REG: vx_mkfile(path, p->size <= M_INLINE ? p->hash : d, p->size, p->mode & 07777, p->uid, p->gid, (int64_t)p->mtime); break;
  case MT_LNK: { char t[4] = {0}; memcpy(t, p->target, 3); vx_mklink(path, t, p->uid, p->gid); break; }
  case MT_DIR: vx_mkdir_p(path, p->mode & 07777, p->uid, p->gid, (int64_t)p->mtime); break;
  }
}
void harness(void) {
  static const char *const confs[] = {"", "[copy]\n/s", "[mirror]\n/s", "[track]\n/s"};
  int pol = 1 + (int)sx_choose(3, "policy"), np = pol == MP_TRACK ? 2 : 1;
  bool nested = sx_choose(2, "nested");
  char conf[24];
  cat(conf, confs[pol], nested ? "/p\n" : "\n");
  fs_basic(conf);
  MPoint c, s, p[2];
  mn = 0;
  m_u64(2); m_u64(sx_int(63, "time")); m_u64(sx_int(63, "time"));
  m_u64(1);
  memset(&c, 0, sizeof c);
  c.id = 1; c.type = MT_REG; c.mode = 0644 | 0100000; c.mtime = 100; c.size = strlen(conf);
  memcpy(c.hash, conf, c.size);
  m_point(&c);
  int k0 = kinds[sx_choose(6, "kind")], k1 = K_SMALL;
  if (np == 2) k1 = kinds[1 + sx_choose(5, "kind")];
  else if (k0 == K_ABSENT) return;
  m_u64(2);  // paths
  m_u64(1);
  memset(&s, 0, sizeof s);
  s.id = 1; s.type = MT_DIR; s.mode = 0755 | 0040000; s.uid = 3; s.gid = 4; s.mtime = 77;
  m_name("s"); m_u8(nested ? MP_NONE : (uint8_t)pol); m_u64(1); m_point(&s); m_u64(1);
  sym_p(&p[0], np == 2 ? 0 : 1, k0, 1);
  if (np == 2) sym_p(&p[1], 1, k1, 2);
  m_name("p"); m_u8((uint8_t)pol); m_u64((uint64_t)np);
  for (int i = 0; i < np; i++) m_point(&p[i]);
  m_u64(0);
  vx_mkfile("/r/metadata", mb, mn, 0600, 0, 0, 1);
  unsigned id = sx_choose(2, "id");
  unsigned which = np == 2 ? id : 0;
  vx_mkdir_p("/x/s", 0755, 3, 4, 77);
  expect("/x/s/p", &p[which], which + 1);
  set_mtime("/x/s", 77);
  sx_assert(nb_restore((int)id, "/s") == 0, "a repository of the documented layout can be restored");
  if (nested) set_mtime("/s", 77);  // a directory which is not itself saved
  sx_assert(vx_tree_eq("/s", "/x/s"), "what is restored is what the index says");
  sx_assert(nb_integrity() == 0, "and is healthy");
  if (which == 0) nothing_left();
  sx_cover("restored");
}
#elif defined(MERGE)
// cp -rn current/* old/; cp current/{config,metadata} old/; nb old/ gc
static void cp_rn(const char *from, const char *to) {
  VNode *d = nodep(from);
  for (int i = 0; i < d->nent; i++) {
    char a[160], b[160];
    cat(a, from, "/"); strcat(a, d->ent[i].name);
    cat(b, to, "/"); strcat(b, d->ent[i].name);
    if (node(b) < 0) vx_clone_tree(a, b);
    else if (vx_node[d->ent[i].ino]->type == VT_DIR) cp_rn(a, b);
  }
}
static void times0(int i) {
  VNode *d = vx_node[i];
  d->mtime = 0;
  for (int k = 0; k < d->nent; k++) times0(d->ent[k].ino);
}
void harness(void) {
  fs_basic("[track]\n/s\n");
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  int branch = (int)sx_choose(2, "branches");
  for (int i = 0; i < 3; i++) {
    vx_wipe("/s/p"); vx_wipe("/s/q");
    mkkind("/s/p", kinds[sx_choose(6, "kind")], (unsigned)i + 1, false);
    if (i == 1 || sx_choose(2, "other")) mkkind("/s/q", K_BIG, (unsigned)(i + 5), i == 0);
    set_mtime("/s", 100 + i);
    vx_now += 1000;
    if (i == 1 && branch) {
      // the older repository has gone its own way
      vx_clone_tree("/r", "/x/r1");
      sx_assert(nb_backup() == 0, "backup");
      vx_wipe("/x/old"); vx_clone_tree("/r", "/x/old");
      vx_wipe("/r"); vx_clone_tree("/x/r1", "/r");
      continue;
    }
    sx_assert(nb_backup() == 0, "backup");
    if (i == 0) vx_clone_tree("/r", "/x/old");
  }
  vx_clone_tree("/r", "/x/cur");
  cp_rn("/x/cur", "/x/old");
  vx_wipe("/x/old/config"); vx_wipe("/x/old/metadata");
  vx_clone_tree("/x/cur/config", "/x/old/config"); vx_clone_tree("/x/cur/metadata", "/x/old/metadata");
  vx_wipe("/r");
  vx_clone_tree("/x/old", "/r");
  sx_assert(nb_gc() == 0, "collection");
  vx_wipe("/r/lockfile"); vx_wipe("/x/cur/lockfile");
  times0(node("/r")); times0(node("/x/cur"));
  sx_assert(vx_tree_eq("/r", "/x/cur"), "the repository brought up to date equals the current one");
  sx_cover(branch ? "branches" : "older");
}
#else
void harness(void) {
  static const char *const conf[] = {"", "[copy]\n/s/p\n", "[mirror]\n/s/p\n", "[track]\n/s/p\n"};
  unsigned pol = 1 + sx_choose(3, "policy");
  fs_basic(conf[pol]);
  vx_mkdir_p("/s", 0755, 1, 2, 100);
  VNode *st[2];
  int64_t t[2];
  for (int i = 0; i < 2; i++) {
    int k = kinds[sx_choose(6, "kind")];
    if (i) vx_wipe("/s/p");
    mkkind("/s/p", k, (unsigned)i + 1, true);
    set_mtime("/s", 100);
    static const char *to[] = {"/x/0", "/x/1"};
    if (k == K_ABSENT) { if (!i || pol != MP_TRACK) return; st[i] = NULL; }
    else { vx_clone_tree("/s/p", to[i]); st[i] = nodep(to[i]); }
    if (i && st[0] && st[1] && st[1]->type == VT_REG && st[0]->type == VT_REG) sx_assume(st[0]->mtime != st[1]->mtime);  // else the content counts as the same
    vx_time_fixed = true;
    vx_now = i ? 0x123456789abc : 0x7fedcba987;
    t[i] = vx_now;
    sx_assert(nb_backup() == 0, "backup");
  }
  sx_assert(m_parse_file(&ix_, "/r/metadata"), "the index has the documented layout");
  sx_assert(ix_.nb == 2 || ix_.nb == 1, "number of backups");
  sx_assert(ix_.time[0] == (uint64_t)t[1] || ix_.nb == 1, "time of the latest backup");
  if (ix_.nb == 2) sx_assert(ix_.time[1] == (uint64_t)t[0], "time of the backup before");
  sx_assert(ix_.total == (uint64_t)ix_.nnode && ix_.nnode == 2 && ix_.nroot == 1, "number of paths");
  MNode *s = m_find(&ix_, "/s"), *p = m_find(&ix_, "/s/p");
  sx_assert(s && p && s->policy == MP_NONE && p->policy == pol && s->np == 1, "paths and policies");
  check_point(&s->p[0], nodep("/s"));
  if (pol != MP_TRACK) { sx_assert(p->np == 1, "one state"); check_point(&p->p[0], st[1]); sx_cover("one state"); return; }
  sx_assert(p->np == 1 || p->np == 2, "history");
  if (p->np == 2) { check_point(&p->p[0], st[1]); check_point(&p->p[1], st[0]); sx_assert(p->p[0].id == 0 && p->p[1].id == 1, "latest state first"); sx_cover("two states"); }
  else { check_point(&p->p[0], st[0]); check_point(&p->p[0], st[1]); sx_cover("unchanged"); }
}
#endif
