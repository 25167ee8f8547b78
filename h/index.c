// An index with symbolic fields is read and written, and read again.
#include "meta.h"
#include "metadata.h"

static Metadata *md;
static MIndex in_, out_, out2_;
static void loaded(const PathHistory *h, const MPoint *p, int n) {
  for (int i = 0; i < n; i++, h = h->next, p++) {
    sx_assert(h != NULL, "every history point is read");
    sx_assert(h->backup->id == p->id, "the backup of a history point is read exactly");
    sx_assert((uint8_t)h->state.type == p->type, "the type is read exactly");
    if (p->type != MT_NONE) sx_assert((h->state.uid == p->uid) & (h->state.gid == p->gid), "the owner is read exactly");
    if (p->type == MT_REG) {
      const RegularFileInfo *f = &h->state.metadata.file_info;
      sx_assert((f->permission_bits == p->mode) & ((uint64_t)f->modification_time == p->mtime) & (f->size == p->size), "mode, time and size are read exactly");
      uint64_t big = sx_conc(p->size > M_INLINE);
      sx_assert(!vx_bytes_differ(f->hash, p->hash, big ? 20 : sx_conc(p->size)), "hash or content is read exactly");
      if (big) sx_assert(f->slot == p->slot, "the slot is read exactly");
    } else if (p->type == MT_LNK) {
      sx_assert(h->state.metadata.symlink_target.length == p->tlen && !vx_bytes_differ(h->state.metadata.symlink_target.content, p->target, p->tlen), "the link target is read exactly");
    } else if (p->type == MT_DIR) {
      sx_assert((h->state.metadata.directory_info.permission_bits == p->mode) & ((uint64_t)h->state.metadata.directory_info.modification_time == p->mtime), "mode and time of a directory are read exactly");
    }
  }
  sx_assert(h == NULL, "no history point is invented");
}
static void check_nodes(const PathNode *n, int *count) {
  for (; n; n = n->next) {
    (*count)++;
    char path[M_PATH];
    sx_assert(n->path.length < M_PATH, "path length");
    memcpy(path, n->path.content, n->path.length);
    path[n->path.length] = 0;
    MNode *m = m_find(&in_, path);
    sx_assert(m != NULL, "no path is invented");
    sx_assert((uint8_t)n->policy == m->policy, "the policy is read exactly");
    loaded(n->history, m->p, m->np);
    sx_assert(strTableGet(md->path_table, n->path) == n, "the path is found by its name");
    check_nodes(n->subnodes, count);
  }
}
static void read_write(void *p) {
  const char *to = p;
  CR_Region *r = CR_RegionNew();
  md = metadataLoad(r, str("/r/metadata"));
  if (strcmp(to, "/r/m2") == 0) {
    sx_assert(md->backup_history_length == in_.nb, "number of backups");
    for (uint64_t i = 0; i < in_.nb; i++) sx_assert((uint64_t)md->backup_history[i].completion_time == in_.time[i], "backup times are read exactly");
    loaded(md->config_history, in_.conf, in_.nconf);
    sx_assert(md->total_path_count == in_.total, "path count");
    int n = 0;
    check_nodes(md->paths, &n);
    sx_assert(n == in_.nnode, "every path is read");
  }
  metadataWrite(md, str("/r"), str("/r/tmp-file"), str(to));
}

static int nid;
static bool symid;
static const char *nm(const char *s) { (void)s; static char b[8]; b[0] = 'n'; b[1] = (char)('0' + nid++ % 10); b[2] = 0; return b; }
static void sym_point(MPoint *p, int type, int size) {
  memset(p, 0, sizeof *p);
  p->id = symid ? sx_int(2, nm("id")) : 1;
  p->type = (uint8_t)type;
  if (type) { p->uid = (uint32_t)sx_int(32, "uid"); p->gid = (uint32_t)sx_int(32, "gid"); }
  if (type == MT_REG) {
    p->mode = (uint32_t)sx_int(32, "mode"); p->mtime = sx_int(64, "mtime");
    if (size < 0) { p->size = sx_int(64, "size"); sx_assume(p->size > M_INLINE); sx_sym(p->hash, 20, "hash"); p->slot = (uint8_t)sx_int(8, "slot"); }
    else { p->size = (uint64_t)size; sx_sym(p->hash, (size_t)size, "inline"); }
  } else if (type == MT_LNK) {
    p->tlen = (uint64_t)size;
    sx_sym(p->target, p->tlen, "target");
    for (uint64_t i = 0; i < p->tlen; i++) sx_assume(p->target[i] != 0);
  } else if (type == MT_DIR) { p->mode = (uint32_t)sx_int(32, "mode"); p->mtime = sx_int(64, "mtime"); }
}
static void any_point(MPoint *p) {
  switch (sx_choose(7, "kind")) {
  case 0: sym_point(p, MT_NONE, 0); break;
  case 1: sym_point(p, MT_REG, -1); break;
  case 2: sym_point(p, MT_REG, 0); break;
  case 3: sym_point(p, MT_REG, 1); break;
  case 4: sym_point(p, MT_REG, 20); break;
  case 5: sym_point(p, MT_LNK, 3); break;
  case 6: sym_point(p, MT_DIR, 0); break;
  }
}
static MNode *add(const char *path, int nsub) {
  MNode *n = &in_.node[in_.nnode++];
  memcpy(n->path, path, strlen(path) + 1);
  n->policy = (uint8_t)sx_int(8, "policy");
  sx_assume(n->policy <= MP_TRACK);
  n->nsub = nsub;
  return n;
}
static void enc_node(const MNode *n) {
  const char *name = strrchr(n->path, '/') + 1;
  m_name(name);
  m_u8(n->policy);
  m_u64((uint64_t)n->np);
  for (int i = 0; i < n->np; i++) m_point(&n->p[i]);
  m_u64((uint64_t)n->nsub);
}
static uint64_t refs_(MIndex *x, uint64_t id) {
  uint64_t c = 0;
  for (int i = 0; i < x->nconf; i++) c |= x->conf[i].id == id;
  for (int i = 0; i < x->nnode; i++) for (int k = 0; k < x->node[i].np; k++) c |= x->node[i].p[k].id == id;
  return c;
}
static uint64_t newid[4];
static void same_points(const MPoint *a, const MPoint *b, int n, bool map) {
  for (int i = 0; i < n; i++, a++, b++) {
    uint64_t want = a->id;
    if (map) { want = 0; for (int k = 0; k < 4; k++) want = sx_ite(a->id == (uint64_t)k, newid[k], want); }
    sx_assert(b->id == want, "backups are renumbered in order");
    sx_assert(b->type == a->type, "type written exactly");
    sx_assert((b->uid == a->uid) & (b->gid == a->gid) & (b->mode == a->mode) & (b->mtime == a->mtime), "attributes written exactly");
    sx_assert((b->size == a->size) & (b->slot == a->slot), "size and slot written exactly");
    sx_assert(!vx_bytes_differ(a->hash, b->hash, 20), "hash or content written exactly");
    sx_assert(b->tlen == a->tlen && !vx_bytes_differ(a->target, b->target, a->tlen), "target written exactly");
  }
}
static void same(MIndex *a, MIndex *b, bool map) {
  sx_assert(a->nconf == b->nconf, "configuration history kept");
  same_points(a->conf, b->conf, a->nconf, map);
  sx_assert(a->total == b->total, "path count kept");
  sx_assert(a->nnode == b->nnode, "all paths kept");
  for (int i = 0; i < a->nnode; i++) {
    MNode *m = m_find(b, a->node[i].path);
    sx_assert(m != NULL, "path kept");
    sx_assert(m->policy == a->node[i].policy, "policy kept");
    sx_assert(m->np == a->node[i].np, "history length kept");
    same_points(a->node[i].p, m->p, m->np, map);
  }
}

void harness(void) {
  fs_basic("");
  in_.nb = 4;
  for (int i = 0; i < 4; i++) in_.time[i] = sx_int(64, "time");
  in_.nconf = 1;
  symid = true;
  sym_point(&in_.conf[0], MT_REG, -1);
  symid = false;
  in_.conf[0].uid = in_.conf[0].gid = 0;
  in_.total = sx_int(64, "total");
  MNode *n = add("/a", 2);
  n->np = 1; sym_point(&n->p[0], MT_DIR, 0);
  n = add("/a/f", 0);
  n->np = 2; symid = true; any_point(&n->p[0]); any_point(&n->p[1]); symid = false;
  sx_assume(n->p[0].type != MT_NONE || n->p[1].type != MT_NONE);  // a path which never existed has no place in an index
  n = add("/a/a long name\xff \n", 1);
  n->np = 1; sym_point(&n->p[0], MT_LNK, 1);
#ifdef THOROUGH
  symid = true; any_point(&n->p[0]); symid = false;
  sx_assume(n->p[0].type != MT_NONE);
#endif
  n = add("/a/a long name\xff \n/f", 0);
  n->np = 1; sym_point(&n->p[0], MT_REG, -1);
  n = add("/b", 0);
  n->np = 1; sym_point(&n->p[0], MT_REG, 5);
  char longname[302] = "/";
  memset(longname + 1, 'x', 300);
  n = add(longname, 0);
  n->np = 5;
  for (int i = 0; i < 5; i++) sym_point(&n->p[i], MT_DIR, 0);
  sym_point(&n->p[4], MT_LNK, 4);
  n->p[4].tlen = 270; memset(n->p[4].target + 4, 'y', 266);
  in_.nroot = 3;
  // encode in order: the tree above is listed in pre-order
  m_u64(in_.nb);
  for (int i = 0; i < 4; i++) m_u64(in_.time[i]);
  m_u64((uint64_t)in_.nconf);
  m_point(&in_.conf[0]);
  m_u64(in_.total);
  m_u64((uint64_t)in_.nroot);
  for (int i = 0; i < in_.nnode; i++) {
    enc_node(&in_.node[i]);
    if (in_.node[i].nsub == 0) m_u64(0), mn -= 8;
  }
  vx_mkfile("/r/metadata", mb, mn, 0644, 0, 0, 1);
  sx_assert(vx_run(read_write, "/r/m2") == 0, "a valid index is accepted");
  sx_assert(m_parse_file(&out_, "/r/m2"), "what is written has the documented layout");
  uint64_t k = 0;
  for (int i = 0; i < 4; i++) {
    newid[i] = k;
    uint64_t ref = sx_conc(refs_(&in_, (uint64_t)i));
    if (ref) {
      sx_assert(k < out_.nb && out_.time[k] == in_.time[i], "times of referenced backups are kept in order");
      k++;
    } else sx_cover("unreferenced backup dropped");
  }
  sx_assert(out_.nb == k, "unreferenced backups are dropped");
  if (k == 4) sx_cover("all backups referenced");
  same(&in_, &out_, true);
  // again: nothing changes any more
  vx_set_data(vx_lookup("/r/metadata", false), nodep("/r/m2")->data, nodep("/r/m2")->len);
  sx_assert(vx_run(read_write, "/r/m3") == 0, "what was written is accepted");
  sx_assert(m_parse_file(&out2_, "/r/m3"), "layout");
  sx_assert(out2_.nb == out_.nb, "no backup is dropped the second time");
  for (uint64_t i = 0; i < out_.nb; i++) sx_assert(out2_.time[i] == out_.time[i], "times stay");
  same(&out_, &out2_, false);
}
