#include "vx.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <regex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/file.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

#undef errno
#define MAXPROC 5
#define MAXFD 40
#define OUTCAP 65536

VNode *vx_node[VX_MAXNODE];
int64_t vx_now = 1000000000;
bool vx_time_fixed;
uint32_t vx_bufsize = 4096;
uint32_t vx_blksize = 4096;
bool vx_dir_reverse, vx_tty, vx_durable, vx_print_abstract, vx_rofs, vx_multi, vx_small_writes, vx_print_tokens;
uint64_t vx_token[16]; int vx_ntokens;
uint32_t vx_ops, vx_calls;
bool vx_crash_on, vx_fault_on, vx_fault_sticky;
uint32_t vx_crash_at, vx_fault_at;
int vx_fault_hits, vx_fault_errno;
const char *vx_fault_name = "";
void (*vx_hook)(const char *, const char *);
void (*vx_on_mutate)(const char *, const char *);
char vx_out[OUTCAP]; uint32_t vx_outlen; bool vx_out_overflow;
char vx_err[8192]; uint32_t vx_errlen;

static size_t xlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static int xeq(const char *a, const char *b) { size_t n = xlen(a); return n == xlen(b) && memcmp(a, b, n) == 0; }

typedef struct Ofd { bool used; int ino; uint64_t pos; int flags; int refs; } Ofd;
typedef struct VFile {
  int kind;      // 0 file, 1 stdin, 2 stdout, 3 stderr
  int fd;
  bool rd, wr, append, err, eof, open;
  int unget;     // -1 none
  uint8_t *buf; uint32_t blen, bcap;
  bool unbuf;
} VFile;
typedef struct VDir { int ino, fd; int n, pos; VEnt *e; struct dirent de; } VDir;
typedef struct Proc {
  Ofd fd[MAXFD];
  VFile *files[MAXFD]; int nfiles;
  void (*atexit_fn[64])(void); int natexit;
  char cwd[1024];
  const char *in; uint32_t inlen, inpos; bool in_err;
  VFile std[3];
  int err_no;
  uint32_t rnd;
  uint32_t um;
  bool exiting;
} Proc;
static Proc proc_[MAXPROC];
static Proc *pr(void) { return &proc_[sx_co_cur()]; }
FILE *vx_stdin, *vx_stdout, *vx_stderr;
char **vx_environ;
static char *noenv[1];

static int *errp(void) { return &pr()->err_no; }
int *vx___errno_location(void) { return errp(); }
static int fail(int e) { *errp() = e; return -1; }

// ------------------------------------------------------------------ nodes
static int node_new(int type, uint32_t mode) {
  for (int i = 1; i < VX_MAXNODE; i++)
    if (!vx_node[i]) {
      VNode *n = sx_malloc(sizeof *n);
      n->type = type; n->mode = mode & 07777; n->mtime = vx_now;
      n->lock_owner = 0;
      vx_node[i] = n;
      return i;
    }
  sx_fail("environment model: too many inodes");
  return 0;
}
static void node_drop(int i) {
  VNode *n = vx_node[i];
  if (n->nlink > 0 || n->open > 0) return;
  if (vx_durable) return;
  if (n->data) sx_free(n->data);
  if (n->ent) sx_free(n->ent);
  sx_free(n);
  vx_node[i] = NULL;
}
static void node_reserve(VNode *n, uint64_t cap) {
  if (cap <= n->cap) return;
  uint64_t c = n->cap ? n->cap : 32;
  while (c < cap) c *= 2;
  uint8_t *d = sx_malloc(c);
  if (n->len) memcpy(d, n->data, n->len);
  if (n->data) sx_free(n->data);
  n->data = d; n->cap = c;
}
static int ent_find(VNode *d, const char *name, size_t len) {
  for (int i = 0; i < d->nent; i++) if (xlen(d->ent[i].name) == len && memcmp(d->ent[i].name, name, len) == 0) return i;
  return -1;
}
static void ent_add(int dir, const char *name, size_t len, int ino) {
  VNode *d = vx_node[dir];
  if (len >= sizeof d->ent->name) { sx_fail("environment model: name too long"); }
  if (d->nent == d->cent) {
    int c = d->cent ? d->cent * 2 : 4;
    VEnt *e = sx_malloc(c * sizeof *e);
    if (d->nent) memcpy(e, d->ent, d->nent * sizeof *e);
    if (d->ent) sx_free(d->ent);
    d->ent = e; d->cent = c;
  }
  VEnt *e = &d->ent[d->nent++];
  memcpy(e->name, name, len); e->name[len] = 0; e->ino = ino;
  vx_node[ino]->nlink++;
  d->mtime = vx_now; d->ddirty = true;
}
static void ent_del(int dir, int i) {
  VNode *d = vx_node[dir];
  int ino = d->ent[i].ino;
  for (int k = i; k + 1 < d->nent; k++) d->ent[k] = d->ent[k + 1];
  d->nent--;
  d->mtime = vx_now; d->ddirty = true;
  vx_node[ino]->nlink--;
  node_drop(ino);
}

// ------------------------------------------------------------------ permissions
uint32_t vx_user, vx_group; static bool acting_;  // 0: everything is allowed; only what the program does is checked
static bool may(int ino, uint32_t want) {  // 4 read, 2 write, 1 search
  if (!acting_ || !vx_user) return true;
  VNode *n = vx_node[ino];
  uint32_t m = n->uid == vx_user ? n->mode >> 6 : n->gid == vx_group ? n->mode >> 3 : n->mode;
  return (m & want) == want;
}
static bool owns(int ino) { return !acting_ || !vx_user || vx_node[ino]->uid == vx_user; }
static int made(int dir, int ino) {  // owner and group of what the program creates
  VNode *d = vx_node[dir], *n = vx_node[ino];
  n->uid = vx_user;
  bool sg = (d->mode & 02000) != 0;
  n->gid = (uint32_t)sx_ite(sg, d->gid, vx_group);
  if (n->type == VT_DIR) n->mode |= (uint32_t)sx_ite(sg, 02000, 0);
  return ino;
}

// ------------------------------------------------------------------ path walk
typedef struct Walk { int dir; int ino; char name[64]; size_t nlen; bool slash; } Walk;
// Resolves path. On success ino is the node or -1 when the last component does
// not exist in dir. Returns 0 or an errno.
static int walk_from(int start, const char *path, bool follow, int depth, Walk *w) {
  int cur = start;
  if (depth > 20) return ELOOP;
  if (!*path) return ENOENT;
  if (*path == '/') cur = 1;
  w->dir = cur; w->ino = cur; w->name[0] = 0; w->nlen = 0; w->slash = false;
  // parents of the current walk, for ".."
  const char *p = path;
  while (*p == '/') p++;
  while (*p) {
    size_t n = 0;
    while (p[n] && p[n] != '/') n++;
    const char *next = p + n;
    bool trail = false;
    while (*next == '/') { next++; trail = true; }
    bool last = !*next;
    VNode *c = vx_node[cur];
    if (c->type != VT_DIR) return ENOTDIR;
    if (!may(cur, 1)) return EACCES;
    if (n >= sizeof w->name) return ENAMETOOLONG;
    int ino;
    if (n == 1 && p[0] == '.') ino = cur;
    else if (n == 2 && p[0] == '.' && p[1] == '.') {
      ino = 1;
      for (int i = 1; i < VX_MAXNODE; i++)
        if (vx_node[i] && vx_node[i]->type == VT_DIR)
          for (int k = 0; k < vx_node[i]->nent; k++) if (vx_node[i]->ent[k].ino == cur) ino = i;
    } else {
      int e = ent_find(c, p, n);
      ino = e < 0 ? -1 : c->ent[e].ino;
    }
    w->dir = cur; memcpy(w->name, p, n); w->name[n] = 0; w->nlen = n; w->slash = trail;
    if (ino < 0) {
      if (!last) return ENOENT;
      w->ino = -1;
      return 0;
    }
    VNode *x = vx_node[ino];
    if (x->type == VT_LNK && (!last || follow || trail)) {
      char t[512];
      if (x->len >= sizeof t) return ENAMETOOLONG;
      memcpy(t, x->data, x->len); t[x->len] = 0;
      Walk w2;
      int e = walk_from(cur, t, true, depth + 1, &w2);
      if (e) return e;
      if (w2.ino < 0) { if (!last) return ENOENT; *w = w2; return 0; }
      ino = w2.ino;
      if (last) { *w = w2; }
      x = vx_node[ino];
    }
    if (last && trail && x->type != VT_DIR) return ENOTDIR;
    cur = ino; w->ino = ino;
    p = next;
  }
  return 0;
}
static int cwd_ino(void) {
  Walk w;
  if (pr()->cwd[0] == '/' && pr()->cwd[1] == 0) return 1;
  if (walk_from(1, pr()->cwd, true, 0, &w) || w.ino < 0) return 1;
  return w.ino;
}
static int walk(const char *path, bool follow, Walk *w) { return walk_from(*path == '/' ? 1 : cwd_ino(), path, follow, 0, w); }
static bool is_under(int ino, int root) {
  if (ino == root) return true;
  VNode *r = vx_node[root];
  if (r->type != VT_DIR) return false;
  for (int i = 0; i < r->nent; i++) if (is_under(r->ent[i].ino, root == ino ? root : r->ent[i].ino)) return true;
  return false;
}

// ------------------------------------------------------------------ ticks
bool (*vx_yield_at)(const char *, const char *);
bool vx_stdout_fails; static bool errno_other_;
uint32_t vx_allocs; bool vx_oom_on; uint32_t vx_oom_at; bool vx_oom_hit;
// Each system call passes here. Returns an errno to inject, or 0.
static int enter(int kind, const char *name, const char *path, int err1, int err2) {
  if (vx_multi && sx_co_cur() != 0 && (!vx_yield_at || vx_yield_at(name, path))) sx_co_switch(0);
  if (vx_hook) vx_hook(name, path);
  if (kind & (VK_WRITE | VK_SYNC)) {
    if (vx_crash_on && vx_ops == vx_crash_at) { vx_crash_on = false; sx_throw(VX_CRASHED); }
    vx_ops++;
  }
  if (vx_fault_on) {
    bool hit = vx_fault_hits && vx_fault_sticky && xeq(vx_fault_name, name);
    if (!hit && !(vx_fault_hits)) hit = vx_calls == vx_fault_at;
    vx_calls++;
    if (hit) {
      if (!vx_fault_hits) {
        unsigned which = sx_choose(err2 ? 3 : 2, "errno");
        errno_other_ = which == 1;
        switch (which) {
        case 0: vx_fault_errno = err1; break;
        case 2: vx_fault_errno = err2; break;
        case 1: {
          // any other one, except for those which may mean something else than a failure
          static const int not[] = {ENOENT, ENOTDIR, ELOOP, EROFS, ERANGE, EBADF, EINTR, EEXIST, EAGAIN};
          vx_fault_errno = (int)sx_int(32, "other errno");
          sx_assume((vx_fault_errno > 0) & (vx_fault_errno < 134));
          for (unsigned i = 0; i < sizeof not / sizeof *not; i++) sx_assume(vx_fault_errno != not[i]);
        }
        }
        vx_fault_name = name;
      }
      vx_fault_hits++;
      return vx_fault_errno;
    }
  } else vx_calls++;
  return 0;
}
bool vx_guard; static bool guarding_;
static bool within(int root, int ino) {
  if (root == ino) return true;
  VNode *n = vx_node[root];
  for (int i = 0; i < n->nent; i++) if (n->ent[i].ino == ino || (vx_node[n->ent[i].ino]->type == VT_DIR && within(n->ent[i].ino, ino))) return true;
  return false;
}
static bool ro(int ino) { return vx_rofs && within(vx_lookup("/r", false), ino); }
static void guard(int ino, const char *name) {
  int r = vx_lookup("/r", true);
  if (r < 0 || !within(r, ino)) {
    // an unlinked file, or one which is outside
    sx_assert(vx_node[ino]->nlink == 0, "nothing outside of the repository is changed");
    return;
  }
  int c = vx_child(r, "config");
  sx_assert(ino != c && !(name && ino == r && xeq(name, "config")), "the configuration is not changed");
}
// ino: the directory of the changed entry, or the changed file itself if there is no name
static void mutated(const char *what, const char *path, int ino, const char *name) {
  if (guarding_) guard(ino, name);
  if (vx_on_mutate) vx_on_mutate(what, path);
}

// ------------------------------------------------------------------ direct access for harnesses
void vx_fs_init(void) {
  for (int i = 0; i < VX_MAXNODE; i++) vx_node[i] = NULL;
  int r = node_new(VT_DIR, 0755);
  vx_node[r]->nlink = 1;
  for (int i = 0; i < MAXPROC; i++) {
    memset(&proc_[i], 0, sizeof proc_[i]);
    proc_[i].cwd[0] = '/';
    proc_[i].um = 022;
    for (int k = 0; k < 3; k++) {
      proc_[i].std[k].kind = k + 1; proc_[i].std[k].fd = k; proc_[i].std[k].open = true;
      proc_[i].std[k].unget = -1; proc_[i].std[k].unbuf = true;
      proc_[i].fd[k].used = true; proc_[i].fd[k].ino = 0;
    }
  }
  vx_stdin = (FILE *)&proc_[0].std[0]; vx_stdout = (FILE *)&proc_[0].std[1]; vx_stderr = (FILE *)&proc_[0].std[2];
  vx_environ = noenv;
}
static int mk(const char *path, int type, uint32_t mode) {
  Walk w;
  int e = walk_from(1, path, false, 0, &w);
  if (e || w.ino >= 0) { sx_fail("harness: cannot create path"); }
  int i = node_new(type, mode);
  ent_add(w.dir, w.name, w.nlen, i);
  return i;
}
int vx_mkdir_p(const char *path, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime) {
  int i = mk(path, VT_DIR, mode);
  vx_node[i]->uid = uid; vx_node[i]->gid = gid; vx_node[i]->mtime = mtime;
  return i;
}
void vx_set_data(int ino, const void *data, uint64_t len) {
  VNode *n = vx_node[ino];
  n->len = 0;
  node_reserve(n, len ? len : 1);
  if (len) memcpy(n->data, data, len);
  n->len = len; n->dirty = true;
}
int vx_mkfile(const char *path, const void *data, uint64_t len, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime) {
  int i = mk(path, VT_REG, 0644);
  VNode *n = vx_node[i];
  vx_set_data(i, data, len);
  n->mode = mode & 07777; n->uid = uid; n->gid = gid; n->mtime = mtime;
  return i;
}
int vx_mklink(const char *path, const char *target, uint32_t uid, uint32_t gid) {
  int i = mk(path, VT_LNK, 0777);
  vx_set_data(i, target, xlen(target));
  vx_node[i]->uid = uid; vx_node[i]->gid = gid;
  return i;
}
int vx_mkfifo_at(const char *path) { return mk(path, VT_FIFO, 0644); }
int vx_mkodd(const char *path, unsigned kind) {  // a pipe, a socket or a device
  static const uint32_t f[] = {S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK};
  int i = mk(path, VT_FIFO, 0644);
  vx_node[i]->odd = f[kind];
  return i;
}
void vx_link_at(const char *path, const char *name) {  // another name for a file
  Walk w;
  int i = vx_lookup(path, false);
  if (i < 0 || walk_from(1, name, false, 0, &w) || w.ino >= 0) { sx_fail("harness: cannot link"); return; }
  ent_add(w.dir, w.name, w.nlen, i);
}
int vx_lookup(const char *path, bool follow) {
  Walk w;
  bool a = acting_;
  acting_ = false;
  int e = walk_from(1, path, follow, 0, &w);
  acting_ = a;
  return e ? -1 : w.ino;
}
int vx_child(int dir, const char *name) {
  int e = ent_find(vx_node[dir], name, xlen(name));
  return e < 0 ? -1 : vx_node[dir]->ent[e].ino;
}
static void wipe_node(int ino) {
  VNode *n = vx_node[ino];
  if (n->type == VT_DIR) while (n->nent) { wipe_node(n->ent[n->nent - 1].ino); ent_del(ino, n->nent - 1); }
}
void vx_wipe(const char *path) {
  Walk w;
  if (walk_from(1, path, false, 0, &w) || w.ino < 0) return;
  wipe_node(w.ino);
  if (w.ino == 1) return;
  ent_del(w.dir, ent_find(vx_node[w.dir], w.name, w.nlen));
}
static int clone_node(int from) {
  VNode *f = vx_node[from];
  int i = node_new(f->type, f->mode);
  VNode *n = vx_node[i];
  n->uid = f->uid; n->gid = f->gid; n->odd = f->odd;
  if (f->type != VT_DIR) vx_set_data(i, f->data, f->len);
  for (int k = 0; k < f->nent; k++) ent_add(i, f->ent[k].name, xlen(f->ent[k].name), clone_node(f->ent[k].ino));
  n->mtime = f->mtime; n->mode = f->mode;
  return i;
}
int vx_clone_tree(const char *from, const char *to) {
  int f = vx_lookup(from, false);
  Walk w;
  if (f < 0 || walk_from(1, to, false, 0, &w) || w.ino >= 0) { sx_fail("harness: cannot clone"); }
  int64_t mt = vx_node[w.dir]->mtime;
  int n = clone_node(f);
  ent_add(w.dir, w.name, w.nlen, n);
  vx_node[w.dir]->mtime = mt;
  return n;
}
uint32_t vx_bytes_differ(const void *a, const void *b, size_t n) {
  const uint8_t *x = a, *y = b;
  uint32_t d = 0;
  for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
  return d;
}
static bool node_eq(int a, int b) {
  VNode *x = vx_node[a], *y = vx_node[b];
  if (x->type != y->type) return false;
  uint32_t d = (x->uid ^ y->uid) | (x->gid ^ y->gid);
  if (x->type != VT_LNK) d |= (x->mode ^ y->mode) | (x->mtime != y->mtime);
  if (x->type == VT_DIR) {
    if (x->nent != y->nent || d) return false;
    for (int i = 0; i < x->nent; i++) {
      int e = ent_find(y, x->ent[i].name, xlen(x->ent[i].name));
      if (e < 0 || !node_eq(x->ent[i].ino, y->ent[e].ino)) return false;
    }
    return true;
  }
  if (x->len != y->len) return false;
  d |= vx_bytes_differ(x->data, y->data, x->len);
  return !d;
}
bool vx_tree_eq(const char *a, const char *b) {
  int x = vx_lookup(a, false), y = vx_lookup(b, false);
  if (x < 0 || y < 0) return x < 0 && y < 0;
  return node_eq(x, y);
}
static int count_node(int i) {
  int c = 0;
  for (int k = 0; k < vx_node[i]->nent; k++) c += 1 + count_node(vx_node[i]->ent[k].ino);
  return c;
}
int vx_count(const char *path) { int i = vx_lookup(path, false); return i < 0 ? 0 : count_node(i); }

static void node_sync_data(VNode *n) {
  if (!n->dirty) return;
  n->ddata = sx_malloc(n->len ? n->len : 1);
  if (n->len) memcpy(n->ddata, n->data, n->len);
  n->dlen = n->len; n->dirty = false;
}
static void node_sync_dir(VNode *n) {
  if (!n->ddirty) return;
  n->dent = sx_malloc((n->nent ? n->nent : 1) * sizeof *n->dent);
  if (n->nent) memcpy(n->dent, n->ent, n->nent * sizeof *n->dent);
  n->ndent = n->nent; n->ddirty = false;
}
void vx_sync_all(void) {
  for (int i = 1; i < VX_MAXNODE; i++) if (vx_node[i]) { node_sync_data(vx_node[i]); node_sync_dir(vx_node[i]); }
}
// The machine lost power: every name changed since its directory was last
// synced has either its old or its new meaning; the content of files with
// unsynced data is the new one, the synced one, or the new length of zeros.
static void power_dir(int ino) {
  VNode *n = vx_node[ino];
  if (n->type == VT_DIR) {
    if (n->ddirty) {
      VEnt *out = sx_malloc((n->nent + n->ndent + 1) * sizeof *out);
      int k = 0;
      for (int i = 0; i < n->nent; i++) {
        int old = -1;
        for (int j = 0; j < n->ndent; j++) if (xeq(n->dent[j].name, n->ent[i].name)) old = n->dent[j].ino;
        if (old == n->ent[i].ino) { out[k++] = n->ent[i]; continue; }
        if (sx_choose(2, "name-durable")) out[k++] = n->ent[i];
        else if (old >= 0) { out[k] = n->ent[i]; out[k++].ino = old; }
      }
      for (int j = 0; j < n->ndent; j++) {
        bool cur = false;
        for (int i = 0; i < n->nent; i++) if (xeq(n->dent[j].name, n->ent[i].name)) cur = true;
        if (!cur && !sx_choose(2, "removal-durable")) out[k++] = n->dent[j];
      }
      n->ent = out; n->nent = k; n->cent = n->nent + n->ndent + 1;
      n->cent = k > 0 ? k : 1;
      n->ddirty = true;
      node_sync_dir(n);
    }
    for (int i = 0; i < n->nent; i++) power_dir(n->ent[i].ino);
  } else if (n->type == VT_REG && n->dirty) {
    unsigned c = sx_choose(3, "data-durable");
    if (c == 1) { n->len = 0; node_reserve(n, n->dlen ? n->dlen : 1); if (n->dlen) memcpy(n->data, n->ddata, n->dlen); n->len = n->dlen; }
    else if (c == 2 && n->len) memset(n->data, 0, n->len);
    node_sync_data(n);
  }
}
void vx_power_loss(void) {
  vx_durable = true;
  power_dir(1);
  for (int i = 1; i < VX_MAXNODE; i++) if (vx_node[i]) { vx_node[i]->nlink = i == 1; vx_node[i]->open = 0; }
  for (int i = 1; i < VX_MAXNODE; i++)
    if (vx_node[i] && vx_node[i]->type == VT_DIR) for (int k = 0; k < vx_node[i]->nent; k++) vx_node[vx_node[i]->ent[k].ino]->nlink++;
}

// ------------------------------------------------------------------ stat family
static void fill_stat(int ino, struct stat *s) {
  VNode *n = vx_node[ino];
  memset(s, 0, sizeof *s);
  s->st_ino = 100 + ino; s->st_dev = 1; s->st_nlink = n->nlink;
  uint32_t t = n->type == VT_REG ? S_IFREG : n->type == VT_LNK ? S_IFLNK : n->type == VT_DIR ? S_IFDIR : n->odd ? n->odd : S_IFIFO;
  s->st_mode = t | n->mode;
  s->st_uid = n->uid; s->st_gid = n->gid;
  s->st_size = n->type == VT_DIR ? 4096 : (off_t)n->len;
  s->st_blksize = vx_blksize;
  s->st_blocks = 8;
  s->st_mtim.tv_sec = n->mtime; s->st_atim.tv_sec = n->mtime; s->st_ctim.tv_sec = n->mtime;
}
static int do_stat(const char *name, const char *p, struct stat *s, bool follow) {
  int e = enter(VK_READ, name, p, EIO, EACCES);
  if (e) return fail(e);
  Walk w;
  e = walk(p, follow, &w);
  if (e) return fail(e);
  if (w.ino < 0) return fail(ENOENT);
  fill_stat(w.ino, s);
  return 0;
}
int vx_stat64(const char *p, struct stat *s) { return do_stat("stat", p, s, true); }
int vx_lstat64(const char *p, struct stat *s) { return do_stat("lstat", p, s, false); }
int vx_stat(const char *p, struct stat *s) { return do_stat("stat", p, s, true); }
int vx_lstat(const char *p, struct stat *s) { return do_stat("lstat", p, s, false); }
int vx_fstat64(int fd, struct stat *s) {
  int e = enter(VK_READ, "fstat", "", EIO, 0);
  if (e) return fail(e);
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used) return fail(EBADF);
  if (!pr()->fd[fd].ino) { memset(s, 0, sizeof *s); s->st_mode = S_IFCHR | 0600; return 0; }
  fill_stat(pr()->fd[fd].ino, s);
  return 0;
}
int vx_fstat(int fd, struct stat *s) { return vx_fstat64(fd, s); }
int vx_fstatat64(int dfd, const char *p, struct stat *s, int fl) {
  if (dfd != AT_FDCWD && *p != '/') return fail(ENOSYS);
  return do_stat("fstatat", p, s, !(fl & AT_SYMLINK_NOFOLLOW));
}
int vx_fstatat(int d, const char *p, struct stat *s, int fl) { return vx_fstatat64(d, p, s, fl); }
int vx_access(const char *p, int m) { struct stat s; (void)m; return do_stat("access", p, &s, true); }

// ------------------------------------------------------------------ namespace operations
#define MUT_PROLOGUE(name, path, e1, e2) \
  int e = enter(VK_WRITE, name, path, e1, e2); \
  if (e) return fail(e);
int vx_mkdir(const char *p, mode_t mode) {
  MUT_PROLOGUE("mkdir", p, ENOSPC, EACCES)
  Walk w;
  if ((e = walk(p, false, &w))) return fail(e);
  if (w.ino >= 0) return fail(EEXIST);
  if (ro(w.dir)) return fail(EROFS);
  if (!may(w.dir, 2)) return fail(EACCES);
  mutated("mkdir", p, w.dir, w.name);
  ent_add(w.dir, w.name, w.nlen, made(w.dir, node_new(VT_DIR, mode & ~pr()->um)));
  return 0;
}
int vx_symlink(const char *t, const char *p) {
  MUT_PROLOGUE("symlink", p, ENOSPC, EACCES)
  Walk w;
  if (!*t) return fail(ENOENT);
  if ((e = walk(p, false, &w))) return fail(e);
  if (w.ino >= 0) return fail(EEXIST);
  if (ro(w.dir)) return fail(EROFS);
  if (!may(w.dir, 2)) return fail(EACCES);
  mutated("symlink", p, w.dir, w.name);
  int i = made(w.dir, node_new(VT_LNK, 0777));
  vx_set_data(i, t, xlen(t));
  ent_add(w.dir, w.name, w.nlen, i);
  return 0;
}
int vx_link(const char *o, const char *p) {
  MUT_PROLOGUE("link", p, ENOSPC, EACCES)
  Walk a, w;
  if ((e = walk(o, false, &a))) return fail(e);
  if (a.ino < 0) return fail(ENOENT);
  if ((e = walk(p, false, &w))) return fail(e);
  if (w.ino >= 0) return fail(EEXIST);
  if (ro(w.dir)) return fail(EROFS);
  if (!may(w.dir, 2)) return fail(EACCES);
  mutated("link", p, w.dir, w.name);
  ent_add(w.dir, w.name, w.nlen, a.ino);
  return 0;
}
ssize_t vx_readlink(const char *p, char *buf, size_t n) {
  int e = enter(VK_READ, "readlink", p, EIO, EACCES);
  if (e) return fail(e);
  Walk w;
  if ((e = walk(p, false, &w))) return fail(e);
  if (w.ino < 0) return fail(ENOENT);
  VNode *x = vx_node[w.ino];
  if (x->type != VT_LNK) return fail(EINVAL);
  size_t k = x->len < n ? x->len : n;
  memcpy(buf, x->data, k);
  return k;
}
static int do_unlink(const char *name, const char *p, int kinds) {  // 1 files, 2 directories
  MUT_PROLOGUE(name, p, EIO, EACCES)
  Walk w;
  if ((e = walk(p, false, &w))) return fail(e);
  if (w.ino < 0) return fail(ENOENT);
  VNode *x = vx_node[w.ino];
  if (ro(w.ino)) return fail(EROFS);
  if (!may(w.dir, 2)) return fail(EACCES);
  if (w.ino == 1 || (w.nlen == 1 && w.name[0] == '.') || (w.nlen == 2 && w.name[0] == '.' && w.name[1] == '.')) return fail(EBUSY);
  if (x->type == VT_DIR) {
    if (!(kinds & 2)) return fail(EISDIR);
    if (x->nent) return fail(ENOTEMPTY);
  } else if (!(kinds & 1)) return fail(ENOTDIR);
  mutated("remove", p, w.dir, w.name);
  ent_del(w.dir, ent_find(vx_node[w.dir], w.name, w.nlen));
  return 0;
}
int vx_remove(const char *p) { return do_unlink("remove", p, 3); }
int vx_unlink(const char *p) { return do_unlink("unlink", p, 1); }
int vx_rmdir(const char *p) { return do_unlink("rmdir", p, 2); }
int vx_rename(const char *o, const char *p) {
  MUT_PROLOGUE("rename", p, EIO, ENOSPC)
  Walk a, b;
  if ((e = walk(o, false, &a))) return fail(e);
  if (a.ino < 0) return fail(ENOENT);
  if ((e = walk(p, false, &b))) return fail(e);
  if (ro(a.ino)) return fail(EROFS);
  if (!may(a.dir, 2) || !may(b.dir, 2)) return fail(EACCES);
  if (a.ino == b.ino) return 0;
  VNode *x = vx_node[a.ino];
  if (b.ino >= 0) {
    VNode *y = vx_node[b.ino];
    if (x->type == VT_DIR) { if (y->type != VT_DIR) return fail(ENOTDIR); if (y->nent) return fail(ENOTEMPTY); }
    else if (y->type == VT_DIR) return fail(EISDIR);
  }
  mutated("rename-from", o, a.dir, a.name);
  mutated("rename-to", p, b.dir, b.name);
  int ino = a.ino;
  x->nlink++;
  if (b.ino >= 0) ent_del(b.dir, ent_find(vx_node[b.dir], b.name, b.nlen));
  ent_add(b.dir, b.name, b.nlen, ino);
  ent_del(a.dir, ent_find(vx_node[a.dir], a.name, a.nlen));
  x->nlink--;
  return 0;
}
static int do_chmod(int ino, const char *p, mode_t m) {
  if (ro(ino)) return fail(EROFS);
  if (!owns(ino)) return fail(EPERM);
  mutated("chmod", p, ino, NULL);
  vx_node[ino]->mode = m & 07777;
  if (acting_ && vx_user && vx_node[ino]->gid != vx_group) vx_node[ino]->mode &= ~02000u;
  return 0;
}
static int do_chown(int ino, const char *p, uid_t u, gid_t g) {
  if (ro(ino)) return fail(EROFS);
  mutated("chown", p, ino, NULL);
  VNode *x = vx_node[ino];
  if (acting_ && vx_user && (!owns(ino) || (u != (uid_t)-1 && u != x->uid) || (g != (gid_t)-1 && g != x->gid && g != vx_group))) return fail(EPERM);
  if (u != (uid_t)-1) x->uid = u;
  if (g != (gid_t)-1) x->gid = g;
  if (x->type == VT_REG) {  // as Linux does, for root too
    uint32_t m = x->mode;
    uint32_t sg = sx_ite((m & 010) != 0, 02000, 0);
    x->mode = m & ~(04000u | sg);
  }
  return 0;
}
// writing without the right to keep them clears these bits, as Linux does
static void drop_privs(VNode *x) {
  if (!acting_ || !vx_user || x->type != VT_REG) return;
  uint32_t m = x->mode;
  uint32_t sg = sx_ite((m & 010) != 0, 02000, 0);
  x->mode = m & ~(04000u | sg);
}
static int do_utime(int ino, const char *p, int64_t t) {
  if (ro(ino)) return fail(EROFS);
  if (!owns(ino)) return fail(EPERM);
  mutated("utime", p, ino, NULL);
  vx_node[ino]->mtime = t;
  return 0;
}
static int one(const char *name, const char *p, bool follow, int *ino) {
  MUT_PROLOGUE(name, p, EPERM, EIO)
  Walk w;
  if ((e = walk(p, follow, &w))) return fail(e);
  if (w.ino < 0) return fail(ENOENT);
  *ino = w.ino;
  return 0;
}
static int fdnode(const char *name, int fd, int *ino) {
  MUT_PROLOGUE(name, "", EPERM, EIO)
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used || !pr()->fd[fd].ino) return fail(EBADF);
  *ino = pr()->fd[fd].ino;
  return 0;
}
int vx_chmod(const char *p, mode_t m) { int i; return one("chmod", p, true, &i) ? -1 : do_chmod(i, p, m); }
int vx_fchmod(int fd, mode_t m) { int i; return fdnode("fchmod", fd, &i) ? -1 : do_chmod(i, "", m); }
int vx_chown(const char *p, uid_t u, gid_t g) { int i; return one("chown", p, true, &i) ? -1 : do_chown(i, p, u, g); }
int vx_lchown(const char *p, uid_t u, gid_t g) { int i; return one("lchown", p, false, &i) ? -1 : do_chown(i, p, u, g); }
int vx_fchown(int fd, uid_t u, gid_t g) { int i; return fdnode("fchown", fd, &i) ? -1 : do_chown(i, "", u, g); }
int vx_fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { int i; (void)d; return one("fchownat", p, !(fl & AT_SYMLINK_NOFOLLOW), &i) ? -1 : do_chown(i, p, u, g); }
int vx_utime(const char *p, const struct utimbuf *t) { int i; return one("utime", p, true, &i) ? -1 : do_utime(i, p, t ? t->modtime : vx_now); }
int vx_utimes(const char *p, const struct timeval t[2]) { int i; return one("utimes", p, true, &i) ? -1 : do_utime(i, p, t ? t[1].tv_sec : vx_now); }
int vx_utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  int i; (void)d;
  return one("utimensat", p, !(fl & AT_SYMLINK_NOFOLLOW), &i) ? -1 : do_utime(i, p, t && t[1].tv_nsec != UTIME_NOW ? t[1].tv_sec : vx_now);
}
int vx_futimens(int fd, const struct timespec t[2]) { int i; return fdnode("futimens", fd, &i) ? -1 : do_utime(i, "", t && t[1].tv_nsec != UTIME_NOW ? t[1].tv_sec : vx_now); }
int vx_truncate(const char *p, off_t n) {
  int i; if (one("truncate", p, true, &i)) return -1;
  if (ro(i)) return fail(EROFS);
  if (!may(i, 2)) return fail(EACCES);
  mutated("truncate", p, i, NULL);
  VNode *x = vx_node[i];
  uint64_t old = x->len;
  node_reserve(x, n ? n : 1);
  if ((uint64_t)n > old) memset(x->data + old, 0, n - old);
  x->len = n; x->dirty = true; x->mtime = vx_now; drop_privs(x);
  return 0;
}
int vx_ftruncate(int fd, off_t n) {
  int i; if (fdnode("ftruncate", fd, &i)) return -1;
  mutated("truncate", "", i, NULL);
  VNode *x = vx_node[i];
  uint64_t old = x->len;
  node_reserve(x, n ? n : 1);
  if ((uint64_t)n > old) memset(x->data + old, 0, n - old);
  x->len = n; x->dirty = true; x->mtime = vx_now; drop_privs(x);
  return 0;
}
int vx_ftruncate64(int fd, off_t n) { return vx_ftruncate(fd, n); }

// ------------------------------------------------------------------ descriptors
int vx_fd_limit = MAXFD;
static int fd_new(int ino, int flags) {
  Proc *p = pr();
  for (int i = 3; i < vx_fd_limit; i++)
    if (!p->fd[i].used) {
      p->fd[i].used = true; p->fd[i].ino = ino; p->fd[i].pos = 0; p->fd[i].flags = flags;
      vx_node[ino]->open++;
      return i;
    }
  return fail(EMFILE);
}
static int do_open(const char *name, const char *path, int flags, mode_t mode) {
  bool creates = flags & (O_CREAT | O_TRUNC);
  int e = enter(creates ? VK_WRITE : VK_READ, name, path, creates ? ENOSPC : EIO, EACCES);
  if (e) return fail(e);
  Walk w;
  bool follow = !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL));
  if ((e = walk(path, follow, &w))) return fail(e);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (w.ino < 0) {
    if (!(flags & O_CREAT)) return fail(ENOENT);
    if (ro(w.dir)) return fail(EROFS);
    if (!may(w.dir, 2)) return fail(EACCES);
    mutated("create", path, w.dir, w.name);
    int i = made(w.dir, node_new(VT_REG, mode & ~pr()->um));
    ent_add(w.dir, w.name, w.nlen, i);
    vx_node[i]->dirty = true;
    return fd_new(i, flags);
  }
  VNode *x = vx_node[w.ino];
  if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
  if (x->type == VT_LNK) return fail(ELOOP);
  if (x->type == VT_DIR && wr) return fail(EISDIR);
  if ((flags & O_DIRECTORY) && x->type != VT_DIR) return fail(ENOTDIR);
  if (wr && ro(w.ino)) return fail(EROFS);
  if (!may(w.ino, ((flags & O_ACCMODE) != O_WRONLY ? 4 : 0) | (wr ? 2 : 0))) return fail(EACCES);
  if ((flags & O_TRUNC) && wr && x->type == VT_REG) {
    mutated("truncate", path, w.ino, NULL);
    if (x->len) { x->len = 0; }
    x->dirty = true; x->mtime = vx_now; drop_privs(x);
  } else if (wr) mutated("open-write", path, w.ino, NULL);
  return fd_new(w.ino, flags);
}
int vx_open64(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
  return do_open("open", path, flags, m);
}
int vx_open(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
  return do_open("open", path, flags, m);
}
int vx_creat64(const char *path, mode_t m) { return do_open("creat", path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int vx_creat(const char *path, mode_t m) { return do_open("creat", path, O_CREAT | O_WRONLY | O_TRUNC, m); }
static void fd_release(Proc *p, int pid, int fd) {
  int ino = p->fd[fd].ino;
  p->fd[fd].used = false;
  if (!ino || !vx_node[ino]) return;
  VNode *x = vx_node[ino];
  x->open--;
  if (x->lock_owner == pid + 1) x->lock_owner = 0;  // POSIX: any close drops the process' locks
  if (x->flock_owner == pid * MAXFD + fd + 1) x->flock_owner = 0;
  node_drop(ino);
}
int vx_close(int fd) {
  int e = enter(VK_READ, "close", "", EIO, ENOSPC);
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used) return fail(EBADF);
  fd_release(pr(), sx_co_cur(), fd);
  if (e) return fail(e);
  return 0;
}
int vx_dup(int fd) { (void)fd; return fail(ENOSYS); }
static int do_sync(const char *name, int fd) {
  int e = enter(VK_SYNC, name, "", EIO, ENOSPC);
  if (e) return fail(e);
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used) return fail(EBADF);
  VNode *x = vx_node[pr()->fd[fd].ino];
  if (!x) return fail(EINVAL);
  if (x->type == VT_DIR) node_sync_dir(x); else node_sync_data(x);
  return 0;
}
int vx_fdatasync(int fd) { return do_sync("fdatasync", fd); }
int vx_fsync(int fd) { return do_sync("fsync", fd); }
int vx_syncfs(int fd) { int r = do_sync("syncfs", fd); if (!r) vx_sync_all(); return r; }
void vx_sync(void) { enter(VK_SYNC, "sync", "", 0, 0); vx_sync_all(); }
static void put_bytes(Proc *p, int fd, const uint8_t *b, uint64_t n) {
  VNode *x = vx_node[p->fd[fd].ino];
  uint64_t pos = (p->fd[fd].flags & O_APPEND) ? x->len : p->fd[fd].pos;
  if (!n) return;
  node_reserve(x, pos + n);
  if (pos > x->len) memset(x->data + x->len, 0, pos - x->len);
  memcpy(x->data + pos, b, n);
  if (pos + n > x->len) x->len = pos + n;
  p->fd[fd].pos = pos + n;
  x->dirty = true; x->mtime = vx_now; drop_privs(x);
}
// one write(2); returns bytes written or -1
static ssize_t do_write(int fd, const uint8_t *b, uint64_t n) {
  Proc *p = pr();
  if (fd < 0 || fd >= MAXFD || !p->fd[fd].used || !p->fd[fd].ino) return fail(EBADF);
  if ((p->fd[fd].flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  int e = enter(VK_WRITE, "write", "", ENOSPC, EIO);
  if (e) return fail(e);
  if (ro(p->fd[fd].ino)) return fail(EROFS);
  mutated("write", "", p->fd[fd].ino, NULL);
  put_bytes(p, fd, b, n);
  return n;
}
static uint64_t get_bytes(Proc *p, int fd, uint8_t *b, uint64_t n) {
  VNode *x = vx_node[p->fd[fd].ino];
  uint64_t pos = p->fd[fd].pos;
  if (pos >= x->len) return 0;
  uint64_t k = x->len - pos < n ? x->len - pos : n;
  if (k) memcpy(b, x->data + pos, k);
  p->fd[fd].pos = pos + k;
  return k;
}
ssize_t vx_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) return n;
  return do_write(fd, b, n);
}
ssize_t vx_read(int fd, void *b, size_t n) {
  int e = enter(VK_READ, "read", "", EIO, 0);
  if (e) return fail(e);
  if (fd < 3 || fd >= MAXFD || !pr()->fd[fd].used) return fail(EBADF);
  if (vx_node[pr()->fd[fd].ino]->type == VT_DIR) return fail(EISDIR);
  return get_bytes(pr(), fd, b, n);
}
off_t vx_lseek64(int fd, off_t o, int wh) {
  if (fd < 3 || fd >= MAXFD || !pr()->fd[fd].used) return fail(EBADF);
  Ofd *f = &pr()->fd[fd];
  f->pos = wh == SEEK_SET ? (uint64_t)o : wh == SEEK_CUR ? f->pos + o : vx_node[f->ino]->len + o;
  return f->pos;
}
off_t vx_lseek(int fd, off_t o, int wh) { return vx_lseek64(fd, o, wh); }
int vx_posix_fadvise64(int a, off_t b, off_t c, int d) { (void)a; (void)b; (void)c; (void)d; return 0; }
int vx_posix_fadvise(int a, off_t b, off_t c, int d) { (void)a; (void)b; (void)c; (void)d; return 0; }

// ------------------------------------------------------------------ locks
static int do_lock(const char *name, int fd, int how, bool wait) {  // how: 0 unlock, 1 lock, 2 test
  int e = enter(VK_READ, name, "", ENOLCK, EIO);
  if (e) return fail(e);
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used || !pr()->fd[fd].ino) return fail(EBADF);
  VNode *x = vx_node[pr()->fd[fd].ino];
  int me = sx_co_cur() + 1;
  if (how == 0) { if (x->lock_owner == me) x->lock_owner = 0; return 0; }
  if (x->lock_owner && x->lock_owner != me) {
    if (how == 2) return fail(EACCES);
    if (!wait) return fail(sx_choose(2, "lock-errno") ? EACCES : EAGAIN);
    while (x->lock_owner && x->lock_owner != me) { if (!vx_multi) sx_fail("deadlock: waiting for a lock forever"); sx_co_switch(0); }
  }
  if (how == 1) x->lock_owner = me;
  return 0;
}
int vx_lockf64(int fd, int cmd, off_t len) {
  (void)len;
  return do_lock("lockf", fd, cmd == F_ULOCK ? 0 : cmd == F_TEST ? 2 : 1, cmd == F_LOCK);
}
int vx_lockf(int fd, int cmd, off_t len) { return vx_lockf64(fd, cmd, len); }
int vx_fcntl64(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd);
  if (cmd == F_SETLK || cmd == F_SETLKW) {
    struct flock *l = va_arg(a, struct flock *); va_end(a);
    return do_lock("fcntl", fd, l->l_type == F_UNLCK ? 0 : 1, cmd == F_SETLKW);
  }
  va_end(a);
  if (cmd == F_GETFD || cmd == F_SETFD || cmd == F_GETFL || cmd == F_SETFL) return 0;
  return fail(EINVAL);
}
int vx_flock(int fd, int op) {
  int e = enter(VK_READ, "flock", "", ENOLCK, 0);
  if (e) return fail(e);
  if (fd < 0 || fd >= MAXFD || !pr()->fd[fd].used || !pr()->fd[fd].ino) return fail(EBADF);
  VNode *x = vx_node[pr()->fd[fd].ino];
  int me = sx_co_cur() * MAXFD + fd + 1;
  if (op & LOCK_UN) { if (x->flock_owner == me) x->flock_owner = 0; return 0; }
  while (x->flock_owner && x->flock_owner != me) { if (op & LOCK_NB) return fail(EWOULDBLOCK); sx_co_switch(0); }
  x->flock_owner = me;
  return 0;
}

// ------------------------------------------------------------------ directories
DIR *vx_opendir(const char *path) {
  int e = enter(VK_READ, "opendir", path, EIO, EACCES);
  if (e) { fail(e); return NULL; }
  Walk w;
  if ((e = walk(path, true, &w))) { fail(e); return NULL; }
  if (w.ino < 0) { fail(ENOENT); return NULL; }
  if (vx_node[w.ino]->type != VT_DIR) { fail(ENOTDIR); return NULL; }
  if (!may(w.ino, 4)) { fail(EACCES); return NULL; }
  int fd = fd_new(w.ino, O_RDONLY);
  if (fd < 0) return NULL;
  VNode *n = vx_node[w.ino];
  VDir *d = sx_malloc(sizeof *d);
  d->ino = w.ino; d->fd = fd; d->n = n->nent + 2; d->pos = 0;
  d->e = sx_malloc(d->n * sizeof *d->e);
  memcpy(d->e[0].name, ".", 2); d->e[0].ino = w.ino;
  memcpy(d->e[1].name, "..", 3); d->e[1].ino = w.ino;
  for (int i = 0; i < n->nent; i++) d->e[2 + i] = n->ent[vx_dir_reverse ? n->nent - 1 - i : i];
  return (DIR *)d;
}
struct dirent *vx_readdir64(DIR *h) {
  VDir *d = (VDir *)h;
  int e = enter(VK_READ, "readdir", "", EIO, 0);
  if (e) { fail(e); return NULL; }
  if (d->pos >= d->n) return NULL;
  memset(&d->de, 0, sizeof d->de);
  VEnt *x = &d->e[d->pos++];
  memcpy(d->de.d_name, x->name, xlen(x->name) + 1);
  d->de.d_ino = 100 + x->ino;
  VNode *n = vx_node[x->ino];
  d->de.d_type = !n ? DT_UNKNOWN : n->type == VT_DIR ? DT_DIR : n->type == VT_LNK ? DT_LNK : n->type == VT_REG ? DT_REG : DT_FIFO;
  return &d->de;
}
struct dirent *vx_readdir(DIR *h) { return vx_readdir64(h); }
void vx_rewinddir(DIR *h) { ((VDir *)h)->pos = 0; }
int vx_dirfd(DIR *h) { return ((VDir *)h)->fd; }
int vx_closedir(DIR *h) {
  VDir *d = (VDir *)h;
  int e = enter(VK_READ, "closedir", "", EIO, 0);
  fd_release(pr(), sx_co_cur(), d->fd);
  sx_free(d->e); sx_free(d);
  if (e) return fail(e);
  return 0;
}

// ------------------------------------------------------------------ stdio
static bool file_flush(VFile *f) {
  if (!f->wr || !f->blen) return true;
  uint32_t n = f->blen, done = 0;
  f->blen = 0;
  if (vx_small_writes && n > 1) {
    done = n / 2;
    if (do_write(f->fd, f->buf, done) < 0) { f->err = true; return false; }
  }
  if (do_write(f->fd, f->buf + done, n - done) < 0) { f->err = true; return false; }
  return true;
}
static FILE *file_open(int fd, bool rd, bool wr, bool app) {
  VFile *f = sx_malloc(sizeof *f);
  f->fd = fd; f->rd = rd; f->wr = wr; f->append = app; f->unget = -1; f->open = true;
  f->bcap = vx_bufsize;
  if (wr) f->buf = sx_malloc(f->bcap);
  Proc *p = pr();
  for (int i = 0; i < p->nfiles; i++) if (!p->files[i]) { p->files[i] = f; return (FILE *)f; }
  if (p->nfiles == MAXFD) sx_fail("environment model: too many streams");
  p->files[p->nfiles++] = f;
  return (FILE *)f;
}
static FILE *do_fopen(const char *path, const char *mode) {
  bool plus = false;
  for (const char *m = mode; *m; m++) if (*m == '+') plus = true;
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
  for (const char *m = mode; *m; m++) if (*m == 'x') fl |= O_EXCL;
  int fd = do_open("fopen", path, fl, 0666);
  if (fd < 0) return NULL;
  return file_open(fd, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] == 'a');
}
FILE *vx_fopen64(const char *p, const char *m) { return do_fopen(p, m); }
FILE *vx_fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *vx_fdopen(int fd, const char *mode) { return file_open(fd, mode[0] == 'r', mode[0] != 'r', mode[0] == 'a'); }
static void file_forget(VFile *f) {
  Proc *p = pr();
  for (int i = 0; i < p->nfiles; i++) if (p->files[i] == f) p->files[i] = NULL;
  if (f->buf) sx_free(f->buf);
  sx_free(f);
}
static VFile *F(FILE *h) {
  VFile *f = (VFile *)h;
  Proc *p = pr();
  // each process has its own standard streams
  if (f >= &proc_[0].std[0] && f <= &proc_[0].std[2]) return &p->std[f - &proc_[0].std[0]];
  return f;
}
int vx_fflush(FILE *h) {
  if (!h) { Proc *p = pr(); bool ok = true; for (int i = 0; i < p->nfiles; i++) if (p->files[i]) ok &= file_flush(p->files[i]); return ok ? 0 : EOF; }
  VFile *f = F(h);
  if (f->kind) return 0;
  return file_flush(f) ? 0 : EOF;
}
int vx_fclose(FILE *h) {
  VFile *f = F(h);
  if (f->kind) return 0;
  bool ok = file_flush(f);
  int e = enter(VK_READ, "fclose", "", EIO, ENOSPC);
  if (f->fd >= 0 && pr()->fd[f->fd].used) fd_release(pr(), sx_co_cur(), f->fd);
  file_forget(f);
  if (e) { fail(e); return EOF; }
  return ok ? 0 : EOF;
}
static size_t out_put(VFile *f, const char *b, size_t n);
static size_t file_write(VFile *f, const uint8_t *b, size_t n) {
  if (f->kind) return out_put(f, (const char *)b, n);
  if (!f->wr) { fail(EBADF); f->err = true; return 0; }
  size_t done = 0;
  while (done < n) {
    size_t k = f->bcap - f->blen;
    if (k == 0) { if (!file_flush(f)) return done; continue; }
    if (k > n - done) k = n - done;
    memcpy(f->buf + f->blen, b + done, k);
    f->blen += k; done += k;
  }
  if (f->unbuf && !file_flush(f)) return 0;
  return done;
}
size_t vx_fwrite(const void *p, size_t s, size_t n, FILE *h) {
  if (!s || !n) return 0;
  size_t w = file_write(F(h), p, s * n);
  return w == s * n ? n : w / s;
}
static int in_getc(VFile *f) {
  Proc *p = pr();
  if (p->inpos == 0 && vx_hook) vx_hook("answer", "");
  if (p->inpos >= p->inlen) {
    if (p->in_err) { fail(EIO); f->err = true; return EOF; }
    f->eof = true; return EOF;
  }
  return (unsigned char)p->in[p->inpos++];
}
size_t vx_fread(void *b, size_t s, size_t n, FILE *h) {
  VFile *f = F(h);
  size_t want = s * n, got = 0;
  if (!want) return 0;
  if (f->kind == 1) { while (got < want) { int c = in_getc(f); if (c == EOF) break; ((uint8_t *)b)[got++] = c; } return got / s; }
  if (!f->rd) { fail(EBADF); f->err = true; return 0; }
  if (f->unget >= 0) { ((uint8_t *)b)[got++] = f->unget; f->unget = -1; }
  if (got < want) {
    int e = enter(VK_READ, "fread", "", EIO, 0);
    if (e) { fail(e); f->err = true; return got / s; }
    if (vx_node[pr()->fd[f->fd].ino]->type == VT_DIR) { fail(EISDIR); f->err = true; return 0; }
    size_t k = get_bytes(pr(), f->fd, (uint8_t *)b + got, want - got);
    got += k;
    if (got < want) f->eof = true;
  }
  return got / s;
}
int vx_fgetc(FILE *h) {
  VFile *f = F(h);
  if (f->kind == 1) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } return in_getc(f); }
  if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (!f->rd) { fail(EBADF); f->err = true; return EOF; }
  int e = enter(VK_READ, "fgetc", "", EIO, 0);
  if (e) { fail(e); f->err = true; return EOF; }
  if (vx_node[pr()->fd[f->fd].ino]->type == VT_DIR) { fail(EISDIR); f->err = true; return EOF; }
  uint8_t c;
  if (!get_bytes(pr(), f->fd, &c, 1)) { f->eof = true; return EOF; }
  return c;
}
int vx_getc(FILE *h) { return vx_fgetc(h); }
int vx_getchar(void) { return vx_fgetc(vx_stdin); }
int vx_ungetc(int c, FILE *h) {
  VFile *f = F(h);
  if (c == EOF) return EOF;
  if (f->unget >= 0) return EOF;
  f->unget = (unsigned char)c; f->eof = false;
  return (unsigned char)c;
}
int vx_feof(FILE *h) { return F(h)->eof; }
int vx_ferror(FILE *h) { return F(h)->err; }
void vx_clearerr(FILE *h) { F(h)->err = F(h)->eof = false; }
int vx_fileno(FILE *h) {
  VFile *f = F(h);
  int e = enter(VK_READ, "fileno", "", EBADF, 0);
  if (e) return fail(e);
  return f->fd;
}
void vx_setbuf(FILE *h, char *b) { (void)b; F(h)->unbuf = true; }
int vx_setvbuf(FILE *h, char *b, int m, size_t n) { (void)b; (void)n; F(h)->unbuf = m == _IONBF; return 0; }
int vx_fseeko64(FILE *h, off_t o, int wh) { VFile *f = F(h); if (!file_flush(f)) return -1; f->unget = -1; f->eof = false; return vx_lseek64(f->fd, o, wh) < 0 ? -1 : 0; }
int vx_fseeko(FILE *h, off_t o, int wh) { return vx_fseeko64(h, o, wh); }
int vx_fseek(FILE *h, long o, int wh) { return vx_fseeko64(h, o, wh); }
void vx_rewind(FILE *h) { vx_fseeko64(h, 0, SEEK_SET); }
off_t vx_ftello64(FILE *h) { VFile *f = F(h); return pr()->fd[f->fd].pos + f->blen; }
off_t vx_ftello(FILE *h) { return vx_ftello64(h); }
long vx_ftell(FILE *h) { return vx_ftello64(h); }
char *vx_fgets(char *b, int n, FILE *h) {
  int i = 0;
  while (i + 1 < n) { int c = vx_fgetc(h); if (c == EOF) break; b[i++] = c; if (c == '\n') break; }
  if (!i) return NULL;
  b[i] = 0;
  return b;
}
static size_t out_put(VFile *f, const char *b, size_t n) {
  if (f->kind == 2 && vx_stdout_fails) { fail(ENOSPC); f->err = true; return 0; }
  if (sx_co_cur() != 0) return n;  // output of concurrent processes is not kept
  if (f->kind == 2) {
    if (vx_outlen + n >= OUTCAP) { vx_out_overflow = true; return n; }
    memcpy(vx_out + vx_outlen, b, n); vx_outlen += n; vx_out[vx_outlen] = 0;
  } else if (f->kind == 3) {
    if (vx_errlen + n < sizeof vx_err) { memcpy(vx_err + vx_errlen, b, n); vx_errlen += n; vx_err[vx_errlen] = 0; }
  }
  return n;
}
// --- formatted output
typedef struct Sink { VFile *f; char *buf; size_t cap, n; bool bad; } Sink;
static void emit(Sink *s, const char *b, size_t n) {
  if (!n) return;
  if (s->f) { if (file_write(s->f, (const uint8_t *)b, n) != n) s->bad = true; }
  else for (size_t i = 0; i < n; i++) if (s->n + i + 1 < s->cap) s->buf[s->n + i] = b[i];
  s->n += n;
}
static void emit_pad(Sink *s, char c, int n) { while (n-- > 0) emit(s, &c, 1); }
static unsigned fmt_hex(char *d, uint64_t v, bool upper) {  // most significant first
  unsigned n = 1;
  while (n < 16 && (v >> (4 * n))) n++;
  for (unsigned i = 0; i < n; i++) {
    uint64_t x = (v >> (4 * (n - 1 - i))) & 15;
    d[i] = (char)sx_ite(x < 10, '0' + x, (upper ? 'A' : 'a') + x - 10);
  }
  return n;
}
static int vfmt(Sink *s, const char *f, va_list ap) {
  while (*f) {
    size_t lit = 0;
    while (f[lit] && f[lit] != '%') lit++;
    emit(s, f, lit);
    f += lit;
    if (!*f) break;
    f++;
    bool zero = false, left = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    int width = 0, prec = -1;
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
    }
    int lng = 0; bool sh = false, shh = false;
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') { if (sh) shh = true; sh = true; } else break; }
    char c = *f++;
    char tmp[400];
    const char *out = tmp; size_t n = 0; char sign = 0;
    const char *pre = "";
    switch (c) {
    case '%': tmp[0] = '%'; n = 1; break;
    case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
    case 's': {
      out = va_arg(ap, const char *);
      if (!out) out = "(null)";
      if (vx_print_abstract && sx_is_sym((uint64_t)(int64_t)prec)) { out = "?"; n = 1; break; }
      if (prec >= 0) { while (n < (size_t)prec && out[n]) n++; } else n = xlen(out);
      break;
    }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
      uint64_t v; bool neg = false;
      if (lng) v = va_arg(ap, uint64_t); else { unsigned u = va_arg(ap, unsigned); v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(int)u : u; }
      if (shh) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(signed char)v : (unsigned char)v;
      else if (sh) v = (c == 'd' || c == 'i') ? (uint64_t)(int64_t)(short)v : (unsigned short)v;
      if (c == 'x' || c == 'X') {
        if (zero && !left && width == 2 && sx_is_sym(v) ) {
          // fixed two digits for values below 256 without splitting paths
          if (v < 256) { tmp[0] = (char)sx_ite((v >> 4) < 10, '0' + (v >> 4), 'a' + (v >> 4) - 10); tmp[1] = (char)sx_ite((v & 15) < 10, '0' + (v & 15), 'a' + (v & 15) - 10); n = 2; if (c == 'X') sx_fail("environment model: %X"); break; }
        }
        n = fmt_hex(tmp, v, c == 'X');
        if (alt && v) pre = c == 'x' ? "0x" : "0X";
        break;
      }
      if (sx_is_sym(v)) {
        if (vx_print_abstract) { tmp[0] = '?'; n = 1; break; }
        if (vx_print_tokens && vx_ntokens < 16) { tmp[0] = '#'; tmp[1] = (char)('a' + vx_ntokens); vx_token[vx_ntokens++] = v; n = 2; break; }
        v = sx_conc(v);
      }
      if ((c == 'd' || c == 'i') && (int64_t)v < 0) { neg = true; v = 0 - v; }
      unsigned base = c == 'o' ? 8 : 10;
      char rev[32];
      do { rev[n++] = '0' + v % base; v /= base; } while (v);
      for (size_t i = 0; i < n; i++) tmp[i] = rev[n - 1 - i];
      if (prec > (int)n) { int add = prec - (int)n; memmove(tmp + add, tmp, n); memset(tmp, '0', add); n += add; }
      if (neg) sign = '-'; else if (plus && c != 'u') sign = '+'; else if (space && c != 'u') sign = ' ';
      break;
    }
    case 'p': { uint64_t v = (uint64_t)va_arg(ap, void *); (void)v; memcpy(tmp, "0xPTR", 5); n = 5; break; }
    case 'f': case 'g': case 'e': case 'F': {
      double d = va_arg(ap, double);
      uint64_t bits;
      memcpy(&bits, &d, 8);
      if (vx_print_tokens && prec == 0 && vx_ntokens < 16 && sx_is_sym(bits)) {
        sx_assume(d == (double)(uint64_t)d);  // whole, as what is not takes another form
        tmp[0] = '#'; tmp[1] = (char)('a' + vx_ntokens); vx_token[vx_ntokens++] = (uint64_t)d; n = 2; break;
      }
      n = sx_fmt_double(tmp, sizeof tmp, prec < 0 ? 6 : prec, d);
      break;
    }
    default: sx_fail("environment model: unsupported printf conversion"); break;
    }
    int total = (int)n + (sign ? 1 : 0) + (int)xlen(pre), pad = width > total ? width - total : 0;
    if (!left && !(zero && c != 's')) emit_pad(s, ' ', pad);
    if (sign) emit(s, &sign, 1);
    emit(s, pre, xlen(pre));
    if (!left && zero && c != 's') emit_pad(s, '0', pad);
    emit(s, out, n);
    if (left) emit_pad(s, ' ', pad);
  }
  return s->bad ? -1 : (int)s->n;
}
int vx_vfprintf(FILE *h, const char *f, va_list ap) { Sink s = {F(h), NULL, 0, 0, false}; return vfmt(&s, f, ap); }
int vx_vprintf(const char *f, va_list ap) { Sink s = {F(vx_stdout), NULL, 0, 0, false}; return vfmt(&s, f, ap); }
int vx_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  Sink s = {NULL, b, n, 0, false};
  int r = vfmt(&s, f, ap);
  if (n) b[s.n < n ? s.n : n - 1] = 0;
  return r;
}
int vx_vsprintf(char *b, const char *f, va_list ap) { return vx_vsnprintf(b, (size_t)1 << 30, f, ap); }
int vx_fprintf(FILE *h, const char *f, ...) { va_list a; va_start(a, f); int r = vx_vfprintf(h, f, a); va_end(a); return r; }
int vx_printf(const char *f, ...) { va_list a; va_start(a, f); int r = vx_vprintf(f, a); va_end(a); return r; }
int vx_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vx_vsnprintf(b, n, f, a); va_end(a); return r; }
int vx_sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vx_vsprintf(b, f, a); va_end(a); return r; }
int vx_dprintf(int fd, const char *f, ...) { (void)fd; (void)f; return 0; }
int vx_fputc(int c, FILE *h) { uint8_t b = c; return file_write(F(h), &b, 1) == 1 ? (int)b : EOF; }
int vx_putc(int c, FILE *h) { return vx_fputc(c, h); }
int vx_putchar(int c) { return vx_fputc(c, vx_stdout); }
int vx_fputs(const char *s, FILE *h) { size_t n = xlen(s); return file_write(F(h), (const uint8_t *)s, n) == n ? 1 : EOF; }
int vx_puts(const char *s) { if (vx_fputs(s, vx_stdout) == EOF) return EOF; return vx_fputc('\n', vx_stdout) == EOF ? EOF : 1; }
void vx_perror(const char *s) { (void)s; vx_fputs("perror\n", vx_stderr); }
char *vx_strerror(int e) {
  if (vx_fault_hits && errno_other_) return "Error";
  switch (e) {
  case ENOENT: return "No such file or directory";
  case EACCES: return "Permission denied";
  case EIO: return "Input/output error";
  case ENOSPC: return "No space left on device";
  case EROFS: return "Read-only file system";
  case EISDIR: return "Is a directory";
  case ENOTDIR: return "Not a directory";
  case EEXIST: return "File exists";
  default: return "Error";
  }
}

// ------------------------------------------------------------------ process
static void flush_all(void) {
  Proc *p = pr();
  for (int i = 0; i < p->nfiles; i++) if (p->files[i]) file_flush(p->files[i]);
}
int vx_atexit(void (*f)(void)) {
  Proc *p = pr();
  if (p->natexit == 64) return 1;
  p->atexit_fn[p->natexit++] = f;
  return 0;
}
void vx_exit(int code) {
  Proc *p = pr();
  while (p->natexit) p->atexit_fn[--p->natexit]();
  flush_all();
  sx_throw(VX_EXIT(code & 255));
}
void vx__exit(int code) { sx_throw(VX_EXIT(code & 255)); }
void vx__Exit(int code) { sx_throw(VX_EXIT(code & 255)); }
void vx_quick_exit(int code) { sx_throw(VX_EXIT(code & 255)); }
void vx_abort(void) { sx_throw(VX_EXIT(134)); }
void vx___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; sx_assert(0, a); sx_throw(VX_EXIT(134)); }
void vx_ext_exit(int code) { vx_exit(code); for (;;) ; }
void (*vx_on_malloc)(void *p, size_t n);
void *vx_malloc(size_t n) {
  if (vx_oom_on && vx_allocs == vx_oom_at) { vx_oom_on = false; vx_oom_hit = true; fail(ENOMEM); return NULL; }
  vx_allocs++;
  void *p = sx_heap_alloc(n);
  if (!p) fail(ENOMEM);
  if (vx_on_malloc) vx_on_malloc(p, n);
  return p;
}
void vx_free(void *p) { sx_heap_free(p); }
void *vx_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { fail(ENOMEM); return NULL; }
  void *p = vx_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void *vx_realloc(void *p, size_t n) {
  if (!p) return vx_malloc(n);
  if (!n) { vx_free(p); return NULL; }
  void *q = vx_malloc(n);
  if (!q) return NULL;
  size_t o = sx_heap_size(p);
  size_t k = o < n ? o : n;
  memcpy(q, p, k);
  vx_free(p);
  return q;
}
int vx_isatty(int fd) {
  if (fd >= 0 && fd <= 2) { if (vx_tty) return 1; fail(ENOTTY); return 0; }
  fail(ENOTTY);
  return 0;
}
char *vx_getcwd(char *b, size_t n) {
  int e = enter(VK_READ, "getcwd", "", EACCES, 0);
  if (e) { fail(e); return NULL; }
  size_t k = xlen(pr()->cwd) + 1;
  if (k > n) { fail(ERANGE); return NULL; }
  memcpy(b, pr()->cwd, k);
  return b;
}
int vx_chdir(const char *p) { vx_set_cwd(p); return 0; }
static int64_t tick_time(void) { return vx_now; }
time_t vx_time(time_t *t) { int64_t n = tick_time(); if (t) *t = n; return n; }
int vx_clock_gettime(clockid_t c, struct timespec *t) {
  (void)c;
  int e = enter(VK_READ, "clock_gettime", "", EINVAL, 0);
  if (e) return fail(e);
  t->tv_sec = tick_time(); t->tv_nsec = 0;
  return 0;
}
int vx_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = tick_time(); t->tv_usec = 0; return 0; }
pid_t vx_getpid(void) { return 1000 + sx_co_cur(); }
uid_t vx_getuid(void) { return 0; }
uid_t vx_geteuid(void) { return 0; }
mode_t vx_umask(mode_t m) { mode_t o = pr()->um; pr()->um = m & 0777; return o; }
char *vx_getenv(const char *n) { (void)n; return NULL; }
void vx_srand(unsigned s) { pr()->rnd = s; }
int vx_rand(void) { pr()->rnd = pr()->rnd * 1103515245u + 12345u; return (pr()->rnd >> 1) & 0x3fffffff; }
void vx_srandom(unsigned s) { vx_srand(s); }
long vx_random(void) { return vx_rand(); }
ssize_t vx_getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)vx_rand(); return n; }
unsigned vx_sleep(unsigned n) { (void)n; return 0; }

// ------------------------------------------------------------------ strings
size_t vx_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t vx_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void *vx_memchr(const void *p, int c, size_t n) { const uint8_t *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (uint8_t)c) return (void *)(s + i); return NULL; }
void *vx_memrchr(const void *p, int c, size_t n) { const uint8_t *s = p; while (n-- > 0) if (s[n] == (uint8_t)c) return (void *)(s + n); return NULL; }
char *vx_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *vx_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int vx_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int vx_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *vx_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *vx_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vx_strcat(char *d, const char *s) { vx_strcpy(d + vx_strlen(d), s); return d; }
char *vx_stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *vx_strdup(const char *s) { size_t n = vx_strlen(s) + 1; char *p = vx_malloc(n); if (p) memcpy(p, s, n); return p; }
char *vx_strndup(const char *s, size_t m) { size_t n = vx_strnlen(s, m); char *p = vx_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *vx_strstr(const char *h, const char *n) { size_t k = vx_strlen(n); for (;; h++) { if (!vx_strncmp(h, n, k)) return (char *)h; if (!*h) return NULL; } }
void *vx_memmem(const void *h, size_t hn, const void *n, size_t nn) { for (size_t i = 0; i + nn <= hn; i++) if (!memcmp((const char *)h + i, n, nn)) return (char *)h + i; return NULL; }
size_t vx_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && vx_strchr(a, s[n])) n++; return n; }
size_t vx_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !vx_strchr(a, s[n])) n++; return n; }
int vx_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vx_isdigit(int c) { return c >= '0' && c <= '9'; }
int vx_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static unsigned short ctab_[384]; static const unsigned short *ctabp_;
const unsigned short **vx___ctype_b_loc(void) {
  if (!ctabp_) {
    for (int c = 0; c < 128; c++) {
      unsigned v = 0;
      if (c >= 'A' && c <= 'Z') v |= 1 << 8 | 1 << 10;
      if (c >= 'a' && c <= 'z') v |= 1 << 9 | 1 << 10;
      if (c >= '0' && c <= '9') v |= 1 << 11;
      if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 1 << 12;
      if (c == ' ' || (c >= 9 && c <= 13)) v |= 1 << 13;
      if (c >= 32 && c < 127) v |= 1 << 14;
      if (c > 32 && c < 127) v |= 1 << 15;
      if (c == ' ' || c == 9) v |= 1;
      if (c < 32 || c == 127) v |= 2;
      if (v & (1 << 10 | 1 << 11)) v |= 8;
      else if (c > 32 && c < 127) v |= 4;
      ctab_[128 + c] = v;
    }
    ctabp_ = ctab_ + 128;
  }
  return &ctabp_;
}
static unsigned long long parse_num(const char *s, char **end, int base, bool *neg, bool *ovf) {
  const char *p = s;
  while (vx_isspace((unsigned char)*p)) p++;
  *neg = false; *ovf = false;
  if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false;
  for (;; p++) {
    int d;
    unsigned char c = *p;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (v > (ULLONG_MAX - d) / base) *ovf = true; else v = v * base + d;
  }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
long long vx_strtoll(const char *s, char **end, int base) {
  bool neg, ovf; unsigned long long v = parse_num(s, end, base, &neg, &ovf);
  if (ovf || v > (unsigned long long)LLONG_MAX + neg) { fail(ERANGE); return neg ? LLONG_MIN : LLONG_MAX; }
  return neg ? (long long)(0 - v) : (long long)v;
}
long vx_strtol(const char *s, char **e, int b) { return vx_strtoll(s, e, b); }
unsigned long long vx_strtoull(const char *s, char **end, int base) {
  bool neg, ovf; unsigned long long v = parse_num(s, end, base, &neg, &ovf);
  if (ovf) { fail(ERANGE); return ULLONG_MAX; }
  return neg ? 0 - v : v;
}
unsigned long vx_strtoul(const char *s, char **e, int b) { return vx_strtoull(s, e, b); }
long long vx___isoc23_strtoll(const char *s, char **e, int b) { return vx_strtoll(s, e, b); }
unsigned long long vx___isoc23_strtoull(const char *s, char **e, int b) { return vx_strtoull(s, e, b); }
long vx___isoc23_strtol(const char *s, char **e, int b) { return vx_strtoll(s, e, b); }
unsigned long vx___isoc23_strtoul(const char *s, char **e, int b) { return vx_strtoull(s, e, b); }
int vx_atoi(const char *s) { return (int)vx_strtoll(s, NULL, 10); }
int vx_abs(int a) { return a < 0 ? -a : a; }
void vx_qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
  char *a = b; char t[256];
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * s, a + j * s) > 0; j--) { memcpy(t, a + j * s, s); memcpy(a + j * s, a + (j - 1) * s, s); memcpy(a + (j - 1) * s, t, s); }
}

// ------------------------------------------------------------------ regex: the host's implementation on concrete strings
static char *repat_[128]; static int refl_[128], re_fl_;
int vx_regcomp(regex_t *r, const char *p, int fl) {
  int id = sx_host_regcomp(p, fl);
  memset(r, 0, sizeof *r);
  if (id < 0) return -id;
  int *w = (int *)r;
  w[0] = id; w[1] = 0x5e6e;
  if (id < 128 && !repat_[id]) { size_t n = xlen(p) + 1; repat_[id] = sx_malloc(n); memcpy(repat_[id], p, n); refl_[id] = fl; }
  return 0;
}
// Symbolic strings are matched here: anchors, classes, escapes, '.', and
// repetition of single characters. Replays compare it with the host.
static const char *re_atom1(const char *p, unsigned char c, bool *hit) {  // returns what follows the atom
  if (*p == '\\') { *hit = (unsigned char)p[1] == c; return p + 2; }
  if (*p == '.') { *hit = true; return p + 1; }
  if (*p != '[') {
    if (*p == '(' || *p == '|' || *p == ')' || *p == '{') sx_fail("environment model: expression too complex for a symbolic string");
    *hit = (unsigned char)*p == c;
    return p + 1;
  }
  bool neg = false; unsigned in = 0;
  p++;
  if (*p == '^') { neg = true; p++; }
  for (bool first = true; first || *p != ']'; first = false) {
    if (*p == '[') sx_fail("environment model: expression too complex for a symbolic string");
    if (p[1] == '-' && p[2] != ']') { in |= (c >= (unsigned char)p[0]) & (c <= (unsigned char)p[2]); p += 3; }
    else { in |= c == (unsigned char)*p; p++; }
  }
  *hit = neg ? !in : in != 0;
  return p + 1;
}
static const char *re_atom(const char *p, unsigned char c, bool *hit) {
  if (!(re_fl_ & REG_ICASE)) return re_atom1(p, c, hit);
  unsigned letter = ((c | 32u) >= 'a') & ((c | 32u) <= 'z');
  bool other = false;
  re_atom1(p, (unsigned char)(c ^ (letter << 5)), &other);
  const char *n = re_atom1(p, c, hit);
  *hit = *hit | other;
  return n;
}
static bool re_here(const char *p, const char *s) {
  for (;;) {
    if (!*p) return true;
    if (*p == '$' && !p[1]) return !*s;
    bool hit = false;
    const char *next = re_atom(p, (unsigned char)*s, &hit);
    if (*next == '*' || *next == '+' || *next == '?') {
      char op = *next++;
      size_t n = 0, max = op == '?' ? 1 : (size_t)-1;
      while (n < max && s[n]) { bool h; re_atom(p, (unsigned char)s[n], &h); if (!h) break; n++; }
      for (size_t k = n;; k--) { if (k >= (op == '+' ? 1u : 0u) && re_here(next, s + k)) return true; if (!k) return false; }
    }
    if (!*s) return false;
    if (!hit) return false;
    p = next; s++;
  }
}
static bool sre_search(const char *p, const char *s) {
  if (*p == '^') return re_here(p + 1, s);
  for (;; s++) { if (re_here(p, s)) return true; if (!*s) return false; }
}
int vx_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) {
  const int *w = (const int *)r;
  (void)n; (void)m;
  if (w[1] != 0x5e6e) sx_fail("regexec with an uncompiled or freed expression");
  for (const char *q = s; ; q++) {
    if (sx_is_sym((unsigned char)*q)) {
      if (w[0] >= 128) sx_fail("environment model: too many expressions");
      re_fl_ = refl_[w[0]];
      if (re_fl_ & ~(REG_EXTENDED | REG_NOSUB | REG_ICASE)) sx_fail("environment model: flags of an expression");
      return sre_search(repat_[w[0]], s) ? 0 : REG_NOMATCH;
    }
    if (!*q) break;
  }
  return sx_host_regexec(w[0], s, fl);
}
size_t vx_regerror(int c, const regex_t *r, char *b, size_t n) { (void)r; return sx_host_regerror(c, b, n); }
void vx_regfree(regex_t *r) { ((int *)r)[1] = 0; }

// ------------------------------------------------------------------ running the program
void vx_set_cwd(const char *p) { size_t n = xlen(p) + 1; if (n <= sizeof pr()->cwd) memcpy(pr()->cwd, p, n); }
void vx_set_stdin(const char *t, uint32_t len) { Proc *p = pr(); p->in = t; p->inlen = len; p->inpos = 0; }
// the process is gone: descriptors close, locks fall, buffers vanish
void vx_proc_end(void) {
  Proc *p = pr();
  int me = sx_co_cur();
  for (int i = 3; i < MAXFD; i++) if (p->fd[i].used) fd_release(p, me, i);
  for (int i = 0; i < p->nfiles; i++) p->files[i] = NULL;
  p->nfiles = 0; p->natexit = 0;
  for (int k = 0; k < 3; k++) { p->std[k].unget = -1; p->std[k].eof = p->std[k].err = false; }
  for (int i = 1; i < VX_MAXNODE; i++) if (vx_node[i] && vx_node[i]->lock_owner == me + 1) vx_node[i]->lock_owner = 0;
  sx_release_heap();
}
int vx_run(void (*fn)(void *), void *arg) {
  sx_reset_globals();
  vx_outlen = vx_errlen = 0; vx_out[0] = vx_err[0] = 0; vx_out_overflow = false;
  pr()->err_no = 0;
  acting_ = true;
  int r = sx_try(fn, arg);
  vx_proc_end();
  acting_ = false;
  if (r == VX_CRASHED) return r;
  return r & 0xff;
}
int nb_main(int argc, const char **argv);
typedef struct NbArgs { int argc; const char *argv[10]; } NbArgs;
static int nb_go(NbArgs *a);
static void nb_start(void *p) {
  NbArgs *a = p;
  vx_exit(nb_main(a->argc, a->argv));
}
int vx_nb(const char *in, const char *a1, const char *a2, const char *a3, const char *a4) {
  NbArgs a;
  memset(&a, 0, sizeof a);
  a.argv[0] = "nb"; a.argv[1] = a1; a.argv[2] = a2; a.argv[3] = a3; a.argv[4] = a4;
  a.argc = a4 ? 5 : a3 ? 4 : a2 ? 3 : a1 ? 2 : 1;
  if (in) vx_set_stdin(in, xlen(in)); else pr()->inpos = 0;  // NULL: as set by vx_set_stdin
  return nb_go(&a);
}
int vx_nbv(int argc, const char *const *argv) {
  NbArgs a;
  memset(&a, 0, sizeof a);
  for (int i = 0; i < argc; i++) a.argv[i] = argv[i];
  a.argc = argc;
  pr()->inpos = 0;
  return nb_go(&a);
}
static int nb_go(NbArgs *a) {
  guarding_ = vx_guard && (a->argc == 2 || (a->argc > 2 && (xeq(a->argv[2], "gc") || xeq(a->argv[2], "integrity"))));
  int r = vx_run(nb_start, a);
  guarding_ = false;
  return r;
}
static bool has(const char *h, uint32_t hn, const char *n) {
  uint32_t k = xlen(n);
  for (uint32_t i = 0; i + k <= hn; i++) if (memcmp(h + i, n, k) == 0) return true;
  return false;
}
int vx_out_count(const char *n) {
  uint32_t k = xlen(n);
  int c = 0;
  for (uint32_t i = 0; i + k <= vx_outlen; i++) if (memcmp(vx_out + i, n, k) == 0) c++;
  return c;
}
bool vx_out_has(const char *s) { return has(vx_out, vx_outlen, s); }
bool vx_err_has(const char *s) { return has(vx_err, vx_errlen, s); }
static void dump_node(int ino, int depth) {
  VNode *n = vx_node[ino];
  for (int i = 0; i < n->nent; i++) {
    char line[128]; int k = 0;
    for (int d = 0; d < depth && k < 40; d++) { line[k++] = ' '; line[k++] = ' '; }
    size_t l = xlen(n->ent[i].name);
    memcpy(line + k, n->ent[i].name, l); k += l;
    line[k++] = vx_node[n->ent[i].ino]->type == VT_DIR ? '/' : ' '; line[k] = 0;
    sx_puts(line);
    dump_node(n->ent[i].ino, depth + 1);
  }
}
void vx_dump(const char *p) { int i = vx_lookup(p, false); if (i >= 0) dump_node(i, 0); }
