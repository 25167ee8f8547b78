// In-memory POSIX environment: file system with page cache and durable state,
// stdio, processes, locks, clock, fault and crash injection.
#pragma once
#include <stdbool.h>
#include <sys/types.h>
#include "sx.h"

enum { VT_NONE, VT_REG, VT_LNK, VT_DIR, VT_FIFO };
typedef struct VEnt { char name[64]; int ino; } VEnt;
typedef struct VNode {
  int type;
  uint32_t mode, uid, gid;
  int64_t mtime;
  uint8_t *data;          // regular: content; symlink: target
  uint64_t len, cap;
  uint8_t *ddata;         // durable content
  uint64_t dlen;
  bool dirty;             // content differs from the durable one
  VEnt *ent; int nent, cent;
  VEnt *dent; int ndent;  // durable entries
  bool ddirty;
  int nlink, open;
  int lock_owner;         // process + 1
  int flock_owner;        // open file description + 1
  uint32_t odd;           // VT_FIFO: S_IFSOCK and others
  bool ghost;             // size without content: reads give zero bytes
} VNode;

#define VX_MAXNODE 256
extern VNode *vx_node[VX_MAXNODE];

// configuration
extern int64_t vx_now;            // clock
extern bool vx_time_fixed;
extern uint32_t vx_blksize;
extern uint32_t vx_bufsize;       // capacity of the buffers of streams which are written
extern bool vx_dir_reverse;
extern bool vx_tty;
extern bool vx_durable;           // track durable state
extern bool vx_print_tokens;      // symbolic numbers print as "#a", "#b", ... and are kept
extern uint64_t vx_token[16]; extern int vx_ntokens;
extern bool vx_print_abstract;    // symbolic numbers print as "?"
extern bool vx_rofs;              // everything below /r is read-only
extern bool vx_multi;             // yield before each system call
extern int vx_fd_limit;           // no more file descriptors than this
extern bool vx_small_writes;      // flushes reach the disk in two parts

// injection: the tick counter counts system calls of the given kind
enum { VK_READ = 1, VK_WRITE = 2, VK_SYNC = 4, VK_ALL = 7 };
extern uint32_t vx_ops;           // mutating operations so far (crash points)
extern bool vx_crash_on; extern uint32_t vx_crash_at;
extern uint32_t vx_calls;         // system calls so far (fault points)
extern bool vx_fault_on; extern uint32_t vx_fault_at; extern bool vx_fault_sticky;
extern int vx_fault_hits; extern const char *vx_fault_name; extern int vx_fault_errno;
extern void (*vx_hook)(const char *call, const char *path);

extern bool (*vx_yield_at)(const char *call, const char *path);  // with vx_multi: where to yield (everywhere if unset)
extern void (*vx_on_malloc)(void *p, size_t n);
extern bool vx_stdout_fails;      // nothing can be printed
extern uint32_t vx_allocs; extern bool vx_oom_on; extern uint32_t vx_oom_at; extern bool vx_oom_hit;  // allocation failing

// mutation monitor: called with the path of each directory entry or inode changed
extern void (*vx_on_mutate)(const char *what, const char *path);

extern bool vx_guard;             // backups, collections and checks may change nothing outside of /r, nor /r/config

// building and inspecting the file system directly (no faults, no ticks)
void vx_fs_init(void);
int vx_mkdir_p(const char *path, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime);
int vx_mkfile(const char *path, const void *data, uint64_t len, uint32_t mode, uint32_t uid, uint32_t gid, int64_t mtime);
int vx_mklink(const char *path, const char *target, uint32_t uid, uint32_t gid);
int vx_mkfifo_at(const char *path);
extern uint32_t vx_user, vx_group;  // who runs the program; user 0 may do everything
void vx_link_at(const char *path, const char *name);
int vx_mkodd(const char *path, unsigned kind);    // 0 pipe, 1 socket, 2 and 3 devices
int vx_lookup(const char *path, bool follow);      // inode or -1
void vx_wipe(const char *path);                    // recursively, including path
void vx_sync_all(void);                            // make everything durable
void vx_power_loss(void);                          // symbolic choice of what survived
bool vx_tree_eq(const char *a, const char *b);
int vx_count(const char *path);                    // entries below path, recursively
int vx_clone_tree(const char *from, const char *to);
int vx_child(int dir, const char *name);
void vx_set_data(int ino, const void *data, uint64_t len);
void vx_dump(const char *path);

// running the program
#define VX_CRASHED 0x1000
#define VX_EXIT(c) (0x100 | (c))
extern char vx_out[]; extern uint32_t vx_outlen;
extern char vx_err[]; extern uint32_t vx_errlen;
extern bool vx_out_overflow;
int vx_run(void (*fn)(void *), void *arg);         // exit code, or VX_CRASHED
int vx_nb(const char *stdin_text, const char *a1, const char *a2, const char *a3, const char *a4);  // exit code
int vx_nbv(int argc, const char *const *argv);     // stdin as set before
int vx_printf(const char *f, ...);
int vx_out_count(const char *s);
void vx_set_stdin(const char *text, uint32_t len);
void vx_proc_end(void);
void vx_set_cwd(const char *p);
bool vx_out_has(const char *s);
bool vx_err_has(const char *s);
void vx_ext_exit(int code) __attribute__((noreturn));
// comparison helpers which do not branch
uint32_t vx_bytes_differ(const void *a, const void *b, size_t n);

// abstract hash (hash.c)
extern bool vx_hash_collide;
extern unsigned vx_hash_layout;
extern int vx_hash_near;
extern uint32_t vx_hash_count;
void vx_hash_of(const void *d, uint64_t n, uint8_t *out, size_t outlen);
