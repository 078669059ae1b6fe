#ifndef FZ_H
#define FZ_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <limits.h>
#include <dirent.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include "shr.h"
#include "bw.h"
#include <sys/prctl.h>
int has_pid_socket(pid_t pid, char *name);
/* ---- report */
void logop(const char *fmt, ...);
void failed(const char *tags, const char *fmt, ...);
#define CHK(c, tags, ...) do { if (!(c)) failed(tags, __VA_ARGS__); } while (0)
/* ---- random */
extern uint64_t rs;
static inline uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static inline size_t R(size_t n) { return n ? rnd() % n : 0; }
/* ---- layout, from the debug information of the compiled source */
extern size_t lay_n, lay_i, lay_u, lay_r, lay_mm, lay_mv_len, lay_pad_len, lay_app_len, lay_gflags, lay_w2r, lay_r2w, lay_d, lay_m, lay_q;
extern int have_layout;
/* ---- wrappers' state */
enum { FK_LOCK, FK_MSYNC, FK_MLOCK, FK_MALLOC, FK_CALLOC, FK_SOCKET, FK_BIND, FK_GETSN, FK_CONNECT, FK_EPC, FK_EPCTL, FK_IOCTL, FK_MMAP, FK_FTRUNC, FK_OPEN, FK_FSTAT, FK_EPW, FK_OPENDIR, FK_SEND, FK_KILL, FK_NKIND };
extern const char *fname[];
extern int fault_at;          /* >0: fail the k-th eligible call from now */
extern int fault_kind;        /* kind that failed, or -1 */
extern int calls_seen;        /* eligible calls since arm() */
extern unsigned fault_mask;   /* eligible kinds */
void arm(int k, unsigned mask);
int disarm(void);             /* -> kind that failed or -1 */
extern int locked;            /* the ring lock is held */
extern int live_heap, live_maps;
extern int n_msync, n_mlock, n_locks;
extern size_t mlock_len; extern void *mlock_addr;
extern int synced_clean;      /* msync covered everything changed in this session */
extern int session_changed, session_synced; /* of the last finished session that changed the ring */
extern int any_changed_unsynced, bad_msync, msync_unlocked, msync_any;
extern void (*on_lock)(void); extern void (*after_lock)(void); extern void (*on_unlock)(void);
extern int (*on_wait)(int epfd, struct epoll_event *ev);   /* returns 1 if it produced the result in wait_rc */
extern int wait_rc;
extern int guard;             /* protect the mappings outside the lock */
extern int use_snap;
int map_count(void);
unsigned char *map_base(int i, size_t *len);
void guard_report(void);
int fdcount(void);
extern int last_unlock_kind;
extern const char *unix_table; /* replaces /proc/net/unix */
extern int short_read; extern int (*name_taken)(const char *); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
void *xm(size_t n); void *__real_malloc(size_t); void __real_free(void*); void guard_init(void); void guard_reset(void); extern void (*step_hook)(void);
int fdready(int fd);
int m_rand(int argc, char **argv); int m_crash(int argc, char **argv); int m_init(int argc, char **argv);
int m_open(int argc, char **argv); int m_bw(int argc, char **argv); int m_ux(int argc, char **argv); int m_fault(int argc, char **argv); int m_tool(int argc, char **argv); extern int short_write;
extern char dir[]; char *path(const char *n);
#endif
