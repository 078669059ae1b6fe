/* system call wrappers: lock tracking, fault injection, guards */
#include "fz.h"
#include <sys/ioctl.h>
#include <ucontext.h>
const char *fname[] = {"fcntl lock","msync","mlock","malloc","calloc","socket","bind","getsockname","connect","epoll_create","epoll_ctl","ioctl","mmap","ftruncate","open","fstat","epoll_wait","opendir","send","kill"};
int fault_at, fault_kind = -1, calls_seen; unsigned fault_mask;
int locked, live_heap, live_maps, n_msync, n_mlock, n_locks; size_t mlock_len; void *mlock_addr;
int session_changed, session_synced, any_changed_unsynced, bad_msync, msync_unlocked, msync_any;
void (*on_lock)(void), (*after_lock)(void), (*on_unlock)(void); int (*on_wait)(int, struct epoll_event *); int wait_rc;
int guard, use_snap; const char *unix_table; int short_read;

void arm(int k, unsigned mask) { fault_at = k; fault_mask = mask; fault_kind = -1; calls_seen = 0; }
int disarm(void) { int k = fault_kind; fault_at = 0; fault_kind = -1; fault_mask = 0; return k; }
static int faulty(int kind, int err) {
  if (!(fault_mask & (1u << kind))) return 0;
  calls_seen++;
  if (fault_at > 0 && --fault_at == 0) { fault_kind = kind; errno = err; logop("    [%s fails]", fname[kind]); return 1; }
  return 0;
}
/* ---- mappings */
static ino_t lock_ino; static dev_t lock_dev; int __real_fstat(int, struct stat *);
#define SNAPMAX (64u << 20)
struct map { unsigned char *a, *snap, *sync; size_t n; int live; } maps[64];
int map_count(void) { int i, k = 0; for (i = 0; i < 64; i++) k += maps[i].live; return k; }
unsigned char *map_base(int i, size_t *len) { int j; for (j = 0; j < 64; j++) if (maps[j].live && i-- == 0) { *len = maps[j].n; return maps[j].a; } return NULL; }
/* words touched without the lock, and words that ever change */
#define GW 65536
static unsigned char acc_unl[GW], changed[GW]; static unsigned char *base_img; static size_t base_n;
static struct map *step_map; static unsigned char *last_rip;
static unsigned char acc_write[GW]; 
static void *acc_ip[GW];
static void prot(int p) { int i; if (guard) for (i = 0; i < 64; i++) if (maps[i].live) mprotect(maps[i].a, maps[i].n, p); }
static void segv(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = uc; int i; unsigned char *a = si->si_addr;
  for (i = 0; i < 64; i++) if (guard && maps[i].live && a >= maps[i].a && a < maps[i].a + ((maps[i].n + 4095) & ~4095ul)) {
    size_t w = (a - maps[i].a) / 8;
    if (w < GW) { acc_unl[w] = 1; if (u->uc_mcontext.gregs[REG_ERR] & 2) acc_write[w] = 1; acc_ip[w] = (void*)u->uc_mcontext.gregs[REG_RIP]; }
    mprotect(maps[i].a, maps[i].n, PROT_READ|PROT_WRITE);
    u->uc_mcontext.gregs[REG_EFL] |= 0x100; step_map = &maps[i];
    return;
  }
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
}
void (*step_hook)(void);
static void trap(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = uc;
  if (step_map) { mprotect(step_map->a, step_map->n, PROT_NONE); step_map = NULL; if (!step_hook) u->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
  if (step_hook) step_hook();
}
void guard_init(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = segv; 
  sigaction(SIGSEGV, &sa, NULL); sa.sa_sigaction = trap; sigaction(SIGTRAP, &sa, NULL);
}
static void note_changes(struct map *m) {
  size_t i; if (!base_img) { base_img = __real_malloc(m->n); memcpy(base_img, m->a, m->n); base_n = m->n; return; }
  for (i = 0; i + 8 <= m->n && i + 8 <= base_n; i += 8) if (memcmp(base_img + i, m->a + i, 8) && i / 8 < GW) { changed[i/8] = 1; memcpy(base_img + i, m->a + i, 8); }
}
void guard_report(void) {
  size_t i; for (i = 0; i < GW; i++) if (acc_unl[i] && (changed[i] || acc_write[i]))
    failed("P07", "ring offset %zu, which changes, is %s without the ring lock (at %p)", i*8, acc_write[i] ? "written" : "read", acc_ip[i]);
}
void guard_reset(void) { memset(acc_unl,0,sizeof acc_unl); memset(changed,0,sizeof changed); memset(acc_write,0,sizeof acc_write); if (base_img) __real_free(base_img); base_img = NULL; }
/* session bookkeeping: what changed under this lock, and was it flushed */
static void session_begin(void) {
  int i; for (i = 0; i < 64; i++) if (maps[i].live && use_snap && maps[i].n < SNAPMAX) { 
    if (!maps[i].snap) maps[i].snap = __real_malloc(maps[i].n); 
    memcpy(maps[i].snap, maps[i].a, maps[i].n); break; }
  session_synced = 0;
}
static void session_end(void) {
  int i; for (i = 0; i < 64; i++) if (maps[i].live) {
    if (guard) note_changes(&maps[i]);
    if (use_snap && maps[i].snap) {
      int ch = memcmp(maps[i].snap, maps[i].a, maps[i].n) != 0;
      session_changed |= ch;
      if (session_synced && maps[i].sync && !memcmp(maps[i].sync, maps[i].a, maps[i].n)) any_changed_unsynced = 0; else if (ch) any_changed_unsynced = 1;
    }
    break;
  }
}
static void unlock_now(void) { if (!locked) return; session_end(); if (on_unlock) on_unlock(); locked = 0; prot(PROT_NONE); }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *p = va_arg(ap, void*); va_end(ap);
  struct flock *f = p; int rc;
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) {
    int whole = f->l_whence == SEEK_SET && f->l_start == 0 && f->l_len == 0;
    if (f->l_type == F_UNLCK) { if (whole) unlock_now(); return __real_fcntl(fd, cmd, p); }
    if (!locked && on_lock) on_lock();
    if (faulty(FK_LOCK, ENOLCK)) return -1;
    rc = __real_fcntl(fd, cmd, p);
    if (rc == 0 && f->l_type == F_WRLCK && whole && !locked) { struct stat st; locked = 1; if (!__real_fstat(fd, &st)) { lock_ino = st.st_ino; lock_dev = st.st_dev; } n_locks++; prot(PROT_READ|PROT_WRITE); session_begin(); if (after_lock) after_lock(); }
    return rc;
  }
  return __real_fcntl(fd, cmd, p);
}
int __wrap_fcntl64(int fd, int cmd, void *p) { return __wrap_fcntl(fd, cmd, p); }
int __real_msync(void *a, size_t n, int fl);
int __wrap_msync(void *a, size_t n, int fl) {
  int i, ok = 0, rc; n_msync++; msync_any = 1;
  if (!locked) msync_unlocked = 1;
  if (faulty(FK_MSYNC, EIO)) return -1;
  rc = __real_msync(a, n, fl);
  for (i = 0; i < 64; i++) if (maps[i].live && maps[i].a == a && n >= maps[i].n && (fl & MS_SYNC)) ok = 1;
  if (rc == 0 && ok && use_snap) for (i = 0; i < 64; i++) if (maps[i].live && maps[i].n < SNAPMAX) {
    if (!maps[i].sync) maps[i].sync = __real_malloc(maps[i].n);
    memcpy(maps[i].sync, maps[i].a, maps[i].n); session_synced = 1; break; }
  if (rc == 0 && ok && !use_snap) session_synced = 1;
  if (!ok) bad_msync = 1;
  return rc;
}
int __wrap_mlock(const void *a, size_t n) { 
  int i; if (faulty(FK_MLOCK, ENOMEM)) return -1;
  for (i = 0; i < 64; i++) if (maps[i].live && (void*)maps[i].a == a && n >= maps[i].n) n_mlock++;
  mlock_addr = (void*)a; mlock_len = n; return 0; }
void *__real_mmap(void*, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  int i; void *r; if (faulty(FK_MMAP, ENOMEM)) return MAP_FAILED;
  r = __real_mmap(a, n, pr, fl, fd, o);
  if (r != MAP_FAILED && (fl & MAP_SHARED) && fd >= 0) {
    live_maps++;
    for (i = 0; i < 64; i++) if (!maps[i].live) { memset(&maps[i], 0, sizeof maps[i]); maps[i].a = r; maps[i].n = n; maps[i].live = 1; break; }
    if (!locked && guard) mprotect(r, n, PROT_NONE);
    if (locked) session_begin();
  }
  return r;
}
int __real_munmap(void*, size_t);
int __wrap_munmap(void *a, size_t n) {
  int i, f = 0; for (i = 0; i < 64; i++) if (maps[i].live && maps[i].a == a) { 
    maps[i].live = 0; f = 1; live_maps--; if (n < maps[i].n) { live_maps++; } if (maps[i].snap) __real_free(maps[i].snap); if (maps[i].sync) __real_free(maps[i].sync); maps[i].snap = maps[i].sync = NULL; }
  if (!f) live_maps--;
  return __real_munmap(a, n);
}
void *__wrap_malloc(size_t n) { if (faulty(FK_MALLOC, ENOMEM)) return NULL; void *p = __real_malloc(n); if (p) live_heap++; return p; }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) { if (faulty(FK_CALLOC, ENOMEM)) return NULL; void *p = __real_calloc(a, b); if (p) live_heap++; return p; }
void *__real_realloc(void*, size_t);
void *__wrap_realloc(void *q, size_t n) { if (faulty(FK_MALLOC, ENOMEM)) return NULL; void *p = __real_realloc(q, n); if (p && !q) live_heap++; return p; }
void __wrap_free(void *p) { if (p) live_heap--; __real_free(p); }
#define W(kind, err, name, ret, decl, args) ret __real_##name decl; ret __wrap_##name decl { if (faulty(kind, err)) return -1; return __real_##name args; }
W(FK_SOCKET, EMFILE, socket, int, (int a, int b, int c), (a, b, c))
/* names that differ in one digit only, instead of the system's choice */
int (*name_taken)(const char *);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) {
  if (faulty(FK_BIND, ENOMEM)) return -1;
  if (name_taken && b->sa_family == AF_UNIX && c == sizeof(sa_family_t)) { int t;
    for (t = 0; t < 40; t++) { struct sockaddr_un u; char nm[8]; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; snprintf(nm, sizeof nm, "@%05x", (unsigned)(getpgrp() * 2654435761u >> 8) & 0xfffff); nm[1 + R(5)] = "0123456789abcdef"[R(16)];
      if (name_taken(nm)) continue; memcpy(u.sun_path + 1, nm + 1, 5); if (__real_bind(a, (void*)&u, sizeof(sa_family_t) + 6) == 0) return 0; } }
  return __real_bind(a, b, c);
}
W(FK_KILL, EPERM, kill, int, (pid_t a, int b), (a, b))
W(FK_GETSN, ENOBUFS, getsockname, int, (int a, struct sockaddr *b, socklen_t *c), (a, b, c))
W(FK_CONNECT, EACCES, connect, int, (int a, const struct sockaddr *b, socklen_t c), (a, b, c))
W(FK_EPC, EMFILE, epoll_create, int, (int a), (a))
W(FK_EPC, EMFILE, epoll_create1, int, (int a), (a))
W(FK_EPCTL, ENOMEM, epoll_ctl, int, (int a, int b, int c, struct epoll_event *d), (a, b, c, d))
W(FK_FTRUNC, ENOSPC, ftruncate, int, (int a, off_t b), (a, b))
W(FK_FTRUNC, ENOSPC, ftruncate64, int, (int a, off_t b), (a, b))
W(FK_FSTAT, EIO, fstat, int, (int a, struct stat *b), (a, b))
W(FK_FSTAT, EIO, fstat64, int, (int a, struct stat *b), (a, b))
W(FK_SEND, ENOBUFS, send, ssize_t, (int a, const void *b, size_t c, int d), (a, b, c, d))
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int a, unsigned long b, void *c) { if (faulty(FK_IOCTL, EIO)) return -1; return __real_ioctl(a, b, c); }
int __real_open(const char *, int, int);
int __wrap_open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (faulty(FK_OPEN, EMFILE)) return -1;
  if (unix_table && !strcmp(p, "/proc/net/unix")) p = unix_table;
  return __real_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return __wrap_open(p, fl, m); }
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (short_read > 0 && n > 1) { size_t k = 1 + rnd() % short_read; if (k < n) n = k; } return __real_read(fd, b, n); }
int short_write;
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (short_write > 0 && n > 1) { size_t k = 1 + rnd() % short_write; if (k < n) n = k; } return __real_write(fd, b, n); }
DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *p) { if (faulty(FK_OPENDIR, EACCES)) return NULL; return __real_opendir(p); }
int __real_close(int);
int __wrap_close(int fd) {
  struct stat st; int ring = 0;
  if (locked && __real_fstat(fd, &st) == 0 && st.st_ino == lock_ino && st.st_dev == lock_dev) ring = 1;
  if (ring) unlock_now();
  int rc = __real_close(fd);
  if (rc < 0 && errno == EBADF) failed("P19,P15", "close of descriptor %d, which is not open", fd);
  return rc;
}
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int e, struct epoll_event *ev, int n, int to) {
  if (on_wait && to != 0) { if (on_wait(e, ev)) return wait_rc; }
  if (faulty(FK_EPW, EINTR)) return -1;
  return __real_epoll_wait(e, ev, n, to);
}
int fdcount(void) {
  int n = 0; DIR *d = __real_opendir("/proc/self/fd"); struct dirent *e; while ((e = readdir(d))) n++; closedir(d); return n;
}
void *xm(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
int fdready(int fd) { struct pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, 0) > 0 && (p.revents & POLLIN); }
