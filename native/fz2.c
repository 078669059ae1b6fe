/* creation, opening, registries, liveness probing, exhaustive single faults */
#include "fz.h"
static size_t rdfile(const char *p, unsigned char *b, size_t n) { int fd = open(p, O_RDONLY); if (fd < 0) return (size_t)-1; ssize_t k = read(fd, b, n); close(fd); return k; }
static ino_t inode(const char *p) { struct stat s; return stat(p, &s) ? 0 : s.st_ino; }
static int onering(const char *f, size_t n, unsigned fl, int hasmm, size_t mm, unsigned char *app, size_t an) {
  unsigned char *x = app ? xm(an < 100000 ? an : 1) : NULL; if (x && an < 100000) memcpy(x, app, an); int rc;
  if ((fl & SHR_APPDATA_1) && hasmm) rc = shr_init((char*)f, n, fl, x, an, mm); else if (fl & SHR_APPDATA_1) rc = shr_init((char*)f, n, fl, x, an);
  else if (hasmm) rc = shr_init((char*)f, n, fl, mm); else rc = shr_init((char*)f, n, fl);
  if (x) __real_free(x); return rc;
}
int m_init(int argc, char **argv) {
  static const size_t ns[] = {0, 1, 2, 7, 8, 9, 100, 101, 1000, 4095, 65536, 1ul<<33, SSIZE_MAX, SIZE_MAX, SIZE_MAX - 100, (size_t)SSIZE_MAX - 2000, SIZE_MAX/2 - 1784};
  static const size_t ms[] = {0, 1, 2, 3, 10, 1000, 1ul<<40, SIZE_MAX, SIZE_MAX/16, SIZE_MAX/16+1, SSIZE_MAX/16, (1ul<<60)-1, (1ul<<60)+1};
  int it, its = argc > 0 ? atoi(argv[0]) : 60; unsigned char app[300], old[64], got[9000]; char *f = strdup(path("ring")), *keep = strdup(path("keep"));
  size_t i; use_snap = 1;
  for (it = 0; it < its; it++) {
    size_t n = ns[R(R(3) ? 12 : 17)], mm = ms[R(R(3) ? 6 : 13)], an = R(5) ? R(200) : (R(2) ? SIZE_MAX - R(3000) : SSIZE_MAX - R(5000)); 
    unsigned fl = 0; if (R(3) == 0) fl |= SHR_DROP; if (R(3) == 0) fl |= SHR_FARM; if (R(3) == 0) fl |= SHR_APPDATA_1; if (R(2)) fl |= SHR_MAXMSGS_2; if (R(4) == 0) fl |= SHR_SYNC; if (R(4) == 0) fl |= SHR_MLOCK; if (R(4) == 0) fl |= SHR_KEEPEXIST; if (R(12) == 0) fl |= 1u << (12 + R(20));
    int hasmm = !!(fl & SHR_MAXMSGS_2), hasapp = !!(fl & SHR_APPDATA_1); if (!hasapp) an = 0;
    for (i = 0; i < sizeof app; i++) app[i] = rnd();
    int pre = R(3); unlink(f); unlink(keep); 
    if (pre) { for (i = 0; i < sizeof old; i++) old[i] = rnd(); int fd = open(f, O_RDWR|O_CREAT, 0600); write(fd, old, sizeof old); close(fd); if (link(f, keep)) abort(); }
    ino_t oi = inode(f); int fd0 = fdcount(), lm = live_maps, hp = live_heap;
    int fault = R(3) == 0 ? 1 + R(4) : 0; 
    arm(fault, (1u<<FK_LOCK)|(1u<<FK_FTRUNC)|(1u<<FK_MMAP)|(1u<<FK_OPEN)|(1u<<FK_MALLOC)|(1u<<FK_CALLOC)|(1u<<FK_MSYNC));
    logop("init: size %zu, flags %x, slots %zu, application data %zu, existing file %d, fault %d", n, fl, mm, an, pre, fault);
    size_t emm = hasmm && mm ? mm : 100 + n / 100;
    __int128 tot = (__int128)n + (__int128)emm * 16 + an + 1800 + 8; int repr = tot <= SSIZE_MAX; 
    if (repr && hasapp && an > 250) { disarm(); continue; }
    int rc = onering(f, n, fl, hasmm, mm, hasapp ? app : NULL, an); int fk = disarm();
    logop("  -> %d", rc);
    CHK(fdcount() == fd0, "P11,P19", "shr_init leaves descriptors open"); CHK(live_maps == lm && live_heap == hp, "P11,P19", "shr_init leaves memory or mappings behind"); CHK(!locked, "P07,P11", "shr_init leaves the lock held");
    int okflags = fl < SHR_OPEN_FENCE && n;
    if (pre && rdfile(keep, got, sizeof got) != sizeof old) failed("P11", "the previous file was written to");
    if (pre) CHK(!memcmp(got, old, sizeof old), "P11", "the previous file was written to");
    if (!okflags) { CHK(rc == -1, "P11", "shr_init accepts invalid flags or a zero size"); CHK(inode(f) == oi, "P11", "a refused shr_init touches the file"); continue; }
    if (pre && (fl & SHR_KEEPEXIST)) { CHK(inode(f) == oi, "P11", "an existing file is not kept"); CHK(rc == 0, "P11", "keeping an existing file fails"); continue; }
    if (rc) { CHK(inode(f) == 0 || (pre && inode(f) == oi), "P11,P19", "a failed shr_init leaves a ring file behind"); CHK(!repr || fk >= 0 || n > (1ul<<32) || emm > (1ul<<32), "P11", "shr_init fails"); continue; }
    CHK(repr, "P11", "shr_init accepts sizes that cannot be represented"); CHK(fk < 0, "P11", "shr_init reports success although %s failed", fk >= 0 ? fname[fk] : "");
    CHK(!pre || inode(f) != oi, "P11", "an existing file is reused instead of being replaced");
    if (have_layout) { struct stat s; stat(f, &s); CHK((unsigned long)s.st_size >= lay_d + n + emm * 16 + an, "P11,P15", "the file of %lld bytes is too small for what it records", (long long)s.st_size); }
    if (n > (1ul<<32) || emm > (1ul<<32)) continue;
    shr *w = shr_open(f, SHR_WRONLY|SHR_NONBLOCK); CHK(w, "P11,P12", "the new ring cannot be opened"); struct shr_stat st; 
    CHK(shr_stat(w, &st, NULL) == 0, "P14", "stat fails"); unsigned ef = (fl & (SHR_DROP|SHR_SYNC|SHR_MLOCK)) | (fl & SHR_FARM ? SHR_FARM|SHR_DROP : 0);
    CHK(st.bn == n && st.mm == emm && st.flags == ef && !st.bu && !st.mu && !st.bw && !st.br && !st.mw && !st.mr && !st.md && !st.bd && !st.start.tv_sec && !st.start.tv_usec, "P11", "the new ring has %zu bytes, %zu slots, flags %x, %zu unread messages, counters %zu %zu %zu %zu %zu %zu", st.bn, st.mm, st.flags, st.mu, st.bw, st.br, st.mw, st.mr, st.md, st.bd);
    void *g = NULL; size_t gs = 0; int ar = shr_appdata(w, &g, NULL, &gs); CHK((ar == 0) == (an > 0), "P11,P13", "application data"); if (!ar) { CHK(gs == an && !memcmp(g, app, an), "P11,P13", "application data of the new ring differs"); free(g); }
    shr *r = shr_open(f, SHR_RDONLY|SHR_NONBLOCK); CHK(r, "P12", "open"); 
    /* the whole capacity is usable */
    if (n <= 65536) { char *b = xm(n), *c = xm(n); for (i = 0; i < n; i++) b[i] = rnd(); size_t k;
      for (k = 0; k < 3; k++) { CHK(shr_write(w, b, n) == (ssize_t)n, "P11,P03", "a message of the full capacity is refused"); CHK(shr_read(r, c, n) == (ssize_t)n && !memcmp(b, c, n), "P11,P01,P05", "a message of the full capacity comes out altered"); }
      if (emm <= n && emm < 2000) { for (k = 0; k < emm; k++) CHK(shr_write(w, b + k, 1) == 1, "P11,P03", "message %zu of %zu slots is refused", k, emm); for (k = 0; k < emm; k++) { char ch; CHK(shr_read(r, &ch, 1) == 1 && ch == b[k], "P11,P01,P05", "message %zu of %zu is lost or altered", k, emm); } }
      if (an) { g = NULL; CHK(!shr_appdata(w, &g, NULL, &gs) && gs == an && !memcmp(g, app, an), "P13,P15,P11", "writing messages changed the application data"); free(g); }
      __real_free(b); __real_free(c); }
    shr_close(r); shr_close(w);
    CHK(fdcount() == fd0, "P19", "descriptors left");
  }
  return 0;
}
int m_open(int argc, char **argv) {
  int it, its = argc > 0 ? atoi(argv[0]) : 60; char *f = strdup(path("ring")); unsigned char *img = xm(300000); size_t isz = 0, i; use_snap = 1;
  if (!have_layout) return 0;
  for (it = 0; it < its; it++) {
    size_t n = 1 + R(R(2) ? 20 : 3000), mm = 1 + R(30), an = R(2) ? R(50) : 0; unsigned gf = (R(3) == 0 ? SHR_DROP : 0) | (R(4) == 0 ? SHR_FARM : 0) | (R(4) == 0 ? SHR_MLOCK : 0); unsigned char app[64]; memset(app, 7, 64);
    if (onering(f, n, gf | SHR_MAXMSGS_2 | (an ? SHR_APPDATA_1 : 0), 1, mm, app, an)) failed("P11", "shr_init fails");
    shr *w = shr_open(f, SHR_WRONLY|SHR_NONBLOCK), *r = shr_open(f, SHR_RDONLY|SHR_NONBLOCK); CHK(w && r, "P12", "a fresh ring cannot be opened"); char b[4000]; size_t wr = 0;
    for (i = 0; i < 12; i++) { if (R(3)) { size_t l = 1 + R(n); memset(b, 'a' + i, l); shr_write(w, b, l); } else shr_read(r, b, sizeof b); }
    struct shr_stat st; shr_stat(w, &st, NULL); shr_close(w); shr_close(r); 
    isz = rdfile(f, img, 300000); size_t exact = isz, hd = lay_d;
    /* alter the file */
    int alt = R(16); size_t sz = isz; size_t *F; static const size_t off_dummy; (void)off_dummy;
#define FIELD(o) (*(size_t*)(img + (o)))
    static const size_t vals[] = {0, 1, 2, 15, 16, 17, 1000, 1ul<<20, 1ul<<32, SSIZE_MAX, SIZE_MAX, SIZE_MAX - 1784, (size_t)1<<63, SIZE_MAX - 2000};
    size_t v = R(3) ? vals[R(14)] : R(isz);
    switch (alt) {
      case 0: sz = R(isz); break; case 1: sz = isz - 1; break; case 2: sz = isz + 1 + R(5000); break; case 3: img[R(8)] ^= 1 << R(8); break; case 4: sz = R(2) ? hd : hd + 1 - R(3); break;
      case 5: FIELD(lay_n) = v; break; case 6: FIELD(lay_i) = R(2) ? v : n - R(2); break; case 7: FIELD(lay_u) = R(2) ? v : n + R(2); break; case 8: FIELD(lay_r) = R(2) ? v : mm - R(2); break; case 9: FIELD(lay_mm) = v; break;
      case 10: FIELD(lay_mv_len) = v; break; case 11: FIELD(lay_pad_len) = v; break; case 12: FIELD(lay_app_len) = v; break; case 13: sz = 0; break; default: break; }
    if (sz > isz) memset(img + isz, 0, sz - isz);
    int fd = open(f, O_WRONLY|O_TRUNC); if (write(fd, img, sz) != (ssize_t)sz) abort(); close(fd);
    __int128 need = (__int128)hd + FIELD(lay_n) + FIELD(lay_pad_len) + FIELD(lay_mv_len) + FIELD(lay_app_len);
    int good = sz >= hd + 1 && !memcmp(img, "libshr5", 8) && need <= (__int128)sz && FIELD(lay_u) <= FIELD(lay_n) && FIELD(lay_i) < FIELD(lay_n) && FIELD(lay_r) < FIELD(lay_mm);
    unsigned ofl = R(6) ? (R(2) ? SHR_RDONLY : SHR_WRONLY) : (R(2) ? SHR_RDONLY : 0) | (R(2) ? SHR_WRONLY : 0); if (R(2)) ofl |= SHR_NONBLOCK; if (R(2)) ofl |= SHR_BUFFERED; if (R(10) == 0) ofl |= 1u << R(12);
    int rd = !!(ofl & SHR_RDONLY), wo = !!(ofl & SHR_WRONLY); int okfl = rd != wo && !(ofl & (SHR_OPEN_FENCE - 1));
    int fd0 = fdcount(), hp = live_heap, lm = live_maps, ml = n_mlock;
    logop("open: ring of %zu bytes, %zu slots; alteration %d value %zu size %zu of %zu; flags %x; well-formed %d", n, mm, alt, v, sz, isz, ofl, good);
    shr *s = shr_open(f, ofl);
    CHK(!locked, "P07", "open leaves the lock held");
    if (!okfl) CHK(!s, "P12", "open accepts invalid modes"); else CHK(!!s == good, "P12", good ? "a well-formed ring is refused" : "a malformed ring is opened");
    if (!s) { CHK(fdcount() == fd0 && live_heap == hp && live_maps == lm, "P19", "a refused open leaks"); }
    else {
      if (gf & SHR_MLOCK) CHK(n_mlock > ml, "P26", "not locked in memory");
      if (rd && !(gf & SHR_FARM) && alt >= 13 && st.mu && (ofl & SHR_NONBLOCK)) { int q = fdready(shr_get_selectable_fd(s)); CHK(q, "P09", "a ring with unread messages is opened and the descriptor is not readable"); }
      shr_close(s); CHK(fdcount() == fd0 && live_heap == hp && live_maps == lm, "P19", "close leaks");
    }
    (void)wr; (void)F; (void)exact; unlink(f);
  }
  return 0;
}
/* ---- one fault at every place */
int m_fault(int argc, char **argv) {
  int cfg, k; char *f = strdup(path("ring")); use_snap = 1; unsigned all = ~(1u << FK_EPW);
  for (cfg = 0; cfg < 12; cfg++) {
    unsigned gf = cfg % 3 == 1 ? SHR_DROP : cfg % 3 == 2 ? SHR_FARM : 0; if (cfg & 1) gf |= SHR_SYNC; if (cfg & 2) gf |= SHR_MLOCK; unsigned char app[10] = "123456789";
    unsigned of = cfg < 4 ? SHR_RDONLY | (cfg & 1 ? SHR_NONBLOCK : 0) : SHR_WRONLY | (cfg & 1 ? SHR_NONBLOCK : 0) | (cfg & 4 ? SHR_BUFFERED : 0);
    if (onering(f, 100, gf | SHR_APPDATA_1, 0, 0, app, 10)) failed("P11", "init");
    shr *pr = shr_open(f, SHR_RDONLY|SHR_NONBLOCK), *pw = shr_open(f, SHR_WRONLY); CHK(pr && pw, "P12", "open"); { char c[100]; shr_write(pw, "x", 1); while (shr_read(pr, c, 100) > 0); }
    int reg[2][2]; int fd;
    for (k = 1; k < 400; k++) {
      int fd0 = fdcount(), hp = live_heap, lm = live_maps; bw_handle a[2], b[2]; int i, ended, kind;
      fd = open(f, O_RDONLY); if (have_layout) { pread(fd, &a[0], sizeof a[0], lay_w2r); pread(fd, &a[1], sizeof a[1], lay_r2w); } close(fd); (void)reg;
      arm(k, all); shr *s = shr_open(f, of); ended = fault_at > 0; kind = disarm(); CHK(!locked, "P07", "open leaves the lock held when %s fails", kind >= 0 ? fname[kind] : "-");
      logop("cfg %d: open flags %x with call %d (%s) failing -> %s", cfg, of, k, kind >= 0 ? fname[kind] : "none", s ? "opened" : "refused");
      if (ended) CHK(s, "P12", "open fails");
      if (!s) { CHK(fdcount() == fd0, "P19", "%s fails during open: %d descriptors leak", fname[kind], fdcount() - fd0); CHK(live_heap == hp, "P19", "%s fails during open: %d blocks leak", fname[kind], live_heap - hp); CHK(live_maps == lm, "P19", "%s fails during open: a mapping leaks", fname[kind]);
        fd = open(f, O_RDONLY); if (have_layout) { pread(fd, &b[0], sizeof b[0], lay_w2r); pread(fd, &b[1], sizeof b[1], lay_r2w); for (i = 0; i < BW_WAITMAX * 2; i++) CHK(a[i/64].wr[i%64].pid == b[i/64].wr[i%64].pid, "P19,P16", "%s fails during open: registry slot %d changed", fname[kind], i % 64); } close(fd); 
        if (kind == FK_MLOCK) CHK(gf & SHR_MLOCK, "P26", "mlock called"); }
      else { if (kind == FK_MLOCK) failed("P26", "open succeeds although locking in memory failed"); if (kind == FK_MSYNC) failed("P26", "open succeeds although the flush failed");
        shr_close(s); CHK(fdcount() == fd0, "P19", "closing leaks %d descriptors", fdcount() - fd0); CHK(live_heap == hp, "P19", "closing leaks %d blocks", live_heap - hp); CHK(live_maps == lm, "P19", "closing leaks a mapping");
        fd = open(f, O_RDONLY); if (have_layout) { pread(fd, &b[0], sizeof b[0], lay_w2r); pread(fd, &b[1], sizeof b[1], lay_r2w); for (i = 0; i < BW_WAITMAX * 2; i++) CHK(a[i/64].wr[i%64].pid == b[i/64].wr[i%64].pid, "P19,P16", "closing leaves registry slot %d changed", i % 64); } close(fd); }
      if (ended) break;
    }
    /* the blocking flush of a non-blocking writer */
    if ((of & SHR_BUFFERED) && (of & SHR_NONBLOCK)) for (k = 1; k < 200; k++) {
      int fd0 = fdcount(), hp = live_heap, lm = live_maps; shr *s = shr_open(f, of); CHK(s, "P12", "open"); char b[4] = "abc", c[100]; CHK(shr_write(s, b, 3) == 3, "P10", "write");
      arm(k, all & ~(1u << FK_MSYNC)); ssize_t rc = shr_flush(s, 1); int ended = fault_at > 0, kind = disarm(); struct shr_stat st; shr_stat(s, &st, NULL);
      logop("cfg %d: flush with call %d (%s) failing -> %zd", cfg, k, kind >= 0 ? fname[kind] : "none", rc); CHK(!locked, "P07", "flush leaves the lock held");
      if (ended) CHK(rc == 3, "P10", "flush gives %zd", rc); CHK(st.cm == (rc > 0 ? 0 : 1) && st.cb == (rc > 0 ? 0 : 3), "P10", "a flush that returns %zd (%s failing) leaves %zu messages buffered", rc, kind >= 0 ? fname[kind] : "-", st.cm);
      size_t n = 0; while (shr_read(pr, c, 100) > 0) n++; CHK(n == (rc > 0), "P10,P02", "a flush that returns %zd stored %zu messages", rc, n);
      /* still non-blocking: fill the ring */
      if (!(gf & (SHR_DROP|SHR_FARM))) { char big[100]; int g, last = 1; memset(big, 'x', 100); if (rc <= 0) shr_flush(s, 0); for (g = 0; g < 5 && last > 0; g++) last = shr_write(s, big, 100); CHK(last == 0, "P25,P10", "a non-blocking writer gets %d on a full ring after a flush", last); while (shr_read(pr, c, 100) > 0); }
      shr_close(s); while (shr_read(pr, c, 100) > 0); shr_write(pw, "x", 1); while (shr_read(pr, c, 100) > 0); CHK(fdcount() == fd0 && live_heap == hp && live_maps == lm, "P19", "flush or close leaks (%d descriptors, %d blocks, %d mappings)", fdcount() - fd0, live_heap - hp, live_maps - lm);
      if (ended) break;
    }
    for (k = 1; k < 60; k++) { char *g = path("new"); int fd0 = fdcount(), lm = live_maps; arm(k, all); int rc = onering(g, 50, gf | SHR_APPDATA_1, 0, 0, app, 10), ended = fault_at > 0, kind = disarm(); struct stat st;
      CHK(fdcount() == fd0 && live_maps == lm, "P19,P11", "shr_init leaks when %s fails", kind >= 0 ? fname[kind] : "-"); if (rc) CHK(stat(g, &st), "P11,P19", "a failed shr_init (%s) leaves its file behind", kind >= 0 ? fname[kind] : "-"); else CHK(kind < 0, "P11", "shr_init succeeds although %s failed", fname[kind]);
      unlink(g); if (ended) break; }
    shr_close(pr); shr_close(pw); unlink(f);
  }
  return 0;
}
/* ---- the wait/wake registry */
struct ent { int used; pid_t pid; char name[BW_NAMELEN]; bw_t *w; int fd; int child; int kp[2]; int dead; };
static struct ent E_[BW_WAITMAX]; static bw_handle *G;
static int alive_fd(struct ent *e) { return e->fd; }
static void sockname(int fd, char *out) { struct sockaddr_un a; socklen_t l = sizeof a; memset(&a, 0, sizeof a); memset(out, 0, BW_NAMELEN); if (getsockname(fd, (void*)&a, &l)) abort(); int n = l - sizeof(sa_family_t) - 1; out[0] = '@'; memcpy(out + 1, a.sun_path + 1, n < 7 ? n : 6); }
static void others_same(bw_handle *o, int except, const char *what, int prune) {
  int i; for (i = 0; i < BW_WAITMAX; i++) { if (i == except) continue;
    if (G->wr[i].pid == o->wr[i].pid && (!G->wr[i].pid || !memcmp(G->wr[i].name, o->wr[i].name, BW_NAMELEN))) { if (prune == 1 && o->wr[i].pid && E_[i].used && E_[i].dead) failed("P16,P17", "%s keeps slot %d of a waiter that is gone", what, i); continue; }
    CHK(prune && E_[i].used && E_[i].dead && G->wr[i].pid == 0, "P16", "%s changes slot %d of another waiter", what, i);
    E_[i].used = 0; CHK(G->seqno != o->seqno, "P16,P17", "%s changes the registry without making it noticeable", what);
  }
}
static int taken(const char *nm) { int i; for (i = 0; i < BW_WAITMAX; i++) if (!strncmp((char*)G->wr[i].name, nm, BW_NAMELEN)) return 1; return 0; }
int m_bw(int argc, char **argv) {
  int ops = argc > 0 ? atoi(argv[0]) : 120, i, k, nw = 0; bw_t *W[4] = {0}; int mapfd; use_snap = 0; guard = 0;
  G = mmap(NULL, 8192, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); int fd0 = fdcount(), hp = live_heap; (void)mapfd;
  if (R(2)) name_taken = taken;
  int full = argc > 1; { int sq[] = {0, 0, -1, -2, -3, -9, 2147483640}; G->seqno = sq[R(7)]; logop("registry sequence number %d", G->seqno); }
  for (i = 0; i < ops; i++) {
    bw_handle o = *G; int op = R(10); if (full && i < 70) op = 0; 
    if (op < 3) { /* register */
      int freeslot = 0; for (k = 0; k < BW_WAITMAX; k++) if (!G->wr[k].pid || (E_[k].used && E_[k].dead)) freeslot = 1;
      if (R(3) == 0 && !full) { /* in a child */
        int p[2], q[2]; if (pipe(p) || pipe(q)) abort(); fflush(NULL); pid_t c = fork();
        if (c == 0) { close(p[0]); close(q[1]); int fd; bw_t *w = bw_open(BW_WAIT, G, &fd); char ch = w ? 1 : 0; write(p[1], &ch, 1); int mode = 0; if (read(q[0], &ch, 1) == 1) mode = ch; if (mode == 1) { int z; for (z = 3; z < 1000; z++) if (z != p[1] && z != q[0]) syscall(3, z); ch = 2; write(p[1], &ch, 1); read(q[0], &ch, 1); } _exit(0); }
        close(p[1]); close(q[0]); char ch; if (read(p[0], &ch, 1) != 1) failed("P16,P15", "a registering process dies"); 
        logop("register process %d -> %d", (int)c, ch); CHK(ch == freeslot, "P16", "registering %s", ch ? "succeeds without a free slot" : "fails");
        int s = -1; for (k = 0; k < BW_WAITMAX; k++) if (G->wr[k].pid == c) s = k; 
        if (ch) { CHK(s >= 0, "P16", "no slot holds the caller's process id"); others_same(&o, s, "registering", 1); CHK(o.wr[s].pid == 0 || (E_[s].used && E_[s].dead), "P16", "registering takes an occupied slot"); CHK(G->seqno != o.seqno, "P16,P17", "registering is not noticeable"); E_[s].used = 1; E_[s].pid = c; memcpy(E_[s].name, G->wr[s].name, BW_NAMELEN); E_[s].child = 1; E_[s].dead = 0; E_[s].kp[0] = p[0]; E_[s].kp[1] = q[1]; E_[s].w = NULL; nw++; }
        else { close(p[0]); close(q[1]); waitpid(c, NULL, 0); others_same(&o, -1, "a failed registration", 2); }
      } else {
        int fd = -1; arm(R(6) == 0 && !full ? 1 + R(8) : 0, (1u<<FK_SOCKET)|(1u<<FK_BIND)|(1u<<FK_GETSN)|(1u<<FK_CONNECT)|(1u<<FK_EPC)|(1u<<FK_EPCTL)|(1u<<FK_CALLOC)); int f1 = fdcount(), h1 = live_heap; bw_t *w = bw_open(BW_WAIT, G, &fd); int fk = disarm(); logop("register -> %s%s%s", w ? "ok" : "refused", fk >= 0 ? " failing " : "", fk >= 0 ? fname[fk] : "");
        int s = -1; 
        if (!w) { CHK(fk >= 0 || !freeslot, "P16", "registering fails although a slot is free"); CHK(fdcount() == f1 && live_heap == h1, "P19", "a failed registration leaks"); others_same(&o, -1, "a failed registration", 2); }
        else { char nm[BW_NAMELEN]; sockname(fd, nm); for (k = 0; k < BW_WAITMAX; k++) if (G->wr[k].pid == getpid() && !memcmp(G->wr[k].name, nm, BW_NAMELEN)) s = k;
          CHK(s >= 0, "P16,P17", "no slot holds the caller's process id and socket name"); CHK(o.wr[s].pid == 0 || (E_[s].used && E_[s].dead), "P16", "registering takes an occupied slot"); if (E_[s].used) nw--; others_same(&o, s, "registering", 1); CHK(G->seqno != o.seqno, "P16,P17", "registering is not noticeable");
          E_[s].used = 1; E_[s].pid = getpid(); memcpy(E_[s].name, nm, BW_NAMELEN); E_[s].w = w; E_[s].fd = fd; E_[s].child = 0; E_[s].dead = 0; nw++; CHK(!fdready(fd), "P09,P16", "a new waiter's descriptor is readable"); }
      }
    } else if (op < 5) { /* a waiter leaves */
      int s = R(BW_WAITMAX), z; for (z = 0; z < BW_WAITMAX && !(E_[s].used && !E_[s].dead); z++) s = (s + 1) % BW_WAITMAX; if (!E_[s].used || E_[s].dead) continue;
      if (E_[s].child) { int how = R(2); logop("process %d of slot %d %s", (int)E_[s].pid, s, how ? "closes its descriptors" : "is killed"); if (how) { char ch = 1; write(E_[s].kp[1], &ch, 1); if (read(E_[s].kp[0], &ch, 1) != 1) abort(); } else { kill(E_[s].pid, SIGKILL); waitpid(E_[s].pid, NULL, 0); close(E_[s].kp[0]); close(E_[s].kp[1]); E_[s].kp[0] = -1; } E_[s].dead = 1; }
      else { logop("unregister slot %d", s); bw_close(E_[s].w); CHK(G->wr[s].pid == 0, "P16,P19", "closing does not release slot %d", s); CHK(G->seqno != o.seqno, "P16,P17", "closing is not noticeable"); E_[s].used = 0; others_same(&o, s, "closing", 0); nw--; }
    } else if (op == 5) { k = R(4); if (W[k]) { logop("close waker %d", k); bw_close(W[k]); W[k] = NULL; others_same(&o, -1, "closing a waker", 0); } else { W[k] = bw_open(BW_WAKE, G); logop("open waker %d", k); CHK(W[k], "P17", "opening a waker fails"); others_same(&o, -1, "opening a waker", 1); } }
    else if (op < 9) { /* wake */
      k = R(4); if (!W[k]) continue; int times = R(40) == 0 ? 700 : 1, t, rc; 
      for (t = 0; t < BW_WAITMAX; t++) if (E_[t].used && !E_[t].dead && !E_[t].child && R(2)) CHK(bw_force(E_[t].w, 0) == 0 && !fdready(E_[t].fd), "P09", "clearing the readiness of slot %d has no effect", t);
      logop("waker %d wakes%s", k, times > 1 ? " 700 times" : ""); for (t = 0; t < times; t++) { rc = bw_wake(W[k]); CHK(rc == 0, "P17", "waking fails"); }
      for (t = 0; t < BW_WAITMAX; t++) if (E_[t].used && !E_[t].dead && !E_[t].child) CHK(fdready(E_[t].fd), "P17,P08", "the waiter of slot %d is not woken", t);
      others_same(&o, -1, "waking", 1);
    } else { /* readiness */ int s = R(BW_WAITMAX); if (!E_[s].used || E_[s].dead || E_[s].child) continue; int want = R(3); CHK(bw_force(E_[s].w, want) == 0, "P09", "bw_force fails"); logop("slot %d: force %d", s, want); CHK(fdready(E_[s].fd) == !!want, "P09", "forced readiness %d has no effect", want); }
  }
  for (k = 0; k < 4; k++) if (W[k]) bw_close(W[k]);
  for (k = 0; k < BW_WAITMAX; k++) if (E_[k].used) { if (E_[k].child) { if (E_[k].kp[0] >= 0) { kill(E_[k].pid, SIGKILL); waitpid(E_[k].pid, NULL, 0); close(E_[k].kp[0]); close(E_[k].kp[1]); } } else bw_close(E_[k].w); }
  { int st; while (waitpid(-1, &st, WNOHANG) > 0); }
  if (!full) CHK(live_heap == hp, "P19", "closing leaks %d blocks", live_heap - hp);
  return 0;
}
/* ---- liveness probing against synthetic socket tables */
int m_ux(int argc, char **argv) {
  int its = argc > 0 ? atoi(argv[0]) : 60, it, i; char *tab = strdup(path("table")); unix_table = tab; int many = R(4) == 0;
  for (it = 0; it < its; it++) {
    int ns = 1 + R(5), fds[8]; unsigned long ino[8]; struct stat st; for (i = 0; i < ns; i++) { fds[i] = socket(AF_UNIX, SOCK_DGRAM, 0); fstat(fds[i], &st); ino[i] = st.st_ino; }
    char want[8]; snprintf(want, 8, "@%05x", (unsigned)R(1 << 20)); if (R(8) == 0) want[1 + R(5)] = 0;
    int lines = R(3) ? R(12) : 80 + R(300), expect = 0; FILE *f = fopen(tab, "w"); fputs("Num       RefCount Protocol Flags    Type St Inode Path\n", f); int hit = R(2) ? (int)R(lines + 1) : -1; size_t total = 56;
    char lb[4000]; 
    for (i = 0; i < lines; i++) {
      unsigned long in; const char *nm; char nb[300]; int kind = R(8), own = R(4) == 0; in = own ? ino[R(ns)] : 1 + R(1000000);
      if (R(6) == 0) in = ino[0] / 10; if (R(6) == 0) in = ino[0] * 10 + R(10);
      { int z; own = 0; for (z = 0; z < ns; z++) if (in == ino[z]) own = 1; }
      nm = nb; switch (kind) { case 0: nb[0] = 0; break; case 1: snprintf(nb, sizeof nb, "%sx", want); break; case 2: snprintf(nb, sizeof nb, "%.*s", (int)strlen(want) - 1, want); break; case 3: snprintf(nb, sizeof nb, "/run/%s", want); break; case 4: snprintf(nb, sizeof nb, "@%05x", (unsigned)R(1<<20)); break; case 5: own = 0; { int z; in = 777; for (z = 0; z < ns; z++) if (ino[z] == in) in++; } snprintf(nb, sizeof nb, "%s", want); break; case 6: { int z; memset(nb, 'p', 200); nb[200] = 0; z = R(200); nb[0] = '/'; nb[z ? z : 1] = 0; break; } default: snprintf(nb, sizeof nb, "@%.*s", (int)strlen(want), want); }
      if (!strcmp(nb, want)) own = own && 1; 
      if (i == hit) { own = 1; in = ino[R(ns)]; snprintf(nb, sizeof nb, "%s", want); }
      if (own && !strcmp(nb, want)) expect = 1;
      int pad = R(3);
      int l = snprintf(lb, sizeof lb, "%016x: 00000002 00000000 00010000 0001 01 %*lu%s%s", 0, pad * 3, in, nb[0] ? " " : "", nm);
      fputs(lb, f); total += l + 1; if (i < lines - 1 || R(3)) fputc('\n', f);
    }
    fclose(f); int f1 = fdcount(), hp = live_heap; short_read = R(3) == 0 ? 1 + R(300) : 0; logop("probe own process for %s among %d lines (%zu bytes), expecting %d", want, lines, total, expect);
    int rc = has_pid_socket(getpid(), want); short_read = 0; logop("  -> %d", rc);
    CHK(rc == expect, "P18,P16", "the probe answers %d for a socket that %s open", rc, expect ? "is" : "is not"); CHK(fdcount() == f1 && live_heap == hp, "P19,P18", "the probe leaks");
    if (R(4) == 0) { arm(1 + R(6), (1u<<FK_OPEN)|(1u<<FK_OPENDIR)|(1u<<FK_MALLOC)|(1u<<FK_KILL)); rc = has_pid_socket(getpid(), want); int fk = disarm(); logop("  with %s failing -> %d", fk >= 0 ? fname[fk] : "nothing", rc); CHK(rc == expect || (fk >= 0 && rc < 0), "P18,P16", "the probe answers %d when %s fails", rc, fk >= 0 ? fname[fk] : "nothing"); CHK(fdcount() == f1 && live_heap == hp, "P19,P18", "the probe leaks when %s fails", fk >= 0 ? fname[fk] : "-"); }
    if (R(10) == 0) { pid_t c = fork(); if (!c) _exit(0); waitpid(c, NULL, 0); CHK(has_pid_socket(c, want) == 0, "P18,P16", "the probe does not recognise a process that is gone"); 
       int p[2]; if (pipe(p)) abort(); c = fork(); if (!c) { int z; char ch; for (z = 0; z < 200; z++) if (z != p[0]) syscall(3, z); read(p[0], &ch, 1); _exit(0); } usleep(3000); rc = has_pid_socket(c, want); close(p[0]); close(p[1]); kill(c, SIGKILL); waitpid(c, NULL, 0); (void)rc; }
    if (it == its - 1 && many) { /* more sockets than the probe can list: it must not say no */
      struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); static int F[1200]; int n = 0, fd, z; unsigned long in = 0;
      while (n < 1100 && (fd = socket(AF_UNIX, SOCK_DGRAM, 0)) >= 0) F[n++] = fd;
      if (n < 1100) for (z = 0; z < 20 && n > 1; z++) close(F[--n]);
      for (z = fd = 0; z < n; z++) if (F[z] > F[fd]) fd = z;
      fstat(F[fd], &st); in = st.st_ino;
      f = fopen(tab, "w"); if (!f) abort();
      fputs("Num       RefCount Protocol Flags    Type St Inode Path\n", f); fprintf(f, "%016x: 00000002 00000000 00010000 0001 01 %lu %s\n", 0, in, want); fclose(f); 
      rc = has_pid_socket(getpid(), want); logop("probe with %d sockets open, the last one of that name -> %d", n, rc); CHK(rc != 0, "P18,P16", "the probe says no for a socket that is open, among %d", n); 
      while (n > 0) close(F[--n]);
    }
    for (i = 0; i < ns; i++) close(fds[i]);
  }
  return 0;
}
