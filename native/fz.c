/* model based exploration of libshr through its public interface */
#include "fz.h"
uint64_t rs = 1; char dir[256]; static char pbuf[8][512]; static int pi_;
size_t lay_n, lay_i, lay_u, lay_r, lay_mm, lay_mv_len, lay_pad_len, lay_app_len, lay_gflags, lay_w2r, lay_r2w, lay_d, lay_m, lay_q, lay_hf; int have_layout;
char *path(const char *n) { char *p = pbuf[pi_++ & 7]; snprintf(p, 512, "%s/%s", dir, n); return p; }
static char *oplog; static size_t opn, opcap; static int verbose; static FILE *out;
void logop(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); char b[500]; int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap); if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n'; b[n] = 0; if (verbose) fputs(b, out);
  if (opn + n + 1 > opcap) { opcap = (opn + n) * 2 + 4096; char *q = xm(opcap); if (oplog) { memcpy(q, oplog, opn); __real_free(oplog); } oplog = q; }
  memcpy(oplog + opn, b, n); opn += n;
}
static void cleanup(void) {
  DIR *d = opendir(dir); struct dirent *e; char p[600];
  if (d) { while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/%s", dir, e->d_name); unlink(p); } closedir(d); }
  rmdir(dir);
}
static pid_t mainpid;
void failed(const char *tags, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); char b[1000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(out, "FAIL %s %s\n", tags, b); 
  size_t from = opn > 6000 ? opn - 6000 : 0; fprintf(out, "--- operations%s\n", from ? " (last)" : ""); if (oplog) fwrite(oplog + from, 1, opn - from, out); fprintf(out, "---\n"); fflush(out);
  if (getpid() == mainpid) cleanup();
  _exit(3);
}
static void giveup(void) { cleanup(); _exit(0); }
static const char *alarmtags = "P08,P25,P07,P15";
static void onalarm(int s) { failed(alarmtags, "the library hangs"); }
static const char *aborttags = "P15";
static void onabort(int s) { failed(aborttags, "the library aborts (assertion or memory error)"); }

/* ---------------------------------------------------------------- model */
#define MAXT 60000
static struct msg_ { unsigned char *p; size_t n; } *H;      /* every message stored */
static size_t T, RD, QE;              /* stored, first unread, eldest present */
static size_t rn, rmm, applen; static unsigned gf; static unsigned char *app;
static uint64_t sbw, sbr, smw, smr, smd, sbd; static struct timeval sstart;
static char *ring;
struct hnd { shr *s; int wr; unsigned fl; size_t q, md; int pollfd_r, pollfd_w; int polled; struct msg_ *c; size_t cn, cb, csz; int known_ready; int helper; int nofdcheck; int hf0; };
#define MAXHND 10
static struct hnd hs[MAXHND]; static int nh; static struct hnd *hw, *hr; /* helpers: non blocking */
static int depth; static struct hnd *cur; static int cur_blocks; static int wait_mode; static int waited; static int sync_loose;
static size_t bytes(size_t a, size_t b) { size_t z = 0; while (a < b) z += H[a++].n; return z; }
static size_t uused(void) { return bytes(RD, T); }
static int FARMM(void) { return !!(gf & SHR_FARM); } static int DROPM(void) { return !!(gf & (SHR_DROP|SHR_FARM)); }
static void m_append(struct msg_ *v, size_t nv) {
  size_t S = 0, i; for (i = 0; i < nv; i++) S += v[i].n;
  if (DROPM()) while (nv > rmm - (T - RD) || S > rn - uused()) { smd++; sbd += H[RD].n; RD++; }
  while (T - QE && (bytes(QE, T) + S > rn || (T - QE) + nv > rmm)) QE++;
  for (i = 0; i < nv; i++) { H[T].p = xm(v[i].n); memcpy(H[T].p, v[i].p, v[i].n); H[T].n = v[i].n; T++; }
  sbw += S; smw += nv;
}
static int m_fits(size_t S, size_t nv) { return rn - uused() >= S && rmm - (T - RD) >= nv; }
static const char *tg(void) { return FARMM() ? "P05" : DROPM() ? "P01,P04" : "P01,P03"; }
static size_t first(struct hnd *h) { return FARMM() ? (h->q >= QE ? h->q : QE) : RD; }
static int unread_for(struct hnd *h) { return first(h) < T; }
static void check_ready(struct hnd *h, const char *when) {
  if (h->wr || !(h->fl & SHR_NONBLOCK)) return;
  int fd = shr_get_selectable_fd(h->s);
  CHK(fd >= 0, "P09", "no selectable descriptor for a non-blocking reader");
  int r = fdready(fd);
  CHK(r == unread_for(h), "P09", "%s: descriptor %s although unread messages %s", when, r ? "is readable" : "is not readable", unread_for(h) ? "remain" : "do not remain");
}
static void check_woken(void) {
  int i; if (sync_loose) return;
  for (i = 0; i < nh; i++) if (hs[i].s && !hs[i].wr && (hs[i].fl & SHR_NONBLOCK))
    CHK(fdready(shr_get_selectable_fd(hs[i].s)), "P08,P09,P17", "reader %d was not woken by a write that stored messages", i);
}
static int hflags(struct hnd *h) { return have_layout && lay_hf && h->s ? *(int*)((char*)h->s + lay_hf) : 0; }
static void op_begin(struct hnd *h) { h->hf0 = hflags(h); if (depth == 0) { session_changed = any_changed_unsynced = bad_msync = msync_unlocked = msync_any = 0; } }
static void op_end(struct hnd *h, int okrc, const char *what) {
  if (strcmp(what, "open")) CHK(hflags(h) == h->hf0, wait_mode == 3 ? "P25,P10,P20" : "P25,P10", "a %s call leaves the handle with different modes", what);
  CHK(!locked, "P07", "%s returns with the ring lock held", what);
  if (depth == 0 && use_snap) {
    if (gf & SHR_SYNC) { CHK(!(okrc && any_changed_unsynced && fault_kind != FK_MSYNC), "P26", "%s changed a synchronous ring and reports success without flushing it under the lock", what); 
                         CHK(!bad_msync, "P26", "%s: flush does not cover the mapping or is not synchronous", what); CHK(!msync_unlocked, "P26", "%s flushes without the lock", what); }
    else CHK(!msync_any, "P26", "%s flushes a ring not created for it", what);
  }
}
static struct hnd *pick(int wr) { int i, k = 0; for (i = 0; i < nh; i++) if (hs[i].s && hs[i].wr == wr) k++; if (!k) return NULL; k = R(k); for (i = 0; i < nh; i++) if (hs[i].s && hs[i].wr == wr && k-- == 0) return &hs[i]; return NULL; }
static unsigned char nextb; 
static void fillmsg(struct msg_ *m, size_t n) { m->n = n; m->p = xm(n); size_t i; for (i = 0; i < n; i++) m->p[i] = (unsigned char)(nextb += 1 + (i % 7 == 0)) ^ (unsigned char)(n >> 3); }
static int peers_on; static void peer(void);
static int canblock;      /* the current call may legitimately sleep */
static int wants_w; static size_t want_S, want_n;
static int hook_wait(int e, struct epoll_event *ev) {
  struct hnd *h = cur; void (*sl)(void) = on_lock; int svblk = canblock, sm = wait_mode; size_t sS = want_S, sn = want_n; int sd;
  if (!h) return 0;
  waited++;
  if (h->wr && h->cn && hr && hr->s) { /* the buffer may have been flushed before this wait */
    struct shr_stat st; int fm = fault_mask, i; fault_mask = 0; on_lock = NULL; 
    if (!shr_stat(hr->s, &st, NULL) && st.mw - smw == h->cn) { m_append(h->c, h->cn); for (i = 0; i < (int)h->cn; i++) __real_free(h->c[i].p); h->cn = h->cb = 0; }
    fault_mask = fm; on_lock = sl; }
  CHK(!locked, "P07,P25", "sleeping while holding the ring lock");
  CHK(svblk, "P25", "a %s handle sleeps", h->wr ? (DROPM() ? "drop-mode writer" : "non-blocking writer") : "non-blocking reader");
  if (h->wr) { CHK(!DROPM(), "P25,P04", "a writer on a drop-mode ring sleeps"); if (sS) CHK(!m_fits(sS, sn), "P08,P25,P03", "a writer sleeps although its batch fits"); }
  else CHK(!unread_for(h), "P08,P25", "a reader sleeps although messages are unread");
  if (waited > 200) failed("P08,P25", "a blocked call does not return although it can proceed");
  if (sm == 1 && h->polled) { if (!fdready(h->pollfd_r)) { logop("    watched descriptor becomes ready"); if (write(h->pollfd_w, "x", 1) != 1) abort(); } wait_mode = 3; int rc = epoll_wait(e, ev, 1, 0); if (rc != 1) failed("P20", "the watched descriptor is ready but the wait does not see it"); wait_rc = rc; 
       return 1; }
  if (sm == 2) { logop("    the wait fails"); wait_mode = 4; errno = EINTR; wait_rc = -1; return 1; }
  if (sm == 3) { int rc = epoll_wait(e, ev, 1, 0); CHK(rc == 1, "P20", "a watched descriptor is ready but the wait does not see it"); wait_rc = rc; return 1; }
  /* peers make progress */
  on_lock = NULL; sd = depth; depth++;
  int fk = fault_at; unsigned fm = fault_mask; fault_mask = 0; int fkk = fault_kind; fault_kind = -1; wait_mode = 0; int sw = waited;
  { struct hnd *sc = cur; int scb = canblock; cur = NULL;
    if (h->wr) { char b[70000]; shr *q = hr->s; 
      extern ssize_t op_read(struct hnd*, size_t, size_t, int); (void)b; (void)q;
      if (T == RD) failed("P08,P25,P03", "a writer sleeps on an empty ring");
      op_read(hr, 70000, 1 + R(3), 1);
    } else { extern ssize_t op_write(struct hnd*, size_t, int, size_t); op_write(hw, 1, 0, 1 + R(rn)); }
    cur = sc; canblock = scb; want_S = sS; want_n = sn; }
  depth = sd; on_lock = sl; fault_at = fk; fault_mask = fm; wait_mode = sm; canblock = svblk; fault_kind = fkk; waited = sw;
  int rc = epoll_wait(e, ev, 1, 0);
  CHK(rc == 1, "P08,P17", "a sleeping %s is not woken although a peer made progress possible", h->wr ? "writer" : "reader");
  wait_rc = rc; return 1;
}
static void hook_lock(void) { if (peers_on && depth == 0) { int sm = wait_mode, cb = canblock, w = waited; size_t a = want_S, b = want_n; struct hnd *c = cur; void (*sl)(void) = on_lock; int fk = fault_at; unsigned fm = fault_mask; int fkk = fault_kind;
  fault_mask = 0; on_lock = NULL; depth++; wait_mode = 0; fault_kind = -1; peer(); depth--; on_lock = NULL; (void)sl; cur = c; canblock = cb; wait_mode = sm; waited = w; want_S = a; want_n = b; fault_at = fk; fault_mask = fm; fault_kind = fkk;
  session_changed = any_changed_unsynced = bad_msync = msync_unlocked = 0; msync_any = 0; peers_on = 0; } }

static void cache_sync(struct hnd *h, struct msg_ *v, size_t nv, size_t S, ssize_t rc, int flushcall) {
  /* the buffer as the library reports it, compared with what may have happened */
  struct shr_stat st; int fm = fault_mask; fault_mask = 0; void (*sl)(void) = on_lock; on_lock = NULL; 
  CHK(shr_stat(h->s, &st, NULL) == 0, "P14", "shr_stat fails"); fault_mask = fm; on_lock = sl;
  size_t i, k, oldn = h->cn, oldb = h->cb; int flushed = 0, buffered = 0, direct = 0;
  size_t g = st.mw - smw; /* messages stored by this call */
  if (flushcall) { if (g) flushed = 1; }
  else if (rc > 0) {
    if (g == 0) buffered = 1; else if (g == oldn && oldn && st.cm) flushed = buffered = 1;
    else if (g == nv && !oldn) direct = 1; else if (g == oldn + nv && oldn) flushed = direct = 1;
    else failed("P10,P02", "a buffered write stored %zu messages (buffer %zu, batch %zu)", g, oldn, nv);
  } else { if (g == oldn && oldn) flushed = 1; else CHK(g == 0, "P10,P02", "a failed buffered write stored %zu messages (buffer held %zu)", g, oldn); }
  if (flushed) { CHK(g >= oldn, "P10", "a flush stored only %zu of %zu messages", g, oldn); CHK(DROPM() || m_fits(oldb, oldn), "P10,P03", "a flush succeeded without room");
    m_append(h->c, oldn); for (i = 0; i < h->cn; i++) __real_free(h->c[i].p); h->cn = h->cb = 0; }
  if (direct) m_append(v, nv);
  if (buffered) { for (k = 0; k < nv; k++) { h->c[h->cn].n = v[k].n; h->c[h->cn].p = xm(v[k].n); memcpy(h->c[h->cn].p, v[k].p, v[k].n); h->cn++; h->cb += v[k].n; } }
  CHK(st.cm == h->cn && st.cb == h->cb, "P10,P14", "the buffer holds %zu messages and %zu bytes, expected %zu and %zu", st.cm, st.cb, h->cn, h->cb);
  CHK(st.cb <= rn && st.cm <= rmm, "P10", "the buffer holds more than an empty ring can take");
}
ssize_t op_write(struct hnd *h, size_t nv, int zero, size_t big) {
  struct msg_ v[64]; struct iovec io[64]; size_t i, S = 0; ssize_t rc; int faulted;
  if (nv > 64) nv = 64;
  for (i = 0; i < nv; i++) {
    size_t mx = rn / nv; if (mx < 1) mx = 1; size_t l = 1 + R(R(3) ? mx : (mx > 8 ? mx / 4 : mx));
    if (!depth && R(40) == 0) l = rn; if (!depth && R(60) == 0) l = rn + 1; if (big && i == 0) l = big;
    if (zero && i == R(nv)) l = 0;
    fillmsg(&v[i], l); io[i].iov_base = v[i].p; io[i].iov_len = l; S += l;
  }
  int haszero = 0; for (i = 0; i < nv; i++) if (!v[i].n) haszero = 1;
  int refuse = haszero || !nv || S > rn || nv > rmm;
  cur = h; waited = 0; canblock = !(h->fl & SHR_NONBLOCK) && !DROPM() && (!refuse || (h->fl & SHR_BUFFERED)); 
  want_S = (h->fl & SHR_BUFFERED) ? 0 : S; want_n = nv;
  size_t T0 = T; (void)T0; op_begin(h);
  if (nv == 1 && R(2)) { logop("%*sh%d: write %zu bytes", depth*4, "", (int)(h - hs), v[0].n); rc = shr_write(h->s, (char*)v[0].p, v[0].n); }
  else { char lb[300]; int o = 0; lb[0] = 0; for (i = 0; i < nv && o < 250; i++) o += snprintf(lb + o, 280 - o, " %zu", v[i].n); logop("%*sh%d: writev%s", depth*4, "", (int)(h - hs), lb); rc = shr_writev(h->s, io, nv); }
  cur = NULL; int fk = fault_kind; faulted = fk >= 0 || wait_mode == 4; if (faulted) sync_loose = 1;
  logop("%*s  -> %zd", depth*4, "", rc);
  op_end(h, rc > 0, "write");
  CHK(rc == (ssize_t)S || rc == 0 || rc == -1 || rc == -3, "P02", "a write of %zu bytes returns %zd", S, rc);
  if (h->fl & SHR_BUFFERED) {
    if (refuse) CHK(rc == -1, haszero ? "P03" : "P03,P02", "a batch that can never be stored gives %zd", rc);
    if (rc == 0) CHK((h->fl & SHR_NONBLOCK) && !DROPM(), "P03,P25", "0 from a handle that should wait");
    if (rc < 0 && !faulted && !refuse && wait_mode != 3) failed("P10,P03", "a buffered write fails");
    if (!refuse || 1) { int sfm = fault_mask; (void)sfm; if (fk == FK_MSYNC) { struct shr_stat st; fault_mask = 0; shr_stat(h->s, &st, NULL); if (st.mw - smw) { /* stored though flush to disk failed */
          if (st.mw - smw == h->cn && h->cn) { m_append(h->c, h->cn); /* buffer still there by the library's account */ if (st.cm == 0) h->cn = h->cb = 0; else { depth = 0; giveup(); } } else if (st.mw - smw == nv) m_append(v, nv); else giveup(); } goto end; }
      cache_sync(h, v, nv, S, rc, 0); }
    goto end;
  }
  if (rc > 0) {
    CHK(!refuse, haszero ? "P03" : "P03,P02", "a batch that can never be stored is accepted");
    CHK(DROPM() || m_fits(S, nv), "P03,P02", "a batch is accepted although it does not fit the free space"); 
    m_append(v, nv);
    if (!faulted) check_woken();
  } else if (rc == -3) { CHK(wait_mode == 3, "P20", "-3 although no watched descriptor became ready"); }
  else if (rc == 0) { CHK(!refuse, "P03", "0 for a batch that can never be stored"); CHK((h->fl & SHR_NONBLOCK) && !DROPM(), "P03,P25,P04", "0 on a handle that %s", DROPM() ? "drops" : "waits"); CHK(!m_fits(S, nv), "P03", "0 although the batch of %zu messages and %zu bytes fits", nv, S); }
  else { CHK(refuse || faulted, DROPM() ? "P03,P04,P02" : "P03,P02", "-1 for a batch that fits"); CHK(wait_mode != 3 || fk >= 0, "P20", "-1 instead of -3"); 
     if (fk == FK_MSYNC) m_append(v, nv); }
  if (rc > 0 && wait_mode == 3) failed("P20", "a watched descriptor did not interrupt the write");
  if (rc > 0 && wait_mode == 4) failed("P20", "a failed wait is taken for a wakeup");
end:
  for (i = 0; i < nv; i++) __real_free(v[i].p);
  { struct shr_stat st; int fm = fault_mask; fault_mask = 0; void (*sl)(void) = on_lock; on_lock = NULL; if (depth == 0 && shr_stat(h->s, &st, NULL) == 0) { 
      CHK(st.mw == smw && st.bw == sbw, rc > 0 ? "P14,P02" : "P02,P14", "write counters %zu/%zu, expected %zu/%zu", st.mw, st.bw, (size_t)smw, (size_t)sbw);
      CHK(st.mu == T - RD && st.bu == uused(), DROPM() ? "P14,P04,P02" : "P14,P03,P02", "unread gauges %zu/%zu, expected %zu/%zu", st.mu, st.bu, T - RD, uused());
      CHK(st.md == smd && st.bd == sbd, "P04,P14", "dropped counters %zu/%zu, expected %zu/%zu", st.md, st.bd, (size_t)smd, (size_t)sbd); } fault_mask = fm; on_lock = sl; }
  return rc;
}
ssize_t op_read(struct hnd *h, size_t len, size_t ni, int vec) {
  static unsigned char stack_[2][90000]; unsigned char *buf = xm(len + 64); struct iovec *io = xm((ni + 4) * sizeof *io); size_t nio = ni, i, F, k = 0, tot = 0; ssize_t rc; (void)stack_;
  memset(buf, 0xA5, len + 64); for (i = 0; i < ni + 4; i++) { io[i].iov_base = (void*)0x1234; io[i].iov_len = 77777 + i; }
  unsigned char *exact = xm(len); memset(exact, 0xA5, len); /* exactly sized so that the sanitizer sees overruns */
  cur = h; waited = 0; canblock = !(h->fl & SHR_NONBLOCK) && len && (!vec || ni);
  struct iovec *xio = xm((ni ? ni : 1) * sizeof *io); memcpy(xio, io, ni * sizeof *io);
  op_begin(h);
  logop("%*sh%d: %s len %zu%s%zu", depth*4, "", (int)(h - hs), vec ? "readv" : "read", len, vec ? " elements " : " ", vec ? ni : (size_t)1);
  rc = vec ? shr_readv(h->s, (char*)exact, len, xio, &nio) : shr_read(h->s, (char*)exact, len);
  cur = NULL; int fk = fault_kind; int faulted = fk >= 0 || wait_mode == 4; if (faulted) sync_loose = 1;
  logop("%*s  -> %zd (%zu)", depth*4, "", rc, nio);
  op_end(h, rc > 0, "read");
  CHK(rc >= -3, "P06", "a read returns %zd", rc);
  F = first(h);
  size_t mx = vec ? ni : 1; while (k < mx && F + k < T && tot + H[F+k].n <= len) { tot += H[F+k].n; k++; }
  int bad = len == 0 || (vec && ni == 0);
  if (rc > 0) {
    CHK(!bad, "P06", "a read without buffer or elements returns %zd", rc);
    CHK(F < T, FARMM() ? "P06,P05" : "P06,P01", "a read returns %zd although nothing is unread", rc);
    size_t got = vec ? nio : 1, z = 0;
    if (vec) CHK(nio <= ni, "P06", "element count %zu of %zu", nio, ni);
    CHK(got >= 1 && F + got <= T, FARMM() ? "P06,P05" : "P06,P01", "a read returns %zu messages, %zu are unread", got, T - F);
    for (i = 0; i < got; i++) {
      size_t l = H[F+i].n;
      CHK(z + l <= len && z + l <= (size_t)rc, FARMM() ? "P05,P06" : "P01,P06", "a read returns %zd bytes, message %zu has %zu", rc, F + i, l);
      if (vec) { CHK(xio[i].iov_base == exact + z, "P06", "element %zu does not point at its message", i); CHK(xio[i].iov_len == l, FARMM() ? "P06,P05" : DROPM() ? "P06,P01,P04" : "P06,P01,P03,P02", "element %zu has length %zu, the message %zu", i, xio[i].iov_len, l); }
      CHK(!memcmp(exact + z, H[F+i].p, l), FARMM() ? "P05" : DROPM() ? "P01,P04,P02" : "P01,P03,P02", "message %zu of %zu bytes comes out altered", F + i, l);
      z += l;
    }
    CHK(z == (size_t)rc, FARMM() ? "P06,P05" : "P06,P01", "a read returns %zd for messages of %zu bytes", rc, z);
    CHK(got == k, "P06", "a read delivers %zu messages, %zu fit", got, k);
    for (i = z; i < len; i++) if (exact[i] != 0xA5) failed("P06,P15", "a read of %zu bytes writes at %zu", z, i);
    for (i = got; vec && i < ni; i++) CHK(xio[i].iov_base == (void*)0x1234 && xio[i].iov_len == 77777 + i, "P06", "element %zu beyond the count is changed", i);
    if (FARMM()) { h->md += F - h->q; h->q = F + got; } else RD += got;
    sbr += tot; smr += got;
    if (wait_mode == 3) failed("P20", "a watched descriptor did not interrupt the read");
    if (wait_mode == 4) failed("P20", "a failed wait is taken for a wakeup");
  } else {
    for (i = 0; i < len; i++) if (exact[i] != 0xA5) failed(rc == -3 ? "P20,P06" : "P06", "a read that returns %zd changes the buffer", rc);
    if (vec) CHK(nio == 0, rc == -3 ? "P20,P06" : "P06", "a read that returns %zd sets the element count to %zu", rc, nio);
    if (rc == 0) { CHK(!bad, "P06", "a read without buffer or elements returns 0"); CHK(h->fl & SHR_NONBLOCK, "P06,P25", "a blocking read returns 0"); CHK(F >= T, FARMM() ? "P06,P05" : "P06,P01", "a read returns 0 although %zu messages are unread", T - F); }
    if (rc == -2) { CHK(!bad, "P06", "a read without buffer or elements returns -2"); CHK(F < T && H[F].n > len, "P06", "-2 although the next message fits"); }
    if (rc == -1) { CHK(bad || faulted, wait_mode == 3 ? "P20" : F < T && H[F].n > len ? "P06" : "P06,P01,P05", "a read returns -1"); CHK(wait_mode != 3 || fk >= 0, "P20", "-1 instead of -3"); }
    if (rc == -3) CHK(wait_mode == 3, "P20", "-3 although no watched descriptor became ready");
    if (FARMM() && (rc == 0 || rc == -2 || rc == -3) && fk != FK_LOCK) { if (rc != -3 || 1) { size_t F2 = first(h); if (F2 > h->q) { h->md += F2 - h->q; h->q = F2; } } }
    if (FARMM() && rc == -1 && !bad) { /* may or may not have looked at the ring */ size_t d = shr_farm_stat(h->s, 0); if (d != h->md) { size_t F2 = first(h); CHK(d == h->md + F2 - h->q, "P05", "drop count %zu", d); h->md = d; h->q = F2; } }
  }
  if (FARMM()) CHK(shr_farm_stat(h->s, 0) == h->md, "P05", "drop count %zu, expected %zu", shr_farm_stat(h->s, 0), h->md);
  if (rc != -1 && rc != -3 && !faulted && depth == 0) check_ready(h, rc > 0 ? "after a read" : rc ? "after -2" : "after 0");
  if (faulted) h->nofdcheck = 1;
  __real_free(buf); __real_free(io); __real_free(exact); __real_free(xio);
  return rc;
}
static void op_flush(struct hnd *h, int wait) {
  size_t n = h->cn, b = h->cb; ssize_t rc; int blocks = wait || !(h->fl & SHR_NONBLOCK);
  cur = h; waited = 0; canblock = blocks && !DROPM() && n; want_S = b; want_n = n; op_begin(h);
  logop("h%d: flush wait %d", (int)(h - hs), wait);
  rc = shr_flush(h->s, wait); cur = NULL; int fk = fault_kind, faulted = fk >= 0 || wait_mode == 4; if (faulted) sync_loose = 1;
  logop("  -> %zd", rc);
  op_end(h, rc > 0, "flush");
  if (n == 0) { CHK(rc == 0, "P10", "flushing nothing gives %zd", rc); return; }
  if (fk == FK_MSYNC) { giveup(); }
  if (rc > 0) CHK((size_t)rc == b, "P10,P02", "a flush of %zu bytes returns %zd", b, rc);
  if (rc == 0) CHK(!blocks && !DROPM() && !m_fits(b, n), blocks ? "P10,P25" : "P10,P03", "a flush returns 0");
  if (rc < 0) CHK(faulted || wait_mode == 3, "P10", "a flush fails");
  if (rc == -3) CHK(wait_mode == 3, "P20", "-3 although no watched descriptor became ready"); 
  cache_sync(h, NULL, 0, 0, rc, 1);
  CHK((rc > 0) == (h->cn == 0), "P10", "a flush that returns %zd leaves %zu messages buffered", rc, h->cn);
  if (rc > 0 && !faulted) check_woken();
}
static void op_stat(struct hnd *h, int reset) {
  struct shr_stat st; struct timeval tv = {1000 + R(1000), R(1000000)}; memset(&st, 0x5A, sizeof st);
  op_begin(h); logop("h%d: stat%s", (int)(h - hs), reset ? " and reset" : "");
  int rc = shr_stat(h->s, &st, reset ? &tv : NULL); int fk = fault_kind;
  op_end(h, rc == 0, "stat");
  if (rc) { CHK(fk >= 0, "P14", "shr_stat fails"); if (fk != FK_MSYNC) return; giveup(); }
#define EQ(f, e, t) CHK(st.f == (e), t, "statistics field " #f " is %llu, expected %llu", (unsigned long long)st.f, (unsigned long long)(e))
  EQ(bw, sbw, "P14"); EQ(br, sbr, "P14"); EQ(mw, smw, "P14"); EQ(mr, smr, "P14"); EQ(md, smd, "P14,P04"); EQ(bd, sbd, "P14,P04");
  EQ(bn, rn, "P14"); EQ(mm, rmm, "P14"); EQ(bu, uused(), "P14"); EQ(mu, T - RD, "P14"); EQ(cm, h->cn, "P14"); EQ(cb, h->cb, "P14"); EQ(cn, h->csz, "P14");
  EQ(flags, gf, "P14,P11"); EQ(start.tv_sec, sstart.tv_sec, "P14"); EQ(start.tv_usec, sstart.tv_usec, "P14");
  if (reset) { sbw = sbr = smw = smr = smd = sbd = 0; sstart = tv; }
}
static void op_app(struct hnd *h) {
  void *g = NULL; size_t sz = 0; int rc, mode = R(6), fk; unsigned char *nb = xm(applen + 16), *ob; op_begin(h);
  size_t i; for (i = 0; i < applen + 16; i++) nb[i] = rnd();
  logop("h%d: appdata mode %d (stored %zu)", (int)(h - hs), mode, applen);
  int lh = live_heap, pe = on_lock != NULL;
  if (mode == 0) { rc = shr_appdata(h->s, &g, NULL, &sz); fk = fault_kind;
    if (rc == 0) { CHK(applen, "P13", "application data from a ring without any"); CHK(sz == applen && g && !memcmp(g, app, applen), "P13", "fetched application data differs"); free(g); }
    else CHK(!applen || fk >= 0, "P13", "fetching application data fails");
    if (rc && g && fk == FK_MSYNC) free(g);
    if (fk < 0 && !pe) CHK(live_heap == lh, "P13,P19", "fetching application data leaks"); }
  else if (mode == 1 || mode == 2) { sz = mode == 1 ? applen + R(16) : (applen ? R(applen) : 0); size_t sz0 = sz; ob = xm(sz); memset(ob, 0x77, sz); g = ob; rc = shr_appdata(h->s, &g, NULL, &sz); fk = fault_kind;
    if (rc == 0) { CHK(applen && sz0 >= applen, "P13", "application data fetched into a buffer of %zu", sz0); CHK(sz == applen && !memcmp(ob, app, applen), "P13", "fetched application data differs (size %zu)", sz); for (i = applen; i < sz0; i++) CHK(ob[i] == 0x77, "P13,P15", "fetching application data writes beyond it"); }
    else CHK(!applen || sz0 < applen || fk >= 0, "P13", "fetching application data fails");
    __real_free(ob); }
  else if (mode == 3 || mode == 4) { sz = mode == 3 ? applen : applen + (R(2) ? 1 : -1); size_t sz0 = sz; if (sz == (size_t)-1) sz0 = sz = 1; unsigned char *x = xm(sz); memcpy(x, nb, sz < applen + 16 ? sz : 0); rc = shr_appdata(h->s, NULL, x, &sz); fk = fault_kind;
    if (rc == 0) { CHK(applen && sz0 == applen, "P13", "application data of %zu bytes replaced by %zu", applen, sz0); memcpy(app, nb, applen); } else { CHK(!applen || sz0 != applen || fk >= 0, "P13", "storing application data fails"); if (fk == FK_MSYNC && sz0 == applen) memcpy(app, nb, applen); }
    __real_free(x); }
  else { sz = R(4) ? applen : applen + 1; size_t sz0 = sz; ob = xm(sz); memset(ob, 0x77, sz); unsigned char *x = xm(sz); memcpy(x, nb, sz); g = ob; rc = shr_appdata(h->s, &g, x, &sz); fk = fault_kind;
    if (rc == 0) { CHK(applen && sz0 == applen, "P13", "exchange with a wrong size"); CHK(!memcmp(ob, app, applen), "P13", "exchange returns other than the old data"); memcpy(app, nb, applen); }
    else { CHK(!applen || sz0 != applen || fk >= 0, "P13", "exchanging application data fails"); if (fk == FK_MSYNC && sz0 == applen) memcpy(app, nb, applen); }
    __real_free(ob); __real_free(x); }
  __real_free(nb);
  op_end(h, rc == 0, "appdata");
  if (applen) { void *c = NULL; size_t cs = 0; int fm = fault_mask; fault_mask = 0; void (*sl)(void) = on_lock; on_lock = NULL; CHK(shr_appdata(h->s, &c, NULL, &cs) == 0 && cs == applen && !memcmp(c, app, applen), "P13", "stored application data is wrong afterwards"); free(c); fault_mask = fm; on_lock = sl; }
}
static struct hnd *h_open(int wr, unsigned fl) {
  struct hnd *h = NULL; int i; for (i = 0; i < MAXHND; i++) if (!hs[i].s) { h = &hs[i]; if (i >= nh) nh = i + 1; break; }
  if (!h) return NULL; memset(h, 0, sizeof *h);
  h->wr = wr; h->fl = fl; int lm0 = n_mlock; op_begin(h);
  logop("h%d: open %s%s%s", (int)(h - hs), wr ? "write" : "read", fl & SHR_NONBLOCK ? " nonblock" : "", fl & SHR_BUFFERED ? " buffered" : "");
  h->s = shr_open(ring, (wr ? SHR_WRONLY : SHR_RDONLY) | fl);
  int fk = fault_kind; fault_mask = 0; op_end(h, h->s != NULL, "open");
  if (!h->s) { CHK(fk >= 0, "P12", "a ring this library created and used cannot be opened"); return NULL; }
  if (gf & SHR_MLOCK) CHK(n_mlock > lm0, "P26", "a ring to be locked in memory is opened without locking the whole mapping"); 
  else CHK(n_mlock == lm0, "P26", "a ring is locked in memory without being asked for");
  h->q = QE; h->c = xm(sizeof(struct msg_) * (rmm + 1 < 20000 ? rmm + 1 : 20000));
  struct shr_stat st; void (*sl)(void) = on_lock; on_lock = NULL; if (shr_stat(h->s, &st, NULL) == 0) { h->csz = st.cn; CHK(st.cm == 0 && st.cb == 0, "P14,P12", "a fresh handle has a filled buffer"); 
    CHK(st.mu == T - RD && st.bu == uused() && st.mw == smw, "P12,P14", "opening changes the ring");
    if (wr && (fl & SHR_BUFFERED)) CHK(st.cn >= 1 && st.cn <= rn, "P10", "write buffer of %zu bytes for a ring of %zu", st.cn, rn); } on_lock = sl;
  if (!wr && fk < 0) { check_ready(h, "after open"); }
  int fd = shr_get_selectable_fd(h->s); CHK((fd >= 0) == (!wr && (fl & SHR_NONBLOCK)), "P09", "selectable descriptor %d", fd);
  if (!wr) CHK(shr_farm_stat(h->s, 0) == 0, "P05", "a new reader has a drop count");
  return h;
}
static void h_close(struct hnd *h) {
  int i; size_t n = h->cn, b = h->cb; op_begin(h);
  logop("h%d: close", (int)(h - hs));
  cur = h; waited = 0; canblock = !(h->fl & SHR_NONBLOCK) && !DROPM() && n; want_S = b; want_n = n;
  shr_close(h->s); h->s = NULL; cur = NULL; 
  CHK(!locked, "P07", "close returns with the ring lock held");
  if (n) { if (m_fits(b, n) || DROPM() || !(h->fl & SHR_NONBLOCK)) { m_append(h->c, n); } }
  for (i = 0; i < (int)h->cn; i++) __real_free(h->c[i].p); __real_free(h->c);
  if (h->pollfd_r) { close(h->pollfd_r); close(h->pollfd_w); }
  memset(h, 0, sizeof *h);
  if (n && hr && hr->s) { struct shr_stat st; fault_mask = 0; on_lock = NULL; if (!shr_stat(hr->s, &st, NULL)) CHK(st.mu == T - RD && st.mw == smw, "P10", "closing a buffered writer stored %lld messages too many", (long long)(st.mw - smw)); }
}
static void peer(void) {
  int k = R(4); 
  cur = NULL;
  if (k < 2 && hw != NULL && hw->s) op_write(hw, 1 + R(3), 0, 0); else if (hr && hr->s) op_read(hr, 1 + R(2) * 70000, 1 + R(3), R(2));
}
static void drain_check(void) {
  if (!hr || !hr->s) return;
  int g = 0; while (unread_for(hr) && g++ < 100000) op_read(hr, 70000, 7, 1);
  op_read(hr, 70000, 3, 1);
}
/* another process that registers as a waiter and later dies without closing */
static pid_t stranger_pid; static int nstranger;
static void stranger(void) {
  if (stranger_pid) { logop("the other process is killed"); kill(stranger_pid, SIGKILL); waitpid(stranger_pid, NULL, 0); stranger_pid = 0; return; }
  if (nstranger >= 8) return;
  int p[2], wr = R(2); if (pipe(p)) abort(); fflush(NULL);
  logop("another process opens the ring for %s", wr ? "writing" : "reading"); nstranger++;
  pid_t c = fork(); if (c < 0) abort();
  if (c == 0) { int z; char ch = 1; prctl(PR_SET_PDEATHSIG, SIGKILL); on_lock = NULL; on_wait = NULL; for (z = 3; z < 400; z++) if (z != p[1]) syscall(3, z); shr *s = shr_open(ring, wr ? SHR_WRONLY : SHR_RDONLY|SHR_NONBLOCK); ch = s != NULL; __real_write(p[1], &ch, 1); for (;;) pause(); }
  close(p[1]); char ch = 0; if (__real_read(p[0], &ch, 1) != 1) ch = 0; close(p[0]); stranger_pid = c;
  CHK(ch, "P12", "another process cannot open the ring");
}
static void check_registry(const char *when) {
  if (!have_layout) return; 
  int fd = open(ring, O_RDONLY), i; bw_handle w, r; 
  if (pread(fd, &w, sizeof w, lay_w2r) != sizeof w || pread(fd, &r, sizeof r, lay_r2w) != sizeof r) abort();
  close(fd);
  int nr = 0, nw = 0, wantr = 0, wantw = 0; for (i = 0; i < BW_WAITMAX; i++) { nr += w.wr[i].pid != 0; nw += r.wr[i].pid != 0; }
  for (i = 0; i < nh; i++) if (hs[i].s) { if (!hs[i].wr) wantr++; else if (!(hs[i].fl & SHR_NONBLOCK) && !DROPM()) wantw++; }
  CHK(nr >= wantr && nr <= wantr + nstranger, "P19,P16", "%s: %d readers are registered, %d exist", when, nr, wantr);
  CHK(nw >= wantw && nw <= wantw + MAXHND + nstranger, "P16", "%s: %d writers are registered, %d exist", when, nw, wantw);
}
static void newring(unsigned flags, size_t n, size_t mm, size_t an) {
  int rc; size_t i; ring = strdup(path("ring")); rn = n; applen = an; app = xm(an); for (i = 0; i < an; i++) app[i] = rnd();
  logop("ring: %zu bytes, %zu slots, flags%s%s%s%s, %zu bytes of application data", n, mm, flags & SHR_DROP ? " drop" : "", flags & SHR_FARM ? " farm" : "", flags & SHR_SYNC ? " sync" : "", flags & SHR_MLOCK ? " mlock" : "", an);
  unsigned f = flags | (an ? SHR_APPDATA_1 : 0) | (mm ? SHR_MAXMSGS_2 : 0);
  unsigned char *xa = xm(an); memcpy(xa, app, an);
  if (an && mm) rc = shr_init(ring, n, f, xa, an, mm); else if (an) rc = shr_init(ring, n, f, xa, an); else if (mm) rc = shr_init(ring, n, f, mm); else rc = shr_init(ring, n, f);
  CHK(rc == 0, "P11", "shr_init fails"); rmm = mm ? mm : 100 + n / 100; gf = flags | (flags & SHR_FARM ? SHR_DROP : 0);
  __real_free(xa);
}
/* a batch whose lengths add up past the largest number: it must be refused before anything is touched */
static void op_huge(struct hnd *h) {
  struct iovec v[4]; unsigned char *b = xm(16); int n = 2 + R(3), i, j = R(n); size_t sum = 0; ssize_t rc;
  memset(b, 0x42, 16); op_begin(h);
  for (i = 0; i < n; i++) { v[i].iov_base = b; v[i].iov_len = 1 + R(8); sum += i == j ? 0 : v[i].iov_len; }
  switch (R(3)) { case 0: v[j].iov_len = (size_t)0 - sum + R(9); break; case 1: v[j].iov_len = (size_t)SSIZE_MAX - R(20); break; default: v[j].iov_len = (size_t)-1 - R(3); }
  if (v[j].iov_len == 0) v[j].iov_len = 1; if (v[j].iov_len <= 8) v[j].iov_len = (size_t)0 - 1;
  logop("h%d: write a batch of %d with one length of %zu", (int)(h - hs), n, v[j].iov_len);
  aborttags = "P03,P15"; rc = shr_writev(h->s, v, n); aborttags = "P15";
  CHK(rc == -1, "P03,P15", "a batch that exceeds the ring's capacity gives %zd", rc);
  op_end(h, 0, "oversized write"); __real_free(b);
}
static void pollctl(struct hnd *h) { int p[2]; if (h->pollfd_r || pipe(p)) return; h->pollfd_r = p[0]; h->pollfd_w = p[1]; logop("h%d: watch a descriptor", (int)(h - hs)); int rc = shr_ctl(h->s, SHR_POLLFD, p[0]); CHK(rc == 0, "P20", "shr_ctl fails"); h->polled = !h->wr || (!(h->fl & SHR_NONBLOCK) && !DROPM()); }
int m_rand(int argc, char **argv) {
  int ops = argc > 0 ? atoi(argv[0]) : 300, i, opt = argc > 1 ? atoi(argv[1]) : 7; 
  static const size_t ns[] = {1, 2, 3, 7, 8, 16, 33, 64, 100, 101, 255, 1000, 1023, 1024, 4096, 20000}; static const size_t ms[] = {1, 2, 3, 4, 5, 8, 13, 64, 0};
  size_t n = ns[R(16)], mm = ms[R(9)]; unsigned fl = 0; H = xm(sizeof *H * MAXT);
  switch (R(6)) { case 0: case 1: fl = SHR_FARM | (R(2) ? SHR_DROP : 0); break; case 2: fl = SHR_DROP; break; }
  if (R(6) == 0) fl |= SHR_SYNC; if (R(8) == 0) fl |= SHR_MLOCK;
  if (argc > 2) fl = atoi(argv[2]);
  size_t an = R(3) == 0 ? 1 + R(40) : 0;
  guard = (opt & 1) && R(3) == 0; use_snap = 1; if (guard) guard_init();
  newring(fl, n, mm, an);
  int fd0 = fdcount(), heap0 = live_heap, maps0 = live_maps; 
  hw = h_open(1, SHR_NONBLOCK); if (hw) hw->helper = 1; hr = h_open(0, SHR_NONBLOCK); if (hr) hr->helper = 1;
  on_wait = hook_wait; int usefault = (opt & 2) && R(3) == 0, strangers = !guard && R(3) == 0;
  if (opt & 4 && R(8) == 0) { /* many wakeups before any is consumed */ logop("600 writes"); for (i = 0; i < 600; i++) { on_lock = NULL; wait_mode = 0; if (op_write(hw, 1, 0, 1) == 0) break; } drain_check(); }
  for (i = 0; i < ops && T < MAXT - 2000; i++) {
    struct hnd *h; int k = R(100); wait_mode = 0;
    if (R(12) == 0) wait_mode = 1; else if (R(20) == 0) wait_mode = 2;
    peers_on = R(4) == 0; on_lock = (opt & 4) && peers_on ? hook_lock : NULL;
    int farm = FARMM();
    if (usefault && R(6) == 0) arm(1 + R(R(2) ? 4 : 30), ~0u & ~((1u<<FK_OPENDIR)|(1u<<FK_EPW)));
    if (R(60) == 0) { disarm(); on_lock = NULL; h = pick(1); if (h) op_huge(h); }
    if (k < 38) { h = pick(1); if (h && (h->fl & SHR_NONBLOCK || DROPM() || !farm)) op_write(h, R(3) ? 1 : R(rmm < 12 ? rmm + 2 : 12), R(25) == 0, 0); }
    else if (k < 72) { h = pick(0); if (h && ((h->fl & SHR_NONBLOCK) || !guard || 1)) op_read(h, R(30) == 0 ? 0 : R(4) ? 70000 : R(rn + 2), R(25) == 0 ? 0 : 1 + R(6), R(2)); }
    else if (k < 77) { h = pick(1); if (h && (h->fl & SHR_BUFFERED)) op_flush(h, R(2)); }
    else if (k < 81) { h = &hs[R(nh)]; if (h->s) op_stat(h, R(4) == 0); }
    else if (k < 84) { h = &hs[R(nh)]; if (h->s) op_app(h); }
    else if (k < 86) { h = pick(0); if (h && FARMM()) { logop("h%d: farm_stat reset", (int)(h - hs)); size_t d = shr_farm_stat(h->s, 1); CHK(d == h->md, "P05", "drop count %zu, expected %zu", d, h->md); h->md = 0; } }
    else if (k < 93) { int wr = R(2); int c = 0, j; for (j = 0; j < nh; j++) c += hs[j].s != NULL; if (c < 8) { 
        int f1 = fdcount(), hp = live_heap, lm = live_maps; on_lock = NULL; 
        h = h_open(wr, (R(2) ? SHR_NONBLOCK : 0) | (wr && R(2) ? SHR_BUFFERED : 0)); int fk = fault_kind; disarm(); 
        if (!h) { CHK(fdcount() == f1, "P19", "a failed open (%s) leaks descriptors", fk >= 0 ? fname[fk] : "?"); CHK(live_heap == hp, "P19", "a failed open (%s) leaks memory", fk >= 0 ? fname[fk] : "?"); CHK(live_maps == lm, "P19", "a failed open (%s) leaks a mapping", fk >= 0 ? fname[fk] : "?"); check_registry("after a failed open"); } else if (R(3) == 0) pollctl(h); } }
    else if (k < 98) { h = &hs[R(nh)]; disarm(); on_lock = NULL; wait_mode = 0; if (h->s && !h->helper) h_close(h); }
    else { h = &hs[R(nh)]; disarm(); on_lock = NULL; if (h->s) pollctl(h); }
    on_lock = NULL; disarm(); sync_loose = 0;
    if (strangers && R(stranger_pid ? 6 : 20) == 0) stranger();
    { int j; for (j = 0; j < nh; j++) if (hs[j].s && hs[j].polled && fdready(hs[j].pollfd_r)) { char c; if (read(hs[j].pollfd_r, &c, 1) != 1) abort(); } }
  }
  on_lock = NULL; wait_mode = 0; disarm(); if (stranger_pid) stranger(); drain_check(); 
  for (i = 0; i < nh; i++) if (hs[i].s && !hs[i].helper && !(hs[i].cn && !(hs[i].fl & SHR_NONBLOCK) && !DROPM() && !m_fits(hs[i].cb, hs[i].cn))) h_close(&hs[i]);
  drain_check(); check_registry("at the end");
  for (i = 0; i < nh; i++) if (hs[i].s && !hs[i].helper) h_close(&hs[i]);
  drain_check(); if (hr) h_close(hr); if (hw) h_close(hw);
  check_registry("after all closed");
  CHK(fdcount() == fd0, "P19", "descriptors left open after closing every handle: %d", fdcount() - fd0);
  CHK(live_heap == heap0, "P19", "memory left allocated after closing every handle: %d blocks", live_heap - heap0);
  CHK(live_maps == maps0, "P19", "mappings left after closing every handle");
  if (guard) guard_report();
  return 0;
}
/* ---------------------------------------------------------------- a writer killed at any instruction */
static struct img { unsigned char *b; } *imgs; static int nimgs; static size_t imgn; static unsigned char *watch_; static int stepping;
static void step(void) {
  if (!stepping) return; 
  if (nimgs && !memcmp(imgs[nimgs-1].b, watch_, imgn)) return;
  if (nimgs >= 4000) return;
  imgs[nimgs].b = __real_malloc(imgn); memcpy(imgs[nimgs].b, watch_, imgn); nimgs++;
}
static void crash_lock(void) { nimgs = 0; stepping = 1; step_hook = step; watch_ = map_base(0, &imgn); step();
  __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }
static void crash_unlock(void) { __asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc"); if (stepping) { step(); stepping = 0; step_hook = NULL; } }
int m_crash(int argc, char **argv) {
  static const size_t ns[] = {8, 16, 33, 64, 100, 128}; static const size_t ms[] = {1, 2, 3, 5, 8}; size_t n = ns[R(6)], mm = ms[R(5)]; int rounds = argc > 0 ? atoi(argv[0]) : 4, r, i, k;
  H = xm(sizeof *H * MAXT); imgs = xm(sizeof *imgs * 5000); guard_init();
  newring(0, n, mm, 0); char *copy = strdup(path("copy"));
  for (r = 0; r < rounds; r++) {
    hw = h_open(1, SHR_NONBLOCK); hr = h_open(0, SHR_NONBLOCK);
    for (i = 0; i < 6; i++) { if (R(2)) op_write(hw, 1 + R(mm), 0, 0); else op_read(hr, 70000, 1 + R(2), 1); }
    h_close(hr); hr = NULL; h_close(hw);
    hw = h_open(1, SHR_NONBLOCK);
    /* free some space, then write stepwise */
    struct msg_ v[8]; struct iovec io[8]; size_t nv = 1 + R(mm < 4 ? mm : 4), S = 0; 
    for (i = 0; i < (int)nv; i++) { size_t room = rn - uused(); size_t l = 1 + R(room / nv > 1 ? room / nv : 1); fillmsg(&v[i], l); io[i].iov_base = v[i].p; io[i].iov_len = l; S += l; }
    if (!m_fits(S, nv)) { h_close(hw); hr = h_open(0, SHR_NONBLOCK); if (unread_for(hr)) op_read(hr, 70000, 1, 1); h_close(hr); hr = NULL; continue; }
    logop("stepwise: writev of %zu messages, %zu bytes; %zu unread", nv, S, T - RD);
    after_lock = crash_lock; on_unlock = crash_unlock; nimgs = 0;
    ssize_t rc = shr_writev(hw->s, io, nv); after_lock = NULL; on_unlock = NULL; crash_unlock();
    CHK(rc == (ssize_t)S, "P02,P03", "a batch that fits gives %zd", rc);
    for (k = 0; k < nimgs; k++) {
      int fd = open(copy, O_RDWR|O_CREAT|O_TRUNC, 0600); 
      /* the registries of the copy are emptied: its waiters are not to be woken */
      if (have_layout) { memset(imgs[k].b + lay_w2r, 0, sizeof(bw_handle)); memset(imgs[k].b + lay_r2w, 0, sizeof(bw_handle)); }
      if (write(fd, imgs[k].b, imgn) != (ssize_t)imgn) abort(); close(fd);
      shr *q = shr_open(copy, SHR_RDONLY|SHR_NONBLOCK); CHK(q != NULL, "P24", "after a crash at step %d of %d the ring cannot be opened", k, nimgs);
      size_t x = RD, got = 0; char buf[70000]; struct iovec one[1]; ssize_t g; size_t c1;
      while (c1 = 1, (g = shr_readv(q, buf, sizeof buf, one, &c1)) > 0) {
        const unsigned char *want = x < T ? H[x].p : (x - T < nv ? v[x-T].p : NULL); size_t wl = x < T ? H[x].n : (x - T < nv ? v[x-T].n : 0);
        CHK(want, "P24", "after a crash at step %d of %d extra messages are readable", k, nimgs);
        CHK((size_t)g == wl && !memcmp(buf, want, wl), "P24", "after a crash at step %d of %d %s message comes out altered", k, nimgs, x < T ? "an unread" : "a new");
        x++; got++;
      }
      CHK(x == T || x == T + nv, "P24", "after a crash at step %d of %d, %zu of %zu unread messages and %zu of %zu new ones are readable", k, nimgs, x < T ? x - RD : T - RD, T - RD, x > T ? x - T : (size_t)0, nv);
      shr_close(q); unlink(copy); __real_free(imgs[k].b);
    }
    logop("  %d crash points", nimgs);
    if (nimgs < 3) failed("P24", "no intermediate states were seen"); 
    m_append(v, nv); h_close(hw);
    for (i = 0; i < (int)nv; i++) __real_free(v[i].p);
  }
  return 0;
}
/* ---------------------------------------------------------------- */
int main(int argc, char **argv) {
  int i = 1; out = fdopen(dup(1), "w"); mainpid = getpid();
  while (i < argc && argv[i][0] == '-') { if (argv[i][1] == 'v') verbose = 1; else if (argv[i][1] == 'L') { have_layout = 1; size_t *t[] = {&lay_n,&lay_i,&lay_u,&lay_r,&lay_mm,&lay_mv_len,&lay_pad_len,&lay_app_len,&lay_gflags,&lay_w2r,&lay_r2w,&lay_d,&lay_m,&lay_q,&lay_hf}; char *p = argv[++i]; unsigned j; for (j = 0; j < 15; j++) *t[j] = strtoul(p, &p, 10), p++; } i++; }
  char *mode = argv[i++]; rs = strtoull(argv[i++], NULL, 10) * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rs) rs = 1; int w; for (w = 0; w < 8; w++) rnd();
  snprintf(dir, sizeof dir, "%s/fzXXXXXX", getenv("FZTMP") ? getenv("FZTMP") : "/tmp"); if (!mkdtemp(dir)) return 2;
  if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); }
  signal(SIGALRM, onalarm); signal(SIGABRT, onabort); alarm(60); signal(SIGPIPE, SIG_IGN);
  int rc = 2; argc -= i; argv += i;
  if (!strcmp(mode, "rand")) rc = m_rand(argc, argv); else if (!strcmp(mode, "crash")) rc = m_crash(argc, argv);
#ifdef FULL
  else if (!strcmp(mode, "init")) rc = m_init(argc, argv); else if (!strcmp(mode, "open")) rc = m_open(argc, argv); else if (!strcmp(mode, "bw")) rc = m_bw(argc, argv);
  else if (!strcmp(mode, "ux")) rc = m_ux(argc, argv); else if (!strcmp(mode, "fault")) rc = m_fault(argc, argv); else if (!strcmp(mode, "tool")) rc = m_tool(argc, argv);
#endif
  cleanup(); return rc;
}
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
