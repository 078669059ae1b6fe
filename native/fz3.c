/* the command line tool, driven through its main() in a child process */
#include "fz.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <ctype.h>
#include <netinet/tcp.h>
static void quick(int s) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
int tool_main(int argc, char **argv);
extern int short_write;
static char *ringf, *ring2, *ring3;
static pid_t start(int in, int out, int shortio, char **av) {
  int n = 0; while (av[n]) n++; fflush(NULL);
  pid_t c = fork(); if (c) return c;
  int dn = open("/dev/null", O_RDWR); dup2(in >= 0 ? in : dn, 0); dup2(out >= 0 ? out : dn, 1); dup2(dn, 2);
  int z; for (z = 3; z < 200; z++) syscall(SYS_close, z);
  alarm(0); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGPIPE, SIG_IGN); signal(SIGALRM, SIG_DFL); signal(SIGTRAP, SIG_DFL);
  short_write = short_read = shortio; guard = 0; use_snap = 0; on_lock = after_lock = on_unlock = NULL; on_wait = NULL; optind = 1;
  int rc = tool_main(n, av); fflush(NULL); _exit(rc & 255);
}
static long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static int finish(pid_t c, const char *tags, const char *what) {
  int st; long t = now(); while (waitpid(c, &st, WNOHANG) == 0) { if (now() - t > 20000) { kill(c, SIGKILL); waitpid(c, &st, 0); failed(tags, "%s does not finish", what); } usleep(200); }
  if (WIFSIGNALED(st) && WTERMSIG(st) != SIGTERM) failed(tags, "%s is killed by signal %d", what, WTERMSIG(st));
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static unsigned char **M; static size_t *ML; static int nm; static size_t tot;
static void messages(int k, size_t maxlen) {
  int i; size_t j; for (i = 0; i < nm; i++) __real_free(M[i]); nm = k; if (!M) { M = xm(sizeof(*M) * 4000); ML = xm(sizeof(*ML) * 4000); } tot = 0;
  for (i = 0; i < nm; i++) { ML[i] = 1 + (R(4) ? R(maxlen < 40 ? maxlen : 40) : R(maxlen)); M[i] = xm(ML[i]); for (j = 0; j < ML[i]; j++) M[i][j] = R(5) ? rnd() : 0; tot += ML[i]; }
}
static void mk(const char *f, size_t n, unsigned fl) { unlink(f); if (shr_init((char*)f, n, fl | SHR_MAXMSGS_2, (size_t)8000)) failed("P11", "shr_init fails"); }
static void put(const char *f) { int i; shr *w = shr_open((char*)f, SHR_WRONLY|SHR_NONBLOCK); if (!w) failed("P12", "open fails"); for (i = 0; i < nm; i++) if (shr_write(w, (char*)M[i], ML[i]) != (ssize_t)ML[i]) failed("P02,P03", "write fails"); shr_close(w); }
/* read all of ring f (waiting for k messages) and compare with M */
static void expect_ring(const char *f, int k, const char *tags, const char *what) {
  shr *r = shr_open((char*)f, SHR_RDONLY|SHR_NONBLOCK); unsigned char *b = xm(1100000); int i; long t = now(); ssize_t n; if (!r) failed("P12", "open fails");
  for (i = 0; ; ) { n = shr_read(r, (char*)b, 1100000); if (n > 0) { CHK(i < nm, tags, "%s: a message of %zd bytes too many", what, n); CHK((size_t)n == ML[i] && !memcmp(b, M[i], n), tags, "%s: message %d of %zu bytes arrives with %zd bytes or altered", what, i, ML[i], n); i++; t = now(); }
    else if (n < 0) failed("P06", "read fails"); else if (i >= k) break; else if (now() - t > 8000) failed(tags, "%s: only %d of %d messages arrive", what, i, k); else usleep(300); }
  shr_close(r); __real_free(b);
}
static unsigned lo(void) { unsigned p = getpid(); return 0x7f000000u | (1 + ((p >> 14) & 127)) << 16 | (1 + ((p >> 7) & 127)) << 8 | (1 + (p & 127)); }
static char *ipport(char *b, int port) { unsigned a = lo(); sprintf(b, "%u.%u.%u.%u:%d", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255, port); return b; }
static int port_listen(int *port) { struct sockaddr_in a; socklen_t l = sizeof a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(lo()); int s = socket(AF_INET, SOCK_STREAM, 0); if (bind(s, (void*)&a, sizeof a) || listen(s, 4) || getsockname(s, (void*)&a, &l)) abort(); *port = ntohs(a.sin_port); return s; }
static size_t slurp(int fd, unsigned char *b, size_t want, int ms) { size_t k = 0; long t = now(); while (k < want) { struct pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, 100) > 0) { ssize_t n = read(fd, b + k, want - k); if (n <= 0) break; k += n; t = now(); quick(fd); } else if (now() - t > ms) break; } return k; }
static void t_hex(void) {
  int i, len = R(14); char h[40]; const char *al = R(2) ? "0123456789abcdefABCDEF" : "0123456789abcdefABCDEFgxX- +\t.zZ"; int na = strlen(al), ok = 1, bad = -1;
  for (i = 0; i < len; i++) h[i] = al[R(na)]; h[len] = 0; if (len && R(4) == 0) h[bad = R(len)] = "xX -+gG/:@`\n"[R(12)]; if (h[0] == '-') h[0] = '1';
  if (!len || (len & 1)) ok = 0; for (i = 0; i < len; i++) if (!isxdigit((unsigned char)h[i])) ok = 0;
  messages(0, 1); nm = 0; if (ok) { nm = 1; M[0] = xm(20); ML[0] = len / 2; for (i = 0; i < len; i += 2) { char t[3] = {h[i], h[i+1], 0}; M[0][i/2] = strtoul(t, NULL, 16); } }
  mk(ringf, 100, 0); char *av[] = {"shr-tool", "writehex", h, ringf, NULL}; logop("writehex '%s'", h); int rc = finish(start(-1, -1, 0, av), "P23", "writehex");
  CHK((rc == 0) == ok, "P23", "writehex of '%s' gives status %d", h, rc); expect_ring(ringf, nm, "P23", "writehex");
}
static void t_read(void) {
  int p[2], k; char nb[20]; messages(R(30), R(4) ? 300 : 100000); mk(ringf, tot + 100, R(4) ? 0 : SHR_DROP); put(ringf); int lim = R(3) ? 0 : 1 + R(nm + 2); size_t want = 0; for (k = 0; k < nm && (!lim || k < lim); k++) want += ML[k];
  if (pipe(p)) abort(); snprintf(nb, sizeof nb, "%d", lim); char *a1[] = {"shr-tool", "read", ringf, NULL}, *a2[] = {"shr-tool", "read", "-N", nb, ringf, NULL}; logop("read %d messages, %zu bytes, limit %d", nm, tot, lim);
  pid_t c = start(-1, p[1], R(3) ? 1 + R(5000) : 0, lim ? a2 : a1); close(p[1]); unsigned char *b = xm(tot + 100), *q = b; size_t n = slurp(p[0], b, tot + 50, 8000); close(p[0]); finish(c, "P22", "read");
  CHK(n == want, "P22", "read prints %zu of %zu bytes", n, want); for (k = 0; q < b + n; q += ML[k], k++) CHK(!memcmp(q, M[k], ML[k]), "P22", "read prints message %d altered", k); __real_free(b);
  if (lim && lim < nm) { int i; for (i = 0; i < lim; i++) __real_free(M[i]); memmove(M, M + lim, (nm - lim) * sizeof *M); memmove(ML, ML + lim, (nm - lim) * sizeof *ML); nm -= lim; expect_ring(ringf, nm, "P22", "what read left"); }
}
static void t_tee(void) {
  messages(1 + R(40), R(4) ? 300 : 30000); mk(ringf, tot + 100, 0); mk(ring2, tot + 100, 0); mk(ring3, tot + 100, 0); int first = R(2); if (first) put(ringf);
  char *av[] = {"shr-tool", "tee", ringf, ring2, ring3, NULL}; logop("tee %d messages", nm); pid_t c = start(-1, -1, 0, av); if (!first) put(ringf);
  expect_ring(ring2, nm, "P22", "tee"); expect_ring(ring3, nm, "P22", "tee"); kill(c, SIGTERM); finish(c, "P22", "tee"); shr *r = shr_open(ringf, SHR_RDONLY|SHR_NONBLOCK); char ch; CHK(r && shr_read(r, &ch, 1) == 0, "P22", "tee leaves messages behind"); shr_close(r);
}
/* the mode has to end by itself: a target ring refuses a message, or nobody takes the output */
static void t_stop(void) {
  int i, k = R(3); messages(2 + R(6), 300); size_t big = 0; for (i = 0; i < nm; i++) if (ML[i] > ML[big]) big = i; if (ML[big] < 2) return;
  mk(ringf, tot + 100, 0); mk(ring2, k == 0 ? ML[big] - 1 : tot + 100, 0); mk(ring3, k == 1 ? ML[big] - 1 : tot + 100, 0); put(ringf);
  char *a1[] = {"shr-tool", "tee", ringf, ring2, ring3, NULL}, *a2[] = {"shr-tool", "read", "-b", ringf, NULL}; pid_t c; 
  if (k < 2) { /* the reader keeps the small ring from filling up */ logop("tee of %d messages, one too long for target %d", nm, k + 1); 
    c = start(-1, -1, 0, a1); shr *r = shr_open(k == 0 ? ring2 : ring3, SHR_RDONLY|SHR_NONBLOCK); unsigned char b[400]; int st; long t = now(); 
    while (waitpid(c, &st, WNOHANG) == 0) { shr_read(r, (char*)b, sizeof b); if (now() - t > 4000) { kill(c, SIGKILL); waitpid(c, &st, 0); failed("P22", "tee goes on after a target ring refused a message"); } usleep(200); } shr_close(r); return; }
  int p[2]; if (pipe(p)) abort(); close(p[0]); logop("read with nobody taking the output"); c = start(-1, p[1], 0, a2); close(p[1]);
  { int st; long t = now(); while (waitpid(c, &st, WNOHANG) == 0) { if (now() - t > 4000) { kill(c, SIGKILL); waitpid(c, &st, 0); failed("P22", "read goes on although its output cannot be written"); } usleep(200); } CHK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "P22", "read reports success although its output cannot be written"); }
}
static void t_pub(void) {
  int port, s = port_listen(&port), k, tries; close(s); char sp[40]; ipport(sp, port); int pre = R(3) != 0; messages(1 + R(30), R(4) ? 300 : 60000); mk(ringf, tot + 100, 0);
  char *a1[] = {"shr-tool", "pub", sp, ringf, NULL}, *a2[] = {"shr-tool", "pub", sp, "-P", ringf, NULL}; pid_t c = start(-1, -1, R(4) ? 1 + R(3000) : 0, pre ? a1 : a2); logop("pub of %d messages%s", nm, pre ? "" : " without prefixes");
  struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(lo());
  for (tries = 0; tries < 2000; tries++) { s = socket(AF_INET, SOCK_STREAM, 0); if (connect(s, (void*)&a, sizeof a) == 0) break; close(s); s = -1; int st; if (waitpid(c, &st, WNOHANG) == c) return; usleep(1000); }
  if (s < 0) { kill(c, SIGKILL); waitpid(c, NULL, 0); return; } quick(s);
  put(ringf); size_t want = tot + (pre ? 4 * nm : 0); unsigned char *b = xm(want + 10), *q = b; size_t n = slurp(s, b, want, 8000);
  CHK(n == want, "P21,P22", "pub sends %zu of %zu bytes", n, want); for (k = 0; k < nm; k++) { if (pre) { uint32_t l; memcpy(&l, q, 4); CHK(l == ML[k], "P21,P22", "pub gives message %d of %zu bytes the length %u", k, ML[k], l); q += 4; } CHK(!memcmp(q, M[k], ML[k]), "P21,P22", "pub alters message %d", k); q += ML[k]; }
  struct pollfd pf = {s, POLLIN, 0}; CHK(poll(&pf, 1, 5) == 0, "P21,P22", "pub sends more than the messages"); close(s); kill(c, SIGTERM); finish(c, "P21,P22", "pub"); __real_free(b);
}
static void t_sub(void) {
  int port, l = port_listen(&port), s, k, i; char sp[40]; ipport(sp, port); int over = R(3) == 0; messages(1 + R(R(4) ? 40 : 3000), R(5) ? 300 : 900000); if (nm > 100) { messages(nm, 30); } while (tot > 5000000) messages(5, 900000);
  mk(ringf, tot + 100, 0); char *av[] = {"shr-tool", "sub", sp, ringf, NULL}; pid_t c = start(-1, -1, R(3) ? (tot > 20000 ? 3000 : 0) + 1 + R(R(2) ? 9 : 5000) : 0, av); logop("sub of %d messages, %zu bytes%s", nm, tot, over ? ", then an overlong frame" : "");
  s = accept(l, NULL, NULL); if (s < 0) abort(); close(l); quick(s); size_t n = tot + 4 * nm + (over ? 4 : 0); unsigned char *b = xm(n), *q = b; for (k = 0; k < nm; k++) { uint32_t x = ML[k]; memcpy(q, &x, 4); memcpy(q + 4, M[k], x); q += 4 + x; }
  if (over) { static const uint32_t xs[] = {1048577, 0xffffffff, 0x80000000u, 0xfffffffcu, 2000000, 0}; memcpy(q, &xs[R(6)], 4); }
  size_t o = 0; int pace = R(2); while (o < n) { size_t ch = 1 + R(R(3) ? 200 : 500000); if (ch > n - o) ch = n - o; ssize_t w = send(s, b + o, ch, MSG_NOSIGNAL); if (w < 0) break; o += w; if (pace && R(10) == 0) usleep(100); }
  if (over) { int rc = finish(c, "P21", "sub after an overlong frame"); CHK(rc != 0, "P21", "sub accepts an overlong frame"); close(s);
    /* the frames that arrived are a prefix of what was sent */
    shr *r = shr_open(ringf, SHR_RDONLY|SHR_NONBLOCK); unsigned char *g = xm(1100000); ssize_t z; i = 0; while ((z = shr_read(r, (char*)g, 1100000)) > 0) { CHK(i < nm && (size_t)z == ML[i] && !memcmp(g, M[i], z), "P21", "sub: message %d arrives with %zd bytes or altered", i, z); i++; } shr_close(r); __real_free(g); }
  else { CHK(o == n, "P21", "sub stops before the end of the stream"); expect_ring(ringf, nm, "P21", "sub"); if (R(2)) kill(c, SIGTERM); close(s); finish(c, "P21", "sub"); }
  __real_free(b);
}
static void wfile_(const char *f, const unsigned char *b, size_t n) { FILE *o = fopen(f, "w"); if (!o || fwrite(b, 1, n, o) != n || fclose(o)) abort(); }
static void t_create(void) {
  static char num[3][40]; char mm_[40], *rings[3], letters[4][12], *av[40]; int n = 0, i, nr = 1 + R(3), nopt = 1 + R(6), bad = 0, have_s = 0; unsigned fl = 0; uint64_t size = 0; long N = -1; int app = 0, big = 0, nn = 0, nl = 0; char *appf = strdup(path("app"));
  unsigned char ab[60]; size_t an = R(12) ? 1 + R(50) : 0; for (i = 0; i < 60; i++) ab[i] = rnd(); wfile_(appf, ab, an);
  av[n++] = "shr-tool"; av[n++] = "create";
  for (i = 0; i < nopt; i++) switch (i == nopt - 1 && !have_s && R(10) ? 0 : R(4)) {
    case 0: { if (nn >= 3) break; static const char *suf[] = {"", "k", "K", "m", "M", "g", "G", "t", "T", "x"}; int sh[] = {0, 10, 10, 20, 20, 30, 30, 40, 40, 0}; int k = R(3) ? R(5) : R(10); uint64_t v = k == 0 || k == 9 ? 1 + R(30000) : k < 3 ? 1 + R(60) : 1; big = sh[k] >= 30;
      if (R(15) == 0) { strcpy(num[nn], "q5"); bad = 1; } else { snprintf(num[nn], 40, "%llu%s", (unsigned long long)v, suf[k]); if (k == 9) bad = 1; size = v << sh[k]; have_s = 1; } av[n++] = "-s"; av[n++] = num[nn++]; } break;
    case 1: { static const char L[] = "dkfsl"; static const unsigned F[] = {SHR_DROP, SHR_KEEPEXIST, SHR_FARM, SHR_SYNC, SHR_MLOCK}; if (nl >= 4) break; int j, c = 1 + R(4); for (j = 0; j < c; j++) { int x = R(5); letters[nl][j] = L[x]; fl |= F[x]; } if (R(15) == 0) { letters[nl][R(c)] = "xDj"[R(3)]; bad = 1; } letters[nl][c] = 0; av[n++] = "-m"; av[n++] = letters[nl++]; } break;
    case 2: N = 1 + R(50); snprintf(mm_, sizeof mm_, "%ld", N); av[n++] = "-N"; av[n++] = mm_; break;
    case 3: app = 1; av[n++] = "-A"; av[n++] = appf; break; }
  int nf = R(6) ? -1 : (int)R(nr); /* a ring that cannot be made */
  for (i = 0; i < nr; i++) { char t[20]; snprintf(t, sizeof t, i == nf ? "none/cr%d" : "cr%d", i); rings[i] = strdup(path(t)); unlink(rings[i]); if (i != nf && R(4) == 0) mk(rings[i], 77, 0); av[n++] = rings[i]; } av[n] = NULL;
  if (big && (fl & SHR_MLOCK)) return;
  int ex[3], b = 0; char line[500] = ""; for (i = 1; i < n && b < 400; i++) b += snprintf(line + b, sizeof line - b, " %s", av[i][0] == '/' ? strrchr(av[i], '/') + 1 : av[i]); logop("shr-tool%s", line); for (i = 0; i < nr; i++) ex[i] = access(rings[i], F_OK) == 0;
  if (size == 0 || (app && !an)) bad = 1;
  int rc = finish(start(-1, -1, 0, av), "P28", "create");
  if (bad) CHK(rc != 0, "P28", "create accepts invalid arguments"); else if (nf >= 0) { CHK(rc != 0, "P28", "create reports success although ring %d of %d cannot be made", nf + 1, nr); for (i = nf + 1; i < nr; i++) CHK((access(rings[i], F_OK) == 0) == ex[i], "P28", "create goes on after a ring that cannot be made"); } else if (!big) CHK(rc == 0, "P28", "create fails with status %d", rc);
  for (i = 0; i < nr; i++) { int e = access(rings[i], F_OK) == 0; 
    if (rc) { if (bad) CHK(e == ex[i], "P28", "create makes a ring in spite of invalid arguments"); continue; }
    CHK(e, "P28", "create reports success but ring %d of %d is not there", i + 1, nr);
    shr *r = shr_open(rings[i], SHR_RDONLY|SHR_NONBLOCK); struct shr_stat st; CHK(r, "P28,P12", "the ring created cannot be opened"); if (shr_stat(r, &st, NULL)) failed("P14", "shr_stat fails");
    if (ex[i] && (fl & SHR_KEEPEXIST)) CHK(st.bn == 77, "P28", "an existing ring is not kept"); 
    else { unsigned w = (fl & ~SHR_KEEPEXIST) | (fl & SHR_FARM ? SHR_DROP : 0), k = SHR_DROP|SHR_FARM|SHR_SYNC|SHR_MLOCK; void *g = NULL; size_t gs = 0;
      CHK(st.bn == size, "P28", "create makes a ring of %llu bytes for %llu", (unsigned long long)st.bn, (unsigned long long)size); CHK(N < 0 || st.mm == (uint64_t)N, "P28", "create sets a limit of %llu messages", (unsigned long long)st.mm);
      CHK((st.flags & k) == w, "P28", "create sets flags %x, asked for %x", st.flags & k, w);
      int ga = shr_appdata(r, &g, NULL, &gs); CHK((ga == 0) == app, "P28", "application data: %d", ga); if (app) { CHK(gs == an && !memcmp(g, ab, an), "P28", "create stores other application data"); free(g); } }
    shr_close(r); }
  for (i = 0; i < nr; i++) { unlink(rings[i]); __real_free(rings[i]); } unlink(appf);
}
static void t_write(void) {
  int p[2], i, k = R(3); size_t j;
  if (k) { /* lines */
    messages(1 + R(20), R(3) ? 60 : 998); for (i = 0; i < nm; i++) for (j = 0; j < ML[i]; j++) { M[i][j] = 1 + R(255); if (M[i][j] == '\n') M[i][j] = 'n'; }
    int refuse = R(3) == 0 ? (int)R(nm) : -1, last = R(2); if (refuse >= 0) { /* longer than the ring */ __real_free(M[refuse]); ML[refuse] = 900; M[refuse] = xm(900); memset(M[refuse], 'x', 900); for (i = 0; i < nm; i++) if (i != refuse && ML[i] > 500) ML[i] = 500; } tot = 0; for (i = 0; i < nm; i++) if (i != refuse) tot += ML[i];
    mk(ringf, refuse >= 0 ? (tot < 899 ? 899 : tot) : tot, 0); if (refuse >= 0 && tot >= 900) { refuse = -1; tot += 900; mk(ringf, tot, 0); }
    char *inf = strdup(path("in")); FILE *f = fopen(inf, "w"); for (i = 0; i < nm; i++) { fwrite(M[i], 1, ML[i], f); if (i < nm - 1 || last) fputc('\n', f); } fclose(f); int in = open(inf, O_RDONLY); unlink(inf); __real_free(inf);
    char *av[] = {"shr-tool", "write", ringf, NULL}; logop("write of %d lines, line %d too long, last newline %d", nm, refuse, last); int rc = finish(start(in, -1, 0, av), "P29", "write"); close(in);
    CHK((rc == 0) == (refuse < 0), "P29", "write exits with status %d", rc); if (refuse >= 0) nm = refuse; expect_ring(ringf, nm, "P29", "write");
  } else { messages(1, R(2) ? 30 : 30000); int small = ML[0] > 1 && R(4) == 0, none = R(8) == 0; char *inf = strdup(path("in")); unlink(inf); if (!none) wfile_(inf, M[0], ML[0]); mk(ringf, ML[0] - small, 0);
    char *av[] = {"shr-tool", "writefile", inf, ringf, NULL}; logop("writefile of %zu bytes%s%s", ML[0], small ? ", too long" : "", none ? ", missing" : ""); int rc = finish(start(-1, -1, 0, av), "P29", "writefile"); unlink(inf); __real_free(inf);
    CHK((rc == 0) == (!small && !none), "P29", "writefile exits with status %d", rc); expect_ring(ringf, rc == 0 && !small && !none, "P29", "writefile"); }
}
static void t_status(void) {
  static const unsigned F[] = {SHR_DROP, SHR_FARM, SHR_SYNC, SHR_MLOCK}; static const char *A[] = {"drop", "farm", "sync", "mlock"}; unsigned fl = 0; int i, p[2]; unsigned char ab[60]; size_t an = R(2) ? 1 + R(50) : 0; for (i = 0; i < 60; i++) ab[i] = rnd();
  for (i = 0; i < 4; i++) if (R(3) == 0) fl |= F[i]; messages(1 + R(30), 200); unlink(ringf); size_t n = fl & (SHR_DROP|SHR_FARM) && R(2) ? 200 + R(200) : tot, mm = R(2) ? 31 + R(50) : 40; 
  if (an ? shr_init(ringf, n, fl | SHR_APPDATA_1 | SHR_MAXMSGS_2, ab, an, mm) : shr_init(ringf, n, fl | SHR_MAXMSGS_2, mm)) failed("P11", "shr_init fails"); put(ringf);
  shr *r = shr_open(ringf, SHR_RDONLY|SHR_NONBLOCK); struct shr_stat a, b; unsigned char buf[300]; int k = R(nm + 1); if (!r) failed("P12", "open fails"); while (k--) shr_read(r, (char*)buf, 300); if (shr_stat(r, &a, NULL)) failed("P14", "shr_stat fails");
  char *of = strdup(path("ao")); unlink(of); int copy = R(2); if (copy && R(2)) wfile_(of, (void*)"0123456789012345678901234567890123456789012345678901234567890123456789", 70);
  char *a1[] = {"shr-tool", "status", ringf, NULL}, *a2[] = {"shr-tool", "status", "-A", of, ringf, NULL}; logop("status of a ring of %zu bytes, flags %x, %zu bytes of application data%s", n, fl, an, copy ? ", copied out" : "");
  if (pipe(p)) abort(); pid_t c = start(-1, p[1], 0, copy ? a2 : a1); close(p[1]); char t[5000]; size_t g = slurp(p[0], (void*)t, 4999, 8000); t[g] = 0; close(p[0]); int rc = finish(c, "P30", "status"); CHK(rc == 0, "P30", "status exits with %d", rc);
  if (shr_stat(r, &b, NULL)) failed("P14", "shr_stat fails"); CHK(a.bw == b.bw && a.br == b.br && a.mw == b.mw && a.mr == b.mr && a.md == b.md && a.bd == b.bd && a.mu == b.mu && a.bu == b.bu, "P30", "status changes the statistics");
  struct { const char *l; uint64_t v; } e[] = {{"bytes-written", a.bw}, {"bytes-read", a.br}, {"bytes-dropped", a.bd}, {"messages-written", a.mw}, {"messages-read", a.mr}, {"messages-dropped", a.md}, {"ring-size", a.bn}, {"bytes-ready", a.bu}, {"max-messages", a.mm}, {"messages-ready", a.mu}, {"app-data", an}};
  for (i = 0; i < 11; i++) { char *q = strstr(t, e[i].l); unsigned long long v; CHK(q && sscanf(q + strlen(e[i].l), "%*[ :=]%llu", &v) == 1, "P30", "status does not show %s", e[i].l); CHK(v == e[i].v, "P30", "status shows %s %llu, it is %llu", e[i].l, v, (unsigned long long)e[i].v); }
  char *q = strstr(t, "attributes"), *nl = q ? strchr(q, '\n') : NULL; CHK(q && nl, "P30", "status shows no attributes"); *nl = 0; for (i = 0; i < 4; i++) CHK(!!strstr(q, A[i]) == !!(a.flags & F[i]), "P30", "status shows attribute %s wrongly: '%s'", A[i], q); CHK(!!strstr(q, "appdata") == !!(a.flags & SHR_APPDATA), "P30", "status shows attribute appdata wrongly");
  if (copy && an) { FILE *f = fopen(of, "r"); unsigned char x[200]; size_t m = f ? fread(x, 1, 200, f) : 0; if (f) fclose(f); CHK(f && m == an && !memcmp(x, ab, an), "P30", "status copies out %zu of %zu bytes, or others", m, an); } unlink(of); __real_free(of); shr_close(r);
}
int m_tool(int argc, char **argv) {
  int its = argc > 0 ? atoi(argv[0]) : 30, it, only = argc > 1 ? atoi(argv[1]) : -1; ringf = strdup(path("ra")); ring2 = strdup(path("rb")); ring3 = strdup(path("rc")); use_snap = 0; guard = 0; M = xm(sizeof(*M) * 4000); ML = xm(sizeof(*ML) * 4000);
  for (it = 0; it < its; it++) switch (only >= 0 ? only : (int)R(9)) { case 0: case 5: case 6: t_hex(); break; case 1: case 7: t_read(); break; case 2: t_tee(); break; case 3: t_pub(); break; case 4: t_sub(); break; case 8: t_stop(); break; case 9: t_create(); break; case 10: t_write(); break; case 11: t_status(); break; }
  return 0;
}
