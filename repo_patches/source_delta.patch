From 3d38e7161e82a123de859bf58c7419b83bce6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 01/17] fix: refuse a batch that contains an empty message

A zero-length element after the first passed the argument check and then
tripped assert(bsz > 0) with the ring half written and locked (or was
buffered, to abort later at the flush).
---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index fe081c0..93d8182 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -886,8 +886,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   mv = (struct msg*)(r->d + r->n + r->pad_len);
 
   for(i=0; i < niov; i++) {
+    if (iov[i].iov_len == 0) goto done; /* no empty messages */
     len += iov[i].iov_len;
-    if (len == 0) goto done;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
     if (niov > s->mm) goto done;
-- 
2.43.0


From f6757316a2f525ffb6e036944581bb6857f02b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 02/17] fix: a failed wakeup no longer reports a stored write
 as failed

bw_wake ran after the batch had been appended, so when it failed shr_writev
returned -1 although the messages were in the ring (and did not count them).
Wake readers before the ring is changed; they proceed once the lock is
released.
---
 src/shr.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index 93d8182..2e6b45e 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -929,10 +929,8 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if ((r->n - r->u >= len) && 
         (r->mm - r->m >= niov)) break;
 
-    if (r->gflags & SHR_DROP) {
-      drop_unread(s, len, niov);
-      break;
-    }
+    /* in drop mode, space can be made */
+    if (r->gflags & SHR_DROP) break;
 
     if (s->flags & SHR_NONBLOCK) {
       rc = 0;
@@ -945,6 +943,15 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
     if (sc) return sc;
   }
 
+  /* wake readers. they proceed when we release the lock.
+   * this precedes any change to the ring so that if it
+   * fails the write had no effect */
+  sc = bw_wake(s->w2r);
+  if (sc) goto done;
+
+  if ((r->n - r->u < len) || (r->mm - r->m < niov))
+    drop_unread(s, len, niov);
+
   /* sufficient free space has been made available. */
   assert(r->n - r->u >= len);
   assert(r->m + niov <= r->mm);
@@ -1001,8 +1008,6 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
   r->mp += niov;
   r->m += niov;
 
-  sc = bw_wake(s->w2r);
-  if (sc) goto done;
   r->stat.bw += len;
   r->stat.mw += niov;
   if (shr_sync(s) < 0) goto done;
-- 
2.43.0


From 12304ef3d639fa85c1eedb8c36af16048b282683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 03/17] fix: shr_appdata copies only the application data to
 the caller

---
 src/shr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shr.c b/src/shr.c
index 2e6b45e..d530b48 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -1065,7 +1065,7 @@ int shr_appdata(shr *s, void **get, void *set, size_t *sz) {
 
   if ((get != NULL) && (*get != NULL) && (set == NULL)) {
     if (*sz < r->app_len) goto done;
-    memcpy(*get, ad, *sz);
+    memcpy(*get, ad, r->app_len);
     *sz = r->app_len;
   }
 
-- 
2.43.0


From adbc80dd7320835b1b837813948335ba82e0dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 04/17] fix: refuse to open a ring for both reading and writing

---
 lib/bw.c  | 2 +-
 src/shr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bw.c b/lib/bw.c
index bb21a13..0a96873 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -345,7 +345,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   va_list ap;
   va_start(ap, h);
 
-  if (((flags & BW_WAKE) ^ (flags & BW_WAIT)) == 0) {
+  if (((flags & BW_WAKE) == 0) == ((flags & BW_WAIT) == 0)) {
     bw_log("bw_open: invalid mode\n");
     goto done;
   }
diff --git a/src/shr.c b/src/shr.c
index d530b48..0817950 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -475,7 +475,7 @@ static int open_blockwake(struct shr *s, int flags) {
 
 static int validate_flags(int flags) {
 
-  if (((flags & SHR_RDONLY) ^ (flags & SHR_WRONLY)) == 0)
+  if (((flags & SHR_RDONLY) == 0) == ((flags & SHR_WRONLY) == 0))
     return -1; 
 
   if (flags & (SHR_OPEN_FENCE-1))
-- 
2.43.0


From 6a0f2194a8ad5bdc842a8a399ce2de4478bdd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 05/17] fix: shr_init refuses a ring whose size is not
 representable

---
 src/shr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 0817950..3806227 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -232,6 +232,16 @@ int shr_init(char *file, size_t data_sz, unsigned flags, ...) {
     rc = 0;
     goto done;
   } 
+
+  /* the total size has to be representable */
+  if ((max_msgs > SSIZE_MAX / sizeof(struct msg)) ||
+      (data_sz  > SSIZE_MAX - mv_bytes) ||
+      (appsize  > SSIZE_MAX - mv_bytes - data_sz) ||
+      (sizeof(shr_ctrl) + sizeof(void*) >
+                  SSIZE_MAX - mv_bytes - data_sz - appsize)) {
+    shr_log("shr_init: ring too large\n");
+    goto done;
+  }
   
   sc = exists ? unlink(file) : 0;
   if (sc < 0) {
-- 
2.43.0


From 74175c697ed09ef7d778fea2ded651164775400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 06/17] fix: a failed shr_open releases its wait handles and
 write buffer

---
 src/shr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/shr.c b/src/shr.c
index 3806227..cd1fa18 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -622,6 +622,12 @@ struct shr *shr_open(const char *file, unsigned flags, ...) {
   rc = 0;
 
  done:
+  if (s && rc) {
+    if (s->w2r) bw_close(s->w2r);
+    if (s->r2w) bw_close(s->r2w);
+    if (s->c.buf) free(s->c.buf);
+    if (s->c.iov) free(s->c.iov);
+  }
   if (s && (s->ring_fd != -1)) unlock(s->ring_fd);
   if (s && rc) {
     if (s->ring_fd != -1) close(s->ring_fd);
-- 
2.43.0


From f3b54d50f27154035654e8108c1b74162c0370f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 07/17] fix: close the fd directory when reading it fails

---
 lib/ux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ux.c b/lib/ux.c
index b55e902..bcd8200 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -117,10 +117,10 @@ static int get_socket_inodes(pid_t pid, size_t *inodes,
     (*n_inodes)++;
   }
 
-  closedir(d);
   rc = 0;
 
  done:
+  if (d) closedir(d);
   return rc;
 }
 
-- 
2.43.0


From aa2a5513b49ed987fbc44059304ca571a644bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 08/17] fix: an unnamed socket in /proc/net/unix no longer
 stops the search

---
 lib/ux.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index bcd8200..0431574 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -271,10 +271,9 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
 
     /* name is after inode */
     name = get_col(8, &len, line, sz-(line-buf));
-    if (name == NULL) goto done;
 
-    /* does name match? */
-    if ((len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    /* does name match? an unnamed socket has no name column */
+    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -287,7 +286,7 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     }
 
     /* advance to next line */
-    b = name+len;
+    b = name ? (name+len) : inode;
     while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
-- 
2.43.0


From 91d93d79312044a648246004e9acb452d13a81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 09/17] fix: a failed bw_open closes the sockets it opened

---
 lib/bw.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bw.c b/lib/bw.c
index 0a96873..71aa92d 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -425,6 +425,9 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
     if (w->listenfd != -1) close(w->listenfd);
     if (w->selffd != -1) close(w->selffd);
     if (w->epollfd != -1) close(w->epollfd);
+    for(n=0; n < BW_WAITMAX; n++) {
+      if (w->fd[n] != -1) close(w->fd[n]);
+    }
     free(w);
     w = NULL;
   }
-- 
2.43.0


From 2b93d35fa95336ef96362f5693b97f1f16b170ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 10/17] fix: the ring size check in validate_ring cannot
 overflow

---
 src/shr.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/shr.c b/src/shr.c
index cd1fa18..1cd5607 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -396,15 +396,18 @@ size_t shr_farm_stat(shr *s, int reset) {
 static int validate_ring(struct shr *s) {
   int rc = -1;
   shr_ctrl *r = s->r;
-  ssize_t sz, exp_sz;
+  size_t sz;
 
   if (s->s.st_size < (off_t)MIN_RING_SZ)       { rc = -2; goto done; }
   if (memcmp(s->r->magic,magic,sizeof(magic))) { rc = -3; goto done; }
 
-  exp_sz = sizeof(shr_ctrl) + r->n + r->pad_len + r->mv_len + r->app_len;
-  sz = s->s.st_size;
+  /* undersize (see note). the sum of the parts may overflow */
+  sz = s->s.st_size - sizeof(shr_ctrl);
+  if (r->n       > sz) {rc = -4; goto done; } else sz -= r->n;
+  if (r->pad_len > sz) {rc = -4; goto done; } else sz -= r->pad_len;
+  if (r->mv_len  > sz) {rc = -4; goto done; } else sz -= r->mv_len;
+  if (r->app_len > sz) {rc = -4; goto done; }
 
-  if (sz <  exp_sz) {rc = -4; goto done; } /* undersize (see note) */
   if (r->u >  r->n) {rc = -5; goto done; } /* used > size */
   if (r->i >= r->n) {rc = -6; goto done; } /* input position >= size */
   if (r->r >= r->mm){rc = -7; goto done; } /* output slot# >= #slots */
-- 
2.43.0


From 444b4e4ad87b79515dc2cfb8d7159cacf7b9e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 11/17] fix: shr-tool sub refuses a frame that its buffer
 cannot hold

---
 util/shr-tool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 3264aa1..a08bd45 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -40,6 +40,7 @@ struct iovec iov_bss[NUMIOV];
 
 /* subscriber safeguard */
 #define MAX_FRAME (1024*1024)
+#define MIN(a,b) (((a) < (b)) ? (a) : (b))
 
 struct {
   char *prog;
@@ -459,7 +460,7 @@ int decode_frames(void) {
   while(1) {
     if (c + sizeof(uint32_t) > eob) break;
     memcpy(&blen, c, sizeof(uint32_t));
-    if (blen > MAX_FRAME) {
+    if (blen > MIN(MAX_FRAME, BUFLEN - sizeof(uint32_t))) {
       fprintf(stderr,"discarding overlong frame\n");
       goto done;
     }
-- 
2.43.0


From b1b530fcc4bbb58f85ec443b69a05ab59b53d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 12/17] fix: shr-tool read resumes a partial write where it
 stopped

---
 util/shr-tool.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index a08bd45..bffa387 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -655,9 +655,9 @@ int handle_signal(void) {
  */
 int handle_io(void) {
   int rc = -1, sc, fl;
-  ssize_t nr, np;
+  ssize_t nr, np, nw;
   uint32_t len32;
-  size_t len, nw;
+  size_t len;
   char *out;
 
   nr = shr_read(cfg.shr, cfg.buf, BUFLEN);
@@ -685,8 +685,7 @@ int handle_io(void) {
       /* data to print */
       assert(nr > 0);
       if (cfg.mode == mode_read_hex) hexdump(cfg.buf,nr);
-      else do {
-        out = cfg.buf;
+      else for (out = cfg.buf; nr > 0; ) {
         nw = write(STDOUT_FILENO, out, nr);
         if (nw < 0) {
           fprintf(stderr, "write: %s\n", strerror(errno));
@@ -694,7 +693,7 @@ int handle_io(void) {
         }
         nr -= nw;
         out += nw;
-      } while (nr > 0);
+      }
       fflush(stdout);
       cfg.nread++;
       if ((cfg.max_msgs > 0) && (cfg.nread >= cfg.max_msgs)) {
-- 
2.43.0


From 476e93c72ed6e033879fcb64e8addb77ad378379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 13/17] fix: shr-tool pub completes a partially written length
 prefix

---
 util/shr-tool.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index bffa387..09a97a1 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -715,13 +715,19 @@ int handle_io(void) {
           goto done;
         }
         len32 = (uint32_t)nr;
-        np = write(cfg.pub_fd, &len32, sizeof(len32));
-        if (np < 0) {
-          fprintf(stderr, "write: %s\n", strerror(errno));
-          if (close_client() < 0) goto done;
-          break;
-        }
-        assert(np == sizeof(len32));
+        out = (char*)&len32;
+        len = sizeof(len32);
+        do {
+          np = write(cfg.pub_fd, out, len);
+          if (np < 0) {
+            fprintf(stderr, "write: %s\n", strerror(errno));
+            if (close_client() < 0) goto done;
+            break;
+          }
+          len -= np;
+          out += np;
+        } while (len > 0);
+        if (len > 0) break; /* client closed */
       }
 
       /* write frame proper */
-- 
2.43.0


From 1c549a99995e302918af738fbe3c317cc655288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 14/17] fix: shr-tool writehex refuses characters that are not
 hex digits

---
 util/shr-tool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/shr-tool.c b/util/shr-tool.c
index 09a97a1..1051938 100644
--- a/util/shr-tool.c
+++ b/util/shr-tool.c
@@ -18,6 +18,7 @@
 #include <netdb.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <ctype.h>
 #include <time.h>
 #include "shr.h"
 
@@ -198,6 +199,8 @@ int unhex(char *h) {
   if (len == 0) goto done;
   if (len &  1) goto done; /* odd number of digits */
   for(i=0; i < len; i += 2) {
+    if (!isxdigit((unsigned char)h[i]) ||
+        !isxdigit((unsigned char)h[i+1])) goto done;
     if (sscanf( &h[i], "%2x", &u) < 1) goto done;
     assert(u <= 255);
     b = (unsigned char)u;
-- 
2.43.0


From 5c4b4cad1af5dbef327632f1dfbf197dfb8c1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 15/17] fix: connect a new waker whatever the registry sequence
 number

bw_open used -1 as 'not synchronised', but the registry's own sequence
number takes that value too; a waker opened at that moment skipped the
initial bw_sync and woke nobody until the registry changed again.
---
 lib/bw.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bw.c b/lib/bw.c
index 71aa92d..52001bd 100644
--- a/lib/bw.c
+++ b/lib/bw.c
@@ -371,6 +371,7 @@ bw_t * bw_open(int flags, bw_handle *h, ...) {
   if (sc < 0) goto done;
 
   if (flags & BW_WAKE) {
+    w->seqno = ~h->seqno; /* differ, so the first sync connects */
     sc = bw_sync(w);
     if (sc < 0) goto done;
     w->iov.iov_base = &w->zero;
-- 
2.43.0


From 520ce11ae2bae6c55dd2673428a8b9fab2074014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 16/17] fix: compare the whole name of a socket, spaces
 included

/proc/net/unix prints a socket's name raw after the inode. The name was
cut at its first space, so a process whose socket is named "@a b" was
taken to have one named "@a".
---
 lib/ux.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/ux.c b/lib/ux.c
index 0431574..5e0a086 100644
--- a/lib/ux.c
+++ b/lib/ux.c
@@ -269,11 +269,14 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
       b++;
     }
 
-    /* name is after inode */
-    name = get_col(8, &len, line, sz-(line-buf));
+    /* name is the rest of the line after one space, and may contain spaces */
+    name = b;
+    while ((b < buf+sz) && (*b != '\n')) b++;
+    len = b - name;
+    if (len) { name++; len--; }
 
-    /* does name match? an unnamed socket has no name column */
-    if (name && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
+    /* does name match? an unnamed socket has no name */
+    if (len && (len == namelen) && (memcmp(name, sockname, len) == 0)) {
       
       /* name matches. is inode in list? */
       for(n=0; n < n_inodes; n++) {
@@ -286,8 +289,6 @@ static int has_socket_name(size_t *inodes, size_t n_inodes, char *sockname) {
     }
 
     /* advance to next line */
-    b = name ? (name+len) : inode;
-    while ((b < buf+sz) && (*b != '\n')) b++;
     line = b+1;
   }
 
-- 
2.43.0


From c4b4fb8ad2ca74a97d25deadc5f4d82a76720d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:18 +0000
Subject: [PATCH 17/17] fix: shr_writev: refuse an element larger than the ring
 before adding its length

The sum of the lengths could wrap between two elements of a batch (e.g. 5 and
SIZE_MAX-2), so that the check against the ring size passed and the copy ran
out of bounds.
---
 src/shr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shr.c b/src/shr.c
index 1cd5607..96ffb1a 100644
--- a/src/shr.c
+++ b/src/shr.c
@@ -906,6 +906,7 @@ ssize_t shr_writev(shr *s, struct iovec *iov, size_t niov) {
 
   for(i=0; i < niov; i++) {
     if (iov[i].iov_len == 0) goto done; /* no empty messages */
+    if (iov[i].iov_len > s->n) goto done; /* nor can the sum wrap */
     len += iov[i].iov_len;
     if (len > SSIZE_MAX) goto done;
     if (len > s->n) goto done;
-- 
2.43.0

