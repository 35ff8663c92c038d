From c4d0d16b4465d3885ab4b13900a28a14c94a8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 01/53] fix: write the database to a temporary file and rename
 it into place

---
 writer.c | 71 +++++++++++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/writer.c b/writer.c
index 4b37274..0f449c4 100644
--- a/writer.c
+++ b/writer.c
@@ -31,6 +31,7 @@
 #include <unistd.h>
 #include <assert.h>
 #include <sys/mman.h>
+#include <errno.h>
 
 struct write_map_toktable {/*{{{*/
 
@@ -86,47 +87,34 @@ struct write_map {/*{{{*/
 };
 /*}}}*/
 
+static void give_up(const char *what, char *filename)/*{{{*/
+{
+  report_error(what, filename);
+  unlink(filename);
+  unlock_and_exit(2);
+}
+/*}}}*/
 static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **out_data)/*{{{*/
 {
   int fd;
   char *data;
-  struct stat sb;
 
-  fd = open(filename, O_RDWR | O_CREAT, 0600);
+  fd = open(filename, O_RDWR | O_CREAT | O_TRUNC, 0600);
   if (fd < 0) {
     report_error("open", filename);
     unlock_and_exit(2);
   }
 
-  if (fstat(fd, &sb) < 0) {
-    report_error("stat", filename);
-    unlock_and_exit(2);
-  }
-
-  if (sb.st_size < len) {
-    /* Extend */
-    if (lseek(fd, len - 1, SEEK_SET) < 0) {
-      report_error("lseek", filename);
-      unlock_and_exit(2);
-    }
-    if (write(fd, "\000", 1) < 0) {
-      report_error("write", filename);
-      unlock_and_exit(2);
-    }
-  } else if (sb.st_size > len) {
-    /* Truncate */
-    if (ftruncate(fd, len) < 0) {
-      report_error("ftruncate", filename);
-      unlock_and_exit(2);
-    }
-  } else {
-    /* Exactly the right length already - nothing to do! */
+  /* Reserve the space now : running out of it while storing through the
+   * mapping would kill us with SIGBUS. */
+  errno = posix_fallocate(fd, 0, len);
+  if (errno) {
+    give_up("posix_fallocate", filename);
   }
 
   data = mmap(0, len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
   if (data == MAP_FAILED) {
-    report_error("writer:mmap", filename);
-    unlock_and_exit(2);
+    give_up("writer:mmap", filename);
   }
 
   *out_data = data;
@@ -580,6 +568,8 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   char *data, *cdata;
   unsigned int *uidata;
   struct write_map map;
+  struct stat sb;
+  char *target, *tmpname;
 
   if (do_integrity_checks) {
     check_database_integrity(db);
@@ -594,7 +584,15 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
 
   file_len = char_length(db) + (4 * map.beyond_last_ui_offset);
 
-  create_rw_mapping(filename, file_len, &fd, &data);
+  /* Build the new database beside the existing one and put it in place only
+   * when it is complete and on disc, so that the old one survives if we fail or
+   * get interrupted. */
+  target = realpath(filename, NULL);
+  if (!target) target = new_string(filename);
+  tmpname = new_array(char, strlen(target) + 5);
+  sprintf(tmpname, "%s.tmp", target);
+
+  create_rw_mapping(tmpname, file_len, &fd, &data);
   uidata = (unsigned int *) data; /* align(int) < align(page)! */
   cdata = data + (4 * map.beyond_last_ui_offset);
 
@@ -614,16 +612,21 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   /* Write data */
   /* Unmap / close file */
   if (munmap(data, file_len) < 0) {
-    report_error("munmap", filename);
-    unlock_and_exit(2);
+    give_up("munmap", tmpname);
+  }
+  if (stat(target, &sb) == 0) {
+    fchmod(fd, sb.st_mode & 07777);
   }
   if (fsync(fd) < 0) {
-    report_error("fsync", filename);
-    unlock_and_exit(2);
+    give_up("fsync", tmpname);
   }
   if (close(fd) < 0) {
-    report_error("close", filename);
-    unlock_and_exit(2);
+    give_up("close", tmpname);
+  }
+  if (rename(tmpname, target) < 0) {
+    give_up("rename", tmpname);
   }
+  free(tmpname);
+  free(target);
 }
   /*}}}*/
-- 
2.43.0


From 823b879ca8e21ba1d9c3804e66db4d5823b9ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:18 +0000
Subject: [PATCH 02/53] fix: check for errors when decompressing an mbox to its
 temporary file

---
 rfc822.c | 34 +++++++++++++++++-----------------
 xzfile.c |  5 ++++-
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..afdd277 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1325,7 +1325,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 #if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
   if(cb == MAP_DECOMPRESS_IF_APPLICABLE && is_compressed(filename)) {
     unsigned char *p;
-    size_t cur_read;
+    int cur_read;
     struct ro_mapping *ro;
     FILE *tmpf;
 
@@ -1351,28 +1351,28 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       goto comp_error;
     }
     p = new_array(unsigned char, SIZE_STEP);
-    cur_read = xx_zread(zf, p, SIZE_STEP);
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
-      fprintf(stderr, "failed writing to temp file for %s\n", filename);
-      goto comp_error;
-    }
-    *len = cur_read;
-    if (cur_read >= SIZE_STEP) {
-      while(1) {
-        int ret;
-        cur_read = xx_zread(zf, p, SIZE_STEP);
-        if (cur_read <= 0)
-          break;
+    *len = 0;
+    do {
+      cur_read = xx_zread(zf, p, SIZE_STEP);
+      if (cur_read > 0) {
         *len += cur_read;
-        ret = fwrite(p, cur_read, 1, tmpf);
-        if (ret != 1) {
+        if (fwrite(p, cur_read, 1, tmpf) != 1) {
           fprintf(stderr, "failed writing to temp file for %s\n", filename);
-          goto comp_error;
+          cur_read = -1;
         }
+      } else if (cur_read < 0) {
+        fprintf(stderr, "failed decompressing %s\n", filename);
       }
-    }
+    } while (cur_read >= SIZE_STEP);
     free(p);
     xx_zclose(zf);
+    if (cur_read < 0)
+      goto comp_error;
+    /* The file gets mapped below, so everything has to be in it by then. */
+    if (fflush(tmpf) != 0) {
+      fprintf(stderr, "failed writing to temp file for %s\n", filename);
+      goto comp_error;
+    }
     /* Urgh.  So.  The existence/use of (global) data_alloc_type kind of
      * prevents this function from being re-entrant.  However, by
      * setting data_alloc_type here, *after* xx_zopen/zread/zclose, the
diff --git a/xzfile.c b/xzfile.c
index c64b823..aa99557 100644
--- a/xzfile.c
+++ b/xzfile.c
@@ -73,6 +73,7 @@ int
 xzread(xzFile *xzf, void *buf, int len)
 {
   lzma_stream *lzs;
+  lzma_ret     ret;
 
   if(xzf == NULL || buf == NULL || len <= 0)
     return -1;
@@ -80,7 +81,9 @@ xzread(xzFile *xzf, void *buf, int len)
   lzs = &xzf->m_lzma;
   lzs->next_out = buf;
   lzs->avail_out = len;
-  if(lzma_code(lzs, LZMA_RUN) != LZMA_OK) /* Argh! */
+  ret = lzma_code(lzs, LZMA_RUN);
+  /* LZMA_BUF_ERROR is how the end of the input shows up */
+  if(ret != LZMA_OK && ret != LZMA_STREAM_END && ret != LZMA_BUF_ERROR) /* Argh! */
     return -1;
 
   return lzs->next_out - (uint8_t *) buf;
-- 
2.43.0


From 8e500c1c31be66ccd1f7ca5472d456f349ff7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:18 +0000
Subject: [PATCH 03/53] fix: do not start a new database because the existing
 one cannot be examined

---
 mairix.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..f7bce05 100644
--- a/mairix.c
+++ b/mairix.c
@@ -34,6 +34,7 @@
 #include <ctype.h>
 #include <locale.h>
 #include <signal.h>
+#include <errno.h>
 #include "imapinterface.h"
 
 #ifdef TEST_OOM
@@ -822,11 +823,15 @@ int main (int argc, char **argv)/*{{{*/
       if (verbose) printf("Reading existing database...\n");
       db = new_database_from_file(database_path, do_integrity_checks);
       if (verbose) printf("Loaded %d existing messages\n", db->n_msgs);
-    } else if (ftype == M_NONE) {
+    } else if (ftype == M_NONE && errno == ENOENT) {
       if (verbose) printf("Starting new database\n");
       db = new_database( forced_hash_key );
     } else {
-      fprintf(stderr, "database path %s is not a file; you can't put the database there\n", database_path);
+      if (ftype == M_NONE) {
+        report_error("stat", database_path);
+      } else {
+        fprintf(stderr, "database path %s is not a file; you can't put the database there\n", database_path);
+      }
       unlock_and_exit(2);
     }
 
-- 
2.43.0


From 6cb3258debc740ed15b4177792172a48439b2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:41 +0000
Subject: [PATCH 04/53] fix: never work without the database lock, nor remove
 that of another process

---
 dotlock.c | 56 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..3f8fbc4 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,8 +25,12 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <errno.h>
+#include <fcntl.h>
+#include <signal.h>
 
 static char *lock_file_name = NULL;
+static int lock_is_ours = 0;
 
 /* This locking code was originally written for tdl */
 
@@ -39,6 +43,15 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   char *tname;
   struct stat sb;
   FILE *out;
+  sigset_t sigs, old_sigs;
+
+  /* Being interrupted half way through must neither leave our temporary file
+   * behind nor remove the lock of the process that has got it. */
+  sigemptyset(&sigs);
+  sigaddset(&sigs, SIGHUP);
+  sigaddset(&sigs, SIGINT);
+  sigaddset(&sigs, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &sigs, &old_sigs);
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -55,7 +68,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   sprintf(lock_file_name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(lock_file_name);
     forced_unlock = 0;
   }
 
@@ -73,6 +86,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fclose(out);
 
   if (link(tname, lock_file_name) < 0) {
+    int link_errno = errno;
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -81,13 +95,25 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     } else {
       if (sb.st_nlink != 2) {
         FILE *in;
-        in = fopen(lock_file_name, "r");
-        if (in) {
-          char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
-          fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
+        int fd = -1;
+        if (link_errno == EPERM) {
+          /* The filesystem doesn't do hard links */
+          fd = open(lock_file_name, O_WRONLY | O_CREAT | O_EXCL, 0600);
+        }
+        if (fd >= 0) {
+          close(fd);
+        } else {
           unlink(tname);
+          in = fopen(lock_file_name, "r");
+          if (in) {
+            char line[2048];
+            if (!fgets(line, sizeof(line), in)) line[0] = 0;
+            line[strcspn(line, "\n")] = 0; /* strip trailing newline */
+            fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
+          } else {
+            errno = link_errno;
+            report_error("Could not create lock file", lock_file_name);
+          }
           exit(1);
         }
       } else {
@@ -97,14 +123,28 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  lock_is_ours = 1;
   unlink(tname);
   free(tname);
+  sigprocmask(SIG_SETMASK, &old_sigs, NULL);
   return;
 }
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  sigset_t sigs, old_sigs;
+
+  /* The signal handler comes here too. */
+  sigemptyset(&sigs);
+  sigaddset(&sigs, SIGHUP);
+  sigaddset(&sigs, SIGINT);
+  sigaddset(&sigs, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &sigs, &old_sigs);
+  if (lock_is_ours) {
+    unlink(lock_file_name);
+    lock_is_ours = 0;
+  }
+  sigprocmask(SIG_SETMASK, &old_sigs, NULL);
   return;
 }
 /*}}}*/
-- 
2.43.0


From e8199086bbce0765848090a36aa2ba183249b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:41 +0000
Subject: [PATCH 05/53] fix: release the lock when running out of memory

---
 mairix.c | 2 +-
 rfc822.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mairix.c b/mairix.c
index f7bce05..f245d7f 100644
--- a/mairix.c
+++ b/mairix.c
@@ -411,7 +411,7 @@ void out_of_mem(char *file, int line, size_t size)/*{{{*/
   write(2, ", ", 2);
   emit_int(size);
   write(2, msg2, sizeof(msg2)-1);
-  exit(2);
+  unlock_and_exit(2);
 }
 /*}}}*/
 void report_error(const char *str, const char *filename)/*{{{*/
diff --git a/rfc822.c b/rfc822.c
index afdd277..97f2816 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1445,7 +1445,7 @@ void free_ro_mapping(unsigned char *data, int len)/*{{{*/
     r = munmap(data, len);
     if(r < 0) {
       fprintf(stderr, "munmap() errord\n");
-      exit(1);
+      unlock_and_exit(1);
     }
   }
 }
-- 
2.43.0


From d2068ddc3c3928172b67b5a7e7f3530aeaa2ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:27 +0000
Subject: [PATCH 06/53] fix: release the lock and fail when the IMAP code runs
 out of memory

---
 imap.c | 75 +++++++++++-----------------------------------------------
 1 file changed, 14 insertions(+), 61 deletions(-)

diff --git a/imap.c b/imap.c
index 6e3105e..c18bac0 100644
--- a/imap.c
+++ b/imap.c
@@ -18,6 +18,7 @@
 #if defined(__FreeBSD__)
 #define __BSD_VISIBLE 1
 #endif
+#include "mairix.h"
 #include "imap.h"
 
 struct imap_ll {
@@ -85,12 +86,7 @@ int s;
 		return NULL;
 	}
 
-	ll = malloc(sizeof(*ll));
-	if (!ll) {
-		fprintf(stderr, "malloc failed\n");
-		close(s);
-		return NULL;
-	}
+	ll = Malloc(sizeof(*ll));
 	memset(ll, 0, sizeof(*ll));
 	ll->w_socket = ll->r_socket = s;
 	ll->current_tag_number = -1;
@@ -107,7 +103,6 @@ imap_ll_pipe_connect(const char *cmd)
 {
 struct imap_ll *ll;
 pid_t child;
-int status;
 int r[2], w[2];
 
 	if (pipe(&(r[0])) < 0) {
@@ -141,15 +136,7 @@ int r[2], w[2];
 	close(r[1]);
 	close(w[0]);
 
-	ll = malloc(sizeof(*ll));
-	if (!ll) {
-		fprintf(stderr, "malloc failed\n");
-		close(r[0]);
-		close(w[1]);
-		kill(child, SIGTERM);
-		waitpid(child, &status, 0);
-		return NULL;
-	}
+	ll = Malloc(sizeof(*ll));
 	memset(ll, 0, sizeof(*ll));
 	ll->w_socket = w[1];
 	ll->r_socket = r[0];
@@ -174,12 +161,7 @@ mktoken(int type, char *leaf, size_t len)
 {
 struct imap_ll_tokenlist *tl;
 
-	tl = malloc(sizeof(*tl));
-	if (!tl) {
-		fprintf(stderr, "imap_ll mktoken: malloc failed (fatal)\n");
-		sleep(1);
-		_exit(0);
-	}
+	tl = Malloc(sizeof(*tl));
 	tl->type = type;
 	tl->first = tl->last = NULL;
 	tl->parent = NULL;
@@ -221,12 +203,7 @@ struct imap_ll_tokenlist *t2, *next;
 }
 
 #define MKPRETOKEN(alloc_size) { \
-	curtoken = malloc((alloc_size) + 1); \
-	if (!curtoken) { \
-		fprintf(stderr, "imap_ll_waitline(%d): malloc failed (fatal)\n", (alloc_size)); \
-		sleep(1); \
-		_exit(0); \
-	} \
+	curtoken = Malloc((alloc_size) + 1); \
 	curtoken_now = 0; \
 	curtoken_max = (alloc_size); \
 }
@@ -353,12 +330,7 @@ struct pollfd pfd;
 token_extend:
 						if (curtoken_now >= curtoken_max) {
 							curtoken_max *= 2;
-							curtoken = realloc(curtoken, curtoken_max + 1);
-							if (!curtoken) {
-								fprintf(stderr, "imap_ll_waitline(size=%d): malloc failed (fatal)\n", (int)curtoken_max);
-								sleep(1);
-								_exit(0);
-							}
+							curtoken = Realloc(curtoken, curtoken_max + 1);
 						}
 						curtoken[curtoken_now++] = cur;
 					}
@@ -674,11 +646,7 @@ char *cmds, *cmdend;
 struct imap_ll_tokenlist *result, *cur;
 
 	len = string_len(cmd);
-	cmds = malloc(len+1);
-	if (!cmds) {
-		fprintf(stderr, "imap_ll_command: malloc failed\n");
-		return NULL;
-	}
+	cmds = Malloc(len+1);
 	cmdend = format_cmd(cmds, ll, cmd);
 	*(cmdend++) = 13;
 	*(cmdend++) = 10;
@@ -761,20 +729,9 @@ enum imap_ll_tltype next_type = maintype;
 				s = va_arg(ap, char *);
 				slen = va_arg(ap, size_t);
 				if (slen == -1) slen = strlen(s);
-				l = malloc(sizeof(*l));
-				if (!l) {
-nomem:
-					fprintf(stderr, "imap_ll_build: malloc failure\n");
-					imap_ll_freeline(top);
-					va_end(ap);
-					return NULL;
-				}
+				l = Malloc(sizeof(*l));
 				l->type = next_type;
-				l->leaf = malloc(slen+1);
-				if (!(l->leaf)) {
-					free(l);
-					goto nomem;
-				}
+				l->leaf = Malloc(slen+1);
 				memcpy(l->leaf, s, slen);
 				l->leaf[slen] = 0;
 				l->leaflen = slen;
@@ -784,15 +741,13 @@ nomem:
 			case TLTYPE_UNTAGGED:
 			case TLTYPE_LIST:
 			case TLTYPE_SQLIST:
-				l = malloc(sizeof(*l));
-				if (!l) goto nomem;
+				l = Malloc(sizeof(*l));
 				l->type = next_type;
 				l->leaf = NULL;
 				descend = 1;
 				break;
 			case TLTYPE_CONTINUATION:
-				l = malloc(sizeof(*l));
-				if (!l) goto nomem;
+				l = Malloc(sizeof(*l));
 				l->type = TLTYPE_CONTINUATION;
 				l->leaf = NULL;
 				descend = 0;
@@ -1309,12 +1264,10 @@ long exists = 0;
 
 	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
-	ll->selected_folder = malloc(foldername_len);
-	if (ll->selected_folder) {
-		memcpy(ll->selected_folder, foldername, foldername_len);
-	}
+	ll->selected_folder = Malloc(foldername_len);
+	memcpy(ll->selected_folder, foldername, foldername_len);
 	ll->selected_folder_namelen = foldername_len;
-	ll->selected_folder_uidvalidity = strdup(uidvalidity);
+	ll->selected_folder_uidvalidity = new_string(uidvalidity);
 	ll->selected_folder_writable = need_write;
 	ll->selected_folder_exists = exists;
 	if (exists_p) *exists_p = exists;
-- 
2.43.0


From 991537df4ce4dc842d7854872f02567c643a07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 07/53] fix: renumber the threads after purging dead messages

---
 db.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.c b/db.c
index 3b37ace..cd267e5 100644
--- a/db.c
+++ b/db.c
@@ -1313,6 +1313,9 @@ int cull_dead_messages(struct database *db, int do_integrity_checks)/*{{{*/
   /* .. and cull dead mboxen */
   cull_dead_mboxen(db);
 
+  /* The thread numbers have to stay below the number of messages. */
+  if (any_culled) find_threading(db);
+
   return any_culled;
 }
 /*}}}*/
-- 
2.43.0


From 04489bf7c874da9e6327068645d247d276e04608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:19 +0000
Subject: [PATCH 08/53] fix: do not show the thread of a message that no longer
 exists

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 27b02b8..1d02f52 100644
--- a/search.c
+++ b/search.c
@@ -1057,7 +1057,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From d750a49ade417044cc071f2af5d94418203d94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 09/53] fix: do not overwrite what is in the match folder
 already when augmenting it

Message numbers (MH) and database indices (maildir) recur in later searches.
The copy of a message from an mbox was then written through a link left by an
earlier search into a message of the indexed folders, and new matches were
dropped because their name was in use.
---
 search.c | 190 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 137 insertions(+), 53 deletions(-)

diff --git a/search.c b/search.c
index 1d02f52..e60135d 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
  * set of .h files (Solaris, FreeBSD so far).  Probably grossly oversized but
@@ -557,7 +558,7 @@ static void find_flag_matches_in_table(struct read_db *db, char *flag_expr, char
 }
 /*}}}*/
 
-static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
+static char *mk_maildir_path(int token, int attempt, char *output_dir, int is_in_new,
     int is_seen, int is_replied, int is_flagged)/*{{{*/
 {
   char *result;
@@ -568,7 +569,11 @@ static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
   result = new_array(char, len + 1 + sizeof(":2,FRS"));
   strcpy(result, output_dir);
   strcat(result, is_in_new ? "/new/" : "/cur/");
-  sprintf(uniq_buf, "123456789.%d.mairix", token);
+  if (attempt) {
+    sprintf(uniq_buf, "123456789.%d_%d.mairix", token, attempt);
+  } else {
+    sprintf(uniq_buf, "123456789.%d.mairix", token);
+  }
   strcat(result, uniq_buf);
   if (is_seen || is_replied || is_flagged) {
     strcat(result, ":2,");
@@ -611,14 +616,81 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
-static void create_symlink(char *link_target, char *new_link)/*{{{*/
+static int is_link_to(char *path, char *link_target)/*{{{*/
 {
-  if ((!do_hardlinks && symlink(link_target, new_link) < 0) || link(link_target, new_link)) {
+  struct stat sb, target_sb;
+
+  if (lstat(path, &sb) < 0) return 1; /* Can't tell */
+  if (S_ISLNK(sb.st_mode)) {
+    int len = strlen(link_target);
+    char *buf = new_array(char, len + 1);
+    int n = readlink(path, buf, len + 1);
+    int same = (n == len) && !memcmp(buf, link_target, len);
+    free(buf);
+    return same;
+  }
+  if (stat(link_target, &target_sb) < 0) return 0;
+  return (sb.st_dev == target_sb.st_dev) && (sb.st_ino == target_sb.st_ino);
+}
+/*}}}*/
+static int create_symlink(char *link_target, char *new_link)/*{{{*/
+{
+  /* Return 0 if the name is in use for a different message, which can happen
+   * when augmenting. */
+  if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
+    if (errno == EEXIST) {
+      return is_link_to(new_link, link_target);
+    }
     if (verbose) {
       perror("symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
   }
+  return 1;
+}
+/*}}}*/
+static int has_contents(const char *path, const char *head, const char *data, size_t len)/*{{{*/
+{
+  struct stat sb;
+  FILE *in;
+  size_t head_len = strlen(head);
+  size_t i;
+  int same = 1;
+
+  if (lstat(path, &sb) < 0) return 1; /* Can't tell */
+  if (!S_ISREG(sb.st_mode) || ((size_t) sb.st_size != head_len + len)) return 0;
+  in = fopen(path, "rb");
+  if (!in) return 0;
+  for (i=0; same && (i < head_len + len); i++) {
+    same = (getc(in) == (unsigned char) ((i < head_len) ? head[i] : data[i - head_len]));
+  }
+  fclose(in);
+  return same;
+}
+/*}}}*/
+static int create_file(const char *path, const char *head, const char *data, size_t len)/*{{{*/
+{
+  /* Return 0 if the name is in use for a different message.  That must not be
+   * overwritten, it may well be a link to one of the messages in the indexed
+   * folders. */
+  FILE *out;
+  int fd;
+
+  fd = open(path, O_WRONLY | O_CREAT | O_EXCL, 0666);
+  if (fd < 0) {
+    if (errno == EEXIST) {
+      return has_contents(path, head, data, len);
+    }
+    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+    return 1;
+  }
+  out = fdopen(fd, "wb");
+  if (out) {
+    fputs(head, out);
+    fwrite(data, 1, len, out);
+    fclose(out);
+  }
+  return 1;
 }
 /*}}}*/
 static void mbox_terminate(const unsigned char *data, int len, FILE *out)/*{{{*/
@@ -659,15 +731,24 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   return;
 }
 /*}}}*/
+struct write_to_file_arg {/*{{{*/
+  char *path;
+  int placed;
+};
+/*}}}*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
-  FILE *fp;
-  if (!(fp = fopen((char *)arg, "w"))) {
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
-    return;
-  }
-  fwrite(data, 1, len, fp);
-  fclose(fp);
+  struct write_to_file_arg *a = (struct write_to_file_arg *) arg;
+  a->placed = create_file(a->path, "", data, len);
+}
+/*}}}*/
+static int fetch_to_path(char *pseudopath, struct imap_ll *imapc, char *target_path)/*{{{*/
+{
+  struct write_to_file_arg arg;
+  arg.path = target_path;
+  arg.placed = 1;
+  imap_fetch_message_raw(pseudopath, imapc, write_to_file, &arg);
+  return arg.placed;
 }
 /*}}}*/
 
@@ -734,30 +815,29 @@ static void append_mboxmsg_to_mbox(struct read_db *db, int msg_index, FILE *out)
   }
 }
 /*}}}*/
-static void try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
+static int try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
 {
   unsigned char *data;
   int mbox_len, msg_len;
   int mbi;
-  FILE *out;
   unsigned char *start;
+  int placed = 1;
 
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
-    if (out) {
-      fprintf(out, "X-source-folder: %s\n",
-              db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
-      fclose(out);
-    }
+    static const char label[] = "X-source-folder: ";
+    char *mbox_path = db->data + db->mbox_paths_table[mbi];
+    char *head = new_array(char, sizeof(label) + strlen(mbox_path) + 1);
+    sprintf(head, "%s%s\n", label, mbox_path);
+    placed = create_file(target_path, head, (char *) start, msg_len?msg_len-1:0);
+    free(head);
   }
 
   if (data) {
     free_ro_mapping(data, mbox_len);
   }
-  return;
+  return placed;
 }
 /*}}}*/
 static struct msg_src *setup_mbox_msg_src(char *filename, off_t start, size_t len)/*{{{*/
@@ -806,6 +886,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   char *hit0, *hit1, *hit2, *hit3;
   int i;
   int ii;
+  int mh_number;
   int n_hits;
   int left_anchor;
   int imap_tried = 0;
@@ -1085,6 +1166,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       for (ii=0; ii<n_hits; ii++) {
         i = results[ii];
         int is_seen, is_replied, is_flagged;
+        int attempt = 0, placed;
         get_flags_from_file(db, i, &is_seen, &is_replied, &is_flagged);
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
@@ -1094,25 +1176,31 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               int is_in_new;
               message_path = db->data + db->path_offsets[i];
               is_in_new = looks_like_maildir_new_p(message_path);
-              target_path = mk_maildir_path(i, output_path, is_in_new, is_seen, is_replied, is_flagged);
-              create_symlink(message_path, target_path);
-              free(target_path);
+              do {
+                target_path = mk_maildir_path(i, attempt++, output_path, is_in_new, is_seen, is_replied, is_flagged);
+                placed = create_symlink(message_path, target_path);
+                free(target_path);
+              } while (!placed);
             }
             break;
           case DB_MSG_IMAP:
             {
               char *target_path;
-              target_path = mk_maildir_path(i, output_path, 0, is_seen, is_replied, is_flagged);
               GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
+              do {
+                target_path = mk_maildir_path(i, attempt++, output_path, 0, is_seen, is_replied, is_flagged);
+                placed = imapc ? fetch_to_path(db->data + db->path_offsets[i], imapc, target_path) : 1;
+                free(target_path);
+              } while (!placed);
             }
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_maildir_path(i, output_path, !is_seen, is_seen, is_replied, is_flagged);
-              try_copy_to_path(db, i, target_path);
-              free(target_path);
+              do {
+                char *target_path = mk_maildir_path(i, attempt++, output_path, !is_seen, is_seen, is_replied, is_flagged);
+                placed = try_copy_to_path(db, i, target_path);
+                free(target_path);
+              } while (!placed);
             }
             break;
         }
@@ -1120,32 +1208,28 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       break;
 /*}}}*/
     case FT_MH:/*{{{*/
+      mh_number = 0;
       for (ii=0; ii<n_hits; ii++) {
+        int placed;
         i = results[ii];
-        switch (rd_msg_type(db, i)) {
-          case DB_MSG_FILE:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
-              create_symlink(db->data + db->path_offsets[i], target_path);
-              free(target_path);
-            }
-            break;
-          case DB_MSG_IMAP:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
+        /* Some numbers will be in use when augmenting. */
+        do {
+          char *target_path = mk_mh_path(mh_number++, output_path);
+          placed = 1;
+          switch (rd_msg_type(db, i)) {
+            case DB_MSG_FILE:
+              placed = create_symlink(db->data + db->path_offsets[i], target_path);
+              break;
+            case DB_MSG_IMAP:
               GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
-            }
-            break;
-          case DB_MSG_MBOX:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
-              try_copy_to_path(db, i, target_path);
-              free(target_path);
-            }
-            break;
-        }
+              if (imapc) placed = fetch_to_path(db->data + db->path_offsets[i], imapc, target_path);
+              break;
+            case DB_MSG_MBOX:
+              placed = try_copy_to_path(db, i, target_path);
+              break;
+          }
+          free(target_path);
+        } while (!placed);
       }
       break;
 /*}}}*/
-- 
2.43.0


From 7796d0f8fffbeb1d779f71734ac5388c6d097ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:08 +0000
Subject: [PATCH 10/53] fix: release the lock when terminated or when nobody
 reads the output any more

---
 dotlock.c | 30 ++++++++++++++++++------------
 mairix.c  |  3 +++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index 3f8fbc4..49575e0 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -34,6 +34,20 @@ static int lock_is_ours = 0;
 
 /* This locking code was originally written for tdl */
 
+/* Hold back the signals that make us release the lock and exit. */
+static void block_signals(sigset_t *old_sigs)/*{{{*/
+{
+  sigset_t sigs;
+
+  sigemptyset(&sigs);
+  sigaddset(&sigs, SIGHUP);
+  sigaddset(&sigs, SIGINT);
+  sigaddset(&sigs, SIGQUIT);
+  sigaddset(&sigs, SIGTERM);
+  sigaddset(&sigs, SIGPIPE);
+  sigprocmask(SIG_BLOCK, &sigs, old_sigs);
+}
+/*}}}*/
 void lock_database(char *path, int forced_unlock)/*{{{*/
 {
   struct utsname uu;
@@ -43,15 +57,11 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   char *tname;
   struct stat sb;
   FILE *out;
-  sigset_t sigs, old_sigs;
+  sigset_t old_sigs;
 
   /* Being interrupted half way through must neither leave our temporary file
    * behind nor remove the lock of the process that has got it. */
-  sigemptyset(&sigs);
-  sigaddset(&sigs, SIGHUP);
-  sigaddset(&sigs, SIGINT);
-  sigaddset(&sigs, SIGQUIT);
-  sigprocmask(SIG_BLOCK, &sigs, &old_sigs);
+  block_signals(&old_sigs);
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -132,14 +142,10 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  sigset_t sigs, old_sigs;
+  sigset_t old_sigs;
 
   /* The signal handler comes here too. */
-  sigemptyset(&sigs);
-  sigaddset(&sigs, SIGHUP);
-  sigaddset(&sigs, SIGINT);
-  sigaddset(&sigs, SIGQUIT);
-  sigprocmask(SIG_BLOCK, &sigs, &old_sigs);
+  block_signals(&old_sigs);
   if (lock_is_ours) {
     unlink(lock_file_name);
     lock_is_ours = 0;
diff --git a/mairix.c b/mairix.c
index f245d7f..af20ad4 100644
--- a/mairix.c
+++ b/mairix.c
@@ -709,6 +709,9 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGHUP, handlesig);
   signal(SIGINT, handlesig);
   signal(SIGQUIT, handlesig);
+  signal(SIGTERM, handlesig);
+  /* The reader of our output, or the IMAP server, may go away. */
+  signal(SIGPIPE, handlesig);
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From cc3eb74debced9d66705fad9af84cfe79a6a130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:22 +0000
Subject: [PATCH 11/53] fix: refuse to write matches when it cannot be told
 whether their folder is indexed

---
 dirscan.c |  1 +
 mairix.c  | 11 ++++++++++-
 mairix.h  |  2 ++
 mbox.c    | 45 +++++++++++++++++++++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/dirscan.c b/dirscan.c
index 3752520..b116cb7 100644
--- a/dirscan.c
+++ b/dirscan.c
@@ -173,6 +173,7 @@ static int child_stat(const char *base, const char *child, struct stat *sb)/*{{{
   strcat(scratch, child);
 
   result = stat(scratch, sb);
+  if (result < 0) note_expand_failure();
   free(scratch);
   return result;
 }
diff --git a/mairix.c b/mairix.c
index af20ad4..ddccc60 100644
--- a/mairix.c
+++ b/mairix.c
@@ -124,8 +124,10 @@ int member_of (const char *complete_mfolder,
     /* if cannot even get stat() info, probably not wrecking any mail
        files or dirs, so continue, i.e. skip inode check. */
     if (stat (complete_mfolder, &mfolder_sb) != 0 ||
-        stat (paths[i], &src_folder_sb) != 0)
+        stat (paths[i], &src_folder_sb) != 0) {
+      note_expand_failure();
       continue;
+    }
     if (mfolder_sb.st_ino == src_folder_sb.st_ino)
       return 1;
   }
@@ -771,6 +773,13 @@ int main (int argc, char **argv)/*{{{*/
               mfolder);
           unlock_and_exit(3);
         }
+        if (had_expand_failures()) {
+          fprintf (stderr,
+              "You asked search results to go to the folder '%s'.\n"
+              "I cannot find out whether that is one of the indexed mail folders.\n",
+              mfolder);
+          unlock_and_exit(3);
+        }
     }
 
     ftype = classify_file(database_path);
diff --git a/mairix.h b/mairix.h
index b63bf46..042d360 100644
--- a/mairix.h
+++ b/mairix.h
@@ -393,6 +393,8 @@ void decode_mbox_indices(char *cdata, unsigned int *mb, unsigned int *msg);
 
 int verify_mbox_size_constraints(struct database *db);
 void glob_and_expand_paths(const char *folder_base, char **paths_in, int n_in, char ***paths_out, int *n_out, const struct traverse_methods *methods, struct globber_array *omit_globs);
+void note_expand_failure(void);
+int had_expand_failures(void);
 void free_mboxen(struct database *db);
 
 /* In glob.c */
diff --git a/mbox.c b/mbox.c
index 49e973a..4efb0da 100644
--- a/mbox.c
+++ b/mbox.c
@@ -25,6 +25,7 @@
 #include <unistd.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <ctype.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -534,6 +535,38 @@ static int append_shallow(char *path, int base_len, struct stat *sb, struct stri
   return result;
 }
 /*}}}*/
+/* How often something about the folders could not be found out. */
+static int n_expand_failures = 0;
+
+void note_expand_failure(void)/*{{{*/
+{
+  switch (errno) {
+    case ENOENT:
+    case ENOTDIR:
+    case ELOOP:
+    case EACCES:
+      /* There is nothing (that we may use) there. */
+      break;
+    default:
+      n_expand_failures++;
+      break;
+  }
+}
+/*}}}*/
+int had_expand_failures(void)/*{{{*/
+{
+  return n_expand_failures > 0;
+}
+/*}}}*/
+static struct dirent *next_entry(DIR *d)/*{{{*/
+{
+  struct dirent *result;
+  errno = 0;
+  result = readdir(d);
+  if (!result && errno) note_expand_failure();
+  return result;
+}
+/*}}}*/
 static int append_deep(char *path, int base_len, struct stat *sb, struct string_list *list, /*{{{*/
                         const struct traverse_methods *methods,
                         struct globber_array *omit_globs)
@@ -554,7 +587,7 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
     xpath = new_array(char, strlen(path) + 2 + NAME_MAX);
     d = opendir(path);
     if (d) {
-      while ((de = readdir(d))) {
+      while ((de = next_entry(d))) {
         enum traverse_check status;
         if (!strcmp(de->d_name, ".")) continue;
         if (!strcmp(de->d_name, "..")) continue;
@@ -586,6 +619,8 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
                 } else if (S_ISDIR(sb2.st_mode)) {
                   appended_any |= append_deep(xpath, base_len, &sb2, list, methods, omit_globs);
                 }
+              } else {
+                note_expand_failure();
               }
               break;
           }
@@ -595,6 +630,8 @@ next_path:
       }
 done_this_dir:
       closedir(d);
+    } else {
+      note_expand_failure();
     }
     free(xpath);
   }
@@ -631,7 +668,7 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
   d = opendir(temp_path);
   had_matches = 0;
   if (d) {
-    while ((de = readdir(d))) {
+    while ((de = next_entry(d))) {
       if (!strcmp(de->d_name, ".")) continue;
       if (!strcmp(de->d_name, "..")) continue;
       if (is_glob_match(gg, de->d_name)) {
@@ -646,6 +683,8 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
           had_matches = 1;
           if (stat(xpath, &xsb) >= 0) {
             (*append)(xpath, base_len, &xsb, list, methods, omit_globs);
+          } else {
+            note_expand_failure();
           }
         }
       }
@@ -655,6 +694,7 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
       fprintf(stderr, "WARNING: Wildcard \"%s\" matched nothing in %s\n", last_comp, temp_path);
     }
   } else {
+    note_expand_failure();
     fprintf(stderr, "WARNING: Folder path %s does not exist\n", temp_path);
   }
 
@@ -674,6 +714,7 @@ static void handle_single(char *path, int base_len, struct string_list *list,/*{
   if (stat(path, &sb) >= 0) {
     (*append)(path, base_len, &sb, list, methods, omit_globs);
   } else {
+    note_expand_failure();
     fprintf(stderr, "WARNING: Folder path %s does not exist\n", path);
   }
 }
-- 
2.43.0


From 7629ee9459b63847168f2a8312ef487791496193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:06 +0000
Subject: [PATCH 12/53] fix: survive an IMAP server that refuses or stops
 answering

---
 imap.c          | 10 ++++++++--
 imapinterface.c |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index c18bac0..3836aec 100644
--- a/imap.c
+++ b/imap.c
@@ -792,6 +792,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD"; /* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -941,6 +942,7 @@ int plusindent = 0;
 int i;
 const char *close = NULL;
 
+	if (!t) return;
 	switch (t->type) {
 		case TLTYPE_UNTAGGED:
 			for (i = 0; i < indent; i++) fputc(9, out);
@@ -1000,9 +1002,10 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
-	for (l = l->first; l; l = l->next) {
+	for (l = l ? l->first : NULL; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
@@ -1210,6 +1213,10 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* If this fails, the server has no folder selected at all. */
+	free(ll->selected_folder);
+	ll->selected_folder = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1262,7 +1269,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = Malloc(foldername_len);
 	memcpy(ll->selected_folder, foldername, foldername_len);
diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..4edb04c 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,9 +105,11 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_LIST) continue;
 		uid = NULL;
 		deleted = 0;
@@ -216,9 +218,11 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_LIST) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
@@ -269,6 +273,7 @@ make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
+	s.r = NULL;
 	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
-- 
2.43.0


From a115e19e24a97f2487af4c120e5698e164b04fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:37 +0000
Subject: [PATCH 13/53] fix: refuse to put matches into an indexed IMAP folder

---
 mairix.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/mairix.c b/mairix.c
index ddccc60..db53434 100644
--- a/mairix.c
+++ b/mairix.c
@@ -138,6 +138,36 @@ int member_of (const char *complete_mfolder,
   return 0;
 }
 /*}}}*/
+static int imap_member_of(const char *mfolder, const char *folders, struct globber_array *omit_globs)/*{{{*/
+{
+  char **names;
+  int n_names, i;
+  int result = 0;
+
+  if (!folders)
+    return 0;
+  split_on_colons(folders, &n_names, &names);
+  for (i=0; i<n_names; i++) {
+    if (is_globber_array_match(omit_globs, names[i]))
+      continue;
+    if (!strcmp(mfolder, names[i]) ||
+        (!strcasecmp(mfolder, "INBOX") && !strcasecmp(names[i], "INBOX")))
+      result = 1;
+  }
+  free_string_array(n_names, &names);
+  return result;
+}
+/*}}}*/
+static void refuse_mfolder(const char *mfolder)/*{{{*/
+{
+  fprintf (stderr,
+      "You asked search results to go to the folder '%s'.\n"
+      "That folder appears to be one of the indexed mail folders!\n"
+      "For your own good, I refuse to output search results to an indexed mail folder.\n",
+      mfolder);
+  unlock_and_exit(3);
+}
+/*}}}*/
 static char *copy_value(char *text)/*{{{*/
 {
   char *p;
@@ -760,18 +790,15 @@ int main (int argc, char **argv)/*{{{*/
       case FT_EXCERPT:
         break;
       case FT_IMAP:
-        /* the same check as below could be implemented in the future */
+        if (imap_member_of(complete_mfolder, imap_folders, omit_globs)) {
+          refuse_mfolder(mfolder);
+        }
         break;
       default:
         if ((member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
              member_of (complete_mfolder, folder_base, mh_folders, FT_MH, omit_globs) ||
              member_of (complete_mfolder, folder_base, mboxen, FT_MBOX, omit_globs))) {
-          fprintf (stderr,
-              "You asked search results to go to the folder '%s'.\n"
-              "That folder appears to be one of the indexed mail folders!\n"
-              "For your own good, I refuse to output search results to an indexed mail folder.\n",
-              mfolder);
-          unlock_and_exit(3);
+          refuse_mfolder(mfolder);
         }
         if (had_expand_failures()) {
           fprintf (stderr,
-- 
2.43.0


From 9f581e3ae6466933f95715ecba49894151c9d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:46 +0000
Subject: [PATCH 14/53] fix: do not append an mbox message that has changed to
 an IMAP folder

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index e60135d..76861e2 100644
--- a/search.c
+++ b/search.c
@@ -1398,7 +1398,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From ac67a9ba0dd04b08c60941b113d230ebcd649711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 15/53] fix: create the IMAP match folder when appending the
 first message to it

---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 4edb04c..f37a3ad 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -385,7 +385,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From e6ebd5ef20c136f7e50d9fd430765383cad377b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:02 +0000
Subject: [PATCH 16/53] fix: try again later to index a message that cannot be
 read now

---
 db.c            | 28 ++++++++++++++++++++++------
 imapinterface.c |  4 ++--
 imapinterface.h |  2 +-
 mairix.h        |  2 +-
 rfc822.c        | 11 ++++++++---
 search.c        |  6 ++++--
 6 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/db.c b/db.c
index cd267e5..e29a721 100644
--- a/db.c
+++ b/db.c
@@ -695,10 +695,21 @@ static void scan_maildir_flags(struct msgpath *m)/*{{{*/
 /*}}}*/
 static void scan_new_messages(struct database *db, int start_at, struct imap_ll *imapc)/*{{{*/
 {
-  int i;
-  for (i=start_at; i<db->n_msgs; i++) {
+  int i, j, n_msgs;
+
+  /* A message that cannot be read now is left out, so that the next run will
+   * try it again. */
+  n_msgs = db->n_msgs;
+  db->n_msgs = start_at;
+  for (j=start_at; j<n_msgs; j++) {
     struct rfc822 *msg = NULL;
-    int len = strlen(db->msgs[i].src.mpf.path);
+    int unreadable = 0;
+    int len;
+
+    i = db->n_msgs++;
+    db->type[i] = db->type[j];
+    db->msgs[i] = db->msgs[j];
+    len = strlen(db->msgs[i].src.mpf.path);
 
     if (len > 10 && !strcmp(db->msgs[i].src.mpf.path + len - 11, "/.gitignore"))
       continue;
@@ -712,11 +723,11 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822(db->msgs[i].src.mpf.path);
+        msg = make_rfc822(db->msgs[i].src.mpf.path, &unreadable);
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &unreadable);
         break;
     }
     if(msg)
@@ -727,7 +738,11 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
       free_rfc822(msg);
     }
     else
-      fprintf(stderr, "Skipping %s (could not parse message)\n", db->msgs[i].src.mpf.path);
+      fprintf(stderr, "Skipping %s (could not %s message)\n", db->msgs[i].src.mpf.path, unreadable ? "read" : "parse");
+    if (unreadable) {
+      free(db->msgs[i].src.mpf.path);
+      db->n_msgs--;
+    }
   }
 }
 /*}}}*/
@@ -1042,6 +1057,7 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
 
   if (any_new) {
     scan_new_messages(db, new_entries_start_at, imapc);
+    any_new = (db->n_msgs > new_entries_start_at);
   }
 
   /* Add newly found mbox messages. */
diff --git a/imapinterface.c b/imapinterface.c
index f37a3ad..073807f 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -268,13 +268,13 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *unreadable)
 {
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	*unreadable = !imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 71f7a4f..b63fa94 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -22,7 +22,7 @@ int imap_fetch_message_raw(
 );
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *unreadable);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/mairix.h b/mairix.h
index 042d360..cb6dae2 100644
--- a/mairix.h
+++ b/mairix.h
@@ -332,7 +332,7 @@ void build_message_list(char *folder_base, char *folders, enum folder_type ft,
     struct msgpath_array *msgs, struct globber_array *omit_globs);
 
 /* In rfc822.c */
-struct rfc822 *make_rfc822(char *filename);
+struct rfc822 *make_rfc822(char *filename, int *unreadable);
 void free_rfc822(struct rfc822 *msg);
 enum data_to_rfc822_error {
   DTR8_OK,
diff --git a/rfc822.c b/rfc822.c
index 97f2816..53f4a32 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1306,6 +1306,8 @@ static struct ro_mapping *add_ro_cache(const char *filename, int fd, size_t len)
 }
 #endif /* USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX */
 
+/* If there is nothing to map, *data is NULL; *len is then zero only if that is
+ * because there is no data in the file. */
 void create_ro_mapping(const char *filename, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb)/*{{{*/
 {
   struct stat sb;
@@ -1319,6 +1321,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = -1;
     return;
   }
 
@@ -1396,7 +1399,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
 comp_error:
     *data = NULL;
-    *len = 0;
+    *len = -1;
     if (tmpf)
       fclose(tmpf);
     return;
@@ -1459,13 +1462,14 @@ static struct msg_src *setup_msg_src(char *filename)/*{{{*/
   return &result;
 }
 /*}}}*/
-struct rfc822 *make_rfc822(char *filename)/*{{{*/
+struct rfc822 *make_rfc822(char *filename, int *unreadable)/*{{{*/
 {
   int len;
   unsigned char *data;
   struct rfc822 *result;
 
   create_ro_mapping(filename, &data, &len, MAP_DECOMPRESS_IF_APPLICABLE);
+  *unreadable = !data && len;
 
   /* Don't process empty files */
   result = NULL;
@@ -1565,13 +1569,14 @@ static void show_rfc822(struct rfc822 *msg, int indent)/*{{{*/
 int main (int argc, char **argv)/*{{{*/
 {
   struct rfc822 *msg;
+  int unreadable;
 
   if (argc < 2) {
     fprintf(stderr, "Need a path\n");
     unlock_and_exit(2);
   }
 
-  msg = make_rfc822(argv[1]);
+  msg = make_rfc822(argv[1], &unreadable);
   show_rfc822(msg, 0);
   free_rfc822(msg);
 
diff --git a/search.c b/search.c
index 76861e2..6480a2c 100644
--- a/search.c
+++ b/search.c
@@ -1301,20 +1301,22 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
           case DB_MSG_FILE:
             {
               char *filename;
+              int unreadable;
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
-              parsed = make_rfc822(filename);
+              parsed = make_rfc822(filename, &unreadable);
             }
             break;
           case DB_MSG_IMAP:
             {
               char *filename;
+              int unreadable;
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, &unreadable) : NULL;
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From 9adca7537cd609274791d5ddbef5f03827eb3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:45 +0000
Subject: [PATCH 17/53] fix: do not unmap a cached decompressed mbox that is
 still in use

---
 rfc822.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index 53f4a32..b496162 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1334,6 +1334,8 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
     ro = find_ro_cache(filename, NULL);
     if (ro) {
+      /* The mapping stays in the cache */
+      data_alloc_type = ALLOC_NONE;
       *data = ro->map;
       *len = ro->len;
       return;
-- 
2.43.0


From c79382fd64f4a97de4bcd801ad808269c8352228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:33 +0000
Subject: [PATCH 18/53] fix: index a message file again when only its size has
 changed

---
 db.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/db.c b/db.c
index e29a721..0c2ccfa 100644
--- a/db.c
+++ b/db.c
@@ -924,9 +924,9 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
 {
   /* The incoming list must be sorted into order, to make binary searching
    * possible.  We search for each existing path in the incoming sorted array.
-   * If the date differs, or the file no longer exist, the existing database
+   * If the date or size differs, or the file no longer exist, the existing database
    * entry for that file is nulled.  (These are only recovered if the database
-   * is actively compressed.)  If the date differed, a new entry for the file
+   * is actively compressed.)  If the date or size differed, a new entry for the file
    * is put at the end of the list.  Similarly, any new file goes at the end.
    * These new entries are all rescanned to find tokens and add them to the
    * database. */
@@ -957,7 +957,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime &&
+                    sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 5161673d3b21abfa57167885587db1eecf207ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 19/53] fix: notice that an mbox behind a symbolic link has
 changed

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 4efb0da..7ed2d0b 100644
--- a/mbox.c
+++ b/mbox.c
@@ -876,6 +876,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (S_ISLNK(sb.st_mode) && (stat(path, &sb) < 0)) {
+        /* can't stat what it points to, whose changes are the ones to notice */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 00b2ba5332fc4779a505b131708f137d963bb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:41 +0000
Subject: [PATCH 20/53] fix: do not map more of a file than it has when it is
 replaced while being opened

---
 rfc822.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index b496162..31465b8 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1427,6 +1427,21 @@ comp_error:
     return;
   }
 
+  /* It may have been replaced by another file in the meantime. */
+  if (fstat(fd, &sb) < 0)
+  {
+    report_error("stat", filename);
+    close(fd);
+    *data = NULL;
+    return;
+  }
+  *len = sb.st_size;
+  if (*len == 0) {
+    close(fd);
+    *data = NULL;
+    return;
+  }
+
   *data = (unsigned char *) mmap(0, *len, PROT_READ, MAP_SHARED, fd, 0);
   if (close(fd) < 0)
     report_error("close", filename);
-- 
2.43.0


From 8b260160a2cbb3c9dae7ff39992c98822a0eebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:21 +0000
Subject: [PATCH 21/53] fix: do not index an mbox that is rewritten while it is
 being indexed

---
 mairix.h |  1 +
 mbox.c   | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/mairix.h b/mairix.h
index cb6dae2..8fec61d 100644
--- a/mairix.h
+++ b/mairix.h
@@ -192,6 +192,7 @@ struct message_list {/*{{{*/
   struct message_list *next;
   off_t start;
   size_t len;
+  checksum_t csum;
 };
 /*}}}*/
 struct mbox {/*{{{*/
diff --git a/mbox.c b/mbox.c
index 7ed2d0b..4905a68 100644
--- a/mbox.c
+++ b/mbox.c
@@ -388,6 +388,7 @@ static struct message_list *build_new_message_list(struct mbox *mb, char *va, si
     } else {
       next->len = end_from - start_pos;
     }
+    compute_checksum(va + next->start, next->len, &next->csum);
     if (!result) {
       result = here = next;
     } else {
@@ -936,6 +937,24 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
 }
 /*}}}*/
 
+static void check_unchanged(struct mbox *mb, char *va, size_t len)/*{{{*/
+{
+  /* If the mbox has been rewritten since the messages were located, what is
+   * there now isn't messages, and it would be taken for them even by later
+   * runs.  So leave the database alone. */
+  struct message_list *here;
+  checksum_t csum;
+
+  for (here=mb->new_msgs; here; here=here->next) {
+    if (here->start + here->len <= len) {
+      compute_checksum(va + here->start, here->len, &csum);
+      if (!memcmp(here->csum, csum, sizeof(checksum_t))) continue;
+    }
+    fprintf(stderr, "mbox %s is being changed, try again later\n", mb->path);
+    unlock_and_exit(1);
+  }
+}
+/*}}}*/
 static struct msg_src *setup_msg_src(char *filename, off_t start, size_t len)/*{{{*/
 {
   static struct msg_src result;
@@ -985,6 +1004,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         if (!va) {
           create_ro_mapping(mb->path, &va, &valen,
               MAP_DECOMPRESS_IF_APPLICABLE);
+          if (va) check_unchanged(mb, (char *) va, valen);
         }
         if (!va) {
           fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
-- 
2.43.0


From eb9e1e4286c9c5e138332f9830cd5889d8cb40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:54 +0000
Subject: [PATCH 22/53] fix: index the rest of an mbox message that was still
 being delivered

---
 mbox.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/mbox.c b/mbox.c
index 4905a68..c333608 100644
--- a/mbox.c
+++ b/mbox.c
@@ -114,6 +114,27 @@ void compute_checksum(const char *data, size_t len, checksum_t *csum)/*{{{*/
   return;
 }
 /*}}}*/
+static int is_mmdf(const char *va, size_t len)/*{{{*/
+{
+  return len > 10 && !strncmp(va, "\1\1\1\1\n", 5);
+}
+/*}}}*/
+static int looks_like_from_separator(off_t n, char *va, size_t len, int verbose);
+
+static int message_ends_at(off_t end, char *va, size_t len)/*{{{*/
+{
+  /* Otherwise the message was still being delivered when it was indexed. */
+  if (end == len) {
+    return 1;
+  } else if (is_mmdf(va, len)) {
+    return end + 5 <= len && !strncmp(va + end, "\1\1\1\1\n", 5);
+  } else {
+    return end > 0 && va[end-1] == '\n' &&
+           end + 5 <= len && !strncmp(va + end, "From ", 5) &&
+           looks_like_from_separator(end + 4, va, len, 0);
+  }
+}
+/*}}}*/
 static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{{*/
 {
   /* TODO : later, look at whether to optimise this in some way, e.g. by doing
@@ -126,7 +147,8 @@ static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{
   } else {
     checksum_t csum;
     compute_checksum(va + mb->start[idx], mb->len[idx], &csum);
-    if (!memcmp(mb->check_all[idx], &csum, sizeof(checksum_t))) {
+    if (!memcmp(mb->check_all[idx], &csum, sizeof(checksum_t)) &&
+        message_ends_at(mb->start[idx] + mb->len[idx], va, len)) {
       return 1;
     } else {
       return 0;
@@ -337,7 +359,7 @@ static struct message_list *build_new_message_list(struct mbox *mb, char *va, si
 
 #define PERCENT_GRAN 2
 
-  if(len > 10 && ! strncmp(va, "\1\1\1\1\n", 5)) {
+  if (is_mmdf(va, len)) {
     mmdf = 5;
     message_start = skip_mmdfsep;
     find_next_separator = find_next_mmdfsep;
-- 
2.43.0


From 8492d6fb24c349ac86fec57437a1450c26d0710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:16 +0000
Subject: [PATCH 23/53] fix: match messages of the first day of a period given
 to d:

---
 dates.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index e2bbf31..5f9ad13 100644
--- a/dates.c
+++ b/dates.c
@@ -348,7 +348,9 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
     *has_start = *has_end = 1;
     status = scan_date_expr(in, nullchar, &start_tm, &end_tm);
     if (status) return status;
-    *start = mktime(&start_tm);
+    /* Only what is later than the start will match, but the first day (and it may be
+     * the only one) belongs to the period. */
+    *start = mktime(&start_tm) - 1;
     *end = mktime(&end_tm);
     return 0;
   } else {
-- 
2.43.0


From e8e7779128ec7bc3b241b66012e1e811047a538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:26 +0000
Subject: [PATCH 24/53] fix: do not overflow when a relative date is more than
 68 years ago

---
 dates.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index 5f9ad13..65d3c4c 100644
--- a/dates.c
+++ b/dates.c
@@ -125,7 +125,7 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
 
-- 
2.43.0


From 2b4e3bb84c299fd9790df022605a7ca1f6119630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:37 +0000
Subject: [PATCH 25/53] fix: make path searches work with IMAP messages and
 together with other keys

---
 search.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/search.c b/search.c
index 6480a2c..595d4d8 100644
--- a/search.c
+++ b/search.c
@@ -309,6 +309,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
@@ -316,8 +317,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
         token = db->data + db->mbox_paths_table[mbix];
         break;
       case DB_MSG_DEAD:
-        hits[i] = 0; /* never match on dead paths */
-        goto next_message;
+        goto next_message; /* never match on dead paths */
     }
 
     assert(token);
@@ -326,19 +326,19 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        hits[i] |= substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        hits[i] |= substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        hits[i] |= substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        hits[i] |= substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        hits[i] |= substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
 next_message:
-- 
2.43.0


From 273535b5b236d0b63178ae4b80ca38b1024c5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:35 +0000
Subject: [PATCH 26/53] fix: remember the sizes of IMAP messages

---
 db.c            | 5 +++--
 imapinterface.c | 6 +++++-
 imapinterface.h | 2 +-
 search.c        | 2 +-
 writer.c        | 2 ++
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index 0c2ccfa..59aa55d 100644
--- a/db.c
+++ b/db.c
@@ -447,7 +447,7 @@ struct database *new_database_from_file(char *db_filename, int do_integrity_chec
         result->type[i] = MTY_IMAP;
         result->msgs[i].src.mpf.path = new_string(input->data + input->path_offsets[i]);
         result->msgs[i].src.mpf.mtime = 0;
-        result->msgs[i].src.mpf.size  = 0;
+        result->msgs[i].src.mpf.size  = input->size_table[i];
         break;
       case DB_MSG_MBOX:
         {
@@ -727,7 +727,8 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &unreadable);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &unreadable,
+            &db->msgs[i].src.mpf.size);
         break;
     }
     if(msg)
diff --git a/imapinterface.c b/imapinterface.c
index 073807f..687a739 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -254,6 +254,7 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 struct make_rfc822_from_imap_s {
 	const char *pseudopath;
 	struct rfc822 *r;
+	size_t size;
 };
 
 static void
@@ -265,16 +266,19 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 	src.type = MS_FILE;
 	src.filename = (char *)(s->pseudopath);	/* XXX breaking "const" */
 	s->r = data_to_rfc822(&src, (char *)data /* XXX breaking "const" */, len, NULL);
+	s->size = len;
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *unreadable)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *unreadable, size_t *size)
 {
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
+	s.size = 0;
 	*unreadable = !imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	if (size) *size = s.size;
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index b63fa94..74c2156 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -22,7 +22,7 @@ int imap_fetch_message_raw(
 );
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *unreadable);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *unreadable, size_t *size);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index 595d4d8..91b1614 100644
--- a/search.c
+++ b/search.c
@@ -1316,7 +1316,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc, &unreadable) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, &unreadable, NULL) : NULL;
             }
             break;
           case DB_MSG_MBOX:
diff --git a/writer.c b/writer.c
index 0f449c4..b25d00c 100644
--- a/writer.c
+++ b/writer.c
@@ -346,6 +346,8 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
       case MTY_IMAP:
         slen = strlen(db->msgs[i].src.mpf.path);
         uidata[map->path_offset + i] = cdata - data;
+        uidata[map->mtime_offset + i] = 0;
+        uidata[map->size_offset + i] = db->msgs[i].src.mpf.size;
         uidata[map->date_offset + i] = db->msgs[i].date;
         uidata[map->tid_offset + i]  = db->msgs[i].tid;
         memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */
-- 
2.43.0


From e464a93222476f48b7853c9efe5b132b62f3f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:55 +0000
Subject: [PATCH 27/53] fix: report matches that could not be put into the
 match folder

A full disk, or any other failure to clear or fill the match folder or to
write to standard output, went unnoticed: mairix exited with success and the
folder lacked messages or kept those of an earlier search.
---
 search.c | 64 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/search.c b/search.c
index 91b1614..b7e19fe 100644
--- a/search.c
+++ b/search.c
@@ -616,11 +616,22 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
+static int had_failed_output;
+
+static void output_failed(const char *path)/*{{{*/
+{
+  fprintf(stderr, "Cannot put the matches into \"%s\": %s\n", path, strerror(errno));
+  had_failed_output = 1;
+}
+/*}}}*/
 static int is_link_to(char *path, char *link_target)/*{{{*/
 {
   struct stat sb, target_sb;
 
-  if (lstat(path, &sb) < 0) return 1; /* Can't tell */
+  if (lstat(path, &sb) < 0) { /* Can't tell */
+    output_failed(path);
+    return 1;
+  }
   if (S_ISLNK(sb.st_mode)) {
     int len = strlen(link_target);
     char *buf = new_array(char, len + 1);
@@ -641,10 +652,7 @@ static int create_symlink(char *link_target, char *new_link)/*{{{*/
     if (errno == EEXIST) {
       return is_link_to(new_link, link_target);
     }
-    if (verbose) {
-      perror("symlink");
-      fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
-    }
+    output_failed(new_link);
   }
   return 1;
 }
@@ -657,7 +665,10 @@ static int has_contents(const char *path, const char *head, const char *data, si
   size_t i;
   int same = 1;
 
-  if (lstat(path, &sb) < 0) return 1; /* Can't tell */
+  if (lstat(path, &sb) < 0) { /* Can't tell */
+    output_failed(path);
+    return 1;
+  }
   if (!S_ISREG(sb.st_mode) || ((size_t) sb.st_size != head_len + len)) return 0;
   in = fopen(path, "rb");
   if (!in) return 0;
@@ -681,14 +692,19 @@ static int create_file(const char *path, const char *head, const char *data, siz
     if (errno == EEXIST) {
       return has_contents(path, head, data, len);
     }
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+    output_failed(path);
     return 1;
   }
   out = fdopen(fd, "wb");
   if (out) {
+    int bad;
     fputs(head, out);
     fwrite(data, 1, len, out);
-    fclose(out);
+    bad = ferror(out);
+    if (fclose(out) || bad) output_failed(path);
+  } else {
+    output_failed(path);
+    close(fd);
   }
   return 1;
 }
@@ -1236,6 +1252,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     case FT_MBOX:/*{{{*/
       {
         FILE *out;
+        int bad;
         out = fopen(output_path, "ab");
         if (!out) {
           fprintf(stderr, "Cannot open output folder %s\n", output_path);
@@ -1263,7 +1280,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               break;
           }
         }
-        fclose(out);
+        bad = ferror(out);
+        if (fclose(out) || bad) output_failed(output_path);
       }
 
       break;
@@ -1424,8 +1442,10 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   free(hit3);
   if ((ft != FT_RAW) && (ft != FT_EXCERPT)) {
     printf("Matched %d messages\n", n_hits);
+    fflush(stdout);
+  } else if (fflush(stdout) || ferror(stdout)) {
+    output_failed("standard output");
   }
-  fflush(stdout);
 
   if (had_failed_checksum) {
     fprintf(stderr,
@@ -1434,6 +1454,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             "You may need to run mairix in indexing mode then repeat your search.\n");
   }
 
+  if (had_failed_output) return 2;
+
   /* Return error code 1 to the shell if no messages were matched. */
   return (n_hits == 0) ? 1 : 0;
 }
@@ -1515,7 +1537,7 @@ static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
 
   d = opendir(sdir);
   if (d) {
-    while ((de = readdir(d))) {
+    while (errno = 0, (de = readdir(d))) {
       strcpy(fpath, sdir);
       strcat(fpath, "/");
       strcat(fpath, de->d_name);
@@ -1525,12 +1547,17 @@ static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
         if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
           /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
           if (unlink(fpath) < 0) {
-            fprintf(stderr, "Unlinking %s failed\n", fpath);
+            output_failed(fpath);
           }
         }
+      } else {
+        output_failed(fpath);
       }
     }
+    if (errno) output_failed(sdir);
     closedir(d);
+  } else {
+    output_failed(sdir);
   }
 
   free(fpath);
@@ -1551,7 +1578,7 @@ static void clear_mh_folder(char *path)/*{{{*/
 
   d = opendir(path);
   if (d) {
-    while ((de = readdir(d))) {
+    while (errno = 0, (de = readdir(d))) {
       if (valid_mh_filename_p(de->d_name)) {
         strcpy(fpath, path);
         strcat(fpath, "/");
@@ -1561,13 +1588,18 @@ static void clear_mh_folder(char *path)/*{{{*/
           if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
             /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
             if (unlink(fpath) < 0) {
-              fprintf(stderr, "Unlinking %s failed\n", fpath);
+              output_failed(fpath);
             }
           }
+        } else {
+          output_failed(fpath);
         }
       }
     }
+    if (errno) output_failed(path);
     closedir(d);
+  } else {
+    output_failed(path);
   }
 
   free(fpath);
@@ -1575,7 +1607,9 @@ static void clear_mh_folder(char *path)/*{{{*/
 /*}}}*/
 static void clear_mbox_folder(char *path)/*{{{*/
 {
-  unlink(path);
+  if ((unlink(path) < 0) && (errno != ENOENT)) {
+    output_failed(path);
+  }
 }
 /*}}}*/
 
-- 
2.43.0


From d1b7ccf6d64beda823b4812e374f02cfa8f271cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:06 +0000
Subject: [PATCH 28/53] fix: do not drop the last character of an mbox that
 lacks a final newline

When copying the last message of such an mbox to a maildir or MH match folder
its last character was left out.
---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index b7e19fe..6d125cd 100644
--- a/search.c
+++ b/search.c
@@ -846,7 +846,9 @@ static int try_copy_to_path(struct read_db *db, int msg_index, char *target_path
     char *mbox_path = db->data + db->mbox_paths_table[mbi];
     char *head = new_array(char, sizeof(label) + strlen(mbox_path) + 1);
     sprintf(head, "%s%s\n", label, mbox_path);
-    placed = create_file(target_path, head, (char *) start, msg_len?msg_len-1:0);
+    /* Leave out the empty line before the next From line */
+    if ((msg_len > 0) && (start[msg_len-1] == '\n')) msg_len--;
+    placed = create_file(target_path, head, (char *) start, msg_len);
     free(head);
   }
 
-- 
2.43.0


From 18e491251e1dbe656a38d08a01b8a04c9102d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:18 +0000
Subject: [PATCH 29/53] fix: match glob patterns of more than 31 characters

The bits for the elements of a pattern did not fit into an int, so long omit
patterns and wildcards matched the wrong folders.  A character class without
its closing bracket was read past the end.
---
 glob.c | 93 +++++++++++++++++++++++-----------------------------------
 mbox.c |  2 +-
 2 files changed, 38 insertions(+), 57 deletions(-)

diff --git a/glob.c b/glob.c
index 67f423e..3152f1c 100644
--- a/glob.c
+++ b/glob.c
@@ -28,10 +28,10 @@
 
 
 struct globber {
-  unsigned int pat[256];
-  unsigned int starpat;
-  unsigned int twostarpat;
-  unsigned int hit;
+  int n;                      /* number of single-character elements */
+  unsigned char (*pat)[256];  /* [n] : the characters each of them matches */
+  unsigned char *stars;       /* [n+1] : 1 for a '*', 2 for a '**' in front of it */
+  unsigned char *reg;         /* [n+1] : work space for matching */
 };
 
 struct globber_array {
@@ -39,7 +39,7 @@ struct globber_array {
   struct globber **globs;
 };
 
-static const char *parse_charclass(const char *in, struct globber *result, unsigned int mask)/*{{{*/
+static const char *parse_charclass(const char *in, unsigned char *pat)/*{{{*/
 {
   int first = 1;
   int prev = -1;
@@ -47,7 +47,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
   while (*in) {
     if (*in == ']') {
       if (first) {
-        result->pat[(int)']'] |= mask;
+        pat[(int)']'] = 1;
       } else {
         return in;
       }
@@ -56,7 +56,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       if ((prev < 0) || !in[1] || (in[1]==']')) {
         /* - at either end of string (or right after an earlier range) means
          * normal - */
-        result->pat['-'] |= mask;
+        pat['-'] = 1;
       } else {
         int next = in[1];
         int hi, lo;
@@ -69,7 +69,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
         }
         for (i=lo; i<=hi; i++) {
           int index = 0xff & i;
-          result->pat[index] |= mask;
+          pat[index] = 1;
         }
         /* require 1 extra increment */
         in++;
@@ -77,7 +77,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       }
     } else {
       int index = 0xff & (int)*in;
-      result->pat[index] |= mask;
+      pat[index] = 1;
     }
     prev = *in;
     first = 0;
@@ -90,108 +90,89 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
 struct globber *make_globber(const char *wildstring)/*{{{*/
 {
   struct globber *result;
-  int n, i;
+  int n, i, len;
   const char *p;
   char c;
   int index;
-  unsigned int mask;
 
+  len = strlen(wildstring);
   result = new(struct globber);
-  memset(&result->pat, 0x00, 256*sizeof(unsigned int));
-  memset(&result->starpat, 0x00, sizeof(unsigned int));
-  memset(&result->twostarpat, 0x00, sizeof(unsigned int));
-  mask = 0x1;
+  result->pat = (unsigned char (*)[256]) new_array(unsigned char, 256 * (len + 1));
+  result->stars = new_array(unsigned char, len + 1);
+  result->reg = new_array(unsigned char, len + 1);
+  memset(result->pat, 0x00, 256 * (len + 1));
+  memset(result->stars, 0x00, len + 1);
 
   n = 0;
   for (p=wildstring; *p; p++) {
-    mask = 1<<n;
     c = *p;
     switch (c) {
       case '*':/*{{{*/
         if (p[1] == '*') {
-          result->twostarpat |= mask;
+          result->stars[n] = 2;
           p++;
-        } else {
+        } else if (!result->stars[n]) {
           /* Match zero or more of anything */
-          result->starpat |= mask;
+          result->stars[n] = 1;
         }
         break;
 /*}}}*/
       case '[':/*{{{*/
-        p = parse_charclass(p, result, mask);
+        p = parse_charclass(p, result->pat[n]);
         n++;
+        if (!*p) p--; /* no closing ']' */
         break;
 /*}}}*/
       case '?':/*{{{*/
         for (i=0; i<256; i++) {
-          result->pat[i] |= mask;
+          result->pat[n][i] = 1;
         }
         n++;
         break;
 /*}}}*/
       default:/*{{{*/
         index = 0xff & (int)c;
-        result->pat[index] |= mask;
+        result->pat[n][index] = 1;
         n++;
         break;
 /*}}}*/
     }
   }
 
-  result->hit = (1<<n);
+  result->n = n;
   return result;
 
 }
 /*}}}*/
 void free_globber(struct globber *old)/*{{{*/
 {
+  free(old->pat);
+  free(old->stars);
+  free(old->reg);
   free(old);
 }
 /*}}}*/
 
-#define DODEBUG 0
-
 int is_glob_match(struct globber *g, const char *s)/*{{{*/
 {
-  unsigned int reg;
-  unsigned int stars;
-  unsigned int twostars;
-  unsigned int stars2;
+  /* reg[i] is set if the first i elements can match what has been seen of the
+   * string. */
+  unsigned char *reg = g->reg;
+  int i;
   int index;
 
-  reg = 0x1;
+  memset(reg, 0, g->n + 1);
+  reg[0] = 1;
   while (*s) {
     index = 0xff & (int) *s;
-#if DODEBUG
-    printf("*s=%c index=%02x old_reg=%08lx pat=%08lx //",
-           *s, index, reg, g->pat[index]);
-#endif
-    stars = (reg & g->starpat);
-    twostars = (reg & g->twostarpat);
-    if (index != '/') {
-      stars2 = stars | twostars;
-    } else {
-      stars2 = twostars;
+    for (i=g->n; i>=0; i--) {
+      int star = (g->stars[i] == 2) || ((g->stars[i] == 1) && (index != '/'));
+      reg[i] = (reg[i] && star) || ((i > 0) && reg[i-1] && g->pat[i-1][index]);
     }
-    reg &= g->pat[index];
-    reg <<= 1;
-    reg |= stars2;
-#if DODEBUG
-    printf(" new_reg=%08lx ", reg);
-    printf("starpat=%08lx stars=%08lx stars2=%08lx\n", g->starpat, stars, stars2);
-#endif
     s++;
   }
 
-#if DODEBUG
-  printf("reg=%08lx hit=%08lx\n", reg, g->hit);
-#endif
-  reg &= g->hit;
-  if (reg) {
-    return 1;
-  } else {
-    return 0;
-  }
+  return reg[g->n];
 }
 /*}}}*/
 
diff --git a/mbox.c b/mbox.c
index c333608..62030b7 100644
--- a/mbox.c
+++ b/mbox.c
@@ -724,7 +724,7 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
 
   free(temp_path);
   free(xpath);
-  free(gg);
+  free_globber(gg);
 }
 /*}}}*/
 static void handle_single(char *path, int base_len, struct string_list *list,/*{{{*/
-- 
2.43.0


From 016727f52944f8418da3115e96cab1263163368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:28 +0000
Subject: [PATCH 30/53] fix: say so when a matching mbox has been emptied or
 removed

---
 search.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 6d125cd..f61313f 100644
--- a/search.c
+++ b/search.c
@@ -788,7 +788,10 @@ static void get_validated_mbox_msg(struct read_db *db, int msg_index,/*{{{*/
 
   create_ro_mapping(db->data + db->mbox_paths_table[mbi], mbox_data, mbox_len,
       MAP_DECOMPRESS_IF_APPLICABLE);
-  if (!*mbox_data) return;
+  if (!*mbox_data) {
+    had_failed_checksum = 1;
+    return;
+  }
 
   start = *mbox_data + db->mtime_table[msg_index];
 
-- 
2.43.0


From 2594b9e5f2cdd9e1d6364806f82a2a366b1325b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 31/53] fix: do not take a number in braces within a line for
 an IMAP literal

---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index 3836aec..a203bef 100644
--- a/imap.c
+++ b/imap.c
@@ -361,6 +361,7 @@ token_extend:
 					if (cur == 13) break;
 					if (cur != 10) {
 						linestate = 3;
+						break;
 					}
 					MKPRETOKEN(recv_tag);
 					if (recv_tag == 0) {
-- 
2.43.0


From 4fbc9a771171a6000c30566a08602231fe7eb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:32 +0000
Subject: [PATCH 32/53] fix: report matches that could not be fetched from or
 put into an IMAP folder

---
 imapinterface.c | 68 +++++++++++++++++++++++++++++++------------------
 imapinterface.h |  6 ++---
 search.c        | 37 +++++++++++++++++++--------
 3 files changed, 72 insertions(+), 39 deletions(-)

diff --git a/imapinterface.c b/imapinterface.c
index 687a739..e4602f9 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -282,78 +282,91 @@ struct make_rfc822_from_imap_s s;
 	return s.r;
 }
 
-void
-imap_clear_folder(struct imap_ll *imapc, const char *folder)
+static int
+create_folder(struct imap_ll *imapc, const char *folder)
 {
 struct imap_ll_tokenlist *cmd, *result;
+int ok;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
-		TLTYPE_ATOM, "STORE", (size_t)-1,
-		TLTYPE_ATOM, "1:*", (size_t)-1,
-		TLTYPE_ATOM, "+FLAGS", (size_t)-1,
-		TLTYPE_ATOM, "\\Deleted", (size_t)-1,
+		TLTYPE_ATOM, "CREATE", (size_t)-1,
+		TLTYPE_STRING, folder, (size_t)-1,
 		TLTYPE_END
 	);
 	result = imap_ll_command(imapc, cmd, 10);
 	imap_ll_freeline(cmd);
+	ok = (0 == strcmp(imap_ll_status(result), "OK"));
 	imap_ll_freeline(result);
+	return ok;
+}
+
+int
+imap_clear_folder(struct imap_ll *imapc, const char *folder)
+{
+struct imap_ll_tokenlist *cmd, *result;
+long exists;
+int ok;
+
+	/* If it can be created, there was nothing to clear. */
+	if (!imap_select(imapc, folder, -1, 1, &exists)) {
+		return create_folder(imapc, folder);
+	}
+	if (exists < 1) return 1;
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
-		TLTYPE_ATOM, "EXPUNGE", (size_t)-1,
+		TLTYPE_ATOM, "STORE", (size_t)-1,
+		TLTYPE_ATOM, "1:*", (size_t)-1,
+		TLTYPE_ATOM, "+FLAGS", (size_t)-1,
+		TLTYPE_ATOM, "\\Deleted", (size_t)-1,
 		TLTYPE_END
 	);
 	result = imap_ll_command(imapc, cmd, 10);
 	imap_ll_freeline(cmd);
+	ok = (0 == strcmp(imap_ll_status(result), "OK"));
 	imap_ll_freeline(result);
-}
-
-void
-create_folder(struct imap_ll *imapc, const char *folder)
-{
-struct imap_ll_tokenlist *cmd, *result;
-
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
-		TLTYPE_ATOM, "CREATE", (size_t)-1,
-		TLTYPE_STRING, folder, (size_t)-1,
+		TLTYPE_ATOM, "EXPUNGE", (size_t)-1,
 		TLTYPE_END
 	);
 	result = imap_ll_command(imapc, cmd, 10);
 	imap_ll_freeline(cmd);
+	if (0 != strcmp(imap_ll_status(result), "OK")) ok = 0;
 	imap_ll_freeline(result);
+	return ok;
 }
 
-void
+int
 imap_copy_message(struct imap_ll *imapc, const char *pseudopath, const char *to_folder)
 {
 struct imap_ll_tokenlist *cmd, *result;
 const char *uidvalidity, *uid, *folder, *p;
 size_t uidvalidity_len, uid_len;
 const char *actual_uidvalidity;
+int ok;
 
 	/* first part is the uidvalidity */
 	uidvalidity = pseudopath;
 	p = strchr(pseudopath, ':');
-	if (!p) return;
+	if (!p) return 0;
 	uidvalidity_len = p-pseudopath;
 	uid = p+1;
 
 	/* second part is the uid */
 	p = strchr(uid, ':');
-	if (!p) return;
+	if (!p) return 0;
 	uid_len = p-uid;
 	folder = p+1;
 
 	actual_uidvalidity = imap_select(imapc, folder, -1, 0, NULL);
-	if (!actual_uidvalidity) return;
+	if (!actual_uidvalidity) return 0;
 
 	if (
 		(strlen(actual_uidvalidity) != uidvalidity_len) ||
 		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))
 	) {
-		return;
+		return 0;
 	}
 
 	cmd = imap_ll_build(
@@ -373,14 +386,16 @@ const char *actual_uidvalidity;
 	}
 	imap_ll_freeline(cmd);
 
-	if (0 != strcmp(imap_ll_status(result), "OK")) {
+	ok = (0 == strcmp(imap_ll_status(result), "OK"));
+	if (!ok) {
 		fprintf(stderr, "unable to COPY message to folder \"%s\":\n", to_folder);
 		imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
+	return ok;
 }
 
-void
+int
 imap_append_new_message(
 	struct imap_ll *imapc, const char *folder,
 	const unsigned char *data, size_t len,
@@ -388,6 +403,7 @@ imap_append_new_message(
 )
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
+int ok;
 
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
@@ -422,9 +438,11 @@ struct imap_ll_tokenlist *flags, *cmd, *result;
 	}
 	imap_ll_freeline(cmd);
 
-	if (0 != strcmp(imap_ll_status(result), "OK")) {
+	ok = (0 == strcmp(imap_ll_status(result), "OK"));
+	if (!ok) {
 		fprintf(stderr, "unable to APPEND message to folder \"%s\":\n", folder);
 		imap_ll_pprint(result, 0, stderr);
 	}
 	imap_ll_freeline(result);
+	return ok;
 }
diff --git a/imapinterface.h b/imapinterface.h
index 74c2156..9a4305d 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -24,8 +24,8 @@ int imap_fetch_message_raw(
 struct rfc822 *
 make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *unreadable, size_t *size);
 
-void imap_clear_folder(struct imap_ll *, const char *);
-void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
-void imap_copy_message(struct imap_ll *, const char *pseudopath, const char *to_folder);
+int imap_clear_folder(struct imap_ll *, const char *);
+int imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
+int imap_copy_message(struct imap_ll *, const char *pseudopath, const char *to_folder);
 
 #endif
diff --git a/search.c b/search.c
index f61313f..9b61dbe 100644
--- a/search.c
+++ b/search.c
@@ -624,6 +624,12 @@ static void output_failed(const char *path)/*{{{*/
   had_failed_output = 1;
 }
 /*}}}*/
+static void imap_failed(const char *pseudopath)/*{{{*/
+{
+  fprintf(stderr, "Cannot put the IMAP message \"%s\" into the match folder\n", pseudopath);
+  had_failed_output = 1;
+}
+/*}}}*/
 static int is_link_to(char *path, char *link_target)/*{{{*/
 {
   struct stat sb, target_sb;
@@ -763,7 +769,9 @@ static int fetch_to_path(char *pseudopath, struct imap_ll *imapc, char *target_p
   struct write_to_file_arg arg;
   arg.path = target_path;
   arg.placed = 1;
-  imap_fetch_message_raw(pseudopath, imapc, write_to_file, &arg);
+  if (!imapc || !imap_fetch_message_raw(pseudopath, imapc, write_to_file, &arg)) {
+    imap_failed(pseudopath);
+  }
   return arg.placed;
 }
 /*}}}*/
@@ -1210,7 +1218,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               GET_IMAP;
               do {
                 target_path = mk_maildir_path(i, attempt++, output_path, 0, is_seen, is_replied, is_flagged);
-                placed = imapc ? fetch_to_path(db->data + db->path_offsets[i], imapc, target_path) : 1;
+                placed = fetch_to_path(db->data + db->path_offsets[i], imapc, target_path);
                 free(target_path);
               } while (!placed);
             }
@@ -1243,7 +1251,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               break;
             case DB_MSG_IMAP:
               GET_IMAP;
-              if (imapc) placed = fetch_to_path(db->data + db->path_offsets[i], imapc, target_path);
+              placed = fetch_to_path(db->data + db->path_offsets[i], imapc, target_path);
               break;
             case DB_MSG_MBOX:
               placed = try_copy_to_path(db, i, target_path);
@@ -1275,7 +1283,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             case DB_MSG_IMAP:
               {
                 GET_IMAP;
-                if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, append_data_to_mbox, out);
+                if (!imapc || !imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, append_data_to_mbox, out)) {
+                  imap_failed(db->data + db->path_offsets[i]);
+                }
               }
               break;
             case DB_MSG_MBOX:
@@ -1392,9 +1402,10 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 /*}}}*/
     case FT_IMAP:/*{{{*/
       GET_IMAP;
-      if (!imapc) break;
-      if (please_clear) {
-        imap_clear_folder(imapc, output_path);
+      if (!imapc || (please_clear && !imap_clear_folder(imapc, output_path))) {
+        fprintf(stderr, "Cannot access or clear the IMAP match folder \"%s\"\n", output_path);
+        had_failed_output = 1;
+        break;
       }
       for (ii=0; ii<n_hits; ii++) {
         i = results[ii];
@@ -1407,15 +1418,19 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *data;
               create_ro_mapping(db->data + db->path_offsets[i], &data, &len,
                   MAP_DECOMPRESS_IF_APPLICABLE);
+              if (!data || !imap_append_new_message(imapc, output_path, data, len, is_seen, is_replied, is_flagged)) {
+                had_failed_output = 1;
+              }
               if (data) {
-                imap_append_new_message(imapc, output_path, data, len, is_seen, is_replied, is_flagged);
                 free_ro_mapping(data, len);
               }
             }
             break;
           case DB_MSG_IMAP:
             {
-              imap_copy_message(imapc, db->data + db->path_offsets[i], output_path);
+              if (!imap_copy_message(imapc, db->data + db->path_offsets[i], output_path)) {
+                imap_failed(db->data + db->path_offsets[i]);
+              }
             }
             break;
           case DB_MSG_MBOX:
@@ -1423,8 +1438,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              if (start) {
-                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start && !imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged)) {
+                had_failed_output = 1;
               }
               if (data) {
                 free_ro_mapping(data, mbox_len);
-- 
2.43.0


From 7ba52aca2960abe632efe1b35cd1e41372c7fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:32 +0000
Subject: [PATCH 33/53] fix: do not send a backslash to an IMAP server in a
 quoted string

---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index a203bef..27e3387 100644
--- a/imap.c
+++ b/imap.c
@@ -521,6 +521,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 4ea9067c86973974c842a13fb6ad1ec569938365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:23 +0000
Subject: [PATCH 34/53] fix: do not wait again and again for an IMAP server
 that has stopped answering

---
 imap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/imap.c b/imap.c
index 27e3387..0733e60 100644
--- a/imap.c
+++ b/imap.c
@@ -29,6 +29,7 @@ struct imap_ll {
 	char *bufferp;
 	size_t buffer_left;
 	int current_tag_number;
+	int broken;
 #ifdef USE_OPENSSL
 	SSL *ssl;
 #endif
@@ -647,6 +648,9 @@ size_t len;
 char *cmds, *cmdend;
 struct imap_ll_tokenlist *result, *cur;
 
+	/* The answers would not be in step with the commands any more. */
+	if (ll->broken) return NULL;
+
 	len = string_len(cmd);
 	cmds = Malloc(len+1);
 	cmdend = format_cmd(cmds, ll, cmd);
@@ -654,6 +658,7 @@ struct imap_ll_tokenlist *result, *cur;
 	*(cmdend++) = 10;
 	imap_ll_timeout(ll, timeout);
 	if (!imap_ll_write(ll, cmds, cmdend)) {
+		ll->broken = 1;
 		free(cmds);
 		return NULL;
 	}
@@ -661,6 +666,7 @@ struct imap_ll_tokenlist *result, *cur;
 	result = mktoken(TLTYPE_LIST, NULL, 0);
 	for (;;) {
 		if (!(cur = imap_ll_waitline(ll))) {
+			ll->broken = 1;
 			imap_ll_freeline(result);
 			return NULL;
 		}
@@ -687,6 +693,7 @@ size_t len;
 struct imap_ll_tokenlist *cur;
 char cmd[25];
 
+	if (ll->broken) return;
 	len = sprintf(cmd, "t%d LOGOUT\015\012", ++(ll->current_tag_number));
 	imap_ll_timeout(ll, 5);
 	if (!imap_ll_write(ll, cmd, cmd+len)) return;
-- 
2.43.0


From 6b869088501ca9de4baae346cdab5367cf097b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 35/53] fix: honour MAIRIX_MAILDIR_FOLDERS (the variable read
 was misspelt)

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index db53434..bd7492c 100644
--- a/mairix.c
+++ b/mairix.c
@@ -680,7 +680,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From db4b4fca5963b02d43070ba23b7134a246d6dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 36/53] fix: decode uuencoded bodies line by line, within the
 input

---
 rfc822.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 31465b8..9e6b24f 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -551,10 +551,14 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
-          int len = DEC(*q++);
+          int len;
+          q++; /* step over the newline ending the previous line */
+          if (q >= end_input)
+            break;
+          len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
-- 
2.43.0


From 8a0db0bade57a5a774f6e559605f0acc2e3b703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 37/53] fix: do not read beyond the end of a quoted-printable
 body

---
 rfc822.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 9e6b24f..5dfab4e 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,17 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
   result = start;
-  do {
+  while (result < end) {
          if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
     else                        result++;
-  } while (1);
+  }
 
-  /* Can't get here */
-  assert(0);
+  return NULL;
 }
 /*}}}*/
 
@@ -488,12 +487,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
             /* not that case. */
+            if (end_input - q < 2) break; /* truncated */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
             *p++ = val;
-- 
2.43.0


From 3f8b145b063c65768871acf90f758ae7ce9609d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 38/53] fix: do not append an RFC2231 filename*= to a plain
 filename=

---
 nvp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..6a7191a 100644
--- a/nvp.c
+++ b/nvp.c
@@ -293,7 +293,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		    *tempdst++ = *tempsrc;
 	    }
             *tempdst = 0;
-            if (current_action == GOT_NAMEVALUE_CSET)
+            if (last_action == GOT_NAMEVALUE_CSET)
               append_namevalue(result, &name, &value);
             else
               combine_namevalue(result, &name, &value);
-- 
2.43.0


From d20864c5cf45c71f2fa09072cd57c970aac11742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 39/53] fix: match the name= parameter of Content-Type
 case-insensitively

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 5dfab4e..d628b8a 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -726,7 +726,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 40ee4830ff5e5031d7b9b4ede1073c793172dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:41 +0000
Subject: [PATCH 40/53] fix: initialise date and flags of a misformatted mbox
 message

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 62030b7..544cd33 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1103,6 +1103,8 @@ int add_mbox_messages(struct database *db)/*{{{*/
           tokenise_message(n, db, r8);
           free_rfc822(r8);
         } else {
+          db->msgs[n].date = 0;
+          db->msgs[n].seen = db->msgs[n].replied = db->msgs[n].flagged = 0;
           printf("Message in %s at [%d,%d) is misformatted\n", mb->path, (int)start, (int)(start + len));
         }
 
-- 
2.43.0


From 065f4af1d1a057946e7aea8ec979663a8c386fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 41/53] fix: accept a one-character domain in an mbox From_
 line

---
 fromcheck.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fromcheck.nfa b/fromcheck.nfa
index 97bce23..fa8add4 100644
--- a/fromcheck.nfa
+++ b/fromcheck.nfa
@@ -91,7 +91,7 @@ BLOCK email {
 
     STATE start_of_domain
         LEFTSQUARE -> dotted_quad
-        DOMAIN -> after_at
+        DOMAIN -> after_at, out
 
     STATE dotted_quad
         DIGIT | PERIOD -> dotted_quad
-- 
2.43.0


From 151e88b4be0a7e0ed9907e02f6057548c708e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:37 +0000
Subject: [PATCH 42/53] fix: end an IMAP message in an mbox match folder with
 an empty line

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 9b61dbe..d432bf5 100644
--- a/search.c
+++ b/search.c
@@ -749,7 +749,7 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   FILE *out = (FILE *)arg;
   fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
   fwrite (data, sizeof(unsigned char), len, out);
-  fputc('\n', out);
+  mbox_terminate((const unsigned char *) data, len, out);
   return;
 }
 /*}}}*/
-- 
2.43.0


From c02e7609b14c88ccba605a13fb1dfdd3c76e5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:27 +0000
Subject: [PATCH 43/53] fix: sort by date also when the dates are decades apart

The comparison returned the difference of two unsigned dates as an int.  A
message without a usable Date: header (kept as the largest value), or one that
is 68 years away from the others, made the order inconsistent, and qsort then
misplaced other messages as well.
---
 search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index d432bf5..5594266 100644
--- a/search.c
+++ b/search.c
@@ -901,7 +901,11 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  const unsigned int a = qsortdb->date_table[*ap];
+  const unsigned int b = qsortdb->date_table[*bp];
+
+  /* The difference does not fit into an int if they are 68 years apart. */
+  return (a > b) - (a < b);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From 306e392156aaa5a237f4c7addc722ab9dc9c9ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 44/53] fix: show the right date in excerpts east of Greenwich

Dates are kept as midnight in local time, but were broken down as UTC, so -x
showed the day before the one in the Date: header wherever local time is ahead
of UTC.
---
 search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 5594266..3634f3d 100644
--- a/search.c
+++ b/search.c
@@ -1396,7 +1396,8 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
                                     printf("  Message-ID: %s\n", parsed->hdrs.message_id);
           if (parsed->hdrs.in_reply_to)
                                     printf("  In-Reply-To:%s\n", parsed->hdrs.in_reply_to);
-          thetm = gmtime(&parsed->hdrs.date);
+          /* The date was taken to be midnight in local time. */
+          thetm = localtime(&parsed->hdrs.date);
           strftime(datebuf, sizeof(datebuf), "%a, %d %b %Y", thetm);
           printf("  Date:        %s\n", datebuf);
           free_rfc822(parsed);
-- 
2.43.0


From 07aea9f3f9fd95dbafe03aa1117abb96eeaa5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:41 +0000
Subject: [PATCH 45/53] fix: exit with a failure status when a matched message
 cannot be read

---
 search.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 3634f3d..b2dbd94 100644
--- a/search.c
+++ b/search.c
@@ -624,6 +624,12 @@ static void output_failed(const char *path)/*{{{*/
   had_failed_output = 1;
 }
 /*}}}*/
+static void input_failed(const char *path)/*{{{*/
+{
+  fprintf(stderr, "Cannot read \"%s\", which has matches\n", path);
+  had_failed_output = 1;
+}
+/*}}}*/
 static void imap_failed(const char *pseudopath)/*{{{*/
 {
   fprintf(stderr, "Cannot put the IMAP message \"%s\" into the match folder\n", pseudopath);
@@ -740,6 +746,8 @@ static void append_file_to_mbox(const char *path, FILE *out)/*{{{*/
     fwrite (data, sizeof(unsigned char), len, out);
     mbox_terminate(data, len, out);
     free_ro_mapping(data, len);
+  } else if (len != 0) {
+    input_failed(path);
   }
   return;
 }
@@ -798,6 +806,7 @@ static void get_validated_mbox_msg(struct read_db *db, int msg_index,/*{{{*/
       MAP_DECOMPRESS_IF_APPLICABLE);
   if (!*mbox_data) {
     had_failed_checksum = 1;
+    if (*mbox_len != 0) input_failed(db->data + db->mbox_paths_table[mbi]);
     return;
   }
 
@@ -1343,17 +1352,19 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               parsed = make_rfc822(filename, &unreadable);
+              if (unreadable) input_failed(filename);
             }
             break;
           case DB_MSG_IMAP:
             {
               char *filename;
-              int unreadable;
+              int unreadable = 1;
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
               parsed = imapc ? make_rfc822_from_imap(filename, imapc, &unreadable, NULL) : NULL;
+              if (unreadable) imap_failed(filename);
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From b7ff564f68cee077fba42abeee201161d0ccf7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 46/53] fix: size limits of 2 Gb and more

---
 search.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search.c b/search.c
index b2dbd94..718d7b0 100644
--- a/search.c
+++ b/search.c
@@ -379,12 +379,12 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
   }
 }
 /*}}}*/
-static int parse_size_expr(char *x)/*{{{*/
+static long long parse_size_expr(char *x)/*{{{*/
 {
-  int result;
+  long long result; /* Sizes beyond 2 Gb are fine as limits */
   int n;
 
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
+  if (1 == sscanf(x, "%lld%n", &result, &n)) {
     x += n;
     switch (*x) {
       case 'k':
@@ -406,7 +406,7 @@ static int parse_size_expr(char *x)/*{{{*/
   }
 }
 /*}}}*/
-static void parse_size_range(char *size_expr, int *has_start, int *start, int *has_end, int *end)/*{{{*/
+static void parse_size_range(char *size_expr, int *has_start, long long *start, int *has_end, long long *end)/*{{{*/
 {
   char *x = size_expr;
   char *dash;
@@ -446,7 +446,7 @@ static void parse_size_range(char *size_expr, int *has_start, int *start, int *h
 /*}}}*/
 static void find_size_matches_in_table(struct read_db *db, char *size_expr, char *hits)/*{{{*/
 {
-  int start, end;
+  long long start, end;
   int has_start, has_end, start_cond, end_cond;
   int i;
 
@@ -455,7 +455,7 @@ static void find_size_matches_in_table(struct read_db *db, char *size_expr, char
   if (has_start && has_end) {
     /* Allow user to put the endpoints in backwards */
     if (start > end) {
-      int temp = start;
+      long long temp = start;
       start = end;
       end = temp;
     }
-- 
2.43.0


From ad29ec704d47cfa007d84774a31c94d0453b9650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 47/53] fix: empty, 8-bit and backslashed quoted strings in
 MIME headers

---
 nvp.c   | 17 +++++++++++++++++
 nvp.nfa |  6 +++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/nvp.c b/nvp.c
index 6a7191a..dc0f3ef 100644
--- a/nvp.c
+++ b/nvp.c
@@ -108,11 +108,14 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
+        if (!*value) return; /* an empty string */
         new_rhs = new_array(char, strlen(n->rhs) + strlen(*value) + 1);
         strcpy(new_rhs, n->rhs);
         strcat(new_rhs, *value);
         free(n->rhs);
         n->rhs = new_rhs;
+        free(*value);
+        *value = NULL;
         return;
       }
     }
@@ -121,6 +124,19 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
   append_namevalue(nvp, name, value);
 }
 /*}}}*/
+static void unescape(char *s)/*{{{*/
+{
+  /* Remove the backslashes from in front of any quotes and backslashes in s.
+     (Elsewhere they aren't needed, so they are more likely to be the
+     separators in a DOS path.) */
+  char *p;
+  for (p = s; *s; s++) {
+    if ((s[0] == '\\') && ((s[1] == '\\') || (s[1] == '"'))) s++;
+    *p++ = *s;
+  }
+  *p = 0;
+}
+/*}}}*/
 static int hex_to_val(int ch)/*{{{*/
 {
     if (isdigit(ch))
@@ -221,6 +237,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
           case COPY_TO_VALUE:
             free(value);
             value = newstring;
+            unescape(value);
 #ifdef VERBOSE_TEST
             fprintf(stderr, "  COPY_TO_VALUE \"%s\"\n", value);
 #endif
diff --git a/nvp.nfa b/nvp.nfa
index 0f2ccd9..b04ec0f 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -20,7 +20,7 @@
 # =======================================================================
 
 Tokens EOS
-Abbrev VALUE = [\041-~]~[\\";]
+Abbrev VALUE = [\041-~\200-\377]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
@@ -32,8 +32,7 @@ Abbrev OWS = <optwhite:in->out>
 
 Block escape {
     State in
-        [\\] ; [\\] -> out
-        [\\] ; ["]  -> out
+        [\\] ; [\011\040-~\200-\377] -> out
 }
 
 Block optwhite {
@@ -81,6 +80,7 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        ["] -> out
 
     State qv1
         = COPY_TO_VALUE
-- 
2.43.0


From e69382e26cfbaaa6ca72ace1ca8bc82bd8dce514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 48/53] fix: RFC 2231 language tags, and values in more than
 ten pieces

---
 nvp.c   |  2 +-
 nvp.nfa | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/nvp.c b/nvp.c
index dc0f3ef..dad5abc 100644
--- a/nvp.c
+++ b/nvp.c
@@ -104,7 +104,7 @@ static void append_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 {
   struct nvp_entry *n;
-  for (n=nvp->first; n; n=n->next) {
+  for (n=nvp->last; n; n=n->prev) {
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
diff --git a/nvp.nfa b/nvp.nfa
index b04ec0f..c73ba62 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -92,9 +92,13 @@ Block qvalue {
 }
 
 Block digits {
+    # 1 upwards
     State in
-        [0-9] -> out
-        [0-9] -> in
+        [1-9] -> digits1
+
+    State digits1
+        [0-9] -> digits1
+        -> out
 }
 
 Block minor {
@@ -110,10 +114,11 @@ Block minor {
 Block namevalue {
     State in
         OWS ; <name:in->out> ; OWS ; [=] -> rhs_normal
+        OWS ; <name:in->out> ; [*] ; [0] ; OWS ; [=] -> rhs_normal
         OWS ; <name:in->out> ; [*] ; <digits:in->out> ; OWS ; [=] -> rhs_continue
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
-        OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
+        OWS ; <name:in->out> ; [*] ; <digits:in->out> ; [*] ; OWS ; [=] -> rhs_charset_continue
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
@@ -125,8 +130,13 @@ Block namevalue {
         OWS ; <value:in->out> ; OWS -> out_continue
 
     State rhs_charset
-        OWS ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
-        OWS ; <minor:in->out> ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
+        # charset'language'value, where the first two may be empty
+        OWS ; ['] -> rhs_language
+        OWS ; <minor:in->out> ; ['] -> rhs_language
+
+    State rhs_language
+        NAME1 -> rhs_language
+        ['] ; <value:in->out> ; OWS -> out_charset
 
     State rhs_charset_continue
         OWS ; <value:in->out> ; OWS -> out_charset_continue
-- 
2.43.0


From c6750e5630c998e22471acfc36367219024732af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 49/53] fix: comments, empty parameters and blanks before the =
 in MIME headers

---
 nvp.c   |  9 ++++-----
 nvp.nfa | 25 ++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/nvp.c b/nvp.c
index dad5abc..05d3468 100644
--- a/nvp.c
+++ b/nvp.c
@@ -223,6 +223,10 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
           case COPY_TO_NAME:
             free(name);
             name = newstring;
+            /* a name may contain spaces, but doesn't end in one */
+            tempdst = name + strlen(name);
+            while ((tempdst > name) && isspace((unsigned char) tempdst[-1])) tempdst--;
+            *tempdst = 0;
 #ifdef VERBOSE_TEST
             fprintf(stderr, "  COPY_TO_NAME \"%s\"\n", name);
 #endif
@@ -271,12 +275,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 #endif
         switch (last_action) {
           case GOT_NAME:
-            append_name(result, &name);
-            break;
           case GOT_NAME_TRAILING_SPACE:
-            tempdst = name + strlen(name);
-            while (isspace(*--tempdst)) {}
-            *++tempdst = 0;
             append_name(result, &name);
             break;
           case GOT_MAJORMINOR:
diff --git a/nvp.nfa b/nvp.nfa
index c73ba62..aec3830 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -22,9 +22,11 @@
 Tokens EOS
 Abbrev VALUE = [\041-~\200-\377]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
-Abbrev NAME1 = [0-9a-zA-Z_\-]
-Abbrev MINOR = NAME1 | [\.\-+]
+Abbrev NAME1 = [0-9a-zA-Z_\-.+]
+Abbrev MINOR = NAME1
+Abbrev COMMENT = [\011\040-~\200-\377]~[()\\]
 Abbrev OWS = <optwhite:in->out>
+Abbrev TAIL = <opttail:in->out>
 
 %{
 #include "nvptypes.h"
@@ -42,6 +44,18 @@ Block optwhite {
         [ \t\r] -> in
 }
 
+Block opttail {
+    # White space and comments after a component
+    State in
+        -> out
+        [ \t\r] -> in
+        [ \t\r] ; [(] -> comment
+
+    State comment
+        COMMENT -> comment
+        [)] -> in
+}
+
 Block name {
     # This needs to cope with embedded spaces, e.g. for mailers that write '7
     # bit' instead of '7bit'
@@ -182,13 +196,14 @@ Block component {
 
 Block main {
     State in Entry in
-        OWS ; <component:in->out> ; OWS ; EOS -> out2
-        OWS ; <component:in->out> ; OWS ; [;] ; OWS ; EOS -> out2
-        OWS ; <component:in->out> ; OWS ; [;] -> in2
+        OWS ; <component:in->out> ; TAIL ; EOS -> out2
+        OWS ; <component:in->out> ; TAIL ; [;] -> in2
 
     State in2
         = GOT_TERMINATOR
         -> in
+        TAIL ; [;] -> in2
+        TAIL ; EOS -> out2
 
     State out2
         = GOT_TERMINATOR
-- 
2.43.0


From 51ad2547aafa46d0ee86ab596c3f433938ae2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:36 +0000
Subject: [PATCH 50/53] fix: attachment names containing backslashes

---
 nvp.nfa | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nvp.nfa b/nvp.nfa
index aec3830..b3336d5 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -21,7 +21,8 @@
 
 Tokens EOS
 Abbrev VALUE = [\041-~\200-\377]~[\\";]
-Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
+Abbrev QVALUE = VALUE | [\011\040;]
+Abbrev ESCAPED = QVALUE | [\\"]
 Abbrev NAME1 = [0-9a-zA-Z_\-.+]
 Abbrev MINOR = NAME1
 Abbrev COMMENT = [\011\040-~\200-\377]~[()\\]
@@ -32,11 +33,6 @@ Abbrev TAIL = <opttail:in->out>
 #include "nvptypes.h"
 %}
 
-Block escape {
-    State in
-        [\\] ; [\011\040-~\200-\377] -> out
-}
-
 Block optwhite {
     State in
         -> out
@@ -94,11 +90,17 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        [\\] -> escape
         ["] -> out
 
+    State escape
+        = COPY_TO_VALUE
+        ESCAPED -> qv1
+
     State qv1
         = COPY_TO_VALUE
         QVALUE -> qv1
+        [\\] -> escape
         -> qv2
 
     State qv2
-- 
2.43.0


From 36bdea6dba6b64a6bec603d115116afe1d717155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 51/53] fix: white space after a MIME boundary

---
 rfc822.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index d628b8a..c422ac2 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -853,7 +853,7 @@ static void do_multipart(struct msg_src *src,
     enum data_to_rfc822_error *error)
 {
   char *b0, *b1, *be, *bx;
-  char *line_after_b0, *start_b1_search_from;
+  char *line_after_b0, *start_b1_search_from, *after_b1;
   int boundary_len;
   int looking_at_end_boundary;
 
@@ -894,10 +894,12 @@ static void do_multipart(struct msg_src *src,
       boundary_ok = 1;
       if ((b1 > input) && (*(b1-1) != '\n'))
         boundary_ok = 0;
-      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be) && !(
-          ((b1 + boundary_len + 2 < input + input_len) && (*(b1 + boundary_len + 2) == '\n')) ||
-          ((b1 + boundary_len + 3 < input + input_len) && (*(b1 + boundary_len + 2) == '\r') && (*(b1 + boundary_len + 3) == '\n'))
-      ))
+      /* white space may follow on the same line */
+      after_b1 = b1 + boundary_len + 2;
+      while ((after_b1 < be) && ((*after_b1 == ' ') || (*after_b1 == '\t') || (*after_b1 == '\r')))
+        after_b1++;
+      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be) &&
+          (after_b1 < be) && (*after_b1 != '\n'))
         boundary_ok = 0;
       if (!boundary_ok) {
         char *eol = strchr(b1, '\n');
-- 
2.43.0


From 6202ef7296a97fd49ba7d3b40074365aef5efa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 52/53] fix: index the last part of a multipart message that
 lacks its end boundary

---
 rfc822.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index c422ac2..74e711d 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -884,6 +884,9 @@ static void do_multipart(struct msg_src *src,
         }
       }
       if (!b1) {
+        /* the last part goes on to the end */
+        if (b0)
+          do_attachment(src, line_after_b0, be, atts);
         if (error)
           *error = DTR8_MISSING_END;
         return;
-- 
2.43.0


From 02648292b13538574262354e7c8c69865d69f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 53/53] fix: ignore white space between adjacent RFC 2047
 encoded-words

A word that a mailer had split over two encoded-words was indexed as two
words, so searching for it didn't find the message.
---
 rfc822.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 74e711d..1c06423 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -297,13 +297,16 @@ static void decode_header_value(char *text){/*{{{*/
   /* rfc2047 decode, written by Mikael Ylikoski */
 
   char *s, *a, *b, *e, *p, *q;
+  char *word_end = NULL; /* set if there is only white space since an encoded-word */
 
   for (p = q = s = text; (s = strstr(s, "=?")); s = e + 2) {
     if (p == q)
       p = q = s;
     else
-      while (q != s)
+      while (q != s) {
+        if (!isspace(*(unsigned char *)q)) word_end = NULL;
         *p++ = *q++;
+      }
     s += 2;
     a = strchr(s, '?');
     if (!a) break;
@@ -318,6 +321,8 @@ static void decode_header_value(char *text){/*{{{*/
       continue; /* unknown encoding */
     if (*a == 'q' || *a == 'Q') {
       int val;
+      /* white space between two encoded-words isn't part of the text */
+      if (word_end) p = word_end;
       q = b;
       while (q < e) {
         if (*q == '_') {
@@ -334,6 +339,7 @@ static void decode_header_value(char *text){/*{{{*/
     } else if (*a == 'b' || *a == 'B') {
       int reg, nc, eq; /* register, #characters in reg, #equals */
       int dc; /* decoded character */
+      if (word_end) p = word_end;
       eq = reg = nc = 0;
       for (q = b; q < e; q++) {
         unsigned char cq = *(unsigned char *)q;
@@ -357,6 +363,7 @@ static void decode_header_value(char *text){/*{{{*/
       continue; /* unknown encoding */
     }
     q = e + 2;
+    word_end = p;
   }
   if (p == q) return;
   while (*q != '\0')
-- 
2.43.0

