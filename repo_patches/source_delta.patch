From 6918bc51caaaa49f02042781b731926625e87c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 01/89] fix: release program, area list and history locks on
 every error path

ftnaf processed a request although the areas.bbs lock was not obtained, and
ftnafpkt, ftnafutil, ftnroute, ftntoss and ftntick left lock files behind when
they gave up early.
---
 src/areafix/ftnaf.c     | 20 +++++++++++---------
 src/areafix/ftnafpkt.c  |  3 +++
 src/areafix/ftnafutil.c |  1 +
 src/tick/ftntick.c      | 16 +++++++++++-----
 src/toss/ftnroute.c     |  4 ++++
 src/toss/ftntoss.c      | 17 ++++++++---------
 6 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 291207c..74d030a 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -323,16 +323,18 @@ int main(int argc, char **argv)
             BUF_COPY2(bbslock, areas_bbs, ".lock");
             if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT))
                 ret = EX_OSERR;
-            if (areasbbs_init(areafix_areasbbs()) == ERROR)
-                ret = EX_OSFILE;
-            else
-                ret = do_mail();
-            if (ret == 0 && !n_flag)
-                if (areasbbs_rewrite() == ERROR)
-                    ret = EX_CANTCREAT;
-            unlock_path(bbslock);
+            else {
+                if (areasbbs_init(areafix_areasbbs()) == ERROR)
+                    ret = EX_OSFILE;
+                else
+                    ret = do_mail();
+                if (ret == 0 && !n_flag)
+                    if (areasbbs_rewrite() == ERROR)
+                        ret = EX_CANTCREAT;
+                unlock_path(bbslock);
+            }
+            unlock_program(PROGRAM);
         }
-        unlock_program(PROGRAM);
     } else {
         /*
          * Process command on command line
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index f7f2d1e..b23dbe5 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -521,12 +521,15 @@ int main(int argc, char **argv)
 
         BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
         if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            if (l_flag)
+                unlock_program(PROGRAM);
             exit_free();
             return EXIT_BUSY;
         }
 
         /* Read areas.bbs */
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             if (l_flag)
                 unlock_program(PROGRAM);
             exit_free();
diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 55096f8..1619c48 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -583,6 +583,7 @@ int main(int argc, char **argv)
     }
 
     if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+        unlock_path(bbslock);
         exit_free();
         return EX_OSFILE;
     }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index f40f7d7..dbffb3f 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -97,6 +97,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
+        unlock_program(PROGRAM);
         exit_free();
         exit(EXIT_BUSY);
     }
@@ -128,8 +129,7 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
         ERROR) {
         fglog("$ERROR: can't create lock file %s/%s", cf_p_lockdir(),
               cf_p_lock_history());
-        exit_free();
-        exit(EXIT_BUSY);
+        return ERROR;
     }
 
     hi_init_tic_history();
@@ -240,6 +240,7 @@ int do_tic(int w_flag)
 
         BUF_COPY2(bbslock, areas_bbs, ".lock");
         if (lock_path(bbslock, w_flag ? w_flag : WAIT) == ERROR) {
+            unlock_program(PROGRAM);
             exit_free();
             exit(EXIT_BUSY);
         }
@@ -260,8 +261,12 @@ int do_tic(int w_flag)
  * Write history information to database
  */
             if (!no_tic_history) {
-                if (ftntick_write_history(&tic, w_flag) != 0)
+                if (ftntick_write_history(&tic, w_flag) != 0) {
+                    areasbbs_rewrite();
+                    unlock_path(bbslock);
+                    dir_close();
                     return ERROR;
+                }
             }
 
             areasbbs_rewrite();
@@ -963,6 +968,7 @@ options:  -b --fareas-bbs NAME         use alternate FAREAS.BBS\n\
 
 int main(int argc, char **argv)
 {
+    int ret;
     char *p;
     int c;
     char *I_flag = NULL;
@@ -1150,11 +1156,11 @@ int main(int argc, char **argv)
     }
 
     /* Search tick files and processing it */
-    do_tic(w_flag);
+    ret = do_tic(w_flag);
 
     /* removing lock file */
     unlock_program(PROGRAM);
 
     exit_free();
-    exit(0);
+    exit(ret == OK ? EXIT_OK : EXIT_ERROR);
 }
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index d24401e..3e030d6 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -1000,6 +1000,8 @@ int main(int argc, char **argv)
             if ((base = cf_out_get(0)) == NULL) {
                 fglog("$ERROR: can't find ASO outbound directory (%s/..)",
                       btbase);
+                if (l_flag)
+                    unlock_program(PROGRAM);
                 exit_free();
                 return EX_OSERR;
             } else {
@@ -1020,6 +1022,8 @@ int main(int argc, char **argv)
                 /* Open and read directory */
                 if (dir_open(buf, "?????????.pnt", TRUE) == ERROR) {
                     fglog("$ERROR: can't open directory %s", buf);
+                    if (l_flag)
+                        unlock_program(PROGRAM);
                     exit_free();
                     return EX_OSERR;
                 } else {
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index eb62f91..7100ad0 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1385,8 +1385,8 @@ static void ping_generate_reply(Message *msg, MsgBody *body)
      */
     rc = cf_get_best(&rmsg.node_to, &rmsg.node_from, NULL, NULL);
     if (rc < 0) {
-        fprintf(stderr, "No FTN addresses configured.\n");
-        exit(1);
+        fglog("ERROR: No FTN addresses configured, no ping reply generated.");
+        return;
     }
     if (is_local_addr(&msg->node_to, FALSE))
         rmsg.node_from = msg->node_to;
@@ -2151,6 +2151,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2161,10 +2162,9 @@ int main(int argc, char **argv)
                 ERROR) {
 
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2198,6 +2198,7 @@ int main(int argc, char **argv)
         if (l_flag)
             if (lock_program(PROGRAM, NOWAIT) == ERROR) {
                 /* Already busy */
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
@@ -2207,11 +2208,9 @@ int main(int argc, char **argv)
             if (lock_program(cf_p_lock_history(), w_flag ? w_flag : NOWAIT) ==
                 ERROR) {
                 /* Already busy, exit */
-                if (l_flag) {
+                if (l_flag)
                     unlock_program(PROGRAM);
-                    unlock_path(bbslock);
-                }
-
+                unlock_path(bbslock);
                 exit_free();
                 return EXIT_BUSY;
             }
-- 
2.43.0


From db8c84bf38fafe186fd220e8111b6f78fa2254d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 02/89] fix: areafix help text was used as a format string

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index c9cc6db..2fa31c2 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1899,7 +1899,7 @@ int cmd_help(Node * node)
         if ((fp = fopen_expand_name(helpfile, R_MODE, FALSE))) {
             while (fgets(buffer, sizeof(buffer), fp)) {
                 strip_crlf(buffer);
-                areafix_printf(buffer);
+                areafix_printf("%s", buffer);
             }
             fclose(fp);
             return OK;
-- 
2.43.0


From 36490d3d1a79453f4a6e2cb2c9dc8e8a4da16415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 03/89] fix: packet and area list I/O errors were returned as 1
 but tested for ERROR (-1)

---
 src/common/areasbbs.c |  2 +-
 src/common/packet.c   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index ff0f176..9857b83 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -392,7 +392,7 @@ int areasbbs_print(FILE * fp)
         fprintf(fp, "\n");
     }
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
diff --git a/src/common/packet.c b/src/common/packet.c
index 823a22c..d62125d 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -503,7 +503,7 @@ int pkt_get_msg_hdr(FILE * fp, Message * msg, bool strict)
     if (verbose >= 6)
         pkt_debug_msg_hdr(stderr, msg, "Reading ");
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 #undef READ_MSG_FIELD
@@ -694,7 +694,7 @@ int pkt_put_msg_hdr(FILE * pkt, Message * msg, int kludge_flag)
 
  pkt_put_msg_hdr_ret:
 
-    return ferror(pkt);
+    return ferror(pkt) ? ERROR : OK;
 }
 
 /*
@@ -729,7 +729,7 @@ int pkt_get_nbytes(FILE * fp, char *buf, int n)
         *buf++ = c;
     }
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
@@ -936,7 +936,7 @@ int pkt_get_hdr(FILE * fp, Packet * pkt)
         debug(9, "Packet: FSC-0048 orig net: %d -> %d", 0xFFFF, pkt->from.net);
     }
 
-    if (ferror(fp) == ERROR)
+    if (ferror(fp))
         return ERROR;
     return retVal;
 }
@@ -968,7 +968,7 @@ int pkt_put_string_padded(FILE * fp, char *s, int n)
     for (; i < n; i++)
         putc(0, fp);
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
@@ -1029,7 +1029,7 @@ int pkt_put_hdr_raw(FILE * fp, Packet * pkt)
     for (i = 0; i < sizeof(pkt->psd); i++)
         putc(pkt->psd[i], fp);
 
-    return ferror(fp);
+    return ferror(fp) ? ERROR : OK;
 }
 
 /*
-- 
2.43.0


From 3de7354320d5ec457c18fc81c7618d043de6afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 04/89] fix: packets, mails, area list and history were renamed
 into place although writing them failed

---
 src/common/areasbbs.c    |  9 +++++++-
 src/common/mail.c        | 49 ++++++++++++++++++++++++----------------
 src/common/outpkt.c      | 30 +++++++++++++++---------
 src/common/packet.c      | 11 ++++++++-
 src/include/prototypes.h |  4 ++--
 src/toss/ftnexpire.c     | 30 ++++++++++++++++++------
 6 files changed, 92 insertions(+), 41 deletions(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 9857b83..7be34ae 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -487,7 +487,14 @@ int areasbbs_rewrite(void)
     BUF_COPY(new, buffer);
     str_copy(new + ovwr, sizeof(new) - ovwr, "bbs");
     debug(4, "Renaming %s -> %s", old, new);
-    rename(old, new);
+    if (rename(old, new) == ERROR) {
+        fglog("$ERROR: can't rename %s to %s", old, new);
+        /* Put the previous version back */
+        BUF_COPY(old, buffer);
+        str_copy(old + ovwr, sizeof(old) - ovwr, "o01");
+        rename(old, new);
+        return ERROR;
+    }
 
     fglog("%s changed", buffer);
 
diff --git a/src/common/mail.c b/src/common/mail.c
index 7f33454..1d9edaf 100644
--- a/src/common/mail.c
+++ b/src/common/mail.c
@@ -102,34 +102,45 @@ FILE *mail_file(int sel)
 }
 
 /*
- * Close mail file
+ * Close one mail file, rename it if it is complete
  */
-void mail_close(int sel)
+static int mail_close_file(FILE ** f, char *tmp, char *name)
 {
+    int ret = OK;
+
+    if (ferror(*f))
+        ret = ERROR;
+    if (fclose(*f) != 0)
+        ret = ERROR;
+    *f = NULL;
+
+    if (ret != OK)
+        fglog("$ERROR: writing mail file %s failed", tmp);
+    else if (rename(tmp, name) == ERROR) {
+        fglog("$Can't rename mail file %s to %s", tmp, name);
+        ret = ERROR;
+    }
 
+    tmp[0] = 0;
+    name[0] = 0;
+
+    return ret;
+}
+
+/*
+ * Close mail file
+ */
+int mail_close(int sel)
+{
     switch (sel) {
     case 'm':
     case 'M':
-        fclose(m_file);
-        if (rename(m_tmp, m_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", m_tmp, m_name);
-
-        m_tmp[0] = 0;
-        m_name[0] = 0;
-        m_file = NULL;
-        break;
+        return mail_close_file(&m_file, m_tmp, m_name);
 
     case 'n':
     case 'N':
-        fclose(n_file);
-        if (rename(n_tmp, n_name) == ERROR)
-            fglog("$Can't rename mail file %s to %s", n_tmp, n_name);
-
-        n_tmp[0] = 0;
-        n_name[0] = 0;
-        n_file = NULL;
-        break;
+        return mail_close_file(&n_file, n_tmp, n_name);
     }
 
-    return;
+    return OK;
 }
diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 7641bb6..58ea0f9 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -266,9 +266,11 @@ FILE *outpkt_open(Node * from, Node * to,
 /*
  * Close all output packets
  */
-void outpkt_close(void)
+int outpkt_close(void)
 {
     OutPkt *p, *pn;
+    int ret = OK;
+    int err;
 
     for (p = outpkt_first; p;) {
         pn = p->next;
@@ -281,16 +283,24 @@ void outpkt_close(void)
             /* Terminating 0-word */
             pkt_put_int16(p->fp, 0);
             debug(3, "Close %s", p->tmpname);
-            if (fclose(p->fp) == ERROR)
-                debug(3, "Close failed");
+            err = ferror(p->fp);
+            if (fclose(p->fp) != 0)
+                err = 1;
 
             outpkt_nopen--;
 
-            /* Rename */
+            /* Rename, but never publish an incomplete packet */
             debug(3, "Rename %s -> %s", p->tmpname, p->outname);
-            if (rename(p->tmpname, p->outname) == ERROR)
-                debug(3, "Rename failed");
-        }
+            if (err) {
+                fglog("$ERROR: writing packet %s failed", p->tmpname);
+                ret = ERROR;
+            } else if (rename(p->tmpname, p->outname) == ERROR) {
+                fglog("$ERROR: can't rename %s to %s",
+                      p->tmpname, p->outname);
+                ret = ERROR;
+            }
+        } else
+            ret = ERROR;
 
         /* Delete OutPkt entry */
         xfree(p->tmpname);
@@ -304,7 +314,7 @@ void outpkt_close(void)
     outpkt_last = NULL;
     outpkt_nopen = 0;           /* Just to be sure ... */
 
-    return;
+    return ret;
 }
 
 /*
@@ -354,7 +364,5 @@ int outpkt_netmail(Message * msg, Textlist * tl, char *program, char *origin,
     /* Terminating 0-byte */
     putc(0, fp);
 
-    outpkt_close();
-
-    return OK;
+    return outpkt_close();
 }
diff --git a/src/common/packet.c b/src/common/packet.c
index d62125d..900c582 100644
--- a/src/common/packet.c
+++ b/src/common/packet.c
@@ -374,7 +374,10 @@ int pkt_close(void)
     if (packet_file) {
         /* End of packet */
         pkt_put_int16(packet_file, 0);
-        ret = fclose(packet_file);
+        if (ferror(packet_file))
+            ret = ERROR;
+        if (fclose(packet_file) != 0)
+            ret = ERROR;
 
         packet_file = NULL;
 
@@ -385,6 +388,12 @@ int pkt_close(void)
             packet_node.zone = -1;
         }
 
+        /* Never publish an incomplete packet */
+        if (ret != OK) {
+            fglog("$ERROR: writing packet %s failed", packet_tmp);
+            return ret;
+        }
+
         /* Rename .tmp -> .pkt, if not the same name */
         if (strcmp(packet_tmp, packet_name))
             if (rename(packet_tmp, packet_name) == ERROR) {
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9ec776c..9c454f0 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -343,7 +343,7 @@ extern char news_dir[MAXPATH];
 
 int mail_open(int);
 FILE *mail_file(int);
-void mail_close(int);
+int mail_close(int);
 
 /* message.c */
 int pkt_get_line(FILE *, char *, int);
@@ -497,7 +497,7 @@ char *outpkt_outputname(char *, char *, int, int, int, long, char *);
 long outpkt_sequencer(void);
 void outpkt_set_maxopen(int);
 FILE *outpkt_open(Node *, Node *, int, int, int, int);
-void outpkt_close(void);
+int outpkt_close(void);
 int outpkt_netmail(Message *, Textlist *, char *, char *, char *);
 void send_request(Textlist *);
 
diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index d21badc..1b00aa1 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -74,6 +74,7 @@ int do_expire(int type)
 {
     FILE *hi_o, *hi_n, *fp;
     TIMEINFO ti;
+    int ret = OK;
 
     /* Filenames */
     if (type == 1) {
@@ -159,15 +160,30 @@ int do_expire(int type)
 
     /* Process entries */
     while (fgets(buffer, sizeof(buffer), hi_o)) {
-        do_line(hi_n, buffer, type);
+        if (do_line(hi_n, buffer, type) == ERROR)
+            ret = ERROR;
+    }
+    if (ferror(hi_o)) {
+        fglog("$ERROR: read from MSGID history %s failed", history);
+        ret = ERROR;
     }
 
     /* Close everything */
-    /**FIXME: error checking**/
     fclose(hi_o);
-    fclose(hi_n);
-    dbzsync();
-    dbmclose();
+    if (ferror(hi_n))
+        ret = ERROR;
+    if (fclose(hi_n) != 0)
+        ret = ERROR;
+    if (dbzsync() < 0)
+        ret = ERROR;
+    if (dbmclose() < 0)
+        ret = ERROR;
+
+    /* Keep the old history if the new one is not complete */
+    if (ret != OK) {
+        fglog("$ERROR: writing MSGID history %s failed", history_n);
+        return ERROR;
+    }
 
     /* Rename */
     if (rename(history_n, history) == ERROR) {
@@ -210,7 +226,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p || !rfc_msgid) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
@@ -220,7 +236,7 @@ int do_line(FILE * hi_n, char *line, int type)
         if (!msgid || !p) {
             fglog("$WARNING: illegal entry in %s, line %ld", history,
                   history_line);
-            return ERROR;
+            return OK;
         }
     }
 
-- 
2.43.0


From def37ffe2c7a3e8c3299cdc23c84a0798b2f5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 05/89] fix: a failed write to an outbound packet closed early
 was not noticed

---
 src/common/outpkt.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/common/outpkt.c b/src/common/outpkt.c
index 58ea0f9..507647e 100644
--- a/src/common/outpkt.c
+++ b/src/common/outpkt.c
@@ -45,6 +45,7 @@ typedef struct st_outpkt {
     char bad;                   /* TRUE=bad packet, FALSE=normal packet */
     FILE *fp;                   /* FILE pointer, if opened */
     long n;                     /* Number of messages written to packet */
+    int err;                    /* Writing to packet failed */
 
     struct st_outpkt *next;
 } OutPkt;
@@ -81,6 +82,7 @@ OutPkt *outpkt_new(Node * from, Node * to)
     p->bad = FALSE;
     p->fp = NULL;
     p->n = 1;
+    p->err = FALSE;
     p->next = NULL;
 
     /* Put into linked list */
@@ -168,7 +170,11 @@ static int outpkt_close_ln(void)
     /* Close it */
     if (pmin) {
         debug(3, "Close %s", pmin->tmpname);
-        if (fclose(pmin->fp) == ERROR)
+        if (ferror(pmin->fp))
+            pmin->err = TRUE;
+        if (fclose(pmin->fp) != 0)
+            pmin->err = TRUE;
+        if (pmin->err)
             ret = ERROR;
         outpkt_nopen--;
         pmin->fp = NULL;
@@ -255,7 +261,9 @@ FILE *outpkt_open(Node * from, Node * to,
     if (pkt_put_hdr(p->fp, &pkt) == ERROR) {
         fglog("$Can't write to packet file %s", p->tmpname);
         fclose(p->fp);
+        outpkt_nopen--;
         p->fp = NULL;
+        p->err = TRUE;
         return NULL;
     }
 
@@ -283,9 +291,11 @@ int outpkt_close(void)
             /* Terminating 0-word */
             pkt_put_int16(p->fp, 0);
             debug(3, "Close %s", p->tmpname);
-            err = ferror(p->fp);
+            err = p->err;
+            if (ferror(p->fp))
+                err = TRUE;
             if (fclose(p->fp) != 0)
-                err = 1;
+                err = TRUE;
 
             outpkt_nopen--;
 
-- 
2.43.0


From 5f98de9c07cf4a1e96e02faaaa592d8db8beedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 06/89] fix: a wrong areafix password still granted the node's
 create and delete privileges

---
 src/areafix/areafix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 2fa31c2..ed98361 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -321,6 +321,10 @@ int areafix_auth_check(Node * node, char *passwd, int checkpass)
         return authorized;
     }
 
+    /* A wrong password gives no privileges */
+    if (!authorized)
+        return authorized;
+
     /* Extract level, key, and real name from pwd->args */
     s = strsave(pwd->args);
     if ((p = xstrtok(s, " \t")))
@@ -1967,7 +1971,7 @@ int cmd_delete(Node * node, char *area)
     Area *autocreate_area;
 #endif                          /* ACTIVE_LOOKUP */
 
-    if (!authorized_delete) {
+    if (!authorized || !authorized_delete) {
         areafix_printf("Command DELETE: not authorized.");
         return OK;
     }
-- 
2.43.0


From 02e6435e6a91610329384c912b44ba7948506403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 07/89] fix: programs ended with status 0 although processing
 or writing had failed

---
 src/areafix/ftnafutil.c |  2 +-
 src/gate/ftnin.c        |  4 ++--
 src/gate/rfc2ftn.c      | 11 +++++++----
 src/tick/ftnhatch.c     |  3 ++-
 src/toss/ftn2ftn.c      | 15 ++++++++++-----
 src/toss/ftnroute.c     |  4 +++-
 src/toss/ftntoss.c      | 14 +++++++++++---
 src/util/ftnflo.c       |  7 +++++--
 src/util/ftnoutpkt.c    |  4 ++--
 9 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 1619c48..7df146d 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -595,7 +595,7 @@ int main(int argc, char **argv)
         send_request(&req);
 
     if (ret == 0 && !n_flag)
-        if (!areasbbs_rewrite())
+        if (areasbbs_rewrite() == ERROR)
             ret = EX_CANTCREAT;
 
     unlock_path(bbslock);
diff --git a/src/gate/ftnin.c b/src/gate/ftnin.c
index 7472d19..365f481 100644
--- a/src/gate/ftnin.c
+++ b/src/gate/ftnin.c
@@ -307,8 +307,8 @@ int main(int argc, char **argv)
     if (exec)
         BUF_EXPAND(script, exec);
 
-    do_packets();
+    c = do_packets();
 
     exit_free();
-    exit(0);
+    exit(c == OK ? 0 : 1);
 }
diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 203fac9..27f8485 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2388,7 +2388,8 @@ int main(int argc, char **argv)
 
         if (newsmode) {
             /* Send mail to echo feed for news messages */
-            status = snd_mail(rfc_to, size, header);
+            if ((st = snd_mail(rfc_to, size, header)) != EX_OK)
+                status = st;
             tmps_freeall();
         } else {
             struct charset_info _ci, *ci = &_ci;
@@ -2399,7 +2400,8 @@ int main(int argc, char **argv)
 
             if (t_flag || optind >= argc) {  /* flag or no arguments */
                 /* Send mail to addresses from headers */
-                status = snd_to_cc_bcc(size, header);
+                if ((st = snd_to_cc_bcc(size, header)) != EX_OK)
+                    status = st;
                 tmps_freeall();
             } else {
                 /* Send mail to addresses from command line args */
@@ -2420,8 +2422,9 @@ int main(int argc, char **argv)
             break;
     }
 
-    pkt_close();
-    if (f_flag) {
+    if (pkt_close() == ERROR)
+        status = EX_IOERR;
+    else if (f_flag) {
         debug(3, "Removing list file %s", f_flag);
         fclose(fp);
         unlink(f_flag);
diff --git a/src/tick/ftnhatch.c b/src/tick/ftnhatch.c
index 826eb23..3299d75 100644
--- a/src/tick/ftnhatch.c
+++ b/src/tick/ftnhatch.c
@@ -298,7 +298,8 @@ int main(int argc, char **argv)
     /* Read FAreas.BBS */
     if (areasbbs_init(areas_bbs) == ERROR) {
         fglog("$ERROR: can't open %s", areas_bbs);
-        ret = EX_OSFILE;
+        exit_free();
+        exit(EX_OSFILE);
     }
 
     /* Hatch it! */
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index c7cff90..8a84deb 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -138,7 +138,8 @@ int do_message(Node * gate, Message * msg, MsgBody * body)
      * Write this message to the output packet
      */
     if (!o_flag && cf_zone() != last_zone)
-        pkt_close();
+        if (pkt_close() == ERROR)
+            return ERROR;
     if (!pkt_isopen())
         if ((fp = pkt_open(o_flag, NULL, NULL, FALSE)) == NULL)
             return ERROR;
@@ -186,7 +187,8 @@ int unpack(Node * gate, FILE * pkt_file, Packet * pkt)
     }
 
     /* Close packet */
-    pkt_close();
+    if (pkt_close() == ERROR)
+        TMPS_RETURN(ERROR);
 
     TMPS_RETURN(OK);
 }
@@ -294,6 +296,7 @@ options: -A --address-a Z:N/F.P       FTN address in network A\n\
 int main(int argc, char **argv)
 {
     int c;
+    int ret = 0;
     char *O_flag = NULL;
     char *c_flag = NULL;
     char *a_flag = NULL, *u_flag = NULL;
@@ -404,9 +407,11 @@ int main(int argc, char **argv)
      */
     if (optind >= argc) {
         /* Process outbound packets for both addresses */
-        do_outbound(&gate_a, &gate_b);
+        if (do_outbound(&gate_a, &gate_b) == ERROR)
+            ret = EX_OSERR;
         tmps_freeall();
-        do_outbound(&gate_b, &gate_a);
+        if (do_outbound(&gate_b, &gate_a) == ERROR)
+            ret = EX_OSERR;
         tmps_freeall();
     } else
         for (; optind < argc; optind++) {
@@ -415,5 +420,5 @@ int main(int argc, char **argv)
         }
 
     exit_free();
-    exit(EX_OK);
+    exit(ret);
 }
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 3e030d6..5517acc 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -1009,6 +1009,7 @@ int main(int argc, char **argv)
 
                 if (do_repack(buf, pattern, repack_time) == ERROR) {
                     debug(1, "error processing %s", buf);
+                    ret = EXIT_ERROR;
                 }
             }
         } else {                /* non-aso */
@@ -1104,7 +1105,8 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
+    if (outpkt_close() == ERROR)
+        ret = EXIT_ERROR;
 
     if (p_flag) {
         BUF_COPY4(buffer, cf_p_libexecdir(), "/ftnpack -I ", cf_p_spooldir(),
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 7100ad0..b2df6cc 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2124,7 +2124,12 @@ int main(int argc, char **argv)
         exit_free();
         return EXIT_BUSY;
     }
-    areasbbs_init(areas_bbs);
+    if (areasbbs_init(areas_bbs) == ERROR) {
+        fglog("$ERROR: can't open %s", areas_bbs);
+        unlock_path(bbslock);
+        exit_free();
+        return EX_OSFILE;
+    }
     passwd_init();
 
     /* Install signal/exit handlers */
@@ -2240,7 +2245,8 @@ int main(int argc, char **argv)
             unlock_program(PROGRAM);
     }
 
-    outpkt_close();
+    if (outpkt_close() == ERROR)
+        c = EXIT_ERROR;
 
     /* Stop time */
     toss_delta = time(NULL) - toss_start;
@@ -2308,8 +2314,10 @@ int main(int argc, char **argv)
     if (notify.n > 0)
         send_request(&notify);
 
-    if (ERROR == areasbbs_rewrite())
+    if (ERROR == areasbbs_rewrite()) {
         fglog("error while rewriting areas.bbs");
+        c = EXIT_ERROR;
+    }
 
     unlock_path(bbslock);
 
diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 8046f58..6845355 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -159,6 +159,7 @@ options:  -B --binkley NAME            set Binkley-style outbound directory\n\
 int main(int argc, char **argv)
 {
     int c;
+    int ret = 0;
     char *B_flag = NULL;
     char *c_flag = NULL;
     Node node;
@@ -246,11 +247,13 @@ int main(int argc, char **argv)
         if (asc_to_node(argv[optind], &node, FALSE) == ERROR) {
             fprintf(stderr, "%s: not an FTN address: %s\n",
                     PROGRAM, argv[optind]);
+            ret = EX_DATAERR;
             continue;
         }
-        do_flo(&node);
+        if (do_flo(&node) == ERROR)
+            ret = EX_OSERR;
     }
 
     exit_free();
-    return 0;
+    return ret;
 }
diff --git a/src/util/ftnoutpkt.c b/src/util/ftnoutpkt.c
index ceac0a5..dbffb6c 100644
--- a/src/util/ftnoutpkt.c
+++ b/src/util/ftnoutpkt.c
@@ -254,9 +254,9 @@ int main(int argc, char **argv)
             while ('\0' != *tmp)
                 toupper(*(tmp++));
         }
-        do_addr(&from, &to, s_flag, &tl, A_flag, o_flag, t_flag);
+        c = do_addr(&from, &to, s_flag, &tl, A_flag, o_flag, t_flag);
     }
 
     exit_free();
-    return 0;
+    return c == OK ? 0 : EX_CANTCREAT;
 }
-- 
2.43.0


From 3fbc31807491d3df1d2922ed114cd319c89175e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 08/89] fix: busy flags leaked or were released too early on
 error paths (flo_openx, bink_attach, ftnin, ftn2ftn)

---
 src/common/binkley.c |  2 +-
 src/common/flo.c     | 11 ++++++-----
 src/gate/ftnin.c     |  1 +
 src/toss/ftn2ftn.c   | 23 ++++++++++++-----------
 4 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/common/binkley.c b/src/common/binkley.c
index 53dc9b1..b465b2c 100644
--- a/src/common/binkley.c
+++ b/src/common/binkley.c
@@ -325,7 +325,7 @@ int bink_attach(Node * node, int mode, char *name, char *flav, int bsy)
     /* seek to start of flo file */
     if (fseek(fp, 0L, SEEK_SET) == ERROR) {
         fglog("$fseek EOF FLO file node %s failed", znfp1(node));
-        flo_close(node, TRUE, FALSE);
+        flo_close(node, bsy, FALSE);
         return ERROR;
     }
 
diff --git a/src/common/flo.c b/src/common/flo.c
index 31258b8..51461df 100644
--- a/src/common/flo.c
+++ b/src/common/flo.c
@@ -98,6 +98,7 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
         if (bsy)
             bink_bsy_delete(node);
         fclose(flo_fp);
+        flo_fp = NULL;
         return ERROR;
     }
 
@@ -105,12 +106,12 @@ int flo_openx(Node * node, int bsy, char *flav, int apmode)
     if (access(flo_name, F_OK) == ERROR) {
         debug(4, "FLO file %s deleted after locking", flo_name);
         fclose(flo_fp);
-        if (apmode) {
-            if (bsy)
-                bink_bsy_delete(node);
+        flo_fp = NULL;
+        if (apmode)
             goto again;
-        } else
-            return ERROR;
+        if (bsy)
+            bink_bsy_delete(node);
+        return ERROR;
     }
 
     debug(4, "FLO file %s open and locking succeeded", flo_name);
diff --git a/src/gate/ftnin.c b/src/gate/ftnin.c
index 365f481..7308e8a 100644
--- a/src/gate/ftnin.c
+++ b/src/gate/ftnin.c
@@ -130,6 +130,7 @@ int do_packets(void)
             if ((name = bink_find_flo(node, NULL))) {
                 debug(5, "FLO file=%s", name);
                 if (flo_open(node, FALSE) == ERROR) {
+                    bink_bsy_delete(node);
                     continue;
                 }
 
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index 8a84deb..b837a86 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -209,13 +209,12 @@ int unpack_file(Node * gate, char *pkt_name)
     pkt_file = fopen(pkt_name, R_MODE);
     if (!pkt_file) {
         fglog("$Can't open packet %s", pkt_name);
-        exit_free();
-        exit(EX_OSERR);
+        return ERROR;
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
+        fclose(pkt_file);
         fglog("Error reading header from %s", pkt_name);
-        exit_free();
-        exit(EX_OSERR);
+        return ERROR;
     }
 
     /*
@@ -224,16 +223,14 @@ int unpack_file(Node * gate, char *pkt_name)
     if (unpack(gate, pkt_file, &pkt) != OK) {
         fclose(pkt_file);
         fglog("Error in unpacking %s", pkt_name);
-        exit_free();
-        exit(EX_OSERR);
+        return ERROR;
     }
 
     fclose(pkt_file);
 
     if (unlink(pkt_name)) {
         fglog("$Could not unlink packet %s", pkt_name);
-        exit_free();
-        exit(EX_OSERR);
+        return ERROR;
     }
 
     return OK;
@@ -245,6 +242,7 @@ int unpack_file(Node * gate, char *pkt_name)
 int do_outbound(Node * gate_outb, Node * gate_other)
 {
     char *name;
+    int ret = OK;
 
     /* Create BSY file */
     if (bink_bsy_create(gate_outb, NOWAIT) == ERROR)
@@ -252,13 +250,13 @@ int do_outbound(Node * gate_outb, Node * gate_other)
 
     /* Find and process OUT packet file */
     if ((name = bink_find_out(gate_outb, NULL)))
-        unpack_file(gate_other, name);
+        ret = unpack_file(gate_other, name);
 
     /* Delete BSY file */
     if (bink_bsy_delete(gate_outb) == ERROR)
         return ERROR;
 
-    return OK;
+    return ret;
 }
 
 /*
@@ -415,7 +413,10 @@ int main(int argc, char **argv)
         tmps_freeall();
     } else
         for (; optind < argc; optind++) {
-            unpack_file(&gate_a, argv[optind]);
+            if (unpack_file(&gate_a, argv[optind]) == ERROR) {
+                ret = EX_OSERR;
+                break;
+            }
             tmps_freeall();
         }
 
-- 
2.43.0


From 4da9190c7f0e2d6e1b5adfdba3b7a8be9c7e66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 09/89] fix: ftnpack and ftnroute changed outbounds without or
 kept holding the busy flags

---
 src/toss/ftnpack.c  | 11 +++++++++--
 src/toss/ftnroute.c | 24 ++++++++++++++++++------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 136c184..ac0dd6f 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -789,12 +789,19 @@ int do_pack(PktDesc * desc, char *name, FILE * file, Packing * pack)
     set_zero(&arcnode);
     set_zero(&flonode);
 
-    if (node_eq(&arcnode, &flonode) &&
+    /* Create BSY file(s) */
+    if (bink_bsy_create(&arcnode, NOWAIT) == ERROR) {
+        debug(1, "%s busy, skipping", znfp1(&arcnode));
+        if (file)
+            fclose(file);
+        return OK;              /* This is o.k. */
+    }
+    if (!node_eq(&arcnode, &flonode) &&
         bink_bsy_create(&flonode, NOWAIT) == ERROR) {
         debug(1, "%s busy, skipping", znfp1(&flonode));
         if (file)
             fclose(file);
-/*	bink_bsy_delete(&arcnode); */
+        bink_bsy_delete(&arcnode);
         return OK;              /* This is o.k. */
     }
 
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 5517acc..173e62c 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -733,6 +733,10 @@ int do_repack(char *dir, char *wildcard, int repack_time)
     time_t now;
     char *pkt_name;
     char buf[MAXPATH];
+#ifdef DO_BSY_FILES
+    char bsy[MAXPATH];
+#endif
+    int ret;
 
     if (repack_time != -1)
         now = time(NULL) - repack_time;
@@ -748,14 +752,14 @@ int do_repack(char *dir, char *wildcard, int repack_time)
     for (pkt_name = dir_get_mtime(now, TRUE); pkt_name;
          pkt_name = dir_get_mtime(now, FALSE)) {
 #ifdef DO_BSY_FILES
-        BUF_COPY(buf, pkt_name);
-        buf[strlen_zero(buf) - 3] = '\0';
-        BUF_APPEND(buf, "bsy");
+        BUF_COPY(bsy, pkt_name);
+        bsy[strlen_zero(bsy) - 3] = '\0';
+        BUF_APPEND(bsy, "bsy");
 
 #ifdef NFS_SAFE_LOCK_FILES
-        if (lock_lockfile_nfs(buf, NOWAIT, NULL) == ERROR)
+        if (lock_lockfile_nfs(bsy, NOWAIT, NULL) == ERROR)
 #else
-        if (lock_lockfile(buf, NOWAIT) == ERROR)
+        if (lock_lockfile(bsy, NOWAIT) == ERROR)
 #endif
             continue;
 #endif                          /* DO_BSY_FILES */
@@ -764,7 +768,15 @@ int do_repack(char *dir, char *wildcard, int repack_time)
                 TYPE_NETMAIL, FLAV_NORMAL, outpkt_sequencer());
 
         debug(5, "rename %s -> %s", pkt_name, buf);
-        rename(pkt_name, buf);
+        ret = rename(pkt_name, buf);
+#ifdef DO_BSY_FILES
+        /* Packet is out of the outbound now */
+        unlink(bsy);
+#endif
+        if (ret == ERROR) {
+            fglog("$ERROR: can't rename %s to %s", pkt_name, buf);
+            continue;
+        }
 
         if (do_file(buf) == ERROR) {
             dir_close();
-- 
2.43.0


From 32a36a878a673c02698ac8f3c0b37ce98624084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 10/89] fix: lock files were not created atomically;
 interrupted waits for file locks failed

---
 src/common/lock.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common/lock.c b/src/common/lock.c
index 2baf9cb..eb39e40 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -98,7 +98,7 @@ int lock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
@@ -123,7 +123,7 @@ int unlock_fd(int fd)
     do {
         err = fcntl(fd, F_SETLKW, &fl);
     }
-    while (err == EINTR);
+    while (err == -1 && errno == EINTR);
 
     return err;
 #endif
@@ -255,6 +255,7 @@ int unlock_lockfile_nfs(char *name)
 int lock_lockfile(char *name, int wait)
 {
     FILE *fp = NULL;
+    int fd;
     short int wait_time = FALSE;
     short int exists_lock = FALSE;
 
@@ -267,10 +268,24 @@ int lock_lockfile(char *name, int wait)
         /* if there is a stale lock, this function will remove it */
         switch (check_stale_lock(name)) {
         case LOCKFILE_UNLOCKED:
-            if ((fp = fopen(name, "w")) == NULL)
+            /* Must fail if another process was faster */
+            fd = open(name, O_WRONLY | O_CREAT | O_EXCL, 0666);
+            if (fd == -1) {
+                if (errno != EEXIST)
+                    return ERROR;
+                exists_lock = TRUE;
+                break;
+            }
+            if ((fp = fdopen(fd, "w")) == NULL) {
+                close(fd);
+                unlink(name);
                 return ERROR;
+            }
             fprintf(fp, "%d\n", (int)getpid());
-            fclose(fp);
+            if (fclose(fp) != 0) {
+                unlink(name);
+                return ERROR;
+            }
             return OK;
 
         case LOCKFILE_LOCKED:
-- 
2.43.0


From ea4d78f96f99531544a3af9671d0a4d2ff47c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 11/89] fix: ftnaf and ftnafpkt rewrote the area list without
 its lock for command line requests

---
 src/areafix/ftnaf.c    |  8 ++++++++
 src/areafix/ftnafpkt.c | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/areafix/ftnaf.c b/src/areafix/ftnaf.c
index 74d030a..0cf9092 100644
--- a/src/areafix/ftnaf.c
+++ b/src/areafix/ftnaf.c
@@ -359,7 +359,14 @@ int main(int argc, char **argv)
 
         areafix_auth_check(&node, NULL, FALSE);
 
+        BUF_COPY2(bbslock, areas_bbs, ".lock");
+        if (lock_path(bbslock, w_flag ? w_flag : WAIT) == ERROR) {
+            areafix_free();
+            exit_free();
+            return EX_OSERR;
+        }
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             areafix_free();
             exit_free();
             return EX_OSFILE;
@@ -380,6 +387,7 @@ int main(int argc, char **argv)
         if (ret == 0 && !n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EX_CANTCREAT;
+        unlock_path(bbslock);
     }
 
     areafix_free();
diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index b23dbe5..0fb2488 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -568,8 +568,17 @@ int main(int argc, char **argv)
                 return EXIT_BUSY;
             }
 
+        BUF_COPY2(bbslock, areafix_areasbbs(), ".lock");
+        if (ERROR == lock_path(bbslock, w_flag ? w_flag : WAIT)) {
+            if (l_flag)
+                unlock_program(PROGRAM);
+            exit_free();
+            return EXIT_BUSY;
+        }
+
         /* Read areas.bbs */
         if (areasbbs_init(areafix_areasbbs()) == ERROR) {
+            unlock_path(bbslock);
             if (l_flag)
                 unlock_program(PROGRAM);
             exit_free();
@@ -593,6 +602,8 @@ int main(int argc, char **argv)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
+        unlock_path(bbslock);
+
         /* Lock file */
         if (l_flag)
             unlock_program(PROGRAM);
-- 
2.43.0


From 5c0b687217360983a05076fa03caa50b5a093aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 12/89] fix: rfc2ftn -o attached files to a node's outbound
 without its busy flag

---
 src/gate/rfc2ftn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 27f8485..4d59295 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -957,7 +957,7 @@ static int snd_message(Message * msg, Area * parea,
             if (msg->attr & MSG_FILE) {
                 for (p = xstrtok(subj, " \t"); p; p = xstrtok(NULL, " \t")) {
                     /* Attach */
-                    if (bink_attach(&nn, 0, p, flav, FALSE) != OK)
+                    if (bink_attach(&nn, 0, p, flav, o_flag && o_flag[0]) != OK)
                         return EX_CANTCREAT;
                 }
                 /* New subject is base name of file attach */
-- 
2.43.0


From 4f75098ef75fdaff265554f51663f69e769fd21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:54 +0000
Subject: [PATCH 13/89] fix: ftngenpkt reported success although its output
 could not be written completely

---
 src/util/ftngenpkt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/ftngenpkt.c b/src/util/ftngenpkt.c
index f866030..9f626af 100644
--- a/src/util/ftngenpkt.c
+++ b/src/util/ftngenpkt.c
@@ -349,8 +349,10 @@ static int packet_write(struct cfg *cfg, Textlist * body)
 
     rc = _packet_write(cfg, body, fp);
 
-    if (fp != stdout)
-        fclose(fp);
+    if (fp == stdout ? fflush(fp) != 0 : fclose(fp) != 0) {
+        fprintf(stderr, "Could not write output file: %m\n");
+        rc = -EIO;
+    }
 
     return rc;
 }
-- 
2.43.0


From c290b77f65283671eb6c8235a298a7f41702f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 14/89] fix: ftntoss lost messages for unknown areas that it
 could not keep as bad mail

---
 src/toss/ftntoss.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index b2df6cc..8adeb5a 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -803,15 +803,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
                 ("node %s not authorized to create area %s (config restriction)",
                  znfp1(&msg->node_from), areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (areafix_check_forbidden_area(areaname)) {
             fglog("area %s is forbidden to create", areaname);
             /* Unknown area */
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (!int_uplinks) {
@@ -828,15 +826,13 @@ int do_echomail(Packet * pkt, Message * msg, MsgBody * body)
         if (OK != cmd_new_int(&msg->node_from, autocreate_cmd, NULL)) {
             fglog("can't create area %s from %s (cmd_new() returned ERROR)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         if (NULL == (area = areasbbs_lookup(areaname))) {
             fglog("can't create area %s from %s (not found after creation)",
                   areaname, znfp1(&msg->node_from));
-            do_unknown_area(areaname, msg, body);
-            return OK;
+            return do_unknown_area(areaname, msg, body);
         }
 
         fglog("created area %s from %s", areaname, znfp1(&msg->node_from));
-- 
2.43.0


From c5715cbfc4762425968c778d1186020076af84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 15/89] fix: ftn2rfc removed packets although reading or
 writing their messages had failed

---
 src/gate/ftn2rfc.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e943095..fab95d1 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -683,8 +683,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
          */
 
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
             fglog("ERROR: parsing message body");
+            ret = ERROR;
+            break;
+        }
 
 	/* ftn date is local, need to parse body kludges to adjust. */
 	msg_adjust_date_to_tz(&msg, kludge_get(&body.kludge, "TZUTC", NULL));
@@ -1659,8 +1662,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('n'));
             tl_print(&tbody, mail_file('n'));
 
-            if (single_articles)
-                mail_close('n');
+            if (single_articles && mail_close('n') == ERROR) {
+                ret = ERROR;
+                break;
+            }
         } else {
             if (mail_open('m') == ERROR) {
                 ret = ERROR;
@@ -1671,7 +1676,10 @@ int unpack(FILE * pkt_file, Packet * pkt)
             tl_print(&theader, mail_file('m'));
             tl_print(&tbody, mail_file('m'));
             /* Close mail */
-            mail_close('m');
+            if (mail_close('m') == ERROR) {
+                ret = ERROR;
+                break;
+            }
         }
 
         tl_clear(&theader);
@@ -1684,8 +1692,8 @@ int unpack(FILE * pkt_file, Packet * pkt)
             xfree(cs_save);
     } /**while(type == MSG_TYPE)**/
 
-    if (mail_file('n'))
-        mail_close('n');
+    if (mail_file('n') && mail_close('n') == ERROR)
+        ret = ERROR;
 
     TMPS_RETURN(ret);
 }
-- 
2.43.0


From 5c36748c44adc9b77776a520341c67ecda89c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 16/89] fix: ftnafpkt removed packets after a message in them
 could not be parsed

---
 src/areafix/ftnafpkt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 0fb2488..d38218c 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -214,8 +214,10 @@ int do_packet(FILE * pkt_file, Packet * pkt)
 
         /* Read & parse message body */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
             fglog("ERROR: parsing message body");
+            TMPS_RETURN(ERROR);
+        }
 
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
-- 
2.43.0


From 5fb777f96371e2e5976f76457585d900ebf51ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 17/89] fix: ftninpost deleted mail that could neither be
 delivered nor renamed

---
 src/gate/ftninpost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index 68c038b..f1bc776 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -271,8 +271,8 @@ int do_dir(char *cdir, int mode)
                 str_change_ext(bad, sizeof(bad), rfc_file, ".bad");
                 fglog("ERROR: bad rfcbatch renamed to %s", bad);
                 rename(rfc_file, bad);
-            }
-            unlink(rfc_file);
+            } else
+                unlink(rfc_file);
         }
     }
     dir_close();
-- 
2.43.0


From ff57294d15007e4e1fb30dfbed25ea55beb50067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 18/89] fix: ftntick overwrote area list changes made between
 reading and locking it

---
 src/common/areasbbs.c | 2 ++
 src/tick/ftntick.c    | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 7be34ae..5f9398a 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -616,6 +616,8 @@ void areasbbs_free(void)
             lon_delete(&p->nodes);
         xfree(p);
     }
+    areasbbs_list = areasbbs_last = NULL;
     if (areasbbs_1stline)
         xfree(areasbbs_1stline);
+    areasbbs_1stline = NULL;
 }
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index dbffb3f..14fed03 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -245,6 +245,15 @@ int do_tic(int w_flag)
             exit(EXIT_BUSY);
         }
 
+        /* Read FAreas.BBS again, it may have changed before it was locked */
+        areasbbs_free();
+        if (areasbbs_init(areas_bbs) == ERROR) {
+            fglog("$ERROR: can't open %s", areas_bbs);
+            unlock_path(bbslock);
+            dir_close();
+            return ERROR;
+        }
+
         if (process_tic(&tic) == ERROR) {
             areasbbs_rewrite();
             unlock_path(bbslock);
-- 
2.43.0


From f5254b744f6a071ea0ee440e825b1e3358926d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 19/89] fix: ftntoss gave the history lock back before its
 history writes were flushed

---
 src/toss/ftntoss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 8adeb5a..f00e831 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2185,8 +2185,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         dir_close();
@@ -2232,8 +2232,8 @@ int main(int argc, char **argv)
 
         /* Close history */
         if (dupe_check) {
-            unlock_program(cf_p_lock_history());
             hi_close();
+            unlock_program(cf_p_lock_history());
         }
 
         /* Lock file */
-- 
2.43.0


From 2af7a8725a64b0d20e4d4f611bdb6782455ecb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 20/89] fix: sequencer could empty a counter another program
 had just created, and handed out numbers it had not locked or stored

---
 src/common/sequencer.c | 67 ++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/common/sequencer.c b/src/common/sequencer.c
index 22ee9d6..00a18de 100644
--- a/src/common/sequencer.c
+++ b/src/common/sequencer.c
@@ -39,22 +39,43 @@ long sequencer(char *seqname)
     return sequencer_nx(seqname, TRUE);
 }
 
+/*
+ * Create the sequencer file. Another process may have created it in the
+ * meantime, so an existing file must be left as it is.
+ */
+static FILE *sequencer_create(char *filename)
+{
+    FILE *fp;
+    int fd;
+
+    fd = open(filename, O_RDWR | O_CREAT, 0666);
+    if (fd == -1)
+        return NULL;
+    fp = fdopen(fd, RP_MODE);
+    if (fp == NULL)
+        close(fd);
+
+    return fp;
+}
+
 long sequencer_nx(char *seqname, int err_abort)
 {
     char filename[MAXPATH];
+    char line[32];
     FILE *fp;
-    long seqn;
+    long seqn = 0;
+    int failed;
 
     /* Open file, create if necessary */
     BUF_EXPAND(filename, seqname);
     if ((fp = fopen(filename, RP_MODE)) == NULL)
         if (errno == ENOENT) {
-            if (!(fp = fopen(filename, WP_MODE))) {
+            if (!(fp = sequencer_create(filename))) {
                 fp = fopen(cf_p_seq_pack(), RP_MODE);
                 if (fp == NULL) {
                     if (errno == ENOENT) {
                         mkdir(cf_p_seq_pack(), DIR_MODE);
-                        fp = fopen(filename, WP_MODE);
+                        fp = sequencer_create(filename);
                     } else
                         return ERROR;
                 } else {
@@ -73,22 +94,36 @@ long sequencer_nx(char *seqname, int err_abort)
     }
 
     /* Lock file, get number and increment it */
-    lock_file(fp);
+    failed = lock_file(fp) == ERROR;
+
+    if (!failed) {
+        if (fgets(line, sizeof(line), fp))
+            seqn = atol(line);
+        else
+            seqn = 0;
+        failed = ferror(fp);
+    }
 
-    /* filename[] is also used as a buffer for reading the seq value */
-    if (fgets(filename, sizeof(filename), fp))
-        seqn = atol(filename);
-    else
-        seqn = 0;
-    seqn++;
-    if (seqn < 0)
-        seqn = 0;
+    if (!failed) {
+        seqn++;
+        if (seqn < 0)
+            seqn = 0;
 
-    rewind(fp);
-    fprintf(fp, "%ld\n", seqn);
-    rewind(fp);
+        rewind(fp);
+        fprintf(fp, "%ld\n", seqn);
+        failed = ferror(fp);
+    }
 
-    fclose(fp);
+    /* Closing writes the number, then gives the lock back */
+    if (fclose(fp) == EOF)
+        failed = TRUE;
+
+    if (failed) {
+        fglog("$ERROR: can't update sequencer file %s", filename);
+        if (err_abort)
+            exit(EX_OSFILE);
+        return ERROR;
+    }
 
     return seqn;
 }
-- 
2.43.0


From a6ed6395b8b8f9efd60a0b66f6dfa7a8b8aeff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 21/89] fix: packets were removed although reading them had
 failed between two messages

---
 src/areafix/ftnafpkt.c | 5 +++++
 src/areafix/pkttmpl.c  | 9 ++++++++-
 src/gate/ftn2rfc.c     | 5 +++++
 src/toss/ftn2ftn.c     | 5 +++++
 src/toss/ftnroute.c    | 5 +++++
 src/toss/ftntoss.c     | 5 +++++
 6 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index d38218c..0e4d62c 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -254,6 +254,11 @@ int do_packet(FILE * pkt_file, Packet * pkt)
         }
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        TMPS_RETURN(ERROR);
+    }
+
     TMPS_RETURN(OK);
 }
 
diff --git a/src/areafix/pkttmpl.c b/src/areafix/pkttmpl.c
index b67bfd7..bddab0f 100644
--- a/src/areafix/pkttmpl.c
+++ b/src/areafix/pkttmpl.c
@@ -108,8 +108,10 @@ int do_packet(FILE * pkt_file, Packet * pkt)
 
         /* Read & parse message body */
         if (pkt_get_body_parse(pkt_file, &body, &msg.node_from, &msg.node_to) !=
-            OK)
+            OK) {
             fglog("ERROR: parsing message body");
+            TMPS_RETURN(ERROR);
+        }
         /* Retrieve address information from kludges for NetMail */
         if (body.area == NULL) {
             /* Retrieve complete address from kludges */
@@ -146,6 +148,11 @@ int do_packet(FILE * pkt_file, Packet * pkt)
         }
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        TMPS_RETURN(ERROR);
+    }
+
     TMPS_RETURN(OK);
 }
 
diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index fab95d1..b83416e 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1692,6 +1692,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
             xfree(cs_save);
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        ret = ERROR;
+    }
+
     if (mail_file('n') && mail_close('n') == ERROR)
         ret = ERROR;
 
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index b837a86..ef0cb3c 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -186,6 +186,11 @@ int unpack(Node * gate, FILE * pkt_file, Packet * pkt)
             TMPS_RETURN(ERROR);
     }
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        TMPS_RETURN(ERROR);
+    }
+
     /* Close packet */
     if (pkt_close() == ERROR)
         TMPS_RETURN(ERROR);
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 173e62c..f57281c 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -680,6 +680,11 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         tmps_freeall();
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading packet %s", pkt_name);
+        ret = severe_error = ERROR;
+    }
+
     if (fclose(pkt_file) == ERROR) {
         fglog("$ERROR: can't close packet %s", pkt_name);
         TMPS_RETURN(severe_error = ERROR);
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index f00e831..13ebefb 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1706,6 +1706,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
         tmps_freeall();
     } /**while(type == MSG_TYPE)**/
 
+    if (ferror(pkt_file)) {
+        fglog("$ERROR: reading input packet");
+        TMPS_RETURN(ERROR);
+    }
+
     TMPS_RETURN(OK);
 }
 
-- 
2.43.0


From 81c282a616bc36546f70e2ca788ad4ffb958be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 22/89] fix: close the history files hi_init creates

---
 src/common/histdb.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 05b2c0a..5a030fc 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -89,8 +89,9 @@ short int hi_init(char *his_file)
         if ((fp = fopen(buffer, W_MODE)) == NULL) {
             fglog("$ERROR: creating MSGID history %s failed", buffer);
             return ERROR;
-        } else
-            debug(9, "creating MSGID history %s", buffer);
+        }
+        fclose(fp);
+        debug(9, "creating MSGID history %s", buffer);
     }
     BUF_EXPAND(buffer, his_file);
     BUF_APPEND(buffer, ".pag");
@@ -99,8 +100,9 @@ short int hi_init(char *his_file)
         if ((fp = fopen(buffer, W_MODE)) == NULL) {
             fglog("$ERROR: creating MSGID history %s failed", buffer);
             return ERROR;
-        } else
-            fglog("creating MSGID history %s", buffer);
+        }
+        fclose(fp);
+        fglog("creating MSGID history %s", buffer);
     }
     /* Open the history text file */
     BUF_EXPAND(buffer, his_file);
-- 
2.43.0


From d8764d1452b09e112406dc1b742bbc8f2a1f7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 23/89] fix: tick_put: notice creat() failing and close its
 descriptor

---
 src/common/tick.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index f928166..1ae28cd 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -94,11 +94,13 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     FILE *fp;
     LNode *p;
     Textline *pl;
+    int fd;
 
-    if (!creat(name, mode)) {
+    if ((fd = creat(name, mode)) == -1) {
         fglog("ERROR: can't create file %s (%s)", name, strerror(errno));
         return ERROR;
     }
+    close(fd);
 
     if ((fp = fopen(name, W_MODE)) == NULL)
         return ERROR;
-- 
2.43.0


From 7abb90eb978d62e07751848a2105fd9f082a6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 24/89] fix: areafix: close the echo lists and rules files it
 reads

---
 src/areafix/areafix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index ed98361..e0a0eee 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1323,6 +1323,7 @@ int cmd_list(Node * node, int flag) /* FALSE -> %avail; TRUE -> %list */
             while (cf_getline(buffer, BUFFERSIZE, fp)) {
                 areafix_printf("%s", buffer);
             }
+            fclose(fp);
         }
     }
 
@@ -2255,11 +2256,13 @@ short int send_rules(Node * link, char *area)
             if (!(filen = xstrtok(NULL, " \t"))) {
                 fglog("ERROR: can't find rules file correspond for area %s",
                       area);
+                fclose(fp);
                 return ERROR;
             }
             break;
         }
     }
+    fclose(fp);
 
     if (!filen) {
         debug(5, "find rules-file for %s area", area);
@@ -2273,6 +2276,7 @@ short int send_rules(Node * link, char *area)
 
     while (cf_getline(buffer, BUFFERSIZE, fp))
         tl_append(&send, buffer);
+    fclose(fp);
 
     msg.attr = MSG_DIRECT;
     msg.cost = 0;
-- 
2.43.0


From 9be9c2be53dcdbc7141c3a51d2133475424f0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 25/89] fix: ftnroute: close rejected packets, leave closing
 output packets to outpkt

---
 src/toss/ftnroute.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index f57281c..eb08e36 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -319,8 +319,10 @@ int do_routing(char *name, FILE * fp, Packet * pkt)
     Node match;
 
     desc = parse_pkt_name(name, &pkt->from, &pkt->to);
-    if (desc == NULL)
+    if (desc == NULL) {
+        fclose(fp);
         return ERROR;
+    }
 
     debug(2, "Source packet: from=%s to=%s grade=%c type=%c flav=%c",
           znfp1(&desc->from), znfp2(&desc->to),
@@ -623,7 +625,6 @@ int do_packet(char *pkt_name, FILE * pkt_file, Packet * pkt, PktDesc * desc)
         }
 
         if (msg.attr & MSG_DIRECT && !node_eq(&desc->to, &pkt->to)) {
-            fclose(fp);
             debug(1, "routing: direct (%s)", znfp1(&pkt->to));
             desc->to = pkt->to;
             return do_move(pkt_name, pkt_file, desc);
@@ -718,6 +719,7 @@ int do_file(char *pkt_name)
 
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         TMPS_RETURN(ERROR);
     }
 
-- 
2.43.0


From c803c3e6f1998d44f6a6aa222d274e5bfac8556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 26/89] fix: ftnpack: close packets that are rejected or not
 packed

---
 src/toss/ftnpack.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index ac0dd6f..6e9dbbf 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -534,13 +534,18 @@ int do_arcmail(char *name, Node * arcnode, Node * flonode,
 
     arcn = arcmail_name(arcnode, dir);
     pktn = packing_pkt_name(NULL, name);
-    if (!arcn)
+    if (!arcn) {
+        fclose(file);
         return ERROR;
-    if (arcmail_search(arcn, max_arc, check_size(pktn)) == ERROR)
+    }
+    if (arcmail_search(arcn, max_arc, check_size(pktn)) == ERROR) {
+        fclose(file);
         return ERROR;
+    }
 
     if (bink_mkdir(arcnode) == ERROR) {
         fglog("ERROR: can't create outbound dir");
+        fclose(file);
         return ERROR;
     }
 
@@ -868,25 +873,24 @@ int do_dirpack(PktDesc * desc, char *name, FILE * file, Packing * pack)
     }
 
     /* dirpack */
-    if (pack->pack == PACK_DIR && pack->arc && pack->arc->pack == PACK_ARC) {
-        if (pack->arc->prog) {
-            fglog("archiving packet (%ldb) for %s (%s) in %s",
-                  check_size(name), znfp1(&desc->to), pack->arc->name,
-                  pack->dir);
-
-            ret = do_arcmail(name, &arcnode, &flonode, desc,
-                             file, pack->arc->prog, pack->dir, pack->maxarc);
-        }
+    if (pack->pack == PACK_DIR && pack->arc && pack->arc->pack == PACK_ARC
+        && pack->arc->prog) {
+        fglog("archiving packet (%ldb) for %s (%s) in %s",
+              check_size(name), znfp1(&desc->to), pack->arc->name,
+              pack->dir);
+
+        ret = do_arcmail(name, &arcnode, &flonode, desc,
+                         file, pack->arc->prog, pack->dir, pack->maxarc);
     }
-
     /* dirmove */
-    if (pack->pack == PACK_MOVE) {
+    else if (pack->pack == PACK_MOVE) {
         fglog("moving packet (%ldb) for %s to %s",
               check_size(name), znfp1(&desc->to), pack->dir);
 
         pktn = packing_pkt_name(pack->dir, name);
         ret = do_noarc(name, &flonode, desc, file, pktn);
-    }
+    } else
+        fclose(file);
 
     /* Delete BSY file */
     bink_bsy_delete(&arcnode);
@@ -922,8 +926,10 @@ int do_packing(char *name, FILE * fp, Packet * pkt)
     } else {
         /* Parse description from filename */
         desc = parse_pkt_name(name, &pkt->from, &pkt->to);
-        if (desc == NULL)
+        if (desc == NULL) {
+            fclose(fp);
             TMPS_RETURN(ERROR);
+        }
     }
 
     debug(2, "Packet: from=%s to=%s grade=%c type=%c flav=%c",
@@ -946,6 +952,7 @@ int do_packing(char *name, FILE * fp, Packet * pkt)
                 }
         }
 
+    fclose(fp);
     TMPS_RETURN(OK);
 }
 
@@ -965,6 +972,7 @@ int do_file(char *pkt_name)
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         TMPS_RETURN(severe_error);
     }
 
-- 
2.43.0


From fd68cc5fd2246eb5383510a88cc5ee9ba1769450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 27/89] fix: ftn2rfc: close packets that cannot be processed

---
 src/gate/ftn2rfc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index b83416e..e92869b 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -1724,6 +1724,7 @@ int unpack_file(char *pkt_name)
     }
     if (pkt_get_hdr(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: reading header from %s", pkt_name);
+        fclose(pkt_file);
         if (n_flag)
             return ERROR;
         else {
@@ -1738,6 +1739,7 @@ int unpack_file(char *pkt_name)
 
     if (unpack(pkt_file, &pkt) == ERROR) {
         fglog("ERROR: processing %s", pkt_name);
+        fclose(pkt_file);
         if (n_flag)
             return ERROR;
         else {
-- 
2.43.0


From 5adc0fc950c388aa55fda200d730155e87eee11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 28/89] fix: dir_open: close the directory if an entry cannot
 be examined

---
 src/common/dir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/dir.c b/src/common/dir.c
index 04b1c11..f3dc50b 100644
--- a/src/common/dir.c
+++ b/src/common/dir.c
@@ -144,6 +144,7 @@ int dir_open(char *dirname, char *pattern, int ic)
             BUF_COPY3(buf, name, "/", dir->d_name);
 
             if (stat(buf, &st) == ERROR) {
+                closedir(dp);
                 dir_close();
                 return ERROR;
             }
-- 
2.43.0


From 9fc0d0d6a8aef8e137d3bf13db0a7a758a03f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 29/89] fix: runinc: release directories and pipes with their
 own close, do not read from a pipe that failed to open

---
 src/toss/runinc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 87d9944..1d60e9a 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -172,7 +172,7 @@ void unpack(char *inb)
             }
         }
     }
-    dir_close();
+    closedir(dp);
     if (!unpack_flag)
         return;
 
@@ -187,7 +187,7 @@ void unpack(char *inb)
             move(archive, inb, "/", dir->d_name);
         }
     }
-    dir_close();
+    closedir(dp);
 
     pkt_flag = TRUE;
 
@@ -245,6 +245,7 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
 
     if (!(fp = popen(line, R_MODE))) {
         fglog("ERROR: can't open pipe to %s", line);
+        return FALSE;
     }
     if (strcmp(type, "ZIP") == 0) {
         while (fgets(line, MAXPATH, fp)) ;
@@ -276,7 +277,8 @@ int run_unpack(char *cmd_list, char *cmd_unarc, char *archive, char *type)
             }
 
         }
-    }
+    } else
+        pclose(fp);
 
     debug(5, "cmd - %s, archive - %s", cmd_unarc, archive);
     str_printf(line, sizeof(line), cmd_unarc, archive);
-- 
2.43.0


From 5b559b31b4e8f860577600dca925cd7df86a168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 30/89] fix: sumcrc: close the files it reads

---
 src/util/sumcrc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/sumcrc.c b/src/util/sumcrc.c
index 73ffcf3..98ed79f 100644
--- a/src/util/sumcrc.c
+++ b/src/util/sumcrc.c
@@ -69,6 +69,7 @@ int do_sumcrc32(char *name)
     if (s1_flag) {
         if (fgets(buffer, sizeof(buffer), fp) == NULL) {
             fprintf(stderr, "%s: can't read from %s\n", PROGRAM, name);
+            fclose(fp);
             return ERROR;
         }
     }
@@ -86,6 +87,7 @@ int do_sumcrc32(char *name)
         else
             crc16_update_ccitt(c);
     }
+    fclose(fp);
 
     if (crc32_flag)
         printf(x_flag ? "%08lx" : "%010lu", crc32_value());
-- 
2.43.0


From deac8710343ef68d417e96b9c13030c8bc1de4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 31/89] fix: copy_file: a failing close of the copy is an error

---
 src/common/tick.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 1ae28cd..2e317cb 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -520,7 +520,11 @@ int copy_file(char *old, char *new, char *dir)
 
     /* Close */
     fclose(fold);
-    fclose(fnew);
+    if (fclose(fnew) != 0) {
+        fglog("$ERROR: can't write to %s", new);
+        unlink(new);
+        return ERROR;
+    }
 
     return OK;
 }
-- 
2.43.0


From f3c5df3a9dd2f14a13d397c697acce7104ade665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 32/89] fix: areas, areasbbs, active: a list line with missing
 fields is not read past its end

---
 src/common/active.c   | 19 +++++++++++--------
 src/common/areas.c    | 38 +++++++++++++++++++-------------------
 src/common/areasbbs.c | 21 ++++++++++++++-------
 3 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/common/active.c b/src/common/active.c
index 2dea751..ea906ba 100644
--- a/src/common/active.c
+++ b/src/common/active.c
@@ -56,17 +56,20 @@ static char *get_active_name(void)
 static Active *active_parse_line(char *line)
 {
     Active *p;
-    char *s;
+    char *group, *high, *low, *s;
+
+    group = xstrtok(line, " ");
+    high = xstrtok(NULL, " ");
+    low = xstrtok(NULL, " ");
+    s = xstrtok(NULL, " ");
+    if (!group || !high || !low || !s)
+        return NULL;
 
     p = (Active *) xmalloc(sizeof(Active));
     p->next = NULL;
-    s = xstrtok(line, " ");
-    p->group = strsave(s);
-    s = xstrtok(NULL, " ");
-    p->art_h = atoi(s);
-    s = xstrtok(NULL, " ");
-    p->art_l = atoi(s);
-    s = xstrtok(NULL, " ");
+    p->group = strsave(group);
+    p->art_h = atoi(high);
+    p->art_l = atoi(low);
     if (!strncmp(s, "=", 1)) {
         p->group = strsave(s++);
         p->flag = "=";
diff --git a/src/common/areas.c b/src/common/areas.c
index e207afa..1c3ff48 100644
--- a/src/common/areas.c
+++ b/src/common/areas.c
@@ -134,7 +134,7 @@ long areas_get_limitmsgsize(void)
 Area *areas_parse_line(char *buf)
 {
     Area *p;
-    char *a, *g, *o;
+    char *a, *g, *o, *arg;
 
     a = xstrtok(buf, " \t");    /* FTN area */
     g = xstrtok(NULL, " \t");   /* Newsgroup */
@@ -168,20 +168,20 @@ Area *areas_parse_line(char *buf)
     for (o = xstrtok(NULL, " \t"); o; o = xstrtok(NULL, " \t")) {
         if (!strcmp(o, "-a"))
             /* -a Z:N/F.P */
-            if ((o = xstrtok(NULL, " \t")))
-                asc_to_node(o, &p->addr, FALSE);
+            if ((arg = xstrtok(NULL, " \t")))
+                asc_to_node(arg, &p->addr, FALSE);
         if (!strcmp(o, "-z"))
             /* -z ZONE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->zone = atoi(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->zone = atoi(arg);
         if (!strcmp(o, "-o"))
             /* -o ORIGIN */
-            if ((o = xstrtok(NULL, " \t")))
-                p->origin = strsave(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->origin = strsave(arg);
         if (!strcmp(o, "-d"))
             /* -d DISTRIBUTION */
-            if ((o = xstrtok(NULL, " \t")))
-                p->distribution = strsave(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->distribution = strsave(arg);
         if (!strcmp(o, "-l"))
             p->flags |= AREA_LOCALXPOST;
         if (!strcmp(o, "-x"))
@@ -194,20 +194,20 @@ Area *areas_parse_line(char *buf)
             p->flags |= AREA_NO;
         if (!strcmp(o, "-R"))
             /* -R lvl */
-            if ((o = xstrtok(NULL, " \t")))
-                p->rfc_lvl = atoi(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->rfc_lvl = atoi(arg);
         if (!strcmp(o, "-m"))
             /* -m MAXMSGSIZE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->maxsize = atol(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->maxsize = atol(arg);
         if (!strcmp(o, "-L"))
             /* -L LIMITMSGSIZE */
-            if ((o = xstrtok(NULL, " \t")))
-                p->limitsize = atol(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->limitsize = atol(arg);
         if (!strcmp(o, "-X"))
             /* -X "Xtra: xyz" */
-            if ((o = xstrtok(NULL, " \t")))
-                tl_append(&p->x_hdr, o);
+            if ((arg = xstrtok(NULL, " \t")))
+                tl_append(&p->x_hdr, arg);
         if (!strcmp(o, "-8"))
             p->encoding = MIME_8BIT;
 
@@ -219,8 +219,8 @@ Area *areas_parse_line(char *buf)
 
         if (!strcmp(o, "-C"))
             /* -C DEF:IN:OUT */
-            if ((o = xstrtok(NULL, " \t")))
-                p->charset = strsave(o);
+            if ((arg = xstrtok(NULL, " \t")))
+                p->charset = strsave(arg);
 
         if (!strcmp(o, "-nh"))
             p->flags |= AREA_HEADERS_PLAIN;
diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 5f9398a..c24b440 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -219,17 +219,20 @@ static AreasBBS *areasbbs_parse_line(char *line)
     while (nl && *nl == '-') {
         if (streq(nl, "-a")) {  /* -a Z:N/F.P */
             o2 = xstrtok(NULL, " \t\r\n");
-            asc_to_node(o2, &p->addr, FALSE);
+            if (o2)
+                asc_to_node(o2, &p->addr, FALSE);
         }
 
         if (streq(nl, "-z")) {  /* -z ZONE */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->zone = atoi(o2);
+            if (o2)
+                p->zone = atoi(o2);
         }
 
         if (streq(nl, "-l")) {  /* -l LVL */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->lvl = atoi(o2);
+            if (o2)
+                p->lvl = atoi(o2);
         }
 
         if (streq(nl, "-k")) {  /* -k KEY */
@@ -262,20 +265,24 @@ static AreasBBS *areasbbs_parse_line(char *line)
 
         if (streq(nl, "-t")) {  /* -t TIME */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->time = atol(o2);
+            if (o2)
+                p->time = atol(o2);
         }
 
         if (streq(nl, "-e")) {  /* -e DAYS */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->expire_n = atoi(o2);
+            if (o2)
+                p->expire_n = atoi(o2);
         }
         if (streq(nl, "-n")) {  /* -n DAYS */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->expire_t = atoi(o2);
+            if (o2)
+                p->expire_t = atoi(o2);
         }
         if (streq(nl, "-u")) {  /* -u NUM */
             o2 = xstrtok(NULL, " \t\r\n");
-            p->uplinks = atoi(o2);
+            if (o2)
+                p->uplinks = atoi(o2);
         }
         nl = xstrtok(NULL, " \t\r\n");
     }
-- 
2.43.0


From c52241193e9b359aa758fdd21d60b53c18bf3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 33/89] fix: mime: a parameter without a value has none

---
 src/common/mime.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index b26f207..c2ddd70 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1413,13 +1413,15 @@ static MIMEInfo *get_mime_disposition(char *ver, char *type, char *enc,
         tmp_line = tl_get(&header_line, "charset", strlen("charset"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_charset = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->type_charset = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tmp_line = tl_get(&header_line, "boundary", strlen("boundary"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->type_boundary = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->type_boundary = s_copy(tmp_str);
             xfree(tmp_str);
         }
         tl_clear(&header_line);
@@ -1433,7 +1435,8 @@ static MIMEInfo *get_mime_disposition(char *ver, char *type, char *enc,
         tmp_line = tl_get(&header_line, "filename", strlen("filename"));
         if (tmp_line != NULL) {
             tmp_str = mime_attr_value(tmp_line->line);
-            mime->disposition_filename = s_copy(tmp_str);
+            if (tmp_str != NULL)
+                mime->disposition_filename = s_copy(tmp_str);
             xfree(tmp_str);
         }
 
-- 
2.43.0


From 1daacc9ee108d7533ad87c8e10f7cfcfb9d3cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 34/89] fix: dbz, histdb: do not close a file that is not open,
 look up keys without a blank

---
 src/common/dbz.c    | 3 ++-
 src/common/histdb.c | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/dbz.c b/src/common/dbz.c
index 483f412..9f41b93 100644
--- a/src/common/dbz.c
+++ b/src/common/dbz.c
@@ -679,7 +679,8 @@ char *name;
     /* pick up configuration */
     if (getconf(dirf, pagf, &conf) < 0) {
         DEBUG(("dbminit: getconf failure\n"));
-        (void)fclose(basef);
+        if (basef != NULL)
+            (void)fclose(basef);
         (void)fclose(pagf);
         (void)fclose(dirf);
         free(pagfname);
diff --git a/src/common/histdb.c b/src/common/histdb.c
index 5a030fc..7e2f47d 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -309,9 +309,10 @@ char *hi_fetch(char *key_string, int flag)
 {
     datum key, val;
     static char out[MAXPATH];
+    char *p;
 
-    if (flag == 0)
-        key_string = strchr(key_string, ' ') + 1;
+    if (flag == 0 && (p = strchr(key_string, ' ')) != NULL)
+        key_string = p + 1;
     debug(7, "search key %s", key_string);
     key.dptr = key_string;      /* Key */
     key.dsize = strlen(key_string) + 1;
-- 
2.43.0


From ae3d267baba1c8923555343e5c5398a34a659e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 35/89] fix: bounce: no RFC recipient, no substitution

---
 src/common/bounce.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/bounce.c b/src/common/bounce.c
index 38393c6..fab7c52 100644
--- a/src/common/bounce.c
+++ b/src/common/bounce.c
@@ -73,7 +73,8 @@ int print_file_subst(FILE * in, FILE * out, Message * msg, char *rfc_to,
                 fputs(msg->subject, out);
                 break;
             case 'R':          /* RFC To: */
-                fputs(rfc_to, out);
+                if (rfc_to)
+                    fputs(rfc_to, out);
                 break;
             case 'M':          /* Message */
                 tl_print(body, out);
-- 
2.43.0


From 98b40502459ac78f42e86141ab7c4ac90642a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 36/89] fix: areafix: blank area list lines and create requests
 without a name

---
 src/areafix/areafix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index e0a0eee..ff59542 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -736,6 +736,10 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     }
 
     name = xstrtok(line, " \t");
+    if (!name) {
+        areafix_printf("Create request without an area name.");
+        return OK;
+    }
 
     if ((p = areasbbs_lookup(name))) {
         areafix_printf("%-41s: area already exists,\r\n"
@@ -1114,6 +1118,8 @@ int cmd_listall(Node * node)
                             continue;
                         f2 = xstrtok(buf, " \t");
                         f1 = xstrtok(NULL, "\n");
+                        if (!f2)
+                            continue;
 
                         find = FALSE;
                         if (hi_test(str_upper(f2)))
-- 
2.43.0


From 0a5d5e02064ba7cc4554c6dc0ee840128441c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 37/89] fix: ftnpack, ftnroute: config and nodelist lines with
 missing fields

---
 src/toss/ftnpack.c  | 5 +++--
 src/toss/ftnroute.c | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 6e9dbbf..6dafbcd 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -267,9 +267,10 @@ Packing *packing_parse_line(char *buf)
     lon_init(&lon);
 
     p = xstrtok(NULL, " \t=");
-    if (!stricmp(p, "size")) {
+    if (p && !stricmp(p, "size")) {
         p = xstrtok(NULL, " \t");
-        ma = atol(p) * 1024L;
+        if (p)
+            ma = atol(p) * 1024L;
         p = xstrtok(NULL, " \t");
     }
     if (!ma)
diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index eb08e36..76fdead 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -113,6 +113,8 @@ int troute_scan(char *file, int flag)
             continue;
 
         s = strtok(buffer, " \t");
+        if (!s)
+            continue;
         asc_to_node(s, &addr, FALSE);
         node = addr.node;
         mode = MODE_HUB;
@@ -520,7 +522,7 @@ int do_cmd_mkroute(PktDesc * desc, MkRoute * r1)
             }
             if ((p = hi_fetch(znfp1(&desc->to), 1))) {
                 p1 = xstrtok(p, " $");
-                if (*p1 && znfp_parse_partial(p, &node)) {
+                if (p1 && *p1 && znfp_parse_partial(p, &node)) {
                     desc->to = node;
                     desc->to.point = 0;
                     desc->move_only = FALSE;
-- 
2.43.0


From 0954a6325b50e471b181bbef0253f5880cfa068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 38/89] fix: ftntick: TickFileAction lines with missing fields

---
 src/tick/ftntick.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index 14fed03..ad49758 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -644,10 +644,11 @@ int process_tic(Tick * tic)
             debug(8, "config: TickFileAction %s", s1);
             str_save = strsave(s1);
             area = xstrtok(str_save, " \t");
-            if (!stricmp(tic->area, area)) {
+            if (area && !stricmp(tic->area, area)) {
                 wild_file = xstrtok(NULL, " \t");
                 tick_action = xstrtok(NULL, "\n");
-                if (wildmatch(tic->file, wild_file, TRUE)) {
+                if (wild_file && tick_action &&
+                    wildmatch(tic->file, wild_file, TRUE)) {
                     sprintf(buffer, tick_action, new_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
-- 
2.43.0


From c4d16d0acb1517beb195edbea37db1dd144f2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 39/89] fix: runinc: unpack lines with missing fields,
 DiskFreeProg without %p or that cannot run

---
 src/toss/runinc.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 1d60e9a..f49ee6b 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -324,14 +324,17 @@ Unpacking *unpacking_parse_line(char *buf1)
     r = (Unpacking *) xmalloc(sizeof(Unpacking));
     f = xstrtok(NULL, " \t");
     p = xstrtok(NULL, " \t");
-    if (p && f) {
-        r->name = strsave(f);
-        f = strsave(p);
+    if (!p || !f) {
+        fglog("ERROR: unpack: archiver without name and identifier");
+        xfree(r);
+        return NULL;
     }
+    r->name = strsave(f);
+    f = strsave(p);
     if (!strstr(f, "0x"))
         r->iden = f;
     else {
-        r->iden = xmalloc(strlen(f));
+        r->iden = xmalloc(strlen(f) + 1);
         while (*f) {
             /* Recode hex chars */
             if (*f == '0' && f[1] == 'x') {
@@ -564,9 +567,9 @@ void run_toss(Runtoss * a)
                     pclose(fp);
                     return;
                 }
+            pclose(fp);
         }
         xfree(str);
-        pclose(fp);
     }
 #endif
     /* Runing scripts */
@@ -751,6 +754,8 @@ void *subs(char *str, char *macro, char *expand)
     char *pos;
     char *newstr;
     pos = strstr(str, macro);
+    if (!pos)
+        return NULL;
     if (!(newstr = malloc(strlen(str) + strlen(expand) - strlen(macro) + 1)))
         return NULL;
     if (!strcpy(newstr, str))
-- 
2.43.0


From 0a3d337437ecdb3977306f1bc87d688c82b9216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 40/89] fix: ftngenpkt: keep the text when it cannot be recoded

---
 src/util/ftngenpkt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/ftngenpkt.c b/src/util/ftngenpkt.c
index 9f626af..d4f88ad 100644
--- a/src/util/ftngenpkt.c
+++ b/src/util/ftngenpkt.c
@@ -143,6 +143,8 @@ static void buffer_recode(char *b, char *charset)
     char *p;
 
     p = recode_string(b, charset);
+    if (p == NULL)
+        return;
     strcpy(b, p);
     free(p);
 }
-- 
2.43.0


From 3b2291a7184d7e86a3c0bc821adc9882748b1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 41/89] fix: tick_put: Replaces and LDesc lines carry their own
 fields

---
 src/common/tick.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 2e317cb..369b970 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -113,10 +113,10 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     fprintf(fp, "From %s\r\n", znf1(&tic->from));
     fprintf(fp, "File %s\r\n", tic->file);
     if (tic->replaces)
-        fprintf(fp, "Replaces %s\r\n", tic->file);
+        fprintf(fp, "Replaces %s\r\n", tic->replaces);
     fprintf(fp, "Desc %s\r\n", tic->desc.first ? tic->desc.first->line : "");
     if (tic->ldesc.first)
-        fprintf(fp, "LDesc %s\r\n", tic->desc.first->line);
+        fprintf(fp, "LDesc %s\r\n", tic->ldesc.first->line);
     fprintf(fp, "CRC %08lX\r\n", tic->crc);
     fprintf(fp, "Created %s\r\n", tic->created);
     fprintf(fp, "Size %lu\r\n", tic->size);
-- 
2.43.0


From 99c6166119d589819050c73b19fd5ff33450492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 42/89] fix: mime: multipart body without its boundary or
 without an empty line

---
 src/common/mime.c      | 2 +-
 src/common/rfcheader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index c2ddd70..6f4b655 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1677,7 +1677,7 @@ static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
         if (strneq(line->line, boundary, strlen(boundary)))
             break;
 
-    for (line = line->next; line != NULL; line = line->next) {
+    for (line = line ? line->next : NULL; line != NULL; line = line->next) {
         if (!strneq(line->line, boundary, strlen(boundary))) {
             tl_append(&tmp_body, line->line);
         } else {
diff --git a/src/common/rfcheader.c b/src/common/rfcheader.c
index 66d575d..ebf9022 100644
--- a/src/common/rfcheader.c
+++ b/src/common/rfcheader.c
@@ -254,7 +254,7 @@ int header_delete_from_body(Textlist * body)
     if (body == NULL)
         return ERROR;
 
-    for (line = body->first;; line = body->first) {
+    for (line = body->first; line != NULL; line = body->first) {
         buf = line->line;
         if (*buf == '\r' || *buf == '\n') {
             tl_delete(body, line);
-- 
2.43.0


From 59c8057fe770f7734cb1199ea68dd5a71d4a9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 43/89] fix: ftnafutil: expire leaves areas without an uplink
 alone

---
 src/areafix/ftnafutil.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 7df146d..1d32d4c 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -212,6 +212,10 @@ int do_areasbbs(int cmd)
             break;
 
         case DO_EXPIRE:
+            if (!uplink) {
+                debug(5, "area %s has no uplink", p->area);
+                break;
+            }
             tm = (time(NULL) - p->time) / 86400;
             if ((areasbbs_isstate(state, 'F') ||
                  areasbbs_isstate(state, 'W')) &&
-- 
2.43.0


From ec56146476913a3187fc1ffe8e7dce052b7b018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 44/89] fix: rfc2ftn: area without linked systems

---
 src/gate/rfc2ftn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index 4d59295..b3db7d6 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -1488,7 +1488,8 @@ static int snd_mail(RFCAddr rfc_to, long size, RFCHeader *h)
                     debug(5, "Found in areasbbs %d %s", ab->zone,
                           znfp2(&ab->addr));
                     pa->zone = ab->zone;
-                    if (ab->addr.zone == INVALID && ab->addr.net == INVALID &&
+                    if (ab->nodes.first &&
+                        ab->addr.zone == INVALID && ab->addr.net == INVALID &&
                         ab->addr.node == INVALID && ab->addr.point == INVALID) {
                         cf_set_best(ab->nodes.first->node.zone,
                                     ab->nodes.first->node.net,
-- 
2.43.0


From b5721231ee5a05137a5b3f15b808b8ed9d6d1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 45/89] fix: str_append2 and str_copy2..5 keep the terminator
 inside the buffer

---
 src/common/misc.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 7d63a93..aef02c1 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -162,10 +162,10 @@ char *str_append2(char *d, size_t n, char *s1, char *s2)
     int sz = strlen(d);
     char *p = s1;
 
-    for (; *p && sz < n; p++, sz++)
+    for (; *p && sz < n - 1; p++, sz++)
         d[sz] = *p;
 
-    for (p = s2; *p && sz < n; p++, sz++)
+    for (p = s2; *p && sz < n - 1; p++, sz++)
         d[sz] = *p;
 
     d[sz++] = 0;
@@ -178,10 +178,10 @@ char *str_copy2(char *d, size_t n, char *s1, char *s2)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -195,13 +195,13 @@ char *str_copy3(char *d, size_t n, char *s1, char *s2, char *s3)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -214,16 +214,16 @@ char *str_copy4(char *d, size_t n, char *s1, char *s2, char *s3, char *s4)
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
@@ -237,19 +237,19 @@ char *str_copy5(char *d, size_t n, char *s1, char *s2, char *s3, char *s4,
     int i = 0;
     char *p = s1;
 
-    for (; *p && i < n; p++, i++)
+    for (; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s2; *p && i < n; p++, i++)
+    for (p = s2; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s3; *p && i < n; p++, i++)
+    for (p = s3; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s4; *p && i < n; p++, i++)
+    for (p = s4; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
-    for (p = s5; *p && i < n; p++, i++)
+    for (p = s5; *p && i < n - 1; p++, i++)
         d[i] = *p;
 
     d[i++] = 0;
-- 
2.43.0


From c4ab44c5e5cde3c8ebb6e769a6dd61916e67230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 46/89] fix: bounded writes for directory names, PFNZ addresses
 and area states

---
 src/common/address.c  | 6 ++++--
 src/common/areasbbs.c | 2 +-
 src/common/dir.c      | 5 +++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/address.c b/src/common/address.c
index 6a30e3e..0019426 100644
--- a/src/common/address.c
+++ b/src/common/address.c
@@ -110,11 +110,13 @@ static int try_pfnz(Node * node, char *addr, char *dot, char *domain)
     char dom[MAXINETADDR];
     char adr[MAXINETADDR];
 
-    int len = strlen(addr);
-    int dlen = strlen(dot) + strlen(domain);
+    int len;
+    int dlen;
 
     BUF_COPY(adr, addr);
     BUF_COPY2(dom, dot, domain);
+    len = strlen(adr);
+    dlen = strlen(dom);
 
     if (len > dlen && !stricmp(adr + len - dlen, dom)) {
         adr[len - dlen] = 0;
diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index c24b440..99673ee 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -591,7 +591,7 @@ int areasbbs_chstate(char **state, char *stold, char stnew)
 
     /* "old state" not given */
     if ((NULL == stold) || ('\0' == *stold)) {
-        BUF_COPY(p, p2);
+        str_copy(p, len, p2);
         j = len - 2;
     } else {
         for (i = 0, j = 0; '\0' != p2[i]; ++i)
diff --git a/src/common/dir.c b/src/common/dir.c
index f3dc50b..9b0e2f1 100644
--- a/src/common/dir.c
+++ b/src/common/dir.c
@@ -266,6 +266,11 @@ int mkdir_r(char *dir, mode_t mode)
     p = dir;
     n = strlen(dir);
 
+    if (n >= MAXPATH - 1) {
+        fglog("ERROR: directory name %s too long", dir);
+        return ERROR;
+    }
+
     while (n > i) {
         tmp[i] = *p;
         p++;
-- 
2.43.0


From 0ae76d78af35b217de8197447680df763aaea4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 47/89] fix: quoted Message-ID fits its buffer

---
 src/common/msgid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 42e3fde..85e4dad 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -433,12 +433,13 @@ char *s_msgid_rfc_to_fido(int *origid_flag, char *message_id,
     if (split)
         crc32 += part - 1;
 
-    tmps = tmps_alloc(strlen(id) + 1 + /**Extra**/ 20);
+    /* quoting may double every character */
+    tmps = tmps_alloc(2 * strlen(id) + 1 + /**Extra**/ 20);
 
     if (no_fido_style_msgid && !x_flags_m) {
         msgid_fts9_quote(tmps->s, id, tmps->len);
         if (tmps->s[0] != '\0')
-            strcat(tmps->s, " ");
+            str_append(tmps->s, tmps->len, " ");
     } else {
         if (for_reply)
             str_printf(tmps->s, strlen(tmps->s) + strlen(id) + 2, "%s ", id);
-- 
2.43.0


From 85beb8cf87bcdb31e50240414f1e0ef1733c0cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 48/89] fix: bounded command lines and history keys in ftntick,
 runinc and ftn2rfc

---
 src/gate/ftn2rfc.c |  3 ++-
 src/tick/ftntick.c |  6 +++---
 src/toss/runinc.c  | 11 ++++-------
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index e92869b..ccbab7f 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -239,7 +239,8 @@ Area *news_msg(char *line, Node * to)
                 if (cf_get_string("AutoCreateNG", TRUE)) {
                     fglog("create newsgroup %s", pa->group);
                     BUF_COPY2(buffer, "%N/ngoper create ", pa->group);
-                    sprintf(exec_line, "%s/ngoper create %s", cf_p_bindir(),
+                    str_printf(exec_line, sizeof(exec_line),
+                               "%s/ngoper create %s", cf_p_bindir(),
                             pa->group);
                     debug(8, "run: %s", exec_line);
                     if (0 != run_system(exec_line))
diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index ad49758..ac560ef 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -103,7 +103,7 @@ static bool ftntick_is_dupe(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin), tic->file,
+    str_printf(buffer, sizeof(buffer), "%s %s %s %lx", tic->area, znfp1(&tic->origin), tic->file,
             tic->crc);
     if (hi_test(buffer)
         && (!tic->replaces || stricmp(tic->file, tic->replaces) != 0)) {
@@ -133,7 +133,7 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
     }
 
     hi_init_tic_history();
-    sprintf(buffer, "%s %s %s %lx", tic->area, znfp1(&tic->origin),
+    str_printf(buffer, sizeof(buffer), "%s %s %s %lx", tic->area, znfp1(&tic->origin),
             tic->file, tic->crc);
 
     if (hi_write(tic->date, buffer) == ERROR)
@@ -649,7 +649,7 @@ int process_tic(Tick * tic)
                 tick_action = xstrtok(NULL, "\n");
                 if (wild_file && tick_action &&
                     wildmatch(tic->file, wild_file, TRUE)) {
-                    sprintf(buffer, tick_action, new_name);
+                    str_printf(buffer, sizeof(buffer), tick_action, new_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
                     if (ret)
diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index f49ee6b..5358504 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -408,7 +408,7 @@ void unpacking_init(char *name)
  */
 int run_tick(char *inbound)
 {
-    sprintf(buffer, "%s/ftntick -x %s/ftntickpost -I %s %s", libexecdir,
+    str_printf(buffer, sizeof(buffer), "%s/ftntick -x %s/ftntickpost -I %s %s", libexecdir,
             libexecdir, inbound, verbose_flag);
 
     /* Process tic files */
@@ -758,12 +758,9 @@ void *subs(char *str, char *macro, char *expand)
         return NULL;
     if (!(newstr = malloc(strlen(str) + strlen(expand) - strlen(macro) + 1)))
         return NULL;
-    if (!strcpy(newstr, str))
-        return NULL;
-    if (!strcpy(newstr + (pos - str), expand))
-        return NULL;
-    if (!strcpy(newstr + (pos - str) + strlen(expand), pos + strlen(macro)))
-        return NULL;
+    memcpy(newstr, str, pos - str);
+    strcpy(newstr + (pos - str), expand);
+    strcpy(newstr + (pos - str) + strlen(expand), pos + strlen(macro));
     return newstr;
 }
 
-- 
2.43.0


From 4655a4907718991752ace5a134f562061fa63eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 49/89] fix: areafix line and subject, ftngenpkt recoded names
 stay within their buffers

---
 src/areafix/areafix.c | 4 ++--
 src/util/ftngenpkt.c  | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index ff59542..83c95df 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -1113,7 +1113,7 @@ int cmd_listall(Node * node)
                     if (!fp)
                         continue;
 
-                    while (cf_getline(buf, BUFFERSIZE, fp)) {
+                    while (cf_getline(buf, sizeof(buf), fp)) {
                         if (!*buf)
                             continue;
                         f2 = xstrtok(buf, " \t");
@@ -2291,7 +2291,7 @@ short int send_rules(Node * link, char *area)
     msg.node_to = *link;
     BUF_COPY(msg.name_to, "SysOp");
     BUF_COPY(msg.name_from, "Fidogate Daemon");
-    sprintf(msg.subject, "%s Rules", area);
+    str_printf(msg.subject, sizeof(msg.subject), "%s Rules", area);
     cf_set_best(link->zone, link->net, link->node);
     msg.node_from = cf_n_addr();
 
diff --git a/src/util/ftngenpkt.c b/src/util/ftngenpkt.c
index d4f88ad..891f337 100644
--- a/src/util/ftngenpkt.c
+++ b/src/util/ftngenpkt.c
@@ -138,14 +138,14 @@ static void tl_recode(Textlist * tl, char *charset)
 }
 
 /* recodes buffer "in-place" (actually, copying back) */
-static void buffer_recode(char *b, char *charset)
+static void buffer_recode(char *b, size_t size, char *charset)
 {
     char *p;
 
     p = recode_string(b, charset);
     if (p == NULL)
         return;
-    strcpy(b, p);
+    str_copy(b, size, p);
     free(p);
 }
 
@@ -158,8 +158,8 @@ static void cfg_recode(struct cfg *cfg)
     cfg->tearline = recode_string(cfg->tearline, c);
 
     tl_recode(&cfg->kludges, c);
-    buffer_recode(cfg->msg_from.name, c);
-    buffer_recode(cfg->msg_to.name, c);
+    buffer_recode(cfg->msg_from.name, sizeof(cfg->msg_from.name), c);
+    buffer_recode(cfg->msg_to.name, sizeof(cfg->msg_to.name), c);
 
     cfg->allocated = true;
 }
-- 
2.43.0


From edaf33b6b2cf2ade657a529d816767452199ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 50/89] fix: two addresses printed by one call no longer share
 a buffer

---
 src/areafix/areafix.c | 2 +-
 src/toss/ftntoss.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 83c95df..fb75c5a 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -939,7 +939,7 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
                 p->area,
                 znfp1(node),
                 p->state,
-                znfp1(&p->addr),
+                znfp2(&p->addr),
                 p->lvl,
                 p->key ? p->key : "NONE", p->desc ? p->desc : "NONE", p->zone,
 #ifndef FTN_ACL
diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index 13ebefb..e70d34d 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1016,7 +1016,7 @@ area have status read-only\r\n\r\n\
     Your Message:\r\n\r\n\
 		From: %s\r\n\
 		To: %s\r\n\
-		Subject: %s\r\n\r\n", znfp1(&msg->node_from), area->area, nf1(&msg->node_from), znfp1(&pkt->to), msg->subject);
+		Subject: %s\r\n\r\n", znfp1(&msg->node_from), area->area, nf1(&msg->node_from), znfp2(&pkt->to), msg->subject);
 
             msgs_readonly++;
             (area->msgs_readonly)++;
@@ -1142,7 +1142,7 @@ area have status 'W' (no traffic from uplink)\r\n\r\n\
     Your Message:\r\n\r\n\
 	From: %s\r\n\
 	To: %s\r\n\
-	Subject: %s\r\n\r\n", znfp1(&msg->node_from), area->area, nf1(&msg->node_from), znfp1(&pkt->to), msg->subject);
+	Subject: %s\r\n\r\n", znfp1(&msg->node_from), area->area, nf1(&msg->node_from), znfp2(&pkt->to), msg->subject);
 
         if (!kill_circular)
             return do_bad_msg(msg, body);
-- 
2.43.0


From f669438ade686893f1f306fb62c0a7c4b98d4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 51/89] fix: an unusable CHRS line does not destroy the charset
 already found

---
 src/common/charset.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/common/charset.c b/src/common/charset.c
index ad3df3c..5cdb9c9 100644
--- a/src/common/charset.c
+++ b/src/common/charset.c
@@ -227,6 +227,7 @@ static char *charset_level1_to_iconv(char *charset)
 char *charset_chrs_name(char *s)
 {
     static char name[MAXPATH];
+    char buf[MAXPATH];
     char *p;
     int level;
 
@@ -234,8 +235,8 @@ char *charset_chrs_name(char *s)
         s++;
     debug(5, "FSC-0054 ^ACHRS/CHARSET: %s", s);
 
-    BUF_COPY(name, s);
-    p = strtok(name, " \t");
+    BUF_COPY(buf, s);
+    p = strtok(buf, " \t");
     if (!p)
         return NULL;
 
@@ -249,12 +250,13 @@ char *charset_chrs_name(char *s)
 
     switch (level) {
     case 1:
-        p = charset_level1_to_iconv(name);
-        debug(5, "FSC-0054 level 1 charset=%s (level 2: %s)", name, p);
+        p = charset_level1_to_iconv(buf);
+        debug(5, "FSC-0054 level 1 charset=%s (level 2: %s)", buf, p);
         return p;
 
     default:
-        debug(5, "FSC-0054 level %d charset=%s", level, name);
+        debug(5, "FSC-0054 level %d charset=%s", level, buf);
+        BUF_COPY(name, buf);
         return name;
     }
 
-- 
2.43.0


From 2f83efc08871dcae7a672bf7a1162d6d9fb9658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 52/89] fix: match the FTN access list's patterns against the
 address and area, and leave the list intact

---
 src/common/acl.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/common/acl.c b/src/common/acl.c
index 27c3d63..926748e 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -184,7 +184,8 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
 
     Acl *p;
     int type;
-    char *node1, *node2 = NULL, *n;
+    int match = FALSE;
+    char *node1, *node2 = NULL, *n, *pats;
 
     if (echo)
         type = TYPE_ECHOMAIL;
@@ -199,12 +200,14 @@ int ftnacl_lookup(Node * node_from, Node * node_to, char *echo)
         if (p->gate == FTN2RFC &&
             wildmat(node1, p->email_pat) && p->type == type) {
 
-            for (n = xstrtok(p->ngrp_pat, ","); n; n = xstrtok(NULL, ","))
-                if (echo) {
-                    if (wildmat(n, echo))
-                        return TRUE;
-                } else if (wildmat(n, node2))
-                    return TRUE;
+            /* xstrtok() modifies its argument, the list is used again */
+            pats = strsave(p->ngrp_pat);
+            for (n = xstrtok(pats, ","); n && !match; n = xstrtok(NULL, ","))
+                match = wildmat(echo ? echo : node2, n);
+            xfree(pats);
+
+            if (match)
+                return TRUE;
         }
     }
 
-- 
2.43.0


From ba85608ce9ae468c0a8b1f4b85a7e55fe87319c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 53/89] fix: do not apply the access list entry of an earlier
 sender to one without entry

---
 src/common/acl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/acl.c b/src/common/acl.c
index 926748e..300e6de 100644
--- a/src/common/acl.c
+++ b/src/common/acl.c
@@ -138,6 +138,9 @@ void acl_ngrp(RFCAddr rfc_from, int type)
 
     char email[MAXINETADDR];
 
+    /* list_init() keeps the old list if there is no entry for this sender */
+    acl_ngrp_free();
+
     BUF_COPY(email, s_rfcaddr_to_asc(&rfc_from, FALSE));
     list_init(&ngrp_pat_list, acl_lookup(email, type));
     return;
-- 
2.43.0


From c3e75ca7d245ada01b85df610af30d13314b5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 54/89] fix: check the access list with the originator of this
 echomail message, not of the one before

---
 src/gate/ftn2rfc.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index ccbab7f..9336342 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -717,6 +717,17 @@ int unpack(FILE * pkt_file, Packet * pkt)
             kludge_pt_intl(&body, &msg, FALSE);
             msg.node_orig = msg.node_from;
         } else {
+            /* Specially for echomail */
+            msg.node_from = pkt->from;
+            msg.node_to = pkt->to;
+
+            /* Try to get address from Origin or MSGID */
+            if (OK != msg_parse_origin(body.origin, &msg.node_orig) &&
+                OK != msg_parse_msgid(kludge_get(&body.kludge, "MSGID", NULL),
+                                      &msg.node_orig)) {
+                node_invalid(&msg.node_orig);
+            }
+
             if (ftnacl_lookup(&msg.node_orig, NULL, body.area)) {
                 debug(7, "ftnacl_lookup(): From=%s, echo=%s",
                       znfp1(&msg.node_orig), body.area);
@@ -730,17 +741,6 @@ int unpack(FILE * pkt_file, Packet * pkt)
 
                 continue;
             }
-
-            /* Specially for echomail */
-            msg.node_from = pkt->from;
-            msg.node_to = pkt->to;
-
-            /* Try to get address from Origin or MSGID */
-            if (OK != msg_parse_origin(body.origin, &msg.node_orig) &&
-                OK != msg_parse_msgid(kludge_get(&body.kludge, "MSGID", NULL),
-                                      &msg.node_orig)) {
-                node_invalid(&msg.node_orig);
-            }
         }
         debug(7, "FIDO sender (from/origin): %s", znfp1(&msg.node_orig));
 
-- 
2.43.0


From acbe5ff6bb82497e0ed299fda5cd2253eab26982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 55/89] fix: keep line breaks in FTN names, subjects and
 kludges out of the RFC header

---
 src/gate/ftn2rfc.c | 47 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 9336342..433e46c 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -586,6 +586,35 @@ static void msg_adjust_date_to_tz(Message *msg, char *tz_str)
     msg->tz = tz_str;
 }
 
+/*
+ * Remove CR/LF at end of line, replace all others by spaces: a line
+ * break would start a new line in the RFC header
+ */
+static void strip_breaks(char *line)
+{
+    char *p;
+
+    if (!line)
+        return;
+
+    for (p = line + strlen(line); p > line; *p = 0) {
+        p--;
+        if (*p != '\r' && *p != '\n')
+            break;
+    }
+    for (p = line; *p; p++)
+        if (*p == '\r' || *p == '\n')
+            *p = ' ';
+}
+
+static void strip_breaks_list(Textlist * list)
+{
+    Textline *pl;
+
+    for (pl = list->first; pl; pl = pl->next)
+        strip_breaks(pl->line);
+}
+
 /*
  * Read and convert FTN mail packet
  */
@@ -675,6 +704,11 @@ int unpack(FILE * pkt_file, Packet * pkt)
         strip_space(msg.name_to);
         strip_space(msg.subject);
 
+        /* These become part of header lines */
+        strip_breaks(msg.name_from);
+        strip_breaks(msg.name_to);
+        strip_breaks(msg.subject);
+
         /* Replace empty subject */
         if (!*msg.subject)
             BUF_COPY(msg.subject, "(no subject)");
@@ -747,10 +781,13 @@ int unpack(FILE * pkt_file, Packet * pkt)
         /*
          * strip_crlf() all kludge and RFC lines
          */
-        for (pl = body.kludge.first; pl; pl = pl->next)
-            strip_crlf(pl->line);
-        for (pl = body.rfc.first; pl; pl = pl->next)
-            strip_crlf(pl->line);
+        strip_breaks_list(&body.kludge);
+        strip_breaks_list(&body.rfc);
+        strip_breaks_list(&body.via);
+        strip_breaks_list(&body.seenby);
+        strip_breaks_list(&body.path);
+        strip_breaks(body.tear);
+        strip_breaks(body.origin);
 
         /*
          * X-Split header line
@@ -759,7 +796,7 @@ int unpack(FILE * pkt_file, Packet * pkt)
         if ((p = kludge_get(&body.kludge, "SPLIT", NULL))) {
             split_line = p;
         } else if ((p = kludge_get(&body.body, "SPLIT", NULL))) {
-            strip_crlf(p);
+            strip_breaks(p);
             split_line = p;
         }
 
-- 
2.43.0


From ed6468c00c82d100911a9a66f15e588cc61a90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 56/89] fix: rewrite the area list after answered requests,
 even if a later packet failed or the program was interrupted

---
 src/areafix/ftnafpkt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 0e4d62c..7550039 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -557,7 +557,7 @@ int main(int argc, char **argv)
         dir_close();
 
         /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
+        if (!n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
@@ -605,7 +605,7 @@ int main(int argc, char **argv)
         }
 
         /* Rewrite areas.bbs */
-        if (ret == EXIT_OK && !n_flag)
+        if (!n_flag)
             if (areasbbs_rewrite() == ERROR)
                 ret = EXIT_ERROR;
 
-- 
2.43.0


From 1a711c159b180243b2fae359f85b550926aebc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 57/89] fix: rfc2ftn, ftn2ftn: know the documented option
 --out-packet-dir; drop --in-dir, which nothing handled

---
 src/gate/rfc2ftn.c | 2 +-
 src/toss/ftn2ftn.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gate/rfc2ftn.c b/src/gate/rfc2ftn.c
index b3db7d6..98bf22a 100644
--- a/src/gate/rfc2ftn.c
+++ b/src/gate/rfc2ftn.c
@@ -2001,13 +2001,13 @@ int main(int argc, char **argv)
     int option_index;
     static struct option long_options[] = {
         {"news-batch", 0, 0, 'b'},  /* Process news batch */
-        {"in-dir", 1, 0, 'I'},  /* Set inbound packets directory */
         {"binkley", 1, 0, 'B'}, /* Binkley outbound base dir */
         {"batch-file", 1, 0, 'f'},  /* Batch file with news articles */
         {"out-packet-file", 1, 0, 'o'}, /* Set packet file name */
         {"maxmsg", 1, 0, 'm'},  /* Close after N messages */
         {"news-mode", 0, 0, 'n'},   /* Set news mode */
         {"ignore-hosts", 0, 0, 'i'},    /* Do not bounce unknown hosts */
+        {"out-packet-dir", 1, 0, 'O'},
         {"out-dir", 1, 0, 'O'}, /* Set packet directory */
         {"write-outbound", 1, 0, 'w'},  /* Write to Binkley outbound */
         {"write-crash", 0, 0, 'W'}, /* Write crash to Binkley outbound */
diff --git a/src/toss/ftn2ftn.c b/src/toss/ftn2ftn.c
index ef0cb3c..46c9742 100644
--- a/src/toss/ftn2ftn.c
+++ b/src/toss/ftn2ftn.c
@@ -309,6 +309,7 @@ int main(int argc, char **argv)
         {"address-a", 1, 0, 'A'},   /* Address A */
         {"address-b", 1, 0, 'B'},   /* Address B */
         {"out-packet-file", 1, 0, 'o'}, /* Set packet file name */
+        {"out-packet-dir", 1, 0, 'O'},
         {"out-dir", 1, 0, 'O'}, /* Set packet directory */
 
         {"verbose", 0, 0, 'v'}, /* More verbose */
-- 
2.43.0


From 26aa26f3a4518ab79147685baea59035ba6766eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 58/89] fix: ftngenpkt: --no-tearline was declared as a second
 --no-via

---
 src/util/ftngenpkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ftngenpkt.c b/src/util/ftngenpkt.c
index 891f337..136fa5a 100644
--- a/src/util/ftngenpkt.c
+++ b/src/util/ftngenpkt.c
@@ -448,7 +448,7 @@ static int options_parse(int argc, char **argv, struct cfg *cfg)
         {"path", 1, 0, OPT_PATH},
         {"seen-by", 1, 0, OPT_SEENBY},
         {"no-via", 0, 0, OPT_NOVIA},
-        {"no-via", 0, 0, OPT_NOTEARLINE},
+        {"no-tearline", 0, 0, OPT_NOTEARLINE},
         {"no-origin", 0, 0, OPT_NOORIGIN},
         {"input", 1, 0, 'i'},
         {"output", 1, 0, 'o'},
-- 
2.43.0


From 606cf921d7cb42df7732a4a6a03da929713cff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 59/89] fix: ftnflo: --list takes no argument

---
 src/util/ftnflo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ftnflo.c b/src/util/ftnflo.c
index 6845355..5a3dc59 100644
--- a/src/util/ftnflo.c
+++ b/src/util/ftnflo.c
@@ -168,7 +168,7 @@ int main(int argc, char **argv)
     static struct option long_options[] = {
         {"binkley", 1, 0, 'B'}, /* Binkley outbound base dir */
         {"exec", 1, 0, 'x'},    /* Execute script */
-        {"list", 1, 0, 'l'},    /* List entries */
+        {"list", 0, 0, 'l'},    /* List entries */
         {"no-delete", 0, 0, 'n'},   /* Don't delete/truncate entries */
 
         {"verbose", 0, 0, 'v'}, /* More verbose */
-- 
2.43.0


From 83c9d3a8c68fca9b5a4abda315da070e9b0bce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 60/89] fix: ftnroute: --repack takes no argument, the time
 comes from RepackMailTime

---
 src/toss/ftnroute.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 76fdead..5027e39 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -850,7 +850,7 @@ options: -g --grade G                 processing grade\n\
          -l --lock-file               create lock file while processing\n\
          -r --routing-file NAME       read routing file\n\
          -M --maxopen N               set max # of open packet files\n\
-	 -p --repack HOURS            repack old mail in outbound\n\
+	 -p --repack                  repack old mail in outbound\n\
 \n\
 	 -v --verbose                 more verbose\n\
 	 -h --help                    this help\n\
@@ -883,7 +883,7 @@ int main(int argc, char **argv)
         {"out-dir", 1, 0, 'O'}, /* Set packet directory */
         {"routing-file", 1, 0, 'r'},    /* Set routing file */
         {"maxopen", 1, 0, 'M'}, /* Set max # open packet files */
-        {"repack", 1, 0, 'p'},
+        {"repack", 0, 0, 'p'},
 
         {"verbose", 0, 0, 'v'}, /* More verbose */
         {"help", 0, 0, 'h'},    /* Help */
-- 
2.43.0


From 19bf3fed6449cd60296fc5492b181defd98484bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:26 +0000
Subject: [PATCH 61/89] fix: ftnexpire: -w takes the time as --wait does

---
 src/toss/ftnexpire.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftnexpire.c b/src/toss/ftnexpire.c
index 1b00aa1..5d799e2 100644
--- a/src/toss/ftnexpire.c
+++ b/src/toss/ftnexpire.c
@@ -298,7 +298,7 @@ void usage(void)
     fprintf(stderr, "usage:   %s [-options]\n\n", PROGRAM);
     fprintf(stderr, "\
 options: -m --maxhistory DAYS         set max number of days in history\n\
-         -w --wait [TIME]             wait for history lock to be released\n\
+         -w --wait TIME               wait for history lock to be released\n\
 \n\
          -v --verbose                 more verbose\n\
 	 -h --help                    this help\n\
@@ -338,7 +338,7 @@ int main(int argc, char **argv)
     /* Init configuration */
     cf_initialize();
 
-    while ((c = getopt_long(argc, argv, "m:wdtvhc:",
+    while ((c = getopt_long(argc, argv, "m:w:dtvhc:",
                             long_options, &option_index)) != EOF)
         switch (c) {
     /***** ftnexpire options *****/
-- 
2.43.0


From 30099c147b4fa52c3b67983e19183b2efa1fd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 62/89] fix: ftnafutil: know the documented option --noaction

---
 src/areafix/ftnafutil.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/areafix/ftnafutil.c b/src/areafix/ftnafutil.c
index 1d32d4c..3e84683 100644
--- a/src/areafix/ftnafutil.c
+++ b/src/areafix/ftnafutil.c
@@ -464,6 +464,7 @@ int main(int argc, char **argv)
     int option_index;
     static struct option long_options[] = {
         {"no-rewrite", 0, 0, 'n'},
+        {"noaction", 0, 0, 'n'},
         {"areas-bbs", 1, 0, 'b'},
         {"filefix", 0, 0, 'F'},
         {"out-dir", 1, 0, 'O'}, /* Set packet directory */
-- 
2.43.0


From f426b7c279d1b840cc36a0baa6f27321276fd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 63/89] fix: ftnafpkt: know the documented option --answer, -s
 takes no argument

---
 src/areafix/ftnafpkt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/areafix/ftnafpkt.c b/src/areafix/ftnafpkt.c
index 7550039..a37f81e 100644
--- a/src/areafix/ftnafpkt.c
+++ b/src/areafix/ftnafpkt.c
@@ -392,6 +392,7 @@ int main(int argc, char **argv)
         {"no-rewrite", 0, 0, 'n'},
         {"areas-bbs", 1, 0, 'b'},
         {"filefix", 0, 0, 'F'},
+        {"answer", 0, 0, 's'},
 
         {"verbose", 0, 0, 'v'}, /* More verbose */
         {"help", 0, 0, 'h'},    /* Help */
@@ -409,7 +410,7 @@ int main(int argc, char **argv)
     cf_initialize();
 
     /* Parse options */
-    while ((c = getopt_long(argc, argv, "O:I:lrnb:Fvhc:a:w:u:s:",
+    while ((c = getopt_long(argc, argv, "O:I:lrnb:Fvhc:a:w:u:s",
                             long_options, &option_index)) != EOF)
         switch (c) {
     /***** program options *****/
-- 
2.43.0


From f72ae2b09aa1e5e541a43d6c166878d56c2c3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:45 +0000
Subject: [PATCH 64/89] fix: ftntoss: --no-dupecheck takes no argument

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index e70d34d..d89d4ca 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -1858,7 +1858,7 @@ int main(int argc, char **argv)
 
     int option_index;
     static struct option long_options[] = {
-        {"no-dupecheck", 1, 0, 'd'},    /* Disable dupe check */
+        {"no-dupecheck", 0, 0, 'd'},    /* Disable dupe check */
         {"grade", 1, 0, 'g'},   /* grade */
         {"in-dir", 1, 0, 'I'},  /* Set inbound packets directory */
         {"lock-file", 0, 0, 'l'},   /* Create lock file while processing */
-- 
2.43.0


From 13d975466b780e38daa578538cdb80590bd43135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 65/89] fix: ftntoss: CheckPointOriginAddr had no effect

---
 src/toss/ftntoss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toss/ftntoss.c b/src/toss/ftntoss.c
index d89d4ca..2b8b3c4 100644
--- a/src/toss/ftntoss.c
+++ b/src/toss/ftntoss.c
@@ -2078,7 +2078,7 @@ int main(int argc, char **argv)
     }
 #endif                          /* !ACTIVE_LOOKUP */
     if (cf_get_string("CheckPointOriginAddr", TRUE)) {
-        check_point_origin_addr = FALSE;
+        check_point_origin_addr = TRUE;
     }
 #ifdef DO_NOT_TOSS_NETMAIL
     if (cf_get_string("NoRewrite", TRUE)) {
-- 
2.43.0


From dcde9e8a233e5843792908a0274b88451cab7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 66/89] fix: tick: every line of a TIC file's descriptions,
 Release and App are written back

---
 src/common/tick.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/common/tick.c b/src/common/tick.c
index 369b970..bbb2208 100644
--- a/src/common/tick.c
+++ b/src/common/tick.c
@@ -114,13 +114,21 @@ int tick_put(Tick * tic, char *name, mode_t mode)
     fprintf(fp, "File %s\r\n", tic->file);
     if (tic->replaces)
         fprintf(fp, "Replaces %s\r\n", tic->replaces);
-    fprintf(fp, "Desc %s\r\n", tic->desc.first ? tic->desc.first->line : "");
-    if (tic->ldesc.first)
-        fprintf(fp, "LDesc %s\r\n", tic->ldesc.first->line);
+    if (!tic->desc.first)
+        fprintf(fp, "Desc \r\n");
+    for (pl = tic->desc.first; pl; pl = pl->next)
+        fprintf(fp, "Desc %s\r\n", pl->line);
+    for (pl = tic->ldesc.first; pl; pl = pl->next)
+        fprintf(fp, "LDesc %s\r\n", pl->line);
     fprintf(fp, "CRC %08lX\r\n", tic->crc);
-    fprintf(fp, "Created %s\r\n", tic->created);
+    if (tic->created)
+        fprintf(fp, "Created %s\r\n", tic->created);
     fprintf(fp, "Size %lu\r\n", tic->size);
     fprintf(fp, "Date %ld\r\n", (long)tic->date);
+    if (tic->release != -1)
+        fprintf(fp, "Release %ld\r\n", (long)tic->release);
+    for (pl = tic->app.first; pl; pl = pl->next)
+        fprintf(fp, "App %s\r\n", pl->line);
     for (pl = tic->path.first; pl; pl = pl->next)
         fprintf(fp, "Path %s\r\n", pl->line);
     for (p = tic->seenby.first; p; p = p->next)
-- 
2.43.0


From f6c31513036c4660493502d631401b027890ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 67/89] fix: areasbbs: the read-only flag is written back

---
 src/common/areasbbs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index 99673ee..cac027a 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -365,7 +365,7 @@ int areasbbs_print(FILE * fp)
 {
     AreasBBS *p;
 
-    fprintf(fp, "%s\n", areasbbs_1stline);
+    fprintf(fp, "%s\n", areasbbs_1stline ? areasbbs_1stline : "");
 
     for (p = areasbbs_list; p; p = p->next) {
         if (p->flags & AREASBBS_PASSTHRU)
@@ -375,6 +375,8 @@ int areasbbs_print(FILE * fp)
             fprintf(fp, "-z %d ", p->zone);
         if (p->addr.zone != -1)
             fprintf(fp, "-a %s ", znfp1(&p->addr));
+        if (p->flags & AREASBBS_READONLY)
+            fprintf(fp, "-r ");
         if (p->lvl != -1)
             fprintf(fp, "-l %d ", p->lvl);
         if (p->key)
-- 
2.43.0


From a201407b2147f1a77636e51056a7ea4b2e860b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 68/89] fix: histdb: message ids with more than one blank are
 looked up by the key they are stored under

---
 src/common/histdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/histdb.c b/src/common/histdb.c
index 7e2f47d..d19ea42 100644
--- a/src/common/histdb.c
+++ b/src/common/histdb.c
@@ -311,7 +311,7 @@ char *hi_fetch(char *key_string, int flag)
     static char out[MAXPATH];
     char *p;
 
-    if (flag == 0 && (p = strchr(key_string, ' ')) != NULL)
+    if (flag == 0 && (p = strrchr(key_string, ' ')) != NULL)
         key_string = p + 1;
     debug(7, "search key %s", key_string);
     key.dptr = key_string;      /* Key */
-- 
2.43.0


From 5c091864a81be80c0f230756de8842f29d9113bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 69/89] fix: read the address before a passive subscriber is
 noted

---
 src/common/areasbbs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/areasbbs.c b/src/common/areasbbs.c
index cac027a..6208b79 100644
--- a/src/common/areasbbs.c
+++ b/src/common/areasbbs.c
@@ -132,12 +132,16 @@ static int areasbbs_add_string(LON * lon, LON * lon_passive, char *p)
 
     ret = OK;
     for (; p; p = xstrtok(NULL, " \t\r\n")) {
+        int passive = FALSE;
+
         if ('P' == *p) {
-            lon_add(lon_passive, &node);
+            passive = TRUE;
             p++;
         }
         if (asc_to_node_diff(p, &node, &old) == OK) {
             old = node;
+            if (passive)
+                lon_add(lon_passive, &node);
             lon_add(lon, &node);
         } else {
             ret = ERROR;
-- 
2.43.0


From 70ef992e64d7dc3b9345d22a47adac36e8b5b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 70/89] fix: initialise the list of decoded MIME parts

---
 src/common/mime.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/mime.c b/src/common/mime.c
index 6f4b655..1b853b1 100644
--- a/src/common/mime.c
+++ b/src/common/mime.c
@@ -1660,8 +1660,7 @@ static Textlist *mime_debody_multipart(Textlist * body, MIMEInfo * mime,
         return NULL;
 
     dec_body = xmalloc(sizeof(*dec_body));
-    dec_body->first = NULL;
-    dec_body->last = NULL;
+    tl_init(dec_body);
 
     /* --boundary\0 */
     boundary = xmalloc(strlen(mime->type_boundary) + 3);
-- 
2.43.0


From 3d4e2fbee9b94fa6658eea984adffdde14b9aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 71/89] fix: message-id lookup without history lock returns an
 undefined pointer

---
 src/common/msgid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/msgid.c b/src/common/msgid.c
index 85e4dad..cdd5406 100644
--- a/src/common/msgid.c
+++ b/src/common/msgid.c
@@ -102,7 +102,7 @@ static char *msgid_domain(int zone)
 
 static char *msgid_dbc_fetch(char *msgid)
 {
-    char *s;
+    char *s = NULL;
 
     if (lock_program(cf_p_lock_history(), FALSE) == ERROR)
         return NULL;
-- 
2.43.0


From d17f1e21db8f22233e59e6f93d8f470bd4e674b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 72/89] fix: a password line with an illegal address left its
 node undefined

---
 src/common/passwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/passwd.c b/src/common/passwd.c
index f7dba9c..4398ec3 100644
--- a/src/common/passwd.c
+++ b/src/common/passwd.c
@@ -68,8 +68,12 @@ static Passwd *passwd_parse_line(char *buf)
 
     p = (Passwd *) xmalloc(sizeof(Passwd));
 
+    if (asc_to_node(n, &p->node, FALSE) == ERROR) {
+        fglog("passwd: illegal FTN address %s", n);
+        xfree(p);
+        return NULL;
+    }
     p->context = strsave(c);
-    asc_to_node(n, &p->node, FALSE);
     p->passwd = strsave(w);
     p->args = r ? strsave(r) : NULL;
     p->next = NULL;
-- 
2.43.0


From c7c048ee86d89d6988e0040b7bd63b67b158eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 73/89] fix: an illegal RulesSendTo address was compared
 uninitialised

---
 src/areafix/areafix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index fb75c5a..ddcd3f3 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2233,7 +2233,10 @@ short int send_rules(Node * link, char *area)
 
     for (p = cf_get_string("RulesSendTo", TRUE);
          p && *p; p = cf_get_string("RulesSendTo", FALSE)) {
-        asc_to_node(p, &node, TRUE);
+        if (asc_to_node(p, &node, TRUE) == ERROR) {
+            fglog("ERROR: RulesSendTo: illegal FTN address %s", p);
+            continue;
+        }
         if (!node_eq(link, &node))
             return OK;
     }
-- 
2.43.0


From 8bf6b5669868f370709dc2c9e8262b02d7ca2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 74/89] fix: maxarc of a new packing line tested before being
 set

---
 src/toss/ftnpack.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index 6dafbcd..b10f722 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -298,8 +298,7 @@ Packing *packing_parse_line(char *buf)
     r->type = type;
     r->nodes = lon;
     r->next = NULL;
-    if (!r->maxarc)
-        r->maxarc = ma;
+    r->maxarc = ma;
 
     debug(15, "packing: pack=%c dir=%s arc=%s type=%c, maxarc=%ld",
           r->pack, r->dir ? r->dir : "", (r->arc ? r->arc->name : NULL),
-- 
2.43.0


From c12116dc5a9d0446e685871ec08c00c928212b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 75/89] fix: illegal addresses in the routing files used
 uninitialised

---
 src/toss/ftnroute.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toss/ftnroute.c b/src/toss/ftnroute.c
index 5027e39..9d024dd 100644
--- a/src/toss/ftnroute.c
+++ b/src/toss/ftnroute.c
@@ -115,7 +115,10 @@ int troute_scan(char *file, int flag)
         s = strtok(buffer, " \t");
         if (!s)
             continue;
-        asc_to_node(s, &addr, FALSE);
+        if (asc_to_node(s, &addr, FALSE) == ERROR) {
+            fglog("ERROR: %s: illegal FTN address %s", file, s);
+            continue;
+        }
         node = addr.node;
         mode = MODE_HUB;
 
@@ -522,7 +525,7 @@ int do_cmd_mkroute(PktDesc * desc, MkRoute * r1)
             }
             if ((p = hi_fetch(znfp1(&desc->to), 1))) {
                 p1 = xstrtok(p, " $");
-                if (p1 && *p1 && znfp_parse_partial(p, &node)) {
+                if (p1 && *p1 && znfp_parse_partial(p1, &node) == OK) {
                     desc->to = node;
                     desc->to.point = 0;
                     desc->move_only = FALSE;
-- 
2.43.0


From febf0b43955e1fc617228a0369f80bf3ba6c7364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 76/89] fix: uninitialised buffers in log line and replaced
 file name

---
 src/tick/ftntick.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index ac560ef..b1297f4 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -187,7 +187,7 @@ int do_tic(int w_flag)
             }
             now = time(NULL);
             if (stat(name, &st) == ERROR) {
-                fglog("$ERROR: can't stat() file %s", buf);
+                fglog("$ERROR: can't stat() file %s", name);
                 return EXIT_ERROR;
             }
 
@@ -317,9 +317,6 @@ int process_tic(Tick * tic)
     int is_unknown = FALSE;
     Node from_node;
 
-#ifdef FECHO_PASSTHROUGHT
-    char full_farea_dir[MAXPATH];
-#endif                          /* FECHO_PASSTHROUGHT */
     char *tmp = NULL;
     short create_flag = FALSE;
     char *s1;
@@ -445,10 +442,7 @@ int process_tic(Tick * tic)
             char *xrdir = cf_get_string("TickReplacedDir", TRUE);
 
 #ifdef FECHO_PASSTHROUGHT
-            if (create_flag == TRUE)
-                BUF_COPY3(old_name, full_farea_dir, "/", tic->replaces);
-            else
-                BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
+            BUF_COPY3(old_name, bbs->dir, "/", tic->replaces);
             if (check_access(old_name, CHECK_FILE) == TRUE &&
                 !(bbs->flags & AREASBBS_PASSTHRU))
 #else
-- 
2.43.0


From ff9c9d37c1341cbaf22a174b982b98f9ca8cea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 77/89] fix: pipe of a failed command read with the length of
 an unset buffer

---
 src/toss/runinc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index 5358504..e8039fc 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -558,7 +558,8 @@ void run_toss(Runtoss * a)
         if (!(fp = popen(str, R_MODE))) {
             fglog("ERROR: can't open pipe");
         } else {
-            while (fgets(buf, strlen(buf), fp)) ;
+            buf[0] = '\0';
+            while (fgets(buf, sizeof(buf), fp)) ;
             p = xstrtok(buf, " \t");
             s = xstrtok(NULL, " \t");
             if ((s = xstrtok(NULL, " \t")))
-- 
2.43.0


From 7f8bc1c4b79e00f6452c8fcd81312ac37442da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 78/89] fix: third and later parts of a multipart mail
 overwrote each other

---
 src/common/textlist.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/textlist.c b/src/common/textlist.c
index bc13e0f..1c237fd 100644
--- a/src/common/textlist.c
+++ b/src/common/textlist.c
@@ -235,6 +235,8 @@ void tl_addtl_move(Textlist *d, Textlist *s)
         *d = *s;
     else {
         d->last->next = s->first;
+        if (s->last)
+            d->last = s->last;
         d->n += s->n;
     }
     tl_init(s);
-- 
2.43.0


From bac85c1e7d7ea4975e59d343ddf4b3c44992a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 79/89] fix: runinc: archives whose names the shell would act
 on are not handed to it

---
 src/common/misc.c        | 9 +++++++++
 src/include/prototypes.h | 1 +
 src/toss/runinc.c        | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/common/misc.c b/src/common/misc.c
index aef02c1..8e97edf 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -457,6 +457,15 @@ char *str_dosify(char *s)
     return s;
 }
 
+/*
+ * Check that the shell takes nothing in text from outside for anything
+ * but part of a word
+ */
+int shell_safe(char *s)
+{
+    return strpbrk(s, "|&;<>()$`\\\"'\r\n") == NULL;
+}
+
 /*
  * Run system command, return exit code
  */
diff --git a/src/include/prototypes.h b/src/include/prototypes.h
index 9c454f0..56732b1 100644
--- a/src/include/prototypes.h
+++ b/src/include/prototypes.h
@@ -432,6 +432,7 @@ char *str_expand_name(char *, size_t, char *);
 #define BUF_EXPAND(d,s)			str_expand_name(d,sizeof(d),s)
 
 char *str_dosify(char *);
+int shell_safe(char *);
 #ifdef DO_DOSIFY                /* MSDOS, OS2 */
 #define DOSIFY_IF_NEEDED(s)	str_dosify(s);
 #else                           /* UNIX */
diff --git a/src/toss/runinc.c b/src/toss/runinc.c
index e8039fc..472a6e0 100644
--- a/src/toss/runinc.c
+++ b/src/toss/runinc.c
@@ -143,6 +143,11 @@ void unpack(char *inb)
                 !strncmp(type, "sa", 2)) {
                 debug(1, "found %s/%s", inb, dir->d_name);
 
+                if (!shell_safe(dir->d_name)) {
+                    fglog("ERROR: unsafe name of archive %s", dir->d_name);
+                    continue;
+                }
+
                 if (!unpack_init) {
                     unpacking_init(cf_p_packing());
                     unpack_init = TRUE;
-- 
2.43.0


From 11a15ae605d012dec921e1b48d908135b741cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 80/89] fix: ftnpack: packets whose names the shell would act
 on are refused

---
 src/toss/ftnpack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toss/ftnpack.c b/src/toss/ftnpack.c
index b10f722..e8fc0f0 100644
--- a/src/toss/ftnpack.c
+++ b/src/toss/ftnpack.c
@@ -964,6 +964,11 @@ int do_file(char *pkt_name)
     Packet pkt;
     FILE *pkt_file;
 
+    if (!shell_safe(pkt_name)) {
+        fglog("ERROR: unsafe name of packet %s", pkt_name);
+        TMPS_RETURN(severe_error);
+    }
+
     /* Open packet and read header */
     pkt_file = fopen(pkt_name, R_MODE);
     if (!pkt_file) {
-- 
2.43.0


From 41f7c3a73d88db62a8ada3a5bb9c827d164e0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 81/89] fix: ftninpost: a sender address the shell would act on
 is refused

---
 src/gate/ftninpost.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gate/ftninpost.c b/src/gate/ftninpost.c
index f1bc776..0749c90 100644
--- a/src/gate/ftninpost.c
+++ b/src/gate/ftninpost.c
@@ -232,7 +232,15 @@ int do_dir(char *cdir, int mode)
                         debug(9, "WARNING: \"From\" string not found");
                         break;
                     } else {
-                        p = xstrtok(p + 5, " \t");
+                        p = xstrtok(p + 5, " \t\r\n");
+                        if (!p || !shell_safe(p)) {
+                            char bad[MAXPATH];
+                            str_change_ext(bad, sizeof(bad), rfc_file, ".bad");
+                            fglog("ERROR: unsafe sender address in %s, renamed to %s",
+                                  rfc_file, bad);
+                            rename(rfc_file, bad);
+                            break;
+                        }
                         str_printf(buf, sizeof(buf), ftnin_sendmail, p);
                         p = buf;
                     }
-- 
2.43.0


From 28dafc3b66744d72cbd85d8d13146045cf5564f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 82/89] fix: ftn2rfc: a newsgroup name the shell would act on
 is not handed to ngoper

---
 src/gate/ftn2rfc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gate/ftn2rfc.c b/src/gate/ftn2rfc.c
index 433e46c..bdd22b6 100644
--- a/src/gate/ftn2rfc.c
+++ b/src/gate/ftn2rfc.c
@@ -237,6 +237,11 @@ Area *news_msg(char *line, Node * to)
                 }
             } else {
                 if (cf_get_string("AutoCreateNG", TRUE)) {
+                    if (!shell_safe(pa->group)) {
+                        fglog("ERROR: unsafe name of newsgroup %s",
+                              pa->group);
+                        return pa;
+                    }
                     fglog("create newsgroup %s", pa->group);
                     BUF_COPY2(buffer, "%N/ngoper create ", pa->group);
                     str_printf(exec_line, sizeof(exec_line),
-- 
2.43.0


From 508fe7612148935b2bc985f04777cb9c01ab9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 83/89] fix: areafix: AutoCreateCmd not run with text the shell
 would act on, no directory part in file area names

---
 src/areafix/areafix.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index ddcd3f3..707b078 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -855,6 +855,12 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
         if (p->flags & AREASBBS_PASSTHRU)   /* -# */
             p->dir = strsave("-");
         else {
+            if (strchr(name, '/') || name[0] == '.') {
+                fglog("ERROR: area name %s is not the name of a directory",
+                      name);
+                areafix_printf("%-41s: can't create.", name);
+                return ERROR;
+            }
 //      p->flags &= AREASBBS_PASSTHRU;
             autocreate_fecho_path = cf_get_string("AutoCreateFechoPath", TRUE);
             if (autocreate_fecho_path == NULL) {
@@ -930,12 +936,13 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
     areafix_printf("%-41s: created", p->area);
 
     if ((autocreate_script_cmd = cf_get_string("AutoCreateCmd", TRUE))) {
+        char args[BUFFERSIZE];
+
 #ifndef FTN_ACL
-        snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s %s",
+        snprintf(args, sizeof(args), "%s %s %s %s %d %s %s %d %s %s",
 #else
-        snprintf(buffer, sizeof(buffer), "%s %s %s %s %s %d %s %s %d %s",
+        snprintf(args, sizeof(args), "%s %s %s %s %d %s %s %d %s",
 #endif                          /* !FTN_ACL */
-                autocreate_script_cmd,
                 p->area,
                 znfp1(node),
                 p->state,
@@ -948,10 +955,18 @@ int cmd_new(Node * node, char *line, char *dwnl, int inter)
 #else
                 p->flags & AREASBBS_PASSTHRU ? "-#" : "-");
 #endif                          /* !FTN_ACL */
-        if (run_system(buffer))
-            debug(7, "exec autocreate script %s", buffer);
-        else
-            fglog("ERROR: failed exec autocreate script %s", buffer);
+        if (!shell_safe(args)) {
+            fglog("ERROR: autocreate script not run, unsafe arguments %s",
+                  args);
+            areasbbs_changed();
+        } else {
+            snprintf(buffer, sizeof(buffer), "%s %s", autocreate_script_cmd,
+                     args);
+            if (run_system(buffer))
+                debug(7, "exec autocreate script %s", buffer);
+            else
+                fglog("ERROR: failed exec autocreate script %s", buffer);
+        }
     } else
         areasbbs_changed();
 
-- 
2.43.0


From b1fb51ab928eb1d4e0c3141b3afa548d4562e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 84/89] fix: ftntick: directory parts in TIC names refused, no
 shell characters in commands, file checked once

---
 src/tick/ftntick.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/tick/ftntick.c b/src/tick/ftntick.c
index b1297f4..08173ed 100644
--- a/src/tick/ftntick.c
+++ b/src/tick/ftntick.c
@@ -145,6 +145,14 @@ static int ftntick_write_history(Tick *tic, bool w_flag)
     return ret;
 }
 
+/*
+ * Check that a name from a TIC file stays in the directory it is put into
+ */
+static bool name_safe(char *s)
+{
+    return !s || (!strchr(s, '/') && strcmp(s, "..") != 0);
+}
+
 /*
  * Processs *.tic files in Binkley inbound directory
  */
@@ -154,6 +162,7 @@ int do_tic(int w_flag)
     char buf[MAXPATH];
     char pattern[16];
     int tic_wait = -1;
+    int file_status;
     struct stat st;
     time_t now;
     char *p;
@@ -180,8 +189,15 @@ int do_tic(int w_flag)
             goto rename_to_bad;
         }
 
+        if (!name_safe(tic.file) || !name_safe(tic.area) ||
+            !name_safe(tic.replaces)) {
+            fglog("ERROR: unsafe file or area name in %s", name);
+            goto rename_to_bad;
+        }
+
         /* Check file against Tick data */
-        if (check_file(&tic) == -2) {
+        file_status = check_file(&tic);
+        if (file_status == -2) {
             if ((p = cf_get_string("TickWaitHour", TRUE))) {
                 tic_wait = atoi(p);
             }
@@ -212,8 +228,10 @@ int do_tic(int w_flag)
                     unlink(name);
                     continue;
                 }
+                fglog("config: unknown TickWaitAction %s", p);
+                return EXIT_ERROR;
             }
-        } else if (check_file(&tic) == ERROR)
+        } else if (file_status == ERROR)
             goto rename_to_bad;
 
         tick_debug(&tic, 3);
@@ -281,7 +299,7 @@ int do_tic(int w_flag)
             areasbbs_rewrite();
             unlock_path(bbslock);
             /* Run -x script, if any */
-            if (exec_script) {
+            if (exec_script && shell_safe(name)) {
                 int ret;
 
                 BUF_COPY3(buffer, exec_script, " ", name);
@@ -289,7 +307,8 @@ int do_tic(int w_flag)
                 debug(4, "Command: %s", buffer);
                 ret = run_system(buffer);
                 debug(4, "Exit code=%d", ret);
-            }
+            } else if (exec_script)
+                fglog("ERROR: unsafe file name %s, -x script not run", name);
             /* o.k., remove the TIC file */
             if (unlink(name) == ERROR)
                 fglog("$ERROR: can't remove %s", name);
@@ -643,6 +662,12 @@ int process_tic(Tick * tic)
                 tick_action = xstrtok(NULL, "\n");
                 if (wild_file && tick_action &&
                     wildmatch(tic->file, wild_file, TRUE)) {
+                    if (!shell_safe(new_name)) {
+                        fglog("ERROR: unsafe file name %s, no TickFileAction",
+                              new_name);
+                        xfree(str_save);
+                        break;
+                    }
                     str_printf(buffer, sizeof(buffer), tick_action, new_name);
                     debug(8, "exec: %s", buffer);
                     ret = run_system(buffer);
-- 
2.43.0


From 4f0598ebe343a067c2a0776cbb64b8969b83ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 85/89] fix: ngoper: no configuration file of the caller's, no
 shell characters in group names

---
 src/toss/ngoper.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/toss/ngoper.c b/src/toss/ngoper.c
index 2ea3146..f33ac36 100644
--- a/src/toss/ngoper.c
+++ b/src/toss/ngoper.c
@@ -21,6 +21,7 @@ int main(int argc, char **argv)
     char *cmd_ng, *cmd_rn = NULL, *cmd_rm;
     char *c_flag = NULL;
     char *p;
+    char *group;
     char buf[BUFSIZ];
     FILE *fp;
 
@@ -48,6 +49,11 @@ int main(int argc, char **argv)
             return 0;
             break;
         case 'c':
+            /* installed setuid: the commands come from the config file */
+            if (getuid() != geteuid()) {
+                short_usage();
+                return EX_USAGE;
+            }
             c_flag = optarg;
             break;
         default:
@@ -83,6 +89,13 @@ int main(int argc, char **argv)
         return 1;
     }
 
+    group = argv[optind + 1];
+    if (!*group || *group == '-' || strpbrk(group, " \t") || !shell_safe(group)) {
+        printf("Illegal newsgroup name\n");
+        exit_free();
+        return 1;
+    }
+
     /* AutoCreateNewgroupCmd */
     if (NULL != (p = cf_get_string("AutoCreateNewgroupCmd", TRUE))) {
         cmd_ng = p;
@@ -117,17 +130,17 @@ int main(int argc, char **argv)
         fglog("$ERROR: could not redirect stdin");
 
     if (!remove) {
-        str_printf(buf, sizeof(buf), cmd_ng, argv[optind + 1]);
+        str_printf(buf, sizeof(buf), cmd_ng, group);
         if (0 != run_system(buf))
             return 1;
 
         if (cmd_rn) {
-            str_printf(buf, sizeof(buf), cmd_rn, argv[optind + 1]);
+            str_printf(buf, sizeof(buf), cmd_rn, group);
             if (0 != run_system(buf))
                 return 1;
         }
     } else {
-        str_printf(buf, sizeof(buf), cmd_rm, argv[optind + 1]);
+        str_printf(buf, sizeof(buf), cmd_rm, group);
         if (0 != run_system(buf))
             return 1;
     }
-- 
2.43.0


From 440786d80eab2ae35494660572b972747a7f1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 86/89] fix: ftnmail: refuse more recipients than can be passed
 on

---
 src/gate/ftnmail.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gate/ftnmail.c b/src/gate/ftnmail.c
index 161fc3d..e2295ce 100644
--- a/src/gate/ftnmail.c
+++ b/src/gate/ftnmail.c
@@ -180,6 +180,12 @@ int main(int argc, char **argv)
     while (n < MAXARGS - 1 && optind < argc)
         args[n++] = argv[optind++];
 
+    if (optind < argc) {
+        fprintf(stderr, "%s: too many arguments\n", PROGRAM);
+        exit_free();
+        exit(EX_USAGE);
+    }
+
     args[n++] = NULL;
 
 #if 0
-- 
2.43.0


From 72227b607f05135d97d835861b5430de0d4ee105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 87/89] fix: areafix: build the rules list without disturbing
 the caller's packet listing

---
 src/areafix/areafix.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index 707b078..b5d6297 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2322,8 +2322,11 @@ short int send_rules(Node * link, char *area)
 
 short int rulesup(char *rulesc)
 {
-    char *p, *s, *rulesc1, *rdir, *buf;
+    char *p, *s, *rulesc1;
+    char rdir[MAXPATH], buf[MAXPATH];
     FILE *fp, *fp1;
+    DIR *dp;
+    struct dirent *ent;
 
     if (!rulesc) {
         rulesc1 = cf_get_string("RulesConfig", TRUE);
@@ -2333,24 +2336,30 @@ short int rulesup(char *rulesc)
         rulesc1 = rulesc;
 
     if (rulesc1 && (s = cf_get_string("RulesDir", TRUE))) {
-        rdir = strsave(s);
+        BUF_EXPAND(rdir, s);
 
-        if (dir_open(rdir, "*.rul", TRUE) == ERROR) {
+        /* Not dir_open(): the caller may be in the middle of its own listing */
+        if (!(dp = opendir(rdir))) {
             debug(7, "can't open directory %s", rdir);
             return ERROR;
         }
         fp1 = fopen_expand_name(rulesc1, W_MODE, FALSE);
         if (!fp1) {
             debug(7, "ERROR: reading %s", rulesc1);
+            closedir(dp);
             return ERROR;
         }
-        for (buf = dir_get(TRUE); buf; buf = dir_get(FALSE)) {
+        while ((ent = readdir(dp))) {
+            if (!wildmatch(ent->d_name, "*.rul", TRUE))
+                continue;
+            BUF_COPY3(buf, rdir, "/", ent->d_name);
             debug(9, "processing file %s", buf);
 
             fp = fopen_expand_name(buf, R_MODE, FALSE);
             if (!fp) {
                 debug(7, "ERROR: reading %s", buf);
                 fclose(fp1);
+                closedir(dp);
                 return ERROR;
             }
             p = cf_getline(buffer, BUFFERSIZE, fp);
@@ -2367,6 +2376,7 @@ short int rulesup(char *rulesc)
             }
         }
         fclose(fp1);
+        closedir(dp);
         return OK;
     }
     return ERROR;
-- 
2.43.0


From b94286fb3eb50ceeb9372d0dc73fe8267a3d95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 88/89] fix: areafix: a rules list that was built is no error

---
 src/areafix/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/areafix/areafix.c b/src/areafix/areafix.c
index b5d6297..df7003f 100644
--- a/src/areafix/areafix.c
+++ b/src/areafix/areafix.c
@@ -2261,7 +2261,7 @@ short int send_rules(Node * link, char *area)
         debug(8, "config: RulesConfig %s", p);
 
         if (!fp && errno == ENOENT) {
-            if (!rulesup(p))
+            if (rulesup(p) == ERROR)
                 return ERROR;
             fp = fopen_expand_name(p, R_MODE, FALSE);
         }
-- 
2.43.0


From d26c843d35ccbcb9ebf12254425df6daf681bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 89/89] fix: run_system: a command that was killed did not
 succeed

---
 src/common/misc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/misc.c b/src/common/misc.c
index 8e97edf..7ceaab6 100644
--- a/src/common/misc.c
+++ b/src/common/misc.c
@@ -472,10 +472,15 @@ int shell_safe(char *s)
 int run_system(char *s)
 {
     char cmd[BUFFERSIZE];
+    int ret;
 
     BUF_EXPAND(cmd, s);
     DOSIFY_IF_NEEDED(cmd);
-    return (system(cmd) >> 8) & 0xff;
+    ret = system(cmd);
+    /* Killed by a signal: no exit code, but not a success either */
+    if (ret & 0x7f)
+        return 128 + (ret & 0x7f);
+    return (ret >> 8) & 0xff;
 }
 
 int xfeof(FILE * fp)
-- 
2.43.0

