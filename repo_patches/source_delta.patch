From 6469678a359db196f85531dbf6abe4c35a93a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 01/46] fix: lock timeout of the queued lock counts
 milliseconds, not nanoseconds, below one second

---
 Db/dblock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index b2b574d..3e88ed7 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
-- 
2.43.0


From 7151f8babcafd727b1d6901ed7c5c95cb4b08d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:44 +0000
Subject: [PATCH 02/46] fix: queued lock: only a grant ends the wait, and a
 timed-out waiter neither drops a grant nor strands the readers behind it

A wait that ended early (signal, or a late wake meant for the former owner
of the lock cell) was taken for a grant, so two clients could hold the lock.
A waiter timing out at the moment it was granted the lock left the queue
without passing the lock on, and readers queued behind a timed-out writer
were not woken although readers held the lock.
---
 Db/dblock.c | 114 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 80 insertions(+), 34 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 3e88ed7..49fa89c 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -142,10 +142,6 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 #define UPDATE_SPIN_TIMEOUT(t, ts) t -= ts.tv_nsec;
 #endif
 
-#define INIT_QLOCK_TIMEOUT(t, ts) \
-  ts.tv_sec = t / 1000; \
-  ts.tv_nsec = (t % 1000) * 1000000;
-
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
   if(!l) { \
@@ -194,6 +190,12 @@ static void futex_wait(volatile gint *addr1, int val1);
 static int futex_trywait(volatile gint *addr1, int val1,
   struct timespec *timeout);
 static void futex_wake(volatile gint *addr1, int val1);
+#ifdef USE_LOCK_TIMEOUT
+static int wait_granted(lock_queue_node *lockp, gint timeout);
+static int abandon_lock(void *db, gint lock);
+#else
+static void wait_granted(lock_queue_node *lockp);
+#endif
 #endif
 #endif
 
@@ -984,13 +986,6 @@ static void unlock_queue(void * db) {
 gint db_tfqueue_wlock(void * db, gint timeout) {
 #else
 gint db_tfqueue_wlock(void * db) {
-#endif
-#ifdef _WIN32
-  int ts;
-#else
-#ifdef __linux__
-  struct timespec ts;
-#endif  
 #endif
   gint lock, prev;
   lock_queue_node *lockp;
@@ -1029,16 +1024,10 @@ gint db_tfqueue_wlock(void * db) {
   if(lockp->waiting) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-    INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
+    if(!wait_granted(lockp, timeout) && abandon_lock(db, lock))
       return 0;
-    }
 #else
-    futex_wait(&lockp->waiting, 1);
+    wait_granted(lockp);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1098,13 +1087,6 @@ gint db_tfqueue_wulock(void * db, gint lock) {
 gint db_tfqueue_rlock(void * db, gint timeout) {
 #else
 gint db_tfqueue_rlock(void * db) {
-#endif
-#ifdef _WIN32
-  int ts;
-#else
-#ifdef __linux__
-  struct timespec ts;
-#endif    
 #endif
   gint lock, prev;
   lock_queue_node *lockp;
@@ -1148,16 +1130,10 @@ gint db_tfqueue_rlock(void * db) {
     volatile gint *syn_addr = NULL;
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-    INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
+    if(!wait_granted(lockp, timeout) && abandon_lock(db, lock))
       return 0;
-    }
 #else
-    futex_wait(&lockp->waiting, 1);
+    wait_granted(lockp);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1425,6 +1401,76 @@ static void futex_wake(volatile gint *addr1, int val1)
 {
   syscall(SYS_futex, (void *) addr1, FUTEX_WAKE, val1);
 }
+
+/** Wait until the lock is granted.
+ *  The wait on the futex also ends when a signal arrives or when a wake
+ *  meant for a former owner of the same cell is delivered late, so only the
+ *  waiting flag tells whether we have the lock.
+ */
+#ifdef USE_LOCK_TIMEOUT
+/*  Returns 1 if the lock was granted, 0 if timeout (in ms) ran out first. */
+static int wait_granted(lock_queue_node *lockp, gint timeout)
+{
+  struct timespec now, ts;
+  gint left;
+  gint end_sec, end_nsec;
+
+  clock_gettime(CLOCK_MONOTONIC, &now);
+  end_sec = now.tv_sec + timeout / 1000;
+  end_nsec = now.tv_nsec + (timeout % 1000) * 1000000;
+
+  while(lockp->waiting) {
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    left = (end_sec - now.tv_sec) * 1000000000 + end_nsec - now.tv_nsec;
+    if(left < 0)
+      left = 0;
+    ts.tv_sec = left / 1000000000;
+    ts.tv_nsec = left % 1000000000;
+    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT)
+      return !lockp->waiting;
+  }
+  return 1;
+}
+
+/** Leave the queue after a timeout.
+ *  Returns 0 if the lock was granted in the meantime (the caller has it).
+ *  Otherwise returns 1. If the one behind us was only waiting for us,
+ *  it is let in.
+ */
+static int abandon_lock(void *db, gint lock)
+{
+  db_memsegment_header* dbh = dbmemsegh(db);
+  lock_queue_node *lockp = (lock_queue_node *) offsettoptr(db, lock);
+  volatile gint *syn_addr = NULL;
+
+  lock_queue(db);
+  if(!lockp->waiting) {
+    unlock_queue(db);
+    return 0;
+  }
+  DEQUEUE_LOCK(db, dbh, lock, lockp)
+  if(lockp->prev && lockp->next) {
+    lock_queue_node *prevp = (lock_queue_node *) offsettoptr(db, lockp->prev);
+    lock_queue_node *nextp = (lock_queue_node *) offsettoptr(db, lockp->next);
+    if(nextp->class == LOCKQ_READ && nextp->waiting &&
+      prevp->class == LOCKQ_READ && !prevp->waiting) {
+      nextp->waiting = 0;
+      syn_addr = &nextp->waiting;
+    }
+  }
+  free_lock(db, lock);
+  unlock_queue(db);
+  if(syn_addr)
+    futex_wake(syn_addr, 1);
+  return 1;
+}
+#else
+static void wait_granted(lock_queue_node *lockp)
+{
+  while(lockp->waiting)
+    futex_wait(&lockp->waiting, 1);
+}
+#endif
 #endif
 
 #endif /* LOCK_PROTO==TFQUEUE */
-- 
2.43.0


From b0d92548d841afbce9c84577adfecf69088cfaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 03/46] fix: a cnf statement with the conjecture role is
 negated, as documented

cnf(n,conjecture,p(X)) is documented to be equivalent to
fof(n,conjecture,?[X]:p(X)), but the clause was used unnegated: proofs were
found for non-theorems and theorems were not proved.
---
 Builtparser/dbparse.c | 4 ++++
 Parser/dbparse.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..10fcc83 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -495,6 +495,10 @@ void* wr_preprocess_clauselist
         }  
       }  
       resultclause=wr_preprocess_tptp_cnf_clause(g,mpool,cl);     
+      if (resultclause && !strcmp(wg_atomstr1(db,clrole),"conjecture")) {
+        // a conjecture must be negated, just like a fof conjecture
+        resultclause=wr_preprocess_tptp_fof_clause(g,mpool,cl,clname);
+      }
       resultclause=wg_mklist3(db,mpool,clname,clrole,resultclause);
     } else if (wr_is_tptp_fof_clause(db,cl)) {
       // tptp fof clause
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..10fcc83 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -495,6 +495,10 @@ void* wr_preprocess_clauselist
         }  
       }  
       resultclause=wr_preprocess_tptp_cnf_clause(g,mpool,cl);     
+      if (resultclause && !strcmp(wg_atomstr1(db,clrole),"conjecture")) {
+        // a conjecture must be negated, just like a fof conjecture
+        resultclause=wr_preprocess_tptp_fof_clause(g,mpool,cl,clname);
+      }
       resultclause=wg_mklist3(db,mpool,clname,clrole,resultclause);
     } else if (wr_is_tptp_fof_clause(db,cl)) {
       // tptp fof clause
-- 
2.43.0


From f25ba9b33992e908babd93416637a4a296014a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 04/46] fix: strategy text of a run without a runs array was
 read uninitialised

by run N strategy printed whatever memory contained; a too long strategy text
was also left unterminated.
---
 Reasoner/glb.c   | 1 +
 Reasoner/rmain.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..9fd9b99 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -118,6 +118,7 @@ int wr_glb_init_simple(glb* g) {
   //printf("\nwr_glb_init_simple called\n");
   (g->filename)=NULL;
   (g->outfilename)=NULL;
+  (g->guidetext)[0]=0; // stays empty if no run-specific strategy text is given
   (g->proof_found)=0; // becomes 1 if proof found
   (g->proof_answer)=NULL; // becomes a ptr to pure answer clause
   (g->proof_history)=wg_encode_null(g->db,NULL); // becomes a gint encoding of the constructed history
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..51fe842 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -537,7 +537,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
-- 
2.43.0


From 4781e6fa4528b28200bd71d909912a362aadc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 05/46] fix: a strategy with exactly ten runs was taken for a
 strategy sequence

The count of runs, 10, was the same value as the mark of a sequence, so a run
list of ten ignored each run's settings and printed debugging text.
---
 Reasoner/guide.c | 4 ++--
 Reasoner/guide.h | 3 +++
 Reasoner/rmain.c | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index bcfaaad..9ec4c5a 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -165,7 +165,7 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
     }
     out=cJSON_PrintUnformatted(guide);
     *outstr=out;
-    return 10;
+    return GUIDE_SECTION_IS_SEQUENCE;
   } else if (!json_isobject(guide)) {    
     errstr=cJSON_Print(guide);
     wr_warn2(g,"misunderstood section in the strategy:\n ", errstr);
@@ -397,7 +397,7 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
               if (*outstr) free(*outstr); // free the string set by the recursive call before overwriting
               out=cJSON_PrintUnformatted(run);
               *outstr=out;
-              if (tmp==10) return 10;
+              if (tmp==GUIDE_SECTION_IS_SEQUENCE) return GUIDE_SECTION_IS_SEQUENCE;
               if (tmp<0) return -1;
             }
           } 
diff --git a/Reasoner/guide.h b/Reasoner/guide.h
index f64d4fb..f9aa731 100644
--- a/Reasoner/guide.h
+++ b/Reasoner/guide.h
@@ -35,6 +35,9 @@
 cJSON* wr_parse_guide_file(char* stratfile, char** guidebuf);
 cJSON* wr_parse_guide_str(char* buf);
 int wr_parse_guide_strategy_set(glb* g, char* stratname);
+// result of wr_parse_guide_section for a sequence (array) of strategies: differs from any count of runs
+#define GUIDE_SECTION_IS_SEQUENCE 1000000000
+
 int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int seqnr);
 int wr_parse_guide_strategy(glb* g, cJSON *guide);
 
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 51fe842..d5f4e84 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -748,7 +748,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
    
 
     if (!(g->proof_found) || !(wr_enough_answers(g))) {   
-      if (guideres==10 && (g->guidetext)) {
+      if (guideres==GUIDE_SECTION_IS_SEQUENCE) {
         printf("\nseqstrat\n");
         int seqnr=0, seqguideres;
         //char *out;
-- 
2.43.0


From d7206cdb436cc0abb90700a886385357453ce360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 06/46] fix: parallel run: a worker that ends without a proof
 no longer ends the whole run

A worker whose run fails (or which is interrupted or killed) is counted as
ended, its exit status tells the parent that it has no proof, and the parent
keeps waiting for the others.
---
 Reasoner/rmain.c | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index d5f4e84..712291a 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -47,6 +47,7 @@
 #else
 #include "../Parser/dbparse.h"
 #endif
+#include <errno.h>
 #include <sys/wait.h> 
 #include <unistd.h> 
 //#include <sys/signal.h>
@@ -114,6 +115,9 @@ void wr_store_offset_termhash(glb* g, gint* hasharr, int pos);
 
 void* wr_free_analyze_g(glb* g);
 
+static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile, int informat,  
+                    char* outfilename, char* guidestr, int* inworker);
+
 /* ====== Functions ============== */
 
 
@@ -133,6 +137,18 @@ void sig_usr(int signo, siginfo_t *sinfo, void *context){
 
 int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,  
                     char* outfilename, char* guidestr) {
+  int res;
+  int inworker=0; // becomes 1 in a forked worker process
+
+  res=wr_run_reasoner_strategies(db,inputname,stratfile,informat,outfilename,guidestr,&inworker);
+  // A worker tells its parent by the exit status whether it found a proof: 
+  // only the parent reports that no proof was found.
+  if (inworker && res) exit(1);
+  return res;
+}
+
+static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile, int informat,  
+                    char* outfilename, char* guidestr, int* inworker) {
   glb* g;    // our g (globals)
   glb* kb_g; // our copy of the g (globals) of the external shared db 
   glb* rglb=NULL; // ptr to g (globals) of the external shared db 
@@ -282,6 +298,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   if (maxforks>64) maxforks=64;
   if (maxforks==1) maxforks=0;
   setbuf(stdout, 0);
+  if (maxforks) signal(SIGCHLD,SIG_DFL); // exit statuses of the workers are needed
+  int parentpid=getpid();
   for(forknr=0; forknr<maxforks; forknr++) {
     pid=fork();
 
@@ -296,13 +314,14 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (pid==0) {
       // child
       //printf("\nafter fork nr %d with pid 0 (child)\n",forknr);
+      *inworker=1;
 #ifdef __linux__      
       // make child to terminate if parent terminates
       tmp = prctl(PR_SET_PDEATHSIG, SIGTERM);
       if (tmp == -1) { printf("\nparent died for fork %d, exiting\n", forknr); exit(1); }
       // test in case the original parent exited just
       // before the prctl() call
-      if (getppid() == 1) exit(1);
+      if (getppid() != parentpid) exit(1);
 #endif      
       break;
     } else {
@@ -341,6 +360,21 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       //printf("\nwaitpid ended for cpid %d\n",cpid);
       //fflush(stdout);
 
+      if (cpid<0) {
+        if (errno==EINTR) continue; // interrupted, not ended
+        break; // no workers left
+      }
+      // remove cpid from pid array      
+      for(i=0;i<forkscreated;i++) {          
+        if (forkpids[i]==cpid) { 
+          forkpids[i]=0;
+          break;
+        }
+      }
+      if (i>=forkscreated) continue; // not a worker of ours
+      // a worker has ended: normally or killed by a signal
+      forkslive--;  
+
       if (WIFEXITED(stat)) {
 
         //printf("\nWIFEXITED(stat) true for cpid %d\n",cpid);
@@ -351,16 +385,6 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
         //printf("Child inside subprocess checking %d terminated with status err: %d\n", cpid, err); 
         //fflush(stdout);
 
-        //printf("last_received_signal_pid: %d\n", last_received_signal_pid);
-        forkslive--;  
-        // remove cpid from pid array      
-        for(i=0;i<forkscreated;i++) {          
-          if (forkpids[i]==cpid) { //} && last_received_signal_pid!=cpid) {
-            //printf("\ni %d removing cpid %d from forkpids[i] %d\n",i,cpid,forkpids[i]);
-            forkpids[i]=0;
-            break;
-          }
-        }
         if (err==0) {
           //printf("\nerr==0\n");
           // proof found, kill all children
-- 
2.43.0


From 51ca1adf1c4b5182a0bff1c95fff3acbfd72763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 07/46] fix: the time limit does not cut or contradict a proof
 that is being printed

The limit is held back while a result is printed, and the parent of a parallel
run ends its workers and waits for them before it reports the time limit.
---
 Reasoner/history.c | 28 +++++++++++++++++++++----
 Reasoner/rmain.c   | 52 +++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 5 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..b20fb5c 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -40,6 +40,9 @@
 #ifndef _WIN32
 #include <unistd.h>
 #include <sys/time.h>
+#ifndef __EMSCRIPTEN__
+#include <signal.h>
+#endif
 #endif
 
 #ifdef __cplusplus
@@ -1255,6 +1258,25 @@ void wr_print_clause_name_history(glb* g, gint history) {
 }
 
 
+/* --------- printing the result --------- */
+
+// The time limit (SIGALRM, SIGTERM to a worker) must not cut a started printout
+// nor come after it: it is held back from here on. The caller releases it if it 
+// goes on with the search.
+
+static void wr_print_result_buf(glb* g, char* buf) {
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  sigset_t sigs;
+
+  sigemptyset(&sigs);
+  sigaddset(&sigs,SIGALRM);
+  sigaddset(&sigs,SIGTERM);
+  sigprocmask(SIG_BLOCK,&sigs,NULL);
+#endif
+  printf("%s",buf);
+  fflush(stdout);
+}
+
 /* --------- printing history to a string --------- */
 
 
@@ -1388,8 +1410,7 @@ int wr_show_result(glb* g, gint history) {
     } else if (g->print_tptp) {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
     }       
-    printf("%s",buf);
-    fflush(stdout);
+    wr_print_result_buf(g,buf);
     if (buf) wr_free(g,buf);
     return bpos;
   }      
@@ -1541,8 +1562,7 @@ int wr_show_result(glb* g, gint history) {
     //  printf("\nproof printed\n");
     //}
   } else {
-    printf("%s",buf);
-    fflush(stdout);
+    wr_print_result_buf(g,buf);
     // signals
     /*
     printf("\ngetppid() %d getpid() %d \n",getppid(),getpid());
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 712291a..beb396d 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -135,6 +135,31 @@ void sig_usr(int signo, siginfo_t *sinfo, void *context){
 */
 #endif
 
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+
+/* 
+  Time limit of a parallel run: the parent ends the workers and waits for them
+  before it reports the time limit, since a worker may be printing a proof. 
+*/
+
+#define WORKER_END_SECONDS 2 // time to end a started printout, killed after that
+
+static volatile sig_atomic_t workers_timelimit = 0; // times the limit was reached
+static volatile sig_atomic_t workers_nr = 0; 
+static volatile int workers_pids[64]; // 0 for an ended worker
+
+static void wr_workers_timelimit_handler(int signum) {
+  int i;
+
+  workers_timelimit=workers_timelimit+1;
+  for(i=0;i<workers_nr;i++) {
+    if (workers_pids[i]) kill(workers_pids[i],(workers_timelimit==1 ? SIGTERM : SIGKILL));
+  }
+  alarm(WORKER_END_SECONDS);
+}
+
+#endif
+
 int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,  
                     char* outfilename, char* guidestr) {
   int res;
@@ -300,7 +325,11 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
   setbuf(stdout, 0);
   if (maxforks) signal(SIGCHLD,SIG_DFL); // exit statuses of the workers are needed
   int parentpid=getpid();
-  for(forknr=0; forknr<maxforks; forknr++) {
+  void (*timelimit_handler)(int)=SIG_DFL;
+  workers_timelimit=0;
+  workers_nr=0;
+  if (maxforks) timelimit_handler=signal(SIGALRM,wr_workers_timelimit_handler);
+  for(forknr=0; forknr<maxforks && !workers_timelimit; forknr++) {
     pid=fork();
 
     //printf("\nfork pid %d forknr %d\n",pid,forknr);
@@ -315,6 +344,7 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
       // child
       //printf("\nafter fork nr %d with pid 0 (child)\n",forknr);
       *inworker=1;
+      signal(SIGALRM,timelimit_handler);
 #ifdef __linux__      
       // make child to terminate if parent terminates
       tmp = prctl(PR_SET_PDEATHSIG, SIGTERM);
@@ -327,8 +357,11 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     } else {
       // parent
       forkpids[forkscreated]=pid;     
+      workers_pids[forkscreated]=pid;
       forkscreated++;
       forkslive++;
+      workers_nr=forkscreated;
+      if (workers_timelimit) kill(pid,SIGTERM); // just reached
       /*
       if(sigaction(PROOF_FOUND_SIGNAL, &sa, NULL) == -1) {
         printf("\nSignal %d checking error in parent\n",PROOF_FOUND_SIGNAL);
@@ -368,6 +401,7 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
       for(i=0;i<forkscreated;i++) {          
         if (forkpids[i]==cpid) { 
           forkpids[i]=0;
+          workers_pids[i]=0;
           break;
         }
       }
@@ -410,6 +444,14 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     //fflush(stdout);
 
   }
+  if (pid && maxforks) {
+    // no workers (left): the time limit works as before
+    signal(SIGALRM,timelimit_handler);
+    if (workers_timelimit) {
+      alarm(0);
+      raise(SIGALRM);
+    }
+  }
 #endif
   for(iter=0; 1; iter++) { 
     // check if this process needs to run this iter
@@ -866,6 +908,14 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     } else if (res==1) {
       if (wr_have_answers(g)) {
         wr_show_result(g,g->proof_history);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+        // less answers than asked for: the search continues, the time limit holds again
+        sigset_t limitsigs;
+        sigemptyset(&limitsigs);
+        sigaddset(&limitsigs,SIGALRM);
+        sigaddset(&limitsigs,SIGTERM);
+        sigprocmask(SIG_UNBLOCK,&limitsigs,NULL);
+#endif
       } else {
         if ((g->print_level_flag)>11) {  
           if (maxforks) {        
-- 
2.43.0


From ebbcc78d5c494d44acccae56efb6b234d7ea65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 08/46] fix: double-literal cutters were remembered by a
 pointer into the buffer of the current given clause

The buffer is overwritten by each later given clause: the cut then cited (or
used) an unrelated clause, which gave circular proofs and a crash of the proof
printer.
---
 Reasoner/rgenloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..d40b8ad 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -452,7 +452,7 @@ int wr_genloop(glb* g) {
       continue; 
     }    
     if (simplen!=origlen && simplen==2) {
-      wr_add_cl_to_doublehash(g,given_cl);
+      wr_add_cl_to_doublehash(g,given_cl_cand); // given_cl is overwritten by the next given
     }  
      
     // do factorizations with the given clause
-- 
2.43.0


From 171a5e16dc62ca9b2c81a57c69e4ed94ab6ce737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 09/46] fix: registering a second plain contradiction compared
 missing answer clauses and crashed

---
 Reasoner/history.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index b20fb5c..8c20267 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2501,7 +2501,10 @@ int wr_register_answer(glb* g, gptr cl, gint history) {
       printf("\n");
       */
       // old one subsumes new one, do not add
-      if (wr_same_answers(g,(gptr)(g->answers)[i],cl,1)) {
+      // (an answer clause is NULL for a plain contradiction)
+      if ((gptr)(g->answers)[i]==NULL || cl==NULL) {
+        if ((gptr)(g->answers)[i]==cl) return (((g->answers)[1])-2)/2;
+      } else if (wr_same_answers(g,(gptr)(g->answers)[i],cl,1)) {
         //printf("\nfound subsuming answer\n");
         return (((g->answers)[1])-2)/2;
       }
-- 
2.43.0


From 5877142c209a27c4ddbde4fbe8d0aed3442c8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 10/46] fix: json proofs lacked the comma after a merge or inst
 step

---
 Reasoner/history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 8c20267..8458422 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2179,7 +2179,7 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,(g->print_json ? "], " : "] "));
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2218,7 +2218,7 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,(g->print_json ? "], " : "] "));
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
-- 
2.43.0


From b4577ec52a24422b4c28a691dbb396a4a84762a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 11/46] fix: tptp proofs left the statement of an input clause
 unclosed

---
 Reasoner/history.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 8458422..1a54453 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1926,12 +1926,15 @@ int wr_strprint_one_history
           }  
         } else {
           bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
+          if (g->print_proof_tptp) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,")");
         }  
       } 
     } else if (g->print_proof_tptp) {
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"plain, ");
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,")");
     } else if (name && wg_get_encoded_type(db,name)==WG_INTTYPE) {
       if (!(g->print_proof_tptp)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%d",(int)(wg_decode_int(db,name)));
-- 
2.43.0


From 7829d24c630b4401d7d7795ce2ca2e5e827b9948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 12/46] fix: with several answers only the last tptp proof was
 closed

---
 Reasoner/history.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 1a54453..fca1f09 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1529,6 +1529,17 @@ int wr_show_result(glb* g, gint history) {
       }  
     } else {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
+#ifdef TPTP
+      if (g->print_tptp) {
+        if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) {
+          if (buf) wr_free(g,buf);
+          if (mpool) wg_free_mpool(db,mpool);
+          return -1;
+        }
+        bpos+=snprintf(buf+bpos,blen-bpos,
+          "\n%% SZS output end CNFRefutation for %s\n",g->filename);
+      }
+#endif
     }
 
     if (mpool) wg_free_mpool(db,mpool); 
@@ -1538,16 +1549,6 @@ int wr_show_result(glb* g, gint history) {
       bpos+=snprintf(buf+bpos,blen-bpos,"]}\n"); // end all answers
       //bpos+=snprintf(buf+bpos,blen-bpos,"}\n");
     }  
-  } else {
-#ifdef TPTP      
-    if (!(g->print_tptp)) {
-      //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
-    } else {
-      bpos+=snprintf(buf+bpos,blen-bpos,
-        "\n%% SZS output end CNFRefutation for %s\n",g->filename);
-    }    
-#endif        
-    //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
   }  
   if (g->outfilename) {
     outfile=fopen(g->outfilename, "w");
-- 
2.43.0


From 499bc4e8da29263e93c0ac896346071940d231f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 13/46] fix: an input file name of 80 characters or more was
 printed with whatever follows it in memory

---
 Reasoner/rmain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index beb396d..b94be59 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -660,7 +660,7 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1139,7 +1139,7 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
     strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
   if (outfilename) (g->outfilename)=outfilename;    
-- 
2.43.0


From 39c03c650841b9cfe4890b3d2251c5c53c8e90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 14/46] fix: a run whose clauses were all filtered out ended
 the whole search

---
 Reasoner/rmain.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index b94be59..3f25dbf 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -798,7 +798,10 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     } else if (!clause_count) {
       // no clauses found
       wr_printf("\nNo clauses found.\n");
+      tmp=(g->sine_strat_used);
+      if (local_db) (dbmemsegh(local_db)->local_g)=NULL;
       wr_glb_free(g);
+      if (tmp && (iter+1)<guideres) continue; // filtered out for this run only
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
       break;
     }
-- 
2.43.0


From 762291b7d1e4354b3d530c27cec48fc258fe1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:24 +0000
Subject: [PATCH 15/46] fix: terminate the quoted strings put in the print
 buffer

wg_print_quoted, wg_print_quoted2 and wg_print_dquoted left the buffer
unterminated, and -convert -json of a formula which is a single name
printed whatever was in the heap after it.
---
 Printer/dbotterprint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..3640e71 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1124,6 +1124,7 @@ int wg_print_quoted(char** buf, int len, int pos, char* s) {
   }  
   *((*buf)+pos+i)='\'';
   i++;
+  if (i+pos<len) *((*buf)+pos+i)=0;
   //printf("\n i %d\n",i);
   return i;
 }
@@ -1179,6 +1180,7 @@ int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
   if (dquote) *((*buf)+pos+i+j)='\"';
   else *((*buf)+pos+i+j)='\'';
 
+  if (i+j+1+pos<len) *((*buf)+pos+i+j+1)=0;
   //*((*buf)+pos+i+j)='\'';
   //printf("\n i %d\n",i);
   return i+j+1;
@@ -1213,6 +1215,7 @@ int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uni
   }  
   *((*buf)+pos+i)='"';
   i++;
+  if (i+pos<len) *((*buf)+pos+i)=0;
   //printf("\n i %d\n",i);
   if (negflag) return i+1+(uniqueflag ? 2 : 0);
   else return i+(uniqueflag ? 2 : 0);
-- 
2.43.0


From 61827dc912263c3bd7cab1e082b9e8a6bcbda002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 16/46] fix: the reasoner crashed or freed uninitialised
 pointers when an allocation failed

---
 Reasoner/analyze.c | 35 +++++++++++++++------
 Reasoner/clstore.c |  6 ++--
 Reasoner/glb.c     | 56 +++++++++++++++++-----------------
 Reasoner/guide.c   |  4 +++
 Reasoner/hash.c    |  4 +++
 Reasoner/mem.c     |  2 ++
 Reasoner/prop.c    |  2 ++
 Reasoner/rmain.c   | 76 ++++++++++++++++++++++++++++++++++++----------
 Reasoner/strat.c   |  1 -
 9 files changed, 129 insertions(+), 57 deletions(-)

diff --git a/Reasoner/analyze.c b/Reasoner/analyze.c
index 0fdccd3..ed8aeba 100644
--- a/Reasoner/analyze.c
+++ b/Reasoner/analyze.c
@@ -73,6 +73,7 @@ int wr_analyze_clause_list(glb* g, void* db, void* child_db) {
     //printf("\n(g->inkb) %d\n",(g->inkb));
     (g->tmp_uriinfo)=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
     (g->inkb)=tmp_inkb;
+    if (!(g->tmp_uriinfo)) return 0;
   }
   /*
   cvec occs;
@@ -345,7 +346,7 @@ int wr_analyze_clause(glb* g, gptr cl, int haveextdb) {
       occs=wr_cvec_new(g,INITIAL_SINE_OCCVECLEN);
       if (!occs) {
         printf("\nfailed to alloc occs cvec while analyzing clause\n");
-        (g->inkb)=1;
+        (g->inkb)=tmp;
         return 1;
       } else {
         //printf("\nbefore occs1 occs %ld occs[0] %ld occs[1] %ld rpto(g,cl) %ld\n",(gint)occs,occs[0],occs[1],rpto(g,cl));
@@ -459,6 +460,7 @@ int wr_analyze_term(glb* g, gint x,
           (g->inkb)=0;
           uriinfo=wr_cvec_push(g,uriinfo,x);
           (g->inkb)=tmp_inkb;
+          if (!uriinfo) return 0;
           //printf("\nafter uriinfo %ld uriinfo[0] %ld uriinfo[1] %ld x %ld\n",(gint)uriinfo,uriinfo[0],uriinfo[1],x);
           //printf("\nuriinfo2 %ld\n",(gint)uriinfo);
           //printf("\n(g->tmp_uriinfo) %ld\n",(gint)(g->tmp_uriinfo));
@@ -506,7 +508,7 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
   gcell *cellptr;
   gptr rec;
   int n, k, i, j, s, tmpinkb, sine_k, uri_k, inuri_k; //, haveextdb=0;
-  cvec uriinfo, cl_uriinfo, occs;
+  cvec uriinfo, cl_uriinfo, occs, occuris;
   gint uri, uri_id, inuri,scount; //  inuri_id
   gptr cl;
   int sine_maxk;
@@ -531,7 +533,7 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
   //else haveextdb=0;
   
   //printf("\nwr_analyze_sine starts  (g->sine_strat) %d (g->sine_k_bytes) %ld \n",(g->sine_strat),(g->sine_k_bytes));
-  if (!(g->sine_k_values) || !(g->sine_k_bytes)) {
+  if (!(g->sine_k_values) || !(g->sine_k_bytes) || !(g->sine_uri_k_values)) {
     return 0;
   }  
 
@@ -542,6 +544,12 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
   (g->inkb)=0; // use malloc temporarily
   uriinfo=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
   cl_uriinfo=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
+  if (!uriinfo || !cl_uriinfo) {
+    wr_vec_free(g,uriinfo);
+    wr_vec_free(g,cl_uriinfo);
+    (g->inkb)=tmpinkb;
+    return 0;
+  }
 
   // params
   sine_maxk=120; // should fit into char
@@ -873,7 +881,8 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
               // set inuri (uri in occurring clause) to the same k+1 as clause
               wr_set_uri_sine_k(g,inuri,k+1);
               // push uri to uri list to handle later              
-              uriinfo=wr_cvec_push(g,uriinfo,inuri);             
+              occuris=wr_cvec_push(g,uriinfo,inuri);             
+              if (occuris) uriinfo=occuris;
               //printf("\n* inuri_k set to %d\n",wr_get_uri_sine_k(g,inuri));
             }
           }            
@@ -1042,7 +1051,7 @@ void wr_get_term_symbols(glb* g, gint x, cvec* uriinfo) {
       }
     }        
     uinfo=wr_cvec_push(g,uinfo,x);
-    if (uinfo!=*uriinfo) *uriinfo=uinfo;                 
+    if (uinfo!=NULL) *uriinfo=uinfo;                 
     return;    
   }   
   // now we have a datarec
@@ -1229,6 +1238,7 @@ char* make_auto_guide(glb* g, glb* kb_g, int guideparam) {
   //(dbmemsegh(db)->printlevel)=12;
 
   buf=(char*)wr_malloc(g,50000);
+  if (!buf) return NULL;
   //buf=(char*)wr_malloc(g,5000000);
 
   gint min_strat_timeloop_nr=0, max_strat_timeloop_nr=1000;
@@ -1605,7 +1615,8 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
 
     // first batch, 3 sec total
     dsecs=1;
-    buf=(char*)wr_malloc(g,10000);  
+    buf=(char*)wr_malloc(g,10000);
+    if (!buf) return NULL;  
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1621,7 +1632,8 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     
     // second batch, 5 sec total, ends at 8 sec
     dsecs=1;
-    buf=(char*)wr_malloc(g,10000);  
+    buf=(char*)wr_malloc(g,10000);
+    if (!buf) return NULL;  
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1641,7 +1653,8 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
 
     // third batch, 15 sec total, ends at 23 sec
     dsecs=5;
-    buf=(char*)wr_malloc(g,10000);  
+    buf=(char*)wr_malloc(g,10000);
+    if (!buf) return NULL;  
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1657,7 +1670,8 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
 
     // fourth batch, 20 sec total, ends at 43 sec
     dsecs=5;
-    buf=(char*)wr_malloc(g,10000);  
+    buf=(char*)wr_malloc(g,10000);
+    if (!buf) return NULL;  
     pref="{\n"
         "\"print_level\":  5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1675,7 +1689,8 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
 
     // fifth batch 
     dsecs=15;
-    buf=(char*)wr_malloc(g,10000);  
+    buf=(char*)wr_malloc(g,10000);
+    if (!buf) return NULL;  
     pref="{\n"
         "\"print_level\":  5,\n"; 
     pos=sprintf(buf,"%s",pref);
diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index b774727..8706de1 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -890,6 +890,7 @@ gint wr_create_clpick_queues(glb* g, int count) {
 
   queues=wr_vec_new_zero(g,NROF_CLPICK_QUEUES*CLPICK_QUEUE_BLOCKGINTS); // use as vec
   clpick_queues=rpto(g,queues); // return offset
+  if (queues==NULL) return clpick_queues; // alloc_err is set
   limit=queues[0]; 
   // do big block-size steps over array
   for(i=1; i<limit && i<(NROF_CLPICK_QUEUES*CLPICK_QUEUE_BLOCKGINTS); i=i+CLPICK_QUEUE_BLOCKGINTS) {
@@ -955,10 +956,10 @@ gint wr_create_clpick_queues(glb* g, int count) {
     // assumption experiment code ends   
     queues[i+CLPICK_THIS_QUEUE_RATIO_COUNTER]=0;   
     tmpvec=wr_cvec_new(g,NROF_DYNALLOCINITIAL_ELS);
-    if (!tmpvec) return 0;
+    if (!tmpvec) return clpick_queues; // alloc_err is set
     queues[i+CLPICK_QUEUE_POS]=rpto(g,tmpvec);
     tmpvec=wr_make_priorqueue(g,MAX_CLPRIOR);
-    if (!tmpvec) return 0;
+    if (!tmpvec) return clpick_queues; // alloc_err is set
     queues[i+CLPICK_PRIORQUEUE_POS]=rpto(g,tmpvec);
   } 
   return clpick_queues;
@@ -1781,6 +1782,7 @@ void wr_free_priorqueue(glb* g, gint* queue) {
   int elstart; // start of a bucket el in the queue  
   
   //printf("\nwr_free_priorqueue called\n");
+  if (queue==NULL) return;
   max_used_prior=queue[PRIORQUEUE_MAX_USED_PRIOR_POS];
   for(prior=0;prior<=max_used_prior;prior++) {
     //printf("\nprior %d\n",prior);
diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 9fd9b99..cbf4adf 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -836,13 +836,13 @@ int wr_glb_init_local_complex(glb* g) {
   (g->varbanks)=wr_vec_new(g,NROF_VARBANKS*NROF_VARSINBANK);
   //(g->varbankrepl)=wr_vec_new(g,3*NROF_VARSINBANK);
   (g->varstack)=wr_cvec_new(g,NROF_VARBANKS*NROF_VARSINBANK); 
-  (g->varstack)[1]=2; // first free elem
+  if (g->varstack) (g->varstack)[1]=2; // first free elem
 
   (g->xcountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->xcountedvarlist)[1]=2; // first free elem
+  if (g->xcountedvarlist) (g->xcountedvarlist)[1]=2; // first free elem
  
   (g->ycountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->ycountedvarlist)[1]=2; // first free elem
+  if (g->ycountedvarlist) (g->ycountedvarlist)[1]=2; // first free elem
 
   //(g->tmp1_cl_vec)=wr_vec_new(g,100);    
   //(g->tmp2_cl_vec)=wr_vec_new(g,100); 
@@ -850,39 +850,39 @@ int wr_glb_init_local_complex(glb* g) {
   //(g->tmp_litinf_vec)=wr_vec_new(g,100); 
         
   (g->given_termbuf)=wr_cvec_new(g,NROF_GIVEN_TERMBUF_ELS);
-  (g->given_termbuf)[1]=2;
+  if (g->given_termbuf) (g->given_termbuf)[1]=2;
   //(g->given_termbuf_freeindex)=2;
 
   (g->simplified_termbuf)=wr_cvec_new(g,NROF_SIMPLIFIED_TERMBUF_ELS);
-  (g->simplified_termbuf)[1]=2;
+  if (g->simplified_termbuf) (g->simplified_termbuf)[1]=2;
   
   (g->derived_termbuf)=wr_cvec_new(g,NROF_DERIVED_TERMBUF_ELS);
-  (g->derived_termbuf)[1]=2;
+  if (g->derived_termbuf) (g->derived_termbuf)[1]=2;
  
   (g->queue_termbuf)=wr_cvec_new(g,NROF_QUEUE_TERMBUF_ELS);
-  (g->queue_termbuf)[1]=2;
+  if (g->queue_termbuf) (g->queue_termbuf)[1]=2;
 
   (g->hyper_termbuf)=wr_cvec_new(g,NROF_HYPER_TERMBUF_ELS);
-  (g->hyper_termbuf)[1]=2; 
+  if (g->hyper_termbuf) (g->hyper_termbuf)[1]=2; 
   
   (g->active_termbuf)=wr_cvec_new(g,NROF_ACTIVE_TERMBUF_ELS);
-  (g->active_termbuf)[1]=2;
+  if (g->active_termbuf) (g->active_termbuf)[1]=2;
 
 #ifndef MALLOC_HASHNODES
   (g->hash_nodes)=wr_cvec_new(g,NROF_CLTERM_HASHNODESVEC_ELS);
-  (g->hash_nodes)[1]=2;
+  if (g->hash_nodes) (g->hash_nodes)[1]=2;
 #endif
 
   (g->cut_clvec)=wr_vec_new(g,NROF_CUT_CLVEC_ELS);
   (g->rewrite_clvec)=wr_cvec_new(g,NROF_REWRITE_CLVEC_ELS);
-  (g->rewrite_clvec)[1]=2; // first free elem
+  if (g->rewrite_clvec) (g->rewrite_clvec)[1]=2; // first free elem
 
   (g->hyper_queue)=wr_cvec_new(g,NROF_HYPER_QUEUE_ELS);
-  (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
-  (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
 
   (g->answers)=wr_cvec_new(g,INITIAL_ANSWERS_LEN);
-  (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
+  if (g->answers) (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
 
   (g->sine_k_values)=sys_malloc(SINE_K_VALUES_SIZE); // bytestring allocated by malloc
   if (!(g->sine_k_values)) {
@@ -977,13 +977,13 @@ int wr_glb_init_seq_local_complex(glb* g) {
   (g->varbanks)=wr_vec_new(g,NROF_VARBANKS*NROF_VARSINBANK);
   //(g->varbankrepl)=wr_vec_new(g,3*NROF_VARSINBANK);
   (g->varstack)=wr_cvec_new(g,NROF_VARBANKS*NROF_VARSINBANK); 
-  (g->varstack)[1]=2; // first free elem
+  if (g->varstack) (g->varstack)[1]=2; // first free elem
 
   (g->xcountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->xcountedvarlist)[1]=2; // first free elem
+  if (g->xcountedvarlist) (g->xcountedvarlist)[1]=2; // first free elem
  
   (g->ycountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->ycountedvarlist)[1]=2; // first free elem
+  if (g->ycountedvarlist) (g->ycountedvarlist)[1]=2; // first free elem
 
   //(g->tmp1_cl_vec)=wr_vec_new(g,100);    
   //(g->tmp2_cl_vec)=wr_vec_new(g,100); 
@@ -991,39 +991,39 @@ int wr_glb_init_seq_local_complex(glb* g) {
   //(g->tmp_litinf_vec)=wr_vec_new(g,100); 
         
   (g->given_termbuf)=wr_cvec_new(g,NROF_GIVEN_TERMBUF_ELS);
-  (g->given_termbuf)[1]=2;
+  if (g->given_termbuf) (g->given_termbuf)[1]=2;
   //(g->given_termbuf_freeindex)=2;
 
   (g->simplified_termbuf)=wr_cvec_new(g,NROF_SIMPLIFIED_TERMBUF_ELS);
-  (g->simplified_termbuf)[1]=2;
+  if (g->simplified_termbuf) (g->simplified_termbuf)[1]=2;
   
   (g->derived_termbuf)=wr_cvec_new(g,NROF_DERIVED_TERMBUF_ELS);
-  (g->derived_termbuf)[1]=2;
+  if (g->derived_termbuf) (g->derived_termbuf)[1]=2;
  
   (g->queue_termbuf)=wr_cvec_new(g,NROF_QUEUE_TERMBUF_ELS);
-  (g->queue_termbuf)[1]=2;
+  if (g->queue_termbuf) (g->queue_termbuf)[1]=2;
 
   (g->hyper_termbuf)=wr_cvec_new(g,NROF_HYPER_TERMBUF_ELS);
-  (g->hyper_termbuf)[1]=2; 
+  if (g->hyper_termbuf) (g->hyper_termbuf)[1]=2; 
   
   (g->active_termbuf)=wr_cvec_new(g,NROF_ACTIVE_TERMBUF_ELS);
-  (g->active_termbuf)[1]=2;
+  if (g->active_termbuf) (g->active_termbuf)[1]=2;
 
 #ifndef MALLOC_HASHNODES
   (g->hash_nodes)=wr_cvec_new(g,NROF_CLTERM_HASHNODESVEC_ELS);
-  (g->hash_nodes)[1]=2;
+  if (g->hash_nodes) (g->hash_nodes)[1]=2;
 #endif
 
   (g->cut_clvec)=wr_vec_new(g,NROF_CUT_CLVEC_ELS);
   (g->rewrite_clvec)=wr_cvec_new(g,NROF_REWRITE_CLVEC_ELS);
-  (g->rewrite_clvec)[1]=2; // first free elem
+  if (g->rewrite_clvec) (g->rewrite_clvec)[1]=2; // first free elem
 
   (g->hyper_queue)=wr_cvec_new(g,NROF_HYPER_QUEUE_ELS);
-  (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
-  (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
 
   (g->answers)=wr_cvec_new(g,INITIAL_ANSWERS_LEN);
-  (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
+  if (g->answers) (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
 
   (g->sine_k_values)=sys_malloc(SINE_K_VALUES_SIZE); // bytestring allocated by malloc
   if (!(g->sine_k_values)) {
diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index 9ec4c5a..60effa1 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -132,6 +132,10 @@ cJSON* wr_parse_guide_str(char* buf) {
   char *errorptr=NULL;
   int i;
 
+  if (buf==NULL) {
+    wr_errprint("Cannot allocate memory for a strategy");
+    return NULL;
+  }
   guide=cJSON_Parse(buf);
   if (guide==NULL) {
     errorptr=(char*)cJSON_GetErrorPtr();
diff --git a/Reasoner/hash.c b/Reasoner/hash.c
index 81d4754..30d23e2 100644
--- a/Reasoner/hash.c
+++ b/Reasoner/hash.c
@@ -714,6 +714,7 @@ void wr_clterm_hashlist_free(glb* g, vec hashvec) {
   gint tmp;
   int i; 
 
+  if (hashvec==NULL) return;
 #ifdef MALLOC_HASHNODES
   // need to free nodes only if created by malloc
   vlen=VEC_LEN(hashvec);     
@@ -1051,6 +1052,8 @@ void wr_free_termhash(glb* g, gint* hasharr) {
 
 void wr_free_offset_termhash(glb* g, gint* hasharr) {
   int i;
+
+  if (hasharr==NULL) return;
   for(i=1;i<hasharr[0];i++) {
     if (hasharr[i]) wr_free(g,rotp(g,(hasharr[i])));
   }
@@ -1299,6 +1302,7 @@ void wr_free_atomhash(glb* g, gint* hasharr) {
   //void* db=g->db;
   int i,j; 
   
+  if (hasharr==NULL) return;
 #ifdef MALLOC_HASHNODES
   cvec bucket;
 
diff --git a/Reasoner/mem.c b/Reasoner/mem.c
index 1cb3216..53a8c53 100644
--- a/Reasoner/mem.c
+++ b/Reasoner/mem.c
@@ -386,6 +386,7 @@ vec wr_vec_realloc(glb* g,vec v, int i) {
 vec wr_vec_store(glb* g,vec v, int i, gint e) {
   vec nvec;
   
+  if (v==NULL) return NULL; // an earlier allocation failed
   if (i<=(int)v[0]) {
     v[i]=(gint)e;
     return v;
@@ -433,6 +434,7 @@ cvec wr_cvec_store(glb* g,cvec v, int i, gint e) {
 cvec wr_cvec_push(glb* g,cvec v, gint e) {
   cvec nvec;
   
+  if (v==NULL) return NULL; // an earlier allocation failed
   nvec=wr_cvec_store(g,v,v[1],e);
   return nvec;  
 } 
diff --git a/Reasoner/prop.c b/Reasoner/prop.c
index df4e389..d13398e 100644
--- a/Reasoner/prop.c
+++ b/Reasoner/prop.c
@@ -475,6 +475,8 @@ void wr_free_prop_termhash(glb* g, gint* hasharr) {
 
 void wr_free_offset_prop_termhash(glb* g, gint* hasharr) {
   int i;
+
+  if (hasharr==NULL) return;
   for(i=1;i<hasharr[0];i++) {
     if (hasharr[i]) wr_free(g,rotp(g,(hasharr[i])));
   }
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 3f25dbf..084249c 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -242,6 +242,10 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
 
     rglb=db_rglb(db); // this is the internal g of db
     kb_g=sys_malloc(sizeof(glb)); // this is a new malloced g
+    if (kb_g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      return -1;
+    }
     // copy rglb stuff to g
     memcpy(kb_g,rglb,sizeof(glb));
     // now kb_g should contain the same things as rglb
@@ -266,6 +270,13 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     kb_g=NULL;
   }
   analyze_g=wr_glb_new_simple(db);
+  if (analyze_g==NULL) {
+    wr_errprint("cannot allocate enough memory during reasoner initialization");
+    if (guidebuf!=NULL) sys_free(guidebuf);
+    if (guide!=NULL) cJSON_Delete(guide);
+    if (kb_g) sys_free(kb_g);
+    return -1;
+  }
   if (kb_g!=NULL) {
     (analyze_g->kb_g)=kb_g; // points to the copy of globals of the external kb
   }
@@ -274,6 +285,14 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
   (analyze_g->db)=db; 
   (analyze_g->varbanks)=wr_vec_new(analyze_g,NROF_VARBANKS*NROF_VARSINBANK);
   (analyze_g->varstack)=wr_cvec_new(analyze_g,NROF_VARBANKS*NROF_VARSINBANK); 
+  if (!(analyze_g->varbanks) || !(analyze_g->varstack)) {
+    wr_errprint("cannot allocate enough memory during reasoner initialization");
+    if (guidebuf!=NULL) sys_free(guidebuf);
+    if (guide!=NULL) cJSON_Delete(guide);
+    if (kb_g) sys_free(kb_g);
+    analyze_g=wr_free_analyze_g(analyze_g);
+    return -1;
+  }
   (analyze_g->varstack)[1]=2; // first free elem  
   (analyze_g->in_has_fof)=informat;
   if (outfilename) (analyze_g->outfilename)=outfilename;
@@ -504,6 +523,13 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     }
 
     g=wr_glb_new_simple(db);
+    if (g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      if (guidebuf!=NULL) free(guidebuf);
+      if (guide!=NULL) cJSON_Delete(guide);
+      if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
+      return -1;
+    }
     (dbmemsegh(local_db)->local_g)=(glb*)g; // for cleaning in signal
     // init local_db
     (g->local_db)=local_db;
@@ -547,14 +573,6 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     if (kb_g!=NULL) {      
       (g->kb_g)=kb_g; // points to the copy of globals of the external kb
     }  
-    if (g==NULL) {
-      wr_errprint("cannot allocate enough memory during reasoner initialization");
-      if (guidebuf!=NULL) free(guidebuf);
-      if (guide!=NULL) cJSON_Delete(guide);
-      sys_free(g); 
-      if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
-      return -1;
-    }   
 #ifdef DEBUG
     wr_printf("\nnow db is %ld and child_db is %ld \n",(gint)db,(gint)child_db);
 #endif    
@@ -823,7 +841,12 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
         //char *out;
         char* guidetext1;
         guidetext1=malloc(10000);
-        while (!(g->proof_found) || !(wr_enough_answers(g))) {
+        if (guidetext1==NULL) {
+          wr_errprint("cannot allocate memory for the strategy text");
+          (g->alloc_err)=1;
+          res=-1;
+        }
+        while (guidetext1!=NULL && (!(g->proof_found) || !(wr_enough_answers(g)))) {
           //out=cJSON_PrintUnformatted(guide);         
 
           seqguideres=wr_parse_guide_section(g,guide,iter,&guidetext1,seqnr); 
@@ -907,10 +930,15 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
     //printf("\n res is %d\n",res);
     if (res==0) {
       //wr_printf("\n\nProof found.\n"); 
-      wr_show_result(g,g->proof_history);
+      if (wr_show_result(g,g->proof_history)<0) {
+        printf("{\"error\": \"cannot allocate memory to print the proof\"}\n");
+        res=0-1;
+      }
     } else if (res==1) {
       if (wr_have_answers(g)) {
-        wr_show_result(g,g->proof_history);
+        if (wr_show_result(g,g->proof_history)<0) {
+          printf("{\"error\": \"cannot allocate memory to print the proof\"}\n");
+        }
 #if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
         // less answers than asked for: the search continues, the time limit holds again
         sigset_t limitsigs;
@@ -954,6 +982,16 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
       wr_printf("\n\nfork %d: search cancelled, error code %d.\n",g->current_fork_nr,res);
 #endif      
     }      
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+    if (res<0) {
+      // the search may go on with the next run: the time limit holds again
+      sigset_t limitsigs;
+      sigemptyset(&limitsigs);
+      sigaddset(&limitsigs,SIGALRM);
+      sigaddset(&limitsigs,SIGTERM);
+      sigprocmask(SIG_UNBLOCK,&limitsigs,NULL);
+    }
+#endif
     //if (g->print_flag) wr_show_stats(g,1);
     if (res==0) {
       // proof found 
@@ -1057,6 +1095,10 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     db=kb_db;    
     rglb=db_rglb(db); // this is the internal g of db
     kb_g=sys_malloc(sizeof(glb)); // this is a new malloced g
+    if (kb_g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      return -1;
+    }
     // copy rglb stuff to g
     memcpy(kb_g,rglb,sizeof(glb));
     // now kb_g should contain the same things as rglb
@@ -1102,16 +1144,16 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
   // copy analyze_g stats to g for easier handling
   //wr_copy_sin_stats(analyze_g,g);     
  
-  if (kb_g!=NULL) {
-    (g->kb_g)=kb_g; // points to the copy of globals of the external kb
-  }  
   if (g==NULL) {
     wr_errprint("cannot allocate enough memory during reasoner initialization");
     if (guidebuf!=NULL) free(guidebuf);
     if (guide!=NULL) cJSON_Delete(guide);
-    sys_free(g); 
+    if (kb_g) sys_free(kb_g);
     return -1;
-  }   
+  }
+  if (kb_g!=NULL) {
+    (g->kb_g)=kb_g; // points to the copy of globals of the external kb
+  }  
 #ifdef DEBUG
   wr_printf("\nnow db is %ld and child_db is %ld \n",(gint)db,(gint)child_db);
 #endif    
@@ -1395,6 +1437,7 @@ int wr_init_active_passive_lists_from_one(glb* g, void* db, void* child_db) {
       cell2=cellptr2->cdr;         
       n++;
     }       
+    if (!(g->tmp_sort_vec)) return -1;
     // sort    
     if (!(g->reverse_clauselist_strat)) {
       wr_qsort_metaclvec(g,(g->tmp_sort_vec),0,n-1);
@@ -1746,6 +1789,7 @@ int wr_print_all_clauses(glb* g, void* child_db) {
     n++;
   } 
   if (!n) return 0;  
+  if (!(g->tmp_sort_vec)) return -1;
    // create buf for printing
   //namebuf[0]=0;
   blen=1000;
diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index ce036a3..4db8f9b 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -1693,7 +1693,6 @@ int wr_calc_clause_size_countedvarlist(glb* g, gptr cl, gptr vb) {
       vvec=wr_cvec_new(g,gvvec[1]-2);
       if (vvec==NULL) {
         (g->alloc_err)=1;
-        wr_tmp_clinfo_free(g,(g->tmp_clinfo));
         wr_alloc_err2int(g,"Cannot allocate memory for a cvec with length",gvvec[1]-2);    
         return 0; // mark error
       }
-- 
2.43.0


From cbf37d58fe50cb5748bab8245394fdae6dd978c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 17/46] fix: a proof was printed with steps missing when memory
 ran out, long file names overran the result buffer

---
 Reasoner/history.c | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index fca1f09..4f27640 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -867,9 +867,11 @@ int wr_flatten_history_addcl(glb* g, void* mpool, gint cl, int* clnr, void **ass
     snprintf(namebuf,19,"%d",(*clnr)++);
     //n=wg_mklist2(db,mpool,wg_mkatom(db,mpool,WG_STRTYPE,namebuf,NULL),(*clnr)-1);
     n=wg_mklist2(db,mpool,wg_mkatom(db,mpool,WG_STRTYPE,namebuf,NULL),(void *)(gint)((*clnr)-1));
-    if (!n) return 0;
-    newassoc=wg_add_assoc(db,mpool,(void *)cl,n,*assoc);
-    if (!newassoc) return 0;
+    newassoc=n ? wg_add_assoc(db,mpool,(void *)cl,n,*assoc) : NULL;
+    if (!newassoc) {
+      (g->alloc_err)=1;
+      return 0;
+    }
     *assoc=newassoc;
   } 
   return 1;
@@ -1289,7 +1291,7 @@ int wr_show_result(glb* g, gint history) {
   char namebuf[20];
   gptr ans;
   char* buf;
-  int ansnr, blen, bpos;
+  int ansnr, blen, bpos, tmperr;
   FILE* outfile; 
   int sleepi;
   gint sleept, coeff, limit_low, limit_high, usecs;
@@ -1330,7 +1332,9 @@ int wr_show_result(glb* g, gint history) {
   if (buf==NULL) {   
     return -1;
   }   
-  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+  if (!wr_str_guarantee_space(g,&buf,&blen,
+        bpos+500+((g->filename) ? 2*strlen(g->filename) : 0)
+                +((g->guidetext) ? strlen(g->guidetext) : 0))) {
     if (buf) wr_free(g,buf);
     return -1;
   }  
@@ -1473,11 +1477,24 @@ int wr_show_result(glb* g, gint history) {
         return bpos;
       }  
     } else {
+      tmperr=(g->alloc_err);
+      (g->alloc_err)=0;
       wr_flatten_history(g,mpool,history,NULL,0,&clnr,&assoc);
+      if (g->alloc_err) {
+        // a part of the proof is missing
+        wg_free_mpool(db,mpool);
+        wr_free(g,buf);
+        return -1;
+      }
+      (g->alloc_err)=tmperr;
     }  
     assoc=wg_reverselist(db,mpool,assoc); 
     if (!(g->print_json)) {
-      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) {
+        wg_free_mpool(db,mpool);
+        wr_free(g,buf);
+        return -1;
+      }
 #ifdef TPTP  
       if (!(g->print_tptp)) {
         bpos+=snprintf(buf+bpos,blen-bpos,"proof:");
@@ -1599,8 +1616,16 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
     inputs=wr_collect_inputs(g,assoc,&inputcount);  
     skinputs=wr_malloc(g,INPUTS_INITIAL_SIZE*sizeof(char*));
     skinputcount=0;
-    bpos=wr_strprint_inputs(g,inputcount,inputs,&skinputcount,skinputs,buf,blen,bpos);   
+    if (inputs && skinputs) {
+      bpos=wr_strprint_inputs(g,inputcount,inputs,&skinputcount,skinputs,buf,blen,bpos);   
+    } else {
+      bpos=-1;
+    }
     if (inputs) wr_free(g,inputs);
+    if (bpos<0) {
+      if (skinputs) wr_free(g,skinputs);
+      return bpos;
+    }
   }
   /*
   int i;
@@ -1621,6 +1646,7 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
       snprintf(namebuf,19,"%d",num);
       bpos=wr_strprint_one_history(g,mpool,buf,blen,bpos,history,rotp(g,cl),namebuf,maxclnr,assoc,
                                    skinputcount,skinputs);
+      if (bpos<0) return bpos;
       if (g->print_json) { //&& wg_ispair(db,wg_rest(db,part))) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",");
       }
-- 
2.43.0


From d9a5f8e2f6921fd0c416021ae3d1b204d5a02538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 18/46] fix: the json parser and the command line crashed when
 an allocation failed

---
 Main/gkc.c      | 11 ++++++++---
 json/yajl_all.c | 20 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..fe7e4e8 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1172,12 +1172,17 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
   // init nargv: an array of non-command args, i.e. filenames
   nargc=0;
   nargv=(char**)malloc(sizeof(char*)*argc);
+  lstrings=(char**)malloc(sizeof(char*)*maxlstrings);
+  ljstrings=(char**)malloc(sizeof(char*)*maxljstrings);
+  lfiles=(char**)malloc(sizeof(char*)*maxlfiles);
+  if (!nargv || !lstrings || !ljstrings || !lfiles) {
+    err_printf(*json,"cannot allocate memory for the command line");
+    *retcode=1;
+    return NULL;
+  }
   for(i=0;i<argc;i++) {
     nargv[i]=NULL;
   }
-  lstrings=(char**)malloc(sizeof(char*)*maxlstrings);
-  ljstrings=(char**)malloc(sizeof(char*)*maxlstrings);
-  lfiles=(char**)malloc(sizeof(char*)*maxlfiles);
 
   // loop over all command line elements
   for(i=0; i<argc; i++) {
diff --git a/json/yajl_all.c b/json/yajl_all.c
index 65f2385..4a87154 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -101,17 +101,33 @@ struct yajl_lexer_t {
 };
 
 
+/* the parser does not check its allocations: there is no way to go on */
+static void yajl_out_of_memory(void)
+{
+    printf("{\"error\": \"cannot allocate memory for json parsing\"}\n");
+    fflush(stdout);
+    exit(1);
+}
+
 static void * yajl_internal_malloc(void *ctx, size_t sz)
 {
+    void *res;
+
     (void)ctx;
-    return malloc(sz);
+    res = malloc(sz);
+    if (res == NULL && sz) yajl_out_of_memory();
+    return res;
 }
 
 static void * yajl_internal_realloc(void *ctx, void * previous,
                                     size_t sz)
 {
+    void *res;
+
     (void)ctx;
-    return realloc(previous, sz);
+    res = realloc(previous, sz);
+    if (res == NULL && sz) yajl_out_of_memory();
+    return res;
 }
 
 static void yajl_internal_free(void *ctx, void * ptr)
-- 
2.43.0


From 45ea0bc480d011162c76bc012eeec48ea5356bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 19/46] fix: converting overran the print buffer with long
 names and freed a wrong pointer when it could not grow

---
 Builtparser/dbparse.c  | 21 ++++++++++++++++-----
 Builtparser/jsparse.c  |  9 +++++++++
 Parser/dbparse.c       | 21 ++++++++++++++++-----
 Parser/jsparse.c       |  9 +++++++++
 Printer/dbotterprint.c | 13 +++++--------
 5 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 10fcc83..4e01db5 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -165,9 +165,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
@@ -225,7 +227,10 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
 #ifdef DEBUG  
   printf("otter input:%s\n",(char*)pp.buf);  
 #endif  
-  wg_yyotterlex_init(&pp.yyscanner);
+  if (wg_yyotterlex_init(&pp.yyscanner)) {
+    wr_show_parse_error(g,"cannot allocate memory for the parser");
+    return 1;
+  }
   wg_yyotterset_extra(&pp, pp.yyscanner);
   pres=wg_yyotterparse(&pp, pp.yyscanner);   
   wg_yyotterlex_destroy(pp.yyscanner);     
@@ -465,17 +470,20 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+100)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -536,17 +544,20 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+100)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..b290ba8 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -210,9 +210,11 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
@@ -841,6 +843,10 @@ void* wr_preprocess_json_clauselist
   if (dbmemsegh(db)->convert) {
     if (!(g->tmp_printbuf)) {
       (g->tmp_printbuf)=malloc(1000); // this is dynamically increased later
+      if (!(g->tmp_printbuf)) {
+        wr_show_jsparse_error(g,pp,"cannot allocate memory for printing");
+        return NULL;
+      }
     }  
   }  
   if (!clauselist) {
@@ -1300,6 +1306,8 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
+    if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+          strlen(namestr)+strlen(rolestr)+100)) return NULL;
     if (namestr && wg_should_quote(namestr)) {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
     } else {
@@ -1316,6 +1324,7 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     printf("\n"); 
     */
     bpos=wg_print_frm_tptp(db,wg_nth(db,preres,3),&(g->tmp_printbuf),&blen,bpos); 
+    if (bpos<0) return NULL;
     if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+100)) {
       if (g->tmp_printbuf) wr_free(g,(g->tmp_printbuf));
       return NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 10fcc83..4e01db5 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -165,9 +165,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
@@ -225,7 +227,10 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
 #ifdef DEBUG  
   printf("otter input:%s\n",(char*)pp.buf);  
 #endif  
-  wg_yyotterlex_init(&pp.yyscanner);
+  if (wg_yyotterlex_init(&pp.yyscanner)) {
+    wr_show_parse_error(g,"cannot allocate memory for the parser");
+    return 1;
+  }
   wg_yyotterset_extra(&pp, pp.yyscanner);
   pres=wg_yyotterparse(&pp, pp.yyscanner);   
   wg_yyotterlex_destroy(pp.yyscanner);     
@@ -465,17 +470,20 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+100)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -536,17 +544,20 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+100)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..b290ba8 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -210,9 +210,11 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
@@ -841,6 +843,10 @@ void* wr_preprocess_json_clauselist
   if (dbmemsegh(db)->convert) {
     if (!(g->tmp_printbuf)) {
       (g->tmp_printbuf)=malloc(1000); // this is dynamically increased later
+      if (!(g->tmp_printbuf)) {
+        wr_show_jsparse_error(g,pp,"cannot allocate memory for printing");
+        return NULL;
+      }
     }  
   }  
   if (!clauselist) {
@@ -1300,6 +1306,8 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
+    if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+          strlen(namestr)+strlen(rolestr)+100)) return NULL;
     if (namestr && wg_should_quote(namestr)) {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
     } else {
@@ -1316,6 +1324,7 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     printf("\n"); 
     */
     bpos=wg_print_frm_tptp(db,wg_nth(db,preres,3),&(g->tmp_printbuf),&blen,bpos); 
+    if (bpos<0) return NULL;
     if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+100)) {
       if (g->tmp_printbuf) wr_free(g,(g->tmp_printbuf));
       return NULL;
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 3640e71..1f704e9 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1480,7 +1480,6 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   //printf("\nwg_print_subfrm_tptp called\n"); 
   if (!wg_str_guarantee_space(db,buf,len,pos+1000)) {
     wg_printerr_tptp(db,"wg_print_subfrm_tptp cannot guarantee buffer space"); 
-    if (buf) sys_free(buf);
     return -1;
   }
   
@@ -1499,7 +1498,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
     //p2=wg_atomstr2(db,ptr); 
-    if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -1761,7 +1760,6 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   //printf("\nwg_print_subcnf_tptp called\n"); 
   if (!wg_str_guarantee_space(db,buf,len,pos+1000)) {
     wg_printerr_tptp(db,"wg_print_subcnf_tptp cannot guarantee buffer space"); 
-    if (buf) sys_free(buf);
     return -1;
   }
    
@@ -1804,7 +1802,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
       }
       default: {          
         if (p!=NULL) {
-          if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1;
+          if (!wg_str_guarantee_space(db,buf,len,pos+1000+2*strlen(p))) return -1;
           if (!strcmp(p,EMPTYSTRING)) {
             pos+=snprintf((*buf)+pos,(*len)-pos,"''");
             return pos;
@@ -2013,7 +2011,7 @@ int wg_print_term_tptp(void* db, void* ptr,int depth,int pflag,char** buf, int *
     */
 
     if (p!=NULL) {      
-      if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+      if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
       if (!strcmp(p,EMPTYSTRING)) {
         printf("''");
       } else if (wg_should_quote(p)) {
@@ -2026,7 +2024,7 @@ int wg_print_term_tptp(void* db, void* ptr,int depth,int pflag,char** buf, int *
     }
     p=wg_atomstr2(db,ptr);
     if (p!=NULL) {
-      if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1;
+      if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1;
       if (wg_should_quote(p)) {
         printf("^^\"%s\"",p);
       } else {
@@ -2102,7 +2100,6 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
 */  
   if (!wg_str_guarantee_space(db,buf,len,pos+1000)) {
     wg_printerr_json(db,"wg_print_subfrm_json cannot guarantee buffer space"); 
-    if (buf) sys_free(buf);
     return -1;
   }
   
@@ -2120,7 +2117,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
-- 
2.43.0


From 7e6a095d71b540b4a36d4acdc2f2b52f893b70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 20/46] fix: unreadable, missing or malformed input files and
 strategies were ignored and the rest was used

---
 Builtparser/dbotter.yy.c | 12 +++++++++++-
 Builtparser/dbparse.c    | 12 ++++++++++++
 Builtparser/jsparse.c    | 30 ++++++++++++++++++++++++------
 Main/gkc.c               |  2 ++
 Parser/dbotter.l         | 12 +++++++++++-
 Parser/dbparse.c         | 12 ++++++++++++
 Parser/jsparse.c         | 30 ++++++++++++++++++++++++------
 Reasoner/rmain.c         |  4 ++--
 8 files changed, 98 insertions(+), 16 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..c91cf4a 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -809,7 +809,17 @@ static const flex_int32_t yy_rule_can_match_eol[60] =
         }                                               \
     } while (0);\
   } else { \
-    int n = fread(buffer,1,max_size,stdin); \
+    int n; \
+    do { \
+      clearerr(stdin); \
+      errno=0; \
+      n=fread(buffer,1,max_size,stdin); \
+    } while (n<=0 && ferror(stdin) && errno==EINTR); \
+    if (n<=0 && ferror(stdin)) { \
+      printf("{\"error\": \"error reading from %s\"}\n",PARM->filename); \
+      fflush(stdout); \
+      exit(1); \
+    } \
     if (n<=0) res=YY_NULL;\
     else res=n; \
   } 
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 4e01db5..9f3dc91 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1003,6 +1003,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   char* p1;
   char* p2;
   char* str2;
+  char* tmpname;
   int tmp;
  
 #ifdef IDEBUG
@@ -1089,9 +1090,18 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+
+  fp=fopen(filename,"r");
+  if (fp==NULL) {
+    wr_show_parse_error(g,"could not open included file %.500s",filename);
+    return NULL;
+  }
+  fclose(fp);
   tmp=(g->parse_is_included_file);
+  tmpname=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
   (g->parse_is_included_file)=tmp;
+  (g->filename)=tmpname;
   return NULL;
 }
 
@@ -2071,10 +2081,12 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2>799) tmp2=799; // the message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2>799) tmp2=799; // the message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b290ba8..e9f5b0a 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -194,7 +194,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
-  int i,tmp_comp_funs;
+  int i,tmp_comp_funs,res=0;
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -299,7 +299,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    res=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -311,14 +311,17 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    res=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (res<0) {
+    // the error is already printed: do not go on with a part of the input
+    (g->parse_errflag)=1;
+  } else if (pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
@@ -627,7 +630,7 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
   hand = yajl_alloc(&callbacks, NULL, (void*)pp);
   // configure parser
   yajl_config(hand, yajl_allow_comments, 1);
-  yajl_config(hand, yajl_allow_multiple_values, 1); 
+  yajl_config(hand, yajl_allow_multiple_values, streaming); 
   // open file
   //fileData = (unsigned char *) malloc(bufSize);  
   if (filename) { 
@@ -655,6 +658,10 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
       //printf("\nline %d bytes %d feof(file) %d\n",lines,bytes,feof(file));
       if (!feof(file)) {
         json_err_printf2("error reading from",filename);
+        if (line!=NULL) wr_free(g,line);
+        fclose(file);
+        yajl_free(hand);
+        return -1;
         //printf("\nerror reading from %s\n", filename);
       } else {
         //endfound=1;
@@ -735,7 +742,7 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
   hand = yajl_alloc(&callbacks, NULL, (void*)pp);
   // configure parser
   yajl_config(hand, yajl_allow_comments, 1);
-  yajl_config(hand, yajl_allow_multiple_values, 1); 
+  yajl_config(hand, yajl_allow_multiple_values, 0); 
   //printf("\nstart to parse str\n");
   line=(unsigned char *) strasfile;
   rd=strlen(strasfile);
@@ -966,6 +973,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* p1;
   char* p2;
   char* str2;
+  char* tmpname;
   int askinfo=0;
   //int tmp;
  
@@ -1052,6 +1060,13 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  fp=fopen(filename,"r");
+  if (fp==NULL) {
+    wr_show_jsparse_error(g,NULL,"could not open included file %.500s",filename);
+    return NULL;
+  }
+  fclose(fp);
+  tmpname=(g->filename);
   if (wg_is_jsfile(db,filename)) {
     wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
   } else {
@@ -1070,6 +1085,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     }
     wr_import_otter_file(g,filename,NULL,clvec,1);
   }
+  (g->filename)=tmpname;
   return NULL;
 }
 
@@ -3490,7 +3506,9 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1>49) tmp1=49; // a long formula name was cut
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2>799) tmp2=799; // the message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
diff --git a/Main/gkc.c b/Main/gkc.c
index fe7e4e8..ec3917b 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -422,6 +422,7 @@ int gkc_main(int argc, char **argv) {
       err = wg_run_converter(shmptr,inputname,stratfile,informat,NULL,NULL);
     } else {      
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
+      if (err==-2) return 1; // the strategy given was not usable, error is already printed
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");
@@ -709,6 +710,7 @@ int gkc_main(int argc, char **argv) {
       //err = wg_run_converter(shmptrlocal,inputname,stratfile,informat,NULL,NULL);
     } else {
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
+      if (err==-2) return 1; // the strategy given was not usable, error is already printed
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");        
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..a30d445 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -72,7 +72,17 @@
         }                                               \
     } while (0);\
   } else { \
-    int n = fread(buffer,1,max_size,stdin); \
+    int n; \
+    do { \
+      clearerr(stdin); \
+      errno=0; \
+      n=fread(buffer,1,max_size,stdin); \
+    } while (n<=0 && ferror(stdin) && errno==EINTR); \
+    if (n<=0 && ferror(stdin)) { \
+      printf("{\"error\": \"error reading from %s\"}\n",PARM->filename); \
+      fflush(stdout); \
+      exit(1); \
+    } \
     if (n<=0) res=YY_NULL;\
     else res=n; \
   } 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 4e01db5..9f3dc91 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1003,6 +1003,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   char* p1;
   char* p2;
   char* str2;
+  char* tmpname;
   int tmp;
  
 #ifdef IDEBUG
@@ -1089,9 +1090,18 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+
+  fp=fopen(filename,"r");
+  if (fp==NULL) {
+    wr_show_parse_error(g,"could not open included file %.500s",filename);
+    return NULL;
+  }
+  fclose(fp);
   tmp=(g->parse_is_included_file);
+  tmpname=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
   (g->parse_is_included_file)=tmp;
+  (g->filename)=tmpname;
   return NULL;
 }
 
@@ -2071,10 +2081,12 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2>799) tmp2=799; // the message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2>799) tmp2=799; // the message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b290ba8..e9f5b0a 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -194,7 +194,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
-  int i,tmp_comp_funs;
+  int i,tmp_comp_funs,res=0;
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -299,7 +299,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    res=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -311,14 +311,17 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    res=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (res<0) {
+    // the error is already printed: do not go on with a part of the input
+    (g->parse_errflag)=1;
+  } else if (pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
@@ -627,7 +630,7 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
   hand = yajl_alloc(&callbacks, NULL, (void*)pp);
   // configure parser
   yajl_config(hand, yajl_allow_comments, 1);
-  yajl_config(hand, yajl_allow_multiple_values, 1); 
+  yajl_config(hand, yajl_allow_multiple_values, streaming); 
   // open file
   //fileData = (unsigned char *) malloc(bufSize);  
   if (filename) { 
@@ -655,6 +658,10 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
       //printf("\nline %d bytes %d feof(file) %d\n",lines,bytes,feof(file));
       if (!feof(file)) {
         json_err_printf2("error reading from",filename);
+        if (line!=NULL) wr_free(g,line);
+        fclose(file);
+        yajl_free(hand);
+        return -1;
         //printf("\nerror reading from %s\n", filename);
       } else {
         //endfound=1;
@@ -735,7 +742,7 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
   hand = yajl_alloc(&callbacks, NULL, (void*)pp);
   // configure parser
   yajl_config(hand, yajl_allow_comments, 1);
-  yajl_config(hand, yajl_allow_multiple_values, 1); 
+  yajl_config(hand, yajl_allow_multiple_values, 0); 
   //printf("\nstart to parse str\n");
   line=(unsigned char *) strasfile;
   rd=strlen(strasfile);
@@ -966,6 +973,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* p1;
   char* p2;
   char* str2;
+  char* tmpname;
   int askinfo=0;
   //int tmp;
  
@@ -1052,6 +1060,13 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  fp=fopen(filename,"r");
+  if (fp==NULL) {
+    wr_show_jsparse_error(g,NULL,"could not open included file %.500s",filename);
+    return NULL;
+  }
+  fclose(fp);
+  tmpname=(g->filename);
   if (wg_is_jsfile(db,filename)) {
     wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
   } else {
@@ -1070,6 +1085,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     }
     wr_import_otter_file(g,filename,NULL,clvec,1);
   }
+  (g->filename)=tmpname;
   return NULL;
 }
 
@@ -3490,7 +3506,9 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1>49) tmp1=49; // a long formula name was cut
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2>799) tmp2=799; // the message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 084249c..fdfb0ac 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -211,13 +211,13 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
   }
   if (guide==NULL && givenguide) {
     if (guidebuf!=NULL) sys_free(guidebuf);
-    return -1;
+    return -2; // no usable strategy: nothing was tried
   }
   if (guide && cJSON_IsArray(guide)) {
     wr_errprint("top-level strategy must be an object; put run objects in a runs array");
     if (guidebuf!=NULL) sys_free(guidebuf);
     cJSON_Delete(guide);
-    return -1;
+    return -2;
   }
   filename=inputname;
 #ifdef SHOWTIME
-- 
2.43.0


From d84c99f8ac47ada4260036e9471612e1f527545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 21/46] fix: includes with a selection, include-only files and
 failing conversions were dropped or refused without a word

---
 Builtparser/dbotter.yy.c |  2 +-
 Builtparser/dbparse.c    | 26 +++++++++++++++++++++++++-
 Builtparser/jsparse.c    | 19 ++++++++++++++++---
 Parser/dbotter.l         |  2 +-
 Parser/dbparse.c         | 26 +++++++++++++++++++++++++-
 Parser/jsparse.c         | 19 ++++++++++++++++---
 Reasoner/glb.c           |  1 +
 Reasoner/glb.h           |  1 +
 8 files changed, 86 insertions(+), 10 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index c91cf4a..a61e4cd 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -815,7 +815,7 @@ static const flex_int32_t yy_rule_can_match_eol[60] =
       errno=0; \
       n=fread(buffer,1,max_size,stdin); \
     } while (n<=0 && ferror(stdin) && errno==EINTR); \
-    if (n<=0 && ferror(stdin)) { \
+    if (ferror(stdin) && errno!=EINTR) { \
       printf("{\"error\": \"error reading from %s\"}\n",PARM->filename); \
       fflush(stdout); \
       exit(1); \
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 9f3dc91..528b422 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -126,6 +126,7 @@ void* wr_parse_injson_term(glb* g, cJSON* term);
 int wr_is_tptp_cnf_clause(void* db, void* cl);
 int wr_is_tptp_fof_clause(void* db, void* cl);
 int wr_is_tptp_import_clause(void* db, void* cl);
+static int wr_is_tptp_import_selection(void* db, void* cl);
 
 //void* wr_preprocess_tptp_cnf_clause(glb* g, void* mpool, void* cl);
 //void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname);
@@ -192,6 +193,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       return 1;
     }
     pp.db=db;
@@ -283,6 +285,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  if (!pres && pres2==NULL && (g->parse_included_clauses) && !(g->parse_errflag) &&
+      !(g->parse_errmsg)) {
+    // all the clauses are in the included files
+    return 0;
+  }
   if (!pres && pres2==NULL && !(g->parse_errmsg)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
@@ -428,6 +435,10 @@ void* wr_preprocess_clauselist
       // tptp import clause 
       wr_process_tptp_import_clause(g,mpool,cl);
       resultclause=NULL;
+    } else if (wr_is_tptp_import_selection(db,cl)) {
+      wr_show_parse_error(g,"formula selection in include is not supported: %.500s",
+        wg_isatom(db,wg_nth(db,cl,1)) ? wg_atomstr1(db,wg_nth(db,cl,1)) : "");
+      resultclause=NULL;
     } else if (wr_is_tptp_cnf_clause(db,cl)) {
       // tptp cnf clause
       clname=wg_nth(db,cl,1);
@@ -710,6 +721,19 @@ int wr_is_tptp_import_clause(void* db, void* cl) {
   return 1;
 }
 
+/** Is this include('file',[name,...]) */
+static int wr_is_tptp_import_selection(void* db, void* cl) {
+  void* sel;
+
+  if (wg_isatom(db,cl)) return 0;
+  if (!wg_islog_uri(db,wg_first(db,cl),"include")) return 0;
+  if (wg_list_len(db,cl)!=3) return 0;
+  sel=wg_nth(db,cl,2);
+  if (!wg_ispair(db,sel)) return 0;
+  sel=wg_first(db,sel);
+  return (sel && wg_isatom(db,sel) && wg_atomstr1(db,sel) && !strcmp(wg_atomstr1(db,sel),"$$lst"));
+}
+
 /** Does this formula contain an explicit quantifier anywhere? */
 static int wr_frm_has_quantifier(void* db, void* frm) {
   void* part;
@@ -1099,7 +1123,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   fclose(fp);
   tmp=(g->parse_is_included_file);
   tmpname=(g->filename);
-  wr_import_otter_file(g,filename,NULL,NULL,1);  
+  if (!wr_import_otter_file(g,filename,NULL,NULL,1)) (g->parse_included_clauses)=1;
   (g->parse_is_included_file)=tmp;
   (g->filename)=tmpname;
   return NULL;
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index e9f5b0a..80b3d23 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -204,7 +204,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
+  (g->print_initial_parser_result)=0;
   (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
@@ -333,6 +333,19 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
+  if (dbmemsegh(db)->convert) {
+    // printed while preprocessing, no clauses were made
+    if ((g->parse_errflag) || (g->parse_errmsg)) return 1;
+    if (!(dbmemsegh(db)->tptp)) {
+      wr_show_jsparse_error(g,NULL,"json input can be converted to the tptp format only, use -tptp");
+      return 1;
+    }
+    return 0;
+  }
+  if (pres2==NULL && (g->parse_included_clauses) && !(g->parse_errflag) && !(g->parse_errmsg)) {
+    // all the clauses are in the included files
+    return 0;
+  }
   if (pres2==NULL) return 1;
   else return 0;  
 }
@@ -1068,7 +1081,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   fclose(fp);
   tmpname=(g->filename);
   if (wg_is_jsfile(db,filename)) {
-    wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
+    if (!wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0)) (g->parse_included_clauses)=1;
   } else {
     //(g->parser_print_level)=0;
     //(g->print_initial_parser_result)=0;
@@ -1083,7 +1096,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
       wg_show_db_error(db);
       return NULL;
     }
-    wr_import_otter_file(g,filename,NULL,clvec,1);
+    if (!wr_import_otter_file(g,filename,NULL,clvec,1)) (g->parse_included_clauses)=1;
   }
   (g->filename)=tmpname;
   return NULL;
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index a30d445..2a3a2ff 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -78,7 +78,7 @@
       errno=0; \
       n=fread(buffer,1,max_size,stdin); \
     } while (n<=0 && ferror(stdin) && errno==EINTR); \
-    if (n<=0 && ferror(stdin)) { \
+    if (ferror(stdin) && errno!=EINTR) { \
       printf("{\"error\": \"error reading from %s\"}\n",PARM->filename); \
       fflush(stdout); \
       exit(1); \
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 9f3dc91..528b422 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -126,6 +126,7 @@ void* wr_parse_injson_term(glb* g, cJSON* term);
 int wr_is_tptp_cnf_clause(void* db, void* cl);
 int wr_is_tptp_fof_clause(void* db, void* cl);
 int wr_is_tptp_import_clause(void* db, void* cl);
+static int wr_is_tptp_import_selection(void* db, void* cl);
 
 //void* wr_preprocess_tptp_cnf_clause(glb* g, void* mpool, void* cl);
 //void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname);
@@ -192,6 +193,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       return 1;
     }
     pp.db=db;
@@ -283,6 +285,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  if (!pres && pres2==NULL && (g->parse_included_clauses) && !(g->parse_errflag) &&
+      !(g->parse_errmsg)) {
+    // all the clauses are in the included files
+    return 0;
+  }
   if (!pres && pres2==NULL && !(g->parse_errmsg)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
@@ -428,6 +435,10 @@ void* wr_preprocess_clauselist
       // tptp import clause 
       wr_process_tptp_import_clause(g,mpool,cl);
       resultclause=NULL;
+    } else if (wr_is_tptp_import_selection(db,cl)) {
+      wr_show_parse_error(g,"formula selection in include is not supported: %.500s",
+        wg_isatom(db,wg_nth(db,cl,1)) ? wg_atomstr1(db,wg_nth(db,cl,1)) : "");
+      resultclause=NULL;
     } else if (wr_is_tptp_cnf_clause(db,cl)) {
       // tptp cnf clause
       clname=wg_nth(db,cl,1);
@@ -710,6 +721,19 @@ int wr_is_tptp_import_clause(void* db, void* cl) {
   return 1;
 }
 
+/** Is this include('file',[name,...]) */
+static int wr_is_tptp_import_selection(void* db, void* cl) {
+  void* sel;
+
+  if (wg_isatom(db,cl)) return 0;
+  if (!wg_islog_uri(db,wg_first(db,cl),"include")) return 0;
+  if (wg_list_len(db,cl)!=3) return 0;
+  sel=wg_nth(db,cl,2);
+  if (!wg_ispair(db,sel)) return 0;
+  sel=wg_first(db,sel);
+  return (sel && wg_isatom(db,sel) && wg_atomstr1(db,sel) && !strcmp(wg_atomstr1(db,sel),"$$lst"));
+}
+
 /** Does this formula contain an explicit quantifier anywhere? */
 static int wr_frm_has_quantifier(void* db, void* frm) {
   void* part;
@@ -1099,7 +1123,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   fclose(fp);
   tmp=(g->parse_is_included_file);
   tmpname=(g->filename);
-  wr_import_otter_file(g,filename,NULL,NULL,1);  
+  if (!wr_import_otter_file(g,filename,NULL,NULL,1)) (g->parse_included_clauses)=1;
   (g->parse_is_included_file)=tmp;
   (g->filename)=tmpname;
   return NULL;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index e9f5b0a..80b3d23 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -204,7 +204,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
+  (g->print_initial_parser_result)=0;
   (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
@@ -333,6 +333,19 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
+  if (dbmemsegh(db)->convert) {
+    // printed while preprocessing, no clauses were made
+    if ((g->parse_errflag) || (g->parse_errmsg)) return 1;
+    if (!(dbmemsegh(db)->tptp)) {
+      wr_show_jsparse_error(g,NULL,"json input can be converted to the tptp format only, use -tptp");
+      return 1;
+    }
+    return 0;
+  }
+  if (pres2==NULL && (g->parse_included_clauses) && !(g->parse_errflag) && !(g->parse_errmsg)) {
+    // all the clauses are in the included files
+    return 0;
+  }
   if (pres2==NULL) return 1;
   else return 0;  
 }
@@ -1068,7 +1081,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   fclose(fp);
   tmpname=(g->filename);
   if (wg_is_jsfile(db,filename)) {
-    wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
+    if (!wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0)) (g->parse_included_clauses)=1;
   } else {
     //(g->parser_print_level)=0;
     //(g->print_initial_parser_result)=0;
@@ -1083,7 +1096,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
       wg_show_db_error(db);
       return NULL;
     }
-    wr_import_otter_file(g,filename,NULL,clvec,1);
+    if (!wr_import_otter_file(g,filename,NULL,clvec,1)) (g->parse_included_clauses)=1;
   }
   (g->filename)=tmpname;
   return NULL;
diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index cbf4adf..603a24a 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -149,6 +149,7 @@ int wr_glb_init_simple(glb* g) {
   (g->parse_newpred_prefix)=NULL; 
   // (g->parse_newpred_nr)=0; // moved to dballoc.h
   (g->parse_errmsg)=NULL;
+  (g->parse_included_clauses)=0;
   (g->parse_errflag)=0;
 
   /* unification/matching configuration */
diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index c4651e3..8cf8c2e 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -286,6 +286,7 @@ typedef struct glb {
   char* parse_newpred_prefix; 
   //int int parse_newpred_nr; // moved to dballoc.h
   char* parse_errmsg;
+  int parse_included_clauses; // 1 iff an included file gave clauses
   int parse_errflag;
   
   /* unification/matching configuration */
-- 
2.43.0


From f046b4f2c6794d4f96dfbe8551065cdda20eb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:46 +0000
Subject: [PATCH 22/46] fix: a missing operand or formula was read as an empty
 one instead of a syntax error

---
 Builtparser/dbotter.tab.c | 5 +++++
 Parser/dbotter.y          | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..4900062 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1614,6 +1614,11 @@ yyreduce:
 #line 1615 "Parser/dbotter.tab.c"
     break;
 
+  case 30:
+#line 154 "Parser/dbotter.y"
+                                     { yyerror(parm, scanner, "syntax error, formula or term missing"); YYABORT; }
+    break;
+
   case 31:
 #line 155 "Parser/dbotter.y"
                                       { yyval = MKWGPAIR(
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..d80fa2b 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -151,7 +151,7 @@ log:       term                   { $$ = $1; }
 ;
 
 
-connlog:           
+connlog:                             { yyerror(parm, scanner, "syntax error, formula or term missing"); YYABORT; }
          | log '&' log    %prec '&'   { $$ = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
-- 
2.43.0


From 065005fe77ffe1edfed594a217cf76aa54c6fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 23/46] fix: converting a conjecture with free variables to
 json changed its meaning

---
 Builtparser/dbparse.c | 22 ++++++++++++++++++++--
 Parser/dbparse.c      | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 528b422..8ab0428 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -127,6 +127,7 @@ int wr_is_tptp_cnf_clause(void* db, void* cl);
 int wr_is_tptp_fof_clause(void* db, void* cl);
 int wr_is_tptp_import_clause(void* db, void* cl);
 static int wr_is_tptp_import_selection(void* db, void* cl);
+static void* wr_close_conjecture(glb* g, void* mpool, void* frm, void* role);
 
 //void* wr_preprocess_tptp_cnf_clause(glb* g, void* mpool, void* cl);
 //void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname);
@@ -505,7 +506,9 @@ void* wr_preprocess_clauselist
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
-        bpos=wg_print_frm_json(db,mpool,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        bpos=wg_print_frm_json(db,mpool,
+                               wr_close_conjecture(g,mpool,wg_nth(db,cl,3),clrole),
+                               &(g->tmp_printbuf),&blen,bpos);
         if (bpos<0) return NULL;
         if (wg_rest(db,lpart)) {
           printf("%s},\n",(g->tmp_printbuf));
@@ -579,7 +582,9 @@ void* wr_preprocess_clauselist
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
-        bpos=wg_print_frm_json(db,mpool,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        bpos=wg_print_frm_json(db,mpool,
+                               wr_close_conjecture(g,mpool,wg_nth(db,cl,3),clrole),
+                               &(g->tmp_printbuf),&blen,bpos);
         if (bpos<0) return NULL;
         if (wg_rest(db,lpart)) {
           printf("%s},\n",(g->tmp_printbuf));
@@ -734,6 +739,19 @@ static int wr_is_tptp_import_selection(void* db, void* cl) {
   return (sel && wg_isatom(db,sel) && wg_atomstr1(db,sel) && !strcmp(wg_atomstr1(db,sel),"$$lst"));
 }
 
+/** Free variables of a conjecture are bound by exists here, but by forall in json:
+    make the quantifier explicit for printing to json. */
+static void* wr_close_conjecture(glb* g, void* mpool, void* frm, void* role) {
+  void* db=g->db;
+  void* freevars;
+  int clauseflag=1;
+
+  if (!frm || !role || strcmp(wg_atomstr1(db,role),"conjecture")) return frm;
+  freevars=wr_parse_freeoccs(g,mpool,NULL,frm,&clauseflag);
+  if (!freevars) return frm;
+  return wg_mklist3(db,mpool,wg_makelogexists(db,mpool),freevars,frm);
+}
+
 /** Does this formula contain an explicit quantifier anywhere? */
 static int wr_frm_has_quantifier(void* db, void* frm) {
   void* part;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 528b422..8ab0428 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -127,6 +127,7 @@ int wr_is_tptp_cnf_clause(void* db, void* cl);
 int wr_is_tptp_fof_clause(void* db, void* cl);
 int wr_is_tptp_import_clause(void* db, void* cl);
 static int wr_is_tptp_import_selection(void* db, void* cl);
+static void* wr_close_conjecture(glb* g, void* mpool, void* frm, void* role);
 
 //void* wr_preprocess_tptp_cnf_clause(glb* g, void* mpool, void* cl);
 //void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname);
@@ -505,7 +506,9 @@ void* wr_preprocess_clauselist
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
-        bpos=wg_print_frm_json(db,mpool,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        bpos=wg_print_frm_json(db,mpool,
+                               wr_close_conjecture(g,mpool,wg_nth(db,cl,3),clrole),
+                               &(g->tmp_printbuf),&blen,bpos);
         if (bpos<0) return NULL;
         if (wg_rest(db,lpart)) {
           printf("%s},\n",(g->tmp_printbuf));
@@ -579,7 +582,9 @@ void* wr_preprocess_clauselist
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
-        bpos=wg_print_frm_json(db,mpool,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        bpos=wg_print_frm_json(db,mpool,
+                               wr_close_conjecture(g,mpool,wg_nth(db,cl,3),clrole),
+                               &(g->tmp_printbuf),&blen,bpos);
         if (bpos<0) return NULL;
         if (wg_rest(db,lpart)) {
           printf("%s},\n",(g->tmp_printbuf));
@@ -734,6 +739,19 @@ static int wr_is_tptp_import_selection(void* db, void* cl) {
   return (sel && wg_isatom(db,sel) && wg_atomstr1(db,sel) && !strcmp(wg_atomstr1(db,sel),"$$lst"));
 }
 
+/** Free variables of a conjecture are bound by exists here, but by forall in json:
+    make the quantifier explicit for printing to json. */
+static void* wr_close_conjecture(glb* g, void* mpool, void* frm, void* role) {
+  void* db=g->db;
+  void* freevars;
+  int clauseflag=1;
+
+  if (!frm || !role || strcmp(wg_atomstr1(db,role),"conjecture")) return frm;
+  freevars=wr_parse_freeoccs(g,mpool,NULL,frm,&clauseflag);
+  if (!freevars) return frm;
+  return wg_mklist3(db,mpool,wg_makelogexists(db,mpool),freevars,frm);
+}
+
 /** Does this formula contain an explicit quantifier anywhere? */
 static int wr_frm_has_quantifier(void* db, void* frm) {
   void* part;
-- 
2.43.0


From cfe2e06ad6d5b64f5bff41f1e4f2e82d4cd84ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 24/46] fix: -writekb crashed, a dump cut short counted as
 written, a half built or half loaded knowledge base was used

---
 Db/dbdump.c     | 36 +++++++++++++++--------
 Main/gkc.c      | 76 ++++++++++++++++++++++++++++++++++++++++++-------
 Reasoner/init.c | 10 ++++---
 3 files changed, 95 insertions(+), 27 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..76307d4 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -30,6 +30,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef _WIN32
 #define WIN32_LEAN_AND_MEAN
@@ -115,6 +116,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +126,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -140,8 +143,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+       fwrite(&crc, sizeof(gint32), 1, f) == 1 && !fflush(f)) {
       err = 0;
     }
   }
@@ -174,8 +177,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
+  if(fclose(f) && !err) {
+    show_dump_error(db, "Error writing file");
+    err = -1;
+  }
 
   return err;
 }
@@ -280,7 +285,7 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, newsize, rglb = 0;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
@@ -315,7 +320,6 @@ gint wg_import_dump(void * db,char fileName[]) {
       goto abort;
     }
   }
-  if(dumph) free(dumph);
 
   /* 0 > dbsize >= dbh->size indicates that we were able to read the dump
    * and it contained a memory image that fits in our current shared memory.
@@ -323,20 +327,26 @@ gint wg_import_dump(void * db,char fileName[]) {
   if(dbh->size < dbsize) {
     show_dump_error(db, "Data does not fit in shared memory area");
   } else if(dbsize > 0) {
-    /* We have a compatible dump file. */
+    /* We have a compatible dump file. The header goes last and, in it, the
+     * mark of a complete knowledge base is added after everything else.
+     */
     newsize = dbh->size;
-    fseek(f, 0, SEEK_SET);
-    if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
+    if(fread(dbmemsegbytes(db)+sizeof(db_memsegment_header),
+        dbsize-sizeof(db_memsegment_header), 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
       err = -2; /* database is in undetermined state now */
     } else {
       err = 0;
-      dbh->size = newsize;
-      dbh->checksum = 0;
+      rglb = dumph->rglb;
+      dumph->rglb = 0;
+      dumph->size = newsize;
+      dumph->checksum = 0;
+      memcpy(dbh, dumph, sizeof(db_memsegment_header));
     }
   }
 
 abort:
+  if(dumph) free(dumph);
   fclose(f);
 
   /* any errors up to now? */
@@ -353,7 +363,9 @@ abort:
     }
   }
 #endif
-  return wg_init_locks(db);
+  if(wg_init_locks(db)) return -1;
+  dbh->rglb = rglb;
+  return 0;
 }
 
 /* ------------ error handling ---------------- */
diff --git a/Main/gkc.c b/Main/gkc.c
index ec3917b..10c392d 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -145,6 +145,8 @@ void gkc_show_cur_time(void);
 
 void initial_printf(char* s);
 void err_printf(int json, char* s);
+static int gkc_delete_kb(char* shmname);
+static int gkc_kb_ready(void* shmptr);
 void err_printf2(int json, char* s1, char* s2);
 
 int wg_import_data_file(void *db, char* filename, int iskb, int* informat, int askpolarity, int* askinfo);
@@ -472,7 +474,10 @@ int gkc_main(int argc, char **argv) {
     printf("\nto -readkb\n");      
     gkc_show_cur_time();
 #endif
-    wg_delete_database(shmname);
+    if (gkc_delete_kb(shmname)) {
+      err_printf(json,"cannot delete the previous kb");
+      return(1);
+    }
 #ifdef SHOWTIME      
     printf("\nprevious memory database deleted\n");
     gkc_show_cur_time();
@@ -482,6 +487,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if (wg_in_attached_kb(shmptr)) {
+      err_printf(json,"another process created the same kb");
+      return(1);
+    }
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -495,9 +504,12 @@ int gkc_main(int argc, char **argv) {
     if(!err)
       printf("Data parsed into the shared memory db, starting to build indexes.");
     else if(err<-1)
+{
       err_printf(json,"problem reading otter file, data may be partially"\
         " imported");
-    else {
+      wg_delete_database(shmname);
+      return(1);
+    } else {
       err_printf(json,"reading failed");
       wg_delete_database(shmname);
       return(1);
@@ -548,6 +560,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if (!gkc_kb_ready(shmptr)) {
+      err_printf(json,"kb is not ready: it is being built or building it failed");
+      return(1);
+    }
     if (tptp && !(clausify) && !(convert)) {
       printf("Using the existing shared memory kb %s.\n",shmname);
     }  
@@ -732,7 +748,6 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
@@ -744,11 +759,12 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
-    /* Locking is handled internally by the dbdump.c functions */
-    if(flags & FLAGS_FORCE)
-      err = wg_dump_internal(shmptr,cmdfiles[1], 0);
-    else
-      err = wg_dump(shmptr,cmdfiles[1]);
+    if (!gkc_kb_ready(shmptr)) {
+      err_printf(json,"kb is not ready: it is being built or building it failed");
+      return(1);
+    }
+    /* No locking: a built kb does not change and is attached read-only */
+    err = wg_dump_internal(shmptr,cmdfiles[1], 0);
 
     if(err<-1) {
       err_printf(json,"cannot write to file, kb may have"\
@@ -777,12 +793,21 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
+    // the loaded kb replaces the previous one, just like for -readkb
+    if (gkc_delete_kb(shmname)) {
+      err_printf(json,"cannot delete the previous kb");
+      return(1);
+    }
     shmptr=wg_attach_memsegment(shmname, minsize, maxsize, 1,
       (flags & FLAGS_LOGGING), 0);
     if(!shmptr) {
       err_printf(json,"error: failed to attach local database");
       return(1);
     }
+    if (wg_in_attached_kb(shmptr)) {
+      err_printf(json,"another process created the same kb");
+      return(1);
+    }
 
     // Locking is handled internally by the dbdump.c functions
     err = wg_import_dump(shmptr,cmdfiles[1]);
@@ -791,9 +816,11 @@ int gkc_main(int argc, char **argv) {
     else if(err<-1) {
       err_printf(json,"failed to load, db may have"\
         " become corrupt");
+      wg_delete_database(shmname);
       return(1);  
     } else {
       err_printf(json,"loading failed");
+      wg_delete_database(shmname);
       return(1);
     }
 #ifdef _WIN32    
@@ -828,7 +855,10 @@ int gkc_main(int argc, char **argv) {
     printf("\nto -readkb\n");      
     gkc_show_cur_time();
 #endif
-    wg_delete_database(shmname);
+    if (gkc_delete_kb(shmname)) {
+      err_printf(json,"cannot delete the previous kb");
+      return(1);
+    }
 #ifdef SHOWTIME      
     printf("\nprevious memory database deleted\n");
     gkc_show_cur_time();
@@ -838,6 +868,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if (wg_in_attached_kb(shmptr)) {
+      err_printf(json,"another process created the same kb");
+      return(1);
+    }
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -851,9 +885,12 @@ int gkc_main(int argc, char **argv) {
     if(!err)
       printf("Data parsed into the shared memory db, starting to build indexes.");
     else if(err<-1)
+{
       err_printf(json,"fatal error when reading otter file, data may be partially"\
         " imported");
-    else {
+      wg_delete_database(shmname);
+      return(1);
+    } else {
       err_printf(json,"reading failed");
       wg_delete_database(shmname);
       return(1);
@@ -907,12 +944,29 @@ int gkc_main(int argc, char **argv) {
     err_printf(json,"-deletekb is available on Linux and OSX only");
     return(0);
 #endif      
-    wg_delete_database(shmname);
+    if (gkc_delete_kb(shmname)) {
+      err_printf(json,"deleting the kb failed");
+      return(1);
+    }
     return(0);
   }
   return(0);
 }
 
+/* Delete the shared memory kb: returns 0 if it is not there (any more) */
+
+static int gkc_delete_kb(char* shmname) {
+  int err=wg_delete_database(shmname);
+  if (err==-1 && errno==ENOENT) return 0;
+  return err;
+}
+
+/* Has the shared memory kb been built completely? */
+
+static int gkc_kb_ready(void* shmptr) {
+  return (dbmemsegh(shmptr)->rglb)!=0;
+}
+
 void sig_handler(int signum){
   fflush(stdout);
   printf("\n{\"result\": \"time limit, proof not found\"}\n");
diff --git a/Reasoner/init.c b/Reasoner/init.c
index 9413093..8333655 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -82,8 +82,6 @@ int init_shared_database(void* db, char* guidefilename) {
     wr_errprint("cannot allocate enough memory during reasoner structures initialization");    
     return -1;
   } 
-  // store database pointer to glb structure created
-  (dbh->rglb)=ptrtooffset(db,g);
   // store pointer to whole shared db into the glb structure 
   (g->db)=db;       
   (g->kb_db)=db;
@@ -144,6 +142,7 @@ int init_shared_database(void* db, char* guidefilename) {
       // error in guide requiring stop      
       if (guidebuf!=NULL) free(guidebuf);
       if (guide!=NULL) cJSON_Delete(guide);      
+      return -1;
     }
   }  
   //printf("\n(g->use_equality_strat) %d\n",(g->use_equality_strat));
@@ -181,7 +180,10 @@ int init_shared_database(void* db, char* guidefilename) {
   (g->queryfocus_strat)=tmp;
 
   //printf("\n (g->in_chain_clause_count) %d \n",(g->in_chain_clause_count));
-  if (tmp<0) return -1;
+  if (tmp<0 || g->alloc_err) return -1;
+  // the kb is complete: store the offset of the glb structure created,
+  // a kb without it (being built or left half built) is not to be used
+  (dbh->rglb)=ptrtooffset(db,g);
   return 0;
 }
 
@@ -211,7 +213,7 @@ int wr_init_db_clause_indexes(glb* g, void* db) {
     rec=offsettoptr(db,cellptr->car);
     if (g->alloc_err) {
       wr_errprint("\nbuffer overflow while processing parsed clauses, terminating\n");            
-      exit(1);
+      return -1;
     }  
 #ifdef DEBUG
     wr_printf("\nrule with len %ld x\n",wg_get_record_len(db,rec));
-- 
2.43.0


From 7aa78430ad84a414d2e0626230bfed5075c9346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 25/46] fix: memory of kept clauses was reused (hyperresolution
 near the time limit), crashes after failed allocations

fix: memory of kept clauses was reused (hyperresolution near the time limit), crashes after failed allocations

Discarding an overweight derived clause put back the next free position of
a different buffer when the double cut had turned an unfinished
hyperresolvent into a finished clause: clauses kept in the queue buffer
were then overwritten. Only the buffer the position was read from is
restored now. A failed allocation during the analysis of clauses, the
choice of resolvable literals or the printing of inputs is no longer
followed by using the missing data.
---
 Db/dbmpool.c        |  2 ++
 Reasoner/derive.c   | 19 ++++++++++++++-----
 Reasoner/history.c  |  7 +++++++
 Reasoner/init.c     |  2 +-
 Reasoner/rgenloop.c |  1 +
 Reasoner/rmain.c    |  8 ++++++++
 Reasoner/strat.c    |  4 ++++
 7 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..3c696fe 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -430,10 +430,12 @@ void* wg_inplace_reverselist(void* db, void* mpool, void* arg1) {
 // ------------- get pair parts ----------------
 
 void* wg_first(void* db, void* ptr) {
+  if (ptr==NULL) return NULL; // could not be allocated
   return (void*)(*((gint*)ptr));
 }
 
 void* wg_rest(void* db, void *ptr) {
+  if (ptr==NULL) return NULL; // could not be allocated
   return (void*)(*((gint*)ptr+1));
 }
 
diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..27efa81 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -100,6 +100,7 @@ void wr_process_resolve_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  gptr initial_buffer=NULL; // initial_queue_termbuf_next is for this buffer
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -248,11 +249,13 @@ void wr_process_resolve_result
     //partialresflag=1;      
     wr_process_resolve_result_setuphypercopy(g); // use g->queue_hyperbuf as g->build_buffer
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
+    initial_buffer=g->build_buffer;
   } else {
     // fully formed, storable result
     //partialresflag=0;
     wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
+    initial_buffer=g->build_buffer;
   }  
 
   history=wr_build_resolve_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
@@ -325,7 +328,7 @@ void wr_process_resolve_result
     /* 
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,0,0)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      if (g->build_buffer==initial_buffer) CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
@@ -358,7 +361,7 @@ void wr_process_resolve_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      if (g->build_buffer==initial_buffer) CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
@@ -405,6 +408,7 @@ void wr_process_instgen_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  gptr initial_buffer=NULL; // initial_queue_termbuf_next is for this buffer
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -516,6 +520,7 @@ void wr_process_instgen_result
  
   wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer
   initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used    
+  initial_buffer=g->build_buffer;
   
   if (usexcl) history=wr_build_instgen_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
   else history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec); 
@@ -562,7 +567,7 @@ void wr_process_instgen_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (0) { //!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      if (g->build_buffer==initial_buffer) CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
@@ -621,6 +626,7 @@ void wr_process_factor_result
   gint resmeta,history;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  gptr initial_buffer=NULL; // initial_queue_termbuf_next is for this buffer
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -750,6 +756,7 @@ void wr_process_factor_result
   // create new record  
   wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer
   initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used 
+  initial_buffer=g->build_buffer;
 
   history=wr_build_factorial_history(g,xcl_as_active,x,y,g->cut_clvec);
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
@@ -809,7 +816,7 @@ void wr_process_factor_result
     avg=(g->avg_kept_weight);  
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,0,0)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      if (g->build_buffer==initial_buffer) CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
@@ -857,6 +864,7 @@ void wr_process_paramodulate_result
   gint resmeta,history;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  gptr initial_buffer=NULL; // initial_queue_termbuf_next is for this buffer
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -1050,6 +1058,7 @@ void wr_process_paramodulate_result
   //partialresflag=0;      
   wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer  
   initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
+  initial_buffer=g->build_buffer;
   if (fromflag) {
     //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
     /*
@@ -1151,7 +1160,7 @@ void wr_process_paramodulate_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      if (g->build_buffer==initial_buffer) CVEC_NEXT(initial_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
diff --git a/Reasoner/history.c b/Reasoner/history.c
index 4f27640..bf360ba 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1743,6 +1743,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
   char* inputstr;
   int inpslen;
   int minlen;
+  int namelen;
 
   // print inputs
   for(i=0;i<inputcount;i++) {
@@ -1758,6 +1759,8 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
         inputstr=inputs[i];
         inpslen=strnlen(inputstr,900);
         atomstr=wg_atomstr1(child_db,wg_nth(child_db,frm,1));  
+        namelen=2*(strlen(inputstr)+strlen(atomstr));
+        if (!wg_str_guarantee_space(db,buf,blen,bpos+namelen+1000)) return -1;
         if (!strcmp(inputstr,atomstr)) {   
           // exact str match, original input           
           //wg_mpool_print(child_db,frm);
@@ -1776,6 +1779,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
               } 
               //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
               bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+              if (bpos<0 || !wg_str_guarantee_space(db,buf,blen,bpos+namelen+1000)) return -1;
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  input). ");    
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",inputstr);    
@@ -1786,6 +1790,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ","input");
               }   
               bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+              if (bpos<0 || !wg_str_guarantee_space(db,buf,blen,bpos+namelen+1000)) return -1;
             }            
           }
           n++;
@@ -1820,6 +1825,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 } 
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
                 bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+                if (bpos<0 || !wg_str_guarantee_space(db,buf,blen,bpos+namelen+1000)) return -1;
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
                   ",\n  inference(negpush_and_skolemize,[],['%s'])).",inputstr);    
               } else {
@@ -1831,6 +1837,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                   bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ","input");
                 }   
                 bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+                if (bpos<0 || !wg_str_guarantee_space(db,buf,blen,bpos+namelen+1000)) return -1;
               }  
             }
             n++;
diff --git a/Reasoner/init.c b/Reasoner/init.c
index 8333655..f548c62 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -171,7 +171,7 @@ int init_shared_database(void* db, char* guidefilename) {
   wr_printf("\nwg_show_strhash ends\n");
 #endif 
   tmp=wr_analyze_clause_list(g,db,db);
-  if (!tmp) return -1;
+  if (!tmp || (g->alloc_err)) return -1;
   
   // temporarily set queryfocus-strat to disable equality ordering
   tmp=(g->queryfocus_strat);  
diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index d40b8ad..d7b8c6d 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -419,6 +419,7 @@ int wr_genloop(glb* g) {
     } else {
       wr_calc_clause_resolvability(g,given_cl,0,0);
     }  
+    if (g->alloc_err) return -1;
     if (g->print_initial_given_cl) {
       wr_print_clause_resolvability(g,given_cl);
     }  
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index fdfb0ac..07ce9c3 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -299,6 +299,14 @@ static int wr_run_reasoner_strategies(void *db, char* inputname, char* stratfile
   //printf("\nto call wr_analyze_clause_list\n");
   tmp=wr_analyze_clause_list(analyze_g,db,child_db);
   //printf("\nreturned from wr_analyze_clause_list\n");
+  if (!tmp || (analyze_g->alloc_err)) {
+    wr_errprint("cannot allocate enough memory to analyze the clauses");
+    if (guidebuf!=NULL) sys_free(guidebuf);
+    if (guide!=NULL) cJSON_Delete(guide);
+    if (kb_g) sys_free(kb_g);
+    analyze_g=wr_free_analyze_g(analyze_g);
+    return -1;
+  }
   if (!givenguide) {
     if (guidestr && !strncmp(guidestr,"LTBSPECIAL",10)) {
       //(dbmemsegh(db)->max_forks)=2;
diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index 4db8f9b..cda2fa2 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -461,6 +461,7 @@ int wr_calc_clause_resolvability(glb* g, gptr cl, int allowall, int hyperpartial
       }          
     }    
   }
+  if (!(g->tmp_resolvability_vec) || !(g->tmp_hardnessinf_vec)) return 0; // allocation failed
   // TESTING: normal no 0 blocker
   if (!allowall && negcount==0 && ((g->negpref_strat) || (g->hyperres_strat))) { 
     // pure positive for neg order:
@@ -1501,6 +1502,7 @@ int wr_calc_clause_knuthbendix_resolvability(glb* g, gptr cl, gptr vb) {
   for(i=0; i<atomnr; i++) {
     (g->tmp_resolvability_vec)=wr_vec_store(g,g->tmp_resolvability_vec,i+1,1);
   }    
+  if (!(g->tmp_resolvability_vec)) return 0; // allocation failed
   // TESTING BLOCK for getting foundground
   /*
   int foundground=0;
@@ -1665,6 +1667,7 @@ int wr_calc_clause_size_countedvarlist(glb* g, gptr cl, gptr vb) {
   }
 
   // from here clause length at least 2
+  if (!(g->tmp_clinfo)) return 0; // allocation failed
   (g->tmp_clinfo)[1]=2; // initialize
   for(i=0; i<atomnr; i++) {      
     meta=wg_get_rule_clause_atom_meta(db,cl,i);
@@ -1714,6 +1717,7 @@ int wr_calc_clause_size_countedvarlist(glb* g, gptr cl, gptr vb) {
   wr_printf("\nfinal (g->tmp_clinfo)[0] is %ld and (g->tmp_clinfo)[1] is %ld\n",
     (g->tmp_clinfo)[0],(g->tmp_clinfo)[1]);
 #endif    
+  if (!(g->tmp_clinfo)) return 0; // allocation failed
   return atomnr; // mark vec is created
 } 
 
-- 
2.43.0


From 3b77272828ceb1820d6947c688e2895f00468d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 26/46] fix: arithmetic instantiation used a clause hash that
 is not there and overwrote the run's settings

---
 Reasoner/arithinst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..3461fb2 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -716,7 +716,8 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
     ++(g->stat_arithinst_proofs);
     return 1;
   }
-  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,&clhash);
+  // the hash of clauses exists only for the instgen and propgen strategies
+  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,(g->prop_hash_clauses) ? &clhash : NULL);
   if (tmp<0) return 0;
   if (tmp>0) {
     cuts=g->cut_clvec;
@@ -764,7 +765,7 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
   g->avg_kept_weight=avg;
   resmeta=wr_calc_clause_meta(g,res,cl_metablock);
   hash=wr_add_cl_to_unithash(g,res,resmeta);
-  if (hash<0) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
+  if (hash<0 && (g->prop_hash_clauses)) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
   if (g->propagate) {
     if (hash>=0) {
       wr_propagate_unit(g,res,resmeta,hash,parent);
-- 
2.43.0


From 2f268dfbdded8634c03c6b08a708987f81d48a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 27/46] fix: a query over a shared knowledge base crashed with
 more than 100 local clauses

---
 Reasoner/rmain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 07ce9c3..7081640 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1334,7 +1334,9 @@ int wr_init_active_passive_lists_from_one(glb* g, void* db, void* child_db) {
 
   // perform sine analysis
   //printf("\n(g->sin_clause_count)%d\n",(g->sin_clause_count));
-  if (!(g->sine_order_strat)) {
+  if ((g->db)!=(g->child_db)) {
+    (g->sine_order_strat)=0; // symbol occurrences are not collected over two databases
+  } else if (!(g->sine_order_strat)) {
     //if ((g->sin_clause_count) < 1000) {
     //  (g->sine_order_strat)=1;
     //}
-- 
2.43.0


From bae5c63668468b6e735e965bb58f73a6fbd59648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:02 +0000
Subject: [PATCH 28/46] fix: a debug line was printed into the output of
 queries over a shared knowledge base

---
 Reasoner/resolve.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Reasoner/resolve.c b/Reasoner/resolve.c
index 2533c05..e8016e3 100644
--- a/Reasoner/resolve.c
+++ b/Reasoner/resolve.c
@@ -180,8 +180,6 @@ void wr_resolve_binary_all_active(glb* g, gptr cl, gptr cl_as_active, cvec resol
 #endif
           if (r_kb_g(g)) {
             //printf("\nr_kb_g(g) used\n");
-            printf("\ng is %lx db is %lx, r_kb_g(g) used: %lx with r_kb_g(g)->db %lx\n",
-              (unsigned long int)g,(unsigned long int)db,(unsigned long int)r_kb_g(g),(unsigned long int)(r_kb_g(g)->db));
             if (negflag) hashvec=rotp(g,r_kb_g(g)->hash_pos_atoms);
             else hashvec=rotp(g,r_kb_g(g)->hash_neg_atoms); 
 #ifdef DEBUG            
-- 
2.43.0


From 9a48710c3005ff577baf146f92c7feaabd75c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:35 +0000
Subject: [PATCH 29/46] fix: -readkb freed memory inside the segment when a
 local allocation failed

---
 Reasoner/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/init.c b/Reasoner/init.c
index f548c62..dd29a8d 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -157,9 +157,9 @@ int init_shared_database(void* db, char* guidefilename) {
   (g->inkb)=0; // temporarily pretend g is not inside the shared knowledge base 
   if (wr_glb_init_local_complex(g)) { // creates and fills in local tables, substructures, etc  
     wr_printf("\nerror: cannot init local complex datastructures\n");
-    wr_glb_free_shared_complex(g);
     wr_glb_free_local_complex(g); 
     (g->inkb)=1;  // restore: g is inside the shared knowledge base  
+    wr_glb_free_shared_complex(g); // these were allocated inside the segment
     return -1;
   }
   (g->inkb)=1; // restore: g is inside the shared knowledge base 
-- 
2.43.0


From 28981a0e9e3c4f3e6a6e2f1eea8e98a337f48c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:43 +0000
Subject: [PATCH 30/46] fix: adding to a field atomically lost the upper half
 of big values

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index c629d81..a07e903 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1154,8 +1154,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From ee86e281f93b01f2ae746e8afb6ba3e833edf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 31/46] fix: deleting a record freed long strings other records
 use, or stopped at a record link

---
 Db/dbdata.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index a07e903..7c574d8 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -290,7 +290,8 @@ gint wg_delete_record(void* db, void *rec) {
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
     data = *dptr;
 
-#ifdef USE_BACKLINKING
+    /* wg_set_new_field makes no backlinks under QUICK_REASONER */
+#if defined(USE_BACKLINKING) && !defined(QUICK_REASONER)
     /* Is the field value a record pointer? If so, remove the backlink. */
 #ifdef USE_CHILD_DB
     if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
@@ -1314,6 +1315,11 @@ static gint free_field_encoffset(void* db,gint encoffset) {
 #endif
       break;
     case LONGSTRBITS:
+#ifdef QUICK_REASONER
+      /* the fields pointing to a shared long string are not counted by
+         wg_set_new_field, hence it stays in the string hash for reuse */
+      break;
+#endif
       offset=decode_longstr_offset(encoffset);
 #ifdef USE_CHILD_DB
       if(!is_local_offset(db, offset))
-- 
2.43.0


From 7797fadb7266c5e2abbb3bb1296e8fb90e410fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 32/46] fix: freeing an object after a free one failed: the
 record stayed in scans and its space was lost

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 546e8db..dca9ccb 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1263,7 +1263,7 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     prevobjectsize=getfreeobjectsize(dbfetch(db,(object-sizeof(gint))));
     prevobject=object-prevobjectsize;
     prevobjecthead=dbfetch(db,prevobject);
-    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobject)!=prevobjectsize) {
+    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobjecthead)!=prevobjectsize) {
       show_dballoc_error(db,"wg_free_object notices corruption: previous object is not ok free object");
       return -4; // corruption noticed
     }
-- 
2.43.0


From a0b702c28a666d5353a192c70c12a4dfab5d7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 33/46] fix: freeing an object failed when the free one before
 it had been allocated again

---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index dca9ccb..7d1ec49 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1015,6 +1015,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
         if (nextel!=0) dbstore(db,nextel+2*sizeof(gint),dbaddr(db,&freebuckets[i]));
         // prev elem cannot be free (no consecutive free elems)
         dbstore(db,res,makeusedobjectsizeprevused(wantedbytes)); // store wanted size to the returned object
+        // next object should be marked as "prev used"
+        nextobject=res+usedbytes;
+        tmp=dbfetch(db,nextobject);
+        if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
         return res;
       } else if (size>=usedbytes+MIN_VARLENOBJ_SIZE) {
         // found one somewhat larger: now split and store the rest
-- 
2.43.0


From 48fef7136815ac7c7139391c594c9ee1eea618ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:44 +0000
Subject: [PATCH 34/46] fix: a request nearly as large as a new storage part
 ate the rest of the segment and failed, huge requests overflowed

---
 Db/dballoc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7d1ec49..f03ff89 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -929,6 +929,7 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  if (nr<0 || nr>dbmemsegh(db)->size) return 0; // cannot fit: also avoids overflows below
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
   if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
@@ -1069,7 +1070,8 @@ static gint extend_varlen_area(void* db, void* area_header, gint minbytes) {
     return 0; // no more subarea array elements available
   }
   size=((areah->subarea_array)[i]).size; // last allocated subarea size
-  minsize=minbytes+SUBAREA_ALIGNMENT_BYTES+2*(MIN_VARLENOBJ_SIZE); // minimum allowed
+  // minimum allowed: markers at both ends, and a remainder large enough to split off
+  minsize=minbytes+SUBAREA_ALIGNMENT_BYTES+4*(MIN_VARLENOBJ_SIZE);
 #ifdef CHECK
   if(minsize<0) { /* sanity check */
     show_dballoc_error_nr(db, "invalid number of bytes requested: ", minbytes);
-- 
2.43.0


From aba40fa98179c8747e2acd99f6855ef805060ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:33 +0000
Subject: [PATCH 35/46] fix: a dump taken while others used the database could
 miss its end or carry a wrong checksum

---
 Db/dbdump.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 76307d4..7e3f61b 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -58,6 +58,12 @@ extern "C" {
 #include "dbdump.h"
 #include "crc1.h"
 
+/* This has to be large enough to hold all the relevant
+ * fields in the header during the first pass of the read.
+ * (Currently this is the first 24 bytes of the dump file)
+ */
+#define BUFSIZE 8192
+
 /* ======= Private protos ================ */
 
 
@@ -86,13 +92,14 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize, pos, len;
 #ifdef USE_DBLOG
   gint active;
 #endif
   gint err = -1;
   gint lock_id = 0;
-  gint32 crc;
+  gint32 crc = 0;
+  char buf[BUFSIZE];
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
@@ -137,11 +144,22 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  /* Compute the CRC32 of the used area */
-  crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
+  /* The size may only be read when no writer can extend the used area */
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
 
-  /* Now, write the memory area to file */
-  if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
+  /* Write the memory area to file and compute the CRC32 of what is written:
+   * the locks in it keep changing while it is done.
+   */
+  for(pos=0; pos<dbsize; pos+=len) {
+    len = dbsize-pos < BUFSIZE ? dbsize-pos : BUFSIZE;
+    memcpy(buf, (char *) dbmemsegbytes(db) + pos, len);
+    if(!pos)
+      ((db_memsegment_header *) buf)->checksum = 0;
+    crc = update_crc32(buf, len, crc);
+    if(fwrite(buf, len, 1, f) != 1)
+      break;
+  }
+  if(pos >= dbsize) {
     /* Overwrite checksum field */
     if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
        fwrite(&crc, sizeof(gint32), 1, f) == 1 && !fflush(f)) {
@@ -186,12 +204,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 }
 
 
-/* This has to be large enough to hold all the relevant
- * fields in the header during the first pass of the read.
- * (Currently this is the first 24 bytes of the dump file)
- */
-#define BUFSIZE 8192
-
 /** Check dump file for compatibility and errors.
  *  Returns 0 when successful (no error).
  *  -1 on system error (cannot open file, no memory)
-- 
2.43.0


From fc46023ab5a4acf26f9ae8186041757d41fffa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 36/46] fix: a refused or failed attach left segments behind or
 attached, or removed another one

---
 Db/dbmem.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 791ce39..45113c8 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -68,7 +68,8 @@ static void* link_shared_memory(int key, int *errcode);
 
 /* base address of the attached shared kb segment (see dballoc.h) */
 void* wg_attached_kb_segment=NULL;
-static void* create_shared_memory(int key, gint size, int mode);
+static void* create_shared_memory(int key, gint size, int mode, int *shmidp);
+static void remove_created_memory(void* shmptr, int shmid);
 static int free_shared_memory(int key);
 
 static int detach_shared_memory(void* shmptr);
@@ -103,6 +104,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -206,6 +208,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
   void* shm;
   int err;
   int key=0;
+  int shmid=-1;
 #ifdef USE_DBLOG
   int omode;
 #endif
@@ -230,6 +233,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -243,6 +247,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -258,6 +263,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -269,6 +275,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -299,10 +306,10 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
      */
     if(!size) size = DEFAULT_MEMDBASE_SIZE;
     mode = normalize_perms(mode);
-    shm = create_shared_memory(key, size, mode);
+    shm = create_shared_memory(key, size, mode, &shmid);
     if(!shm && minsize && minsize<size) {
       size = minsize;
-      shm = create_shared_memory(key, size, mode);
+      shm = create_shared_memory(key, size, mode, &shmid);
     }
 
     if (shm==NULL) {
@@ -326,7 +333,7 @@ void* wg_attach_memsegment(char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
-        free_shared_memory(key);
+        remove_created_memory(shm, shmid);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -834,7 +841,7 @@ static void* link_shared_memory(int key, int *errcode) {
 
 
 
-static void* create_shared_memory(int key, gint size, int mode) {
+static void* create_shared_memory(int key, gint size, int mode, int *shmidp) {
   void *shm;
 
 #ifdef __EMSCRIPTEN__
@@ -908,14 +915,27 @@ static void* create_shared_memory(int key, gint size, int mode) {
   shm=shmat(shmid,NULL,0);
   if (shm==(char *) -1) {
     show_memory_error("attaching shared memory segment failed");
+    shmctl(shmid, IPC_RMID, NULL); // nobody else knows it is unusable
     return NULL;
   }
+  *shmidp=shmid;
   return (void*) shm;
 #endif
 #endif
 }
 
 
+/** Detach and remove a segment just created. The key may name another
+ *  segment by now.
+ */
+static void remove_created_memory(void* shmptr, int shmid) {
+  detach_shared_memory(shmptr);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  shmctl(shmid, IPC_RMID, NULL);
+#endif
+}
+
+
 
 static int free_shared_memory(int key) {
 #ifdef __EMSCRIPTEN__   
-- 
2.43.0


From a27b462020a3092174f05c6c91ec720390fb0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 37/46] fix: making a database smaller than its header wrote
 past its end

---
 Db/dballoc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index f03ff89..79c3758 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -104,6 +104,7 @@ gint wg_init_db_memsegment_with_kb(void* db, gint key, gint size, void* kb) {
   gint free;
   gint i;
 
+  if (size<(gint)sizeof(db_memsegment_header)) return -1; // no room for the header
   // set main global values for db
   dbh->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
   dbh->version=(gint32) MEMSEGMENT_VERSION;
-- 
2.43.0


From b0956a6c9075123d7ad6e42b4eb87bcc52f8b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:38 +0000
Subject: [PATCH 38/46] fix: a loaded database took over the segment key of the
 dump

---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 7e3f61b..2a7295a 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -352,6 +352,7 @@ gint wg_import_dump(void * db,char fileName[]) {
       rglb = dumph->rglb;
       dumph->rglb = 0;
       dumph->size = newsize;
+      dumph->key = dbh->key;
       dumph->checksum = 0;
       memcpy(dbh, dumph, sizeof(db_memsegment_header));
     }
-- 
2.43.0


From 93057014bbcf96d3f9cce7aad7c639d65e0c6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:41 +0000
Subject: [PATCH 39/46] fix: query parameters in local memory were optimised
 away

The offset of a parameter was computed by subtracting pointers into
different objects, so the compiler took the memory of the parameter for
unused and dropped the stores to it: a query for a double, a big integer
or a string compared with whatever malloc() returned.
---
 Db/dballoc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.h b/Db/dballoc.h
index 6531ab5..1d29063 100644
--- a/Db/dballoc.h
+++ b/Db/dballoc.h
@@ -202,7 +202,7 @@ typedef __int64 gint64;    /** 64-bit fixed size storage */
 
 #define dbfetch(db,offset) (*((gint*)(dbmemsegbytes(db)+(offset)))) /** get gint from address */
 #define dbstore(db,offset,data) (*((gint*)(dbmemsegbytes(db)+(offset)))=data) /** store gint to address */
-#define dbaddr(db,realptr) ((gint)(((char*)(realptr))-dbmemsegbytes(db))) /** give offset of real adress */
+#define dbaddr(db,realptr) (((gint)(realptr))-((gint)dbmemsegbytes(db))) /** give offset of real adress */
 #define offsettoptr(db,offset) ((void*)(dbmemsegbytes(db)+(offset))) /** give real address from offset */
 #define ptrtooffset(db,realptr) (dbaddr((db),(realptr)))
 #define dbcheckh(dbh) (dbh!=NULL && *((gint32 *) dbh)==MEMSEGMENT_MAGIC_MARK) /** check that correct db ptr */
-- 
2.43.0


From 6222c9e6b524a849c9d61348e9f7c57b2192de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 40/46] fix: listing the indexes wrote past its array with
 multi-column indexes

An index on several columns was listed once per column, in an array with
room for each index once.
---
 Db/dbindex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 70fd716..a311fec 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2599,7 +2599,11 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        /* A multi-column index is in the list of each of its columns */
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        if(hdr->rec_field_index[0] == column)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From cf7c1c78e48a7a2ad7947813cdcc835b6afd5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 41/46] fix: hash indexes mixed up integers and could not hold
 URIs with a prefix

Integers were cut to 32 bits, so that searching for 5 also gave the rows
with 5 + 2^32, and the length of an URI prefix was asked for with the
function for XML literals, which fails, and -1 bytes were copied.
---
 Db/dbhash.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index c044953..d915961 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -288,7 +288,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
 
 #define CONCAT_FOR_HASHING(d, b, e, l, bb, en) \
   if(e) { \
-    gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
+    gint xl = strlen(e); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
       return 0; \
@@ -332,9 +332,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
-- 
2.43.0


From 52383ef034d430ce97cdd8a556f25a2bfb165277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 42/46] fix: a hash index wrote over the segment header when
 there was no list cell

---
 Db/dbhash.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index d915961..edca951 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -505,6 +505,14 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    if(!rec_head) {
+      /* a new, empty bucket is the first one of its chain */
+      dbstore(db, ((ha->arraystart)+(sizeof(gint) * hash)), head);
+      wg_free_object(db, &(dbh->indexhash_area_header), bucket);
+    }
+    return -1;
+  }
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 696f4e4276a7835115815e1fc6b1e9c39ef0dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 43/46] fix: a record was entered twice in an index with a
 template

wg_index_add_rec() entered it when it came to the indexed column and once
more when it came to the first column of the template, so queries gave it
twice; an index with a template is found through its column like any other.
---
 Db/dbindex.c | 88 ----------------------------------------------------
 1 file changed, 88 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index a311fec..3af9123 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2784,52 +2784,6 @@ gint wg_index_add_rec(void *db, void *rec) {
       }
       ilist = &ilistelem->cdr;
     }
-
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Here the check for a match is slightly more complicated.
-         * If there is a match *but* the current column is not the
-         * first fixed one in the template, the match has
-         * already occurred earlier.
-         */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl1;
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl1;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl1:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
@@ -2940,48 +2894,6 @@ gint wg_index_del_rec(void *db, void *rec) {
       }
       ilist = &ilistelem->cdr;
     }
-
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Similar check as in wg_index_add_rec() */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl2; /* no match */
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl2;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl2:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
-- 
2.43.0


From 075a9d7f034f3982b077bec71c858b48d33bf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 44/46] fix: creating a hash index read past the end of records
 that lack a column

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 3af9123..cd9afa3 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From c7c859eccae1555e18ecebec020dd8c3e8c5f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 45/46] fix: a query for values above and below the same value
 could return rows

With more than one tree node of that value the end of the range was found
before its beginning and all rows above the value were returned.
---
 Db/dbquery.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9135abf..6f1fa3e 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,12 +812,16 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound? A single
+     * value that is excluded from both sides leaves nothing either. */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+       (!start_inclusive && !end_inclusive &&\
+        WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL))) {
       /* return empty query */
       query->argc = 0;
       query->arglist = NULL;
+      query->res_count = 0;
       free(full_arglist);
       return query;
     }
-- 
2.43.0


From 462980f80c2dc12fc2657f5882ea1af9ec1517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:47 +0000
Subject: [PATCH 46/46] fix: a failed index creation or removal left the index
 half registered

---
 Db/dbindex.c | 153 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 105 insertions(+), 48 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index cd9afa3..9f4bd92 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -97,6 +97,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
 static gint create_hash_index(void *db, gint index_id);
 static gint drop_hash_index(void *db, gint index_id);
 
+static void unlink_index(void *db, gint index_id);
 static gint sort_columns(gint *sorted_cols, gint *columns, gint col_count);
 
 static gint show_index_error(void* db, char* errmsg);
@@ -1379,7 +1380,14 @@ static gint create_ttree_index(void *db, gint index_id){
 
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
+  TTREE_ROOT_NODE(hdr) = 0;
+#ifdef TTREE_CHAINED_NODES
+  TTREE_MIN_NODE(hdr) = 0;
+  TTREE_MAX_NODE(hdr) = 0;
+#endif
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1410,7 +1418,10 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec)) {
+        drop_ttree_index(db, index_id);
+        return -1;
+      }
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1633,12 +1644,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
@@ -1835,13 +1848,21 @@ nextelem:
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    wg_delete_record(db, rec);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_delete_record(db, rec);
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
     return 0;
+  }
 
   return template_offset;
 }
@@ -2078,6 +2099,14 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
 #endif
 
+  /* Type validation. WG_INDEX_TYPE_TTREE_JSON is an error, until proper
+   * implementation exists */
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   /* Column count validation */
   if(col_count < 1) {
     show_index_error(db, "need at least one indexed column");
@@ -2150,7 +2179,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
       if(!ilistelem->car) {
         show_index_error(db, "Invalid header in index list");
-        return -1;
+        goto fail;
       }
       hdr = (wg_index_header *) offsettoptr(db, ilistelem->car);
 
@@ -2169,7 +2198,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         }
         if(match) {
           show_index_error(db, "Identical index already exists on the column");
-          return -1;
+          goto fail;
         }
       }
 
@@ -2193,17 +2222,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    goto fail;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -2215,26 +2235,24 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   hdr->template_offset = template_offset;
 
   /* create the actual index */
-  switch(hdr->type) {
-    case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
-      break;
-    case WG_INDEX_TYPE_HASH:
-    case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
-        return -1;
-      break;
-    case WG_INDEX_TYPE_TTREE_JSON:
-      /* Return an error, until proper implementation exists */
-    default:
-      show_index_error(db, "Invalid index type");
-      return -1;
+  if(type == WG_INDEX_TYPE_TTREE) {
+    if(create_ttree_index(db, index_id))
+      goto fail_header;
+  } else {
+    if(create_hash_index(db, index_id))
+      goto fail_header;
+  }
+
+  /* Add to the lists of the columns */
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id))
+      goto fail_lists;
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-    return -1;
+    goto fail_lists;
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2248,7 +2266,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          goto fail_lists;
       }
     }
   }
@@ -2262,40 +2280,44 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 #endif
 
   return 0;
+
+fail_lists:
+  unlink_index(db, index_id);
+  if(type == WG_INDEX_TYPE_TTREE)
+    drop_ttree_index(db, index_id);
+fail_header:
+  wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+fail:
+#ifdef USE_INDEX_TEMPLATE
+  /* the template may have been made for this index only */
+  if(tmpl && !tmpl->refcount)
+    remove_index_template(db, template_offset);
+#endif
+  return -1;
 }
 
 
-/** Drop index by index id
-*
-*  returns:
-*  0 - on success
-*  -1 - error
+/** Remove an index from all the lists it is in.
+*  An index that was not yet entered in some of them may be given.
 */
-gint wg_drop_index(void *db, gint index_id){
+static void unlink_index(void *db, gint index_id) {
   int i;
-  wg_index_header *hdr = NULL;
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint *ilist;
   gcell *ilistelem;
   db_memsegment_header* dbh = dbmemsegh(db);
 
-  /* Locate the header */
+  /* Remove from master list */
   ilist = &dbh->index_control_area_header.index_list;
   while(*ilist) {
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
-      hdr = (wg_index_header *) offsettoptr(db, index_id);
-      /* Delete current element */
       delete_from_list(db, ilist);
       break;
     }
     ilist = &ilistelem->cdr;
   }
 
-  if(!hdr) {
-    show_index_error_nr(db, "Invalid index for delete", index_id);
-    return -1;
-  }
-
   /* Remove the index from index table */
   for(i=0; i<hdr->fields; i++) {
     int column = hdr->rec_field_index[i];
@@ -2335,6 +2357,41 @@ gint wg_drop_index(void *db, gint index_id){
     }
   }
 #endif
+}
+
+/** Drop index by index id
+*
+*  returns:
+*  0 - on success
+*  -1 - error
+*/
+gint wg_drop_index(void *db, gint index_id){
+  wg_index_header *hdr = NULL;
+  gint *ilist;
+  gcell *ilistelem;
+  db_memsegment_header* dbh = dbmemsegh(db);
+
+  /* Locate the header */
+  ilist = &dbh->index_control_area_header.index_list;
+  while(*ilist) {
+    ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car == index_id) {
+      hdr = (wg_index_header *) offsettoptr(db, index_id);
+      break;
+    }
+    ilist = &ilistelem->cdr;
+  }
+
+  if(!hdr) {
+    show_index_error_nr(db, "Invalid index for delete", index_id);
+    return -1;
+  }
+  if(hdr->type == WG_INDEX_TYPE_HASH || hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+    /* cannot be dropped, so it stays as it is */
+    return drop_hash_index(db, index_id);
+  }
+
+  unlink_index(db, index_id);
 
   /* Drop the index */
   switch(hdr->type) {
-- 
2.43.0

