From 68d878a4b7eb7c0360cb1bb0a64a74f3b19fb0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 01/64] verification hook: GKC_VERIF_SMALL shrinks the reasoner
 hash tables (off by default)

---
 Reasoner/glb.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index c4651e3..18e16e5 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -136,6 +136,19 @@
 
 // #define SHARED_DERIVED  // if set, keep some clauses over different passes
 
+#ifdef GKC_VERIF_SMALL
+/* Verification builds only (never defined in a normal build): small tables, so that
+   a run starts and ends in microseconds and hash buckets are really shared. */
+#undef NROF_CLTERM_HASHVEC_ELS
+#define NROF_CLTERM_HASHVEC_ELS 500
+#undef NROF_ACTIVE_UNIT_HASHVEC_ELS
+#define NROF_ACTIVE_UNIT_HASHVEC_ELS 500
+#undef NROF_ATOM_OCCURRENCES_HASHVEC_ELS
+#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 500
+#undef MAX_CLPRIOR
+#define MAX_CLPRIOR 2000
+#endif
+
 /* ======== Structures ========== */
 
 /** glb contains global values for requests.
-- 
2.43.0


From 17d62e191aa8a60e1a2819602f6c90d327eaec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:34 +0000
Subject: [PATCH 02/64] fix: second derived contradiction no longer compares
 against a NULL answer clause (crash)

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..1b0040b 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2548,6 +2548,8 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
+  // an empty clause (contradiction) is registered as NULL
+  if (cl1==NULL || cl2==NULL) return (cl1==cl2);
   // check fact clause cases first
   if (!wg_rec_is_rule_clause(db,cl1)) {
     if (!wg_rec_is_rule_clause(db,cl2)) {
-- 
2.43.0


From 46de5f859dce408215d0cb359268d3e9af48ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:59 +0000
Subject: [PATCH 03/64] fix: ground double stored from the permanent active
 clause, not the reused given buffer (cyclic history crash)

---
 Reasoner/rgenloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..1f78b0a 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -452,7 +452,7 @@ int wr_genloop(glb* g) {
       continue; 
     }    
     if (simplen!=origlen && simplen==2) {
-      wr_add_cl_to_doublehash(g,given_cl);
+      wr_add_cl_to_doublehash(g,given_cl_as_active); // given_cl lives in a reused buffer
     }  
      
     // do factorizations with the given clause
-- 
2.43.0


From a132185474a6fab69f065c1e45241e377e52f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 04/64] fix: overweight partial hyperresolvent restored the
 wrong buffer's free index (queued clauses overwritten, crash)

---
 Reasoner/derive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..8592c40 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -100,6 +100,7 @@ void wr_process_resolve_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  cvec initial_build_buffer;
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -254,6 +255,7 @@ void wr_process_resolve_result
     wr_process_resolve_result_setupquecopy(g); // use g->queue_termbuf as g->build_buffer
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
   }  
+  initial_build_buffer=g->build_buffer; // doublecut below may switch g->build_buffer
 
   history=wr_build_resolve_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
@@ -358,7 +360,7 @@ void wr_process_resolve_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      CVEC_NEXT(initial_build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
-- 
2.43.0


From 0ede5ac8e61a467b2bf72cae709755404eb51be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:44 +0000
Subject: [PATCH 05/64] fix: terminate the strategy text when it is cut to
 MAX_GUIDETEXT_LEN (read past the buffer)

---
 Reasoner/rmain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..51fe842 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -537,7 +537,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
-- 
2.43.0


From 534c217ae0fc0a694cfe2f410a6de9bc0dd07217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 06/64] fix: a worker process ended by a signal no longer makes
 the parent loop forever

---
 Reasoner/rmain.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 51fe842..11fd341 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -47,6 +47,7 @@
 #else
 #include "../Parser/dbparse.h"
 #endif
+#include <errno.h>
 #include <sys/wait.h> 
 #include <unistd.h> 
 //#include <sys/signal.h>
@@ -337,16 +338,20 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
         }          
       }       
       cpid=waitpid(-1,&stat, 0);
+      if (cpid<0) {
+        if (errno==EINTR) continue;
+        break; // no children left to wait for
+      }
 
       //printf("\nwaitpid ended for cpid %d\n",cpid);
       //fflush(stdout);
 
-      if (WIFEXITED(stat)) {
+      if (WIFEXITED(stat) || WIFSIGNALED(stat)) {
 
         //printf("\nWIFEXITED(stat) true for cpid %d\n",cpid);
         //fflush(stdout);
 
-        err = WEXITSTATUS(stat);
+        err = (WIFEXITED(stat) ? WEXITSTATUS(stat) : 1); // killed: no proof from this one
 
         //printf("Child inside subprocess checking %d terminated with status err: %d\n", cpid, err); 
         //fflush(stdout);
-- 
2.43.0


From c538643f994a263211093a31a409d0bcbf39eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:13 +0000
Subject: [PATCH 07/64] fix: keep the terminator of a long input file name
 (read past the buffer)

---
 Reasoner/rmain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 11fd341..3bb2ae9 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -599,7 +599,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1070,7 +1070,7 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
     strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
   if (outfilename) (g->outfilename)=outfilename;    
-- 
2.43.0


From 32d93bed03abc5d3a0d6f7f4dc828f038dd219bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 08/64] fix: freeing an object next to a free one compared a
 wrong size

wg_free_object took the size of the previous free object from its offset
instead of its header, so the free was refused as corruption.
---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 546e8db..dca9ccb 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1263,7 +1263,7 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     prevobjectsize=getfreeobjectsize(dbfetch(db,(object-sizeof(gint))));
     prevobject=object-prevobjectsize;
     prevobjecthead=dbfetch(db,prevobject);
-    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobject)!=prevobjectsize) {
+    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobjecthead)!=prevobjectsize) {
       show_dballoc_error(db,"wg_free_object notices corruption: previous object is not ok free object");
       return -4; // corruption noticed
     }
-- 
2.43.0


From c7fe2263b091c4e87ab6c8afaa8d62790bf86a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 09/64] fix: mark the next object when a varlen bucket object
 fits exactly

An exact-size object taken from a variable length bucket left the next
object marked as following a free one; freeing that object merged it with
the live one.
---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index dca9ccb..796ae1c 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1015,6 +1015,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
         if (nextel!=0) dbstore(db,nextel+2*sizeof(gint),dbaddr(db,&freebuckets[i]));
         // prev elem cannot be free (no consecutive free elems)
         dbstore(db,res,makeusedobjectsizeprevused(wantedbytes)); // store wanted size to the returned object
+        /* next object should be marked as "prev used" */
+        nextobject=res+usedbytes;
+        tmp=dbfetch(db,nextobject);
+        if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
         return res;
       } else if (size>=usedbytes+MIN_VARLENOBJ_SIZE) {
         // found one somewhat larger: now split and store the rest
-- 
2.43.0


From 92670b24ff8a52278e6f009a279d5260b690e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 10/64] verification hook: GKC_VERIF_SMALL shrinks the index
 tree nodes (off by default)

---
 Db/dballoc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dballoc.h b/Db/dballoc.h
index 6531ab5..8d7f750 100644
--- a/Db/dballoc.h
+++ b/Db/dballoc.h
@@ -269,6 +269,11 @@ gcell;
 #else
 #define WG_TNODE_ARRAY_SIZE 8
 #endif
+#ifdef GKC_VERIF_SMALL
+/* small tree nodes for exhaustive exploration of tree shapes */
+#undef WG_TNODE_ARRAY_SIZE
+#define WG_TNODE_ARRAY_SIZE 3
+#endif
 
 /* logging related */
 #define maxnumberoflogrows 10
-- 
2.43.0


From 2efd455f7c434f7fe9a5ded614ea3e9073786c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 11/64] fix: an index query with two bounds at one value
 returns no rows unless both are inclusive

---
 Db/dbquery.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9135abf..40ebf63 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,12 +812,16 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound, or are
+     * they equal without both being included in the range? */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+       (WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL &&\
+        !(start_inclusive && end_inclusive)))) {
       /* return empty query */
       query->argc = 0;
       query->arglist = NULL;
+      query->res_count = 0;
       free(full_arglist);
       return query;
     }
-- 
2.43.0


From ffb702380c4eea9a407425d89e513122d947ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 12/64] fix: hash indexes use all bits of a number

---
 Db/dbhash.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index c044953..ac1aca9 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -332,9 +332,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -378,9 +378,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_var(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From 6ccdd6bf66f2b3f4425acb691dec2e51e7915165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 13/64] fix: equal zeros have one key in a hash index

---
 Db/dbhash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index ac1aca9..95c4def 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -339,6 +339,8 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* -0.0 and 0.0 are equal values */
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
-- 
2.43.0


From d8a5a7d50aa37e36d5543d92b37e5dda88ea3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 14/64] fix: a record enters an index with a template once

---
 Db/dbindex.c | 86 ----------------------------------------------------
 1 file changed, 86 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 70fd716..d0b98fb 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2781,51 +2781,6 @@ gint wg_index_add_rec(void *db, void *rec) {
       ilist = &ilistelem->cdr;
     }
 
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Here the check for a match is slightly more complicated.
-         * If there is a match *but* the current column is not the
-         * first fixed one in the template, the match has
-         * already occurred earlier.
-         */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl1;
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl1;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl1:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
@@ -2937,47 +2892,6 @@ gint wg_index_del_rec(void *db, void *rec) {
       ilist = &ilistelem->cdr;
     }
 
-#ifdef USE_INDEX_TEMPLATE
-    ilist = &dbh->index_control_area_header.index_template_table[i];
-    while(*ilist) {
-      ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        wg_index_header *hdr = \
-          (wg_index_header *) offsettoptr(db, ilistelem->car);
-        wg_index_template *tmpl = \
-          (wg_index_template *) offsettoptr(db, hdr->template_offset);
-        void *matchrec;
-        gint mreclen;
-        int j, firstmatch = -1;
-
-        /* Similar check as in wg_index_add_rec() */
-        matchrec = offsettoptr(db, tmpl->offset_matchrec);
-        mreclen = wg_get_record_len(db, matchrec);
-        if(mreclen > reclen) {
-          goto nexttmpl2; /* no match */
-        }
-        for(j=0; j<mreclen; j++) {
-          gint enc = wg_get_field(db, matchrec, j);
-          if(wg_get_encoded_type(db, enc) != WG_VARTYPE) {
-            if(WG_COMPARE(db, enc, wg_get_field(db, rec, j)) != WG_EQUAL)
-              goto nexttmpl2;
-            if(firstmatch < 0)
-              firstmatch = j;
-          }
-        }
-        if(firstmatch==i &&\
-          reclen > hdr->rec_field_index[hdr->fields - 1]) {
-          /* The record matches AND this is the first time we
-           * see this index. Update it.
-           */
-          INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
-        }
-      }
-nexttmpl2:
-      ilist = &ilistelem->cdr;
-    }
-#endif
-
   }
   return 0;
 }
-- 
2.43.0


From a06f83b2e12149b60847b64252472eda9462bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 15/64] fix: initialise the reference count of an index
 template

---
 Db/dbindex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d0b98fb..3e33d0c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1838,6 +1838,7 @@ nextelem:
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset))
-- 
2.43.0


From 6c51df854d433b1f40a1d6a8c017cad2d2168f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 16/64] fix: wg_get_all_indexes returns a multi-column index
 once

---
 Db/dbindex.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 3e33d0c..9f96f3c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2577,7 +2577,6 @@ void * wg_get_index_template(void *db, gint index_id, gint *reclen) {
 * Returns NULL if there are no indexes.
 */
 void * wg_get_all_indexes(void *db, gint *count) {
-  int column;
   db_memsegment_header* dbh = dbmemsegh(db);
   gint *ilist;
   gint *res;
@@ -2595,15 +2594,19 @@ void * wg_get_all_indexes(void *db, gint *count) {
     return NULL;
   }
 
-  for(column=0; column<=MAX_INDEXED_FIELDNR; column++) {
-    ilist = &dbh->index_control_area_header.index_table[column];
-    while(*ilist) {
-      gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
-      if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+  /* The master list has each index once, index_table has it once
+   * for each of its columns. */
+  ilist = &dbh->index_control_area_header.index_list;
+  while(*ilist) {
+    gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car) {
+      if(*count == dbh->index_control_area_header.number_of_indexes) {
+        *count += 1;
+        break;
       }
-      ilist = &ilistelem->cdr;
+      res[(*count)++] = ilistelem->car;
     }
+    ilist = &ilistelem->cdr;
   }
 
   if(*count != dbh->index_control_area_header.number_of_indexes) {
-- 
2.43.0


From 2582e127d8adcae38d57d0b0eec8173c96133c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 17/64] fix: compute offsets from addresses, not by subtracting
 unrelated pointers

---
 Db/dballoc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.h b/Db/dballoc.h
index 8d7f750..a61ab9d 100644
--- a/Db/dballoc.h
+++ b/Db/dballoc.h
@@ -202,7 +202,7 @@ typedef __int64 gint64;    /** 64-bit fixed size storage */
 
 #define dbfetch(db,offset) (*((gint*)(dbmemsegbytes(db)+(offset)))) /** get gint from address */
 #define dbstore(db,offset,data) (*((gint*)(dbmemsegbytes(db)+(offset)))=data) /** store gint to address */
-#define dbaddr(db,realptr) ((gint)(((char*)(realptr))-dbmemsegbytes(db))) /** give offset of real adress */
+#define dbaddr(db,realptr) (((gint)(realptr))-((gint)dbmemsegbytes(db))) /** give offset of real adress */
 #define offsettoptr(db,offset) ((void*)(dbmemsegbytes(db)+(offset))) /** give real address from offset */
 #define ptrtooffset(db,realptr) (dbaddr((db),(realptr)))
 #define dbcheckh(dbh) (dbh!=NULL && *((gint32 *) dbh)==MEMSEGMENT_MAGIC_MARK) /** check that correct db ptr */
-- 
2.43.0


From ec11150c8f94b5504fc8d195c06cbef36930d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 18/64] fix: keep an index id in a gint when choosing the index
 of a query

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 40ebf63..1f9b943 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -140,7 +140,7 @@ static gint most_restricting_column(void *db,
   struct column_score {
     gint column;
     int score;
-    int index_id;
+    gint index_id;
   };
   struct column_score *sc;
   int i, j, mrc_score = -1;
-- 
2.43.0


From b604ccbe79189686041b1d241008ba9738f49004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 19/64] fix: wait for the queued lock again after an
 interrupted or stray wake-up

---
 Db/dblock.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index b2b574d..5306b0f 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1030,15 +1030,20 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* the wait also ends when interrupted or woken by a late wake-up
+     * meant for the previous owner of the cell */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1149,15 +1154,20 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* the wait also ends when interrupted or woken by a late wake-up
+     * meant for the previous owner of the cell */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From caa1c284cc4a1d67828fbbd8a28dae4ece65dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 20/64] fix: keep the queued lock when it is passed on while
 the wait times out

---
 Db/dblock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index 5306b0f..82b5d70 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1035,6 +1035,10 @@ gint db_tfqueue_wlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* got the lock in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
@@ -1159,6 +1163,10 @@ gint db_tfqueue_rlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* got the lock in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
-- 
2.43.0


From 50fe72ff643470240e21e836632399278cf35451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 21/64] fix: -writekb crashed taking a lock in the read-only
 attached kb

---
 Main/gkc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..b8c9d1b 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -730,7 +730,7 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
+     int flags = FLAGS_FORCE; // the kb is attached read-only: it cannot be locked
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
-- 
2.43.0


From 379c10a8ded3dc54ec69f6694bb878ced755643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 22/64] fix: -loadkb could not replace an existing shared kb

---
 Main/gkc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index b8c9d1b..03f8d68 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -775,6 +775,7 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
+    wg_delete_database(shmname); // an existing segment would be attached read-only
     shmptr=wg_attach_memsegment(shmname, minsize, maxsize, 1,
       (flags & FLAGS_LOGGING), 0);
     if(!shmptr) {
-- 
2.43.0


From 6e4b574b1018199cae51c2f54eaff59eb20ae3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 23/64] fix: report a dump as failed when its last part cannot
 be written

---
 Db/dbdump.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..489d6e9 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -174,8 +174,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
+  if(fclose(f) && !err) {
+    show_dump_error(db, "Error writing file");
+    err = -1;
+  }
 
   return err;
 }
-- 
2.43.0


From 8b367bb1fa991f629fe47aee10ef27d877536a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 24/64] fix: read the size of the database to dump after
 locking it

---
 Db/dbdump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 489d6e9..ba2357c 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -134,6 +134,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
-- 
2.43.0


From c0c0bd6d230c277b2c6f5b9b11c26c9d6d091cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 25/64] fix: an index that could not be created is not left in
 the column lists

---
 Db/dbindex.c | 54 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 9f96f3c..8178523 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1380,6 +1380,10 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node) {
+    show_index_error(db, "Failed to allocate index root node");
+    return -1;
+  }
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1718,15 +1722,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
@@ -2049,7 +2053,7 @@ gint wg_create_index(void *db, gint column, gint type,
 gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   gint *matchrec, gint reclen)
 {
-  gint index_id, template_offset = 0, i;
+  gint index_id, template_offset = 0, i, err = 0;
   wg_index_header *hdr;
 #ifdef USE_INDEX_TEMPLATE
   wg_index_template *tmpl = NULL;
@@ -2194,16 +2198,9 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
+  if(!index_id) {
+    show_index_error(db, "Failed to allocate index header");
+    return -1;
   }
 
   /* Set up the header */
@@ -2218,18 +2215,33 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      err = create_ttree_index(db, index_id);
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
-        return -1;
+      err = create_hash_index(db, index_id);
       break;
     case WG_INDEX_TYPE_TTREE_JSON:
       /* Return an error, until proper implementation exists */
     default:
       show_index_error(db, "Invalid index type");
-      return -1;
+      err = -1;
+      break;
+  }
+
+  /* An index that could not be created must not be found from the
+   * lists, so it is added to the column lists last.
+   */
+  for(i=0; !err && i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id)) {
+      while(--i >= 0)
+        delete_from_list(db, ilist[i]);
+      err = -1;
+    }
+  }
+  if(err) {
+    wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+    return -1;
   }
 
   /* Add to master list */
-- 
2.43.0


From 321fc85578b7a78b1728f38d3628d10d161097fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 26/64] fix: read the JSON propositional atom ["p"] as the
 proposition p

---
 Builtparser/jsparse.c | 4 ++++
 Parser/jsparse.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..47a75e0 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1552,6 +1552,10 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       newlogconn=MKWGURILEN(pp,"or",2);
       preres=wg_mkpair(db,mpool,newlogconn,cl); 
       preres=wr_process_json_formula_aux(g,pp,preres);      
+    } else if (!r1 && wg_isatom(db,head) && wg_atomtype(db,head)==WG_URITYPE &&
+               !wr_json_isvar(g,pp,head)) {
+      // propositional atom ["p"] is the same as "p"
+      preres=wr_process_json_formula_aux(g,pp,head);
     } else {     
       preres=wr_process_json_term(g,pp,cl,1,0);
     }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..47a75e0 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1552,6 +1552,10 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       newlogconn=MKWGURILEN(pp,"or",2);
       preres=wg_mkpair(db,mpool,newlogconn,cl); 
       preres=wr_process_json_formula_aux(g,pp,preres);      
+    } else if (!r1 && wg_isatom(db,head) && wg_atomtype(db,head)==WG_URITYPE &&
+               !wr_json_isvar(g,pp,head)) {
+      // propositional atom ["p"] is the same as "p"
+      preres=wr_process_json_formula_aux(g,pp,head);
     } else {     
       preres=wr_process_json_term(g,pp,cl,1,0);
     }
-- 
2.43.0


From e46d01bc4c1e30abf0128c455fa18428736258b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:41 +0000
Subject: [PATCH 27/64] fix: exit with 0 after converting a JSON file to TPTP

---
 Builtparser/jsparse.c | 1 +
 Parser/jsparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 47a75e0..e067550 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -328,6 +328,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
+  if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp) && pp.result!=NULL && !(g->parse_errflag)) return 0;
   if (pres2==NULL) return 1;
   else return 0;  
 }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 47a75e0..e067550 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -328,6 +328,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
+  if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp) && pp.result!=NULL && !(g->parse_errflag)) return 0;
   if (pres2==NULL) return 1;
   else return 0;  
 }
-- 
2.43.0


From d7b879fae817a45a0cc3ca6cb5aa644ca014b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 28/64] fix: read annotated TPTP formulas with a source and
 useful info

---
 Builtparser/dbparse.c | 6 ++++--
 Parser/dbparse.c      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..20af95c 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -669,7 +669,8 @@ int wr_is_tptp_cnf_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // the source and useful info are optional
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -679,7 +680,8 @@ int wr_is_tptp_fof_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // the source and useful info are optional
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;  
   return 1;
 }
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..20af95c 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -669,7 +669,8 @@ int wr_is_tptp_cnf_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // the source and useful info are optional
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -679,7 +680,8 @@ int wr_is_tptp_fof_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // the source and useful info are optional
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;  
   return 1;
 }
 
-- 
2.43.0


From 65e94f466c0249f81f796d05cd7844d9d5b2b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 29/64] fix: resolve every include relative to the file it
 stands in

---
 Builtparser/dbparse.c | 3 +++
 Builtparser/jsparse.c | 3 +++
 Parser/dbparse.c      | 3 +++
 Parser/jsparse.c      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 20af95c..71bfef8 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -980,6 +980,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   void* db=g->db;
   void* pathatom;
   char* str;
+  char* thisfilename;
   char* filename=NULL;
   FILE* fp;
   int bytes;
@@ -1077,7 +1078,9 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  thisfilename=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
+  (g->filename)=thisfilename; // the next include is relative to this file again
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index e067550..cc8f124 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -951,6 +951,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   void* db=g->db;
   void* pathatom;
   char* str;
+  char* thisfilename;
   char* filename=NULL;
   FILE* fp;
   int bytes;
@@ -1047,6 +1048,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  thisfilename=(g->filename);
   if (wg_is_jsfile(db,filename)) {
     wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
   } else {
@@ -1065,6 +1067,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     }
     wr_import_otter_file(g,filename,NULL,clvec,1);
   }
+  (g->filename)=thisfilename; // the next include is relative to this file again
   return NULL;
 }
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 20af95c..71bfef8 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -980,6 +980,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   void* db=g->db;
   void* pathatom;
   char* str;
+  char* thisfilename;
   char* filename=NULL;
   FILE* fp;
   int bytes;
@@ -1077,7 +1078,9 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  thisfilename=(g->filename);
   wr_import_otter_file(g,filename,NULL,NULL,1);  
+  (g->filename)=thisfilename; // the next include is relative to this file again
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index e067550..cc8f124 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -951,6 +951,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   void* db=g->db;
   void* pathatom;
   char* str;
+  char* thisfilename;
   char* filename=NULL;
   FILE* fp;
   int bytes;
@@ -1047,6 +1048,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  thisfilename=(g->filename);
   if (wg_is_jsfile(db,filename)) {
     wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
   } else {
@@ -1065,6 +1067,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     }
     wr_import_otter_file(g,filename,NULL,clvec,1);
   }
+  (g->filename)=thisfilename; // the next include is relative to this file again
   return NULL;
 }
 
-- 
2.43.0


From 0caf2b1af76ba47970b0cac2a21535b45602b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 30/64] fix: accept a file whose only clauses come from the
 files it includes

---
 Builtparser/dbparse.c | 4 ++++
 Builtparser/jsparse.c | 4 ++++
 Parser/dbparse.c      | 4 ++++
 Parser/jsparse.c      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 71bfef8..44a5a8a 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  gint oldclauselist=(dbmemsegh(db)->clauselist);
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -278,6 +279,9 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  // clauses of included files count as well
+  if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag) &&
+      (dbmemsegh(db)->clauselist)!=oldclauselist) return 0;
   if (!pres && pres2==NULL && !(g->parse_errmsg)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index cc8f124..4422790 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -195,6 +195,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* pres2=NULL;
   void *mpool;
   int i,tmp_comp_funs;
+  gint oldclauselist=(dbmemsegh(db)->clauselist);
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -329,6 +330,9 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
   if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp) && pp.result!=NULL && !(g->parse_errflag)) return 0;
+  // clauses of included files count as well
+  if (pres2==NULL && !(g->parse_errflag) &&
+      (dbmemsegh(db)->clauselist)!=oldclauselist) return 0;
   if (pres2==NULL) return 1;
   else return 0;  
 }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 71bfef8..44a5a8a 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  gint oldclauselist=(dbmemsegh(db)->clauselist);
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -278,6 +279,9 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  // clauses of included files count as well
+  if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag) &&
+      (dbmemsegh(db)->clauselist)!=oldclauselist) return 0;
   if (!pres && pres2==NULL && !(g->parse_errmsg)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index cc8f124..4422790 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -195,6 +195,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* pres2=NULL;
   void *mpool;
   int i,tmp_comp_funs;
+  gint oldclauselist=(dbmemsegh(db)->clauselist);
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -329,6 +330,9 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
   if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp) && pp.result!=NULL && !(g->parse_errflag)) return 0;
+  // clauses of included files count as well
+  if (pres2==NULL && !(g->parse_errflag) &&
+      (dbmemsegh(db)->clauselist)!=oldclauselist) return 0;
   if (pres2==NULL) return 1;
   else return 0;  
 }
-- 
2.43.0


From a4a3487b060d47c7fca6df82b1af38aa1ba94f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 31/64] fix: do not print parser internals for a text file
 included from JSON

---
 Builtparser/jsparse.c | 2 --
 Parser/jsparse.c      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 4422790..2cfdae0 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -205,8 +205,6 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
-  (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 4422790..2cfdae0 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -205,8 +205,6 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
-  (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
-- 
2.43.0


From 240280c03fb456d968478893bad477f5eb4052ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 32/64] fix: end a quoted symbol in the printing buffer with a
 zero byte

Converting a formula which is a lone proposition to JSON printed
whatever the printing buffer held behind the symbol.
---
 Printer/dbotterprint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..52cd60d 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1213,6 +1213,7 @@ int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uni
   }  
   *((*buf)+pos+i)='"';
   i++;
+  if (pos+i<len) *((*buf)+pos+i)=0; // the text so far may be printed as is
   //printf("\n i %d\n",i);
   if (negflag) return i+1+(uniqueflag ? 2 : 0);
   else return i+(uniqueflag ? 2 : 0);
-- 
2.43.0


From 1c50c02089f331f835f26cfdfe3f99c155bda43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:05 +0000
Subject: [PATCH 33/64] fix: expand lists inside atoms and terms when
 converting

A list inside an atom was printed by -convert in an internal form which
cannot be read again.
---
 Builtparser/dbparse.c | 2 ++
 Parser/dbparse.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 44a5a8a..1fdd2d2 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -768,6 +768,8 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
           expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
         }
         *((gint*)part)=(gint)expanded;
+      } else {
+        wg_expand_frm_for_print(db,mpool,term);
       }
     } else {
       wg_expand_frm_for_print(db,mpool,term);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 44a5a8a..1fdd2d2 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -768,6 +768,8 @@ void wg_expand_frm_for_print(void* db, void* mpool, void* frm) {
           expanded=wg_expand_frm_for_print_aux(db,mpool,wg_first(db,wg_rest(db,term)));
         }
         *((gint*)part)=(gint)expanded;
+      } else {
+        wg_expand_frm_for_print(db,mpool,term);
       }
     } else {
       wg_expand_frm_for_print(db,mpool,term);
-- 
2.43.0


From 62423fd13b76fdafcdcd3999aa1f2f140c3452d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:59 +0000
Subject: [PATCH 34/64] fix: read quoted symbols of any length

A symbol or string in quotes with 1024 or more characters was written
over the end of a static buffer in the lexer.
---
 Builtparser/dbotter.yy.c | 191 +++++++++++++++++++++------------------
 Parser/dbotter.l         |  59 ++++++++----
 2 files changed, 144 insertions(+), 106 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..ac34ffc 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,10 +834,29 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char *elmparsestrbuf;   /* the quoted symbol being read, grows as needed */
+static size_t elmparsestrlen;
+static size_t elmparsestrsize;
+
+static void elmparsestr_add(char c) {
+  size_t size;
+  char *tmp;
+
+  if (elmparsestrlen+2>elmparsestrsize) {
+    size=elmparsestrsize ? elmparsestrsize*2 : 1024;
+    tmp=realloc(elmparsestrbuf,size);
+    if (!tmp) {
+      printf("{\"error\": \"out of memory reading a quoted symbol\"}\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=size;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+  elmparsestrbuf[elmparsestrlen]=0;
+}
 
-#line 841 "Parser/dbotter.yy.c"
+#line 860 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -845,7 +864,7 @@ static char *s;
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 849 "Parser/dbotter.yy.c"
+#line 868 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1120,10 +1139,10 @@ YY_DECL
 		}
 
 	{
-#line 127 "Parser/dbotter.l"
+#line 146 "Parser/dbotter.l"
 
 
-#line 1127 "Parser/dbotter.yy.c"
+#line 1146 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1194,7 +1213,7 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 129 "Parser/dbotter.l"
+#line 148 "Parser/dbotter.l"
 {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
@@ -1203,7 +1222,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 135 "Parser/dbotter.l"
+#line 154 "Parser/dbotter.l"
 {
               parseprintf( "an neq: %s", yytext);
               *yylval=yytext;	      
@@ -1212,7 +1231,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 142 "Parser/dbotter.l"
+#line 161 "Parser/dbotter.l"
 {
               parseprintf( "an eq: %s", yytext);
               *yylval=yytext;	      
@@ -1221,7 +1240,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 148 "Parser/dbotter.l"
+#line 167 "Parser/dbotter.l"
 {
               parseprintf( "an rimp: %s", yytext);
               *yylval=yytext;	      
@@ -1230,7 +1249,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 154 "Parser/dbotter.l"
+#line 173 "Parser/dbotter.l"
 {
               parseprintf( "an limp: %s", yytext);
               *yylval=yytext;	      
@@ -1239,7 +1258,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 160 "Parser/dbotter.l"
+#line 179 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1248,7 +1267,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 166 "Parser/dbotter.l"
+#line 185 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1257,7 +1276,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 172 "Parser/dbotter.l"
+#line 191 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1266,7 +1285,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 178 "Parser/dbotter.l"
+#line 197 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1275,7 +1294,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 184 "Parser/dbotter.l"
+#line 203 "Parser/dbotter.l"
 {
               parseprintf( "an @: %s", yytext);
               *yylval=yytext;	      
@@ -1284,7 +1303,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 190 "Parser/dbotter.l"
+#line 209 "Parser/dbotter.l"
 {
               parseprintf( "an emptystring: %s", yytext);
               *yylval="$emptystr";	      
@@ -1293,7 +1312,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 196 "Parser/dbotter.l"
+#line 215 "Parser/dbotter.l"
 { parseprintf( "An integer: %s (%d)\n",yytext,atoi(yytext));	           
               *yylval=yytext;              
               return TINT; 
@@ -1301,7 +1320,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 200 "Parser/dbotter.l"
+#line 219 "Parser/dbotter.l"
 {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
@@ -1310,7 +1329,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 206 "Parser/dbotter.l"
+#line 225 "Parser/dbotter.l"
 {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
@@ -1319,7 +1338,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 212 "Parser/dbotter.l"
+#line 231 "Parser/dbotter.l"
 {
               parseprintf( "A time: %s\n", yytext);			  
 	            *yylval=yytext; 
@@ -1328,38 +1347,38 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+#line 237 "Parser/dbotter.l"
+{ BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+#line 238 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+#line 239 "Parser/dbotter.l"
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+#line 240 "Parser/dbotter.l"
+{ elmparsestr_add('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
+#line 241 "Parser/dbotter.l"
+{ BEGIN 0; 
+                  parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
+		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return UNIQUEURI;
                 } 
 	YY_BREAK
 case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
-#line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+#line 246 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1367,43 +1386,43 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+#line 251 "Parser/dbotter.l"
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+#line 254 "Parser/dbotter.l"
+{ BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+#line 255 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+#line 256 "Parser/dbotter.l"
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+#line 257 "Parser/dbotter.l"
+{ elmparsestr_add('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
+#line 258 "Parser/dbotter.l"
+{ BEGIN 0; 
+                  parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
+		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return CONSTURI;
                 } 
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-#line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+#line 263 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1411,38 +1430,38 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+#line 268 "Parser/dbotter.l"
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 252 "Parser/dbotter.l"
+#line 271 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 254 "Parser/dbotter.l"
+#line 273 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 255 "Parser/dbotter.l"
+#line 274 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-#line 256 "Parser/dbotter.l"
+#line 275 "Parser/dbotter.l"
 ;
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 257 "Parser/dbotter.l"
+#line 276 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 259 "Parser/dbotter.l"
+#line 278 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1451,7 +1470,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 265 "Parser/dbotter.l"
+#line 284 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1460,7 +1479,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 271 "Parser/dbotter.l"
+#line 290 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
@@ -1470,106 +1489,106 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 277 "Parser/dbotter.l"
+#line 296 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 281 "Parser/dbotter.l"
+#line 300 "Parser/dbotter.l"
 { } /* eat up line comment until end of line */
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 283 "Parser/dbotter.l"
+#line 302 "Parser/dbotter.l"
 return '-';
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 284 "Parser/dbotter.l"
+#line 303 "Parser/dbotter.l"
 return '~';
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 285 "Parser/dbotter.l"
+#line 304 "Parser/dbotter.l"
 return '|';
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 286 "Parser/dbotter.l"
+#line 305 "Parser/dbotter.l"
 return ')';
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 287 "Parser/dbotter.l"
+#line 306 "Parser/dbotter.l"
 return '(';
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 288 "Parser/dbotter.l"
+#line 307 "Parser/dbotter.l"
 return '}';
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 289 "Parser/dbotter.l"
+#line 308 "Parser/dbotter.l"
 return '{';
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 290 "Parser/dbotter.l"
+#line 309 "Parser/dbotter.l"
 return ',';
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 291 "Parser/dbotter.l"
+#line 310 "Parser/dbotter.l"
 return '.';
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 293 "Parser/dbotter.l"
+#line 312 "Parser/dbotter.l"
 return ']';
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 294 "Parser/dbotter.l"
+#line 313 "Parser/dbotter.l"
 return '[';
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 295 "Parser/dbotter.l"
+#line 314 "Parser/dbotter.l"
 return '!';
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 296 "Parser/dbotter.l"
+#line 315 "Parser/dbotter.l"
 return '?';
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 297 "Parser/dbotter.l"
+#line 316 "Parser/dbotter.l"
 return ':';
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 298 "Parser/dbotter.l"
+#line 317 "Parser/dbotter.l"
 return '&';
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 300 "Parser/dbotter.l"
+#line 319 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 301 "Parser/dbotter.l"
+#line 320 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 303 "Parser/dbotter.l"
+#line 322 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
@@ -1577,20 +1596,20 @@ case YY_STATE_EOF(COMMENT):
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 308 "Parser/dbotter.l"
+#line 327 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 310 "Parser/dbotter.l"
+#line 329 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 313 "Parser/dbotter.l"
+#line 332 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1594 "Parser/dbotter.yy.c"
+#line 1613 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2738,7 +2757,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 313 "Parser/dbotter.l"
+#line 332 "Parser/dbotter.l"
 
 
 
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..dc00aca 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,27 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+static char *elmparsestrbuf;   /* the quoted symbol being read, grows as needed */
+static size_t elmparsestrlen;
+static size_t elmparsestrsize;
+
+static void elmparsestr_add(char c) {
+  size_t size;
+  char *tmp;
+
+  if (elmparsestrlen+2>elmparsestrsize) {
+    size=elmparsestrsize ? elmparsestrsize*2 : 1024;
+    tmp=realloc(elmparsestrbuf,size);
+    if (!tmp) {
+      printf("{\"error\": \"out of memory reading a quoted symbol\"}\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=size;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+  elmparsestrbuf[elmparsestrlen]=0;
+}
 
 %}
 
@@ -215,38 +234,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
+\"              { BEGIN STRSTATE; elmparsestrlen=0; } 
+<STRSTATE>\\n   { elmparsestr_add('\n'); } 
+<STRSTATE>\\t   { elmparsestr_add('\t'); } 
+<STRSTATE>\\\"  { elmparsestr_add('\"'); } 
+<STRSTATE>\"    { BEGIN 0; 
+                  parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
+		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { elmparsestr_add(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
-                  parseprintf("found '%s'\n", elmparsestrbuf); 
-		              *yylval=elmparsestrbuf;
+\'              { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
+<QUOTESTATE>\\n   { elmparsestr_add('\n'); } 
+<QUOTESTATE>\\t   { elmparsestr_add('\t'); } 
+<QUOTESTATE>\\\'  { elmparsestr_add('\''); } 
+<QUOTESTATE>\'    { BEGIN 0; 
+                  parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
+		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { elmparsestr_add(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From a511f66b9f514bc7fa694791448fd1f1d495d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 35/64] fix: read a double backslash in a quoted symbol as a
 backslash

There was no way to write a symbol ending with a backslash, which JSON
input can contain.
---
 Builtparser/dbotter.yy.c | 331 ++++++++++++++++++++-------------------
 Parser/dbotter.l         |   2 +
 2 files changed, 174 insertions(+), 159 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index ac34ffc..ab6c6f2 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -580,8 +580,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 59
-#define YY_END_OF_BUFFER 60
+#define YY_NUM_RULES 61
+#define YY_END_OF_BUFFER 62
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -589,19 +589,20 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[100] =
+static const flex_int16_t yy_accept[102] =
     {   0,
-        0,    0,    0,    0,    0,    0,   31,   31,   60,   58,
-       57,   38,   51,   16,   58,   39,   54,   23,   44,   43,
-       55,   56,   47,   40,   48,    1,   12,   53,    1,    3,
-        1,   52,   10,   35,   50,   49,   46,   42,   45,   41,
-       22,   21,   20,   22,   29,   28,   27,   29,   31,   33,
-       32,   57,   38,    1,    2,   36,   39,   11,   30,    0,
-       12,    5,    0,    4,   37,   35,    8,    9,   19,   17,
-       18,   26,   24,   25,   31,   32,   32,   34,   36,   13,
-       12,    0,    6,    7,   37,   12,    0,    0,   12,    0,
-        0,    0,    0,    0,    0,   15,    0,   14,    0
-
+        0,    0,    0,    0,    0,    0,   33,   33,   62,   60,
+       59,   40,   53,   16,   60,   41,   56,   24,   46,   45,
+       57,   58,   49,   42,   50,    1,   12,   55,    1,    3,
+        1,   54,   10,   37,   52,   51,   48,   44,   47,   43,
+       23,   22,   21,   23,   31,   30,   29,   31,   33,   35,
+       34,   59,   40,    1,    2,   38,   41,   11,   32,    0,
+       12,    5,    0,    4,   39,   37,    8,    9,   20,   18,
+       17,   19,   28,   26,   25,   27,   33,   34,   34,   36,
+       38,   13,   12,    0,    6,    7,   39,   12,    0,    0,
+       12,    0,    0,    0,    0,    0,    0,   15,    0,   14,
+
+        0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -644,62 +645,64 @@ static const YY_CHAR yy_meta[36] =
         4,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[110] =
+static const flex_int16_t yy_base[112] =
     {   0,
-        0,    0,   33,   34,   37,   38,   39,   40,  137,  138,
-      134,    0,   29,  138,   23,    0,  138,  126,  138,  138,
-      138,  138,  138,  138,  138,  122,   39,  138,   24,  111,
-      111,   37,  138,    0,  138,  138,  138,  138,  138,   41,
-      138,  138,  138,   51,  138,  138,  138,   49,    0,  138,
-       54,  129,    0,  138,  138,    0,    0,  138,  138,  112,
-       54,  107,  106,  138,    0,    0,  138,  138,  138,  138,
-      138,  138,  138,  138,    0,   66,   72,  138,    0,  109,
-       59,  102,  138,  138,    0,   70,   99,   98,   74,   91,
-       88,   73,   72,   58,   51,  138,   45,  138,  138,   92,
-
-       96,  100,  104,  108,  110,  114,  118,  120,  122
+        0,    0,   33,   34,   37,   38,   39,   40,  139,  140,
+      136,    0,   29,  140,   23,    0,  140,  128,  140,  140,
+      140,  140,  140,  140,  140,  124,   39,  140,   24,  113,
+      113,   37,  140,    0,  140,  140,  140,  140,  140,   41,
+      140,  140,  140,   51,  140,  140,  140,   49,    0,  140,
+       54,  131,    0,  140,  140,    0,    0,  140,  140,  114,
+       54,  109,  108,  140,    0,    0,  140,  140,  140,  140,
+      140,  140,  140,  140,  140,  140,    0,   71,   72,  140,
+        0,  111,   59,  110,  140,  140,    0,   75,  103,  100,
+       69,   98,   93,   89,   77,   68,   51,  140,   45,  140,
+
+      140,   93,   97,  101,  105,  109,  111,  115,  119,  121,
+      123
     } ;
 
-static const flex_int16_t yy_def[110] =
+static const flex_int16_t yy_def[112] =
     {   0,
-       99,    1,  100,  100,  101,  101,  102,  102,   99,   99,
-       99,  103,   99,   99,   99,  104,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,  105,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,  106,   99,
-      107,   99,  103,   99,   99,  108,  104,   99,   99,   99,
-       99,   99,   99,   99,  109,  105,   99,   99,   99,   99,
-       99,   99,   99,   99,  106,  107,  107,   99,  108,   99,
-       99,   99,   99,   99,  109,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,    0,   99,
-
-       99,   99,   99,   99,   99,   99,   99,   99,   99
+      101,    1,  102,  102,  103,  103,  104,  104,  101,  101,
+      101,  105,  101,  101,  101,  106,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  107,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  108,  101,
+      109,  101,  105,  101,  101,  110,  106,  101,  101,  101,
+      101,  101,  101,  101,  111,  107,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  108,  109,  109,  101,
+      110,  101,  101,  101,  101,  101,  111,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+
+        0,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101
     } ;
 
-static const flex_int16_t yy_nxt[174] =
+static const flex_int16_t yy_nxt[176] =
     {   0,
        10,   11,   12,   13,   14,   15,   16,   17,   18,   19,
        20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
        30,   31,   32,   33,   34,   35,   10,   36,   10,   34,
        34,   37,   38,   39,   40,   42,   42,   43,   43,   46,
        46,   50,   50,   54,   62,   47,   47,   56,   67,   55,
-       51,   51,   56,   56,   60,   69,   61,   72,   63,   44,
-       44,   65,   98,   48,   48,   77,   65,   65,   97,   60,
-       78,   81,   82,   68,   60,   96,   86,   99,   73,   74,
-       70,   71,   99,   77,   88,   60,   95,   89,   78,   60,
-       94,   89,   41,   41,   41,   41,   45,   45,   45,   45,
-
-       49,   49,   49,   49,   53,   93,   53,   53,   57,   92,
-       57,   57,   66,   66,   75,   91,   90,   75,   76,   87,
-       76,   76,   79,   79,   85,   85,   80,   84,   83,   80,
-       52,   54,   64,   59,   58,   52,   99,    9,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99
+       51,   51,   56,   56,   60,   69,   61,   73,   63,   44,
+       44,   65,  100,   48,   48,   79,   65,   65,   99,   60,
+       80,   83,   84,   68,   60,   74,   88,   70,   75,   76,
+       71,   72,  101,   79,   60,   98,   91,  101,   80,   90,
+       60,   97,   91,   41,   41,   41,   41,   45,   45,   45,
+
+       45,   49,   49,   49,   49,   53,   96,   53,   53,   57,
+       95,   57,   57,   66,   66,   77,   94,   93,   77,   78,
+       92,   78,   78,   81,   81,   87,   87,   89,   82,   86,
+       85,   82,   52,   54,   64,   59,   58,   52,  101,    9,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101
     } ;
 
-static const flex_int16_t yy_chk[174] =
+static const flex_int16_t yy_chk[176] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -707,28 +710,28 @@ static const flex_int16_t yy_chk[174] =
         1,    1,    1,    1,    1,    3,    4,    3,    4,    5,
         6,    7,    8,   13,   29,    5,    6,   15,   40,   13,
         7,    8,   15,   15,   27,   44,   27,   48,   29,    3,
-        4,   32,   97,    5,    6,   51,   32,   32,   95,   61,
-       51,   61,   61,   40,   81,   94,   81,   76,   48,   48,
-       44,   44,   76,   77,   86,   86,   93,   86,   77,   89,
-       92,   89,  100,  100,  100,  100,  101,  101,  101,  101,
-
-      102,  102,  102,  102,  103,   91,  103,  103,  104,   90,
-      104,  104,  105,  105,  106,   88,   87,  106,  107,   82,
-      107,  107,  108,  108,  109,  109,   80,   63,   62,   60,
-       52,   31,   30,   26,   18,   11,    9,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99
+        4,   32,   99,    5,    6,   51,   32,   32,   97,   61,
+       51,   61,   61,   40,   83,   48,   83,   44,   48,   48,
+       44,   44,   78,   79,   91,   96,   91,   78,   79,   88,
+       88,   95,   88,  102,  102,  102,  102,  103,  103,  103,
+
+      103,  104,  104,  104,  104,  105,   94,  105,  105,  106,
+       93,  106,  106,  107,  107,  108,   92,   90,  108,  109,
+       89,  109,  109,  110,  110,  111,  111,   84,   82,   63,
+       62,   60,   52,   31,   30,   26,   18,   11,    9,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
+      101,  101,  101,  101,  101
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[60] =
+static const flex_int32_t yy_rule_can_match_eol[62] =
     {   0,
 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-        };
+    0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 
+    1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+    0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -856,7 +859,7 @@ static void elmparsestr_add(char c) {
   elmparsestrbuf[elmparsestrlen]=0;
 }
 
-#line 860 "Parser/dbotter.yy.c"
+#line 863 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -864,7 +867,7 @@ static void elmparsestr_add(char c) {
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 868 "Parser/dbotter.yy.c"
+#line 871 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1142,7 +1145,7 @@ YY_DECL
 #line 146 "Parser/dbotter.l"
 
 
-#line 1146 "Parser/dbotter.yy.c"
+#line 1149 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1169,13 +1172,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 100 )
+				if ( yy_current_state >= 102 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 138 );
+		while ( yy_base[yy_current_state] != 140 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1358,258 +1361,268 @@ YY_RULE_SETUP
 case 18:
 YY_RULE_SETUP
 #line 239 "Parser/dbotter.l"
-{ elmparsestr_add('\t'); } 
+{ elmparsestr_add('\\'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
 #line 240 "Parser/dbotter.l"
-{ elmparsestr_add('\"'); } 
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
 #line 241 "Parser/dbotter.l"
+{ elmparsestr_add('\"'); } 
+	YY_BREAK
+case 21:
+YY_RULE_SETUP
+#line 242 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return UNIQUEURI;
                 } 
 	YY_BREAK
-case 21:
-/* rule 21 can match eol */
+case 22:
+/* rule 22 can match eol */
 YY_RULE_SETUP
-#line 246 "Parser/dbotter.l"
+#line 247 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 22:
-YY_RULE_SETUP
-#line 251 "Parser/dbotter.l"
-{ elmparsestr_add(*yytext); }
-	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 254 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
+#line 252 "Parser/dbotter.l"
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 255 "Parser/dbotter.l"
-{ elmparsestr_add('\n'); } 
+{ BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 256 "Parser/dbotter.l"
-{ elmparsestr_add('\t'); } 
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
 #line 257 "Parser/dbotter.l"
-{ elmparsestr_add('\''); } 
+{ elmparsestr_add('\\'); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 258 "Parser/dbotter.l"
+{ elmparsestr_add('\t'); } 
+	YY_BREAK
+case 28:
+YY_RULE_SETUP
+#line 259 "Parser/dbotter.l"
+{ elmparsestr_add('\''); } 
+	YY_BREAK
+case 29:
+YY_RULE_SETUP
+#line 260 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return CONSTURI;
                 } 
 	YY_BREAK
-case 28:
-/* rule 28 can match eol */
+case 30:
+/* rule 30 can match eol */
 YY_RULE_SETUP
-#line 263 "Parser/dbotter.l"
+#line 265 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 29:
+case 31:
 YY_RULE_SETUP
-#line 268 "Parser/dbotter.l"
+#line 270 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
-case 30:
+case 32:
 YY_RULE_SETUP
-#line 271 "Parser/dbotter.l"
+#line 273 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
-case 31:
+case 33:
 YY_RULE_SETUP
-#line 273 "Parser/dbotter.l"
+#line 275 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
-case 32:
+case 34:
 YY_RULE_SETUP
-#line 274 "Parser/dbotter.l"
+#line 276 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 35:
+/* rule 35 can match eol */
 YY_RULE_SETUP
-#line 275 "Parser/dbotter.l"
+#line 277 "Parser/dbotter.l"
 ;
 	YY_BREAK
-case 34:
+case 36:
 YY_RULE_SETUP
-#line 276 "Parser/dbotter.l"
+#line 278 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
-case 35:
+case 37:
 YY_RULE_SETUP
-#line 278 "Parser/dbotter.l"
+#line 280 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }  
 	YY_BREAK
-case 36:
+case 38:
 YY_RULE_SETUP
-#line 284 "Parser/dbotter.l"
+#line 286 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }      
 	YY_BREAK
-case 37:
+case 39:
 YY_RULE_SETUP
-#line 290 "Parser/dbotter.l"
+#line 292 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
 	        return VAR;
 	      } 
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 296 "Parser/dbotter.l"
+#line 298 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
-case 39:
-YY_RULE_SETUP
-#line 300 "Parser/dbotter.l"
-{ } /* eat up line comment until end of line */
-	YY_BREAK
-case 40:
-YY_RULE_SETUP
-#line 302 "Parser/dbotter.l"
-return '-';
-	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 303 "Parser/dbotter.l"
-return '~';
+#line 302 "Parser/dbotter.l"
+{ } /* eat up line comment until end of line */
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
 #line 304 "Parser/dbotter.l"
-return '|';
+return '-';
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
 #line 305 "Parser/dbotter.l"
-return ')';
+return '~';
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
 #line 306 "Parser/dbotter.l"
-return '(';
+return '|';
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
 #line 307 "Parser/dbotter.l"
-return '}';
+return ')';
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
 #line 308 "Parser/dbotter.l"
-return '{';
+return '(';
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
 #line 309 "Parser/dbotter.l"
-return ',';
+return '}';
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
 #line 310 "Parser/dbotter.l"
-return '.';
+return '{';
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 312 "Parser/dbotter.l"
-return ']';
+#line 311 "Parser/dbotter.l"
+return ',';
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 313 "Parser/dbotter.l"
-return '[';
+#line 312 "Parser/dbotter.l"
+return '.';
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
 #line 314 "Parser/dbotter.l"
-return '!';
+return ']';
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
 #line 315 "Parser/dbotter.l"
-return '?';
+return '[';
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
 #line 316 "Parser/dbotter.l"
-return ':';
+return '!';
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
 #line 317 "Parser/dbotter.l"
-return '&';
+return '?';
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
+#line 318 "Parser/dbotter.l"
+return ':';
+	YY_BREAK
+case 56:
+YY_RULE_SETUP
 #line 319 "Parser/dbotter.l"
+return '&';
+	YY_BREAK
+case 57:
+YY_RULE_SETUP
+#line 321 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
-case 56:
+case 58:
 YY_RULE_SETUP
-#line 320 "Parser/dbotter.l"
+#line 322 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 322 "Parser/dbotter.l"
+#line 324 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
 	          }
 	YY_BREAK
-case 57:
+case 59:
 YY_RULE_SETUP
-#line 327 "Parser/dbotter.l"
+#line 329 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
-case 58:
+case 60:
 YY_RULE_SETUP
-#line 329 "Parser/dbotter.l"
+#line 331 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
-case 59:
+case 61:
 YY_RULE_SETUP
-#line 332 "Parser/dbotter.l"
+#line 334 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1613 "Parser/dbotter.yy.c"
+#line 1626 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1906,7 +1919,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 100 )
+			if ( yy_current_state >= 102 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1935,11 +1948,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 100 )
+		if ( yy_current_state >= 102 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 99);
+	yy_is_jam = (yy_current_state == 101);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2757,7 +2770,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 332 "Parser/dbotter.l"
+#line 334 "Parser/dbotter.l"
 
 
 
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index dc00aca..2c358e4 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -236,6 +236,7 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 
 \"              { BEGIN STRSTATE; elmparsestrlen=0; } 
 <STRSTATE>\\n   { elmparsestr_add('\n'); } 
+<STRSTATE>\\\\  { elmparsestr_add('\\'); } 
 <STRSTATE>\\t   { elmparsestr_add('\t'); } 
 <STRSTATE>\\\"  { elmparsestr_add('\"'); } 
 <STRSTATE>\"    { BEGIN 0; 
@@ -253,6 +254,7 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 
 \'              { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 <QUOTESTATE>\\n   { elmparsestr_add('\n'); } 
+<QUOTESTATE>\\\\  { elmparsestr_add('\\'); } 
 <QUOTESTATE>\\t   { elmparsestr_add('\t'); } 
 <QUOTESTATE>\\\'  { elmparsestr_add('\''); } 
 <QUOTESTATE>\'    { BEGIN 0; 
-- 
2.43.0


From 8118a41144386b35e53d85fe65d0c84a883a9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 36/64] fix: quote and escape symbols and names so that they
 are read back

---
 Printer/dbotterprint.c | 191 +++++++++++++++--------------------------
 Reasoner/rmain.c       |  10 ++-
 2 files changed, 75 insertions(+), 126 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 52cd60d..e0ba1ee 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -873,7 +873,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      if (!wr_str_guarantee_space(g,buf,len,pos+6*len1+len2+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
@@ -1063,160 +1063,102 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
   }
 }
 
+/** Can the string be printed without quotes, so that it is read back as 
+ *  the same symbol? If not, return 1.
+ */
 int wg_should_quote(char* s) {
   char* p;
-  char c;
 
-  if (!s) return 0;
-  if (*(s+1)==0) {
-    c=*s;
-    if (c=='=') return 0;
-    if (c=='-') return 0;
-    if (c=='+') return 0;
-    if (c=='*') return 0;
-    if (c=='/') return 0;
-    if (c=='>') return 0;
-    if (c=='<') return 0;
-  } 
-  if (*s=='=' && *(s+1)==0) return 0;
-  for(p=s; *p!=0; p++) {
-    c=*p;
-    if (c=='$' || c=='_') continue;
-    if (c<48) return 1;
-    if (c>57 && c<64) return 1;
-    if (c>90 && c<97) return 1;
-    if (c>122) return 1;
+  if (!s || !*s) return 0;
+  if (*(s+1)==0 && strchr("=-+*/><",*s)) return 0;
+  p=s;
+  if (*p=='$') p++;
+  if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z'))) return 1;
+  for(; *p!=0; p++) {
+    if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z') ||
+          (*p>='0' && *p<='9') || *p=='_')) return 1;
   }
   return 0;
 }
 
+/** Does the string contain characters to be escaped inside single quotes? */
 int wg_contains_quote(char* s) {
   if (!s) return 0;  
   for(; *s!=0; s++) {
-    if ((*s)=='\'') return 1;   
+    if ((*s)=='\'' || (*s)=='\\') return 1;   
   }
   return 0;
 }
 
+/** Does the string contain characters to be escaped in a JSON string? */
 int wg_contains_dquote(char* s) {
   if (!s) return 0;  
   for(; *s!=0; s++) {
-    if ((*s)=='"') return 1;   
+    if ((*s)=='"' || (*s)=='\\' || (unsigned char)(*s)<' ') return 1;   
   }
   return 0;
 }
 
-int wg_print_quoted(char** buf, int len, int pos, char* s) {
-  char c;
-  int i;
-
-  //printf("\n len %d str %s\n",len,s);
-  if (!s || !buf || !len || len<2) return 0;    
-  *((*buf)+pos)='\'';
-  for(i=1; *s!=0; s++, i++) {
-    c=*s;
-    if (c=='\'') {
-      *((*buf)+pos+i)='\\';
-      i++;
-    }     
-    *((*buf)+pos+i)=c;   
-    if ((i+pos)>=len) return i;
+/** Print the string between quote characters q, escaping them: 
+ *  the caller guarantees 2*strlen(s)+10 bytes of space.
+ */
+static int wg_print_between(char** buf, int len, int pos, char* s, char q) {
+  int i=0;
+
+  if (!s || !buf || !len || pos+3>len) return 0;    
+  *((*buf)+pos+i++)=q;
+  for(; *s!=0 && pos+i+4<len; s++) {
+    if (*s==q || *s=='\\') *((*buf)+pos+i++)='\\';
+    *((*buf)+pos+i++)=*s;   
   }  
-  *((*buf)+pos+i)='\'';
-  i++;
-  //printf("\n i %d\n",i);
+  *((*buf)+pos+i++)=q;
+  if (pos+i<len) *((*buf)+pos+i)=0;
   return i;
 }
 
-int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
-  char c;
-  int i=0,j=0;
-  //char* origes=es;
-  int dquote=0;
-
-  //printf("\n len %d es %s s %s\n",len,es,s);
-  if (!s || !buf || !len || len<2) return 0;     
-  if (es && *es=='#' && *(es+1)=='\0') {
-    *((*buf)+pos)='\"';
-    dquote=1;
-  }  
-  else *((*buf)+pos)='\'';
-  
-  /*
-  for(i=1; *es!=0; es++, i++) {
-    c=*es;
-    if (c=='\'') {
-      *((*buf)+pos+i)='\\';
-      i++;
-    }     
-    *((*buf)+pos+i)=c;   
-    if ((i+pos)>=len) return i;
-  }  
-  
-  if (origes && *origes) {
-    *((*buf)+pos+i)=':';
-    i++;
-  }
-  */ 
-  i=1; 
-  for(j=0; *s!=0; s++, j++) {
-    c=*s;
-    if (dquote) {
-      if (c=='\"') {
-        *((*buf)+pos+i+j)='\\';
-        j++;
-      }
-    } else {
-      if (c=='\'') {
-        *((*buf)+pos+i+j)='\\';
-        j++;
-      }     
-    }
-    *((*buf)+pos+i+j)=c;   
-    if ((i+j+pos)>=len) return i+j;
-  }      
-
-  if (dquote) *((*buf)+pos+i+j)='\"';
-  else *((*buf)+pos+i+j)='\'';
-
-  //*((*buf)+pos+i+j)='\'';
-  //printf("\n i %d\n",i);
-  return i+j+1;
+int wg_print_quoted(char** buf, int len, int pos, char* s) {
+  return wg_print_between(buf,len,pos,s,'\'');
 }
 
+int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s) {
+  if (es && *es=='#' && *(es+1)=='\0') return wg_print_between(buf,len,pos,s,'"');
+  return wg_print_between(buf,len,pos,s,'\'');
+}
 
+/** Print a JSON string: the caller guarantees 6*strlen(s)+10 bytes of space.
+ *
+ */
 int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag) {
   char c;
-  int i;
+  int i=0;
 
-  //printf("\n len %d str %s\n",len,s);
-  if (!s || !buf || !len || len<2) return 0;      
-  *((*buf)+pos)='"';
-  if (negflag) {
-    pos++;
-    *((*buf)+pos)='-';
-  }  
+  if (!s || !buf || !len || pos+6>len) return 0;      
+  *((*buf)+pos+i++)='"';
+  if (negflag) *((*buf)+pos+i++)='-';
   if (uniqueflag) {
-    pos++;
-    *((*buf)+pos)='#';
-    pos++;
-    *((*buf)+pos)=':';    
+    *((*buf)+pos+i++)='#';
+    *((*buf)+pos+i++)=':';    
   }
-  for(i=1; *s!=0; s++, i++) {
+  for(; *s!=0 && pos+i+8<len; s++) {
     c=*s;
-    if (c=='"') {
-      *((*buf)+pos+i)='\\';
-      i++;
-    }     
-    *((*buf)+pos+i)=c;   
-    if ((i+pos)>=len) return i;
+    if (c=='"' || c=='\\') {
+      *((*buf)+pos+i++)='\\';
+      *((*buf)+pos+i++)=c;
+    } else if (c=='\n') {
+      *((*buf)+pos+i++)='\\';
+      *((*buf)+pos+i++)='n';
+    } else if (c=='\t') {
+      *((*buf)+pos+i++)='\\';
+      *((*buf)+pos+i++)='t';
+    } else if ((unsigned char)c<' ') {
+      i+=snprintf((*buf)+pos+i,len-pos-i,"\\u%04x",c);
+    } else {
+      *((*buf)+pos+i++)=c;
+    }
   }  
-  *((*buf)+pos+i)='"';
-  i++;
+  *((*buf)+pos+i++)='"';
   if (pos+i<len) *((*buf)+pos+i)=0; // the text so far may be printed as is
-  //printf("\n i %d\n",i);
-  if (negflag) return i+1+(uniqueflag ? 2 : 0);
-  else return i+(uniqueflag ? 2 : 0);
+  return i;
 }
 
 /*
@@ -1497,7 +1439,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
     //p2=wg_atomstr2(db,ptr); 
-    if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -1535,7 +1477,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         p2=wg_atomstr2(db,ptr);
         //printf("\n type==WG_ANONCONSTTYPE %d p %s p2 %s\n",type==WG_ANONCONSTTYPE,p,p2);
         if (p && *p=='#' && *(p+1)==':') {            
-            pos+=wg_print_dquoted(buf,*len,pos,p+2,0,0);   
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p+2);   
 
         } else if (p && *p=='+' && *(p+1)=='\0') {
           pos+=snprintf((*buf)+pos,(*len)-pos,"$sum"); 
@@ -1584,7 +1526,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           } 
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {            
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);            
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p);            
           } else if (wg_contains_quote(p)) {                       
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {            
@@ -1770,6 +1712,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1;
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
       case WG_DOUBLETYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -1823,7 +1766,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             }  
           }           
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {          
-            pos+=wg_print_dquoted(buf,*len,pos,p,0,0);         
+            pos+=wg_print_quoted2(buf,*len,pos,"#",p);         
           } else if (wg_contains_quote(p)) {                        
             pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {           
@@ -2118,7 +2061,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 6*strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 3bb2ae9..2da34b3 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1728,6 +1728,10 @@ int wr_print_all_clauses(glb* g, void* child_db) {
       namestr=namebuf;
     }  
     //printf("\nnamebuf %s namestr %s nameflag %d enctype %ld\n",namebuf,namestr,nameflag,enctype);
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+6*strlen(namestr)+200)) {
+      if (buf) wr_free(g,buf);
+      return -1;        
+    }
     objflag=0;
     if (g->print_json) {
       if ((nameflag && namestr[0]) && (decprior && decprior!=WR_HISTORY_AXIOM_ROLENR)) {        
@@ -1782,8 +1786,10 @@ int wr_print_all_clauses(glb* g, void* child_db) {
       if (clnr!=1) {
         bpos+=snprintf(buf+bpos,blen-bpos,"\n");
       } 
-      if (nameflag && wg_should_quote(namestr)) {
-        bpos+=snprintf(buf+bpos,blen-bpos,"cnf('%s',%s,",namestr,priorstr);
+      if (nameflag && (*namestr<'a' || *namestr>'z' || wg_should_quote(namestr))) {
+        bpos+=snprintf(buf+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&buf,blen,bpos,namestr);
+        bpos+=snprintf(buf+bpos,blen-bpos,",%s,",priorstr);
       } else {
         bpos+=snprintf(buf+bpos,blen-bpos,"cnf(%s,%s,",namestr,priorstr);
       }
-- 
2.43.0


From 0c3c202c0ac71f91a51bee1c9ae2b2200a8903b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 37/64] fix: the same symbol is the same in quotes, without
 them and in JSON

'a' and a were different symbols, so were 'a b' and "a b" in JSON,
and names of formulas were printed in quotes without escaping them.
---
 Builtparser/dbparse.c | 66 +++++++++++++++++++++++--------------------
 Builtparser/jsparse.c | 10 +++++--
 Parser/dbparse.c      | 66 +++++++++++++++++++++++--------------------
 Parser/jsparse.c      | 10 +++++--
 4 files changed, 84 insertions(+), 68 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 1fdd2d2..2d76c69 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -469,17 +469,21 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -536,17 +540,21 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -616,6 +624,7 @@ void* wr_preprocess_clauselist
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                                     
           bpos=wg_print_frm_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);
         } 
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");               
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
@@ -1726,6 +1735,13 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (str1 && *str1 && (!str2 || !strcmp(str2,"c")) && 
+            !(g->parse_question_as_var && str1[0]=='?' && !str2) &&
+            !(!str2 && str1[1]=='\0' && strchr("=-+*/><",str1[0]))) {
+          if ((str2 && isupper((unsigned char)(str1[0]))) || 
+              wg_parser_should_quote(str1)) str2="c";
+          else str2=NULL;
+        }
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
@@ -1847,32 +1863,20 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   return ret;
 }
 
+/** Symbols which cannot be written without quotes are kept apart from
+ *  variables and operators by the prefix "c": this is decided by the symbol only,
+ *  so that it is the same symbol in all input languages, quoted or not.
+ */
 int wg_parser_should_quote(char* s) {
   char* p;
-  char c;
 
-  if (!s) return 0;
-  if (*s=='0') return 1;
-  /*
-  if ((*s)!='\0' && *(s+1)==0) {
-    c=*s;
-    if (c=='=') return 0;
-    if (c=='-') return 0;
-    if (c=='+') return 0;
-    if (c=='*') return 0;
-    if (c=='/') return 0;
-    //if (c=='>') return 0;
-    if (c=='<') return 0;
-  } 
-  //if (*s=='=' && *(s+1)==0) return 0;
-  */
-  for(p=s; *p!=0; p++) {
-    c=*p;
-    if (c=='$' || c=='_') continue;
-    if (c<48) return 1;
-    if (c>57 && c<64) return 1;
-    if (c>90 && c<97) return 1;
-    if (c>122) return 1;
+  if (!s || !*s) return 0;
+  p=s;
+  if (*p=='$') p++;
+  if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z'))) return 1;
+  for(; *p!=0; p++) {
+    if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z') ||
+          (*p>='0' && *p<='9') || *p=='_')) return 1;
   }
   return 0;
 }
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 2cfdae0..274c3e3 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1306,11 +1306,15 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
-    if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+    if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+                                2*strlen(namestr)+strlen(rolestr)+1000)) return NULL;
+    bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+    if (*namestr<'a' || *namestr>'z' || wg_should_quote(namestr)) {
+      bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,namestr);
     } else {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"%s",namestr);
     }  
+    bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     /*
     printf("\npreres before\n");
     wg_mpool_print(db,preres);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 1fdd2d2..2d76c69 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -469,17 +469,21 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -536,17 +540,21 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              2*strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              6*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -616,6 +624,7 @@ void* wr_preprocess_clauselist
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                                     
           bpos=wg_print_frm_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);
         } 
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+10)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");               
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
@@ -1726,6 +1735,13 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (str1 && *str1 && (!str2 || !strcmp(str2,"c")) && 
+            !(g->parse_question_as_var && str1[0]=='?' && !str2) &&
+            !(!str2 && str1[1]=='\0' && strchr("=-+*/><",str1[0]))) {
+          if ((str2 && isupper((unsigned char)(str1[0]))) || 
+              wg_parser_should_quote(str1)) str2="c";
+          else str2=NULL;
+        }
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
@@ -1847,32 +1863,20 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   return ret;
 }
 
+/** Symbols which cannot be written without quotes are kept apart from
+ *  variables and operators by the prefix "c": this is decided by the symbol only,
+ *  so that it is the same symbol in all input languages, quoted or not.
+ */
 int wg_parser_should_quote(char* s) {
   char* p;
-  char c;
 
-  if (!s) return 0;
-  if (*s=='0') return 1;
-  /*
-  if ((*s)!='\0' && *(s+1)==0) {
-    c=*s;
-    if (c=='=') return 0;
-    if (c=='-') return 0;
-    if (c=='+') return 0;
-    if (c=='*') return 0;
-    if (c=='/') return 0;
-    //if (c=='>') return 0;
-    if (c=='<') return 0;
-  } 
-  //if (*s=='=' && *(s+1)==0) return 0;
-  */
-  for(p=s; *p!=0; p++) {
-    c=*p;
-    if (c=='$' || c=='_') continue;
-    if (c<48) return 1;
-    if (c>57 && c<64) return 1;
-    if (c>90 && c<97) return 1;
-    if (c>122) return 1;
+  if (!s || !*s) return 0;
+  p=s;
+  if (*p=='$') p++;
+  if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z'))) return 1;
+  for(; *p!=0; p++) {
+    if (!((*p>='a' && *p<='z') || (*p>='A' && *p<='Z') ||
+          (*p>='0' && *p<='9') || *p=='_')) return 1;
   }
   return 0;
 }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 2cfdae0..274c3e3 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1306,11 +1306,15 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
-    if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+    if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+                                2*strlen(namestr)+strlen(rolestr)+1000)) return NULL;
+    bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+    if (*namestr<'a' || *namestr>'z' || wg_should_quote(namestr)) {
+      bpos+=wg_print_quoted(&(g->tmp_printbuf),blen,bpos,namestr);
     } else {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"%s",namestr);
     }  
+    bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     /*
     printf("\npreres before\n");
     wg_mpool_print(db,preres);
-- 
2.43.0


From 9f581bfd2af65b73a2aed0277ec841b18bd9cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 38/64] fix: read the empty string in JSON as the empty symbol

gkc crashed on ["p",""].
---
 Builtparser/jsparse.c | 5 +++++
 Builtparser/jsparse.h | 1 +
 Parser/jsparse.c      | 5 +++++
 Parser/jsparse.h      | 1 +
 4 files changed, 12 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 274c3e3..f242c9d 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -490,6 +490,11 @@ static int parse_yajl_string(void *ctx, const unsigned char * stringVal,
 
   //printf("\nstringLen %ld stringVal |%s|\n",(gint)stringLen,stringVal); 
   //(pp->result)=MKWGSTRINGLEN(pp, stringVal, stringLen); 
+  if (!stringLen) {
+    // an atom with an empty string has no string at all
+    stringVal=(const unsigned char *)EMPTYSTRING;
+    stringLen=strlen(EMPTYSTRING);
+  }
   if (!(pp->depth)) {
     (pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
   } else {
diff --git a/Builtparser/jsparse.h b/Builtparser/jsparse.h
index 01ccf36..a197b08 100644
--- a/Builtparser/jsparse.h
+++ b/Builtparser/jsparse.h
@@ -38,6 +38,7 @@
 #define MPOOL_STRUCT_PREFSTR "$gk_struct$"
 #define MPOOL_JSON_NULL "$gk_null$"
 #define MPOOL_JSON_EMPTY "$nil"
+#define EMPTYSTRING "$emptystr"   // the empty symbol, see dbotter.l
 #define MPOOL_NULLVAR_PREFIX "Nvar"
 #define MPOOL_JSON_FOF "fof"
 #define MPOOL_JSON_ASK "ask"
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 274c3e3..f242c9d 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -490,6 +490,11 @@ static int parse_yajl_string(void *ctx, const unsigned char * stringVal,
 
   //printf("\nstringLen %ld stringVal |%s|\n",(gint)stringLen,stringVal); 
   //(pp->result)=MKWGSTRINGLEN(pp, stringVal, stringLen); 
+  if (!stringLen) {
+    // an atom with an empty string has no string at all
+    stringVal=(const unsigned char *)EMPTYSTRING;
+    stringLen=strlen(EMPTYSTRING);
+  }
   if (!(pp->depth)) {
     (pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
   } else {
diff --git a/Parser/jsparse.h b/Parser/jsparse.h
index 01ccf36..a197b08 100644
--- a/Parser/jsparse.h
+++ b/Parser/jsparse.h
@@ -38,6 +38,7 @@
 #define MPOOL_STRUCT_PREFSTR "$gk_struct$"
 #define MPOOL_JSON_NULL "$gk_null$"
 #define MPOOL_JSON_EMPTY "$nil"
+#define EMPTYSTRING "$emptystr"   // the empty symbol, see dbotter.l
 #define MPOOL_NULLVAR_PREFIX "Nvar"
 #define MPOOL_JSON_FOF "fof"
 #define MPOOL_JSON_ASK "ask"
-- 
2.43.0


From 9788bc546b365195520c6bf808a6e0651dfd561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 39/64] fix: print a builtin function in JSON as a string and
 only in head position

---
 Printer/dbotterprint.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index e0ba1ee..312b106 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -753,11 +753,31 @@ int wr_strprint_atom_otter(glb* g, gint rec, int printlevel,char** buf, int *len
 }
 
 
+/** The $-name of a builtin function given by one character, NULL for all other symbols
+ *
+ */
+static char* wr_builtin_function_name(void* db, gint enc) {
+  char* name;
+
+  if (wg_get_encoded_type(db,enc)!=WG_URITYPE) return NULL;
+  name=wg_decode_uri(db,enc);
+  if (name==NULL || strlen(name)!=1 || wg_decode_uri_prefix(db,enc)!=NULL) return NULL;
+  switch (name[0]) {
+    case '+': return "$sum";
+    case '*': return "$product";
+    case '-': return "$difference";
+    case '/': return "$quotient";
+    case '<': return "$less";
+    default: return NULL;
+  }
+}
+
 int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len, int pos) {
   void* db=g->db;
   gptr recptr;
   gint  enc;
   int i, clen;
+  char* builtin;
 
 #ifdef DEBUG  
   printf("print_term called with enc %d and type %d \n",(int)rec,wg_get_encoded_type(db,rec)); 
@@ -781,21 +801,11 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
       pos=wr_strprint_term_otter(g,enc,printlevel,buf,len,pos);
       if (pos<0) return pos;
     } else {  
-      if (//(g->print_clauses_tptp) && 
-          wg_get_encoded_type(db,enc)==WG_URITYPE &&
-          wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
-        if (!strcmp(wg_decode_str(db,enc),"+")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$sum");
-        } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$product");
-        } else if (!strcmp(wg_decode_str(db,enc),"-")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$difference");
-        } else if (!strcmp(wg_decode_str(db,enc),"/")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");
-        } else if (!strcmp(wg_decode_str(db,enc),"<")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$less");  
+      if (i==(g->unify_firstuseterm) && (builtin=wr_builtin_function_name(db,enc))!=NULL) {
+        if (g->print_clauses_json) {
+          pos+=snprintf((*buf)+pos,(*len)-pos,"\"%s\"",builtin);
         } else {
-          pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s",builtin);
         }
       } else {
         pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
-- 
2.43.0


From 1cc3217e4f1d8743a694da1bffc54e55f3810e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:02 +0000
Subject: [PATCH 40/64] fix: do not print a debugging line for a JSON string
 that is no variable

---
 Builtparser/jsparse.c | 1 -
 Parser/jsparse.c      | 1 -
 2 files changed, 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index f242c9d..94dde5a 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -2206,7 +2206,6 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       // now check if valstr starts with capital letter: if yes, make anonconst
       //printf("\n valstr %s modified %d\n",valstr,modified);
       if (wr_json_freevarstr(db,valstr)) {
-        printf("\n valstr %s modified %d\n",valstr,modified);
         preres=cl; 
       } else if (1) { //(wr_is_parse_varstr(g,valstr)) { //(*str && (*str >= 'A') && (*str <= 'Z')) {
         // starts with a capital letter, make anonconst, printed later with c: prefix
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index f242c9d..94dde5a 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -2206,7 +2206,6 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       // now check if valstr starts with capital letter: if yes, make anonconst
       //printf("\n valstr %s modified %d\n",valstr,modified);
       if (wr_json_freevarstr(db,valstr)) {
-        printf("\n valstr %s modified %d\n",valstr,modified);
         preres=cl; 
       } else if (1) { //(wr_is_parse_varstr(g,valstr)) { //(*str && (*str >= 'A') && (*str <= 'Z')) {
         // starts with a capital letter, make anonconst, printed later with c: prefix
-- 
2.43.0


From 38c46e2805b697dd02bacbb24a8d47924394a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 41/64] fix: read and print numbers with all their digits

p(4294967297) was read as p(1): the value went through an int, also when
printing. Doubles lost all digits after the sixth decimal and, in JSON, all
digits after the 37th.
---
 Builtparser/dbparse.c  |  6 +++---
 Db/dbmpool.c           |  9 +++++++--
 Parser/dbparse.c       |  6 +++---
 Printer/dbotterprint.c | 25 ++++++++++++++++++++-----
 4 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 2d76c69..069e4d3 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1670,7 +1670,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
@@ -1770,7 +1770,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
             //break;          
           }                   
           ret=wg_encode_var(db,intdata);
-          DPRINTF("var %d encoded ok\n",intdata);
+          DPRINTF("var %d encoded ok\n",(int)intdata);
         } else {
           ret=wg_encode_uri(db,str1,NULL);
         }
@@ -1854,7 +1854,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
           //break;          
         }                   
         ret=wg_encode_var(db,intdata);
-        DPRINTF("var %d encoded ok\n",intdata);       
+        DPRINTF("var %d encoded ok\n",(int)intdata);       
         break; 
       default: 
         ret=wg_encode_null(db,NULL);
diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..864f88c 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -723,12 +723,17 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* ptr;
   char* curptr;
   int size=2;
-  char buf[40];
+  char buf[1500];
   int len1;
+  int decimals;
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  // six decimals or as many as are needed to read back the same double
+  for(decimals=6; decimals<=1100; decimals++) {
+    len1=snprintf(buf,1500,"%.*f",decimals,num)+1;
+    if (num!=num || strtod(buf,NULL)==num) break;
+  }
   str1=buf;
   size=size+len1;
   size++;  
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 2d76c69..069e4d3 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1670,7 +1670,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
@@ -1770,7 +1770,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
             //break;          
           }                   
           ret=wg_encode_var(db,intdata);
-          DPRINTF("var %d encoded ok\n",intdata);
+          DPRINTF("var %d encoded ok\n",(int)intdata);
         } else {
           ret=wg_encode_uri(db,str1,NULL);
         }
@@ -1854,7 +1854,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
           //break;          
         }                   
         ret=wg_encode_var(db,intdata);
-        DPRINTF("var %d encoded ok\n",intdata);       
+        DPRINTF("var %d encoded ok\n",(int)intdata);       
         break; 
       default: 
         ret=wg_encode_null(db,NULL);
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 312b106..a6aa6d8 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -829,6 +828,20 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
 }
 
 
+/** Write a double to a buffer of DOUBLE_BUF_LEN bytes with as many decimals, six at least, 
+ *  as are needed to read back the same double
+ */
+#define DOUBLE_BUF_LEN 1500
+
+static void wr_double_digits(double d, char* buf) {
+  int decimals;
+
+  for(decimals=6; decimals<=1100; decimals++) {
+    snprintf(buf,DOUBLE_BUF_LEN,"%.*f",decimals,d);
+    if (d!=d || strtod(buf,NULL)==d) break;
+  }
+}
+
 /** Print a single, encoded value or a subrecord
  *  
  */
@@ -839,6 +852,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
   char *strdata, *exdata;
   double doubledata;
   char strbuf[80];
+  char dblbuf[DOUBLE_BUF_LEN];
   int len1=0,len2=0;
   int uniqueflag;
 
@@ -855,11 +869,12 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
+      wr_double_digits(doubledata,dblbuf);
+      if (!wr_str_guarantee_space(g,buf,len,pos+strlen(dblbuf)+50)) return -1;
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%s", dblbuf);
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
       if (!wr_str_guarantee_space(g,buf,len,pos+strlen(strdata)+50)) return -1;
-- 
2.43.0


From b202a734e099fc4c58f9803b63bd03f4794f164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 42/64] fix: compare the whole string in $substrat

Only the first character was compared: $substrat("ab","xacd",1) held.
---
 Reasoner/build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..1615c7c 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1476,7 +1476,7 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       if (ci>len) return encode_record(db,tptr);      
       len2=strlen(as);
       if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From a31eb2379f368460dbe633ab0bb0d4203960df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 43/64] fix: never take a distinct string, a number or a quoted
 symbol for a variable

p("") crashed; a symbol 'X' in the scope of a quantified X gave an error.
---
 Builtparser/dbclausify.c | 4 ++++
 Parser/dbclausify.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..bcbfc4e 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -565,7 +565,11 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  // distinct strings and quoted symbols are not variables, whatever their text 
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0;
   str=wg_atomstr1(db,frm);
+  if (str==NULL) return 0;
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..bcbfc4e 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -565,7 +565,11 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  // distinct strings and quoted symbols are not variables, whatever their text 
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0;
   str=wg_atomstr1(db,frm);
+  if (str==NULL) return 0;
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
     if (!strcmp(str,wg_atomstr1(db,boundvar))) {
-- 
2.43.0


From addfaf71ac5c7771c7f651124f00ba0c88b2ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:48 +0000
Subject: [PATCH 44/64] fix: print the empty distinct string and symbols
 starting with $true or $false as they are

"" became ' ' or "" when converting and $truex became true.
---
 Printer/dbotterprint.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index a6aa6d8..76fb619 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1560,7 +1560,8 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
           }
         } else {          
-          pos+=snprintf((*buf)+pos,(*len)-pos,"\' \'" );
+          // the empty distinct string has no text
+          pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"" );
         }
         /*
         p=wg_atomstr2(db,ptr);
@@ -1802,7 +1803,8 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
           }
         } else {        
-          pos+=snprintf((*buf)+pos,(*len)-pos,"\' \'" );
+          // the empty distinct string has no text
+          pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"" );
         }      
       }
     }   
@@ -2113,13 +2115,14 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
       */
       default: {              
         if (p==NULL) {     
-          pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"" );  
+          // the empty distinct string has no text
+          pos+=snprintf((*buf)+pos,(*len)-pos,"\"#:\"" );  
         } else if (!strcmp(p,EMPTYSTRING)) {
           pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"");                
-        } else if (!strncmp(p,"$true",5)) {
+        } else if (!strcmp(p,"$true")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"false");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"true");
-        } else if (!strncmp(p,"$false",6)) {
+        } else if (!strcmp(p,"$false")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"true");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"false");
          } else if (WG_URITYPE) {
-- 
2.43.0


From c832da5a03705b42b9bbfb342af590704b3384ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:33 +0000
Subject: [PATCH 45/64] fix: read a minus sign just before digits as a part of
 the number

p(-1) was read as p(not(1)).
---
 Builtparser/dbotter.yy.c | 447 +++++++++++++++++++++------------------
 Parser/dbotter.l         |  38 ++++
 2 files changed, 284 insertions(+), 201 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index ab6c6f2..4001747 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -580,8 +580,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 61
-#define YY_END_OF_BUFFER 62
+#define YY_NUM_RULES 63
+#define YY_END_OF_BUFFER 64
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -589,20 +589,20 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[102] =
+static const flex_int16_t yy_accept[105] =
     {   0,
-        0,    0,    0,    0,    0,    0,   33,   33,   62,   60,
-       59,   40,   53,   16,   60,   41,   56,   24,   46,   45,
-       57,   58,   49,   42,   50,    1,   12,   55,    1,    3,
-        1,   54,   10,   37,   52,   51,   48,   44,   47,   43,
-       23,   22,   21,   23,   31,   30,   29,   31,   33,   35,
-       34,   59,   40,    1,    2,   38,   41,   11,   32,    0,
-       12,    5,    0,    4,   39,   37,    8,    9,   20,   18,
-       17,   19,   28,   26,   25,   27,   33,   34,   34,   36,
-       38,   13,   12,    0,    6,    7,   39,   12,    0,    0,
-       12,    0,    0,    0,    0,    0,    0,   15,    0,   14,
-
-        0
+        0,    0,    0,    0,    0,    0,   35,   35,   64,   62,
+       61,   42,   55,   18,   62,   43,   58,   26,   48,   47,
+       59,   60,   51,   44,   52,    1,   12,   57,    1,    3,
+        1,   56,   10,   39,   54,   53,   50,   46,   49,   45,
+       25,   24,   23,   25,   33,   32,   31,   33,   35,   37,
+       36,   61,   42,    1,    2,   40,   43,   11,   14,   34,
+        0,   12,    5,    0,    4,   41,   39,    8,    9,   22,
+       20,   19,   21,   30,   28,   27,   29,   35,   36,   36,
+       38,   40,    0,   13,   12,    0,    6,    7,   41,   15,
+       12,    0,    0,   12,    0,    0,    0,    0,    0,    0,
+
+       17,    0,   16,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -645,64 +645,64 @@ static const YY_CHAR yy_meta[36] =
         4,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[112] =
+static const flex_int16_t yy_base[115] =
     {   0,
-        0,    0,   33,   34,   37,   38,   39,   40,  139,  140,
-      136,    0,   29,  140,   23,    0,  140,  128,  140,  140,
-      140,  140,  140,  140,  140,  124,   39,  140,   24,  113,
-      113,   37,  140,    0,  140,  140,  140,  140,  140,   41,
-      140,  140,  140,   51,  140,  140,  140,   49,    0,  140,
-       54,  131,    0,  140,  140,    0,    0,  140,  140,  114,
-       54,  109,  108,  140,    0,    0,  140,  140,  140,  140,
-      140,  140,  140,  140,  140,  140,    0,   71,   72,  140,
-        0,  111,   59,  110,  140,  140,    0,   75,  103,  100,
-       69,   98,   93,   89,   77,   68,   51,  140,   45,  140,
-
-      140,   93,   97,  101,  105,  109,  111,  115,  119,  121,
-      123
+        0,    0,   33,   34,   37,   38,   39,   40,  144,  145,
+      141,    0,   29,  145,   23,    0,  145,  133,  145,  145,
+      145,  145,  145,  123,  145,  128,   39,  145,   24,  117,
+      117,   37,  145,    0,  145,  145,  145,  145,  145,   41,
+      145,  145,  145,   51,  145,  145,  145,   49,    0,  145,
+       54,  135,    0,  145,  145,    0,    0,  145,   54,  145,
+      118,   67,  113,  112,  145,    0,    0,  145,  145,  145,
+      145,  145,  145,  145,  145,  145,  145,    0,   72,   75,
+      145,    0,  115,  114,   57,  113,  145,  145,    0,  106,
+       75,  103,  102,   78,   95,   92,   77,   73,   59,   51,
+
+      145,   45,  145,  145,   96,  100,  104,  108,  112,  114,
+      118,  122,  124,  126
     } ;
 
-static const flex_int16_t yy_def[112] =
+static const flex_int16_t yy_def[115] =
     {   0,
-      101,    1,  102,  102,  103,  103,  104,  104,  101,  101,
-      101,  105,  101,  101,  101,  106,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  107,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  108,  101,
-      109,  101,  105,  101,  101,  110,  106,  101,  101,  101,
-      101,  101,  101,  101,  111,  107,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  108,  109,  109,  101,
-      110,  101,  101,  101,  101,  101,  111,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-
-        0,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101
+      104,    1,  105,  105,  106,  106,  107,  107,  104,  104,
+      104,  108,  104,  104,  104,  109,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  110,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  111,  104,
+      112,  104,  108,  104,  104,  113,  109,  104,  104,  104,
+      104,  104,  104,  104,  104,  114,  110,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  111,  112,  112,
+      104,  113,  104,  104,  104,  104,  104,  104,  114,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+
+      104,  104,  104,    0,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104
     } ;
 
-static const flex_int16_t yy_nxt[176] =
+static const flex_int16_t yy_nxt[181] =
     {   0,
        10,   11,   12,   13,   14,   15,   16,   17,   18,   19,
        20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
        30,   31,   32,   33,   34,   35,   10,   36,   10,   34,
        34,   37,   38,   39,   40,   42,   42,   43,   43,   46,
-       46,   50,   50,   54,   62,   47,   47,   56,   67,   55,
-       51,   51,   56,   56,   60,   69,   61,   73,   63,   44,
-       44,   65,  100,   48,   48,   79,   65,   65,   99,   60,
-       80,   83,   84,   68,   60,   74,   88,   70,   75,   76,
-       71,   72,  101,   79,   60,   98,   91,  101,   80,   90,
-       60,   97,   91,   41,   41,   41,   41,   45,   45,   45,
-
-       45,   49,   49,   49,   49,   53,   96,   53,   53,   57,
-       95,   57,   57,   66,   66,   77,   94,   93,   77,   78,
-       92,   78,   78,   81,   81,   87,   87,   89,   82,   86,
-       85,   82,   52,   54,   64,   59,   58,   52,  101,    9,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101
+       46,   50,   50,   54,   63,   47,   47,   56,   68,   55,
+       51,   51,   56,   56,   61,   70,   62,   74,   64,   44,
+       44,   66,  103,   48,   48,   80,   66,   66,  102,   83,
+       81,   59,   61,   69,   91,   75,  101,   71,   76,   77,
+       72,   73,   61,  104,   85,   86,   80,  100,  104,   93,
+       61,   81,   94,   61,   99,   94,   41,   41,   41,   41,
+
+       45,   45,   45,   45,   49,   49,   49,   49,   53,   98,
+       53,   53,   57,   97,   57,   57,   67,   67,   78,   96,
+       95,   78,   79,   90,   79,   79,   82,   82,   89,   89,
+       92,   84,   90,   88,   87,   84,   52,   54,   65,   60,
+       59,   58,   52,  104,    9,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104
     } ;
 
-static const flex_int16_t yy_chk[176] =
+static const flex_int16_t yy_chk[181] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -710,28 +710,28 @@ static const flex_int16_t yy_chk[176] =
         1,    1,    1,    1,    1,    3,    4,    3,    4,    5,
         6,    7,    8,   13,   29,    5,    6,   15,   40,   13,
         7,    8,   15,   15,   27,   44,   27,   48,   29,    3,
-        4,   32,   99,    5,    6,   51,   32,   32,   97,   61,
-       51,   61,   61,   40,   83,   48,   83,   44,   48,   48,
-       44,   44,   78,   79,   91,   96,   91,   78,   79,   88,
-       88,   95,   88,  102,  102,  102,  102,  103,  103,  103,
-
-      103,  104,  104,  104,  104,  105,   94,  105,  105,  106,
-       93,  106,  106,  107,  107,  108,   92,   90,  108,  109,
-       89,  109,  109,  110,  110,  111,  111,   84,   82,   63,
-       62,   60,   52,   31,   30,   26,   18,   11,    9,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101,  101,  101,  101,  101,  101,
-      101,  101,  101,  101,  101
+        4,   32,  102,    5,    6,   51,   32,   32,  100,   59,
+       51,   59,   85,   40,   85,   48,   99,   44,   48,   48,
+       44,   44,   62,   79,   62,   62,   80,   98,   79,   91,
+       91,   80,   91,   94,   97,   94,  105,  105,  105,  105,
+
+      106,  106,  106,  106,  107,  107,  107,  107,  108,   96,
+      108,  108,  109,   95,  109,  109,  110,  110,  111,   93,
+       92,  111,  112,   90,  112,  112,  113,  113,  114,  114,
+       86,   84,   83,   64,   63,   61,   52,   31,   30,   26,
+       24,   18,   11,    9,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104,
+      104,  104,  104,  104,  104,  104,  104,  104,  104,  104
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[62] =
+static const flex_int32_t yy_rule_can_match_eol[64] =
     {   0,
 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 
-    1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0,     };
+    0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 
+    0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+    0, 0, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -859,7 +859,27 @@ static void elmparsestr_add(char c) {
   elmparsestrbuf[elmparsestrlen]=0;
 }
 
-#line 863 "Parser/dbotter.yy.c"
+/* a minus sign just before digits belongs to the number unless it stands
+   after an operand: the scanner proper is wr_otterlex, called by yylex below,
+   which stores the last token here */
+static int lasttoken;
+
+static int wr_ends_operand(int token) {
+  switch (token) {
+    case TINT: case TFLOAT: case TDATE: case TIME: case STRING: case ID:
+    case URI: case CONSTURI: case UNIQUEURI: case TCONST: case VAR: 
+    case EMPTYSTRING: case ')': case ']':
+      return 1;
+    default:
+      return 0;
+  }
+}
+
+#define YY_USER_INIT lasttoken=0;
+#define YY_DECL static int wr_otterlex(YYSTYPE* yylval_param, yyscan_t yyscanner)
+YY_DECL;
+
+#line 883 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -867,7 +887,7 @@ static void elmparsestr_add(char c) {
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 871 "Parser/dbotter.yy.c"
+#line 891 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1142,10 +1162,10 @@ YY_DECL
 		}
 
 	{
-#line 146 "Parser/dbotter.l"
+#line 166 "Parser/dbotter.l"
 
 
-#line 1149 "Parser/dbotter.yy.c"
+#line 1169 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1172,13 +1192,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 102 )
+				if ( yy_current_state >= 105 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 140 );
+		while ( yy_base[yy_current_state] != 145 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1216,7 +1236,7 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 148 "Parser/dbotter.l"
+#line 168 "Parser/dbotter.l"
 {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
@@ -1225,7 +1245,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 154 "Parser/dbotter.l"
+#line 174 "Parser/dbotter.l"
 {
               parseprintf( "an neq: %s", yytext);
               *yylval=yytext;	      
@@ -1234,7 +1254,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 161 "Parser/dbotter.l"
+#line 181 "Parser/dbotter.l"
 {
               parseprintf( "an eq: %s", yytext);
               *yylval=yytext;	      
@@ -1243,7 +1263,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 167 "Parser/dbotter.l"
+#line 187 "Parser/dbotter.l"
 {
               parseprintf( "an rimp: %s", yytext);
               *yylval=yytext;	      
@@ -1252,7 +1272,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 173 "Parser/dbotter.l"
+#line 193 "Parser/dbotter.l"
 {
               parseprintf( "an limp: %s", yytext);
               *yylval=yytext;	      
@@ -1261,7 +1281,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 179 "Parser/dbotter.l"
+#line 199 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1270,7 +1290,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "Parser/dbotter.l"
+#line 205 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1279,7 +1299,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 191 "Parser/dbotter.l"
+#line 211 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1288,7 +1308,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "Parser/dbotter.l"
+#line 217 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1297,7 +1317,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 203 "Parser/dbotter.l"
+#line 223 "Parser/dbotter.l"
 {
               parseprintf( "an @: %s", yytext);
               *yylval=yytext;	      
@@ -1306,7 +1326,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 209 "Parser/dbotter.l"
+#line 229 "Parser/dbotter.l"
 {
               parseprintf( "an emptystring: %s", yytext);
               *yylval="$emptystr";	      
@@ -1315,7 +1335,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 215 "Parser/dbotter.l"
+#line 235 "Parser/dbotter.l"
 { parseprintf( "An integer: %s (%d)\n",yytext,atoi(yytext));	           
               *yylval=yytext;              
               return TINT; 
@@ -1323,7 +1343,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 219 "Parser/dbotter.l"
+#line 239 "Parser/dbotter.l"
 {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
@@ -1332,297 +1352,317 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 225 "Parser/dbotter.l"
+#line 245 "Parser/dbotter.l"
+{
+              if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
+              parseprintf( "A negative integer: %s\n",yytext);
+              *yylval=yytext;              
+              return TINT; 
+	    }
+	YY_BREAK
+case 15:
+YY_RULE_SETUP
+#line 251 "Parser/dbotter.l"
+{
+              if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
+              parseprintf( "A negative float: %s", yytext);
+              *yylval=yytext;	      
+              return TFLOAT; 
+	    }
+	YY_BREAK
+case 16:
+YY_RULE_SETUP
+#line 258 "Parser/dbotter.l"
 {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
               return TDATE;      
       }
 	YY_BREAK
-case 15:
+case 17:
 YY_RULE_SETUP
-#line 231 "Parser/dbotter.l"
+#line 264 "Parser/dbotter.l"
 {
               parseprintf( "A time: %s\n", yytext);			  
 	            *yylval=yytext; 
               return TIME; 
 	    }  	    
 	YY_BREAK
-case 16:
+case 18:
 YY_RULE_SETUP
-#line 237 "Parser/dbotter.l"
+#line 270 "Parser/dbotter.l"
 { BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
-case 17:
+case 19:
 YY_RULE_SETUP
-#line 238 "Parser/dbotter.l"
+#line 271 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
-case 18:
+case 20:
 YY_RULE_SETUP
-#line 239 "Parser/dbotter.l"
+#line 272 "Parser/dbotter.l"
 { elmparsestr_add('\\'); } 
 	YY_BREAK
-case 19:
+case 21:
 YY_RULE_SETUP
-#line 240 "Parser/dbotter.l"
+#line 273 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
-case 20:
+case 22:
 YY_RULE_SETUP
-#line 241 "Parser/dbotter.l"
+#line 274 "Parser/dbotter.l"
 { elmparsestr_add('\"'); } 
 	YY_BREAK
-case 21:
+case 23:
 YY_RULE_SETUP
-#line 242 "Parser/dbotter.l"
+#line 275 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return UNIQUEURI;
                 } 
 	YY_BREAK
-case 22:
-/* rule 22 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 247 "Parser/dbotter.l"
+#line 280 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 23:
+case 25:
 YY_RULE_SETUP
-#line 252 "Parser/dbotter.l"
+#line 285 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
-case 24:
+case 26:
 YY_RULE_SETUP
-#line 255 "Parser/dbotter.l"
+#line 288 "Parser/dbotter.l"
 { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
-case 25:
+case 27:
 YY_RULE_SETUP
-#line 256 "Parser/dbotter.l"
+#line 289 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
-case 26:
+case 28:
 YY_RULE_SETUP
-#line 257 "Parser/dbotter.l"
+#line 290 "Parser/dbotter.l"
 { elmparsestr_add('\\'); } 
 	YY_BREAK
-case 27:
+case 29:
 YY_RULE_SETUP
-#line 258 "Parser/dbotter.l"
+#line 291 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
-case 28:
+case 30:
 YY_RULE_SETUP
-#line 259 "Parser/dbotter.l"
+#line 292 "Parser/dbotter.l"
 { elmparsestr_add('\''); } 
 	YY_BREAK
-case 29:
+case 31:
 YY_RULE_SETUP
-#line 260 "Parser/dbotter.l"
+#line 293 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
 		              return CONSTURI;
                 } 
 	YY_BREAK
-case 30:
-/* rule 30 can match eol */
+case 32:
+/* rule 32 can match eol */
 YY_RULE_SETUP
-#line 265 "Parser/dbotter.l"
+#line 298 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 31:
+case 33:
 YY_RULE_SETUP
-#line 270 "Parser/dbotter.l"
+#line 303 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
-case 32:
+case 34:
 YY_RULE_SETUP
-#line 273 "Parser/dbotter.l"
+#line 306 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
-case 33:
+case 35:
 YY_RULE_SETUP
-#line 275 "Parser/dbotter.l"
+#line 308 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
-case 34:
+case 36:
 YY_RULE_SETUP
-#line 276 "Parser/dbotter.l"
+#line 309 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-#line 277 "Parser/dbotter.l"
+#line 310 "Parser/dbotter.l"
 ;
 	YY_BREAK
-case 36:
+case 38:
 YY_RULE_SETUP
-#line 278 "Parser/dbotter.l"
+#line 311 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
-case 37:
+case 39:
 YY_RULE_SETUP
-#line 280 "Parser/dbotter.l"
+#line 313 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }  
 	YY_BREAK
-case 38:
+case 40:
 YY_RULE_SETUP
-#line 286 "Parser/dbotter.l"
+#line 319 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }      
 	YY_BREAK
-case 39:
+case 41:
 YY_RULE_SETUP
-#line 292 "Parser/dbotter.l"
+#line 325 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
 	        return VAR;
 	      } 
 	YY_BREAK
-case 40:
-/* rule 40 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 298 "Parser/dbotter.l"
+#line 331 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
-case 41:
+case 43:
 YY_RULE_SETUP
-#line 302 "Parser/dbotter.l"
+#line 335 "Parser/dbotter.l"
 { } /* eat up line comment until end of line */
 	YY_BREAK
-case 42:
+case 44:
 YY_RULE_SETUP
-#line 304 "Parser/dbotter.l"
+#line 337 "Parser/dbotter.l"
 return '-';
 	YY_BREAK
-case 43:
+case 45:
 YY_RULE_SETUP
-#line 305 "Parser/dbotter.l"
+#line 338 "Parser/dbotter.l"
 return '~';
 	YY_BREAK
-case 44:
+case 46:
 YY_RULE_SETUP
-#line 306 "Parser/dbotter.l"
+#line 339 "Parser/dbotter.l"
 return '|';
 	YY_BREAK
-case 45:
+case 47:
 YY_RULE_SETUP
-#line 307 "Parser/dbotter.l"
+#line 340 "Parser/dbotter.l"
 return ')';
 	YY_BREAK
-case 46:
+case 48:
 YY_RULE_SETUP
-#line 308 "Parser/dbotter.l"
+#line 341 "Parser/dbotter.l"
 return '(';
 	YY_BREAK
-case 47:
+case 49:
 YY_RULE_SETUP
-#line 309 "Parser/dbotter.l"
+#line 342 "Parser/dbotter.l"
 return '}';
 	YY_BREAK
-case 48:
+case 50:
 YY_RULE_SETUP
-#line 310 "Parser/dbotter.l"
+#line 343 "Parser/dbotter.l"
 return '{';
 	YY_BREAK
-case 49:
+case 51:
 YY_RULE_SETUP
-#line 311 "Parser/dbotter.l"
+#line 344 "Parser/dbotter.l"
 return ',';
 	YY_BREAK
-case 50:
+case 52:
 YY_RULE_SETUP
-#line 312 "Parser/dbotter.l"
+#line 345 "Parser/dbotter.l"
 return '.';
 	YY_BREAK
-case 51:
+case 53:
 YY_RULE_SETUP
-#line 314 "Parser/dbotter.l"
+#line 347 "Parser/dbotter.l"
 return ']';
 	YY_BREAK
-case 52:
+case 54:
 YY_RULE_SETUP
-#line 315 "Parser/dbotter.l"
+#line 348 "Parser/dbotter.l"
 return '[';
 	YY_BREAK
-case 53:
+case 55:
 YY_RULE_SETUP
-#line 316 "Parser/dbotter.l"
+#line 349 "Parser/dbotter.l"
 return '!';
 	YY_BREAK
-case 54:
+case 56:
 YY_RULE_SETUP
-#line 317 "Parser/dbotter.l"
+#line 350 "Parser/dbotter.l"
 return '?';
 	YY_BREAK
-case 55:
+case 57:
 YY_RULE_SETUP
-#line 318 "Parser/dbotter.l"
+#line 351 "Parser/dbotter.l"
 return ':';
 	YY_BREAK
-case 56:
+case 58:
 YY_RULE_SETUP
-#line 319 "Parser/dbotter.l"
+#line 352 "Parser/dbotter.l"
 return '&';
 	YY_BREAK
-case 57:
+case 59:
 YY_RULE_SETUP
-#line 321 "Parser/dbotter.l"
+#line 354 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
-case 58:
+case 60:
 YY_RULE_SETUP
-#line 322 "Parser/dbotter.l"
+#line 355 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 324 "Parser/dbotter.l"
+#line 357 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
 	          }
 	YY_BREAK
-case 59:
+case 61:
 YY_RULE_SETUP
-#line 329 "Parser/dbotter.l"
+#line 362 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
-case 60:
+case 62:
 YY_RULE_SETUP
-#line 331 "Parser/dbotter.l"
+#line 364 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
-case 61:
+case 63:
 YY_RULE_SETUP
-#line 334 "Parser/dbotter.l"
+#line 367 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1626 "Parser/dbotter.yy.c"
+#line 1666 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1919,7 +1959,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 102 )
+			if ( yy_current_state >= 105 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1948,11 +1988,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 102 )
+		if ( yy_current_state >= 105 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 101);
+	yy_is_jam = (yy_current_state == 104);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2770,10 +2810,15 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 334 "Parser/dbotter.l"
+#line 367 "Parser/dbotter.l"
 
 
 
+int yylex(YYSTYPE* yylval_param, yyscan_t yyscanner) {
+  lasttoken=wr_otterlex(yylval_param,yyscanner);
+  return lasttoken;
+}
+
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   int i;
   char *s;
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index 2c358e4..0681971 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -119,6 +119,26 @@ static void elmparsestr_add(char c) {
   elmparsestrbuf[elmparsestrlen]=0;
 }
 
+/* a minus sign just before digits belongs to the number unless it stands
+   after an operand: the scanner proper is wr_otterlex, called by yylex below,
+   which stores the last token here */
+static int lasttoken;
+
+static int wr_ends_operand(int token) {
+  switch (token) {
+    case TINT: case TFLOAT: case TDATE: case TIME: case STRING: case ID:
+    case URI: case CONSTURI: case UNIQUEURI: case TCONST: case VAR: 
+    case EMPTYSTRING: case ')': case ']':
+      return 1;
+    default:
+      return 0;
+  }
+}
+
+#define YY_USER_INIT lasttoken=0;
+#define YY_DECL static int wr_otterlex(YYSTYPE* yylval_param, yyscan_t yyscanner)
+YY_DECL;
+
 %}
 
 %option reentrant 
@@ -222,6 +242,19 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TFLOAT; 
 	    }
 	    
+"-"{DIGIT}+    {
+              if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
+              parseprintf( "A negative integer: %s\n",yytext);
+              *yylval=yytext;              
+              return TINT; 
+	    }
+"-"{DIGIT}+"."{DIGIT}+    {
+              if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
+              parseprintf( "A negative float: %s", yytext);
+              *yylval=yytext;	      
+              return TFLOAT; 
+	    }
+
 {DIGIT}{DIGIT}{DIGIT}{DIGIT}"-"{DIGIT}{DIGIT}"-"{DIGIT}{DIGIT} {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
@@ -334,6 +367,11 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 %%
 
 
+int yylex(YYSTYPE* yylval_param, yyscan_t yyscanner) {
+  lasttoken=wr_otterlex(yylval_param,yyscanner);
+  return lasttoken;
+}
+
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   int i;
   char *s;
-- 
2.43.0


From 85887c564225d8105654565d9802fdb4ce3ece06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 46/64] fix: convert the distinct string "$true" to JSON as a
 string

---
 Printer/dbotterprint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 76fb619..e4dc652 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -2119,10 +2119,10 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
           pos+=snprintf((*buf)+pos,(*len)-pos,"\"#:\"" );  
         } else if (!strcmp(p,EMPTYSTRING)) {
           pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"");                
-        } else if (!strcmp(p,"$true")) {
+        } else if (wg_atomstr2(db,ptr)==NULL && !strcmp(p,"$true")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"false");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"true");
-        } else if (!strcmp(p,"$false")) {
+        } else if (wg_atomstr2(db,ptr)==NULL && !strcmp(p,"$false")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"true");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"false");
          } else if (WG_URITYPE) {
-- 
2.43.0


From 4c7e5ac4e768cd4329d4bc57af1e08a9b6b80b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 47/64] fix: evaluate $is_list, $is_atom and $is_distinct
 instead of taking the first list element

---
 Reasoner/build.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 1615c7c..28246a8 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
@@ -1707,6 +1709,9 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
               str[4]=='\0')         
             return ACONST_TRUE; 
           break;                
+        case COMP_FUN_IS_UNIQUE:
+          if (wr_uri_is_list(g,a)) return ACONST_FALSE; // the empty list
+          break;
       }  
     }  
   }
-- 
2.43.0


From c78755a6e0aa0caf3f70fe15e189dfc20b126355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 48/64] fix: string functions of the empty string, of ordinary
 symbols and at positions outside the string

---
 Reasoner/build.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 28246a8..ead827e 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1459,9 +1459,12 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // evaluated for distinct symbols only
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
-  if(!as || !bs) return encode_record(db,tptr);
+  if (!as) as="";  // the empty distinct symbol
+  if (!bs) bs="";
   switch(comp) {
     case COMP_FUN_IS_SUBSTR: 
       tmp=strstr(bs,as);
@@ -1473,11 +1476,11 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
+      if (ci<0) return ACONST_FALSE;
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
+      if (ci>len) return ACONST_FALSE;      
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
+      if (len2+ci>len) return ACONST_FALSE;
       itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
@@ -1689,12 +1692,9 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
           break;  
         case COMP_FUN_STRLEN:
           str=wg_decode_uri(db,a);
-          if (str) {
-            return wg_encode_int(g->local_db,(gint)(strlen(str)));
-            break; 
-          } else {
-            break;  
-          }  
+          if (!str) str="";  // the empty distinct symbol
+          return wg_encode_int(g->local_db,(gint)(strlen(str)));
+          break; 
       }    
     } else {
       // not a unique uri
-- 
2.43.0


From 3e00f61b87ddee3b976ecd8ec965baed76a7ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 49/64] fix: lists differing at a later position are unequal
 also if an earlier one is undetermined

---
 Reasoner/build.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index ead827e..e462b6e 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1195,7 +1195,7 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
   if (btype==WG_VARTYPE) return encode_record(db,tptr);
   // here we have not equal a and b with non-var types
 #ifdef LISTPROCESSING
-  gint tmp, ael, bel;
+  gint tmp, tmp2, ael, bel;
   gptr aptr, bptr;  
   aptr=rotp(g,a);
   bptr=rotp(g,b);
@@ -1228,13 +1228,13 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
     bel=wg_get_field(db,bptr,2);    
     tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
     if (tmp==ACONST_FALSE) return ACONST_FALSE;
-    if (tmp!=ACONST_TRUE) return tmp;
     ael=wg_get_field(db,aptr,3);
     bel=wg_get_field(db,bptr,3);     
-    tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
-    if (tmp==ACONST_FALSE) return ACONST_FALSE;
+    // the rest may be known to be unequal also when the first elements are not
+    tmp2=wr_compute_fun_equal_terms(g,ael,bel,tptr);
+    if (tmp2==ACONST_FALSE) return ACONST_FALSE;
     if (tmp!=ACONST_TRUE) return tmp;
-    return ACONST_TRUE;
+    return tmp2;
   } else if (atype==WG_URITYPE && btype==WG_URITYPE &&
             (wr_uri_is_unique(g,a) || wr_uri_is_list(g,a)) && 
             (wr_uri_is_unique(g,b) || wr_uri_is_list(g,b)) ) { 
-- 
2.43.0


From 7cf25d71224a4980cb80a74e2569659364837bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 50/64] fix: compare an integer and a real exactly

---
 Reasoner/build.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index e462b6e..650fbe1 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1260,12 +1260,25 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
 #endif  
 }
 
+/* Compare two numbers exactly: -1, 0 or 1 for a<b, a=b or a>b */
+static int wr_compare_gint_double(gint a, double b) {
+  gint bi;
+
+  if (b>=9223372036854775808.0) return -1;
+  if (b<-9223372036854775808.0) return 1;
+  bi=(gint)b;  // truncated towards zero
+  if (a!=bi) return (a<bi) ? -1 : 1;
+  if (b==(double)bi) return 0;
+  return ((double)bi<b) ? -1 : 1;
+}
+
 gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) { 
   void* db=g->db;
   int len;
   gint a,b;
   gint atype, btype;
   double ad,bd;
+  int cmp;
 
   len=get_record_len(tptr);
   if (len<(g->unify_firstuseterm)+3) return encode_record(db,tptr);  
@@ -1294,11 +1307,15 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (atype==WG_INTTYPE) cmp=wr_compare_gint_double(wg_decode_int(db,a),bd);
+    else if (btype==WG_INTTYPE) cmp=0-wr_compare_gint_double(wg_decode_int(db,b),ad);
+    else cmp=(ad<bd) ? -1 : (ad>bd);
+    if (!cmp) return ifequal; // an integer and a real with the same value
     if (isless) {
-      if (ad < bd) return ACONST_TRUE;
+      if (cmp<0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     } else {
-      if (ad > bd) return ACONST_TRUE;
+      if (cmp>0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     }                  
   }  
-- 
2.43.0


From e27b6e1b65c6aee1469e4609f7ddd3f32c018c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 51/64] fix: do not read or compute a minus zero, which differs
 from zero as a term

---
 Builtparser/dbparse.c | 2 +-
 Parser/dbparse.c      | 2 +-
 Reasoner/build.c      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 069e4d3..ec04886 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1718,7 +1718,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break;
       case WG_DOUBLETYPE:
         errno=0;
-        doubledata = strtod(str1,NULL);
+        doubledata = strtod(str1,NULL)+0.0; // no minus zero
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_double(db, doubledata);
         } else {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 069e4d3..ec04886 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1718,7 +1718,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break;
       case WG_DOUBLETYPE:
         errno=0;
-        doubledata = strtod(str1,NULL);
+        doubledata = strtod(str1,NULL)+0.0; // no minus zero
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_double(db, doubledata);
         } else {
diff --git a/Reasoner/build.c b/Reasoner/build.c
index 650fbe1..c21cb57 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1454,7 +1454,7 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         return encode_record(db,tptr);
     }
     if (!isfinite(rd)) return encode_record(db,tptr);
-    return wg_encode_double(g->local_db,rd);        
+    return wg_encode_double(g->local_db,rd+0.0); // never minus zero       
   }  
 } 
 
@@ -1656,7 +1656,7 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
       case COMP_FUN_UMINUS: 
         rd=wg_decode_double(db,a);
         if (!isfinite(rd)) return encode_record(db,tptr);
-        return wg_encode_double(g->local_db,0-rd);
+        return wg_encode_double(g->local_db,0.0-rd); // never minus zero
         break;   
       default:
         return encode_record(db,tptr);
-- 
2.43.0


From 4b7db0be99b3a97877784a7ca034e67817f8c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 52/64] fix: compute the TPTP quotients, remainders and
 roundings with exact values

---
 Reasoner/build.c | 133 +++++++++++++++++++++++++++--------------------
 1 file changed, 78 insertions(+), 55 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index c21cb57..c412e47 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -97,6 +97,62 @@ static int wr_double_to_gint_checked(double value,gint* result) {
   return 1;
 }
 
+/* Integers above 2^53 may have no exact double */
+static int wr_gint_to_double_exact(gint value,double* result) {
+  if (value>((gint)1<<53) || value<-((gint)1<<53)) return 0;
+  *result=(double)value;
+  return 1;
+}
+
+/* The TPTP quotients: _t rounds towards zero, _f down, _e down for a positive and
+   up for a negative divisor */
+static int wr_gint_quotient_checked(gint a,gint b,int comp,gint* result) {
+  gint q,r;
+
+  if (!b || (a==(gint)INTPTR_MIN && b==-1)) return 0;
+  q=a/b;
+  r=a%b;
+  if (comp==COMP_FUN_QUOTIENT_F) {
+    if (r && ((r<0)!=(b<0))) q--;
+  } else if (comp==COMP_FUN_QUOTIENT_E) {
+    if (r<0) { if (b>0) q--; else q++; }
+  }
+  *result=q;
+  return 1;
+}
+
+/* The TPTP remainders: a minus b times the quotient of the same kind */
+static int wr_gint_remainder_checked(gint a,gint b,int comp,gint* result) {
+  gint r;
+
+  if (!b) return 0;
+  r=(b==-1) ? 0 : a%b;
+  if (comp==COMP_FUN_REMAINDER_F) {
+    if (r && ((r<0)!=(b<0))) r+=b;
+  } else if (comp==COMP_FUN_REMAINDER_E) {
+    if (r<0) { if (b>0) r+=b; else r-=b; }
+  }
+  *result=r;
+  return 1;
+}
+
+/* The same quotients for doubles. The rounded a/b may have reached an integer the exact
+   quotient does not: fmod tells on which side it is */
+static int wr_double_quotient_checked(double a,double b,int comp,gint* result) {
+  double q,r;
+
+  r=fmod(a,b); // exact, with the sign of a
+  q=trunc(a/b);
+  if (fabs(a/b)<1125899906842624.0) q=rint((a-r)/b); // correct below 2^50
+  else if (r!=0.0) return 0;
+  if (comp==COMP_FUN_QUOTIENT_F) {
+    if (r!=0.0 && ((r<0.0)!=(b<0.0))) q=q-1.0;
+  } else if (comp==COMP_FUN_QUOTIENT_E) {
+    if (r<0.0) { if (b>0.0) q=q-1.0; else q=q+1.0; }
+  }
+  return wr_double_to_gint_checked(q,result);
+}
+
 
 /* ====== Functions ============== */
 
@@ -1355,35 +1411,23 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
       case COMP_FUN_DIV:
         if (!bi) return encode_record(db,tptr);
         if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        if (ai % bi) {
+          // the exact quotient is not an integer
+          if (!wr_gint_to_double_exact(ai,&ad) || !wr_gint_to_double_exact(bi,&bd)) 
+            return encode_record(db,tptr);
+          return wg_encode_double(g->local_db,ad/bd);
+        }
         ri=ai / bi;
         break;  
       case COMP_FUN_QUOTIENT_E:
-        if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;  
       case COMP_FUN_QUOTIENT_T:
-        if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
       case COMP_FUN_QUOTIENT_F:
-        if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
+        if (!wr_gint_quotient_checked(ai,bi,comp,&ri)) return encode_record(db,tptr);
+        break;
       case COMP_FUN_REMAINDER_E:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;  
       case COMP_FUN_REMAINDER_T:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;   
       case COMP_FUN_REMAINDER_F:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (!wr_gint_remainder_checked(ai,bi,comp,&ri)) return encode_record(db,tptr);
         break;      
       default:
         return encode_record(db,tptr);
@@ -1391,10 +1435,12 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
     return wg_encode_int(g->local_db,ri);    
   } else { 
     // double res case
-    if (atype==WG_INTTYPE) ad=(double)(wg_decode_int(db,a));
-    else ad=wg_decode_double(db,a);
-    if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
-    else bd=wg_decode_double(db,b);
+    if (atype==WG_INTTYPE) {
+      if (!wr_gint_to_double_exact(wg_decode_int(db,a),&ad)) return encode_record(db,tptr);
+    } else ad=wg_decode_double(db,a);
+    if (btype==WG_INTTYPE) {
+      if (!wr_gint_to_double_exact(wg_decode_int(db,b),&bd)) return encode_record(db,tptr);
+    } else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
     switch (comp) {
       case COMP_FUN_PLUS:
@@ -1411,43 +1457,20 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         rd=ad/bd;
         break; 
       case COMP_FUN_QUOTIENT_E:       
-        if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        return wg_encode_int(g->local_db,ri);        
-        break;  
       case COMP_FUN_QUOTIENT_T:        
-        if (bd==0.0) return encode_record(db,tptr);
-        rd=trunc(ad/bd);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        return wg_encode_int(g->local_db,ri);
-        break;   
       case COMP_FUN_QUOTIENT_F:
-        if (bd==0.0) return encode_record(db,tptr);       
-        rd=floor(ad/bd);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (bd==0.0) return encode_record(db,tptr);
+        if (!wr_double_quotient_checked(ad,bd,comp,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);
         break;  
       case COMP_FUN_REMAINDER_E:       
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);        
-        break;  
       case COMP_FUN_REMAINDER_T:        
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
-        break;   
       case COMP_FUN_REMAINDER_F:
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
+        if (ad!=trunc(ad) || bd!=trunc(bd) ||
+            !wr_double_to_gint_checked(ad,&ai) ||
+            !wr_double_to_gint_checked(bd,&bi) ||
+            !wr_gint_remainder_checked(ai,bi,comp,&ri))
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
         return wg_encode_int(g->local_db,ri);
         break;      
       default: 
@@ -1647,7 +1670,7 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
         break;
       case COMP_FUN_ROUND: 
         rd=wg_decode_double(db,a); 
-        rd=round(rd);
+        rd=rint(rd); // halfway cases to the even integer, as in TPTP
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);
         //ri=wg_decode_int(db,a); 
-- 
2.43.0


From 82c0607743a87bbc46ab920ead04e44e3b84fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 53/64] fix: all occurrences of the empty distinct string are
 the same symbol

---
 Builtparser/dbparse.c | 1 +
 Parser/dbparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index ec04886..befe4c1 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1735,6 +1735,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (!str1) str1=""; // an empty symbol: all its occurrences are the same 
         if (str1 && *str1 && (!str2 || !strcmp(str2,"c")) && 
             !(g->parse_question_as_var && str1[0]=='?' && !str2) &&
             !(!str2 && str1[1]=='\0' && strchr("=-+*/><",str1[0]))) {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index ec04886..befe4c1 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1735,6 +1735,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (!str1) str1=""; // an empty symbol: all its occurrences are the same 
         if (str1 && *str1 && (!str2 || !strcmp(str2,"c")) && 
             !(g->parse_question_as_var && str1[0]=='?' && !str2) &&
             !(!str2 && str1[1]=='\0' && strchr("=-+*/><",str1[0]))) {
-- 
2.43.0


From 47f8e184bc351416efbb569954ab4665dac20fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:24 +0000
Subject: [PATCH 54/64] fix: arithmetic instantiation used the absent clause
 hash of other strategies

---
 Reasoner/arithinst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..08574ca 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -716,7 +716,8 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
     ++(g->stat_arithinst_proofs);
     return 1;
   }
-  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,&clhash);
+  // the clause hash is present only with the instgen and propgen strategies
+  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,(g->prop_hash_clauses ? &clhash : NULL));
   if (tmp<0) return 0;
   if (tmp>0) {
     cuts=g->cut_clvec;
@@ -764,7 +765,7 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
   g->avg_kept_weight=avg;
   resmeta=wr_calc_clause_meta(g,res,cl_metablock);
   hash=wr_add_cl_to_unithash(g,res,resmeta);
-  if (hash<0) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
+  if (hash<0 && g->prop_hash_clauses) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
   if (g->propagate) {
     if (hash>=0) {
       wr_propagate_unit(g,res,resmeta,hash,parent);
-- 
2.43.0


From d9b6f0ad3f1ba3dbe27948ccb6adb6665d89a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:32 +0000
Subject: [PATCH 55/64] fix: strategy text printed with the result was
 uninitialised memory without a strategy

---
 Reasoner/glb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..1322b8e 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -118,6 +118,7 @@ int wr_glb_init_simple(glb* g) {
   //printf("\nwr_glb_init_simple called\n");
   (g->filename)=NULL;
   (g->outfilename)=NULL;
+  (g->guidetext)[0]=0;
   (g->proof_found)=0; // becomes 1 if proof found
   (g->proof_answer)=NULL; // becomes a ptr to pure answer clause
   (g->proof_history)=wg_encode_null(g->db,NULL); // becomes a gint encoding of the constructed history
-- 
2.43.0


From 40f9c651cf0d550ed65a0933c5ea6dec6a21b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:52 +0000
Subject: [PATCH 56/64] fix: the time limit signal could add a second result
 after the search had ended

---
 Main/gkc.c       | 6 ++++++
 Reasoner/rmain.c | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index 03f8d68..4b5c937 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -422,6 +422,9 @@ int gkc_main(int argc, char **argv) {
       err = wg_run_converter(shmptr,inputname,stratfile,informat,NULL,NULL);
     } else {      
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      if (seconds) alarm(0); // the search is over: the time limit must not add another result
+#endif
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");
@@ -709,6 +712,9 @@ int gkc_main(int argc, char **argv) {
       //err = wg_run_converter(shmptrlocal,inputname,stratfile,informat,NULL,NULL);
     } else {
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      if (seconds) alarm(0); // the search is over: the time limit must not add another result
+#endif
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");        
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 2da34b3..faa6327 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -843,6 +843,9 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     //printf("\n res is %d\n",res);
     if (res==0) {
       //wr_printf("\n\nProof found.\n"); 
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      alarm(0); // the result is known: the time limit must not add another
+#endif
       wr_show_result(g,g->proof_history);
     } else if (res==1) {
       if (wr_have_answers(g)) {
-- 
2.43.0


From cc024666b78a33b131f48a0b3f7112f2dd5d169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:25 +0000
Subject: [PATCH 57/64] fix: clauses of a shared kb entered the search with the
 subsumption data of other clauses

---
 Reasoner/clmeta.c   | 4 ++--
 Reasoner/rgenloop.c | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/Reasoner/clmeta.c b/Reasoner/clmeta.c
index a4e473d..9044d26 100644
--- a/Reasoner/clmeta.c
+++ b/Reasoner/clmeta.c
@@ -485,7 +485,7 @@ gint wr_calc_clause_meta(glb* g, gptr xptr, gptr cl_metablock) {
         wr_print_clause(g,xptr);
         wr_print_term_metacalc(g,&litmeta);
       }       
-      wg_set_rule_clause_atom_meta(db,xptr,i,litmetagint); // !!!
+      if (!wg_in_attached_kb(xptr)) wg_set_rule_clause_atom_meta(db,xptr,i,litmetagint); // !!!
       if (xatomnr<2) {
         //clmetagint=wr_litmeta_to_gint(g,&litmeta);
       } else {
@@ -658,7 +658,7 @@ gint wr_calc_term_meta(glb* g, gint x, int depth, int pos, term_metacalc* metapt
 #ifdef USE_TERM_META    
   if (!hasvars) tmeta=tmeta | TERMMETA_GROUND_MASK;
 #ifdef STORE_TERMMETA
-  xptr[start-TERMMETA_POS_DIFF]=encode_smallint(tmeta);
+  if (!wg_in_attached_kb(xptr)) xptr[start-TERMMETA_POS_DIFF]=encode_smallint(tmeta);
 #ifdef DEBUG
   if (xptr[start-TERMMETA_POS_DIFF]==0 || !isdatarec(xptr[start-TERMMETA_POS_DIFF])) {    
     wr_printf("\nOK %ld %ld\n",xptr[start-TERMMETA_POS_DIFF],tmeta);
diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 1f78b0a..1f688d6 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -330,9 +330,8 @@ int wr_genloop(glb* g) {
       continue;
     }
     simplen=wg_count_clause_atoms(db,given_cl_cand);
-    if (!wg_in_attached_kb(given_cl_cand)) { // kb clause metas were stored at build time
-      wr_calc_clause_meta(g,given_cl_cand,given_cl_metablock);
-    }
+    // for kb clauses fills the metablock without writing to the kb
+    wr_calc_clause_meta(g,given_cl_cand,given_cl_metablock);
     // -- check part 1 starts ---
     if ((gint)given_cl_cand==ACONST_FALSE) {
       wr_printf("\ngiven_cl_cand is ACONST_FALSE\n");
-- 
2.43.0


From c845ac7e97dbc3f5189f10548710f43ea819df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:00 +0000
Subject: [PATCH 58/64] fix: names of inputs were printed in JSON and TPTP
 proofs without escaping

---
 Reasoner/history.c | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 1b0040b..3522ff7 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1553,6 +1553,25 @@ int wr_show_result(glb* g, gint history) {
   return bpos;
 }
  
+/** Print the name of an input inside the quotes q, escaping it, with the given 
+ *  texts before and after it.
+ */
+static int wr_strprint_name(glb* g, char** buf, int* blen, int bpos,
+                            char* before, char* name, char* after, char q) {
+  unsigned char c;
+
+  if (!wr_str_guarantee_space(g,buf,blen,bpos+6*strlen(name)+100)) return -1;
+  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"%s",before);
+  for(; *name!=0; name++) {
+    c=(unsigned char)(*name);
+    if (c==(unsigned char)q || c=='\\') *((*buf)+bpos++)='\\';
+    if (q=='"' && c<' ') bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\\u%04x",c);
+    else *((*buf)+bpos++)=c;
+  }
+  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"%s",after);
+  return bpos;
+}
+
 #define INPUTS_INITIAL_SIZE 1000
 
 int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpos,
@@ -1722,8 +1741,10 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', axiom, ",inputstr);
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
 
-                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', %s, ",
-                  inputstr,wg_atomstr1(child_db,tmpptr));
+                bpos=wr_strprint_name(g,buf,blen,bpos,"\nfof('",inputstr,"'",'\'');
+                if (bpos<0) return bpos;
+                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", %s, ",
+                  wg_atomstr1(child_db,tmpptr));
               } else {
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ","input");
               } 
@@ -1763,7 +1784,8 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
               // print
               if (g->print_proof_tptp) {
                 if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
-                  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', plain, ",atomstr);
+                  bpos=wr_strprint_name(g,buf,blen,bpos,"\nfof('",atomstr,"', plain, ",'\'');
+                  if (bpos<0) return bpos;
                   //bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
 
                   //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', %s, ",
@@ -1773,8 +1795,10 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 } 
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
                 bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
-                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                  ",\n  inference(negpush_and_skolemize,[],['%s'])).",inputstr);    
+                if (bpos<0) return bpos;
+                bpos=wr_strprint_name(g,buf,blen,bpos,
+                  ",\n  inference(negpush_and_skolemize,[],['",inputstr,"'])).",'\'');
+                if (bpos<0) return bpos;
               } else {
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",atomstr);    
                 if (bpos<0) return bpos;
@@ -1876,8 +1900,10 @@ int wr_strprint_one_history
       }
       namestr=wg_decode_str(db,name);
       if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namestr))) return -1;
-      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", \"%s\"",namestr);
-      else {
+      if (g->print_json) {
+        bpos=wr_strprint_name(g,buf,blen,bpos,", \"",namestr,"\"",'"');
+        if (bpos<0) return bpos;
+      } else {
         if ((g->print_fof_conversion_proof) && (g->store_fof_skolem_steps) &&
             namestr) {
           skfound=0;
@@ -1891,15 +1917,17 @@ int wr_strprint_one_history
           }
           if (skfound) {
             if (g->print_proof_tptp) {
-              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                ",\n  inference(cnf_transformation,[],['%s%s']))",namestr,SKOLEM_CLNAME_SUFFIX);
+              bpos=wr_strprint_name(g,buf,blen,bpos,
+                ",\n  inference(cnf_transformation,[],['",namestr,SKOLEM_CLNAME_SUFFIX "']))",'\'');
+              if (bpos<0) return bpos;
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s%s",namestr,SKOLEM_CLNAME_SUFFIX);
             }
           } else {
             if (g->print_proof_tptp) {
-              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                ",\n  inference(cnf_transformation,[],['%s']))",namestr);
+              bpos=wr_strprint_name(g,buf,blen,bpos,
+                ",\n  inference(cnf_transformation,[],['",namestr,"']))",'\'');
+              if (bpos<0) return bpos;
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
             }  
-- 
2.43.0


From bf62ba27efa460ff294102f878175925e596d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:05 +0000
Subject: [PATCH 59/64] fix: syntax error messages overflowed their buffer on
 long names and were not valid JSON

---
 Builtparser/dbotter.yy.c | 154 +++++++++++++++++++--------------------
 Builtparser/dbparse.c    |  44 ++++++++---
 Builtparser/dbparse.h    |   1 +
 Builtparser/jsparse.c    |  19 +++--
 Parser/dbotter.l         |  14 ++--
 Parser/dbparse.c         |  44 ++++++++---
 Parser/dbparse.h         |   1 +
 Parser/jsparse.c         |  19 +++--
 8 files changed, 164 insertions(+), 132 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index 4001747..6a21a04 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -773,6 +773,8 @@ static const flex_int32_t yy_rule_can_match_eol[64] =
 #include "dbotterparse.h"
 #include "dbotter.tab.h"
 
+char* wr_json_errmsg(char* prefix, char* msg); // in dbparse.c
+
 /*  reentrant stuff starts */
 
 #define PARM    yyget_extra(yyscanner)
@@ -879,7 +881,7 @@ static int wr_ends_operand(int token) {
 #define YY_DECL static int wr_otterlex(YYSTYPE* yylval_param, yyscan_t yyscanner)
 YY_DECL;
 
-#line 883 "Parser/dbotter.yy.c"
+#line 885 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -887,7 +889,7 @@ YY_DECL;
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 891 "Parser/dbotter.yy.c"
+#line 893 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1162,10 +1164,10 @@ YY_DECL
 		}
 
 	{
-#line 166 "Parser/dbotter.l"
+#line 168 "Parser/dbotter.l"
 
 
-#line 1169 "Parser/dbotter.yy.c"
+#line 1171 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1236,7 +1238,7 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 168 "Parser/dbotter.l"
+#line 170 "Parser/dbotter.l"
 {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
@@ -1245,7 +1247,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 174 "Parser/dbotter.l"
+#line 176 "Parser/dbotter.l"
 {
               parseprintf( "an neq: %s", yytext);
               *yylval=yytext;	      
@@ -1254,7 +1256,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 181 "Parser/dbotter.l"
+#line 183 "Parser/dbotter.l"
 {
               parseprintf( "an eq: %s", yytext);
               *yylval=yytext;	      
@@ -1263,7 +1265,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 187 "Parser/dbotter.l"
+#line 189 "Parser/dbotter.l"
 {
               parseprintf( "an rimp: %s", yytext);
               *yylval=yytext;	      
@@ -1272,7 +1274,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 193 "Parser/dbotter.l"
+#line 195 "Parser/dbotter.l"
 {
               parseprintf( "an limp: %s", yytext);
               *yylval=yytext;	      
@@ -1281,7 +1283,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 199 "Parser/dbotter.l"
+#line 201 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1290,7 +1292,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 205 "Parser/dbotter.l"
+#line 207 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1299,7 +1301,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 211 "Parser/dbotter.l"
+#line 213 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1308,7 +1310,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 217 "Parser/dbotter.l"
+#line 219 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1317,7 +1319,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 223 "Parser/dbotter.l"
+#line 225 "Parser/dbotter.l"
 {
               parseprintf( "an @: %s", yytext);
               *yylval=yytext;	      
@@ -1326,7 +1328,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 229 "Parser/dbotter.l"
+#line 231 "Parser/dbotter.l"
 {
               parseprintf( "an emptystring: %s", yytext);
               *yylval="$emptystr";	      
@@ -1335,7 +1337,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 235 "Parser/dbotter.l"
+#line 237 "Parser/dbotter.l"
 { parseprintf( "An integer: %s (%d)\n",yytext,atoi(yytext));	           
               *yylval=yytext;              
               return TINT; 
@@ -1343,7 +1345,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 239 "Parser/dbotter.l"
+#line 241 "Parser/dbotter.l"
 {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
@@ -1352,7 +1354,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 245 "Parser/dbotter.l"
+#line 247 "Parser/dbotter.l"
 {
               if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
               parseprintf( "A negative integer: %s\n",yytext);
@@ -1362,7 +1364,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 251 "Parser/dbotter.l"
+#line 253 "Parser/dbotter.l"
 {
               if (wr_ends_operand(lasttoken)) { yyless(1); return '-'; }
               parseprintf( "A negative float: %s", yytext);
@@ -1372,7 +1374,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 258 "Parser/dbotter.l"
+#line 260 "Parser/dbotter.l"
 {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
@@ -1381,7 +1383,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 264 "Parser/dbotter.l"
+#line 266 "Parser/dbotter.l"
 {
               parseprintf( "A time: %s\n", yytext);			  
 	            *yylval=yytext; 
@@ -1390,32 +1392,32 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 270 "Parser/dbotter.l"
+#line 272 "Parser/dbotter.l"
 { BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 271 "Parser/dbotter.l"
+#line 273 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 272 "Parser/dbotter.l"
+#line 274 "Parser/dbotter.l"
 { elmparsestr_add('\\'); } 
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 273 "Parser/dbotter.l"
+#line 275 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 274 "Parser/dbotter.l"
+#line 276 "Parser/dbotter.l"
 { elmparsestr_add('\"'); } 
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 275 "Parser/dbotter.l"
+#line 277 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
@@ -1425,7 +1427,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-#line 280 "Parser/dbotter.l"
+#line 282 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
@@ -1434,37 +1436,37 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 285 "Parser/dbotter.l"
+#line 287 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 288 "Parser/dbotter.l"
+#line 290 "Parser/dbotter.l"
 { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 289 "Parser/dbotter.l"
+#line 291 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 290 "Parser/dbotter.l"
+#line 292 "Parser/dbotter.l"
 { elmparsestr_add('\\'); } 
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 291 "Parser/dbotter.l"
+#line 293 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 292 "Parser/dbotter.l"
+#line 294 "Parser/dbotter.l"
 { elmparsestr_add('\''); } 
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 293 "Parser/dbotter.l"
+#line 295 "Parser/dbotter.l"
 { BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrlen ? elmparsestrbuf : ""); 
 		              *yylval=(elmparsestrlen ? elmparsestrbuf : "");
@@ -1474,7 +1476,7 @@ YY_RULE_SETUP
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-#line 298 "Parser/dbotter.l"
+#line 300 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
@@ -1483,38 +1485,38 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 303 "Parser/dbotter.l"
+#line 305 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 306 "Parser/dbotter.l"
+#line 308 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 308 "Parser/dbotter.l"
+#line 310 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 309 "Parser/dbotter.l"
+#line 311 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
 case 37:
 /* rule 37 can match eol */
 YY_RULE_SETUP
-#line 310 "Parser/dbotter.l"
+#line 312 "Parser/dbotter.l"
 ;
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 311 "Parser/dbotter.l"
+#line 313 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 313 "Parser/dbotter.l"
+#line 315 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1523,7 +1525,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 319 "Parser/dbotter.l"
+#line 321 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1532,7 +1534,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 325 "Parser/dbotter.l"
+#line 327 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
@@ -1542,106 +1544,106 @@ YY_RULE_SETUP
 case 42:
 /* rule 42 can match eol */
 YY_RULE_SETUP
-#line 331 "Parser/dbotter.l"
+#line 333 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 335 "Parser/dbotter.l"
+#line 337 "Parser/dbotter.l"
 { } /* eat up line comment until end of line */
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 337 "Parser/dbotter.l"
+#line 339 "Parser/dbotter.l"
 return '-';
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 338 "Parser/dbotter.l"
+#line 340 "Parser/dbotter.l"
 return '~';
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 339 "Parser/dbotter.l"
+#line 341 "Parser/dbotter.l"
 return '|';
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 340 "Parser/dbotter.l"
+#line 342 "Parser/dbotter.l"
 return ')';
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 341 "Parser/dbotter.l"
+#line 343 "Parser/dbotter.l"
 return '(';
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 342 "Parser/dbotter.l"
+#line 344 "Parser/dbotter.l"
 return '}';
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 343 "Parser/dbotter.l"
+#line 345 "Parser/dbotter.l"
 return '{';
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 344 "Parser/dbotter.l"
+#line 346 "Parser/dbotter.l"
 return ',';
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 345 "Parser/dbotter.l"
+#line 347 "Parser/dbotter.l"
 return '.';
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 347 "Parser/dbotter.l"
+#line 349 "Parser/dbotter.l"
 return ']';
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 348 "Parser/dbotter.l"
+#line 350 "Parser/dbotter.l"
 return '[';
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 349 "Parser/dbotter.l"
+#line 351 "Parser/dbotter.l"
 return '!';
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 350 "Parser/dbotter.l"
+#line 352 "Parser/dbotter.l"
 return '?';
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 351 "Parser/dbotter.l"
+#line 353 "Parser/dbotter.l"
 return ':';
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 352 "Parser/dbotter.l"
+#line 354 "Parser/dbotter.l"
 return '&';
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 354 "Parser/dbotter.l"
+#line 356 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 355 "Parser/dbotter.l"
+#line 357 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 357 "Parser/dbotter.l"
+#line 359 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
@@ -1649,20 +1651,20 @@ case YY_STATE_EOF(COMMENT):
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 362 "Parser/dbotter.l"
+#line 364 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 364 "Parser/dbotter.l"
+#line 366 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 367 "Parser/dbotter.l"
+#line 369 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1666 "Parser/dbotter.yy.c"
+#line 1668 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2810,7 +2812,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 367 "Parser/dbotter.l"
+#line 369 "Parser/dbotter.l"
 
 
 
@@ -2822,7 +2824,7 @@ int yylex(YYSTYPE* yylval_param, yyscan_t yyscanner) {
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   int i;
   char *s;
-  //char* errmsg;
+  char errmsg[2000];
   //printf("\n yyerror called with xx msg %s\n",msg);
   /*
   if (linebuf!=NULL) {
@@ -2841,15 +2843,9 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   if (parm->errmsg) return;
-  parm->errmsg=malloc(2000);
-  if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  } else {
-    snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
+  snprintf(errmsg,2000,"%s: file %s place '%s' in line %d:\n%s", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  }        
-  (parm->errmsg)[2000-1]=0;
+  parm->errmsg=wr_json_errmsg("",errmsg);
   // printf("{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}\n", 
   //        msg,parm->filename,s,yyget_lineno(scanner),linebuf);  
 }
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index befe4c1..8d4f077 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -2052,9 +2052,37 @@ static int show_parse_error(void* db, char* msg) {
 }
 */
 
+/** The error message as a JSON object, for the caller to free: prefix is printed
+ *  as it is, msg is escaped.
+ */
+char* wr_json_errmsg(char* prefix, char* msg) {
+  char *buf, *p;
+  unsigned char c;
+
+  buf=malloc(strlen(prefix)+6*strlen(msg)+30);
+  if (!buf) return NULL;
+  p=buf+sprintf(buf,"{\"error\": \"%s",prefix);
+  for(; *msg!=0; msg++) {
+    c=(unsigned char)(*msg);
+    if (c=='"' || c=='\\') {
+      *p++='\\';
+      *p++=c;
+    } else if (c=='\n') {
+      *p++='\\';
+      *p++='n';
+    } else if (c<' ') {
+      p+=sprintf(p,"\\u%04x",c);
+    } else {
+      *p++=c;
+    }
+  }
+  strcpy(p,"\"}");
+  return buf;
+}
+
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char msg[1000];
   va_list args;
   va_start (args, format);
   /*
@@ -2067,17 +2095,9 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (g->parse_errflag) return -1;
   (g->parse_errflag)=1;  
   if (g->parse_errmsg) return -1;
-  (g->parse_errmsg)=malloc(1000);
-  if (!(g->parse_errmsg)) return -1;
-  if (1) { //(g->print_json) {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
-  } else {
-    tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
-  }  
+  vsnprintf(msg,1000,format,args);
+  va_end(args);
+  (g->parse_errmsg)=wr_json_errmsg("parser error: ",msg);
 
   /*
   printf("{\"error\": \"parser error: ");
diff --git a/Builtparser/dbparse.h b/Builtparser/dbparse.h
index 5df14aa..83d0037 100644
--- a/Builtparser/dbparse.h
+++ b/Builtparser/dbparse.h
@@ -85,5 +85,6 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
 void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl);
 
 int wr_show_parse_error(glb* g, char* format, ...);
+char* wr_json_errmsg(char* prefix, char* msg);
 
 #endif
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 94dde5a..ab445b3 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3473,7 +3473,8 @@ void json_err_printf3(char* s1, int num, char* s2) {
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  int len=0;
+  char msg[2000];
   va_list args;
   va_start (args, format);
   /*
@@ -3486,21 +3487,19 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   if (g->parse_errflag) return -1;
   (g->parse_errflag)=1;  
   if (g->parse_errmsg) return -1;
-  (g->parse_errmsg)=malloc(1000);
-  if (!(g->parse_errmsg)) return -1;
   if (pp && pp->formulanr) {
     if (pp->formulaname) {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      len=snprintf(msg,1000,"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      if (len>=1000) len=999;
     } else {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d: ",pp->formulanr);
+      len=snprintf(msg,1000,"error in formula nr %d: ",pp->formulanr);
     }  
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
+    len=snprintf(msg,1000,"json parser error: ");
   }  
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+  vsnprintf(msg+len,1000,format,args);
+  va_end(args);
+  (g->parse_errmsg)=wr_json_errmsg("",msg);
 
   /*
   printf("{\"error\": \"parser error: ");
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index 0681971..c140a91 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -33,6 +33,8 @@
 #include "dbotterparse.h"
 #include "dbotter.tab.h"
 
+char* wr_json_errmsg(char* prefix, char* msg); // in dbparse.c
+
 /*  reentrant stuff starts */
 
 #define PARM    yyget_extra(yyscanner)
@@ -375,7 +377,7 @@ int yylex(YYSTYPE* yylval_param, yyscan_t yyscanner) {
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   int i;
   char *s;
-  //char* errmsg;
+  char errmsg[2000];
   //printf("\n yyerror called with xx msg %s\n",msg);
   /*
   if (linebuf!=NULL) {
@@ -394,15 +396,9 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   if (parm->errmsg) return;
-  parm->errmsg=malloc(2000);
-  if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
-          msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  } else {
-    snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
+  snprintf(errmsg,2000,"%s: file %s place '%s' in line %d:\n%s", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
-  }        
-  (parm->errmsg)[2000-1]=0;
+  parm->errmsg=wr_json_errmsg("",errmsg);
   // printf("{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}\n", 
   //        msg,parm->filename,s,yyget_lineno(scanner),linebuf);  
 }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index befe4c1..8d4f077 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -2052,9 +2052,37 @@ static int show_parse_error(void* db, char* msg) {
 }
 */
 
+/** The error message as a JSON object, for the caller to free: prefix is printed
+ *  as it is, msg is escaped.
+ */
+char* wr_json_errmsg(char* prefix, char* msg) {
+  char *buf, *p;
+  unsigned char c;
+
+  buf=malloc(strlen(prefix)+6*strlen(msg)+30);
+  if (!buf) return NULL;
+  p=buf+sprintf(buf,"{\"error\": \"%s",prefix);
+  for(; *msg!=0; msg++) {
+    c=(unsigned char)(*msg);
+    if (c=='"' || c=='\\') {
+      *p++='\\';
+      *p++=c;
+    } else if (c=='\n') {
+      *p++='\\';
+      *p++='n';
+    } else if (c<' ') {
+      p+=sprintf(p,"\\u%04x",c);
+    } else {
+      *p++=c;
+    }
+  }
+  strcpy(p,"\"}");
+  return buf;
+}
+
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char msg[1000];
   va_list args;
   va_start (args, format);
   /*
@@ -2067,17 +2095,9 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (g->parse_errflag) return -1;
   (g->parse_errflag)=1;  
   if (g->parse_errmsg) return -1;
-  (g->parse_errmsg)=malloc(1000);
-  if (!(g->parse_errmsg)) return -1;
-  if (1) { //(g->print_json) {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
-  } else {
-    tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
-  }  
+  vsnprintf(msg,1000,format,args);
+  va_end(args);
+  (g->parse_errmsg)=wr_json_errmsg("parser error: ",msg);
 
   /*
   printf("{\"error\": \"parser error: ");
diff --git a/Parser/dbparse.h b/Parser/dbparse.h
index 5df14aa..83d0037 100644
--- a/Parser/dbparse.h
+++ b/Parser/dbparse.h
@@ -85,5 +85,6 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
 void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl);
 
 int wr_show_parse_error(glb* g, char* format, ...);
+char* wr_json_errmsg(char* prefix, char* msg);
 
 #endif
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 94dde5a..ab445b3 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3473,7 +3473,8 @@ void json_err_printf3(char* s1, int num, char* s2) {
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  int len=0;
+  char msg[2000];
   va_list args;
   va_start (args, format);
   /*
@@ -3486,21 +3487,19 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   if (g->parse_errflag) return -1;
   (g->parse_errflag)=1;  
   if (g->parse_errmsg) return -1;
-  (g->parse_errmsg)=malloc(1000);
-  if (!(g->parse_errmsg)) return -1;
   if (pp && pp->formulanr) {
     if (pp->formulaname) {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      len=snprintf(msg,1000,"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      if (len>=1000) len=999;
     } else {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d: ",pp->formulanr);
+      len=snprintf(msg,1000,"error in formula nr %d: ",pp->formulanr);
     }  
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
+    len=snprintf(msg,1000,"json parser error: ");
   }  
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+  vsnprintf(msg+len,1000,format,args);
+  va_end(args);
+  (g->parse_errmsg)=wr_json_errmsg("",msg);
 
   /*
   printf("{\"error\": \"parser error: ");
-- 
2.43.0


From cbda3bbdac477c2b9b3de3b2961dcba64b742a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:18 +0000
Subject: [PATCH 60/64] fix: TPTP proofs had an unclosed parenthesis in unnamed
 inputs and no end mark for each proof

---
 Reasoner/history.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 3522ff7..703cd22 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1509,6 +1509,17 @@ int wr_show_result(glb* g, gint history) {
     } else {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
     }
+#ifdef TPTP
+    if (!(g->print_json) && (g->print_tptp)) {
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+strlen(g->filename))) {
+        if (buf) wr_free(g,buf);
+        if (mpool) wg_free_mpool(db,mpool);
+        return -1;
+      }
+      bpos+=snprintf(buf+bpos,blen-bpos,
+        "\n%% SZS output end CNFRefutation for %s\n",g->filename);
+    }
+#endif
 
     if (mpool) wg_free_mpool(db,mpool); 
   }
@@ -1518,14 +1529,6 @@ int wr_show_result(glb* g, gint history) {
       //bpos+=snprintf(buf+bpos,blen-bpos,"}\n");
     }  
   } else {
-#ifdef TPTP      
-    if (!(g->print_tptp)) {
-      //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
-    } else {
-      bpos+=snprintf(buf+bpos,blen-bpos,
-        "\n%% SZS output end CNFRefutation for %s\n",g->filename);
-    }    
-#endif        
     //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
   }  
   if (g->outfilename) {
@@ -1932,6 +1935,10 @@ int wr_strprint_one_history
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
             }  
           }  
+        } else if (g->print_proof_tptp) {
+          bpos=wr_strprint_name(g,buf,blen,bpos,
+            ",\n  inference(cnf_transformation,[],['",namestr,"']))",'\'');
+          if (bpos<0) return bpos;
         } else {
           bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
         }  
@@ -1940,6 +1947,8 @@ int wr_strprint_one_history
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"plain, ");
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,")");
     } else if (name && wg_get_encoded_type(db,name)==WG_INTTYPE) {
       if (!(g->print_proof_tptp)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%d",(int)(wg_decode_int(db,name)));
-- 
2.43.0


From 91cb08ff72ac8a98aaa6e00a510ce2c7df31ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 61/64] fix: merge and inst steps of JSON proofs lacked a
 comma, so the output was not valid JSON

---
 Reasoner/history.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 703cd22..471c060 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2196,7 +2196,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2235,7 +2236,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
-- 
2.43.0


From 78f63aea273c6e689dbf382dc0d8f32d760278e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:26 +0000
Subject: [PATCH 62/64] fix: a clause with a variable and a list starting with
 a compound term was refused

---
 Builtparser/dbclausify.c | 9 +++------
 Parser/dbclausify.c      | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index bcbfc4e..e9788ba 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -527,11 +527,8 @@ void *wr_miniscope_freeoccs(glb* g, void* mpool, void* vars, void* frm) {
     // pointless parenthesis around formula: lift up
     return wr_miniscope_freeoccs(g,mpool,vars,op);
   }
-  if (wg_ispair(db,op)) {
-    // should not happen
-    return show_clausify_warning(g,"nonatomic head detected in a miniscope phase");
-  }
-  if (wg_islogall(db,op) || wg_islogexists(db,op)) {
+  // a list of terms, like [f(X),a], has no operator as its first element
+  if (!wg_ispair(db,op) && (wg_islogall(db,op) || wg_islogexists(db,op))) {
     // quantifier
     arg2=wg_first(db,wg_rest(db,frm));
     arg3=wg_first(db,wg_rest(db,wg_rest(db,frm)));
@@ -541,7 +538,7 @@ void *wr_miniscope_freeoccs(glb* g, void* mpool, void* vars, void* frm) {
   } else {
     // logical or a nonlogical term: loop over
     freeoccs=NULL;
-    if (wg_islogconnective(db,op)) {
+    if (!wg_ispair(db,op) && wg_islogconnective(db,op)) {
       termpart=wg_rest(db,frm);
     } else {
       termpart=frm;
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index bcbfc4e..e9788ba 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -527,11 +527,8 @@ void *wr_miniscope_freeoccs(glb* g, void* mpool, void* vars, void* frm) {
     // pointless parenthesis around formula: lift up
     return wr_miniscope_freeoccs(g,mpool,vars,op);
   }
-  if (wg_ispair(db,op)) {
-    // should not happen
-    return show_clausify_warning(g,"nonatomic head detected in a miniscope phase");
-  }
-  if (wg_islogall(db,op) || wg_islogexists(db,op)) {
+  // a list of terms, like [f(X),a], has no operator as its first element
+  if (!wg_ispair(db,op) && (wg_islogall(db,op) || wg_islogexists(db,op))) {
     // quantifier
     arg2=wg_first(db,wg_rest(db,frm));
     arg3=wg_first(db,wg_rest(db,wg_rest(db,frm)));
@@ -541,7 +538,7 @@ void *wr_miniscope_freeoccs(glb* g, void* mpool, void* vars, void* frm) {
   } else {
     // logical or a nonlogical term: loop over
     freeoccs=NULL;
-    if (wg_islogconnective(db,op)) {
+    if (!wg_ispair(db,op) && wg_islogconnective(db,op)) {
       termpart=wg_rest(db,frm);
     } else {
       termpart=frm;
-- 
2.43.0


From 4fa7c6f6a8787f42af7166791a076c99a7ff9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:12 +0000
Subject: [PATCH 63/64] fix: JSON output of fewer answers than asked for was
 followed by a second JSON value, proof not found

---
 Reasoner/rmain.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index faa6327..0266784 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -143,6 +143,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   void* local_db; // this will be set to the local db copy in all cases
   int res=1;
   int default_print_level=10;
+  int answers_shown=0; // 1 if fewer answers than asked for have been printed as JSON
   int iter,guideres=0,tmp,propres;
   char* guidebuf=NULL;
   cJSON *guide=NULL;
@@ -850,6 +851,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (res==1) {
       if (wr_have_answers(g)) {
         wr_show_result(g,g->proof_history);
+        if (g->print_json) answers_shown=1;
       } else {
         if ((g->print_level_flag)>11) {  
           if (maxforks) {        
@@ -937,6 +939,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   wr_printf("\nto return from rmain\n");
   show_cur_time();
 #endif
+  if (res>0 && answers_shown) return 0; // no second JSON value after the result
   return res;
 }
 
-- 
2.43.0


From f5f7e2e84b0dbb66f96388c84b70c328fc6785d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 64/64] fix: do not treat a constant as a record when matching
 it against a compound term

wr_match_term_aux, wr_eqmodvars_term_aux and wr_nomatch_term_uniquevars went on
to decode the constant as a record offset when the other term was compound,
reading unrelated memory or crashing (large integers, for example).
---
 Reasoner/unify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..6a55d87 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant different from y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant different from y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -484,6 +486,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
+  if (!isdatarec(x)) return 2; // x is a constant different from y
   if (!isdatarec(y)) return 2; // x is datarec but y is a const    
   // now x and y are different datarecs
   if (1) {  
-- 
2.43.0

