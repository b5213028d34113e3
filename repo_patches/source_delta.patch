From 9925231b6d607609a1a48f44edd170af69c6fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 01/91] fix: list membership query missed entries that are the
 tail of an earlier entry

---
 src/main/main/parameters.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..2449cd5 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -419,25 +419,21 @@ double Getd(char *name)
 int GetvFlag(char *name, char *value, int fatal)
 {
   tParameter *p = findparameter(name, fatal);
-  char *s=NULL;
-  char *parval;
-  int lv, ls, lp, startok, endok;
+  char *s, *parval;
+  int lv, startok, endok;
 
   if (!p) return 0;
-  parval = p->value;
-  while( (s = strstr(parval, value)) )
+  lv = strlen(value);
+
+  /* check every place where value occurs, not just the first one */
+  for(parval = p->value; (s = strstr(parval, value)); parval = s+1)
   {
-    lv = strlen(value);
-    //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
-    parval = s+1;
+    startok = (s == p->value || s[-1] == ' ');
+    endok   = (s[lv] == ' ' || s[lv] == 0);
+    if(startok && endok) return 1;
+    if(*s == 0) break; /* at end of list, only for empty value */
   }
-  if (!s) return 0;
-  ls = strlen(s);
-  lp = strlen(p->value);
-  startok = (s == p->value || *(s-1) == ' ');  /* how robust is this? */
-  endok   = (s+ls == p->value+lp || *(s+ls) == ' ');
-  return startok && endok ? 1 : 0;
+  return 0;
 }
 
 int GetvLax(char *name, char *value)
-- 
2.43.0


From b0083dac9bad3cb4a58004e3246e10412cfc9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 02/91] fix: command line options longer than 999 characters
 overflowed a buffer

---
 src/main/main/main.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index ff5d075..dc8c453 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -207,7 +207,8 @@ int read_command_line(int argc, char **argv)
     int nopts, nargs;
     char argi[1000];
     char descr[1000];
-    char options[1000];
+    char *options;
+    size_t optlen = 1;
     char *parfile = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     char *outdir  = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     int parnamelen;
@@ -228,9 +229,13 @@ int read_command_line(int argc, char **argv)
 	   "name of parameter file given on command line");
     // AddPar("trace_memory", "no", "enable memory tracing");
 
+    /* get enough memory to hold all options */
+    for(i=2; i<argc; i++) optlen += strlen(argv[i])+1;
+    options = (char *) calloc(optlen, sizeof(char));
+    if(!options) errorexit("read_command_line: out of memory for options");
+
     /* add other args */
     nargs=nopts=0;
-    options[0]=0;
     for(i=2; i<argc; i++)
     {
       if(argv[i][0]=='-')
@@ -238,8 +243,8 @@ int read_command_line(int argc, char **argv)
         if(strlen(argv[i])==1) errorexit("- is not a valid option");
         if(argv[i][1]!='-') errorexit("all options must start with --");
         /* save all options in options */
-        if(nopts>0) strncat(options, " ", 999);
-        strncat(options, argv[i], 999);
+        if(nopts>0) strcat(options, " ");
+        strcat(options, argv[i]);
         nopts++;
       }
       else
@@ -253,6 +258,7 @@ int read_command_line(int argc, char **argv)
     /* add sgrid command line options */
     if(nopts>0) AddPar("sgrid_options", options, "sgrid command line options");
 
+    free(options);
     free(parfile);
     free(outdir);
   }
-- 
2.43.0


From 26597d555a7ff441aa3f352a644e5cd81199c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 03/91] fix: setting a parameter to its own value used freed
 memory

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 2449cd5..b97aa50 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -199,9 +199,10 @@ void makeparameter(char *name, char *value, char *description)
 void setparameter(char *name, char *value)
 {
   tParameter *p = findparameter(name, 1);
+  char *newvalue = strdup(value); /* copy first, value could be p->value */
 
   free(p->value);
-  p->value = strdup(value);
+  p->value = newvalue;
   translatevalue(&p->value);
   set_numericalvalue_byIndex(p, 0, 1);
   set_booleanvalue_byIndex(p, 0, 1);
-- 
2.43.0


From e091edb84efbf65279e769237dcdf5468e54b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 04/91] fix: reflection signs of (ab)(ij) tensors, and three
 documented index patterns were rejected

---
 src/main/main/tensors.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,15 +258,15 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From 66aad8eb8d13227eb27ac6d99e570c3be00e39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 05/91] fix: appending a list to itself read past its end

---
 src/main/MemoryMan/list_templates.c | 10 ++++++----
 src/main/main/variables.c           | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/main/MemoryMan/list_templates.c b/src/main/MemoryMan/list_templates.c
index efb1d60..8f0e912 100644
--- a/src/main/MemoryMan/list_templates.c
+++ b/src/main/MemoryMan/list_templates.c
@@ -72,13 +72,15 @@ void FN(push,LIST(TYP))(LIST(TYP) *v, TYP vi)
 /* append a list to a list */
 void FN(pushlist,LIST(TYP))(LIST(TYP) *v, LIST(TYP) *u)
 {
-  int i;
+  int i, nv, nu;
 
   if (!v || !u) return;
-  v->n += u->n;
+  nv = v->n;
+  nu = u->n; /* u could be v itself */
+  v->n += nu;
   v->e = realloc(v->e, sizeof(TYP) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->e[v->n - u->n + i] = u->e[i];
+  for (i = 0; i < nu; i++)
+    v->e[nv + i] = u->e[i];
 }
 
 /* add to list (if not already in it) */
diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..a6a8f73 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -362,13 +362,15 @@ void vlpush(tVarList *v, int vi)
 /* add a variable list to a variable list */
 void vlpushvl(tVarList *v, tVarList *u)
 {
-  int i;
+  int i, nv, nu;
 
   if (!v || !u) return;
-  v->n += u->n;
+  nv = v->n;
+  nu = u->n; /* u could be v itself */
+  v->n += nu;
   v->index = realloc(v->index, sizeof(int) * v->n); 
-  for (i = 0; i < u->n; i++)
-    v->index[v->n - u->n + i] = u->index[i];
+  for (i = 0; i < nu; i++)
+    v->index[nv + i] = u->index[i];
 }
 
 
-- 
2.43.0


From 5d4e2dc6cdeaedc97a1ce4c4e6841b6f517fc9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 06/91] fix: duplicating a point list with points in more than
 two boxes overflowed its box list

---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From 9ba78179d366ebfa353fca60ac84da3179c84bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 07/91] fix: loops over point lists dereferenced NULL in boxes
 without points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..f9e5cd7 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,12 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
+    for(pi = 0 , ijk = pointlist->npoints[boxindx] ? pointlist->point[boxindx][pi] : -1; \
         pi < pointlist->npoints[boxindx]; \
         pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
+  for(pi = 0 , ijk = pointlist->npoints[box->b] ? pointlist->point[box->b][pi] : -1; \
         pi < pointlist->npoints[box->b]; \
         pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
-- 
2.43.0


From 01c8e0a8a57859e6bc64e105c36fe76a06fcf6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 08/91] fix: boxes with finite difference bases crashed in
 make_grid

The fd2 bases have no coeffs_of_int, so there is no integration matrix
to set up for them.
---
 src/main/MemoryMan/grid.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main/MemoryMan/grid.c b/src/main/MemoryMan/grid.c
index 53b2af3..6971284 100644
--- a/src/main/MemoryMan/grid.c
+++ b/src/main/MemoryMan/grid.c
@@ -220,8 +220,9 @@ int set_BoxStructures_fromPars(tGrid *g, int pr)
                          get_coeffs, coeffs_of_2ndderiv, eval_onPoints);
        initMatrix_ForCoeffs(box->Mcoeffs1, n1, get_coeffs);
        initMatrix_ToEvaluate(box->Meval1,  n1, eval_onPoints);
-       initIntegrationMatrix(box->bbox[0], box->bbox[1], box->Int1, n1,
-                             get_coeffs, coeffs_of_int, eval_onPoints);
+       if(coeffs_of_int!=NULL)
+         initIntegrationMatrix(box->bbox[0], box->bbox[1], box->Int1, n1,
+                               get_coeffs, coeffs_of_int, eval_onPoints);
 
        /* direction 2 */
        get_spec_functionpointers(box, 2, &get_coeffs, &coeffs_of_deriv,
@@ -236,8 +237,9 @@ int set_BoxStructures_fromPars(tGrid *g, int pr)
                          get_coeffs, coeffs_of_2ndderiv, eval_onPoints);
        initMatrix_ForCoeffs(box->Mcoeffs2, n2, get_coeffs);
        initMatrix_ToEvaluate(box->Meval2,  n2, eval_onPoints);
-       initIntegrationMatrix(box->bbox[2], box->bbox[3], box->Int2, n2,
-                             get_coeffs, coeffs_of_int, eval_onPoints);
+       if(coeffs_of_int!=NULL)
+         initIntegrationMatrix(box->bbox[2], box->bbox[3], box->Int2, n2,
+                               get_coeffs, coeffs_of_int, eval_onPoints);
 
        /* direction 3 */
        get_spec_functionpointers(box, 3, &get_coeffs, &coeffs_of_deriv,
@@ -252,8 +254,9 @@ int set_BoxStructures_fromPars(tGrid *g, int pr)
                          get_coeffs, coeffs_of_2ndderiv, eval_onPoints);
        initMatrix_ForCoeffs(box->Mcoeffs3, n3, get_coeffs);
        initMatrix_ToEvaluate(box->Meval3,  n3, eval_onPoints);
-       initIntegrationMatrix(box->bbox[4], box->bbox[5], box->Int3, n3,
-                             get_coeffs, coeffs_of_int, eval_onPoints);
+       if(coeffs_of_int!=NULL)
+         initIntegrationMatrix(box->bbox[4], box->bbox[5], box->Int3, n3,
+                               get_coeffs, coeffs_of_int, eval_onPoints);
     }
   } /* end box loop */
 
-- 
2.43.0


From 285cec5672624343f4235e738ca4152fd12f9d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 09/91] fix: iterating parameters cut the output name at the
 first .par anywhere in the path

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index b97aa50..d2dbfc7 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -570,7 +570,8 @@ int iterate_parameters(int next)
   printf("Iterating parameters:\n");
 
   sprintf(newoutdir, "%s", Gets("parameterfile"));
-  *strstr(newoutdir, ".par") = '\0';
+  l = strlen(newoutdir) - 4; /* parameterfile ends in .par */
+  if(l>=0 && strcmp(newoutdir+l, ".par")==0) newoutdir[l] = '\0';
 
   p = findparameter(iterpar, 0);
   if (!p)
-- 
2.43.0


From 95ef9ebfc948bf84ad740cca7ddc88356b7b47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 10/91] fix: removing the previous output directory followed
 symbolic links, failed for absolute and long paths, and leaked open
 directories

---
 src/main/main/utilities.c | 49 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..3d1f7c3 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -314,46 +314,55 @@ int copy_file_into_dir(char *fname, char *dir)
 }
 
 /* use opendir to scan through dir and remove the entire dir */
+/* symbolic links are removed, but never followed */
 int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
-  char file[1000];
-  
+  struct stat   st;
+  char *file;
+
+  /* do nothing if there is nothing, remove things that are not directories */
+  if(lstat(which_dir, &st) != 0) return 0;
+  if(!S_ISDIR(st.st_mode))
+  {
+    if(remove(which_dir) != 0) return -2;
+    return 0;
+  }
+
   d = opendir(which_dir);
   if(d)
   {
     while ((dir = readdir(d)) != NULL)
     {
+      int ret;
+
       /* exclude . and .. directories */
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      file = cmalloc(strlen(which_dir) + strlen(dir->d_name) + 2);
+      sprintf(file, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
-
-      if(opendir(file)!=NULL) remove_dir(file);
-      else
+      ret = remove_dir(file);
+      free(file);
+      if(ret != 0)
       {
-        if(remove(file) != 0)
-        {
-          //printf("\n%s\n", file);
-          //perror("Remove failed");
-          closedir(d);
-          return -2;
-        }
+        //perror("Remove failed");
+        closedir(d);
+        return ret;
       }
     } /* end of while loop */
 
     closedir(d);
+  }
 
-    /* delete directory */
-    if(remove(which_dir) != 0)
-    {
-      //printf("%s\n", which_dir);
-      //perror("Remove failed");
-      return -1;
-    }
+  /* delete directory */
+  if(remove(which_dir) != 0)
+  {
+    //printf("%s\n", which_dir);
+    //perror("Remove failed");
+    return -1;
   }
   return 0;
 }
-- 
2.43.0


From b6e7c2217db3a1fc2a59ef1345705ba477752dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 11/91] fix: output was written into the old output directory
 if the previous one could not be removed

---
 src/main/main/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index dc8c453..f27d316 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -3,6 +3,7 @@
 
 #include "sgrid.h"
 #include "main.h"
+#include <sys/stat.h>  /* for lstat */
 
 /* global vars: */
 tGrid *SGRID_grid = NULL;      /* to save the grid */
@@ -272,6 +273,7 @@ int make_output_directory(void)
 {
   char *outdir  = Gets("outdir");
   char *outdirp = (char *) calloc(strlen(outdir)+40, sizeof(char));
+  struct stat st;
 
   /* set outdirp to outdir_previous */
   strcpy(outdirp, outdir);
@@ -311,6 +313,11 @@ int make_output_directory(void)
     /* remove outdir_previous and move outdir to outdir_previous */
     system2("rm -rf", outdirp);
     system3("mv", outdir, outdirp);
+
+    /* if we could not remove outdir_previous, outdir is still there. 
+       Then do not mix new output with what is in it. */
+    if(lstat(outdirp, &st)==0 && lstat(outdir, &st)==0)
+      errorexits("could not remove %s", outdirp);
   }
 
   /* make output directory, save parfile */
-- 
2.43.0


From f4aacf1724fed5f038ff1618de1ad016fea01cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 12/91] fix: icn evaluated time dependent right hand sides
 always at the start of the step

---
 src/utility/evolve/icn.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/evolve/icn.c b/src/utility/evolve/icn.c
index 13a1861..3a8b7c1 100644
--- a/src/utility/evolve/icn.c
+++ b/src/utility/evolve/icn.c
@@ -25,6 +25,7 @@ void evolve_icn(tGrid *grid)
 
     /* u_c = u_p + k F(u_q) */
     evolve_rhs(u_c, u_p, dt, u_q);
+    u_c->time = u_p->time + dt; /* so that u_q is at mid time from now on */
 
     /* set algebraic BCs for u_c, and any other stuff needed */
     if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
-- 
2.43.0


From df95b6d740fc83c6771e1567620a201757a37bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 13/91] fix: evolving crashed if a checkpoint was read before
 the first time step

---
 src/utility/evolve/evolve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..b7c6e08 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -81,7 +81,9 @@ int evolve(tGrid *grid)
   u_c->time = grid->time;
 
   /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  /* (or before the first one after a restart from a checkpoint) */
+  if (grid->iteration == 0 || !u_p ||
+      (!u_q && Getv("evolution_method", "icn"))) {
     printf("Adding variables for evolution:\n");
 
     /* add additional variables */
-- 
2.43.0


From 422e6d68e2365a8a1f36a0aef0c952615ec96e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 14/91] fix: changing to a Runge-Kutta method with more stages
 used unallocated variable lists

---
 src/utility/evolve/rk.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/utility/evolve/rk.c b/src/utility/evolve/rk.c
index 60a8fb8..504d5e7 100644
--- a/src/utility/evolve/rk.c
+++ b/src/utility/evolve/rk.c
@@ -243,7 +243,7 @@ void evolve_rk(tGrid *grid)
   else if (Getv("evolution_method_rk", "midpoint")) rk = &rk2a;
   else if (Getv("evolution_method_rk", "euler"))    rk = &rk1;
   else
-    errorexits("unknown evolution_method_rk %s", s);
+    errorexits("unknown evolution_method_rk %s", Gets("evolution_method_rk"));
 
   /* catch special cases
      some methods are implemented without tables for efficiency */
@@ -251,13 +251,11 @@ void evolve_rk(tGrid *grid)
 
   /* add auxiliary fields to data base, no storage yet 
      incrementing second letter in s gives _r, _s, _t, ... */
-  if (firstcall) {
-    firstcall = 0;
-    for (i = 0; i < rk->nstages; i++, s[1]++) 
-      u_k[i] = AddDuplicate(u_c, s);
+  for (i = 0; i < rk->nstages; i++, s[1]++) 
+    if (!u_k[i]) u_k[i] = AddDuplicate(u_c, s);
 
-    if (0) prbutchertable(rk);
-  }
+  if (0 && firstcall) prbutchertable(rk);
+  firstcall = 0;
 
   // strange bug? rk4 shadows rk4a
   // printf("%s, getv %d\n", Gets("evolution_method_rk"), Getv("evolution_method_rk", "rk3"));
-- 
2.43.0


From 734cd7b17b266e96e6b969a5ebdd27f6f53ddbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 15/91] fix: checkpoints kept only 6 digits of the time

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From ef33029443894fcad4822d0c5fc7010ccb10e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 16/91] fix: division by zero if checkpoint_dt is smaller than
 dt or checkpoint_di is 0

---
 src/utility/checkpoint/checkpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..83a0eb0 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -74,7 +74,11 @@ int checkpoint(tGrid *grid)
     di = dt/grid->dt + dequaleps;
   else
     di = Geti("checkpoint_di");
+  if (dt > 0 && di < 1) di = 1; /* at most one checkpoint per time step */
   if(pr) printf("di = %d\n", di);
+
+  /* never write checkpoints if the interval is not positive */
+  if (di <= 0) return 0;
   
   /* check whether it is time to write a checkpoint */
   if (grid->iteration % di) {
-- 
2.43.0


From 5586675f9f1deb3863ab94b37e4a9eddaa199e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 17/91] fix: names of checkpoint files were cut at 999
 characters and leaked

---
 src/utility/checkpoint/checkpoint.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 83a0eb0..007d675 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -107,7 +107,7 @@ int checkpoint(tGrid *grid)
 char *checkpoint_filename(char *suffix, char *flag)
 {
   char *dir;
-  char *filename = cmalloc(1000);
+  char *filename;
   char formatstring[100];
 
   /* name of directory */
@@ -131,7 +131,8 @@ char *checkpoint_filename(char *suffix, char *flag)
   */
   snprintf(formatstring, 100, "%%s/checkpoint.%%0%dd",
 	   (int) log10(sgrid_mpi_size())+1);
-  snprintf(filename, 1000, formatstring, dir, sgrid_mpi_rank());
+  filename = cmalloc(strlen(dir) + 100);
+  snprintf(filename, strlen(dir) + 100, formatstring, dir, sgrid_mpi_rank());
 
   if(1) printf("  checkpoint filename = %s\n", filename);
 
@@ -160,6 +161,7 @@ FILE *checkpoint_openfiles(char *suffix)
   if (nfp == 0) {
     if (1) printf(
       "  there are no checkpoint files to read yet\n");
+    free(filename);
     return 0;
   }
 
-- 
2.43.0


From 79442956d4b3825e64a4a1549bc57ced994f90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 18/91] fix: a checkpoint that could not be written completely
 replaced the previous good one

---
 src/utility/checkpoint/checkpoint_write.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..2e3b04f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, failed;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,10 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, but make sure that all has been written */
+      failed = ferror(fp);
+      if (fclose(fp) != 0) failed = 1;
+      if (failed) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
@@ -57,8 +59,11 @@ void checkpoint_write(tGrid *g)
   if(fp)
   {
     fclose(fp);
-    system3("mv -f", filename_new, filename); 
+    if (system3("mv -f", filename_new, filename) != 0)
+      errorexits("failed moving %s to its final name", filename_new);
   }
+  else
+    errorexits("%s has vanished", filename_new);
   prTimeIn_s("WallTime: ");
   
   /* clean up */
-- 
2.43.0


From a00b2d61c69c736c4ee64bd7bbc7ff19378f4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 19/91] fix: an interrupted or failed copy of the previous
 output could replace the last good checkpoint

---
 src/utility/checkpoint/checkpoint.c | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 007d675..4d45644 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -223,17 +223,34 @@ void checkpoint_copy_output(void)
   /* the regular output is all done through processor 0 */
   if (processor0) {
     
-    /* remove current output directory
-       it only contains iteration 0 and perhaps 1 of the restarted run 
-    */
-    system2("rm -rf", current);
-
-    /* move or copy previous output */
-    if( Getv("checkpoint_previous", "no") &&
-       !GetvLax("sgrid_options", "--keep_previous") )
-      system3("mv", previous, current);
+    int copyprev = !( Getv("checkpoint_previous", "no") &&
+                      !GetvLax("sgrid_options", "--keep_previous") );
+
+    /* copy previous output under a temporary name, so that an incomplete copy
+       can never be mistaken for the current output */
+    if(copyprev)
+    {
+      char *copy = cmalloc(strlen(current) + 40);
+      sprintf(copy, "%s_copy_of_previous", current);
+      system2("rm -rf", copy);
+      if(system3("cp -pr", previous, copy) != 0)
+        errorexits("failed copying %s", previous);
+      system2("rm -rf", current);
+      if(system3("mv", copy, current) != 0)
+        errorexits("failed moving %s to its final name", copy);
+      free(copy);
+    }
     else
-      system3("cp -pr", previous, current);
+    {
+      /* remove current output directory
+         it only contains iteration 0 and perhaps 1 of the restarted run 
+      */
+      system2("rm -rf", current);
+
+      /* move previous output */
+      if(system3("mv", previous, current) != 0)
+        errorexits("failed moving %s to its final name", previous);
+    }
   }
   /* wait here to make sure proc0 has copied all there is */
   sgrid_mpi_barrier();
-- 
2.43.0


From 0870f81440eefd5814c86fe416f05677dd818596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 20/91] fix: damaged or mismatched checkpoints were read partly
 or overflowed buffers instead of being refused

---
 src/utility/checkpoint/checkpoint_read.c | 180 +++++++++++++++--------
 1 file changed, 118 insertions(+), 62 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 4bdf915..0c77f4b 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -12,6 +12,7 @@
 /* read checkpoint file 
    - every processor reads its own file
 */
+static void read_Vars(tGrid *grid, FILE *fp, tVarList *needed);
 void checkpoint_read(tGrid *g)
 {
   FILE *fp;
@@ -32,6 +33,8 @@ void checkpoint_read(tGrid *g)
       tGrid *g2;
       /* get new pars */
       checkpoint_read_ParsAndIterations_local(g, fp);
+      if(Geti("nboxes") != g->nboxes)
+        errorexit("number of boxes in checkpoint file is not what it should be!");
  
       /* make an empty temporary grid g2 */
       g2 = make_empty_grid(globalnvariables, 0);
@@ -60,7 +63,11 @@ void checkpoint_read(tGrid *g)
   {
     /* read if it is my turn */
     if (i == sgrid_mpi_rank())
-      checkpoint_read_Vars_local(g, fp);
+    {
+      tVarList *u_c;
+      evolve_vlretrieve(&u_c, NULL, NULL);
+      read_Vars(g, fp, u_c); /* all vars we evolve have to be there */
+    }
 
     /* everyone please wait here */
     sgrid_mpi_barrier();
@@ -80,14 +87,36 @@ void striptrailingnewline(char *s)
 }
 
 
+/* read next line that is not empty, return 0 if there is none */
+static int read_nonempty_line(FILE *fp, char **line, size_t *size)
+{
+  while(getline(line, size, fp) != -1)
+  {
+    striptrailingnewline(*line);
+    if((*line)[0] != 0) return 1;
+  }
+  return 0;
+}
+
+/* read next line that is not empty, stop with an error if it is not there or
+   does not start with s. */
+static void read_line_starting_with(FILE *fp, char **line, size_t *size, char *s)
+{
+  if(!read_nonempty_line(fp, line, size) || strncmp(*line, s, strlen(s)) != 0)
+    errorexits("checkpoint file is damaged: %s is missing!", s);
+}
+
+
 /* read pars, iteration numbers and times from checkpoint file on 
    one processor */
 void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
 {
-  char name[10000], value[10000], str[10000], *currentvalue;
-  int j,ret;
+  char *line=NULL, *name, *value, *currentvalue;
+  char extra[2];
+  size_t size=0;
   int bmin,bmax;
-  int numberofpars, parsread;
+  int numberofpars, parsread, linesread;
+  int foundend = 0;
 
   if(1)
   {
@@ -96,40 +125,41 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
   }
 
   /* read one line text header, check with "head -1 checkpoint.0" */
-  if(fgotonext(fp, "$BEGIN_checkpoint_header:") == EOF)
-    errorexit("$BEGIN_checkpoint_header: is missing!");
-  fgetparameter(fp, "$bmin", value);  bmin = atoi(value);
-  fgetparameter(fp, "$bmax", value);  bmax = atoi(value);
-  fgetparameter(fp, "$time", value);      grid->time = atof(value);
-  fgetparameter(fp, "$iteration", value); grid->iteration = atoi(value);
+  read_line_starting_with(fp, &line, &size, "$BEGIN_checkpoint_header:");
+  if(sscanf(line, "$BEGIN_checkpoint_header: $bmin = %d , $bmax = %d , "
+                  "$time = %lf , $iteration = %d %1s",
+                  &bmin, &bmax, &grid->time, &grid->iteration, extra) != 4)
+    errorexits("checkpoint file is damaged, bad header: %s", line);
   printf("found $bmin = %d , $bmax = %d , $time = %g, $iteration = %d\n",
          bmin, bmax, grid->time, grid->iteration);
+  read_line_starting_with(fp, &line, &size, "$END_checkpoint_header");
 
   /* read parameter database
      some parameters are used like global variables and change during evolution
   */
-  if(fgotonext(fp, "$BEGIN_parameter_database:") == EOF)
-    errorexit("$BEGIN_parameter_database: is missing!");
-
-  fgetparameter(fp, "$number_of_parameters", value);
-  numberofpars = atoi(value);
+  read_line_starting_with(fp, &line, &size, "$BEGIN_parameter_database:");
+  if(sscanf(line, "$BEGIN_parameter_database: $number_of_parameters = %d %1s",
+                  &numberofpars, extra) != 1)
+    errorexits("checkpoint file is damaged, bad line: %s", line);
   printf("  found %d parameters\n", numberofpars);
 
-  parsread = 0;
-  while( (ret=fscanline(fp, str)) != EOF )
+  parsread = linesread = 0;
+  while(read_nonempty_line(fp, &line, &size))
   {
-    while(ret==0)  ret = fscanline(fp, str);
-    if( ret==EOF || strcmp(str,"$END_parameter_database")==0 ) break;
+    if(strcmp(line,"$END_parameter_database")==0) { foundend=1; break; }
+    linesread++;
 
-    if(0) printf("  str: %s\n", str);
-    extrstr_before_after_EQ(str, name, value);
- 
-    /* remove spaces at the end of name and the beginning of value */
-    strcpy(str, name);
-    sscanf(str, "%s", name);
-    strcpy(str, value);
-    j = strspn(str, " ");  /* strcpy(value, str+j); */
-    if(j>0) strcpy(value, str+1); /* <--we remove at most one space */
+    /* split line into name and value */
+    value = strchr(line, '=');
+    if(!value)
+      errorexits("checkpoint file is damaged, bad parameter: %s", line);
+    *value = 0;
+    value++;
+
+    /* remove spaces around the name and one space at the beginning of value */
+    name = line + strspn(line, " ");
+    name[strcspn(name, " ")] = 0;
+    if(*value == ' ') value++;
     if(0) printf("  found parameter %s = ", name);
     if(0) printf("%s\n", value);
     currentvalue = GetsLax(name);
@@ -155,69 +185,69 @@ void checkpoint_read_ParsAndIterations_local(tGrid *grid, FILE *fp)
     }
     parsread++;
   }
+  if(!foundend || linesread < numberofpars)
+    errorexit("checkpoint file is damaged: parameters are missing!");
+  if(bmin != 0 || bmax != Geti("nboxes")-1)
+    errorexit("number of boxes in checkpoint file is not what it should be!");
+  free(line);
   prTimeIn_s("WallTime: ");
   printf("  read %d parameters\n", parsread);
 }
 
 
 
-/* read vars from checkpoint file on one processor */
-void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
+/* read vars from checkpoint file on one processor, and make sure that all
+   vars with storage in the list needed (which can be NULL) are there */
+static void read_Vars(tGrid *grid, FILE *fp, tVarList *needed)
 {
   tBox *box;
-  int ilax, i, j, l, nnodes_on_l;
-  int lold = -11111;
-  int n, nall = 0, nv;
+  char *line=NULL, *varname, *wasread, extra[2];
+  size_t size=0;
+  int i, j, l, nnodes_on_l;
+  int foundend = 0;
+  int nall = 0, nv = 0;
   int pr = 0;
-  char varname[10000], value[10000];
 
   if(1)
   {
     printf("reading variables from checkpoint file:\n");
     prTimeIn_s("WallTime: ");
   }
-  if(fgotonext(fp, "$BEGIN_variables:") == EOF)
-    errorexit("$BEGIN_variables: is missing!");  
+  wasread = (char *) calloc(grid->nboxes*grid->nvariables + 1, sizeof(char));
+  if(!wasread) errorexit("checkpoint_read_Vars_local: out of memory");
+  read_line_starting_with(fp, &line, &size, "$BEGIN_variables:");
   
-  l = lold;
   /* for all saved variables */
-  while(fgetparameter(fp, "$variable", varname) != EOF)
+  while(read_nonempty_line(fp, &line, &size))
   {
-    ilax = IndLax(varname);
-    if(ilax>=0)
-      i = ilax;
-    else
-    {
-      printf("variable %s in checkpoint file does not exist!\n", varname);
-      i = 0;
-    }
+    if(strcmp(line,"$END_variables")==0) { foundend=1; break; }
 
-    fgetparameter(fp, "box", value);
-    l = atoi(value);
+    varname = cmalloc(strlen(line) + 1);
+    if(sscanf(line, "$variable = %s : box = %d , box->nnodes = %d %1s",
+                    varname, &l, &nnodes_on_l, extra) != 3)
+      errorexits("checkpoint file is damaged, expected a variable, found: %s",
+                 line);
+    if(l < 0 || l >= grid->nboxes)
+      errorexits("box in checkpoint file does not exist: %s", line);
     box = grid->box[l];
-    if(l != lold)
-    {
-      lold = l;
-      n = nv = 0;
-    }
 
-    fgetparameter(fp, "box->nnodes", value);
-    nnodes_on_l  = atoi(value);
+    i = IndLax(varname);
+    if(i<0)
+      printf("variable %s in checkpoint file does not exist!\n", varname);
+
     if(nnodes_on_l != box->nnodes)
       errorexit("box->nnodes in checkpoint file is not what it should be!");
 
-    /* read the trailing newline behind the box->nnodes par */
-    fscanline(fp, value);
-
     /* read that variable */
-    if(ilax>=0 && box->v[i] != 0)
+    if(i>=0 && box->v[i] != 0)
     {
       /* read */
       /* fread(box->v[i], sizeof(double), nnodes_on_l, fp); */
-      fread_double_little(box->v[i], nnodes_on_l, fp);
+      if(fread_double_little(box->v[i], nnodes_on_l, fp) != nnodes_on_l)
+        errorexits("checkpoint file is damaged, not enough data: %s", line);
 
+      wasread[l*grid->nvariables + i] = 1;
       nv++;
-      n += nnodes_on_l;
       nall += nnodes_on_l;
       if(pr) printf("read box %d, nnodes=%d, variable=%s, index=%d,\n", 
 		     l, nnodes_on_l, VarName(i), i);
@@ -227,9 +257,29 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
       //errorexit("we should overread the next nnodes_on_l doubles in fp");
       printf("skipping the %d double numbers of %s (in box %d) ...\n",
              nnodes_on_l, varname, l);
-      for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++) fgetc(fp);
+      for(j=1; j<=nnodes_on_l*sizeof(double)/sizeof(char); j++)
+        if(fgetc(fp) == EOF)
+          errorexits("checkpoint file is damaged, not enough data: %s", line);
     }
+    /* there is a newline behind the data */
+    if(fgetc(fp) != '\n')
+      errorexits("checkpoint file is damaged, wrong amount of data: %s", line);
+    free(varname);
   }
+  if(!foundend)
+    errorexit("checkpoint file is damaged: $END_variables is missing!");
+
+  /* make sure that we have read all we need */
+  if(needed)
+    for(l = 0; l < grid->nboxes; l++)
+      for(j = 0; j < needed->n; j++)
+        if(grid->box[l]->v[needed->index[j]] != 0 &&
+           !wasread[l*grid->nvariables + needed->index[j]])
+          errorexits("variable %s is missing in checkpoint file!",
+                     VarName(needed->index[j]));
+  free(wasread);
+  free(line);
+
   /* info */
   if(1)
   {
@@ -239,3 +289,9 @@ void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
 		(int)(nall * sizeof(double) / 1000000));
   }
 }
+
+/* read vars from checkpoint file on one processor */
+void checkpoint_read_Vars_local(tGrid *grid, FILE *fp)
+{
+  read_Vars(grid, fp, NULL);
+}
-- 
2.43.0


From b608dd63a2517a665100ca8620a2e0381312c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 21/91] fix: reading with swapped bytes overwrote elements that
 are not in the file

---
 src/main/main/endianIO.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/main/main/endianIO.c b/src/main/main/endianIO.c
index ab785dc..0c2960d 100644
--- a/src/main/main/endianIO.c
+++ b/src/main/main/endianIO.c
@@ -59,32 +59,35 @@ static inline unsigned int SGRID_byte_order_is_little(void)
 size_t SGRID_fwrite_swapbytes(const void *ptr, size_t size, size_t nmemb, FILE *fp)
 {
   const char *buf = ptr;
-  size_t i, count;
-  char c[size];
-  unsigned int b;
+  size_t i;
+  char c[size+1];
+  size_t b;
 
-  for(count=0, i=0; i<nmemb; i++)
+  if(size==0) return 0;
+  for(i=0; i<nmemb; i++)
   {
     for(b=0; b<size; b++) c[b] = buf[i*size + size-1-b];
-    count = count + fwrite(c, sizeof(char), size, fp);
+    if(fwrite(c, sizeof(char), size, fp) != size) break;
   }
-  return count/size;
+  return i; /* number of elements written completely */
 }
 
 /* use fread to write an array, but swap byte order */
 size_t SGRID_fread_swapbytes(void *ptr, size_t size, size_t nmemb, FILE *fp)
 {
   char *buf = ptr;
-  size_t i, count;
-  char c[size];
-  unsigned int b;
+  size_t i;
+  char c[size+1];
+  size_t b;
 
-  for(count=0, i=0; i<nmemb; i++)
+  if(size==0) return 0;
+  for(i=0; i<nmemb; i++)
   {
-    count += fread(c, sizeof(char), size, fp);
+    /* if an element is not there completely, do not touch it */
+    if(fread(c, sizeof(char), size, fp) != size) break;
     for(b=0; b<size; b++) buf[i*size + b] = c[size-1-b];
   }
-  return count/size;
+  return i; /* number of elements read completely */
 }
 
 /* use fwrite to write to a file in little endian format */
-- 
2.43.0


From 7b4ec64efaee4049d712724cdb14eb20062fe3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 22/91] fix: a new run overwrote the old output and checkpoint
 if the old output directory could not be moved

---
 src/main/main/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index f27d316..1276543 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -314,10 +314,10 @@ int make_output_directory(void)
     system2("rm -rf", outdirp);
     system3("mv", outdir, outdirp);
 
-    /* if we could not remove outdir_previous, outdir is still there. 
-       Then do not mix new output with what is in it. */
-    if(lstat(outdirp, &st)==0 && lstat(outdir, &st)==0)
-      errorexits("could not remove %s", outdirp);
+    /* if we could not remove outdir_previous or move outdir, outdir is still
+       there. Then do not mix new output with what is in it. */
+    if(lstat(outdir, &st)==0)
+      errorexits("could not move %s out of the way", outdir);
   }
 
   /* make output directory, save parfile */
-- 
2.43.0


From 39934989357b2a1c6577d891c50327a3a67ac514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 23/91] fix: resuming with another number of points than in the
 checkpoint overflowed buffers

---
 src/utility/checkpoint/checkpoint_read.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_read.c b/src/utility/checkpoint/checkpoint_read.c
index 0c77f4b..4a2a8d3 100644
--- a/src/utility/checkpoint/checkpoint_read.c
+++ b/src/utility/checkpoint/checkpoint_read.c
@@ -16,7 +16,7 @@ static void read_Vars(tGrid *grid, FILE *fp, tVarList *needed);
 void checkpoint_read(tGrid *g)
 {
   FILE *fp;
-  int i;
+  int i, b;
 
   /* if there is not a complete set of checkpoint files,
      don't do anything: assume that this run starts from the beginnning
@@ -38,6 +38,11 @@ void checkpoint_read(tGrid *g)
  
       /* make an empty temporary grid g2 */
       g2 = make_empty_grid(globalnvariables, 0);
+      /* g2 has the box sizes of the new pars */
+      for(b = 0; b < g->nboxes; b++)
+        if(g2->box[b]->n1 != g->box[b]->n1 || g2->box[b]->n2 != g->box[b]->n2 ||
+           g2->box[b]->n3 != g->box[b]->n3)
+          errorexit("number of points in checkpoint file is not what it should be!");
       /* copy all from g (except vars) into g2 */
       copy_grid_withoutvars(g, g2, 0);
       /* modify grid g2, using new pars */
-- 
2.43.0


From 9ade05972be49ddfd783f44660a4b2f118d808a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 24/91] fix: Fourier basis functions are taken relative to the
 start of the interval

four_basisfunc used X instead of X-a, so interpolation in a Fourier direction
was wrong in every box whose interval does not start at a multiple of its length.
---
 src/utility/Spectral/explicit_Four_trafos.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 2c174f4..0e59e85 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -235,9 +235,9 @@ double four_basisfunc(void *aux, double a, double b, int k, int N, double X)
   int j = k/2 + k%2;
 
   if(k==0)              return 1.0/N;
-  if(k==N-1 && N%2==0)  return cos(j*K*X)*1.0/N;;
-  if(k%2!=0)            return cos(j*K*X)*2.0/N;
-  return sin(j*K*X)*2.0/N;
+  if(k==N-1 && N%2==0)  return cos(j*K*(X-a))*1.0/N;;
+  if(k%2!=0)            return cos(j*K*(X-a))*2.0/N;
+  return sin(j*K*(X-a))*2.0/N;
 }
 
 
-- 
2.43.0


From a901c7af84e554d7d7b4c7b4e273c4a5a0c387f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 25/91] fix: integrate the highest theta mode in SphericalDF
 boxes with odd n2

---
 src/utility/Spectral/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index a6b8a2f..d72de17 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -390,7 +390,7 @@ void spec_sphericalDF2dIntegral(tBox *box, double *u, double *U)
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
@@ -479,7 +479,7 @@ void spec_sphericalDF2dIntegral_at_radial_index_i(tBox *box,
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
-- 
2.43.0


From 4aa7fb742f96a069cb560584dd7e25bf994481a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 26/91] fix: the simple BSSN filter acts on the variables it is
 called for

---
 src/physics/BSSN/BSSN.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/BSSN/BSSN.c b/src/physics/BSSN/BSSN.c
index 6e1462e..a7a0a7e 100644
--- a/src/physics/BSSN/BSSN.c
+++ b/src/physics/BSSN/BSSN.c
@@ -551,7 +551,7 @@ void BSSN_ChooseAndApplyFilters(tVarList *vl)
     if(Getv("BSSN_filter_type", "coordinateDependentFilter"))
       coordinateDependentFilter(vl);
     if(Getv("BSSN_filter_type", "simple"))
-      BSSN_filter_unew(BSSNvars, NULL);
+      BSSN_filter_unew(vl, NULL);
     if(Getv("BSSN_filter_type", "naive_Ylm"))
       Naive_YlmFilter_lmshift(vl, 0);
     if(Getv("BSSN_filter_type", "Ylm_lmshift"))
-- 
2.43.0


From aff9f9f7a4d977b01e29b17a0ad3053067c59ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 27/91] fix: roundoff in the line search aborted the program

---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index a0db34c..3b13763 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -345,7 +345,7 @@ void linesrchP(int n, double xold[], double fold,
         {
           discrimi = b*b-3.*a*g_slope;
           if(discrimi<0.)
-          { printf("Roundoff problem in linesrchP\n"); abort(); exit(1); }
+          { tmplam = 0.5*alam; }
           else
           { tmplam = (-b+sqrt(discrimi))/(3.*a); }
         }
-- 
2.43.0


From 53d79cf00eba3cbc6e266b2ec80270b3848e6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 28/91] fix: the line search never ended if the Newton step was
 infinite

---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index 3b13763..d3c25d8 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -315,7 +315,7 @@ void linesrchP(int n, double xold[], double fold,
   {
     for(i=0;i<n;i++) x[i]=xold[i]+alam*p[i];
     *f=(*func)(n, x, newton_linesrch_fvec, vecfunc, par, vecfunc_ilow);
-    if(alam < alamin)
+    if(alam <= alamin)
     {
       for(i=0;i<n;i++) x[i] = xold[i];
       *check = 1;
-- 
2.43.0


From b81f31987a8212b916d25324f995ce14c5654f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 29/91] fix: SphHarm_sin_theta_dtheta_forRealFunc must not read
 coefficients beyond lmax

---
 src/utility/Spectral/SphericalHarmonics.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/SphericalHarmonics.c b/src/utility/Spectral/SphericalHarmonics.c
index 02ef816..8d4514b 100644
--- a/src/utility/Spectral/SphericalHarmonics.c
+++ b/src/utility/Spectral/SphericalHarmonics.c
@@ -312,8 +312,12 @@ void SphHarm_sin_theta_dtheta_forRealFunc(double *c, double *csdth, int lmax)
       elp1m = elp1m/( (lp1_2 + 1)*(lp1_2 - 1) );
       elp1m = sqrt(elp1m);
 
-      Rclp1 = c[i+lp1_2];
-      Iclp1 = c[i+lp1_2+1];
+      if(l<lmax)
+      {
+        Rclp1 = c[i+lp1_2];
+        Iclp1 = c[i+lp1_2+1];
+      }
+      else Rclp1 = Iclp1 = 0.0; /* there are no c_{lmax+1}^m */
       Rclm1 = c[i-l_2];
       Iclm1 = c[i-l_2+1];
 
-- 
2.43.0


From 82c117ac397c3ef6521b3ced7b4ec3be1dc1b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 30/91] fix: surface Ylm coefficients on cubed spheres were
 wrong with a grid point on the polar axis

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 28e20a1..41269ca 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -341,8 +341,7 @@ int FSurf_CubSph_get_Ylm_integrals(tBox *box, int s, int Re_vind, int Im_vind,
     for(l=0; l<=lmax; l++)
     for(m=0; m<=l; m++, i++) /* here we set only integrands for m>=0 */
     {
-      double R,I, RYlm,IYlm, A,B;
-      double Theta,Phi, dThetadA,dThetadB, dPhidA,dPhidB, Jac, fac;
+      double R,I, RYlm,IYlm, A,B, fac;
 
       /* get A,B and Re, Im part of data at surface where i=s */
       ijk=Index(s,j,k);
@@ -356,11 +355,9 @@ int FSurf_CubSph_get_Ylm_integrals(tBox *box, int s, int Re_vind, int Im_vind,
          Later we actually compute  \int dA dB (Integ).
          Now \int d\phi d\theta \sin(theta) = \int dA dB Jac
          So we need to multiply by the Jacobian  */
-      /* get Theta, Phi and their derivs */
-      ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
-                                         &dThetadA,&dThetadB, &dPhidA,&dPhidB);
-      Jac = fabs(dThetadA*dPhidB - dThetadB*dPhidA); /* Jacobian */
-      fac = Jac * sin(Theta);
+      /* On each cubed sphere patch Jac * \sin(theta) = 1/(1+A^2+B^2)^{3/2},
+         which is also regular on the poles where dThetadA,...,dPhidB are not */
+      fac = 1.0/( (1.0 + A*A + B*B)*sqrt(1.0 + A*A + B*B) );
       R = R * fac;
       I = I * fac;
       
-- 
2.43.0


From 2cbbb99e07aedaaf2ce66778ea65f55017535883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 31/91] fix: compactSphericalDF_r0 and tan_stretch_s were read
 only once per process

---
 src/utility/Coordinates/Coordinates.c | 84 +++++++--------------------
 1 file changed, 20 insertions(+), 64 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..5d3d901 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -1545,29 +1545,18 @@ return 0.;
 /* xi in [0,1] then r in [r0,infty] */
 double r_of_xi(double xi)
 {
-  static double r0=-1.0;
+  double r0=Getd("compactSphericalDF_r0");
 
 //  if(xi==1.0) return  
-  if(r0 < 0.0)
-  {
-    r0=Getd("compactSphericalDF_r0");
-    printf(" Coordinates: r_of_xi: compactSphericalDF_r0=%f\n", r0);
-  }
   return tan(xi * PI/2.0) + r0;
 }
 double dxi_dr(double xi)
 {
-  static double r0=-1.0;
+  double r0=Getd("compactSphericalDF_r0");
   double r;
 
   if(xi==1.0) return 0.0;
 
-  if(r0 < 0.0)
-  {
-    r0=Getd("compactSphericalDF_r0");
-    printf(" Coordinates: dxi_dr: compactSphericalDF_r0=%f\n", r0);
-  }
-  
   r = tan(xi * PI/2.0) + r0;
   return (2.0/PI) / ( 1.0 + (r-r0)*(r-r0) );
 }
@@ -1636,99 +1625,85 @@ double dphicompactSphericalDF_dy(void *aux, int ind, double xi, double thm, doub
 /* second coord. derivs */
 double ddxi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) - Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + 2.*Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Cos(phi),2)*(r0 + Tan(0.5*PI*xi)) - 2.*Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddxi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*phi)*Power(Sin(theta),2)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddxi_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Cos(phi)*Power(Cos(0.5*PI*xi),2)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddxi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (2.*Power(Cos(0.5*PI*xi),4)*(Power(Cos(theta),4)*Power(r0 + Tan(0.5*PI*xi),2) + Power(Cos(theta),2)*(1. + Power(r0,2) - 2.*r0*(r0 + Tan(0.5*PI*xi)) + 2.*Power(Cos(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)) + Power(Sin(theta),2)*(2.*r0*Power(Sin(phi),2)*(r0 + Tan(0.5*PI*xi)) + Power(Cos(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - 2.*Power(Sin(phi),4)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2) - Power(Cos(phi),2)*(-1. + Power(r0,2) + 2.*r0*Tan(0.5*PI*xi) + Power(Sin(phi),2)*Power(Sin(theta),2)*Power(r0 + Tan(0.5*PI*xi),2)))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddxi_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Power(Cos(0.5*PI*xi),2)*Sin(phi)*Sin(2.*theta)*(-2. + Cos(PI*xi) - r0*Sin(PI*xi)))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddxi_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (-2.*Power(Cos(0.5*PI*xi),2)*(Cos(2.*theta) + Power(Cos(theta),2)*(-Cos(PI*xi) + r0*Sin(PI*xi))))/(PI*(r0 + Tan(0.5*PI*xi)));
 }
 
 double ddthm_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return -(((Cos(2.*phi) - Power(Cos(phi),2)*Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
 
 double ddthm_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (0.5*(-2. + Cos(2.*theta))*Power(Cos(0.5*PI*xi),2)*Cot(theta)*Sin(2.*phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
 
 double ddthm_compactSphericalDF_dxdz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return -((Cos(phi)*Cos(2.*theta)*Power(Cos(0.5*PI*xi),2))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
 
 double ddthm_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Power(Cos(0.5*PI*xi),2)*Cot(theta)*(Cos(2.*phi) + Cos(2.*theta)*Power(Sin(phi),2)))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
 
 double ddthm_compactSphericalDF_dydz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return -((Cos(2.*theta)*Power(Cos(0.5*PI*xi),2)*Sin(phi))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2));
 }
 
 double ddthm_compactSphericalDF_dzdz(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Power(Cos(0.5*PI*xi),2)*Sin(2.*theta))/Power(r0*Cos(0.5*PI*xi) + Sin(0.5*PI*xi),2);
 }
 
 double ddphi_compactSphericalDF_dxdx(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (Power(Csc(theta),2)*Sin(2.*phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
 
 double ddphi_compactSphericalDF_dxdy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return -((Cos(2.*phi)*Power(Csc(theta),2))/Power(r0 + Tan(0.5*PI*xi),2));
 }
 
@@ -1739,8 +1714,7 @@ return 0.0;
 
 double ddphi_compactSphericalDF_dydy(void *aux, int ind, double xi, double thm, double phi)
 {
-tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  static double r0=-1.0;
-   if(r0 < 0.0)  {    r0=Getd("compactSphericalDF_r0");    printf(" Coordinates: compactSphericalDF_r0=%f\n", r0);  }
+tBox *box = (tBox *) aux;  int N = box->n2;  double theta = thm + PI/((1+N%2)*N);  double r0=Getd("compactSphericalDF_r0");
 return (-2.*Cos(phi)*Power(Csc(theta),2)*Sin(phi))/Power(r0 + Tan(0.5*PI*xi),2);
 }
 
@@ -2184,27 +2158,15 @@ return 0;
 /* s<<1: xs in [-1,1] then x ~ xs                  */
 double x_of_xs(double xs)
 {
-  static double s=-1.0;
-
-  if(s < 0.0)
-  {
-    s=Getd("tan_stretch_s");
-    printf(" Coordinates: x_of_xs: tan_stretch_s=%f\n", s);
-  }
+  double s=Getd("tan_stretch_s");
   if(s==0) return xs;
 
   return tan(xs * s * PI/2.0) * 2.0/(PI*s);
 }
 double dxs_dx(double xs)
 {
-  static double s=-1.0;
+  double s=Getd("tan_stretch_s");
   double u, arg;
-
-  if(s < 0.0)
-  {
-    s=Getd("tan_stretch_s");
-    printf(" Coordinates: dxs_dx: tan_stretch_s=%f\n", s);
-  }
   
   arg = xs * s;
   if( fabs(arg)>=1.0 ) return 0.0;
@@ -2215,14 +2177,8 @@ double dxs_dx(double xs)
 }
 double ddxs_dxdx(double xs)
 {
-  static double s=-1.0;
+  double s=Getd("tan_stretch_s");
   double u, arg, dum;
-
-  if(s < 0.0)
-  {
-    s=Getd("tan_stretch_s");
-    printf(" Coordinates: dxs_dx: tan_stretch_s=%f\n", s);
-  }
   
   arg = xs * s;
   if( fabs(arg)>=1.0 ) return 0.0;
-- 
2.43.0


From 93b5a2239a91a33f75ed11bfe42a6af0238f2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 32/91] fix: the centre of cubed spheres was reported to be
 inside each of them

---
 src/utility/Coordinates/coordtrans_CubedSphere.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/Coordinates/coordtrans_CubedSphere.c b/src/utility/Coordinates/coordtrans_CubedSphere.c
index b118b58..214351e 100644
--- a/src/utility/Coordinates/coordtrans_CubedSphere.c
+++ b/src/utility/Coordinates/coordtrans_CubedSphere.c
@@ -158,6 +158,9 @@ int lamAB_of_xyz_CubSph(tBox *box, int ind, double x, double y, double z,
     *B   = rx/rz;
   }
 
+  /* A and B are not defined at the center, which is never inside the box */
+  if( !finit(*A) || !finit(*B) ) return -1;
+
   /* check if A is out of range */
   if( *A < box->bbox[2] || box->bbox[3] < *A )
   {
-- 
2.43.0


From 98b90b61534f2d5d46746cb86ded076effc62066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 33/91] fix: generic second coordinate derivatives were zero
 unless the transforms were stored

---
 src/utility/Coordinates/Coordinates.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 5d3d901..cf341ee 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -874,6 +874,7 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
     double *y = box->v[Ind("y")];
     double *z = box->v[Ind("z")];
     char str[1000];
+    int ind;
 
     /* whether we use generic coordinate transforms */
     snprintf(str, 999, "box%d_CoordinateTransforms_generic", b);
@@ -910,6 +911,23 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       enablevar_inbox(box, Ind("temp2"));
       enablevar_inbox(box, Ind("temp3"));
 
+      /* set dXdx, ... because init_ddXdxdx_generic needs them, and the storage
+         may have just been enabled */
+      forallpoints(box, ind)
+      {
+        int j;
+        double X = box->v[Ind("X")][ind];
+        double Y = box->v[Ind("Y")][ind];
+        double Z = box->v[Ind("Z")][ind];
+
+        for(j=1; j<=3; j++)
+        {
+          box->v[dXd + j-1][ind]=box->dX_dx[1][j]((void *) box, ind, X,Y,Z);
+          box->v[dYd + j-1][ind]=box->dX_dx[2][j]((void *) box, ind, X,Y,Z);
+          box->v[dZd + j-1][ind]=box->dX_dx[3][j]((void *) box, ind, X,Y,Z);
+        }
+      }
+
       /* initialize generic */
       use_CoordinateTransforms_generic = 1;
       init_ddXdxdx_generic(box);
-- 
2.43.0


From 85fcbabe9581b5a145182c610dda6c1108d9caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 34/91] fix: drho/dx and drho/dy of PolarCE coordinates used Y
 instead of the angle

---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index cf341ee..d35cbb2 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1317,6 +1317,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 }
 
 /* first coord. derivs */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From a98b3cb164919bdfdd5e4bffb583de9e25fc5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 35/91] fix: coordinate searches reported success at a wrong
 point when Newton's line search got stuck

---
 src/utility/Coordinates/findXYZ_of_xyz.c | 32 ++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..493e549 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -150,6 +150,16 @@ int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
       else           stat = -abs(stat)-1;
     }
   }
+  else
+  {
+    /* newton may also stop because no better point can be found, in that case
+       we have not reached x,y,z */
+    double fvec[4];
+    double r = sqrt(x*x + y*y + z*z);
+    xyz_VectorFuncP(3, XYZvec, fvec, (void *) pars);
+    if( !(sqrt(fvec[1]*fvec[1] + fvec[2]*fvec[2] + fvec[3]*fvec[3])
+          <= tol*100.0*(1.0+r)) )  stat = -stat-1;
+  }
 
   return stat-check;
 }
@@ -661,6 +671,17 @@ int X_of_x_forgiven_YZ(tBox *box, double *X, double x, double Y, double Z)
                               Getd("Coordinates_newtTOLF") );
   *X = XYZvec[1];
 
+  /* newton may stop without reaching x */
+  if(stat>=0)
+  {
+    double fvec[2];
+    x_VectorFuncP_YZ(1, XYZvec, fvec, (void *) pars);
+    if( !(fabs(fvec[1]) <= 100.0*Getd("Coordinates_newtTOLF")*(1.0+fabs(x))) )
+      stat = -stat-1;
+    else
+      check = 0;
+  }
+
   if(check || stat<0) printf("X_of_x_forgiven_YZ: check=%d stat=%d\n", check, stat);
   return stat-check;
 }
@@ -773,6 +794,17 @@ int Y_of_y_forgiven_XZ(tBox *box, double *Y, double y, double X, double Z)
                               Getd("Coordinates_newtTOLF") );
   *Y = XYZvec[1];
 
+  /* newton may stop without reaching y */
+  if(stat>=0)
+  {
+    double fvec[2];
+    y_VectorFuncP_XZ(1, XYZvec, fvec, (void *) pars);
+    if( !(fabs(fvec[1]) <= 100.0*Getd("Coordinates_newtTOLF")*(1.0+fabs(y))) )
+      stat = -stat-1;
+    else
+      check = 0;
+  }
+
   if(check || stat<0) printf("Y_of_y_forgiven_XZ: check=%d stat=%d\n", check, stat);
   return stat-check;
 }
-- 
2.43.0


From a007ecbae6bf9729312a2f1fef1cdc895e0a553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 36/91] fix: derivatives of a cubed sphere surface given by Ylm
 coefficients missed the contribution at lmax+1

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 41269ca..24df32d 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -84,15 +84,17 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
 {
   int N = box->nnodes;
   int offset = si ? N/2 : 0;  /* offset for coeffs in co */
-  int nYs = (lmax*(lmax+1))/2 + lmax+1; /* number of Ylm's we use */
+  int nco = (lmax*(lmax+1))/2 + lmax+1; /* number of Ylm's in sigma */
+  int L = lmax+1; /* sin(Theta) d/dTheta raises the largest l by 1 */
+  int nYs = (L*(L+1))/2 + L+1; /* number of Ylm's we use */
   int ijk, l,m;
   double sm;
-  double *co = box->v[isigma01_co];
+  double *co = calloc(nYs*2, sizeof(double)); /* coeffs are zero for l>lmax */
   double ft, fp; /* ft = sin(Theta) dsigma/dTheta, fp = dsigma/dPhi */
   double fth;    /* fth= dsigma/dTheta */
   double Theta,Phi, dThetadA,dThetadB, dPhidA,dPhidB;
-  double *ReYtab = alloc_Plm_Tab(lmax);
-  double *ImYtab = alloc_Plm_Tab(lmax);
+  double *ReYtab = alloc_Plm_Tab(L);
+  double *ImYtab = alloc_Plm_Tab(L);
   double *csdth = calloc(nYs*2, sizeof(double));
   double *cdphi = calloc(nYs*2, sizeof(double));
 
@@ -106,17 +108,18 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
                                      &dThetadA,&dThetadB, &dPhidA,&dPhidB);
   /* make tables of Ylm at Theta,Phi */
-  set_YlmTabs(lmax, Theta,Phi, ReYtab, ImYtab);
+  set_YlmTabs(L, Theta,Phi, ReYtab, ImYtab);
 
   /* get coeffs of derivs */
-  SphHarm_sin_theta_dtheta_forRealFunc(co+offset, csdth, lmax);
-  SphHarm_dphi_forRealFunc(co+offset, cdphi, lmax);
+  for(ijk=0; ijk<nco*2; ijk++) co[ijk] = box->v[isigma01_co][offset+ijk];
+  SphHarm_sin_theta_dtheta_forRealFunc(co, csdth, L);
+  SphHarm_dphi_forRealFunc(co, cdphi, L);
 
   /* get func vals ft,fp at Theta,Phi */
   fp = ft = 0.;
   ijk=0;
   /* loop over positive m, here Ylmm=Y_l^{-m}, sm = (-1)^m */
-  for(l=0; l<=lmax; l++)
+  for(l=0; l<=L; l++)
     for(sm=1., m=0;  m<=l;  m++, sm=-sm)
     {
       double Re_Ylm, Im_Ylm, Re_Ylmm, Im_Ylmm;
@@ -137,7 +140,7 @@ errorexit("NAN!");
 }
 */
       /* get Ylm at Theta,Phi */
-      Ylm_from_Tabs(lmax, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
+      Ylm_from_Tabs(L, ReYtab, ImYtab, l,m, &Re_Ylm,&Im_Ylm);
 
       /* There is a choice of sign here: define the inner product by
          (f,g) = int f^* g
@@ -177,6 +180,7 @@ errorexit("NAN!");
   free(csdth);
   free(ImYtab);
   free(ReYtab);
+  free(co);
 /*
 if(!isfinite(*dsigdA) || !isfinite(*dsigdB))
 {
-- 
2.43.0


From fc34418fca66d8b05b1e78bddb466f6cd05ab81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 37/91] fix: derivatives of a cubed sphere surface were wrong
 at a grid point on the polar axis

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 31 ++++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 24df32d..e724415 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -98,11 +98,31 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   double *csdth = calloc(nYs*2, sizeof(double));
   double *cdphi = calloc(nYs*2, sizeof(double));
 
-  /* regularize case where A=B=0 <==> Theta=0:
-     Note for Theta=0 we cannot use sin(Theta) d/dTheta Ylm
-     to find d/dTheta Ylm. Also dPhidA blows up!!!
-     So for now just add epsilon to B. */
-  if(A==0. && B==0.) B = 1e-10;
+  for(ijk=0; ijk<nco*2; ijk++) co[ijk] = box->v[isigma01_co][offset+ijk];
+
+  /* case where A=B=0 on the polar axis <==> Theta=0 or Theta=PI, up to
+     round off in the grid points:  Note here we cannot use sin(Theta) d/dTheta Ylm to find d/dTheta Ylm,
+     and dPhidA blows up. But only m=1 contributes to the derivs, and
+     Y_l^1 = -sqrt((2l+1)l(l+1)/(16PI)) (B + I A)           near Theta=0
+     Y_l^1 = -sqrt((2l+1)l(l+1)/(16PI)) (B + I A) (-1)^l    near Theta=PI */
+  if(A*A+B*B < 1e-10 && box->CI->dom/2 == 2)
+  {
+    *dsigdA = *dsigdB = 0.;
+    for(l=1; l<=lmax; l++)
+    {
+      double K = sqrt((2*l+1)*l*(l+1)/(16.*PI));
+      if(box->CI->dom%2==0 && l%2) K = -K;
+      ijk = l*(l+1) + 2; /* real part of coeff l,m=1 */
+      *dsigdB -= 2.*K*co[ijk];
+      *dsigdA += 2.*K*co[ijk+1];
+    }
+    free(cdphi);
+    free(csdth);
+    free(ImYtab);
+    free(ReYtab);
+    free(co);
+    return;
+  }
 
   /* get Theta,Phi and their derivs from A,B */
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
@@ -111,7 +131,6 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   set_YlmTabs(L, Theta,Phi, ReYtab, ImYtab);
 
   /* get coeffs of derivs */
-  for(ijk=0; ijk<nco*2; ijk++) co[ijk] = box->v[isigma01_co][offset+ijk];
   SphHarm_sin_theta_dtheta_forRealFunc(co, csdth, L);
   SphHarm_dphi_forRealFunc(co, cdphi, L);
 
-- 
2.43.0


From 11b2429123ac4ac019b040d92694dc6ae665a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 38/91] fix: interface conditions skipped face points whose
 neighbour coordinates are outside the range by round off or in a periodic
 direction

---
 src/utility/boundary/BCs_from_bfaces.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index b08ef69..944532e 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -391,6 +391,7 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
   tBox *obox = NULL;
   int oCi1, oCi2;
   double rangeC1[2], rangeC2[2];
+  int periodicC1, periodicC2;
   tBface *obface;
   int of, op;
   int pi, ind;
@@ -431,6 +432,8 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     rangeC1[1] = obox->bbox[3];
     rangeC2[0] = obox->bbox[4];
     rangeC2[1] = obox->bbox[5];
+    periodicC1 = obox->periodic[2];
+    periodicC2 = obox->periodic[3];
   }
   else if(plN==2)
   {
@@ -441,6 +444,8 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     rangeC1[1] = obox->bbox[1];
     rangeC2[0] = obox->bbox[4];
     rangeC2[1] = obox->bbox[5];
+    periodicC1 = obox->periodic[1];
+    periodicC2 = obox->periodic[3];
   }
   else if(plN==3)
   {
@@ -451,6 +456,8 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     rangeC1[1] = obox->bbox[1];
     rangeC2[0] = obox->bbox[2];
     rangeC2[1] = obox->bbox[3];
+    periodicC1 = obox->periodic[1];
+    periodicC2 = obox->periodic[2];
   }
   else errorexit("1<=plN<=3 is required");
   if(oCi1<=0 || oCi2<=0) errorexit("oCi1/2 > 0 is required");
@@ -472,9 +479,12 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     double C2 = box->v[oCi2][ind];
     double Pinterp[4], n[4];
 
-    /* skip point if C1 or C2 are out of their range */
-    if(C1<rangeC1[0] || C1>rangeC1[1]) continue;
-    if(C2<rangeC2[0] || C2>rangeC2[1]) continue;
+    /* skip point if C1 or C2 are out of their range (by more than round off),
+       in periodic directions every value is in range */
+    if(!periodicC1)
+      if(dless(C1,rangeC1[0]) || dless(rangeC1[1],C1)) continue;
+    if(!periodicC2)
+      if(dless(C2,rangeC2[0]) || dless(rangeC2[1],C2)) continue;
 
     if(bface->setnormalderiv == 0)
     {
-- 
2.43.0


From 23c95e4ec790c325df4d32b2ea7c187303886dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 39/91] fix: setnormalderiv was switched on for overlapping
 bfaces, so setting their interface conditions stopped the program

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 596d8fa..9caffff 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1433,6 +1433,9 @@ int toggle_setnormalderiv_flag_in_faces4_5_of_cubes(tGrid *grid)
         tBox *obox = NULL;
         tBface *obface = NULL;
 
+        /* non-touching (overlapping) bfaces need setnormalderiv=0 */
+        if(ob>=0 && !bface->touch) continue;
+
         /* do something only on face 4 and 5 */
         if((f == 4) || (f == 5))
         {
@@ -1510,6 +1513,9 @@ int toggle_setnormalderiv_flag_of_CubSph_doms_0_4_and_1_5(tGrid *grid)
         obface = obox->bface[ofi];
         odomain = obox->CI->dom;
 
+        /* non-touching (overlapping) bfaces need setnormalderiv=0 */
+        if(!bface->touch) continue;
+
         /* do something only if domain,odomain is 0,4 or 1,5 */
         if((domain == 0 && odomain == 4) || (domain == 1 && odomain == 5))
         {
-- 
2.43.0


From c4938ed73fa756a5bc2b01db591453e46f8c5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 40/91] fix: set_touching_bfaces_of_boxes_with_same_facepoints
 compared point numbers of wrong boxes if b0>0

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 9caffff..6e4a61d 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1768,7 +1768,7 @@ int set_touching_bfaces_of_boxes_with_same_facepoints(tGrid *grid, int b0, int n
 ////write_grid(grid);
           /* check if there are the same number of points in both fpts */
           if(bface2->fpts != NULL &&
-             bface->fpts->npoints[b] == bface2->fpts->npoints[b2])
+             bface->fpts->npoints[b0+b] == bface2->fpts->npoints[b0+b2])
           {
             ifaces++; /* count the number of interfaces */
 
-- 
2.43.0


From d95abcfa6e816315dbf09f6cf407ef6794caa72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 41/91] fix: set_oX_oY_oZ_vars_for_bfaces started searches from
 indeterminate values and never saw Cartesian boxes

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 6e4a61d..634ebeb 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1861,8 +1861,9 @@ int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
   {
     tBox *box = grid->box[b];
     double *px, *py, *pz;
+    double oX[1], oY[1], oZ[1]; /* kept between points as next guess */
 
-    if(box->x_of_X==NULL) /* Cartesian */
+    if(box->x_of_X[1]==NULL) /* Cartesian */
     {
       px = box->v[iX];
       py = box->v[iX+1];
@@ -1907,7 +1908,6 @@ int set_oX_oY_oZ_vars_for_bfaces(tGrid *grid)
           forPointList_inbox(bface->fpts, box, pi, ijk)
           {
             tBox *obox = grid->box[ob];
-            double oX[1], oY[1], oZ[1];
 
             /* if we do not have an inverse we need some guess for oX,oY,oZ */
             if(obox->XYZ_Of_xyz==NULL)
-- 
2.43.0


From ca1ced0041bcee76933df6e6a105bbbdf614ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 42/91] fix: bfaces with different numbers of points were
 marked as having the same points

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 634ebeb..e350820 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1115,8 +1115,10 @@ int set_bits_in_all_bfaces(tGrid *grid)
           AddToPointList(ofpts, obox->b, oind);
       }
 
-      /* now check if ofpts is the same as obface->fpts */
-      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b])
+      /* now check if ofpts is the same as obface->fpts, and if each of our
+         points has one partner in there */
+      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b] &&
+         ofpts->npoints[obox->b] == fpts->npoints[box->b])
       {
         /* make an intList point at the list in obface->fpts */
         ilist->n = obface->fpts->npoints[obox->b];
-- 
2.43.0


From 3778fbac0f81d1919d8438842a4506a0353561b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 43/91] fix: boxes with periodic directions were overlooked as
 neighbours

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index e350820..4c6b063 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -590,7 +590,8 @@ int set_bfaces_on_boxface(tBox *box, int f)
       double osize = find_box_size(obox);
       double dist = nearestinnerXYZ_of_xyz(obox, &oi, &oX,&oY,&oZ, ox,oy,oz);
       //double dist = guessXYZ_of_xyz(obox, &oi, &oX,&oY,&oZ, ox,oy,oz);
-      if(dist<osize)
+      /* corner based osize means nothing for a box with periodic directions */
+      if(dist<osize || obox->periodic[1] || obox->periodic[2] || obox->periodic[3])
       {
         ret=XYZ_of_xyz(obox, &oX,&oY,&oZ, ox,oy,oz);
         if(ret>=0)
-- 
2.43.0


From 77672c4d62bc5e09a01cf0e08c26b4ffbff8fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 44/91] fix: XYZ_of_xyz used parameter indices of an earlier
 run in the same process

---
 src/utility/Coordinates/findXYZ_of_xyz.c    | 21 +++++++++++++++------
 src/utility/Coordinates/sgrid_Coordinates.c |  3 +++
 src/utility/Coordinates/sgrid_Coordinates.h |  1 +
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 493e549..ea48bf4 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -43,14 +43,23 @@ void xyz_VectorFuncP(int n, double *XYZvec, double *fvec, void *p)
   //printf("%g,%g,%g  xg,yg,zg=%g,%g,%g\n", fvec[1],fvec[2],fvec[3], xg,yg,zg);
 }
 
+/* parameter indices used in XYZ_of_xyz */
+static int need_ParIndices = 1;
+static int Coordinates_newtTOLF_ParIndex;
+static int Coordinates_XYZ_of_xyz_Verbose_ParIndex;
+static int Coordinates_XYZ_of_xyz_Guess_ParIndex;
+
+/* make XYZ_of_xyz look up its parameter indices again. This is needed each
+   time the parameter database is set up anew. */
+void reset_XYZ_of_xyz_ParIndices(void)
+{
+  need_ParIndices = 1;
+}
+
 /* find X,Y,Z from x,y,z (Note: X,Y,Z also contains initial guess) */
 int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
                 double x, double y, double z)
 {
-  static int firstcall = 1;
-  static int Coordinates_newtTOLF_ParIndex;
-  static int Coordinates_XYZ_of_xyz_Verbose_ParIndex;
-  static int Coordinates_XYZ_of_xyz_Guess_ParIndex;
   double tol;
   int XYZ_of_xyz_Verbose, XYZ_of_xyz_Guess;
   double XYZvec[4];
@@ -65,9 +74,9 @@ int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
     return box->XYZ_Of_xyz(box, -1, x,y,z, X,Y,Z);
 
   /* get par indices once */
-  if(firstcall)
+  if(need_ParIndices)
   {
-    firstcall=0;
+    need_ParIndices=0;
     Coordinates_newtTOLF_ParIndex = GetParIndex("Coordinates_newtTOLF");
     Coordinates_XYZ_of_xyz_Verbose_ParIndex = GetParIndex("Coordinates_XYZ_of_xyz_Verbose");
     Coordinates_XYZ_of_xyz_Guess_ParIndex = GetParIndex("Coordinates_XYZ_of_xyz_Guess");
diff --git a/src/utility/Coordinates/sgrid_Coordinates.c b/src/utility/Coordinates/sgrid_Coordinates.c
index e01ecff..4599b61 100644
--- a/src/utility/Coordinates/sgrid_Coordinates.c
+++ b/src/utility/Coordinates/sgrid_Coordinates.c
@@ -110,5 +110,8 @@ int sgrid_Coordinates(void)
          "some bface flags [none,populate_bfaces,setnormalderiv_order0,"
          "setnormalderiv_order1,setnormalderiv_order2,setnormalderiv_order3]");
 
+  /* the parameters may be at other places than in a previous run */
+  reset_XYZ_of_xyz_ParIndices();
+
   return 0;
 }
diff --git a/src/utility/Coordinates/sgrid_Coordinates.h b/src/utility/Coordinates/sgrid_Coordinates.h
index 17f4d5b..195a7bd 100644
--- a/src/utility/Coordinates/sgrid_Coordinates.h
+++ b/src/utility/Coordinates/sgrid_Coordinates.h
@@ -81,6 +81,7 @@ double ddAbstanhdxdy(double x, double y);
 double ddAbstanhdydy(double x, double y);
 
 /* from findXYZ_of_xyz.c */
+void reset_XYZ_of_xyz_ParIndices(void);
 int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
                double x, double y, double z);
 int b_XYZ_of_xyz(tGrid *grid, double *X, double *Y, double *Z,
-- 
2.43.0


From 57ec13e7b8cc9dc37b1808f17ec26aa1d6088a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 45/91] fix: constant and simple excision boundaries did not
 hold for integrators that ask for time derivatives

---
 src/utility/boundary/boundary.c       | 12 ++++++------
 src/utility/boundary/excision.c       | 10 +++++++---
 src/utility/boundary/sgrid_boundary.h |  4 ++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/utility/boundary/boundary.c b/src/utility/boundary/boundary.c
index 987c7e8..08d82e2 100644
--- a/src/utility/boundary/boundary.c
+++ b/src/utility/boundary/boundary.c
@@ -301,7 +301,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     /* for all variables */
     for (j = 0; j < unew->n; j++)
       set_boundary_constant(constantBoundaryPointList,
-                            unew->index[j], upre->index[j]);
+                            unew->index[j], upre->index[j], c);
   }
 
   /* simple excision boundary condition */
@@ -309,7 +309,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
   {
     /* for all variables */
     for (j = 0; j < unew->n; j++)
-      set_boundary_simpleExcision(grid, unew->index[j], upre->index[j]);
+      set_boundary_simpleExcision(grid, unew->index[j], upre->index[j], c);
   }
 
   /* selectedconstantExcision excision boundary condition */
@@ -321,7 +321,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
       i = unew->index[j];
       if (Getv("boundary_selectedExcisionVars", VarName(i)))
         set_boundary_constant(selectedBoundaryPointList,
-                              unew->index[j], upre->index[j]);
+                              unew->index[j], upre->index[j], c);
     }
   }
 
@@ -355,8 +355,8 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
 }
 
 
-/* constant boundary condition */
-void set_boundary_constant(tPointList *PL, int unew, int upre)
+/* constant boundary condition (if c=0, unew is the time derivative) */
+void set_boundary_constant(tPointList *PL, int unew, int upre, double c)
 {
   tGrid *grid = PL->grid;
   int bi, pi, ijk;
@@ -368,6 +368,6 @@ void set_boundary_constant(tPointList *PL, int unew, int upre)
     double *varpre = box->v[upre];
 
     forPointList_inbox(PL, box, pi , ijk)
-      varnew[ijk] =  varpre[ijk];
+      varnew[ijk] = (c != 0.0) ? varpre[ijk] : 0.0;
   }
 }
diff --git a/src/utility/boundary/excision.c b/src/utility/boundary/excision.c
index b84824d..d23c0fe 100644
--- a/src/utility/boundary/excision.c
+++ b/src/utility/boundary/excision.c
@@ -6,8 +6,9 @@
 #include "boundary.h"
 
 
-/* set simple excision boundary for one variable */
-void set_boundary_simpleExcision(tGrid *grid, int unew, int upre)
+/* set simple excision boundary for one variable
+   (if c=0, unew is the time derivative) */
+void set_boundary_simpleExcision(tGrid *grid, int unew, int upre, double c)
 {
   int bi, pi, ijk;
   
@@ -19,7 +20,10 @@ void set_boundary_simpleExcision(tGrid *grid, int unew, int upre)
 
     /* NOTE: This works only if excsion boundary is at i=0: */
     forPointList_inbox(ExcisionBoundaryPointList, box, pi , ijk)
-      varnew[ijk] =  varpre[ijk] + varnew[ijk+1] - varpre[ijk+1];
+      if(c != 0.0)
+        varnew[ijk] =  varpre[ijk] + varnew[ijk+1] - varpre[ijk+1];
+      else
+        varnew[ijk] =  varnew[ijk+1];
   }
 }
 
diff --git a/src/utility/boundary/sgrid_boundary.h b/src/utility/boundary/sgrid_boundary.h
index c92d867..f3d83f3 100644
--- a/src/utility/boundary/sgrid_boundary.h
+++ b/src/utility/boundary/sgrid_boundary.h
@@ -13,8 +13,8 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur);
 void set_boundary_radiative(tGrid *grid, 
 			    int unew, int upre, double c, int ucur,
 			    double var0, double v);
-void set_boundary_simpleExcision(tGrid *grid, int unew, int upre);
-void set_boundary_constant(tPointList *PL, int unew, int upre);
+void set_boundary_simpleExcision(tGrid *grid, int unew, int upre, double c);
+void set_boundary_constant(tPointList *PL, int unew, int upre, double c);
 void set_boundary_value(tPointList *PL, int ui, double value);
 void set_boundary_normalderiv_leftBound(tPointList *PL, int direc, int ui, 
                                         double deriv);
-- 
2.43.0


From 4ba3480c3c66f9f76380e3cfe9c54fe415549566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 46/91] fix: boundary_selectedExcisionVars had no effect with
 integrators that use auxiliary variables

---
 src/utility/boundary/boundary.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utility/boundary/boundary.c b/src/utility/boundary/boundary.c
index 08d82e2..74d1029 100644
--- a/src/utility/boundary/boundary.c
+++ b/src/utility/boundary/boundary.c
@@ -250,6 +250,21 @@ int free_BoundaryPointLists(tGrid *grid)
 }
 
 
+/* check if var i is selected for excision, endings like "_r" that are added
+   to var names by some integrators do not matter */
+static int var_in_selectedExcisionVars(int i)
+{
+  char str[1000];
+  int slen;
+
+  if(Getv("boundary_selectedExcisionVars", VarName(i))) return 1;
+
+  snprintf(str, 999, "%s", VarName(i));  slen=strlen(str);
+  if(slen>=3)
+    if(str[slen-2]=='_') str[slen-2]=0;
+  return Getv("boundary_selectedExcisionVars", str);
+}
+
 /* apply all active boundary conditions after a standard evolution step */
 void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
 {
@@ -319,7 +334,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (var_in_selectedExcisionVars(i))
         set_boundary_constant(selectedBoundaryPointList,
                               unew->index[j], upre->index[j], c);
     }
@@ -341,7 +356,7 @@ void set_boundary(tVarList *unew, tVarList *upre, double c, tVarList *ucur)
     for (j = 0; j < unew->n; j++)
     {
       i = unew->index[j];
-      if (Getv("boundary_selectedExcisionVars", VarName(i)))
+      if (var_in_selectedExcisionVars(i))
         set_boundary_VonNeumannExcision(selectedBoundaryPointList,
                                         unew->index[j]);
     }
-- 
2.43.0


From c0e8f7df90cb46b6bdc5e6477ac309f222c34ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 47/91] fix: runs with radiative_analytic boundary crashed when
 they were continued from a checkpoint

---
 src/utility/boundary/boundary.h       |  2 +
 src/utility/boundary/radiative.c      | 70 +++++++++++++++++++++------
 src/utility/boundary/sgrid_boundary.c |  7 +++
 3 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/src/utility/boundary/boundary.h b/src/utility/boundary/boundary.h
index 19a6696..f64b2bf 100644
--- a/src/utility/boundary/boundary.h
+++ b/src/utility/boundary/boundary.h
@@ -3,3 +3,5 @@
 
 int initialize_BoundaryPointLists(tGrid *grid);
 int free_BoundaryPointLists(tGrid *grid);
+int save_initial_for_radiative_analytic(tGrid *grid);
+int free_initial_for_radiative_analytic(tGrid *grid);
diff --git a/src/utility/boundary/radiative.c b/src/utility/boundary/radiative.c
index 4a47e04..9bc69af 100644
--- a/src/utility/boundary/radiative.c
+++ b/src/utility/boundary/radiative.c
@@ -56,6 +56,57 @@ void set_boundary_radiative(tGrid *grid,
 }
 
 
+/* values at t=0 that are used in set_boundary_radiative_analytic */
+static tVarList *uinitial=NULL;
+
+/* copy u into uinitial, duplicate list and turn on memory if needed */
+static void save_in_uinitial(tVarList *u)
+{
+  tGrid *grid = u->grid;
+  int bi, ijk, j;
+
+  if(uinitial==NULL || uinitial->n != u->n)
+  {
+    vlfree(uinitial);
+    uinitial = AddDuplicateEnable(u, "_initial");
+  }
+  for (j = 0; j < u->n; j++)
+  {
+    forallboxes(grid,bi)
+    {
+      tBox *box  = grid->box[bi];
+      double *up = box->v[u->index[j]];
+      double *ui = box->v[uinitial->index[j]];
+      /* loop over all points and write into uinitial */
+      forallpoints(box, ijk)  ui[ijk] = up[ijk];
+    }
+  }
+}
+
+/* Save initial values for set_boundary_radiative_analytic once initial data
+   are complete. In a run that continues from a checkpoint the first call of
+   set_boundary_radiative_analytic comes too late for that. */
+int save_initial_for_radiative_analytic(tGrid *grid)
+{
+  tVarList *u;
+
+  evolve_vlretrieve(&u, NULL, NULL);
+  if(uinitial==NULL && u!=NULL)
+  {
+    u->grid = grid;
+    save_in_uinitial(u);
+  }
+  return 0;
+}
+
+/* forget initial values when grid is freed */
+int free_initial_for_radiative_analytic(tGrid *grid)
+{
+  vlfree(uinitial);
+  uinitial = NULL;
+  return 0;
+}
+
 /* set u according to u-ua = w(r-vt)/r,
    where ua is the analytic soln at t=0  */
 void set_boundary_radiative_analytic(tVarList *unew, tVarList *upre,
@@ -65,28 +116,15 @@ void set_boundary_radiative_analytic(tVarList *unew, tVarList *upre,
   int bi, pi, ijk;
   int i,j;
   double v;
-  static tVarList *uinitial=NULL;
 
   if(ucur->time == 0.0)
   {
     printf("set_boundary_radiative_analytic: "
            "saving upre at t=%g\n", grid->time);
-    /* duplicate upre into uinitial and turn on memory */
-    vlfree(uinitial);
-    uinitial = AddDuplicateEnable(upre, "_initial");
-    for (j = 0; j < upre->n; j++)
-    {
-      forallboxes(grid,bi)
-      {
-        tBox *box  = grid->box[bi];
-        double *up = box->v[upre->index[j]];
-        double *ui = box->v[uinitial->index[j]];
-
-        /* loop over all points and write into uinitial */
-        forallpoints(box, ijk)  ui[ijk] = up[ijk];
-      }
-    }
+    save_in_uinitial(upre);
   }
+  if(uinitial==NULL)
+    errorexit("set_boundary_radiative_analytic: there are no initial values");
 
   /* for all variables */
   for (j = 0; j < unew->n; j++)
diff --git a/src/utility/boundary/sgrid_boundary.c b/src/utility/boundary/sgrid_boundary.c
index 1084db8..098a4a7 100644
--- a/src/utility/boundary/sgrid_boundary.c
+++ b/src/utility/boundary/sgrid_boundary.c
@@ -32,6 +32,13 @@ int sgrid_boundary(void)
   /* radiative boundary */
   if(Getv("boundary", "radiative") || Getv("boundary", "radiative_analytic"))
   {
+    if(Getv("boundary", "radiative_analytic"))
+    {
+      AddFun(POST_OUTPUT, save_initial_for_radiative_analytic,
+             "save initial values for radiative_analytic");
+      AddFun(PRE_FINALIZE_GRID, free_initial_for_radiative_analytic,
+             "free initial values for radiative_analytic");
+    }
     AddPar("boundary_radpower", "0", "exponent of non-wave term");
     AddPar("boundary_radconstant", "", 
 	   "keep these variables constant for radiative boundary");
-- 
2.43.0


From 26b23bafc1ae1407b87a82797cc20e515a971ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 48/91] fix: outputs due half way between two timesteps were
 missed or written twice because of roundoff

---
 src/utility/output/output.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..8f1486c 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -26,8 +26,12 @@ int timeforoutput_di_dt(tGrid *grid, int di, double dt)
   if(dt > 0)
   {
     int i = (0.5 + Time/dt); /* (Time + dequaleps)/dt; */
+    double late = 0.5*dT + 1e-6*dT;  /* latest and earliest times at which */
+    double early = 0.5*dT - 1e-6*dT; /* output i is due. They take roundoff
+                                        into account if i*dt is half way
+                                        between 2 timesteps */
     /* if(dequal(Time-i*dt, 0)) */
-    if( Time-i*dt > -0.5*dT && Time-i*dt <= 0.5*dT )
+    if( Time-i*dt > -early && Time-i*dt <= late )
       return i + 1;
   }
     
-- 
2.43.0


From 5cb4c35b68fa20bbb145249c1ba6e46d56a61532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 49/91] fix: variables were written twice or skipped if names
 in an output list were separated by several blanks

---
 src/utility/output/output.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 8f1486c..913611a 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -285,8 +285,8 @@ int write_grid(tGrid *grid)
 
       while(sscanf(ou[0]+start, "%s", str)==1)
       {
+        start += strspn(ou[0]+start, " \t\n"); /* sscanf skips these */
         start += strlen(str);
-        if(ou[0][start]==' ') start++;
   
         /* check if str has an index that exists */
         vi = IndLax(str);
@@ -324,8 +324,8 @@ int write_grid(tGrid *grid)
       //printf("1dout ... |%s|\n", ou[1]);
       while(sscanf(ou[1]+start, "%s", str)==1)
       {
+        start += strspn(ou[1]+start, " \t\n"); /* sscanf skips these */
         start += strlen(str);
-        if(ou[1][start]==' ') start++;
         //printf("1dout |%s|\n",str);
   
         /* check if str has an that index exists */
@@ -364,8 +364,8 @@ int write_grid(tGrid *grid)
       //printf("2dout ... |%s|\n", ou[2]);
       while(sscanf(ou[2]+start, "%s", str)==1)
       {
+        start += strspn(ou[2]+start, " \t\n"); /* sscanf skips these */
         start += strlen(str);
-        if(ou[2][start]==' ') start++;
         //printf("2dout |%s|\n", str);
         
         /* check if str has an index that exists */
@@ -404,8 +404,8 @@ int write_grid(tGrid *grid)
       //printf("3dout ... |%s|\n", ou[3]);
       while(sscanf(ou[3]+start, "%s", str)==1)
       {
+        start += strspn(ou[3]+start, " \t\n"); /* sscanf skips these */
         start += strlen(str);
-        if(ou[3][start]==' ') start++;
         //printf("3dout |%s|\n", str);
         
         /* check if str has an index that exists */
-- 
2.43.0


From a51d9720cc64007c5daf004596f0ff27505aa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 50/91] fix: VTK files overwrote each other if both 3doutiter
 and 3douttime were set

---
 src/utility/output/output3d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/output/output3d.c b/src/utility/output/output3d.c
index a86c545..0087d53 100644
--- a/src/utility/output/output3d.c
+++ b/src/utility/output/output3d.c
@@ -41,6 +41,8 @@ void write3d_boxvar(tBox *box, char *name)
 
   /* a number that counts, the output */
   nseries = timeforoutput_di_dt(grid, Geti("3doutiter"), Getd("3douttime"));
+  /* if there are two criteria, one number can belong to two outputs */
+  if(Geti("3doutiter")>0 && Getd("3douttime")>0) nseries = grid->iteration + 1;
 
   /* simply dump output, in sgrid's own (non-standard) format */
   if(dump) dump3d_boxvar(box, name);
-- 
2.43.0


From 2f94be53462e39e59acc17d04ba8b4e58f84dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 51/91] fix: rms, meanAbs and mean were wrong for
 0doutput_normtype = L2norm

---
 src/utility/output/output0d.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/output/output0d.c b/src/utility/output/output0d.c
index 96b6723..705fb1b 100644
--- a/src/utility/output/output0d.c
+++ b/src/utility/output/output0d.c
@@ -23,15 +23,15 @@ void output0d_value(char *filename, double time, double val)
 }
 
 
-/* L2 Norm of var array over box */
-double L2Norm_over_box_as_VolInt(tBox *box, double *u, double *U)
+/* average of var array over box, i.e. a vol. integral over a unit volume */
+double Average_over_box_as_VolInt(tBox *box, double *u, double *U)
 {
   double sum=0;
   int i, n=0;
   double ret;
 
-  forallpoints(box,i) { sum += u[i]*u[i];  n++; }
-  ret = sqrt(sum/n);
+  forallpoints(box,i) { sum += u[i];  n++; }
+  ret = sum/n;
   forallpoints(box,i) U[i] = ret; /* only needed for compatibility with spec_3dIntegral */
   return ret;
 }
@@ -102,7 +102,7 @@ void output0d_boxvar(tBox *box, char *name)
   }
   else /* just use sums instead of integrals */
   {
-    VolIntegral = L2Norm_over_box_as_VolInt;
+    VolIntegral = Average_over_box_as_VolInt;
     forallpoints(box ,i) VolJac[i] = 1.0;
   }
           
-- 
2.43.0


From 82d344eeb1b98a97c930cc0355fd192c65c12d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 52/91] fix: bicgstab, WTsolver, SOR and Newton did not free
 all their temporary storage

---
 src/utility/GridIterators/Newton.c   | 2 +-
 src/utility/GridIterators/SOR.c      | 2 +-
 src/utility/GridIterators/WTsolver.c | 2 +-
 src/utility/GridIterators/bicgstab.c | 9 ++++++---
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utility/GridIterators/Newton.c b/src/utility/GridIterators/Newton.c
index 44787e9..b15de00 100644
--- a/src/utility/GridIterators/Newton.c
+++ b/src/utility/GridIterators/Newton.c
@@ -351,7 +351,7 @@ exit(5);
       do_partial_Newton_step(vlu, lambda, vldu);
 
       /* free varlist vltemp */
-      vlfree(vltemp);
+      VLDisableFree(vltemp);
     }
   }
   /* reset du to zero */
diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index 7d67674..d5853b7 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -64,7 +64,7 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
            nlines, omega, itmax, tol);
     printf("matrix_SOR: step %d  residual=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(f);  return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 3f6d258..1ff89b1 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -106,7 +106,7 @@ int WTiterator(tSparseVector **Aline, int nlines,
   { 
     printf("WTiterator: %d  res=%g\n", 0, *normres); fflush(stdout);
   }
-  if(*normres <= tol) return 0;
+  if(*normres <= tol) { free(mm); free(f); free(dx);  return 0; }
 
   /* start iterations */
   for(it=1; it<=itmax; it++)
diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..43fde2e 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -20,7 +20,7 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   double alpha = 0, beta = 0;
   double rho = 0, rho1 = 1, rhotol = 1e-50;
   double omega = 0, omegatol = 1e-50;
-  int i, ii, j;
+  int i, ii, j, done;
   int pr = Getv("GridIterators_verbose", "yes");
 
   /* temporary storage */
@@ -57,10 +57,10 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
     }
   *normres = norm2(r);
   if (pr) printf("bicgstab: %5d  %10.3e\n", 0, *normres);
-  if (*normres <= tol) return 0;
+  done = (*normres <= tol);
 
   /* cgs iteration */
-  for (ii = 0; ii < itmax; ii++) {
+  for (ii = 0; ii < itmax && !done; ii++) {
     rho = dot(rt, r);
     if (fabs(rho) < rhotol) break;
 
@@ -154,6 +154,9 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* initial guess was good enough */
+  if (done) return 0;
+
   /* iteration failed */
   if (ii > itmax) return -1;
 
-- 
2.43.0


From 0a41d609487e9f6707e60e137c36b8271963531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 53/91] fix: bicgstab reported success if it ran out of
 iterations, and breakdown if it converged in a first half step

---
 src/utility/GridIterators/bicgstab.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index 43fde2e..236ffc0 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -157,8 +157,11 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   /* initial guess was good enough */
   if (done) return 0;
 
+  /* success, also if the tolerance was reached half way through a step */
+  if (*normres <= tol) return ii+1;
+
   /* iteration failed */
-  if (ii > itmax) return -1;
+  if (ii >= itmax) return -1;
 
   /* breakdown */
   if (fabs(rho) < rhotol) return -10;
-- 
2.43.0


From 3fb40ba6f57fa29af6cc9ea85c231a92f04c7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 54/91] fix: SOR and WTsolver reported success if they ran out
 of iterations

---
 src/utility/GridIterators/SOR.c      | 4 ++++
 src/utility/GridIterators/WTsolver.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/utility/GridIterators/SOR.c b/src/utility/GridIterators/SOR.c
index d5853b7..2aebc83 100644
--- a/src/utility/GridIterators/SOR.c
+++ b/src/utility/GridIterators/SOR.c
@@ -85,6 +85,10 @@ int matrix_SOR(tSparseVector **Aline, int nlines,
   } /* end iterations loop */
 
   free(f);
+
+  /* iteration failed */
+  if(it>itmax) return -1;
+
   return it;
 }
 
diff --git a/src/utility/GridIterators/WTsolver.c b/src/utility/GridIterators/WTsolver.c
index 1ff89b1..70116dd 100644
--- a/src/utility/GridIterators/WTsolver.c
+++ b/src/utility/GridIterators/WTsolver.c
@@ -159,6 +159,10 @@ int WTiterator(tSparseVector **Aline, int nlines,
   free(mm); 
   free(f);
   free(dx);
+
+  /* iteration failed */
+  if(it>itmax) return -1;
+
   return it;
 }
 
-- 
2.43.0


From a8f8755e6ead1ae8a1febf17b79240a8e66d3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 55/91] fix: Newton_linesrch did not set normres

---
 src/utility/GridIterators/Newton_linesrch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/GridIterators/Newton_linesrch.c b/src/utility/GridIterators/Newton_linesrch.c
index fefa19d..f39c528 100644
--- a/src/utility/GridIterators/Newton_linesrch.c
+++ b/src/utility/GridIterators/Newton_linesrch.c
@@ -190,6 +190,7 @@ int Newton_linesrch(
   /* get residual */
   Fu(vlFu, vlu, vlc1, vlc2);
   res = norm2(vlFu);
+  *normres = res;
   if(pr) printf("Newton_linesrch: after %d steps"
                 "  Newton residual = %e\n", inewton, res);
 
-- 
2.43.0


From 221801090058bfc33815dc9617052221e85ff3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 56/91] fix: WT_newton takes the linear tolerance from the
 largest |F|, not the largest F

---
 src/utility/NumericUtils/WT_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/NumericUtils/WT_newton.c b/src/utility/NumericUtils/WT_newton.c
index 85a614e..1ed8cc8 100644
--- a/src/utility/NumericUtils/WT_newton.c
+++ b/src/utility/NumericUtils/WT_newton.c
@@ -166,7 +166,7 @@ int WT_newton(double *x, int n, int *check,
     /* get tol for linear solver using newton_linesrch_fvec */
     test=0.0;
     for(i=1;i<=n;i++) 
-      if(newton_linesrch_fvec[i]>test) test=fabs(newton_linesrch_fvec[i]);
+      if(fabs(newton_linesrch_fvec[i])>test) test=fabs(newton_linesrch_fvec[i]);
     lintol = test*lintolfac;
 
     /* find p from linear solver */
-- 
2.43.0


From 51ce5ac5bc1cd18f9317b4e1e428e1ec78e687e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 57/91] fix: WT_newton starts the first linear solve from zero,
 not from uninitialised memory

---
 src/utility/NumericUtils/WT_newton.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/NumericUtils/WT_newton.c b/src/utility/NumericUtils/WT_newton.c
index 1ed8cc8..e12bf0d 100644
--- a/src/utility/NumericUtils/WT_newton.c
+++ b/src/utility/NumericUtils/WT_newton.c
@@ -138,6 +138,7 @@ int WT_newton(double *x, int n, int *check,
   double *newton_linesrch_fvec;
 
   p=vector(1,n);
+  for(i=1;i<=n;i++) p[i]=0.0; /* initial guess for first linear solve */
   xold=vector(1,n);
   newton_linesrch_fvec=vector(1,n);
   f=f_to_minimize_in_WT_linesrch(x, n, newton_linesrch_fvec, F_x, par);
-- 
2.43.0


From 1efd5b0ddae1a59374f68aee0549d99d2c466ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 58/91] fix: newton_lnsrch_set_vecs_for_lininterp does not use
 an uninitialised scale for components inside their range

---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index d3c25d8..6f7b8d8 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -402,7 +402,7 @@ void newton_lnsrch_set_vecs_for_lininterp(int n, double vec[],
     exit(1);
   }
 
-  s=1;
+  s=sc=1;
   for(i=0; i<n; i++) 
   {
     /* pos. vec. of center */
-- 
2.43.0


From 46b51fca6a54df9f10b012dbb68b946400b2d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 59/91] fix: newton_linesearch uses row 0 too, and each row's
 own right hand side, if the Jacobian is singular

---
 src/utility/numerics/newton_linesearch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index 6f7b8d8..bed094c 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -126,6 +126,7 @@ int newton_linesearch(int n, double x[], int *check,
       if(!idx) { printf("allocation failure!!!"); abort(); exit(1); }
       for(l=0; l<n; l++)
       {
+        idx[l] = -1; /* no row found yet */
         for(ma=0.0, k=0; k<n; k++)
         {
           int li, fl;
@@ -143,7 +144,7 @@ int newton_linesearch(int n, double x[], int *check,
         }
         // now we have max ma in fjac[k][l], where k = idx[l]
         k = idx[l];
-        if(k>0) p[l] = p[l]/fjac[k][l];
+        if(k>=0) p[l] = -newton_linesrch_fvec[k]/fjac[k][l];
         else    p[l] = 0.0;
       } // end l-loop
       free(idx);
-- 
2.43.0


From 2e65a947fbeea8a7ce47a1a3272184ad24cf6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 60/91] fix: zbrac_P returns whether it has found a bracket

---
 src/utility/numerics/NumericUtils_shims.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/NumericUtils_shims.c b/src/utility/numerics/NumericUtils_shims.c
index 80129d6..960bfff 100644
--- a/src/utility/numerics/NumericUtils_shims.c
+++ b/src/utility/numerics/NumericUtils_shims.c
@@ -62,7 +62,7 @@ int WT_newton(double *x, int n, int *check,
 int zbrac_P(double (*func)(double,void *par), double *x1, double *x2,
             void *par)
 {
-  rt_brak(func,par, x1,x2, 50);
+  return rt_brak(func,par, x1,x2, 50);
 }
 
 /* old way of finding root in bracket [x1,x2] */
-- 
2.43.0


From be066e500a5d11add57d4344a0771cf9c15bab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 61/91] fix: min_brak stops at NAN instead of continuing for
 all maxits evaluations

---
 src/utility/numerics/minbrent_brak.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index c452d8e..19eea95 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -139,7 +139,7 @@ int min_brak(double (*func)(double x, void *p), void *par,
 
   for(iter=1; iter<=maxits; iter++)
   {
-    if(*fb <= *fc) break;
+    if(!(*fb > *fc)) break; /* true also if one is NAN */
 
     r = (*bx-*ax)*(*fb-*fc);
     q = (*bx-*cx)*(*fb-*fa);
-- 
2.43.0


From 89ffff1b44bba1bdc7fd73c2884f1d378ccc5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 62/91] fix: rtbrent_brak does not accept a bracket with NAN at
 an end

---
 src/utility/numerics/rtbrent_brak.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/rtbrent_brak.c b/src/utility/numerics/rtbrent_brak.c
index 74d88c4..bf1df73 100644
--- a/src/utility/numerics/rtbrent_brak.c
+++ b/src/utility/numerics/rtbrent_brak.c
@@ -37,7 +37,7 @@ int rtbrent_brak(double *x0, double (*func)(double,void *par),
   }
 
   /* check if *x0 is within [x1,x2] */
-  if((fa < 0. && fb < 0.) || (fa > 0. && fb > 0.))
+  if( !((fa <= 0. && fb >= 0.) || (fa >= 0. && fb <= 0.)) ) /* also if NAN */
   {
     if(pr)
     {
-- 
2.43.0


From ca5655614595b2c256f3b393436ada8829d1272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 63/91] fix: lu_decomp does not use an uninitialised pivot row
 if it meets NANs

---
 src/utility/numerics/lu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/lu.c b/src/utility/numerics/lu.c
index 418c6bd..86113fa 100644
--- a/src/utility/numerics/lu.c
+++ b/src/utility/numerics/lu.c
@@ -65,7 +65,7 @@ int lu_decomp(int n, double A[][n], int *p_idx, int *parity)
   /* Crout's method */
   for(j=0; j<n; j++)
   {
-    int imax;
+    int imax = j;
     double sum, tmp2;
 
     for(i=0; i<j; i++)
-- 
2.43.0


From 56d72b608e4d962c308948f6eb4ce3bf207d0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 64/91] fix: odeintegrate and odeintegrateP can integrate
 backward, instead of making GSL abort

---
 src/utility/numerics/GSL_odeint.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/GSL_odeint.c b/src/utility/numerics/GSL_odeint.c
index 8348510..3c007b4 100644
--- a/src/utility/numerics/GSL_odeint.c
+++ b/src/utility/numerics/GSL_odeint.c
@@ -104,6 +104,8 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
   int stat, j, k;
   struct Shim_derivs par[1];
 
+  if(x2<x1) h1 = -fabs(h1); /* integrate backward, like in numrec */
+
   par->derivs = derivs;
 
   *status = 0;
@@ -148,7 +150,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
       *kcount = *kcount + 1;
 
       //printf("     xs=%g xe=%g\n ", xs,xe);
-      if(xs<xe) break;
+      if(xs!=xe) break; /* this step failed */
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
@@ -182,6 +184,8 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
   int stat, j, k;
   struct Shim_y_to_ym1 shim[1];
 
+  if(x2<x1) h1 = -fabs(h1); /* integrate backward, like in numrec */
+
   shim->derivsP  = derivsP;
   shim->orig_par = par;
 
@@ -231,7 +235,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
 
       //printf("     xs=%.17g xe=%.17g\n ", xs,xe);
       //printf("     y[2]=%g\n", y[2]);
-      if(xs<xe) break;
+      if(xs!=xe) break; /* this step failed */
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
-- 
2.43.0


From deb229f5412ce4e82bd149f92236be41eee8eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 65/91] fix: odeintegrate and odeintegrateP report in *status
 if they did not get to the end

---
 src/utility/numerics/GSL_odeint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/numerics/GSL_odeint.c b/src/utility/numerics/GSL_odeint.c
index 3c007b4..4c9658a 100644
--- a/src/utility/numerics/GSL_odeint.c
+++ b/src/utility/numerics/GSL_odeint.c
@@ -128,6 +128,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivs_to_derivsP,par,
                           h1, eps, eps);
   xf = xs; /* save final x */
+  if(stat!=G_SUCCESS) *status = -1;
 
   //printf("xs=%g xf=%g xe=%g\n ", xs, xf, xe);
 
@@ -210,6 +211,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivsP_y_to_ym1,shim,
                           h1, eps, eps);
   xf = xs; /* save final x */
+  if(stat!=G_SUCCESS) *status = -1;
 
   //printf("xs=%.17g xf=%.17g xe=%.17g\n ", xs, xf, xe);
   //printf("   ==> y[2]=%g\n", y[2]);
-- 
2.43.0


From 130c5cc3d15154db92a78e6884ebf3d822ab7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 66/91] fix: zbrent_itsP does not accept a bracket with NAN at
 an end

---
 src/utility/NumericUtils/zbrent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/NumericUtils/zbrent.c b/src/utility/NumericUtils/zbrent.c
index 5b99177..99cbbe7 100644
--- a/src/utility/NumericUtils/zbrent.c
+++ b/src/utility/NumericUtils/zbrent.c
@@ -15,7 +15,7 @@ int zbrent_itsP(double *x0, double (*func)(double,void *par),
 	double a=x1,b=x2,c=x2,d,e,min1,min2;
 	double fa=(*func)(a,par),fb=(*func)(b,par),fc,p,q,r,s,tol1,xm;
 
-	if ((fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0))
+	if (!((fa >= 0.0 && fb <= 0.0) || (fa <= 0.0 && fb >= 0.0))) /* also if NAN */
 	{
 	  printf("Root must be bracketed in zbrent_itsP\n");
 	  return -1;
-- 
2.43.0


From 7f67a45c21168f1d4dad3ed80941056fc06916a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 67/91] fix: newton_linesrch_itsP uses each row's own right
 hand side if the Jacobian is singular

---
 src/utility/NumericUtils/newton_lnsrch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/NumericUtils/newton_lnsrch.c b/src/utility/NumericUtils/newton_lnsrch.c
index 0befd90..ef1d194 100644
--- a/src/utility/NumericUtils/newton_lnsrch.c
+++ b/src/utility/NumericUtils/newton_lnsrch.c
@@ -384,7 +384,7 @@ int newton_linesrch_itsP(double x[], int n, int *check,
                     }
                     // now we have max ma in fjac[k][l], where k = idx[l]
                     k = idx[l];
-                    if(k>0) p[l] = p[l]/fjac[k][l];
+                    if(k>0) p[l] = -newton_linesrch_fvec[k]/fjac[k][l];
                     else    p[l] = 0.0;
                   } // end l-loop
                   free_ivector(idx,1,n);
-- 
2.43.0


From 2987f46a57b16acfd3a298d1545fb082985fbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 68/91] fix: NumberChecker reports where bad points start in
 each box, as CheckIfFinite does

---
 src/utility/NumberChecker/NumberChecker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utility/NumberChecker/NumberChecker.c b/src/utility/NumberChecker/NumberChecker.c
index 92a6358..79c4d7f 100644
--- a/src/utility/NumberChecker/NumberChecker.c
+++ b/src/utility/NumberChecker/NumberChecker.c
@@ -96,6 +96,13 @@ num = 0.0;
         messageflag=0;
       }
     }
+    if(messageflag>1)
+      printf("NAN/INF: %s=%g til    %d: x=%g y=%g z=%g "
+             "box%d grid=%p X=%g Y=%g Z=%g\n",
+             VarName(ivar), var[ijk_old], ijk_old,
+             x[ijk_old], y[ijk_old], z[ijk_old],
+             b_old, grid_old, X[ijk_old], Y[ijk_old], Z[ijk_old]);
+    messageflag=0;
   }
   if(num>0)
   {
-- 
2.43.0


From 4bba487c93309ccc39ade42aab0c552d4b7d4369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 69/91] fix: CheckIfFinite reports where bad points start in
 each box, also if one box ends with a single bad point

---
 src/physics/ADMvars/CheckIfFinite.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/physics/ADMvars/CheckIfFinite.c b/src/physics/ADMvars/CheckIfFinite.c
index 67e0a70..160b830 100644
--- a/src/physics/ADMvars/CheckIfFinite.c
+++ b/src/physics/ADMvars/CheckIfFinite.c
@@ -97,14 +97,12 @@ num = 0.0;
       }
     }
     if(messageflag>1)
-    {
       printf("NAN/INF: %s=%g til    %d: x=%g y=%g z=%g "
              "box%d grid=%p X=%g Y=%g Z=%g\n",
              VarName(ivar), var[ijk_old], ijk_old,
              x[ijk_old], y[ijk_old], z[ijk_old],
              b_old, grid_old, X[ijk_old], Y[ijk_old], Z[ijk_old]);
-      messageflag=0;
-    }
+    messageflag=0;
   }
   if(num>0)
   {
-- 
2.43.0


From 3b18775410a0b06b91e118146fcaa7c14703bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 70/91] fix: Z4secondO adds the parameters it needs, so that it
 can start

---
 src/physics/Z4secondO/sgrid_Z4secondO.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/Z4secondO/sgrid_Z4secondO.c b/src/physics/Z4secondO/sgrid_Z4secondO.c
index 51ba9e6..21e2dcb 100644
--- a/src/physics/Z4secondO/sgrid_Z4secondO.c
+++ b/src/physics/Z4secondO/sgrid_Z4secondO.c
@@ -50,7 +50,8 @@ int sgrid_Z4secondO(void)
          
   AddPar("Z4secondO_shift",  "constant",
          "shift equation [constant,gamma0,gamma2]");
-  AddPar("Z4secondOy_lapse", "constant", 
+  AddPar("Z4secondO_shift_stop_time", "-1", "when we stop evolving shift");
+  AddPar("Z4secondO_lapse", "constant", 
 	 "lapse equation [constant,1+log,harmonic;withshift]");
   return 0;
 }
-- 
2.43.0


From d4c5797949bacb4cb351e7b9496840a9dd9e3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 71/91] fix: cheb_int does not write in front of its array if
 there is only one coefficient

---
 src/utility/Spectral/explicit_Cheb_trafos.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/Spectral/explicit_Cheb_trafos.c b/src/utility/Spectral/explicit_Cheb_trafos.c
index 1715cd0..7ebcc74 100644
--- a/src/utility/Spectral/explicit_Cheb_trafos.c
+++ b/src/utility/Spectral/explicit_Cheb_trafos.c
@@ -101,6 +101,7 @@ void cheb_int(double a, double b, double c[], double cint[], int n)
   int j;
   double sum=0.0,fac=1.0,con;
 
+  if(n<1) { cint[0]=0.0; return; } /* only one coeff. */
   con=0.25*(a-b);
   for (j=1;j<=n-1;j++)
   {
-- 
2.43.0


From 62bf49804c966a537202a1c19238f4de171ea6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 72/91] fix: set_bfaces_on_boxface stays inside the box if
 there is only one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 4c6b063..d37d5c1 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -550,6 +550,10 @@ int set_bfaces_on_boxface(tBox *box, int f)
       j_in -= face[3];
       k_in += face[4];
       k_in -= face[5];
+      /* but not out of the box if there is only one point */
+      if(i_in<0 || i_in>=n1) i_in = i;
+      if(j_in<0 || j_in>=n2) j_in = j;
+      if(k_in<0 || k_in>=n3) k_in = k;
     }
     ijk_in = Index(i_in,j_in,k_in);
 
-- 
2.43.0


From 82993a79da28f71b4def7d732783015cd9be4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 73/91] fix: FFTW3 plans are made also for numbers of points
 that a module sets after the plans were initialized

---
 src/utility/Spectral/FFTs_for_sgrid.c | 10 +++++++++-
 src/utility/Spectral/Spectral.h       |  1 +
 src/utility/Spectral/spec_coeffs.c    |  3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utility/Spectral/FFTs_for_sgrid.c b/src/utility/Spectral/FFTs_for_sgrid.c
index 34d1c9f..43ded07 100644
--- a/src/utility/Spectral/FFTs_for_sgrid.c
+++ b/src/utility/Spectral/FFTs_for_sgrid.c
@@ -438,6 +438,7 @@ int reinit_FFTW3_plans(tGrid* grid)
     if(m3>Nmax) Nmax=m3;
     // printf("m3=%d Nmax=%d", m3, Nmax);
   }
+  if(Nmax <= FFTW3_Nmax_of_plan_array) return 0; /* nothing to add */
 
   /* allocate arrays of plans for all cases */
   if(FFTW3_Nmax_of_plan_array==0)
@@ -470,7 +471,7 @@ int reinit_FFTW3_plans(tGrid* grid)
   fflush(stdout);
 
   /* make plans */
-  for(N=1; N<=Nmax; N++)
+  for(N=FFTW3_Nmax_of_plan_array+1; N<=Nmax; N++)
   {
     int Nc = ( N / 2 ) + 1;
     fftw_complex *cco = fftw_malloc(sizeof(fftw_complex) * Nc);
@@ -495,6 +496,12 @@ int reinit_FFTW3_plans(tGrid* grid)
   FFTW3_Nmax_of_plan_array = Nmax;
   return 0;
 } 
+/* make sure we have plans for a box with n points in some direction */
+int ensure_FFTW3_plans_for_n(int n)
+{
+  if(4*n+1 > FFTW3_Nmax_of_plan_array) return reinit_FFTW3_plans(NULL);
+  return 0;
+}
 /* free the plans */
 int free_FFTW3_plans(tGrid* grid)
 {
@@ -636,6 +643,7 @@ void four_FFTW3_error(void)
 void add_special_FFTW3_pars(void) {return;}
 int init_FFTW3_plans(tGrid* grid) {return 0;}
 int reinit_FFTW3_plans(tGrid* grid) {return 0;}
+int ensure_FFTW3_plans_for_n(int n) {return 0;}
 int free_FFTW3_plans(tGrid* grid) {return 0;}
 void four_coeffs_FFTW3(double *c, double *u, int n) {four_FFTW3_error();}
 void four_eval_FFTW3(double *c, double *u, int n) {four_FFTW3_error();}
diff --git a/src/utility/Spectral/Spectral.h b/src/utility/Spectral/Spectral.h
index ebf796c..edcb16b 100644
--- a/src/utility/Spectral/Spectral.h
+++ b/src/utility/Spectral/Spectral.h
@@ -127,6 +127,7 @@ void four_eval_FFTW3(double *c, double *u, int n);
 void add_special_FFTW3_pars(void);
 int init_FFTW3_plans(tGrid* grid);
 int reinit_FFTW3_plans(tGrid* grid);
+int ensure_FFTW3_plans_for_n(int n);
 int free_FFTW3_plans(tGrid* grid);
 void cheb_coeffs_fromZeros_FFTW3(double *c, double *u, int n);
 void cheb_coeffs_fromExtrema_FFTW3(double *c, double *u, int N);
diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 941dd77..a2f1fae 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -625,7 +625,10 @@ void set_TransformType_flags_inbox(tBox *box)
              ( Getv(bas, "ChebExtrema") ||
                Getv(bas, "ChebZeros") ||
                Getv(bas, "Fourier")        )  )
+    {
       *Ttype=FFTW3_FFT;
+      ensure_FFTW3_plans_for_n(nb); /* n may have changed since PRE_GRID */
+    }
     else
       *Ttype=MATRIX_MULTIPLICATION;
   }
-- 
2.43.0


From 21964f505b57b6d9a8e9caafa6967a38aeffe8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 74/91] fix: convert_1box_to_cube does not read a box that does
 not exist

---
 src/utility/Coordinates/setup_CubedSpheres.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/setup_CubedSpheres.c b/src/utility/Coordinates/setup_CubedSpheres.c
index 28b4a8e..870ba9e 100644
--- a/src/utility/Coordinates/setup_CubedSpheres.c
+++ b/src/utility/Coordinates/setup_CubedSpheres.c
@@ -396,7 +396,7 @@ int convert_1box_to_cube(tGrid *grid, int b0, double *xc, double dout)
 {
   char par[1000];
   char val[1000];
-  tBox *box = grid->box[b0];
+  tBox *box;
   int d;
 
   if(b0+1 > grid->nboxes)
@@ -404,6 +404,7 @@ int convert_1box_to_cube(tGrid *grid, int b0, double *xc, double dout)
     printf("convert_1box_to_cube: nboxes is too small\n");
     return b0;
   }
+  box = grid->box[b0];
 
   /* set coord type */
   snprintf(par, 999, "box%d_Coordinates", b0);
-- 
2.43.0


From ad0646ed71351441761fd5621e68a4dbfba46f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 75/91] fix: cheb_filter and four_filter do not write in front
 of the coefficients if asked to remove more than there are

---
 src/utility/Spectral/explicit_Cheb_trafos.c | 1 +
 src/utility/Spectral/explicit_Four_trafos.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/utility/Spectral/explicit_Cheb_trafos.c b/src/utility/Spectral/explicit_Cheb_trafos.c
index 7ebcc74..ca4577b 100644
--- a/src/utility/Spectral/explicit_Cheb_trafos.c
+++ b/src/utility/Spectral/explicit_Cheb_trafos.c
@@ -202,6 +202,7 @@ void cheb_filter(double c[], int k, int n)
 {
   int j;
   
+  if(k<0) k=0;
   for(j=k;j<=n;j++) c[j]=0;
 }
 
diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 0e59e85..74ee47c 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -212,6 +212,8 @@ void four_filter(double c[], int k, int n)
 {
   int j;
 
+  if(k<0) k=0;
+
   for(j=k;j<=n;j++) c[j]=0;
 }
 
-- 
2.43.0


From 850e98dca88a15c7103b5223fb7e9d7b51dd8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 76/91] fix: fd2 derivatives stay inside their arrays if there
 are fewer points than their stencils need

---
 src/utility/Spectral/finite_differences.c | 28 +++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/utility/Spectral/finite_differences.c b/src/utility/Spectral/finite_differences.c
index f4e6df1..2ed6fc8 100644
--- a/src/utility/Spectral/finite_differences.c
+++ b/src/utility/Spectral/finite_differences.c
@@ -18,6 +18,13 @@ void fd2_deriv_periodic(void *aux,
   int j;
   double con = 0.5*(n+1)/(b-a);
 
+  /* too few points for this stencil */
+  if(n<1)
+  {
+    for(j=0;j<=n;j++) cder[j] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - c[j-1]) * con;
 
@@ -34,6 +41,13 @@ void fd2_deriv_onesidedBC(void *aux,
   int j;
   double con = 0.5*n/(b-a);
 
+  /* too few points for this stencil */
+  if(n<2)
+  {
+    for(j=0;j<=n;j++) cder[j] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - c[j-1]) * con;
 
@@ -51,6 +65,13 @@ void fd2_2ndderiv_periodic(void *aux, double a, double b,
   double ooh = (n+1)/(b-a);
   double con = ooh*ooh;
 
+  /* too few points for this stencil */
+  if(n<1)
+  {
+    for(j=0;j<=n;j++) cder[j] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - 2.0*c[j] + c[j-1]) * con;
 
@@ -68,6 +89,13 @@ void fd2_2ndderiv_onesidedBC(void *aux, double a, double b,
   double ooh = n/(b-a);
   double con = ooh*ooh;
 
+  /* too few points for this stencil */
+  if(n<3)
+  {
+    for(j=0;j<=n;j++) cder[j] = 0.0;
+    return;
+  }
+
   for (j=1;j<n;j++)
     cder[j] =  (c[j+1] - 2.0*c[j] + c[j-1]) * con;
 
-- 
2.43.0


From 3c0e13765ecf7274887a3084b7e636d915d33ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 77/91] fix: Poisson says so if Poisson_grid needs more boxes
 than there are

---
 src/physics/Poisson/Poisson.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/physics/Poisson/Poisson.c b/src/physics/Poisson/Poisson.c
index 4eded02..8bd3e91 100644
--- a/src/physics/Poisson/Poisson.c
+++ b/src/physics/Poisson/Poisson.c
@@ -26,6 +26,11 @@ int Poisson_startup(tGrid *grid)
 */
   printf("Initializing Poisson:\n");
 
+  /* these grids have the 2 stars in boxes 0,5 and 3,4 */
+  if( (Getv("Poisson_grid", "AnsorgNS") ||
+       Getv("Poisson_grid", "4ABphi_2xyz")) && grid->nboxes<6 )
+    errorexit("Poisson: Poisson_grid = AnsorgNS or 4ABphi_2xyz needs 6 boxes");
+
   /* set boundary information: farlimit, falloff, propagation speed */
   VarNameSetBoundaryInfo("Poisson_Psi", 0, 1, 1.0);
   VarNameSetBoundaryInfo("Poisson_Chi", 0, 1, 1.0);
-- 
2.43.0


From 495a5cada10422c6d87000b127f7fa7a6d5b3d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 78/91] fix: find_external_faces_of_box ends if there is only
 one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index d37d5c1..5233dc7 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -156,7 +156,7 @@ void find_external_faces_of_box(tBox *box, int *extface, int inclOuterBound)
     nd  = (n1)*(dir==1) + (n2)*(dir==2) + (n3)*(dir==3);
 
     /* go over faces, but not edges */
-    for(p=0; p<nd; p+=nd-1)
+    for(p=0; p<nd; p+=(nd>1 ? nd-1 : 1))
     {
       /* pick face index */
       if(p==0) f=2*d;
-- 
2.43.0


From 65ec50cf0ad6a2284b3e720a1f0417ee2d7ef654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 79/91] fix: nearestinnerXYZ_of_xyz sets X,Y,Z and ind also in
 boxes without inner points

---
 src/utility/Coordinates/findXYZ_of_xyz.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index ea48bf4..a480aff 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -488,6 +488,9 @@ double nearestinnerXYZ_of_xyz(tBox *box, int *ind, double *X, double *Y, double
       *Z = pZ[ijk];
     }
   }
+  /* if there are no inner points, take the nearest of all points */
+  if(rmin<0.0) return nearestXYZ_of_xyz(box, ind, X,Y,Z, x,y,z);
+
   if(rmin>0.) rmin = sqrt(rmin);
   return rmin;
 }
-- 
2.43.0


From cc3c9ed8ef19a7bd0a6b80020169c2ee16ead841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 80/91] fix: ScalarOnKerr_evolve sets all the derivatives of
 psi it uses

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index 3108d9d..cb36c49 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -725,7 +725,7 @@ void ScalarOnKerr_evolve(tVarList *unew, tVarList *upre, double dt,
       {
         psix = cphix[i];
         psiy = cphiy[i];
-        psiz = cphix[i];
+        psiz = cphiz[i];
         psixx = dphixx[i];
         psixy = dphixy[i];
         psixz = dphixz[i];
@@ -745,10 +745,10 @@ void ScalarOnKerr_evolve(tVarList *unew, tVarList *upre, double dt,
         psiy = dpsiy[i];
         psiz = dpsiz[i];
         psixx = ddpsixx[i];
-        psixy_s = ddpsixy[i];
-        psixz_s = ddpsixz[i];
+        psixy = psiyx = psixy_s = ddpsixy[i];
+        psixz = psizx = psixz_s = ddpsixz[i];
         psiyy = ddpsiyy[i];
-        psiyz_s = ddpsiyz[i];
+        psiyz = psizy = psiyz_s = ddpsiyz[i];
         psizz = ddpsizz[i];
       }
       /* use Scheel's def of Pi instead of Pi = psidot */
-- 
2.43.0


From 6a755b90415b83abadc3acbc7456bf1d821190f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 81/91] fix: sgrid3d_to_1d and sgrid3d_to_2d have room for
 every time in a file, also if later ones have more points

---
 utilities/sgrid3d_to_1d.c | 3 ++-
 utilities/sgrid3d_to_2d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/utilities/sgrid3d_to_1d.c b/utilities/sgrid3d_to_1d.c
index b4dbe4e..76032b5 100644
--- a/utilities/sgrid3d_to_1d.c
+++ b/utilities/sgrid3d_to_1d.c
@@ -19,6 +19,7 @@ will dump the file foo along the line j=5,k=0 */
 #define STRLEN 65535
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <math.h>
 #include <endian.h>
@@ -77,7 +78,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = (float *) realloc(data, sizeof(*data) * npoints);
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      lm=n1;
diff --git a/utilities/sgrid3d_to_2d.c b/utilities/sgrid3d_to_2d.c
index 6983992..0110d97 100644
--- a/utilities/sgrid3d_to_2d.c
+++ b/utilities/sgrid3d_to_2d.c
@@ -19,6 +19,7 @@ will dump the file foo in the plane j=5 */
 #define STRLEN 65535
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <math.h>
 #include <endian.h>
@@ -77,7 +78,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = (float *) realloc(data, sizeof(*data) * npoints);
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      { l1m=n1;  l2m=n2; }
-- 
2.43.0


From 669e3381ba4823c9d58634f18ed06151084fb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 82/91] fix: prune_checkpoint ignores empty lines in the list
 of variables

---
 utilities/prune_checkpoint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/prune_checkpoint.c b/utilities/prune_checkpoint.c
index c60ab9a..86fb5f2 100644
--- a/utilities/prune_checkpoint.c
+++ b/utilities/prune_checkpoint.c
@@ -96,7 +96,8 @@ int main(int argc, char *argv[])
   nvars_to_keep = 0;
   while(fscanline(vin,str)!=EOF)
   {
-    sscanf(str, "%s", str1);
+    if(sscanf(str, "%s", str1)!=1) continue; /* empty line */
+    if(nvars_to_keep>=NVARSMAX) break;
     var_to_keep[nvars_to_keep] = strdup(str1);
     nvars_to_keep++;
   }
-- 
2.43.0


From 2bffba195608f1327178bd80237c236ac1c7f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 83/91] fix: checkpoint tools say so if a file name is missing

---
 utilities/extractvar_from_checkpoint.c | 7 +++++++
 utilities/modify_checkpoint.c          | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/utilities/extractvar_from_checkpoint.c b/utilities/extractvar_from_checkpoint.c
index da4bb31..b88542e 100644
--- a/utilities/extractvar_from_checkpoint.c
+++ b/utilities/extractvar_from_checkpoint.c
@@ -146,6 +146,13 @@ int main(int argc, char *argv[])
     printf("# reading variable %s from box%d\n", varname, boxi);
   else return -1;
 
+  /* we need both file names */
+  if(i+1>=argc)
+  {
+    printf("names of input and output file are needed\n");
+    return -1;
+  }
+
   /* open file in */
   printf("# input file: %s",argv[i]);
   in=fopen(argv[i],"r");
diff --git a/utilities/modify_checkpoint.c b/utilities/modify_checkpoint.c
index 95dfa9f..2b431a5 100644
--- a/utilities/modify_checkpoint.c
+++ b/utilities/modify_checkpoint.c
@@ -159,6 +159,13 @@ int main(int argc, char *argv[])
   if(varname!=NULL)
     printf("# modifying variable %s\n", varname);
 
+  /* we need both file names */
+  if(i+1>=argc)
+  {
+    printf("names of input and output file are needed\n");
+    return -1;
+  }
+
   /* open file in */
   printf("# input file: %s",argv[i]);
   in=fopen(argv[i],"r");
-- 
2.43.0


From ddf960c8185989d614ef544e00dd6273b6d21fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 84/91] fix: products with the transpose of a sparse matrix do
 not lose contributions if LEVEL4_Pragmas are on

---
 src/utility/LinAlg/SparseVector_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/LinAlg/SparseVector_utils.c b/src/utility/LinAlg/SparseVector_utils.c
index f6897c2..b4dcd66 100644
--- a/src/utility/LinAlg/SparseVector_utils.c
+++ b/src/utility/LinAlg/SparseVector_utils.c
@@ -226,6 +226,7 @@ void vector_times_SparseMatrixLines(double *x, tSparseVector **Aline,
     {
        j   = Aline_k_pos[ent];
        Akj = Aline_k_val[ent];
+       SGRID_LEVEL4_Pragma(omp atomic)
        f[j] += x[k] * Akj;
     }
   }
@@ -255,6 +256,7 @@ void SparseMatrixLinesTranspose_times_vector(tSparseVector **Aline, int nlines,
     {
        j   = Aline_i_pos[ent];
        Aij = Aline_i_val[ent];
+       SGRID_LEVEL4_Pragma(omp atomic)
        f[j] += Aij * x[i];
     }
   }
-- 
2.43.0


From 501e77c63abf811fa987b26a452da6d6d91469f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 85/91] fix: vlswap swaps with a temporary of its own for each
 thread if LEVEL3_Pragmas are on

---
 src/main/main/variables.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index a6a8f73..2be8cbc 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -662,9 +662,9 @@ void vlswap(tVarList *v, tVarList *u)
       SGRID_LEVEL3_Pragma(omp parallel for)
       for (i = 0; i < nnodes; i++)
       {
-        temp  = pv[i];
+        double tmp = pv[i];
         pv[i] = pu[i];
-        pu[i] = temp;
+        pu[i] = tmp;
       }
     }
   }
-- 
2.43.0


From c3103d61f08844d7af8b9143af21c457b70104f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 86/91] fix: threads that allocate grids or storage at the same
 time do not race on storage.c's global variables

---
 src/main/MemoryMan/storage.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/storage.c b/src/main/MemoryMan/storage.c
index 3cfe898..c364f12 100644
--- a/src/main/MemoryMan/storage.c
+++ b/src/main/MemoryMan/storage.c
@@ -38,7 +38,9 @@ tGrid *alloc_grid(int nboxes, int nvariables)
     /* printf("b=%d grid->box[b]=%p\n", b, grid->box[b]); */
   }
   
-  storage_verbose = Getv("storage_verbose", "yes");
+  /* set only if it changes, several threads may allocate grids */
+  b = Getv("storage_verbose", "yes");
+  if(storage_verbose != b) storage_verbose = b;
   return grid;
 }
 
@@ -374,6 +376,7 @@ void enablevarcomp_inbox(tBox *box, int i)
 	     i, VarName(i));
       errorexit("");
     }
+    SGRID_LEVEL6orTOP_Pragma(omp atomic)
     nenabled++;
     if (storage_verbose) {
       printf("enabling variable %d = %s in b=%d, nenabled=%d => ",
@@ -392,6 +395,7 @@ void disablevarcomp_inbox(tBox *box, int i)
   if (box->v[i]) {
     free(box->v[i]);
     box->v[i] = 0;
+    SGRID_LEVEL6orTOP_Pragma(omp atomic)
     nenabled--;
     if (storage_verbose) {
       printf("disabling variable %d = %s in b=%d, nenabled=%d => ",
-- 
2.43.0


From 940e68f5c05d62739c05861b49a39731a626837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 87/91] fix: Kerr-Schild data with a conformal factor and spin
 has psi and derivatives of psi that belong together

---
 src/physics/SingleBH/SingleBHKS.c | 20 ++++++++++----------
 src/physics/SingleBH/SingleBHKS.m |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/physics/SingleBH/SingleBHKS.c b/src/physics/SingleBH/SingleBHKS.c
index 24b1664..19f82d3 100644
--- a/src/physics/SingleBH/SingleBHKS.c
+++ b/src/physics/SingleBH/SingleBHKS.c
@@ -447,52 +447,52 @@ if (ConformalFactor) {
 
 psi[ijk]
 =
-1. + (2.*M)/r
+1. + (2.*M)/rho
 ;
 
 dpsiopsi1[ijk]
 =
-(-2.*M*x1[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x1[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi2[ijk]
 =
-(-2.*M*x2[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x2[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi3[ijk]
 =
-(-2.*M*x3[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x3[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 ddpsiopsi11[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x1[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x1[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi12[ijk]
 =
-(6.*M*x1[ijk]*x2[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x2[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi13[ijk]
 =
-(6.*M*x1[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi22[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x2[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x2[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi23[ijk]
 =
-(6.*M*x2[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x2[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi33[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x3[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x3[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 
diff --git a/src/physics/SingleBH/SingleBHKS.m b/src/physics/SingleBH/SingleBHKS.m
index b4d82a0..1cdc4ec 100644
--- a/src/physics/SingleBH/SingleBHKS.m
+++ b/src/physics/SingleBH/SingleBHKS.m
@@ -46,10 +46,10 @@ tocompute = {
  (* Conformal Factor *)
  Cif == ConformalFactor,
 
-   (* set cconformal factor psi=1+2M/r   <-adhoc choice *)
-   psi == 1+2M/r,
-   dpsiopsi[a] == ( -(2M/r^2) x[a]/r )/psi ,  (* = ( -(2M/r^3) x[a] )/psi *)
-   ddpsiopsi[a,b] == ( (6M/r^3) (x[a]/r) (x[b]/r) -(2M/r^3)delta[a,b] )/psi,
+   (* set cconformal factor psi=1+2M/rho   <-adhoc choice *)
+   psi == 1+2M/rho,
+   dpsiopsi[a] == ( -(2M/rho^2) x[a]/rho )/psi ,  (* = ( -(2M/rho^3) x[a] )/psi *)
+   ddpsiopsi[a,b] == ( (6M/rho^3) (x[a]/rho) (x[b]/rho) -(2M/rho^3)delta[a,b] )/psi,
 
  Cif == else,
 
-- 
2.43.0


From 83e6a319007ecfb39a50fbd046902eb117e28e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:41 +0000
Subject: [PATCH 88/91] fix: BSSN_recomputegzz gives the conformal metric
 determinant one

---
 src/physics/BSSN/BSSN_rhs.c | 2 +-
 src/physics/BSSN/BSSN_rhs.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/BSSN/BSSN_rhs.c b/src/physics/BSSN/BSSN_rhs.c
index f113813..d604138 100644
--- a/src/physics/BSSN/BSSN_rhs.c
+++ b/src/physics/BSSN/BSSN_rhs.c
@@ -3089,7 +3089,7 @@ if (recomputegzz) {
 
 ng33[ijk]
 =
-1. + (-2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
+(1. - 2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
      ng11[ijk]*pow2(ng23[ijk]))/(ng11[ijk]*ng22[ijk] - pow2(ng12[ijk]))
 ;
 
diff --git a/src/physics/BSSN/BSSN_rhs.m b/src/physics/BSSN/BSSN_rhs.m
index 2943568..2896ff9 100644
--- a/src/physics/BSSN/BSSN_rhs.m
+++ b/src/physics/BSSN/BSSN_rhs.m
@@ -247,7 +247,7 @@ tocompute = {
 
     (* recompute Azz from the other As and gzz from th other gs *)
     Cif == recomputegzz,
-      ng33 == 1 + (ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
+      ng33 == (1 + ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
                   (ng11 ng22 - ng12 ng12),
     Cif == end,
     detnginv == 1/matrixdet[ng],
-- 
2.43.0


From 640ebfa8fd1c5135d3ac81496318c6a99425d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 89/91] fix: ScalarOnKerr outer boundary of the first order
 system uses shift and phi of the boundary point itself

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index cb36c49..d3220f6 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -2567,7 +2567,8 @@ void set_psi_Pi_phi_boundary(tVarList *unew, tVarList *upre, double dt,
 
       /* set BC on Upsi */
       nUpsi = -alpha[ijk]*cPi[ijk] +
-              betax[i]*cphix[i] + betay[i]*cphiy[i] + betaz[i]*cphiz[i];
+              betax[ijk]*cphix[ijk] + betay[ijk]*cphiy[ijk] +
+              betaz[ijk]*cphiz[ijk];
       /* set RHS of psi */
       rpsi = nUpsi;
 
-- 
2.43.0


From 41acbd1dc9c5af33ef93ff748e176b52ab69df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 90/91] fix: J_Poisson3 is the linearisation of F_Poisson3 also
 in the Chi Chi Psizz term

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0


From d5e65753a1507baeba86612a603a8a9b5cdae9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 91/91] fix: checkpoint_additional_variables can contain any
 component of a variable

---
 src/utility/checkpoint/checkpoint.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 4d45644..53e12b0 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -297,8 +297,10 @@ tVarList *checkpoint_varlist(tGrid *grid)
     if (box->v[i] != 0)
       if( Getv("checkpoint_additional_variables", VarName(i)) )
       {
-        vldrop(vl, i); /* <--drop it in case it is there already */
-        vlpush(vl, i); /* <--now add it again */
+        /* a component stands for the entire variable */
+        int i0 = IndComponent0(i);
+        vldrop(vl, i0); /* <--drop it in case it is there already */
+        vlpush(vl, i0); /* <--now add it again */
       }
   }
 
-- 
2.43.0

