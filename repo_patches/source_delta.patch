From 78dd67b36751cba9156890d18a91451d3e75bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 01/47] fix: honour an include directive that ends the
 parameter file

---
 common/spf_par.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..36cd5b4 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -139,6 +139,9 @@ spf_read_preparse_ext(
 
    // Remove comments from str1 and copy the result to str2.
    str2_len = strcpy_strip_comments(str1, i1, 1, str2);
+   // Terminate the last token, so an include directive at the very end works too.
+   str2[str2_len++] = ' ';
+   str2[str2_len] = 0;
 
    // ----- Preparse parameters.
 
-- 
2.43.0


From 5b95997274365c1200b4eaa161ec8e53f1c41d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 02/47] fix: report an include directive without a file name as
 an error

---
 common/spf_par.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 36cd5b4..ba40986 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -151,7 +151,7 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if ((token == NULL) || ((sp_file = fopen(token, "rb")) == NULL)) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
-- 
2.43.0


From 28841a892ca90372061078155a6be3db731ac122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 03/47] fix: keep tokens apart when an included file ends with
 a comment

---
 common/spf_par.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index ba40986..8f8f0d9 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -165,7 +165,7 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
-         str1[i1++] = ' ';
+         str1[i1++] = LF_CHAR; // Ends an unterminated comment too.
          str1[i1] = 0;
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
          if (i1 + str2_len >= SP_STR_MAX) {
-- 
2.43.0


From f54a4554d3c71ff3ae982ff8a725ea56903ad653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 04/47] fix: split the closing brace of a group written without
 inner spaces

---
 common/spf_par.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 8f8f0d9..d7851f2 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -188,14 +188,11 @@ spf_read_preparse_ext(
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+         token++;
+         if (token[0] == 0) {
+            token = strtok(NULL, token_seps);
+            continue;
          }
-         token = strtok(NULL, token_seps);
-         continue;
       }
 
       // Group ends.
-- 
2.43.0


From 99e2b2eb0143000afec40c757cef4c7c8c24488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 05/47] fix: do not dereference NULL when a parameter file ends
 without a value

---
 common/spf_par.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..7675b61 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -44,6 +44,7 @@
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atoi(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -53,6 +54,7 @@
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = atof(tk); \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -62,6 +64,7 @@
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
+      if ((tk) == NULL) continue; \
       (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
@@ -114,12 +117,12 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
-   (tk) = strtok(NULL, tk_seps_prepared); \
+   if ((tk) != NULL) (tk) = strtok(NULL, tk_seps_prepared); \
 }
 
 
-- 
2.43.0


From ce368cf6b54b58838ebdd53d910d64ca6d071ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 06/47] fix: reject unclosed and too long group values instead
 of misreading what follows

---
 common/spf_par.c    |  6 +++---
 common/spf_par.h    | 13 +++++++------
 simulators/sim_bg.c | 10 +++++++---
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index d7851f2..b7d7270 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -254,16 +254,16 @@ int tryread_group_int_param(
   if (strcmp(*inout_tk, param_key) == 0) {
     int i = 0;
     char *tk = strtok(NULL, tk_seps_prepared);
-    if (tk[0] == GROUP_CHAR_BEGIN) {
+    if ((tk != NULL) && (tk[0] == GROUP_CHAR_BEGIN)) {
       tk = strtok(NULL, tk_seps_prepared);
-      while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
+      while ((tk != NULL) && (tk[0] != GROUP_CHAR_END) && (i < max_n)) {
         *x = atoi(tk);
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
       }
     }
-    else {
+    if ((tk == NULL) || (tk[0] != GROUP_CHAR_END)) {
       err_msg(erstr);
       return RC_ERROR;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index 7675b61..9bc95af 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -75,14 +75,14 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
          return 1; \
       } \
@@ -96,16 +96,17 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            if ((tk) == NULL) break; \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
          return 1; \
       } \
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..de2bf4d 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -231,16 +231,20 @@ int sim_init(
       if (strcmp(token, snr_val_trn_token) == 0) {
         int i = 0;
         token = strtok(NULL, tk_seps_prepared);
-        if (token[0] == GROUP_CHAR_BEGIN) {
+        if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
           token = strtok(NULL, tk_seps_prepared);
-          while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
+          while ((token != NULL) && (token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            if ((token == NULL) || (token[0] == GROUP_CHAR_END)) {
+              err_msg("sim_bg init error: no trials number in SNR_val_trn.");
+              return RC_ERROR;
+            }
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
         }
-        else {
+        if ((token == NULL) || (token[0] != GROUP_CHAR_END)) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
           return RC_ERROR;
         }
-- 
2.43.0


From df0fe0868e4190073fc89aee486b295b9dfb77b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 07/47] fix: leave room for the busy flag suffix in the results
 file name buffer

---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index de2bf4d..6051026 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -219,7 +219,8 @@ int sim_init(
 
     if (strcmp(token, res_file_token) == 0) {
       token = strtok(NULL, tk_seps_prepared);
-      if (strlen(token) >= FN_LEN_MAX) {
+      if (token == NULL) break;
+      if (strlen(token) + 8 >= FN_LEN_MAX) { // Leave some room for a suffix.
         err_msg("sim_bg init error: output file name is too long.");
         return RC_ERROR;
       }
-- 
2.43.0


From fcfdf20e8f1d73bacfb0825aa732c097ba30d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 08/47] fix: reject simulation parameters without the required
 res_file

---
 simulators/sim_bg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 6051026..83c2181 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -278,6 +278,10 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: no results file is specified.");
+    return RC_ERROR;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     return RC_ERROR;
-- 
2.43.0


From d8d140029263f20969d669ab22e39e8299f6ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 09/47] fix: compute bit error rates without int overflow

---
 Octave/loadsrf.c    | 2 +-
 simulators/sim_bg.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..455ec79 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -130,7 +130,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 83c2181..65f71b4 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -523,7 +523,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -536,7 +536,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From b62b24babd1d596476bec052daacede353a1dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 10/47] fix: keep the limit of trials per SNR within the int
 range

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 65f71b4..a3ee208 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -44,7 +44,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
-- 
2.43.0


From b1a4526482ee34d87272ea4ae188f0906e599b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 11/47] fix: never estimate less trials than SNR_val_trn
 requires

---
 simulators/sim_bg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a3ee208..4999c66 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -91,6 +91,7 @@ typedef struct {
   int min_trn;
   int min_en_bl;
   int trn_req[SNR_NUM_MAX];
+  int trn_req_init[SNR_NUM_MAX]; // Initially required number of trials.
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -302,6 +303,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_req_init[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -335,7 +337,7 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req_init[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
-- 
2.43.0


From badcc6e96cc5a2b2de37c2968300205e4d9997c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 12/47] fix: create the busy flag file atomically

---
 simulators/sim_bg.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 4999c66..b3a4d23 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -569,24 +570,21 @@ sim_save_res(
 
   sim = (sim_bg_inst *)inst;
 
-  // Check if the file is busy.
+  // Create the busy flag, wait if the file is busy.
   strcpy(bsyfn, sim->rf_name);
   strcat(bsyfn, ".bsy");
   n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
+  while ((fp = fopen(bsyfn, "wx")) == NULL) {
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
     if (n++ > 30) {
       err_msg("sim_bg saving error: output file is busy too long.");
       return RC_ERROR;
     }
     sleep(1000);
   }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
   fprintf(fp, "Busy");
   fclose(fp);
 
-- 
2.43.0


From 005b2b2700558384300352f55ce0d03b0ddb4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 13/47] fix: remove the busy flag only after the results file
 is written out

---
 simulators/sim_bg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index b3a4d23..51a8eff 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -738,10 +738,11 @@ sim_save_res(
     );
   }
 
+  fclose(fp);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
   return RC_OK;
 }
 
-- 
2.43.0


From 199dabec862a02106688b5935c83eac18c02c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 14/47] fix: release the busy flag when saving results fails

---
 simulators/sim_bg.c | 67 +++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 51a8eff..99e1f39 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -547,14 +547,13 @@ sim_cur_res_str(
   }
 }
 
-// Save simulation results.
-int
-sim_save_res(
-  void *inst // Simulation instance.
+// Merge simulation results into the results file.
+// The file must be protected by the busy flag.
+static int
+merge_res(
+  sim_bg_inst *sim
 ) {
-  sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -568,26 +567,6 @@ sim_save_res(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  sim = (sim_bg_inst *)inst;
-
-  // Create the busy flag, wait if the file is busy.
-  strcpy(bsyfn, sim->rf_name);
-  strcat(bsyfn, ".bsy");
-  n = 0;
-  while ((fp = fopen(bsyfn, "wx")) == NULL) {
-    if (errno != EEXIST) {
-      err_msg("sim_bg saving error: cannot create busy flag file.");
-      return RC_ERROR;
-    }
-    if (n++ > 30) {
-      err_msg("sim_bg saving error: output file is busy too long.");
-      return RC_ERROR;
-    }
-    sleep(1000);
-  }
-  fprintf(fp, "Busy");
-  fclose(fp);
-
   // Try to read and preparse old res file.
   if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
 
@@ -739,11 +718,45 @@ sim_save_res(
   }
 
   fclose(fp);
+  return RC_OK;
+}
+
+// Save simulation results.
+int
+sim_save_res(
+  void *inst // Simulation instance.
+) {
+  sim_bg_inst *sim;
+  FILE *fp;
+  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  int n, rc;
+
+  sim = (sim_bg_inst *)inst;
+
+  // Create the busy flag, wait if the file is busy.
+  strcpy(bsyfn, sim->rf_name);
+  strcat(bsyfn, ".bsy");
+  n = 0;
+  while ((fp = fopen(bsyfn, "wx")) == NULL) {
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
+    if (n++ > 30) {
+      err_msg("sim_bg saving error: output file is busy too long.");
+      return RC_ERROR;
+    }
+    sleep(1000);
+  }
+  fprintf(fp, "Busy");
+  fclose(fp);
+
+  rc = merge_res(sim);
 
   // Delete busy flag file.
   remove(bsyfn);
 
-  return RC_OK;
+  return rc;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From b769cf10aab91663a499cda44ea8729d4a7ea526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 15/47] fix: find and insert results file points correctly for
 any order and number of SNR values

---
 simulators/sim_bg.c | 58 +++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 99e1f39..72cf5c8 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -617,39 +617,41 @@ merge_res(
       err_msg("sim_bg saving error: invalid old res file.");
       return RC_ERROR;
     }
-
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
-      n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
-      }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
-    }
-    snrs_to_save = snr_num;
   }
   else {
 
-    // Assume there was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
+    // Assume there was no old res file, so there is nothing saved yet.
+    for (i = 0; i < sim->snr_num; i++) init_sim_point(&sim->pt_saved[i]);
+  }
+
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] != sim->snr_db[i])) n++;
+    if (n >= snr_num) {
+      if (snr_num >= SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the res file.");
+        return RC_ERROR;
+      }
+      n = 0;
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      // Make room for the new at n if required.
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
+      }
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
+  snrs_to_save = snr_num;
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
     copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
   }
-- 
2.43.0


From a9c1f0b6cdcb549d2ec7fd012d6545168e854993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 16/47] fix: save SNR values with the precision they were given
 with

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 72cf5c8..607447d 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -667,7 +667,7 @@ merge_res(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From bea06693af513f40ef6cd5c49d80267a1e92fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 17/47] fix: replace the results file only with completely
 written new results

---
 simulators/sim_bg.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 607447d..bc237c5 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -554,6 +554,7 @@ merge_res(
   sim_bg_inst *sim
 ) {
   FILE *fp;
+  char tmpfn[FN_LEN_MAX]; // Temporary file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -652,13 +653,13 @@ merge_res(
     add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
   snrs_to_save = snr_num;
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
 
-  // Save updated data.
+  // Save updated data. Write it to a temporary file first
+  // so the old data stay intact if anything goes wrong.
 
-  fp = fopen(sim->rf_name, "wt");
+  strcpy(tmpfn, sim->rf_name);
+  strcat(tmpfn, ".tmp");
+  fp = fopen(tmpfn, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
     return RC_ERROR;
@@ -719,7 +720,24 @@ merge_res(
     );
   }
 
-  fclose(fp);
+  n = ferror(fp);
+  if (fclose(fp) || n) {
+    err_msg("sim_bg saving error: cannot write results.");
+    remove(tmpfn);
+    return RC_ERROR;
+  }
+#ifdef WIN32
+  remove(sim->rf_name);
+#endif
+  if (rename(tmpfn, sim->rf_name)) {
+    err_msg("sim_bg saving error: cannot replace the old res file.");
+    remove(tmpfn);
+    return RC_ERROR;
+  }
+
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
   return RC_OK;
 }
 
-- 
2.43.0


From c270fff91e193bf64eef104343f42e1e8453765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 18/47] fix: do not overwrite an old results file that cannot
 be read

---
 simulators/sim_bg.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index bc237c5..ee0ff73 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -621,6 +621,16 @@ merge_res(
   }
   else {
 
+    // Don't overwrite an old res file that cannot be read.
+    errno = 0;
+    fp = fopen(sim->rf_name, "rb");
+    n = (fp != NULL) ? fgetc(fp) : EOF;
+    if (fp != NULL) fclose(fp);
+    if ((n != EOF) || (errno && (errno != ENOENT))) {
+      err_msg(err_reading_str);
+      return RC_ERROR;
+    }
+
     // Assume there was no old res file, so there is nothing saved yet.
     for (i = 0; i < sim->snr_num; i++) init_sim_point(&sim->pt_saved[i]);
   }
-- 
2.43.0


From ed574b2f35695e253301336a873cc581e79c650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 19/47] fix: do not read past the arguments when -si or -ri has
 no value

---
 simulators/main_txt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..7c2273b 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -69,8 +69,8 @@ int main(int argc, char **argv) {
 
    for (i = 2; i < argc; i++) {
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
-      if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-si") == 0) && (i + 1 < argc)) save_int = atoi(argv[++i]);
+      if ((strcmp(argv[i], "-ri") == 0) && (i + 1 < argc)) sp.ret_int = atoi(argv[++i]);
    }
 
 #ifdef WIN32
-- 
2.43.0


From 994b92148be84b20af703279c56b5571d75786d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 20/47] fix: report decoding and saving failures in the exit
 status

---
 simulators/main_txt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 7c2273b..9fad9a0 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -127,9 +127,9 @@ int main(int argc, char **argv) {
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return rc;
 }
\ No newline at end of file
-- 
2.43.0


From aeb4e64631b05ce97112bd89662b7623d3b41c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 21/47] fix: reject unclosed and too long SNR lists in loadsrf

---
 Octave/loadsrf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 455ec79..107e86b 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -36,14 +36,14 @@
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+      if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
-         while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
+         while (((tk) != NULL) && ((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if (((tk) == NULL) || ((tk)[0] != GROUP_CHAR_END)) { \
          err_msg(erstr); \
       } \
       (n) = i; \
-- 
2.43.0


From c78a4e66b4e1f94b8e4c247aad25700619fb75b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 22/47] fix: do not dereference NULL on incomplete codec
 parameters

---
 dtrm_glp/dtrm_glp_main.c      | 8 +++++---
 polar_scl/ca_polar_scl_main.c | 9 ++++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..9fb303f 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -125,6 +125,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -138,6 +139,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -148,11 +150,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
@@ -164,7 +166,7 @@ cdc_init(
                p_num++;
             }
          }
-         else {
+         if (token == NULL || token[0] != GROUP_CHAR_END) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..cebfcbd 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -174,6 +174,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -187,6 +188,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
@@ -200,6 +202,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (token == NULL) break;
          dd->dc.peak_lsiz = atoi(token);
          token = strtok(NULL, tk_seps_prepared);
          continue;
@@ -211,11 +214,11 @@ cdc_init(
             goto ret_err;
          }
          token = strtok(NULL, tk_seps_prepared);
-         if (token[0] == GROUP_CHAR_BEGIN) {
+         if ((token != NULL) && (token[0] == GROUP_CHAR_BEGIN)) {
             token = strtok(NULL, tk_seps_prepared);
             i1 = 0;
             p_num = 0;
-            while (token[0] != GROUP_CHAR_END) {
+            while ((token != NULL) && (token[0] != GROUP_CHAR_END)) {
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
@@ -227,7 +230,7 @@ cdc_init(
                p_num++;
             }
          }
-         else {
+         if (token == NULL || token[0] != GROUP_CHAR_END) {
             err_msg("cdc_init(): parameters file: permutations.");
             goto ret_err;
          }
-- 
2.43.0


From 0213255f9b4c936667a690cd5af041a2818b7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 23/47] fix: do not overrun fixed size node buffers when
 decoding long RM codes

---
 dtrm/dtrm0.c |  7 +++----
 dtrm/dtrm1.c | 11 +++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..69bc532 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,19 +92,18 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = YLDEC0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = YLDEC1;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec); // Works in place.
       return 0;
    }
 
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..cb11069 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp;
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
@@ -85,15 +85,15 @@ tri1_dec(
 
       for (i = 0; i < n; i++) {
          if (y_in[i] > 0) {
-            tmp[i] = 0;
+            x_dec[i] = 0;
             y_dec[i] = 1.0;
          }
          else {
-            tmp[i] = 1;
+            x_dec[i] = 1;
             y_dec[i] = -1.0;
          }
       }
-      mrm_enc_mm_bsc(m, tmp, x_dec);
+      mrm_enc_mm_bsc(m, x_dec, x_dec); // Works in place.
 
       return 0;
 
@@ -107,8 +107,11 @@ tri1_dec(
 #else
       if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;
 #endif
+      tmp = (int *)malloc(n * sizeof(int));
+      if (tmp == NULL) return 1;
       mrm_enc_bsc(m, r, x_dec, tmp);
       for (i = 0; i < n; i++) y_dec[i] = (double)(1 - (tmp[i] << 1));
+      free(tmp);
       return 0;
    } // if (r == 1).
 
-- 
2.43.0


From b53dcdf2c7e5b42d13692d81b0d04bf690d5fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 24/47] fix: reject RM parameters out of range

---
 dtrm/dtrm0.c             | 4 ++--
 dtrm/dtrm1.c             | 4 ++--
 dtrm_glp/dtrm_glp_main.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 69bc532..242e960 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -183,8 +183,8 @@ cdc_init(
    dd->c_r = c_r;
 
    // Check if all necessary parameters are specified.
-   if ((c_m == 0) || (c_r == 0)) {
-      err_msg("cdc_init: RM_m or RM_r are not specified.");
+   if ((c_m < 1) || (c_r < 1) || (c_r > c_m) || (c_m > 30)) {
+      err_msg("cdc_init: RM_m or RM_r are not specified or invalid.");
       goto ret_err;
    }
 
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index cb11069..9561578 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -194,8 +194,8 @@ cdc_init(
    dd->c_r = c_r;
 
    // Check if all necessary parameters are specified.
-   if ((c_m == 0) || (c_r == 0)) {
-      err_msg("cdc_init: RM_m or RM_r are not specified.");
+   if ((c_m < 1) || (c_r < 1) || (c_r > c_m) || (c_m > 30)) {
+      err_msg("cdc_init: RM_m or RM_r are not specified or invalid.");
       goto ret_err;
    }
 
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 9fb303f..3400a14 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -187,8 +187,8 @@ cdc_init(
    dd->c_r = dd->dc.c_r = c_r;
 
    // Check if all necessary parameters are specified.
-   if ((c_m == 0) || (c_r == 0)) {
-      err_msg("cdc_init: RM_m or RM_r are not specified.");
+   if ((c_m < 1) || (c_r < 1) || (c_r > c_m) || (c_m > 30)) {
+      err_msg("cdc_init: RM_m or RM_r are not specified or invalid.");
       goto ret_err;
    }
    if (dd->dc.node_table_len == 0) {
-- 
2.43.0


From 5f88f74847e098f311eb2751aaf3097e4eea910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 25/47] fix: convert strong channel outputs to epsilons without
 overflow

---
 formats/formats.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..e72d1d9 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -85,8 +85,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
+      e[i] = -tanh(0.5 * (y[i])); \
       FORMAT_CLIP(e[i]); \
    } \
 }
@@ -95,10 +94,7 @@
 #ifndef FORMAT_USE_CLIPPING
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
-   for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
-      e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
-   } \
+   for (i = 0; i < n; i++) e[i] = -tanh(0.5 * (y[i])); \
 }
 #endif // if not FORMAT_USE_CLIPPING
 
-- 
2.43.0


From 3b9dbe99ff6cda8ab791736866f74caa06204496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 26/47] fix: reject polar code parameters out of range

---
 polar_scl/ca_polar_scl_main.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index cebfcbd..6ee380f 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -246,15 +246,15 @@ cdc_init(
    dd->c_m = dd->dc.c_m = c_m;
 
    // Check if all necessary parameters are specified.
-   if (c_m == 0) {
-      err_msg("cdc_init: c_m is not specified.");
+   if ((c_m < 1) || (c_m > 30)) {
+      err_msg("cdc_init: c_m is not specified or invalid.");
       goto ret_err;
    }
-   if (dd->dc.node_table_len == 0) {
-      err_msg("cdc_init: No info_bits_mask.");
+   if (dd->dc.node_table_len < (1 << c_m)) {
+      err_msg("cdc_init: No info_bits_mask or it is too short.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz < 1) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -263,6 +263,10 @@ cdc_init(
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if ((dd->eff_k < 1) || (dd->eff_k < dd->crc_len)) {
+      err_msg("cdc_init: too few information bits.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
@@ -347,6 +351,7 @@ ret_err:
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
+      if (dd->crc != NULL) free(dd->crc);
       free(dd);
       (*cdc) = NULL;
    }
-- 
2.43.0


From 6dc04117ca517d75ecccf57c3856a9ec24457e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 27/47] fix: size the permutation and coefficient buffers by
 the actual parameters

---
 dtrm_glp/dtrm_glp_main.c      | 18 +++++++++++++++++-
 polar_scl/ca_polar_scl_main.c | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 3400a14..bd38be0 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -96,7 +96,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -115,6 +115,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate buffer for permutations. There cannot be more numbers than characters.
+   p_info = (int *)malloc((strlen(param_str) + 64) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -231,6 +238,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -262,6 +274,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -284,6 +298,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 6ee380f..c838f43 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,7 +146,7 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int *p_info = NULL, *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -165,6 +165,13 @@ cdc_init(
    }
    str1[0] = 0;
 
+   // Allocate buffer for permutations. There cannot be more numbers than characters.
+   p_info = (int *)malloc((strlen(param_str) + 64) * sizeof(int));
+   if (p_info == NULL) {
+      err_msg("cdc_init: Short of memory!");
+      goto ret_err;
+   }
+
    // ----- Parse parameters.
    strcpy(str1, param_str);
 
@@ -293,6 +300,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -324,6 +336,8 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
+   free(p_info); p_info = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -346,6 +360,8 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (p_info != NULL) free(p_info);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
-- 
2.43.0


From 76b0dc3c912af938bdcfe8c46fbbf7a007244241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 28/47] fix: reject incomplete and invalid permutations

---
 dtrm_glp/dtrm_glp_main.c      | 14 +++++++++++++-
 polar_scl/ca_polar_scl_main.c | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index bd38be0..6e00716 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -165,7 +165,7 @@ cdc_init(
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
+                  if ((token == NULL) || ((token[0] == GROUP_CHAR_END) && (i < c_m - 1))) {
                      err_msg("cdc_init(): parameters file: permutations.");
                      goto ret_err;
                   }
@@ -224,6 +224,18 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   for (pn = 0; pn < p_num; pn++) {
+      // Check that all the numbers 0..m-1 are there.
+      i1 = 0;
+      for (i = 0; i < c_m; i++) {
+         i2 = p_info[pn * c_m + i];
+         if ((i2 >= 0) && (i2 < c_m)) i1 |= 1 << i2;
+      }
+      if (i1 != (1 << c_m) - 1) {
+         err_msg("cdc_init(): parameters file: invalid permutation.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index c838f43..614d47f 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -229,7 +229,7 @@ cdc_init(
                for (i = 0; i < c_m; i++) {
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
-                  if (token == NULL) {
+                  if ((token == NULL) || ((token[0] == GROUP_CHAR_END) && (i < c_m - 1))) {
                      err_msg("cdc_init(): parameters file: permutations.");
                      goto ret_err;
                   }
@@ -286,6 +286,18 @@ cdc_init(
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
    }
+   for (pn = 0; pn < p_num; pn++) {
+      // Check that all the numbers 0..m-1 are there.
+      i1 = 0;
+      for (i = 0; i < c_m; i++) {
+         i2 = p_info[pn * c_m + i];
+         if ((i2 >= 0) && (i2 < c_m)) i1 |= 1 << i2;
+      }
+      if (i1 != (1 << c_m) - 1) {
+         err_msg("cdc_init(): parameters file: invalid permutation.");
+         goto ret_err;
+      }
+   }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-- 
2.43.0


From 87eb1bae7838e50139b5aa46417bc21cef06c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 29/47] fix: do not hang on permutations with a negative m

---
 dtrm_glp/dtrm_glp_main.c      | 2 +-
 polar_scl/ca_polar_scl_main.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 6e00716..8a7d137 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -152,7 +152,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 614d47f..f68f6aa 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -216,7 +216,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m < 1) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
-- 
2.43.0


From a901fd27af15a9aff5eca66368853a3e307c4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 30/47] fix: keep the best candidates when the RM decoder list
 is cut

---
 dtrm_glp/dtrm_glp_inner.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..3e89407 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,8 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
   if (len == 2) {
     if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
     return;
-- 
2.43.0


From 56266c357758c85e71053c2bbff0dcdb6a607a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 31/47] fix: reject short and empty border node masks and
 negative list sizes

---
 dtrm_glp/dtrm_glp_main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 8a7d137..ef2a0ea 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -198,11 +198,13 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified or invalid.");
       goto ret_err;
    }
-   if (dd->dc.node_table_len == 0) {
-      err_msg("cdc_init: No border nodes map.");
+   // The number of border nodes is c_m choose c_r.
+   for (i = i1 = 1; i <= c_r; i++) i1 = (int)((double)i1 * (c_m - c_r + i) / i + 0.5);
+   if (dd->dc.node_table_len < i1) {
+      err_msg("cdc_init: No border nodes map or it is too short.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz < 1) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -216,6 +218,10 @@ cdc_init(
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
+   if (c_k < 1) {
+      err_msg("cdc_init: All border nodes are zeroed.");
+      goto ret_err;
+   }
 
    // Generate permutations.
    if (p_num == 0) {
-- 
2.43.0


From 6d69fd8df240b0e7b164227ca5a2ca4fa3983ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 32/47] fix: reject RM_r = RM_m, which the RM list decoder
 cannot decompose

---
 dtrm_glp/dtrm_glp_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ef2a0ea..521920b 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -194,7 +194,7 @@ cdc_init(
    dd->c_r = dd->dc.c_r = c_r;
 
    // Check if all necessary parameters are specified.
-   if ((c_m < 1) || (c_r < 1) || (c_r > c_m) || (c_m > 30)) {
+   if ((c_m < 1) || (c_r < 1) || (c_r >= c_m) || (c_m > 30)) {
       err_msg("cdc_init: RM_m or RM_r are not specified or invalid.");
       goto ret_err;
    }
-- 
2.43.0


From 57b1000c44fba1143079a591aaae5639a80ec76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 33/47] fix: decode first order RM codes with the RM list
 decoder

---
 dtrm_glp/dtrm_glp_inner.c | 60 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 3e89407..f6cfce9 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -625,6 +625,60 @@ void rmm_skip(
   }
 }
 
+// Branch the (0, m) node when it is not a part of a (1, m + 1) node.
+void rm0_branch(
+  decoder_type *dd, // Decoder instance data.
+  int m,
+  int peak_lsiz
+) {
+  int n = 1 << m;
+  int cur_lsiz_old = cur_lsiz;
+  int cur_ind0, cur_ind1;
+  slitem s0, s1;
+  ylitem *yp1;
+  int i, j;
+
+  for (i = 0; i < cur_lsiz_old; i++) {
+    cur_ind0 = lorder[i];
+    parent[cur_ind0] = -1;
+    yp1 = YLISTP(cur_ind0, m);
+    s0 = 0.0;
+    s1 = 0.0;
+    for (j = 0; j < n; j++) {
+      s0 += EST_TO_LNP0(yp1[j]);
+      s1 += EST_TO_LNP1(yp1[j]);
+    }
+    if (peak_lsiz > 0) {
+      cur_ind1 = branch(cur_ind0, lind2xl[cur_ind0]);
+      if (s0 > s1) {
+        PUSHZEROX(cur_ind0);
+        PUSHONEX(cur_ind1);
+        slist[cur_ind0] += s0;
+        slist[cur_ind1] += s1;
+      }
+      else {
+        PUSHONEX(cur_ind0);
+        PUSHZEROX(cur_ind1);
+        slist[cur_ind0] += s1;
+        slist[cur_ind1] += s0;
+      }
+    }
+    else slist[cur_ind0] += s0; // Zeroed node.
+  }
+
+  // Partition and cut the list.
+  if ((peak_lsiz > 0) && (cur_lsiz > peak_lsiz)) {
+    qpartition(lorder, cur_lsiz, peak_lsiz);
+    while (cur_lsiz > peak_lsiz) frind[--frindp] = lorder[--cur_lsiz];
+  }
+
+  for (i = 0; i < cur_lsiz; i++) {
+    cur_ind0 = lorder[i];
+    yp1 = YLISTP(cur_ind0, m) = YLIST_POP(m);
+    for (j = 0; j < n; j++) yp1[j] = ((peak_lsiz > 0) && GETX(cur_ind0)) ? YLDEC1 : YLDEC0;
+  }
+}
+
 void rm_dec_inner(
   decoder_type *dd, // Decoder instance data.
   int m,
@@ -849,7 +903,11 @@ rm_dec(
 #endif
 
   // Decode v.
-  rm_dec_inner(dd, c_m - 1, c_r - 1);
+  if (c_r == 1) {
+    rm0_branch(dd, c_m - 1, node_table[node_counter]);
+    node_counter++;
+  }
+  else rm_dec_inner(dd, c_m - 1, c_r - 1);
 
 #ifdef DBG2
   print_list("root b");
-- 
2.43.0


From 191ef9a8df05a43a8a8553b450db313273e7e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 34/47] fix: size decoder buffers by the largest of the
 variable list sizes

---
 dtrm_glp/dtrm_glp_main.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 521920b..80919ef 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -212,6 +212,16 @@ cdc_init(
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   if (dd->use_var_list != 0) {
+      // Decoder buffers must be enough for any list size.
+      for (i = 0; i < dd->dist_t_n; i++) {
+         if (dd->lsiz[i] < 1) {
+            err_msg("cdc_init: Invalid list size in distance_threshold.");
+            goto ret_err;
+         }
+         dd->dc.peak_lsiz = MAX(dd->dc.peak_lsiz, dd->lsiz[i]);
+      }
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
-- 
2.43.0


From d0ebb552722faea4346029b64526795bee07eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 35/47] fix: reject permutations of RM subcodes, which they do
 not preserve

---
 dtrm_glp/dtrm_glp_main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 80919ef..8fd3f70 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -251,6 +251,13 @@ cdc_init(
          err_msg("cdc_init(): parameters file: invalid permutation.");
          goto ret_err;
       }
+      // The permuted code must be the same code.
+      for (i = 0; i < c_m; i++) {
+         if ((p_info[pn * c_m + i] != i) && (c_k != calc_rm_k(c_m, c_r))) {
+            err_msg("cdc_init(): permutations can be used with pure RM codes only.");
+            goto ret_err;
+         }
+      }
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-- 
2.43.0


From b1030762b1baa551f0823c4762921adcb9c24b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 36/47] fix: reject permutations for Polar codes, which they do
 not preserve

---
 polar_scl/ca_polar_scl_main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index f68f6aa..24f8a66 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -297,6 +297,13 @@ cdc_init(
          err_msg("cdc_init(): parameters file: invalid permutation.");
          goto ret_err;
       }
+      // TODO: Only the identity permutation is usable with general Polar codes.
+      for (i = 0; i < c_m; i++) {
+         if (p_info[pn * c_m + i] != i) {
+            err_msg("cdc_init(): permutations cannot be used with Polar codes.");
+            goto ret_err;
+         }
+      }
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-- 
2.43.0


From b6aaedffc3947cfefb11754b5a5cbdde849c1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 37/47] fix: convert strong inputs of the RM(1,m) decoders
 without overflow

---
 rm1_ml/rm1_ml.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 0b53c69..16e14b8 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -54,8 +54,10 @@ int rm1_dec_sh(
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
+#ifdef FORMAT_USE_CLIPPING
+      FORMAT_CLIP(ylist[i]);
+#endif // FORMAT_USE_CLIPPING
    }
 #endif // FORMAT_EPS
 
@@ -159,8 +161,10 @@ int rm1_dec_lst(
 #ifdef FORMAT_EPS
    // Convert y_in to the epsilon format.
    for (i = 0; i < c_n; i++) {
-      ylist[i] = exp(y_in[i]);
-      ylist[i] = (1.0 - ylist[i]) / (1.0 + ylist[i]);
+      ylist[i] = -tanh(0.5 * y_in[i]);
+#ifdef FORMAT_USE_CLIPPING
+      FORMAT_CLIP(ylist[i]);
+#endif // FORMAT_USE_CLIPPING
    }
 #endif // FORMAT_EPS
 
-- 
2.43.0


From 08bdb6de2664f4066983e50dd98dd03ce9729637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 38/47] fix: show the last point in the status of a completed
 simulation

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index ee0ff73..1ba4100 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -489,7 +489,7 @@ sim_state_str(
   int n;
 
   sim = (sim_bg_inst *)inst;
-  n = sim->csnrn;
+  n = MIN(sim->csnrn, sim->snr_num - 1);
   if (sim->do_ml) {
     sprintf(ds,
       "SNR: %3.2f (%d / %d), trn: %d / %d, en: %d, ML en: %d.",
-- 
2.43.0


From 0eab496c1de5b282e43d64923ccec49b74ec515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 39/47] fix: keep the user's trial requirement changes within
 range

---
 simulators/sim_bg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 1ba4100..5073125 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -799,10 +799,13 @@ void sim_control(
 
   sim = (sim_bg_inst *)inst;
   csnrn = sim->csnrn;
+  if (csnrn >= sim->snr_num) return; // The simulation is completed.
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
-      sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
+      if (sim->trn_req[csnrn] < MAX_TRIALS_PER_SNR) {
+        sim->trn_req[csnrn] = (int)MIN(sim->trn_req[csnrn] + (double)(sim->trn_req[csnrn] / 2), MAX_TRIALS_PER_SNR);
+      }
       break;
     case SIM_CTRL_CUR_LESS :
       sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;
-- 
2.43.0


From 779b91a3c85c7caee535359b8bca45275561b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 40/47] fix: do not overrun the parameters string when
 splitting braces off

---
 common/spf_par.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index b7d7270..ea1b303 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -183,6 +183,14 @@ spf_read_preparse_ext(
          continue;
       }
       
+      // Each token may need a brace and a separator before and after it.
+      if (sp_str_len + strlen(token) + 6 > SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Group begins.
       if (token[0] == GROUP_CHAR_BEGIN) {
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
-- 
2.43.0


From 3f6e53f03fdbe0fdc9e496545936c64dd82f5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 41/47] fix: report an oversized include file instead of
 cutting it off

---
 common/spf_par.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index ea1b303..4753d08 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -165,6 +165,12 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
+         if (i1 >= SP_STR_MAX - 1) {
+            err_msg("spf_read_preparse(): file is too huge.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
          str1[i1++] = LF_CHAR; // Ends an unterminated comment too.
          str1[i1] = 0;
          i1 = strcpy_strip_comments(str1, i1, 1, str1);
-- 
2.43.0


From 60d4d1c0ae82e897f8f438ff12b01ea21470cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 42/47] fix: compute large decoder buffer sizes without int
 overflow

---
 dtrm_glp/dtrm_glp_inner.c     | 20 ++++++++++----------
 dtrm_glp/dtrm_glp_main.c      | 12 ++++++------
 polar_scl/ca_polar_scl_main.c | 22 +++++++++++-----------
 polar_scl/polar_scl_inner.c   | 24 ++++++++++++------------
 4 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index f6cfce9..1e531b9 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -56,14 +56,14 @@
 #define PUSHONEX(i) { next_xle_ptr->x = 1; next_xle_ptr->p = lind2xl[i]; lind2xl[i] = next_xle_ptr++; }
 
 #ifdef DBG2
-#define YLIST_POP(i) (printf("pop i: %d, yitems[i]: %p, yfrindp[i]: %d\n", i, yitems[i], yfrindp[i]), yitems[i] + (1 << (i)) * (yfrindp[i]++));
+#define YLIST_POP(i) (printf("pop i: %d, yitems[i]: %p, yfrindp[i]: %d\n", i, yitems[i], yfrindp[i]), yitems[i] + ((size_t)1 << (i)) * (yfrindp[i]++));
 #else // DBG2
-#define YLIST_POP(i) (yitems[i] + (1 << (i)) * (yfrindp[i]++))
+#define YLIST_POP(i) (yitems[i] + ((size_t)1 << (i)) * (yfrindp[i]++))
 #endif // DBG2
 #define YLIST_RESET(i) { yfrindp[i] = 0; }
 
-#define YLISTP(i, j) ylist[(i) * dd->c_m + (j)]
-#define YLISTPP(i, j) (ylist + (i) * dd->c_m + (j))
+#define YLISTP(i, j) ylist[(size_t)(i) * dd->c_m + (j)]
+#define YLISTPP(i, j) (ylist + (size_t)(i) * dd->c_m + (j))
 
 
 //-----------------------------------------------------------------------------
@@ -796,7 +796,7 @@ rm_dec(
   int c_m = dd->c_m;
   int c_r = dd->c_r;
   int peak_lsiz; // Peak list size.
-  int flsiz; // Size of allocated list.
+  size_t flsiz; // Size of allocated list.
   ylitem *y_in;
   int n2 = dd->c_n / 2; // Half of the current length (n).
   int cur_ind0;
@@ -811,7 +811,7 @@ rm_dec(
 
   node_table = dd->node_table;
   peak_lsiz = dd->peak_lsiz;
-  flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+  flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
 
   // ----- Memory allocation.
 
@@ -843,7 +843,7 @@ rm_dec(
 #endif
   for (i = 0; i < dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
-    mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+    mem_buf_ptr += ((size_t)1 << i) * flsiz * sizeof(ylitem);
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
@@ -887,7 +887,7 @@ rm_dec(
     slist[i] = 0.0;
     lorder[i] = i;
     lind2xl[i] = xlist;
-    p1 = dd->pyarr + c_n * i;
+    p1 = dd->pyarr + (size_t)c_n * i;
     vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
     for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
     plist[i] = i;
@@ -918,7 +918,7 @@ rm_dec(
     cur_ind0 = lorder[i];
     vp = YLISTP(cur_ind0, c_m - 1);
     up = YLISTP(cur_ind0, c_m - 1) = YLIST_POP(c_m - 1);
-    p1 = dd->pyarr + c_n * plist[cur_ind0];
+    p1 = dd->pyarr + (size_t)c_n * plist[cur_ind0];
     for (j = 0; j < n2; j++) {
       y1 = EST_XOR_YLDEC(y_in[p1[j]], vp[j]); // y1 <-- y_1[j] xor v[j].
       ADD_EST(y1, y_in[p1[j + n2]], up[j]); // y_u <-- y1 + y_2[j];
@@ -942,7 +942,7 @@ rm_dec(
 #endif
 
   vgetx(lorder[i1], xtmp, c_k);
-  p1 = dd->pxarr + dd->c_k * plist[lorder[i1]];
+  p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i1]];
   for (j = 0; j < c_k; j++) x_dec[p1[j]] = xtmp[j];
 
   if (s_dec != NULL) {
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 8fd3f70..9e2fd3f 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -61,9 +61,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -71,7 +71,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * flsiz * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -261,8 +261,8 @@ cdc_init(
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
       if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 24f8a66..f52709e 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -63,9 +63,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -73,7 +73,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * flsiz * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -111,7 +111,7 @@ int get_best_in_list(
       return 0;
     }
     for (i = 0; i < lsiz; i++) {
-      if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
+      if (is_valid_crc(x + (size_t)i * sum_len, x_len, crc, crc_len, tmp)) {
         free(tmp);
         return i;
       }
@@ -307,8 +307,8 @@ cdc_init(
    }
    dd->dc.p_num = p_num;
    if (p_num > 0) {
-      dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
-      dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
+      dd->dc.pxarr = (int *)malloc((size_t)p_num * c_k * sizeof(int));
+      dd->dc.pyarr = (int *)malloc((size_t)p_num * c_n * sizeof(int));
       if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
@@ -483,7 +483,7 @@ dec_bpsk(
    double *dec_input;
    int *x_candidates;
    uint8 *mem_buf, *mem_buf_ptr;
-   int mem_buf_size;
+   size_t mem_buf_size;
    int best_ind;
    int is_erasure = 0;
 
@@ -491,7 +491,7 @@ dec_bpsk(
 
    mem_buf_size = dd->c_n * sizeof(double); // dec_input
    if (dd->dc.ret_list) {
-      mem_buf_size += dd->dc.peak_lsiz * dd->c_k * sizeof(int); // x_candidates
+      mem_buf_size += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int); // x_candidates
    }
    mem_buf = (uint8 *)malloc(mem_buf_size);
    if (mem_buf == NULL) {
@@ -505,7 +505,7 @@ dec_bpsk(
 
    if (dd->dc.ret_list) {
       x_candidates = (int *)mem_buf_ptr;
-      mem_buf_ptr += dd->dc.peak_lsiz * dd->c_k * sizeof(int);
+      mem_buf_ptr += (size_t)dd->dc.peak_lsiz * dd->c_k * sizeof(int);
    }
 
    // dec_input <-- 2 * c_out / sg^2.
@@ -521,7 +521,7 @@ dec_bpsk(
         is_erasure = 1;
         best_ind = 0;
       }
-      memcpy(x_dec, x_candidates + best_ind * dd->c_k, dd->eff_k * sizeof(int));
+      memcpy(x_dec, x_candidates + (size_t)best_ind * dd->c_k, dd->eff_k * sizeof(int));
    }
    else {
       polar_dec(&(dd->dc), dec_input, x_dec, NULL);
diff --git a/polar_scl/polar_scl_inner.c b/polar_scl/polar_scl_inner.c
index 328377b..5dce9f8 100644
--- a/polar_scl/polar_scl_inner.c
+++ b/polar_scl/polar_scl_inner.c
@@ -52,14 +52,14 @@
 #define PUSHONEX(i) { next_xle_ptr->x = 1; next_xle_ptr->p = lind2xl[i]; lind2xl[i] = next_xle_ptr++; }
 
 #ifdef DBG2
-#define YLIST_POP(i) (printf("pop i: %d, yitems[i]: %p, yfrindp[i]: %d\n", i, yitems[i], yfrindp[i]), yitems[i] + (1 << (i)) * (yfrindp[i]++));
+#define YLIST_POP(i) (printf("pop i: %d, yitems[i]: %p, yfrindp[i]: %d\n", i, yitems[i], yfrindp[i]), yitems[i] + ((size_t)1 << (i)) * (yfrindp[i]++));
 #else // DBG2
-#define YLIST_POP(i) (yitems[i] + (1 << (i)) * (yfrindp[i]++))
+#define YLIST_POP(i) (yitems[i] + ((size_t)1 << (i)) * (yfrindp[i]++))
 #endif // DBG2
 #define YLIST_RESET(i) { yfrindp[i] = 0; }
 
-#define YLISTP(i, j) ylist[(i) * dd->c_m + (j)]
-#define YLISTPP(i, j) (ylist + (i) * dd->c_m + (j))
+#define YLISTP(i, j) ylist[(size_t)(i) * dd->c_m + (j)]
+#define YLISTPP(i, j) (ylist + (size_t)(i) * dd->c_m + (j))
 
 
 //-----------------------------------------------------------------------------
@@ -372,7 +372,7 @@ polar_dec(
   int c_k = dd->c_k;
   int c_m = dd->c_m;
   int peak_lsiz; // Peak list size.
-  int flsiz; // Size of allocated list.
+  size_t flsiz; // Size of allocated list.
   ylitem *y_in;
   int n2 = dd->c_n / 2; // Half of the current length (n).
   int cur_ind0;
@@ -388,7 +388,7 @@ polar_dec(
 
   node_table = dd->node_table;
   peak_lsiz = dd->peak_lsiz;
-  flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+  flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
 
   // ----- Memory allocation.
 
@@ -420,7 +420,7 @@ polar_dec(
 #endif
   for (i = 0; i < dd->c_m; i++) {
     yitems[i] = (ylitem *)mem_buf_ptr;
-    mem_buf_ptr += (1 << i) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem);
+    mem_buf_ptr += ((size_t)1 << i) * flsiz * sizeof(ylitem);
 #ifdef DBG2
     printf("Buffer %d: yitems[i]=%p, %ld\n", i, yitems[i], mem_buf_ptr - dd->mem_buf);
 #endif
@@ -461,7 +461,7 @@ polar_dec(
     slist[i] = 0.0;
     lorder[i] = i;
     lind2xl[i] = xlist;
-    p1 = dd->pyarr + c_n * i;
+    p1 = dd->pyarr + (size_t)c_n * i;
     vp = YLISTP(i, c_m - 1) = YLIST_POP(c_m - 1);
     // TODO: Permutations are not usable with general Polar, but let's leave it as it is for now.
     for (j = 0; j < n2; j++) vp[j] = XOR_EST(y_in[p1[j]], y_in[p1[j + n2]]);
@@ -490,7 +490,7 @@ polar_dec(
     vp = YLISTP(cur_ind0, c_m - 1);
     up = YLISTP(cur_ind0, c_m - 1) = YLIST_POP(c_m - 1);
     // TODO: Permutations.
-    p1 = dd->pyarr + c_n * plist[cur_ind0];
+    p1 = dd->pyarr + (size_t)c_n * plist[cur_ind0];
     for (j = 0; j < n2; j++) {
       y1 = EST_XOR_YLDEC(y_in[p1[j]], vp[j]); // y1 <-- y_1[j] xor v[j].
       ADD_EST(y1, y_in[p1[j + n2]], up[j]); // y_u <-- y1 + y_2[j];
@@ -514,8 +514,8 @@ polar_dec(
     for (i = 0; i < cur_lsiz; i++) {
       vgetx(lorder[i], xtmp, c_k);
       // TODO: Permutations.
-      p1 = dd->pxarr + dd->c_k * plist[lorder[i]];
-      xp = x_dec + i * c_k;
+      p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i]];
+      xp = x_dec + (size_t)i * c_k;
       for (j = 0; j < c_k; j++) xp[p1[j]] = xtmp[j];
     }
 
@@ -536,7 +536,7 @@ polar_dec(
 
     vgetx(lorder[i1], xtmp, c_k);
     // TODO: Permutations.
-    p1 = dd->pxarr + dd->c_k * plist[lorder[i1]];
+    p1 = dd->pxarr + (size_t)dd->c_k * plist[lorder[i1]];
     for (j = 0; j < c_k; j++) x_dec[p1[j]] = xtmp[j];
 
     if (s_dec != NULL) {
-- 
2.43.0


From 00855f129bff2e5f69db0238a41a2c0f84327ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 43/47] fix: do not overrun the encoder state of full rate
 nodes longer than 2^15

---
 dtrm_glp/dtrm_glp_inner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 1e531b9..48eba1f 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -206,10 +206,10 @@ static void qpartition(int *v, int len, int k) {
   else qpartition(v + st, len - st, k - st);
 }
 
-// n <= 2^15.
+// n <= 2^30.
 void code_mm(int n, xlitem *x, xlitem *y) {
   int cur_depth = 0;
-  int states[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
+  int states[32] = {0};
   int i, n2;
 
   while (cur_depth >= 0) {
-- 
2.43.0


From 2d87b8f04a2567140d206f9034b4031d42ae272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 44/47] fix: message longer than the message buffer overran the
 stack

---
 Octave/ui_octave_txt.c | 2 +-
 common/ui_txt.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Octave/ui_octave_txt.c b/Octave/ui_octave_txt.c
index 9e10357..351d95d 100644
--- a/Octave/ui_octave_txt.c
+++ b/Octave/ui_octave_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
   va_list args;
 
   va_start(args, msgf);
-  vsprintf(str_buf, msgf, args);
+  vsnprintf(str_buf, sizeof(str_buf), msgf, args);
   va_end(args);
 
   mexPrintf("%s", str_buf);
diff --git a/common/ui_txt.c b/common/ui_txt.c
index 1ba6472..358eed9 100644
--- a/common/ui_txt.c
+++ b/common/ui_txt.c
@@ -46,7 +46,7 @@ void msg_printf(
    va_list args;
 
    va_start(args, msgf);
-   vsprintf(str_buf, msgf, args);
+   vsnprintf(str_buf, sizeof(str_buf), msgf, args);
    va_end(args);
 
    printf("%s", str_buf);
-- 
2.43.0


From f639c7d46ecaaaf36238e6ceed81a8e3a26ccee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 45/47] fix: never grow the number of trials to less than
 SNR_val_trn requires

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 5073125..c88e6ca 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -343,7 +343,7 @@ static void update_trn_req(
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req_init[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From abf2ac53c5d12f0b1f641a30b66969666bc3c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:55 +0000
Subject: [PATCH 46/47] fix: RM(2,9) code file states dimension 45 instead of
 46

---
 work/codes/rm/rm0209.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/work/codes/rm/rm0209.txt b/work/codes/rm/rm0209.txt
index 2aba862..19bdb83 100644
--- a/work/codes/rm/rm0209.txt
+++ b/work/codes/rm/rm0209.txt
@@ -1,7 +1,7 @@
 % code_name "RM(2, 9)"
 
 code_n 512
-code_k 45
+code_k 46
 
 RM_m 9
 RM_r 2
-- 
2.43.0


From d95f5b990aa4a2e56e9ae2b63cad4fd37b9245ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 47/47] fix: save SNR values that need more than 15 digits so
 that they are found again

---
 simulators/sim_bg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c88e6ca..b5408d8 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -555,6 +555,7 @@ merge_res(
 ) {
   FILE *fp;
   char tmpfn[FN_LEN_MAX]; // Temporary file name.
+  char snr_str[50];
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -678,7 +679,12 @@ merge_res(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) {
+    // It must read back as the same value.
+    sprintf(snr_str, "%.15g", snr_db[n]);
+    if (atof(snr_str) != snr_db[n]) sprintf(snr_str, "%.17g", snr_db[n]);
+    fprintf(fp, "%s ", snr_str);
+  }
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0

