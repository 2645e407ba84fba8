From 18097794e57357b571bc15bd98ecb1971f80bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:11 +0000
Subject: [PATCH 1/6] fix: coco_suite_get_instance_from_instance_index returns
 the instance, not a function number

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From 55c2a1001d9600bbc801fe4259b1a392f39a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:11 +0000
Subject: [PATCH 2/6] fix: coco_suite_decode_problem_index sets the indices
 (not its pointers) to 0 when the problem index is too large

---
 src/coco_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..4497f25 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -982,9 +982,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From 4c1a6400089aa8e5889c38808e9898f8bd08c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:21 +0000
Subject: [PATCH 3/6] fix: coco_suite honours only the first of year/instances
 and of dimensions/dimension_indices also when it starts the string

---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 4497f25..a5fdc2a 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From 4a687ea4e76b0a5918acd187f07241fd52fc7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 4/6] fix: round negative numbers to the nearest integer in
 coco_double_to_int

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..45aa944 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -978,7 +978,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From 29dc78b6ec8fb849beb140cf15fbc07e0f71153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 5/6] fix: initialise the last logged evaluations of the bbob
 logger

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From 34c0a6487867da0cb728cf1c6093f6046a25d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 6/6] fix: do not leak the nadir point in
 coco_problem_duplicate

---
 src/coco_problem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..2a709f5 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,8 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+    if (problem->nadir_value == NULL)
+      problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0

