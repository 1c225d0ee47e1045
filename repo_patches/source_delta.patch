From 5f2b9c8416ee116c401755382b7e36ba3e5b95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 01/51] fix: coco_suite_get_instance_from_instance_index()
 returned a function number

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From f58e9628ccd186d61aeae16e3c20491492654ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 02/51] fix: the second of two exclusive suite options was not
 ignored when the first started the string

The position of the first key is 0, which the test '> 0' took for 'not given'.
---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..c2453ae 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From f3d527475bf735592e26c49f07342acaa8f7644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 03/51] fix: coco_suite_get_problem() returned the first
 problem for an index out of range

---
 src/coco_suite.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index c2453ae..95a6bb1 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -455,12 +455,18 @@ void coco_suite_free(coco_suite_t *suite) {
  * @param problem_index The index of the problem to be returned.
  *
  * @return The problem of the suite defined by problem_index (NULL if this
- * problem has been filtered out from the suite).
+ * problem has been filtered out from the suite or does not exist).
  */
 coco_problem_t *coco_suite_get_problem(coco_suite_t *suite,
                                        const size_t problem_index) {
 
   size_t function_idx = 0, instance_idx = 0, dimension_idx = 0;
+
+  if (problem_index >= coco_suite_get_number_of_problems(suite)) {
+    coco_warning("coco_suite_get_problem(): problem_index too large");
+    return NULL;
+  }
+
   coco_suite_decode_problem_index(suite, problem_index, &function_idx,
                                   &dimension_idx, &instance_idx);
 
@@ -982,9 +988,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From d07fe3293920787f7422256f5e2030afcf6bd5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 04/51] fix: a second iteration over a suite skipped its first
 problem

---
 src/coco_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 95a6bb1..ee1c080 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -908,6 +908,7 @@ coco_problem_t *coco_suite_get_next_problem(coco_suite_t *suite, coco_observer_t
    * current_function_idx and current_dimension_idx. */
   if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&
       !coco_suite_is_next_dimension_found(suite)) {
+    suite->current_instance_idx = -1; /* The next call starts over with the first problem */
     coco_info_partial("done\n");
     return NULL;
   }
-- 
2.43.0


From a61bb4f263a29cfdf837cc17b798787237718732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 05/51] fix: long suite instance and option strings overflowed
 fixed-size buffers

---
 src/coco_suite.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index ee1c080..7d73005 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -538,7 +538,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_allocate_string(strlen(suite_instance) + 1);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -752,7 +752,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -764,7 +764,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -790,7 +790,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -804,7 +804,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
-- 
2.43.0


From 45f2ff9279c67df0209871e1cbcca8b8b6467efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 06/51] fix: coco_suite() leaked the suite when it returned
 NULL

---
 src/coco_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 7d73005..c5d0e39 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -812,6 +812,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       while (*ptr != '\0') {
         if ((*ptr != ',') && !isdigit((unsigned char)*ptr)) {
           coco_warning("coco_suite(): 'dimensions' suite option ignored because of disallowed characters");
+          coco_free_memory(option_string);
+          coco_suite_free(suite);
           return NULL;
         } else
           ptr++;
@@ -860,6 +862,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
   if ((number_of_active_dimensions < 1) || (suite->number_of_dimensions < 1) || (suite->number_of_functions < 1) ||
       (suite->number_of_instances < 1)) {
     coco_warning("coco_suite(): the suite does not contain at least one dimension, function and instance");
+    coco_suite_free(suite);
     return NULL;
   }
 
-- 
2.43.0


From e6ac8cfb7ad5c578e9df3369d3df75eb1aa14c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:43 +0000
Subject: [PATCH 07/51] fix: coco_option_keys() used the user's options as a
 format string

Options with a '%' were misread, options of more than 219 characters were fatal and
options that consist of quotation marks only dereferenced NULL.
---
 src/coco_utilities.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..198a3eb 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
@@ -675,6 +675,10 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   }
   coco_free_memory(keys);
 
+  /* Nothing but quotation marks in the option string */
+  if (cleaned_option_string == NULL)
+    return NULL;
+
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
 
-- 
2.43.0


From 6b1c5d73acb69cc78a52955a4c15fb0d09f89ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 08/51] fix: coco_vstrdupf() overflowed its static buffer on
 long strings

---
 src/coco_string.c | 45 +++++++++++++--------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..091e5dc 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -29,44 +29,25 @@ static char *coco_strdup(const char *string) {
   return duplicate;
 }
 
-/**
- * @brief The length of the buffer used in the coco_vstrdupf function.
- *
- * @note This should be handled differently!
- */
-#define COCO_VSTRDUPF_BUFLEN 444
-
 /**
  * @brief Formatted string duplication, with va_list arguments.
  */
 static char *coco_vstrdupf(const char *str, va_list args) {
-  static char buf[COCO_VSTRDUPF_BUFLEN];
-  long written;
-  /* apparently args can only be used once, therefore
-   * len = vsnprintf(NULL, 0, str, args) to find out the
-   * length does not work. Therefore we use a buffer
-   * which limits the max length. Longer strings should
-   * never appear anyway, so this is rather a non-issue. */
-
-#if 0
-  written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
-  if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
-  if (written > COCO_VSTRDUPF_BUFLEN - 3)
-    coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
-  return coco_strdup(buf);
+  char *result;
+  int length;
+  va_list args_copy;
+
+  /* args can be used only once */
+  va_copy(args_copy, args);
+  length = vsnprintf(NULL, 0, str, args_copy);
+  va_end(args_copy);
+  if (length < 0)
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+  result = (char *)coco_allocate_memory((size_t)length + 1);
+  vsnprintf(result, (size_t)length + 1, str, args);
+  return result;
 }
 
-#undef COCO_VSTRDUPF_BUFLEN
-
 /**
  * Optional arguments are used like in sprintf.
  */
-- 
2.43.0


From d9646a93c7ca2422f0a8af6319d6419f64f6d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 09/51] fix: coco_options_read_string() overflowed on long
 values and claimed success on missing ones

For a key without value at the end of the options sscanf() returns EOF, which the callers took for
a successful assignment and went on with an uninitialised string.
---
 src/coco_observer.c  |  2 +-
 src/coco_utilities.c | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..2d65310 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -626,7 +626,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
     strcpy(algorithm_name, "ALG");
   }
 
-  if (coco_options_read_string(observer_options, "algorithm_info", algorithm_info) == 0) {
+  if (coco_options_read_long_string(observer_options, "algorithm_info", algorithm_info, 5 * COCO_PATH_MAX - 1) == 0) {
     strcpy(algorithm_info, "");
   }
 
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 198a3eb..bfc1816 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -827,12 +827,13 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  * - name and value need to be separated by a colon (spaces are optional)
  * - the value corresponding to the given name needs to be a string - either a single word or multiple words
  * in double quotes
+ * - the value cannot be longer than max_length characters
  *
  * @return The number of successful assignments.
  */
-static int coco_options_read_string(const char *options, const char *name, char *pointer) {
+static int coco_options_read_long_string(const char *options, const char *name, char *pointer, const long max_length) {
 
-  long i1, i2;
+  long i1, i2, length;
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -850,11 +851,35 @@ static int coco_options_read_string(const char *options, const char *name, char
     return 0;
   }
 
+  length = 0;
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
-  } else
-    return sscanf(&options[i2], "%s", pointer);
+    i2++;
+    while ((options[i2 + length] != '\0') && (options[i2 + length] != '\"'))
+      length++;
+  } else {
+    while ((options[i2 + length] != '\0') && !isspace((unsigned char)options[i2 + length]))
+      length++;
+  }
+
+  if (length == 0)
+    return 0;
+
+  if (length > max_length)
+    coco_error("coco_options_read_string(): the value of '%s' has more than %ld characters", name, max_length);
+
+  memcpy(pointer, &options[i2], (size_t)length);
+  pointer[length] = '\0';
+  return 1;
+}
+
+/**
+ * @brief Reads a string of at most COCO_PATH_MAX characters from options, see coco_options_read_long_string().
+ *
+ * @return The number of successful assignments.
+ */
+static int coco_options_read_string(const char *options, const char *name, char *pointer) {
+  return coco_options_read_long_string(options, name, pointer, COCO_PATH_MAX);
 }
 
 /**
-- 
2.43.0


From 2cfd669a589252e0e76893075f76ac6e8c017bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 10/51] fix: coco_observer(NULL, ...) dereferenced NULL instead
 of returning NULL as documented

---
 src/coco_observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 2d65310..7ba2033 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -593,7 +593,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
                               "log_discrete_as_int"};
   additional_option_keys = NULL; /* To be set by the chosen observer */
 
-  if (0 == strcmp(observer_name, "no_observer")) {
+  if ((observer_name == NULL) || (0 == strcmp(observer_name, "no_observer"))) {
     return NULL;
   } else if (strlen(observer_name) == 0) {
     coco_warning("coco_observer(): An empty observer_name has no effect. To "
-- 
2.43.0


From 0c374d7354600e23ca953ed391ce30601cc2786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:28 +0000
Subject: [PATCH 11/51] fix: an unreadable base_evaluation_triggers option
 dereferenced NULL

---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 7ba2033..661f7d8 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -328,6 +328,11 @@ static coco_observer_evaluations_t *coco_observer_evaluations(const char *base_e
   /* Second trigger */
   evaluations->base_evaluations =
       coco_string_parse_ranges(base_evaluations, 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  if (evaluations->base_evaluations == NULL) {
+    coco_warning("coco_observer_evaluations(): Unsuitable base evaluations '%s' ignored", base_evaluations);
+    evaluations->base_evaluations =
+        coco_string_parse_ranges("1,2,5", 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  }
   evaluations->dimension = dimension;
   evaluations->base_count =
       coco_count_numbers(evaluations->base_evaluations, COCO_MAX_EVALS_TO_LOG, "base_evaluations");
-- 
2.43.0


From 1cf6712b09a22df27579ec9b504941b406bbbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:01 +0000
Subject: [PATCH 12/51] fix: negative numbers of triggers were taken for huge
 ones instead of being ignored

---
 src/coco_observer.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 661f7d8..5eee412 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -573,8 +573,8 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   char *path, *outer_folder, *result_folder, *algorithm_name, *algorithm_info;
   int precision_x, precision_f, precision_g, log_discrete_as_int;
 
-  size_t number_target_triggers;
-  size_t number_evaluation_triggers;
+  int number_target_triggers;
+  int number_evaluation_triggers;
   double log_target_precision, lin_target_precision;
   char *base_evaluation_triggers;
 
@@ -636,10 +636,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   number_target_triggers = 100;
-  if (coco_options_read_size_t(observer_options, "number_target_triggers", &number_target_triggers) != 0) {
+  if (coco_options_read_int(observer_options, "number_target_triggers", &number_target_triggers) != 0) {
     if (number_target_triggers < 0) {
       coco_warning("coco_observer(): Unsuitable observer option value "
-                   "(number_target_triggers: %lu) ignored",
+                   "(number_target_triggers: %d) ignored",
                    number_target_triggers);
       number_target_triggers = 100;
     }
@@ -666,10 +666,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   number_evaluation_triggers = 20;
-  if (coco_options_read_size_t(observer_options, "number_evaluation_triggers", &number_evaluation_triggers) != 0) {
+  if (coco_options_read_int(observer_options, "number_evaluation_triggers", &number_evaluation_triggers) != 0) {
     if (number_evaluation_triggers < 4) {
       coco_warning("coco_observer(): Unsuitable observer option value "
-                   "(number_evaluation_triggers: %lu) ignored",
+                   "(number_evaluation_triggers: %d) ignored",
                    number_evaluation_triggers);
       number_evaluation_triggers = 20;
     }
@@ -721,8 +721,8 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
   }
 
   observer =
-      coco_observer_allocate(path, observer_name, algorithm_name, algorithm_info, number_target_triggers,
-                             log_target_precision, lin_target_precision, number_evaluation_triggers,
+      coco_observer_allocate(path, observer_name, algorithm_name, algorithm_info, (size_t)number_target_triggers,
+                             log_target_precision, lin_target_precision, (size_t)number_evaluation_triggers,
                              base_evaluation_triggers, precision_x, precision_f, precision_g, log_discrete_as_int);
 
   coco_free_memory(path);
-- 
2.43.0


From cfad5088f8eeffd51a28f33220f70b5e328e35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:18 +0000
Subject: [PATCH 13/51] fix: the bbob logger read uninitialised memory for a
 problem with recommendations but no evaluations

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From ed3f7c8df05556c769e3346cc0ec425625ce94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:18 +0000
Subject: [PATCH 14/51] fix: recommendations on noisy problems were logged with
 the noisy instead of the noise-free value

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..574b89b 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -490,6 +490,8 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   coco_evaluate_function(inner_problem, x, y);
 
   y_logged = y[0];
+  if (inner_problem->is_noisy == 1)
+    y_logged = inner_problem->last_noise_free_values[0];
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
   else if (coco_is_inf(y_logged))
-- 
2.43.0


From cd5ca4ba0421b5f762c10e06b7fd2449b2127ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:39 +0000
Subject: [PATCH 15/51] fix: evaluating a problem for the first time after its
 bbob observer was freed dereferenced NULL

---
 src/logger_bbob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 574b89b..78ceee1 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -305,7 +305,8 @@ static void logger_bbob_initialize(logger_bbob_data_t *logger, int is_opt_known)
     str_pointer = "Fopt";
 
   assert(logger != NULL);
-  assert(logger->observer != NULL);
+  if (logger->observer == NULL)
+    coco_error("logger_bbob_initialize(): The observer was freed before the first evaluation of the problem");
   observer_data = ((observer_bbob_data_t *)((coco_observer_t *)logger->observer)->data);
 
   function_string = coco_strdupf("%lu", (unsigned long)logger->function);
-- 
2.43.0


From 9da896ef8ab65f50f3026c8af5a04036297d4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:45 +0000
Subject: [PATCH 16/51] fix: evaluating constrained problems near the optimum
 aborted in an assertion with an absolute tolerance

The sanity check 'no feasible value is below the best value' used the absolute
tolerance 1e-13, which is below the rounding error for best values of the order
of 1e6 (e.g. bbob-constrained f20, instance 2, dimension 5). Make it relative.
---
 src/coco_problem.c               | 2 +-
 src/coco_utilities.c             | 9 +++++++++
 src/logger_bbob.c                | 4 ++--
 src/transform_obj_scale.c        | 4 ++--
 src/transform_obj_shift.c        | 4 ++--
 src/transform_vars_affine.c      | 4 ++--
 src/transform_vars_asymmetric.c  | 4 ++--
 src/transform_vars_enforce_box.c | 4 ++--
 src/transform_vars_oscillate.c   | 4 ++--
 src/transform_vars_shift.c       | 4 ++--
 10 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..2308449 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -908,7 +908,7 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   }
 }
 
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index bfc1816..1d90d4b 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -966,6 +966,15 @@ static double coco_double_round_up_with_precision(const double number, const dou
   }
 }
 
+/**
+ * @brief Returns 1 if number is not smaller than bound up to rounding errors (relative to the magnitude of
+ * bound), 0 otherwise.
+ */
+static int coco_double_at_least(const double number, const double bound) {
+  const double precision = 1e-13;
+  return number + precision * (fabs(bound) > 1 ? fabs(bound) : 1) >= bound;
+}
+
 /**
  * @brief Returns the maximum of a and b.
  */
diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 78ceee1..565f5dd 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -401,7 +401,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(coco_double_at_least(y_logged, logger->optimal_value));
   }
 
   /* Evaluate the constraints */
@@ -502,7 +502,7 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(coco_double_at_least(y_logged, logger->optimal_value));
   }
 
   /* Evaluate the constraints */
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index 9b76e76..65f390c 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,9 +40,9 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index d2c8e15..cfe76c3 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,9 +40,9 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index c9b72c4..7a65a51 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,9 +57,9 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..e0d1b0e 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,9 +99,9 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 9768598..611f160 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,10 +39,10 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
     }
   } else {
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
   }
 }
 
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 39f33ef..d2f2dfe 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,9 +100,9 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..c8a6c0f 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,9 +45,9 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(coco_double_at_least(y[0], problem->best_value[0]));
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(coco_double_at_least(y[0], problem->best_value[0]));
 }
 
 /**
-- 
2.43.0


From 68305bc2aa3cdfb4cb970999c4601fb8b559034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 17/51] fix: coco_double_to_int() rounded negative numbers
 towards zero instead of to the nearest integer

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 1d90d4b..cf7157a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -1016,7 +1016,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)floor(number + 0.5);
   }
 }
 
-- 
2.43.0


From 33df149968d775e7db61973d49f2dfcabb47f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 18/51] fix: coco_problem_duplicate() leaked the nadir vector
 of multi-objective problems

---
 src/coco_problem.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 2308449..ff39779 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,8 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+    if (problem->nadir_value == NULL)
+      problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From dea82eba138eefcace66a0d61a652133d8eb42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:29 +0000
Subject: [PATCH 19/51] fix: the last suffix -9999 of unique file and folder
 names was never tried

---
 src/coco_utilities.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index cf7157a..d0207fb 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -261,7 +261,7 @@ static void coco_create_unique_filename(const char *path, char **file_name, cons
   if (!coco_file_exists(file_path))
     return;
 
-  while (counter < 9999) {
+  while (counter <= 9999) {
 
     new_file_name = coco_strdupf("%s-%04d", *file_name, counter);
 
@@ -305,7 +305,7 @@ static void coco_create_unique_directory(char **path) {
     return;
   }
 
-  while (counter < 9999) {
+  while (counter <= 9999) {
 
     new_path = coco_strdupf("%s-%04d", *path, counter);
 
-- 
2.43.0


From 848b0d410c29383fc92edcc8d454c82fe388af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 20/51] fix: a result folder name with a trailing slash put
 later results inside the earlier result folder

---
 src/coco_utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index d0207fb..e0737e0 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -299,6 +299,11 @@ static void coco_create_unique_directory(char **path) {
 
   int counter = 1;
   char *new_path;
+  size_t len = strlen(*path);
+
+  /* Remove possible trailing separators, the number is appended to the name of the directory */
+  while ((len > 1) && ((*path)[len - 1] == coco_path_separator[0]))
+    (*path)[--len] = 0;
 
   if (coco_create_directory(*path) == 0) {
     /* Directory created */
-- 
2.43.0


From 3e647067a4977e1274474628072fe7ab626ec2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:31 +0000
Subject: [PATCH 21/51] fix: recommending a solution after the bi-objective
 observer was freed dereferenced NULL

---
 src/logger_biobj.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..06e59fd 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -809,7 +809,8 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
   double *constraints = NULL;
 
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
-  observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
+  /* The observer might have been freed before the problem */
+  observer_data = logger->observer == NULL ? NULL : (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
   /* Evaluate the objectives */
@@ -825,7 +826,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
 
   /* If this is the first call to the recommend function (on any problem), warn about the large 
   resulting files */
-  if (observer_data->large_mdat_file_warning == 0) {
+  if ((observer_data != NULL) && (observer_data->large_mdat_file_warning == 0)) {
     coco_warning("Using the logger_biobj_recommend function may result in the creation of large "
                  "mdat files since every recommended solution is logged");
     observer_data->large_mdat_file_warning = 1;
-- 
2.43.0


From 8fd9b4dad71ddfd9fafb5554ae2c3c242d762514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:27 +0000
Subject: [PATCH 22/51] fix: target precision options of NaN or not above 1e-12
 aborted the first evaluation

---
 src/coco_observer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 5eee412..586672b 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -647,7 +647,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   log_target_precision = 1e-8;
   if (coco_options_read_double(observer_options, "log_target_precision", &log_target_precision) != 0) {
-    if (log_target_precision <= 0) {
+    if (!(log_target_precision > 0)) {
       coco_warning("coco_observer(): Unsuitable observer option value "
                    "(log_target_precision: %f) ignored",
                    log_target_precision);
@@ -657,7 +657,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   lin_target_precision = 1e-5;
   if (coco_options_read_double(observer_options, "lin_target_precision", &lin_target_precision) != 0) {
-    if (lin_target_precision <= 0) {
+    if (!(lin_target_precision > 1e-12)) {
       coco_warning("coco_observer(): Unsuitable observer option value "
                    "(lin_target_precision: %f) ignored",
                    lin_target_precision);
-- 
2.43.0


From ff6089760d708656faec5822617fb8f6fdd629f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:11 +0000
Subject: [PATCH 23/51] fix: a restart signal for a problem under another
 observer, or not observed, wrote into foreign memory

---
 src/coco_observer.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 586672b..7411eb0 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -893,16 +893,33 @@ const char *coco_observer_get_result_folder(const coco_observer_t *observer) {
  */
 void coco_observer_signal_restart(coco_observer_t *observer, coco_problem_t *problem) {
 
+  size_t name_length;
+
   if ((observer == NULL) || (observer->is_active == 0)) {
     coco_warning("coco_observer_signal_restart(): The problem is not being observed. %s",
                  observer == NULL ? "(observer == NULL)" : "(observer not active)");
     return;
   }
 
-  if (observer->restart_function == NULL)
+  if (observer->restart_function == NULL) {
     coco_info("coco_observer_signal_restart(): Restart signaling not supported "
               "for observer %s",
               observer->observer_name);
-  else
-    observer->restart_function(problem);
+    return;
+  }
+
+  name_length = strlen(observer->observer_name);
+
+  /* Find the problem wrapped by this observer (other observers can be wrapped around it). As in
+   * coco_problem_remove_observer(), the name of an observed problem is "observer_name(problem_name)". */
+  while ((strncmp(problem->problem_name, observer->observer_name, name_length) != 0) ||
+         (problem->problem_name[name_length] != '(')) {
+    if (problem->problem_free_function != coco_problem_transformed_free) { /* No further layers */
+      coco_warning("coco_observer_signal_restart(): The problem is not being observed by %s",
+                   observer->observer_name);
+      return;
+    }
+    problem = coco_problem_transformed_get_inner_problem(problem);
+  }
+  observer->restart_function(problem);
 }
-- 
2.43.0


From 62eb2daece6eece4a1d52a3be06722ec0cc27c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:11 +0000
Subject: [PATCH 24/51] fix: bi-objective problems with new instances leaked
 the instance table

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..88d6b3f 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      *new_inst_data = NULL;
     }
   }
 
-- 
2.43.0


From 2c5871e7c5dbc7b2dff0454fc55e857a1f8a7206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 25/51] fix: coco_archive() of a single-objective suite read
 beyond the optimal value

---
 src/coco_archive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_archive.c b/src/coco_archive.c
index 6d156be..07a57b3 100644
--- a/src/coco_archive.c
+++ b/src/coco_archive.c
@@ -140,6 +140,11 @@ coco_archive_t *coco_archive(const char *suite_name, const size_t function, cons
     return NULL; /* Never reached */
   }
 
+  if (coco_problem_get_number_of_objectives(problem) != 2) {
+    coco_error("coco_archive(): the problems of suite '%s' are not bi-objective", suite_name);
+    return NULL; /* Never reached */
+  }
+
   /* Store the ideal and nadir points */
   archive->ideal = coco_duplicate_vector(problem->best_value, 2);
   archive->nadir = coco_duplicate_vector(problem->nadir_value, 2);
-- 
2.43.0


From 1297a316490d587e31d4c4fd5ebd0b12cb5db099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:55 +0000
Subject: [PATCH 26/51] fix: retrieving the optimum through an observer did not
 taint the observed problem itself

---
 src/coco_problem.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index ff39779..de12838 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -623,6 +623,9 @@ static size_t coco_problem_get_suite_dep_instance(const coco_problem_t *problem)
 }
 /**@}*/
 
+static coco_problem_t *coco_problem_transformed_get_inner_problem(const coco_problem_t *problem);
+static void coco_problem_transformed_free(coco_problem_t *problem);
+
 /**
  * Copies problem->best_parameter into best_parameter and returns 1 if not null,
  * otherwise returns 0. Only works for single objective problems.
@@ -634,14 +637,20 @@ static size_t coco_problem_get_suite_dep_instance(const coco_problem_t *problem)
  */
 int coco_problem_get_best_parameter(coco_problem_t *problem, double *best_parameter) {
   size_t i;
+  coco_problem_t *inner_problem;
   assert(problem != NULL);
 
   if (NULL == problem->best_parameter || problem->number_of_objectives != 1) {
     return 0;
   }
 
-  // No more benchmarking on this problem!
+  // No more benchmarking on this problem (also not on the one inside of observers)!
   problem->is_tainted = 1;
+  inner_problem = problem;
+  while (inner_problem->problem_free_function == coco_problem_transformed_free) {
+    inner_problem = coco_problem_transformed_get_inner_problem(inner_problem);
+    inner_problem->is_tainted = 1;
+  }
 
   for (i = 0; i < problem->number_of_variables; ++i) {
     best_parameter[i] = problem->best_parameter[i];
-- 
2.43.0


From 8d09d31314ccddd63526cc0684bc4ee5b171f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:58 +0000
Subject: [PATCH 27/51] fix: an option without a value at the end of the
 options string left some observer settings uninitialised

---
 src/coco_utilities.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index e0737e0..73c9ef3 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -783,7 +783,8 @@ static int coco_options_read(const char *options, const char *name, const char *
     return 0;
   }
 
-  return sscanf(&options[i2], format, pointer);
+  /* A missing value (EOF) is no assignment */
+  return sscanf(&options[i2], format, pointer) == 1;
 }
 
 /**
-- 
2.43.0


From e9a0f7e13e5d79216ba0a4fdb621f65b005ff0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:53 +0000
Subject: [PATCH 28/51] fix: the toy logger wrote to a closed file once its
 observer was freed

---
 src/logger_toy.c   | 14 ++++++++++++--
 src/observer_toy.c | 18 ++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/logger_toy.c b/src/logger_toy.c
index 7b5c479..6619c7c 100644
--- a/src/logger_toy.c
+++ b/src/logger_toy.c
@@ -20,7 +20,7 @@
  * @brief The toy logger data type.
  */
 typedef struct {
-  FILE *log_file;                       /**< @brief Pointer to the file already prepared for logging. */
+  FILE *log_file;                       /**< @brief Pointer to the file opened for logging. */
   coco_observer_log_targets_t *targets; /**< @brief Triggers based on logarithmic target values. */
   size_t number_of_evaluations;         /**< @brief The number of evaluations performed so far. */
   int precision_x;                      /**< @brief Precision for outputting decision values. */
@@ -41,6 +41,11 @@ static void logger_toy_free(void *stuff) {
     coco_free_memory(logger->targets);
     logger->targets = NULL;
   }
+
+  if (logger->log_file != NULL) {
+    fclose(logger->log_file);
+    logger->log_file = NULL;
+  }
 }
 
 /**
@@ -86,7 +91,11 @@ static coco_problem_t *logger_toy(coco_observer_t *observer, coco_problem_t *inn
   logger_data = (logger_toy_data_t *)coco_allocate_memory(sizeof(*logger_data));
   logger_data->number_of_evaluations = 0;
   logger_data->targets = coco_observer_log_targets(observer->number_target_triggers, observer->log_target_precision);
-  logger_data->log_file = ((observer_toy_data_t *)observer->data)->log_file;
+  logger_data->log_file = fopen(((observer_toy_data_t *)observer->data)->file_name, "a");
+  if (logger_data->log_file == NULL) {
+    coco_error("logger_toy(): failed to open file %s.", ((observer_toy_data_t *)observer->data)->file_name);
+    return NULL; /* Never reached */
+  }
   logger_data->precision_x = observer->precision_x;
   logger_data->precision_f = observer->precision_f;
 
@@ -101,6 +110,7 @@ static coco_problem_t *logger_toy(coco_observer_t *observer, coco_problem_t *inn
           coco_problem_get_name(inner_problem), coco_version);
   fprintf(logger_data->log_file, "%% evaluation number | function value | target hit | %lu variables \n",
           (unsigned long)inner_problem->number_of_variables);
+  fflush(logger_data->log_file);
 
   return problem;
 }
diff --git a/src/observer_toy.c b/src/observer_toy.c
index 0627455..d080ff8 100644
--- a/src/observer_toy.c
+++ b/src/observer_toy.c
@@ -13,7 +13,7 @@ static void logger_toy_free(void *logger);
  * @brief The toy observer data type.
  */
 typedef struct {
-  FILE *log_file; /**< @brief File used for logging. */
+  char *file_name; /**< @brief Name of the file used for logging. */
 } observer_toy_data_t;
 
 /**
@@ -26,9 +26,9 @@ static void observer_toy_free(void *stuff) {
   assert(stuff != NULL);
   data = (observer_toy_data_t *)stuff;
 
-  if (data->log_file != NULL) {
-    fclose(data->log_file);
-    data->log_file = NULL;
+  if (data->file_name != NULL) {
+    coco_free_memory(data->file_name);
+    data->file_name = NULL;
   }
 }
 
@@ -43,6 +43,7 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
   observer_toy_data_t *observer_data;
   char *string_value;
   char *file_name;
+  FILE *log_file;
 
   /* Sets the valid keys for toy observer options
    * IMPORTANT: This list should be up-to-date with the code and the documentation */
@@ -57,20 +58,21 @@ static void observer_toy(coco_observer_t *observer, const char *options, coco_op
     strcpy(string_value, "first_hitting_times.dat");
   }
 
-  /* Open log_file */
+  /* Create log_file (each logger opens it on its own, since it can outlive the observer) */
   file_name = coco_allocate_string(COCO_PATH_MAX + 1);
   memcpy(file_name, observer->result_folder, strlen(observer->result_folder) + 1);
   coco_create_directory(file_name);
   coco_join_path(file_name, COCO_PATH_MAX, string_value, NULL);
 
-  observer_data->log_file = fopen(file_name, "a");
-  if (observer_data->log_file == NULL) {
+  log_file = fopen(file_name, "a");
+  if (log_file == NULL) {
     coco_error("observer_toy(): failed to open file %s.", file_name);
     return; /* Never reached */
   }
+  fclose(log_file);
+  observer_data->file_name = file_name;
 
   coco_free_memory(string_value);
-  coco_free_memory(file_name);
 
   observer->logger_allocate_function = logger_toy;
   observer->logger_free_function = logger_toy_free;
-- 
2.43.0


From e1c688b42cde5891b40aff90f9ccc16d7a5e8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:24 +0000
Subject: [PATCH 29/51] fix: option keys were also found inside other words,
 values and quoted texts of the options string

---
 src/coco_utilities.c | 86 ++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 73c9ef3..0c8b50d 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -754,6 +754,41 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
   return string;
 }
 
+/**
+ * @brief Returns the index of the value of the option with the given name (i.e. the index of the first non-space
+ * character after the colon that follows the name) and -1 if there is no such option.
+ *
+ * The name needs to be a word of its own, text within double quotes is skipped.
+ */
+static long coco_options_find(const char *options, const char *name) {
+
+  const size_t length = strlen(name);
+  size_t i, j;
+  int quoted = 0;
+
+  if (!options)
+    return -1;
+
+  for (i = 0; options[i] != '\0'; i++) {
+    if (options[i] == '\"')
+      quoted = !quoted;
+    if (quoted || (strncmp(&options[i], name, length) != 0))
+      continue;
+    if ((i > 0) && (isalpha((unsigned char)options[i - 1]) || (options[i - 1] == '_')))
+      continue;
+    j = i + length;
+    while (isspace((unsigned char)options[j]))
+      j++;
+    if (options[j] != ':')
+      continue;
+    j++;
+    while (isspace((unsigned char)options[j]))
+      j++;
+    return (long)j;
+  }
+  return -1;
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
@@ -765,26 +800,13 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
  */
 static int coco_options_read(const char *options, const char *name, const char *format, void *pointer) {
 
-  long i1, i2;
-
-  if ((!options) || (strlen(options) == 0))
-    return 0;
+  const long i = coco_options_find(options, name);
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  if (i < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  /* Remove trailing whitespaces */
-  while (isspace((unsigned char)options[i2]))
-    i2++;
-
-  if (i2 <= i1) {
-    return 0;
-  }
 
   /* A missing value (EOF) is no assignment */
-  return sscanf(&options[i2], format, pointer) == 1;
+  return sscanf(&options[i], format, pointer) == 1;
 }
 
 /**
@@ -839,23 +861,11 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  */
 static int coco_options_read_long_string(const char *options, const char *name, char *pointer, const long max_length) {
 
-  long i1, i2, length;
-
-  if ((!options) || (strlen(options) == 0))
-    return 0;
+  long i2, length;
 
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  /* Remove trailing white spaces */
-  while (isspace((unsigned char)options[i2]))
-    i2++;
-
-  if (i2 <= i1) {
-    return 0;
-  }
 
   length = 0;
   if (options[i2] == '\"') {
@@ -902,20 +912,12 @@ static int coco_options_read_string(const char *options, const char *name, char
  */
 static int coco_options_read_values(const char *options, const char *name, char *pointer) {
 
-  long i1, i2;
+  long i2;
   int i;
 
-  if ((!options) || (strlen(options) == 0))
-    return 0;
-
-  i1 = coco_strfind(options, name);
-  if (i1 < 0)
+  i2 = coco_options_find(options, name);
+  if (i2 < 0)
     return 0;
-  i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-
-  if (i2 <= i1) {
-    return 0;
-  }
 
   i = 0;
   while (!isalpha((unsigned char)options[i2 + i]) && (options[i2 + i] != '\0')) {
-- 
2.43.0


From edb863ddb2495c0067cd55afa7acdbea8c7b35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:22 +0000
Subject: [PATCH 30/51] fix: for some seeds a uniform random number was exactly
 one

---
 src/coco_random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_random.c b/src/coco_random.c
index a6be159..42e0582 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -6,6 +6,7 @@
  * eventually be fixed.
  */
 
+#include <float.h>
 #include <math.h>
 
 #include "coco.h"
@@ -55,6 +56,8 @@ coco_random_state_t *coco_random_new(uint32_t seed) {
   for (i = 0; i < COCO_LONG_LAG; ++i) {
     /* Uses uint64_t to silence the compiler ("shift count negative or too big, undefined behavior" warning) */
     state->x[i] = ((double)seed) / (double)(((uint64_t)1UL << 32) - 1);
+    if (state->x[i] >= 1.0)
+      state->x[i] = 1.0 - 0.5 * DBL_EPSILON; /* uniform values are smaller than one */
     /* Advance seed based on simple RNG from TAOCP */
     seed = (uint32_t)1812433253UL * (seed ^ (seed >> 30)) + ((uint32_t)i + 1);
   }
-- 
2.43.0


From 6c975ce445174fe2ae6f6f324f7d4fda0abb6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:22 +0000
Subject: [PATCH 31/51] fix: coco_remove_directory followed symbolic links out
 of the tree and leaked a directory handle

---
 src/coco_platform.h  |  3 +++
 src/coco_utilities.c | 24 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/coco_platform.h b/src/coco_platform.h
index 3d3d5f6..8b83532 100644
--- a/src/coco_platform.h
+++ b/src/coco_platform.h
@@ -82,6 +82,9 @@ extern "C" {
 int rmdir(const char *pathname);
 int unlink(const char *file_name);
 int mkdir(const char *pathname, mode_t mode);
+#if defined(HAVE_STAT)
+int lstat(const char *pathname, struct stat *buf);
+#endif
 /** @endcond */
 #endif
 
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 0c8b50d..43e5046 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -141,6 +141,21 @@ static int coco_directory_exists(const char *path) {
   return res;
 }
 
+#if !_MSC_VER
+/**
+ * @brief Checks if the given path is a symbolic link.
+ */
+static int coco_is_symbolic_link(const char *path) {
+#if defined(HAVE_STAT)
+  struct stat buf;
+  return !lstat(path, &buf) && S_ISLNK(buf.st_mode);
+#else
+  (void) path; /* To silence the compiler */
+  return 0;
+#endif
+}
+#endif
+
 /**
  * @brief Checks if the given file exists.
  *
@@ -388,15 +403,16 @@ int coco_remove_directory(const char *path) {
 
   return r;
 #else
-  DIR *d = opendir(path);
+  DIR *d;
   int r = -1;
   int r2 = -1;
   char *buf;
 
   /* Nothing to do if the folder does not exist */
-  if (!coco_directory_exists(path))
+  if (!coco_directory_exists(path) || coco_is_symbolic_link(path))
     return 0;
 
+  d = opendir(path);
   if (d) {
     struct dirent *p;
 
@@ -411,11 +427,11 @@ int coco_remove_directory(const char *path) {
 
       buf = coco_strdupf("%s/%s", path, p->d_name);
       if (buf) {
-        if (coco_directory_exists(buf)) {
+        if (coco_directory_exists(buf) && !coco_is_symbolic_link(buf)) {
           /* Buf is a directory, recurse on it */
           r2 = coco_remove_directory(buf);
         } else {
-          /* Buf is a file, delete it */
+          /* Buf is a file or a symbolic link (which must not be followed), delete it */
           r2 = unlink(buf);
         }
       }
-- 
2.43.0


From 4f7a4599481e5fd34323caa8c8d17b0142e697c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:11 +0000
Subject: [PATCH 32/51] fix: Python: attributes of a freed problem crashed the
 interpreter instead of raising an exception

---
 build/python/src/cocoex/interface.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index f2adcbc..e0f7d7b 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -723,6 +723,8 @@ cdef class Problem:
     @property
     def initial_solution(self):
         """return feasible initial solution"""
+        if self.problem is NULL:
+            raise InvalidProblemException()
         coco_problem_get_initial_solution(self.problem,
                                           <double *>np.PyArray_DATA(self.x_initial))
         return np.array(self.x_initial, copy=True)
@@ -771,9 +773,13 @@ cdef class Problem:
         return self._upper_bounds
     @property
     def evaluations(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations(self.problem)
     @property
     def evaluations_constraints(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations_constraints(self.problem)
     @property
     def final_target_hit(self):
@@ -799,6 +805,8 @@ cdef class Problem:
         return self._largest_fvalues_of_interest
 
     def _best_parameter(self, what=None):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         if what == 'print':
             if self._number_of_objectives == 2:
                 bbob_biobj_problem_best_parameter_print(self.problem)
-- 
2.43.0


From 569fbf616bc7a5e9708ff5b45ae6f4facad3d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:11 +0000
Subject: [PATCH 33/51] fix: Python: Observer.free raised an exception, and
 freed objects in other Observer methods crashed the interpreter

---
 build/python/src/cocoex/interface.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index e0f7d7b..e8c7b19 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -488,6 +488,8 @@ cdef class Observer:
     def signal_restart(self, problem: Problem):
         """Signal a restart on `problem: Problem` by calling `coco_observer_signal_restart`.
         """
+        if problem.problem == NULL:
+            raise InvalidProblemException()
         coco_observer_signal_restart(self._observer, problem.problem)
 
     @property
@@ -504,10 +506,13 @@ cdef class Observer:
         return self._state
     @property
     def result_folder(self):
+        if self._observer == NULL:
+            return None
         return coco_observer_get_result_folder(self._observer)
 
     def free(self):
-        self.__dealloc__()
+        if self._observer != NULL:
+            coco_observer_free(self._observer)
         self._observer = NULL
         self._state = 'deactivated'
     def __dealloc__(self):
-- 
2.43.0


From ee41a9a4687fdff7b5d6f79f8551a1154f498f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:33 +0000
Subject: [PATCH 34/51] fix: Python: a problem whose suite was freed or garbage
 collected used the freed C suite

---
 build/python/src/cocoex/interface.pyx | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index e8c7b19..a7d59dc 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -97,9 +97,19 @@ cdef bytes _bstring(s):
 cdef coco_observer_t* _current_observer
 
 
+cdef class _SuiteHandle:
+    """owner of a C suite, which is freed only when neither the `Suite` nor any of
+    its problems need it any longer"""
+    cdef coco_suite_t* suite
+    def __dealloc__(self):
+        if self.suite != NULL:
+            coco_suite_free(self.suite)
+
+
 cdef class Suite:
     """see __init__.py"""
     cdef coco_suite_t* suite  # AKA _self
+    cdef _SuiteHandle _handle
     cdef coco_problem_t* _current_problem
     cdef bytes _name  # used in @property name
     cdef bytes _instance
@@ -166,6 +176,8 @@ cdef class Suite:
             self._number_of_objectives.append(coco_problem_get_number_of_objectives(p))
         coco_suite_free(suite)
         self.suite = coco_suite(self._name, self._instance, self._options)
+        self._handle = _SuiteHandle()
+        self._handle.suite = self.suite
         self.initialized = True
         return self
     def reset(self):
@@ -200,7 +212,7 @@ cdef class Suite:
             self._current_problem = coco_suite_get_problem(
                                         self.suite, index)
             self.current_problem_ = Problem_init(self._current_problem,
-                                                True, self._name)
+                                                True, self._name, self._handle)
             self.current_problem_.observe_with(observer)
         return self.current_problem_
     def get_problem(self, id, observer=None):
@@ -243,7 +255,7 @@ cdef class Suite:
             index = self._ids.index(id)
         try:
             return Problem_init(coco_suite_get_problem(self.suite, self._indices[index]),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, str(id))
 
@@ -280,7 +292,7 @@ cdef class Suite:
         try:
             return Problem_init(coco_suite_get_problem_by_function_dimension_instance(self.suite, _function,
                                                                                       _dimension, _instance),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, 'function: {}, dimension: {}, instance: {}'.format(function,
                                                                                                        dimension,
@@ -292,14 +304,10 @@ cdef class Suite:
         return self.get_problem(key)
 
     def free(self):
-        """free underlying C structures"""
-        if self.suite:  # for some reason __dealloc__ cannot be called here
-            coco_suite_free(self.suite)
+        """free underlying C structures (as soon as all its problems are freed)"""
+        self._handle = None
         self.suite = NULL
         self.initialized = False  # not (yet) visible from outside
-    def __dealloc__(self):
-        if self.suite:
-            coco_suite_free(self.suite)
 
     def find_problem_ids(self, *args, **kwargs):
         """has been renamed to `ids`"""
@@ -520,7 +528,7 @@ cdef class Observer:
             coco_observer_free(self._observer)
 
 
-cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
+cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None, _SuiteHandle suite_handle=None):
     """`Problem` class instance initialization wrapper passing
     a `problem_t*` C-variable to `__init__`.
 
@@ -528,6 +536,7 @@ cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
     """
     res = Problem()
     res._suite_name = suite_name
+    res._suite_handle = suite_handle
     return res._initialize(problem, free)
 
 
@@ -545,6 +554,7 @@ cdef class Problem:
     cdef size_t _number_of_constraints
     cdef size_t _number_of_integer_variables
     cdef _suite_name  # for the record
+    cdef _SuiteHandle _suite_handle  # keeps the C suite, which the problem refers to
     cdef _list_of_observers  # for the record
     cdef _problem_index  # for the record, this is not public but used in index property
     cdef _do_free
@@ -830,6 +840,7 @@ cdef class Problem:
         if self.problem != NULL and (self._do_free or force):
             coco_problem_free(self.problem)
             self.problem = NULL
+            self._suite_handle = None
 
     def __dealloc__(self):
         # see http://docs.cython.org/src/userguide/special_methods.html
-- 
2.43.0


From a7a7cf7fc445359081289d28c6930a63e3bf47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 35/51] fix: Python: BareProblem read beyond arrays of the
 wrong size, kept a pointer to a foreign string and ended or corrupted the
 process for nonexistent problems

---
 build/python/src/cocoex/bare_problem.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index dfeac09..b8e9cc1 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -58,7 +58,7 @@ cdef class BareProblem:
     """
 
     cdef coco_problem_t *_problem
-    cdef readonly char* suite_name
+    cdef readonly str suite_name
     cdef readonly char* id
     cdef readonly int function
     cdef readonly int dimension
@@ -98,6 +98,9 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
+            # the C code ends the process for unknown functions and supports at most 44 variables
+            if not (1 <= function <= 24 and 1 <= dimension <= 44):
+                raise NoSuchProblemException(suite_name, function)
             self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
@@ -147,6 +150,9 @@ cdef class BareProblem:
         if x.ndim == 1:
             # Evaluate a single parameter
             xi = np.array(x, dtype=float)
+            if xi.shape[0] != self.dimension:
+                raise ValueError("Dimension, `%d`, of input `x` does not match the problem dimension `%d`."
+                                 % (xi.shape[0], self.dimension))
             coco_evaluate_function(self._problem, &xi[0], &y)
             return y
         elif x.ndim == 2:
@@ -154,6 +160,9 @@ cdef class BareProblem:
             X = x
             N = X.shape[0]
             D = X.shape[1]
+            if D != self.dimension:
+                raise ValueError("Dimension, `%d`, of input `x` does not match the problem dimension `%d`."
+                                 % (D, self.dimension))
             Y = np.zeros(N, dtype=np.float64)
             y_view = Y
             for i in range(N):
-- 
2.43.0


From 6fd104349ad800e2162391bc2a8fd0a90491d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 36/51] fix: feeding a solution to a problem without
 bi-objective logger treated foreign data as that logger's

---
 src/logger_biobj.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 06e59fd..c812ce2 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -877,6 +877,10 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
   size_t i;
 
   assert(problem != NULL);
+  if (problem->evaluate_function != logger_biobj_evaluate) {
+    coco_warning("coco_logger_biobj_feed_solution(): The problem is not observed by the bbob-biobj observer");
+    return 0;
+  }
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
   assert(logger->log_nondom_mode == LOG_NONDOM_READ);
-- 
2.43.0


From b386fcb4151aed00ee802fd99e6aba473b041c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:48 +0000
Subject: [PATCH 37/51] fix: ExperimentRepeater.trials created an empty entry
 for an unknown instance, so that the experiment was never done

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index cf1fed6..7c6cc55 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -787,7 +787,7 @@ class ExperimentRepeater:
         """
         dd = self.data(problem)  # dictionary of all data related to problem
         if instance is not None:
-            return len(dd[instance])
+            return len(dd.get(instance, ()))  # dd[instance] would create an entry
         return [len(dd[iinst]) for iinst in sorted(dd)]
     def successes(self, problem):
         """return `list` of successes per instance"""
-- 
2.43.0


From 99c64b0a7d9225c949454726691899c0aace3e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:30 +0000
Subject: [PATCH 38/51] fix: Python: Suite.ids with get_problem and no matching
 ID crashed the interpreter

---
 build/python/src/cocoex/interface.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index a7d59dc..c00591f 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -360,6 +360,8 @@ cdef class Suite:
                     print("  id=%s, index=%d" % (id, idx))
                 res.append(id)
         if get_problem:
+            if not res:
+                raise NoSuchProblemException(self.name, ' '.join(str(i) for i in id_snippets))
             return self.get_problem(res[0])
         return res
 
-- 
2.43.0


From 028bc213f5eae030aa76e5d9fdb35eed56aa381a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 39/51] fix: Java interface accepts null for the suite instance
 and the option strings and releases the strings it got

GetStringUTFChars on a null reference crashes the JVM, while the C interface documents NULL as valid for
these arguments. The characters were never released.
---
 build/java/CocoJNI.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 37af937..5585d4a 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -15,6 +15,18 @@
 #include "coco.c"
 #include "CocoJNI.h"
 
+/*
+ * Returns the characters of the given string (to be released with release_string) or NULL if there is no string.
+ */
+static const char *get_string(JNIEnv *jenv, jstring jtext) {
+  return (jtext == NULL) ? NULL : (*jenv)->GetStringUTFChars(jenv, jtext, NULL);
+}
+
+static void release_string(JNIEnv *jenv, jstring jtext, const char *text) {
+  if (text != NULL)
+    (*jenv)->ReleaseStringUTFChars(jenv, jtext, text);
+}
+
 /*
  * Class:     CocoJNI
  * Method:    cocoSetLogLevel
@@ -31,10 +43,12 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoSetLogLevel
     (*jenv)->ThrowNew(jenv, Exception, "Exception in cocoSetLogLevel\n");
   }
 
-  log_level = (*jenv)->GetStringUTFChars(jenv, jlog_level, NULL);
+  log_level = get_string(jenv, jlog_level);
 
   coco_set_log_level(log_level);
 
+  release_string(jenv, jlog_level, log_level);
+
   return;
 }
 
@@ -56,11 +70,14 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetObserver
     (*jenv)->ThrowNew(jenv, Exception, "Exception in cocoGetObserver\n");
   }
 
-  observer_name = (*jenv)->GetStringUTFChars(jenv, jobserver_name, NULL);
-  observer_options = (*jenv)->GetStringUTFChars(jenv, jobserver_options, NULL);
+  observer_name = get_string(jenv, jobserver_name);
+  observer_options = get_string(jenv, jobserver_options);
 
   observer = coco_observer(observer_name, observer_options);
 
+  release_string(jenv, jobserver_name, observer_name);
+  release_string(jenv, jobserver_options, observer_options);
+
   return (jlong) observer;
 }
 
@@ -180,12 +197,16 @@ JNIEXPORT jlong JNICALL Java_CocoJNI_cocoGetSuite
     (*jenv)->ThrowNew(jenv, Exception, "Exception in cocoGetSuite\n");
   }
 
-  suite_name = (*jenv)->GetStringUTFChars(jenv, jsuite_name, NULL);
-  suite_instance = (*jenv)->GetStringUTFChars(jenv, jsuite_instance, NULL);
-  suite_options = (*jenv)->GetStringUTFChars(jenv, jsuite_options, NULL);
+  suite_name = get_string(jenv, jsuite_name);
+  suite_instance = get_string(jenv, jsuite_instance);
+  suite_options = get_string(jenv, jsuite_options);
 
   suite = coco_suite(suite_name, suite_instance, suite_options);
 
+  release_string(jenv, jsuite_name, suite_name);
+  release_string(jenv, jsuite_instance, suite_instance);
+  release_string(jenv, jsuite_options, suite_options);
+
   return (jlong) suite;
 }
 
-- 
2.43.0


From 7c62bbae6e835b8e988bc98fab3e1c9b66d82323 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 40/51] fix: Java interface raises an exception for a decision
 vector of the wrong dimension

evaluateFunction, evaluateConstraint and recommendSolution read beyond the end of an array that is too short,
counted and logged the evaluation, and crashed the JVM for null.
---
 build/java/CocoJNI.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/build/java/CocoJNI.c b/build/java/CocoJNI.c
index 5585d4a..6e743ed 100644
--- a/build/java/CocoJNI.c
+++ b/build/java/CocoJNI.c
@@ -27,6 +27,19 @@ static void release_string(JNIEnv *jenv, jstring jtext, const char *text) {
     (*jenv)->ReleaseStringUTFChars(jenv, jtext, text);
 }
 
+/*
+ * Returns the elements of the decision vector (to be released with ReleaseDoubleArrayElements). If the vector is not
+ * of the dimension of the problem, raises an exception and returns NULL.
+ */
+static double *get_decision_vector(JNIEnv *jenv, const coco_problem_t *problem, jdoubleArray jx) {
+  if ((jx == NULL) || ((size_t) (*jenv)->GetArrayLength(jenv, jx) != coco_problem_get_dimension(problem))) {
+    jclass Exception = (*jenv)->FindClass(jenv, "java/lang/IllegalArgumentException");
+    (*jenv)->ThrowNew(jenv, Exception, "The decision vector does not have the dimension of the problem\n");
+    return NULL;
+  }
+  return (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+}
+
 /*
  * Class:     CocoJNI
  * Method:    cocoSetLogLevel
@@ -358,7 +371,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateFunction
   number_of_objectives = (int) coco_problem_get_number_of_objectives(problem);
 
   /* Call coco_evaluate_function */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_decision_vector(jenv, problem, jx);
+  if (x == NULL)
+    return NULL;
   y = coco_allocate_vector(number_of_objectives);
   coco_evaluate_function(problem, x, y);
 
@@ -396,7 +411,9 @@ JNIEXPORT jdoubleArray JNICALL Java_CocoJNI_cocoEvaluateConstraint
   number_of_constraints = (int) coco_problem_get_number_of_constraints(problem);
 
   /* Call coco_evaluate_constraint */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_decision_vector(jenv, problem, jx);
+  if (x == NULL)
+    return NULL;
   y = coco_allocate_vector(number_of_constraints);
   coco_evaluate_constraint(problem, x, y);
 
@@ -430,7 +447,9 @@ JNIEXPORT void JNICALL Java_CocoJNI_cocoRecommendSolution
   problem = (coco_problem_t *) jproblem_pointer;
 
   /* Call coco_evaluate_constraint */
-  x = (*jenv)->GetDoubleArrayElements(jenv, jx, NULL);
+  x = get_decision_vector(jenv, problem, jx);
+  if (x == NULL)
+    return;
   coco_recommend_solution(problem, x);
 
   /* Free resources */
-- 
2.43.0


From 68ba49868af0938db5fcd562ca59df353672972d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 41/51] fix: Java Suite constructor raises an exception when
 there is no such suite

coco_suite() returns NULL when the options select no dimension; every use of the suite then crashed the JVM.
---
 build/java/Suite.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/java/Suite.java b/build/java/Suite.java
index 61cf957..da5595a 100644
--- a/build/java/Suite.java
+++ b/build/java/Suite.java
@@ -21,6 +21,8 @@ public class Suite {
 		} catch (Exception e) {
 			throw new Exception("Suite constructor failed.\n" + e.toString());
 		}
+		if (this.pointer == 0)
+			throw new Exception("Suite constructor failed.\nThe suite " + suiteName + " has no such problems.");
 	}
 	
 	/**
-- 
2.43.0


From 91d811654076f0e6f12d8cdab99260ac471517fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 42/51] fix: Rust observer::Name::None is the name of the C
 library that stands for no observer

"no-observer" is an unknown name: a result folder was created and a warning raised.
---
 build/rust/src/observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/observer.rs b/build/rust/src/observer.rs
index b15d1b7..e1cd23b 100644
--- a/build/rust/src/observer.rs
+++ b/build/rust/src/observer.rs
@@ -26,7 +26,7 @@ impl Name {
             Name::Bbob => "bbob",
             Name::BbobBiobj => "bbob-biobj",
             Name::Toy => "toy",
-            Name::None => "no-observer",
+            Name::None => "no_observer",
         }
     }
 }
-- 
2.43.0


From 824fb7b5e8345cece10b8bde31dda3b5236d496b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 43/51] fix: Rust suite::Name::SboxCost names the suite
 bbob-boxed

The suite "sbox-cost" was renamed in the C library; the old name ended the process with an error.
---
 build/rust/src/suite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rust/src/suite.rs b/build/rust/src/suite.rs
index f3178ea..9f29ab4 100644
--- a/build/rust/src/suite.rs
+++ b/build/rust/src/suite.rs
@@ -54,7 +54,7 @@ impl Name {
             Name::BbobConstrained => "bbob-constrained",
             Name::BbobMixint => "bbob-mixint",
             Name::BbobBiobjMixint => "bbob-biobj-mixint",
-            Name::SboxCost => "sbox-cost",
+            Name::SboxCost => "bbob-boxed",
             Name::Toy => "toy",
         }
     }
-- 
2.43.0


From b6da4f631a8883412108a35955eef8fe119a504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 44/51] fix: a function value that is not finite hits no
 logarithmic target

The exponent of an infinite value was cast to int (undefined; INT_MIN on x86), so that an evaluation whose
value overflowed was logged as hitting the target 0 and no target was ever hit afterwards.
---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 7411eb0..1572ee6 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -138,6 +138,11 @@ static int coco_observer_log_targets_trigger(coco_observer_log_targets_t *log_ta
     return 0;
   }
 
+  /* A value that is not finite hits no target (and has no exponent) */
+  if (coco_is_nan(given_value) || coco_is_inf(given_value)) {
+    return 0;
+  }
+
   number_of_targets_double = (double)(long)log_targets->number_of_triggers;
 
   /* The given_value is positive or zero */
-- 
2.43.0


From 281fa9fa5454339e268d9bf743db6a3e4f199a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:23 +0000
Subject: [PATCH 45/51] fix: MATLAB interface writes 4-byte integers into its
 4-byte results

---
 build/matlab/cocoCall.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index 4d5fa78..d68e7d8 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -204,7 +204,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -215,7 +215,7 @@ void cocoProblemFinalTargetHit(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
+    res = (int *)mxGetData(plhs[0]);
     res[0] = coco_problem_final_target_hit(problem);
 }
 
@@ -240,7 +240,7 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -251,8 +251,8 @@ void cocoProblemGetDimension(int nlhs, mxArray *plhs[], int nrhs, const mxArray
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_dimension(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_dimension(problem);
 }
 
 void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -260,7 +260,7 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -271,8 +271,8 @@ void cocoProblemGetEvaluations(int nlhs, mxArray *plhs[], int nrhs, const mxArra
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations(problem);
 }
 
 void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -280,7 +280,7 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -291,8 +291,8 @@ void cocoProblemGetEvaluationsConstraints(int nlhs, mxArray *plhs[], int nrhs, c
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_evaluations_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_evaluations_constraints(problem);
 }
 
 void cocoProblemGetId(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -415,7 +415,7 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -426,8 +426,8 @@ void cocoProblemGetNumberOfObjectives(int nlhs, mxArray *plhs[], int nrhs, const
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_objectives(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_objectives(problem);
 }
 
 void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -435,7 +435,7 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -446,8 +446,8 @@ void cocoProblemGetNumberOfConstraints(int nlhs, mxArray *plhs[], int nrhs, cons
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_constraints(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_constraints(problem);
 }
 
 void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
@@ -455,7 +455,7 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     size_t *ref;
     coco_problem_t *problem = NULL;
     const mwSize dims[2] = {1, 1};
-    size_t *res;
+    int *res;
 
     /* check for proper number of arguments */
     if(nrhs!=1) {
@@ -466,8 +466,8 @@ void cocoProblemGetNumberOfIntegerVariables(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
     /* prepare the return value */
     plhs[0] = mxCreateNumericArray(2, dims, mxINT32_CLASS, mxREAL);
-    res = (size_t *)mxGetData(plhs[0]);
-    res[0] = coco_problem_get_number_of_integer_variables(problem);
+    res = (int *)mxGetData(plhs[0]);
+    res[0] = (int)coco_problem_get_number_of_integer_variables(problem);
 }
 
 void cocoProblemGetSmallestValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
-- 
2.43.0


From c142209d8a89998e2ff4a9589d27b179a91ea2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:04 +0000
Subject: [PATCH 46/51] fix: MATLAB cocoProblemGetLargestFValuesOfInterest
 raises an error for a single-objective problem, as documented

---
 build/matlab/cocoCall.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/matlab/cocoCall.c b/build/matlab/cocoCall.c
index d68e7d8..b627d74 100644
--- a/build/matlab/cocoCall.c
+++ b/build/matlab/cocoCall.c
@@ -355,6 +355,9 @@ void cocoProblemGetLargestFValuesOfInterest(int nlhs, mxArray *plhs[], int nrhs,
     problem = (coco_problem_t *)(*ref);
 
     nb_obj = coco_problem_get_number_of_objectives(problem);
+    if(nb_obj == 1) {
+        mexErrMsgIdAndTxt("cocoProblemGetLargestFValuesOfInterest:singleObjective","A multi-objective problem is required.");
+    }
     plhs[0] = mxCreateDoubleMatrix(1, nb_obj, mxREAL);
     v = mxGetPr(plhs[0]);
     /* call coco_problem_get_largest_fvalues_of_interest(...) */
-- 
2.43.0


From cc30f553836da4be52957d9dbc58d6a860b3fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:18 +0000
Subject: [PATCH 47/51] fix: random_search returned a solution that does not
 belong to the best feasible value

---
 build/python/src/cocoex/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/solvers.py b/build/python/src/cocoex/solvers.py
index d5218fe..6636e10 100644
--- a/build/python/src/cocoex/solvers.py
+++ b/build/python/src/cocoex/solvers.py
@@ -16,7 +16,9 @@ def random_search(fun, lbounds, ubounds, budget):
         X = lbounds + (ubounds - lbounds) * np.random.rand(chunk, dim)
         if fun.number_of_constraints > 0:
             FC = [(fun(x), fun.constraint(x)) for x in X]  # call  objective and constraints
-            F = [fc[0] for fc in FC if all(fc[1] <= 0)]
+            feasible = [all(fc[1] <= 0) for fc in FC]
+            X = X[feasible]  # keep solutions and their values aligned
+            F = [fc[0] for fc, ok in zip(FC, feasible) if ok]
             budget -= chunk  # one more to account for constraint evals
         else:
             F = [fun(x) for x in X]
-- 
2.43.0


From 87194852fe977bb97c1718058bc3c1fbe3ec59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 48/51] fix: ascetime showed one second too little for about
 every second duration

---
 build/python/src/cocoex/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 7c6cc55..326f681 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -579,9 +579,9 @@ def ascetime(sec, decimals=0):
     #     return "%d%s sec" % (sec, str(sec % 1)[1:2+max((1, decimals))])
     if sec < 100 and decimals:
         return "%d%s sec" % (sec, ds)
-    h = sec / 60**2  # hours
-    m = 60 * (h % 1)  # minutes
-    s = 60 * (m % 1)  # seconds
+    h = sec // 60**2  # hours
+    m = sec // 60 % 60  # minutes
+    s = sec % 60  # seconds
     return "%dh%02d:%02d%s" % (h, m, s, ds)
 
 
-- 
2.43.0


From 3f59bf0a89d80a8516cd61d92670688e9a0f4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 49/51] fix: ObserverOptions.as_string removed commas,
 apostrophes, braces and a final u from the values of options

---
 build/python/src/cocoex/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 326f681..6964d90 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -240,10 +240,7 @@ class ObserverOptions(dict):
         """string representation which is accepted by `Observer` class,
         which calls the underlying C interface
         """
-        s = str(self).replace(',', ' ')
-        for c in ["u'", "'", "{", "}"]:
-            s = s.replace(c, '')
-        return s
+        return ' '.join('{}: {}'.format(key, self[key]) for key in self)
 
 
 class ProblemNonAnytime:
-- 
2.43.0


From d518a2f2b87797ff52bbf6839b507dd3bebe241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:45 +0000
Subject: [PATCH 50/51] fix: ShortInfo ended the experiment with an error when
 add_evals was not called

---
 build/python/src/cocoex/utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 6964d90..401df50 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -511,15 +511,18 @@ class ShortInfo:
         self.runs_function += runs
 
     def dimension_done(self):
-        self.evals_by_dimension[self.d_current] = (_time.time() - self.t0_dimension) / self.evals_dimension
-        s = '\n    %d-D done in %.1e seconds/evaluation' % (self.d_current, self.evals_by_dimension[self.d_current])
+        if self.evals_dimension > 0:
+            self.evals_by_dimension[self.d_current] = (_time.time() - self.t0_dimension) / self.evals_dimension
+            s = '\n    %d-D done in %.1e seconds/evaluation' % (self.d_current, self.evals_by_dimension[self.d_current])
+        else:  # no call of `add_evals`
+            s = '\n    %d-D done' % self.d_current
         # print(self.evals_dimension)
         self.evals_dimension = 0
         self.t0_dimension = _time.time()
         return s
 
     def function_done(self):
-        s = "(%d)" % self.runs_function + (2 - int(np.log10(self.runs_function))) * ' '
+        s = "(%d)" % self.runs_function + (2 - int(np.log10(max(1, self.runs_function)))) * ' '
         self.runs_function = 0
         return s
 
-- 
2.43.0


From 7c6c81283596e2f72fecdbb358b9547ddda1f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 51/51] fix: evaluating constrained problems within rounding of
 the optimum aborted in an assertion

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 43e5046..015c42a 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -995,7 +995,7 @@ static double coco_double_round_up_with_precision(const double number, const dou
  * bound), 0 otherwise.
  */
 static int coco_double_at_least(const double number, const double bound) {
-  const double precision = 1e-13;
+  const double precision = 1e-9;
   return number + precision * (fabs(bound) > 1 ? fabs(bound) : 1) >= bound;
 }
 
-- 
2.43.0

