From 0441c620c78e054b8aefe141d6eb6ae262ab0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:47 +0000
Subject: [PATCH 01/56] fix: compare attribute tags and lengths of both sides
 in equal_object()

vec_equal_attrib() read the tag of `x` twice and ignored attributes that
only `y` has, so object equality was not symmetric and list elements that
differ in their attributes were matched, deduplicated and grouped together.
---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From abe741642bcda4b1add04f636569c6cf293eba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 02/56] fix: rerun a complex column once per column, not once
 per group, when ordering data frames

`i` was decremented inside the loop over groups, so with two or more tied
groups before a complex column the loop went back several columns and read
out of bounds (crash, endless loop or spurious error).
---
 src/order.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index 51d0615..1f4e140 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3905,9 +3905,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4109,6 +4106,12 @@ void df_order_internal(SEXP x,
       p_o_col += group_size;
     }
 
+    // Once all groups have been processed on the real part, decrement `i` to
+    // rerun the column on the imaginary part
+    if (rerun_complex) {
+      --i;
+    }
+
     // Reset TRUELENGTHs between columns if ordering character vectors.
     // When ordering by appearance, `chr_appearance_counting()` resets the
     // TRUELENGTHs between chunks.
-- 
2.43.0


From f6fffc63a55a4890cc073d8efe7722faafdf24be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 03/56] fix: don't write past the end of the output in
 vec_locate_run_bounds()

Once the last bound had been recorded, the loop kept writing at the next
output location for the rest of the final run, one element past (or, for
ends, before) the allocated vector.
---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..b4b6b10 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Only write at bound locations. The final location we iterate over isn't
+  // necessarily a bound, so `j` might be OOB by the time we get there.
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From 1a0b670df99d39952faa62eec2966873f7a90b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 04/56] fix: vec_fill_missing() leaves missing values with
 nothing to fill them from alone

Leading (or trailing, when filling up) missing elements were all replaced
by the first (last) one, which turned NA into NaN, or the reverse, and
overwrote their names.
---
 src/fill.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fill.c b/src/fill.c
index 7bc37ca..90d947a 100644
--- a/src/fill.c
+++ b/src/fill.c
@@ -73,6 +73,11 @@ void vec_fill_missing_down(const int* p_na, r_ssize size, bool leading, int* p_l
     }
   }
 
+  // Leave missing values alone when there is nothing to fill them with
+  for (; loc < size && p_na[loc]; ++loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   for (r_ssize i = loc; i < size; ++i) {
     if (!p_na[i]) {
       loc = i;
@@ -108,6 +113,11 @@ void vec_fill_missing_down_with_max_fill(const int* p_na, r_ssize size, bool lea
     }
   }
 
+  // Leave missing values alone when there is nothing to fill them with
+  for (; loc < size && p_na[loc]; ++loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i < size; ++i) {
@@ -146,6 +156,11 @@ void vec_fill_missing_up(const int* p_na, r_ssize size, bool leading, int* p_loc
     }
   }
 
+  // Leave missing values alone when there is nothing to fill them with
+  for (; loc >= 0 && p_na[loc]; --loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   for (r_ssize i = loc; i >= 0; --i) {
     if (!p_na[i]) {
       loc = i;
@@ -181,6 +196,11 @@ void vec_fill_missing_up_with_max_fill(const int* p_na, r_ssize size, bool leadi
     }
   }
 
+  // Leave missing values alone when there is nothing to fill them with
+  for (; loc >= 0 && p_na[loc]; --loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i >= 0; --i) {
-- 
2.43.0


From bbb1ab61cb8385d3e191bfab23212436bfed069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 05/56] fix: compare and order raw matrices by row

The comparison proxy of a raw array dropped its dimensions, so ordering
one returned as many locations as it has cells.
---
 R/type-bare.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..0267fdb 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -382,6 +382,10 @@ vec_proxy_compare.raw <- function(x, ...) {
   # because:
   # order(as.raw(1:3))
   # #> Error in order(as.raw(1:3)): unimplemented type 'raw' in 'orderVector1'
+  if (length(dim(x)) > 1L) {
+    # Keep the rows together
+    return(vec_proxy_compare.array(x))
+  }
   as.integer(x)
 }
 
-- 
2.43.0


From 2a3a5714a2b1fa16b9f05b2c8e9276799a0da1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 06/56] fix: signal incomplete needles that sort past the end
 of the haystack

With `==` conditions, needles that can't match because the haystack bounds
are exhausted weren't visited at all, so incomplete ones among them were
reported as unmatched instead of incomplete.
---
 src/match.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/match.c b/src/match.c
index 61faff2..30282fd 100644
--- a/src/match.c
+++ b/src/match.c
@@ -919,12 +919,19 @@ void df_locate_matches_recurse(r_ssize col,
 
   switch (op) {
   case VCTRS_OPS_eq: {
+    // If the haystack bounds are exhausted, the remaining needles can't match.
+    // We still have to visit them if we are tracking incomplete needles.
+    const bool track_incomplete =
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error;
+
     do_lhs =
       (loc_lower_duplicate_o_needles > loc_lower_bound_o_needles) &&
-      (loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
+      (track_incomplete || loc_lower_match_o_haystack > loc_lower_bound_o_haystack);
     do_rhs =
       (loc_upper_duplicate_o_needles < loc_upper_bound_o_needles) &&
-      (loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
+      (track_incomplete || loc_upper_match_o_haystack < loc_upper_bound_o_haystack);
 
     // Limit bounds of both needle and haystack using existing info
     if (do_lhs) {
-- 
2.43.0


From 3952d89d1c3b4f6abcc24e0f3f42502ae250d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 07/56] fix: apply `filter` in vec_locate_matches() only after
 matching on every column

A filter on a column other than the last one was applied before the later
columns were matched, so a haystack row that isn't a match could filter out
the rows that are. Which ones were lost depended on unrelated rows.
---
 src/match.c | 105 ++++++++++++++++++++++++----------------------------
 1 file changed, 48 insertions(+), 57 deletions(-)

diff --git a/src/match.c b/src/match.c
index 30282fd..d2d828f 100644
--- a/src/match.c
+++ b/src/match.c
@@ -506,7 +506,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -697,62 +696,6 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
-    }
-
     if (col < n_col - 1) {
       // For this column, we've bounded the needles locations to the upper/lower
       // duplicates of the current needle, and the haystack locations to the
@@ -784,6 +727,54 @@ void df_locate_matches_recurse(r_ssize col,
       // We just finished locating matches for the last column,
       // and we still have at least 1 hit, so record it
 
+      if (any_filters) {
+        // Only filter once we have matched on all columns. Filtering a column
+        // before later columns have been matched would let a haystack value
+        // that isn't a match filter out one that is.
+        for (r_ssize j = 0; j < n_col; ++j) {
+          const int* v_filter_haystack = (const int*) p_haystack->v_col_ptr[j];
+
+          // Within a nesting container all of the non-equi columns are in
+          // ascending order, so the min values of this group are the lower
+          // match of the haystack and its corresponding upper duplicate.
+          // Similarly, the max values are the upper match and its lower
+          // duplicate. For `==` conditions and incomplete needles, the lower
+          // match value always equals the upper match value.
+          const int val_lower_match_haystack = v_filter_haystack[v_o_haystack[loc_lower_match_o_haystack] - 1];
+          const int val_upper_match_haystack = v_filter_haystack[v_o_haystack[loc_upper_match_o_haystack] - 1];
+
+          if (val_lower_match_haystack == val_upper_match_haystack) {
+            continue;
+          }
+
+          switch (v_filters[j]) {
+          case VCTRS_FILTER_max: {
+            loc_lower_match_o_haystack = int_locate_lower_duplicate(
+              val_upper_match_haystack,
+              v_filter_haystack,
+              v_o_haystack,
+              loc_lower_match_o_haystack,
+              loc_upper_match_o_haystack
+            );
+            break;
+          }
+          case VCTRS_FILTER_min: {
+            loc_upper_match_o_haystack = int_locate_upper_duplicate(
+              val_lower_match_haystack,
+              v_filter_haystack,
+              v_o_haystack,
+              loc_lower_match_o_haystack,
+              loc_upper_match_o_haystack
+            );
+            break;
+          }
+          case VCTRS_FILTER_none: {
+            break;
+          }
+          }
+        }
+      }
+
       for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
         const int loc_needles = v_o_needles[i] - 1;
         const int loc_first_match_o_haystack = r_dyn_int_get(p_loc_first_match_o_haystack, loc_needles);
-- 
2.43.0


From 21cd45a62067abebde4b409efb1638c061189f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 08/56] fix: don't lose complete matches next to partially
 missing haystack values in vec_locate_matches()

The binary search for the last incomplete value assumed that incomplete
values are contiguous, which isn't the case for data frame or rcrd columns.
---
 src/decl/match-decl.h |  5 -----
 src/match.c           | 47 ++++++++++++-------------------------------
 2 files changed, 13 insertions(+), 39 deletions(-)

diff --git a/src/decl/match-decl.h b/src/decl/match-decl.h
index 51d8979..e7a9eef 100644
--- a/src/decl/match-decl.h
+++ b/src/decl/match-decl.h
@@ -91,11 +91,6 @@ void df_locate_matches_with_containers(int n_containers,
                                        int* v_loc_filter_match_o_haystack);
 
 static inline
-r_ssize int_locate_upper_incomplete(const int* v_haystack_complete,
-                                    const int* v_o_haystack,
-                                    r_ssize loc_lower_bound_o_haystack,
-                                    r_ssize loc_upper_bound_o_haystack);
-static inline
 r_ssize int_locate_lower_duplicate(int val_needle,
                                    const int* v_haystack,
                                    const int* v_o_haystack,
diff --git a/src/match.c b/src/match.c
index d2d828f..ae8dee3 100644
--- a/src/match.c
+++ b/src/match.c
@@ -676,20 +676,24 @@ void df_locate_matches_recurse(r_ssize col,
     // `loc_lower_match_o_haystack` to be `loc_lower_bound_o_haystack`, which
     // may capture NAs at the lower bound. If there is an NA on the lower bound,
     // we avoid it by finding the last NA and then going 1 location beyond it.
-    const r_ssize loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-    const bool lower_match_haystack_is_complete = v_haystack_complete[loc_lower_match_haystack];
+    // There can be multiple incomplete values to avoid there, i.e. NA and NaN.
+    // Incomplete values further up, like a rcrd with a single missing field, are
+    // not necessarily next to each other, so we can't search for the last one.
+    while (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
+      const r_ssize loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
 
-    if (!lower_match_haystack_is_complete) {
-      // Find the last incomplete value
-      loc_lower_match_o_haystack = int_locate_upper_incomplete(
-        v_haystack_complete,
+      if (v_haystack_complete[loc_lower_match_haystack]) {
+        break;
+      }
+
+      // Exclude this incomplete value and all of its duplicates
+      loc_lower_match_o_haystack = 1 + int_locate_upper_duplicate(
+        v_haystack[loc_lower_match_haystack],
+        v_haystack,
         v_o_haystack,
         loc_lower_match_o_haystack,
         loc_upper_match_o_haystack
       );
-
-      // Exclude it and all before it
-      ++loc_lower_match_o_haystack;
     }
   }
 
@@ -1076,31 +1080,6 @@ void df_locate_matches_with_containers(int n_containers,
 
 // -----------------------------------------------------------------------------
 
-// In a sorted array, binary search between
-// [loc_lower_bound_o_haystack, loc_upper_bound_o_haystack]
-// to find the last incomplete value
-static inline
-r_ssize int_locate_upper_incomplete(const int* v_haystack_complete,
-                                    const int* v_o_haystack,
-                                    r_ssize loc_lower_bound_o_haystack,
-                                    r_ssize loc_upper_bound_o_haystack) {
-  while (loc_lower_bound_o_haystack <= loc_upper_bound_o_haystack) {
-    const r_ssize loc_mid_bound_o_haystack = midpoint(loc_lower_bound_o_haystack, loc_upper_bound_o_haystack);
-    const r_ssize loc_mid_bound_haystack = v_o_haystack[loc_mid_bound_o_haystack] - 1;
-    const int haystack_is_complete = v_haystack_complete[loc_mid_bound_haystack];
-
-    if (haystack_is_complete) {
-      loc_upper_bound_o_haystack = loc_mid_bound_o_haystack - 1;
-    } else {
-      loc_lower_bound_o_haystack = loc_mid_bound_o_haystack + 1;
-    }
-  }
-
-  return loc_upper_bound_o_haystack;
-}
-
-// -----------------------------------------------------------------------------
-
 // In a sorted array, binary search between
 // [loc_lower_bound_o_haystack, loc_upper_bound_o_haystack]
 // to find the first occurrence of `val_needle`
-- 
2.43.0


From e464a05f3006022b6499bc61117c751f41b83509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 09/56] fix: check that the size given to vec_recycle() is a
 single number

---
 src/size.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/size.c b/src/size.c
index cc6668b..6175f26 100644
--- a/src/size.c
+++ b/src/size.c
@@ -242,7 +242,8 @@ r_obj* ffi_recycle(r_obj* x,
                            vec_args.empty,
                            vec_args.empty,
                            recycle_call));
-  R_len_t size = r_int_get(size_obj, 0);
+  struct vctrs_arg size_arg = new_wrapper_arg(NULL, "size");
+  R_len_t size = vec_as_short_length(size_obj, &size_arg, recycle_call);
   FREE(1);
 
   struct r_lazy x_arg_ = { .x = syms.x_arg, .env = frame };
-- 
2.43.0


From 39f978eafcedf116b7d96fd3b64002f20900d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 10/56] fix: return an integer location for missing names in
 vec_as_location2()

---
 R/subscript-loc.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..07b3cc8 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -236,7 +236,8 @@ vec_as_location2_result <- function(i,
         call = call
       ))
     } else {
-      result <- result(i)
+      # A missing name is a missing location
+      result <- result(set_names(NA_integer_, names(i)))
     }
     return(result)
   }
-- 
2.43.0


From 98aadadf190c4706dc0d51eb35508733fb51bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 11/56] fix: don't modify the fields of records in place when
 assigning to them

---
 src/owned.h        | 8 ++++++++
 src/slice-assign.c | 4 ++--
 src/slice-assign.h | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/owned.h b/src/owned.h
index 3d8d226..c5e0720 100644
--- a/src/owned.h
+++ b/src/owned.h
@@ -10,6 +10,14 @@ static inline enum vctrs_owned vec_owned(SEXP x) {
   return NO_REFERENCES(x) ? VCTRS_OWNED_true : VCTRS_OWNED_false;
 }
 
+// Assignment extends ownership to the columns of a data frame proxy. The
+// proxy itself can be fresh (e.g. made by a `vec_proxy()` method) and yet
+// hold columns that belong to the proxied object, so not having references
+// only tells us that we own the columns when there are none.
+static inline enum vctrs_owned vec_assign_owned(SEXP proxy) {
+  return TYPEOF(proxy) == VECSXP ? VCTRS_OWNED_false : vec_owned(proxy);
+}
+
 // Wrapper around `r_clone_referenced()` that only attempts to clone if
 // we indicate that we don't own `x`
 static inline SEXP vec_clone_referenced(SEXP x, const enum vctrs_owned owned) {
diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..66f1471 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -32,7 +32,7 @@ r_obj* vec_assign_opts(r_obj* x,
   value = KEEP(vec_check_recycle(value, vec_size(index), opts.value_arg, opts.call));
 
   r_obj* proxy = KEEP(vec_proxy(x));
-  const enum vctrs_owned owned = vec_owned(proxy);
+  const enum vctrs_owned owned = vec_assign_owned(proxy);
   proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
@@ -435,7 +435,7 @@ r_obj* ffi_assign_seq(r_obj* x,
   value = KEEP(vec_check_recycle(value, vec_subscript_size(index), vec_args.value, call));
 
   r_obj* proxy = KEEP(vec_proxy(x));
-  const enum vctrs_owned owned = vec_owned(proxy);
+  const enum vctrs_owned owned = vec_assign_owned(proxy);
   proxy = KEEP(vec_proxy_check_assign(proxy, index, value, vec_args.x, vec_args.value, call));
 
   r_obj* out = vec_restore(proxy, x, owned);
diff --git a/src/slice-assign.h b/src/slice-assign.h
index ccadf73..d4ad7a2 100644
--- a/src/slice-assign.h
+++ b/src/slice-assign.h
@@ -69,7 +69,7 @@ r_obj* vec_proxy_assign(r_obj* proxy,
                         r_obj* index,
                         r_obj* value) {
   struct vec_assign_opts args = { 0 };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &args);
+  return vec_proxy_assign_opts(proxy, index, value, vec_assign_owned(proxy), &args);
 }
 
 static inline
@@ -84,7 +84,7 @@ r_obj* vec_proxy_check_assign(r_obj* proxy,
     .value_arg = value_arg,
     .call = call
   };
-  return vec_proxy_assign_opts(proxy, index, value, vec_owned(proxy), &opts);
+  return vec_proxy_assign_opts(proxy, index, value, vec_assign_owned(proxy), &opts);
 }
 
 r_obj* chr_assign(r_obj* out,
-- 
2.43.0


From 2fdc93d984535d7c9462394234d8ce48ac286e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 12/56] fix: don't leave banned names behind when stripping
 positions in unique names

---
 src/names.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/names.c b/src/names.c
index 5f08908..92f4420 100644
--- a/src/names.c
+++ b/src/names.c
@@ -297,6 +297,12 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
+
+      // What remains might be a banned name like `...` or `..1`
+      if (needs_suffix(elt)) {
+        elt = strings_empty;
+      }
+
       r_chr_poke(new_names, i, elt);
       continue;
     }
-- 
2.43.0


From 7378d1b1fe64a4a72c23ff2898458fe311375254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:23 +0000
Subject: [PATCH 13/56] fix: leave missing values at the locations of NULL
 elements in list_unchop() fallbacks

---
 src/c-unchop.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..37653d0 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -269,6 +269,13 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     .call = error_call
   };
 
+  // `NULL` elements don't contribute any value to `out`
+  for (r_ssize j = 0; j < xs_size; ++j) {
+    if (r_list_get(xs, j) == r_null) {
+      r_list_poke(indices, j, r_globals.empty_int);
+    }
+  }
+
   indices = KEEP(vec_c(
     indices,
     r_globals.empty_int,
@@ -279,6 +286,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
   ));
 
   const int* p_indices = r_int_cbegin(indices);
+  const r_ssize n_indices = r_length(indices);
 
   r_obj* locations = KEEP(r_alloc_integer(out_size));
   int* p_locations = r_int_begin(locations);
@@ -288,7 +296,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[i] = r_globals.na_int;
   }
 
-  for (r_ssize i = 0; i < out_size; ++i) {
+  for (r_ssize i = 0; i < n_indices; ++i) {
     const int index = p_indices[i];
 
     if (index == r_globals.na_int) {
-- 
2.43.0


From 726a5a1fd7126cd78ce834c31a165105e390663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 14/56] fix: don't repeat elements when base::c() fallbacks
 combine empty and unspecified inputs

---
 R/c.R | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/R/c.R b/R/c.R
index 0838809..b362e3e 100644
--- a/R/c.R
+++ b/R/c.R
@@ -118,10 +118,7 @@ fallback_is_unspecified <- function(x) {
 }
 
 c_locs <- function(xs) {
-  locs <- reduce(lengths(xs), .init = list(0), function(output, input) {
-    n <- last(last(output))
-    c(output, list(seq(n + 1, n + input)))
-  })
-
-  locs[-1]
+  sizes <- unname(lengths(xs))
+  ends <- cumsum(sizes)
+  map2(ends - sizes, sizes, function(start, size) start + seq_len(size))
 }
-- 
2.43.0


From 366e0e2d1f2c27cfff4f54e52afe0f23a13afe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 15/56] fix: combine fallback columns of data frames in the
 right order in vec_c() and list_unchop()

---
 src/bind.c               |  2 +-
 src/c-unchop.c           | 19 +++++++-------
 src/c.c                  | 56 +++++++++++++++++++++++++++++++---------
 src/c.h                  | 16 ++++++++++++
 src/decl/c-unchop-decl.h | 10 -------
 5 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..039f789 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -240,7 +240,7 @@ r_obj* vec_rbind(r_obj* xs,
     r_attrib_poke(out, r_syms.row_names, row_names);
   }
 
-  df_c_fallback(out, ptype, xs, n_rows, name_spec, name_repair, error_call);
+  df_c_fallback(out, ptype, xs, r_null, n_rows, name_spec, name_repair, error_call);
   out = vec_restore_recurse(out, ptype, VCTRS_OWNED_true);
   KEEP_AT(out, out_pi);
 
diff --git a/src/c-unchop.c b/src/c-unchop.c
index 37653d0..8e28173 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -1,11 +1,6 @@
 #include "rlang-types.h"
 #include "vctrs.h"
 
-enum fallback_homogeneous {
-  FALLBACK_HOMOGENEOUS_false = 0,
-  FALLBACK_HOMOGENEOUS_true
-};
-
 #include "decl/c-unchop-decl.h"
 
 
@@ -111,7 +106,10 @@ r_obj* list_unchop(r_obj* xs,
   struct cast_opts unchop_cast_opts = {
     .to = ptype,
     .p_x_arg = p_x_arg,
-    .call = error_call
+    .call = error_call,
+    .fallback = {
+      .s3 = S3_FALLBACK_true
+    }
   };
 
   const struct vec_assign_opts unchop_assign_opts = {
@@ -121,6 +119,9 @@ r_obj* list_unchop(r_obj* xs,
     .call = error_call
   };
 
+  // The fallback for data frame columns needs the recycled and cast inputs
+  xs = KEEP(r_clone_referenced(xs));
+
   for (; i < xs_size; ++i) {
     r_obj* x = r_list_get(xs, i);
 
@@ -155,6 +156,7 @@ r_obj* list_unchop(r_obj* xs,
 
     unchop_cast_opts.x = x;
     x = KEEP(vec_cast_opts(&unchop_cast_opts));
+    r_list_poke(xs, i, x);
 
     // Total ownership of `proxy` because it was freshly created with `vec_init()`
     proxy = vec_proxy_assign_opts(proxy, loc, x, VCTRS_OWNED_true, &unchop_assign_opts);
@@ -164,7 +166,7 @@ r_obj* list_unchop(r_obj* xs,
   }
 
   if (is_data_frame(proxy)) {
-    df_c_fallback(proxy, ptype, xs, out_size, name_spec, name_repair, error_call);
+    df_c_fallback(proxy, ptype, xs, indices, out_size, name_spec, name_repair, error_call);
   }
   r_obj* out = KEEP(vec_restore_recurse(proxy, ptype, VCTRS_OWNED_true));
 
@@ -179,7 +181,7 @@ r_obj* list_unchop(r_obj* xs,
     out = vec_set_names(out, r_null);
   }
 
-  FREE(7);
+  FREE(8);
   return out;
 }
 
@@ -219,7 +221,6 @@ r_obj* ffi_list_unchop(r_obj* x,
 // This is essentially:
 // vec_slice_fallback(vec_c_fallback_invoke(!!!x), order(vec_c(!!!indices)))
 // with recycling of each element of `x` to the corresponding index size
-static
 r_obj* list_unchop_fallback(r_obj* ptype,
                             r_obj* xs,
                             r_obj* indices,
diff --git a/src/c.c b/src/c.c
index 8d20628..6a9eb36 100644
--- a/src/c.c
+++ b/src/c.c
@@ -109,6 +109,19 @@ r_obj* vec_c_opts(r_obj* xs,
     .call = error_call
   };
 
+  // The fallback for data frame columns combines the columns of `xs` by
+  // position, so these need to be cast to the columns of `ptype` first
+  bool df_fallback =
+    is_data_frame(out) &&
+    fallback_opts->s3 &&
+    is_data_frame(ptype) &&
+    df_needs_fallback(ptype);
+
+  if (df_fallback) {
+    xs = r_clone_referenced(xs);
+  }
+  KEEP(xs);
+
   for (; i < xs_size; ++i) {
     r_obj* x = r_list_get(xs, i);
     r_ssize size = p_sizes[i];
@@ -134,13 +147,17 @@ r_obj* vec_c_opts(r_obj* xs,
       FREE(2);
     }
 
-    if (!size) {
+    if (!size && !(df_fallback && x != r_null)) {
       continue;
     }
 
     c_cast_opts.x = x;
     x = KEEP(vec_cast_opts(&c_cast_opts));
 
+    if (df_fallback) {
+      r_list_poke(xs, i, x);
+    }
+
     // Total ownership of `out` because it was freshly created with `vec_init()`
     out = vec_proxy_assign_opts(out, loc, x, VCTRS_OWNED_true, &c_assign_opts);
     KEEP_AT(out, out_pi);
@@ -150,7 +167,7 @@ r_obj* vec_c_opts(r_obj* xs,
   }
 
   if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, xs, out_size, name_spec, name_repair, error_call);
+    df_c_fallback(out, ptype, xs, r_null, out_size, name_spec, name_repair, error_call);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -165,7 +182,7 @@ r_obj* vec_c_opts(r_obj* xs,
     out = vec_set_names(out, r_null);
   }
 
-  FREE(8);
+  FREE(9);
   return out;
 }
 
@@ -363,6 +380,7 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call) {
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
+                   r_obj* indices,
                    r_ssize n_rows,
                    r_obj* name_spec,
                    const struct name_repair_opts* name_repair,
@@ -393,19 +411,33 @@ void df_c_fallback(r_obj* out,
     if (is_data_frame(col) && df_needs_fallback(ptype_col)) {
       r_obj* xs_col = KEEP(list_pluck(xs, i));
       r_obj* out_col = r_list_get(out, i);
-      df_c_fallback(out_col, ptype_col, xs_col, n_rows, name_spec, name_repair, error_call);
+      df_c_fallback(out_col, ptype_col, xs_col, indices, n_rows, name_spec, name_repair, error_call);
       FREE(1);
     } else if (vec_is_common_class_fallback(ptype_col)) {
       r_obj* xs_col = KEEP(list_pluck(xs, i));
 
-      r_obj* out_col = vec_c_fallback(
-        ptype_col,
-        xs_col,
-        name_spec,
-        name_repair,
-        vec_args.empty,
-        error_call
-      );
+      r_obj* out_col;
+      if (indices == r_null) {
+        out_col = vec_c_fallback(
+          ptype_col,
+          xs_col,
+          name_spec,
+          name_repair,
+          vec_args.empty,
+          error_call
+        );
+      } else {
+        out_col = list_unchop_fallback(
+          ptype_col,
+          xs_col,
+          indices,
+          name_spec,
+          name_repair,
+          FALLBACK_HOMOGENEOUS_false,
+          vec_args.empty,
+          error_call
+        );
+      }
       r_list_poke(out, i, out_col);
 
       if (vec_size(out_col) != n_rows) {
diff --git a/src/c.h b/src/c.h
index 91aecdb..cfe3379 100644
--- a/src/c.h
+++ b/src/c.h
@@ -34,9 +34,25 @@ r_obj* vec_c_fallback(r_obj* ptype,
 bool needs_vec_c_fallback(r_obj* ptype);
 bool needs_vec_c_homogeneous_fallback(r_obj* xs, r_obj* ptype);
 
+enum fallback_homogeneous {
+  FALLBACK_HOMOGENEOUS_false = 0,
+  FALLBACK_HOMOGENEOUS_true
+};
+
+r_obj* list_unchop_fallback(r_obj* ptype,
+                            r_obj* xs,
+                            r_obj* indices,
+                            r_obj* name_spec,
+                            const struct name_repair_opts* name_repair,
+                            enum fallback_homogeneous homogeneous,
+                            struct vctrs_arg* p_error_arg,
+                            struct r_lazy error_call);
+
+// Pass `r_null` as `indices` to combine the elements of `xs` in order
 void df_c_fallback(r_obj* out,
                    r_obj* ptype,
                    r_obj* xs,
+                   r_obj* indices,
                    r_ssize n_rows,
                    r_obj* name_spec,
                    const struct name_repair_opts* name_repair,
diff --git a/src/decl/c-unchop-decl.h b/src/decl/c-unchop-decl.h
index 04ed327..e512aa7 100644
--- a/src/decl/c-unchop-decl.h
+++ b/src/decl/c-unchop-decl.h
@@ -6,13 +6,3 @@ r_obj* list_unchop(r_obj* xs,
                    const struct name_repair_opts* name_repair,
                    struct vctrs_arg* p_error_arg,
                    struct r_lazy error_call);
-
-static
-r_obj* list_unchop_fallback(r_obj* ptype,
-                            r_obj* xs,
-                            r_obj* indices,
-                            r_obj* name_spec,
-                            const struct name_repair_opts* name_repair,
-                            enum fallback_homogeneous homogenous,
-                            struct vctrs_arg* p_error_arg,
-                            struct r_lazy error_call);
-- 
2.43.0


From e3fc569246a43849d684fa5eab0082adf8df5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:09 +0000
Subject: [PATCH 16/56] fix: restore the underlying class of AsIs vectors

---
 R/type-asis.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/type-asis.R b/R/type-asis.R
index 8ba2b96..622b601 100644
--- a/R/type-asis.R
+++ b/R/type-asis.R
@@ -35,7 +35,9 @@ vec_proxy.AsIs <- function(x, ...) {
 
 #' @export
 vec_restore.AsIs <- function(x, to, ...) {
-  asis_restore(x)
+  # Restore the underlying class first, the proxy might not carry it
+  out <- vec_restore(x, asis_strip(to))
+  asis_restore(out)
 }
 
 #' @export
-- 
2.43.0


From 0ad9907268cec56c7458727ccfe0ab3103272a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 17/56] fix: don't report NaN as a lossy location when casting
 doubles to logical

---
 R/type-bare.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-bare.R b/R/type-bare.R
index 0267fdb..0c74452 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -218,7 +218,7 @@ vec_cast.logical.double <- function(x,
     to_arg = to_arg,
     call = call
   )
-  lossy <- !x %in% c(0, 1, NA_real_)
+  lossy <- !x %in% c(0, 1, NA_real_, NaN)
   maybe_lossy_cast(
     out,
     x,
-- 
2.43.0


From aded477b5b92b21f2862fc358d2f843abfffd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 18/56] fix: casts from and to integer64 that lose values are
 lossy-cast errors

---
 R/type-integer64.R | 58 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 765c856..72dd3ac 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -88,8 +88,23 @@ vec_cast.integer64.integer <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer integer64
-vec_cast.integer.integer64 <- function(x, to, ...) {
-  as.integer(x)
+vec_cast.integer.integer64 <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- suppressWarnings(as.integer(x))
+  lossy <- is.na(out) & !is.na(x)
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
@@ -106,14 +121,45 @@ vec_cast.logical.integer64 <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer64 double
-vec_cast.integer64.double <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.double <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(bit64::as.integer64(x))
+  lossy <- !is.na(x) & (is.na(out) | x != trunc(x))
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.double integer64
-vec_cast.double.integer64 <- function(x, to, ...) {
-  as.double(x)
+vec_cast.double.integer64 <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(as.double(x))
+  back <- suppressWarnings(bit64::as.integer64(out))
+  lossy <- !is.na(x) & (is.na(back) | back != x)
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From 822ad0d2f10c0c7046433af2636c790cc45a0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 19/56] fix: don't fail on non-finite elements when checking
 date-time to date casts for losses

---
 R/type-date-time.R | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..de32319 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -241,9 +241,13 @@ vec_cast.Date.POSIXlt <- function(x, to, ...) {
 date_cast <- function(x, to, ..., x_arg = "", to_arg = "") {
   out <- as.Date(x, tz = tzone(x))
 
+  # Non-finite dates don't represent a day that can be parsed
+  out_chr <- as.character(out)
+  out_chr[!is.finite(unclass(out))] <- NA_character_
+
   x_ct <- as.POSIXct(x)
-  out_ct <- as.POSIXct(as.character(out), tz = tzone(x))
-  lossy <- abs(x_ct - out_ct) > 1e-9 & !is.na(x)
+  out_ct <- as.POSIXct(out_chr, tz = tzone(x))
+  lossy <- (is.na(out_ct) | abs(x_ct - out_ct) > 1e-9) & !is.na(x)
 
   maybe_lossy_cast(out, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
-- 
2.43.0


From 2c5302601176defebdceba42408332b18eec9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 20/56] fix: don't fail in vec_rbind() when only some inputs
 have names for their rows

With `.names_to = NULL`, an input without an outer name and without row names
got the size one empty name assigned to all its rows, an internal error.
---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index 039f789..455651f 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -219,7 +219,7 @@ r_obj* vec_rbind(r_obj* xs,
 
         // If there is no name to assign, skip the assignment since
         // `out_names` already contains empty strings
-        if (inner != chrs_empty) {
+        if (x_nms != chrs_empty) {
           row_names = chr_assign(row_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(row_names, rownames_pi);
         }
-- 
2.43.0


From 2ea76c93dab49c07b112f44062f4a2f184fc5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:52 +0000
Subject: [PATCH 21/56] fix: don't take the absolute value of a missing
 location

---
 src/subscript-loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript-loc.c b/src/subscript-loc.c
index eb76a65..b0d50b8 100644
--- a/src/subscript-loc.c
+++ b/src/subscript-loc.c
@@ -362,7 +362,7 @@ r_obj* int_filter_oob(r_obj* subscript, r_ssize n, r_ssize n_oob) {
   for (r_ssize i = 0; i < n_subscript; ++i) {
     const int elt = v_subscript[i];
 
-    if (abs(elt) <= n || elt == r_globals.na_int) {
+    if (elt == r_globals.na_int || abs(elt) <= n) {
       v_out[j] = elt;
 
       if (has_names) {
-- 
2.43.0


From 08cf14f5481d788d9604ef1a6a73b90d45c1d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 22/56] fix: treat compact row names of missing size as missing
 row names

---
 src/type-data-frame.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 1e4c2d8..12b4903 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -416,7 +416,9 @@ enum rownames_type rownames_type(r_obj* x) {
 
 static
 r_ssize compact_rownames_length(r_obj* x) {
-  return abs(r_int_get(x, 1));
+  const int n = r_int_get(x, 1);
+  // A missing size is as corrupt as missing row names, see `df_size()`
+  return n == r_globals.na_int ? -1 : abs(n);
 }
 
 // [[ include("type-data-frame.h") ]]
-- 
2.43.0


From 86a3583d1483c96e7a10c1c95b546a19627123b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 23/56] fix: reject NaN as the location of a record field

---
 src/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields.c b/src/fields.c
index 5ab2547..f156456 100644
--- a/src/fields.c
+++ b/src/fields.c
@@ -38,7 +38,7 @@ int find_offset(SEXP x, SEXP index) {
   } else if (TYPEOF(index) == REALSXP) {
     double val = REAL(index)[0];
 
-    if (R_IsNA(val))
+    if (ISNAN(val))
       Rf_errorcall(R_NilValue, "Invalid index: NA_real_");
 
     val--;
-- 
2.43.0


From f6862ecf3c406bd9a89e9a705f927cd95ba99440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 24/56] fix: reject NULL needles and haystack in
 vec_locate_matches()

---
 src/match.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/match.c b/src/match.c
index ae8dee3..98c15ea 100644
--- a/src/match.c
+++ b/src/match.c
@@ -155,6 +155,10 @@ r_obj* vec_locate_matches(r_obj* needles,
     &_
   ), &n_prot);
 
+  // `NULL` has a common type with anything but it isn't a vector to match
+  obj_check_vector(needles, needles_arg, error_call);
+  obj_check_vector(haystack, haystack_arg, error_call);
+
   needles = KEEP_N(vec_cast_params(
     needles,
     ptype,
-- 
2.43.0


From 677ab8bbd4c9f9d16796bdd5b669b3ac844810ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:14 +0000
Subject: [PATCH 25/56] fix: reject infinite negative sizes instead of
 converting them

---
 src/size.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/size.c b/src/size.c
index 6175f26..2cd77aa 100644
--- a/src/size.c
+++ b/src/size.c
@@ -348,7 +348,7 @@ r_ssize vec_as_ssize(r_obj* n,
                         vec_arg_format(p_arg));
     }
 
-    if (out > R_SSIZE_MAX) {
+    if (fabs(out) > R_SSIZE_MAX) {
       r_abort_lazy_call(call,
                         "%s is too large a number.",
                         vec_arg_format(p_arg));
-- 
2.43.0


From f07069824a91046f7403ca22b19ab6c4b8f1ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 26/56] fix: check the size of data frame columns before
 accessing their rows

Corrupt data frames, and unbalanced POSIXlt, caused out of bounds reads
and writes when chopped, proxied or assigned to. vec_slice() was already
checking for this.
---
 src/proxy.c        |  7 +++++++
 src/size.c         | 15 +++++++++++++++
 src/size.h         |  1 +
 src/slice-assign.c |  4 ++++
 src/slice-chop.c   |  2 ++
 5 files changed, 29 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index b17ea83..75bca00 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -220,6 +220,13 @@ r_obj* df_proxy(r_obj* x, enum vctrs_proxy_kind kind) {
   // original object within the same function (#1837)
   x = KEEP(r_clone(x));
 
+  const r_ssize n_cols = r_length(x);
+  const r_ssize n_rows = df_size(x);
+
+  for (r_ssize i = 0; i < n_cols; ++i) {
+    df_check_col_size(x, i, n_rows);
+  }
+
   switch (kind) {
   case VCTRS_PROXY_KIND_equal: DF_PROXY(vec_proxy_equal); break;
   case VCTRS_PROXY_KIND_compare: DF_PROXY(vec_proxy_compare); break;
diff --git a/src/size.c b/src/size.c
index 2cd77aa..fb77d63 100644
--- a/src/size.c
+++ b/src/size.c
@@ -197,6 +197,21 @@ r_ssize df_raw_size_from_list(r_obj* x) {
   }
 }
 
+// Accessing rows of a corrupt data frame, with columns of a different size
+// than the data frame itself, would read or write out of bounds
+void df_check_col_size(r_obj* x, r_ssize i, r_ssize size) {
+  r_obj* col = r_list_get(x, i);
+  const r_ssize col_size = r_is_object(col) ? vec_size(col) : vec_raw_size(col);
+
+  if (col_size != size) {
+    r_obj* nms = r_names(x);
+    r_stop_internal("Column `%s` (size %" R_PRI_SSIZE ") must match the data frame (size %" R_PRI_SSIZE ").",
+                    nms == r_null ? "" : r_chr_get_c_string(nms, i),
+                    col_size,
+                    size);
+  }
+}
+
 // [[ register() ]]
 SEXP vctrs_df_size(SEXP x) {
   return r_int(df_raw_size(x));
diff --git a/src/size.h b/src/size.h
index 3dcaec0..d4297e1 100644
--- a/src/size.h
+++ b/src/size.h
@@ -29,6 +29,7 @@ r_ssize df_size(r_obj* x);
 r_ssize df_raw_size(r_obj* x);
 r_ssize df_rownames_size(r_obj* x);
 r_ssize df_raw_size_from_list(r_obj* x);
+void df_check_col_size(r_obj* x, r_ssize i, r_ssize size);
 
 r_ssize vec_as_short_length(r_obj* size,
                             struct vctrs_arg* p_arg,
diff --git a/src/slice-assign.c b/src/slice-assign.c
index 66f1471..62330c5 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -353,7 +353,11 @@ r_obj* df_assign(r_obj* x,
                     n);
   }
 
+  const r_ssize size = df_size(out);
+
   for (r_ssize i = 0; i < n; ++i) {
+    df_check_col_size(out, i, size);
+
     r_obj* out_elt = r_list_get(out, i);
     r_obj* value_elt = r_list_get(value, i);
 
diff --git a/src/slice-chop.c b/src/slice-chop.c
index 1def91a..67e103a 100644
--- a/src/slice-chop.c
+++ b/src/slice-chop.c
@@ -296,6 +296,7 @@ r_obj* chop_df(r_obj* x,
   r_obj* const* v_proxy = r_list_cbegin(proxy);
 
   const r_ssize n_cols = r_length(proxy);
+  const r_ssize n_rows = df_size(proxy);
 
   r_obj* col_names = KEEP(r_names(proxy));
   r_obj* row_names = KEEP(df_rownames(proxy));
@@ -331,6 +332,7 @@ r_obj* chop_df(r_obj* x,
   // into the appropriate data frame column in the `out` list
   for (r_ssize i = 0; i < n_cols; ++i) {
     r_obj* col = v_proxy[i];
+    df_check_col_size(proxy, i, n_rows);
     r_obj* col_chopped = KEEP(vec_chop_unsafe(col, indices, sizes));
     r_obj* const* v_col_chopped = r_list_cbegin(col_chopped);
 
-- 
2.43.0


From 3151951d471d721b7b99bf98954ac80f3329125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:21 +0000
Subject: [PATCH 27/56] fix: balance the components of POSIXlt before treating
 them as columns

---
 R/type-date-time.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index de32319..cfb7e70 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -58,6 +58,10 @@ vec_proxy.POSIXct <- function(x, ...) {
 
 #' @export
 vec_proxy.POSIXlt <- function(x, ...) {
+  # Since R 4.3.0 the components are allowed to have different sizes
+  if (length(unique(lengths(unclass(x)))) > 1L && getRversion() >= "4.3.0") {
+    x <- base::balancePOSIXlt(x)
+  }
   new_data_frame(unclass(x))
 }
 #' @export
-- 
2.43.0


From 6e88857c97bb66dfd5b815694a2e71c04961074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:01 +0000
Subject: [PATCH 28/56] fix: check the size of data frame columns in
 vec_locate_matches()

---
 src/match.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/match.c b/src/match.c
index 98c15ea..f2933c1 100644
--- a/src/match.c
+++ b/src/match.c
@@ -1228,6 +1228,7 @@ r_obj* df_detect_complete_by_col(r_obj* x, r_ssize x_size, r_ssize n_cols) {
 
   for (r_ssize i = 0; i < n_cols; ++i) {
     r_obj* col = v_x[i];
+    df_check_col_size(x, i, x_size);
     // Use completeness to match `vec_rank()` and `vec_match()`
     r_obj* complete = vec_detect_complete(col);
     r_list_poke(out, i, complete);
-- 
2.43.0


From 64defe50a5bf31024752fa1ebcf4b82c158a4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 29/56] fix: don't read out of bounds when repairing names
 stored in a matrix

---
 src/names.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/names.c b/src/names.c
index 92f4420..5c3fb86 100644
--- a/src/names.c
+++ b/src/names.c
@@ -310,7 +310,16 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
 
   // Append all duplicates with a suffix
 
-  r_obj* dups = KEEP(vctrs_duplicated(new_names));
+  // There is one name per element, attributes like dimensions don't matter
+  r_obj* bare_names = new_names;
+  if (r_attrib(new_names) != r_null) {
+    bare_names = r_clone(new_names);
+    r_poke_attrib(bare_names, r_null);
+    r_unmark_object(bare_names);
+  }
+  KEEP(bare_names);
+
+  r_obj* dups = KEEP(vctrs_duplicated(bare_names));
   const int* dups_ptr = r_lgl_cbegin(dups);
 
   for (r_ssize i = 0; i < n; ++i) {
@@ -344,7 +353,7 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     describe_repair(names, new_names);
   }
 
-  FREE(2);
+  FREE(3);
   return new_names;
 }
 
-- 
2.43.0


From 6e29f6aa6d3afa2e8b1100d07d2dd775d8142339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 30/56] fix: broadcast list_of vectors to the shape of the list
 they are cast to

---
 R/type-list-of.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-list-of.R b/R/type-list-of.R
index 72db01c..5260cbf 100644
--- a/R/type-list-of.R
+++ b/R/type-list-of.R
@@ -229,7 +229,7 @@ vec_cast.vctrs_list_of.vctrs_list_of <- function(x, to, ..., call = caller_env()
 
 #' @export
 vec_cast.list.vctrs_list_of <-function(x, to, ...) {
- list_of_unstructure(x)
+  shape_broadcast(list_of_unstructure(x), to, ...)
 }
 #' @export
 vec_cast.vctrs_list_of.list <-function(x, to, ..., call = caller_env()) {
-- 
2.43.0


From 3a6cd15bd4ef959593c335f6e74fd5eafa3a3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 31/56] fix: don't let vec_restore() set attributes on NULL,
 symbols and builtins

---
 src/proxy-restore.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/proxy-restore.c b/src/proxy-restore.c
index b6cd48b..7f65cbb 100644
--- a/src/proxy-restore.c
+++ b/src/proxy-restore.c
@@ -68,6 +68,19 @@ r_obj* vec_restore_default(r_obj* x, r_obj* to, enum vctrs_owned owned) {
     return x;
   }
 
+  // These are never copied, the attributes would be set on the shared object
+  switch (r_typeof(x)) {
+  case R_TYPE_null:
+  case R_TYPE_symbol:
+  case R_TYPE_environment:
+  case R_TYPE_builtin:
+  case R_TYPE_special:
+    r_abort("Can't restore the attributes of a vector on an object of type `%s`.",
+            r_type_as_c_string(r_typeof(x)));
+  default:
+    break;
+  }
+
   int n_prot = 0;
 
   attrib = KEEP(r_clone(attrib));
-- 
2.43.0


From 7dfc03c3d43c244fede7b759ec51a4f218612673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 32/56] fix: clear the integer counting buffer before use, so
 an error part-way leaves no stale counts

---
 src/order.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/order.c b/src/order.c
index 1f4e140..0a13f36 100644
--- a/src/order.c
+++ b/src/order.c
@@ -1308,7 +1308,7 @@ void int_order_counting(const int* p_x,
                         int* p_o,
                         int* p_o_aux,
                         struct group_infos* p_group_infos) {
-  // - Only allocate this once (counts are reset to 0 at end)
+  // - Only allocate this once (counts are reset to 0 below)
   // - Allocating as static allows us to allocate an array this large
   // - `+ 1` to ensure there is room for the extra `NA` bucket
   static r_ssize p_counts[INT_ORDER_COUNTING_RANGE_BOUNDARY + 1] = { 0 };
@@ -1322,6 +1322,13 @@ void int_order_counting(const int* p_x,
     Rf_errorcall(R_NilValue, "Internal error: `range > INT_ORDER_COUNTING_RANGE_BOUNDARY`.");
   }
 
+  // Reset counts before use rather than after, since a longjump on the way
+  // (e.g. from an allocation failure while pushing a group size) would
+  // otherwise leave stale counts behind for the next call.
+  // Only reset what we might touch.
+  // `+ 1` to reset the NA bucket too.
+  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
+
   // Histogram pass
   for (r_ssize i = 0; i < size; ++i) {
     const int elt = p_x[i];
@@ -1396,11 +1403,6 @@ void int_order_counting(const int* p_x,
       p_o[loc] = i + 1;
     }
   }
-
-  // Reset counts for next column.
-  // Only reset what we might have touched.
-  // `+ 1` to reset the NA bucket too.
-  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 2ad7df4e9c581167530e1bdd8416810b28638cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 33/56] fix: don't convert NaN or huge negative sizes to
 integers

---
 src/rlang/rlang.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rlang/rlang.c b/src/rlang/rlang.c
index 935cd9e..03b7f72 100644
--- a/src/rlang/rlang.c
+++ b/src/rlang/rlang.c
@@ -43,10 +43,11 @@ r_ssize r_arg_as_ssize(r_obj* n, const char* arg) {
 
     double out = r_dbl_get(n, 0);
 
-    if (out > R_SSIZE_MAX) {
+    if (out > R_SSIZE_MAX || out < R_SSIZE_MIN) {
       r_abort("`%s` is too large a number.", arg);
     }
-    if (out != (int_least64_t) out) {
+    // Also catches `NaN`, which can't be converted to an integer
+    if (out != floor(out)) {
       r_abort("`%s` must be a whole number, not a decimal number.", arg);
     }
 
-- 
2.43.0


From 5829efda2f98dd61aa9bd4247748ad6f5bcac74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:42 +0000
Subject: [PATCH 34/56] fix: ignore the order of attributes when comparing and
 hashing objects

---
 src/equal.c | 33 ++++++++++++++++++++-------------
 src/hash.c  | 16 +++++++++++++++-
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..eeae5d5 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -384,33 +384,40 @@ SEXP vctrs_equal_object(SEXP x, SEXP y) {
   return Rf_ScalarLogical(equal_object(x, y));
 }
 
-// TODO: Sort attributes by tag before comparison
-
+// The order of attributes is irrelevant. Keep in sync with `attrib_hash()`.
 static inline bool vec_equal_attrib(SEXP x, SEXP y) {
   SEXP x_attrs = ATTRIB(x);
   SEXP y_attrs = ATTRIB(y);
 
-  while (x_attrs != R_NilValue) {
-    if (y_attrs == R_NilValue) {
-      return false;
-    }
+  if (Rf_length(x_attrs) != Rf_length(y_attrs)) {
+    return false;
+  }
 
-    SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(y_attrs);
+  for (; x_attrs != R_NilValue; x_attrs = CDR(x_attrs)) {
+    SEXP tag = TAG(x_attrs);
+    SEXP y_attr = y_attrs;
 
-    if (x_tag != y_tag) {
-      return false;
+    // Usually the attributes are in the same order
+    if (TAG(y_attr) != tag) {
+      y_attr = ATTRIB(y);
+
+      while (y_attr != R_NilValue && TAG(y_attr) != tag) {
+        y_attr = CDR(y_attr);
+      }
+
+      if (y_attr == R_NilValue) {
+        return false;
+      }
     }
 
-    if (!equal_object_normalized(CAR(x_attrs), CAR(y_attrs))) {
+    if (!equal_object_normalized(CAR(x_attrs), CAR(y_attr))) {
       return false;
     }
 
-    x_attrs = CDR(x_attrs);
     y_attrs = CDR(y_attrs);
   }
 
-  return y_attrs == R_NilValue;
+  return true;
 }
 
 
diff --git a/src/hash.c b/src/hash.c
index 154c9fb..f1ae72b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -110,6 +110,7 @@ static uint32_t dbl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
+static uint32_t attrib_hash(SEXP attrib);
 static uint32_t fn_hash(SEXP x);
 static uint32_t sexp_hash(SEXP x);
 
@@ -118,7 +119,20 @@ uint32_t hash_object(SEXP x) {
 
   SEXP attrib = ATTRIB(x);
   if (attrib != R_NilValue) {
-    hash = hash_combine(hash, hash_object(attrib));
+    hash = hash_combine(hash, attrib_hash(attrib));
+  }
+
+  return hash;
+}
+
+// The order of attributes is irrelevant, so combine them with a
+// commutative operation. Keep in sync with `vec_equal_attrib()`.
+static uint32_t attrib_hash(SEXP attrib) {
+  uint32_t hash = 0;
+
+  for (; attrib != R_NilValue; attrib = CDR(attrib)) {
+    uint32_t elt = hash_object(TAG(attrib));
+    hash += hash_combine(elt, hash_object(CAR(attrib)));
   }
 
   return hash;
-- 
2.43.0


From 27a752ba1eb8d5009385961affcb29874c4a2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 35/56] fix: compare and hash row names of objects by value,
 not by compact form

---
 src/equal.c | 12 +++++++++++-
 src/hash.c  | 17 ++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index eeae5d5..047860c 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -410,7 +410,17 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
       }
     }
 
-    if (!equal_object_normalized(CAR(x_attrs), CAR(y_attr))) {
+    if (tag == R_RowNamesSymbol) {
+      // Row names might be stored in different compact forms
+      SEXP x_rn = PROTECT(Rf_getAttrib(x, R_RowNamesSymbol));
+      SEXP y_rn = PROTECT(Rf_getAttrib(y, R_RowNamesSymbol));
+      const bool equal = equal_object_normalized(x_rn, y_rn);
+      UNPROTECT(2);
+
+      if (!equal) {
+        return false;
+      }
+    } else if (!equal_object_normalized(CAR(x_attrs), CAR(y_attr))) {
       return false;
     }
 
diff --git a/src/hash.c b/src/hash.c
index f1ae72b..3fc15c6 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -110,7 +110,7 @@ static uint32_t dbl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
-static uint32_t attrib_hash(SEXP attrib);
+static uint32_t attrib_hash(SEXP x, SEXP attrib);
 static uint32_t fn_hash(SEXP x);
 static uint32_t sexp_hash(SEXP x);
 
@@ -119,7 +119,7 @@ uint32_t hash_object(SEXP x) {
 
   SEXP attrib = ATTRIB(x);
   if (attrib != R_NilValue) {
-    hash = hash_combine(hash, attrib_hash(attrib));
+    hash = hash_combine(hash, attrib_hash(x, attrib));
   }
 
   return hash;
@@ -127,12 +127,19 @@ uint32_t hash_object(SEXP x) {
 
 // The order of attributes is irrelevant, so combine them with a
 // commutative operation. Keep in sync with `vec_equal_attrib()`.
-static uint32_t attrib_hash(SEXP attrib) {
+static uint32_t attrib_hash(SEXP x, SEXP attrib) {
   uint32_t hash = 0;
 
   for (; attrib != R_NilValue; attrib = CDR(attrib)) {
-    uint32_t elt = hash_object(TAG(attrib));
-    hash += hash_combine(elt, hash_object(CAR(attrib)));
+    SEXP tag = TAG(attrib);
+
+    // Row names might be stored in different compact forms
+    SEXP value = (tag == R_RowNamesSymbol) ? Rf_getAttrib(x, tag) : CAR(attrib);
+    PROTECT(value);
+
+    hash += hash_combine(hash_object(tag), hash_object(value));
+
+    UNPROTECT(1);
   }
 
   return hash;
-- 
2.43.0


From 687484ee5d033e4153e78920f0eb5f8096bd7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 36/56] fix: support ALTREP results in lazy character vectors

---
 src/altrep-lazy-character.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/altrep-lazy-character.c b/src/altrep-lazy-character.c
index 7dc5efa..8c906e5 100644
--- a/src/altrep-lazy-character.c
+++ b/src/altrep-lazy-character.c
@@ -58,7 +58,8 @@ r_obj* altrep_lazy_character_Materialize(r_obj* vec) {
 }
 
 void* altrep_lazy_character_Dataptr(r_obj* vec, Rboolean writeable) {
-  return STDVEC_DATAPTR(altrep_lazy_character_Materialize(vec));
+  // `fn()` might have returned an ALTREP vector
+  return DATAPTR(altrep_lazy_character_Materialize(vec));
 }
 
 const void* altrep_lazy_character_Dataptr_or_null(r_obj* vec) {
@@ -67,7 +68,7 @@ const void* altrep_lazy_character_Dataptr_or_null(r_obj* vec) {
   if (out == r_null) {
     return NULL;
   } else {
-    return STDVEC_DATAPTR(out);
+    return DATAPTR_OR_NULL(out);
   }
 }
 
-- 
2.43.0


From 3c26ef3c7b669a04f185decae37baeb8ab7d67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 37/56] fix: keep names when casting factors whose levels are
 stored separately

---
 src/type-factor.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..88aa4e3 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -297,6 +297,8 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
 
   R_len_t x_size = vec_size(x);
 
+  SEXP x_names = PROTECT(Rf_getAttrib(x, R_NamesSymbol));
+
   const SEXP* p_x_levels = STRING_PTR_RO(x_levels);
   const SEXP* p_to_levels = STRING_PTR_RO(to_levels);
 
@@ -310,7 +312,8 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
   }
 
   // No recoding required if contiguous subset.
-  // Duplicate, strip non-factor attributes, and re-initialize with new levels.
+  // Duplicate, strip non-factor attributes except names, and re-initialize with
+  // new levels.
   // Using `r_clone_referenced()` avoids an immediate copy using ALTREP wrappers.
   if (is_contiguous_subset) {
     SEXP out = PROTECT(r_clone_referenced(x));
@@ -322,7 +325,11 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
       init_factor(out, to_levels);
     }
 
-    UNPROTECT(1);
+    if (x_names != R_NilValue) {
+      Rf_setAttrib(out, R_NamesSymbol, x_names);
+    }
+
+    UNPROTECT(2);
     return out;
   }
 
@@ -344,7 +351,7 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
   for (R_len_t i = 0; i < x_levels_size; ++i) {
     if (p_recode[i] == NA_INTEGER) {
       *lossy = true;
-      UNPROTECT(2);
+      UNPROTECT(3);
       return R_NilValue;
     }
   }
@@ -361,7 +368,11 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
     p_out[i] = p_recode[elt - 1];
   }
 
-  UNPROTECT(2);
+  if (x_names != R_NilValue) {
+    Rf_setAttrib(out, R_NamesSymbol, x_names);
+  }
+
+  UNPROTECT(3);
   return out;
 }
 
-- 
2.43.0


From f2d048fb22ee5fe4b2222899acebabd5fccacb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:00 +0000
Subject: [PATCH 38/56] fix: subsetting a record with an empty subscript

---
 R/type-rcrd.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/type-rcrd.R b/R/type-rcrd.R
index c457285..055fad6 100644
--- a/R/type-rcrd.R
+++ b/R/type-rcrd.R
@@ -98,7 +98,8 @@ vec_cast.vctrs_rcrd.vctrs_rcrd <- function(x, to, ...) {
   if (!missing(...)) {
     abort("Can't index record vectors on dimensions greater than 1.")
   }
-  vec_slice(x, maybe_missing(i))
+  i <- maybe_missing(i, TRUE)
+  vec_slice(x, i)
 }
 
 #' @export
-- 
2.43.0


From 2996c14527e7b572d5ff383e664a7d9d36676f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:51 +0000
Subject: [PATCH 39/56] fix: adding a missing duration to a date gives a
 missing date

---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index cfb7e70..05e8062 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -586,7 +586,7 @@ chr_date_as_posixct <- function(x, tzone) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- !is.na(x) & x != x_floor
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From bbf4cb5a4ce72c38295fce5dc4b33b856e1df2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:29 +0000
Subject: [PATCH 40/56] fix: differences of dates and date-times recycle by the
 package's rules

---
 R/type-date-time.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 05e8062..f142766 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -367,7 +367,10 @@ vec_arith.difftime.default <- function(op, x, y, ...) stop_incompatible_op(op, x
 #' @export
 vec_arith.Date.Date <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "days"),
+    `-` = {
+      args <- vec_recycle_common(x, y)
+      difftime(args[[1L]], args[[2L]], units = "days")
+    },
     stop_incompatible_op(op, x, y)
   )
 }
@@ -375,7 +378,10 @@ vec_arith.Date.Date <- function(op, x, y, ...) {
 #' @export
 vec_arith.POSIXct.POSIXct <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "secs"),
+    `-` = {
+      args <- vec_recycle_common(x, y)
+      difftime(args[[1L]], args[[2L]], units = "secs")
+    },
     stop_incompatible_op(op, x, y)
   )
 }
-- 
2.43.0


From c57662c4881f16299ac97d730d2ccac9acee5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:11 +0000
Subject: [PATCH 41/56] fix: reject operations between durations and numbers
 which don't give a duration

---
 R/type-date-time.R | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index f142766..375d087 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -525,13 +525,23 @@ vec_arith.difftime.MISSING <- function(op, x, y, ...) {
 #' @method vec_arith.difftime numeric
 #' @export
 vec_arith.difftime.numeric <- function(op, x, y, ...) {
-  vec_restore(vec_arith_base(op, x, y), x)
+  switch(op,
+    `^` = ,
+    `&` = ,
+    `|` = stop_incompatible_op(op, x, y),
+    vec_restore(vec_arith_base(op, x, y), x)
+  )
 }
 #' @method vec_arith.numeric difftime
 #' @export
 vec_arith.numeric.difftime <- function(op, x, y, ...) {
   switch(op,
-    `/` = stop_incompatible_op(op, x, y),
+    `/` = ,
+    `%/%` = ,
+    `%%` = ,
+    `^` = ,
+    `&` = ,
+    `|` = stop_incompatible_op(op, x, y),
     vec_restore(vec_arith_base(op, x, y), y)
   )
 }
-- 
2.43.0


From 6b061f1183e84dfe5048eb0707de56793db52fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:00 +0000
Subject: [PATCH 42/56] fix: keep missing codes missing when casting to a
 factor with an NA level

---
 R/type-factor.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/type-factor.R b/R/type-factor.R
index 9d260ae..dad3235 100644
--- a/R/type-factor.R
+++ b/R/type-factor.R
@@ -171,6 +171,10 @@ fct_cast_impl <- function(x,
       ordered = ordered,
       exclude = NULL
     )
+    if (is.factor(x)) {
+      # Missing codes stay missing even if `to` has an `NA` level
+      is.na(out) <- is.na(x)
+    }
     maybe_lossy_cast(
       out,
       x,
-- 
2.43.0


From 42990de26a6ead67ca0aae06358e41555cd598de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:28 +0000
Subject: [PATCH 43/56] fix: compare argument names of calls and functions held
 in lists

---
 src/equal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 047860c..b5e912a 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -308,7 +308,12 @@ bool equal_object_normalized(SEXP x, SEXP y) {
   case LANGSXP:
   case LISTSXP:
   case BCODESXP: {
-    if (!equal_object_normalized(ATTRIB(x), ATTRIB(y))) {
+    if (!vec_equal_attrib(x, y)) {
+      return false;
+    }
+
+    // Argument names
+    if (type != BCODESXP && TAG(x) != TAG(y)) {
       return false;
     }
 
@@ -327,7 +332,7 @@ bool equal_object_normalized(SEXP x, SEXP y) {
   }
 
   case CLOSXP:
-    if (!equal_object_normalized(ATTRIB(x), ATTRIB(y))) {
+    if (!vec_equal_attrib(x, y)) {
       return false;
     }
     if (!equal_object_normalized(BODY(x), BODY(y))) {
-- 
2.43.0


From 6400f482afeb449257186bd0c11a14d69277b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:28 +0000
Subject: [PATCH 44/56] fix: compare byte-compiled functions by their
 expression

---
 src/equal.c | 3 ++-
 src/hash.c  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index b5e912a..d9f823f 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -335,7 +335,8 @@ bool equal_object_normalized(SEXP x, SEXP y) {
     if (!vec_equal_attrib(x, y)) {
       return false;
     }
-    if (!equal_object_normalized(BODY(x), BODY(y))) {
+    // Ignores whether the function was byte-compiled
+    if (!equal_object_normalized(R_ClosureExpr(x), R_ClosureExpr(y))) {
       return false;
     }
     if (!equal_object_normalized(CLOENV(x), CLOENV(y))) {
diff --git a/src/hash.c b/src/hash.c
index 3fc15c6..67c0d1e 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -232,7 +232,7 @@ static uint32_t node_hash(SEXP x) {
 
 static uint32_t fn_hash(SEXP x) {
   uint32_t hash = 0;
-  hash = hash_combine(hash, hash_object(BODY(x)));
+  hash = hash_combine(hash, hash_object(R_ClosureExpr(x)));
   hash = hash_combine(hash, hash_object(CLOENV(x)));
   hash = hash_combine(hash, hash_object(FORMALS(x)));
   return hash;
-- 
2.43.0


From a4ab2620087805c347aaf3ec025f992288074d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:20 +0000
Subject: [PATCH 45/56] fix: don't re-encode the attributes of reference
 objects in place

---
 src/translate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/translate.c b/src/translate.c
index c8aac6a..b0cb197 100644
--- a/src/translate.c
+++ b/src/translate.c
@@ -154,6 +154,14 @@ static SEXP attrib_normalize_encoding(SEXP x);
 
 static
 SEXP obj_attrib_normalize_encoding(SEXP x, SEXP attrib) {
+  switch (TYPEOF(x)) {
+  // Reference types can't be cloned and are compared by identity
+  case ENVSXP:
+  case EXTPTRSXP:
+  case WEAKREFSXP: return x;
+  default: break;
+  }
+
   SEXP attrib_new = attrib_normalize_encoding(attrib);
   if (attrib_new == attrib) {
     return x;
-- 
2.43.0


From 94771ea5d197c600dc6c4a9e152c98490a271bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:06 +0000
Subject: [PATCH 46/56] fix: normalise the encoding of strings within calls and
 expressions

---
 src/translate.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/translate.c b/src/translate.c
index b0cb197..734e1e1 100644
--- a/src/translate.c
+++ b/src/translate.c
@@ -43,13 +43,17 @@ SEXP vec_normalize_encoding(SEXP x) {
 
 static SEXP chr_normalize_encoding(SEXP x);
 static SEXP list_normalize_encoding(SEXP x);
+static SEXP node_normalize_encoding(SEXP x);
 static SEXP obj_attrib_normalize_encoding(SEXP x, SEXP attrib);
 
 static inline
 SEXP obj_normalize_encoding(SEXP x) {
   switch (TYPEOF(x)) {
   case STRSXP: x = chr_normalize_encoding(x); break;
+  case EXPRSXP:
   case VECSXP: x = list_normalize_encoding(x); break;
+  case LISTSXP:
+  case LANGSXP: x = node_normalize_encoding(x); break;
   default: break;
   }
 
@@ -150,8 +154,6 @@ SEXP list_normalize_encoding(SEXP x) {
 
 // -----------------------------------------------------------------------------
 
-static SEXP attrib_normalize_encoding(SEXP x);
-
 static
 SEXP obj_attrib_normalize_encoding(SEXP x, SEXP attrib) {
   switch (TYPEOF(x)) {
@@ -162,7 +164,7 @@ SEXP obj_attrib_normalize_encoding(SEXP x, SEXP attrib) {
   default: break;
   }
 
-  SEXP attrib_new = attrib_normalize_encoding(attrib);
+  SEXP attrib_new = node_normalize_encoding(attrib);
   if (attrib_new == attrib) {
     return x;
   }
@@ -176,7 +178,7 @@ SEXP obj_attrib_normalize_encoding(SEXP x, SEXP attrib) {
 }
 
 static
-SEXP attrib_normalize_encoding(SEXP x) {
+SEXP node_normalize_encoding(SEXP x) {
   r_ssize loc = 0;
   bool owned = false;
 
-- 
2.43.0


From 07419eb0fffd54a947fcb8b5294f6cb0eb7e6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:22 +0000
Subject: [PATCH 47/56] fix: support raw and complex elements when hashing
 lists

---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 67c0d1e..210cb9b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -107,7 +107,9 @@ static inline uint32_t list_hash_scalar_na_propagate(SEXP x, R_len_t i) {
 static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
 static uint32_t attrib_hash(SEXP x, SEXP attrib);
@@ -162,7 +164,9 @@ static uint32_t sexp_hash(SEXP x) {
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
+  case CPLXSXP: return cpl_hash(x);
   case STRSXP: return chr_hash(x);
+  case RAWSXP: return raw_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
   case DOTSXP:
@@ -199,9 +203,15 @@ static uint32_t int_hash(SEXP x) {
 static uint32_t dbl_hash(SEXP x) {
   HASH(double, REAL_RO, dbl_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 
 #undef HASH
 
-- 
2.43.0


From e787d1dd1db1a2cde99cfdb0188255a0472194bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:16 +0000
Subject: [PATCH 48/56] fix: report the locations of invalid names within all
 names

---
 R/conditions.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/conditions.R b/R/conditions.R
index 9dbe56f..1569c48 100644
--- a/R/conditions.R
+++ b/R/conditions.R
@@ -733,6 +733,7 @@ cnd_body.vctrs_error_names_cannot_be_dot_dot <- function(cnd, ...) {
   names <- names[locations]
 
   split <- vec_group_loc(names)
+  split$loc <- map(split$loc, function(loc) locations[loc])
 
   info <- map2_chr(split$key, split$loc, make_names_loc_bullet)
 
-- 
2.43.0


From fb12909e1f0c9c1f37a8f58faaf84a7f5c345034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:16 +0000
Subject: [PATCH 49/56] fix: format an empty run-length grouping as no strings

---
 R/group.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/group.R b/R/group.R
index 2c91df2..54b7b3c 100644
--- a/R/group.R
+++ b/R/group.R
@@ -84,7 +84,7 @@ vec_group_rle <- function(x) {
 format.vctrs_group_rle <- function(x, ...) {
   group <- field(x, "group")
   length <- field(x, "length")
-  paste0(group, "x", length)
+  vec_paste0(group, "x", length)
 }
 
 #' @export
-- 
2.43.0


From 59be5e25191fe6116242de48383d33d9ef1dfdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:16 +0000
Subject: [PATCH 50/56] fix: finalise the type of the complement of unspecified
 intervals

---
 src/interval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interval.c b/src/interval.c
index ec12044..88cb40e 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -324,6 +324,7 @@ r_obj* vec_interval_complement(r_obj* start,
     &_
   );
   KEEP_N(ptype, &n_prot);
+  ptype = KEEP_N(vec_ptype_finalise(ptype), &n_prot);
 
   start = vec_cast_params(
     start,
-- 
2.43.0


From 7b23e0a6e78b214faf353057bfc4e56b527f0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:05 +0000
Subject: [PATCH 51/56] fix: min(), max() and range() of a vctr look at all
 their arguments

---
 R/type-vctr.R | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/R/type-vctr.R b/R/type-vctr.R
index 57c9643..021203c 100644
--- a/R/type-vctr.R
+++ b/R/type-vctr.R
@@ -545,6 +545,10 @@ vec_cast_or_na <- function(x, to, ...) {
 
 #' @export
 min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length()) {
+    x <- vec_c(x, ..., .name_spec = zap())
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(Inf, x))
   }
@@ -566,6 +570,10 @@ min.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length()) {
+    x <- vec_c(x, ..., .name_spec = zap())
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(-Inf, x))
   }
@@ -587,6 +595,10 @@ max.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
 
 #' @export
 range.vctrs_vctr <- function(x, ..., na.rm = FALSE) {
+  if (...length()) {
+    x <- vec_c(x, ..., .name_spec = zap())
+  }
+
   if (vec_is_empty(x)) {
     return(vec_cast_or_na(c(Inf, -Inf), x))
   }
-- 
2.43.0


From a650a5a3607d5af2cb70433ed259a20862ab6c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:46 +0000
Subject: [PATCH 52/56] fix: vec_cbind() doesn't take row names from `.ptype`

---
 src/bind.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index 455651f..6e3804a 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -382,7 +382,10 @@ r_obj* vec_cbind(r_obj* xs,
   // Find the common container type of inputs
   r_obj* rownames = r_null;
   r_obj* containers = KEEP(map_with_data(xs, &cbind_container_type, &rownames));
-  ptype = KEEP(cbind_container_type(ptype, &rownames));
+
+  // Only the type of `ptype` matters, don't learn row names from it
+  r_obj* ptype_rownames = r_null;
+  ptype = KEEP(cbind_container_type(ptype, &ptype_rownames));
 
   r_obj* type = KEEP(vec_ptype_common_params(containers,
                                              ptype,
-- 
2.43.0


From 2a15fde270f9a9304915992d9e72ef446865c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:01 +0000
Subject: [PATCH 53/56] fix: casting to a data frame with duplicated column
 names doesn't drop columns silently

---
 R/type-data-frame.R   |  3 ++-
 src/type-data-frame.c | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/R/type-data-frame.R b/R/type-data-frame.R
index b06b3a3..ad861ab 100644
--- a/R/type-data-frame.R
+++ b/R/type-data-frame.R
@@ -365,7 +365,8 @@ df_lossy_cast <- function(out,
                           x_arg = "",
                           to_arg = "",
                           call = caller_env()) {
-  extra <- setdiff(names(x), names(to))
+  used <- seq_along(x) %in% match(names(to), names(x))
+  extra <- unique(names(x)[!used])
 
   maybe_lossy_cast(
     result = out,
diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 12b4903..1ca2246 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -710,6 +710,13 @@ r_obj* df_cast_match(const struct cast_opts* opts,
   r_attrib_poke(out, r_syms.names, to_names);
 
   r_ssize size = df_size(x);
+
+  // Columns of `x` that end up in the output. With duplicated column
+  // names, a column of `x` might be used multiple times or not at all.
+  r_ssize x_len = r_length(x);
+  r_obj* x_used = KEEP(r_alloc_raw(x_len * sizeof(bool)));
+  bool* v_x_used = r_raw_begin(x_used);
+  memset(v_x_used, 0, x_len * sizeof(bool));
   r_ssize common_len = 0;
 
   r_ssize i = 0;
@@ -740,7 +747,10 @@ r_obj* df_cast_match(const struct cast_opts* opts,
       }
     } else {
       --pos; // 1-based index
-      ++common_len;
+      if (!v_x_used[pos]) {
+        v_x_used[pos] = true;
+        ++common_len;
+      }
       x_arg_loc = pos;
 
       struct cast_opts col_opts = {
@@ -762,7 +772,7 @@ r_obj* df_cast_match(const struct cast_opts* opts,
   init_data_frame(out, size);
   r_attrib_poke(out, r_syms.row_names, df_rownames(x));
 
-  r_ssize extra_len = r_length(x) - common_len;
+  r_ssize extra_len = x_len - common_len;
   if (extra_len) {
     r_obj* ffi_x_arg = KEEP(vctrs_arg(opts->p_x_arg));
     r_obj* ffi_to_arg = KEEP(vctrs_arg(opts->p_to_arg));
@@ -777,7 +787,7 @@ r_obj* df_cast_match(const struct cast_opts* opts,
     FREE(3);
   }
 
-  FREE(4);
+  FREE(5);
   return out;
 }
 
-- 
2.43.0


From b9160ea0d9b06f8fd17199c367f27317914f61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:29 +0000
Subject: [PATCH 54/56] fix: casting to a record keeps the attributes of the
 target

---
 R/type-rcrd.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-rcrd.R b/R/type-rcrd.R
index 055fad6..f22481b 100644
--- a/R/type-rcrd.R
+++ b/R/type-rcrd.R
@@ -87,7 +87,7 @@ vec_cast.vctrs_rcrd <- function(x, to, ...) UseMethod("vec_cast.vctrs_rcrd")
 #' @export
 vec_cast.vctrs_rcrd.vctrs_rcrd <- function(x, to, ...) {
   out <- vec_cast(vec_data(x), vec_data(to), ...)
-  new_rcrd(out)
+  vec_restore(out, to)
 }
 
 
-- 
2.43.0


From 2dee07ec0b68599f0ea4e0b18facb30d5a0c9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:53 +0000
Subject: [PATCH 55/56] fix: `[[` and `[[<-` of a record take exactly one
 location

---
 R/type-rcrd.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/type-rcrd.R b/R/type-rcrd.R
index f22481b..0336364 100644
--- a/R/type-rcrd.R
+++ b/R/type-rcrd.R
@@ -104,6 +104,7 @@ vec_cast.vctrs_rcrd.vctrs_rcrd <- function(x, to, ...) {
 
 #' @export
 `[[.vctrs_rcrd` <- function(x, i, ...) {
+  i <- vec_as_location2(i, vec_size(x))
   out <- vec_slice(vec_data(x), i)
   vec_restore(out, x)
 }
@@ -129,7 +130,7 @@ rep.vctrs_rcrd <- function(x, ...) {
 
 #' @export
 `[[<-.vctrs_rcrd` <- function(x, i, value) {
-  force(i)
+  i <- vec_as_location2(i, vec_size(x))
   x[i] <- value
   x
 }
-- 
2.43.0


From ddf73d3043d2bf354dbe70e8d3a4846c4c47091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:50 +0000
Subject: [PATCH 56/56] fix: don't share the attributes of unspecified vectors

Changing an attribute of one in place changed all the others, including
those created later in the session.
---
 src/unspecified.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/unspecified.c b/src/unspecified.c
index c49b468..74b67fa 100644
--- a/src/unspecified.c
+++ b/src/unspecified.c
@@ -10,10 +10,14 @@ SEXP vec_unspecified(R_len_t n) {
   SEXP out = PROTECT(Rf_allocVector(LGLSXP, n));
 
   r_lgl_fill(out, NA_LOGICAL, n);
-  SET_ATTRIB(out, unspecified_attrib);
+
+  // Don't share the attributes between vectors because they can be
+  // modified in place from the R side
+  SEXP attrib = PROTECT(Rf_shallow_duplicate(unspecified_attrib));
+  SET_ATTRIB(out, attrib);
   SET_OBJECT(out, 1);
 
-  UNPROTECT(1);
+  UNPROTECT(2);
   return out;
 }
 
@@ -41,13 +45,7 @@ bool vec_is_unspecified(SEXP x) {
 
   SEXP attrib = ATTRIB(x);
 
-  if (attrib == unspecified_attrib) {
-    return true;
-  }
-
   if (attrib != R_NilValue) {
-    // The unspecified vector might have been created outside the
-    // session (e.g. serialisation)
     if (Rf_inherits(x, "vctrs_unspecified")) {
       return true;
     }
-- 
2.43.0

