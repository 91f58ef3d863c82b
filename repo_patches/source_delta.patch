From 99de0e817f4d461f489e12970a0680726264a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 01/30] fix: do not fix an empty column twice when its bounds
 are equal

---
 src/explorers/SimpleReductions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..aa794d4 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,6 +691,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
+            // an empty column is fixed by remove_empty_cols; fixing it here as
+            // well would add its contribution to the objective offset twice
+            if (col_sizes[ii] == 0)
+            {
+                continue;
+            }
+
             // no need to check return value since bounds are equal
             fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
         }
-- 
2.43.0


From a56deacc6221b055f8092ca73fcd80d3d0ea8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 02/30] fix: report infeasibility detected by doubleton bound
 transfers

---
 src/core/Presolver.c    |  4 ++++
 src/explorers/DtonsEq.c | 46 ++++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..8faf01f 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -475,12 +475,16 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
         // after removing singleton columns, there can be new empty columns
         // and singleton rows, but no empty rows
         assert(prob->constraints->state->empty_rows->len == 0);
+        RETURN_IF_NOT_UNCHANGED(status);
         status |= run_trivial_explorers(prob, stgs);
+        RETURN_IF_NOT_UNCHANGED(status);
     }
 
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_NOT_UNCHANGED(status);
+
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..1fc540f 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -186,9 +186,10 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
 }
 
 // lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
@@ -198,18 +199,26 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_ub(constraints, stay, new_ub_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_lb(constraints, stay, new_lb_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
         }
     }
     else
@@ -217,20 +226,30 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_lb(constraints, stay, new_lb_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            if (update_ub(constraints, stay, new_ub_cand,
+                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+            {
+                return INFEASIBLE;
+            }
         }
     }
+
+    return UNCHANGED;
 }
 
 #ifndef TESTING
@@ -701,8 +720,11 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        if (modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb,
+                          bounds[k].ub, j, col_tags[k]) == INFEASIBLE)
+        {
+            return INFEASIBLE;
+        }
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +773,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +790,5 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
     return UNCHANGED;
 }
-- 
2.43.0


From 2058f78b2877fa8f53a251a7c43405dfd195513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 03/30] fix: postsolve of columns fixed to infinity

Free rows put no restriction on the variable, and columns that were fixed to
finite values in the same pass are retrieved after it, so their contribution
must be moved to the side that is stored.
---
 src/core/Postsolver.c | 75 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..bd820f7 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -210,7 +210,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         }
     }
 
-    assert(!IS_ABS_INF(extreme_val));
+    // a free variable that only appears in free rows can take any value
+    if (IS_ABS_INF(extreme_val))
+    {
+        extreme_val = 0.0;
+    }
+
     sol->x[col] = extreme_val;
     sol->z[col] = 0.0;
 }
@@ -684,38 +689,84 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, k, row, row_len;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
     RowTag *row_tags = constraints->row_tags;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
+    const int *row_cols;
+    const double *row_vals;
     double side;
 
     int *rows = AT->i + AT->p[col].start;
     int n_rows = AT->p[col].end - constraints->AT->p[col].start;
+    int n_rows_finite = 0;
+
+    // rows that are free put no restriction on the variable
+    for (i = 0; i < n_rows; ++i)
+    {
+        n_rows_finite += !(HAS_TAG(row_tags[rows[i]], R_TAG_LHS_INF) &&
+                           HAS_TAG(row_tags[rows[i]], R_TAG_RHS_INF));
+    }
 
     u16Vec_append(info->type, FIXED_COL_INF);
     iVec_append(info->indices, pos_inf);
     iVec_append(info->indices, col);
-    dVec_append(info->vals, (double) n_rows);
+    dVec_append(info->vals, (double) n_rows_finite);
     dVec_append(info->vals, bound);
 
     for (i = 0; i < n_rows; ++i)
     {
         row = rows[i];
+
+        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            continue;
+        }
+
+        assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+        row_cols = A->i + A->p[row].start;
+        row_vals = A->x + A->p[row].start;
+        row_len = 0;
+
+        // Variables that have been fixed to finite values but have not yet been
+        // removed from the row are retrieved after this variable, so we move
+        // their contribution to the side.
+        for (j = 0; j < row_sizes[row]; ++j)
+        {
+            k = row_cols[j];
+
+            if (HAS_TAG(col_tags[k], C_TAG_FIXED) && !IS_ABS_INF(bounds[k].lb))
+            {
+                side -= row_vals[j] * bounds[k].lb;
+            }
+            else
+            {
+                row_len++;
+            }
+        }
+
         dVec_append(info->vals, side);
-        dVec_append_array(info->vals, A->x + A->p[row].start,
-                          (size_t) row_sizes[row]);
-        iVec_append(info->indices, row_sizes[row]);
-        iVec_append_array(info->indices, A->i + A->p[row].start,
-                          (size_t) row_sizes[row]);
-
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
-        assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
+        iVec_append(info->indices, row_len);
+
+        for (j = 0; j < row_sizes[row]; ++j)
+        {
+            k = row_cols[j];
+
+            if (HAS_TAG(col_tags[k], C_TAG_FIXED) && !IS_ABS_INF(bounds[k].lb))
+            {
+                continue;
+            }
+
+            dVec_append(info->vals, row_vals[j]);
+            iVec_append(info->indices, k);
+        }
     }
 
     iVec_append(info->starts, (int) info->indices->len);
-- 
2.43.0


From 4bff3824650c118942dbb46d2bdc8d64f9b1374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 04/30] fix: store the bounds tag of a parallel column before
 merging

---
 src/explorers/Parallel_cols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..a06cb2b 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -52,6 +52,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     int ii, jj, j, k, len_j;
     const int *aj_cols;
     double ratio, cj, ck, ak0, lb_j_old, ub_j_old;
+    ColTag tag_j_old;
     const double *aj_vals;
 
     for (ii = 0; ii < bin_size - 1; ++ii)
@@ -97,6 +98,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +164,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From bdde9545124cfc4e097f4ee2b2fbd74b83eab2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 05/30] fix: keep row activities correct while parallel columns
 are merged

---
 src/explorers/Parallel_cols.c | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index a06cb2b..83d321a 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -32,6 +32,24 @@
 #include "Tags.h"
 #include "Workspace.h"
 
+/* Recounts the number of infinite contributions to the activities of the given
+   rows. */
+static void recount_n_infs_of_rows(const Constraints *constraints, const int *rows,
+                                   int n_rows)
+{
+    const Matrix *A = constraints->A;
+    Activity *acts = constraints->state->activities;
+
+    for (int i = 0; i < n_rows; i++)
+    {
+        int row = rows[i];
+
+        recompute_n_infs(acts + row, A->x + A->p[row].start,
+                         A->i + A->p[row].start, A->p[row].end - A->p[row].start,
+                         constraints->col_tags);
+    }
+}
+
 static inline PresolveStatus process_single_bin(const Problem *prob, const int *bin,
                                                 int bin_size)
 {
@@ -42,7 +60,6 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
     const Matrix *AT = constraints->AT;
     const RowRange *col_ranges = AT->p;
     const double *c = prob->obj->c;
-    Activity *acts = constraints->state->activities;
     iVec *sub_cols_to_delete = constraints->state->sub_cols_to_delete;
     PostsolveInfo *postsolve_info = constraints->state->postsolve_info;
 
@@ -165,6 +182,11 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
                                             tag_j_old, col_tags[k]);
+
+                // column k is removed from the matrix later, until then it must
+                // not contribute to the activities
+                bounds[k].lb = 0.0;
+                bounds[k].ub = 0.0;
             }
             else
             {
@@ -209,6 +231,14 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                     }
                 }
 
+                // fixing a variable updates the activities, so the number of
+                // infinite contributions must be correct
+                if (recount_ninfs)
+                {
+                    recount_n_infs_of_rows(constraints, aj_cols, len_j);
+                    recount_ninfs = false;
+                }
+
                 // check if we can fix xk
                 if (fix_xk_to_lower)
                 {
@@ -271,16 +301,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
         // j appears in due to bound change
         if (recount_ninfs)
         {
-            const Matrix *A = constraints->A;
-
-            for (jj = 0; jj < len_j; jj++)
-            {
-                int row = aj_cols[jj];
-
-                recompute_n_infs(acts + row, A->x + A->p[row].start,
-                                 A->i + A->p[row].start,
-                                 A->p[row].end - A->p[row].start, col_tags);
-            }
+            recount_n_infs_of_rows(constraints, aj_cols, len_j);
         }
     }
 
-- 
2.43.0


From ba61515a4bdee31a44b6c04120eb08bc87d89b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 06/30] fix: column singletons with zero cost in free rows

---
 src/explorers/StonCols.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..72570db 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -466,7 +466,15 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         else
         {
             assert(ck == 0);
-            new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+            if (is_lhs_inf && is_rhs_inf)
+            {
+                // the row is free so any finite value works
+                new_side = 0.0;
+            }
+            else
+            {
+                new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+            }
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From c5ec54fff201e3cc6ce12b40ea71204aeb80cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 07/30] fix: check all parallel rows against the equality row
 that remains

---
 src/explorers/Parallel_rows.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..063ce2c 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -389,6 +389,17 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     // ------------------------------------------------------------------------
     bool is_remaining_row_eq, is_rhs_inf_remaining_row, is_lhs_inf_remaining_row;
     int remaining_row_idx = bin[0];
+
+    // if the bin contains an equality row it should remain
+    for (int i = 0; i < bin_size; ++i)
+    {
+        if (HAS_TAG(row_tags[bin[i]], R_TAG_EQ))
+        {
+            remaining_row_idx = bin[i];
+            break;
+        }
+    }
+
     is_remaining_row_eq = HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ);
     is_rhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_RHS_INF);
     is_lhs_inf_remaining_row = HAS_TAG(row_tags[remaining_row_idx], R_TAG_LHS_INF);
@@ -396,25 +407,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     remaining_row_new_lhs = lhs[remaining_row_idx];
     remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
 
-    for (int i = 1; i < bin_size; ++i)
+    for (int i = 0; i < bin_size; ++i)
     {
         int other_row_idx = bin[i];
-        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
 
-        if (!is_remaining_row_eq && is_other_row_eq)
+        if (other_row_idx == remaining_row_idx)
         {
-            // swap(remaining_row, other_row)
-            int temp = remaining_row_idx;
-            remaining_row_idx = other_row_idx;
-            other_row_idx = temp;
-
-            is_remaining_row_eq = true;
-            is_other_row_eq = false;
-            remaining_row_new_rhs = rhs[remaining_row_idx];
-            remaining_row_new_lhs = lhs[remaining_row_idx];
-            remaining_row_coeff = A->x[A->p[remaining_row_idx].start];
+            continue;
         }
 
+        bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
         assert(!(is_other_row_eq && !is_remaining_row_eq));
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
-- 
2.43.0


From 84185b3b7706163e4e9c7b3ddd99f4f18adf31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 08/30] fix: use the feasibility tolerance when parallel rows
 are compared to an equality

---
 src/explorers/Parallel_rows.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 063ce2c..19b24bc 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -441,14 +441,14 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         // -----------------------------------------------------------------------
         else if (is_remaining_row_eq)
         {
-            bool infeas_rhs =
-                !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
-            bool infeas_lhs =
-                !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+            double diff_rhs = remaining_row_new_rhs - other_row_rhs_scaled;
+            double diff_lhs = remaining_row_new_rhs - other_row_lhs_scaled;
+            bool infeas_rhs = !is_rhs_inf_other_row &&
+                              ((ratio > 0 && diff_rhs > FEAS_TOL) ||
+                               (ratio < 0 && diff_rhs < -FEAS_TOL));
+            bool infeas_lhs = !is_lhs_inf_other_row &&
+                              ((ratio > 0 && diff_lhs < -FEAS_TOL) ||
+                               (ratio < 0 && diff_lhs > FEAS_TOL));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From 48753cc304ab8e435714ca13249aadf8c0a79001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 09/30] fix: do not read past the end of the row pointers

---
 src/core/Matrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..b2e9fae 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,12 +107,15 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (int i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
 
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
+
     return A;
 }
 
-- 
2.43.0


From c551763de449fb49c5d87f824300e037c2280644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 10/30] fix: recompute both activities when a free column is
 substituted

---
 src/core/Activity.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..bcccf93 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,21 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (for a free variable both the min
+    // and the max activity may have to be recomputed)
+    Altered_Activity altered = NO_RECOMPUTE;
+
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered |= MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered |= MAX_ALTERED_RECOMPUTE;
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 49b4d2753ceb2e9c74a2300f6728d28308c6f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 11/30] fix: do not read past the end of a row when a
 coefficient is removed

---
 src/core/Matrix.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index b2e9fae..806235c 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -517,13 +517,15 @@ void remove_coeff(RowView *row, int col)
     int len = *row->len;
     for (int i = 0; i < len; ++i)
     {
-        if (row->cols[i] == col)
+        if (shift != 0)
+        {
+            row->vals[i - 1] = row->vals[i];
+            row->cols[i - 1] = row->cols[i];
+        }
+        else if (row->cols[i] == col)
         {
             shift = 1;
         }
-
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
     }
 
     assert(shift != 0);
-- 
2.43.0


From 0da8c0c967b0eefe6ae7a9aed348856e8dcb09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 12/30] fix: do not mistake rounding residuals in the objective
 for costs

---
 include/core/Problem.h  | 5 +++++
 src/core/Problem.c      | 9 ++++++++-
 src/explorers/DtonsEq.c | 3 ++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/core/Problem.h b/include/core/Problem.h
index ccc027e..8060c8a 100644
--- a/include/core/Problem.h
+++ b/include/core/Problem.h
@@ -51,6 +51,11 @@ void free_objective(Objective *obj);
 /* Updates the offset when a variable is fixed */
 void fix_var_in_obj(Objective *obj, int col, double value);
 
+/* Returns ck - change, with a residual that is due to rounding only replaced
+   by zero (otherwise a cost that cancels would be mistaken for a true cost,
+   and the problem could be declared unbounded). */
+double obj_coeff_after_sub(double ck, double change);
+
 /* Substitutes variable 'k' from the objective using row 'i'
    (assumed to be an equality). Row 'i' is specified by
    (vals, cols, len, rhs) */
diff --git a/src/core/Problem.c b/src/core/Problem.c
index f9e792c..676150c 100644
--- a/src/core/Problem.c
+++ b/src/core/Problem.c
@@ -20,6 +20,7 @@
 #include "Constraints.h"
 #include "Matrix.h"
 #include "Memory_wrapper.h"
+#include "Numerics.h"
 #include "State.h"
 #include "Workspace.h"
 #include "utils.h"
@@ -92,6 +93,12 @@ void problem_clean(Problem *prob, bool remove_all)
     objective_shrink(prob->obj->c, maps->cols, n_cols_old);
 }
 
+double obj_coeff_after_sub(double ck, double change)
+{
+    double new_ck = ck - change;
+    return (ABS(new_ck) <= ZERO_TOL * ABS(change)) ? 0.0 : new_ck;
+}
+
 void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len,
                     int k, double aik, double rhs)
 {
@@ -103,7 +110,7 @@ void sub_var_in_obj(Objective *obj, const double *vals, const int *cols, int len
     double ratio = obj->c[k] / aik;
     for (int i = 0; i < len; ++i)
     {
-        obj->c[cols[i]] -= ratio * vals[i];
+        obj->c[cols[i]] = obj_coeff_after_sub(obj->c[cols[i]], ratio * vals[i]);
     }
 
     obj->offset += rhs * ratio;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1fc540f..e97f488 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -389,7 +389,8 @@ static inline
 static inline void subst_col_in_obj_dton(Objective *obj, int stay, int subst,
                                          double aik, double aij, double rhs)
 {
-    obj->c[stay] -= (aij / aik) * obj->c[subst];
+    obj->c[stay] =
+        obj_coeff_after_sub(obj->c[stay], (aij / aik) * obj->c[subst]);
     obj->offset += (rhs / aik) * obj->c[subst];
 }
 
-- 
2.43.0


From 5a231214cb387502bf9a844e231dbc5200fc3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 13/30] fix: dual postsolve of inequalities that column
 singletons turn into equalities

---
 include/core/Postsolver.h | 12 ++++++++++
 src/core/Postsolver.c     | 47 +++++++++++++++++++++++++++++++++++++++
 src/explorers/StonCols.c  |  6 +++++
 3 files changed, 65 insertions(+)

diff --git a/include/core/Postsolver.h b/include/core/Postsolver.h
index f7abdca..edc857b 100644
--- a/include/core/Postsolver.h
+++ b/include/core/Postsolver.h
@@ -49,6 +49,7 @@ enum ReductionTypes
     EQ_TO_INEQ = 1 << 8,
     BOUND_CHANGE_NO_ROW = 1 << 9,
     BOUND_CHANGE_THE_ROW = 1 << 10,
+    INEQ_TO_EQ = 1 << 11,
 };
 
 typedef struct PostsolveInfo
@@ -186,4 +187,15 @@ void save_retrieval_bound_change_the_row(PostsolveInfo *info, int i, const int *
 */
 void save_retrieval_eq_to_ineq(PostsolveInfo *info, int row, double val);
 
+/* This function saves the information required to recover the dual variable of
+   an inequality row that was turned into an equality because one of its sides
+   must be active at an optimal solution. The multiplier of the equality can have
+   any sign, but the multiplier of the inequality cannot.
+    info->vals stores    [side, vals[0], vals[1], ..., vals[len - 1]].
+    info->indices stores [row , cols[0], cols[1], ..., cols[len - 1]].
+   Here side = 1 if lhs is active and side = -1 if rhs is active.
+*/
+void save_retrieval_ineq_to_eq(PostsolveInfo *info, int row, const int *cols,
+                               const double *vals, size_t len, double side);
+
 #endif // CORE_POSTSOLVER_H
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index bd820f7..feccb53 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -484,6 +484,33 @@ void retrieve_eq_to_ineq(Solution *sol, int row, double val)
     sol->y[row] += val;
 }
 
+// The row was turned into an equality because the bound of a column singleton is
+// implied by the active side of the row and the bounds of the other variables. If
+// the multiplier of the equality has the wrong sign then the column singleton is
+// at that bound, and so are the other variables, and their reduced costs can
+// absorb the multiplier.
+void retrieve_ineq_to_eq(Solution *sol, int row, const int *cols,
+                         const double *vals, int len, double side)
+{
+    assert(sol->y[row] != ROW_NOT_RETRIEVED);
+    double y_row = sol->y[row];
+
+    if (side * y_row >= 0)
+    {
+        return;
+    }
+
+    for (int ii = 0; ii < len; ++ii)
+    {
+        if (sol->z[cols[ii]] != COL_NOT_RETRIEVED)
+        {
+            sol->z[cols[ii]] += vals[ii] * y_row;
+        }
+    }
+
+    sol->y[row] = 0.0;
+}
+
 void postsolver_update(PostsolveInfo *info, size_t n_cols_reduced,
                        size_t n_rows_reduced, const int *col_map, const int *row_map)
 {
@@ -640,6 +667,13 @@ void postsolver_run(const PostsolveInfo *info, Solution *sol, const double *x,
             assert(starts[i + 1] - start == 1);
             retrieve_eq_to_ineq(sol, indices[start], vals[start]);
         }
+        else if (type == INEQ_TO_EQ)
+        {
+            len = starts[i + 1] - start - 1;
+            assert(len > 1);
+            retrieve_ineq_to_eq(sol, indices[start], indices + start + 1,
+                                vals + start + 1, len, vals[start]);
+        }
         else
         {
             assert(type != BOUND_CHANGE_NO_ROW);
@@ -907,3 +941,16 @@ void save_retrieval_eq_to_ineq(PostsolveInfo *info, int row, double val)
     assert(info->starts->len == info->type->len + 1);
     assert(info->vals->len == info->indices->len);
 }
+
+void save_retrieval_ineq_to_eq(PostsolveInfo *info, int row, const int *cols,
+                               const double *vals, size_t len, double side)
+{
+    u16Vec_append(info->type, INEQ_TO_EQ);
+    iVec_append(info->indices, row);
+    iVec_append_array(info->indices, cols, len);
+    dVec_append(info->vals, side);
+    dVec_append_array(info->vals, vals, len);
+    iVec_append(info->starts, (int) info->indices->len);
+    assert(info->starts->len == info->type->len + 1);
+    assert(info->vals->len == info->indices->len);
+}
diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 72570db..ee998b3 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -506,6 +506,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_rhs_inf);
+        save_retrieval_ineq_to_eq(postsolve_info, row->i, row->cols, row->vals,
+                                  (size_t) *row->len, -1.0);
+
         // update lhs = rhs
         *row->lhs = *row->rhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
@@ -532,6 +535,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_lhs_inf);
+        save_retrieval_ineq_to_eq(postsolve_info, row->i, row->cols, row->vals,
+                                  (size_t) *row->len, 1.0);
+
         // update rhs = lhs
         *row->rhs = *row->lhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
-- 
2.43.0


From 3ac2f3b103ff7df8b3e115df1b41a53b0dee0059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 14/30] fix: reduced costs of parallel columns are parallel

---
 src/core/Postsolver.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index feccb53..e88d00c 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -274,25 +274,13 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    // dual postsolve (the columns and their costs are parallel, so their reduced
+    // costs are parallel as well)
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
+    SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[k]);
 
     // if the multiplier is positive the variable should be at its lower bound
     if (sol->z[j] > 0)
-- 
2.43.0


From caf4cca48607c3229e39932a33bd8df1e5078721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 15/30] fix: recognise active implied bounds that include a
 relative marginal

---
 src/core/Postsolver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index e88d00c..fb7e63b 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -362,8 +362,10 @@ void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
         }
     }
 
-    // if the implied bound is not active we do nothing
-    if (!IS_EQUAL_FEAS_TOL(sol->x[j], implied_bound))
+    // if the implied bound is not active we do nothing. (The stored bound may
+    // include a marginal that is proportional to its size, so the tolerance
+    // must be proportional to it as well.)
+    if (ABS(sol->x[j] - implied_bound) > FEAS_TOL * MAX(1.0, ABS(implied_bound)))
     {
         // sol->y[i] does not always have to be zero since we possibly got the
         // bound from a doubleton equality row assert(sol->y[i] == 0.0);
-- 
2.43.0


From 0e78eb6f72d1c5a77b5669afac2685be0d8d7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 16/30] fix: recognise active sides of parallel rows with a
 relative tolerance

---
 src/core/Postsolver.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index fb7e63b..e053127 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -422,7 +422,7 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
         residual += vals[k] * sol->x[cols[k]];
     }
 
-    if (!IS_ZERO_FEAS_TOL(residual))
+    if (ABS(residual) > FEAS_TOL * MAX(1.0, ABS(new_side)))
     {
         return;
     }
@@ -452,7 +452,7 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
         residual += vals[k] * sol->x[cols[k]];
     }
 
-    if (!IS_ZERO_FEAS_TOL(residual))
+    if (ABS(residual) > FEAS_TOL * MAX(1.0, ABS(new_side)))
     {
         return;
     }
-- 
2.43.0


From f9fbf20d14a39df2bdb16f31df400366185b3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 17/30] fix: decide by the sign of the multiplier whether an
 implied bound is active

---
 src/core/Postsolver.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index e053127..0c80d8c 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -341,8 +341,7 @@ void retrieve_added_rows(Solution *sol, int i, const int *rows, const double *va
 }
 
 void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
-                           const double *vals, int len, double implied_bound,
-                           double original_other_bound,
+                           const double *vals, int len,
                            int is_original_other_bound_lower_bound)
 {
     int k, ii;
@@ -351,24 +350,12 @@ void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
     assert(sol->z[j] != COL_NOT_RETRIEVED);
 
-    // if the variable is equal to one of its original bounds and
-    // has the right sign on its multiplier we do nothing
-    if (IS_EQUAL_FEAS_TOL(sol->x[j], original_other_bound))
+    // If the multiplier does not belong to the implied bound we do nothing. (Its
+    // sign tells which of the two bounds is active. We must not compare the
+    // variable to the implied bound, because both of them may be off by more than
+    // a fixed tolerance: implied bounds are relaxed by a relative marginal.)
+    if (is_original_other_bound_lower_bound ? sol->z[j] >= 0 : sol->z[j] <= 0)
     {
-        if ((is_original_other_bound_lower_bound && sol->z[j] >= 0) ||
-            (!is_original_other_bound_lower_bound && sol->z[j] <= 0))
-        {
-            return;
-        }
-    }
-
-    // if the implied bound is not active we do nothing. (The stored bound may
-    // include a marginal that is proportional to its size, so the tolerance
-    // must be proportional to it as well.)
-    if (ABS(sol->x[j] - implied_bound) > FEAS_TOL * MAX(1.0, ABS(implied_bound)))
-    {
-        // sol->y[i] does not always have to be zero since we possibly got the
-        // bound from a doubleton equality row assert(sol->y[i] == 0.0);
         return;
     }
 
@@ -624,8 +611,7 @@ void postsolver_run(const PostsolveInfo *info, Solution *sol, const double *x,
                 {
                     bound_changes_processed += 1;
                     retrieve_bound_change(sol, row, indices[start], row_cols,
-                                          row_vals, len, vals[start],
-                                          vals[start + 1], indices[start + 1]);
+                                          row_vals, len, indices[start + 1]);
                 }
 
                 j -= 1;
-- 
2.43.0


From ab70e9362a50a2b7c3a2c7880851372409471ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 18/30] fix: give every thread its own copy of the qsort keys

The comparators of parallel rows and of removing redundant bounds read
their keys through file-scope pointers, so two presolvers running in
different threads sorted with each other's (possibly freed) keys.
---
 include/core/pslp_thread.h         | 7 +++++++
 src/explorers/Parallel_rows.c      | 8 +++++---
 src/explorers/Primal_propagation.c | 6 ++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..5cf582a 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -1,6 +1,13 @@
 #ifndef PSLP_THREAD_H
 #define PSLP_THREAD_H
 
+/* storage class of variables that every thread has its own copy of */
+#if defined(_MSC_VER)
+#define PS_THREAD_LOCAL __declspec(thread)
+#else
+#define PS_THREAD_LOCAL __thread
+#endif
+
 #if defined(_WIN32) || defined(_WIN64)
 
 #include <stdint.h>
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 19b24bc..c2c42fe 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,16 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
-// global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+// global variables needed for qsort (one copy per thread, since different
+// presolvers may run in different threads)
+static PS_THREAD_LOCAL int *global_sparsity_IDs;
+static PS_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..ed571a8 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -782,8 +783,9 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
     return UNCHANGED;
 }
 
-// Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+// Static variable to hold col_sizes (for qsort, one copy per thread since
+// different presolvers may run in different threads)
+static PS_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From b53654522c1c033a108700cadfb5a46fca5912ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 19/30] fix: clean up after failed allocations in new_presolver

new_presolver is documented to return NULL when an allocation fails, but
it dereferenced unchecked results, freed what the constraints, the problem
or an uninitialised presolver owned a second time, leaked what the second
thread had allocated, and joined a thread that was never started.
---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Postsolver.c                |  7 ++--
 src/core/Presolver.c                 | 53 +++++++++++++++++++++-------
 src/core/State.c                     |  5 +--
 src/core/Workspace.c                 | 14 +++++---
 5 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 0c80d8c..e2c4957 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 8faf01f..47b7146 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -118,6 +119,7 @@ static void *init_thread_func(void *arg)
     ParallelInitData *data = (ParallelInitData *) arg;
 
     data->row_tags = new_rowtags(data->lhs_copy, data->rhs_copy, data->n_rows);
+    RETURN_PTR_IF_NULL(data->row_tags, NULL);
 
     for (int i = 0; i < data->n_cols; i++)
     {
@@ -274,25 +276,30 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread =
+        (ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data) == 0);
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
-    // sync threads
-    ps_thread_join(&thread_id, NULL);
+    // sync threads (do the work here if the second thread could not be started)
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
+    else
+    {
+        init_thread_func(&parallel_data);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
@@ -305,24 +312,44 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
         constraints_new(A, AT, lhs_copy, rhs_copy, bounds, data, row_tags, col_tags);
     if (!constraints) goto cleanup;
 
+    // the constraints own these from here on
+    A = AT = NULL;
+    lhs_copy = rhs_copy = NULL;
+    row_tags = NULL;
+    col_tags = NULL;
+    bounds = NULL;
+
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
+    if (obj) c_copy = NULL; // owned by the objective
     if (!presolver || !obj) goto cleanup;
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
-    presolver->stats = init_stats(A->m, A->n, nnz);
+    if (!presolver->prob) goto cleanup;
+
+    // the problem, and through it the presolver, owns these from here on
+    row_sizes = col_sizes = NULL;
+    locks = NULL;
+    activities = NULL;
+    work = NULL;
+    data = NULL;
+    constraints = NULL;
+    obj = NULL;
+
+    presolver->stats = init_stats(n_rows, n_cols, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
-    DEBUG(run_debugger(constraints, false));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
+    DEBUG(run_debugger(presolver->prob->constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..06c6fd3 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -88,8 +88,9 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete ||
+        !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..2b9533b 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -36,8 +36,11 @@ Work *new_work(size_t n_rows, size_t n_cols)
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
     work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +66,11 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+    }
     PS_FREE(work->mappings);
     PS_FREE(work);
 }
-- 
2.43.0


From 82ad98c1faed7a97902dc93d48c1543716cd004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:13 +0000
Subject: [PATCH 20/30] fix: size the lists of new_state so that filling them
 cannot fail

Appending to a full vector exits the process when the reallocation fails,
while new_presolver is documented to return NULL then.
---
 src/core/State.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 06c6fd3..260bde8 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -73,6 +73,34 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // --------------------------------------------------------------------------
+    // The vectors that are filled below must not grow while they are filled
+    // (appending can't report a failed reallocation)
+    // --------------------------------------------------------------------------
+    size_t n_ston_rows = 0, n_dton_rows = 0, n_empty_rows = 0, n_updated_act = 0;
+    size_t n_ston_cols = 0, n_empty_cols = 0;
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        n_empty_rows += (row_sizes[i] == 0);
+        n_ston_rows += (row_sizes[i] == 1);
+        n_dton_rows += (row_sizes[i] == 2 && HAS_TAG(row_tags[i], R_TAG_EQ));
+        n_updated_act +=
+            (activities[i].n_inf_min == 0 || activities[i].n_inf_max == 0);
+    }
+
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        n_empty_cols += (col_sizes[i] == 0);
+        n_ston_cols += (col_sizes[i] == 1);
+    }
+
+    len_ston_rows = MAX(len_ston_rows, n_ston_rows);
+    len_ston_cols = MAX(len_ston_cols, n_ston_cols);
+    len_dton_rows = MAX(len_dton_rows, n_dton_rows);
+    len_empty_rows = MAX(len_empty_rows, n_empty_rows);
+    len_updated_act = MAX(len_updated_act, n_updated_act);
+    len_empty_cols = MAX(len_empty_cols, n_empty_cols);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From 1824e17ebb2f29922391edc0b1e763bdff4aac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 21/30] fix: print nothing when verbose is off

The messages about infeasible or unbounded problems and about the time
limit were printed whatever the verbose setting.
---
 src/core/Presolver.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 47b7146..d288a55 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -387,7 +387,7 @@ cleanup:
 static inline bool update_termination(size_t nnz_after_cycle,
                                       size_t nnz_before_cycle, Complexity complexity,
                                       PresolveStatus status, double max_time,
-                                      Timer outer_timer)
+                                      bool verbose, Timer outer_timer)
 {
     if (HAS_STATUS(status, UNBNDORINFEAS))
     {
@@ -404,7 +404,11 @@ static inline bool update_termination(size_t nnz_after_cycle,
 
     if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
     {
-        printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        if (verbose)
+        {
+            printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        }
+
         return true;
     }
 
@@ -746,7 +750,7 @@ PresolveStatus run_presolver(Presolver *presolver)
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
-                               status, stgs->max_time, outer_timer);
+                               status, stgs->max_time, stgs->verbose, outer_timer);
 
         if (curr_complexity == MEDIUM)
         {
@@ -761,7 +765,11 @@ PresolveStatus run_presolver(Presolver *presolver)
     if (status != UNCHANGED)
     {
         // problem detected to be infeasible or unbounded
-        print_infeas_or_unbnd_message(status);
+        if (stgs->verbose)
+        {
+            print_infeas_or_unbnd_message(status);
+        }
+
         return status;
     }
 
-- 
2.43.0


From c93928e9141722f66c2a2353b59df036b020f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 22/30] fix: sign of the multiplier decides whether a side
 taken from a parallel row is active

With a reduced solution of ordinary solver accuracy the activity misses the
side by more than the tolerance, and the multiplier stayed at a row whose
own side may be infinite.
---
 src/core/Postsolver.c | 68 ++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index e2c4957..a067977 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -392,63 +392,35 @@ void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
     sol->z[j] = 0.0;
 }
 
-void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *cols,
-                         int len, double new_side, int j, double ratio)
+// The side of row i came from the parallel row j. The sign of the multiplier of
+// row i tells whether that side is active. (We must not compare the activity of
+// the row to the side: the solution of the reduced problem is only accurate up to
+// the tolerance of the solver.)
+void retrieve_lhs_change(Solution *sol, int i, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
-
-    // compute the residual of constraint i
-    double residual = -new_side;
-    for (int k = 0; k < len; ++k)
-    {
-        assert(sol->x[cols[k]] != COL_NOT_RETRIEVED);
-        residual += vals[k] * sol->x[cols[k]];
-    }
 
-    if (ABS(residual) > FEAS_TOL * MAX(1.0, ABS(new_side)))
+    if (sol->y[i] <= 0)
     {
         return;
     }
 
-    double cand_val = ratio * sol->y[i];
-    if (ratio * cand_val < 0)
-    {
-        sol->y[j] = 0.0;
-        return;
-    }
-
-    sol->y[j] = cand_val;
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
+    sol->y[j] = ratio * sol->y[i];
     sol->y[i] = 0.0;
 }
 
-void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *cols,
-                         int len, double new_side, int j, double ratio)
+void retrieve_rhs_change(Solution *sol, int i, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
-
-    // compute the residual of constraint i
-    double residual = -new_side;
-    for (int k = 0; k < len; ++k)
-    {
-        assert(sol->x[cols[k]] != COL_NOT_RETRIEVED);
-        residual += vals[k] * sol->x[cols[k]];
-    }
-
-    if (ABS(residual) > FEAS_TOL * MAX(1.0, ABS(new_side)))
-    {
-        return;
-    }
 
-    double cand_val = ratio * sol->y[i];
-    if (ratio * cand_val > 0)
+    if (sol->y[i] >= 0)
     {
-        sol->y[j] = 0.0;
         return;
     }
 
-    sol->y[j] = cand_val;
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
+    sol->y[j] = ratio * sol->y[i];
     sol->y[i] = 0.0;
 }
 
@@ -621,19 +593,15 @@ void postsolver_run(const PostsolveInfo *info, Solution *sol, const double *x,
 
         else if (type == LHS_CHANGE)
         {
-            len = starts[i + 1] - start - 2;
-            assert(len > 1);
-            retrieve_lhs_change(sol, indices[start], vals + start + 2,
-                                indices + start + 2, len, vals[start],
-                                indices[start + 1], vals[start + 1]);
+            assert(starts[i + 1] - start > 3);
+            retrieve_lhs_change(sol, indices[start], indices[start + 1],
+                                vals[start + 1]);
         }
         else if (type == RHS_CHANGE)
         {
-            len = starts[i + 1] - start - 2;
-            assert(len > 1);
-            retrieve_rhs_change(sol, indices[start], vals + start + 2,
-                                indices + start + 2, len, vals[start],
-                                indices[start + 1], vals[start + 1]);
+            assert(starts[i + 1] - start > 3);
+            retrieve_rhs_change(sol, indices[start], indices[start + 1],
+                                vals[start + 1]);
         }
         else if (type == EQ_TO_INEQ)
         {
-- 
2.43.0


From 3d2ebffc786cc10bdbfdf4972ee950816707c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 23/30] fix: list a row once when both sides of parallel rows
 turn it into an equality

---
 src/core/CoreTransformation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8129a2d..ccda398 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -414,7 +414,8 @@ PresolveStatus change_lhs_of_ineq(RowView *row, double new_lhs, Lock *locks,
                                   iVec *dton_rows, PostsolveInfo *postsolve_info,
                                   int other_row_idx, double ratio)
 {
-    assert(!HAS_TAG(*row->tag, (R_TAG_EQ | R_TAG_INACTIVE)));
+    // the row may just have become an equality because of its new rhs
+    assert(!HAS_TAG(*row->tag, R_TAG_INACTIVE));
     assert(!IS_ABS_INF(new_lhs));
     assert(other_row_idx >= 0);
 
@@ -454,12 +455,13 @@ PresolveStatus change_lhs_of_ineq(RowView *row, double new_lhs, Lock *locks,
         IS_EQUAL_FEAS_TOL(*row->rhs, *row->lhs))
     {
         *row->lhs = *row->rhs;
-        UPDATE_TAG(*row->tag, R_TAG_EQ);
 
-        if (len == 2)
+        if (len == 2 && !HAS_TAG(*row->tag, R_TAG_EQ))
         {
             iVec_append(dton_rows, row->i);
         }
+
+        UPDATE_TAG(*row->tag, R_TAG_EQ);
     }
 
     // dual postsolve
-- 
2.43.0


From 4ca5ce6cf7ed21ff3fad3eaf22daafcab423c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 24/30] fix: coefficients that cancel in doubleton
 substitutions

---
 src/core/Matrix.c       |  8 ++------
 src/explorers/DtonsEq.c | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 806235c..bc3f220 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -487,13 +487,9 @@ double insert_or_update_coeff(Matrix *A, int row, int col, double val, int *row_
             *row_size += 1;
         }
     }
-    // if the new value is zero, we just have to shift
-    else
+    // if the new value is zero, we just have to shift (if the coefficient exists)
+    else if (insertion != end && A->i[insertion] == col)
     {
-        // we only expect that the new value is zero if the coefficient
-        // already exists
-        assert(A->i[insertion] == col);
-
         // we only have to shift values if the zero is not in the end
         if (insertion != end - 1)
         {
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index e97f488..7de93e2 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -302,6 +302,14 @@ static inline
     }
 
     double new_val = old_val - (aij / aik) * A->x[subst_idx];
+
+    // a coefficient that cancels is removed from A below, so it must not count
+    // anywhere else either
+    if (ABS(new_val) <= ZERO_TOL)
+    {
+        new_val = 0.0;
+    }
+
     Old_and_new_coeff old_and_new_coeff;
     old_and_new_coeff.old_coeff_stay = old_val;
     old_and_new_coeff.old_coeff_subst = A->x[subst_idx];
@@ -338,13 +346,17 @@ static inline
     // if we get unexpected cancellation we should remove the coefficient,
     // otherwise we insert it
     // -------------------------------------------------------------------
-    if (ABS(new_val) <= ZERO_TOL)
+    if (new_val == 0.0)
     {
-        len = (size_t) (end - insertion - 1);
-        memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
-        memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
-        end -= 1;
-        diff_row_size += 1;
+        // (the variable that stays may not have been in the row)
+        if (insertion != end && A->i[insertion] == j)
+        {
+            len = (size_t) (end - insertion - 1);
+            memmove(A->x + insertion, A->x + insertion + 1, len * sizeof(double));
+            memmove(A->i + insertion, A->i + insertion + 1, len * sizeof(int));
+            end -= 1;
+            diff_row_size += 1;
+        }
     }
     // -----------------------------------------------------------------
     // Insert the new value. If it exists or should be inserted in
-- 
2.43.0


From 5bcde3f0ca962c5a02772bf0ca60dc68e62f82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 25/30] fix: stop at once when infeasibility or unboundedness
 has been detected

---
 src/core/Presolver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index d288a55..728ae22 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -466,6 +466,7 @@ static inline PresolveStatus run_trivial_explorers(Problem *prob,
         //   and empty columns (if rows are marked as inactive due to a variable
         //   being set to inf)
         status |= remove_empty_cols(prob);
+        RETURN_IF_UNBNDORINFEAS(status);
         status |= simple_dual_fix(prob);
         RETURN_IF_UNBNDORINFEAS(status);
     }
@@ -546,7 +547,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
 
         // the actual reduction
         status |= check_activities(prob);
+        RETURN_IF_INFEASIBLE(status);
         status |= propagate_primal(prob, stgs->finite_bound_tightening);
+        RETURN_IF_INFEASIBLE(status);
 
         // after dom prop propagation there can be new empty and ston rows
         status |= run_trivial_explorers(prob, stgs);
-- 
2.43.0


From 85c8c292a653d95e0d780aff2b11bcfb1a854478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 26/30] fix: debug assertions that valid input can violate

---
 src/core/Presolver.c               |  2 +-
 src/explorers/DtonsEq.c            | 13 ++++---------
 src/explorers/Parallel_rows.c      |  8 ++++++--
 src/explorers/Primal_propagation.c |  4 ++--
 src/explorers/SimpleReductions.c   |  6 ------
 5 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 728ae22..a22fc17 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -595,9 +595,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->empty_cols->len == 0);
         status |= run_trivial_explorers(prob, stgs);
-        assert(prob->constraints->state->ston_rows->len == 0);
         assert(!(status & REDUCED));
         RETURN_IF_NOT_UNCHANGED(status);
+        assert(prob->constraints->state->ston_rows->len == 0);
 
         // stats
         stats->nnz_removed_parallel_cols += nnz_before - *nnz;
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 7de93e2..38fd8c0 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -200,7 +200,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
             if (update_ub(constraints, stay, new_ub_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -215,7 +215,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
             if (update_lb(constraints, stay, new_lb_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -227,7 +227,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
             if (update_lb(constraints, stay, new_lb_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -242,7 +242,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
             if (update_ub(constraints, stay, new_ub_cand,
-                          i HUGE_BOUND_IS_NOT_OK) == INFEASIBLE)
+                          i HUGE_BOUND_IS_OK) == INFEASIBLE)
             {
                 return INFEASIBLE;
             }
@@ -318,11 +318,6 @@ static inline
     save_retrieval_added_row(postsolve_info, i, q, -A->x[subst_idx] / aik);
 
 #ifndef NDEBUG
-    if (ABS(A->x[subst_idx]) > 1e-6)
-    {
-        assert(ABS(new_val) > 1e-6 || new_val == 0.0);
-    }
-
     if (ABS(new_val) < 1e-6 && new_val != 0.0)
     {
         // when we eliminate row 32833 on momentum and substitute col x20
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index c2c42fe..c421c5d 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -218,15 +218,19 @@ void VERIFY_PARALLEL_ROWS(const Matrix *A, const RowTag *rows_tags,
             ARRAYS_EQUAL_INT(cols1, A->i + A->p[parallel_rows[j]].start, len1);
         }
 
-        // check that all rows have same normalized coefficients
+        // check that all rows have same normalized coefficients (they have been
+        // compared to another row of the group, so this holds up to twice the
+        // tolerance, relative to the largest coefficient)
         double *vals1 = A->x + A->p[parallel_rows[start]].start;
+        double max1 = get_max_abs(vals1, (size_t) len1);
         for (j = start + 1; j < end; ++j)
         {
             double *vals2 = A->x + A->p[parallel_rows[j]].start;
             double ratio = vals1[0] / vals2[0];
             for (k = 1; k < len1; ++k)
             {
-                assert(IS_ZERO_FEAS_TOL(vals1[k] - ratio * vals2[k]));
+                assert(ABS(vals1[k] - ratio * vals2[k]) <=
+                       2 * FEAS_TOL * MAX(max1, MAX(1.0, ABS(ratio))));
             }
         }
     }
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index ed571a8..091ece6 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -96,7 +96,7 @@ static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
         update_activities_bound_change(
             constraints->state->activities, constraints->A, constraints->bounds,
             vals, rows, (int) len, old_bound, new_lb, !is_lb_inf, true,
-            constraints->state->updated_activities HUGE_BOUND_IS_NOT_OK);
+            constraints->state->updated_activities HUGE_BOUND_IS_OK);
 
         save_retrieval_bound_change_no_row(constraints->state->postsolve_info, col,
                                            new_lb, ub, false);
@@ -171,7 +171,7 @@ static PresolveStatus update_ub_within_propagation(double new_ub, double *ub,
         update_activities_bound_change(
             constraints->state->activities, constraints->A, constraints->bounds,
             vals, rows, (int) len, old_bound, new_ub, !is_ub_inf, false,
-            constraints->state->updated_activities HUGE_BOUND_IS_NOT_OK);
+            constraints->state->updated_activities HUGE_BOUND_IS_OK);
 
         save_retrieval_bound_change_no_row(constraints->state->postsolve_info, col,
                                            new_ub, lb, true);
diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index aa794d4..7a85690 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -108,12 +108,6 @@ void delete_fixed_cols_from_problem(Problem *prob)
             {
                 activities[row].min -= contribution;
             }
-
-            // Can a ranged row become an inequality due to numerics?
-            assert(HAS_TAG(row_tags[row], R_TAG_LHS_INF) ||
-                   HAS_TAG(row_tags[row], R_TAG_RHS_INF) ||
-                   HAS_TAG(row_tags[row], R_TAG_EQ) ||
-                   !IS_EQUAL_FEAS_TOL(lhs[row], rhs[row]));
         }
 
         // fix variable in the objective
-- 
2.43.0


From bbeefff8093f3760b274f1c741287f58d434b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 27/30] fix: relax_bounds had no effect on the reduced problem
 in release builds

---
 src/explorers/Primal_propagation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index 091ece6..56602d8 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -865,7 +865,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_lb_from_activities(&col, acts, bounds[ii].lb);
-                DEBUG(bounds[ii].lb = -INF);
+                bounds[ii].lb = -INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_LB_INF);
             }
         }
@@ -877,7 +877,7 @@ void remove_redundant_bounds(Constraints *constraints)
                                    bounds))
             {
                 remove_finite_ub_from_activities(&col, acts, bounds[ii].ub);
-                DEBUG(bounds[ii].ub = INF);
+                bounds[ii].ub = INF;
                 UPDATE_TAG(col_tags[ii], C_TAG_UB_INF);
             }
         }
-- 
2.43.0


From 0279aa1c9313af943abe55018e002c6fd2482c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 28/30] fix: wrong row activity after a column singleton in an
 inequality was fixed

---
 src/explorers/StonCols.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index ee998b3..48cf3a8 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -331,10 +331,11 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
         *row->rhs -= Aik * val;
     }
 
-    // update min activity
+    // update min activity (the contribution that disappears is the one of the
+    // bound that defines the min activity, not the one of the fixed value)
     if (act->n_inf_min == 0)
     {
-        act->min -= Aik * val;
+        act->min -= Aik * ((Aik > 0) ? *col->lb : *col->ub);
     }
     else if ((Aik > 0 && HAS_TAG(*col->tag, C_TAG_LB_INF)) ||
              (Aik < 0 && HAS_TAG(*col->tag, C_TAG_UB_INF)))
@@ -352,7 +353,7 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
     // update max activity
     if (act->n_inf_max == 0)
     {
-        act->max -= Aik * val;
+        act->max -= Aik * ((Aik > 0) ? *col->ub : *col->lb);
     }
     else if ((Aik > 0 && HAS_TAG(*col->tag, C_TAG_UB_INF)) ||
              (Aik < 0 && HAS_TAG(*col->tag, C_TAG_LB_INF)))
-- 
2.43.0


From d85b477600f641a2256520f823e8939370df59ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 29/30] fix: compare the costs of parallel columns relative to
 their size

With small costs or coefficients the products that were compared with an
absolute tolerance are always close, so that parallel columns with
different (even opposite) costs were merged.
---
 src/explorers/Parallel_cols.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 83d321a..12cece6 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -101,10 +101,15 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
             ratio = ak0 / aj_vals[0];
             assert(ratio != 0);
 
-            // if column j and column k are parallel, remove column k
+            // if column j and column k are parallel, remove column k. (Small
+            // costs or coefficients make both products small, so they must be
+            // compared relative to their size.)
             // if you run into issues with parallel cols activated, try to
             // change this
-            if (IS_EQUAL_FEAS_TOL(ck * aj_vals[0], cj * ak0))
+            double scaled_ck = ck * aj_vals[0];
+            double scaled_cj = cj * ak0;
+            double cost_size = MAX(ABS(scaled_ck), ABS(scaled_cj));
+            if (ABS(scaled_ck - scaled_cj) <= FEAS_TOL * MIN(1.0, cost_size))
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0


From 74e0cc8767ff80f9d69ae830aa9d1d3a3dc3611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 30/30] fix: compare the costs of parallel columns relative to
 their size when they are large, too

Rounding errors of large costs exceed an absolute tolerance, so that equal
columns were treated as if one were better, which made bounded problems
with free parallel columns UNBNDORINFEAS.
---
 src/explorers/Parallel_cols.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 12cece6..aa6202d 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -101,15 +101,15 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
             ratio = ak0 / aj_vals[0];
             assert(ratio != 0);
 
-            // if column j and column k are parallel, remove column k. (Small
-            // costs or coefficients make both products small, so they must be
-            // compared relative to their size.)
+            // if column j and column k are parallel, remove column k. (Both
+            // products have the unit of the costs and coefficients, so they
+            // must be compared relative to their size.)
             // if you run into issues with parallel cols activated, try to
             // change this
             double scaled_ck = ck * aj_vals[0];
             double scaled_cj = cj * ak0;
             double cost_size = MAX(ABS(scaled_ck), ABS(scaled_cj));
-            if (ABS(scaled_ck - scaled_cj) <= FEAS_TOL * MIN(1.0, cost_size))
+            if (ABS(scaled_ck - scaled_cj) <= FEAS_TOL * cost_size)
             {
                 // mark that we must recount n_infs for rows in which column j
                 // appears in
-- 
2.43.0

