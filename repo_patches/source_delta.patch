From 2e52f6d5e3ef09c3cd0bc4fdf0249aee8fca46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 01/21] fix: mxm A'B' keeps operand order and operand types of
 the semiring multiply

---
 .../optimized_sequential/sparse_helpers.hpp   | 40 +++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 30 +++++++-------
 .../platforms/sequential/sparse_helpers.hpp   | 40 +++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  6 +--
 4 files changed, 98 insertions(+), 18 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..3bd3968 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1408,6 +1408,46 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// perform the following operation on sparse vectors implemented as
+        /// vector<tuple<Index, value>>
+        ///
+        /// c += b[:]*a
+        ///
+        /// @note same as axpy() but the scalar is the second operand of the
+        ///       semiring's multiply, which may not be commutative.
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                }
+                ++c_it;
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..5d1ffaf 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,12 +72,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -232,12 +232,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -331,12 +331,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -428,12 +428,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -526,12 +526,12 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, semiring, b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..3bd3968 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1408,6 +1408,46 @@ namespace grb
             GRB_LOG_FN_END("axpy");
         }
 
+        // *******************************************************************
+        /// perform the following operation on sparse vectors implemented as
+        /// vector<tuple<Index, value>>
+        ///
+        /// c += b[:]*a
+        ///
+        /// @note same as axpy() but the scalar is the second operand of the
+        ///       semiring's multiply, which may not be commutative.
+        template<typename CScalarT,
+                 typename SemiringT,
+                 typename AScalarT,
+                 typename BScalarT>
+        void axpy_rev(
+            std::vector<std::tuple<IndexType, CScalarT>>       &c,
+            SemiringT                                           semiring,
+            AScalarT                                            a,
+            std::vector<std::tuple<IndexType, BScalarT>> const &b)
+        {
+            GRB_LOG_FN_BEGIN("axpy_rev");
+            auto c_it = c.begin();
+
+            for (auto&& [j, b_j] : b)
+            {
+                auto t_j(semiring.mult(b_j, a));
+
+                // scan through C_row to find insert/merge point
+                if (advance_and_check_tuple_iterator(c_it, c.end(), j))
+                {
+                    std::get<1>(*c_it) = semiring.add(std::get<1>(*c_it), t_j);
+                }
+                else
+                {
+                    c_it = c.insert(c_it,
+                                    std::make_tuple(j, static_cast<CScalarT>(t_j)));
+                }
+                ++c_it;
+            }
+            GRB_LOG_FN_END("axpy_rev");
+        }
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..a8b6b8e 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -281,8 +281,8 @@ namespace grb
                 {
                     if (A[k].empty()) continue;
 
-                    // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    // T[i] += (A[k]*b_ik)  // must reduce in D3
+                    axpy_rev(T_row, op, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
-- 
2.43.0


From 81ea4f393e8df4ca2b9c1caada7d1a99b198d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 02/21] fix: optimized mxm AB' without mask clears output rows
 whose A row is empty

---
 .../platforms/optimized_sequential/sparse_mxm_ABT.hpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..192d8c6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,11 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
+                if (A[i].empty())
+                {
+                    C.setRow(i, C_row);  // no stale entries may remain.
+                    continue;
+                }
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From e426ffc5fbf08eea1e793f309f118c6a2743fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 03/21] fix: mxv with transposed matrix multiplies matrix entry
 by vector entry, in that order

---
 src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp | 2 +-
 src/graphblas/platforms/sequential/sparse_mxv.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..7988ec6 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,7 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy_rev(t, op, u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 6418e3b5c827aa50740f478156d642bfb3802402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 04/21] fix: eWiseAdd/eWiseMult with transposed second input
 keeps that input's own value type

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp          | 2 +-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp         | 2 +-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp          | 2 +-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..e7375f7 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..7d576db 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,7 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            BMatrixT Btran(B.ncols(), B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From 59c4be857d03cf0abd9b9c6ff9df1902f528f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 05/21] fix: scalar assign accepts indices in any order

---
 .../optimized_sequential/sparse_assign.hpp    | 37 ++++++++++---------
 .../platforms/sequential/sparse_assign.hpp    | 37 ++++++++++---------
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..91b2c8c 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -216,6 +216,20 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // Returns the indices of the sequence in ascending order, each once.
+        template <typename SequenceT>
+        IndexArrayType sorted_unique(SequenceT const &indices)
+        {
+            IndexArrayType sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+                sorted.push_back(*it);
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +265,12 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
-
+            // Rows of T must be sorted and unique, the indices need not be
+            auto const sorted_rows(sorted_unique(row_indices));
+            auto const sorted_cols(sorted_unique(col_indices));
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,7 +513,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto const seq(sorted_unique(setupIndices(indices, w.size())));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..91b2c8c 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -216,6 +216,20 @@ namespace grb
             T.recomputeNvals();
         }
 
+        //********************************************************************
+        // Returns the indices of the sequence in ascending order, each once.
+        template <typename SequenceT>
+        IndexArrayType sorted_unique(SequenceT const &indices)
+        {
+            IndexArrayType sorted;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+                sorted.push_back(*it);
+            std::sort(sorted.begin(), sorted.end());
+            sorted.erase(std::unique(sorted.begin(), sorted.end()),
+                         sorted.end());
+            return sorted;
+        }
+
         //********************************************************************
         template <typename ValueT, typename RowIteratorT, typename ColIteratorT >
         void assignConstant(LilSparseMatrix<ValueT>             &T,
@@ -251,23 +265,12 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
-
+            // Rows of T must be sorted and unique, the indices need not be
+            auto const sorted_rows(sorted_unique(row_indices));
+            auto const sorted_cols(sorted_unique(col_indices));
             assignConstant(T, val,
-                           row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_rows.begin(), sorted_rows.end(),
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,7 +513,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto const seq(sorted_unique(setupIndices(indices, w.size())));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
-- 
2.43.0


From b2ece9bfe3c369e8619dffdffb5cf9743e471490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 06/21] fix: assign with AllIndices rejects a source whose size
 does not match the destination

---
 src/graphblas/detail/checks.hpp | 17 +++++++++++++++++
 src/graphblas/operations.hpp    | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/graphblas/detail/checks.hpp b/src/graphblas/detail/checks.hpp
index 84a920e..c3042ff 100644
--- a/src/graphblas/detail/checks.hpp
+++ b/src/graphblas/detail/checks.hpp
@@ -258,6 +258,23 @@ namespace grb
 
     // ================================================
 
+    // AllIndices stands for 0..n-1 of the indexed dimension, so the dimension
+    // paired with it must match.  Explicit sequences carry their own size.
+    template <typename S>
+    void check_all_indices(const S &s, IndexType n, IndexType size,
+                           const std::string &msg)
+    {
+    };
+
+    inline void check_all_indices(const grb::AllIndices &s,
+                                  IndexType n, IndexType size,
+                                  const std::string &msg)
+    {
+        check_val_equals(size, n, "size != |AllIndices|", msg);
+    };
+
+    // ================================================
+
     template <typename M>
     void check_index_within_ncols(IndexType val, const M &m,
                                   const std::string &msg)
diff --git a/src/graphblas/operations.hpp b/src/graphblas/operations.hpp
index e879fbc..8a3e917 100644
--- a/src/graphblas/operations.hpp
+++ b/src/graphblas/operations.hpp
@@ -502,6 +502,8 @@ namespace grb
         check_size_size(w, mask, "assign(std vec): w.size != mask.size");
         check_size_nindices(u, indices,
                             "assign(std vec): u.size != |indicies|");
+        check_all_indices(indices, w.size(), u.size(),
+                          "assign(std vec): u.size != w.size");
 
         backend::assign(get_internal_vector(w),
                         get_internal_vector(mask),
@@ -545,6 +547,10 @@ namespace grb
                              "assign(std mat): A.nrows != |row_indices|");
         check_ncols_nindices(A, col_indices,
                              "assign(std mat): A.ncols != |col_indices|");
+        check_all_indices(row_indices, C.nrows(), A.nrows(),
+                          "assign(std mat): A.nrows != C.nrows");
+        check_all_indices(col_indices, C.ncols(), A.ncols(),
+                          "assign(std mat): A.ncols != C.ncols");
 
         backend::assign(get_internal_matrix(C),
                         get_internal_matrix(Mask),
@@ -584,6 +590,8 @@ namespace grb
         check_size_nrows(mask, C, "assign(col): C.nrows != mask.size");
         check_size_nindices(u, row_indices,
                             "assign(col): u.size != |row_indices|");
+        check_all_indices(row_indices, C.nrows(), u.size(),
+                          "assign(col): u.size != C.nrows");
         check_index_within_ncols(col_index, C,
                                  "assign(col): col_index >= C.ncols");
 
@@ -624,6 +632,8 @@ namespace grb
         check_size_ncols(mask, C, "assign(row): C.ncols != Mask.ncols");
         check_size_nindices(u, col_indices,
                             "assign(row): u.size != |col_indices|");
+        check_all_indices(col_indices, C.ncols(), u.size(),
+                          "assign(row): u.size != C.ncols");
         check_index_within_nrows(row_index, C,
                                  "assign(col): row_index >= C.nrows");
 
-- 
2.43.0


From 9ea5070d9c8dd15c8166cccd00728611a2018301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 07/21] fix: exception what() returns a message owned by the
 exception, not a destroyed temporary

---
 src/graphblas/exceptions.hpp | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/graphblas/exceptions.hpp b/src/graphblas/exceptions.hpp
index fa75ef9..b175a88 100644
--- a/src/graphblas/exceptions.hpp
+++ b/src/graphblas/exceptions.hpp
@@ -47,14 +47,14 @@ namespace grb
     {
     public:
         IndexOutOfBoundsException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("IndexOutOfBoundsException: " + msg) {}
 
-        IndexOutOfBoundsException() {}
+        IndexOutOfBoundsException() : m_message("IndexOutOfBoundsException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("IndexOutOfBoundsException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -65,14 +65,14 @@ namespace grb
     {
     public:
         PanicException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("PanicException: " + msg) {}
 
-        PanicException() {}
+        PanicException() : m_message("PanicException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("PanicException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -87,14 +87,14 @@ namespace grb
     {
     public:
         InvalidValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidValueException: " + msg) {}
 
-        InvalidValueException() {}
+        InvalidValueException() : m_message("InvalidValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -105,14 +105,14 @@ namespace grb
     {
     public:
         InvalidIndexException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("InvalidIndexException: " + msg) {}
 
-        InvalidIndexException() {}
+        InvalidIndexException() : m_message("InvalidIndexException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("InvalidIndexException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -123,17 +123,17 @@ namespace grb
     {
     public:
         DimensionException(std::string const &msg)
-            : m_message(msg)
+            : m_message("DimensionException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! DimensionException: " << msg);
         }
 
-        DimensionException(){}
+        DimensionException() : m_message("DimensionException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("DimensionException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -144,17 +144,17 @@ namespace grb
     {
     public:
         OutputNotEmptyException(std::string const &msg)
-            : m_message(msg)
+            : m_message("OutputNotEmptyException: " + msg)
         {
             GRB_LOG_VERBOSE("!!! OutputNotEmptyException: " << msg);
         }
 
-        OutputNotEmptyException(){}
+        OutputNotEmptyException() : m_message("OutputNotEmptyException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("OutputNotEmptyException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
@@ -165,14 +165,14 @@ namespace grb
     {
     public:
         NoValueException(std::string const &msg)
-            : m_message(msg) {}
+            : m_message("NoValueException: " + msg) {}
 
-        NoValueException() {}
+        NoValueException() : m_message("NoValueException: ") {}
 
     private:
         const char* what() const throw()
         {
-            return ("NoValueException: " + m_message).c_str();
+            return m_message.c_str();
         }
 
         std::string m_message;
-- 
2.43.0


From bc7bc08d8487093d23693fe195925873173fa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 08/21] fix: dense-fill vector constructor counts its stored
 values and rejects size zero

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp   | 6 +++++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..7f44395 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,10 +79,14 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
+                if (nsize == 0)
+                {
+                    throw InvalidValueException();
+                }
             }
 
             /**
-- 
2.43.0


From 2e7a0295f6a59f3cb24a5d419155f2a5bfcb1efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:58 +0000
Subject: [PATCH 09/21] fix: Vector::build counts duplicate indices once

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7f44395..2ce80b3 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7f44395..2ce80b3 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -344,6 +344,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_stored = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -362,12 +363,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_stored;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_stored;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From cbf3cb0bc495455b809ffbf4cde7ee1e01f57c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 10/21] fix: dense matrix constructors reject an empty list of
 rows instead of reading past it

---
 .../optimized_sequential/LilSparseMatrix.hpp       | 14 ++++++++++++--
 .../platforms/sequential/LilSparseMatrix.hpp       | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 2efb6a0..1a427b4 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -72,8 +72,13 @@ namespace grb
             // Constructor - dense from dense matrix
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (val.empty())
+                {
+                    throw InvalidValueException("LilSparseMatix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
@@ -95,8 +100,13 @@ namespace grb
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val,
                             ScalarT zero)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (val.empty())
+                {
+                    throw InvalidValueException("LilSparseMatix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 2efb6a0..1a427b4 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -72,8 +72,13 @@ namespace grb
             // Constructor - dense from dense matrix
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (val.empty())
+                {
+                    throw InvalidValueException("LilSparseMatix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
@@ -95,8 +100,13 @@ namespace grb
             LilSparseMatrix(std::vector<std::vector<ScalarT>> const &val,
                             ScalarT zero)
                 : m_num_rows(val.size()),
-                  m_num_cols(val[0].size())
+                  m_num_cols(val.empty() ? 0 : val[0].size())
             {
+                if (val.empty())
+                {
+                    throw InvalidValueException("LilSparseMatix(dense ctor)");
+                }
+
                 m_data.resize(m_num_rows);
                 m_nvals = 0;
                 for (IndexType ii = 0; ii < m_num_rows; ii++)
-- 
2.43.0


From 12cf7b99816392c7130289c49a76ead462a8d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:42 +0000
Subject: [PATCH 11/21] fix: wavefront and batch parent BFS carry vertex
 indices as IndexType, whatever the graph's scalar type

---
 src/algorithms/bfs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/bfs.hpp b/src/algorithms/bfs.hpp
index 0dc78a6..77b1d81 100644
--- a/src/algorithms/bfs.hpp
+++ b/src/algorithms/bfs.hpp
@@ -126,7 +126,7 @@ namespace algorithms
              WavefrontVectorT        wavefront,   // copy is intentional
              ParentListVectorT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        using T = grb::IndexType;  // wavefront and parents hold vertex indices
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is N-vector
@@ -204,7 +204,7 @@ namespace algorithms
                    WavefrontMatrixT        wavefronts,   // copy is intentional
                    ParentListMatrixT      &parent_list)
     {
-        using T = typename MatrixT::ScalarType;
+        using T = grb::IndexType;  // wavefront and parents hold vertex indices
         grb::IndexType const N(graph.nrows());
 
         // assert parent_list is RxN
-- 
2.43.0


From 5f1ec83bda69c57cf83c786100b4e960d97fbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 12/21] fix: apsp ignores positive self-loops, so every vertex
 is at distance zero from itself

---
 src/algorithms/apsp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/apsp.hpp b/src/algorithms/apsp.hpp
index ef18690..b24691d 100644
--- a/src/algorithms/apsp.hpp
+++ b/src/algorithms/apsp.hpp
@@ -61,7 +61,7 @@ namespace algorithms
         auto Distances(grb::scaled_identity<grb::Matrix<T>>(num_vertices, 0));
         grb::eWiseAdd(Distances,
                       grb::NoMask(), grb::NoAccumulate(),
-                      grb::Plus<T>(),
+                      grb::Min<T>(),
                       Distances,
                       graph);
         grb::Matrix<T> col_k(num_vertices, 1);
-- 
2.43.0


From 18eaea019a5030c091dba633b5abda172dd7e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 13/21] fix: filtered_sssp keeps newly reached vertices whose
 distance is zero

---
 src/algorithms/sssp.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/sssp.hpp b/src/algorithms/sssp.hpp
index 29d24e6..43ba24c 100644
--- a/src/algorithms/sssp.hpp
+++ b/src/algorithms/sssp.hpp
@@ -236,13 +236,18 @@ namespace algorithms
                      new_dist, graph);
             //grb::print_vector(std::cout, new_dist, "new dist");
 
-            // new_dist_flags<new_dist> = new_dist .< dist
-            // (works even if new_dist has a stored zero
-            grb::eWiseAdd(new_dist_flags,
-                          grb::structure(new_dist),
-                          grb::NoAccumulate(),
-                          grb::LessThan<T>(),
-                          new_dist, dist, grb::REPLACE);
+            // new_dist_flags<new_dist> = true where dist has no value yet
+            // (whatever the new distance is, zero included),
+            // new_dist .< dist elsewhere
+            grb::assign(new_dist_flags,
+                        grb::structure(new_dist),
+                        grb::NoAccumulate(),
+                        true, grb::AllIndices(), grb::REPLACE);
+            grb::eWiseMult(new_dist_flags,
+                           grb::NoMask(),
+                           grb::Second<bool>(),
+                           grb::LessThan<T>(),
+                           new_dist, dist);
             //grb::print_vector(std::cout, new_dist_flags, "new dist flags");
 
             // clear out any non-contributing paths
-- 
2.43.0


From 2d42ea073ec624dce39a8d63bf3192f460863452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 14/21] fix: BC_update_appendixB5 dimensions its level sets
 like the frontier, so any number of sources works

---
 src/algorithms/appendix_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/appendix_algorithms.hpp b/src/algorithms/appendix_algorithms.hpp
index 6612c5a..a4894f2 100644
--- a/src/algorithms/appendix_algorithms.hpp
+++ b/src/algorithms/appendix_algorithms.hpp
@@ -282,7 +282,7 @@ namespace algorithms
 
         // ==================== BFS phase ====================
         while (Frontier.nvals() > 0) {
-            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(nsver, n));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]), grb::NoMask(), grb::NoAccumulate(),
                        grb::Identity<int32_t, bool>(), Frontier);
 
-- 
2.43.0


From 94998504794bb9f1e22a2d5846439e39fa0576a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 15/21] fix: vertex_betweenness_centrality_batch frees its
 per-level matrices

---
 src/algorithms/bc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 8688448..3b31943 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -694,7 +694,7 @@ namespace algorithms
         grb::Matrix<int32_t> NumSP(Frontier);
 
         // ==================== BFS phase ====================
-        std::vector<grb::Matrix<bool>* > Sigmas;
+        std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
         while (Frontier.nvals() > 0)
         {
@@ -708,7 +708,7 @@ namespace algorithms
                      grb::REPLACE);
 
             // Sigma[d] = (bool)F
-            Sigmas.push_back(new grb::Matrix<bool>(n, nsver));
+            Sigmas.emplace_back(std::make_unique<grb::Matrix<bool>>(n, nsver));
             grb::apply(*(Sigmas[d]),
                        grb::NoMask(),
                        grb::NoAccumulate(),
-- 
2.43.0


From 72ec6e622e64213fefa3b6bf5cb596c7b8fe0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 16/21] fix: page_rank gives vertices without in-edges the
 teleport rank every iteration

---
 src/algorithms/page_rank.hpp | 42 +++++++++++-------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/algorithms/page_rank.hpp b/src/algorithms/page_rank.hpp
index ba0b628..7f0b3f5 100644
--- a/src/algorithms/page_rank.hpp
+++ b/src/algorithms/page_rank.hpp
@@ -95,10 +95,8 @@ namespace algorithms
                    m);
         //grb::print_matrix(std::cout, m, "Scaled Graph");
 
-        auto add_scaled_teleport =
-            std::bind(grb::Plus<RealT>(),
-                      std::placeholders::_1,
-                      (1.0 - damping_factor)/static_cast<T>(rows));
+        RealT const scaled_teleport =
+            (1.0 - damping_factor) / static_cast<RealT>(rows);
 
         grb::assign(page_rank,
                     grb::NoMask(),
@@ -115,22 +113,20 @@ namespace algorithms
             //          << std::endl;
             //print_vector(std::cout, page_rank, "rank");
 
-            // Compute the new rank: [1 x M][M x N] = [1 x N]
+            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
+            // Every vertex, with or without in-edges, gets the scaled teleport
+            grb::assign(new_rank,
+                        grb::NoMask(),
+                        grb::NoAccumulate(),
+                        scaled_teleport,
+                        grb::AllIndices());
+
+            // Add in the rank: [1 x M][M x N] = [1 x N]
             grb::vxm(new_rank,
                      grb::NoMask(),
-                     grb::Second<RealT>(),
+                     grb::Plus<RealT>(),
                      grb::ArithmeticSemiring<RealT>(),
                      page_rank, m);
-            //print_vector(std::cout, new_rank, "step 1:");
-
-            // [1 x M][M x 1] = [1 x 1] = always (1 - damping_factor)
-            // rank*(m + scaling_mat*teleport): [1 x 1][1 x M] + [1 x N] = [1 x M]
-            //use apply:
-            grb::apply(new_rank,
-                       grb::NoMask(),
-                       grb::NoAccumulate(),
-                       add_scaled_teleport,
-                       new_rank);
             //grb::print_vector(std::cout, new_rank, "new_rank");
 
             // Test for convergence - compute squared error
@@ -160,19 +156,5 @@ namespace algorithms
                 break;
             }
         }
-
-        // for any elements missing from page rank vector we need to set
-        // to scaled teleport.
-        grb::assign(new_rank,
-                    grb::NoMask(),
-                    grb::NoAccumulate(),
-                    (1.0 - damping_factor) / static_cast<T>(rows),
-                    grb::AllIndices());
-        grb::eWiseAdd(page_rank,
-                      grb::complement(page_rank),
-                      grb::NoAccumulate(),
-                      grb::Plus<RealT>(),
-                      page_rank,
-                      new_rank);
     }
 } // algorithms
-- 
2.43.0


From dbc18bc8a830b44f08c49f7885cb5ec70dfcf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 17/21] fix: maxflow_ford_fulk allows as many shortest
 augmenting paths as a network can need

---
 src/algorithms/maxflow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/maxflow.hpp b/src/algorithms/maxflow.hpp
index cca03d1..7a373ef 100644
--- a/src/algorithms/maxflow.hpp
+++ b/src/algorithms/maxflow.hpp
@@ -339,9 +339,10 @@ namespace algorithms
         //grb::print_matrix(std::cerr, R, "R");
         //grb::print_matrix(std::cerr, graph, "graph");
 
+        // Shortest augmenting paths: at most |V|*|E| of them
         grb::IndexType count(0);
         while (maxflow_bfs(R, source, sink, index_ramp, M) &&
-               count++ < graph.nvals())
+               count++ < num_nodes * graph.nvals())
         {
             //std::cerr << "----------- Iteration: " << count << " -----------\n";
             //grb::print_matrix(std::cerr, M, "M (path)");
-- 
2.43.0


From 2b30b14c35ace0c48004d4aace93493226eec315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 18/21] fix: louvain clustering keeps a vertex in place when
 there is no other community to consider

---
 src/algorithms/cluster_louvain.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithms/cluster_louvain.hpp b/src/algorithms/cluster_louvain.hpp
index 306787d..c82d014 100644
--- a/src/algorithms/cluster_louvain.hpp
+++ b/src/algorithms/cluster_louvain.hpp
@@ -216,6 +216,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // no other community to consider: stay in the previous one
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
@@ -456,6 +462,12 @@ namespace algorithms
                     //grb::print_vector(
                     //    std::cout, t, "t = (q == kappa), with zeros removed");
 
+                    // no other community to consider: stay in the previous one
+                    if (t.nvals() == 0)
+                    {
+                        t = S_row;
+                    }
+
                     // break ties if necessary
                     while (t.nvals() != 1)
                     {
-- 
2.43.0


From 777a0e42392c09da0b3977803eef94d20b62bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 19/21] fix: normalize_cols accepts matrices that are not
 square

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0


From e0ea58f6873ee60b98d6e3a8ee52a52cdc06ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 20/21] fix: edge_betweenness_centrality keeps path counts out
 of a 32-bit conversion

---
 src/algorithms/bc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index 3b31943..cd3bb87 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -1202,7 +1202,7 @@ namespace algorithms
                 grb::apply(*(search[depth]),
                            grb::NoMask(),
                            grb::NoAccumulate(),
-                           grb::Identity<int32_t, bool>(),
+                           grb::Identity<T, bool>(),
                            frontier);
 
                 // n_shortest_paths += frontier
-- 
2.43.0


From 6c92acdb3f79401cf03c234ace1c3dc108e4cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 21/21] fix: vertex_betweenness_centrality_batch_alt_trans_v2
 follows the search to its end instead of stopping after ten levels

---
 src/algorithms/bc.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/algorithms/bc.hpp b/src/algorithms/bc.hpp
index cd3bb87..0ab322a 100644
--- a/src/algorithms/bc.hpp
+++ b/src/algorithms/bc.hpp
@@ -124,9 +124,7 @@ namespace algorithms
         std::vector<std::unique_ptr<grb::Matrix<bool>>> Sigmas;
         int32_t d = 0;
 
-        // For testing purpose we only allow 10 iterations so it doesn't
-        // get into an infinite loop
-        while (Frontier.nvals() > 0 && d < 10)
+        while (Frontier.nvals() > 0)
         {
             GRB_BC_LOG("------- BFS iteration " << d << " --------");
 
-- 
2.43.0

