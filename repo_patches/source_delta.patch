From a9e40e5d12704cbf56c99f42248d5aeea355c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 01/37] fix: legal BLAS/LAPACK leading dimensions for empty
 matrices

---
 .../linalg/add_matrix_matrix_product.hpp      | 19 +++++++-------
 .../add_matrix_matrix_product_row_major.hpp   | 26 +++++++++----------
 .../linalg/add_matrix_vector_product.hpp      |  3 ++-
 include/htool/matrix/linalg/factorization.hpp | 18 ++++++-------
 4 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/include/htool/matrix/linalg/add_matrix_matrix_product.hpp b/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
index 4db4e08..583b1d8 100644
--- a/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
+++ b/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
@@ -3,6 +3,7 @@
 
 #include "../../matrix/matrix.hpp"         // for Matrix
 #include "../../wrappers/wrapper_blas.hpp" // for Blas
+#include <algorithm>                       // for max
 namespace htool {
 
 // template <typename T>
@@ -32,9 +33,9 @@ void add_matrix_matrix_product(char transa, char transb, T alpha, const Matrix<T
     int M   = C.nb_rows();
     int N   = C.nb_cols();
     int K   = transa == 'N' ? A.nb_cols() : A.nb_rows(); // also transa == 'N' ? B.nb_rows() : B.nb_cols();
-    int lda = transa == 'N' ? M : K;
-    int ldb = transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, transa == 'N' ? M : K);
+    int ldb = std::max(1, transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     Blas<T>::gemm(&transa, &transb, &M, &N, &K, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 
@@ -100,9 +101,9 @@ template <typename T>
 void add_symmetric_matrix_matrix_product(char side, char UPLO, T alpha, const Matrix<T> &A, const Matrix<T> &B, T beta, Matrix<T> &C) {
     int M   = C.nb_rows();
     int N   = C.nb_cols();
-    int lda = (side == 'L') ? M : N;
-    int ldb = M;
-    int ldc = M;
+    int lda = std::max(1, (side == 'L') ? M : N);
+    int ldb = std::max(1, M);
+    int ldc = std::max(1, M);
     Blas<T>::symm(&side, &UPLO, &M, &N, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 }
 
@@ -110,9 +111,9 @@ template <typename T>
 void add_hermitian_matrix_matrix_product(char side, char UPLO, T alpha, const Matrix<T> &A, const Matrix<T> &B, T beta, Matrix<T> &C) {
     int M   = C.nb_rows();
     int N   = C.nb_cols();
-    int lda = (side == 'L') ? M : N;
-    int ldb = M;
-    int ldc = M;
+    int lda = std::max(1, (side == 'L') ? M : N);
+    int ldb = std::max(1, M);
+    int ldc = std::max(1, M);
     Blas<T>::hemm(&side, &UPLO, &M, &N, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 }
 
diff --git a/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp b/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
index 762cfd7..cdb4618 100644
--- a/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
+++ b/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
@@ -4,7 +4,7 @@
 #include "../../matrix/matrix.hpp"         // for Matrix
 #include "../../misc/misc.hpp"             // for conj_if_complex
 #include "../../wrappers/wrapper_blas.hpp" // for Blas
-#include <algorithm>                       // for transform
+#include <algorithm>                       // for transform, max
 #include <complex>                         // for complex, conj
 #include <vector>                          // for vector
 namespace htool {
@@ -38,9 +38,9 @@ void add_matrix_matrix_product_row_major(char transa, char transb, T alpha, cons
         K               = nr;
     }
 
-    int lda = inverted_transa == 'N' ? M : K;
-    int ldb = inverted_transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, inverted_transa == 'N' ? M : K);
+    int ldb = std::max(1, inverted_transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     Blas<T>::gemm(&inverted_transa, &inverted_transb, &M, &N, &K, &alpha, in, &lda, A.data(), &ldb, &beta, out, &ldc);
 }
@@ -64,18 +64,18 @@ void add_matrix_matrix_product_row_major(char transa, char transb, std::complex<
         K               = nr;
     }
 
-    int lda = inverted_transa == 'N' ? M : K;
-    int ldb = inverted_transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, inverted_transa == 'N' ? M : K);
+    int ldb = std::max(1, inverted_transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     std::vector<std::complex<T>> buffer_A(transa == 'C' ? nr * nc : 0);
-    std::vector<std::complex<T>> buffer_B(transb == 'C' ? M * lda : 0);
+    std::vector<std::complex<T>> buffer_B(transb == 'C' ? M * K : 0);
 
     if (transa == 'C') {
         std::transform(A.data(), A.data() + nr * nc, buffer_A.data(), [](const std::complex<T> &c) { return std::conj(c); });
     }
     if (transb == 'C') {
-        std::transform(in, in + M * lda, buffer_B.data(), [](const std::complex<T> &c) { return std::conj(c); });
+        std::transform(in, in + M * K, buffer_B.data(), [](const std::complex<T> &c) { return std::conj(c); });
     }
 
     const std::complex<T> *B_final = transb != 'C' ? in : buffer_B.data();
@@ -98,8 +98,8 @@ void add_symmetric_matrix_matrix_product_row_major(char side, char UPLO, T alpha
             N             = mu;
             lda           = M;
         }
-        int ldb = M;
-        int ldc = M;
+        int ldb = std::max(1, M);
+        int ldc = std::max(1, M);
 
         Blas<T>::symm(&inverted_side, &UPLO, &M, &N, &alpha, A.data(), &lda, in, &ldb, &beta, out, &ldc);
     }
@@ -125,8 +125,8 @@ void add_hermitian_matrix_matrix_product_row_major(char side, char UPLO, std::co
             N             = mu;
             lda           = M;
         }
-        int ldb = M;
-        int ldc = M;
+        int ldb = std::max(1, M);
+        int ldc = std::max(1, M);
 
         std::vector<std::complex<T>> conjugate_in(nr * mu);
         std::complex<T> conjugate_alpha = std::conj(alpha);
diff --git a/include/htool/matrix/linalg/add_matrix_vector_product.hpp b/include/htool/matrix/linalg/add_matrix_vector_product.hpp
index a716c02..5e81987 100644
--- a/include/htool/matrix/linalg/add_matrix_vector_product.hpp
+++ b/include/htool/matrix/linalg/add_matrix_vector_product.hpp
@@ -3,6 +3,7 @@
 
 #include "../../matrix/matrix.hpp"         // for Matrix
 #include "../../wrappers/wrapper_blas.hpp" // for Blas
+#include <algorithm>                       // for max
 #include <complex>                         // for complex
 namespace htool {
 
@@ -10,7 +11,7 @@ template <typename T>
 void add_matrix_vector_product(char trans, T alpha, const Matrix<T> &A, const T *in, T beta, T *out) {
     int nr   = A.nb_rows();
     int nc   = A.nb_cols();
-    int lda  = nr;
+    int lda  = std::max(1, nr);
     int incx = 1;
     int incy = 1;
     Blas<T>::gemv(&trans, &nr, &nc, &alpha, A.data(), &lda, in, &incx, &beta, out, &incy);
diff --git a/include/htool/matrix/linalg/factorization.hpp b/include/htool/matrix/linalg/factorization.hpp
index 02619b0..c911016 100644
--- a/include/htool/matrix/linalg/factorization.hpp
+++ b/include/htool/matrix/linalg/factorization.hpp
@@ -4,7 +4,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../wrappers/wrapper_blas.hpp"   // for Blas
 #include "../../wrappers/wrapper_lapack.hpp" // for Lapack
-#include <algorithm>                         // for min
+#include <algorithm>                         // for min, max
 
 namespace htool {
 
@@ -12,7 +12,7 @@ template <typename T>
 void lu_factorization(Matrix<T> &A) {
     int M      = A.nb_rows();
     int N      = A.nb_cols();
-    int lda    = M;
+    int lda    = std::max(1, M);
     auto &ipiv = A.get_pivots();
     ipiv.resize(std::min(M, N));
     int info;
@@ -24,8 +24,8 @@ template <typename T>
 void triangular_matrix_matrix_solve(char side, char UPLO, char transa, char diag, T alpha, const Matrix<T> &A, Matrix<T> &B) {
     int m           = B.nb_rows();
     int n           = B.nb_cols();
-    int lda         = side == 'L' ? m : n;
-    int ldb         = m;
+    int lda         = std::max(1, side == 'L' ? m : n);
+    int ldb         = std::max(1, m);
     auto &ipiv      = A.get_pivots();
     bool is_pivoted = false;
 
@@ -76,8 +76,8 @@ template <typename T>
 void lu_solve(char trans, const Matrix<T> &A, Matrix<T> &B) {
     int M      = A.nb_rows();
     int NRHS   = B.nb_cols();
-    int lda    = M;
-    int ldb    = M;
+    int lda    = std::max(1, M);
+    int ldb    = std::max(1, M);
     auto &ipiv = A.get_pivots();
     int info;
 
@@ -87,7 +87,7 @@ void lu_solve(char trans, const Matrix<T> &A, Matrix<T> &B) {
 template <typename T>
 void cholesky_factorization(char UPLO, Matrix<T> &A) {
     int M   = A.nb_rows();
-    int lda = M;
+    int lda = std::max(1, M);
     int info;
 
     Lapack<T>::potrf(&UPLO, &M, A.data(), &lda, &info);
@@ -97,8 +97,8 @@ template <typename T>
 void cholesky_solve(char UPLO, const Matrix<T> &A, Matrix<T> &B) {
     int M    = A.nb_rows();
     int NRHS = B.nb_cols();
-    int lda  = M;
-    int ldb  = M;
+    int lda  = std::max(1, M);
+    int ldb  = std::max(1, M);
     int info;
 
     Lapack<T>::potrs(&UPLO, &M, &NRHS, A.data(), &lda, B.data(), &ldb, &info);
-- 
2.43.0


From 095067d80d9085d4d93efc47cd96b8ed705b5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 02/37] fix: bounding box of clusters with negative coordinates
 only

---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From 49d4499d1ed2403221c9777d3585af497b9483f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 03/37] fix: symmetry restricted to one partition's diagonal
 block no longer marks other diagonal blocks symmetric

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..62a61c6 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -101,7 +101,8 @@ class HMatrixTreeBuilder {
     void set_hmatrix_symmetry(HMatrixType &hmatrix) const {
         if (m_symmetry_type != 'N'
             && hmatrix.get_target_cluster().get_offset() == hmatrix.get_source_cluster().get_offset()
-            && hmatrix.get_target_cluster().get_size() == hmatrix.get_source_cluster().get_size()) {
+            && hmatrix.get_target_cluster().get_size() == hmatrix.get_source_cluster().get_size()
+            && (m_partition_number_for_symmetry == -1 || left_cluster_contains_right_cluster(*m_target_root_cluster.get_clusters_on_partition()[m_partition_number_for_symmetry], hmatrix.get_target_cluster()))) {
             hmatrix.set_symmetry(m_symmetry_type);
             hmatrix.set_UPLO(m_UPLO_type);
         }
@@ -115,7 +116,7 @@ class HMatrixTreeBuilder {
                     current_hmatrix.set_UPLO_for_leaves(m_UPLO_type);
                 } else if (!current_hmatrix.is_leaf()) {
                     for (auto &child : current_hmatrix.get_children()) {
-                        if (child->get_symmetry() != 'N') {
+                        if (child->get_symmetry() != 'N' || child->get_symmetry_for_leaves() != 'N') {
                             current_hmatrix.set_symmetry_for_leaves(m_symmetry_type);
                             current_hmatrix.set_UPLO_for_leaves(m_UPLO_type);
                         }
-- 
2.43.0


From c5127e5a1fe2f293959f5abca944753f78d3dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 04/37] fix: legal leading dimensions when expanding a rank-0
 low-rank matrix

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..1cdee2c 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -126,10 +126,10 @@ class LowRankMatrix {
         int N                      = m_V.nb_cols();
         int K                      = m_U.nb_cols();
         CoefficientPrecision alpha = 1;
-        int lda                    = m_U.nb_rows();
-        int ldb                    = m_V.nb_rows();
+        int lda                    = std::max(1, m_U.nb_rows());
+        int ldb                    = std::max(1, m_V.nb_rows());
         CoefficientPrecision beta  = 0;
-        int ldc                    = m_U.nb_rows();
+        int ldc                    = std::max(1, m_U.nb_rows());
 
         Blas<CoefficientPrecision>::gemm(&transa, &transb, &M, &N, &K, &alpha, m_U.data(), &lda, m_V.data(), &ldb, &beta, out, &ldc);
     }
-- 
2.43.0


From 0d2daee4f70ac79c9b928e69e5beb9a366a40aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 05/37] fix: diagonal of H-matrix leaves whose row and column
 ranges differ

---
 include/htool/hmatrix/hmatrix.hpp | 34 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..cfba02d 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -388,15 +388,18 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        // Part of the diagonal contained in the leaf
+        int diagonal_begin = std::max(offset_i, offset_j);
+        int diagonal_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diagonal_begin < diagonal_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
@@ -428,15 +431,18 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        // Part of the diagonal contained in the leaf
+        int diagonal_begin = std::max(offset_i, offset_j);
+        int diagonal_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[permutation[k] - target_offset] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diagonal_begin < diagonal_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[permutation[k] - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
-- 
2.43.0


From 342e324565cb78557274515c504c05d747872d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 06/37] fix: H-matrix vector products report unsupported
 transpose/symmetry combinations like the matrix products do

---
 .../hmatrix/linalg/add_hmatrix_vector_product.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
index 91da819..d3c9e64 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
@@ -2,12 +2,14 @@
 #define HTOOL_HMATRIX_LINALG_ADD_HMATRIX_VECTOR_PRODUCT_HPP
 
 #include "../../matrix/linalg/add_matrix_vector_product.hpp" // for add_mat...
+#include "../../misc/logger.hpp"                             // for Logger
 #include "../../misc/misc.hpp"                               // for underly...
 #include "../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../hmatrix.hpp"                                    // for HMatrix
 #include "../lrmat/linalg/add_lrmat_vector_product.hpp"      // for add_lrm...
 #include <algorithm>                                         // for transform
 #include <complex>                                           // for complex
+#include <string>                                            // for string
 #include <vector>                                            // for vector
 
 namespace htool {
@@ -55,6 +57,11 @@ void internal_add_hmatrix_vector_product(char trans, std::complex<CoefficientPre
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) {
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S')) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
     auto get_input_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_source_cluster};
@@ -98,6 +105,11 @@ void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPreci
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void openmp_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) {
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S')) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
-- 
2.43.0


From b10d8d6a6f560620f831d27c967988069d3b4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 07/37] fix: products with a rank-0 low-rank operand scale
 their output by beta

---
 include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp | 7 +++++++
 include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp | 7 +++++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp | 7 +++++++
 .../hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp      | 7 +++++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp    | 4 ++++
 .../hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp      | 4 ++++
 .../hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp      | 7 +++++++
 7 files changed, 43 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..3007d5f 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -34,6 +34,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +112,11 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) { // zero product
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..ced017d 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -29,6 +29,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +102,11 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) { // zero product
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..e2a9c9d 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -28,6 +28,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +97,11 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) { // zero product
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..8366284 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -29,6 +29,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +105,11 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) { // zero product
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..7a3912e 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -3,6 +3,7 @@
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
 #include "../lrmat.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace htool {
@@ -23,6 +24,9 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = ((transa == 'N') ? A.nb_rows() : A.nb_cols()) * mu;
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..7ce8850 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
 #include "../lrmat.hpp"                                         // for LowR...
+#include <algorithm>                                            // for transform
 #include <vector>                                               // for vector
 namespace htool {
 
@@ -20,6 +21,9 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = (trans == 'N') ? A.nb_rows() : A.nb_cols();
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..9a61d7d 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -32,6 +32,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +109,11 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) { // zero product
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else {
+        scale(beta, C.get_V());
     }
 }
 
-- 
2.43.0


From 749ff75244b7d22354257e61f4bee98d8b98abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 08/37] fix: adding a rank-0 low-rank matrix to an H-matrix is
 a no-op

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..0451a70 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) { // nothing to add
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
-- 
2.43.0


From e8787d660d462f75f2c83897c2e123da46893a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 09/37] fix: recompression of a rank-0 low-rank matrix

---
 include/htool/hmatrix/lrmat/utils/recompression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/utils/recompression.hpp b/include/htool/hmatrix/lrmat/utils/recompression.hpp
index 7e64e13..0e6b161 100644
--- a/include/htool/hmatrix/lrmat/utils/recompression.hpp
+++ b/include/htool/hmatrix/lrmat/utils/recompression.hpp
@@ -22,6 +22,10 @@ void recompression(LowRankMatrix<CoefficientPrecision> &lrmat) {
     auto rank                      = lrmat.rank_of();
     auto epsilon                   = lrmat.get_epsilon();
 
+    if (rank == 0) { // nothing to recompress
+        return;
+    }
+
     if (rank > std::min(U.nb_rows(), V.nb_cols())) {
         Matrix<CoefficientPrecision> UV(U.nb_rows(), V.nb_cols());
         add_matrix_matrix_product('N', 'N', CoefficientPrecision(1), U, V, CoefficientPrecision(1), UV);
-- 
2.43.0


From 1e6bd0d4281e03356e11bc1516129817aa455b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 10/37] fix: transposed dense matrix times hermitian H-matrix

---
 .../htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..31fbb8b 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -35,16 +35,17 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
+        bool need_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'T' && need_conj) or (transa == 'C' and !need_conj)) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From df5a86eef22db9aa71982aa05ba6967419847a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 11/37] fix: dense matrix times H-matrix with only some
 symmetric diagonal blocks

---
 .../htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index 31fbb8b..06d4133 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -20,10 +20,10 @@ template <typename CoefficientPrecision, typename CoordinatePrecision = Coeffici
 void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPrecision alpha, const Matrix<CoefficientPrecision> &A, const HMatrix<CoefficientPrecision, CoordinatePrecision> &B, CoefficientPrecision beta, Matrix<CoefficientPrecision> &C) {
 
     char new_transa = transb == 'N' ? 'T' : 'N';
-    new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'N' : new_transa;
-    new_transa      = B.get_symmetry_for_leaves() == 'S' and transb == 'N' ? 'N' : new_transa;
+    new_transa      = B.get_symmetry() == 'H' and transb == 'N' ? 'N' : new_transa;
+    new_transa      = B.get_symmetry() == 'S' and transb == 'N' ? 'N' : new_transa;
     if (transa == 'N') {
-        bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
+        bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry() == 'H' and transb == 'N');
         std::vector<CoefficientPrecision> buffer_A(need_buffer_for_conj ? A.nb_cols() * A.nb_rows() : 0);
         if (need_buffer_for_conj) {
             std::copy(A.data(), A.data() + A.nb_cols() * A.nb_rows(), buffer_A.data());
@@ -35,7 +35,7 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
-        bool need_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
+        bool need_conj = transb == 'C' or (B.get_symmetry() == 'H' and transb == 'N');
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
         if (need_conj) {
-- 
2.43.0


From 13eaf8b4a6a16615f2ed12437c0195be31a25af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:07 +0000
Subject: [PATCH 12/37] fix: H-matrix products over a process partition deeper
 than the root's children are no longer dropped

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..1dc65ed 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -265,11 +265,11 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             for (auto &output_cluster_child : output_clusters) {
                 for (auto &input_cluster_child : input_clusters) {
                     for (auto &middle_cluster_child : middle_clusters) {
-                        auto &&A_child = (transa == 'N') ? A.get_child_or_this(*output_cluster_child, *middle_cluster_child) : A.get_child_or_this(*middle_cluster_child, *output_cluster_child);
-                        auto &&B_child = (transb == 'N') ? B.get_child_or_this(*middle_cluster_child, *input_cluster_child) : B.get_child_or_this(*input_cluster_child, *middle_cluster_child);
-                        auto &&C_child = C.get_child_or_this(*output_cluster_child, *input_cluster_child);
+                        auto &&A_child = (transa == 'N') ? A.get_sub_hmatrix(*output_cluster_child, *middle_cluster_child) : A.get_sub_hmatrix(*middle_cluster_child, *output_cluster_child);
+                        auto &&B_child = (transb == 'N') ? B.get_sub_hmatrix(*middle_cluster_child, *input_cluster_child) : B.get_sub_hmatrix(*input_cluster_child, *middle_cluster_child);
+                        auto &&C_child = C.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         if (A_child != nullptr && B_child != nullptr && C_child != nullptr) {
-                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C.get_child_or_this(*output_cluster_child, *input_cluster_child));
+                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C.get_sub_hmatrix(*output_cluster_child, *input_cluster_child));
                         }
                     }
                 }
-- 
2.43.0


From 97457a27050244d079f4f77e3987a00a14f974b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 13/37] fix: H-matrix product with a leaf operand scales a
 hierarchical destination by beta

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 1dc65ed..5a3f580 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
-- 
2.43.0


From 207ce5cefdbd392e0c32ec47f81073f2008e2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 14/37] fix: Cholesky factorization of H-matrices with more
 than two diagonal blocks updates off-diagonal blocks with both factors

---
 include/htool/hmatrix/linalg/factorization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..d063bf2 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -133,19 +133,21 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *other_L = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *other_L, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *other_U = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *other_U, *U, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From 559819311be7f5a1e35452e22104c82dbd8363f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:48 +0000
Subject: [PATCH 15/37] fix: local operator matrix products renumber their
 output when asked to

---
 .../htool/local_operators/local_operator.hpp  | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..cce6085 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -41,6 +41,25 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
 
+    // Renumber each column of a row-major block of vectors
+    static void permute_row_major(const Cluster<CoordinatePrecision> &cluster, const CoefficientPrecision *in, CoefficientPrecision *out, int mu, bool is_user_to_cluster) {
+        int size = cluster.get_size();
+        std::vector<CoefficientPrecision> column(size), permuted_column(size);
+        for (int i = 0; i < mu; i++) {
+            for (int j = 0; j < size; j++) {
+                column[j] = in[i + j * mu];
+            }
+            if (is_user_to_cluster) {
+                user_to_cluster(cluster, column.data(), permuted_column.data());
+            } else {
+                cluster_to_user(cluster, column.data(), permuted_column.data());
+            }
+            for (int j = 0; j < size; j++) {
+                out[i + j * mu] = permuted_column[j];
+            }
+        }
+    }
+
   public:
     // -- Operations --
     void add_vector_product_global_to_local(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
@@ -117,6 +136,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_source_use_permutation_to_mvprod || m_symmetry == 'H' ? in_perm.data() : in + m_source_cluster.get_offset() * mu;
 
+        if (m_target_use_permutation_to_mvprod) {
+            permute_row_major(m_target_cluster, out, output, mu, true);
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('N', alpha, input, beta, output, mu);
@@ -131,12 +154,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            permute_row_major(m_target_cluster, output, out, mu, false);
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
-- 
2.43.0


From ab21e06a732f6be07546c4802f213be4527c002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:25 +0000
Subject: [PATCH 16/37] fix: transposed local operator products accumulate into
 their output and renumber their input

---
 .../htool/local_operators/local_operator.hpp  | 75 +++++++++++--------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index cce6085..63a0573 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -162,19 +162,34 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
-        std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
+        int nc = m_source_cluster.get_size();
+        int nr = m_target_cluster.get_size();
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? nr : 0);
+        std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc : 0);
         CoefficientPrecision *output = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
 
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+        } else if (m_symmetry == 'H') {
+            std::copy_n(in, nr, buffer_in.data());
+        }
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
         }
 
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? buffer_in.data() : in;
+
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_vector_product('T', alpha, in, beta, output);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            // m_data.add_vector_product('T', alpha, in, beta, output);
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            local_add_vector_product('T', alpha, input, beta, output);
+        } else if (m_symmetry == 'S') {
+            local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate
+            conj_if_complex<CoefficientPrecision>(buffer_in.data(), nr);
+            conj_if_complex<CoefficientPrecision>(output, nc);
+            local_add_vector_product_symmetric('N', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, nc);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -190,45 +205,41 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         int nc = m_source_cluster.get_size();
         int nr = m_target_cluster.get_size();
-        std::vector<CoefficientPrecision> input_perm(m_symmetry == 'H' ? nr * mu : 0);
-        std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
-        std::vector<CoefficientPrecision> output_perm(nc * mu);
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? nr * mu : 0);
+        std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu : 0);
+        CoefficientPrecision *local_out = out + m_source_cluster.get_offset() * mu;
+        CoefficientPrecision *output    = m_source_use_permutation_to_mvprod ? buffer_out.data() : local_out;
 
-        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
-            std::copy_n(in, input_perm.size(), input_perm.data());
-            conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            permute_row_major(m_target_cluster, in, buffer_in.data(), mu, true);
+        } else if (m_symmetry == 'H') {
+            std::copy_n(in, nr * mu, buffer_in.data());
+        }
+        if (m_source_use_permutation_to_mvprod) {
+            permute_row_major(m_source_cluster, local_out, output, mu, true);
         }
 
-        const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? buffer_in.data() : in;
 
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+            local_add_matrix_product_row_major('T', alpha, input, beta, output, mu);
+        } else if (m_symmetry == 'S') {
+            local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output, mu, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate
+            conj_if_complex<CoefficientPrecision>(buffer_in.data(), nr * mu);
+            conj_if_complex<CoefficientPrecision>(output, nc * mu);
+            local_add_matrix_product_symmetric_row_major('N', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output, mu, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, nc * mu);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
         }
 
-        // Permutation + transpose
+        // Permutation
         if (m_source_use_permutation_to_mvprod) {
-            for (int i = 0; i < mu; i++) {
-                for (int j = 0; j < nc; j++) {
-                    buffer_out[j] = output_perm[i + j * mu];
-                }
-                cluster_to_user(m_source_cluster, buffer_out.data(), buffer_out.data() + nc + nc * i);
-            }
-            for (int i = 0; i < mu; i++) {
-                for (int j = 0; j < nc; j++) {
-                    out[i + (m_source_cluster.get_offset() + j) * mu] = buffer_out[nc + j + i * nc];
-                }
-            }
-        } else { // we have to conjugate to apply in this particular case
-            std::copy_n(output_perm.data(), output_perm.size(), out + m_source_cluster.get_offset() * mu);
-        }
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(out + m_source_cluster.get_offset() * mu, nc * mu);
+            permute_row_major(m_source_cluster, output, local_out, mu, false);
         }
     }
 
-- 
2.43.0


From e5e5119a1ccff84c29a56525a7f096f1dff2f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 17/37] fix: local operator products restricted to a column
 range use the right offsets

---
 include/htool/local_operators/local_operator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 63a0573..dd627f5 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,7 +36,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
@@ -250,12 +250,12 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         if (!is_output_null) {
             // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
+            if (source_offset == offset && source_size + source_offset == size + offset && m_symmetry == 'N' && !m_target_use_permutation_to_mvprod && !m_source_use_permutation_to_mvprod)
                 local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
             else {
 
                 int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
+                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + (source_offset - offset) * mu : in;
                 int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
 
                 local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
-- 
2.43.0


From 2a767d6a3204d5d4fb2bd1f09c50b79e92462500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 18/37] fix: transposed local to local matrix product
 overwrites its output like the vector product

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..e40d499 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From dd723b869769b2c71eadbe66c33d81905458deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 19/37] fix: transposed local to local products of hermitian
 distributed operators conjugate

---
 .../distributed_operator.hpp                  | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index e40d499..25fb101 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,9 +575,19 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_vector_product_local_to_local(in, out, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rankWorld;
+        MPI_Comm_rank(m_comm, &rankWorld);
+        int local_size        = m_target_partition.get_size_of_partition(rankWorld);
+        int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size);
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, local_size_source);
+        return;
     }
 
     int sizeWorld, rankWorld;
@@ -621,9 +631,19 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_matrix_product_local_to_local(in, out, mu, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rankWorld;
+        MPI_Comm_rank(m_comm, &rankWorld);
+        int local_size        = m_target_partition.get_size_of_partition(rankWorld);
+        int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size * mu);
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, local_size_source * mu);
+        return;
     }
 
     int sizeWorld, rankWorld;
-- 
2.43.0


From 1ac3440de635efad62682f7bab893b1fee2cb062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 20/37] fix: product restricted to a column range sums the
 local operators of a distributed operator

---
 .../htool/distributed_operator/distributed_operator.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 25fb101..2a96b5c 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -686,8 +686,15 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
+    std::vector<CoefficientPrecision> buffer(local_size * mu);
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        std::fill(buffer.begin(), buffer.end(), CoefficientPrecision(0));
+        local_operator->sub_matrix_product_to_local(in, buffer.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, buffer.data(), out, std::plus<CoefficientPrecision>());
     }
 }
 
-- 
2.43.0


From 22fb304afd98dc2f62ceb769c4bffd2fa4f05c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 21/37] fix: matrices that were moved from or released can be
 reused

---
 include/htool/matrix/matrix.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..cf05956 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -41,7 +41,7 @@ class Matrix {
         if (&rhs == this) {
             return *this;
         }
-        if (m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
+        if (m_data != nullptr && m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_number_of_rows = rhs.m_number_of_rows;
             m_number_of_cols = rhs.m_number_of_cols;
@@ -59,7 +59,9 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_data           = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -72,6 +74,9 @@ class Matrix {
             m_is_owning_data = rhs.m_is_owning_data;
             rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
         }
         return *this;
     }
@@ -224,7 +229,7 @@ class Matrix {
             delete[] m_data;
             m_data = nullptr;
             m_data = new T[nbr * nbc];
-        } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
+        } else if (m_data == nullptr or m_number_of_rows * m_number_of_cols != nbr * nbc) {
             m_data = new T[nbr * nbc];
         }
 
-- 
2.43.0


From a11a9cae0f221f578b2685107c7b8599a0c98957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 22/37] fix: resizing a view to its own size does not make it
 own the viewed data

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index cf05956..8632bdc 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -230,13 +230,13 @@ class Matrix {
             m_data = nullptr;
             m_data = new T[nbr * nbc];
         } else if (m_data == nullptr or m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+            m_data           = new T[nbr * nbc];
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 93d1702d7bff340051a154bd7dc9b4d4ce8fc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 23/37] fix: replacing the data of an empty matrix does not
 leak

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 8632bdc..46276cf 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -130,7 +130,7 @@ class Matrix {
     }
 
     void assign(int number_of_rows, int number_of_cols, T *ptr, bool owning_data) {
-        if (m_number_of_rows * m_number_of_cols > 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
 
         m_number_of_rows = number_of_rows;
@@ -668,7 +668,7 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
-        if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
         m_number_of_rows = rows;
-- 
2.43.0


From efe11c60160bc4786f5d1fe4c12e573760a15c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 24/37] fix: copies of an H-matrix keep the symmetry of their
 leaves

---
 include/htool/hmatrix/hmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index cfba02d..1cd28d2 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
-- 
2.43.0


From 10b2bedca4f2ff93165880f41b0d353b5891439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 25/37] fix: assigning an H-matrix drops the leaf data of its
 previous value

---
 include/htool/hmatrix/hmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 1cd28d2..626b2b6 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -95,6 +95,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
         m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
 
+        m_dense_data.reset();
+        m_low_rank_data.reset();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
-- 
2.43.0


From 05ce9c981d8af607f4625f9a2ec0ab6453b338ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 26/37] fix: nodes of a copied H-matrix share the tree data of
 the copy

---
 include/htool/hmatrix/hmatrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 626b2b6..8e1fff1 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -49,6 +49,11 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
 
     StorageType m_storage_type{StorageType::Hierarchical};
 
+    // every node of a tree refers to the data of its root
+    void share_tree_data() {
+        preorder_tree_traversal(*this, [this](HMatrix &node) { node.m_tree_data = this->m_tree_data; });
+    }
+
   public:
     // Root constructor
     HMatrix(const Cluster<CoordinatePrecision> &target_cluster, const Cluster<CoordinatePrecision> &source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(), m_target_cluster(&target_cluster), m_source_cluster(&source_cluster) {
@@ -68,6 +73,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
         }
+        this->share_tree_data();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
@@ -87,6 +93,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
         }
+        this->share_tree_data();
         m_target_cluster           = rhs.m_target_cluster;
         m_source_cluster           = rhs.m_source_cluster;
         m_symmetry                 = rhs.m_symmetry;
-- 
2.43.0


From 16a3701cef0d2c8a070f69be0afdae8451a8a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 27/37] fix: an H-matrix tree builder can be used several times

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index 62a61c6..6ab58f1 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -180,6 +180,11 @@ class HMatrixTreeBuilder {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision>
 HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::build(const VirtualInternalGenerator<CoefficientPrecision> &generator) const {
+    // Forget the blocks of a previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Create root hmatrix
     HMatrixType root_hmatrix(m_target_root_cluster, m_source_root_cluster);
     root_hmatrix.set_admissibility_condition(m_admissibility_condition);
-- 
2.43.0


From 47b8071ad34934e9e3302edc1e67675129e5572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:56 +0000
Subject: [PATCH 28/37] fix: a moved cluster tree refers to its new root

---
 include/htool/clustering/cluster_node.hpp | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..5ee3991 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -9,6 +9,7 @@
 #include <memory>  // for make_shared, operator==
 #include <numeric> // for iota
 #include <string>  // for basic_string
+#include <utility> // for move
 #include <vector>  // for vector
 
 namespace htool {
@@ -23,6 +24,20 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     int m_size;                                   // number of geometric points
     int m_counter;                                // numbering of the nodes level-wise
 
+    // the tree data refers to nodes by address
+    void replace_in_tree_data(const Cluster *previous) {
+        if (this->m_tree_data != nullptr) {
+            if (this->m_tree_data->m_root_cluster == previous) {
+                this->m_tree_data->m_root_cluster = this;
+            }
+            for (auto &cluster_on_partition : this->m_tree_data->m_clusters_on_partition) {
+                if (cluster_on_partition == previous) {
+                    cluster_on_partition = this;
+                }
+            }
+        }
+    }
+
   public:
     // Root constructor
     Cluster(CoordinatesPrecision radius, std::vector<CoordinatesPrecision> &center, int rank, int offset, int size) : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(), m_radius(radius), m_center(center), m_rank(rank), m_offset(offset), m_size(size), m_counter(0) {
@@ -44,8 +59,22 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     // no copy
     Cluster(const Cluster &)                       = delete;
     Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        replace_in_tree_data(&cluster);
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        if (this != &cluster) {
+            TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+            m_radius  = cluster.m_radius;
+            m_center  = std::move(cluster.m_center);
+            m_rank    = cluster.m_rank;
+            m_offset  = cluster.m_offset;
+            m_size    = cluster.m_size;
+            m_counter = cluster.m_counter;
+            replace_in_tree_data(&cluster);
+        }
+        return *this;
+    }
     virtual ~Cluster()                             = default;
 
     // Cluster getters
-- 
2.43.0


From 3504a11b5aa7b00bd7e215d3dc0b5f2f076ef316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 29/37] fix: joining strings keeps the delimiters after leading
 empty strings

---
 include/htool/misc/user.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/htool/misc/user.hpp b/include/htool/misc/user.hpp
index 8e23c02..c532304 100644
--- a/include/htool/misc/user.hpp
+++ b/include/htool/misc/user.hpp
@@ -41,7 +41,10 @@ inline std::vector<std::string> split(const std::string &s, const std::string &d
 }
 
 inline std::string join(std::string delimiter, std::vector<std::string> x) {
-    return std::accumulate(x.begin(), x.end(), std::string(), [&](std::string ss, const std::string &s) { return ss.empty() ? s : ss + delimiter + s; });
+    if (x.empty()) {
+        return std::string();
+    }
+    return std::accumulate(x.begin() + 1, x.end(), x.front(), [&](std::string ss, const std::string &s) { return ss + delimiter + s; });
 }
 } // namespace htool
 
-- 
2.43.0


From 811405d852172bcb3e7fe0460759b7a2e9a2dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 30/37] fix: vectors are printed on the given stream

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index e19266d..223ade3 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -27,7 +27,7 @@ std::ostream &operator<<(std::ostream &out, const std::vector<T> &v) {
     if (!v.empty()) {
         out << '[';
         for (typename std::vector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
-            std::cout << *i << ',';
+            out << *i << ',';
         out << "\b]";
     }
     return out;
-- 
2.43.0


From a33942cc8c5019222a8571d9d515d9341652c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 31/37] fix: minimal block sizes, compression ratio and space
 saving of H-matrices

---
 include/htool/hmatrix/hmatrix_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 0e7891d..cc5968c 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -136,13 +136,13 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
 
     std::map<std::string, std::string> hmatrix_information;
 
-    unsigned int nb_rows = hmatrix.get_target_cluster().get_size();
-    unsigned int nb_cols = hmatrix.get_source_cluster().get_size();
+    std::size_t nb_rows = hmatrix.get_target_cluster().get_size();
+    std::size_t nb_cols = hmatrix.get_source_cluster().get_size();
 
     // 0 : dense mat ; 1 : lr mat ; 2 : rank ; 3 : local_size
     std::array<std::size_t, 3> maxinfos = {0, 0, 0};
     std::array<double, 3> meaninfos     = {0, 0, 0};
-    std::array<std::size_t, 3> mininfos = {std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows)};
+    std::array<std::size_t, 3> mininfos = {nb_rows * nb_cols, nb_rows * nb_cols, nb_rows * nb_cols};
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> low_rank_blocks;
     get_leaves(hmatrix, dense_blocks, low_rank_blocks);
-- 
2.43.0


From b13e467dd2b5dd8ae4b26a803baff846225c53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 32/37] fix: statistics of distributed H-matrices with large
 blocks or processes without blocks of some kind

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 6f671eb..07efc77 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -12,6 +12,7 @@
 #include <cstddef>                             // for size_t
 #include <iomanip>                             // for operator<<, setfill, setw
 #include <iostream>                            // for basic_ostream, basic_ios, bas...
+#include <limits>                              // for numeric_limits
 #include <map>                                 // for map
 #include <mpi.h>                               // for MPI_Reduce, MPI_DOUBLE, MPI_I...
 #include <string>                              // for basic_string, to_string, oper...
@@ -38,12 +39,12 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
 
     unsigned int local_nb_rows = hmatrix.get_target_cluster().get_size();
     unsigned int local_nb_cols = hmatrix.get_source_cluster().get_size();
-    std::size_t local_size     = local_nb_cols * local_nb_rows;
+    std::size_t local_size     = static_cast<std::size_t>(local_nb_cols) * local_nb_rows;
 
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
     std::array<double, 5> meaninfos     = {0, 0, 0, double(local_nb_rows), double(local_nb_cols)};
-    std::array<std::size_t, 5> mininfos = {local_size, local_size, local_size, local_nb_rows, local_nb_cols};
+    std::array<std::size_t, 5> mininfos = {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), local_nb_rows, local_nb_cols};
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_low_rank_blocks;
-- 
2.43.0


From a7070cffbe00c4f57faf52f1bf5edc4e69fd3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:49 +0000
Subject: [PATCH 33/37] fix: local H-matrix solver with overlap solves with the
 Cholesky factor of the overlap block

---
 .../local_solvers/local_hmatrix_plus_overlap_solvers.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
index e552d56..28c6379 100644
--- a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
+++ b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
@@ -99,7 +99,7 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_C.nb_rows() > 0) {
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_C, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'L', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'L', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 triangular_matrix_matrix_solve('L', 'L', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_C, b2, CoefficientPrecision(1), b1);
             }
@@ -109,7 +109,8 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_B.nb_cols() > 0) {
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'U', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_B, b2, CoefficientPrecision(1), b1);
             }
 
-- 
2.43.0


From f85ea405bf6ae989d19bb7f3f027de5b0fb5ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:04 +0000
Subject: [PATCH 34/37] fix: GenEO selection by threshold stops after the last
 eigenvalue

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 125d9b7..f656f6b 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -97,7 +97,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             });
             if (m_geneo_threshold > 0.0) {
                 nevi = 0;
-                while (std::abs(w[index[nevi]]) > m_geneo_threshold && nevi < index.size()) {
+                while (nevi < n && std::abs(w[index[nevi]]) > m_geneo_threshold) {
                     nevi++;
                 }
             }
@@ -145,7 +145,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (std::abs(beta[index[nevi]]) < 1e-15 || (std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold && nevi < index.size())) {
+            while (nevi < n && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From 7d3b7bbce2357e4a543c6afdcbc703b3864f691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:04 +0000
Subject: [PATCH 35/37] fix: overlap of a general operator gets its lower
 coupling block in DDMSolverBuilder

---
 include/htool/solvers/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 78de9b1..3a2c5f6 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -227,7 +227,8 @@ class DDMSolverBuilder {
         if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'U') {
             B.resize(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap);
             generator0.copy_submatrix(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap, inside_num.data(), overlap_num.data(), B.data());
-        } else if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
+        }
+        if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
             C.resize(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap);
 
             generator0.copy_submatrix(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap, overlap_num.data(), inside_num.data(), C.data());
-- 
2.43.0


From 86297804c26cd5dc731b0aec814547c98c176964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:04 +0000
Subject: [PATCH 36/37] fix: product of a hermitian operator with several
 columns in the DDM wrapper is not conjugated

---
 include/htool/wrappers/wrapper_hpddm.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/htool/wrappers/wrapper_hpddm.hpp b/include/htool/wrappers/wrapper_hpddm.hpp
index 6655b0b..68c6afb 100644
--- a/include/htool/wrappers/wrapper_hpddm.hpp
+++ b/include/htool/wrappers/wrapper_hpddm.hpp
@@ -103,9 +103,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
                     (*buffer)[i + j * mu] = in[i * this->getDof() + j];
                 }
             }
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data(), local_size * mu);
-            }
         }
 
         // All gather
@@ -117,9 +114,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
 
         // Tranpose
         if (mu != 1) {
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data() + local_size * mu, local_size * mu);
-            }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < local_size; j++) {
                     out[i * this->getDof() + j] = (*buffer)[i + j * mu + local_size * mu];
-- 
2.43.0


From d3e3b5bf9941dc00db4189d09cf346b799f018b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:04 +0000
Subject: [PATCH 37/37] fix: timings of the DDM solver are initialised on every
 process

---
 include/htool/solvers/ddm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/solvers/ddm.hpp b/include/htool/solvers/ddm.hpp
index 3a6d843..5f8b02c 100644
--- a/include/htool/solvers/ddm.hpp
+++ b/include/htool/solvers/ddm.hpp
@@ -64,7 +64,7 @@ class DDM {
 
     void facto_one_level() {
         double time = MPI_Wtime();
-        double mytime, maxtime;
+        double mytime, maxtime = 0;
         m_hpddm_op->callNumfact();
         mytime = MPI_Wtime() - time;
 
@@ -388,7 +388,7 @@ DDM<CoefficientPrecision, HPDDM::LapackTRSub> make_DDM_solver(const DistributedO
     int n = local_dense_matrix.nb_rows();
 
     // Timing
-    double mytime, maxtime;
+    double mytime, maxtime = 0;
     double time = MPI_Wtime();
 
     // Symmetry and storage
@@ -459,7 +459,7 @@ DDM<CoefficientPrecision, HPDDMCustomLocalSolver> make_DDM_solver_w_custom_local
     int n = local_hmatrix.get_target_cluster().get_size();
 
     // Timing
-    double mytime, maxtime;
+    double mytime, maxtime = 0;
     double time = MPI_Wtime();
 
     // Symmetry and storage
@@ -490,7 +490,7 @@ DDM<CoefficientPrecision, HPDDMCustomLocalSolver> make_DDM_solver_w_custom_local
     int n = local_hmatrix.get_target_cluster().get_size() + D.nb_rows();
 
     // Timing
-    double mytime, maxtime;
+    double mytime, maxtime = 0;
     double time = MPI_Wtime();
 
     // Symmetry and storage
-- 
2.43.0

