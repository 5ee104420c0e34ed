From 821e7f134a10175c412bb712d50d47d8f118e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 01/51] fix: declare the double specialization of
 VectorView::Normalize where it is used

---
 include/vectorview.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 0a7e721..3c2ff8e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -802,6 +802,9 @@ void VectorView<T>::Normalize()
     throw std::runtime_error("Cannot normalize unless double!");
 }
 
+template <>
+void VectorView<double>::Normalize();
+
 /*! @brief Subtract a constant vector set to the average
     from this vector: x_i = x_i - mean(x)
     @param vect vector to subtract average from
-- 
2.43.0


From cb4cf732c508c8677f8289cdb46637f1c40d9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 02/51] fix: CooMatrix/LilMatrix MultAT checked the sizes of
 the untransposed product

---
 include/coomatrix.hpp | 4 ++--
 include/lilmatrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b6264c4..b7a9609 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -654,8 +654,8 @@ void CooMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void CooMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index dd181e6..cbef1bb 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -434,8 +434,8 @@ void LilMatrix<T>::Mult(const VectorView<double>& input, VectorView<double> outp
 template <typename T>
 void LilMatrix<T>::MultAT(const VectorView<double>& input, VectorView<double> output) const
 {
-    assert(Rows() == output.size());
-    assert(Cols() == input.size());
+    assert(Cols() == output.size());
+    assert(Rows() == input.size());
 
     output = 0;
 
-- 
2.43.0


From f5caf56f10a1634b52499cde7b833d3b31dda319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 03/51] fix: CooMatrix/LilMatrix move constructors left
 size_set_ uninitialized

---
 include/coomatrix.hpp | 1 +
 include/lilmatrix.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index b7a9609..adf34d2 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -281,6 +281,7 @@ CooMatrix<T>::CooMatrix(const CooMatrix& other) noexcept
 
 template <typename T>
 CooMatrix<T>::CooMatrix(CooMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index cbef1bb..72b9bd7 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -207,6 +207,7 @@ LilMatrix<T>::LilMatrix(const LilMatrix& other) noexcept
 
 template <typename T>
 LilMatrix<T>::LilMatrix(LilMatrix&& other) noexcept
+    : size_set_(false)
 {
     swap(*this, other);
 }
-- 
2.43.0


From 7aa49b53f0364e908e60066558481fc48c54469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 04/51] fix: LilMatrix inferred one row too many, leaving a
 malformed row pointer

Without a declared size FindSize() returned entries_.size() + 1 rows, so
ToSparse() left indptr[rows] at zero. The inferred size is now the smallest
one that holds every index.
---
 include/lilmatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 72b9bd7..06069ad 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -508,11 +508,11 @@ std::tuple<int, int> LilMatrix<T>::FindSize() const
     {
         for (const auto& node : row)
         {
-            cols = std::max(cols, node.first);
+            cols = std::max(cols, node.first + 1);
         }
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 73bc1515e7fa3fe7d34d7cf6edd1b4c1ae8bfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 05/51] fix: LilMatrix::SetSize did not size the row storage

Adding an entry after SetSize() indexed past the end of entries_.
---
 include/lilmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 06069ad..356b235 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -254,6 +254,8 @@ void LilMatrix<T>::SetSize(int rows, int cols)
 
     rows_ = rows;
     cols_ = cols;
+
+    entries_.resize(rows_);
 }
 
 template <typename T>
-- 
2.43.0


From 71e7e478be2d7173ef412736d587888719311727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 06/51] fix: EliminateZeros with the default tolerance removed
 nothing

The comparison with the default tolerance 0 was strict, so entries with zero
value were kept.
---
 include/coomatrix.hpp | 2 +-
 include/lilmatrix.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index adf34d2..c252870 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -693,7 +693,7 @@ void CooMatrix<T>::EliminateZeros(double tolerance)
     auto compare = [&] (const std::tuple<int, int, T>& entry)
     {
         const double val = std::get<2>(entry);
-        return std::abs(val) < tolerance;
+        return std::abs(val) <= tolerance;
     };
 
     entries_.erase(std::remove_if(std::begin(entries_), std::end(entries_),
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 356b235..6d162b1 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -489,7 +489,7 @@ void LilMatrix<T>::EliminateZeros(double tolerance)
         row.erase(std::remove_if(std::begin(row), std::end(row),
                                  [&](const std::pair<int, double>& entry)
         {
-            return std::abs(entry.second) < tolerance;
+            return std::abs(entry.second) <= tolerance;
         }),
         std::end(row));
     }
-- 
2.43.0


From a4f5ae0f452cd5f5892f5259dafcd06dd7d03fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 07/51] fix: CooMatrix without a declared size reported 0x0 and
 could not multiply

Rows() and Cols() now follow the documented size of the largest entry, and
a matrix without entries is empty instead of 1x1.
---
 include/coomatrix.hpp | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index c252870..5627ba6 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -66,6 +66,24 @@ class CooMatrix : public Operator
         template <typename U>
         friend void swap(CooMatrix<U>& lhs, CooMatrix<U>& rhs) noexcept;
 
+        /*! @brief Get the number of rows.
+            @retval the number of rows
+
+            @note If the matrix size was not specified during
+            creation, then the number of rows is determined
+            by the maximum element.
+        */
+        int Rows() const override;
+
+        /*! @brief Get the number of columns.
+            @retval the number of columns
+
+            @note If the matrix size was not specified during
+            creation, then the number of columns is determined
+            by the maximum element.
+        */
+        int Cols() const override;
+
         /*! @brief Set the size of the matrix
             @param rows the number of rows
             @param cols the number of columns
@@ -303,6 +321,24 @@ void swap(CooMatrix<T>& lhs, CooMatrix<T>& rhs) noexcept
     std::swap(lhs.entries_, rhs.entries_);
 }
 
+template <typename T>
+int CooMatrix<T>::Rows() const
+{
+    int rows;
+    std::tie(rows, std::ignore) = FindSize();
+
+    return rows;
+}
+
+template <typename T>
+int CooMatrix<T>::Cols() const
+{
+    int cols;
+    std::tie(std::ignore, cols) = FindSize();
+
+    return cols;
+}
+
 template <typename T>
 void CooMatrix<T>::SetSize(int rows, int cols)
 {
@@ -716,11 +752,11 @@ std::tuple<int, int> CooMatrix<T>::FindSize() const
         const int i = std::get<0>(entry);
         const int j = std::get<1>(entry);
 
-        rows = std::max(rows, i);
-        cols = std::max(cols, j);
+        rows = std::max(rows, i + 1);
+        cols = std::max(cols, j + 1);
     }
 
-    return std::tuple<int, int> {rows + 1, cols + 1};
+    return std::tuple<int, int> {rows, cols};
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 9bd44f95ccaaec4a7ec7829dc80c2f5567eff1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 08/51] fix: LilMatrix::ToSparse sorted the shared entries of a
 const matrix

Two threads converting one constant matrix raced on the row lists, and a
conversion changed the summation order of later products.
---
 include/coomatrix.hpp |  2 +-
 include/lilmatrix.hpp | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/coomatrix.hpp b/include/coomatrix.hpp
index 5627ba6..6052941 100644
--- a/include/coomatrix.hpp
+++ b/include/coomatrix.hpp
@@ -269,7 +269,7 @@ class CooMatrix : public Operator
 
         bool size_set_;
 
-        mutable std::vector<std::tuple<int, int, T>> entries_;
+        std::vector<std::tuple<int, int, T>> entries_;
 };
 
 template <typename T>
diff --git a/include/lilmatrix.hpp b/include/lilmatrix.hpp
index 6d162b1..000bae4 100644
--- a/include/lilmatrix.hpp
+++ b/include/lilmatrix.hpp
@@ -175,7 +175,7 @@ class LilMatrix : public Operator
 
         bool size_set_;
 
-        mutable std::vector<std::list<std::pair<int, T>>> entries_;
+        std::vector<std::list<std::pair<int, T>>> entries_;
 };
 
 template <typename T>
@@ -367,11 +367,6 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
 
     const int size = entries_.size();
 
-    for (auto& row : entries_)
-    {
-        row.sort();
-    }
-
     const int nnz = entries_.size();
 
     std::vector<int> indptr(rows + 1, 0);
@@ -387,7 +382,10 @@ SparseMatrix<U> LilMatrix<T>::ToSparse() const
     {
         const int current_row = indptr[i];
 
-        for (const auto& node : entries_[i])
+        std::list<std::pair<int, T>> row(entries_[i]);
+        row.sort();
+
+        for (const auto& node : row)
         {
             const int& j = node.first;
             const T& val = node.second;
-- 
2.43.0


From 20e2a3d0c82f2885770d434dbae75365b80030d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 09/51] fix: z = x + y and z = x - y let a stale NaN of z into
 the result

They went through z = ax + by + gz with g = 0, so an uninitialised or
non-finite output stayed NaN; the double literals also kept the integer
instantiation from compiling.
---
 include/vectorview.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 3c2ff8e..3b38214 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -841,7 +841,15 @@ void Add(T alpha, const VectorView<T>& x, T beta, const VectorView<T>& y, T gamm
 template <typename T>
 void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, 1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] + y[i];
+    }
 }
 
 /*! @brief Compute z = x - y
@@ -852,7 +860,15 @@ void Add(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 template <typename T>
 void Sub(const VectorView<T>& x, const VectorView<T>& y, VectorView<T> z)
 {
-    Add(1.0, x, -1.0, y, 0.0, z);
+    int size = x.size();
+
+    assert(y.size() == size);
+    assert(z.size() == size);
+
+    for (int i = 0; i < size; ++i)
+    {
+        z[i] = x[i] - y[i];
+    }
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From 98b42fc84e2fc5942aba94110a93ac7420e8d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 10/51] fix: dense products with an empty operand passed
 leading dimension 0 to dgemm

BLAS rejects it through xerbla, which ends the process.
---
 src/densematrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 947f6c8..5d21911 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -245,14 +245,14 @@ void DenseMatrix::dgemm(const DenseMatrix& input, DenseMatrix& output, bool AT,
 
     double alpha = 1.0;
     const double* A = data_.data();
-    int lda = rows_;
+    int lda = std::max(1, rows_);
     const double* B = input.data_.data();
-    int ldb = input.Rows();
+    int ldb = std::max(1, input.Rows());
     double beta = 0.0;
 
     output.SetSize(m, n);
     double* c = output.data_.data();
-    int ldc = output.Rows();
+    int ldc = std::max(1, output.Rows());
 
 
     dgemm_(&transA, &transB, &m, &n, &k,
-- 
2.43.0


From a74350e0fdedd8f466a76e1121b01aeab46097c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 11/51] fix: empty dense blocks were rejected by the range
 assertions

Getting or setting an empty range of rows or columns, any block of an empty
matrix, and HStack of matrices without rows aborted on start < rows_.
---
 src/densematrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 5d21911..83376f2 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -450,8 +450,8 @@ DenseMatrix DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int e
 
 void DenseMatrix::GetSubMatrix(int start_i, int start_j, int end_i, int end_j, DenseMatrix& dense) const
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -506,8 +506,8 @@ void DenseMatrix::SetSubMatrix(int start_i, int start_j, const DenseMatrix& dens
 
 void DenseMatrix::SetSubMatrix(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
@@ -531,8 +531,8 @@ void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, const DenseMat
 
 void DenseMatrix::SetSubMatrixTranspose(int start_i, int start_j, int end_i, int end_j, const DenseMatrix& dense)
 {
-    assert(start_i >= 0 && start_i < rows_);
-    assert(start_j >= 0 && start_j < cols_);
+    assert(start_i >= 0 && start_i <= rows_);
+    assert(start_j >= 0 && start_j <= cols_);
     assert(end_i >= 0 && end_i <= rows_);
     assert(end_j >= 0 && end_j <= cols_);
     assert(end_i >= start_i && end_j >= start_j);
-- 
2.43.0


From cb8b9d8f5e89a553cbf23480aede229c5a7a0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 12/51] fix: DenseMatrix::QR overran its pivot array on wide
 matrices

dgeqp3 writes one pivot per column but the array had min(rows, cols)
entries, and dorgqr cannot generate more columns than rows. Q of a wide
matrix is now rows x rows.
---
 src/densematrix.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index 83376f2..dea966f 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -655,21 +655,25 @@ void DenseMatrix::QR()
 
     lwork = static_cast<int>(qwork);
 
-    std::vector<int> jpvt(mn_min, 0);
+    std::vector<int> jpvt(cols, 0);
     std::vector<double> tau(mn_min);
     std::vector<double> work(lwork);
 
     dgeqp3_(m, n, A, lda, jpvt.data(), tau.data(), work.data(), &lwork, &info);
 
+    // Q has as many columns as there are reflectors
+    SetSize(rows, mn_min);
+    A = data_.data();
+
     const int* k = &mn_min;
 
     lwork = -1;
-    dorgqr_(m, n, k, A, lda, tau.data(), &qwork, &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), &qwork, &lwork, &info);
     lwork = static_cast<int>(qwork);
 
     work.resize(lwork);
 
-    dorgqr_(m, n, k, A, lda, tau.data(), work.data(), &lwork, &info);
+    dorgqr_(m, k, k, A, lda, tau.data(), work.data(), &lwork, &info);
 
     assert(info == 0);
 }
-- 
2.43.0


From 743b178baecfc529fb380809216e920c6b2efcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 13/51] fix: EigenSolver read past the eigenvalues when
 max_evect exceeds the size

evals[n] was compared with the tolerance and, depending on the stray value,
more than n eigenvectors were requested from LAPACK.
---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index f35eecf..4bad87c 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -96,7 +96,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
 
-    if (max_evect < 0)
+    if (max_evect < 0 || max_evect > n)
     {
         max_evect = n;
     }
-- 
2.43.0


From 2a2143be744c74401594a56ac3b818b14467d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 14/51] fix: EigenSolver lost orthogonality or returned NaN for
 reducible matrices

The tridiagonal form of a disconnected graph Laplacian or a block diagonal
matrix decouples, but dstein was told it is one block: eigenvectors of a
repeated eigenvalue came out far from orthogonal, and NaN for the zero
matrix. Splitting with dstebz is not enough because near-zero couplings
remain, so use the QL iteration of dsyev.
---
 include/eigensolver.hpp | 15 +------
 src/eigensolver.cpp     | 87 +++++++----------------------------------
 2 files changed, 15 insertions(+), 87 deletions(-)

diff --git a/include/eigensolver.hpp b/include/eigensolver.hpp
index 24ccaed..b26a643 100644
--- a/include/eigensolver.hpp
+++ b/include/eigensolver.hpp
@@ -82,10 +82,8 @@ class EigenSolver
     private:
         void AllocateWorkspace(int size);
 
+        char job_;
         char uplo_;
-        char side_;
-        char trans_;
-        double abstol_;
 
         int info_;
         int alloc_size_;
@@ -93,17 +91,6 @@ class EigenSolver
 
         std::vector<double> A_;
         std::vector<double> work_;
-        std::vector<int> iwork_;
-
-        // Triangularization info
-        std::vector<double> d_;
-        std::vector<double> e_;
-        std::vector<double> tau_;
-
-        // Block info for dstein_ / dormtr_
-        std::vector<int> iblock_;
-        std::vector<int> isplit_;
-        std::vector<int> ifail_;
 };
 
 } //namespace linalgcpp
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 4bad87c..214d711 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -2,27 +2,9 @@
 
 extern "C"
 {
-    void dgesvd_(const char* jobu, const char* jobvt, const int* m,
-                 const int* n, double* a, const int* lda, double* s,
-                 double* u, const int* ldu, double* vt, const int* ldvt,
-                 double* work, const int* lwork, int* info);
-
-    void dsytrd_(char* uplo, const int* n, double* a, const int* lda,
-                 double* d, double* e, double* tau, double* work,
-                 int* lwork, int* info );
-
-    void dsterf_(const int* n, double* d, double* e, int* info);
-
-    void dstein_(const int* n, const double* d, const double* e,
-                 int* m, const double* w, const int* iblock,
-                 const int* isplit, double* z, const int* ldz,
-                 double* work, int* iwork, int* ifailv,
-                 int* info);
-
-    void dormtr_(char* side, char* uplo, char* trans, const int* m,
-                 const int* n, const double* a, const int* lda,
-                 const double* tau, double* c, const int* ldc, double* work,
-                 int* lwork, int* info);
+    void dsyev_(const char* jobz, const char* uplo, const int* n,
+                double* a, const int* lda, double* w, double* work,
+                const int* lwork, int* info);
 }
 
 
@@ -30,8 +12,7 @@ namespace linalgcpp
 {
 
 EigenSolver::EigenSolver()
-    : uplo_('U'), side_('L'), trans_('N'),
-      abstol_(2 * std::numeric_limits<double>::min()),
+    : job_('V'), uplo_('U'),
       info_(0), alloc_size_(-1), lwork_(-1)
 {
 }
@@ -81,17 +62,13 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     mat.CopyData(A_);
     double* a = A_.data();
 
-    // Triangularize A = Q * T * Q^T
-    dsytrd_(&uplo_, &n, a, &n, d_.data(), e_.data(), tau_.data(), work_.data(),
-            &lwork_, &info_ );
+    // Compute all eigenvalues and eigenvectors, which replace A.
+    // Inverse iteration for only the needed eigenvectors is cheaper but
+    // loses orthogonality when the tridiagonal form decouples.
+    dsyev_(&job_, &uplo_, &n, a, &n, evals.data(), work_.data(),
+           &lwork_, &info_);
 
-    // d_ and e_ changed by dsterf_
-    // copy since they are needed for dstein_
-    std::copy_n(std::begin(d_), n, std::begin(evals));
-    auto e_copy = e_;
-
-    // Compute all eigenvalues
-    dsterf_(&n, evals.data(), e_copy.data(), &info_);
+    assert(info_ == 0);
 
     // Determine how many eigenvectors to be computed
     const double tol = evals.back() * rel_tol;
@@ -108,24 +85,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         ++m;
     }
 
-    ifail_.resize(m);
-    isplit_[0] = n;
-
     evects.SetSize(n, m);
-    //std::vector<double> evect_data(n * m);
-
-    // Calculate Eigenvectors of T
-    dstein_(&n, d_.data(), e_.data(),
-            &m, evals.data(), iblock_.data(),
-            isplit_.data(), evects.GetData(), &n,
-            work_.data(), iwork_.data(), ifail_.data(),
-            &info_);
-
-    // Compute Q * (eigenvectors of T)
-    dormtr_(&side_, &uplo_, &trans_, &n,
-            &m, a, &n,
-            tau_.data(), evects.GetData(), &n, work_.data(),
-            &lwork_, &info_);
+    std::copy_n(a, n * m, evects.GetData());
 
     // Should we keep all evals?
     evals.resize(n);
@@ -141,31 +102,11 @@ void EigenSolver::AllocateWorkspace(int size)
     int lwork = -1;
     double wkopt;
 
-    // find max workspace between dsytrd_, dstein_ and dormtr_
-    dsytrd_(&uplo_, &size, nullptr, &size,
-            d_.data(), e_.data(), tau_.data(), &wkopt,
-            &lwork, &info_ );
-
-    // 5n is for dstein_
-    lwork_ = std::max(5 * size, (int)wkopt);
-
-    dormtr_(&side_, &uplo_, &trans_, &size,
-            &size, nullptr, &size,
-            tau_.data(), nullptr, &size, &wkopt,
-            &lwork, &info_ );
-
-    lwork_ = std::max(lwork_, (int)wkopt);
+    dsyev_(&job_, &uplo_, &size, nullptr, &size, nullptr, &wkopt,
+           &lwork, &info_);
 
+    lwork_ = static_cast<int>(wkopt);
     work_.resize(lwork_);
-    iwork_.resize(size);
-
-    d_.resize(size);
-    e_.resize(size);
-    tau_.resize(size);
-
-    iblock_.resize(size, 1);
-    isplit_.resize(size, 0);
-    iwork_.resize(size);
 }
 
 } // namespace linalgcpp
-- 
2.43.0


From aaf639825002f265efccb171e6e16f1075f8d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 15/51] fix: a moved-from EigenSolver solved without a
 workspace

The defaulted move keeps alloc_size_ while the work vector is gone, so the
next Solve() let LAPACK write out of bounds.
---
 src/eigensolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index 214d711..b3d527d 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -52,7 +52,7 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
         return;
     }
 
-    if (alloc_size_ < n)
+    if (alloc_size_ < n || work_.empty())
     {
         AllocateWorkspace(n);
     }
-- 
2.43.0


From ab0ffce79d224b80970005a4b8bfcee59e55967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 16/51] fix: BlockMatrix::Transpose moved the blocks without
 transposing them

Blocks that were not set, and rectangular blocks, failed the size assertion.
---
 include/blockmatrix.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 35d8b28..9ba9f21 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -214,7 +214,13 @@ BlockMatrix<T> BlockMatrix<T>::Transpose() const
     {
         for (int j = 0; j < col_blocks; ++j)
         {
-            transpose.SetBlock(j, i, GetBlock(i, j));
+            const auto& mat = GetBlock(i, j);
+
+            // Blocks not set are zero and stay so
+            if (mat.Rows() != 0 && mat.Cols() != 0)
+            {
+                transpose.SetBlock(j, i, mat.Transpose());
+            }
         }
     }
 
-- 
2.43.0


From 2005419341b070f7ce71c6bc21688e80794d9033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 17/51] fix: BlockMatrix<T>::Combine did not compile for T
 other than double

---
 include/blockmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 9ba9f21..22055c0 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -242,7 +242,7 @@ SparseMatrix<T> BlockMatrix<T>::Combine() const
 
     std::vector<int> indptr(rows_ + 1);
     std::vector<int> indices(nnz);
-    std::vector<double> data(nnz);
+    std::vector<T> data(nnz);
 
     indptr[0] = 0;
 
-- 
2.43.0


From 31baf48e8fc59fbc44aee7ae6313d1bc81671e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 18/51] fix: PCG ignored small iteration limits and divided
 zero by zero

With a limit of 0 or 1 it still iterated and reported more iterations than
allowed, and an exactly zero residual with zero tolerances gave NaN. Allow
exactly max_iter iterations and accept a residual equal to the tolerance.
---
 src/solvers.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ba2fe0b..bef87de 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -169,16 +169,18 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
-    num_iter_ = 1;
+    num_iter_ = 0;
 
-    if ((*Dot_)(z_, r_) < tol_tol)
-    //if ((*Dot_)(r_, r_) < tol_tol)
+    if ((*Dot_)(z_, r_) <= tol_tol)
+    //if ((*Dot_)(r_, r_) <= tol_tol)
     {
         return;
     }
 
-    do
+    while (num_iter_ < max_iter_)
     {
+        ++num_iter_;
+
         A_->Mult(p_, Ap_);
 
         double pAp = (*Dot_)(p_, Ap_);
@@ -209,7 +211,7 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("PCG %d: %.2e\n", num_iter_, numer / r0);
         }
 
-        if (numer < tol_tol)
+        if (numer <= tol_tol)
         {
             break;
         }
@@ -219,7 +221,6 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         p_ *= beta;
         p_ += z_;
     }
-    while (++num_iter_ < max_iter_);
 }
 
 Vector<double> PCG(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From 342f426e5902a83d9ac5f8e387f7b7ca7478446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 19/51] fix: MINRES divided by a zero initial residual

An exact starting guess or a zero right hand side tripped the assertion on
dividing by zero, or gave NaN without assertions.
---
 src/solvers.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index bef87de..9abff87 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -308,6 +308,12 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
+    if (beta <= tol)
+    {
+        num_iter_ = 0;
+        return;
+    }
+
     for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
     {
         v1_ /= beta;
@@ -351,7 +357,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
             printf("MINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
@@ -458,6 +464,12 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
 
     double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
 
+    if (beta <= tol)
+    {
+        num_iter_ = 0;
+        return;
+    }
+
     for (num_iter_ = 1; num_iter_ <= max_iter_; ++num_iter_)
     {
         v1_ /= beta;
@@ -504,7 +516,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
             printf("PMINRES %d: %.2e\n", num_iter_, eta);
         }
 
-        if (std::fabs(eta) < tol)
+        if (std::fabs(eta) <= tol)
         {
             break;
         }
-- 
2.43.0


From 601c26cbd623bf3ddf8ee116d73e41b5766adcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 20/51] fix: MINRES reported max_iter + 1 iterations when it
 did not converge

---
 src/solvers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 9abff87..ea0c7ac 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -365,6 +365,8 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
         swap(v0_, v1_);
         swap(w0_, w1_);
     }
+
+    num_iter_ = std::min(num_iter_, max_iter_);
 }
 
 Vector<double> MINRES(const Operator& A, const VectorView<double>& b,
@@ -525,6 +527,8 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
         swap(v0_, v1_);
         swap(w0_, w1_);
     }
+
+    num_iter_ = std::min(num_iter_, max_iter_);
 }
 
 Vector<double> PMINRES(const Operator& A, const Operator& M, const VectorView<double>& b,
-- 
2.43.0


From c8dc62c935c73e7edf47c32bde0a0bc4450c8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 21/51] fix: MINRES squared its tolerances although it compares
 norms

With an absolute tolerance above one it stopped at the square of it and
reported convergence. Only PCG compares squared quantities.
---
 src/solvers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index ea0c7ac..8e5679d 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -306,7 +306,7 @@ void MINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     if (beta <= tol)
     {
@@ -464,7 +464,7 @@ void PMINRESSolver::Mult(const VectorView<double>& b, VectorView<double> x) cons
     double sigma = 0;
     double sigma2 = 0;
 
-    double tol = std::max(beta * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    double tol = std::max(beta * rel_tol_, abs_tol_);
 
     if (beta <= tol)
     {
-- 
2.43.0


From 02af2689a281aedd1f213ab7820c65f2cab6401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 22/51] fix: default constructed and moved-from PCG/PMINRES
 solvers held a wild preconditioner pointer

---
 include/solvers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers.hpp b/include/solvers.hpp
index 63ee2d1..03fbf69 100644
--- a/include/solvers.hpp
+++ b/include/solvers.hpp
@@ -145,7 +145,7 @@ class PCGSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> Ap_;
         mutable Vector<double> r_;
@@ -242,7 +242,7 @@ class PMINRESSolver : public Solver
         void Mult(const VectorView<double>& input, VectorView<double> output) const override;
 
     private:
-        const Operator* M_;
+        const Operator* M_ = nullptr;
 
         mutable Vector<double> w0_;
         mutable Vector<double> w1_;
-- 
2.43.0


From c46dc5cc8f5cacc4855e12c4fc7d5a8d77e1cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 23/51] fix: PCG failed after converging exactly when the
 squared residual underflowed

---
 src/solvers.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/solvers.cpp b/src/solvers.cpp
index 8e5679d..2e663b3 100644
--- a/src/solvers.cpp
+++ b/src/solvers.cpp
@@ -1,5 +1,7 @@
 #include "solvers.hpp"
 
+#include <limits>
+
 namespace linalgcpp
 {
 
@@ -167,7 +169,9 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
     const double r0 = (*Dot_)(z_, r_);
     //const double r0 = (*Dot_)(r_, r_);
 
-    const double tol_tol = std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_);
+    // Squared residuals below the smallest normal number carry no information
+    const double tol_tol = std::max(std::max(r0 * rel_tol_ * rel_tol_, abs_tol_ * abs_tol_),
+                                    std::numeric_limits<double>::min());
 
     num_iter_ = 0;
 
@@ -185,6 +189,13 @@ void PCGSolver::Mult(const VectorView<double>& b, VectorView<double> x) const
 
         double pAp = (*Dot_)(p_, Ap_);
         double r_z = (*Dot_)(r_ , z_);
+
+        // The search direction has underflowed, there is nothing left to reduce
+        if (std::fabs(pAp) < std::numeric_limits<double>::min())
+        {
+            break;
+        }
+
         double alpha = r_z / pAp;
 
         linalgcpp_verify(pAp > -1e12, "PCG is not positive definite!");
-- 
2.43.0


From 53a9cdbf38a84f4dbc49ff68e08642837c8b871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 24/51] fix: text files did not round trip double values
 exactly, integer coordinate lists did not compile

---
 include/parser.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 2f6dd18..85ee743 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -54,7 +54,7 @@ void WriteText(const T& vect, const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    file.precision(16);
+    file.precision(17);
 
     for (const auto& val : vect)
     {
@@ -370,10 +370,12 @@ void WriteCooList(const SparseMatrix<T>& mat, const std::string& file_name, bool
 
     const std::vector<int>& indptr = mat.GetIndptr();
     const std::vector<int>& indices = mat.GetIndices();
-    const std::vector<double>& data = mat.GetData();
+    const std::vector<T>& data = mat.GetData();
 
     const int rows = mat.Rows();
 
+    file.precision(17);
+
     for (int i = 0; i < rows; ++i)
     {
         for (int j = indptr[i]; j < indptr[i + 1]; ++j)
@@ -554,7 +556,7 @@ void WriteCSR(const SparseMatrix<T>& mat, const std::string& file_name)
         file << i << "\n";
     }
 
-    file.precision(16);
+    file.precision(17);
 
     for (auto i : data)
     {
@@ -707,7 +709,7 @@ void WriteMTX(const SparseMatrix<T>& mat, const std::string& file_name)
     int cols = mat.Cols();
     int nnz = mat.nnz();
 
-    file.precision(16);
+    file.precision(17);
     file << "%MatrixMarket matrix coordinate real general\n";
     file << rows << " " << cols << " " << nnz <<  "\n";
 
-- 
2.43.0


From 39d9a540d7ff98e5720de111f3c3822c8ce378c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 25/51] fix: empty tables, vectors and matrices were read and
 written through invalid references

---
 include/parser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 85ee743..38791bd 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -81,7 +81,7 @@ void WriteBinary(const std::vector<T>& vect, const std::string& file_name)
     size_t size = vect.size();
 
     file.write(reinterpret_cast<const char*>(&size), sizeof(size));
-    file.write(reinterpret_cast<const char*>(&vect[0]), size * sizeof(T));
+    file.write(reinterpret_cast<const char*>(vect.data()), size * sizeof(T));
 
     file.close();
 }
@@ -107,7 +107,7 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     std::vector<T> vect(size);
 
-    file.read(reinterpret_cast<char*>(&vect[0]), size * sizeof(T));
+    file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
     file.close();
 
     return vect;
@@ -143,9 +143,9 @@ void WriteBinary(const SparseMatrix<T>& mat, const std::string& file_name)
     file.write(reinterpret_cast<const char*>(&cols), sizeof(cols));
     file.write(reinterpret_cast<const char*>(&nnz), sizeof(nnz));
 
-    file.write(reinterpret_cast<const char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&indices[0]), nnz * sizeof(int));
-    file.write(reinterpret_cast<const char*>(&data[0]), nnz * sizeof(T));
+    file.write(reinterpret_cast<const char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.write(reinterpret_cast<const char*>(indices.data()), nnz * sizeof(int));
+    file.write(reinterpret_cast<const char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 }
@@ -179,9 +179,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
 
-    file.read(reinterpret_cast<char*>(&indptr[0]), (rows + 1) * sizeof(int));
-    file.read(reinterpret_cast<char*>(&indices[0]), nnz * sizeof(int));
-    file.read(reinterpret_cast<char*>(&data[0]), nnz * sizeof(T));
+    file.read(reinterpret_cast<char*>(indptr.data()), (rows + 1) * sizeof(int));
+    file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
+    file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
     file.close();
 
@@ -429,7 +429,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
     file.close();
 
     const int rows = indptr.size() - 1;
-    const int cols = *std::max_element(begin(indices), end(indices)) + 1;
+    const int cols = indices.empty() ? 0 : *std::max_element(begin(indices), end(indices)) + 1;
 
     std::vector<T> data(indices.size(), 1);
 
-- 
2.43.0


From 5bbfea9975a17b0c58f5568840d3bd8b2363b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 26/51] fix: reading damaged files crashed or returned
 malformed matrices

---
 include/parser.hpp | 110 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 99 insertions(+), 11 deletions(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 38791bd..74fc569 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -4,6 +4,8 @@
 
 #include <memory>
 #include <vector>
+#include <algorithm>
+#include <limits>
 #include <assert.h>
 #include <fstream>
 
@@ -14,6 +16,51 @@
 namespace linalgcpp
 {
 
+/*! @brief Throw unless a condition on the content of an input file holds
+    @param expression condition
+    @param file_name file that was read
+*/
+inline
+void VerifyFile(bool expression, const std::string& file_name)
+{
+    if (!expression)
+    {
+        throw std::runtime_error("Invalid content in file: " + file_name);
+    }
+}
+
+/*! @brief Throw unless an index read from a file is valid
+    @param index index read
+    @param size number of valid indices, if known
+    @param file_name file that was read
+*/
+inline
+void VerifyIndex(int index, const std::string& file_name,
+                 int size = std::numeric_limits<int>::max())
+{
+    VerifyFile(index >= 0 && index < size, file_name);
+}
+
+/*! @brief Throw unless arrays read from a file form a csr matrix
+    @param indptr row pointers
+    @param indices column indices
+    @param cols number of columns
+    @param file_name file that was read
+*/
+inline
+void VerifyCSR(const std::vector<int>& indptr, const std::vector<int>& indices,
+               int cols, const std::string& file_name)
+{
+    VerifyFile(indptr.front() == 0, file_name);
+    VerifyFile(std::is_sorted(std::begin(indptr), std::end(indptr)), file_name);
+    VerifyFile(static_cast<size_t>(indptr.back()) == indices.size(), file_name);
+
+    for (int index : indices)
+    {
+        VerifyIndex(index, file_name, cols);
+    }
+}
+
 /*! @brief Read a text file from disk.
     @param file_name file to read
     @retval vector of data read from disk
@@ -104,10 +151,12 @@ std::vector<T> ReadBinaryVect(const std::string& file_name)
 
     size_t size = 0;
     file.read(reinterpret_cast<char*>(&size), sizeof(size));
+    VerifyFile(file.good(), file_name);
 
     std::vector<T> vect(size);
 
     file.read(reinterpret_cast<char*>(vect.data()), size * sizeof(T));
+    VerifyFile(file.good(), file_name);
     file.close();
 
     return vect;
@@ -175,6 +224,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(&cols), sizeof(cols));
     file.read(reinterpret_cast<char*>(&nnz), sizeof(nnz));
 
+    const size_t max_size = std::numeric_limits<int>::max();
+    VerifyFile(file.good() && rows < max_size && cols <= max_size && nnz <= max_size, file_name);
+
     std::vector<int> indptr(rows + 1);
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
@@ -183,6 +235,9 @@ SparseMatrix<T> ReadBinaryMat(const std::string& file_name)
     file.read(reinterpret_cast<char*>(indices.data()), nnz * sizeof(int));
     file.read(reinterpret_cast<char*>(data.data()), nnz * sizeof(T));
 
+    VerifyFile(file.good(), file_name);
+    VerifyCSR(indptr, indices, cols, file_name);
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
@@ -217,6 +272,9 @@ SparseMatrix<T> ReadAdjList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j)
     {
+        VerifyIndex(i, file_name);
+        VerifyIndex(j, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -255,6 +313,9 @@ SparseMatrix<T> ReadGraphList(const std::string& file_name)
 
     while (file >> i >> j)
     {
+        VerifyIndex(i, file_name);
+        VerifyIndex(j, file_name);
+
         if (i < j)
         {
             coo.Add(j, i, -1);
@@ -337,6 +398,9 @@ SparseMatrix<T> ReadCooList(const std::string& file_name, bool symmetric = false
 
     while (file >> i >> j >> val)
     {
+        VerifyIndex(i, file_name);
+        VerifyIndex(j, file_name);
+
         coo.Add(i, j, val);
 
         if (symmetric && i != j)
@@ -420,6 +484,7 @@ SparseMatrix<T> ReadTable(const std::string& file_name)
 
         for (int index; stream >> index; )
         {
+            VerifyIndex(index, file_name);
             indices.push_back(index);
         }
 
@@ -488,19 +553,23 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         throw std::runtime_error("Failed to open file: " + file_name);
     }
 
-    size_t rows;
-    size_t cols;
+    int rows;
+    int cols;
 
     file >> rows >> cols;
+    VerifyFile(file.good(), file_name);
+    VerifyIndex(rows, file_name);
+    VerifyIndex(cols, file_name);
 
     std::vector<int> indptr(rows + 1);
 
-    for (size_t i = 0; i < rows + 1; ++i)
+    for (int i = 0; i < rows + 1; ++i)
     {
         file >> indptr[i];
     }
 
     int nnz = indptr.back();
+    VerifyFile(!file.fail() && nnz >= 0, file_name);
 
     std::vector<int> indices(nnz);
     std::vector<T> data(nnz);
@@ -515,6 +584,9 @@ SparseMatrix<T> ReadCSR(const std::string& file_name)
         file >> data[i];
     }
 
+    VerifyFile(!file.fail(), file_name);
+    VerifyCSR(indptr, indices, cols, file_name);
+
     file.close();
 
     return SparseMatrix<T>(std::move(indptr), std::move(indices), std::move(data),
@@ -594,12 +666,17 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
         symmetric |= (line.find("symmetric") != std::string::npos);
     }
 
-    int rows;
-    int cols;
-    int nnz;
+    int rows = 0;
+    int cols = 0;
+    int nnz = 0;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream size_info(line);
+    size_info >> rows >> cols >> nnz;
+    VerifyFile(!size_info.fail() && nnz >= 0, file_name);
+    VerifyIndex(rows, file_name);
+    VerifyIndex(cols, file_name);
+    VerifyFile(!symmetric || rows == cols, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
@@ -611,6 +688,9 @@ SparseMatrix<T> ReadMTX(const std::string& file_name)
 
     while (file >> i >> j >> val)
     {
+        VerifyFile(i >= base && i - base < rows, file_name);
+        VerifyFile(j >= base && j - base < cols, file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
@@ -652,12 +732,17 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
         symmetric |= (line.find("symmetric") != std::string::npos);
     }
 
-    int rows;
-    int cols;
-    int nnz;
+    int rows = 0;
+    int cols = 0;
+    int nnz = 0;
 
     // First line after comments contains size info
-    std::istringstream(line) >> rows >> cols >> nnz;
+    std::istringstream size_info(line);
+    size_info >> rows >> cols >> nnz;
+    VerifyFile(!size_info.fail() && nnz >= 0, file_name);
+    VerifyIndex(rows, file_name);
+    VerifyIndex(cols, file_name);
+    VerifyFile(!symmetric || rows == cols, file_name);
 
     CooMatrix<T> coo(rows, cols);
     coo.Reserve(nnz);
@@ -669,6 +754,9 @@ SparseMatrix<T> ReadMTXList(const std::string& file_name)
 
     while (file >> i >> j)
     {
+        VerifyFile(i >= base && i - base < rows, file_name);
+        VerifyFile(j >= base && j - base < cols, file_name);
+
         coo.Add(i - base, j - base, val);
 
         if (symmetric && i != j)
-- 
2.43.0


From 339512e795e85b03eaa7a5bb107a15acc422d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 27/51] fix: moved-from and copied empty SparseSolver freed an
 uninitialised pointer

---
 modules/sparsesolver/src/sparsesolve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/sparsesolver/src/sparsesolve.cpp b/modules/sparsesolver/src/sparsesolve.cpp
index b354fd5..ab03cd9 100644
--- a/modules/sparsesolver/src/sparsesolve.cpp
+++ b/modules/sparsesolver/src/sparsesolve.cpp
@@ -18,7 +18,8 @@ SparseSolver::SparseSolver(linalgcpp::SparseMatrix<double> A)
 }
 
 SparseSolver::SparseSolver(const SparseSolver& other) noexcept
-    : Operator(other), A_(other.A_), control_(other.control_), info_(other.info_)
+    : Operator(other), A_(other.A_), numeric_(nullptr),
+      control_(other.control_), info_(other.info_)
 {
     if (A_.nnz() > 0)
     {
@@ -27,6 +28,7 @@ SparseSolver::SparseSolver(const SparseSolver& other) noexcept
 }
 
 SparseSolver::SparseSolver(SparseSolver&& other) noexcept
+    : numeric_(nullptr)
 {
     swap(*this, other);
 }
-- 
2.43.0


From cdfb019ed195c93cbea9a0fe4112a4fbc5971e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 28/51] fix: partitioning a graph with few edges and no
 diagonal reserved a negative size

---
 modules/partition/include/partition.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/partition/include/partition.hpp b/modules/partition/include/partition.hpp
index 04c895e..fc40d06 100644
--- a/modules/partition/include/partition.hpp
+++ b/modules/partition/include/partition.hpp
@@ -17,14 +17,12 @@ MakeAdjacencyInfo(const linalgcpp::SparseMatrix<T>& mat, bool weighted = false)
 {
     assert(mat.Cols() == mat.Rows());
 
-    int num_edges = (mat.nnz() - mat.Rows()) / 2;
-
     std::vector<U> indptr(mat.Rows() + 1);
     std::vector<U> indices;
     std::vector<U> data;
 
-    indices.reserve(num_edges);
-    data.reserve(num_edges);
+    indices.reserve(mat.nnz());
+    data.reserve(mat.nnz());
 
     indptr[0] = 0;
 
-- 
2.43.0


From 4c4b991f1b0c38c58441aac024a62256935ff3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 29/51] fix: linalgcpp_assert checked only in builds without
 assertions

---
 include/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utilities.hpp b/include/utilities.hpp
index cde6cb1..90a016d 100644
--- a/include/utilities.hpp
+++ b/include/utilities.hpp
@@ -10,7 +10,7 @@ namespace linalgcpp
 inline
 void linalgcpp_assert(bool expression, const std::string& message = "linalgcpp assertion failed")
 {
-#ifdef NDEBUG
+#ifndef NDEBUG
     if (!expression)
     {
         throw std::runtime_error(message);
-- 
2.43.0


From e1222d8a212ebbe52cc95d865ee39e9b65fe43a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 30/51] fix: negative entry and block indices were not stopped
 by debug assertions

---
 include/blockmatrix.hpp | 4 ++++
 include/blockvector.hpp | 2 ++
 include/vectorview.hpp  | 2 ++
 src/blockoperator.cpp   | 4 ++++
 4 files changed, 12 insertions(+)

diff --git a/include/blockmatrix.hpp b/include/blockmatrix.hpp
index 22055c0..8293407 100644
--- a/include/blockmatrix.hpp
+++ b/include/blockmatrix.hpp
@@ -184,7 +184,9 @@ const std::vector<int>& BlockMatrix<T>::GetColOffsets() const
 template <typename T>
 const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
@@ -193,7 +195,9 @@ const SparseMatrix<T>& BlockMatrix<T>::GetBlock(int i, int j) const
 template <typename T>
 void BlockMatrix<T>::SetBlock(int i, int j, SparseMatrix<T> mat)
 {
+    assert(i >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(mat.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index 9751a64..b455578 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -130,6 +130,7 @@ const std::vector<int>& BlockVector<T>::GetOffsets() const
 template <typename T>
 VectorView<T> BlockVector<T>::GetBlock(int block)
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = Vector<T>::begin() + offsets_[block];
@@ -141,6 +142,7 @@ VectorView<T> BlockVector<T>::GetBlock(int block)
 template <typename T>
 const VectorView<T> BlockVector<T>::GetBlock(int block) const
 {
+    assert(block >= 0);
     assert(block < static_cast<int>(offsets_.size()) - 1);
 
     T* data = const_cast<T*>(Vector<T>::begin() + offsets_[block]);
diff --git a/include/vectorview.hpp b/include/vectorview.hpp
index 3b38214..61a085e 100644
--- a/include/vectorview.hpp
+++ b/include/vectorview.hpp
@@ -319,6 +319,7 @@ const T* VectorView<T>::end() const
 template <typename T>
 T& VectorView<T>::operator[](int i)
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
@@ -327,6 +328,7 @@ T& VectorView<T>::operator[](int i)
 template <typename T>
 const T& VectorView<T>::operator[](int i) const
 {
+    assert(i >= 0);
     assert(i < size_);
 
     return data_[i];
diff --git a/src/blockoperator.cpp b/src/blockoperator.cpp
index a7cc0a4..e702b45 100644
--- a/src/blockoperator.cpp
+++ b/src/blockoperator.cpp
@@ -66,7 +66,9 @@ const std::vector<int>& BlockOperator::GetColOffsets() const
 
 const Operator* BlockOperator::GetBlock(int i, int j) const
 {
+    assert(i >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
     return A_[i][j];
@@ -74,7 +76,9 @@ const Operator* BlockOperator::GetBlock(int i, int j) const
 
 void BlockOperator::SetBlock(int i, int j, const Operator& op)
 {
+    assert(i >= 0);
     assert(i < static_cast<int>(row_offsets_.size()) - 1);
+    assert(j >= 0);
     assert(j < static_cast<int>(col_offsets_.size()) - 1);
 
     assert(op.Rows() == (row_offsets_[i + 1] - row_offsets_[i]));
-- 
2.43.0


From cabd5fbe9c663b6e79c066b51a7be8d4ed2c1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 31/51] fix: options with values that do not convert were
 accepted, string values stopped at the first space

---
 include/argparser.hpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/argparser.hpp b/include/argparser.hpp
index 5128289..d27ad78 100644
--- a/include/argparser.hpp
+++ b/include/argparser.hpp
@@ -59,6 +59,10 @@ class ArgParser
         bool IsGood() const;
 
     private:
+        template <typename T>
+        static bool Convert(const std::string& value, T& arg);
+        static bool Convert(const std::string& value, std::string& arg);
+
         mutable std::map<std::string, std::string> help_;
         mutable std::vector<std::string> errors_;
         mutable std::map<std::string, std::string> values_;
@@ -70,6 +74,35 @@ class ArgParser
 template <>
 void ArgParser::Parse(bool& arg, const std::string& flag, const std::string& help) const;
 
+template <typename T>
+bool ArgParser::Convert(const std::string& value, T& arg)
+{
+    std::stringstream stream(value);
+    T converted = arg;
+
+    if (!(stream >> converted) || !(stream >> std::ws).eof())
+    {
+        return false;
+    }
+
+    arg = converted;
+
+    return true;
+}
+
+inline
+bool ArgParser::Convert(const std::string& value, std::string& arg)
+{
+    if (value.empty())
+    {
+        return false;
+    }
+
+    arg = value;
+
+    return true;
+}
+
 template <typename T>
 void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help) const
 {
@@ -77,7 +110,10 @@ void ArgParser::Parse(T& arg, const std::string& flag, const std::string& help)
 
     if (values_.find(flag) != values_.end())
     {
-        std::stringstream(values_[flag]) >> arg;
+        if (!Convert(values_[flag], arg))
+        {
+            errors_.push_back(flag + " has an invalid value: " + values_[flag]);
+        }
     }
 
     if (seen_values_.find(flag) == seen_values_.end())
-- 
2.43.0


From 76dfed74eb59c6b6b6129a66b98b9bd1891bc071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 32/51] fix: the largest index read from a file overflowed the
 matrix size

---
 include/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parser.hpp b/include/parser.hpp
index 74fc569..feca30e 100644
--- a/include/parser.hpp
+++ b/include/parser.hpp
@@ -36,7 +36,7 @@ void VerifyFile(bool expression, const std::string& file_name)
 */
 inline
 void VerifyIndex(int index, const std::string& file_name,
-                 int size = std::numeric_limits<int>::max())
+                 int size = std::numeric_limits<int>::max() - 1)
 {
     VerifyFile(index >= 0 && index < size, file_name);
 }
-- 
2.43.0


From 997db9b8eb1ba660904c318bf31a2589b38787aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 33/51] fix: assigning a non-const or temporary view to a
 vector did not resize the vector and overran it

---
 include/vector.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vector.hpp b/include/vector.hpp
index e57d787..0af8755 100644
--- a/include/vector.hpp
+++ b/include/vector.hpp
@@ -95,6 +95,11 @@ class Vector : public VectorView<T>
         */
         Vector& operator=(Vector&& vect) noexcept;
 
+        /*! @brief Sets every entry to a value
+            @param val value to set
+        */
+        Vector& operator=(T val);
+
         /*! @brief Swap two vectors
             @param lhs left hand side vector
             @param rhs right hand side vector
@@ -102,7 +107,6 @@ class Vector : public VectorView<T>
         template <typename U>
         friend void swap(Vector<U>& lhs, Vector<U>& rhs) noexcept;
 
-        using VectorView<T>::operator=;
         virtual T Mult(const VectorView<T>& vect) const override;
 
     private:
@@ -231,6 +235,14 @@ Vector<T>& Vector<T>::operator=(Vector<T>&& vect) noexcept
     return *this;
 }
 
+template <typename T>
+Vector<T>& Vector<T>::operator=(T val)
+{
+    VectorView<T>::operator=(val);
+
+    return *this;
+}
+
 template <typename U>
 void swap(Vector<U>& lhs, Vector<U>& rhs) noexcept
 {
-- 
2.43.0


From 6c1148f9120b9c2ca2dd55068e171d4cd14beeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 34/51] fix: operand sizes and indices that debug builds did
 not check

---
 include/blockvector.hpp  | 1 +
 include/densematrix.hpp  | 8 ++++++++
 include/sparsematrix.hpp | 8 ++++++++
 src/densematrix.cpp      | 4 ++++
 src/eigensolver.cpp      | 2 ++
 5 files changed, 23 insertions(+)

diff --git a/include/blockvector.hpp b/include/blockvector.hpp
index b455578..6884683 100644
--- a/include/blockvector.hpp
+++ b/include/blockvector.hpp
@@ -89,6 +89,7 @@ template <typename T>
 BlockVector<T>::BlockVector(const VectorView<T>& data, std::vector<int> offsets)
     : Vector<T>(data), offsets_(offsets)
 {
+    assert(data.size() == offsets_.back());
 
 }
 
diff --git a/include/densematrix.hpp b/include/densematrix.hpp
index b1d36e4..3ee3e26 100644
--- a/include/densematrix.hpp
+++ b/include/densematrix.hpp
@@ -791,6 +791,8 @@ void DenseMatrix::SetRow(int row, const VectorView<T>& vect)
 template <typename T>
 void DenseMatrix::ScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -803,6 +805,8 @@ void DenseMatrix::ScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::ScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
@@ -817,6 +821,8 @@ void DenseMatrix::ScaleCols(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleRows(const T& values)
 {
+    assert(static_cast<int>(values.size()) == rows_);
+
     for (int j = 0; j < cols_; ++j)
     {
         for (int i = 0; i < rows_; ++i)
@@ -831,6 +837,8 @@ void DenseMatrix::InverseScaleRows(const T& values)
 template <typename T>
 void DenseMatrix::InverseScaleCols(const T& values)
 {
+    assert(static_cast<int>(values.size()) == cols_);
+
     for (int j = 0; j < cols_; ++j)
     {
         const double scale = values[j];
diff --git a/include/sparsematrix.hpp b/include/sparsematrix.hpp
index 8a79419..972ff02 100644
--- a/include/sparsematrix.hpp
+++ b/include/sparsematrix.hpp
@@ -474,6 +474,7 @@ SparseMatrix<T>::SparseMatrix(std::vector<int> indptr,
     assert(indptr_.size() == rows_ + 1u);
     assert(indices_.size() == data_.size());
     assert(indptr_[0] == 0);
+    assert(indptr_.back() == static_cast<int>(indices_.size()));
 
     if (indices_.size() > 0)
     {
@@ -804,6 +805,7 @@ template <typename T>
 void SparseMatrix<T>::AddDiag(const std::vector<T>& diag)
 {
     assert(rows_ == cols_);
+    assert(static_cast<int>(diag.size()) == rows_);
 
     for (int i = 0; i < rows_; ++i)
     {
@@ -860,6 +862,9 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
 
     for (int i = 0; i < out_cols; ++i)
     {
+        assert(cols[i] >= 0);
+        assert(cols[i] < cols_);
+
         marker[cols[i]] = i;
     }
 
@@ -867,6 +872,7 @@ SparseMatrix<T> SparseMatrix<T>::GetSubMatrix(const std::vector<int>& rows,
     {
         const int row = rows[i];
 
+        assert(row >= 0);
         assert(row < rows_);
 
         for (int j = indptr_[row]; j < indptr_[row + 1]; ++j)
@@ -1455,6 +1461,8 @@ template <typename U>
 void SparseMatrix<T>::EliminateCol(const U& marker, const VectorView<double>& x, VectorView<double> b)
 {
     assert(marker.size() >= cols_);
+    assert(x.size() == cols_);
+    assert(b.size() == rows_);
 
     for (int row = 0; row < rows_; ++row)
     {
diff --git a/src/densematrix.cpp b/src/densematrix.cpp
index dea966f..83324c0 100644
--- a/src/densematrix.cpp
+++ b/src/densematrix.cpp
@@ -412,6 +412,8 @@ void DenseMatrix::GetRow(const std::vector<int>& rows, DenseMatrix& dense) const
 
 void DenseMatrix::SetRow(int start, const DenseMatrix& dense)
 {
+    assert(dense.Cols() == cols_);
+
     const int end = start + dense.Rows();
     SetSubMatrix(start, 0, end, cols_, dense);
 }
@@ -433,6 +435,8 @@ void DenseMatrix::GetCol(int start, int end, DenseMatrix& dense) const
 
 void DenseMatrix::SetCol(int start, const DenseMatrix& dense)
 {
+    assert(dense.Rows() == rows_);
+
     const int end = start + dense.Cols();
     SetSubMatrix(0, start, rows_, end, dense);
 }
diff --git a/src/eigensolver.cpp b/src/eigensolver.cpp
index b3d527d..2f268ec 100644
--- a/src/eigensolver.cpp
+++ b/src/eigensolver.cpp
@@ -42,6 +42,8 @@ void EigenSolver::Solve(const DenseMatrix& mat, double rel_tol, int max_evect,
     auto& evals = eigen_pair.first;
     auto& evects = eigen_pair.second;
 
+    assert(mat.Rows() == mat.Cols());
+
     int n = mat.Rows();
 
     if (n < 1)
-- 
2.43.0


From 3d3232cecfd67ab8342e9131e8323cc463ba17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 35/51] fix: ParOperator: size x_ like the columns and b_ like
 the rows

---
 modules/parlinalgcpp/src/parmatrix.cpp   | 4 ++--
 modules/parlinalgcpp/src/paroperator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index 9ec0582..e02c2ce 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -31,8 +31,8 @@ ParMatrix::ParMatrix(MPI_Comm comm,
     std::swap(row_starts_, starts[0]);
     std::swap(col_starts_, starts[1]);
 
-    InitVector(x_, row_starts_);
-    InitVector(b_, col_starts_);
+    InitVector(x_, col_starts_);
+    InitVector(b_, row_starts_);
 
     Init();
 }
diff --git a/modules/parlinalgcpp/src/paroperator.cpp b/modules/parlinalgcpp/src/paroperator.cpp
index 5bcb953..561fde0 100644
--- a/modules/parlinalgcpp/src/paroperator.cpp
+++ b/modules/parlinalgcpp/src/paroperator.cpp
@@ -49,8 +49,8 @@ void ParOperator::HypreCreate()
 {
     MPI_Comm_rank(comm_, &myid_);
 
-    InitVector(x_, row_starts_);
-    InitVector(b_, col_starts_);
+    InitVector(x_, col_starts_);
+    InitVector(b_, row_starts_);
 }
 
 void ParOperator::InitVector(hypre_ParVector*& vect, std::vector<HYPRE_Int>& starts)
-- 
2.43.0


From 07dbef970067abdbb9b51e165d8f1d3d1092833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 36/51] fix: ParAdd: scale the first off-diagonal entry of a
 column as well

---
 modules/parlinalgcpp/src/parutilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index cdebca8..4c8a54a 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -276,7 +276,7 @@ ParMatrix ParAdd(double alpha, const ParMatrix& A, double beta, const ParMatrix&
                 }
                 else
                 {
-                    coo_offd.Add(i, col_map.size(), data[j]);
+                    coo_offd.Add(i, col_map.size(), val * data[j]);
                     marker[global_col] = col_map.size();
 
                     col_map.emplace_back(global_col);
-- 
2.43.0


From be70e02bc321466bad5566945994c67d0ead27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 37/51] fix: ParSplit: keep every entry of the diagonal block
 of an unsymmetric matrix

---
 modules/parlinalgcpp/src/parutilities.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4c8a54a..4b74f07 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -77,10 +77,7 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
                 int local_col = local_index[perm[col]];
                 assert(local_col >= 0 && local_col < local_vertices);
 
-                if (local_col >= local_vertex)
-                {
-                    local_diag.AddSym(local_vertex, local_col, val);
-                }
+                local_diag.Add(local_vertex, local_col, val);
             }
             else
             {
-- 
2.43.0


From ce522e28544e381cbb11a473daf0cfe75548fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 38/51] fix: ParSmoother: Mult starts from zero, not from the
 old output

---
 modules/parlinalgcpp/src/parsmoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index 3919721..a03b03e 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -66,6 +66,8 @@ void ParSmoother::Mult(const linalgcpp::VectorView<double>& input,
     hypre_VectorData(hypre_ParVectorLocalVector(x_)) = std::begin(output);
     hypre_VectorData(hypre_ParVectorLocalVector(buffer_shell_)) = std::begin(buffer_);
 
+    output = 0.0;
+
     const hypre_ParCSRMatrix* hypre_A = GetMatrix();
     hypre_ParCSRMatrix* hypre_A_c = const_cast<hypre_ParCSRMatrix*>(hypre_A);
 
-- 
2.43.0


From 8bd858241087746e7f17bb1c857b61150ac16b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 39/51] fix: ParSolver, ParSmoother: initialize members before
 the move constructor swaps them

---
 modules/parlinalgcpp/src/parsmoother.cpp | 6 ++++--
 modules/parlinalgcpp/src/parsolvers.cpp  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index a03b03e..cd237fa 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -5,7 +5,8 @@
 namespace linalgcpp
 {
 ParSmoother::ParSmoother()
-    : buffer_shell_(nullptr)
+    : type_(SmoothType::Jacobi), relax_times_(0),
+      relax_weight_(0.0), omega_(0.0), buffer_shell_(nullptr)
 {
 }
 
@@ -14,7 +15,7 @@ ParSmoother::ParSmoother(ParMatrix A, SmoothType type,
                          double omega)
     : ParSolver(std::move(A)), type_(type), relax_times_(relax_times),
       relax_weight_(relax_weight), omega_(omega),
-      buffer_(A_.Rows())
+      buffer_(A_.Rows()), buffer_shell_(nullptr)
 {
     InitVector(buffer_shell_, row_starts_);
 
@@ -30,6 +31,7 @@ ParSmoother::ParSmoother(const ParSmoother& other)
 }
 
 ParSmoother::ParSmoother(ParSmoother&& other)
+    : ParSmoother()
 {
     swap(*this, other);
 }
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 7c6a2da..538c874 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -51,6 +51,7 @@ ParSolver::ParSolver(const ParSolver& other)
 }
 
 ParSolver::ParSolver(ParSolver&& other)
+    : ParSolver()
 {
     swap(*this, other);
 }
-- 
2.43.0


From 8f794ac6be546aae261f7d74cb43de516eb491b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 40/51] fix: ParVector: no debug output from the constructor

---
 modules/parlinalgcpp/src/parvector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 3466913..8772c9e 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -18,7 +18,6 @@ ParVector::ParVector(MPI_Comm comm, const std::vector<HYPRE_Int>& part)
 ParVector::ParVector(MPI_Comm comm, double val, const std::vector<HYPRE_Int>& part)
     : Vector(part[1] - part[0], val), comm_(comm), pvect_(nullptr), partition_(part)
 {
-    printf("Parvector: %d %d - > %d\n", part[1], part[0], size());
     Init();
 }
 
-- 
2.43.0


From 54e7c067b0c24bbe801ba1d9f730c0fb0c671809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 41/51] fix: ParVector: copy an empty vector without creating a
 hypre vector

---
 modules/parlinalgcpp/src/parvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index 8772c9e..bac6984 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -6,7 +6,7 @@ namespace linalgcpp
 {
 
 ParVector::ParVector()
-    : Vector(0), comm_(0), pvect_(nullptr)
+    : Vector(0), comm_(0), pvect_(nullptr), global_size_(0)
 {
 }
 
@@ -54,7 +54,10 @@ ParVector::ParVector(const ParVector& other)
     : linalgcpp::Vector<double>(other), comm_(other.comm_), pvect_(nullptr), partition_(other.partition_),
       global_size_(other.global_size_)
 {
-    HypreCreate();
+    if (other.pvect_)
+    {
+        HypreCreate();
+    }
 }
 
 ParVector::ParVector(ParVector&& other)
-- 
2.43.0


From ec90ce1986695182eec06f97c5002613170c81f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 42/51] fix: ParMatrix: MaxNorm is the largest magnitude, not a
 sum of magnitudes

---
 modules/parlinalgcpp/src/parmatrix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/parmatrix.cpp b/modules/parlinalgcpp/src/parmatrix.cpp
index e02c2ce..3b59e0c 100644
--- a/modules/parlinalgcpp/src/parmatrix.cpp
+++ b/modules/parlinalgcpp/src/parmatrix.cpp
@@ -353,9 +353,19 @@ ParCommPkg ParMatrix::MakeCommPkg() const
 
 double ParMatrix::MaxNorm() const
 {
-    double local_max = std::max(diag_.MaxNorm(), offd_.MaxNorm());
+    double local_max = 0.0;
     double global_max = 0.0;
 
+    for (const auto& val : diag_.GetData())
+    {
+        local_max = std::max(local_max, std::fabs(val));
+    }
+
+    for (const auto& val : offd_.GetData())
+    {
+        local_max = std::max(local_max, std::fabs(val));
+    }
+
     MPI_Allreduce(&local_max, &global_max, 1, MPI_DOUBLE, MPI_MAX,
                   comm_);
 
-- 
2.43.0


From 58bc098707f3f0ba017dfb94e9dbbdb834d6aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 43/51] fix: ParOperator: copies keep their hypre vectors
 whatever the communicator's handle is

---
 modules/parlinalgcpp/src/paroperator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/parlinalgcpp/src/paroperator.cpp b/modules/parlinalgcpp/src/paroperator.cpp
index 561fde0..e776aed 100644
--- a/modules/parlinalgcpp/src/paroperator.cpp
+++ b/modules/parlinalgcpp/src/paroperator.cpp
@@ -39,7 +39,7 @@ ParOperator::ParOperator(const ParOperator& other)
       myid_(other.myid_), row_starts_(other.row_starts_),
       col_starts_(other.col_starts_), x_(nullptr), b_(nullptr)
 {
-    if (other.comm_ > 0 && myid_ >= 0)
+    if (other.x_)
     {
         HypreCreate();
     }
-- 
2.43.0


From 28d5271453efb61dd694deb98b2273f4df585192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 44/51] fix: BoomerAMG: a copy is configured and set up like
 the original

---
 modules/parlinalgcpp/include/parsolvers.hpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 104de7b..6d1b6b8 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -155,6 +155,9 @@ class BoomerAMG: public ParSolver
         friend void swap(BoomerAMG& lhs, BoomerAMG& rhs) noexcept;
 
         ~BoomerAMG() = default;
+
+    private:
+        void Configure();
 };
 
 class ParaSails: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 538c874..b9390ed 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -114,6 +114,11 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_BoomerAMGCreate, &HYPRE_BoomerAMGDestroy,
                 &HYPRE_BoomerAMGSetup, &HYPRE_BoomerAMGSolve)
+{
+    Configure();
+}
+
+void BoomerAMG::Configure()
 {
     // Parameters mostly copied directly from mfem
     int coarsen_type = 10;   // 10 = HMIS, 8 = PMIS, 6 = Falgout, 0 = CLJP
@@ -146,6 +151,10 @@ BoomerAMG::BoomerAMG(ParMatrix A, size_t max_iter,
 BoomerAMG::BoomerAMG(const BoomerAMG& other) noexcept
     : ParSolver(other)
 {
+    if (other.GetSolver())
+    {
+        Configure();
+    }
 }
 
 BoomerAMG::BoomerAMG(BoomerAMG&& other) noexcept
-- 
2.43.0


From 7e7fa83857f0875b891966412b072f92ce488ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 45/51] fix: ParaSails: copies own a solver with the same
 settings, the load balance is not truncated

---
 modules/parlinalgcpp/include/parsolvers.hpp | 13 +++++-
 modules/parlinalgcpp/src/parsolvers.cpp     | 44 ++++++++++++++++-----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 6d1b6b8..0aff79b 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -181,9 +181,20 @@ class ParaSails: public ParSolver
 
         void SetFilter(double filter);
         void SetSym(int sym);
-        void SetLoadBal(int load_bal);
+        void SetLoadBal(double load_bal);
         void SetReuse(int reuse);
         void SetLogging(int logging);
+
+    private:
+        void Configure();
+
+        int reuse_ = 0;
+        int sym_ = 0;
+        double load_bal_ = 0.0;
+        double threshold_ = 0.1;
+        double filter_ = 0.1;
+        int max_levels_ = 1;
+        int logging_ = 0;
 };
 
 class ParCG: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index b9390ed..d1e9f23 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -181,25 +181,38 @@ ParaSails::ParaSails(ParMatrix A, bool verbose,
                      double filter, int max_levels)
     : ParSolver(std::move(A), 0, 0, verbose,
                 &no_create, &HYPRE_ParaSailsDestroy,
-                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve)
+                &HYPRE_ParaSailsSetup, &HYPRE_ParaSailsSolve),
+      reuse_(reuse), sym_(sym), load_bal_(load_bal), threshold_(threshold),
+      filter_(filter), max_levels_(max_levels), logging_(verbose)
+{
+    Configure();
+}
+
+void ParaSails::Configure()
 {
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParaSailsCreate(A_.GetComm(), &solver_);
-    HYPRE_ParaSailsSetParams(solver_, threshold, max_levels);
+    HYPRE_ParaSailsSetParams(solver_, threshold_, max_levels_);
 
-    SetFilter(filter);
-    SetSym(sym);
-    SetLoadBal(load_bal);
-    SetReuse(reuse);
-    SetLogging(verbose);
+    SetFilter(filter_);
+    SetSym(sym_);
+    SetLoadBal(load_bal_);
+    SetReuse(reuse_);
+    SetLogging(logging_);
 
     HypreSetup();
 }
 
 ParaSails::ParaSails(const ParaSails& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other),
+      reuse_(other.reuse_), sym_(other.sym_), load_bal_(other.load_bal_), threshold_(other.threshold_),
+      filter_(other.filter_), max_levels_(other.max_levels_), logging_(other.logging_)
 {
+    if (other.GetSolver())
+    {
+        Configure();
+    }
 }
 
 ParaSails::ParaSails(ParaSails&& other) noexcept
@@ -217,30 +230,43 @@ ParaSails& ParaSails::operator=(ParaSails other) noexcept
 void swap(ParaSails& lhs, ParaSails& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.reuse_, rhs.reuse_);
+    std::swap(lhs.sym_, rhs.sym_);
+    std::swap(lhs.load_bal_, rhs.load_bal_);
+    std::swap(lhs.threshold_, rhs.threshold_);
+    std::swap(lhs.filter_, rhs.filter_);
+    std::swap(lhs.max_levels_, rhs.max_levels_);
+    std::swap(lhs.logging_, rhs.logging_);
 }
 
 void ParaSails::SetFilter(double filter)
 {
+    filter_ = filter;
     HYPRE_ParaSailsSetFilter(GetSolver(), filter);
 }
 
 void ParaSails::SetSym(int sym)
 {
+    sym_ = sym;
     HYPRE_ParaSailsSetSym(GetSolver(), sym);
 }
 
-void ParaSails::SetLoadBal(int load_bal)
+void ParaSails::SetLoadBal(double load_bal)
 {
+    load_bal_ = load_bal;
     HYPRE_ParaSailsSetLoadbal(GetSolver(), load_bal);
 }
 
 void ParaSails::SetReuse(int reuse)
 {
+    reuse_ = reuse;
     HYPRE_ParaSailsSetReuse(GetSolver(), reuse);
 }
 
 void ParaSails::SetLogging(int logging)
 {
+    logging_ = logging;
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
-- 
2.43.0


From e28112c8e20919fcfdc4f45307c97b73450ccdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 46/51] fix: ParCG: apply the given preconditioner, copies keep
 the settings and the preconditioner

---
 modules/parlinalgcpp/include/parsolvers.hpp |  7 +++
 modules/parlinalgcpp/src/parsolvers.cpp     | 67 +++++++++++++++++----
 2 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/modules/parlinalgcpp/include/parsolvers.hpp b/modules/parlinalgcpp/include/parsolvers.hpp
index 0aff79b..7cd55e2 100644
--- a/modules/parlinalgcpp/include/parsolvers.hpp
+++ b/modules/parlinalgcpp/include/parsolvers.hpp
@@ -203,6 +203,7 @@ class ParCG: public ParSolver
         ParCG() = default;
         ParCG(ParMatrix A, size_t max_iter = 1000,
               double tol = 1e-8, bool verbose = false);
+        /*! @note M must outlive this solver and its copies */
         ParCG(ParMatrix A, const ParSolver& M, size_t max_iter = 1000,
               double tol = 1e-8, bool verbose = false);
 
@@ -215,6 +216,12 @@ class ParCG: public ParSolver
         ~ParCG() = default;
 
         void EnableDiagScaling();
+
+    private:
+        void Configure();
+
+        const ParSolver* precond_ = nullptr; // not owned
+        bool diag_scaling_ = false;
 };
 
 class ParDiagScale: public ParSolver
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index d1e9f23..561b808 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -270,36 +270,71 @@ void ParaSails::SetLogging(int logging)
     HYPRE_ParaSailsSetLogging(GetSolver(), logging);
 }
 
+namespace
+{
+
+// Applies any parallel solver as preconditioner
+HYPRE_Int ApplySolver(HYPRE_Solver solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
+{
+    const ParSolver* M = reinterpret_cast<const ParSolver*>(solver);
+
+    linalgcpp::VectorView<double> b_vect(hypre_VectorData(hypre_ParVectorLocalVector(b)), M->Rows());
+    linalgcpp::VectorView<double> x_vect(hypre_VectorData(hypre_ParVectorLocalVector(x)), M->Rows());
+
+    M->Mult(b_vect, x_vect);
+
+    return 0;
+}
+
+} // namespace
+
 ParCG::ParCG(ParMatrix A, size_t max_iter,
              double tol, bool verbose)
     : ParSolver(std::move(A), max_iter, tol, verbose,
                 &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
                 &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve)
 {
-    auto& solver_ = ParSolver::GetSolver();
-
-    HYPRE_PCGSetTol(solver_, tol_);
-    HYPRE_PCGSetMaxIter(solver_, max_iter_);
-    HYPRE_ParCSRPCGSetPrintLevel(solver_, verbose_);
-
-    HypreSetup();
+    Configure();
 }
 
 ParCG::ParCG(ParMatrix A, const ParSolver& M, size_t max_iter,
              double tol, bool verbose)
-    : ParCG(std::move(A), max_iter, tol, verbose)
+    : ParSolver(std::move(A), max_iter, tol, verbose,
+                &HYPRE_ParCSRPCGCreate, &HYPRE_ParCSRPCGDestroy,
+                &HYPRE_ParCSRPCGSetup, &HYPRE_ParCSRPCGSolve),
+      precond_(&M)
+{
+    Configure();
+}
+
+void ParCG::Configure()
 {
     auto& solver_ = ParSolver::GetSolver();
 
-    HYPRE_ParCSRPCGSetPrecond(solver_,
-                              M.GetSetupFn(), M.GetSolveFn(), M.GetSolver());
-}
+    HYPRE_PCGSetTol(solver_, tol_);
+    HYPRE_PCGSetMaxIter(solver_, max_iter_);
+    HYPRE_ParCSRPCGSetPrintLevel(solver_, verbose_);
+
+    if (precond_)
+    {
+        HYPRE_ParCSRPCGSetPrecond(solver_, &ApplySolver, &no_setup,
+                                  reinterpret_cast<HYPRE_Solver>(const_cast<ParSolver*>(precond_)));
+    }
+    else if (diag_scaling_)
+    {
+        EnableDiagScaling();
+    }
 
+    HypreSetup();
+}
 
 ParCG::ParCG(const ParCG& other) noexcept
-    : ParSolver(other)
+    : ParSolver(other), precond_(other.precond_), diag_scaling_(other.diag_scaling_)
 {
-    HypreSetup();
+    if (other.GetSolver())
+    {
+        Configure();
+    }
 }
 
 ParCG::ParCG(ParCG&& other) noexcept
@@ -317,10 +352,16 @@ ParCG& ParCG::operator=(ParCG other) noexcept
 void swap(ParCG& lhs, ParCG& rhs) noexcept
 {
     swap(static_cast<ParSolver&>(lhs), static_cast<ParSolver&>(rhs));
+
+    std::swap(lhs.precond_, rhs.precond_);
+    std::swap(lhs.diag_scaling_, rhs.diag_scaling_);
 }
 
 void ParCG::EnableDiagScaling()
 {
+    precond_ = nullptr;
+    diag_scaling_ = true;
+
     auto& solver_ = ParSolver::GetSolver();
 
     HYPRE_ParCSRPCGSetPrecond(solver_,
-- 
2.43.0


From 53e7704b5b1845abe59f425a5a77211d159daed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 47/51] fix: measure Timer laps with the steady clock, so
 setting the system clock cannot make them negative

---
 include/timer.hpp | 2 +-
 src/timer.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timer.hpp b/include/timer.hpp
index dd9d42e..b0d3a9c 100644
--- a/include/timer.hpp
+++ b/include/timer.hpp
@@ -23,7 +23,7 @@ class Timer
         double operator[](int index) const;
 
     private:
-        std::vector<std::chrono::time_point<std::chrono::high_resolution_clock>> times_;
+        std::vector<std::chrono::time_point<std::chrono::steady_clock>> times_;
 
 };
 
diff --git a/src/timer.cpp b/src/timer.cpp
index 317b6b7..1b0c6a0 100644
--- a/src/timer.cpp
+++ b/src/timer.cpp
@@ -13,7 +13,7 @@ Timer::Timer(Start start)
 
 void Timer::Click()
 {
-    times_.push_back(std::chrono::high_resolution_clock::now());
+    times_.push_back(std::chrono::steady_clock::now());
 }
 
 double Timer::TotalTime() const
-- 
2.43.0


From f52bedcdc4a0f623be5fe5212ed72a626badceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 48/51] fix: parallel solvers and smoothers check the sizes
 they are given

---
 modules/parlinalgcpp/src/parsmoother.cpp | 3 +++
 modules/parlinalgcpp/src/parsolvers.cpp  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/modules/parlinalgcpp/src/parsmoother.cpp b/modules/parlinalgcpp/src/parsmoother.cpp
index cd237fa..a492fe4 100644
--- a/modules/parlinalgcpp/src/parsmoother.cpp
+++ b/modules/parlinalgcpp/src/parsmoother.cpp
@@ -64,6 +64,9 @@ ParSmoother::~ParSmoother()
 void ParSmoother::Mult(const linalgcpp::VectorView<double>& input,
                        linalgcpp::VectorView<double> output) const
 {
+    assert(input.size() == A_.Rows());
+    assert(output.size() == A_.Cols());
+
     hypre_VectorData(hypre_ParVectorLocalVector(b_)) = const_cast<double*>(std::begin(input));
     hypre_VectorData(hypre_ParVectorLocalVector(x_)) = std::begin(output);
     hypre_VectorData(hypre_ParVectorLocalVector(buffer_shell_)) = std::begin(buffer_);
diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index 561b808..c51d84a 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -97,6 +97,9 @@ void ParSolver::HypreSetup()
 void ParSolver::Mult(const linalgcpp::VectorView<double>& input,
                      linalgcpp::VectorView<double> output) const
 {
+    assert(input.size() == A_.Rows());
+    assert(output.size() == A_.Cols());
+
     hypre_VectorData(hypre_ParVectorLocalVector(b_)) = const_cast<double*>(std::begin(input));
     hypre_VectorData(hypre_ParVectorLocalVector(x_)) = std::begin(output);
 
@@ -317,6 +320,9 @@ void ParCG::Configure()
 
     if (precond_)
     {
+        assert(precond_->Rows() == A_.Rows());
+        assert(precond_->Cols() == A_.Cols());
+
         HYPRE_ParCSRPCGSetPrecond(solver_, &ApplySolver, &no_setup,
                                   reinterpret_cast<HYPRE_Solver>(const_cast<ParSolver*>(precond_)));
     }
-- 
2.43.0


From 4de3a170f502cb6081c96131709377ea4721e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 49/51] fix: ParSplit checks the partition it is given

---
 modules/parlinalgcpp/src/parutilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/parlinalgcpp/src/parutilities.cpp b/modules/parlinalgcpp/src/parutilities.cpp
index 4b74f07..33c8886 100644
--- a/modules/parlinalgcpp/src/parutilities.cpp
+++ b/modules/parlinalgcpp/src/parutilities.cpp
@@ -22,9 +22,12 @@ ParMatrix ParSplit(MPI_Comm comm, const linalgcpp::SparseMatrix<double>& A_globa
     std::vector<int> local_part;
 
     const int proc_size = proc_part.size();
+    assert(proc_size == A_global.Rows());
 
     for (int i = 0; i < proc_size; ++i)
     {
+        assert(proc_part[i] >= 0 && proc_part[i] < num_procs);
+
         if (proc_part[i] == myid)
         {
             local_part.push_back(i);
-- 
2.43.0


From dc9523876344f33b89d80ece3b1e0618bcf15893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 50/51] fix: LOBPCG checks the sizes it is given

---
 modules/parlinalgcpp/src/parsolvers.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/parlinalgcpp/src/parsolvers.cpp b/modules/parlinalgcpp/src/parsolvers.cpp
index c51d84a..ce7852d 100644
--- a/modules/parlinalgcpp/src/parsolvers.cpp
+++ b/modules/parlinalgcpp/src/parsolvers.cpp
@@ -450,6 +450,15 @@ HYPRE_Int MyMatvecDestroy(void* ptr)
 std::vector<double> LOBPCG(const ParOperator& pmat, std::vector<linalgcpp::Vector<double>>& x,
                            const linalgcpp::Operator* precond, bool verbose)
 {
+    assert(pmat.Rows() == pmat.Cols());
+    assert(!precond || precond->Rows() == pmat.Rows());
+    assert(!precond || precond->Cols() == pmat.Cols());
+
+    for (const auto& x_i : x)
+    {
+        assert(x_i.size() == pmat.Rows());
+    }
+
     MPI_Comm comm = pmat.GetComm();
     int myid = pmat.GetMyId();
 
-- 
2.43.0


From 285327485d51804a5ddd33f945e861b4ef75b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:06 +0000
Subject: [PATCH 51/51] fix: short row and column starts are not read past
 their end

---
 modules/parlinalgcpp/src/paroperator.cpp | 2 +-
 modules/parlinalgcpp/src/parvector.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/parlinalgcpp/src/paroperator.cpp b/modules/parlinalgcpp/src/paroperator.cpp
index e776aed..845507d 100644
--- a/modules/parlinalgcpp/src/paroperator.cpp
+++ b/modules/parlinalgcpp/src/paroperator.cpp
@@ -25,7 +25,7 @@ ParOperator::ParOperator(MPI_Comm comm, std::vector<HYPRE_Int> starts)
 
 ParOperator::ParOperator(MPI_Comm comm, std::vector<HYPRE_Int> row_starts,
                          std::vector<HYPRE_Int> col_starts)
-    : Operator(row_starts[1] - row_starts[0], col_starts[1] - col_starts[0]),
+    : Operator(row_starts.at(1) - row_starts.at(0), col_starts.at(1) - col_starts.at(0)),
       comm_(comm), row_starts_(std::move(row_starts)), col_starts_(std::move(col_starts))
 {
     assert(row_starts_.size() >= 3);
diff --git a/modules/parlinalgcpp/src/parvector.cpp b/modules/parlinalgcpp/src/parvector.cpp
index bac6984..c4ac9b5 100644
--- a/modules/parlinalgcpp/src/parvector.cpp
+++ b/modules/parlinalgcpp/src/parvector.cpp
@@ -16,7 +16,7 @@ ParVector::ParVector(MPI_Comm comm, const std::vector<HYPRE_Int>& part)
 }
 
 ParVector::ParVector(MPI_Comm comm, double val, const std::vector<HYPRE_Int>& part)
-    : Vector(part[1] - part[0], val), comm_(comm), pvect_(nullptr), partition_(part)
+    : Vector(part.at(1) - part.at(0), val), comm_(comm), pvect_(nullptr), partition_(part)
 {
     Init();
 }
@@ -30,7 +30,7 @@ ParVector::ParVector(MPI_Comm comm, const linalgcpp::VectorView<double>& vect,
 
 void ParVector::Init()
 {
-    assert(partition_.size() >= 2);
+    assert(partition_.size() >= 3);
 
     assert(partition_[0] >= 0);
     assert(partition_[1] >= 0);
-- 
2.43.0

