From 3db3d79dcd014229b97b92da666377434a063b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 01/23] fix: reset every node of a graph once per reset pass,
 whatever its visited flag

Variable::reset() and Matrix::reset() stopped at a node whose own visited
flag was false, so after evaluating an inner shared expression an outer,
never visited expression kept the stale inner value or derivative.
---
 include/CommonHeader.hpp                      | 26 +++++++++++++++++++
 include/Matrix/Matrix.hpp                     |  3 +++
 .../Matrix/MatrixInterface/MatrixUtils.ipp    |  4 +--
 .../Matrix/MatrixInterface/MatrixVirtuals.ipp |  4 +--
 include/Scalar/Variable.hpp                   |  3 +++
 src/Scalar/Variable.cpp                       |  7 ++---
 6 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index fd8c541..e838568 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -369,6 +369,32 @@ class CommonHeader {
   protected:
     // Index counter (A counter to count the number of matrix/scalar operations)
     inline static size_t m_idx_count{0};
+
+    // Scope of a reset pass (A pass begins at the outermost reset call and every
+    // node is descended exactly once per pass, irrespective of its visited flag)
+    class ResetPass {
+      private:
+        inline static size_t m_depth{0};
+        inline static size_t m_pass{0};
+
+      public:
+        ResetPass() {
+          if (0 == m_depth++) {
+            ++m_pass;
+          }
+        }
+
+        // Is this the first time the node is reached in the current pass?
+        bool enter(size_t& node_pass) const {
+          const bool first = (node_pass != m_pass);
+          node_pass = m_pass;
+          return first;
+        }
+
+        ~ResetPass() {
+          --m_depth;
+        }
+    };
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index dcc8866..7e07dfb 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -110,6 +110,9 @@ private:
   // Boolean to verify evaluation/forward derivative values
   bool m_eval{false};
   bool m_devalf{false};
+
+  // Last reset pass in which the children were reset
+  size_t m_reset_pass{0};
   
   // Should destructor be called? (True by default)
   bool m_dest{true};
diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index cf83119..88ded11 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -191,8 +191,8 @@ bool Matrix<T>::findMe(void* v) const {
 // Reset impl
 template<typename T>
 void Matrix<T>::resetImpl() {
-    // Reset flag
-    this->m_visited = true;
+    const typename Matrix<T>::ResetPass pass;
+    pass.enter(m_reset_pass);
 
     // Reset states
     m_eval = false;
diff --git a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
index 899749c..b898a45 100644
--- a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
+++ b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
@@ -131,8 +131,8 @@ OMMatPair& Matrix<T>::getCache() {
 // Reset all visited flags
 template<typename T>
 void Matrix<T>::reset() {
-    if (true == this->m_visited) {
-        this->m_visited = false;
+    const typename Matrix<T>::ResetPass pass;
+    if (true == pass.enter(m_reset_pass)) {
         // Reset states
         m_eval = false;
         m_devalf = false;
diff --git a/include/Scalar/Variable.hpp b/include/Scalar/Variable.hpp
index 9a12fba..f34f89b 100644
--- a/include/Scalar/Variable.hpp
+++ b/include/Scalar/Variable.hpp
@@ -48,6 +48,9 @@ protected:
   // Collection of meta variable expressions
   Vector<MetaVariable*> m_gh_vec{};
 
+  // Last reset pass in which the children were reset
+  size_t m_reset_pass{0};
+
   // Exposed to user to compute symbolic differentiation
   Variable& SymDiff(const Variable&);
 
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index e6309a5..3478adf 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -116,7 +116,8 @@ Type Variable::getdValue() const {
 }
 
 void Variable::resetImpl() {
-  this->m_visited = true;
+  const ResetPass pass;
+  pass.enter(m_reset_pass);
   // Reset states
   std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(), [](auto* item) {
     if (nullptr != item) {
@@ -249,8 +250,8 @@ OMPair& Variable::getCache() {
 
 // Reset
 void Variable::reset() {
-  if (true == this->m_visited) {
-    this->m_visited = false;
+  const ResetPass pass;
+  if (true == pass.enter(m_reset_pass)) {
     // Reset states
     std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
                   [](auto* item) {
-- 
2.43.0


From b5fddc2abbbc95ff1ab9555cfef00711eba4b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 02/23] fix: symbolic evaluation of number/expression used 1
 instead of the number

---
 include/Scalar/BinaryOps/GenericDiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index 7893f31..d1265d3 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -257,7 +257,7 @@ public:
   V_OVERRIDE(Variable* symEval()) {
     // Evaluate variable in run-time
     if (nullptr == this->mp_tmp) {
-      auto tmp = Allocate<Expression>((Type)(1) / (EVAL_R()));
+      auto tmp = Allocate<Expression>((mp_left) / (EVAL_R()));
       this->mp_tmp = tmp.get();
     }
     return this->mp_tmp;
-- 
2.43.0


From a24fa90f28139f2157c0b87dd04604d2009f9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 03/23] fix: mixed real/complex subtraction, division and
 comparison

real - z kept the sign of the imaginary part, real / z divided by Re(z*z)
instead of |z|^2, and (in)equality compared the imaginary part to the real
number.
---
 src/CommonHeader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CommonHeader.cpp b/src/CommonHeader.cpp
index bf6ac3c..150cca5 100644
--- a/src/CommonHeader.cpp
+++ b/src/CommonHeader.cpp
@@ -33,7 +33,7 @@
 
   // Subtraction (Type and complex number)
   Type operator-(Real val, const Type &cmx) {
-    return {val - cmx.real(), cmx.imag()};
+    return {val - cmx.real(), -cmx.imag()};
   }
 
   Type operator-(const Type &cmx, Real val) {
@@ -51,7 +51,7 @@
 
   // Division (Type and complex number)
   Type operator/(Real val, const Type &cmx) {
-    Real abs_sq = (cmx * cmx).real();
+    const Real abs_sq = std::norm(cmx);
     return {(val * cmx.real()) / abs_sq, (-1 * val * cmx.imag()) / abs_sq};
   }
 
@@ -61,19 +61,19 @@
 
   // Not equal (Type and complex number)
   bool operator!=(const Type &cmx, Real val) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator!=(Real val, const Type &cmx) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   // Equal (Type and complex number)
   bool operator==(const Type &cmx, Real val) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator==(Real val, const Type &cmx) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 #endif
-- 
2.43.0


From f8c070f3cf1bc58c7c0a4a7f86a915e93b504499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 04/23] fix: scalar derivative drivers asked a scalar
 expression for its allocator

---
 include/Matrix/CommonMatFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index a77275f..db881b7 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -119,7 +119,7 @@ namespace CoolDiff {
     template <typename T, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T>>
     Matrix<Type>& DevalF(T& exp, const Matrix<Variable>& m, bool serial = true) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // If T is an expression
       if constexpr (true == std::is_same_v<T, Expression>) {
@@ -163,7 +163,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>> 
     Matrix<Type>& DevalR(T& exp, const Matrix<Variable>& m) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -178,7 +178,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& JacobianR(T& exp, const Vector<Variable>& vec) {
       const size_t rows = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1);
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -200,7 +200,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& HessianR(T& exp, const Vector<Variable>& vec) {
       const size_t dim = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim);
       Matrix<Expression> firstSym(dim, 1);
 
       // Exploit Hessian symmetry
-- 
2.43.0


From e290f81664de8c1593bb58a6918cef2851970ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 05/23] fix: off-diagonal entries of the scalar Hessians were
 never computed

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index db881b7..c6e28a8 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -209,7 +209,7 @@ namespace CoolDiff {
         // Precompute
         CoolDiff::TensorR1::PreComp(firstSym[i]);
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::DevalR(firstSym[i], vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
@@ -255,7 +255,7 @@ namespace CoolDiff {
       // Exploit Hessian symmetry
       for (size_t i{}; i < dim; ++i) {
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::SymDiff(CoolDiff::TensorR1::SymDiff(exp, vec[i]), vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
-- 
2.43.0


From e211fc56a339578252998f9ca5752d264feb7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 06/23] fix: getColumn ignored the requested column

---
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index a44bb45..155b9ee 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -169,10 +169,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) && {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return std::move(tmp);
@@ -188,10 +186,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) const & {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return tmp;
-- 
2.43.0


From aab674a1b0362773f60531b5200f4b4eb3214d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 07/23] fix: assigning one parameter to another left the value
 unchanged

---
 src/Scalar/Parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 33c5487..72fb9a3 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -26,6 +26,7 @@
 void Parameter::swap(Parameter& other) noexcept {
   std::swap(m_nidx, other.m_nidx);
   std::swap(m_cache, other.m_cache);
+  std::swap(mp_tmp, other.mp_tmp);
 }
 
 // Constructors
-- 
2.43.0


From 7e709fcf9edab16b475f09dbb0493114514a54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 08/23] fix: reverse derivative by an absent matrix had the
 wrong shape

---
 include/Matrix/CommonMatFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index c6e28a8..d0d9b76 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -96,7 +96,7 @@ namespace CoolDiff {
                                                                   std::is_base_of_v<MetaVariable, U>  ||
                                                                   std::is_base_of_v<MetaMatrix, T>>>
     inline Matrix<Type>& DevalR(T& Mexp, const U& X) {
-      if constexpr(true == std::is_base_of_v<U, MetaMatrix>) {
+      if constexpr(true == std::is_base_of_v<MetaMatrix, U>) {
         const size_t nrows = X.getNumRows();
         const size_t ncols = X.getNumColumns();
         if(auto it = Mexp.getCache().find(X.m_nidx); it != Mexp.getCache().end()) {
-- 
2.43.0


From 73626b096670868bd907cda2afc84eb87b81233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 09/23] fix: elementwise division of matrices was NaN for
 negative entries

---
 include/Matrix/CommonMatFunctions.hpp |  5 ++++-
 include/Matrix/UnaryFunctions.hpp     | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index d0d9b76..b2c6b38 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -309,6 +309,9 @@ UNARY_MATRIX_OPERATOR(TanhM, Tanh<Type>, DTanh<Type>)
 // Matrix Sigmoid function
 UNARY_MATRIX_OPERATOR(SigmoidM, Sigmoid<Type>, DSigmoid<Type>);
 
+// Matrix element wise reciprocal function
+UNARY_MATRIX_OPERATOR(RecipM, Recip<Type>, DRecip<Type>)
+
 // Matrix ReLU function
 #ifndef USE_COMPLEX_MATH
   // Relu activation  
@@ -337,7 +340,7 @@ constexpr const auto& operator/(const IMatrix<T1>& X, const IMatrix<T2>& Y) {
   ASSERT((X.allocatorType() == Y.allocatorType()), "LHS and RHS matrices live in different memory spaces");
   
   // Return expression
-  return ExpM(LogM(X) - LogM(Y));
+  return (X ^ RecipM(Y));
 }
 
 // Matrix broadcast function 
diff --git a/include/Matrix/UnaryFunctions.hpp b/include/Matrix/UnaryFunctions.hpp
index 4f1e97c..ea81e0c 100644
--- a/include/Matrix/UnaryFunctions.hpp
+++ b/include/Matrix/UnaryFunctions.hpp
@@ -130,6 +130,18 @@ __host__ __device__ T DReLU(T x) {
     return (T)((x >= (T)(0)) ? 1 : 0);
 }
 
+// Reciprocal function 
+template<typename T>
+__host__ __device__ T Recip(T x) {
+    return (T)((T)(1)/x);
+}
+
+// Derivative of reciprocal function 
+template<typename T>
+__host__ __device__ T DRecip(T x) {
+    return (T)((T)(-1)/(x*x));
+}
+
 // Leaky ReLU function 
 #define NEG_SLOPE() 0.01
 
@@ -168,6 +180,7 @@ enum DEVICE_FUNCTIONS {
     RELU, DRELU, 
     LEAKYRELU, DLEAKYRELU, 
     ABS, DABS,
+    RECIP, DRECIP,
     COUNT
 };
 
@@ -189,6 +202,7 @@ __global__ void DeviceFunctionsInit() {
     device_functions<T>[DEVICE_FUNCTIONS::RELU] = ReLU<T>;           device_functions<T>[DEVICE_FUNCTIONS::DRELU] = DReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::LEAKYRELU] = LeakyReLU<T>; device_functions<T>[DEVICE_FUNCTIONS::DLEAKYRELU] = DLeakyReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::ABS] = Abs<T>;             device_functions<T>[DEVICE_FUNCTIONS::DABS] = DAbs<T>;
+    device_functions<T>[DEVICE_FUNCTIONS::RECIP] = Recip<T>;         device_functions<T>[DEVICE_FUNCTIONS::DRECIP] = DRecip<T>;
 }
 
 // Map of all device functions and its enum
@@ -203,4 +217,5 @@ std::unordered_map<FunctionTypeCuda<T>, int> device_functions_map{  /* <-- Funct
                                                                     {Sigmoid<T>, SIGMOID},          {DSigmoid<T>, DSIGMOID},
                                                                     {ReLU<T>, RELU},                {DReLU<T>, DRELU},
                                                                     {LeakyReLU<T>, LEAKYRELU},      {DLeakyReLU<T>, DLEAKYRELU},
-                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS}};
\ No newline at end of file
+                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS},
+                                                                    {Recip<T>, RECIP},              {DRecip<T>, DRECIP}};
\ No newline at end of file
-- 
2.43.0


From 1405f757cc56611b61376d39734254207bf0d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 10/23] fix: zero padding left stale values in a reused buffer

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 88ded11..69105b2 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -87,6 +87,10 @@ template<typename T>
 void Matrix<T>::pad(const size_t r, const size_t c, Matrix*& result) const {
     // Special matrix embedding
     MemoryManager::MatrixPool(result, m_rows + 2 * r, m_cols + 2 * c, allocatorType());
+    // The border must be zero even if the buffer is being reused
+    if constexpr (true == std::is_same_v<T, Type>) {
+        CoolDiff::TensorR2::Details::ResetZero(result);
+    }
     result->setBlockMat({r, r + m_rows - 1}, {c, c + m_cols - 1}, this);
 }
 
-- 
2.43.0


From f8c4f4b3d2babb1cce57179b1829389b50caf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 11/23] fix: vec reshaped its operand's own result in place

---
 include/Matrix/UnaryOps/GenericMatVec.hpp | 39 +++++++++++++++--------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 2746347..e0951f6 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -40,6 +40,10 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
         inline static constexpr const size_t m_size{2};
         Matrix<Type>* mp_arr[m_size]{};
 
+        // Vectorized result and derivative of the operand
+        Matrix<Type>* mp_result{nullptr};
+        Matrix<Type>* mp_dresult{nullptr};
+
     public:
         // Block index
         const size_t m_nidx{};
@@ -84,10 +88,11 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Reshape and return
-            Matrix<Type>* right_mat = mp_right->eval();
-            right_mat->reshape(nrows, ncols);
-            return right_mat;
+            // The operand keeps its own shape, hence copy the values to the vectorized matrix
+            const Matrix<Type>* right_mat = mp_right->eval();
+            MemoryManager::MatrixPool(mp_result, nrows, ncols, right_mat->allocatorType());
+            mp_result->copyData(*right_mat);
+            return mp_result;
         }
 
         // Matrix devalF computation
@@ -95,16 +100,22 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             // Get number of rows/columns 
             const size_t xrows = X.getNumRows(); 
             const size_t xcols = X.getNumColumns();
-            const size_t nrows = getNumRows();
-            const size_t ncols = getNumColumns();
-
-            // Matrix derivative vectorization
-            Matrix<Variable> Y(1, xrows*xcols, X.getMatrixPtr());
-
-            // Reshape and return
-            Matrix<Type>* dright_mat = mp_right->devalF(Y);
-            dright_mat->reshape(nrows*xrows, ncols*xcols);
-            return dright_mat;
+            const size_t rrows = mp_right->getNumRows();
+            const size_t rcols = mp_right->getNumColumns();
+
+            // Derivative blocks of the operand, stacked in the order of vectorization
+            const Matrix<Type>* dright_mat = mp_right->devalF(X);
+            MemoryManager::MatrixPool(mp_dresult, (rrows * rcols * xrows), xcols, dright_mat->allocatorType());
+            for(size_t l{}; l < rrows; ++l) {
+                for(size_t k{}; k < rcols; ++k) {
+                    for(size_t i{}; i < xrows; ++i) {
+                        for(size_t j{}; j < xcols; ++j) {
+                            (*mp_dresult)((((l * rcols) + k) * xrows) + i, j) = (*dright_mat)((l * xrows) + i, (k * xcols) + j);
+                        }
+                    }
+                }
+            }
+            return mp_dresult;
         }
 
         // Traverse
-- 
2.43.0


From d957e6c19052e6f894dc728dde701ea88c2f8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 12/23] fix: seed derivative of a variable matrix left stale
 values in a reused buffer

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 69105b2..8d378f8 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -143,6 +143,9 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
             const size_t xrows = X.getNumRows();
             const size_t xcols = X.getNumColumns();
 
+            // The buffer may hold the derivative with respect to another matrix
+            CoolDiff::TensorR2::Details::ResetZero(mp_dresult);
+
             // Vector of indices in X matrix
             const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
             // Logic for Kronecker product (With ones)
-- 
2.43.0


From 637b00604f760010146021da833c6c4950a6535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 13/23] fix: naive Kronecker product left stale values for zero
 coefficients

---
 .../MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
index 432a592..54a18b1 100644
--- a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
@@ -60,6 +60,14 @@ class MatKronNaiveHandler : public T {
                   const size_t l = ((n2 - m) / rc);
                   (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
                 });
+          } else {
+            // The buffer may hold the values of an earlier product
+            std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
+                [&](const size_t n2) {
+                  const size_t m = (n2 % rc);
+                  const size_t l = ((n2 - m) / rc);
+                  (*result)((i * rr) + l, (j * rc) + m) = (Type)(0);
+                });
           }
         });
 
-- 
2.43.0


From ba58311dcdade00fd480bdf932569ddc8eb7fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 14/23] fix: naive transpose and the transpose derivative
 conjugated complex values

---
 .../NaiveCPU/MatDervTransposeNaiveHandler.hpp               | 6 +-----
 .../MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
index dd73e07..141f851 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
@@ -56,11 +56,7 @@ class MatDervTransposeNaiveHandler : public T {
                               // Inner Row and column index
                               const size_t m = (n2 % ncols_x);
                               const size_t l = ((n2 - m) / ncols_x);
-                              #if defined(USE_COMPLEX_MATH)
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = std::conj((*rhs)(l + (i * nrows_x), m + (j * ncols_x)));
-                              #else
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
-                              #endif
+                              (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
               });
         });
       }
diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
index 6d79778..fdb0531 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
@@ -44,11 +44,7 @@
           // Row and column index
           const size_t j = (n % ncols);
           const size_t i = ((n - j) / ncols);
-          #if defined(USE_COMPLEX_MATH)
-              (*result)(j, i) = std::conj((*rhs)(i, j));
-          #else
-              (*result)(j, i) = (*rhs)(i, j);
-          #endif
+          (*result)(j, i) = (*rhs)(i, j);
         });
       }
 };
\ No newline at end of file
-- 
2.43.0


From edfcef587b74281f705ae252c3530747f2d89c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 15/23] fix: reassigning a matrix expression freed the results
 of other expressions

---
 include/Matrix/Matrix.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 7e07dfb..805e271 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -221,14 +221,10 @@ public:
       m_rows = expr.getNumRows();
       m_cols = expr.getNumColumns();
 
-      // Deallocate mp_mat, mp_result, mp_dresult;
+      // Deallocate own values. The results belong to the nodes that computed them
       deallocator();
-      if(nullptr != mp_result) {
-        mp_result->deallocator();
-      }
-      if(nullptr != mp_dresult) {
-        mp_dresult->deallocator();
-      }
+      mp_result = nullptr;
+      mp_dresult = nullptr;
 
       m_eval = false;
       m_devalf = false;
-- 
2.43.0


From 5956c6e19a82a972bf6bf883f0b182c648bca814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 16/23] fix: assigning a matrix expression to itself lost its
 meaning

---
 include/Matrix/MatrixInterface/MatrixConstructors.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 4282ba7..e82fb86 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -145,8 +145,11 @@ Matrix<T>::Matrix(const Matrix& m) :  m_rows{m.m_rows},
 // Copy assignment operator
 template<typename T>
 Matrix<T>& Matrix<T>::operator=(const Matrix& m) {
-  // Copy-swap idiom
-  Matrix<T>{m}.swap(*this);
+  // A matrix expression must not end up referring to itself
+  if(this != &m) {
+    // Copy-swap idiom
+    Matrix<T>{m}.swap(*this);
+  }
   // Return this reference
   return *this;
 }
-- 
2.43.0


From 3e53c626de6f57137c2d69154fc2772a70a02fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 17/23] fix: a convolution kernel too large along one dimension
 was accepted

---
 include/Matrix/BinaryOps/GenericMatConv.hpp                | 7 +++++--
 .../MatrixConvolution/Eigen/MatConvEigenHandler.hpp        | 4 ++--
 .../MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp     | 4 ++--
 .../MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp | 4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 37f155f..efac7ab 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -43,8 +43,9 @@ private:
 
   // Verify dimensions of result matrix for convolution operation
   inline constexpr bool verifyDim() const {
-    // Dimension of the result of convolution operator must be strictly non-negative
-    return ((int)getNumRows() > 0 || (int)getNumColumns() > 0);
+    // Kernel must fit into the padded left matrix along both dimensions
+    return (mp_right->getNumRows() <= mp_left->getNumRows() + (2 * m_pad_x)) && 
+           (mp_right->getNumColumns() <= mp_left->getNumColumns() + (2 * m_pad_y));
   }
 
   // All matrices
@@ -76,11 +77,13 @@ public:
 
   // Get number of rows (After convolution)
   V_OVERRIDE(size_t getNumRows() const) {
+    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
     return (((mp_left->getNumRows() + (2 * m_pad_x) - mp_right->getNumRows()) / m_stride_x) + 1);
   }
 
   // Get number of columns (After convolution)
   V_OVERRIDE(size_t getNumColumns() const) {
+    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
     return (((mp_left->getNumColumns() + (2 * m_pad_y) - mp_right->getNumColumns()) / m_stride_y) + 1);
   }
 
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
index 9deaf1f..30b9b95 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
@@ -84,8 +84,8 @@ class MatConvEigenHandler : public T {
             const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
             const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-            // Matrix-Matrix convolution result dimensions must be strictly non-negative
-            ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+            // Kernel must fit into the padded left matrix along both dimensions
+            ASSERT((crows <= lhs->getNumRows() + (2 * pad_x)) && (ccols <= lhs->getNumColumns() + (2 * pad_y)), "Matrix-Matrix convolution dimensions invalid");
 
             // Pad left matrix with the required padding
             lhs->pad(pad_x, pad_y, mp_arr);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
index 3ecf449..0495b92 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
@@ -64,8 +64,8 @@ class MatConvNaiveHandler : public T {
         const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
         const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-        // Matrix-Matrix convolution result dimensions must be strictly non-negative
-        ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+        // Kernel must fit into the padded left matrix along both dimensions
+        ASSERT((crows <= lhs->getNumRows() + (2 * pad_x)) && (ccols <= lhs->getNumColumns() + (2 * pad_y)), "Matrix-Matrix convolution dimensions invalid");
 
         // Pad left matrix with the required padding
         lhs->pad(pad_x, pad_y, mp_arr[0]);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
index c09a8f7..1889d84 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
@@ -71,8 +71,8 @@ class MatDervConvNaiveHandler : public T {
       const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
       const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-      // Matrix-Matrix convolution result dimensions must be strictly non-negative
-      ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+      // Kernel must fit into the padded left matrix along both dimensions
+      ASSERT((crows <= lhs->getNumRows() + (2 * pad_x)) && (ccols <= lhs->getNumColumns() + (2 * pad_y)), "Matrix-Matrix convolution dimensions invalid");
 
       // Pad left derivative matrix with required padding
       dlhs->pad((pad_x * nrows_x), (pad_y * ncols_x), mp_arr[0]);
-- 
2.43.0


From 316dda8dbd0463e345583de50095ce90472890b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 18/23] fix: reverse mode of a matrix expression that is not
 scalar was accepted in some forms

---
 include/Matrix/CommonMatFunctions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index b2c6b38..ddac743 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -78,6 +78,8 @@ namespace CoolDiff {
     // Precomputation of matrix expression
     template<typename T> 
     inline void PreComp(Matrix<T>& Mexp) {
+      // Reverse mode is defined for scalar matrix expressions only
+      ASSERT((Mexp.getNumRows() == 1) && (Mexp.getNumColumns() == 1), "Matrix expression not scalar for reverse mode derivative");
       if constexpr(true == std::is_same_v<T, Expression>) {
         // Reset graph/tree
         Mexp.resetImpl();
-- 
2.43.0


From 2cd41137eaa0702228b3a42ae4510d1ce9b96189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 19/23] fix: the derivative of a copied variable matrix ignored
 elements replaced after the copy

---
 .../Matrix/MatrixInterface/MatrixUtils.ipp    | 24 ++-----------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 8d378f8..75ca4bb 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -137,28 +137,8 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
     }
     // If the matrix type is Variable
     else if constexpr (true == std::is_same_v<T, Variable>) {
-        // Last is the most important condition to delineate Matrix<Variable>'s
-        if ((nullptr != getMatrixPtr()) && (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr()) && (m_nidx == X.m_nidx)) {
-            // Get dimensions of X variable matrix
-            const size_t xrows = X.getNumRows();
-            const size_t xcols = X.getNumColumns();
-
-            // The buffer may hold the derivative with respect to another matrix
-            CoolDiff::TensorR2::Details::ResetZero(mp_dresult);
-
-            // Vector of indices in X matrix
-            const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
-            // Logic for Kronecker product (With ones)
-            std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                    [this, xrows, xcols](const size_t n) {
-                        const size_t j = (n % xcols);
-                        const size_t i = ((n - j) / xcols);
-                        // Inner loop
-                        (*mp_dresult)((i * xrows) + i, (j * xcols) + j) = (Type)(1);
-            });
-        }
-        // If the Matrix is Variable, but of different form
-        else if ((nullptr != getMatrixPtr()) &&  (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
+        // The elements decide: copies and parts of matrices can hold any variables
+        if ((nullptr != getMatrixPtr()) &&  (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
             // Get dimensions of X variable matrix
             const size_t xrows = X.getNumRows();
             const size_t xcols = X.getNumColumns();
-- 
2.43.0


From 6ac1dddcbee284e867475b869b9f5861701f5988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 20/23] fix: random filling ignored the parameters of every
 call after the first

---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 805e271..e1cf7c7 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -436,7 +436,7 @@ namespace CoolDiff {
       template<template <typename> class T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T<Type> dis(std::forward<Args>(args)...);
+          T<Type> dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
@@ -445,7 +445,7 @@ namespace CoolDiff {
       template<typename T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T dis(std::forward<Args>(args)...);
+          T dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
-- 
2.43.0


From cd9ffc3bb20ffc497496179a96667d07bec5fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 21/23] fix: factorials beyond 20! overflowed, so longer matrix
 exponentials were wrong

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 src/Matrix/CommonMatFunctions.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index ddac743..6f17a25 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -38,8 +38,8 @@
 
 namespace CoolDiff {
   namespace Common {
-    // Factorial of n 
-    const size_t Factorial(const size_t);
+    // Factorial of n (a real number, as it exceeds size_t for n > 20)
+    Real Factorial(const size_t);
   }
 
   namespace TensorR2 {
diff --git a/src/Matrix/CommonMatFunctions.cpp b/src/Matrix/CommonMatFunctions.cpp
index eb295d2..f8ed85c 100644
--- a/src/Matrix/CommonMatFunctions.cpp
+++ b/src/Matrix/CommonMatFunctions.cpp
@@ -23,8 +23,8 @@
 
 namespace CoolDiff {
    namespace Common {
-      const size_t Factorial(const size_t n) {
-         static UnOrderedMap<size_t, size_t> map{{0,1},{1,1}}; 
+      Real Factorial(const size_t n) {
+         static UnOrderedMap<size_t, Real> map{{0,1},{1,1}}; 
          if(auto it = map.find(n); it == map.end()) {
             map[n] = n*Factorial(n-1); 
          }
-- 
2.43.0


From bc00a6b449ae920ff426015d65abaaa9ad4d1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:23 +0000
Subject: [PATCH 22/23] fix: a matrix extended by itself kept its old
 dimensions when the extension changed them

---
 include/Matrix/Matrix.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index e1cf7c7..1932c9f 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -216,11 +216,11 @@ public:
     if (static_cast<const Z&>(expr).findMe(this) == false) {
       m_gh_vec.clear();
     }
+    // The new dimensions may depend on the present dimensions of this matrix
+    const size_t rows = expr.getNumRows();
+    const size_t cols = expr.getNumColumns();
     // If the push back bector is zero
     if (true == m_gh_vec.empty()) {
-      m_rows = expr.getNumRows();
-      m_cols = expr.getNumColumns();
-
       // Deallocate own values. The results belong to the nodes that computed them
       deallocator();
       mp_result = nullptr;
@@ -231,7 +231,9 @@ public:
       m_dest = true;
     }
     // Expression multiplied with eye matrix and emplace it in a generic holder (Dont change it)
-    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), expr.getNumColumns())))));
+    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), cols)))));
+    m_rows = rows;
+    m_cols = cols;
     return *this;
   }
 
-- 
2.43.0


From cd1e73b048e90b133799301b5843e8fd0cc0e96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 23/23] fix: extending a matrix of scalar expressions by itself
 lost its elements

---
 include/Matrix/Matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 1932c9f..3443992 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -215,6 +215,13 @@ public:
     // Clear buffer and set rows and columns if not recursive expression not found
     if (static_cast<const Z&>(expr).findMe(this) == false) {
       m_gh_vec.clear();
+    } else if (true == m_gh_vec.empty()) {
+      // The formula refers to the elements, which become the first meaning of this matrix
+      auto& first = MatrixFactory::CreateMatrix(m_rows, m_cols, allocatorType());
+      std::swap(first.mp_allocator, mp_allocator);
+      std::swap(first.m_dest, m_dest);
+      deallocator();
+      m_gh_vec.push_back((Matrix<Expression>*)&(first*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), m_cols)))));
     }
     // The new dimensions may depend on the present dimensions of this matrix
     const size_t rows = expr.getNumRows();
-- 
2.43.0

