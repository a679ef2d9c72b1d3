From 6a7b48ff703a9fac3a2888d1e0ad3ccd480e3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:35 +0000
Subject: [PATCH 01/49] fix: Queue first()/last() stop on an empty queue
 instead of reading it

---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 02860e811cc6427ebe5255aab5536dfdd3a2a927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 02/49] fix: Random::nextInt computes its range in 64 bits, so
 a range wider than int does not overflow

---
 src/random/Random.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..76f6f33 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -11,12 +11,15 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  // the range and the shifted result are computed in 64 bits, since
+  // `max - min` may exceed the range of `int`
+  auto range = (std::uint64_t)((std::int64_t)max - min);
+  return (int)((std::int64_t)(randomGenerator() % range) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  auto range = (std::uint64_t)((std::int64_t)intMax - intMin + 1);
+  return (int)((std::int64_t)(randomGenerator() % range) + intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From 8a406dd07fd7d81aa13f8f2e3c96b8ee659dc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:24 +0000
Subject: [PATCH 03/49] fix: Random::nextDouble never returns the excluded
 upper bound

---
 src/random/Random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 76f6f33..20e0fd2 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cmath>
 #include <cstdlib>
 #include <ctime>
 
@@ -29,7 +30,9 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  double result = (double)randomGenerator() / int64Max * (max - min) + min;
+  // rounding may carry the result up to `max`, which is excluded
+  return result < max ? result : std::nextafter(max, min);
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From d1cebc844515e82604819df33535719441a3a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:02 +0000
Subject: [PATCH 04/49] fix: ExponentialDistribution rejects a zero rate

---
 src/include/random/ExponentialDistribution.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/include/random/ExponentialDistribution.h b/src/include/random/ExponentialDistribution.h
index e52f91e..832a3d8 100644
--- a/src/include/random/ExponentialDistribution.h
+++ b/src/include/random/ExponentialDistribution.h
@@ -2,6 +2,7 @@
 #define CUHKSZ_RANDOM_EXPONENTIALDISTRIBUTION
 
 #include "random/GammaDistribution.h"
+#include "utils/error.h"
 namespace cuhksz {
 
 /**
@@ -29,7 +30,7 @@ class ExponentialDistribution : public GammaDistribution {
     @param lambda The rate
   **/
   explicit ExponentialDistribution(double lambda)
-      : GammaDistribution(1.0, 1 / lambda) {}
+      : GammaDistribution(1.0, scale(lambda)) {}
 
   /**
     Construct a Exponential distribution sampler with an existing `Random`
@@ -38,7 +39,7 @@ class ExponentialDistribution : public GammaDistribution {
     @param lambda The rate
   **/
   ExponentialDistribution(Random& r, double lambda)
-      : GammaDistribution(r, 1.0, 1 / lambda) {}
+      : GammaDistribution(r, 1.0, scale(lambda)) {}
 
   virtual ~ExponentialDistribution() {}
 
@@ -46,6 +47,14 @@ class ExponentialDistribution : public GammaDistribution {
     Returns the parameter `lambda`
   **/
   double lambda() { return 1 / GammaDistribution::theta(); }
+
+ private:
+  static double scale(double lambda) {
+    if (lambda <= 0) {
+      error("Invalid parameter for ExponentialDistribution");
+    }
+    return 1 / lambda;
+  }
 };
 }  // namespace cuhksz
 
-- 
2.43.0


From cc34f8d212a82fbbdc39ec85d8010d5820ec5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 05/49] fix: mean of integers does not overflow the element
 type

---
 src/include/math_utils/math_functions.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..dfddcf9 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -142,7 +142,8 @@ auto sum(const Container& arr, Function fn) ->
 **/
 template <typename Type>
 double mean(const Type* arr, int size) {
-  return (double)sum(arr, size) / size;
+  // accumulate in double, the sum may not be representable in `Type`
+  return sum(arr, size, [](Type value) { return (double)value; }) / size;
 }
 
 /**
@@ -157,7 +158,11 @@ double mean(const Type* arr, int size) {
 **/
 template <typename Container>
 double mean(const Container& arr) {
-  return (double)sum(arr) / arr.size();
+  // accumulate in double, the sum may not be representable in the value type
+  return sum(arr, [](typename Container::value_type value) {
+           return (double)value;
+         }) /
+         arr.size();
 }
 
 /**
-- 
2.43.0


From 6665b6937626c1b9ac8e08cc5baf5c1071410704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:10 +0000
Subject: [PATCH 06/49] fix: variance of an int array squares its elements in
 double

---
 src/math_utils/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..940fe0a 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -16,7 +16,7 @@ double variance(const double* arr, int size) {
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    sum_square += (double)arr[i] * arr[i];
   }
   double means = mean(arr, size);
   return sum_square / size - means * means;
-- 
2.43.0


From e77daae1b3103d662b481cbee2c1e508dea392c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 07/49] fix: permutation(n, 0) is 1

---
 src/include/math_utils/math_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index dfddcf9..a91e7cd 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -481,9 +481,8 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
-  IntType result = n;
-  n--;
-  for (; r > 1; r--, n--) {
+  IntType result = 1;
+  for (; r > 0; r--, n--) {
     result *= n;
   }
   return result;
-- 
2.43.0


From 73e6c68960282d72a4d1896c27d73d0b0613950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:19 +0000
Subject: [PATCH 08/49] fix: Fraction operator/= and
 int-minus/int-over-Fraction compute the value they are named for

---
 src/include/math_utils/Fraction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,11 +87,11 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From f255a6f83c8efe80a8e20ea912ea2301f5c2280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:45 +0000
Subject: [PATCH 09/49] fix: Point arithmetic operators leaked their result

---
 src/include/geometry/Point.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..6e83f34 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -44,15 +44,14 @@ class Point {
 
   double operator[](int const index) const { return elem[index]; }
 
-  // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +74,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +89,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From 886a4faac365068e431541f8fbdeca1296304a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 10/49] fix: Matrix operator* leaked its result

---
 src/include/math_utils/Matrix.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..68932f8 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -69,12 +69,11 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
-        for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
+        for (int k = 0; k < col; k++) ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
-- 
2.43.0


From 39d4d8a4a899825f437db737027c11643c146e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 11/49] fix: Matrix operator*= freed its elements twice and
 leaked the product

---
 src/include/math_utils/Matrix.h | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 68932f8..2e404d6 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -77,15 +77,7 @@ class Matrix {
   }
 
   Matrix& operator*=(const Matrix& other) {
-    assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
-        for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
-    *this = *ret;
-    return *this;
+    return *this = *this * other;
   }
 
   Matrix operator+(const Matrix& other) const {
-- 
2.43.0


From 026956aa19c1d044e0d191d3ee7b66038c7d5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 12/49] fix: Matrix pow never squared, leaked, and did not end
 for exponent 0

---
 src/include/math_utils/Matrix.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 2e404d6..752a170 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -130,14 +130,14 @@ class Matrix {
     return *ret;
   }
 
-  friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
-      return *ret;
+  friend Matrix pow(const Matrix& src, unsigned int n) {
+    assert(src.row == src.col);
+    Matrix ret(src.row), base(src);
+    for (int i = 0; i < ret.row; i++) ret[i][i] = 1;
+    for (; n; n >>= 1) {
+      if (n & 1) ret *= base;
+      base *= base;
     }
-
-    Matrix& ret = pow(src, n >> 1);
-    if (n & 1) ret *= src;
     return ret;
   }
 
-- 
2.43.0


From f1bd6baf63cc98ace36be4a1ce8d572bbcf416ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 13/49] fix: idMat could not be called, leaked, and kept two
 Matrix types from being used together

---
 src/include/math_utils/Matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 752a170..2063c17 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -124,10 +124,10 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
-    Matrix* ret = new Matrix(n);
-    for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
-    return *ret;
+  static Matrix idMat(int n) {
+    Matrix ret(n);
+    for (int i = 0; i < n; i++) ret[i][i] = 1;
+    return ret;
   }
 
   friend Matrix pow(const Matrix& src, unsigned int n) {
-- 
2.43.0


From d1906b27bbf0517fae2db13bd10820e48b461890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 14/49] fix: BST erase of a node with only a left child
 dereferenced null

The root was taken from the missing right child instead of the left one.
---
 src/graph/BST.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..e581053 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -86,7 +86,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
-- 
2.43.0


From f1c4aeb6f7ecebea102ce76cbd8339dc7e4702bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 15/49] fix: BST erase left the children's parent links on the
 erased node

After erasing a node with two children the subtrees still named it as their
parent, so a later splay rotated the erased (possibly freed) node back in.
---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index e581053..8024317 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -98,6 +98,8 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
 }
 
-- 
2.43.0


From 29d9485243c52c8054c22d4893da076e7ac69978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 16/49] fix: BST erase kept the erased node's child links

Inserting the node again brought its old subtrees along.
---
 src/graph/BST.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 8024317..e67fdcc 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -101,6 +101,7 @@ void BST::erase(BSTNode* x) {
     if (root->ch[0] != nullptr) root->ch[0]->fa = root;
     root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From a7b7c62c5ad1fa8d7f749b5842f03d64c43d4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 17/49] fix: BST pre and suf missed neighbours outside the
 node's own subtree

They only looked below the node, so for a node that is not the root the
predecessor or successor could be reported as missing.
---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index e67fdcc..9d38214 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From ab3719c9cb9f1d7b05fc26dc3b186ae38353998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 18/49] fix: Tree LCA read past the end of the ancestor table

After a jump the node has fewer recorded ancestors than the loop started with.
---
 src/graph/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..3481abb 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,7 +43,7 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From 5effbd03a9f407772326a755adfe35b56bfb5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 19/49] fix: Node height and Tree root were read uninitialised

getHeight() of a new node and getRoot() of a new tree returned garbage.
---
 src/graph/Tree.cpp       | 2 +-
 src/include/graph/Tree.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 3481abb..67d9c85 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -2,7 +2,7 @@
 
 namespace cuhksz {
 
-Node::Node(int id, int val) : id(id), val(val) {
+Node::Node(int id, int val) : id(id), val(val), height(0) {
   fa = nullptr;
   son.clear();
 }
diff --git a/src/include/graph/Tree.h b/src/include/graph/Tree.h
index 4ead6d6..5e0fe4b 100644
--- a/src/include/graph/Tree.h
+++ b/src/include/graph/Tree.h
@@ -43,7 +43,7 @@ class Tree {
   int getDistance(Node* x, Node* y);
 
  private:
-  Node* root;
+  Node* root = nullptr;
   std::vector<Node*> nodes;
 };
 
-- 
2.43.0


From 42489258411673f20346ab2b664a7676900c2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 20/49] fix: SegmentTree wrote pending updates past the end of
 its arrays

A leaf handed its pending update on to children that do not exist; below the
last level their index is outside the arrays.
---
 src/include/graph/SegmentTree.h | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..5881c9c 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,21 +80,23 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
-    }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,17 +104,19 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
-    if (hasAddFlag[ls]) {
-      addFlag[ls] += addFlag[o];
-    } else {
-      hasAddFlag[ls] = true;
-      addFlag[ls] = addFlag[o];
-    }
-    if (hasAddFlag[rs]) {
-      addFlag[rs] += addFlag[o];
-    } else {
-      hasAddFlag[rs] = true;
-      addFlag[rs] = addFlag[o];
+    if (l != r) {
+      if (hasAddFlag[ls]) {
+        addFlag[ls] += addFlag[o];
+      } else {
+        hasAddFlag[ls] = true;
+        addFlag[ls] = addFlag[o];
+      }
+      if (hasAddFlag[rs]) {
+        addFlag[rs] += addFlag[o];
+      } else {
+        hasAddFlag[rs] = true;
+        addFlag[rs] = addFlag[o];
+      }
     }
   }
 }
-- 
2.43.0


From 8f017bc8506be81bbda55ebe702c8149391f3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 21/49] fix: SegmentTree min and max were exchanged after a
 negative factor

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 5881c9c..06f28ad 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,6 +80,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     if (l != r) {
       if (hasMulFlag[ls]) {
         mulFlag[ls] *= mulFlag[o];
-- 
2.43.0


From 9d033efa53bea26e5124db773fd011791d15e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 22/49] fix: SegmentTree queries ignored updates of a part of
 their interval

After an update that covers only part of a node's interval the node's own
minimum, maximum and sum were left unchanged.
---
 src/include/graph/SegmentTree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 06f28ad..962f4bb 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pull(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -122,6 +123,17 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+template <typename ValueType>
+void SegmentTree<ValueType>::pull(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -193,6 +205,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pull(o, l, r);
 }
 
 template <typename ValueType>
@@ -213,6 +226,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pull(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From 9a6cf00dadf6e2906dee44b81fd07a559e8b34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 23/49] fix: SegmentTree of an empty vector recursed without
 end

---
 src/include/graph/SegmentTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 962f4bb..233a743 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -51,7 +51,7 @@ SegmentTree<ValueType>::SegmentTree(std::vector<ValueType>& v) {
     addFlag.push_back(v[0]);
     mulFlag.push_back(v[0]);
   }
-  init(v, 0, size - 1, 1);
+  if (size > 0) init(v, 0, size - 1, 1);
 }
 
 template <typename ValueType>
-- 
2.43.0


From 002553a66426967d03b3a43868acde0733596899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 24/49] fix: urlDecode read past the end of a text ending in an
 incomplete escape

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From 7a531558cebd2efd8feb5d13421882297adceb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 25/49] fix: base64Decode dropped zero bytes and decoded
 left-over bits

---
 src/base64/base64_functions.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..9d67f8f 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,10 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
-  for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
+  for (std::size_t i = 0; i + 8 <= binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 171cff9d35b78945b2bb0e904f6c699269b75a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 26/49] fix: kmpSearch accessed memory out of bounds for an
 empty pattern or a start past the end

---
 src/algorithm/kmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..0c55f15 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,9 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
+
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From 61571c3dc9e1a884a756fa97047cb3d36b3cf6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 27/49] fix: assigning a JSONObject to itself or to its owner
 read freed memory

---
 src/json/Json.cpp | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..af8af68 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -323,33 +323,20 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
+  // src may be this object or a part of it: detach its contents first
+  data newData = src.Data;
+  Type newType = src.objType;
   src.Data.Map = nullptr;
   src.objType = Type::Null;
+  clearData();
+  Data = newData;
+  objType = newType;
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  // src may be this object or a part of it: copy before clearing
+  return *this = JSONObject(src);
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From 9dd83f3d7b44b49a5a55ac3252147f9bb69d82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 28/49] fix: JSONObject::at() const used a value of another
 type as a container and added missing keys

---
 src/json/Json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index af8af68..83abccc 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -359,12 +359,20 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
-  return Data.Map->operator[](key);
+  static const JSONObject null;
+  if (objType != Type::Object) {
+    error("Object: Expected an object to look up '" + key + "'");
+  }
+  auto found = Data.Map->find(key);
+  return found == Data.Map->end() ? null : found->second;
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
 
 const JSONObject &JSONObject::at(unsigned index) const {
+  if (objType != Type::Array) {
+    error("Array: Expected an array to look up an index");
+  }
   return Data.List->at(index);
 }
 
-- 
2.43.0


From 48fc0a9aeb3d76fe6bf54188c4f786ee0ac056d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 29/49] fix: JSONObject::operator[] with a negative index
 accessed memory out of bounds

---
 src/json/Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 83abccc..8004149 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -351,6 +351,9 @@ JSONObject &JSONObject::operator[](const std::string &key) {
 }
 
 JSONObject &JSONObject::operator[](int index) {
+  if (index < 0) {
+    error("Array: Index out of range");
+  }
   setType(Type::Array);
   if (index >= (int)Data.List->size()) Data.List->resize((size_t)(index + 1));
   return Data.List->operator[]((size_t)index);
-- 
2.43.0


From f5407e0bfd05738292bf6bafd0f3e3625e64f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 30/49] fix: JSONObject built from a key without a value read
 past the list

---
 src/json/Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 8004149..6a4db38 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -244,6 +244,9 @@ JSONObject parse_next(const std::string &str, size_t &offset) {
 JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
+  if (list.size() % 2) {
+    error("Object: Expected a value for every key");
+  }
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
     operator[](i->toString()) = *std::next(i);
-- 
2.43.0


From 0d26dd9f0816ab696331e6233c03ccc69627f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 31/49] fix: parsing an unterminated JSON string read past the
 end of the text

---
 src/json/Json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 6a4db38..cc7a4a5 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -89,6 +89,10 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+    if (offset >= str.length() ||
+        (c == '\\' && offset + 1 >= str.length())) {
+      error("String: Expected closing quote, nothing remaining.");
+    }
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
-- 
2.43.0


From cd197ce7276cb0257e46099fff6eddba7b224aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 32/49] fix: JSON numbers with an exponent lost a digit, and a
 number ending the text was read past

---
 src/json/Json.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index cc7a4a5..85e75ea 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -154,7 +154,7 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   bool isDouble = false;
   int exp = 0;
   while (true) {
-    c = str[offset++];
+    c = str[offset];
     if ((c == '-') || (c >= '0' && c <= '9')) {
       val += c;
     } else if (c == '.') {
@@ -163,15 +163,19 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     } else {
       break;
     }
+    offset++;
   }
   if (c == 'E' || c == 'e') {
+    offset++;
     if (offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
+    c = str[offset];
     if (c == '-') {
       exp_str += '-';
     }
+    if (c == '-' || c == '+') offset++;
+    size_t exp_start = offset;
     while (true) {
       c = str[offset];
 
@@ -185,11 +189,13 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       }
       offset++;
     }
+    if (offset == exp_start) {
+      error("Number: Expected a number for exponent, found none");
+    }
     exp = cuhksz::stringCast<double>(exp_str);
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
 
   if (isDouble)
     Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-- 
2.43.0


From c54fe7298d2b1a8f8666ee48a16d10bee00713a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 33/49] fix: stringCast of an empty string returned an
 uninitialised value

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..52a35ce 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
-- 
2.43.0


From 5a06b081082657ce790d5f4f5eb0bd5fa5340be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 34/49] fix: stringCast kept a reference to a temporary string

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 52a35ce..fb823a5 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -33,7 +33,7 @@ class stringCast {
   T operator()() const { return static_cast<T>(*this); }
 
  private:
-  const std::string &m_from;
+  const std::string m_from;
 };
 }  // namespace cuhksz
 #endif  // CUHKSZ_STRINGUTILS_STRINGCAST
-- 
2.43.0


From e420c949e2946c9cc1df8ccc18bf89a0f221c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:11 +0000
Subject: [PATCH 35/49] fix: JSON object keys were stored escaped and dumped
 unescaped

---
 src/json/Json.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 85e75ea..3ce2ab6 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -16,6 +16,8 @@ void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
 }
 
+std::string parse_text(const std::string &str, size_t &offset);
+
 JSONObject parse_object(const std::string &str, size_t &offset) {
   JSONObject Object = JSONObject::Build(JSONObject::Type::Object);
 
@@ -27,7 +29,12 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    skip_whitespaces(str, offset);
+    if (str[offset] != '\"') {
+      error("Object: Expected a string as key, found '" +
+            std::string(1, str[offset]) + "'");
+    }
+    std::string Key = parse_text(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -36,7 +43,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[Key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -85,8 +92,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_text(const std::string &str, size_t &offset) {
   std::string val;
   for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
     if (offset >= str.length() ||
@@ -143,7 +149,12 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     }
   }
   ++offset;
-  String = val;
+  return val;
+}
+
+JSONObject parse_string(const std::string &str, size_t &offset) {
+  JSONObject String;
+  String = parse_text(str, offset);
   return String;
 }
 
@@ -259,7 +270,8 @@ JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   }
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : "") =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -450,7 +462,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) +
+              "\" : " + p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 268505c3e60fea40ef99acfa22b1bf4d3bc5c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:13 +0000
Subject: [PATCH 36/49] fix: Trie remove read past the end of its arrays

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..ba4358d 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,7 +213,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From 0d6fc540a75e6aae740d85b63fb9ab7018d75e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:16 +0000
Subject: [PATCH 37/49] fix: Trie iteration left out elements

---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ba4358d..bad05dc 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From 2944062ec263068fdeb9efa28b2b3431af5a14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:11 +0000
Subject: [PATCH 38/49] fix: all Tries used the character mapping of the one
 constructed last

---
 src/include/string_utils/Trie.h | 23 ++++++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..08b4bdb 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -155,23 +155,25 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, int (*mapChar)(char),
+               std::size_t index = 0)
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -188,9 +190,12 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, mapChar); }
+    iterator end() {
+      return iterator(&underlying, mapChar, underlying.size());
+    }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index bad05dc..ed53e03 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From 9087ae9ac80bfbdb7640731b7b1673b870f9390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:18 +0000
Subject: [PATCH 39/49] fix: Trie lost characters mapped above 27

---
 src/string_utils/Trie.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index ed53e03..94a354d 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -73,7 +73,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; base.getWithCheck(*n) + *offset < check.size(); (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -254,8 +254,8 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
-    if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
+  for (int i = 1; base_n + i < check.size(); i++) {
+    if (check.get(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
 }
-- 
2.43.0


From 26500ea02f808b8bb7d9a19ffbfccdd54e73964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 40/49] fix: BigNum operator*= and abs could not be compiled
 when used

---
 src/include/math_utils/BigNum.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..cffa812 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -196,7 +196,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
@@ -295,12 +295,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     std::string s;
-- 
2.43.0


From 59318be4e11ef49ddb7b9fb5c7e30e7e7de7eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 41/49] fix: BigNum postfix operators returned a reference to a
 local variable

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index cffa812..df0e149 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -219,7 +219,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -230,7 +230,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
-- 
2.43.0


From 4a370e0078da4012e1ceb2fe9eb58b547ac99598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 42/49] fix: BigNum copies kept stale digits that later sums
 read

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index df0e149..3700a82 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From c90c2de85f1d2240755a3b70c941a91214ed0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 43/49] fix: BigNum sums and differences of negative numbers
 compared magnitudes the wrong way

---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 3700a82..4a596ac 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int greater = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? greater : -greater;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? greater : -greater;
     return 0;
   }
 
-- 
2.43.0


From b874733c4b8e3f0e56bcf0163e7b9f41acf36b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 44/49] fix: BigNum product ignored the sign of its second
 factor

---
 src/include/math_utils/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 4a596ac..6499018 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -292,7 +292,7 @@ class BigNum {
       ret[i] %= BigNum::base;
     }
     if (ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From 36a4de7a6050362dd7726d17fbc8d611c1752699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:03 +0000
Subject: [PATCH 45/49] fix: BigNum zero printed as nothing and did not equal
 "0" or its negation

---
 src/include/math_utils/BigNum.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 6499018..0a5e5f5 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -38,6 +38,8 @@ class BigNum {
     if ((s.size() - (s[0] == '-')) % BigNum::order)
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    while (len > 0 && !elem[len - 1]) len--;
+    if (len == 0) sign = 1;
   }
 
   BigNum(const BigNum& src) {
@@ -210,7 +212,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len > 0) ret.sign = -ret.sign;
     return ret;
   }
 
@@ -305,6 +307,7 @@ class BigNum {
   friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
+    if (len == 0) return "0";
     std::string s;
     if (sign < 0) s += "-";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
-- 
2.43.0


From 350c8de31cb5fc663c3a75a48e12c4629c2d5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:36 +0000
Subject: [PATCH 46/49] fix: BigNum wrote and read past its digits when a
 number filled them

---
 src/include/math_utils/BigNum.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 0a5e5f5..6fc0bd9 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -3,12 +3,15 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
 #include <string>
 #include <cstdint>
 
+#include "utils/error.h"
+
 namespace cuhksz {
 
 template <int MAX_SIZE>
@@ -24,8 +27,10 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
+    for (uint64_t i = x < 0 ? 0 - (uint64_t)x : x; i; i /= BigNum::base) {
+      checkSize(len + 1);
       elem[len++] = i % BigNum::base;
+    }
   }
 
   BigNum(const std::string& s) {
@@ -33,11 +38,15 @@ class BigNum {
     len = 0;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
     for (int i = s.size() - 1; i >= BigNum::order - 1 + (s[0] == '-');
-         i -= BigNum::order)
+         i -= BigNum::order) {
+      checkSize(len + 1);
       elem[len++] = std::stoi(s.substr(i - BigNum::order + 1, BigNum::order));
-    if ((s.size() - (s[0] == '-')) % BigNum::order)
+    }
+    if ((s.size() - (s[0] == '-')) % BigNum::order) {
+      checkSize(len + 1);
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    }
     while (len > 0 && !elem[len - 1]) len--;
     if (len == 0) sign = 1;
   }
@@ -253,10 +262,11 @@ class BigNum {
     for (int i = 0; i < ret.len; i++) ret[i] = a[i] + b[i];
     for (int i = 0; i < ret.len; i++)
       if (ret[i] >= BigNum::base) {
+        checkSize(i + 2);
         ret[i] -= BigNum::base;
         ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -285,15 +295,18 @@ class BigNum {
     if (a.len == 0 || b.len == 0) return ret;
 
     ret.len = a.len + b.len - 1;
+    checkSize(ret.len);
     for (int i = 0; i < a.len; i++)
       for (int j = 0; j < b.len; j++) {
         ret[i + j] += a[i] * b[j];
       }
     for (int i = 0; i < ret.len; i++) {
+      if (ret[i] < BigNum::base) continue;
+      checkSize(i + 2);
       ret[i + 1] += ret[i] / BigNum::base;
       ret[i] %= BigNum::base;
     }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign * b.sign;
     return ret;
   }
@@ -317,6 +330,10 @@ class BigNum {
   friend std::string toString(const BigNum& src) { return src.toString(); }
 
  private:
+  static void checkSize(int digits) {
+    if (digits > MAX_SIZE) error("BigNum has too many digits.");
+  }
+
   int elem[MAX_SIZE];
   int len;
   int sign;
-- 
2.43.0


From 330d62760dddc8f53b784a96b3fb522ba8ca9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 47/49] fix: Matrix reduce read an uninitialised value without
 columns

With no columns the search loop is never entered and the row it was to find
stayed uninitialised; depending on its value an element outside the matrix
was written.
---
 src/include/math_utils/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 2063c17..294bd2b 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -144,7 +144,7 @@ class Matrix {
   void reduce() {
     Matrix& A = *this;
     for (int i = 0, r = 0; i < row; i++) {
-      int nonZeroRow;
+      int nonZeroRow = -1;
       while (r < col) {
         nonZeroRow = -1;
         for (int j = i; j < row; j++)
-- 
2.43.0


From 074666e81df36b45cb9183b3efff59fd0ec4616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 48/49] fix: Matrix toString read an element of a matrix
 without columns

---
 src/include/math_utils/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 294bd2b..2620f5a 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -175,7 +175,7 @@ class Matrix {
     std::string s;
     const Matrix& A = *this;
     for (int i = 0; i < row; i++) {
-      s += std::to_string(A[i][0]);
+      if (col > 0) s += std::to_string(A[i][0]);
       for (int j = 1; j < col; j++) s += ", " + std::to_string(A[i][j]);
       s += "\n";
     }
-- 
2.43.0


From 9e232ce4041dd61617fc8a3c236f83acf310bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 49/49] fix: reading a Vector never ended at an element that
 cannot be read, and read an uninitialised character at the end of a stream

---
 src/include/containers/Vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..934c882 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -402,7 +402,7 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
-  char ch;
+  char ch = '\0';
   is >> ch;
   if (ch != '{') {
     error("A vector should startwith \'{\'");
@@ -414,6 +414,9 @@ std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
     while (true) {
       ValueType value;
       is >> value;
+      if (is.fail()) {
+        error("An element of a vector could not be read");
+      }
       vec.push(value);
       is >> ch;
       if (is.eof()) {
-- 
2.43.0

