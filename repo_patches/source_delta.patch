From 2525221a937fb5b9740def72c293d30ec3fbc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 01/53] fix: permute refuses lists that are not permutations
 and handles narrow index types

---
 .../aslam/calibration/algorithms/permute.tpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..73cdd57 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -5,6 +5,8 @@
 
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 
+#include <cstddef>
+
 #include <utility>
 
 namespace aslam {
@@ -20,11 +22,16 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+      std::vector<bool> used(container.size(), false);
+      for (size_t i = 0; i < permutation.size(); ++i) {
+        const size_t k = static_cast<size_t>(permutation[i]);
+        if (k >= container.size() || used[k])
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
-            container.size()), "permutation vector index out of bound",
+            container.size()), "permutation vector is not a permutation",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        used[k] = true;
+      }
+      for (size_t i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From 69f95c6d4579818c9c46f87d4fa52a2f2a6a73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/53] fix: Grid refuses negative or ill-sized indices,
 unusable ranges, and keeps points and centres in their cell

---
 .../calibration/data-structures/Grid.tpp      | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..5de5060 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -3,6 +3,10 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 
@@ -19,14 +23,28 @@ namespace aslam {
         mMinimum(minimum),
         mMaximum(maximum),
         mResolution(resolution) {
-      if ((resolution.array() <= 0).any())
+      if (resolution.size() != minimum.size() ||
+          maximum.size() != minimum.size())
+        throw BadArgumentException<Coordinate>(resolution,
+          "Grid<T, C, M>::Grid(): limits and resolution must have the same size",
+           __FILE__, __LINE__);
+      if (!(resolution.array() > 0).all())
         throw BadArgumentException<Coordinate>(resolution,
           "Grid<T, C, M>::Grid(): resolution must be strictly positive",
            __FILE__, __LINE__);
-      if ((minimum.array() >= maximum.array()).any())
+      if (!(minimum.array() < maximum.array()).all())
         throw BadArgumentException<Coordinate>(minimum,
           "Grid<T, C, M>::Grid(): minimum must be strictly smaller than maximum",
            __FILE__, __LINE__);
+      double numCellsTot = 1.0;
+      for (size_t i = 0; i < static_cast<size_t>(minimum.size()); ++i)
+        numCellsTot *= std::floor((static_cast<double>(maximum(i)) -
+          static_cast<double>(minimum(i))) /
+          static_cast<double>(resolution(i))) + 1;
+      if (!(numCellsTot <= std::numeric_limits<int>::max()))
+        throw BadArgumentException<Coordinate>(resolution,
+          "Grid<T, C, M>::Grid(): too many cells to be indexed",
+           __FILE__, __LINE__);
       if ((resolution.array() > (maximum - minimum).array()).any())
         throw BadArgumentException<Coordinate>(resolution,
           "Grid<T, C, M>::Grid(): resolution must be smaller than range",
@@ -178,7 +196,9 @@ namespace aslam {
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
         else
-          idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          // rounding may bring a point just below the maximum to the end
+          idx(i) = std::min<T>((point(i) - mMinimum(i)) / mResolution(i),
+            mNumCells(i) - 1);
       return idx;
     }
 
@@ -201,19 +221,23 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        // the offset is converted first: it is never negative
+        point[i] = mMinimum(i) + static_cast<T>((idx(i) + 0.5) *
+          mResolution(i));
       return point;
     }
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isInRange(const Coordinate& point) const {
-      return ((point.array() <= mMaximum.array()).all() &&
+      return (point.size() == mMinimum.size() &&
+        (point.array() <= mMaximum.array()).all() &&
         (point.array() >= mMinimum.array()).all());
     }
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return (idx.size() == mNumCells.size() &&
+        (idx.array() < mNumCells.array()).all() && (idx.array() >= 0).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From e2a14d89b5088770f4bc0994294d61984dca64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 03/53] fix: keep rotation and translation of a transformation
 in step with its matrix

---
 .../aslam/calibration/geometry/Transformation2d.tpp  | 12 ++++++++++++
 .../aslam/calibration/geometry/Transformation3d.tpp  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..ff9d749 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -14,12 +14,16 @@ namespace aslam {
 
     template <typename T>
     Transformation<T, 2>::Transformation() {
+      mTransformationMatrix.setIdentity();
+      mRotationMatrix.setIdentity();
+      mTranslationMatrix.setIdentity();
     }
 
     template <typename T>
     Transformation<T, 2>::Transformation(const Eigen::Matrix<double, 3, 3>&
         transformationMatrix) :
         mTransformationMatrix(transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -78,6 +82,12 @@ namespace aslam {
     void Transformation<T, 2>::setTransformationMatrix(const
         Eigen::Matrix<double, 3, 3>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() =
+        mTransformationMatrix.template topLeftCorner<2, 2>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        mTransformationMatrix.template topRightCorner<2, 1>();
     }
 
     template <typename T>
@@ -140,6 +150,8 @@ namespace aslam {
       mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
       mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        mTransformationMatrix.template topRightCorner<2, 1>();
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..7889f50 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -12,12 +12,16 @@ namespace aslam {
 
     template <typename T>
     Transformation<T, 3>::Transformation() {
+      mTransformationMatrix.setIdentity();
+      mRotationMatrix.setIdentity();
+      mTranslationMatrix.setIdentity();
     }
 
     template <typename T>
     Transformation<T, 3>::Transformation(const Eigen::Matrix<double, 4, 4>&
         transformationMatrix) :
         mTransformationMatrix(transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -77,6 +81,12 @@ namespace aslam {
     void Transformation<T, 3>::setTransformationMatrix(const
         Eigen::Matrix<double, 4, 4>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() =
+        mTransformationMatrix.template topLeftCorner<3, 3>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        mTransformationMatrix.template topRightCorner<3, 1>();
     }
 
     template <typename T>
@@ -145,6 +155,8 @@ namespace aslam {
       mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
       mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        mTransformationMatrix.template topRightCorner<3, 1>();
       return *this;
     }
 
-- 
2.43.0


From 4064696d83760a56173cf62226e989318a158df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 04/53] fix: make the histogram statistics compile and report
 the mode of integer histograms

---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..3c34abc 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,13 +54,13 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
         }
       }
-      return this->getCoordinates(modeIdx);
+      return this->getCoordinates(modeIdx).template cast<double>();
     }
 
     template <typename T, int M>
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From 11a450d4ef12623084aa1c744f88abbe61158554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 05/53] fix: uniform distributions report the moments of their
 actual support and refuse unusable ones

---
 .../statistics/UniformDistribution1v.tpp      | 15 +++++--
 .../statistics/UniformDistributionMv.tpp      | 42 +++++++++++++------
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..7a24905 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include "aslam/calibration/statistics/Randomizer.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 #include "aslam/calibration/exceptions/InvalidOperationException.h"
@@ -72,12 +74,19 @@ namespace aslam {
     template <typename X>
     void UniformDistribution<X>::setSupport(const RandomVariable& minSupport,
         const RandomVariable& maxSupport) {
-      if (minSupport >= maxSupport)
+      if (!(minSupport < maxSupport))
         throw BadArgumentException<RandomVariable>(minSupport,
           "UniformDistribution<X>::setSupport(): "
           "minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
+      if (static_cast<double>(maxSupport) - static_cast<double>(minSupport) +
+          std::numeric_limits<X>::is_integer >=
+          static_cast<double>(std::numeric_limits<X>::max()) + 1.0)
+        throw BadArgumentException<RandomVariable>(maxSupport,
+          "UniformDistribution<X>::setSupport(): "
+          "support area must be representable",
+          __FILE__, __LINE__);
       mMinSupport = minSupport;
       mMaxSupport = maxSupport;
       mSupportArea = Traits::template getSupportArea<RandomVariable, true>(
@@ -136,13 +145,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..8344f2b 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include "aslam/calibration/statistics/Randomizer.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 #include "aslam/calibration/exceptions/InvalidOperationException.h"
@@ -74,11 +76,20 @@ namespace aslam {
     template <typename X, int M>
     void UniformDistribution<X, M>::setSupport(const RandomVariable& minSupport,
         const RandomVariable& maxSupport) {
-      if ((minSupport.array() >= maxSupport.array()).any())
+      if (minSupport.size() != maxSupport.size() ||
+          !(minSupport.array() < maxSupport.array()).all())
         throw BadArgumentException<RandomVariable>(minSupport,
           "UniformDistribution<X, M>::setSupport(): minimum support must be "
           "smaller than maximum support",
           __FILE__, __LINE__);
+      if ((maxSupport.template cast<double>().array() -
+          minSupport.template cast<double>().array() +
+          std::numeric_limits<X>::is_integer).prod() >=
+          static_cast<double>(std::numeric_limits<X>::max()) + 1.0)
+        throw BadArgumentException<RandomVariable>(maxSupport,
+          "UniformDistribution<X, M>::setSupport(): support area must be "
+          "representable",
+          __FILE__, __LINE__);
       mMinSupport = minSupport;
       mMaxSupport = maxSupport;
       mSupportArea = Traits::template getSupportArea<X, true>(minSupport,
@@ -141,7 +152,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * mMinSupport.template cast<double>() +
+        0.5 * mMaxSupport.template cast<double>();
     }
 
     template <typename X, int M>
@@ -154,7 +166,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * mMinSupport.template cast<double>() +
+        0.5 * mMaxSupport.template cast<double>();
     }
 
     template <typename X, int M>
@@ -191,12 +204,13 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      const Eigen::Matrix<double, M, 1> range =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      covariance.diagonal() = range.array().square() / 12.0;
+      return covariance;
     }
 
     template <typename X, int M>
@@ -205,12 +219,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      const Eigen::Matrix<double, M, 1> range =
+        maxSupport.template cast<double>() - minSupport.template cast<double>();
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      covariance.diagonal() =
+        ((range.array() + 1.0).square() - 1.0) / 12.0;
+      return covariance;
     }
 
   }
-- 
2.43.0


From cdec0c1cb42196aeec05bc2fd91cac56b316ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 06/53] fix: normal distributions refuse singular or
 not-a-number covariances without changing, and do not overflow

---
 .../calibration/statistics/NormalDistributionMv.tpp  | 12 +++++++-----
 .../src/statistics/NormalDistribution1v.cpp          |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..77fabef 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,8 +101,9 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success ||
+          !transformation.matrixLLT().allFinite())
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -111,10 +112,11 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
-      mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-        log(mDeterminant);
+      mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) +
+        mTransformation.matrixLLT().diagonal().array().log().sum();
       mCovariance = covariance;
     }
 
@@ -170,7 +172,7 @@ namespace aslam {
     template <int M>
     double NormalDistribution<M>::KLDivergence(const NormalDistribution<M>&
         other) const {
-      return 0.5 * (log(other.mDeterminant / mDeterminant) +
+      return other.mNormalizer - mNormalizer + 0.5 * (
         (other.mPrecision * mCovariance).trace() - mMean.size() +
         ((mMean - other.mMean).transpose() * other.mPrecision *
         (mMean - other.mMean))(0, 0));
diff --git a/incremental_calibration/src/statistics/NormalDistribution1v.cpp b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
index 2236282..05ea9a2 100644
--- a/incremental_calibration/src/statistics/NormalDistribution1v.cpp
+++ b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
@@ -80,7 +80,7 @@ namespace aslam {
     }
 
     void NormalDistribution<1>::setVariance(Variance variance) {
-      if (variance <= 0.0)
+      if (!(variance > 0.0))
         throw BadArgumentException<Variance>(variance,
           "NormalDistribution::setVariance(): variance must be strictly bigger "
           "than 0",
-- 
2.43.0


From 687da6d6a28e337af5cb1bc142d222f5bcc3895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 07/53] fix: gamma and chi-square divergence, log density
 outside the support, quantile of one, median of few degrees

---
 .../statistics/GammaDistribution.tpp          | 23 +++++++++++++------
 .../src/statistics/ChiSquareDistribution.cpp  |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..f030bc6 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include <boost/math/distributions/gamma.hpp>
 
 #include "aslam/calibration/statistics/Randomizer.h"
@@ -20,7 +22,10 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) {
+    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) :
+        mShape(1),
+        mInvScale(1.0),
+        mNormalizer(0.0) {
       setShape(shape);
       setInvScale(invScale);
     }
@@ -75,7 +80,7 @@ namespace aslam {
 
     template <typename T>
     void GammaDistribution<T>::setShape(const T& shape) {
-      if (shape <= 0)
+      if (!(shape > 0))
         throw BadArgumentException<T>(shape,
           "GammaDistribution::setShape(): shape must be strictly positive",
           __FILE__, __LINE__);
@@ -90,7 +95,7 @@ namespace aslam {
 
     template <typename T>
     void GammaDistribution<T>::setInvScale(double invScale) {
-      if (invScale <= 0)
+      if (!(invScale > 0))
         throw BadArgumentException<double>(invScale,
           "GammaDistribution::setScale(): inverse scale must be "
           "strictly positive",
@@ -125,7 +130,9 @@ namespace aslam {
 
     template <typename T>
     double GammaDistribution<T>::logpdf(const RandomVariable& value) const {
-      if (value == 0 && mShape == T(1))
+      if (value < 0 || value == std::numeric_limits<double>::infinity())
+        return -std::numeric_limits<double>::infinity();
+      else if (value == 0 && mShape == T(1))
         return -mNormalizer;
       else
         return (mShape - 1) * log(value) - value * mInvScale - mNormalizer;
@@ -143,11 +150,13 @@ namespace aslam {
     template <typename T>
     typename GammaDistribution<T>::RandomVariable
         GammaDistribution<T>::invcdf(double probability) const {
-      if (probability < 0 || probability > 1)
+      if (!(probability >= 0 && probability <= 1))
         throw BadArgumentException<double>(probability,
           "GammaDistribution::invcdf(): probability must lie in [0, 1]",
           __FILE__, __LINE__);
-        return boost::math::quantile(boost::math::gamma_distribution<>(
+      if (probability == 1)
+        return std::numeric_limits<double>::infinity();
+      return boost::math::quantile(boost::math::gamma_distribution<>(
           mShape, 1.0 / mInvScale), probability);
     }
 
@@ -184,7 +193,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
diff --git a/incremental_calibration/src/statistics/ChiSquareDistribution.cpp b/incremental_calibration/src/statistics/ChiSquareDistribution.cpp
index a782e9b..a0fbe85 100644
--- a/incremental_calibration/src/statistics/ChiSquareDistribution.cpp
+++ b/incremental_calibration/src/statistics/ChiSquareDistribution.cpp
@@ -62,6 +62,8 @@ namespace aslam {
     }
 
     ChiSquareDistribution::Median ChiSquareDistribution::getMedian() const {
+      if (getDegrees() < 1e6)
+        return invcdf(0.5);
       return getDegrees() * pow(1.0 - 2.0 / (9 * getDegrees()), 3);
     }
 
-- 
2.43.0


From 58ee7e8dbca44184a2d024dcd21a0a61874753bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 08/53] fix: a seed fixes every later draw, whichever
 randomizers are created afterwards

---
 .../aslam/calibration/statistics/Randomizer.h | 27 ++++++++-
 .../calibration/statistics/Randomizer.tpp     | 55 +++++++++++++++----
 2 files changed, 70 insertions(+), 12 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..e1c997c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -11,6 +11,8 @@
 #ifndef ASLAM_CALIBRATION_STATISTICS_RANDOMIZER_H
 #define ASLAM_CALIBRATION_STATISTICS_RANDOMIZER_H
 
+#include <mutex>
+
 #include "aslam/calibration/base/Serializable.h"
 #include "aslam/calibration/utils/SizeTSupport.h"
 #include "aslam/calibration/tpl/IsReal.h"
@@ -19,6 +21,27 @@
 namespace aslam {
   namespace calibration {
 
+    /** The RandomSource class represents the one random source shared by all
+        the randomizers of the process, seeded from the clock on first use
+        \brief Shared random source
+      */
+    class RandomSource {
+    public:
+      /// Returns the source
+      static RandomSource& getInstance();
+      /// Seeds the source
+      void setSeed(unsigned int seed);
+      /// Returns the seed of the source
+      unsigned int getSeed() const;
+    private:
+      /// Seeds from the clock
+      RandomSource();
+      /// Seed of the source
+      unsigned int mSeed;
+      /// Protects the seed
+      mutable std::mutex mMutex;
+    };
+
     /** The Randomizer class implements random sampling from several
         distributions
         \brief Random sampling from distributions
@@ -45,8 +68,10 @@ namespace aslam {
       /** \name Constructors/destructor
         @{
         */
+      /// Constructs randomizer drawing from the source as it is
+      Randomizer();
       /// Constructs randomizer from seed
-      Randomizer(const T& seed = getSeed());
+      Randomizer(const T& seed);
       /// Copy constructor
       Randomizer(const Randomizer& other);
       /// Assignment operator
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..19e2c78 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -3,19 +3,52 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <cmath>
+#include <cstdlib>
+
 #include "aslam/calibration/base/Timestamp.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 
 namespace aslam {
   namespace calibration {
 
+/******************************************************************************/
+/* Shared source                                                              */
+/******************************************************************************/
+
+    inline RandomSource::RandomSource() {
+      const double time = Timestamp::now();
+      setSeed((time - floor(time)) * 1e6);
+    }
+
+    inline RandomSource& RandomSource::getInstance() {
+      static RandomSource source;
+      return source;
+    }
+
+    inline void RandomSource::setSeed(unsigned int seed) {
+      std::lock_guard<std::mutex> lock(mMutex);
+      mSeed = seed;
+      srandom(seed);
+    }
+
+    inline unsigned int RandomSource::getSeed() const {
+      std::lock_guard<std::mutex> lock(mMutex);
+      return mSeed;
+    }
+
 /******************************************************************************/
 /* Constructors and Destructor                                                */
 /******************************************************************************/
 
     template <typename T, int M>
-    Randomizer<T, M>::Randomizer(const T& seed) :
-        mSeed(seed) {
+    Randomizer<T, M>::Randomizer() :
+        mSeed(getSeed()) {
+    }
+
+    template <typename T, int M>
+    Randomizer<T, M>::Randomizer(const T& seed) {
+      setSeed(seed);
     }
 
     template <typename T, int M>
@@ -62,20 +95,20 @@ namespace aslam {
 
     template <typename T, int M>
     void Randomizer<T, M>::setSeed(const T& seed) {
+      // reduce to the range of the source, whatever the seed type
+      const double reduced = fmod(static_cast<double>(seed), 4294967296.0);
+      if (!std::isfinite(reduced))
+        throw BadArgumentException<T>(seed,
+          "Randomizer<T, M>::setSeed(): seed must be finite",
+          __FILE__, __LINE__);
       mSeed = seed;
-      srandom(seed);
+      RandomSource::getInstance().setSeed(
+        static_cast<unsigned int>(static_cast<long long>(reduced)));
     }
 
     template <typename T, int M>
     T Randomizer<T, M>::getSeed() {
-      static bool seeded = false;
-      if (!seeded) {
-        const double time = Timestamp::now();
-        const T seed = (time - floor(time)) * 1e6;
-        srandom(seed);
-        seeded = true;
-      }
-      return random();
+      return RandomSource::getInstance().getSeed();
     }
 
 /******************************************************************************/
-- 
2.43.0


From 8cee93c5ec7d8f29dee0b2fe4ba2cdb5a901e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 09/53] fix: random samplers stay in their support, terminate
 and follow their law for every sample type

---
 .../aslam/calibration/statistics/Randomizer.h |  9 ++
 .../calibration/statistics/Randomizer.tpp     | 90 ++++++++++++++-----
 2 files changed, 75 insertions(+), 24 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index e1c997c..1deb8c4 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -61,6 +61,12 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Maps u in [0, 1] to the support for real types
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z scale(double u, const Z& minSupport, const Z& maxSupport);
+        /// Maps u in [0, 1] to the support for integer types
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z scale(double u, const Z& minSupport, const Z& maxSupport);
       };
       /** @}
         */
@@ -114,6 +120,9 @@ namespace aslam {
         */
 
     protected:
+      /// Returns a real sample from [0, 1], whatever the type of the samples
+      static double sampleUnit();
+
       /** \name Stream methods
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 19e2c78..928226b 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -3,8 +3,10 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
+#include <limits>
 
 #include "aslam/calibration/base/Timestamp.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
@@ -115,29 +117,34 @@ namespace aslam {
 /* Methods                                                                    */
 /******************************************************************************/
 
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
+    }
+
     template <typename T, int M>
     T Randomizer<T, M>::sampleUniform(const T& minSupport, const T& maxSupport)
         const {
-      if (minSupport >= maxSupport)
+      if (!(minSupport < maxSupport))
         throw BadArgumentException<T>(minSupport,
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return Traits::template scale<T, true>(sampleUnit(), minSupport,
+        maxSupport);
     }
 
     template <typename T, int M>
     T Randomizer<T, M>::sampleNormal(const T& mean, const T& variance) const {
-      if (variance <= 0)
+      if (!(variance > 0))
         throw BadArgumentException<T>(variance,
           "Randomizer<T, M>::sampleNormal(): "
           "variance must be strictly positive",
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -148,7 +155,7 @@ namespace aslam {
     template <typename T, int M>
     size_t Randomizer<T, M>::sampleCategorical(const
         Eigen::Matrix<double, M, 1>& probabilities) const {
-      if (fabs(probabilities.sum() - 1.0) > 1e-12 ||
+      if (!(fabs(probabilities.sum() - 1.0) <= 1e-12) ||
           (probabilities.array() < 0).any())
         throw BadArgumentException<Eigen::Matrix<double, M, 1> >(
           probabilities,
@@ -156,27 +163,34 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = sampleUnit();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
-        if (u > sum)
+        if (u > sum || probabilities(i - 1) == 0)
           sum += probabilities(i);
         else
           return i - 1;
-      return probabilities.size() - 1;
+      // rounding of the sum: the last possible outcome
+      size_t last = probabilities.size() - 1;
+      while (probabilities(last) == 0)
+        --last;
+      return last;
     }
 
     template <typename T, int M>
     size_t Randomizer<T, M>::samplePoisson(double mean) const {
-      if (mean <= 0)
+      if (!(mean > 0 && mean <= std::numeric_limits<double>::max()))
         throw BadArgumentException<double>(mean,
           "Randomizer<T, M>::samplePoisson(): mean must be strictly positive",
           __FILE__, __LINE__);
-      const double l = exp(-mean);
       size_t k = 0;
+      // exp(-mean) underflows for large means: add up smaller ones
+      for (; mean > 500.0; mean -= 500.0)
+        k += samplePoisson(500.0);
+      const double l = exp(-mean);
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -184,14 +198,14 @@ namespace aslam {
 
     template <typename T, int M>
     double Randomizer<T, M>::sampleExponential(double rate) const {
-      if (rate <= 0)
+      if (!(rate > 0))
         throw BadArgumentException<double>(rate,
           "Randomizer<T, M>::sampleExponential(): "
           "rate must be strictly positive",
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -199,26 +213,29 @@ namespace aslam {
 
     template <typename T, int M>
     size_t Randomizer<T, M>::sampleGeometric(double probability) const {
-      if (probability <= 0.0 || probability > 1.0)
+      if (!(probability > 0.0 && probability <= 1.0))
         throw BadArgumentException<double>(probability,
           "Randomizer<T, M>::sampleGeometric(): success probability must be "
           "between 0 and 1",
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
-      return floor(log(u) / log(1 - probability));
+      const double failures = floor(log(u) / log1p(-probability));
+      if (failures >= static_cast<double>(std::numeric_limits<size_t>::max()))
+        return std::numeric_limits<size_t>::max();
+      return failures;
     }
 
     template <typename T, int M>
     double Randomizer<T, M>::sampleGamma(double shape, double invScale) const {
-      if (shape <= 0)
+      if (!(shape > 0 && shape <= std::numeric_limits<double>::max()))
         throw BadArgumentException<double>(shape,
           "Randomizer<T, M>::sampleGamma(): shape must be strictly positive",
           __FILE__, __LINE__);
-      if (invScale <= 0)
+      if (!(invScale > 0))
         throw BadArgumentException<double>(invScale,
           "Randomizer<T, M>::sampleGamma(): inverse scale must be strictly "
           "positive",
@@ -232,17 +249,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() >= pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
@@ -260,7 +277,32 @@ namespace aslam {
     template <typename T, int M>
     template <typename Z, typename IsInteger<Z>::Result::Numeric>
     Z Randomizer<T, M>::Traits::round(const double& value) {
-      return (Z)::round(value);
+      const double rounded = ::round(value);
+      if (rounded >= static_cast<double>(std::numeric_limits<Z>::max()))
+        return std::numeric_limits<Z>::max();
+      if (rounded <= static_cast<double>(std::numeric_limits<Z>::min()))
+        return std::numeric_limits<Z>::min();
+      return (Z)rounded;
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double u, const Z& minSupport, const Z&
+        maxSupport) {
+      const Z value = (1.0 - u) * minSupport + u * maxSupport;
+      return std::min(std::max(value, minSupport), maxSupport);
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double u, const Z& minSupport, const Z&
+        maxSupport) {
+      // every value of the support gets an equal share of [0, 1]
+      const double value = minSupport + floor(u *
+        (static_cast<double>(maxSupport) - minSupport + 1.0));
+      if (value >= static_cast<double>(maxSupport))
+        return maxSupport;
+      return std::max(static_cast<Z>(value), minSupport);
     }
 
   }
-- 
2.43.0


From b6bf94b6651cc87734ef56da0def296d811affff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 10/53] fix: timestamps before the epoch, dates of
 unrepresentable instants, thread-safe dates

---
 .../exceptions/BadArgumentException.h         |  1 +
 .../src/base/Timestamp.cpp                    | 54 ++++++++++++++-----
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/exceptions/BadArgumentException.h b/incremental_calibration/include/aslam/calibration/exceptions/BadArgumentException.h
index 1e284cd..b9e4b16 100644
--- a/incremental_calibration/include/aslam/calibration/exceptions/BadArgumentException.h
+++ b/incremental_calibration/include/aslam/calibration/exceptions/BadArgumentException.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 
+#include <sstream>
 #include <string>
 
 #include "aslam/calibration/exceptions/Exception.h"
diff --git a/incremental_calibration/src/base/Timestamp.cpp b/incremental_calibration/src/base/Timestamp.cpp
index 7dea3ba..5e7d804 100644
--- a/incremental_calibration/src/base/Timestamp.cpp
+++ b/incremental_calibration/src/base/Timestamp.cpp
@@ -7,9 +7,41 @@
 
 #include <sys/time.h>
 
+#include <cmath>
+#include <limits>
+
+#include "aslam/calibration/exceptions/BadArgumentException.h"
+
 namespace aslam {
   namespace calibration {
 
+    namespace {
+
+      /// Whole seconds at or before the given instant
+      time_t floorSeconds(double seconds) {
+        const double floored = std::floor(seconds);
+        const double limit = -static_cast<double>(
+          std::numeric_limits<time_t>::min());
+        if (!(floored >= -limit && floored < limit))
+          throw BadArgumentException<double>(seconds,
+            "Timestamp: instant cannot be represented", __FILE__, __LINE__);
+        return static_cast<time_t>(floored);
+      }
+
+      /// Formats a local date
+      std::string formatDate(time_t seconds, const char* format) {
+        struct tm tm;
+        tzset();
+        if (!localtime_r(&seconds, &tm))
+          throw BadArgumentException<time_t>(seconds,
+            "Timestamp::getDate(): instant has no date", __FILE__, __LINE__);
+        char timeString[40];
+        strftime(timeString, sizeof (timeString), format, &tm);
+        return std::string(timeString);
+      }
+
+    }
+
 /******************************************************************************/
 /* Constructors and Destructor                                                */
 /******************************************************************************/
@@ -70,21 +102,11 @@ namespace aslam {
     std::string Timestamp::getDate() {
       struct timeval time;
       gettimeofday(&time, 0);
-      struct tm* ptm;
-      ptm = localtime(&time.tv_sec);
-      char timeString[40];
-      strftime(timeString, sizeof (timeString), "%Y-%m-%d %H:%M:%S", ptm);
-      return std::string(timeString);
+      return formatDate(time.tv_sec, "%Y-%m-%d %H:%M:%S");
     }
 
     std::string Timestamp::getDate(double seconds) {
-      struct timeval time;
-      time.tv_sec = seconds;
-      struct tm* ptm;
-      ptm = localtime(&time.tv_sec);
-      char timeString[40];
-      strftime(timeString, sizeof (timeString), "%Y-%m-%d-%H-%M-%S", ptm);
-      return std::string(timeString);
+      return formatDate(floorSeconds(seconds), "%Y-%m-%d-%H-%M-%S");
     }
 
     Timestamp::operator double() const {
@@ -93,8 +115,12 @@ namespace aslam {
 
     Timestamp::operator timespec() const {
       timespec time;
-      time.tv_sec = (time_t)mSeconds;
-      time.tv_nsec = (mSeconds - (time_t)mSeconds) * 1e9;
+      time.tv_sec = floorSeconds(mSeconds);
+      time.tv_nsec = (mSeconds - time.tv_sec) * 1e9;
+      if (time.tv_nsec >= 1000000000) {
+        time.tv_sec++;
+        time.tv_nsec = 0;
+      }
       return time;
     }
 
-- 
2.43.0


From cde78bcb3b21705d886517ec38d0337cf0315c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 11/53] fix: maximum-likelihood estimators neither cancel at
 large offsets nor read an empty weighted batch

---
 .../statistics/EstimatorMLNormal1v.h          |  8 ++---
 .../statistics/EstimatorMLNormalMv.h          |  8 ++---
 .../statistics/EstimatorMLNormalMv.tpp        | 30 +++++++++++--------
 .../src/statistics/EstimatorMLNormal1v.cpp    | 29 +++++++++---------
 4 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormal1v.h b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormal1v.h
index 315d5c4..167e92c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormal1v.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormal1v.h
@@ -98,10 +98,10 @@ namespace aslam {
       size_t mNumPoints;
       /// Valid flag
       bool mValid;
-      /// Sum of the values
-      double mValuesSum;
-      /// Squared sum of the values
-      double mSquaredValuesSum;
+      /// Running mean of the values
+      double mMean;
+      /// Sum of the squared deviations from the mean
+      double mSquaredDeviationsSum;
       /** @}
         */
 
diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.h b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.h
index 7f6e301..2aa4fc0 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.h
@@ -106,10 +106,10 @@ namespace aslam {
       size_t mNumPoints;
       /// Valid flag
       bool mValid;
-      /// Sum of the values
-      Eigen::Matrix<double, M, 1> mValuesSum;
-      /// Squared sum of the values
-      Eigen::Matrix<double, M, M> mSquaredValuesSum;
+      /// Running mean of the values
+      Eigen::Matrix<double, M, 1> mMean;
+      /// Sum of the squared deviations from the mean
+      Eigen::Matrix<double, M, M> mSquaredDeviationsSum;
       /** @}
         */
 
diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
index 9ebbaeb..c56e0c0 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
@@ -23,8 +23,8 @@ namespace aslam {
         mDistribution(other.mDistribution),
         mNumPoints(other.mNumPoints),
         mValid(other.mValid),
-        mValuesSum(other.mValuesSum),
-        mSquaredValuesSum(other.mSquaredValuesSum) {
+        mMean(other.mMean),
+        mSquaredDeviationsSum(other.mSquaredDeviationsSum) {
     }
 
     template <int M>
@@ -35,8 +35,8 @@ namespace aslam {
         mDistribution = other.mDistribution;
         mNumPoints = other.mNumPoints;
         mValid = other.mValid;
-        mValuesSum = other.mValuesSum;
-        mSquaredValuesSum = other.mSquaredValuesSum;
+        mMean = other.mMean;
+        mSquaredDeviationsSum = other.mSquaredDeviationsSum;
       }
       return *this;
     }
@@ -99,20 +99,20 @@ namespace aslam {
     template <int M>
     void EstimatorML<NormalDistribution<M> >::addPoint(const Point& point) {
       if (mNumPoints == 0) {
-        mValuesSum = Eigen::Matrix<double, M, 1>::Zero(point.size());
-        mSquaredValuesSum = Eigen::Matrix<double, M, M>::Zero(point.size(),
+        mMean = Eigen::Matrix<double, M, 1>::Zero(point.size());
+        mSquaredDeviationsSum = Eigen::Matrix<double, M, M>::Zero(point.size(),
           point.size());
       }
       mNumPoints++;
-      mValuesSum += point;
-      mSquaredValuesSum += OuterProduct::compute<double, M>(point);
+      // running update: differences of large sums would cancel
+      const Eigen::Matrix<double, M, 1> deviation = point - mMean;
+      mMean += deviation / mNumPoints;
+      mSquaredDeviationsSum += OuterProduct::compute<double, M>(deviation) *
+        ((mNumPoints - 1.0) / mNumPoints);
       try {
         mValid = true;
-        const Eigen::Matrix<double, M, 1> mean = mValuesSum / mNumPoints;
-        mDistribution.setMean(mean);
-        mDistribution.setCovariance(mSquaredValuesSum / mNumPoints -
-          OuterProduct::compute<double, M>(mValuesSum) * 2 /
-          (mNumPoints * mNumPoints) + OuterProduct::compute<double, M>(mean));
+        mDistribution.setMean(mMean);
+        mDistribution.setCovariance(mSquaredDeviationsSum / mNumPoints);
       }
       catch (...) {
         mValid = false;
@@ -138,6 +138,10 @@ namespace aslam {
         Eigen::Matrix<double, Eigen::Dynamic, 1>& responsibilities) {
       if (responsibilities.size() != itEnd - itStart)
         return;
+      if (itStart == itEnd) {
+        mValid = false;
+        return;
+      }
       Eigen::Matrix<double, M, 1> mean =
         Eigen::Matrix<double, M, 1>::Zero(itStart->size());
       for (auto it = itStart; it != itEnd; ++it)
diff --git a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
index d085f65..628828a 100644
--- a/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
+++ b/incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp
@@ -15,16 +15,16 @@ namespace aslam {
     EstimatorML<NormalDistribution<1> >::EstimatorML() :
         mNumPoints(0),
         mValid(false),
-        mValuesSum(0),
-        mSquaredValuesSum(0) {
+        mMean(0),
+        mSquaredDeviationsSum(0) {
     }
 
     EstimatorML<NormalDistribution<1> >::EstimatorML(const EstimatorML& other) :
         mDistribution(other.mDistribution),
         mNumPoints(other.mNumPoints),
         mValid(other.mValid),
-        mValuesSum(other.mValuesSum),
-        mSquaredValuesSum(other.mSquaredValuesSum) {
+        mMean(other.mMean),
+        mSquaredDeviationsSum(other.mSquaredDeviationsSum) {
     }
 
     EstimatorML<NormalDistribution<1> >&
@@ -34,8 +34,8 @@ namespace aslam {
         mDistribution = other.mDistribution;
         mNumPoints = other.mNumPoints;
         mValid = other.mValid;
-        mValuesSum = other.mValuesSum;
-        mSquaredValuesSum = other.mSquaredValuesSum;
+        mMean = other.mMean;
+        mSquaredDeviationsSum = other.mSquaredDeviationsSum;
       }
       return *this;
     }
@@ -84,21 +84,20 @@ namespace aslam {
     void EstimatorML<NormalDistribution<1> >::reset() {
       mNumPoints = 0;
       mValid = false;
-      mValuesSum = 0;
-      mSquaredValuesSum = 0;
+      mMean = 0;
+      mSquaredDeviationsSum = 0;
     }
 
     void EstimatorML<NormalDistribution<1> >::addPoint(const Point& point) {
       mNumPoints++;
-      mValuesSum += point;
-      mSquaredValuesSum += point * point;
+      // running update: differences of large sums would cancel
+      const double deviation = point - mMean;
+      mMean += deviation / mNumPoints;
+      mSquaredDeviationsSum += deviation * (point - mMean);
       try {
         mValid = true;
-        const double mean = mValuesSum / mNumPoints;
-        mDistribution.setMean(mean);
-        mDistribution.setVariance(mSquaredValuesSum / mNumPoints -
-          mValuesSum * mValuesSum * 2 / (mNumPoints * mNumPoints) +
-          mean * mean);
+        mDistribution.setMean(mMean);
+        mDistribution.setVariance(mSquaredDeviationsSum / mNumPoints);
       }
       catch (...) {
         mValid = false;
-- 
2.43.0


From cca0d0777f42041146aa613335fc4ce6cb3caa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 12/53] fix: the density of a multivariate normal is zero, not
 undefined, far from its mean

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index 77fabef..7dcf623 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -181,8 +181,8 @@ namespace aslam {
     template <int M>
     double NormalDistribution<M>::mahalanobisDistance(const RandomVariable& 
         value) const {
-      return ((value - mMean).transpose() * mPrecision *
-        (value - mMean))(0, 0);
+      // a sum of squares, which cannot cancel for far values
+      return mTransformation.matrixL().solve(value - mMean).squaredNorm();
     }
 
     template <int M>
-- 
2.43.0


From 4242cfca7018f1e124c47a4f29eb6776f5716573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 13/53] fix: complete the Eigen traits of size_t so that
 multivariate estimators compile

---
 .../include/aslam/calibration/utils/SizeTSupport.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
index b7c3a25..40c27b4 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
@@ -19,7 +19,8 @@ namespace Eigen {
   /** The NumTraits<size_t> structure defines support for size_t type in Eigen.
       \brief Eigen support for size_t
     */
-  template<> struct NumTraits<size_t> {
+  template<> struct NumTraits<size_t> :
+    GenericNumTraits<size_t> {
     /// Real definition
     typedef size_t Real;
     /// Floating point definition
-- 
2.43.0


From c212d1d0323cdac922174e6e7b90f0051aab452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 14/53] fix: sine wave path of exactly the requested number of
 steps

Accumulating the time in floating point could give one step too many, and
zero steps gave one.
---
 .../src/2dlrf/utils.cpp                                    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
index 3263ec7..8cf8e16 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
@@ -16,10 +16,15 @@ namespace aslam {
         size_t steps, double amplitude, double frequency, double T) {
       u.clear();
       u.reserve(steps);
+      if (steps == 0)
+        return;
       u.push_back(Eigen::Matrix<double, 3, 1>::Zero());
       std::vector<double> cost;
-      for (double t = 0; t < steps * T; t += T)
+      cost.reserve(steps);
+      for (size_t i = 0; i < steps; ++i) {
+        const double t = i * T;
         cost.push_back(amplitude * cos(2 * M_PI * frequency * t));
+      }
       double theta = 0;
       for (size_t i = 1; i < cost.size(); ++i) {
         const double theta_new = atan(cost[i]);
-- 
2.43.0


From ee65e05f4f04ce920ca151cd82a633cc50d2042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 15/53] fix: indices of problems far out of bounds are refused
 instead of wrapping around

---
 .../src/core/IncrementalOptimizationProblem.cpp          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..edb7b1f 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -62,11 +62,17 @@ namespace aslam {
 
     const OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) const {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.cbegin() + idx);
     }
 
     OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.begin() + idx);
     }
 
@@ -249,6 +255,9 @@ namespace aslam {
     }
 
     void IncrementalOptimizationProblem::remove(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       remove(_optimizationProblems.begin() + idx);
     }
 
-- 
2.43.0


From 6a0424769b2a7bf38eb747f76cbaf1af13a6eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 16/53] fix: a problem refused by the incremental problem
 leaves it unchanged

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index edb7b1f..a233d38 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -181,8 +181,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // refuse the problem before anything is changed
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        const size_t groupId = problem->getGroupId(dv);
+        if (isDesignVariableInProblem(dv) && getGroupId(dv) != groupId)
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -194,21 +210,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From f9ab342d83c102f18c10f8c7bb4089099a86c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 17/53] fix: clearing the incremental problem forgets the saved
 design variables

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index a233d38..a536ff3 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -269,6 +269,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From 718a9042b581e392ef795ebab2976194d7b3ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 18/53] fix: a batch or removal leaving no marginalized
 variables is refused without effect

addBatch and removeBatch of the incremental estimator threw after having
already changed the problem.
---
 .../src/core/IncrementalEstimator.cpp         | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..9065906 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -18,6 +18,7 @@
 
 
 #include "aslam/calibration/core/IncrementalOptimizationProblem.h"
+#include "aslam/calibration/core/OptimizationProblem.h"
 #include "aslam/calibration/base/Timestamp.h"
 #include "aslam/calibration/exceptions/InvalidOperationException.h"
 
@@ -325,7 +326,14 @@ namespace aslam {
       _problem->add(problem);
 
       // ensure marginalized design variables are well located
-      orderMarginalizedDesignVariables();
+      try {
+        orderMarginalizedDesignVariables();
+      }
+      catch (...) {
+        // the batch is refused, the problem stays as it was
+        _problem->remove(problem);
+        throw;
+      }
 
       // save design variables in case the batch is rejected
       if (!force)
@@ -452,6 +460,20 @@ namespace aslam {
     }
 
     void IncrementalEstimator::removeBatch(size_t idx) {
+      // marginalized design variables should remain without the batch
+      if (idx < _problem->getNumOptimizationProblems()) {
+        bool margGroupRemains = false;
+        for (size_t i = 0; i < _problem->getNumOptimizationProblems(); ++i)
+          if (i != idx && _problem->getOptimizationProblem(i)->
+              isGroupInProblem(_margGroupId))
+            margGroupRemains = true;
+        if (!margGroupRemains)
+          throw InvalidOperationException(
+            "IncrementalEstimator::removeBatch(): "
+            "marginalized group ID should remain in the problem", __FILE__,
+            __LINE__);
+      }
+
       // remove the batch
       _problem->remove(idx);
 
-- 
2.43.0


From cdcba7941822ca4d0feff628cb06b96adc09786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 19/53] fix: the mode of a histogram without comparable cells
 no longer reads an uninitialized index

---
 .../include/aslam/calibration/statistics/Histogram1v.tpp        | 2 +-
 .../include/aslam/calibration/statistics/HistogramMv.tpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index bf3373c..529297b 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -65,7 +65,7 @@ namespace aslam {
     template <typename T>
     double Histogram<T, 1>::getMode() const {
       double max = -std::numeric_limits<double>::infinity();
-      Index modeIdx;
+      Index modeIdx = Index::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
           this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 3c34abc..ed353c0 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -52,7 +52,7 @@ namespace aslam {
     template <typename T, int M>
     typename Histogram<T, M>::Mode Histogram<T, M>::getMode() const {
       double max = -std::numeric_limits<double>::infinity();
-      Index modeIdx;
+      Index modeIdx = Index::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
           this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
-- 
2.43.0


From b803c3d5dfa604db9199a29af4312774778d752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 20/53] fix: the representability of a uniform support is
 judged without rounding

---
 .../calibration/statistics/UniformDistribution1v.tpp      | 5 +++--
 .../calibration/statistics/UniformDistributionMv.tpp      | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 7a24905..6d27780 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -80,9 +80,10 @@ namespace aslam {
           "minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      if (static_cast<double>(maxSupport) - static_cast<double>(minSupport) +
+      if (static_cast<long double>(maxSupport) -
+          static_cast<long double>(minSupport) +
           std::numeric_limits<X>::is_integer >=
-          static_cast<double>(std::numeric_limits<X>::max()) + 1.0)
+          static_cast<long double>(std::numeric_limits<X>::max()) + 1.0)
         throw BadArgumentException<RandomVariable>(maxSupport,
           "UniformDistribution<X>::setSupport(): "
           "support area must be representable",
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index 8344f2b..d3bc7b0 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -82,10 +82,10 @@ namespace aslam {
           "UniformDistribution<X, M>::setSupport(): minimum support must be "
           "smaller than maximum support",
           __FILE__, __LINE__);
-      if ((maxSupport.template cast<double>().array() -
-          minSupport.template cast<double>().array() +
+      if ((maxSupport.template cast<long double>().array() -
+          minSupport.template cast<long double>().array() +
           std::numeric_limits<X>::is_integer).prod() >=
-          static_cast<double>(std::numeric_limits<X>::max()) + 1.0)
+          static_cast<long double>(std::numeric_limits<X>::max()) + 1.0)
         throw BadArgumentException<RandomVariable>(maxSupport,
           "UniformDistribution<X, M>::setSupport(): support area must be "
           "representable",
@@ -192,7 +192,7 @@ namespace aslam {
     Z UniformDistribution<X, M>::Traits::getSupportArea(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      double supportArea = 1;
+      long double supportArea = 1;
       for (size_t i = 0; i < (size_t)minSupport.size(); ++i)
         supportArea *= maxSupport(i) - minSupport(i) + 1;
       return supportArea;
-- 
2.43.0


From f20fd098571ec087ff63eff3cd8e02a95723d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 21/53] fix: the log diagonal of a matrix with fewer rows than
 columns stays inside it

---
 .../include/aslam/calibration/algorithms/matrixOperations.tpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp b/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
index beae34a..545f5f3 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/matrixOperations.tpp
@@ -33,6 +33,9 @@ namespace aslam {
       // NOTE: What about checking the form of R? Upper triangular matrix
       double sumLogDiagR = 0;
       for (size_t i = colBegin; i <= colEnd; ++i) {
+        // a column past the last row has no diagonal element
+        if (i >= static_cast<size_t>(R.rows()))
+          break;
         const double value = R(i, i);
         if (std::fabs(value) > std::numeric_limits<double>::epsilon())
           sumLogDiagR += std::log2(std::fabs(value));
-- 
2.43.0


From 65e0cc740f4768ee54dbe1a79a1933e1afc53170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 22/53] fix: a grid whose range its coordinates cannot
 represent is refused

---
 .../aslam/calibration/data-structures/Grid.tpp      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 5de5060..3c98afc 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -45,6 +45,19 @@ namespace aslam {
         throw BadArgumentException<Coordinate>(resolution,
           "Grid<T, C, M>::Grid(): too many cells to be indexed",
            __FILE__, __LINE__);
+      for (size_t i = 0; i < static_cast<size_t>(minimum.size()); ++i) {
+        // the range and the coordinates of the last cell have to fit in T
+        const long double range = static_cast<long double>(maximum(i)) -
+          static_cast<long double>(minimum(i));
+        const long double last = (std::floor(range / resolution(i)) + 0.5l) *
+          resolution(i);
+        const long double limit = std::numeric_limits<T>::max();
+        if (!(range <= limit) || (std::numeric_limits<T>::is_integer &&
+            (last > limit || minimum(i) + last > limit)))
+          throw BadArgumentException<Coordinate>(maximum,
+            "Grid<T, C, M>::Grid(): range must be representable",
+            __FILE__, __LINE__);
+      }
       if ((resolution.array() > (maximum - minimum).array()).any())
         throw BadArgumentException<Coordinate>(resolution,
           "Grid<T, C, M>::Grid(): resolution must be smaller than range",
-- 
2.43.0


From dc1b0f952d7209ae96154e9985865853325fbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 23/53] fix: the log-gamma function leaves the global sign of
 the C library alone

---
 .../include/aslam/calibration/functions/LogGammaFunction.tpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/functions/LogGammaFunction.tpp b/incremental_calibration/include/aslam/calibration/functions/LogGammaFunction.tpp
index 8b39573..6400423 100644
--- a/incremental_calibration/include/aslam/calibration/functions/LogGammaFunction.tpp
+++ b/incremental_calibration/include/aslam/calibration/functions/LogGammaFunction.tpp
@@ -65,8 +65,10 @@ namespace aslam {
     template <typename X>
     double LogGammaFunction<X>::getValue(const VariableType& argument) const {
       double sum = 0.0;
+      int sign;
       for (size_t i = 0; i < mDim; ++i) {
-        sum += lgamma(argument - 0.5 * i);
+        // unlike lgamma, keeps the sign out of a global variable
+        sum += lgamma_r(argument - 0.5 * i, &sign);
       }
       return sum + mDim * (mDim - 1) * 0.25 * log(M_PI);
     }
-- 
2.43.0


From 6bdeaf703dfcb5342b481bcaec0fa0f954092809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 24/53] fix: error terms weight by the covariance set through
 the setter

setCovariance()/setVariance() stored the new value for the getter only; the
residual kept being weighted by the one given at construction.
---
 .../src/2dlrf/ErrorTermMotion.cpp                              | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 7 files changed, 9 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..506d04f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..71019e0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 9c3d70e1dd4edc0030d3cc1db93683d781f75271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 25/53] fix: motion error term compares headings modulo a full
 turn

The simulations keep headings in (-pi, pi], so two neighbouring poses on
either side of pi gave a turn-rate residual of 2*pi/T.
---
 .../src/2dlrf/ErrorTermMotion.cpp                            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 7e5ba1c..03f1003 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -102,8 +102,9 @@ namespace aslam {
       B(0, 1) = sin((_xkm1->getValue())(2));
       B(1, 0) = -sin((_xkm1->getValue())(2));
       B(1, 1) = cos((_xkm1->getValue())(2));
-      error_t error = _uk -
-        (1 / _T * B * (_xk->getValue() - _xkm1->getValue()));
+      Eigen::Matrix<double, 3, 1> diff = _xk->getValue() - _xkm1->getValue();
+      diff(2) = sm::kinematics::angleMod(diff(2));
+      error_t error = _uk - (1 / _T * B * diff);
       setError(error);
       return evaluateChiSquaredError();
     }
-- 
2.43.0


From 87b051865d161974813d40e18a3cd906c9669806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 26/53] fix: front wheel error term for a wheel rolling
 backwards or standing

The residual was not a number without forward speed, and the Jacobian with
respect to the velocity had the wrong sign for a wheel rolling backwards.
---
 .../src/error-terms/ErrorTermWheel.cpp            | 15 ++++++++-------
 .../src/error-terms/ErrorTermWheel.cpp            | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 506d04f..f8b33db 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -97,8 +97,8 @@ namespace aslam {
       const double v2 = _v_v_mw.toValue()(2);
       const double k = _k.toScalar();
       if (_frontEnabled) {
-        const double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        error(0) = _measurement - k * (v0 / temp + v1 * v1 / (v0 * temp));
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        error(0) = _measurement - k * speed;
         error(1) = 0.0;
         error(2) = -v2;
       }
@@ -120,12 +120,13 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
-        J_v_v_mw(0, 0) = k * v0 / temp1;
-        J_v_v_mw(0, 1) = k * v1 / temp1;
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        if (speed != 0.0) {
+          J_v_v_mw(0, 0) = k * v0 / speed;
+          J_v_v_mw(0, 1) = k * v1 / speed;
+        }
         J_v_v_mw(1, 1) = 0.0;
-        const double temp2 = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        J_k(0, 0) = (v0 / temp2 + v1 * v1 / (v0 * temp2));
+        J_k(0, 0) = speed;
       }
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
       _k.evaluateJacobians(jacobians, -J_k);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 71019e0..f222dee 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -97,8 +97,8 @@ namespace aslam {
       const double v2 = _v_v_mw.toValue()(2);
       const double k = _k.toScalar();
       if (_frontEnabled) {
-        const double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        error(0) = _measurement - k * (v0 / temp + v1 * v1 / (v0 * temp));
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        error(0) = _measurement - k * speed;
         error(1) = 0.0;
         error(2) = -v2;
       }
@@ -120,12 +120,13 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
-        J_v_v_mw(0, 0) = k * v0 / temp1;
-        J_v_v_mw(0, 1) = k * v1 / temp1;
+        const double speed = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
+        if (speed != 0.0) {
+          J_v_v_mw(0, 0) = k * v0 / speed;
+          J_v_v_mw(0, 1) = k * v1 / speed;
+        }
         J_v_v_mw(1, 1) = 0.0;
-        const double temp2 = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        J_k(0, 0) = (v0 / temp2 + v1 * v1 / (v0 * temp2));
+        J_k(0, 0) = speed;
       }
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
       _k.evaluateJacobians(jacobians, -J_k);
-- 
2.43.0


From 469a0234ef6b799ae1c2f745399ca5a15dafe8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 27/53] fix: steering Jacobian is defined without forward speed

---
 .../src/error-terms/ErrorTermSteering.cpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index e64acb6..68bff76 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -114,8 +114,8 @@ namespace aslam {
       jacobians.add(_params, J_a);
       Eigen::Matrix<double, 1, 3> J_v_v_mw =
         Eigen::Matrix<double, 1, 3>::Zero();
-      J_v_v_mw(0, 0) = -v1 / (v0 * v0 * (v1 * v1 / (v0 * v0) + 1));
-      J_v_v_mw(0, 1) = 1 / (v0 * (v1 * v1 / (v0 * v0) + 1));
+      J_v_v_mw(0, 0) = -v1 / (v0 * v0 + v1 * v1);
+      J_v_v_mw(0, 1) = v0 / (v0 * v0 + v1 * v1);
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
     }
 
-- 
2.43.0


From 757c9dfd35f2ba7ca660a349af354f40c0f2c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 28/53] fix: the car parameter vector keeps the last steering
 coefficient

getParameters() wrote the time delay of the DMI over position 11 and left
position 21 uninitialized.
---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From 581e7aae29823b81a70354fc471b80e1d3f79bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 29/53] fix: calibrator options read from a tree start from the
 defaults

The default of transSplineOrder was read from the uninitialized member.
---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..ffda2eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -44,7 +44,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) {
+    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) :
+        CarCalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       usePose = config.getBool("usePose");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..d196bb2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -28,7 +28,8 @@ namespace aslam {
         referenceSensor(0) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..ba8fdd2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From f921f0435265faac91ae0aaa020710af780bebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:38 +0000
Subject: [PATCH 30/53] fix: trajectory parameters read from a tree start from
 the defaults

The default of transSplineOrder was read from the uninitialized member.
---
 .../src/simulation/TrajectoryParams.cpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..c86a279 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         rotSplineOrder(4) {
     }
 
-    TrajectoryParams::TrajectoryParams(const PropertyTree& config) {
+    TrajectoryParams::TrajectoryParams(const PropertyTree& config) :
+        TrajectoryParams() {
       A = config.getDouble("A");
       f = config.getDouble("f");
       const EulerAnglesYawPitchRoll ypr;
-- 
2.43.0


From b0218c1763a75e0f113b75d8f9996ceee6465caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 31/53] fix: rear wheel error terms use the rear wheel
 variances

They were weighted by the front wheel variances; the configured rear wheel
variances had no effect.
---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0


From 9004bb659443a290ca97c82dcb37dd6401741a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 32/53] fix: predicted wheel speeds agree with the wheel error
 terms

The front wheel prediction of the car was not a number for a wheel without
forward speed; the time-delay example predicted its (unsteered) wheels with
the model of a steered one.
---
 .../src/algo/CarCalibrator.cpp                            | 6 ++----
 .../src/algo/Calibrator.cpp                               | 8 ++------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 0f2443e..40d890a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -825,14 +825,12 @@ namespace aslam {
         double v0 = v_v_mw_l.toValue()(0);
         double v1 = v_v_mw_l.toValue()(1);
         double k = _odometryDesignVariables->k_fl->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedsMeasurement data;
-        data.left = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.left = k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         v0 = v_v_mw_r.toValue()(0);
         v1 = v_v_mw_r.toValue()(1);
         k = _odometryDesignVariables->k_fr->toScalar();
-        temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
-        data.right = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.right = k * std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         _frontWheelSpeedsMeasurementsPred.push_back(std::make_pair(
           timestampDelay.toScalar().getNumerator(), data));
         Eigen::Matrix<double, 6, 1> error;
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 5869d1e..b5a5ded 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -501,11 +501,9 @@ namespace aslam {
         auto sr_l = e_lw->evaluateError();
         auto error_l = e_lw->error();
         double v0 = v_v_wl.toValue()(0);
-        double v1 = v_v_wl.toValue()(1);
         double k = _odometryDesignVariables->k_l->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = k * v0;
         _leftWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _leftWheelSpeedMeasurementsPredErrors.push_back(error_l);
@@ -601,11 +599,9 @@ namespace aslam {
         auto sr_r = e_rw->evaluateError();
         auto error_r = e_rw->error();
         double v0 = v_v_wr.toValue()(0);
-        double v1 = v_v_wr.toValue()(1);
         double k = _odometryDesignVariables->k_r->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = k * v0;
         _rightWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _rightWheelSpeedMeasurementsPredErrors.push_back(error_r);
-- 
2.43.0


From febde0172438c30ad88c709ffee47c557ac9ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 33/53] fix: a window without reference motion keeps
 accumulating

addMeasurements() threw std::out_of_range out of addMotionMeasurement(), which
lost the measurement being added, and of every later one.
---
 .../src/algo/Calibrator.cpp                                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index a49d45a..5d8e8aa 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -98,6 +98,10 @@ namespace aslam {
     }
 
     void Calibrator::addMeasurements() {
+      if (motionMeasurements_.find(options_.referenceSensor) ==
+          motionMeasurements_.end())
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       initSplines(options_.referenceSensor);
       batch->addSpline(translationSpline_, 0);
-- 
2.43.0


From 3e56cdfc10a4ba5dbc4d3bfc93117067e2f35831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 34/53] fix: predicting does not advance the trajectory start
 of the next window

The pose at the end of the predicted measurements was kept as the start of the
next spline, although they are still pending.
---
 .../src/algo/Calibrator.cpp                                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index 5d8e8aa..05801eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -76,7 +76,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      const auto prevTransformation = prevTransformation_;
       initSplines(options_.referenceSensor);
+      prevTransformation_ = prevTransformation;
       for (const auto& measurements : motionMeasurements_)
         predictMotion(measurements.first);
     }
-- 
2.43.0


From a03242c832bd87c880167e682d76d8d7b446ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 35/53] fix: no prediction without poses to fit the trajectory
 to

predict() read the last element of an empty vector; with fewer than two poses
there is no trajectory, as addMeasurements() already knows.
---
 .../src/algo/CarCalibrator.cpp                                 | 3 +++
 .../src/algo/Calibrator.cpp                                    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 40d890a..384ae05 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -286,6 +286,9 @@ namespace aslam {
     }
 
     void CarCalibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       initSplines(_poseMeasurements);
       predictPoses(_poseMeasurements);
       predictVelocities(_velocitiesMeasurements);
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index b5a5ded..32ef6ae 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -208,6 +208,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       _odometryDesignVariables->addToBatch(batch, 1);
       initSplines(_poseMeasurements);
-- 
2.43.0


From d5bb02139b6a6abeadc3f6e02331c072fcc108fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 36/53] fix: no prediction without reference motion

---
 .../src/algo/Calibrator.cpp                                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index 05801eb..632a22e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -76,6 +76,10 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (motionMeasurements_.find(options_.referenceSensor) ==
+          motionMeasurements_.end())
+        return;
+
       const auto prevTransformation = prevTransformation_;
       initSplines(options_.referenceSensor);
       prevTransformation_ = prevTransformation;
-- 
2.43.0


From d71f63d49c28d3cdc1e7f720c4abd9ac1f0c5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 37/53] fix: the stages of the combined motion follow one
 another without a jump

---
 .../src/simulation/simulationEngine.cpp                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
index 5bf0ef6..f8e6205 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
@@ -76,9 +76,11 @@ namespace aslam {
         }
 
         // sinePlanar
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         auto lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f *
+          lastTimestamp));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp, A * sin(2 * M_PI * f *
+          lastTimestamp));
         for (double t = lastTimestamp + dt; t < 2.0 / 3.0 * T; t += dt) {
           Eigen::Vector2d v_v_om_wv_k = genSineBodyVel2d(w_phi_v_km1,
             w_r_wv_km1, t, dt, A, f);
@@ -97,8 +99,6 @@ namespace aslam {
         }
 
         // random
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         lastTimestamp = nsecToSec(timestamps.back());
         auto trajDist = NormalDistribution<3>(
           Eigen::Matrix<double, 3, 1>::Zero(),
-- 
2.43.0


From 6ee4c6560d453a4bcee20b1ff56d25463ce03c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 38/53] fix: reporting the observability reads the rows of the
 estimated variables only

---
 .../src/algo/CarCalibrator.cpp                | 61 ++++++++++---------
 .../src/algo/Calibrator.cpp                   | 36 ++++++-----
 .../src/algo/Calibrator.cpp                   | 39 ++++++------
 3 files changed, 74 insertions(+), 62 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 384ae05..2692283 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -5,6 +5,7 @@
 
 #include "aslam/calibration/car/algo/CarCalibrator.h"
 
+#include <string>
 #include <vector>
 #include <cmath>
 
@@ -377,36 +378,36 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        std::cout << "e_r: " << ret.obsBasisScaled.row(0).norm() << std::endl;
-        std::cout << "e_f: " << ret.obsBasisScaled.row(1).norm() << std::endl;
-        std::cout << "L: " << ret.obsBasisScaled.row(2).norm() << std::endl;
-        std::cout << "a0: " << ret.obsBasisScaled.row(3).norm() << std::endl;
-        std::cout << "a1: " << ret.obsBasisScaled.row(4).norm() << std::endl;
-        std::cout << "a2: " << ret.obsBasisScaled.row(5).norm() << std::endl;
-        std::cout << "a3: " << ret.obsBasisScaled.row(6).norm() << std::endl;
-        std::cout << "k_rl: " << ret.obsBasisScaled.row(7).norm() << std::endl;
-        std::cout << "k_rr: " << ret.obsBasisScaled.row(8).norm() << std::endl;
-        std::cout << "k_fl: " << ret.obsBasisScaled.row(9).norm() << std::endl;
-        std::cout << "k_fr: " << ret.obsBasisScaled.row(10).norm() << std::endl;
-        std::cout << "k_dmi: " << ret.obsBasisScaled.row(11).norm()
-          << std::endl;
-        std::cout << "v_r_vr_1: " << ret.obsBasisScaled.row(12).norm()
-          << std::endl;
-        std::cout << "v_r_vr_2: " << ret.obsBasisScaled.row(13).norm()
-          << std::endl;
-        std::cout << "v_r_vr_3: " << ret.obsBasisScaled.row(14).norm()
-          << std::endl;
-        std::cout << "v_R_r_1: " << ret.obsBasisScaled.row(15).norm()
-          << std::endl;
-        std::cout << "v_R_r_2: " << ret.obsBasisScaled.row(16).norm()
-          << std::endl;
-        std::cout << "v_R_r_3: " << ret.obsBasisScaled.row(17).norm()
-          << std::endl;
-        std::cout << "t_r: " << ret.obsBasisScaled.row(18).norm() << std::endl;
-        std::cout << "t_f: " << ret.obsBasisScaled.row(19).norm() << std::endl;
-        std::cout << "t_s: " << ret.obsBasisScaled.row(20).norm() << std::endl;
-        std::cout << "t_dmi: " << ret.obsBasisScaled.row(21).norm()
-          << std::endl;
+        // the basis has rows for the estimated variables only
+        const Eigen::MatrixXd& obsBasis = ret.obsBasisScaled.rows() ?
+          ret.obsBasisScaled : ret.obsBasis;
+        std::ptrdiff_t row = 0;
+        auto printObservability = [&](const aslam::backend::DesignVariable& dv,
+            const std::vector<std::string>& names) {
+          if (!dv.isActive())
+            return;
+          for (const auto& name : names)
+            std::cout << name << ": " << obsBasis.row(row++).norm()
+              << std::endl;
+        };
+        printObservability(*_odometryDesignVariables->e_r, {"e_r"});
+        printObservability(*_odometryDesignVariables->e_f, {"e_f"});
+        printObservability(*_odometryDesignVariables->L, {"L"});
+        printObservability(*_odometryDesignVariables->a,
+          {"a0", "a1", "a2", "a3"});
+        printObservability(*_odometryDesignVariables->k_rl, {"k_rl"});
+        printObservability(*_odometryDesignVariables->k_rr, {"k_rr"});
+        printObservability(*_odometryDesignVariables->k_fl, {"k_fl"});
+        printObservability(*_odometryDesignVariables->k_fr, {"k_fr"});
+        printObservability(*_odometryDesignVariables->k_dmi, {"k_dmi"});
+        printObservability(*_odometryDesignVariables->v_r_vr,
+          {"v_r_vr_1", "v_r_vr_2", "v_r_vr_3"});
+        printObservability(*_odometryDesignVariables->v_R_r,
+          {"v_R_r_1", "v_R_r_2", "v_R_r_3"});
+        printObservability(*_odometryDesignVariables->t_r, {"t_r"});
+        printObservability(*_odometryDesignVariables->t_f, {"t_f"});
+        printObservability(*_odometryDesignVariables->t_s, {"t_s"});
+        printObservability(*_odometryDesignVariables->t_dmi, {"t_dmi"});
       }
       _infoGainHistory.push_back(ret.informationGain);
       _odometryVariablesHistory.push_back(
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index 632a22e..53b15a4 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -6,6 +6,8 @@
 #include "aslam/calibration/egomotion/algo/Calibrator.h"
 
 #include <cmath>
+#include <string>
+#include <vector>
 
 #include <boost/make_shared.hpp>
 
@@ -132,23 +134,27 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        size_t idx = 0;
+        // the basis has rows for the estimated variables only
+        const Eigen::MatrixXd& obsBasis = ret.obsBasisScaled.rows() ?
+          ret.obsBasisScaled : ret.obsBasis;
+        std::ptrdiff_t row = 0;
+        auto printObservability = [&](const aslam::backend::DesignVariable& dv,
+            const std::vector<std::string>& names) {
+          if (!dv.isActive())
+            return;
+          for (const auto& name : names)
+            std::cout << name << ": " << obsBasis.row(row++).norm()
+              << std::endl;
+        };
         for (const auto& designVariable :
             designVariables_->calibrationVariables_) {
-          std::cout << "t_" << designVariable.first << ": "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_1 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_2 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_3 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_1 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_2 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_3 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
+          const auto id = std::to_string(designVariable.first);
+          printObservability(*std::get<0>(designVariable.second),
+            {"t_" + id});
+          printObservability(*std::get<1>(designVariable.second),
+            {"r_" + id + "_1", "r_" + id + "_2", "r_" + id + "_3"});
+          printObservability(*std::get<2>(designVariable.second),
+            {"R_" + id + "_1", "R_" + id + "_2", "R_" + id + "_3"});
         }
       }
       for (const auto& designVariable : designVariables_->calibrationVariables_)
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 32ef6ae..a876ad7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -5,6 +5,7 @@
 
 #include "aslam/calibration/time-delay/algo/Calibrator.h"
 
+#include <string>
 #include <vector>
 #include <cmath>
 
@@ -275,23 +276,27 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        std::cout << "b: " << ret.obsBasisScaled.row(0).norm() << std::endl;
-        std::cout << "k_l: " << ret.obsBasisScaled.row(1).norm() << std::endl;
-        std::cout << "t_l: " << ret.obsBasisScaled.row(2).norm() << std::endl;
-        std::cout << "k_r: " << ret.obsBasisScaled.row(3).norm() << std::endl;
-        std::cout << "t_r: " << ret.obsBasisScaled.row(4).norm() << std::endl;
-        std::cout << "v_r_vp_1: " << ret.obsBasisScaled.row(5).norm()
-          << std::endl;
-        std::cout << "v_r_vp_2: " << ret.obsBasisScaled.row(6).norm()
-          << std::endl;
-        std::cout << "v_r_vp_3: " << ret.obsBasisScaled.row(7).norm()
-          << std::endl;
-        std::cout << "v_R_p_1: " << ret.obsBasisScaled.row(8).norm()
-          << std::endl;
-        std::cout << "v_R_p_2: " << ret.obsBasisScaled.row(9).norm()
-          << std::endl;
-        std::cout << "v_R_p_3: " << ret.obsBasisScaled.row(10).norm()
-          << std::endl;
+        // the basis has rows for the estimated variables only
+        const Eigen::MatrixXd& obsBasis = ret.obsBasisScaled.rows() ?
+          ret.obsBasisScaled : ret.obsBasis;
+        std::ptrdiff_t row = 0;
+        auto printObservability = [&](const aslam::backend::DesignVariable& dv,
+            const std::vector<std::string>& names) {
+          if (!dv.isActive())
+            return;
+          for (const auto& name : names)
+            std::cout << name << ": " << obsBasis.row(row++).norm()
+              << std::endl;
+        };
+        printObservability(*_odometryDesignVariables->b, {"b"});
+        printObservability(*_odometryDesignVariables->k_l, {"k_l"});
+        printObservability(*_odometryDesignVariables->t_l, {"t_l"});
+        printObservability(*_odometryDesignVariables->k_r, {"k_r"});
+        printObservability(*_odometryDesignVariables->t_r, {"t_r"});
+        printObservability(*_odometryDesignVariables->v_r_vp,
+          {"v_r_vp_1", "v_r_vp_2", "v_r_vp_3"});
+        printObservability(*_odometryDesignVariables->v_R_p,
+          {"v_R_p_1", "v_R_p_2", "v_R_p_3"});
       }
       _infoGainHistory.push_back(ret.informationGain);
       _odometryVariablesHistory.push_back(
-- 
2.43.0


From 1ce9c997890aecb6c9468cb9533fb325dd07b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 39/53] fix: the observations kept stay in the order of their
 poses

Accepted observations were inserted in front of the older ones while their
poses are appended, so getTransformation(i) was not the pose of
getEstimatorObservations()[i] once a second batch was accepted.
---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 1bc8c5d..a7e4807 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -467,7 +467,7 @@ namespace aslam {
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-        _estimatorObservations.insert(_estimatorObservations.begin(),
+        _estimatorObservations.insert(_estimatorObservations.end(),
           _batchObservations.begin(), _batchObservations.end());
       }
       if (_options.verbose) {
-- 
2.43.0


From f038ed55ec3593bb4e8a331cce624e0272c0d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 40/53] fix: writing a camera without an accepted batch reads
 no missing deviations

The standard deviations are empty until a batch is accepted, and write()
indexed them all the same.
---
 .../src/camera/CameraCalibrator.cpp                       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index a7e4807..646a060 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <iterator>
 #include <algorithm>
+#include <limits>
 #include <sstream>
 
 #include <boost/make_shared.hpp>
@@ -514,6 +515,13 @@ namespace aslam {
       Eigen::VectorXd projectionStd = getProjectionStandardDeviation();
       auto distortion = getDistortion();
       Eigen::VectorXd distortionStd = getDistortionStandardDeviation();
+      // nothing is known about the uncertainty without an accepted batch
+      if (projectionStd.size() == 0)
+        projectionStd = Eigen::VectorXd::Constant(projection.size(),
+          std::numeric_limits<double>::infinity());
+      if (distortionStd.size() == 0)
+        distortionStd = Eigen::VectorXd::Constant(distortion.size(),
+          std::numeric_limits<double>::infinity());
       if (_options.cameraProjectionType == "omni") {
         config.setDouble("projection/xi", projection(0));
         config.setDouble("projection/sigma_xi", projectionStd(0));
-- 
2.43.0


From 62c0fc921a301e2938168b158e33681a38e12ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 41/53] fix: no batch without images is offered to the
 estimator

Processing with no pending image, as calibrateCamera does after the last one,
offered the batch prepared for the next images, which has no error term.
---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 646a060..aa8deea 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -464,7 +464,7 @@ namespace aslam {
     }
 
     void CameraCalibrator::processBatch() {
-      if (!_batch)
+      if (!_batch || _batchObservations.empty())
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-- 
2.43.0


From 52bf0d428428db207924d7bb0a74b616ce1a98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 42/53] fix: the average error of an image is over the corners
 measured

The sum over the corners seen was divided by the number of all corners of the
board.
---
 .../src/camera/CameraValidator.cpp                          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
index 1afa415..94b5fcb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
@@ -155,6 +155,7 @@ namespace aslam {
       double maxErrorNorm = 0.0;
       const int radius = 5;
       size_t numOutliers = 0;
+      size_t numErrors = 0;
       for (size_t i = 0; i < _calibrationTarget->size(); ++i) {
         auto targetPoint = sm::kinematics::toHomogeneous(
           _calibrationTarget->point(i));
@@ -195,6 +196,7 @@ namespace aslam {
         if (std::fabs(error(1)) > maxYError)
           maxYError = std::fabs(error(1));
         errorNormSum += errorNorm;
+        numErrors++;
         if (errorNorm > maxErrorNorm)
           maxErrorNorm = errorNorm;
         const double q = boost::math::quantile(
@@ -205,8 +207,8 @@ namespace aslam {
           numOutliers++;
       }
       std::stringstream stream;
-      stream << "Reprojection error norm: avg = " << errorNormSum /
-        _calibrationTarget->size() << "   max = " << maxErrorNorm;
+      stream << "Reprojection error norm: avg = " << (numErrors ?
+        errorNormSum / numErrors : 0.0) << "   max = " << maxErrorNorm;
       cv::putText(imageCopy, stream.str(), cv::Point(10, imageCopy.rows - 40),
         cv::FONT_HERSHEY_COMPLEX, 0.5, cv::Scalar(255, 255, 255), 1, CV_AA);
       stream.str(std::string());
-- 
2.43.0


From 7d7bd811f663b1fe3c793f56df3cf89358b5052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:36 +0000
Subject: [PATCH 43/53] fix: a solve that fails frees the transposed Jacobian

---
 aslam_tsvd_solver/src/aslam-tsvd-solver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
index 31b8367..7391132 100644
--- a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
+++ b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
@@ -46,8 +46,9 @@ bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd& dx) {
     jacobian_builder_.J_transpose();
   cholmod_sparse Jt_CS;
   Jt.getView(&Jt_CS);
-  cholmod_sparse* J_CS = cholmod_l_transpose(&Jt_CS, 1, &cholmod_);
-  if (J_CS == NULL)
+  truncated_svd_solver::SelfFreeingCholmodPtr<cholmod_sparse> J_CS(
+      cholmod_l_transpose(&Jt_CS, 1, &cholmod_), cholmod_);
+  if (J_CS == nullptr)
     return false;
   cholmod_dense e_CD;
   truncated_svd_solver::eigenDenseToCholmodDenseView(_e, &e_CD);
@@ -67,7 +68,6 @@ bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd& dx) {
     std::cout << "V-matrix (observability basis, column vectors correspond to singular values)\n" << getMatrixV()
       << std::endl;
   }
-  cholmod_l_free_sparse(&J_CS, &cholmod_);
   return status;
 }
 
-- 
2.43.0


From 11baeb468eb8d6d907ab13b2f06bec09cec67e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 44/53] fix: the matrices of a return value can be read from
 Python

---
 .../src/IncrementalEstimator.cpp              | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/incremental_calibration_python/src/IncrementalEstimator.cpp b/incremental_calibration_python/src/IncrementalEstimator.cpp
index c041419..dbec1be 100644
--- a/incremental_calibration_python/src/IncrementalEstimator.cpp
+++ b/incremental_calibration_python/src/IncrementalEstimator.cpp
@@ -73,6 +73,12 @@ Eigen::MatrixXd getScaledSingularValues(const IncrementalEstimator* ie) {
   return ie->getSingularValues(true);
 }
 
+/// Matrices reach Python by value, there is no class registered for them
+template <typename M>
+object getMatrix(M IncrementalEstimator::ReturnValue::*member) {
+  return make_getter(member, return_value_policy<return_by_value>());
+}
+
 void exportIncrementalEstimator() {
   /// Export options for the IncrementalEstimator class
   class_<IncrementalEstimator::Options>("IncrementalEstimatorOptions", init<>())
@@ -101,25 +107,36 @@ void exportIncrementalEstimator() {
       &IncrementalEstimator::ReturnValue::svdTolerance)
     .def_readwrite("qrTolerance",
       &IncrementalEstimator::ReturnValue::qrTolerance)
-    .def_readwrite("nobsBasis", &IncrementalEstimator::ReturnValue::nobsBasis)
-    .def_readwrite("nobsBasisScaled",
-      &IncrementalEstimator::ReturnValue::nobsBasisScaled)
-    .def_readwrite("obsBasis",
-      &IncrementalEstimator::ReturnValue::obsBasis)
-    .def_readwrite("obsBasisScaled",
-      &IncrementalEstimator::ReturnValue::obsBasisScaled)
-    .def_readwrite("sigma2Theta",
-      &IncrementalEstimator::ReturnValue::sigma2Theta)
-    .def_readwrite("sigma2ThetaScaled",
-      &IncrementalEstimator::ReturnValue::sigma2ThetaScaled)
-    .def_readwrite("sigma2ThetaObs",
-      &IncrementalEstimator::ReturnValue::sigma2ThetaObs)
-    .def_readwrite("sigma2ThetaObsScaled",
-      &IncrementalEstimator::ReturnValue::sigma2ThetaObsScaled)
-    .def_readwrite("singularValues",
-      &IncrementalEstimator::ReturnValue::singularValues)
-    .def_readwrite("singularValuesScaled",
-      &IncrementalEstimator::ReturnValue::singularValuesScaled)
+    .add_property("nobsBasis",
+      getMatrix(&IncrementalEstimator::ReturnValue::nobsBasis),
+      make_setter(&IncrementalEstimator::ReturnValue::nobsBasis))
+    .add_property("nobsBasisScaled",
+      getMatrix(&IncrementalEstimator::ReturnValue::nobsBasisScaled),
+      make_setter(&IncrementalEstimator::ReturnValue::nobsBasisScaled))
+    .add_property("obsBasis",
+      getMatrix(&IncrementalEstimator::ReturnValue::obsBasis),
+      make_setter(&IncrementalEstimator::ReturnValue::obsBasis))
+    .add_property("obsBasisScaled",
+      getMatrix(&IncrementalEstimator::ReturnValue::obsBasisScaled),
+      make_setter(&IncrementalEstimator::ReturnValue::obsBasisScaled))
+    .add_property("sigma2Theta",
+      getMatrix(&IncrementalEstimator::ReturnValue::sigma2Theta),
+      make_setter(&IncrementalEstimator::ReturnValue::sigma2Theta))
+    .add_property("sigma2ThetaScaled",
+      getMatrix(&IncrementalEstimator::ReturnValue::sigma2ThetaScaled),
+      make_setter(&IncrementalEstimator::ReturnValue::sigma2ThetaScaled))
+    .add_property("sigma2ThetaObs",
+      getMatrix(&IncrementalEstimator::ReturnValue::sigma2ThetaObs),
+      make_setter(&IncrementalEstimator::ReturnValue::sigma2ThetaObs))
+    .add_property("sigma2ThetaObsScaled",
+      getMatrix(&IncrementalEstimator::ReturnValue::sigma2ThetaObsScaled),
+      make_setter(&IncrementalEstimator::ReturnValue::sigma2ThetaObsScaled))
+    .add_property("singularValues",
+      getMatrix(&IncrementalEstimator::ReturnValue::singularValues),
+      make_setter(&IncrementalEstimator::ReturnValue::singularValues))
+    .add_property("singularValuesScaled",
+      getMatrix(&IncrementalEstimator::ReturnValue::singularValuesScaled),
+      make_setter(&IncrementalEstimator::ReturnValue::singularValuesScaled))
     .def_readwrite("numIterations",
       &IncrementalEstimator::ReturnValue::numIterations)
     .def_readwrite("JStart", &IncrementalEstimator::ReturnValue::JStart)
-- 
2.43.0


From 4549949323ddb97061f3166f909e0d900c41f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 45/53] fix: turn the headings with the positions when the 2d
 laser estimate is aligned

---
 .../src/2dlrf/simulate-offline.cpp                            | 4 +++-
 .../src/2dlrf/simulate-online-new.cpp                         | 4 +++-
 .../src/2dlrf/simulate-online.cpp                             | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-offline.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-offline.cpp
index 67fe6cb..f8c7219 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-offline.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-offline.cpp
@@ -314,6 +314,8 @@ int main(int argc, char** argv) {
     l_est_trans_log << l_est_trans.col(i).head<2>().transpose() << std::endl;
 
   // align poses
+  const double transHeading = atan2(trans.getTransformationMatrix()(1, 0),
+    trans.getTransformationMatrix()(0, 0));
   std::vector<Eigen::Vector3d > x_est_trans;
   x_est_trans.reserve(steps);
   std::ofstream x_est_trans_log("x_est_trans.txt");
@@ -321,7 +323,7 @@ int main(int argc, char** argv) {
     Eigen::Vector3d pose((Eigen::Vector3d()
       << dv_x[i]->getValue().head<2>(), 0).finished());
     trans.transform(pose, pose);
-    pose(2) = dv_x[i]->getValue()(2);
+    pose(2) = angleMod(dv_x[i]->getValue()(2) + transHeading);
     x_est_trans.push_back(pose);
     x_est_trans_log << x_est_trans[i].transpose() << std::endl;
   }
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 52a3d3f..6340876 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -346,6 +346,8 @@ int main(int argc, char** argv) {
     l_est_trans_log << l_est_trans.col(i).head<2>().transpose() << std::endl;
 
   // align poses
+  const double transHeading = atan2(trans.getTransformationMatrix()(1, 0),
+    trans.getTransformationMatrix()(0, 0));
   std::vector<Eigen::Vector3d> x_est_trans;
   x_est_trans.reserve(steps);
   std::ofstream x_est_trans_log("x_est_trans.txt");
@@ -357,7 +359,7 @@ int main(int argc, char** argv) {
     Eigen::Vector3d pose((Eigen::Vector3d()
       << dv_xk->getValue().head<2>(), 0).finished());
     trans.transform(pose, pose);
-    pose(2) = dv_xk->getValue()(2);
+    pose(2) = angleMod(dv_xk->getValue()(2) + transHeading);
     x_est_trans.push_back(pose);
     x_est_trans_log << pose.transpose() << std::endl;
   }
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online.cpp
index 9943f84..5ac5e07 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online.cpp
@@ -332,6 +332,8 @@ int main(int argc, char** argv) {
     l_est_trans_log << l_est_trans.col(i).head<2>().transpose() << std::endl;
 
   // align poses
+  const double transHeading = atan2(trans.getTransformationMatrix()(1, 0),
+    trans.getTransformationMatrix()(0, 0));
   std::vector<Eigen::Matrix<double, 3, 1> > x_est_trans;
   x_est_trans.reserve(steps);
   std::ofstream x_est_trans_log("x_est_trans.txt");
@@ -340,7 +342,7 @@ int main(int argc, char** argv) {
       Eigen::Matrix<double, 3, 1> pose((Eigen::Matrix<double, 3, 1>()
         << dv_x[j]->getValue().head<2>(), 0).finished());
       trans.transform(pose, pose);
-      pose(2) = dv_x[j]->getValue()(2);
+      pose(2) = angleMod(dv_x[j]->getValue()(2) + transHeading);
       x_est_trans.push_back(pose);
       x_est_trans_log << pose.transpose() << std::endl;
     }
-- 
2.43.0


From 2da9ae1c7870def88ee244d2479ac44813d847d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 46/53] fix: count the last, shorter batch among those offered
 by the 2d laser simulation

---
 .../src/2dlrf/simulate-online-new.cpp                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 6340876..6d970f3 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -303,7 +303,7 @@ int main(int argc, char** argv) {
   std::cout << "marginalized group: " << incrementalEstimator.getMargGroupId()
     << std::endl;
   std::cout << "number of batches: " << incrementalEstimator.getNumBatches()
-    << " out of " << round((double)steps / batchSize) << std::endl;
+    << " out of " << ceil((double)steps / batchSize) << std::endl;
 
   // fetch the problem
   auto problem = incrementalEstimator.getProblem();
-- 
2.43.0


From cb6496356d117500a832e31a3bd08e5e4369e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 47/53] fix: the car's deviations are those of the variables
 they are named after

---
 .../src/realworld/calibrator.cpp              | 52 ++++++++++++-------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 1e4efd1..234501d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -40,6 +40,13 @@
 #include <can_prius/RearWheelsSpeedMsg.h>
 #include <can_prius/Steering1Msg.h>
 
+#include <aslam/backend/EuclideanPoint.hpp>
+#include <aslam/backend/RotationQuaternion.hpp>
+#include <aslam/backend/Scalar.hpp>
+#include <aslam/backend/GenericScalar.hpp>
+
+#include <aslam/calibration/data-structures/VectorDesignVariable.h>
+
 #include "aslam/calibration/car/algo/CarCalibrator.h"
 #include "aslam/calibration/car/algo/splinesToFile.h"
 #include "aslam/calibration/car/data/WheelSpeedsMeasurement.h"
@@ -47,6 +54,7 @@
 #include "aslam/calibration/car/data/DMIMeasurement.h"
 #include "aslam/calibration/car/data/PoseMeasurement.h"
 #include "aslam/calibration/car/data/VelocitiesMeasurement.h"
+#include "aslam/calibration/car/design-variables/OdometryDesignVariables.h"
 #include "aslam/calibration/car/geo/geodetic.h"
 
 using namespace sm;
@@ -245,24 +253,32 @@ int main(int argc, char** argv) {
   std::ofstream devFile("deviations.txt");
   devFile << std::fixed << std::setprecision(18);
   Eigen::VectorXd variances = calibrator.getOdometryVariablesVariance();
-  devFile << "e_r: " << std::sqrt(variances(0)) << std::endl;
-  devFile << "e_f: " << std::sqrt(variances(1)) << std::endl;
-  devFile << "L: " << std::sqrt(variances(2)) << std::endl;
-  devFile << "a0: " << std::sqrt(variances(3)) << std::endl;
-  devFile << "a1: " << std::sqrt(variances(4)) << std::endl;
-  devFile << "a2: " << std::sqrt(variances(5)) << std::endl;
-  devFile << "a3: " << std::sqrt(variances(6)) << std::endl;
-  devFile << "k_rl: " << std::sqrt(variances(7)) << std::endl;
-  devFile << "k_rr: " << std::sqrt(variances(8)) << std::endl;
-  devFile << "k_fl: " << std::sqrt(variances(9)) << std::endl;
-  devFile << "k_fr: " << std::sqrt(variances(10)) << std::endl;
-  devFile << "k_dmi: " << std::sqrt(variances(11)) << std::endl;
-  devFile << "v_r_vr_1: " << std::sqrt(variances(12)) << std::endl;
-  devFile << "v_r_vr_2: " << std::sqrt(variances(13)) << std::endl;
-  devFile << "v_r_vr_3: " << std::sqrt(variances(14)) << std::endl;
-  devFile << "v_R_r_1: " << std::sqrt(variances(15)) << std::endl;
-  devFile << "v_R_r_2: " << std::sqrt(variances(16)) << std::endl;
-  devFile << "v_R_r_3: " << std::sqrt(variances(17)) << std::endl;
+  // there are variances for the estimated variables only
+  std::ptrdiff_t row = 0;
+  auto writeDeviations = [&](const aslam::backend::DesignVariable& dv,
+      const std::vector<std::string>& names) {
+    if (!dv.isActive())
+      return;
+    for (auto it = names.cbegin(); it != names.cend() &&
+        row < variances.size(); ++it)
+      devFile << *it << ": " << std::sqrt(variances(row++)) << std::endl;
+  };
+  const auto& odometry = *calibrator.getOdometryDesignVariables();
+  writeDeviations(*odometry.e_r, {"e_r"});
+  writeDeviations(*odometry.e_f, {"e_f"});
+  writeDeviations(*odometry.L, {"L"});
+  writeDeviations(*odometry.a, {"a0", "a1", "a2", "a3"});
+  writeDeviations(*odometry.k_rl, {"k_rl"});
+  writeDeviations(*odometry.k_rr, {"k_rr"});
+  writeDeviations(*odometry.k_fl, {"k_fl"});
+  writeDeviations(*odometry.k_fr, {"k_fr"});
+  writeDeviations(*odometry.k_dmi, {"k_dmi"});
+  writeDeviations(*odometry.v_r_vr, {"v_r_vr_1", "v_r_vr_2", "v_r_vr_3"});
+  writeDeviations(*odometry.v_R_r, {"v_R_r_1", "v_R_r_2", "v_R_r_3"});
+  writeDeviations(*odometry.t_r, {"t_r"});
+  writeDeviations(*odometry.t_f, {"t_f"});
+  writeDeviations(*odometry.t_s, {"t_s"});
+  writeDeviations(*odometry.t_dmi, {"t_dmi"});
 
   std::ofstream m_T_v_estFile("m_T_v_est.txt");
   m_T_v_estFile << std::fixed << std::setprecision(18);
-- 
2.43.0


From a96a83c552d794c04c7b5cdfe822e92de82cadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 48/53] fix: the covariances of the car's position and velocity
 are in the frame these are in

---
 .../src/realworld/analyzer.cpp                    | 15 ++++++++-------
 .../src/realworld/calibrator.cpp                  | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 73f1a62..46138d7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -144,9 +144,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
@@ -164,10 +164,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError * lastVnp->downVelocityRMSError).
+        asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 234501d..0e52e55 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -152,9 +152,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
@@ -172,10 +172,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError * lastVnp->downVelocityRMSError).
+        asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
-- 
2.43.0


From 342deb72c7a00ff840ff77c22516f06df0214391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 49/53] fix: the car analyzer writes the trajectory it predicts
 from

---
 .../src/realworld/analyzer.cpp                                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 46138d7..f10b341 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -245,7 +245,9 @@ int main(int argc, char** argv) {
 
   std::ofstream m_T_v_estFile("m_T_v.txt");
   m_T_v_estFile << std::fixed << std::setprecision(18);
-  writeSplines(calibrator.getEstimator(), 0.01, m_T_v_estFile);
+  if (calibrator.getTranslationSpline() && calibrator.getRotationSpline())
+    writeSplines(calibrator.getTranslationSpline(),
+      calibrator.getRotationSpline(), 0.01, m_T_v_estFile);
 
   std::ofstream rwDataPredFile("rwDataPred.txt");
   rwDataPredFile << std::fixed << std::setprecision(18);
-- 
2.43.0


From cbeb16ff6d964758e2edd1ed2f9492cc909ccc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:41 +0000
Subject: [PATCH 50/53] fix: reporting of the solver adapter leaves the
 precision of the output as it was

---
 aslam_tsvd_solver/src/aslam-tsvd-solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
index 7391132..d5c273e 100644
--- a/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
+++ b/aslam_tsvd_solver/src/aslam-tsvd-solver.cc
@@ -61,12 +61,13 @@ bool AslamTruncatedSvdSolver::solveSystem(Eigen::VectorXd& dx) {
     std::cout << "QR rank: " << getQRRank() << std::endl;
     std::cout << "QR rank deficiency: " << getQRRankDeficiency()
       << std::endl;
-    std::cout.precision(3);
+    const std::streamsize precision = std::cout.precision(3);
     std::cout.width(4);
     std::cout << "Singular values:\n" << getSingularValues().transpose()
       << std::endl;
     std::cout << "V-matrix (observability basis, column vectors correspond to singular values)\n" << getMatrixV()
       << std::endl;
+    std::cout.precision(precision);
   }
   return status;
 }
-- 
2.43.0


From 8e3af80051d2f07dc98aa81aa2d0a9d274accc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:41 +0000
Subject: [PATCH 51/53] fix: no picture is kept for an image without a board

---
 .../src/camera/validateCamera.cpp                            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
index e751b4c..52e433e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
@@ -72,8 +72,9 @@ int main(int argc, char** argv) {
     if (it->getTopic() == rosTopic) {
       sensor_msgs::ImagePtr image(it->instantiate<sensor_msgs::Image>());
       auto cvImage = cv_bridge::toCvCopy(image);
-      validator.addImage(cvImage->image, image->header.stamp.toNSec());
-      if (config.getBool("camera/validator/visualization")) {
+      const bool found = validator.addImage(cvImage->image,
+        image->header.stamp.toNSec());
+      if (found && config.getBool("camera/validator/visualization")) {
         cv::Mat resultImage;
         validator.getLastImage(resultImage);
         if (resultImage.data != NULL) {
-- 
2.43.0


From f2c931c8993768ae4d6e7833020bafa4d40de406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:18 +0000
Subject: [PATCH 52/53] fix: the 2d laser simulation ends well when no batch
 was accepted

---
 .../src/2dlrf/simulate-online-new.cpp                       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 6d970f3..7322ea0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -351,8 +351,10 @@ int main(int argc, char** argv) {
   std::vector<Eigen::Vector3d> x_est_trans;
   x_est_trans.reserve(steps);
   std::ofstream x_est_trans_log("x_est_trans.txt");
-  const IncrementalOptimizationProblem::DesignVariablesP&
-    dvsx = problem->getDesignVariablesGroup(0);
+  // no poses are in the problem if no batch was accepted
+  const IncrementalOptimizationProblem::DesignVariablesP dvsx =
+    problem->isGroupInProblem(0) ? problem->getDesignVariablesGroup(0) :
+    IncrementalOptimizationProblem::DesignVariablesP();
   for (auto it = dvsx.cbegin(); it != dvsx.cend(); ++ it) {
     const VectorDesignVariable<3>* dv_xk =
       dynamic_cast<const VectorDesignVariable<3>*>(*it);
-- 
2.43.0


From f484384509c8124a3dfd0e0a2a6cb265b42f26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:35 +0000
Subject: [PATCH 53/53] fix: a batch whose optimization ends in an error leaves
 no trace in the estimator

---
 .../calibration/core/IncrementalEstimator.h   |  2 +
 .../src/core/IncrementalEstimator.cpp         | 47 +++++++++++++------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
index af6863e..1a82740 100644
--- a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
+++ b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
@@ -237,6 +237,8 @@ namespace aslam {
         */
       /// Ensures the marginalized variables are well located
       void orderMarginalizedDesignVariables();
+      /// Takes a batch that is not kept out of the problem
+      void rejectBatch(const BatchSP& problem);
       /// Restores the linear solver
       void restoreLinearSolver();
       /** @}
diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index 9065906..7db1510 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -336,8 +336,7 @@ namespace aslam {
       }
 
       // save design variables in case the batch is rejected
-      if (!force)
-        _problem->saveDesignVariables();
+      _problem->saveDesignVariables();
 
       // set the marginalization index of the linear solver
       size_t JCols = 0;
@@ -349,7 +348,15 @@ namespace aslam {
       linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(JCols - dim));
 
       // optimize
-      aslam::backend::SolutionReturnValue srv = _optimizer->optimize();
+      aslam::backend::SolutionReturnValue srv;
+      try {
+        srv = _optimizer->optimize();
+      }
+      catch (...) {
+        // the batch is refused, the problem stays as it was
+        rejectBatch(problem);
+        throw;
+      }
 
       // return value
       ReturnValue ret;
@@ -376,7 +383,14 @@ namespace aslam {
       }
 
       // analyze marginal system (unscaled system)
-      linearSolver->analyzeMarginal();
+      try {
+        linearSolver->analyzeMarginal();
+      }
+      catch (...) {
+        // the batch is refused, the problem stays as it was
+        rejectBatch(problem);
+        throw;
+      }
 
       // fill statistics from the linear solver
       ret.rankPsi = linearSolver->getQRRank();
@@ -440,17 +454,8 @@ namespace aslam {
       ret.batchAccepted = keepBatch;
 
       // remove batch if necessary
-      if (!keepBatch) {
-        // restore variables
-        _problem->restoreDesignVariables();
-
-        // kick out the problem from the container
-        _problem->remove(problem);
-
-        // restore the linear solver
-        if (_problem->getNumOptimizationProblems() > 0)
-          restoreLinearSolver();
-      }
+      if (!keepBatch)
+        rejectBatch(problem);
 
       // insert elapsed time
       ret.elapsedTime = Timestamp::now() - timeStart;
@@ -459,6 +464,18 @@ namespace aslam {
       return ret;
     }
 
+    void IncrementalEstimator::rejectBatch(const BatchSP& problem) {
+      // restore variables
+      _problem->restoreDesignVariables();
+
+      // kick out the problem from the container
+      _problem->remove(problem);
+
+      // restore the linear solver
+      if (_problem->getNumOptimizationProblems() > 0)
+        restoreLinearSolver();
+    }
+
     void IncrementalEstimator::removeBatch(size_t idx) {
       // marginalized design variables should remain without the batch
       if (idx < _problem->getNumOptimizationProblems()) {
-- 
2.43.0

