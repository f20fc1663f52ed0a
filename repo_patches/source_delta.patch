From 373a3f690ef072497e4e5cab94c59051f4a9b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 01/37] fix: fill Vector::inf() with infinity instead of its
 opposite

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From 8b77c5be39a1b01df156503217a3f5647f94fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 02/37] fix: do not iterate over empty boxes, and make their
 size 0

---
 LitlRaster/LitlRaster/Box.h         | 14 +++++++++++++-
 LitlRaster/LitlRaster/BoxIterator.h |  4 +++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..3675490 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -95,7 +95,19 @@ public:
    * @brief Compute the box size, i.e. number of positions.
    */
   Index size() const {
-    return shapeSize(shape());
+    return isEmpty() ? 0 : shapeSize(shape());
+  }
+
+  /**
+   * @brief Check whether the box is empty, i.e. its length is null or negative along some axis.
+   */
+  bool isEmpty() const {
+    for (std::size_t i = 0; i < m_front.size(); ++i) {
+      if (m_back[i] < m_front[i]) {
+        return true;
+      }
+    }
+    return false;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..a988c0c 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -20,9 +20,11 @@ public:
 
   /**
    * @brief The beginning position.
+   * @details
+   * This is the end position if the box is empty.
    */
   static Position<N> beginPosition(const Box<N>& box) {
-    return box.front();
+    return box.isEmpty() ? endPosition(box) : box.front();
   }
 
   /**
-- 
2.43.0


From ed366364037f12ac649b0c104dcc0505bff3e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 03/37] fix: give the domain of variable dimension rasters the
 dimension of the raster

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..46b5a9c 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,7 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  return Box<N>::fromShape(Position<N>(dimension()).fill(0), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 37d497e50984f3127492f8119af782fcf56a76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 04/37] fix: check the size of list-constructed rasters against
 the shape before it is moved from

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From 9ce2f8d3ae49d3d4cc015682797d9ec6e5e7e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 05/37] fix: section rasters of variable dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 46b5a9c..59ffa1b 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -6,6 +6,7 @@
 
 #include "LitlRaster/Raster.h"
 
+#include <algorithm> // copy_n
 #include <functional> // multiplies
 #include <numeric> // accumulate
 
@@ -174,44 +175,41 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = m_shape;
+  reduced[last] = back - front + 1;
+  return PtrRaster<const T, N> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = m_shape;
+  reduced[last] = back - front + 1;
+  return PtrRaster<T, N> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
+  Position<N == -1 ? -1 : N - 1> reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster<const T, N == -1 ? -1 : N - 1> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication
+  Position<N == -1 ? -1 : N - 1> reduced(last);
+  std::copy_n(m_shape.begin(), last, reduced.begin());
+  return PtrRaster<T, N == -1 ? -1 : N - 1> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 364205f5802fc0aa8fe138cfe670cef63fcc2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 06/37] fix: clamp a position inside a box

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 3675490..40245fe 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -309,9 +309,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(box.dimension());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From dadffacb39c192ee2592eca9c50a728261b10da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 07/37] fix: iterate over mutable subrasters

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..6c00c8c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From a777149db78ea93d84b89911d7da6fe32022405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:53 +0000
Subject: [PATCH 08/37] fix: keep ownership when moving aligned buffers, and
 free the memory they own when assigning them

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..20e6c70 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From d6aff3fd991a70a5e41258b774730b99c8109643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:37 +0000
Subject: [PATCH 09/37] fix: apply scalar operators with the same scalar to all
 the elements, even when it is one of them

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..1fd9557 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [rhs](auto e) { /* rhs may be an element of this */ \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From b4afacdf7d86833449efc559a7a46b6e9e01fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 10/37] fix: subtract containers from scalars without building
 a container from the scalar

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 1fd9557..a506a32 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -156,6 +155,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief a - V
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -242,6 +251,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief a - V
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
-- 
2.43.0


From 457cd21045570952c4e9d87b5090c71c413adcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 11/37] fix: make the unary plus of containers compile

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index a506a32..9a828fa 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -141,7 +141,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -237,7 +237,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From dccf730f954f4a8e686787479f65d69df3e5ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 12/37] fix: linspace of empty, single-element and decreasing
 integer containers

---
 LitlContainer/LitlContainer/DataContainer.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..edd7f3c 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -160,12 +160,20 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
-    auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    const Index last = Index(this->size()) - 1;
+    if (last < 0) {
+      return static_cast<TDerived&>(*this);
     }
-    *it = max;
+    const T front = min; // min and max may be elements of this
+    const T back = max;
+    if (last > 0) {
+      const auto step = (back - front) / last;
+      auto it = this->begin();
+      for (Index i = 0; i < last; ++i, ++it) {
+        *it = front + step * i;
+      }
+    }
+    *(this->begin() + last) = back;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From 8e4608be4ae0594d4ad73cd5803ef0346658ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 13/37] fix: keep the step of range() constant when it is an
 element of the container

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index edd7f3c..09e5b16 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const T s = step; // step may be an element of this
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += s;
     }
     return t;
   }
-- 
2.43.0


From 31f4d88033d50c837023b9bfd29391fe5d621c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 14/37] fix: floor of negative integers

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From e72b6c77555325e066962188aa231e9facb91711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 15/37] fix: nearest-neighbor interpolation at negative
 positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..0b4e8fe 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From 8edf60da2bdcebd67c7ea2749d3c95ab6e9e6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 16/37] fix: weights of the linear interpolation

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 0b4e8fe..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From 35bc998c447ddbdd736cdfe86f766d3a0a567227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 17/37] fix: correlate images smaller than the kernel, and
 input rows of any number and dimension

---
 LitlTransforms/LitlTransforms/Kernel.h | 38 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..9b8f004 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -77,9 +77,20 @@ public:
    */
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
-    const auto outers = inner.surround(m_window);
-    correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
+    const auto domain = in.domain();
+    auto front = domain.front() - m_window.front();
+    auto back = domain.back() - m_window.back();
+    for (std::size_t i = 0; i < front.size(); ++i) { // The window may not contain the origin
+      front[i] = std::max(front[i], domain.front()[i]);
+      back[i] = std::min(back[i], domain.back()[i]);
+    }
+    const Box<N> inner(std::move(front), std::move(back));
+    if (inner.isEmpty()) { // Kernel larger than the image
+      correlateWithExtrapolation(in, domain, out);
+      return;
+    }
+    const auto outers = inner.surround({domain.front() - inner.front(), domain.back() - inner.back()});
+    correlateWithoutExtrapolation(Litl::rasterize(in), inner, out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
     }
@@ -99,27 +110,24 @@ private:
     // Compute constants
     auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
-
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    auto kRows = m_window;
+    kRows.project();
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto outIt = &out[p];
+      for (Index i = 0; i < boxWidth; ++i, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
+        auto kIt = m_values.data();
+        for (const auto& q : kRows) {
+          const auto inIt = &in[p + q] + i;
           sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
@@ -137,7 +145,7 @@ private:
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    std::vector<std::decay_t<typename TExtrapolatorIn::Value>> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
-- 
2.43.0


From f10f105a2716d15528beb45b1372ab73607ba05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 18/37] fix: keep line correlations inside the line, the kernel
 and the output samples

---
 LitlTransforms/LitlTransforms/Convolution.h | 15 ++++++---------
 LitlTransforms/LitlTransforms/LineKernel.h  | 14 ++++++++------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..a92fde4 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -81,25 +81,22 @@ public:
     inIt -= m_backward;
     auto outIt = out.begin();
     Index i = in.front();
-
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
+    const Index size = in.size();
 
     // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
+    for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
+      const auto kEnd = originData() + std::min(size - i, m_forward + 1);
+      *outIt = std::inner_product(originData() - i, kEnd, inMinIt, m_bias);
     }
 
     // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
+    for (; i <= in.back() && i + m_forward < size; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..ffe1e21 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -40,7 +40,7 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit LineKernel(std::vector<T> values) : LineKernel(std::move(values), values.size() / 2) {}
+  explicit LineKernel(std::vector<T> values) : Container(std::move(values)), m_origin(this->size() / 2), m_bias() {}
 
   /**
    * @brief Get the window.
@@ -93,21 +93,23 @@ public:
     inIt -= m_origin;
     auto outIt = out.begin();
     auto i = in.front();
+    const Index size = in.size();
+    const Index forward = Index(this->size()) - m_origin - 1;
 
     // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
+      const auto kEnd = originData() + std::min(size - i, forward + 1);
+      *outIt = std::inner_product(originData() - i, kEnd, inMinIt, m_bias);
     }
 
     // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
+    for (; i <= in.back() && i + forward < size; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
     }
   }
 
-- 
2.43.0


From 18e246d61cb0a91463b111f2b19a1316f574ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 19/37] fix: windows of line kernels

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 LitlTypes/LitlTypes/Segment.h              | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index ffe1e21..8bc1cea 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -129,7 +129,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -138,7 +138,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()), origin);
 }
 
 /**
@@ -149,7 +149,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, Index(values.size() / 2));
 }
 
 } // namespace Litl
diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..1401878 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + Index(size) - 1);
   }
 
   Index front() const {
-- 
2.43.0


From 3838919624ad87dc99ab3b10e3815b57fd3e98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 20/37] fix: combination, window and composition of separable
 kernels

---
 .../LitlTransforms/SeparableKernel.h          | 54 ++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..abfcc03 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -9,7 +9,9 @@
 #include "LitlTransforms/Kernel.h"
 #include "LitlTransforms/LineKernel.h"
 
-#include <map>
+#include <algorithm> // find_if, reverse
+#include <stdexcept> // out_of_range
+#include <utility> // pair
 #include <vector>
 
 namespace Litl {
@@ -101,25 +103,27 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] += w.front();
+      back[k.first] += w.back();
     }
-    return box;
+    return {std::move(front), std::move(back)};
   }
 
   /**
-   * @brief Get the `LineKernel` along given axis.
+   * @brief Get the (first) `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
-    return m_kernels.at(axis);
+  const LineKernel<T>& operator[](Index axis) const {
+    const auto it = std::find_if(m_kernels.begin(), m_kernels.end(), [=](const auto& k) {
+      return k.first == axis;
+    });
+    if (it == m_kernels.end()) {
+      throw std::out_of_range("No line kernel along given axis");
+    }
+    return it->second;
   }
 
   /**
@@ -143,12 +147,14 @@ public:
     auto shape = Position<Dimension>::one();
     auto origin = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      shape[k.first] = k.second.size();
-      origin[k.first] = k.second.origin();
+      shape[k.first] += k.second.size() - 1;
+      origin[k.first] += k.second.origin();
     }
     auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    raster[shape - origin - 1] = T(1);
+    auto out = *this * raster; // Impulse response, i.e. reversed kernel
+    std::reverse(out.begin(), out.end());
+    return kernelize(out, origin);
   }
 
   /**
@@ -157,7 +163,7 @@ public:
   template <Index... Js>
   SeparableKernel<T, I0, Is..., Js...> operator*(const SeparableKernel<T, Js...>& rhs) const {
     SeparableKernel<T, I0, Is..., Js...> out(m_kernels);
-    out.m_kernels.insert(rhs.begin(), rhs.end());
+    out.m_kernels.insert(out.m_kernels.end(), rhs.begin(), rhs.end());
     return out;
   }
 
@@ -199,9 +205,9 @@ public:
 private:
   template <typename TRasterIn, typename TRasterOut, Index J0, Index... Js>
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
-    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
+    const auto& kernel = m_kernels[sizeof...(Is) - sizeof...(Js)].second;
+    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(kernel, in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
@@ -210,7 +216,7 @@ private:
   }
 
   template <typename TRasterIn, typename TRasterOut, Index J>
-  TRasterOut correlateAlong(const TRasterIn& in) const {
+  TRasterOut correlateAlong(const LineKernel<T>& kernel, const TRasterIn& in) const {
     const auto shape = in.shape();
     const auto length = shape[J];
     const auto stride = shapeStride<J>(shape);
@@ -219,7 +225,7 @@ private:
     for (const auto& p : domain) {
       DataSamples<const typename TRasterIn::Value> inSamples {&in[p], length, {}, stride};
       DataSamples<typename TRasterOut::Value> outSamples {&out[p], length, {}, stride};
-      m_kernels.at(J).correlate(inSamples, outSamples);
+      kernel.correlate(inSamples, outSamples);
     }
     return out;
   }
@@ -250,7 +256,7 @@ private:
   }
 
 private:
-  std::map<Index, LineKernel<T>> m_kernels;
+  std::vector<std::pair<Index, LineKernel<T>>> m_kernels;
 };
 
 } // namespace Litl
-- 
2.43.0


From 2bd31dbb5088ce7a8fe033aa6b53505bb6bdcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 21/37] fix: end, post-increment and shift of samplings

---
 LitlRaster/LitlRaster/Sampling.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..0a26136 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -32,7 +32,7 @@ public:
     }
 
     T* operator->() {
-      return *m_current;
+      return &m_current;
     }
 
     Iterator& operator++() {
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++(*this);
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -136,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
@@ -155,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++(*this);
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,14 +318,14 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++(*this);
     return res;
   }
 
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -331,7 +333,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
@@ -347,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -361,14 +363,14 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
    * @brief Generate a vector of the samples.
    */
-  std::vector<T> vector() const {
-    return std::vector<T>(begin(), end());
+  std::vector<std::remove_const_t<T>> vector() const {
+    return std::vector<std::remove_const_t<T>>(begin(), end());
   }
 
 private:
-- 
2.43.0


From 6254321476d661073ee6953ff42b72a24fe8cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 22/37] fix: median of an even number of values

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..30ee5e1 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*n + *std::max_element(b, n)) * .5;
   }
 
 private:
-- 
2.43.0


From dcc7d35373da22882315a095d53d6a4f0061b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 23/37] fix: median filtering over the whole output raster by
 default

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 30ee5e1..60a040f 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -60,7 +60,7 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
@@ -72,6 +72,14 @@ public:
     }
   }
 
+  /**
+   * @brief Apply the filter over the whole output raster.
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, out.domain());
+  }
+
   /**
    * @brief Compute the median value of an iterable.
    * @warning
-- 
2.43.0


From 369eff1f11d3ae1f4cd7c4cfc2e98931a9fc122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 24/37] fix: weights of the quantile interpolation

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..505dc98 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -151,7 +151,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const T lower = nth(f); // Copied because nth(f + 1) permutes the values
+    const T upper = nth(f + 1);
+    return lower * (1. - d) + upper * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 4c50395120fae941818fa1a4a965de50e6545e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 25/37] fix: do not count past the last bin of the histogram

---
 LitlContainer/LitlContainer/DataDistribution.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 505dc98..c3e8720 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -178,9 +178,6 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
-    }
     return out;
   }
 
-- 
2.43.0


From fe01899254d0e9c4c26f31b2091732aeb6bed5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 26/37] fix: mean, variance and median absolute deviation of
 integers

---
 LitlContainer/LitlContainer/DataDistribution.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index c3e8720..2eca581 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -8,6 +8,8 @@
 #include "LitlTypes/TypeUtils.h"
 
 #include <algorithm>
+#include <cmath> // abs
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -107,7 +109,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return std::accumulate(m_values.begin(), m_values.end(), Floating {}) / size();
   }
 
   /**
@@ -121,19 +123,24 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    const auto m = mean();
+    Floating sum2 {};
+    for (const auto& v : m_values) {
+      sum2 += (v - m) * (v - m);
+    }
+    return sum2 / (size() - unbiased);
   }
 
   /**
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From 3cd2f4169fc6662473ca536d1dd09d4f7ae035d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 27/37] fix: do not overflow the unused sum of squares of a
 distribution

---
 LitlContainer/LitlContainer/DataDistribution.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 2eca581..dc8c4d1 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -47,11 +47,9 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
     }
   }
 
@@ -215,11 +213,6 @@ private:
    * @brief The cached sum.
    */
   T m_sum;
-
-  /**
-   * @brief The cached sum of squares.
-   */
-  T m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From 22aa9bd08678edbc546ba70b87335fdfaf6d666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 28/37] fix: copies of subraster iterators do not refer to the
 original iterator

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 6c00c8c..d1fdbc1 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -24,6 +24,13 @@ public:
       m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
+  /**
+   * @brief Copy constructor (each iterator refers to its own hyperplane).
+   */
+  Iterator(const Iterator& other) :
+      m_raster(other.m_raster), m_beginPlane(other.m_beginPlane), m_beginIt(m_beginPlane, *other.m_beginIt),
+      m_width(other.m_width), m_current(other.m_current), m_eol(other.m_eol) {}
+
   /**
    * @brief Dereference operator.
    */
-- 
2.43.0


From c37c5798ca61c862dcddf06f2b4f4fba645b2cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 29/37] fix: copies of ball iterators do not refer to the
 original iterator

---
 LitlRaster/LitlRaster/BallIterator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..8bf0fba 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -22,6 +22,13 @@ public:
     }
   }
 
+  /**
+   * @brief Copy constructor (each iterator refers to its own bounding box).
+   */
+  Iterator(const Iterator& other) :
+      m_radiusP(other.m_radiusP), m_center(other.m_center), m_box(other.m_box), m_current(m_box, *other.m_current),
+      m_end(m_box, *other.m_end) {}
+
   static Position<N> beginPosition(const Ball<N, P>& region) {
     return Box<N>::Iterator::beginPosition(region.box());
   }
-- 
2.43.0


From a5b5a0095131af272c89c91c75c896f127c2127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 30/37] fix: size of a ball

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..d96d8c8 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,7 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    return std::distance(begin(*this), end(*this));
   }
 
   /**
-- 
2.43.0


From dbeaebb505c23b6fdd1c53985f04fe8ec0871155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 31/37] fix: standard deviation of large increments is not NaN

---
 LitlRun/LitlRun/Chronometer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..23fcca4 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](double sum, double inc) {
+      return sum + (inc - m) * (inc - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From ee5ed2978e36ed20a798562d1eaceaee578462a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 32/37] fix: ill-formed return types of
 SeparableKernel::begin() and end()

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index abfcc03..7078ee1 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -129,14 +129,14 @@ public:
   /**
    * @brief Beginning iterator over `{Index, LineKernel}` pairs.
    */
-  const decltype(auto) begin() const {
+  decltype(auto) begin() const {
     return m_kernels.begin();
   }
 
   /**
    * @brief End iterator over `{Index, LineKernel}` pairs.
    */
-  const decltype(auto) end() const {
+  decltype(auto) end() const {
     return m_kernels.end();
   }
 
-- 
2.43.0


From 664b62ad2dec52a6c9b3f2993b1bd29625d639ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 33/37] fix: make SeparableKernel::laplacian() compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 7078ee1..fcd6ca3 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -94,7 +94,8 @@ public:
    * or `{-1, 2, -1}` if sign is -1.
    */
   static SeparableKernel laplacian(T sign = 1) {
-    return SeparableKernel(LineKernel<T>({sign, sign * -2, sign}));
+    const LineKernel<T> kernel({sign, sign * -2, sign});
+    return SeparableKernel(kernel);
   }
 
   /// @group_properties
-- 
2.43.0


From 687c7dcdffd411c1d9021e94312f43355eb993bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:24 +0000
Subject: [PATCH 34/37] fix: write and read FITS images with the type of the
 pixels

Every type but the 8-bit ones was written and read as bytes.
---
 LitlIo/LitlIo/Fits.h | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..fb8eedf 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -9,9 +9,45 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits>
 
 namespace Litl {
 
+/// @cond
+namespace Internal {
+
+/**
+ * @brief The CFITSIO codes (image type and data type) of a pixel type.
+ */
+template <typename T>
+struct FitsType;
+
+#define LITL_FITS_TYPE(type, image, data) \
+  template <> \
+  struct FitsType<type> { \
+    static constexpr int Image = image; \
+    static constexpr int Data = data; \
+  };
+
+LITL_FITS_TYPE(char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(signed char, SBYTE_IMG, TSBYTE)
+LITL_FITS_TYPE(unsigned char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(short, SHORT_IMG, TSHORT)
+LITL_FITS_TYPE(unsigned short, USHORT_IMG, TUSHORT)
+LITL_FITS_TYPE(int, LONG_IMG, TINT)
+LITL_FITS_TYPE(unsigned int, ULONG_IMG, TUINT)
+LITL_FITS_TYPE(long, LONGLONG_IMG, TLONG)
+LITL_FITS_TYPE(unsigned long, ULONGLONG_IMG, TULONG)
+LITL_FITS_TYPE(long long, LONGLONG_IMG, TLONGLONG)
+LITL_FITS_TYPE(unsigned long long, ULONGLONG_IMG, TULONGLONG)
+LITL_FITS_TYPE(float, FLOAT_IMG, TFLOAT)
+LITL_FITS_TYPE(double, DOUBLE_IMG, TDOUBLE)
+
+#undef LITL_FITS_TYPE
+
+} // namespace Internal
+/// @endcond
+
 class Fits {
 
 public:
@@ -27,7 +63,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsType<std::decay_t<typename TRaster::Value>>::Data,
         1,
         out.size(),
         nullptr,
@@ -46,13 +82,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        Internal::FitsType<std::decay_t<typename TRaster::Value>>::Image,
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsType<std::decay_t<typename TRaster::Value>>::Data,
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From a77a9b1797d0952f7d9786af784b625a8a146c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:52 +0000
Subject: [PATCH 35/37] fix: shift boxes by their own bounds

---
 LitlRaster/LitlRaster/Box.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 40245fe..a815399 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -219,8 +219,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator+=(const Position<N>& shift) {
-    m_front += shift;
-    m_back += shift;
+    const auto by = shift; // shift may be the front or back of this
+    m_front += by;
+    m_back += by;
     return *this;
   }
 
@@ -228,8 +229,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator-=(const Position<N>& shift) {
-    m_front -= shift;
-    m_back -= shift;
+    const auto by = shift; // shift may be the front or back of this
+    m_front -= by;
+    m_back -= by;
     return *this;
   }
 
-- 
2.43.0


From b32a4b61a6e0b7888d7706657771156919403412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:26 +0000
Subject: [PATCH 36/37] fix: post-increments of box, subraster and ball
 iterators give the previous iterator

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 6 ++++--
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index 8bf0fba..64aeabe 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -49,8 +49,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index a988c0c..57dbdc1 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -60,8 +60,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index d1fdbc1..29a7aae 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -55,8 +55,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From a949850928f3d35a7bcf408994dc3b53e704d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:32 +0000
Subject: [PATCH 37/37] fix: refuse positions of another dimension in checked
 access

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 59ffa1b..b136dd5 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -113,6 +113,7 @@ inline T& Raster<T, N, THolder>::operator[](const Position<N>& pos) {
 
 template <typename T, Index N, typename THolder>
 inline const T& Raster<T, N, THolder>::at(const Position<N>& pos) const {
+  SizeError::mayThrow(pos.size(), dimension());
   auto boundedPos = pos;
   for (Index i = 0; i < dimension(); ++i) {
     auto& b = boundedPos[i];
-- 
2.43.0

