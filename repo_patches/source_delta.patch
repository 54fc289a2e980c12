From 264e0eafc33b26c59f10bf1e00fa0786e5719ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 01/23] fix: ReservedDeque::push_back respects the position of
 the first entry

push_back() stored the new entry at position size_ of the ring buffer
instead of relative to first_, so entries were lost after push_front()
or pop_front(). The initializer_list constructor left first_ uninitialized.
---
 dune/functions/common/reserveddeque.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..bb11d94 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -78,7 +78,8 @@ namespace Functions {
       first_(0)
     {}
 
-    ReservedDeque(std::initializer_list<T> const &l)
+    ReservedDeque(std::initializer_list<T> const &l) :
+      first_(0)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
       size_ = l.size();
@@ -107,7 +108,8 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_) % n] = t;
+      ++size_;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From 807601a19237716adefeeb06e6970e859be32bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:16 +0000
Subject: [PATCH 02/23] fix: OverflowArray::push_front increases the size and
 keeps all entries

The size was not increased, and entries were copied in ascending order,
such that the first one overwrote all others.
---
 dune/functions/common/overflowarray.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..398a753 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,9 +125,12 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
-    (*this)[0] = t;
+    // The argument may refer to an entry of this container
+    const value_type front = t;
+    ++size_;
+    for (size_type i=size()-1; i>0; i--)
+      (*this)[i] = (*this)[i-1];
+    (*this)[0] = front;
   }
 
   //! Returns a iterator pointing to the beginning of the OverflowArray.
-- 
2.43.0


From 3400a413b2017e60452745e4f671ded19215142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 03/23] fix: PolymorphicSmallObject: copying an empty object
 yields an empty object

---
 dune/functions/common/polymorphicsmallobject.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..4347cc6 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -179,7 +179,9 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
-    if (other.bufferUsed())
+    if (not other)
+      p_ = nullptr;
+    else if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
       p_ = other.p_->clone();
-- 
2.43.0


From 72b4e00f821139ef06b51b41a3f14955411a43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 04/23] fix: PolymorphicSmallObject: do not destroy the old
 object twice if copy assignment throws

---
 dune/functions/common/polymorphicsmallobject.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 4347cc6..5bca5b2 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -155,6 +155,8 @@ private:
         p_->~Base();
       else
         delete p_;
+      // Don't destroy the object again, if storing a new one fails
+      p_ = nullptr;
     }
   }
 
-- 
2.43.0


From e347af422571456e74854421cf03ea311883b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:56 +0000
Subject: [PATCH 05/23] fix: PolymorphicSmallObject: self move assignment, e.g.
 in std::swap(x,x), keeps the object

---
 dune/functions/common/polymorphicsmallobject.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 5bca5b2..ced6279 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -116,8 +116,11 @@ public:
   //! Move assignment from other PolymorphicSmallObject
   PolymorphicSmallObject& operator=(PolymorphicSmallObject&& other) noexcept
   {
-    destroyWrappedObject();
-    moveToWrappedObject(std::move(other));
+    if (&other!=this)
+    {
+      destroyWrappedObject();
+      moveToWrappedObject(std::move(other));
+    }
     return *this;
   }
 
@@ -166,10 +169,8 @@ private:
       p_ = other.p_->move(&buffer_);
     else
     {
-      // We don't need to check for &other_!=this, because you can't
-      // have an rvalue to *this and call it's assignment/constructor
-      // at the same time. (Despite trying to shoot yourself in the foot
-      // with std::move explicitly.)
+      // We don't need to check for &other_!=this,
+      // because the assignment operator already did.
 
       // Take ownership of allocated object
       p_ = other.p_;
-- 
2.43.0


From 59c3e81dd99dd8e18ddf61f7085afe550c804120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 06/23] fix: GeometryInAncestor: copies refer to their own
 coarse element

---
 dune/functions/common/geometryinancestor.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..0f2bf1b 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
-- 
2.43.0


From 87569111f7b1c94df9ef59ab488e23252615f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:07 +0000
Subject: [PATCH 07/23] fix: GeometryInAncestor: bind() with a temporary
 element returns the coarse element

---
 dune/functions/common/geometryinancestor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 0f2bf1b..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 375c4b98ba96e988c18487cdfdb512d047f010ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:13 +0000
Subject: [PATCH 08/23] fix: container descriptors: flat power bases of array
 and tuple descriptors

flatLexicographicN() and flatInterleavedN() called emplace_back() on a
std::array and did not accept tuple descriptors with a dynamic number of
children, so containerDescriptor() did not compile for such bases.
---
 .../containerdescriptors.hh                   | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..d7d9419 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -347,10 +345,16 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A heterogeneous descriptor cannot be repeated a dynamic number of times
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
+  }
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +408,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -416,10 +418,16 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
 template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
-  constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A heterogeneous descriptor cannot be repeated a dynamic number of times
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+  {
+    constexpr std::size_t m = sizeof...(GrandChild);
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/N::value>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
+  }
 }
 
 } // end namespace Impl
-- 
2.43.0


From 6c497b6ee5590b13bc8460114211ef71d11cbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 09/23] fix: istlVectorFactory: wrap a single child instead of
 copying it

BlockVector{x} copied the vector of the only child due to class template
argument deduction, losing one blocking level.
---
 dune/functions/backends/istlvectorfactory.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..021ce7d 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,9 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -58,8 +59,9 @@ struct ISTLVectorFactory
   auto operator() (const UniformArray<V,n>& tree) const
   {
     auto node = (*this)(tree[0]);
+    using W = decltype(node);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<W>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 3bc27c9d199c1e6daedf2719dd9e1b4c62dff8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 10/23] fix: DefaultLocalView: deep copy in copy assignment

The implicit copy assignment copied the tree memberwise. Its nodes then
referred to the element (and finite element cache) stored in the other view,
which may be rebound or destroyed later.
---
 .../functionspacebases/defaultlocalview.hh        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..510d58c 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -87,6 +87,21 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy assignment of the local view */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+  {
+    if (this != &other)
+    {
+      globalBasis_ = other.globalBasis_;
+      element_.reset();
+      tree_ = globalBasis_->preBasis().makeNode();
+      initializeTree(tree_);
+      if (other.bound())
+        bind(other.element());
+    }
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From a4e9741b2f3eddab2021fec88c5f11c17df31318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 11/23] fix: periodic basis: identify indices transitively

An index occurring as the larger one in several pairs lost all but its last
identification, e.g. for the pairs (0,2) and (1,2).
---
 .../functionspacebases/periodicbasis.hh       | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..9fe59a9 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -9,7 +9,8 @@
 
 #include <utility>
 #include <type_traits>
-#include <limits>
+#include <algorithm>
+#include <numeric>
 #include <set>
 #include <vector>
 
@@ -85,20 +86,26 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Compute the smallest index of each class of (transitively) identified indices.
+    // Initially each index is its own representative and representatives never
+    // exceed the represented index.
+    std::vector<std::size_t> representative(rawPreBasis.size());
+    std::iota(representative.begin(), representative.end(), 0);
+    auto findRepresentative = [&](std::size_t i) {
+      while (representative[i] != i)
+        i = representative[i];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto [first, second] = std::minmax({findRepresentative(a), findRepresentative(b)});
+      representative[second] = first;
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
+    // Enumerate the classes in the order of their smallest index
+    mappedIdx_.resize(rawPreBasis.size());
+    numIndices_ = 0;
+    for(std::size_t i = 0; i<rawPreBasis.size(); ++i)
+      mappedIdx_[i] = (representative[i] == i) ? numIndices_++ : mappedIdx_[representative[i]];
   }
 
   template<class MultiIndex, class PreBasis>
-- 
2.43.0


From d3be10639b836d3afbd23e0918db5ed332b74115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:36 +0000
Subject: [PATCH 12/23] fix: periodic basis: container descriptor counts the
 identified indices only once

---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index 9fe59a9..d9d8b8c 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -132,7 +132,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return ContainerDescriptors::FlatVector(numIndices_);
   }
 
 private:
-- 
2.43.0


From 80413d047cf4d6e42a766925a26e92c244098717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:54 +0000
Subject: [PATCH 13/23] fix: number triangular and quadrilateral facets
 separately in the Rannacher-Turek basis

In 3d grids with tetrahedra and hexahedra the index set numbers the
facets of each geometry type from zero, such that degrees of freedom on
triangles and quadrilaterals were given the same index.
---
 .../functionspacebases/rannacherturekbasis.hh        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/rannacherturekbasis.hh b/dune/functions/functionspacebases/rannacherturekbasis.hh
index de41d63..b742792 100644
--- a/dune/functions/functionspacebases/rannacherturekbasis.hh
+++ b/dune/functions/functionspacebases/rannacherturekbasis.hh
@@ -123,7 +123,17 @@ public:
         const auto& gridIndexSet = gridView().indexSet();
         const auto& element = node.element();
 
-        *it = {{ (size_type)(gridIndexSet.subIndex(element,localKey.subEntity(),1)) }};
+        // The index set numbers the facets of each geometry type separately
+        const auto facetType = referenceElement(element).type(localKey.subEntity(), 1);
+        size_type offset = 0;
+        for(const auto& type : gridIndexSet.types(1))
+        {
+          if (type == facetType)
+            break;
+          offset += gridIndexSet.size(type);
+        }
+
+        *it = {{ offset + (size_type)(gridIndexSet.subIndex(element,localKey.subEntity(),1)) }};
       }
     return it;
   }
-- 
2.43.0


From 0b93864b4489de39457a5abac1a4daa120240269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:01 +0000
Subject: [PATCH 14/23] fix: number of element-interior degrees of freedom of
 the Brezzi-Douglas-Marini basis of order 2

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..38bb440 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isCube() ? k*(k-1) : (k+1)*(k-1);
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From 028f31e090f919dc679f83fef02449abcc135025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:01 +0000
Subject: [PATCH 15/23] fix: Morley basis: update the element mapper before
 recomputing the edge orientations

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From a5546283ceaceadca8b14dd7b626a6ad36b94f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 16/23] fix: keep the local basis of transformed finite
 elements attached on assignment

The implicitly defined copy assignment copied the TransformedLocalBasis
including its pointer to the other finite element.
---
 .../functionspacebases/transformedfiniteelementmixin.hh    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..d75aa79 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,13 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    // The local basis refers to the finite element it is part of,
+    // it must thus not be copied from the other one.
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const& other)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From 9583ef6eb841dda554f5d99f683618040225c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 17/23] fix: do not refer to the copied finite element in
 Hermite and Argyris interpolation

The local interpolation stored a pointer to a member of the finite element
that it is part of. A copy of the finite element thus interpolated with the
mesh sizes of the original one.
---
 dune/functions/functionspacebases/argyrisbasis.hh      | 6 +++---
 dune/functions/functionspacebases/cubichermitebasis.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/functions/functionspacebases/argyrisbasis.hh b/dune/functions/functionspacebases/argyrisbasis.hh
index dd8a77f..0ef6772 100644
--- a/dune/functions/functionspacebases/argyrisbasis.hh
+++ b/dune/functions/functionspacebases/argyrisbasis.hh
@@ -470,7 +470,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const& element, std::array<D, 3>const& averageVertexMeshSize, std::bitset<3>const& edgeOrientation)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
 
         auto geometry = element.geometry();
 
@@ -514,7 +514,7 @@ namespace Dune::Functions
           auto&& x = localVertices_[i];
           auto derivativeValue = squeezeTensor(df(x));
           auto hessianValue = squeezeTensor(Hf(x));
-          auto && h = (*averageVertexMeshSize_)[i];
+          auto && h = averageVertexMeshSize_[i];
 
           out[offset ] = f(x);
 
@@ -543,7 +543,7 @@ namespace Dune::Functions
       std::array<Dune::FieldVector<D, 2>, 3> globalNormals_;
       std::array<Dune::FieldVector<D, 2>, 3> localMidpoints_;
       std::array<Dune::FieldVector<D, 2>, 3> localVertices_;
-      std::array<D, 3> const* averageVertexMeshSize_;
+      std::array<D, 3> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..ef03d2a 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -453,7 +453,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const &element, std::array<D, dim+1>const& averageVertexMeshSize)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
       }
 
       /** \brief Evaluate a given function and its derivatives at the nodes
@@ -477,7 +477,7 @@ namespace Dune::Functions
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
           for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * averageVertexMeshSize_[i];
         }
 
         if constexpr (not reduced)
@@ -496,7 +496,7 @@ namespace Dune::Functions
       }
 
     protected:
-      std::array<D, dim+1> const* averageVertexMeshSize_;
+      std::array<D, dim+1> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
-- 
2.43.0


From 01687f2fb8e899f1c502943baede269ed180e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 18/23] fix: B-spline basis: elements are the non-empty spans
 of knot vectors with repeated knots

---
 dune/functions/functionspacebases/bsplinebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..14fd98e 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -600,8 +600,12 @@ public:
                      bool makeOpen = true)
   : gridView_(gridView)
   {
-    // \todo Detection of duplicate knots
-    std::fill(elements_.begin(), elements_.end(), knotVector.size()-1);
+    // Elements are the non-empty knot spans
+    unsigned int elements = 0;
+    for (std::size_t i=0; i+1<knotVector.size(); i++)
+      if (not (knotVector[i+1] < knotVector[i]+1e-8))
+        elements++;
+    std::fill(elements_.begin(), elements_.end(), elements);
 
     // Mediocre sanity check: we don't know the number of grid elements in each direction.
     // but at least we know the total number of elements.
-- 
2.43.0


From b9fb80bb68c350fa3c50fb4a168fe8a19ec126d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 19/23] fix: B-spline basis: copies of a bound finite element
 stay bound

---
 dune/functions/functionspacebases/bsplinebasis.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 14fd98e..8a3fbe5 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -389,8 +389,13 @@ public:
    */
   BSplineLocalFiniteElement(const BSplineLocalFiniteElement& other)
   : preBasis_(other.preBasis_),
-    localBasis_(preBasis_,*this)
-  {}
+    localBasis_(preBasis_,*this),
+    localCoefficients_(other.localCoefficients_),
+    currentKnotSpan_(other.currentKnotSpan_)
+  {
+    localBasis_.offset_ = other.localBasis_.offset_;
+    localBasis_.scaling_ = other.localBasis_.scaling_;
+  }
 
   /** \brief Bind LocalFiniteElement to a specific knot span of the spline patch
    *
-- 
2.43.0


From 84df2529d8c9803ebf4361f1732ddfd85cf85878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 20/23] fix: Taylor-Hood basis: hybrid indices end with the
 velocity component

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..2cf6867 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -262,7 +262,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From e5040bd6485a6d700e468f08cc71d930e9277f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 21/23] fix: Taylor-Hood basis: update the stored grid view

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 2cf6867..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From 614444051cffad2a14326b81dc74dd360f0ffc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 22/23] fix: FunctionalDescriptor::isPartialDerivative() did
 not compile: access the stored order array

---
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From 7940fa89a5fcb41046bd80692cb938a922af0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 23/23] fix: 1D cubic Hermite basis: describe the derivative
 functionals as partial derivatives

FunctionalDescriptor({1}) selected the constructor taking a normal
derivative order.
---
 dune/functions/functionspacebases/cubichermitebasis.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index ef03d2a..2aee048 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -405,9 +405,9 @@ namespace Dune::Functions
         if constexpr (dim==1)
         {
           descriptors_[0] = FunctionalDescriptor();
-          descriptors_[1] = FunctionalDescriptor({1});
+          descriptors_[1] = FunctionalDescriptor(std::array<unsigned int, 1>{1});
           descriptors_[2] = FunctionalDescriptor();
-          descriptors_[3] = FunctionalDescriptor({1});
+          descriptors_[3] = FunctionalDescriptor(std::array<unsigned int, 1>{1});
         }
         if constexpr (dim==2)
         {
-- 
2.43.0

