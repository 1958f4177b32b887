From 676e6cb65a34a8b8ac3df798f3649f72cb993f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:09 +0000
Subject: [PATCH 1/5] fix: honour the basic type passed to
 QuadratureRules::rule

The overload taking a GeometryType::BasicType passed the enumerator on as a
topology id. A request for cube in two dimensions got a triangle rule.
---
 dune/geometry/quadraturerules.hh | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..9a534db 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -331,8 +331,24 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
-      return instance()._rule(gt,p,qt);
+      switch( t )
+      {
+      case GeometryType::simplex :
+        return instance()._rule(GeometryTypes::simplex(dim),p,qt);
+      case GeometryType::cube :
+        return instance()._rule(GeometryTypes::cube(dim),p,qt);
+      case GeometryType::pyramid :
+        if( dim == 3 )
+          return instance()._rule(GeometryTypes::pyramid,p,qt);
+        break;
+      case GeometryType::prism :
+        if( dim == 3 )
+          return instance()._rule(GeometryTypes::prism,p,qt);
+        break;
+      default :
+        break;
+      }
+      DUNE_THROW(NotImplemented, "No quadrature rules for this basic geometry type in dimension " << dim);
     }
   };
 
-- 
2.43.0


From 4ece97cf3c014a3ddcfd6c61670ed81e52e3d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:09 +0000
Subject: [PATCH 2/5] fix: refuse quadrature orders outside the available range

A negative order or one above maxOrder() indexed past the end of the rule table
instead of raising QuadratureOrderOutOfRange.
---
 dune/geometry/quadraturerules.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 9a534db..42690b7 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -295,7 +295,12 @@ namespace Dune {
       });
 
       // we only have one quadrature rule for points
-      auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
+      const std::size_t orderIndex = dim == 0 ? 0 : p;
+      if (orderIndex >= quadratureOrders.size())
+        DUNE_THROW(QuadratureOrderOutOfRange,
+                   "QuadratureRule for order " << p << " and GeometryType " << t << " not available");
+
+      auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[orderIndex];
       // initialize quadrature rule once
       std::call_once(onceFlagQuadratureOrder, [&, &rule = quadratureRule]{
         rule = QuadratureRuleFactory<ctype,dim>::rule(t, p, qt);
-- 
2.43.0


From a2d0027e57bc574d0fb63deddbce47c4dea90ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:26 +0000
Subject: [PATCH 3/5] fix: release temporary storage when computing outer
 normals fails

The array of face origins was allocated with new[] and freed at the end.
An exception thrown by the number type in between lost it.
Hold it in a vector instead.
---
 dune/geometry/referenceelementimplementation.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dune/geometry/referenceelementimplementation.hh b/dune/geometry/referenceelementimplementation.hh
index bc7360e..e8b7e18 100644
--- a/dune/geometry/referenceelementimplementation.hh
+++ b/dune/geometry/referenceelementimplementation.hh
@@ -334,16 +334,13 @@ namespace Dune
       {
         assert( (dim > 0) && (dim <= cdim) );
 
-        FieldVector< ct, cdim > *origins
-          = new FieldVector< ct, cdim >[ size( topologyId, dim, 1 ) ];
-        referenceOrigins( topologyId, dim, 1, origins );
+        std::vector< FieldVector< ct, cdim > > origins( size( topologyId, dim, 1 ) );
+        referenceOrigins( topologyId, dim, 1, origins.data() );
 
         const unsigned int numFaces
-          = referenceIntegrationOuterNormals( topologyId, dim, origins, normals );
+          = referenceIntegrationOuterNormals( topologyId, dim, origins.data(), normals );
         assert( numFaces == size( topologyId, dim, 1 ) );
 
-        delete[] origins;
-
         return numFaces;
       }
 
-- 
2.43.0


From 0a17856415d525aa14aece901041d6f5474ef539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:46 +0000
Subject: [PATCH 4/5] fix: let exceptions of the local basis leave affine()

The corners were computed inside a range view whose access is noexcept.
An exception thrown by the local basis therefore ended the program.
Compute the corners first.
---
 dune/geometry/localfiniteelementgeometry.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..479e70e 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -403,9 +403,10 @@ private:
         // an affine mapping from dim+1 affine-independent corners and evaluating
         // at the other corners.
         auto refSimplex = referenceElement<ctype,mydimension>(GeometryTypes::simplex(mydimension));
-        auto simplexIndices = Dune::range(refSimplex.size(mydimension));
-        auto simplexCorners = Dune::transformedRangeView(simplexIndices,
-          [&](int i) { return this->global(refSimplex.position(i,mydimension)); });
+        std::vector<GlobalCoordinate> simplexCorners;
+        simplexCorners.reserve(refSimplex.size(mydimension));
+        for (int i = 0; i < refSimplex.size(mydimension); ++i)
+          simplexCorners.push_back(global(refSimplex.position(i,mydimension)));
         AffineGeometry<ctype,mydimension,coorddimension> affineGeo(refSimplex,simplexCorners);
         using std::sqrt;
         const ctype tol = sqrt(std::numeric_limits<ctype>::epsilon());
-- 
2.43.0


From 66b54cfb0b49f947bfeae556500b4a9063e23302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:58 +0000
Subject: [PATCH 5/5] fix: make assignment of refinement iterators safe

The old state was released before the new one was copied.
Assigning an iterator to itself read released memory.
A failing copy left a dangling pointer that was released again later.
Copy first and release afterwards.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..2ce388a 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *copy = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = copy;
     return *this;
   }
 
-- 
2.43.0

