From 4bc75e3a9b9e444de8ee1e45c96d9dbfd54f4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 001/100] fix: single-element meshes: consistent faces,
 boundary and subdomain info

The quad listed its diagonals as edges, the hexahedron stored two faces with
a node order faces() never asks for, the tetrahedron left its tables unsorted
(lookups are binary searches) and without nodes, and none of the simplicial or
cartesian variants sized boundary_info.
---
 libdiskpp/include/diskpp/mesh/meshgen.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/meshgen.hpp b/libdiskpp/include/diskpp/mesh/meshgen.hpp
index 3d70a7a..3773c40 100644
--- a/libdiskpp/include/diskpp/mesh/meshgen.hpp
+++ b/libdiskpp/include/diskpp/mesh/meshgen.hpp
@@ -897,6 +897,7 @@ void make_single_element_mesh(generic_mesh<T,1>& msh, const T& a, const T& b)
     boundary_descriptor bi(0, true);
     storage->boundary_info.at(0) = bi;
     storage->boundary_info.at(1) = bi;
+    storage->subdomain_info.resize( 1 );
 }
 
 template<typename T>
@@ -928,6 +929,7 @@ void make_single_element_mesh(simplicial_mesh<T,2>& msh, const point<T,2>& a, co
     storage->edges.push_back( {p1, p2} );
 
     storage->surfaces.push_back( {p0, p1, p2} );
+    storage->boundary_info.resize( storage->edges.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
@@ -956,6 +958,11 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     auto p2 = point_identifier<3>(2);
     auto p3 = point_identifier<3>(3);
 
+    storage->nodes.push_back( { p0 } );
+    storage->nodes.push_back( { p1 } );
+    storage->nodes.push_back( { p2 } );
+    storage->nodes.push_back( { p3 } );
+
     // Base face
     storage->edges.push_back( {p0, p1} );
     storage->edges.push_back( {p0, p2} );
@@ -974,8 +981,13 @@ void make_single_element_mesh(simplicial_mesh<T,3>& msh,
     // Back face
     storage->surfaces.push_back( {p0, p2, p3} );
 
+    // Lookups are binary searches
+    std::sort(storage->edges.begin(), storage->edges.end());
+    std::sort(storage->surfaces.begin(), storage->surfaces.end());
+
     storage->volumes.push_back( {p0, p1, p2, p3} );
 
+    storage->boundary_info.resize( storage->surfaces.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 
 }
@@ -1008,11 +1020,12 @@ void make_single_element_mesh(cartesian_mesh<T,2>& msh, const point<T,2>& base,
     storage->nodes.push_back( { p3 } );
 
     storage->edges.push_back( {p0, p1} );
-    storage->edges.push_back( {p0, p3} );
-    storage->edges.push_back( {p1, p2} );
+    storage->edges.push_back( {p0, p2} );
+    storage->edges.push_back( {p1, p3} );
     storage->edges.push_back( {p2, p3} );
 
     storage->surfaces.push_back( {p0, p1, p2, p3} );
+    storage->boundary_info.resize( storage->edges.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
@@ -1073,12 +1086,13 @@ void make_single_element_mesh(cartesian_mesh<T,3>& msh, const point<T,3>& base,
     storage->surfaces.push_back( {p4, p5, p7, p6} );
     storage->surfaces.push_back( {p0, p2, p6, p4} );
     storage->surfaces.push_back( {p1, p3, p7, p5} );
-    storage->surfaces.push_back( {p0, p1, p5, p4} );
-    storage->surfaces.push_back({ p2, p3, p7, p6 });
+    storage->surfaces.push_back( {p0, p4, p5, p1} );
+    storage->surfaces.push_back( {p2, p6, p7, p3} );
     std::sort(storage->surfaces.begin(), storage->surfaces.end());
 
     storage->volumes.push_back( {p0, p1, p2, p3, p4, p5, p6, p7} );
 
+    storage->boundary_info.resize( storage->surfaces.size(), boundary_descriptor(0, true) );
     storage->subdomain_info.resize( 1 );
 }
 
-- 
2.43.0


From bdde242f88de792a7458f14ddad44b512c0ebcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 002/100] fix: loaders: size subdomain_info and mark internal
 interfaces everywhere

domain_info() asserted or threw on meshes read by the medit, poly, fvca6,
cartesian and uniform loaders, and the medit and poly loaders reported faces
of internal groups as if they were on the domain boundary only.
---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 4 ++++
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp     | 2 ++
 libdiskpp/include/diskpp/loaders/loader_medit.hpp     | 4 ++++
 libdiskpp/include/diskpp/loaders/loader_poly.hpp      | 4 ++++
 libdiskpp/include/diskpp/loaders/loader_uniform.hpp   | 1 +
 5 files changed, 15 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index df34061..94b4407 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -338,6 +338,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
             std::cout << "Volumes: " << storage->volumes.size() << std::endl;
         }
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
         boundary_surfaces.clear();
 
         return true;
@@ -551,6 +553,8 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
             std::cout << "Faces: " << storage->surfaces.size() << std::endl;
         }
 
+        storage->subdomain_info.resize(storage->surfaces.size());
+
         boundary_edges.clear();
 
         return true;
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa621fe..fa73f26 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -353,6 +353,8 @@ public:
                     storage->boundary_info[i] = bi;
         }
 
+        storage->subdomain_info.resize(storage->volumes.size());
+
         return true;
     }
 };
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index f7245cf..3986516 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -389,6 +389,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
         std::sort(surfaces.begin(), surfaces.end());
         storage->surfaces = std::move(surfaces);
+        storage->subdomain_info.resize(storage->surfaces.size());
+        mark_internal_faces(msh);
 
         return true;
     }
@@ -707,6 +709,8 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             boundary_descriptor bi(m_boundary_edges[i][1], true);
             storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
         }
+        storage->subdomain_info.resize(storage->volumes.size());
+        mark_internal_faces(msh);
 
         return false;
     }
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 7b9878c..f7d97ca 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -363,6 +363,8 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->nodes    = std::move(m_nodes);
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
+        storage->subdomain_info.resize(storage->surfaces.size());
+        mark_internal_faces(msh);
 
         return true;
     }
@@ -658,6 +660,8 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
+        storage->subdomain_info.resize(storage->volumes.size());
+        mark_internal_faces(msh);
 
         return true;
     }
diff --git a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
index e25e8b3..819fcc6 100644
--- a/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_uniform.hpp
@@ -91,6 +91,7 @@ class uniform_mesh_loader<T, 1> : public mesh_loader<generic_mesh<T, 1>>
         boundary_descriptor bi(0, true);
         storage->boundary_info.at(0)             = bi;
         storage->boundary_info.at(num_nodes - 1) = bi;
+        storage->subdomain_info.resize(num_edges);
 
         return true;
     }
-- 
2.43.0


From 1f7bef9ad88d5d1523220379d8fa3b6fcaa969f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 003/100] fix: medit 3D loader: report success after populating
 the mesh

---
 libdiskpp/include/diskpp/loaders/loader_medit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 3986516..c0766e3 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -712,7 +712,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->subdomain_info.resize(storage->volumes.size());
         mark_internal_faces(msh);
 
-        return false;
+        return true;
     }
 };
 
-- 
2.43.0


From 47ff8978e71c78638471dbc006e36a6dfd844a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 004/100] fix: rational: keep the denominator positive and the
 result reduced

---
 libdiskpp/include/diskpp/mesh/rational.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/rational.hpp b/libdiskpp/include/diskpp/mesh/rational.hpp
index 320e067..6493a89 100644
--- a/libdiskpp/include/diskpp/mesh/rational.hpp
+++ b/libdiskpp/include/diskpp/mesh/rational.hpp
@@ -47,7 +47,7 @@ template<typename I>
 I gcd(I a, I b)
 {
     if (b == 0)
-       return a;
+       return (a < 0) ? -a : a;
 
     return gcd(b, a%b);
 }
@@ -216,6 +216,7 @@ public:
     {
         m_den *= other;
         assert(m_den != 0);
+        simplify();
         return *this;
     }
 
-- 
2.43.0


From f99b7dd8b1d637da2a0ae380fcc6f1aba43ef586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 005/100] fix: area of a triangle with rational coordinates

---
 libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
index 798ecc6..01610c4 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_simplicial.hpp
@@ -357,7 +357,7 @@ measure(const simplicial_mesh<rational<T>, 2>&                msh,
     const auto d0 = (pts[1] - pts[0]);
     const auto d1 = (pts[2] - pts[0]);
 
-    const auto area = d0.x() * d1.y() - d1.x() * d0.y();
+    const auto area = (d0.x() * d1.y() - d1.x() * d0.y()) / T(2);
 
     if (signed_volume)
     {
-- 
2.43.0


From 22b11c8006543d3ecbb98dd72d9ec57909007468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 006/100] fix: measure of a cartesian hexahedron: a cell has
 eight points

---
 libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
index 860b8d1..0048b5f 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_hexahedral.hpp
@@ -267,7 +267,7 @@ measure(const cartesian_mesh<T,3>& msh,
         const typename cartesian_mesh<T,3>::cell& cl)
 {
     auto pts = points(msh, cl);
-    assert(pts.size() == 4);
+    assert(pts.size() == 8);
     auto v0 = (pts[1] - pts[0]).to_vector().norm();
     auto v1 = (pts[2] - pts[0]).to_vector().norm();
     auto v2 = (pts[4] - pts[0]).to_vector().norm();
-- 
2.43.0


From 523601e6216eb45faf2da0abbb239b68fe977f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 007/100] fix: polygon barycenter: avoid cancellation far from
 the origin

---
 libdiskpp/include/diskpp/geometry/geometry_generic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
index 226f734..2837a53 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_generic.hpp
@@ -234,8 +234,10 @@ barycenter(const generic_mesh<T,2>& msh,
     auto pts = points(msh, cl);
     for (size_t i = 0; i < pts.size(); i++)
     {
-        auto& p0 = pts[i];
-        auto& p1 = pts[(i+1)%pts.size()];
+        /* Work relative to the first vertex: far from the origin the
+         * products would cancel catastrophically. */
+        auto p0 = pts[i] - pts[0];
+        auto p1 = pts[(i+1)%pts.size()] - pts[0];
         auto d = (p0.x()*p1.y() - p1.x()*p0.y());
         Cx += (p0.x() + p1.x())*d;
         Cy += (p0.y() + p1.y())*d;
@@ -245,7 +247,7 @@ barycenter(const generic_mesh<T,2>& msh,
     Cx /= 6*A;
     Cy /= 6*A;
 
-    return point<T,2>(Cx, Cy);
+    return point<T,2>(pts[0].x() + Cx, pts[0].y() + Cy);
 }
 
 
-- 
2.43.0


From 6e77cad069b897140fb319ff99e11b05ea10e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 008/100] fix: area of a degenerate triangle is zero, not NaN

---
 libdiskpp/include/diskpp/common/simplicial_formula.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/common/simplicial_formula.hpp b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
index c46a19a..efadfdb 100644
--- a/libdiskpp/include/diskpp/common/simplicial_formula.hpp
+++ b/libdiskpp/include/diskpp/common/simplicial_formula.hpp
@@ -59,7 +59,10 @@ area_triangle_kahan(const point<T, N>& p0, const point<T, N>& p1, const point<T,
     const T b = length[1];
     const T c = length[0];
 
-    return T(0.25) * std::sqrt((a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c)));
+    /* Rounding can make the second factor negative if the points are aligned. */
+    const T d = std::max(T(0), c - (a - b));
+
+    return T(0.25) * std::sqrt((a + (b + c)) * d * (c + (a - b)) * (a + (b - c)));
 }
 
 /**
-- 
2.43.0


From c88fd69c558efdb03485e1db6f5ae7dc5ff9cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 009/100] fix: normal of a 3D face whose first three vertices
 are aligned

---
 .../include/diskpp/geometry/geometry_all.hpp  | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 7604282..c8a2d52 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -392,6 +392,27 @@ normal(const Mesh<T,2,Storage>& msh,
     return n/n.norm();
 }
 
+namespace priv {
+
+/* (Twice) the vector area of a planar polygon in 3D. Does not rely on three
+ * particular vertices, as they can be aligned if there are hanging nodes. */
+template<typename Points>
+auto
+vector_area(const Points& pts)
+{
+    using T = typename Points::value_type::value_type;
+    static_vector<T, 3> n = static_vector<T, 3>::Zero();
+    for (size_t i = 1; i + 1 < pts.size(); i++)
+    {
+        const static_vector<T, 3> v0 = (pts[i] - pts[0]).to_vector();
+        const static_vector<T, 3> v1 = (pts[i+1] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
+    return n;
+}
+
+} // namespace priv
+
 /**
  * @brief Compute the outward unit normal to a 3D face
  *
@@ -413,9 +434,7 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    auto n = priv::vector_area(pts);
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
@@ -447,9 +466,7 @@ normal(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    auto n = priv::vector_area(pts);
 
     return n/n.norm();
 }
-- 
2.43.0


From a704bf41cf0c4e3816322b4ebf6402bae918def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 010/100] fix: bounding_box: take the extrema coordinate by
 coordinate

---
 libdiskpp/include/diskpp/mesh/mesh.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh.hpp b/libdiskpp/include/diskpp/mesh/mesh.hpp
index 12c880b..decc47a 100644
--- a/libdiskpp/include/diskpp/mesh/mesh.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh.hpp
@@ -1037,17 +1037,13 @@ public:
                   itor != msh.points_end();
                   itor++)
         {
-            bool lt = false, gt = false;
             auto curpt = *itor;
 
             for (size_t i = 0; i < point_type::dimension; i++)
             {
-                lt = lt or (curpt[i] < m_bb_min[i]);
-                gt = gt or (curpt[i] > m_bb_max[i]);
+                if (curpt[i] < m_bb_min[i]) m_bb_min[i] = curpt[i];
+                if (curpt[i] > m_bb_max[i]) m_bb_max[i] = curpt[i];
             }
-            assert(lt != gt); //lt xor gt
-            if (lt) m_bb_min = curpt;
-            if (gt) m_bb_max = curpt;
         }
     }
 
-- 
2.43.0


From d8b92109a5e737270974dbeb48562a0b08f854e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 011/100] fix: is_inside for 2D cells: test against the edges,
 in either orientation

---
 libdiskpp/include/diskpp/geometry/geometry_all.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index c8a2d52..91556fb 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -288,13 +288,14 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
           const typename Mesh<T, 2, Storage>::cell&       cl,
           const typename Mesh<T, 2, Storage>::point_type& pt)
 {
-    /* Nodes MUST be ordered COUNTERCLOCKWISE and the polygon must be CONVEX */
+    /* Nodes MUST be listed in cyclic order and the polygon must be CONVEX */
     auto pts = points(msh, cl);
+    bool left = false, right = false;
 
     for (size_t i = 0; i < pts.size(); i++)
     {
         auto p0 = pts[i];
-        auto p1 = pts[i % pts.size()];
+        auto p1 = pts[(i+1) % pts.size()];
 
         auto x  = pt.x();
         auto y  = pt.y();
@@ -303,11 +304,12 @@ is_inside(const Mesh<T, 2, Storage>&                      msh,
         auto x1 = p1.x();
         auto y1 = p1.y();
 
-        if ((y - y0) * (x1 - x0) - (x - x0) * (y1 - y0) < 0.0)
-            return false;
+        auto side = (y - y0) * (x1 - x0) - (x - x0) * (y1 - y0);
+        left  = left or (side > 0.0);
+        right = right or (side < 0.0);
     }
 
-    return true;
+    return not (left and right);
 }
 
 
-- 
2.43.0


From ada7b3a94568ec6c782a22436c893fda9d7ead13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 012/100] fix: diameter_boundingbox: std::abs, not the integer
 one

---
 libdiskpp/include/diskpp/geometry/geometry_all.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 91556fb..043d293 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -265,7 +265,7 @@ diameter_boundingbox(const Mesh&
     std::array<T, Mesh::dimension> box_h;
     for (size_t i = 0; i < Mesh::dimension; i++)
     {
-        box_h[i] = abs(box_max[i] - box_min[i]);
+        box_h[i] = std::abs(box_max[i] - box_min[i]);
     }
 
     return box_h;
-- 
2.43.0


From 7008696a973b35a93bb4e3b42af789408fc13201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 013/100] fix: triangle_gauss: degree 21 used a rule exact only
 up to degree 20

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 83af5c3..1d186b5 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -2580,7 +2580,7 @@ static struct triangle_gauss_rule triangle_gauss_rules[] = {
     { sizeof(triangle_gauss_rule_18)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_18 },
     { sizeof(triangle_gauss_rule_19)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_19 },
     { sizeof(triangle_gauss_rule_20)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_20 },
-    { sizeof(triangle_gauss_rule_21)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_21 },
+    { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 }, /* rule_21 is rule_20: exact only up to 20 */
     { sizeof(triangle_gauss_rule_22)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_22 },
     { sizeof(triangle_gauss_rule_23)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_23 },
     { sizeof(triangle_gauss_rule_24)/(sizeof(triangle_gauss_point)), triangle_gauss_rule_24 },
-- 
2.43.0


From f7cf1c383356bc6018a7a70cb181ac44a635d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 014/100] fix: dunavant: refuse degree 21, which has no rule

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index 1d186b5..ed60a27 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -289,7 +289,7 @@ std::vector<quadrature_point<T,DIM>>
 dunavant(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, const point<T,DIM>& p2)
 {
     auto max_degree = sizeof(priv::dunavant_rules)/sizeof(priv::dunavant_rule);
-    if (degree > max_degree)
+    if (degree >= max_degree)
         throw std::invalid_argument("Dunavant quadrature: degree too high");
 
     size_t rule_num = (degree == 0) ? 0 : degree - 1;
-- 
2.43.0


From 6e6fd4a02f64ff50512b6c57b7362947f8c45cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 015/100] fix: triangle_gauss: degrees above 30 on triangles in
 3D

---
 .../diskpp/quadratures/bits/quad_raw_triangle.hpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
index ed60a27..de31364 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_triangle.hpp
@@ -2632,8 +2632,9 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
     }
     else 
     {
+        /* compute on the reference triangle, then map: works for any DIM */
         Eigen::Matrix<double,3,2> vertices;
-        vertices << p0.x(), p0.y(), p1.x(), p1.y(), p2.x(), p2.y();  
+        vertices << 0.0, 0.0, 1.0, 0.0, 0.0, 1.0;
 
         auto qinfo = triquad(degree, vertices);
 
@@ -2643,8 +2644,12 @@ triangle_gauss(size_t degree, const point<T,DIM>& p0, const point<T,DIM>& p1, co
 
         ret.reserve(degree*degree);
 
+        auto area = area_triangle_kahan(p0, p1, p2);
+        auto v0 = p1-p0;
+        auto v1 = p2-p0;
+
         for(size_t i = 0; i < qX.size(); i++ )
-            ret.push_back({point<T,DIM>({qX[i], qY[i]}), qw[i]});        
+            ret.push_back({p0 + v0*qX[i] + v1*qY[i], 2.0*qw[i]*area});
     }
 
     return ret;
-- 
2.43.0


From dac19306d9f78ccd81e2df35a31d8f467c070022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 016/100] fix: integrate_polyhedron_face: out of bounds table
 access for degree > 30

---
 libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index ce4683d..a539e8f 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -161,7 +161,6 @@ integrate_polyhedron_face(const disk::generic_mesh<T, 3>&                msh,
     const auto rss = split_in_raw_triangles(msh, fc);
 
     std::vector<quadpoint_type> ret;
-    ret.reserve(quadrature::priv::triangle_gauss_rules[degree].num_points * rss.size());
     for (auto& rs : rss)
     {
         const auto pts = rs.points();
-- 
2.43.0


From 036ad533c1b850ed634262e882b3d05d1a86e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 017/100] fix: quadrature of odd degree on general
 quadrilaterals

---
 .../include/diskpp/quadratures/bits/quad_phys_generic.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
index a539e8f..c0dc945 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_phys_generic.hpp
@@ -104,7 +104,8 @@ integrate(const disk::generic_mesh<T, 2>& msh, const typename disk::generic_mesh
 
     if (pts.size() == 4 and convex)
     {
-        return disk::quadrature::tensorized_gauss_legendre(degree, pts[0], pts[1], pts[2], pts[3]);
+        /* the Jacobian of the bilinear map adds one degree in each direction */
+        return disk::quadrature::tensorized_gauss_legendre(degree+1, pts[0], pts[1], pts[2], pts[3]);
     }
 
     if (convex)
-- 
2.43.0


From bd5d333a41120c67699c9800f9fa4ed35daa4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 018/100] fix: arbq: throw instead of exiting on a degree too
 high

---
 libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
index dc64e4c..be8e0b2 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/quad_raw_tetra.hpp
@@ -53,6 +53,10 @@ arbq(size_t degree, const point<T, 3>& p0, const point<T, 3>& p1, const point<T,
     if (rule == 0)
         rule = 1;
 
+    /* beyond this the underlying code calls exit() */
+    if (degree > 15)
+        throw std::invalid_argument("arbq: degree too high");
+
     int point_num = tetrahedron_arbq_size(rule);
 
     std::vector<double> ws(point_num);
-- 
2.43.0


From 2ae37869dde01be118f470fb86df23a60d728e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 019/100] fix: legendre_1D: derivatives of the polynomials of
 degree 8 and 10

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index be7a593..b64f8f7 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -628,11 +628,11 @@ class legendre_1D
             case 5: val = (315 * pows[4] - 210 * pows[2] + 15) / 8; break;
             case 6: val = (1386 * pows[5] - 1260 * pows[3] + 210 * pows[1]) / 16; break;
             case 7: val = (3003 * pows[6] - 3465 * pows[4] + 945 * pows[2] - 35) / 16; break;
-            case 8: val = (51480 * pows[7] - 72012 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
+            case 8: val = (51480 * pows[7] - 72072 * pows[5] + 27720 * pows[3] - 2520 * pows[1]) / 128; break;
             case 9: val = (109395 * pows[8] - 180180 * pows[6] + 90090 * pows[4] - 13860 * pows[2] + 315) / 128; break;
             case 10:
                 val =
-                  (461890 * pows[9] - 875160 * pows[7] + 450450 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
+                  (461890 * pows[9] - 875160 * pows[7] + 540540 * pows[5] - 120120 * pows[3] + 6930 * pows[1]) / 256;
                 break;
         }
         return val / sqrt(T(2) / T(2 * degree + 1));
-- 
2.43.0


From 03da0bf95f28e13740cda34ecfde56bd3e5e22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 020/100] fix: Legendre basis on 2D faces is orthonormal, as it
 declares

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index b64f8f7..01999e1 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -882,7 +882,7 @@ class scaled_legendre_scalar_basis<Mesh<T, 2, Storage>, typename Mesh<T, 2, Stor
     eval_functions(const point_type& pt) const
     {
         const auto        ep      = this->scaling_point(pt);
-        const scalar_type scaling = this->scaling_factor();
+        const scalar_type scaling = sqrt(this->scaling_factor());
 
         return leg_x.eval_functions(ep.x()) * scaling;
     }
-- 
2.43.0


From b55ec7536dcbedd48e9f4caf4ea8f987f7f79b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:04 +0000
Subject: [PATCH 021/100] fix: harmonic top basis: scale the gradients as the
 functions

---
 libdiskpp/include/diskpp/bases/bases_scalar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 01999e1..72d65ca 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1414,7 +1414,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1646,7 +1646,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
@@ -1904,7 +1904,7 @@ public:
             assert(polynomial_max_degree < full_basis_degree);
             auto hep = 2.0*(pt-bar)/diam; /* beware of scaling: must be the same in all dirs */
             function_type hp = eval_harmonic(hep);
-            ret.tail(harmonic_part_size) = hp.tail(harmonic_part_size);
+            ret.tail(harmonic_part_size) = (diam/2.0)*hp.tail(harmonic_part_size);
         }
         return ret;
     }
-- 
2.43.0


From 17c3276c12d0aaf038c796c7392d4adc8fbd8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 022/100] fix: 3D harmonic basis: no division by the distance
 from the x axis

---
 .../include/diskpp/bases/bases_scalar.hpp     | 58 ++++++++++---------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_scalar.hpp b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
index 72d65ca..ea93832 100644
--- a/libdiskpp/include/diskpp/bases/bases_scalar.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_scalar.hpp
@@ -1759,27 +1759,17 @@ private:
         }
 
         auto R2 = bp.x()*bp.x() + bp.y()*bp.y() + bp.z()*bp.z();
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
-
-        for(int n = 0; n <= hmd; n++) {
-            for (int m = 0; m <= n; m++) {
-                if (n >= 2 && m < n) {
-                    auto multn = 2*(m+1);
-                    auto multd = (n+m+1)*r2;
-                    auto mult = multn/multd;
-                    auto c1 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.y();
-                    auto c2 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.z();
-                    Cs(n,m+1) = mult*(c1-c2);
-                    auto s1 = (R2*Ss(n-1,m)-bp.x()*Ss(n,m))*bp.y();
-                    auto s2 = (R2*Cs(n-1,m)-bp.x()*Cs(n,m))*bp.z();
-                    Ss(n,m+1) = mult*(s1+s2);
-                }
-                if (n >= 1 and m < 2 and n < hmd) {
-                    auto mult = 1.0/(n+m+1.0);
-                    Cs(n+1,m) = mult*( (2*n+1)*bp.x()*Cs(n,m) - (n-m)*R2*Cs(n-1, m) );
-                    Ss(n+1,m) = mult*( (2*n+1)*bp.x()*Ss(n,m) - (n-m)*R2*Ss(n-1, m) );
-                }
+        for (size_t n = 1; n < hmd; n++) {
+            /* C(n+1,m) and S(n+1,m) from the previous two degrees, without
+             * dividing by the distance from the x axis. */
+            for (size_t m = 0; m <= n; m++) {
+                auto mult = 1.0/(n+m+1.0);
+                Cs(n+1,m) = mult*( (2*n+1)*bp.x()*Cs(n,m) - double(n-m)*R2*Cs(n-1, m) );
+                Ss(n+1,m) = mult*( (2*n+1)*bp.x()*Ss(n,m) - double(n-m)*R2*Ss(n-1, m) );
             }
+
+            Cs(n+1,n+1) = bp.y()*Cs(n,n) - bp.z()*Ss(n,n);
+            Ss(n+1,n+1) = bp.y()*Ss(n,n) + bp.z()*Cs(n,n);
         }
 
         //std::cout << " *** Cs ***" << std::endl;
@@ -1821,21 +1811,35 @@ private:
         auto [Cs, Ss] = eval_cs(bp);
         gradient_type ret = gradient_type::Zero(bsize, 3);
         
-        auto r2 = bp.y()*bp.y() + bp.z()*bp.z();
+        /* With H(n,m) = C(n,m) + i*S(n,m), (dy + i*dz)H(n,m) is a multiple of
+         * H(n-1,m+1) and (dy - i*dz)H(n,m) is a multiple of H(n-1,m-1). */
+        auto up = [&](size_t n, size_t m) {
+            auto mult = -double(n-m)*(n-m-1.0)/(2.0*(m+1.0));
+            return (m+2 > n) ? std::pair(scalar_type(0.0), scalar_type(0.0)) :
+                std::pair(scalar_type(mult*Cs(n-1,m+1)), scalar_type(mult*Ss(n-1,m+1)));
+        };
+        auto down = [&](size_t n, size_t m) {
+            auto mult = 2.0*m;
+            return std::pair(scalar_type(mult*Cs(n-1,m-1)), scalar_type(mult*Ss(n-1,m-1)));
+        };
 
         size_t ofs = 1;
         for(size_t n = 1; n <= hmd; n++) {
             for (size_t m = 0; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Cs(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) + m*Ss(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Cs(n,m) - (n-m)*bp.x()*Cs(n-1,m)) - m*Ss(n,m)*bp.y()/r2;
+                auto [Ar, Ai] = up(n,m);
+                auto [Br, Bi] = (m == 0) ? std::pair(Ar, scalar_type(-Ai)) : down(n,m);
+                ret(ofs, 0) = double(n-m)*Cs(n-1,m);
+                ret(ofs, 1) = 0.5*(Ar+Br);
+                ret(ofs, 2) = 0.5*(Ai-Bi);
                 ofs++;
             }
 
             for (size_t m = 1; m <= n; m++) {
-                ret(ofs, 0) = (n-m)*Ss(n-1,m);
-                ret(ofs, 1) = (bp.y()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) - m*Cs(n,m)*bp.z()/r2;
-                ret(ofs, 2) = (bp.z()/r2)*(n*Ss(n,m) - (n-m)*bp.x()*Ss(n-1,m)) + m*Cs(n,m)*bp.y()/r2;
+                auto [Ar, Ai] = up(n,m);
+                auto [Br, Bi] = down(n,m);
+                ret(ofs, 0) = double(n-m)*Ss(n-1,m);
+                ret(ofs, 1) = 0.5*(Ai+Bi);
+                ret(ofs, 2) = 0.5*(Br-Ar);
                 ofs++;
             }
         }
-- 
2.43.0


From 40154bbf76c4301ca40df5d39fa7d7825b8d53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 023/100] fix: scalar_monomial, 1D cells: gradient of a basis
 of degree zero

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 0146597..70e3d0a 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -159,7 +159,8 @@ public:
         auto ep = phys2ref(pt);
 
         ret(0) = 0.;
-        ret(1) = scale_/h_;
+        if (degree_ > 0)
+            ret(1) = scale_/h_;
         for (size_t k = 2; k <= degree_; k++)
             ret(k) = ret(k-1)*k*ep.x()/(k-1);
 
-- 
2.43.0


From e45559481946dae7ed29430251d8f34670c9c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 024/100] fix: scalar_monomial, 1D cells: same scaling in
 values and gradients

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 70e3d0a..9bbcb38 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -105,8 +105,7 @@ private:
     point_type phys2ref(const point_type& pt) const {
         auto bv = (pb_ - bar_).to_vector();
         auto dv = (pt - bar_).to_vector();
-        auto nbv = h_/scale_;
-        return point_type( bv.dot(dv)/(nbv*nbv) );
+        return point_type( 2.0*scale_*bv.dot(dv)/(h_*h_) );
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From 7782f3c668fdc929d268c58f919d909069b8727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 025/100] fix: scalar_monomial, 3D faces whose first three
 vertices are aligned

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index 9bbcb38..a906c4c 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -701,11 +701,18 @@ private:
         auto pts = points(msh, fc);
         assert(pts.size() >= 3);
         vec_type u0 = (pts[1] - pts[0]).to_vector();
-        vec_type u1 = (pts[2] - pts[0]).to_vector();
 
         //#if 0
         v0_ = u0;
-        v1_ = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+        v1_ = vec_type::Zero();
+        /* The first three vertices can be aligned: take the farthest
+         * vertex from the line through the first two. */
+        for (size_t i = 2; i < pts.size(); i++) {
+            vec_type u1 = (pts[i] - pts[0]).to_vector();
+            vec_type w1 = u1 - u1.dot(v0_)*v0_/v0_.dot(v0_);
+            if (w1.norm() > 1.0001*v1_.norm())
+                v1_ = w1;
+        }
         v2_ = v0_.cross(v1_);
 
         tr_.col(0) = v0_;
-- 
2.43.0


From d1b17db0500f2c544c32f0bb9d0c4496df63592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 026/100] fix: local axes of a polygon whose first three
 vertices are aligned

---
 libdiskpp/include/diskpp/geometry/geometry_all.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/geometry_all.hpp b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
index 043d293..493d26d 100644
--- a/libdiskpp/include/diskpp/geometry/geometry_all.hpp
+++ b/libdiskpp/include/diskpp/geometry/geometry_all.hpp
@@ -620,8 +620,15 @@ element_local_axes(const std::vector<point<T,DIM>>& pts)
 
     static_matrix<T, DIM, DIM> ret;
     auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[0]).to_vector();
-    v1 = v1 - v1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+    static_vector<T, DIM> v1 = static_vector<T, DIM>::Zero();
+    /* The first three vertices can be aligned: take the farthest vertex
+     * from the line through the first two. */
+    for (size_t i = 2; i < pts.size(); i++) {
+        auto u1 = (pts[i] - pts[0]).to_vector();
+        static_vector<T, DIM> w1 = u1 - u1.dot(v0)*v0/(v0.dot(v0)); // Gram-Schmidt
+        if (w1.norm() > 1.0001*v1.norm())
+            v1 = w1;
+    }
     auto scale = 2*v0.norm()/diam;
     ret.col(0) = v0/scale;
     ret.col(1) = v1/scale;
-- 
2.43.0


From df3274ddc488c2ad88b49e5f7487a57ce5f83ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 027/100] fix: scalar_monomial, 3D faces: gradients have three
 components, all set

---
 libdiskpp/include/diskpp/bases/bases_new.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_new.hpp b/libdiskpp/include/diskpp/bases/bases_new.hpp
index a906c4c..b7d1e95 100644
--- a/libdiskpp/include/diskpp/bases/bases_new.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_new.hpp
@@ -682,7 +682,7 @@ class scalar_monomial<Mesh<CoordT, 3, Storage>, typename Mesh<CoordT, 3, Storage
     static const size_t tensor_order = 0; /* scalar */
     using value_type = typename tensor<scalar_type, basis_dimension, tensor_order>::value_type;
     using value_array_type = typename tensor<scalar_type, basis_dimension, tensor_order>::array_type;
-    using gradient_array_type = typename tensor<scalar_type, basis_dimension, tensor_order + 1>::array_type;
+    using gradient_array_type = typename tensor<scalar_type, immersion_dimension, tensor_order + 1>::array_type;
 
 private:
     using tr_mat_type = Eigen::Matrix<coordinate_type, immersion_dimension, immersion_dimension>;
@@ -786,7 +786,7 @@ public:
                 const auto py = powy(ey);
                 const auto dx = (ex == 0) ? 0 : ex * powx(ex-1);
                 const auto dy = (ey == 0) ? 0 : ey * powy(ey-1);
-                vec_type tmp_grad;
+                vec_type tmp_grad = vec_type::Zero();
                 tmp_grad(0) = dx*py;
                 tmp_grad(1) = px*dy;
                 ret.block(pos, 0, 1, immersion_dimension) = tmp_grad.transpose()*tr_;
-- 
2.43.0


From 328b39a70447be50957df16ce869f90961e72e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 028/100] fix: lowest order Raviart-Thomas basis on tetrahedra
 had a null function

---
 libdiskpp/include/diskpp/bases/bases_vector.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_vector.hpp b/libdiskpp/include/diskpp/bases/bases_vector.hpp
index ac47f94..f83ca9b 100644
--- a/libdiskpp/include/diskpp/bases/bases_vector.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_vector.hpp
@@ -892,10 +892,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
         ret.block(0, 0, vector_basis.size(), 3) = vector_basis.eval_functions(pt);
 
         const auto sphi = scalar_basis.eval_functions(pt);
-        size_t     deg  = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
@@ -922,10 +921,9 @@ class scaled_monomial_vector_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T, 3, S
 
         const auto sphi  = scalar_basis.eval_functions(pt);
         const auto sdphi = scalar_basis.eval_gradients(pt);
-        size_t     deg   = 0;
-        if (basis_degree > 2)
-            deg = basis_degree - 2;
-        const auto beg    = scalar_basis_size(deg, 3);
+        size_t     beg  = 0;
+        if (basis_degree >= 2)
+            beg = scalar_basis_size(basis_degree - 2, 3);
         const auto offset = vector_basis.size();
 
         const auto bx = (pt.x() - cell_bar.x());
-- 
2.43.0


From 390708e3f7982dfeae6702e9050916faf7394a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 029/100] fix: symmetric Raviart-Thomas basis on tetrahedra:
 degree above 2

---
 libdiskpp/include/diskpp/bases/bases_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_matrix.hpp b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
index 057fc3c..9ef25f3 100644
--- a/libdiskpp/include/diskpp/bases/bases_matrix.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_matrix.hpp
@@ -752,7 +752,7 @@ class scaled_monomial_sym_matrix_basis_RT<Mesh<T, 3, Storage>, typename Mesh<T,
         const auto sphi = scalar_basis.eval_functions(pt);
         size_t     beg  = 0;
         if (basis_degree >= 2)
-            beg = scalar_basis_size(basis_degree - 2, 2);
+            beg = scalar_basis_size(basis_degree - 2, 3);
 
         const auto bx = (pt.x() - cell_bar.x());
         const auto by = (pt.y() - cell_bar.y());
-- 
2.43.0


From 8b33f6495df1b25c84a3835f6151aab98896eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:27 +0000
Subject: [PATCH 030/100] fix: axes of the tangential bases on faces with
 aligned vertices

---
 libdiskpp/include/diskpp/bases/bases_all.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/bases/bases_all.hpp b/libdiskpp/include/diskpp/bases/bases_all.hpp
index 3ade87c..d38cb84 100644
--- a/libdiskpp/include/diskpp/bases/bases_all.hpp
+++ b/libdiskpp/include/diskpp/bases/bases_all.hpp
@@ -451,13 +451,13 @@ class scaled_monomial_abstract_face_basis<Mesh<T, 3, Storage>, typename Mesh<T,
         {
             const size_t i0 = (i + 1) % npts;
             const size_t i1 = (i - 1) % npts;
-            v0              = (pts[i0] - pts[i]).to_vector();
-            v1              = (pts[i1] - pts[i]).to_vector();
+            v0              = (pts[i0] - pts[i % npts]).to_vector();
+            v1              = (pts[i1] - pts[i % npts]).to_vector();
 
             const vector_type v0n = v0 / v0.norm();
             const vector_type v1n = v1 / v1.norm();
 
-            if (v0n.dot(v1n) < 0.99) // we want at least 8 degrees angle
+            if (std::abs(v0n.dot(v1n)) < 0.99) // we want at least 8 degrees angle
             {
                 ok = true;
                 break;
-- 
2.43.0


From 030fdef12ec859367c783efcd5886921c5d9201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 031/100] fix: rational: reduce the products too

---
 libdiskpp/include/diskpp/mesh/rational.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/mesh/rational.hpp b/libdiskpp/include/diskpp/mesh/rational.hpp
index 6493a89..97a31c1 100644
--- a/libdiskpp/include/diskpp/mesh/rational.hpp
+++ b/libdiskpp/include/diskpp/mesh/rational.hpp
@@ -179,6 +179,7 @@ public:
 
 		m_num = a*c;
 		m_den = b*d;
+		simplify();
 		//assert(m_den > 0);
 		return *this;
 	}
-- 
2.43.0


From dac032788b9e24f1785fdd84335c1bf3edf81294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:24 +0000
Subject: [PATCH 032/100] fix: contact_boundary_id of a face answered with its
 Robin boundary

---
 .../include/diskpp/boundary_conditions/boundary_conditions.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index c2fc2ff..17607da 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -517,7 +517,7 @@ class BoundaryConditions
     size_t
     contact_boundary_id(const face_type& fc) const
     {
-        return robin_boundary_id(m_msh.lookup(fc));
+        return contact_boundary_id(m_msh.lookup(fc));
     }
 
     bool
-- 
2.43.0


From fe45925c0201466eca7505f4b91ff2f5820cc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:12 +0000
Subject: [PATCH 033/100] fix: boundary conditions declared twice on a face
 counted it twice

---
 .../boundary_conditions.hpp                    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
index 17607da..7d0ab35 100644
--- a/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
+++ b/libdiskpp/include/diskpp/boundary_conditions/boundary_conditions.hpp
@@ -252,8 +252,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!std::get<0>(m_faces_is_contact.at(face_id)))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, -1);
-            m_contact_faces++;
         }
     }
 
@@ -269,8 +270,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!std::get<0>(m_faces_is_contact.at(face_id)))
+                m_contact_faces++;
             m_faces_is_contact.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_contact_faces++;
         }
     }
 
@@ -287,8 +289,9 @@ class BoundaryConditions
 
             const auto face_id = m_msh.lookup(bfc);
 
+            if (!std::get<0>(m_faces_is_dirichlet.at(face_id)))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, DIRICHLET, 0, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -304,8 +307,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!std::get<0>(m_faces_is_robin.at(face_id)))
+                m_robin_faces++;
             m_faces_is_robin.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_robin_faces++;
         }
     }
 
@@ -320,8 +324,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!std::get<0>(m_faces_is_dirichlet.at(face_id)))
+                m_dirichlet_faces++;
             m_faces_is_dirichlet.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_dirichlet_faces++;
         }
     }
 
@@ -336,8 +341,9 @@ class BoundaryConditions
 
         for (size_t face_id : list_faces)
         {
+            if (!std::get<0>(m_faces_is_neumann.at(face_id)))
+                m_neumann_faces++;
             m_faces_is_neumann.at(face_id) = std::make_tuple(true, btype, b_id, bcf_id);
-            m_neumann_faces++;
         }
     }
 
-- 
2.43.0


From e7f9fddacf55bd0c95ecbe812bb1a1478aa06788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:08 +0000
Subject: [PATCH 034/100] fix: the last time step ends at the requested time
 and is never dropped

---
 .../include/diskpp/mechanics/NewtonSolver/TimeManager.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
index 90c178e..1026828 100644
--- a/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
+++ b/libdiskpp/include/diskpp/mechanics/NewtonSolver/TimeManager.hpp
@@ -136,9 +136,12 @@ class ListOfTimeStep
 
         for (I i = 0; i < n_step; i++)
         {
-            if ((start_time + (i + 1) * delta_t) <= user_end_time)
+            // the last step ends exactly at end_time, whatever the rounding
+            const T step_end = (i + 1 == n_step) ? end_time : start_time + (i + 1) * delta_t;
+
+            if (step_end <= user_end_time)
             {
-                const TimeStep<T> step(start_time + i * delta_t, start_time + (i + 1) * delta_t, level);
+                const TimeStep<T> step(start_time + i * delta_t, step_end, level);
                 list_steps.push_back(step);
             }
         }
-- 
2.43.0


From f4f341e6d9ae53efab2f45484124a2496e975de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 035/100] fix: HHO with a degree per face: offsets and
 projections use the degrees of the faces

---
 .../include/diskpp/methods/implementation_hho/methods_hho.hpp | 2 +-
 .../include/diskpp/methods/implementation_hho/utils_hho.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
index 9c076b7..53e1a7d 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/methods_hho.hpp
@@ -303,7 +303,7 @@ project_function(const Mesh&                      msh,
     const auto cdi    = degree_infos.cellDegreeInfo(msh, cl);
     const auto fcs_di = cdi.facesDegreeInfo();
 
-    const auto num_faces_dofs = scalar_faces_dofs(msh, cl, fcs_di);
+    const auto num_faces_dofs = scalar_faces_dofs(msh, fcs_di);
 
     const auto cbs = scalar_basis_size(cdi.cell_degree(), Mesh::dimension);
 
diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 1d89945..2bb19ca 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -321,7 +321,7 @@ scalar_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += scalar_face_dofs(msh, fc);
+        num_dofs += scalar_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
@@ -340,7 +340,7 @@ vector_faces_offset(const Mesh& msh, const typename Mesh::cell_type& cl, const M
     for (auto fc : fcs)
     {
         ret.push_back(num_dofs);
-        num_dofs += vector_face_dofs(msh, fc);
+        num_dofs += vector_face_dofs(msh, degree_infos.degreeInfo(msh, fc));
     }
 
     return ret;
-- 
2.43.0


From 9c02fff4d0d077ae77da147e6e7731ad7750a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:34 +0000
Subject: [PATCH 036/100] fix: gradient reconstruction in the Raviart-Thomas
 space: compiles, with a degree per face too

---
 .../methods/implementation_hho/vector_hho_gradrec.hpp       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index 2a726bf..eed9722 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -302,7 +302,7 @@ make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl,
 
     const CellDegreeInfo<Mesh> cell_infos(msh, cl, di.cell_degree(), di.face_degree(), di.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
@@ -332,9 +332,9 @@ std::pair<dynamic_matrix<typename Mesh::coordinate_type>, dynamic_matrix<typenam
 make_vector_hho_gradrec_RT(const Mesh& msh, const typename Mesh::cell_type& cl, const MeshDegreeInfo<Mesh>& msh_infos)
 {
     const auto cell_infos = msh_infos.cellDegreeInfo(msh, cl);
-    const auto gb         = make_vector_monomial_basis(msh, cl, cell_infos.grad_degree());
+    const auto gb         = make_vector_monomial_basis_RT(msh, cl, cell_infos.grad_degree());
 
-    return make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
+    return priv::make_vector_hho_gradrec_impl(msh, cl, cell_infos, gb);
 }
 
 /**
-- 
2.43.0


From dacd6668badbb95e74b2f00d61b45fbf94b07bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 037/100] fix: make_vector_hho_laplacian with a degree per face
 did not compile

---
 .../diskpp/methods/implementation_hho/vector_hho_laplacian.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
index efc2e1f..f679c98 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_laplacian.hpp
@@ -195,7 +195,7 @@ make_vector_hho_laplacian(const Mesh& msh, const typename Mesh::cell_type& cl, c
 {
     const auto hho_scalar_laplacian = make_scalar_hho_laplacian(msh, cl, mesh_infos);
 
-    return make_vector_hho_laplacian(msh, cl, mesh_infos.cellDegreeInfo(msh, cl), hho_scalar_laplacian);
+    return make_vector_hho_laplacian(msh, cl, mesh_infos, hho_scalar_laplacian);
 }
 
 template<typename Mesh>
-- 
2.43.0


From af54ba954a423f0554350d22a85e9133f45e9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 038/100] fix: gradient reconstruction on a cell with faces
 without unknowns

---
 .../implementation_hho/vector_hho_gradrec.hpp    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
index eed9722..7ba9db0 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/vector_hho_gradrec.hpp
@@ -105,6 +105,22 @@ make_vector_hho_gradrec_impl(const Mesh&                     msh,
             }
             offset += fbs;
         }
+        else
+        {
+            // no unknown on this face, hence no jump: (vT, tau.n)_F
+            const auto fc = fcs[i];
+            const auto n  = normal(msh, cl, fc);
+
+            const auto qps_f = integrate(msh, fc, graddeg + celdeg);
+            for (auto& qp : qps_f)
+            {
+                const vector_type c_phi      = cb.eval_functions(qp.point());
+                const auto        g_phi      = gb.eval_functions(qp.point());
+                const vector_type qp_g_phi_n = g_phi * (qp.weight() * n);
+
+                gr_rhs.block(0, 0, gbs, cbs) += priv::outer_product(qp_g_phi_n, c_phi);
+            }
+        }
     }
 
     matrix_type oper = gr_lhs.ldlt().solve(gr_rhs);
-- 
2.43.0


From 50834bc34685115b58764829222561eaccbba38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 039/100] fix: scalar stabilisation fluxes use the requested
 scaling, and compile

---
 .../methods/implementation_hho/scalar_stabilization.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
index d647491..09ba202 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_stabilization.hpp
@@ -936,7 +936,7 @@ make_scalar_hho_stabilization_fluxes(const Mesh&              msh,
     using T = typename Mesh::coordinate_type;
     typedef Matrix<T, Dynamic, Dynamic> matrix_type;
 
-    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos);
+    const matrix_type stab = make_scalar_hho_stabilization(msh, cl, reconstruction, cell_infos, hF);
 
     const auto celdeg = cell_infos.cell_degree();
 
@@ -1044,7 +1044,7 @@ make_scalar_dg_stabilization_fluxes(const Mesh&                     msh,
 {
     const auto stab    = make_scalar_dg_stabilization_diff(msh, cl, cell_infos, hF);
     const auto adjoint = make_scalar_stabilization_fluxes(msh, cl, cell_infos, stab, hF);
-    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos, hF);
+    return adjoint * make_scalar_hho_difference(msh, cl, cell_infos);
 }
 
 /**
-- 
2.43.0


From 649836aca07bed3509bd3d6305eb4dce89638b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 040/100] fix: hdg stabilisation of the simplified interface
 scales with the diameter

---
 libdiskpp/include/diskpp/methods/hho_slapl.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/hho_slapl.hpp b/libdiskpp/include/diskpp/methods/hho_slapl.hpp
index 0f6f4ba..1f7a2bf 100644
--- a/libdiskpp/include/diskpp/methods/hho_slapl.hpp
+++ b/libdiskpp/include/diskpp/methods/hho_slapl.hpp
@@ -175,36 +175,25 @@ local_stabilization_hdg(const Mesh& msh, const typename Mesh::cell_type& cl,
     auto phiT = typename Space::cell_basis_type(msh, cl, di.cell);
     auto phiR = typename Space::reco_basis_type(msh, cl, di.reco);
     
-    auto scale = 1.;///diameter(msh, cl);
+    auto scale = 1./diameter(msh, cl);
 
     size_t offset = szT;
     for (const auto& fc : fcs)
     {
         auto phiF = typename Space::face_basis_type(msh, fc, di.face);
         dynamic_matrix<T> MF = integrate(msh, fc, phiF, phiF);
-        std::cout << "Mass: " << normal(msh,cl,fc).transpose() << std::endl;
-        std::cout << MF << std::endl;
         Eigen::LDLT<dynamic_matrix<T>> MF_llt(MF);
         dynamic_matrix<T> T2F = integrate(msh, fc, phiT, phiF);
-        std::cout << "T2F: " << std::endl;
-        std::cout << T2F << std::endl;
         dynamic_matrix<T> P2 = MF_llt.solve(T2F);
 
-        std::cout << "P2: " << std::endl;
-        std::cout << P2 << std::endl;
-
         dynamic_matrix<T> rhs = dynamic_matrix<T>::Zero(szF, szT+num_faces*szF);
         rhs.block(0,0,szF,szT) = -P2;
         rhs.block(0,offset,szF,szF) = dynamic_matrix<T>::Identity(szF, szF);
-        std::cout << "rhs: " << std::endl;
-        std::cout << rhs << std::endl;
 
         S += scale * rhs.transpose() * MF * rhs;
         offset += szF;
     }
 
-    std::cout << S << std::endl;
-
     return S;
 }
 
-- 
2.43.0


From c9e2d19b8e321c0f779b816523455f42e005bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 041/100] fix: faces without unknowns have no jump unknowns

---
 .../diskpp/methods/implementation_hho/utils_hho.hpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 2bb19ca..0b4da5b 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -358,8 +358,11 @@ scalar_diff_dofs(const Mesh& msh, const CellDegreeInfo<Mesh>& cell_infos)
 
     for (auto fdi : faces_infos)
     {
-        const auto fbs = scalar_face_dofs(msh, fdi);
-        num_dofs += std::max(dbs, fbs);
+        if (fdi.hasUnknowns())
+        {
+            const auto fbs = scalar_face_dofs(msh, fdi);
+            num_dofs += std::max(dbs, fbs);
+        }
     }
 
     return num_dofs;
-- 
2.43.0


From 75ffd34e73ea050b0883c7a06af53b05b1c3ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 042/100] fix: divergence reconstruction on faces without
 unknowns uses the cell trace

---
 .../implementation_hho/scalar_hho_divrec.hpp     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
index e2e6cef..7800174 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/scalar_hho_divrec.hpp
@@ -139,6 +139,22 @@ make_hho_divergence_reconstruction_rhs(const Mesh&                     msh,
 
             offset += fbs;
         }
+        else
+        {
+            // no unknowns on this face: the trace of the cell unknowns is used
+            const auto fc = fcs[i];
+            const auto n  = normal(msh, cl, fc);
+
+            const auto qps_f = integrate(msh, fc, celdeg + recdeg);
+            for (auto& qp : qps_f)
+            {
+                const auto s_phi = cbas_s.eval_functions(qp.point());
+                const auto v_phi = cbas_v.eval_functions(qp.point());
+
+                const auto qp_v_phi_n = priv::inner_product(v_phi, priv::inner_product(qp.weight(), n));
+                dr_rhs.block(0, 0, rbs, cbs) += priv::outer_product(s_phi, qp_v_phi_n);
+            }
+        }
     }
 
     return dr_rhs;
-- 
2.43.0


From 561ce3d9f068bdb15c26e92500cd703000a16a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 043/100] fix: Neumann terms on faces with partially blocked
 components use the compressed numbering

---
 .../implementation_hho/assembler_hho.hpp      | 57 ++++++++++---------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 6ed23c3..e6c7f32 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -2249,6 +2249,7 @@ class assembler_mechanics
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case disk::DIRICHLET:
@@ -2267,10 +2268,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2279,10 +2280,10 @@ class assembler_mechanics
                             {
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) = neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
 
@@ -2294,8 +2295,8 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2305,7 +2306,7 @@ class assembler_mechanics
                                 {
                                     if (dimension == 3)
                                     {
-                                        RHS(face_offset + i + 2) += neumann(i + 2);
+                                        RHS(face_offset + sol_ind++) += neumann(i + 2);
                                     }
                                 }
                                 break;
@@ -2316,7 +2317,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i + 1) += neumann(i + 1);
+                                    RHS(face_offset + sol_ind++) += neumann(i + 1);
                                 }
                                 break;
                             }
@@ -2326,7 +2327,7 @@ class assembler_mechanics
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < num_face_dofs; i += dimension)
                                 {
-                                    RHS(face_offset + i) += neumann(i);
+                                    RHS(face_offset + sol_ind++) += neumann(i);
                                 }
                                 break;
                             }
@@ -3828,6 +3829,7 @@ class vector_primal_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -3846,10 +3848,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3858,10 +3860,10 @@ class vector_primal_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
 
@@ -3873,8 +3875,8 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3884,7 +3886,7 @@ class vector_primal_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -3895,7 +3897,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -3905,7 +3907,7 @@ class vector_primal_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                 }
                                 break;
                             }
@@ -4666,6 +4668,7 @@ class vector_mechanics_hho_assembler
 
                     if (bnd.is_dirichlet_face(face_id))
                     {
+                        size_t sol_ind = 0;
                         switch (bnd.dirichlet_boundary_type(face_id))
                         {
                             case DIRICHLET:
@@ -4684,10 +4687,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4696,10 +4699,10 @@ class vector_mechanics_hho_assembler
                             {
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
 
@@ -4711,8 +4714,8 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4722,7 +4725,7 @@ class vector_mechanics_hho_assembler
                                 {
                                     if (Mesh::dimension == 3)
                                     {
-                                        duos.push_back(std::make_pair(compress_offset + i + 2, neumann(i + 2)));
+                                        duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 2)));
                                     }
                                 }
                                 break;
@@ -4733,7 +4736,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i + 1, neumann(i + 1)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i + 1)));
                                 }
                                 break;
                             }
@@ -4743,7 +4746,7 @@ class vector_mechanics_hho_assembler
                                     throw std::invalid_argument("You are not in 3D");
                                 for (size_t i = 0; i < n_face_dofs; i += Mesh::dimension)
                                 {
-                                    duos.push_back(std::make_pair(compress_offset + i, neumann(i)));
+                                    duos.push_back(std::make_pair(compress_offset + sol_ind++, neumann(i)));
                                 }
                                 break;
                             }
-- 
2.43.0


From 5432bcd39a22b8cc482d00a2beff6f47b0e04806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 044/100] fix: vector_primal assembler: face solution
 extraction compiles

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index e6c7f32..5f0dbbe 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -3179,7 +3179,7 @@ class vector_primal_hho_assembler
     {
         const auto face_id = msh.lookup(fc);
 
-        const auto n_face_dofs = num_faces_dofs(face_id);
+        const auto n_face_dofs = num_face_dofs(face_id);
 
         vector_type ret = vector_type::Zero(n_face_dofs);
 
-- 
2.43.0


From d9daec9661848e7ea1f72063ace1134626011598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 045/100] fix: stokes assembler: assemble_alg compiles

---
 .../diskpp/methods/implementation_hho/assembler_hho.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 5f0dbbe..58c00d7 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -793,14 +793,14 @@ class stokes_assembler
             if (!asm_map[i].assemble())
                 continue;
 
-            RHS(asm_map[i]) += rhs(i);
+            RHS[asm_map[i]] += rhs(i);
 
             for (size_t j = 0; j < lhs_A.cols(); j++)
             {
                 if (asm_map[j].assemble())
                     triplets.push_back(Triplet<T>(asm_map[i], asm_map[j], lhs_A(i, j)));
                 else
-                    RHS(asm_map[i]) -= lhs_A(i, j) * dirichlet_data(j);
+                    RHS[asm_map[i]] -= lhs_A(i, j) * dirichlet_data(j);
             }
         }
 
-- 
2.43.0


From a6bdc9c01badc8ea679db6f03bc94e53d1124fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 046/100] fix: stokes assembler: boundary projection is
 integrated exactly

---
 .../include/diskpp/methods/implementation_hho/assembler_hho.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
index 58c00d7..16795b0 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/assembler_hho.hpp
@@ -684,7 +684,7 @@ class stokes_assembler
                 auto dirichlet_fun = m_bnd.dirichlet_boundary_func(face_id);
 
                 dirichlet_data.block(cbs_A + face_i * fbs_A, 0, fbs_A, 1) =
-                  project_function(msh, fc, di.face_degree(), dirichlet_fun, di.face_degree());
+                  project_function(msh, fc, di.face_degree(), dirichlet_fun, 2);
             }
         }
 
-- 
2.43.0


From a7cdd1b23ddab069ba1d4eb36c3ba3441da204bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 047/100] fix: degree setters of variable-degree meshes compile

---
 libdiskpp/include/diskpp/adaptivity/adaptivity.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
index 61d3fb1..002dff4 100644
--- a/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
+++ b/libdiskpp/include/diskpp/adaptivity/adaptivity.hpp
@@ -335,8 +335,8 @@ class MeshDegreeInfo
     void
     degreeInfo(const MeshType& msh, const cell_type& cl, const DegreeInfo& di)
     {
-        const auto cell_id             = msh.lookup(cl);
-        return m_cells_degree[cell_id] = di;
+        const auto cell_id      = msh.lookup(cl);
+        m_cells_degree[cell_id] = di;
     }
 
     DegreeInfo
@@ -365,8 +365,8 @@ class MeshDegreeInfo
     void
     degreeInfo(const MeshType& msh, const face_type& fc, const DegreeInfo& di)
     {
-        const auto face_id             = msh.lookup(fc);
-        return m_faces_degree[face_id] = di;
+        const auto face_id      = msh.lookup(fc);
+        m_faces_degree[face_id] = di;
     }
 
     std::vector<DegreeInfo>
-- 
2.43.0


From 1b2a2b0f881b9238777efcaad131598979efded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 048/100] fix: hho_degree_info falls back only on invalid
 degrees

---
 .../include/diskpp/methods/implementation_hho/utils_hho.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
index 0b4da5b..6365d38 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/utils_hho.hpp
@@ -127,7 +127,7 @@ class hho_degree_info
         bool c1 = fd > 0 && (cd == fd - 1 || cd == fd || cd == fd + 1);
         bool c2 = fd == 0 && (cd == fd || cd == fd + 1);
         bool c3 = gd >= fd;
-        if (c1 || c2 || c3)
+        if ((c1 || c2) && c3)
         {
             cell_deg = cd;
             face_deg = fd;
-- 
2.43.0


From 58a90f8965aec8f4ddb3f5c085a32777150fb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 049/100] fix: maths_jacobian_derivate.hpp includes an existing
 file

---
 .../diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
index 3bf5d01..3de881d 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
@@ -26,7 +26,7 @@
 #pragma once
 
 #include "diskpp/common/eigen.hpp"
-#include "diskpp/mechanics/bevaviors/maths_tensor.hpp"
+#include "diskpp/mechanics/behaviors/maths_tensor.hpp"
 
 namespace disk
 {
-- 
2.43.0


From 87053663c79233e996064bb4ae571f1e48e25655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 050/100] fix: second derivative of the determinant, entry
 (6,3)

---
 .../diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
index 3de881d..c612fef 100755
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_jacobian_derivate.hpp
@@ -137,7 +137,7 @@ JacobianSecondDerivate(const static_matrix<T, 3, 3>& M)
     ret(5, 3) = -M(0, 2);
     ret(6, 1) = M(1, 2);
     ret(6, 2) = -M(1, 1);
-    ret(6, 3) = -M(2, 1);
+    ret(6, 3) = -M(1, 2);
     ret(7, 1) = -M(0, 2);
     ret(7, 2) = M(0, 1);
     ret(7, 3) = M(0, 2);
-- 
2.43.0


From 108adb0617d4e25b5332b00ba204870ae994ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 051/100] fix: derivative of the Frobenius norm of the deviator

---
 .../include/diskpp/mechanics/behaviors/maths_utils.hpp   | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
index d5aac1c..97378be 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/maths_utils.hpp
@@ -52,13 +52,8 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 NormFroFirstDerivate(const static_matrix<T, DIM, DIM>& dev)
 {
-    const T normFrodev    = dev.norm();
-    const T normFrodev3_2 = normFrodev * std::sqrt(normFrodev);
-
-    auto mat = dev;
-    mat.diagonal() *= (1 - 1.0 / T(DIM));
-
-    return -mat / normFrodev3_2;
+    // dev is trace-free, hence d|dev(M)|/dM = dev / |dev|
+    return dev / dev.norm();
 }
 
 } // end disk
\ No newline at end of file
-- 
2.43.0


From db429e30787f2ddf1daffafbd95f7273aeebbef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 052/100] fix: linearized strain is the symmetric gradient

---
 libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
index c984050..e94f02a 100755
--- a/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
+++ b/libdiskpp/include/diskpp/mechanics/deformation_tensors.hpp
@@ -41,7 +41,7 @@ template<typename T, int DIM>
 static_matrix<T, DIM, DIM>
 convertGtoLinearizedStrain(const static_matrix<T, DIM, DIM>& Gradient)
 {
-    return 0.5 * Gradient * Gradient.transpose();
+    return T(0.5) * (Gradient + Gradient.transpose());
 }
 
 // Compute F = G + I
-- 
2.43.0


From 2fa5a4c2a64cb5db628ef971c4ce555343c388af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 053/100] fix: conversions from MGIS follow the ordering of
 convertMatrixToMgis

---
 .../mechanics/behaviors/tensor_conversion.hpp | 110 +++---------------
 1 file changed, 19 insertions(+), 91 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
index 51d4cd9..a79aaa6 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/tensor_conversion.hpp
@@ -285,7 +285,7 @@ convertMatrixFromMgis(const std::vector<T2>& mat_vec, static_matrix<T, 3, 3>& ma
             mat(1, 0)    = mat(0, 1);
             mat(0, 2)    = mat_vec[4] / sqrt(2.);
             mat(2, 0)    = mat(0, 2);
-            mat(0, 1)    = mat_vec[5] / sqrt(2.);
+            mat(1, 2)    = mat_vec[5] / sqrt(2.);
             mat(2, 1)    = mat(1, 2);
             break;
         }
@@ -388,96 +388,24 @@ convertTensorFromMgis(const std::vector<T2>& tens_vec, static_tensor<T, 3>& tens
 
         case 36:
         {
-            const T rac2 = sqrt(2.);
-            coeff<T, 3>(tens, 0, 0, 0, 0, tens_vec[0]);
-            coeff<T, 3>(tens, 0, 0, 1, 1, tens_vec[1]);
-            coeff<T, 3>(tens, 0, 0, 2, 2, tens_vec[2]);
-            coeff<T, 3>(tens, 0, 0, 1, 2, tens_vec[3] / rac2);
-            coeff<T, 3>(tens, 0, 0, 2, 1, coeff<T, 3>(tens, 0, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 0, 2, 0, tens_vec[4] / rac2);
-            coeff<T, 3>(tens, 0, 0, 0, 2, coeff<T, 3>(tens, 0, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 0, 0, 1, tens_vec[5] / rac2);
-            coeff<T, 3>(tens, 0, 0, 1, 0, coeff<T, 3>(tens, 0, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 1, 0, 0, tens_vec[6]);
-            coeff<T, 3>(tens, 1, 1, 1, 1, tens_vec[7]);
-            coeff<T, 3>(tens, 1, 1, 2, 2, tens_vec[8]);
-            coeff<T, 3>(tens, 1, 1, 1, 2, tens_vec[9] / rac2);
-            coeff<T, 3>(tens, 1, 1, 2, 1, coeff<T, 3>(tens, 1, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 1, 2, 0, tens_vec[10] / rac2);
-            coeff<T, 3>(tens, 1, 1, 0, 2, coeff<T, 3>(tens, 1, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 1, 0, 1, tens_vec[11] / rac2);
-            coeff<T, 3>(tens, 1, 1, 1, 0, coeff<T, 3>(tens, 1, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 2, 0, 0, tens_vec[12]);
-            coeff<T, 3>(tens, 2, 2, 1, 1, tens_vec[13]);
-            coeff<T, 3>(tens, 2, 2, 2, 2, tens_vec[14]);
-            coeff<T, 3>(tens, 2, 2, 1, 2, tens_vec[15] / rac2);
-            coeff<T, 3>(tens, 2, 2, 2, 1, coeff<T, 3>(tens, 2, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 2, 2, 0, tens_vec[16] / rac2);
-            coeff<T, 3>(tens, 2, 2, 0, 2, coeff<T, 3>(tens, 2, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 2, 0, 1, tens_vec[17] / rac2);
-            coeff<T, 3>(tens, 2, 2, 1, 0, coeff<T, 3>(tens, 2, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 1, 2, 0, 0, tens_vec[18] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 1, tens_vec[19] / rac2);
-            coeff<T, 3>(tens, 1, 2, 2, 2, tens_vec[20] / rac2);
-            coeff<T, 3>(tens, 1, 2, 1, 2, tens_vec[21] / 2.);
-            coeff<T, 3>(tens, 1, 2, 2, 1, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 1, 2, 2, 0, tens_vec[22] / 2.);
-            coeff<T, 3>(tens, 1, 2, 0, 2, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 1, 2, 0, 1, tens_vec[23] / 2.);
-            coeff<T, 3>(tens, 1, 2, 1, 0, coeff<T, 3>(tens, 1, 2, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 0, 0, 0, tens_vec[24] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 1, tens_vec[25] / rac2);
-            coeff<T, 3>(tens, 2, 0, 2, 2, tens_vec[26] / rac2);
-            coeff<T, 3>(tens, 2, 0, 1, 2, tens_vec[27] / 2.);
-            coeff<T, 3>(tens, 2, 0, 2, 1, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 2, 0, 2, 0, tens_vec[28] / 2.);
-            coeff<T, 3>(tens, 2, 0, 0, 2, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 2, 0, 0, 1, tens_vec[29] / 2.);
-            coeff<T, 3>(tens, 2, 0, 1, 0, coeff<T, 3>(tens, 2, 0, 0, 1));
-            //
-            coeff<T, 3>(tens, 0, 1, 0, 0, tens_vec[30] / rac2);
-            coeff<T, 3>(tens, 0, 1, 1, 1, tens_vec[31] / rac2);
-            coeff<T, 3>(tens, 0, 1, 2, 2, tens_vec[32] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 2, tens_vec[33] / 2.);
-            coeff<T, 3>(tens, 0, 1, 2, 1, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 0, 1, 2, 0, tens_vec[34] / rac2);
-            coeff<T, 3>(tens, 0, 1, 0, 2, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 0, 1, 0, 1, tens_vec[35] / 2.);
-            coeff<T, 3>(tens, 0, 1, 1, 0, coeff<T, 3>(tens, 0, 1, 0, 1));
-            //
-            coeff<T, 3>(tens, 2, 1, 0, 0, coeff<T, 3>(tens, 1, 2, 0, 0));
-            coeff<T, 3>(tens, 2, 1, 1, 1, coeff<T, 3>(tens, 1, 2, 1, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 2, coeff<T, 3>(tens, 1, 2, 2, 2));
-            coeff<T, 3>(tens, 2, 1, 1, 2, coeff<T, 3>(tens, 1, 2, 1, 2));
-            coeff<T, 3>(tens, 2, 1, 2, 1, coeff<T, 3>(tens, 1, 2, 2, 1));
-            coeff<T, 3>(tens, 2, 1, 2, 0, coeff<T, 3>(tens, 1, 2, 2, 0));
-            coeff<T, 3>(tens, 2, 1, 0, 2, coeff<T, 3>(tens, 1, 2, 0, 2));
-            coeff<T, 3>(tens, 2, 1, 0, 1, coeff<T, 3>(tens, 1, 2, 0, 1));
-            coeff<T, 3>(tens, 2, 1, 1, 0, coeff<T, 3>(tens, 1, 2, 1, 0));
-            //
-            coeff<T, 3>(tens, 0, 2, 0, 0, coeff<T, 3>(tens, 2, 0, 0, 0));
-            coeff<T, 3>(tens, 0, 2, 1, 1, coeff<T, 3>(tens, 2, 0, 1, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 2, coeff<T, 3>(tens, 2, 0, 2, 2));
-            coeff<T, 3>(tens, 0, 2, 1, 2, coeff<T, 3>(tens, 2, 0, 1, 2));
-            coeff<T, 3>(tens, 0, 2, 2, 1, coeff<T, 3>(tens, 2, 0, 2, 1));
-            coeff<T, 3>(tens, 0, 2, 2, 0, coeff<T, 3>(tens, 2, 0, 2, 0));
-            coeff<T, 3>(tens, 0, 2, 0, 2, coeff<T, 3>(tens, 2, 0, 0, 2));
-            coeff<T, 3>(tens, 0, 2, 0, 1, coeff<T, 3>(tens, 2, 0, 0, 1));
-            coeff<T, 3>(tens, 0, 2, 1, 0, coeff<T, 3>(tens, 2, 0, 1, 0));
-            //
-            coeff<T, 3>(tens, 1, 0, 0, 0, coeff<T, 3>(tens, 0, 1, 0, 0));
-            coeff<T, 3>(tens, 1, 0, 1, 1, coeff<T, 3>(tens, 0, 1, 1, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 2, coeff<T, 3>(tens, 0, 1, 2, 2));
-            coeff<T, 3>(tens, 1, 0, 1, 2, coeff<T, 3>(tens, 0, 1, 1, 2));
-            coeff<T, 3>(tens, 1, 0, 2, 1, coeff<T, 3>(tens, 0, 1, 2, 1));
-            coeff<T, 3>(tens, 1, 0, 2, 0, coeff<T, 3>(tens, 0, 1, 2, 0));
-            coeff<T, 3>(tens, 1, 0, 0, 2, coeff<T, 3>(tens, 0, 1, 0, 2));
-            coeff<T, 3>(tens, 1, 0, 0, 1, coeff<T, 3>(tens, 0, 1, 0, 1));
-            coeff<T, 3>(tens, 1, 0, 1, 0, coeff<T, 3>(tens, 0, 1, 1, 0));
+            // same ordering as in convertMatrixToMgis: 11, 22, 33, 12, 13, 23
+            const int row[6] = {0, 1, 2, 0, 0, 1};
+            const int col[6] = {0, 1, 2, 1, 2, 2};
+            const T   rac2   = sqrt(2.);
+
+            for (int p = 0; p < 6; p++)
+            {
+                for (int q = 0; q < 6; q++)
+                {
+                    const T scale = (p < 3 ? T(1) : rac2) * (q < 3 ? T(1) : rac2);
+                    const T val   = tens_vec[6 * p + q] / scale;
+
+                    coeff<T, 3>(tens, row[p], col[p], row[q], col[q], val);
+                    coeff<T, 3>(tens, col[p], row[p], row[q], col[q], val);
+                    coeff<T, 3>(tens, row[p], col[p], col[q], row[q], val);
+                    coeff<T, 3>(tens, col[p], row[p], col[q], row[q], val);
+                }
+            }
             break;
         }
 
-- 
2.43.0


From 1bca89c7053a585ed7bb8c8eabb52f0d17f10988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 054/100] fix: logarithmic_tools.hpp names the Eigen solver it
 uses

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 32a8190..51acc23 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -51,7 +51,7 @@ compute_eigenvalues(const static_matrix<T, N, N>& Mat)
 {
     typedef static_matrix<T, N, N> matrix_type;
 
-    SelfAdjointEigenSolver<matrix_type> es(Mat);
+    Eigen::SelfAdjointEigenSolver<matrix_type> es(Mat);
 
     // std::cout << "eigenvalues:" << std::endl;
     // std::cout << es.eigenvalues() << std::endl;
-- 
2.43.0


From 2ee40411c419eb03ddda7fbfae040054d80e5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 055/100] fix: geometric term of the logarithmic strain
 projector in terms of F

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 51acc23..e3e47f6 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -518,11 +518,11 @@ compute_projector(const static_matrix<T, 3, 3>& F,
 
     if (compute_TL)
     {
-        // last term partie symmetric
         const matrix_type inv_F   = F.inverse();
         const matrix_type invF_TP = inv_F * ContractedProduct(stress_T, P);
         const matrix_type Id      = matrix_type::Identity();
-        TL += Odot(invF_TP, Id);
+        // delta_ik S_jl, with S = F^{-1} * (T : P)
+        TL += ProductSup(Id, invF_TP);
     }
     // std::cout << "P" << std::endl;
     // std::cout << P << std::endl;
-- 
2.43.0


From 4d13d5dd29e6c4a56d9fd43c5689d575e891fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 056/100] fix: logarithmic strain coefficients when the last,
 or the outer, two eigenvalues are equal

---
 .../behaviors/logarithmic_strain/logarithmic_tools.hpp    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index e3e47f6..404afcc 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -360,7 +360,7 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
             xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
 
-            eta = xi(0, 1);
+            eta = xi(1, 0);
             break;
         }
         case TWO_EQUAL12:
@@ -371,7 +371,7 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = di(0) / T(2);
+            theta(1, 2) = di(1) / T(2);
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
@@ -380,10 +380,10 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
             xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
 
-            xi(1, 2) = fi(0) / T(8);
+            xi(1, 2) = fi(1) / T(8);
             xi(2, 1) = xi(1, 2);
 
-            eta = xi(1, 2);
+            eta = xi(0, 1);
             break;
         }
         default: std::invalid_argument("LogarithmicStrain: Wrong case");
-- 
2.43.0


From 035537298e50158af11ef47fd1723aadffc0be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 057/100] fix: logarithmic strain coefficients of nearly equal
 eigenvalues do not cancel

---
 .../logarithmic_strain/logarithmic_tools.hpp  | 110 +++++++++++++-----
 1 file changed, 79 insertions(+), 31 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
index 404afcc..0f8d433 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/logarithmic_strain/logarithmic_tools.hpp
@@ -240,12 +240,70 @@ selectCase(const static_vector<T, 3>& lambda_i)
     return -1;
 }
 
+// first divided difference of e(x) = ln(x)/2, without cancellation when x is close to y
+template<typename T>
+T
+divided_difference(const T x, const T y)
+{
+    if (x == y)
+    {
+        return T(1) / (T(2) * x);
+    }
+
+    const T d = (x - y) / y;
+    return (d < T(0.5) && d > T(-0.5)) ? std::log1p(d) / (T(2) * (x - y)) : (std::log(x) - std::log(y)) / (T(2) * (x - y));
+}
+
+// second divided difference of e(x) = ln(x)/2
+template<typename T>
+T
+divided_difference(const T x, const T y, const T z)
+{
+    // order the points, so that the quotient is taken on the most distant ones
+    T a = std::min(x, std::min(y, z));
+    T c = std::max(x, std::max(y, z));
+    T b = std::max(std::min(x, y), std::min(std::max(x, y), z));
+
+    const T m = (a + b + c) / T(3);
+
+    if (c - a > T(0.05) * m)
+    {
+        return (divided_difference(c, b) - divided_difference(a, b)) / (c - a);
+    }
+
+    // close points: Taylor expansion around the mean value. The divided difference of (x - m)^k
+    // is the complete homogeneous symmetric polynomial h_{k-2} of the distances to m
+    a = (a - m) / m;
+    b = (b - m) / m;
+    c = (c - m) / m;
+
+    const T e2 = a * b + b * c + c * a;
+    const T e3 = a * b * c;
+
+    // e1 = 0, hence h_k = -e2 h_{k-2} + e3 h_{k-3}
+    T h0 = T(1), h1 = T(0), h2 = -e2;
+    T sum = -T(1) / T(2) + h1 / T(3) - h2 / T(4);
+
+    T sign = T(1);
+    for (int k = 5; k <= 16; k++)
+    {
+        const T h3 = -e2 * h1 + e3 * h0;
+        sum += sign * h3 / T(k);
+        h0   = h1;
+        h1   = h2;
+        h2   = h3;
+        sign = -sign;
+    }
+
+    return sum / (T(2) * m * m);
+}
+
 // lambda_0 != lambda_1 != lambda_2 && lambda_0 < lambda_1 < lambda_2
 template<typename T>
 std::tuple<static_matrix<T, 3, 3>, static_matrix<T, 3, 3>, T>
 compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3>& ei, const static_vector<T, 3>& di)
 {
-    T                      eta   = T(0);
+    const T                eta   = divided_difference(lambda_i(0), lambda_i(1), lambda_i(2));
     static_matrix<T, 3, 3> theta = static_matrix<T, 3, 3>::Zero();
     static_matrix<T, 3, 3> xi    = static_matrix<T, 3, 3>::Zero();
 
@@ -255,18 +313,8 @@ compute_three_diff(const static_vector<T, 3>& lambda_i, const static_vector<T, 3
         {
             if (j != i)
             {
-                const T lilj = lambda_i(i) - lambda_i(j);
-                theta(i, j)  = (ei(i) - ei(j)) / lilj;
-                xi(i, j)     = (theta(i, j) - di(j) / T(2)) / lilj;
-
-                for (int k = 0; k < 3; k++)
-                {
-                    if (k != i && k != j)
-                    {
-                        const T lilk = lambda_i(i) - lambda_i(k);
-                        eta += ei(i) / (T(2) * lilj * lilk);
-                    }
-                }
+                theta(i, j) = divided_difference(lambda_i(i), lambda_i(j));
+                xi(i, j)    = divided_difference(lambda_i(i), lambda_i(j), lambda_i(j));
             }
         }
     }
@@ -321,20 +369,20 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
             theta(0, 1) = di(0) / T(2);
             theta(1, 0) = theta(0, 1);
 
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
+            theta(0, 2) = divided_difference(lambda_i(0), lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
+            theta(1, 2) = divided_difference(lambda_i(1), lambda_i(2));
             theta(2, 1) = theta(1, 2);
 
             xi(0, 1) = fi(0) / T(8);
             xi(1, 0) = xi(0, 1);
 
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
+            xi(0, 2) = divided_difference(lambda_i(0), lambda_i(2), lambda_i(2));
+            xi(2, 0) = divided_difference(lambda_i(2), lambda_i(0), lambda_i(0));
 
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
+            xi(1, 2) = divided_difference(lambda_i(1), lambda_i(2), lambda_i(2));
+            xi(2, 1) = divided_difference(lambda_i(2), lambda_i(1), lambda_i(1));
 
             eta = xi(2, 0);
 
@@ -342,43 +390,43 @@ compute_two_equal(const static_vector<T, 3>& lambda_i,
         }
         case TWO_EQUAL02:
         {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
+            theta(0, 1) = divided_difference(lambda_i(0), lambda_i(1));
             theta(1, 0) = theta(0, 1);
 
             theta(0, 2) = di(0) / T(2);
             theta(2, 0) = theta(0, 2);
 
-            theta(1, 2) = (ei(1) - ei(2)) / (lambda_i(1) - lambda_i(2));
+            theta(1, 2) = divided_difference(lambda_i(1), lambda_i(2));
             theta(2, 1) = theta(1, 2);
 
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
+            xi(0, 1) = divided_difference(lambda_i(0), lambda_i(1), lambda_i(1));
+            xi(1, 0) = divided_difference(lambda_i(1), lambda_i(0), lambda_i(0));
 
             xi(0, 2) = fi(0) / T(8);
             xi(2, 0) = xi(0, 2);
 
-            xi(1, 2) = (theta(1, 2) - di(2) / T(2)) / (lambda_i(1) - lambda_i(2));
-            xi(2, 1) = (theta(2, 1) - di(1) / T(2)) / (lambda_i(2) - lambda_i(1));
+            xi(1, 2) = divided_difference(lambda_i(1), lambda_i(2), lambda_i(2));
+            xi(2, 1) = divided_difference(lambda_i(2), lambda_i(1), lambda_i(1));
 
             eta = xi(1, 0);
             break;
         }
         case TWO_EQUAL12:
         {
-            theta(0, 1) = (ei(0) - ei(1)) / (lambda_i(0) - lambda_i(1));
+            theta(0, 1) = divided_difference(lambda_i(0), lambda_i(1));
             theta(1, 0) = theta(0, 1);
 
-            theta(0, 2) = (ei(0) - ei(2)) / (lambda_i(0) - lambda_i(2));
+            theta(0, 2) = divided_difference(lambda_i(0), lambda_i(2));
             theta(2, 0) = theta(0, 2);
 
             theta(1, 2) = di(1) / T(2);
             theta(2, 1) = theta(1, 2);
 
-            xi(0, 1) = (theta(0, 1) - di(1) / T(2)) / (lambda_i(0) - lambda_i(1));
-            xi(1, 0) = (theta(1, 0) - di(0) / T(2)) / (lambda_i(1) - lambda_i(0));
+            xi(0, 1) = divided_difference(lambda_i(0), lambda_i(1), lambda_i(1));
+            xi(1, 0) = divided_difference(lambda_i(1), lambda_i(0), lambda_i(0));
 
-            xi(0, 2) = (theta(0, 2) - di(2) / T(2)) / (lambda_i(0) - lambda_i(2));
-            xi(2, 0) = (theta(2, 0) - di(0) / T(2)) / (lambda_i(2) - lambda_i(0));
+            xi(0, 2) = divided_difference(lambda_i(0), lambda_i(2), lambda_i(2));
+            xi(2, 0) = divided_difference(lambda_i(2), lambda_i(0), lambda_i(0));
 
             xi(1, 2) = fi(1) / T(8);
             xi(2, 1) = xi(1, 2);
-- 
2.43.0


From 8d9ce83fc6d98cd3e914b40e61984ea116a31d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 058/100] fix: energy of the neo-Hookean law compiles

---
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 56628c7..2560a3d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -202,7 +202,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             throw std::invalid_argument(mess);
         }
 
-        const static_matrix_type3D C = convertFtoCauchyGreenRight(this->m_estrain_curr);
+        const static_matrix_type3D C = mechanics::convertFtoCauchyGreenRight(this->m_estrain_curr);
 
         const scalar_type Wiso = data.getMu() / 2.0 * (C.trace() - 3);
         const scalar_type Wvol =
-- 
2.43.0


From ae0aa023a1b07bfbbc8429c0d6f31a3fa40f8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 059/100] fix: volumetric function 4 of hyperelastic energies
 is 1 - 1/J

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp       | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index 64a7221..ab8f40d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -85,7 +85,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index 2560a3d..e79f24d 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -84,7 +84,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 1: return log(J);
             case 2: return (J - 1.0);
             case 3: return log10(J);
-            case 4: return 1.0 / (1.0 - J);
+            case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
             case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
 
-- 
2.43.0


From 2bbd96f4cccc6f56e40ca085c1578f57885f7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 060/100] fix: volumetric function 6 of hyperelastic energies
 is not NaN for J close to 1

---
 .../mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp       | 2 +-
 .../mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
index ab8f40d..f49036c 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Cavitation/Cavitation_qp.hpp
@@ -87,7 +87,7 @@ class Cavitation_qp : public law_qp_bones<T, DIM>
             case 3: return log10(J);
             case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
-            case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
+            case 6: return sqrt(std::max(scalar_type(0), (J * J - 1.0 - 2.0 * log(J)) / 2.0));
 
             default: throw std::invalid_argument("NeoHookeanLaw: m_type have to be <= 6");
         }
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
index e79f24d..2f7ae36 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/Neohookean/Neohookean_qp.hpp
@@ -86,7 +86,7 @@ class Neohookean_qp : public law_qp_bones<T, DIM>
             case 3: return log10(J);
             case 4: return 1.0 - 1.0 / J;
             case 5: return (J * J - 1.0);
-            case 6: return sqrt((J * J - 1.0 - 2.0 * log(J)) / 2.0);
+            case 6: return sqrt(std::max(scalar_type(0), (J * J - 1.0 - 2.0 * log(J)) / 2.0));
 
             default: throw std::invalid_argument("NeoHookeanLaw: m_type have to be <= 6");
         }
-- 
2.43.0


From bc75f5d1505aed9b2d4e20ffd9793b94dcf1017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 061/100] fix: plastic laws accept volumetric strains and
 vanishing plastic strains

---
 .../IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp | 2 +-
 .../LinearIsotropicAndKinematicHardening_qp.hpp          | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
index b871df6..15e81ec 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/IsotropicHardeningVMis/IsotropicHardeningVMis_qp.hpp
@@ -202,7 +202,7 @@ class IsotropicHardeningVMis_qp : public law_qp_bones<T, DIM>
             // std::cout << "se_eq: " << se_eq << ", Rp " << Rp0 + H0 * (m_p_prev - p0) << ", Phi: " << Phi_trial0 <<
             // std::endl;
 
-            if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+            if (std::abs(se.trace()) > 1E-8 * 2 * data.getMu() * estrain_trial.norm())
             {
                 // std::cout << std::abs(se.trace()) << ", " << se.norm() << ", " << (std::abs(se.trace()) / se.norm())
                 //           << std::endl;
diff --git a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
index 0a37fa8..6479b5f 100644
--- a/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
+++ b/libdiskpp/include/diskpp/mechanics/behaviors/laws/LinearIsotropicAndKinematicHardening/LinearIsotropicAndKinematicHardening_qp.hpp
@@ -164,13 +164,16 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
         const scalar_type          se_eq         = this->sigmaeq(se);
         const scalar_type          Phi_trial     = se_eq - data.getSigma_y0() - data.getH() * m_p_prev;
 
-        if ((std::abs(X_prev.trace()) / X_prev.norm()) > 1E-8)
+        // scale of the terms whose traces have to cancel
+        const scalar_type scale = 2 * data.getMu() * estrain_trial.norm() + X_prev.norm() + data.getSigma_y0();
+
+        if (std::abs(X_prev.trace()) > 1E-8 * scale)
         {
             const std::string mess = "X_trace= " + std::to_string(X_prev.trace()) + " <= 0";
             throw std::invalid_argument(mess);
         }
 
-        if ((std::abs(se.trace()) / se.norm()) > 1E-8)
+        if (std::abs(se.trace()) > 1E-8 * scale)
         {
             const std::string mess = "Se_trace= " + std::to_string(se.trace()) + " <= 0";
             throw std::invalid_argument(mess);
@@ -222,7 +225,7 @@ class LinearIsotropicAndKinematicHardening_qp : public law_qp_bones<T, DIM>
             m_p_curr             = m_p_prev;
         }
 
-        if ((std::abs(m_pstrain_curr.trace()) / m_pstrain_curr.norm()) > 1E-8)
+        if (2 * data.getMu() * std::abs(m_pstrain_curr.trace()) > 1E-8 * scale)
         {
             const std::string mess = "eps_p= " + std::to_string(m_pstrain_curr.trace()) + " <= 0";
             throw std::invalid_argument(mess);
-- 
2.43.0


From c0a2463938e58b10e8570e21c849ed39b76be61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 062/100] fix: mesh_hierarchy refuses the first inexistent
 level

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index e98b758..7cad847 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -353,7 +353,7 @@ class mesh_hierarchy
     size_t
     locate_recursive(const point_type& pt, size_t cur_level, size_t max_level, size_t tri_num)
     {
-        if (max_level > meshes.size())
+        if (max_level >= meshes.size())
             throw std::invalid_argument("inexistent mesh level");
 
         if (cur_level > max_level)
-- 
2.43.0


From 54329df458c61abe57ee46a445de0177c2dd46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 063/100] fix: internal edges of refined meshes have no
 uninitialised boundary number

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 7cad847..9cd1240 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -104,7 +104,7 @@ class mesh_hierarchy
 
         size_t  p0, p1, pb;
         bool    is_boundary, is_broken;
-        size_t  boundary_id;
+        size_t  boundary_id = 0;
     };
 
 
-- 
2.43.0


From 157fa42bab12d2105e3689f1a29918d249137a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 064/100] fix: refined meshes of a hierarchy inherit the
 subdomains

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 9cd1240..42f9c05 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -398,6 +398,15 @@ public:
             //next_mesh.statistics();
             meshes.push_back( next_mesh );
             auto c2f = make_coarse_to_fine_map(meshes[i], meshes[i+1]);
+
+            /* children are in the subdomain of their parent */
+            auto cdi = meshes[i].backend_storage()->subdomain_info;
+            auto& fdi = meshes[i+1].backend_storage()->subdomain_info;
+            fdi.resize( meshes[i+1].cells_size() );
+            for (size_t ci = 0; ci < cdi.size(); ci++)
+                for (auto& fi : c2f[ci])
+                    fdi[fi] = cdi[ci];
+
             coarse_to_fine.push_back( std::move(c2f) );
         }
 
-- 
2.43.0


From 85e8ef6a84ba850db93469d8bafa93b6eed204f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 065/100] fix: mesh_hierarchy locates points lying on edges

---
 .../include/diskpp/mesh/mesh_hierarchy.hpp    | 32 +++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index 42f9c05..f43d105 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -27,6 +27,8 @@
 #include <map>
 #include <list>
 #include <random>
+#include <algorithm>
+#include <limits>
 
 #include "diskpp/loaders/loader.hpp"
 
@@ -326,8 +328,9 @@ class mesh_hierarchy
         return next_mesh;
     }
 
-    bool
-    is_inside(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
+    /* smallest barycentric coordinate of pt in t: negative outside of t */
+    T
+    min_barycentric(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
     {
         auto pts = points(msh, t);
 
@@ -345,9 +348,15 @@ class mesh_hierarchy
         auto u = (dot11 * dot02 - dot01 * dot12) * invDenom;
         auto v = (dot00 * dot12 - dot01 * dot02) * invDenom;
 
-        auto thresh = 0.0;
+        return std::min({u, v, 1 - u - v});
+    }
 
-        return (u >= (0-thresh)) && (v >= (0-thresh)) && (u + v <= (1+thresh));
+    bool
+    is_inside(const mesh_type& msh, const mesh_triangle_type& t, const point_type& pt) const
+    {
+        /* points on the edges must be found despite of the round-off */
+        auto thresh = 1e3 * std::numeric_limits<T>::epsilon();
+        return min_barycentric(msh, t, pt) >= -thresh;
     }
 
     size_t
@@ -362,14 +371,17 @@ class mesh_hierarchy
         auto current_mesh = meshes[cur_level];
         auto triangles = coarse_to_fine.at(cur_level-1).at(tri_num);
 
-        for (auto& t : triangles)
-        {
+        /* the point is in the parent, which is tiled by its children: descend
+         * in the child where it is the deepest. */
+        auto depth = [&](size_t t) {
             auto cl = *std::next(current_mesh.cells_begin(), t);
-            if (is_inside(current_mesh, cl, pt))
-                return locate_recursive(pt, cur_level+1, max_level, t);
-        }
+            return min_barycentric(current_mesh, cl, pt);
+        };
+
+        auto best = *std::max_element(triangles.begin(), triangles.end(),
+            [&](size_t a, size_t b) { return depth(a) < depth(b); });
 
-        throw std::invalid_argument("point not found (s)");
+        return locate_recursive(pt, cur_level+1, max_level, best);
     }
 
 public:
-- 
2.43.0


From aa594ab3f205ddc87144f83b62fd5248bebd9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 066/100] fix: mapped_file leaves no garbage when opening fails
 and ends with a NUL

A mapped_file whose open() failed unmapped and closed uninitialised members in
its destructor (and closed its descriptor twice if mmap() failed). Moreover its
content is parsed as a C string by the mesh loaders, but there was no terminator
if the size of the file is a multiple of the page size.
---
 libdiskpp/src/common/mapped_file.cpp | 42 +++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/libdiskpp/src/common/mapped_file.cpp b/libdiskpp/src/common/mapped_file.cpp
index 45cf388..2e049eb 100644
--- a/libdiskpp/src/common/mapped_file.cpp
+++ b/libdiskpp/src/common/mapped_file.cpp
@@ -64,11 +64,12 @@
 #include "diskpp/common/mapped_file.h"
 
 mapped_file::mapped_file()
-    : m_is_open(false)
+    : m_start(nullptr), m_end(nullptr), m_fd(-1), m_length(0),
+      m_addr(nullptr), m_is_open(false)
 {}
 
 mapped_file::mapped_file(const std::string& name)
-    : m_is_open(false)
+    : mapped_file()
 {
     open(name);
 }
@@ -81,6 +82,7 @@ mapped_file::~mapped_file()
 void
 mapped_file::open(const std::string& name)
 {
+    close();
     m_is_open = map(name);
 }
 
@@ -99,7 +101,6 @@ mapped_file::map(const std::string& name)
         perror("open");
         return false;
     }
-    m_fd = fd;
 
     struct stat sb;
     if (fstat(fd, &sb) == -1)
@@ -108,20 +109,32 @@ mapped_file::map(const std::string& name)
         ::close(fd);
         return false;
     }
-    m_length = sb.st_size;
 
-    m_addr = static_cast<const char*>(
-                         mmap(NULL, m_length, PROT_READ, MAP_PRIVATE, fd, 0u)
-                       );
-    if (m_addr == MAP_FAILED)
+    /* Reserve one byte more than the file size, so that the content is
+     * always followed by a NUL: the users parse it as a C string. */
+    size_t length = sb.st_size;
+    void *addr = mmap(NULL, length+1, PROT_READ, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+    if (addr == MAP_FAILED)
     {
         perror("mmap");
         ::close(fd);
         return false;
     }
 
-    madvise((void*)m_addr, sb.st_size, MADV_SEQUENTIAL);
+    if (length > 0 and
+        mmap(addr, length, PROT_READ, MAP_PRIVATE|MAP_FIXED, fd, 0) == MAP_FAILED)
+    {
+        perror("mmap");
+        munmap(addr, length+1);
+        ::close(fd);
+        return false;
+    }
 
+    madvise(addr, length, MADV_SEQUENTIAL);
+
+    m_fd = fd;
+    m_length = length;
+    m_addr = static_cast<const char*>(addr);
     m_name = name;
 
     m_start = m_addr;
@@ -134,8 +147,17 @@ mapped_file::map(const std::string& name)
 bool
 mapped_file::unmap(void)
 {
-    munmap((void *)m_addr, m_length);
+    if (!m_addr)
+        return false;
+
+    munmap((void *)m_addr, m_length+1);
     ::close(m_fd);
+
+    m_start = m_end = m_addr = nullptr;
+    m_length = 0;
+    m_fd = -1;
+    m_is_open = false;
+
     return true;
 }
 
-- 
2.43.0


From 312d019aea81cac4e6fdd0534d5fd3c2b79ad9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 067/100] fix: netgen and hex loaders refuse files that can't
 be opened

---
 libdiskpp/include/diskpp/loaders/loader_cartesian.hpp | 2 ++
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp    | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 94b4407..5ad0ad5 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -131,6 +131,8 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index a05f33d..e6860fd 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -117,6 +117,8 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         // std::cout << green << " * * * Reading NETGEN format mesh * * * ";
         // std::cout << nocolor << std::endl;
@@ -331,6 +333,8 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         size_t lines, linecount;
 
         mapped_file mf(filename);
+        if (!mf.is_open())
+            return false;
 
         /************************ Read points ************************/
         linecount = 0;
-- 
2.43.0


From a968dd179ceeb6ca8e89626b84afeff687a255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 068/100] fix: truncated or malformed mesh files are refused

strtot() did not report that there was no number to convert: a truncated netgen
or cartesian file gave a mesh full of zeros. load_mesh() ignored the failure of
populate_mesh().
---
 libdiskpp/include/diskpp/loaders/loader.hpp | 16 ++++++++-----
 libdiskpp/include/diskpp/loaders/strtot.hpp | 25 +++++++++++++++++----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader.hpp b/libdiskpp/include/diskpp/loaders/loader.hpp
index f29ebd5..2273f06 100644
--- a/libdiskpp/include/diskpp/loaders/loader.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader.hpp
@@ -110,12 +110,18 @@ load_mesh(const char* filename, LT& loader, MT& msh)
         std::cout << "the required mesh type" << std::endl;
     }
 
-    bool success = loader.read_mesh(filename);
-    if (!success)
-        return false;
+    try
+    {
+        if (!loader.read_mesh(filename))
+            return false;
 
-    loader.populate_mesh(msh);
-    return true;
+        return loader.populate_mesh(msh);
+    }
+    catch (const std::exception& e)
+    {
+        std::cout << "Can't load '" << filename << "': " << e.what() << std::endl;
+        return false;
+    }
 }
 
 } // namespace priv
diff --git a/libdiskpp/include/diskpp/loaders/strtot.hpp b/libdiskpp/include/diskpp/loaders/strtot.hpp
index c58ee67..7424f94 100644
--- a/libdiskpp/include/diskpp/loaders/strtot.hpp
+++ b/libdiskpp/include/diskpp/loaders/strtot.hpp
@@ -53,8 +53,17 @@
 #pragma once
 
 #include <sstream>
+#include <stdexcept>
 #include <stdlib.h>
 
+/* The file ended or it contains something that is not a number */
+inline void
+strtot_check(const char *str, const char *end)
+{
+    if (str == end)
+        throw std::runtime_error("strtot: number expected");
+}
+
 template<typename T>
 T
 inline
@@ -71,7 +80,9 @@ inline
 double
 strtot(const char *str, char **endptr)
 {
-    return strtod(str, endptr);
+    double ret = strtod(str, endptr);
+    strtot_check(str, *endptr);
+    return ret;
 }
 
 template<>
@@ -79,7 +90,9 @@ inline
 float
 strtot(const char *str, char **endptr)
 {
-    return strtof(str, endptr);
+    float ret = strtof(str, endptr);
+    strtot_check(str, *endptr);
+    return ret;
 }
 
 template<>
@@ -87,7 +100,9 @@ inline
 long double
 strtot(const char *str, char **endptr)
 {
-    return strtold(str, endptr);
+    long double ret = strtold(str, endptr);
+    strtot_check(str, *endptr);
+    return ret;
 }
 
 template<>
@@ -95,5 +110,7 @@ inline
 size_t
 strtot(const char *str, char **endptr)
 {
-    return strtoul(str, endptr, 10);
+    size_t ret = strtoul(str, endptr, 10);
+    strtot_check(str, *endptr);
+    return ret;
 }
-- 
2.43.0


From 969d817f0c4f4f2db61cbbeb98130acc64bc5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 069/100] fix: medit, poly and fvca6 loaders fail on truncated
 files

They looped forever or used uninitialised counts and indices past the end of the
tables.
---
 .../include/diskpp/loaders/loader_fvca6.hpp   |  9 +++--
 .../include/diskpp/loaders/loader_medit.hpp   | 35 ++++++++++++-------
 .../include/diskpp/loaders/loader_poly.hpp    | 22 +++++++-----
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index fa73f26..7c8283f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -106,6 +106,9 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Fail on truncated or malformed files */
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
         /* Apparently the first 16 lines of the file are comments or
          * information repeated elsewhere: throw them away */
 
@@ -273,7 +276,7 @@ public:
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -293,7 +296,7 @@ public:
             surface_type s( convert_to<typename edge_type::id_type>(fe.second) );
             s.set_point_ids( convert_to<disk::point_identifier<3>>(faces_to_vts.at(fe.first)) );
             faces.push_back(s);
-            conv_table[fe.first] = i;
+            conv_table.at(fe.first) = i;
         }
         /* Now the faces are in their place and have correct ptrs */
 
@@ -301,7 +304,7 @@ public:
         for (auto& vf : vol_to_faces )
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         //for (auto& f : faces)
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index c0766e3..2a83ed8 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -125,7 +125,11 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             for (size_t j = 0; j < polynum; j++)
             {
                 std::array<ident_raw_t, 2> b_edge = {nodes[j], nodes[j + 1]};
-                assert(b_edge[0] != b_edge[1]);
+                if (b_edge[0] == b_edge[1])
+                {
+                    std::cout << "Edge starting and finishing on the same node" << std::endl;
+                    return false;
+                }
                 if (b_edge[0] > b_edge[1])
                     std::swap(b_edge[0], b_edge[1]);
 
@@ -156,8 +160,6 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             ifs >> b_edge[1];
             b_edge[1] -= 1;
 
-            assert(b_edge[0] != b_edge[1]);
-
             if (b_edge[0] > b_edge[1])
                 std::swap(b_edge[0], b_edge[1]);
 
@@ -200,6 +202,9 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Fail on truncated or malformed files */
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -241,19 +246,23 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             }
             else if (keyword == "Triangles")
             {
-                medit_read_polygons(ifs, 3);
+                if (!medit_read_polygons(ifs, 3))
+                    return false;
             }
             else if (keyword == "Quadrilaterals")
             {
-                medit_read_polygons(ifs, 4);
+                if (!medit_read_polygons(ifs, 4))
+                    return false;
             }
             else if (keyword == "Pentagons")
             {
-                medit_read_polygons(ifs, 5);
+                if (!medit_read_polygons(ifs, 5))
+                    return false;
             }
             else if (keyword == "Hexagons")
             {
-                medit_read_polygons(ifs, 6);
+                if (!medit_read_polygons(ifs, 6))
+                    return false;
             }
             else if (keyword == "Edges")
             {
@@ -337,7 +346,6 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->boundary_info.resize(edges.size());
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
-            assert(m_boundary_edges[i].first[0] < m_boundary_edges[i].first[1]);
             auto node1 = typename node_type::id_type(m_boundary_edges[i].first[0]);
             auto node2 = typename node_type::id_type(m_boundary_edges[i].first[1]);
 
@@ -461,6 +469,9 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Fail on truncated or malformed files */
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
         ifs >> keyword;
         if (keyword != "MeshVersionFormatted")
         {
@@ -654,7 +665,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -672,7 +683,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             surface_type s(convert_to<typename edge_type::id_type>(fe.second));
             s.set_point_ids(convert_to<disk::point_identifier<3>>(faces_to_vts.at(fe.first)));
             faces.push_back(s);
-            conv_table[fe.first] = i;
+            conv_table.at(fe.first) = i;
         }
         /* Now the faces are in their place and have correct ptrs */
 
@@ -680,7 +691,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& vf : vol_to_faces)
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort volume data */
@@ -707,7 +718,7 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (size_t i = 0; i < m_boundary_edges.size(); i++)
         {
             boundary_descriptor bi(m_boundary_edges[i][1], true);
-            storage->boundary_info[conv_table[m_boundary_edges[i][0]]] = bi;
+            storage->boundary_info.at(conv_table.at(m_boundary_edges[i][0])) = bi;
         }
         storage->subdomain_info.resize(storage->volumes.size());
         mark_internal_faces(msh);
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index f7d97ca..d1f467f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -166,6 +166,9 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
+        /* Fail on truncated or malformed files */
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -296,7 +299,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
-            size_t v1 = vts[0], v2 = vts[1];
+            size_t v1 = vts.at(0), v2 = vts.at(1);
 
             if (v1 > v2)
                 std::swap(v1, v2);
@@ -326,7 +329,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Detect which ones are boundary edges */
@@ -336,7 +339,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             for (auto& edge_id : edges)
             {
                 boundary_descriptor bi(id, true);
-                storage->boundary_info.at(conv_table[edge_id]) = bi;
+                storage->boundary_info.at(conv_table.at(edge_id)) = bi;
             }
         }
 
@@ -355,7 +358,7 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             surface_type s(convert_to<typename edge_type::id_type>(fe.second));
             s.set_point_ids(convert_to<disk::point_identifier<2>>(faces_to_vts.at(fe.first).second));
             faces.push_back(s);
-            conv_table[fe.first] = i;
+            conv_table.at(fe.first) = i;
         }
         /* Now the faces are in their place and have correct ptrs */
 
@@ -409,6 +412,9 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             return false;
         }
 
+        /* Fail on truncated or malformed files */
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
         ifs >> keyword;
         if (keyword != "**BeginMesh")
         {
@@ -571,7 +577,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         m_edges.reserve(edges_to_vts.size());
         for (auto& [id, vts] : edges_to_vts)
         {
-            size_t v1 = vts[0], v2 = vts[1];
+            size_t v1 = vts.at(0), v2 = vts.at(1);
 
             if (v1 > v2)
                 std::swap(v1, v2);
@@ -601,7 +607,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& fe : faces_to_edges)
         {
             for (auto& ptr : fe.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort in lexicographical order and remember original position */
@@ -619,7 +625,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             surface_type s(convert_to<typename edge_type::id_type>(fe.second));
             s.set_point_ids(convert_to<disk::point_identifier<3>>(faces_to_vts.at(fe.first).second));
             faces.push_back(s);
-            conv_table[fe.first] = i;
+            conv_table.at(fe.first) = i;
         }
         /* Now the faces are in their place and have correct ptrs */
 
@@ -638,7 +644,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         for (auto& vf : vols_to_faces)
         {
             for (auto& ptr : vf.second)
-                ptr = conv_table[ptr];
+                ptr = conv_table.at(ptr);
         }
 
         /* Sort volume data */
-- 
2.43.0


From a4e98b3200662b15f5aa0c511fc44e1134917e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 070/100] fix: mesh loaders refuse files describing impossible
 topologies

Indices out of range, elements with repeated points, duplicated elements and
faces shared by more than two cells were accepted, and gave out of bounds
accesses as soon as the mesh was used.
---
 .../diskpp/loaders/loader_cartesian.hpp       |  4 +-
 .../include/diskpp/loaders/loader_fvca5.hpp   |  9 +++
 .../include/diskpp/loaders/loader_fvca6.hpp   |  5 ++
 .../include/diskpp/loaders/loader_medit.hpp   | 10 +++
 .../include/diskpp/loaders/loader_netgen.hpp  |  5 +-
 .../include/diskpp/loaders/loader_poly.hpp    | 10 +++
 .../include/diskpp/loaders/loader_utils.hpp   | 75 +++++++++++++++++++
 7 files changed, 115 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
index 5ad0ad5..a113e68 100644
--- a/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_cartesian.hpp
@@ -344,7 +344,7 @@ class cartesian_mesh_loader<T, 3> : public mesh_loader<cartesian_mesh<T, 3>>
 
         boundary_surfaces.clear();
 
-        return true;
+        return priv::valid_topology(msh);
     }
 };
 
@@ -559,7 +559,7 @@ class cartesian_mesh_loader<T, 2> : public mesh_loader<cartesian_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        return true;
+        return priv::valid_topology(msh);
     }
 };
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index 843b5a9..c780971 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -509,6 +509,12 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
 
                 surface_edges.push_back(edge_id.second);
             }
+            if (surface_edges.size() < 3)
+            {
+                std::cout << "Polygon with less than three edges" << std::endl;
+                return false;
+            }
+
             auto surface = surface_type(surface_edges);
             surface.set_point_ids(p.nodes.begin(), p.nodes.end()); /* XXX: crap */
             surfaces.push_back(std::make_pair(surface, p.domain_id));
@@ -527,6 +533,9 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->subdomain_info.resize(surfaces.size());
         std::transform(surfaces.begin(), surfaces.end(), storage->subdomain_info.begin(), get_id);
 
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         /* FVCA5 meshes do not provide boundary information. As usually they represent
diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 7c8283f..8f0433f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -58,6 +58,8 @@ read_fvca6_line(std::ifstream& ifs)
 
     size_t num_entries;
     ifs >> num_entries;
+    if (num_entries == 0)
+        throw std::runtime_error("element without entries");
     for(size_t j = 0; j < num_entries; j++)
     {
         size_t temp;
@@ -330,6 +332,9 @@ public:
         storage->surfaces   = std::move(faces);
         storage->volumes    = std::move(volumes);
 
+        if (not priv::valid_topology(msh))
+            return false;
+
         std::vector<size_t> bf(storage->surfaces.size());
         for (auto& vol : storage->volumes)
         {
diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 2a83ed8..7876ced 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -398,6 +398,10 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         std::sort(surfaces.begin(), surfaces.end());
         storage->surfaces = std::move(surfaces);
         storage->subdomain_info.resize(storage->surfaces.size());
+
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
@@ -446,6 +450,8 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         size_t num_entries;
         ifs >> num_entries;
+        if (num_entries == 0)
+            throw std::runtime_error("element without entries");
         for (size_t j = 0; j < num_entries; j++)
         {
             size_t temp;
@@ -721,6 +727,10 @@ class medit_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             storage->boundary_info.at(conv_table.at(m_boundary_edges[i][0])) = bi;
         }
         storage->subdomain_info.resize(storage->volumes.size());
+
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index e6860fd..630500f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -299,7 +299,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         storage->subdomain_info.resize(storage->surfaces.size());
 
-        return true;
+        return priv::valid_topology(msh);
     }
 };
 
@@ -523,6 +523,9 @@ class netgen_mesh_loader<T, 3> : public mesh_loader<simplicial_mesh<T, 3>>
         storage->volumes        = std::move(vols);
         storage->subdomain_info = std::move(subdoms);
 
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         if (this->verbose())
diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index d1f467f..6d3e95c 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -50,6 +50,8 @@ read_cell_line(std::ifstream& ifs)
 
     ifs >> cell_id;
     ifs >> nb_elem;
+    if (nb_elem == 0)
+        throw std::runtime_error("element without entries");
     // std::cout << cell_id << ", " << nb_elem << std::endl;
     elem.reserve(nb_elem);
     for (size_t j = 0; j < nb_elem; j++)
@@ -367,6 +369,10 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
         storage->subdomain_info.resize(storage->surfaces.size());
+
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
@@ -667,6 +673,10 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
         storage->subdomain_info.resize(storage->volumes.size());
+
+        if (not priv::valid_topology(msh))
+            return false;
+
         mark_internal_faces(msh);
 
         return true;
diff --git a/libdiskpp/include/diskpp/loaders/loader_utils.hpp b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
index 0c07bff..461bd72 100644
--- a/libdiskpp/include/diskpp/loaders/loader_utils.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_utils.hpp
@@ -31,6 +31,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <iostream>
 #include <thread>
 #include <vector>
 
@@ -150,6 +152,79 @@ expect(std::ifstream& ifs, const std::string& str)
 namespace priv
 {
 
+/* Check that the elements have at least min_pts points, all distinct and all existing */
+template<typename Elements>
+bool
+valid_point_ids(const Elements& elems, size_t num_points, size_t min_pts)
+{
+    for (const auto& elem : elems)
+    {
+        const auto          ptids = elem.point_ids();
+        std::vector<size_t> ids(ptids.begin(), ptids.end());
+        std::sort(ids.begin(), ids.end());
+        if (ids.size() < min_pts or ids.back() >= num_points)
+            return false;
+        if (std::adjacent_find(ids.begin(), ids.end()) != ids.end())
+            return false;
+    }
+
+    return true;
+}
+
+/* Check that the topology read from a file makes sense. This must be done before
+ * the mesh is used in any way, as nothing else checks the indices. */
+template<typename Mesh>
+bool
+valid_topology(const Mesh& msh)
+{
+    constexpr size_t DIM        = Mesh::dimension;
+    const auto       storage    = msh.backend_storage();
+    const auto       num_points = storage->points.size();
+
+    auto valid = [&]() {
+        if (msh.cells_size() == 0)
+            return false;
+
+        if (not valid_point_ids(storage->edges, num_points, 2))
+            return false;
+
+        if (not valid_point_ids(storage->surfaces, num_points, 3))
+            return false;
+
+        if constexpr (DIM == 3)
+            if (not valid_point_ids(storage->volumes, num_points, 4))
+                return false;
+
+        /* Cells and faces must be sorted and unique, see find_element_id() */
+        auto not_less = [](const auto& a, const auto& b) { return not(a < b); };
+        if (std::adjacent_find(msh.cells_begin(), msh.cells_end(), not_less) != msh.cells_end())
+            return false;
+
+        if (std::adjacent_find(msh.faces_begin(), msh.faces_end(), not_less) != msh.faces_end())
+            return false;
+
+        std::vector<size_t> owners(msh.faces_size(), 0);
+        for (const auto& cl : msh)
+        {
+            const auto fcids = faces_id(msh, cl);
+            if (fcids.size() < DIM + 1)
+                return false;
+
+            for (const auto& fcid : fcids)
+                if (size_t(fcid) >= owners.size() or ++owners[fcid] > 2)
+                    return false;
+        }
+
+        return true;
+    };
+
+    if (valid())
+        return true;
+
+    std::cout << "Invalid mesh topology" << std::endl;
+    return false;
+}
+
 template<typename T>
 void
 sort_uniq(std::vector<T>& v)
-- 
2.43.0


From f40a0894443b61771d816b511990ca21d1c90e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 071/100] fix: netgen 2D loader keeps the subdomains of the
 file

---
 .../include/diskpp/loaders/loader_netgen.hpp  | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 630500f..17b5f8f 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -102,7 +102,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
     std::vector<node_type>                    nodes;
     std::vector<edge_type>                    edges;
     std::vector<std::pair<edge_type, size_t>> boundary_edges;
-    std::vector<surface_type>                 surfaces;
+    std::vector<std::pair<surface_type, subdomain_descriptor>> tmp_surfaces;
 
     bool
     netgen_read(const std::string& filename)
@@ -167,7 +167,7 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         lines = strtot<size_t>(endptr, &endptr);
 
         edges.reserve(lines * 3);
-        surfaces.reserve(lines);
+        tmp_surfaces.reserve(lines);
 
         while (linecount < lines)
         {
@@ -183,13 +183,13 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
             disk::point_identifier<2> p0(std::get<1>(t));
             disk::point_identifier<2> p1(std::get<2>(t));
             disk::point_identifier<2> p2(std::get<3>(t));
-            // domain_id_type      d(std::get<0>(t));
+            subdomain_descriptor      si(std::get<0>(t));
 
             edges.push_back(edge_type({p0, p1}));
             edges.push_back(edge_type({p1, p2}));
             edges.push_back(edge_type({p0, p2}));
 
-            surfaces.push_back(surface_type({p0, p1, p2}));
+            tmp_surfaces.push_back(std::make_pair(surface_type({p0, p1, p2}), si));
 
             linecount++;
         }
@@ -266,13 +266,25 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
         /* sort edges, make unique and move them in geometry */
         THREAD(edge_thread, priv::sort_uniq(edges); storage->edges = std::move(edges););
 
-        /* sort triangles, make unique and move them in geometry */
-        THREAD(tri_thread, priv::sort_uniq(surfaces); storage->surfaces = std::move(surfaces););
+        /* sort triangles together with their subdomain and move them in geometry */
+        using pss        = std::pair<surface_type, subdomain_descriptor>;
+        auto tmpsrf_comp = [](const pss& a, const pss& b) { return a.first < b.first; };
+        THREAD(tri_thread, std::sort(tmp_surfaces.begin(), tmp_surfaces.end(), tmpsrf_comp););
 
         /* wait for the threads */
         WAIT_THREAD(edge_thread);
         WAIT_THREAD(tri_thread);
 
+        storage->surfaces.clear();
+        storage->subdomain_info.clear();
+        for (auto& [srf, sd] : tmp_surfaces)
+        {
+            storage->surfaces.push_back(srf);
+            storage->subdomain_info.push_back(sd);
+        }
+
+        tmp_surfaces.clear();
+
         storage->boundary_info.resize(storage->edges.size());
         for (auto& be : boundary_edges)
         {
@@ -297,8 +309,6 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        storage->subdomain_info.resize(storage->surfaces.size());
-
         return priv::valid_topology(msh);
     }
 };
-- 
2.43.0


From 6623b7cc27d0103afb4068b0941d7f0765feab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 072/100] fix: netgen 2D loader marks the interfaces between
 subdomains as internal

They were considered part of the boundary of the domain, unlike in 3D.
---
 libdiskpp/include/diskpp/loaders/loader_netgen.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
index 17b5f8f..d79c0ea 100644
--- a/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_netgen.hpp
@@ -309,7 +309,12 @@ class netgen_mesh_loader<T, 2> : public mesh_loader<simplicial_mesh<T, 2>>
 
         boundary_edges.clear();
 
-        return priv::valid_topology(msh);
+        if (not priv::valid_topology(msh))
+            return false;
+
+        mark_internal_faces(msh);
+
+        return true;
     }
 };
 
-- 
2.43.0


From ffb72381f96955010bc4537d768f42fd3df5764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 073/100] fix: fvca6 loader converts the vertices of the edges
 to zero-based indices

---
 libdiskpp/include/diskpp/loaders/loader_fvca6.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
index 8f0433f..0d43cad 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca6.hpp
@@ -228,6 +228,10 @@ class fvca6_mesh_loader<T,3> : public mesh_loader<generic_mesh<T, 3>>
             size_t v1, v2;
             ifs >> v1 >> v2;
 
+            /* convert indices to zero-based */
+            v1 -= 1;
+            v2 -= 1;
+
             if (v1 > v2)
                 std::swap(v1, v2);
 
-- 
2.43.0


From c4cbd6de271333ea53b608795cace495eb60bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 074/100] fix: medit 2D loader keeps the references of the
 polygons as subdomains

---
 .../include/diskpp/loaders/loader_medit.hpp    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_medit.hpp b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
index 7876ced..1e79ed1 100644
--- a/libdiskpp/include/diskpp/loaders/loader_medit.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_medit.hpp
@@ -368,7 +368,8 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges = std::move(edges);
 
         /* Surfaces */
-        std::vector<surface_type> surfaces;
+        using sd_pair = std::pair<surface_type, subdomain_descriptor>;
+        std::vector<sd_pair> surfaces;
         surfaces.reserve(m_polys.size());
 
         for (auto& p : m_polys)
@@ -392,12 +393,19 @@ class medit_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             }
             auto surface = surface_type(surface_edges);
             surface.set_point_ids(p.nodes.begin(), p.nodes.end()); /* XXX: crap */
-            surfaces.push_back(surface);
+            surfaces.push_back(std::make_pair(surface, subdomain_descriptor(p.id)));
         }
 
-        std::sort(surfaces.begin(), surfaces.end());
-        storage->surfaces = std::move(surfaces);
-        storage->subdomain_info.resize(storage->surfaces.size());
+        auto comp = [](const sd_pair& a, const sd_pair& b) -> bool { return a.first < b.first; };
+        std::sort(surfaces.begin(), surfaces.end(), comp);
+
+        storage->surfaces.clear();
+        storage->subdomain_info.clear();
+        for (auto& [srf, sd] : surfaces)
+        {
+            storage->surfaces.push_back(srf);
+            storage->subdomain_info.push_back(sd);
+        }
 
         if (not priv::valid_topology(msh))
             return false;
-- 
2.43.0


From 1948ec59197b706627b0cd6c30e2c65767d05d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 075/100] fix: poly loaders keep the groups of cells as
 subdomains

---
 libdiskpp/include/diskpp/loaders/loader_poly.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 6d3e95c..222ebc0 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -369,6 +369,9 @@ class poly_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
         storage->edges    = std::move(edges);
         storage->surfaces = std::move(faces);
         storage->subdomain_info.resize(storage->surfaces.size());
+        for (auto& [id, faces] : faces_to_grp)
+            for (auto& face_id : faces)
+                storage->subdomain_info.at(conv_table.at(face_id)) = subdomain_descriptor(id);
 
         if (not priv::valid_topology(msh))
             return false;
@@ -658,6 +661,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
 
         std::vector<volume_type> volumes;
         volumes.reserve(vols_to_faces.size());
+        std::vector<size_t> conv_vols(vols_to_faces.size());
 
         for (size_t i = 0; i < vols_to_faces.size(); i++)
         {
@@ -665,6 +669,7 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
             volume_type v(convert_to<typename surface_type::id_type>(vf.second));
             v.set_point_ids(convert_to<disk::point_identifier<3>>(vols_to_vts.at(vf.first).second));
             volumes.push_back(v);
+            conv_vols.at(vf.first) = i;
         }
 
         storage->points   = std::move(m_points);
@@ -673,6 +678,9 @@ class poly_mesh_loader<T, 3> : public mesh_loader<generic_mesh<T, 3>>
         storage->surfaces = std::move(faces);
         storage->volumes  = std::move(volumes);
         storage->subdomain_info.resize(storage->volumes.size());
+        for (auto& [id, vols] : vols_to_grp)
+            for (auto& vol_id : vols)
+                storage->subdomain_info.at(conv_vols.at(vol_id)) = subdomain_descriptor(id);
 
         if (not priv::valid_topology(msh))
             return false;
-- 
2.43.0


From abee3dcc9a16490429cf0a23cc997d99b1e6aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 076/100] fix: poly loaders honour the ids of the entries

The ids were taken for positions in the tables of the nodes and of the vertices of
the elements.
---
 .../include/diskpp/loaders/loader_poly.hpp      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/libdiskpp/include/diskpp/loaders/loader_poly.hpp b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
index 222ebc0..a16d5cc 100644
--- a/libdiskpp/include/diskpp/loaders/loader_poly.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_poly.hpp
@@ -42,6 +42,19 @@ class poly_mesh_loader
 namespace poly
 {
 
+/* The entries of a block carry their id, so they can appear in any order */
+template<typename Entry>
+void
+sort_by_id(std::vector<std::pair<size_t, Entry>>& block)
+{
+    auto comp = [](const auto& a, const auto& b) { return a.first < b.first; };
+    std::sort(block.begin(), block.end(), comp);
+
+    for (size_t i = 0; i < block.size(); i++)
+        if (block[i].first != i)
+            throw std::runtime_error("missing or repeated ids");
+}
+
 std::pair<size_t, std::vector<size_t>>
 read_cell_line(std::ifstream& ifs)
 {
@@ -73,6 +86,8 @@ read_cell_block(std::ifstream& ifs, const size_t nb_cells, std::vector<std::pair
     for (size_t i = 0; i < nb_cells; i++)
         cells.push_back(read_cell_line(ifs));
 
+    sort_by_id(cells);
+
     return true;
 }
 
@@ -96,6 +111,8 @@ read_nodes_block(std::ifstream& ifs, const size_t nb_nodes, std::vector<std::pai
         nodes.push_back(std::make_pair(node_id, coor));
     }
 
+    sort_by_id(nodes);
+
     return true;
 }
 
-- 
2.43.0


From 22bfecb5066d15c8407e1efd25f9150de1d951f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 077/100] fix: gmsh loaders of simplicial meshes number the
 subdomains, not the elements

---
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index f7b66de..16acfa6 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -134,7 +134,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,3>> : public mesh_loader<simplicial
                     surfaces.push_back( surface_type( { p0, p2, p3 } ) );
                     surfaces.push_back( surface_type( { p1, p2, p3 } ) );
 
-                    subdomain_descriptor si(i, tag);
+                    subdomain_descriptor si(subdom_id, tag);
                     auto vs = std::make_pair(volume_type( {p0, p1, p2, p3} ), si);
                     tmp_volumes.push_back( vs );
                 }
@@ -360,7 +360,7 @@ class gmsh_geometry_loader<simplicial_mesh<T,2>> : public mesh_loader<simplicial
                     edges.push_back( edge_type( { p0, p2 } ) );
                     edges.push_back( edge_type( { p1, p2 } ) );
 
-                    subdomain_descriptor si(i, tag);
+                    subdomain_descriptor si(subdom_id, tag);
                     auto vs = std::make_pair(surface_type( {p0, p1, p2} ), si);
                     tmp_surfaces.push_back( vs );
                 }
-- 
2.43.0


From 966e0236f25e3f22bf135522121ccd30a6327278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 078/100] fix: elements with a different number of subelements
 are not equal

Only the first ones were compared, and past the end of the shorter list.
---
 libdiskpp/include/diskpp/geometry/element_generic.hpp | 3 +--
 libdiskpp/include/diskpp/loaders/loader_gmsh.hpp      | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/libdiskpp/include/diskpp/geometry/element_generic.hpp b/libdiskpp/include/diskpp/geometry/element_generic.hpp
index d8e8079..cefd5bf 100644
--- a/libdiskpp/include/diskpp/geometry/element_generic.hpp
+++ b/libdiskpp/include/diskpp/geometry/element_generic.hpp
@@ -190,8 +190,7 @@ public:
 
     bool operator==(const generic_element& other) const
     {
-        return std::equal(this->m_sids_ptrs.begin(), this->m_sids_ptrs.end(),
-                          other.m_sids_ptrs.begin());
+        return this->m_sids_ptrs == other.m_sids_ptrs;
     }
 };
 
diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index 16acfa6..fae96bf 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -784,7 +784,7 @@ class gmsh_geometry_loader<generic_mesh<T,3>> : public mesh_loader<generic_mesh<
             auto pb = convert_to<disk::point_identifier<3>>(tf.nodes);
             std::sort(pa.begin(), pa.end());
             std::sort(pb.begin(), pb.end());
-            return std::equal(pa.begin(), pa.end(), pb.begin());
+            return std::equal(pa.begin(), pa.end(), pb.begin(), pb.end());
         };
 
         for (auto& tv : tmp_volumes)
@@ -837,7 +837,7 @@ class gmsh_geometry_loader<generic_mesh<T,3>> : public mesh_loader<generic_mesh<
             auto pb = fn;
             std::sort(pa.begin(), pa.end());
             std::sort(pb.begin(), pb.end());
-            return std::equal(pa.begin(), pa.end(), pb.begin());
+            return std::equal(pa.begin(), pa.end(), pb.begin(), pb.end());
         };
 
 
-- 
2.43.0


From b4f3d50226d0aa0eb2ffd585aef799be92f9a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 079/100] fix: fvca5 loader does not loop forever on read
 errors

---
 libdiskpp/include/diskpp/loaders/loader_fvca5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
index c780971..73d7b4e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_fvca5.hpp
@@ -394,7 +394,7 @@ class fvca5_mesh_loader<T, 2> : public mesh_loader<generic_mesh<T, 2>>
             return false;
         }
 
-        while (!ifs.eof())
+        while (ifs.good())
         {
             bool success = fvca5_parse_block();
 
-- 
2.43.0


From cf54d7039e76598616539d64230e17d894a44d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 080/100] fix: the gmsh loaders do not add to the mesh repeated
 nodes and nodes of no element

---
 .../include/diskpp/loaders/loader_gmsh.hpp    | 46 ++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
index fae96bf..0d9182e 100644
--- a/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
+++ b/libdiskpp/include/diskpp/loaders/loader_gmsh.hpp
@@ -10,6 +10,8 @@
 
 #pragma once
 
+#include <set>
+
 #include "gmsh.h"
 
 #include "diskpp/mesh/mesh_storage.hpp"
@@ -18,6 +20,41 @@
 
 namespace disk {
 
+namespace priv {
+
+/* Get the nodes of the elements of the specified dimension, each of them
+ * once. The list of gmsh repeats the nodes which are shared between different
+ * entities and includes the nodes which are not used by any element, for
+ * example the centers of the circles. */
+inline void
+gmsh_get_element_nodes(int dim, std::vector<size_t>& tags,
+    std::vector<double>& coords)
+{
+    std::vector<int>                    elemTypes;
+    std::vector<std::vector<size_t>>    elemTags, elemNodeTags;
+    gmsh::model::mesh::getElements(elemTypes, elemTags, elemNodeTags, dim);
+
+    std::set<size_t> used;
+    for (auto& ents : elemNodeTags)
+        used.insert(ents.begin(), ents.end());
+
+    std::vector<size_t> allTags;
+    std::vector<double> allCoords, paraCoords;
+    gmsh::model::mesh::getNodes(allTags, allCoords, paraCoords, -1, -1, true, false);
+
+    for (size_t i = 0; i < allTags.size(); i++)
+    {
+        if (used.erase(allTags[i]) == 0)
+            continue;
+
+        tags.push_back(allTags[i]);
+        for (size_t j = 0; j < 3; j++)
+            coords.push_back(allCoords[3*i+j]);
+    }
+}
+
+} // namespace priv
+
 template<typename Mesh>
 class gmsh_geometry_loader;
 
@@ -46,9 +83,8 @@ class gmsh_geometry_loader<simplicial_mesh<T,3>> : public mesh_loader<simplicial
     {
         std::vector<size_t>     nodeTags;
         std::vector<double>     coords;
-        std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        priv::gmsh_get_element_nodes(3/*dimension*/, nodeTags, coords);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
@@ -287,9 +323,8 @@ class gmsh_geometry_loader<simplicial_mesh<T,2>> : public mesh_loader<simplicial
     {
         std::vector<size_t>     nodeTags;
         std::vector<double>     coords;
-        std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        priv::gmsh_get_element_nodes(2/*dimension*/, nodeTags, coords);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
@@ -581,9 +616,8 @@ class gmsh_geometry_loader<generic_mesh<T,3>> : public mesh_loader<generic_mesh<
     {
         std::vector<size_t>     nodeTags;
         std::vector<double>     coords;
-        std::vector<double>     paraCoords;
 
-        gmsh::model::mesh::getNodes(nodeTags, coords, paraCoords, -1, -1, true, false);
+        priv::gmsh_get_element_nodes(3/*dimension*/, nodeTags, coords);
 
         auto maxtag_pos = std::max_element(nodeTags.begin(), nodeTags.end());
         
-- 
2.43.0


From ab92678ca1616ce2c990a76560ca61eee003f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 081/100] fix: integrals on the four faces of a tetrahedron fit
 in the returned vector

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 316cfa2..474a2eb 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -481,7 +481,7 @@ integrate_on_primal_faces(const simplicial_mesh<T, 3>& mesh,
                           const typename simplicial_mesh<T, 3>::volume_type& vol,
                           const vec3<T> vecf)
 {
-    Eigen::Matrix<T, 3, 1> ret;
+    Eigen::Matrix<T, 4, 1> ret;
 
     auto pav = primal_area_vectors(mesh, vol);
 
-- 
2.43.0


From 18094e8c6bdc81c834cd5853dbebca1d8b4ba356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 082/100] fix: the normals of the edges of a triangle all point
 outwards

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 474a2eb..4b91f22 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -575,8 +575,8 @@ normals(const simplicial_mesh<T, 3>& mesh,
     auto normal = priv::cross(pev[0], pev[2]);
 
     auto n0 =  priv::cross(pev[0], normal);
-    auto n1 =  priv::cross(pev[1], normal);
-    auto n2 = -priv::cross(pev[2], normal);
+    auto n1 = -priv::cross(pev[1], normal);
+    auto n2 =  priv::cross(pev[2], normal);
 
     ret[0] = n0/n0.norm();
     ret[1] = n1/n1.norm();
-- 
2.43.0


From 9562d6563aea2165e0b6f9b8e4d68500c1ff141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 083/100] fix: dual edges of a boundary face are all oriented
 outwards

---
 .../include/diskpp/methods/implementation_dga/methods_dga.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
index 4b91f22..8d4c910 100644
--- a/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_dga/methods_dga.hpp
@@ -334,8 +334,8 @@ dual_edge_vectors(const simplicial_mesh<T, 3>& mesh,
     auto edgs = edges(mesh, t);
 
     ret[0] =  ( face_bar - barycenter(mesh, edgs[0]) ).to_vector() * sign;
-    ret[1] =  ( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
-    ret[2] = -( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
+    ret[1] = -( face_bar - barycenter(mesh, edgs[1]) ).to_vector() * sign;
+    ret[2] =  ( face_bar - barycenter(mesh, edgs[2]) ).to_vector() * sign;
 
     return ret;
 }
-- 
2.43.0


From f500b28d41dbf21102f72c0cd3f46fdb9903524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 084/100] fix: vcross on complex fields is not conjugated

---
 .../diskpp/methods/implementation_hho/curl.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 384c96b..5b55d4a 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -26,10 +26,10 @@ vcross(const static_vector<U, 3>& normal, const Matrix<T, Dynamic, 3>& field)
         f(1) = field(i,1);
         f(2) = field(i,2);
 
-        auto r = normal.cross( f );
-        ret(i,0) = r(0);
-        ret(i,1) = r(1);
-        ret(i,2) = r(2);
+        /* Not Eigen's cross(): it conjugates the result on complex scalars */
+        ret(i,0) = normal(1)*f(2) - normal(2)*f(1);
+        ret(i,1) = normal(2)*f(0) - normal(0)*f(2);
+        ret(i,2) = normal(0)*f(1) - normal(1)*f(0);
     }
 
     return ret;
@@ -49,10 +49,10 @@ vcross(const Matrix<T, Dynamic, 3>& field, const static_vector<U, 3>& normal)
         f(1) = field(i,1);
         f(2) = field(i,2);
 
-        auto r = f.cross( normal );
-        ret(i,0) = r(0);
-        ret(i,1) = r(1);
-        ret(i,2) = r(2);
+        /* Not Eigen's cross(): it conjugates the result on complex scalars */
+        ret(i,0) = f(1)*normal(2) - f(2)*normal(1);
+        ret(i,1) = f(2)*normal(0) - f(0)*normal(2);
+        ret(i,2) = f(0)*normal(1) - f(1)*normal(0);
     }
 
     return ret;
-- 
2.43.0


From ba40ab914409410daa1563e202adc3e784b63a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 085/100] fix: maxwell_prj projects on the faces with face
 quadrature

---
 libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
index 5b55d4a..9eb5be4 100644
--- a/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_hho/curl.hpp
@@ -401,7 +401,7 @@ maxwell_prj(const Mesh& msh, const typename Mesh::cell_type& cl,
     {
         const auto& fc = fcs[i];
         const auto fb = make_vector_monomial_tangential_basis(msh, fc, hdi.face_degree());
-        const auto qps_f = integrate(msh, cl, 2*hdi.face_degree());
+        const auto qps_f = integrate(msh, fc, 2*hdi.face_degree());
         dynamic_matrix<T> fmat = dynamic_matrix<T>::Zero(fbs, fbs);
         dynamic_matrix<T> frhs = dynamic_vector<T>::Zero(fbs);
         for (const auto& qp : qps_f)
-- 
2.43.0


From f2cd5fae75d0cf7ad2e71b0a9c1a7ee4e24830b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 086/100] fix: dof_mapper::recompute discards the previous
 numbering

---
 .../diskpp/methods/implementation_vem/methods_vem_2d.hpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index f52b55e..faf1e29 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -119,6 +119,10 @@ public:
         if (k < 1)
             throw std::invalid_argument("dof_mapper: degree must be > 0");
 
+        l2g_byface.clear();
+        l2g_bycell.clear();
+        bnd_face_dofs.clear();
+
         size_t pts_base = msh.points_size();
 
         /* For each edge in the mesh (edges are ordered lexicographically)
-- 
2.43.0


From dfcf7eacae62910e320adc92dae62fe1b41e219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 087/100] fix: VEM of order 1: the mean in G is the one in B

---
 .../methods/implementation_vem/methods_vem_2d.hpp  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index faf1e29..4321b47 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -292,6 +292,20 @@ matrix_G(const Mesh&    msh,
     const auto cb  = make_scalar_monomial_basis(msh, cl, degree);
     dynamic_matrix<T> stiffness = make_stiffness_matrix(msh, cl, cb);
 
+    if (degree == 1)
+    {
+        /* At the lowest order the mean is the average of the vertex values,
+         * consistently with matrix_B(). */
+        for (auto& pt : points(msh, cl))
+        {
+            const auto phi    = cb.eval_functions(pt);
+            stiffness.row(0) += phi.transpose();
+        }
+        stiffness.row(0) /= num_faces;
+
+        return stiffness;
+    }
+
     const auto qps = integrate(msh, cl, 2 * (degree - 1));
     for (auto& qp : qps)
     {
-- 
2.43.0


From e280bb87cabd0f471bae9dee01e124176e01ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 088/100] fix: VEM projector_zero uses the whole of the
 elliptic projection

---
 .../implementation_vem/methods_vem_2d.hpp        | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
index 4321b47..f833d44 100644
--- a/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
+++ b/libdiskpp/include/diskpp/methods/implementation_vem/methods_vem_2d.hpp
@@ -561,14 +561,24 @@ projector_zero(const Mesh& msh,
 
     matrix_t H = make_mass_matrix(msh, cl, pb);
 
+    /* Moments of the whole \Pi^\nabla, which has degree 'degree' */
+    const auto cb = make_scalar_monomial_basis(msh, cl, degree);
+    matrix_t M = matrix_t::Zero(pbs, cb.size());
+    const auto qps = integrate(msh, cl, degree + proj_degree);
+    for (auto& qp : qps)
+    {
+        const auto phi_p = pb.eval_functions(qp.point());
+        const auto phi_c = cb.eval_functions(qp.point());
+        M += qp.weight() * phi_p * phi_c.transpose();
+    }
+
     const auto num_faces = howmany_faces(msh, cl);
     const auto offset = num_faces * degree;
 
     matrix_t C;
     if (degree == 1)
     {
-        C.resize(pbs, offset);
-        C = H * PIN_star.block(0, 0, pbs, offset);
+        C = M * PIN_star;
     }
     else
     {
@@ -578,7 +588,7 @@ projector_zero(const Mesh& msh,
 
         C.block(0, offset, lbs, lbs) = matrix_t::Identity(lbs, lbs) * measure(msh, cl);
         C.block(lbs, 0, pbs - lbs, num_dofs) =
-            H.block(lbs, 0, pbs - lbs, pbs) * PIN_star.block(0, 0, pbs, num_dofs);
+            M.block(lbs, 0, pbs - lbs, cb.size()) * PIN_star;
     }
 
     //std::cout << "PIN* \n" << PIN_star << std::endl;
-- 
2.43.0


From 55d5c0bcdae648e3e9eb4b4a17a098679a0ed3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 089/100] fix: silo face orientation does not rely on the first
 three points of the face

---
 libdiskpp/include/diskpp/output/silo.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index dbf5662..22c2ee1 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -73,9 +73,13 @@ silo_face_orientation(const Mesh<T, 3, Storage>& msh,
     auto pts = points(msh, fc);
     assert(pts.size() >= 3);
 
-    auto v0 = (pts[1] - pts[0]).to_vector();
-    auto v1 = (pts[2] - pts[1]).to_vector();
-    auto n = v0.cross(v1);
+    /* Area vector of the face: the first points can be aligned */
+    auto n = (pts[1] - pts[0]).to_vector().cross((pts[2] - pts[0]).to_vector()).eval();
+    for (size_t i = 3; i < pts.size(); i++) {
+        auto v0 = (pts[i-1] - pts[0]).to_vector();
+        auto v1 = (pts[i] - pts[0]).to_vector();
+        n += v0.cross(v1);
+    }
 
     auto cell_bar = barycenter(msh, cl);
     auto face_bar = barycenter(msh, fc);
-- 
2.43.0


From 9c39a7678512146f2dbc4465d9cce10c0bb5c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 090/100] fix: silo vector variables report the failure of a
 component

---
 libdiskpp/include/diskpp/output/silo.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 22c2ee1..ea46133 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -810,14 +810,14 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_x", c, centering) )
+            return false;
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_y", c, centering) )
+            return false;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     template<typename T>
@@ -827,17 +827,18 @@ public:
                       variable_centering_t centering)
     {
         Eigen::Matrix<T, Eigen::Dynamic, 1> c = var.col(0);
-        add_variable(mesh_name, var_name+"_x", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_x", c, centering) )
+            return false;
         c = var.col(1);
-        add_variable(mesh_name, var_name+"_y", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_y", c, centering) )
+            return false;
         c = var.col(2);
-        add_variable(mesh_name, var_name+"_z", c, centering);
+        if ( !add_variable(mesh_name, var_name+"_z", c, centering) )
+            return false;
         std::stringstream exprss;
         exprss << "{" << var_name << "_x" << ", " << var_name << "_y";
         exprss << ", " << var_name << "_z" << "}";
-        add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
-
-        return true;
+        return add_expression(var_name, exprss.str().c_str(), DB_VARTYPE_VECTOR);
     }
 
     /* Scalar variable, REAL case */
-- 
2.43.0


From e71b701d9cf41ec3fe31f124b3031570fc01cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 091/100] fix: silo expressions report failures

---
 libdiskpp/include/diskpp/output/silo.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index ea46133..96e5fa3 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -908,11 +908,20 @@ public:
                         const std::string& expr_definition,
                         int expr_type)
     {
+        if (!m_siloDb) {
+            std::cout << "add_expression(): Database not opened." << std::endl;
+            return false;
+        }
+
         std::stringstream ss;
         ss << "def_" << expr_name;
         const char *name[] = { expr_name.c_str() };
         const char *def[] = { expr_definition.c_str() };
-        DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL);
+        if ( DBPutDefvars(m_siloDb, ss.str().c_str(), 1, name, &expr_type, def, NULL) < 0 ) {
+            std::cout << "DBPutDefvars() failed" << std::endl;
+            return false;
+        }
+
         return true;
     }
 };
-- 
2.43.0


From 04048e359ec8fe8bd185f40f231b94c0e76e86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 092/100] fix: silo scalar variables report failures

---
 libdiskpp/include/diskpp/output/silo.hpp | 72 +++++++++++++-----------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index 96e5fa3..bd65a2f 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -682,17 +682,19 @@ public:
 
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+                 var.data(),
+                 var.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 )
+                return false;
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var.name().c_str(), mesh_name.c_str(),
+                 var.data(),
+                 var.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 )
+                return false;
         }
         else
             return false;
@@ -726,34 +728,38 @@ public:
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_rep.data(),
-                         var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_rep.data(),
+                 var_rep.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 )
+                return false;
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_imp.data(),
-                         var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_imp.data(),
+                 var_imp.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 )
+                return false;
 
         }
         else if (centering == nodal_variable_t)
         {
             std::stringstream ss;
             ss << var.name() << "_real";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_rep.data(),
-                         var_rep.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_rep.data(),
+                 var_rep.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 )
+                return false;
             ss.str(std::string());
 
             ss << var.name() << "_imag";
-            DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
-                         var_imp.data(),
-                         var_imp.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, ss.str().c_str(), mesh_name.c_str(),
+                 var_imp.data(),
+                 var_imp.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 )
+                return false;
         }
         else
             return false;
@@ -858,17 +864,19 @@ public:
 
         if (centering == zonal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_ZONECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+                 var.data(),
+                 var.size(), NULL, 0, DB_DOUBLE,
+                 DB_ZONECENT, NULL) < 0 )
+                return false;
         }
         else if (centering == nodal_variable_t)
         {
-            DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
-                         var.data(),
-                         var.size(), NULL, 0, DB_DOUBLE,
-                         DB_NODECENT, NULL);
+            if ( DBPutUcdvar1(m_siloDb, var_name.c_str(), mesh_name.c_str(),
+                 var.data(),
+                 var.size(), NULL, 0, DB_DOUBLE,
+                 DB_NODECENT, NULL) < 0 )
+                return false;
         }
         else
             return false;
-- 
2.43.0


From da8f042a54d67e6ead9ca0786957f4e67c5919ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 093/100] fix: silo point variables: missing or ragged
 components are refused

---
 libdiskpp/include/diskpp/output/silo.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index bd65a2f..cb90938 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -887,6 +887,17 @@ public:
     bool add_variable(const std::string& mesh_name, const std::string& vars_name,
         std::vector<std::vector<double>>& vars)
     {
+        if (!m_siloDb) {
+            std::cout << "add_variable(): Database not opened." << std::endl;
+            return false;
+        }
+
+        auto ragged = [&](const std::vector<double>& v) { return v.size() != vars[0].size(); };
+        if ( vars.empty() || std::any_of(vars.begin(), vars.end(), ragged) ) {
+            std::cout << "add_variable(): components missing or of different size" << std::endl;
+            return false;
+        }
+
         std::vector<const double*> pvars;
         pvars.resize(vars.size());
         auto tr = [](const std::vector<double>& v) { return v.data(); };
-- 
2.43.0


From b2d4697411cdb5b09b145b27fc12f8ca8f0f6332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 094/100] fix: silo database: opening another file closes the
 current one

---
 libdiskpp/include/diskpp/output/silo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/silo.hpp b/libdiskpp/include/diskpp/output/silo.hpp
index cb90938..e3b316b 100644
--- a/libdiskpp/include/diskpp/output/silo.hpp
+++ b/libdiskpp/include/diskpp/output/silo.hpp
@@ -194,6 +194,7 @@ public:
 
     bool create(const std::string& db_name)
     {
+        close();
         m_siloDb = DBCreate(db_name.c_str(), DB_CLOBBER, DB_LOCAL, NULL, DB_PDB);
         if (m_siloDb)
             return true;
@@ -204,6 +205,7 @@ public:
 
     bool open(const std::string& db_name)
     {
+        close();
         m_siloDb = DBOpen(db_name.c_str(), DB_PDB, DB_APPEND);
         if (m_siloDb)
             return true;
-- 
2.43.0


From 7b44824830bf3d849b3e21df7eee2e4f274807cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 095/100] fix: hdf5_context closes only a file it has opened

---
 libdiskpp/include/diskpp/output/hdf5_io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdiskpp/include/diskpp/output/hdf5_io.hpp b/libdiskpp/include/diskpp/output/hdf5_io.hpp
index 322e5a7..e33ecc0 100644
--- a/libdiskpp/include/diskpp/output/hdf5_io.hpp
+++ b/libdiskpp/include/diskpp/output/hdf5_io.hpp
@@ -40,13 +40,14 @@ class hdf5_context
 
 public:
     hdf5_context()
+        : file_id(-1), status(0), is_open(false)
     {}
 
     hdf5_context(const std::string& filename)
         : hdf5_filename(filename), is_open(false)
     {
         file_id = H5Fcreate(hdf5_filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-        is_open = true;
+        is_open = (file_id >= 0);
     }
 
     ~hdf5_context()
-- 
2.43.0


From 4a55d4bfd8f0c6f94ba29c437a09ff78f189e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 096/100] fix: dump_netgen_format writes the coordinates with
 all their digits

---
 libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
index f43d105..a5a9a8c 100644
--- a/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
+++ b/libdiskpp/include/diskpp/mesh/mesh_hierarchy.hpp
@@ -463,6 +463,7 @@ void
 dump_netgen_format(const disk::simplicial_mesh<T,2>& msh, const std::string& filename)
 {
     std::ofstream ofs(filename);
+    ofs.precision(std::numeric_limits<T>::max_digits10);
 
     ofs << msh.points_size() << std::endl;
     for (auto itor = msh.points_begin(); itor != msh.points_end(); itor++)
-- 
2.43.0


From 35ed8ce8b8fe39745117a7fcc432d39f54e74dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 097/100] fix: cells of 2D cartesian meshes are split in
 triangles that cover them

---
 .../diskpp/quadratures/bits/raw_simplices.hpp | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
index 7041215..18974c8 100644
--- a/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
+++ b/libdiskpp/include/diskpp/quadratures/bits/raw_simplices.hpp
@@ -32,6 +32,9 @@
 
 namespace disk{
 
+template<size_t DIM, size_t CODIM>
+class cartesian_element;
+
 
 /**
  * @brief This class contains the basic informations to define a simplex, i.e. a triangle
@@ -289,6 +292,40 @@ split_in_raw_triangles_index(const Mesh& msh, const typename Mesh::cell& cl)
     return raw_simplices;
 }
 
+/**
+ * @brief Split a quadrangle of a cartesian mesh in triangles.
+ *
+ * The points of a cartesian cell are numbered along x and then along y, they
+ * do not follow its boundary.
+ *
+ * @param msh mesh
+ * @param cl specified 2D-cell
+ * @return std::vector<raw_simplex<typename Mesh::point_type, 2>> list of triangles
+ */
+template<typename Mesh>
+requires std::is_same_v<typename Mesh::cell, cartesian_element<2, 0>>
+std::vector<raw_simplex<typename Mesh::point_type, 2>>
+split_in_raw_triangles(const Mesh& msh, const typename Mesh::cell& cl)
+{
+    using raw_simplex_type = raw_simplex<typename Mesh::point_type, 2>;
+
+    const auto pts = points(msh, cl);
+
+    return {raw_simplex_type({pts[0], pts[1], pts[3]}), raw_simplex_type({pts[0], pts[3], pts[2]})};
+}
+
+template<typename Mesh>
+requires std::is_same_v<typename Mesh::cell, cartesian_element<2, 0>>
+std::vector<std::array<point_identifier<2>, 3>>
+split_in_raw_triangles_index(const Mesh& msh, const typename Mesh::cell& cl)
+{
+    using Triangle = std::array<point_identifier<2>, 3>;
+
+    const auto ids = cl.point_ids();
+
+    return {Triangle{ids[0], ids[1], ids[3]}, Triangle{ids[0], ids[3], ids[2]}};
+}
+
 /**
  * @brief Split a 3D-cell in tetrahedra. There is several possibilities
  *
-- 
2.43.0


From 1e2387d40670615170e5556bff577884bdf9b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 098/100] fix: convertMesh triangulates polygons whatever their
 shape and size

---
 .../include/diskpp/output/gmshConvertMesh.hpp | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
index 76b4df2..bfd0234 100755
--- a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
+++ b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
@@ -174,11 +174,9 @@ add_element(gmsh::Gmesh& gmsh, const std::vector<gmsh::Node>& list_nodes)
       // sort node
       std::vector<size_t> nodes_sorted = sort_nodes_2D(list_nodes);
 
-      std::vector<size_t>     index_nodes;
-      std::vector<gmsh::Node> new_nodes;
+      std::vector<size_t> index_nodes;
       for (size_t i = 0; i < list_nodes.size(); i++) {
          index_nodes.push_back(list_nodes[nodes_sorted[i]].getIndex());
-         new_nodes.push_back(list_nodes[nodes_sorted[i]]);
       }
 
       if (list_nodes.size() == 3) {
@@ -188,16 +186,24 @@ add_element(gmsh::Gmesh& gmsh, const std::vector<gmsh::Node>& list_nodes)
          gmsh::Quadrangle quad(index_nodes, gmsh.getNumberofElements() + 1, 0, 0);
          gmsh.addQuadrangle(quad);
       } else {
-         std::vector<size_t> index_nodes_tri(3, 0);
-         index_nodes_tri[0] = index_nodes[0];
-
-         for (size_t i = 1; i < (list_nodes.size() - 1); i++) {
-            index_nodes_tri[1] = index_nodes[i];
-            index_nodes_tri[2] = index_nodes[i + 1];
-            if (!aligned(new_nodes[0], new_nodes[i], new_nodes[i + 1])) {
-               gmsh::Triangle tri(index_nodes_tri, gmsh.getNumberofElements() + 1, 0, 0);
-               gmsh.addTriangle(tri);
-            }
+         // the nodes follow the boundary of the polygon, which may be non-convex
+         std::vector<point<double, 2>> pts;
+         for (auto& node : list_nodes) {
+            const auto coor = node.getCoordinate();
+            pts.push_back(point<double, 2>(coor[0], coor[1]));
+         }
+
+         for (auto& tri_id : triangulation_earcut_algorithm(pts)) {
+            std::vector<gmsh::Node> tri_nodes;
+            for (auto& id : tri_id)
+               tri_nodes.push_back(list_nodes[id]);
+
+            std::vector<size_t> index_nodes_tri;
+            for (auto& id : sort_nodes_2D(tri_nodes))
+               index_nodes_tri.push_back(tri_nodes[id].getIndex());
+
+            gmsh::Triangle tri(index_nodes_tri, gmsh.getNumberofElements() + 1, 0, 0);
+            gmsh.addTriangle(tri);
          }
       }
    } else if (DIM == 3) {
-- 
2.43.0


From dfbf0f82ca4939c30e3ebbc40925180bb7589319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 099/100] fix: convertMesh orders the nodes of hexahedra by
 their faces

---
 .../include/diskpp/output/gmshConvertMesh.hpp | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
index bfd0234..63cedce 100755
--- a/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
+++ b/libdiskpp/include/diskpp/output/gmshConvertMesh.hpp
@@ -25,6 +25,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <string>
@@ -227,6 +228,48 @@ add_element(gmsh::Gmesh& gmsh, const std::vector<gmsh::Node>& list_nodes)
       assert(false);
 }
 
+/* Nodes of a hexahedron numbered along x, then y, then z, as those of the
+ * cartesian cells. Empty if the cell is not a hexahedron. */
+template<typename Mesh>
+std::vector<size_t>
+hexahedron_nodes(const Mesh& mesh, const typename Mesh::cell& cl)
+{
+   static_assert(Mesh::dimension == 3);
+   std::vector<std::vector<size_t>> fcs;
+   for (auto& fc : faces(mesh, cl)) {
+      const auto ids = fc.point_ids();
+      fcs.emplace_back(ids.begin(), ids.end());
+      if (fcs.back().size() != 4)
+         return {};
+   }
+
+   if (fcs.size() != 6)
+      return {};
+
+   auto                base = fcs[0];
+   std::vector<size_t> top;
+   for (auto& id : base) {
+      // the neighbour which is not on the same face
+      for (size_t f = 1; f < fcs.size() && top.size() <= size_t(&id - base.data()); f++)
+         for (size_t i = 0; i < 4; i++)
+            if (fcs[f][i] == id) {
+               for (auto next : {fcs[f][(i + 1) % 4], fcs[f][(i + 3) % 4]})
+                  if (top.size() <= size_t(&id - base.data()) &&
+                      std::find(base.begin(), base.end(), next) == base.end())
+                     top.push_back(next);
+            }
+   }
+
+   if (top.size() != 4)
+      return {};
+
+   auto pt = [&](size_t id) { return (*std::next(mesh.points_begin(), id)).to_vector(); };
+   if ((pt(base[1]) - pt(base[0])).cross(pt(base[3]) - pt(base[0])).dot(pt(top[0]) - pt(base[0])) < 0)
+      std::swap(base, top);
+
+   return {base[0], base[1], base[3], base[2], top[0], top[1], top[3], top[2]};
+}
+
 template<typename Mesh>
 gmsh::Gmesh
 convertMesh(const Mesh& mesh)
@@ -268,6 +311,17 @@ convertMesh(const Mesh& mesh)
    for (auto& cl : mesh) {
       auto                    nodes_id = cell_nodes(mesh, cl);
       std::vector<gmsh::Node> list_nodes;
+      if constexpr (Mesh::dimension == 3) {
+         if (nodes_id.size() == 8) {
+            for (auto id : hexahedron_nodes(mesh, cl))
+               list_nodes.push_back(msh.getNode(id));
+
+            if (list_nodes.size() == 8)
+               add_element(msh, list_nodes);
+            continue;
+         }
+      }
+
       for (size_t i = 0; i < nodes_id.size(); i++) {
          list_nodes.push_back(msh.getNode(nodes_id[i]));
       }
-- 
2.43.0


From 0712f05fc8a5c65d11d3d6ff688a9789e06b902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 100/100] fix: triangulations of different threads do not share
 their global data

---
 libdiskpp/contrib/triangle/triangle_mesher.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libdiskpp/contrib/triangle/triangle_mesher.c b/libdiskpp/contrib/triangle/triangle_mesher.c
index 5950e9d..93358a0 100644
--- a/libdiskpp/contrib/triangle/triangle_mesher.c
+++ b/libdiskpp/contrib/triangle/triangle_mesher.c
@@ -643,18 +643,19 @@ struct memorypool {
 };
 
 
-/* Global constants.                                                         */
+/* Global constants. They are computed again by each call to triangulate(),  */
+/*   so that each thread needs its own.                                      */
 
-REAL splitter;       /* Used to split REAL factors for exact multiplication. */
-REAL epsilon;                             /* Floating-point machine epsilon. */
-REAL resulterrbound;
-REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
-REAL iccerrboundA, iccerrboundB, iccerrboundC;
-REAL o3derrboundA, o3derrboundB, o3derrboundC;
+static _Thread_local REAL splitter;       /* Used to split REAL factors for exact multiplication. */
+static _Thread_local REAL epsilon;                             /* Floating-point machine epsilon. */
+static _Thread_local REAL resulterrbound;
+static _Thread_local REAL ccwerrboundA, ccwerrboundB, ccwerrboundC;
+static _Thread_local REAL iccerrboundA, iccerrboundB, iccerrboundC;
+static _Thread_local REAL o3derrboundA, o3derrboundB, o3derrboundC;
 
 /* Random number seed is not constant, but I've made it global anyway.       */
 
-unsigned long randomseed;                     /* Current random number seed. */
+static _Thread_local unsigned long randomseed;                     /* Current random number seed. */
 
 
 /* Mesh data structure.  Triangle operates on only one mesh, but the mesh    */
-- 
2.43.0

