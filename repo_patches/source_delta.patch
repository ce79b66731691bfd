From 8b2aecba007b73d931b47720ab27a33f3b99cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:51 +0000
Subject: [PATCH 01/19] fix: quadratic rectangular hexahedron has 8 Gauss
 nodes, not 4

---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..8319783 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
-- 
2.43.0


From 402d55c22ed2d29d7f136c7f0588f06b80d23237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:51 +0000
Subject: [PATCH 02/19] fix: quadratic rectangular quad has 4 Gauss nodes, not
 8

---
 src/Caribou/Geometry/RectangularQuad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From 4b143250a1ce23e49c445ca12f15bf74ae942771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:51 +0000
Subject: [PATCH 03/19] fix: mid-edge nodes of the faces of the quadratic
 rectangular hexahedron

---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 8319783..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From 8741484ae321b54e691b3346c2b24c3e4f1199d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:51 +0000
Subject: [PATCH 04/19] fix: rectangular quads lack the implementation of
 contains_local

---
 src/Caribou/Geometry/BaseRectangularQuad.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..dd862a5 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -92,6 +92,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From b009c089be3448a891b8f4cefeaf31d336ab90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:51 +0000
Subject: [PATCH 05/19] fix: frame of a hexahedron at its center did not
 compile

---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From 28476904ecf8b7daba95a04de1dbba6946f9ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:16 +0000
Subject: [PATCH 06/19] fix: cells_around returned wrong or invalid cells for
 points outside of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..9eecd6a 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,9 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            if ((cell.array() >= 0).all() and (cell.array() < N().array().template cast<Int>()).all()) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +193,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From cdc00ba07841471198dbaee656a1ee7b448a9456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 07/19] fix: cells_enclosing ignored the positions outside of
 the grid instead of clipping the bounding box

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 9eecd6a..8027945 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -365,6 +365,21 @@ struct BaseGrid
                     return upper_bound;
                 };
 
+        // Tool function that returns the grid coordinates of the cell the closest to a position lying outside of the grid
+        auto clipped_cell =
+                [this, &lower_grid_boundary, &upper_grid_boundary]
+                (const WorldCoordinates & position) -> GridCoordinates
+                {
+                    const VecFloat absolute = ((position - m_anchor_position).array() / H().array()).matrix();
+                    GridCoordinates cell;
+                    for (size_t i = 0; i < Dimension; ++i) {
+                        const Float lower = static_cast<Float>(lower_grid_boundary[i]);
+                        const Float upper = static_cast<Float>(upper_grid_boundary[i]);
+                        cell[i] = static_cast<Int>(std::min(std::max(absolute[i], lower), upper));
+                    }
+                    return cell;
+                };
+
         // 1. Find the grid coordinates bounding box of the cells that contain each nodes
         GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
         GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
@@ -386,6 +401,14 @@ struct BaseGrid
         if (not grid_contains_at_least_one_point)
             return {};
 
+        // Positions outside of the grid extend the bounding box up to the grid boundaries
+        for (const auto & position : positions) {
+            if (not contains(position)) {
+                lower_cell = lower_cell.cwiseMin(clipped_cell(position)).eval();
+                upper_cell = upper_cell.cwiseMax(clipped_cell(position)).eval();
+            }
+        }
+
         // 2. Append all cells within the bounding-box
         CellSet enclosing_cells;
         if constexpr (Dimension ==1) {
-- 
2.43.0


From 7e98c616e4f0244342798d34ed51dce05b99a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:59 +0000
Subject: [PATCH 08/19] fix: Mesh::positions(std::array) did not compile

---
 src/Caribou/Topology/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..72a637c 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -529,7 +529,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                caribou_assert(indices[i] < static_cast<IntegerType>(number_of_nodes()));
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From 3195f80c4f52c7acbf8465b1fc5cfc69cde93f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:52 +0000
Subject: [PATCH 09/19] fix: generic 3D view of the nodes of 1D and 2D meshes
 had uninitialized components

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 72a637c..abcf336 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From b5b743d14d07133712ce3e38a766bed6aec867df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:15 +0000
Subject: [PATCH 10/19] fix: removing a domain other than the first one of a
 mesh never terminated

---
 src/Caribou/Topology/Mesh.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index abcf336..aa0e2fc 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +471,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From 2e215152c96a2906af3129b3a7d4b169c33cba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 11/19] fix: copies and moves of a domain referred to the
 storage of the original and to an uninitialized mesh

---
 src/Caribou/Topology/Domain.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..2207f71 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -97,10 +97,17 @@ namespace caribou::topology {
 
         /*! Copy constructor */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_mesh(nullptr), p_buffer(other.p_buffer),
+          // The indices are either stored in the internal buffer (which has been copied), or in an external one
+          p_elements(
+              (other.p_elements.data() == other.p_buffer.data()) ? p_buffer.data() : other.p_elements.data(),
+              other.p_elements.rows(), other.p_elements.cols(),
+              {other.p_elements.outerStride(), other.p_elements.innerStride()}
+          ) {}
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept
+        : p_mesh(nullptr), p_buffer(), p_elements(p_buffer.data(), p_buffer.rows(), p_buffer.cols(), {p_buffer.cols(), 1}) {
             swap(*this, other);
         }
 
@@ -243,6 +250,7 @@ namespace caribou::topology {
         {
             // enable ADL
             using std::swap;
+            swap(first.p_mesh, second.p_mesh);
             swap(first.p_buffer, second.p_buffer);
 
             // Map isn't swappable, we need to do it manually using placement new operators
-- 
2.43.0


From b8ec8987b481278e209c66e11727fb6427430df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 12/19] fix: domains of a copied, moved or swapped mesh were
 not attached to it

---
 src/Caribou/Topology/Domain.h | 4 ++--
 src/Caribou/Topology/Mesh.h   | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 2207f71..00b6b66 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -227,7 +227,7 @@ namespace caribou::topology {
             : p_mesh(mesh), p_buffer(), p_elements(data, number_of_elements, number_of_nodes_per_elements, {outer_stride, inner_stride}) {}
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its current mesh if the given mesh is null.
          */
         inline void attach_to(const BaseMesh * mesh) override {
             // Trying to attach the same mesh as the one which is already attached to this domain
@@ -237,7 +237,7 @@ namespace caribou::topology {
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            if (p_mesh != nullptr and mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index aa0e2fc..531783a 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -225,6 +225,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             for (const auto & p : other.p_domains) {
                 const std::string & domain_name = p.first;
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
+                cloned_domain_ptr->attach_to(this);
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
             }
         }
@@ -607,6 +608,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains have changed of mesh
+            for (Mesh * mesh : {&first, &second}) {
+                for (const auto & d : mesh->p_domains) {
+                    d.second->attach_to(nullptr);
+                    d.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From 1028fd579458dd156b01fbfbe48725d65d2ac956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:12 +0000
Subject: [PATCH 13/19] fix: iso value at SOFA coordinates did not compile and
 returned nothing

---
 src/SofaCaribou/Topology/IsoSurface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/IsoSurface.h b/src/SofaCaribou/Topology/IsoSurface.h
index 5e5aca2..e09c7fb 100644
--- a/src/SofaCaribou/Topology/IsoSurface.h
+++ b/src/SofaCaribou/Topology/IsoSurface.h
@@ -22,8 +22,8 @@ public:
      * Get the iso value at the given world coordinates
      */
     inline Real iso_value(const Coord & x) const {
-        Eigen::Map<Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
-        iso_value(mapped_x);
+        Eigen::Map<const Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
+        return iso_value(Eigen::Matrix<Real, Dimension, 1>(mapped_x));
     };
 
     /*!
-- 
2.43.0


From 2d3a767cdaa7a87a0110067ef6892ba1adb75850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 14/19] fix: reading an empty VTK grid as a 1D or 2D mesh read
 a point that does not exist

---
 src/Caribou/Topology/IO/VTKReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..ac4d8d2 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -232,6 +232,14 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
 {
     // Find the good axes (only for dimensions 1 and 2)
     std::array<UNSIGNED_INTEGER_TYPE, Dimension> axes {};
+    if (number_of_points == 0) {
+        // There is no point from which the axes could be deduced
+        for (std::size_t axis = 0; axis < Dimension; ++axis) {
+            axes[axis] = axis;
+        }
+        return axes;
+    }
+
     if (Dimension == 3) {
       axes[0] = 0;
       axes[1] = 1;
-- 
2.43.0


From 673c4f8be9f7a2febc264e38dbe8ee7ed91f15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:03 +0000
Subject: [PATCH 15/19] fix: clearing rows or columns of an uncompressed sparse
 matrix wrapper missed entries

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..99b5d97 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -291,9 +291,8 @@ public:
 
     /** Sets the entire row i to zero */
     inline void clearRow(Index row_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The entries are searched through the outer index array, which requires a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -315,9 +314,8 @@ public:
 
     /** Sets the rows from index imin to index imax (inclusively) to zero */
     inline void clearRows(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The entries are searched through the outer index array, which requires a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -343,9 +341,8 @@ public:
 
     /** Sets the entire columns i to zero */
     inline void clearCol(Index col_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The entries are searched through the outer index array, which requires a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -367,9 +364,8 @@ public:
 
     /** Sets the columns from index imin to index imax (inclusively) to zero */
     inline void clearCols(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The entries are searched through the outer index array, which requires a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -395,9 +391,8 @@ public:
 
     /** Sets the entire row i and column i to zero */
     inline void clearRowCol(Index i) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The entries are searched through the outer index array, which requires a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
-- 
2.43.0


From 6259811cde2e8045b2a7df9c4162aa9e78d0cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:17 +0000
Subject: [PATCH 16/19] fix: resetting a traction force field lost its load and
 left an empty nodal force vector

---
 src/SofaCaribou/Forcefield/TractionForcefield.inl | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index cdb2845..c745e74 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -78,11 +78,18 @@ void TractionForcefield<Element>::reset()
     // Do an increment on the first step of the simulation
     m_number_of_steps_since_last_increment = d_number_of_steps_before_increment.getValue();
 
-    sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
-
-    nodal_forces.clear();
+    {
+        sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
+        const auto nb_nodes = nodal_forces.size();
+        nodal_forces.clear();
+        nodal_forces.resize(nb_nodes);
+    }
     d_total_load.setValue(0.);
     m_current_traction = Deriv();
+
+    // If all the load is applied at once, it has to be applied again since no increments will be done afterwards
+    if (m_traction_is_constant)
+        increment_load(d_traction.getValue());
 }
 
 template <typename Element>
-- 
2.43.0


From 6ac4949480d808a224163a30eeb96ccd7d8b4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:25 +0000
Subject: [PATCH 17/19] fix: apply the corotated stiffness in the frame it was
 integrated in

The element stiffness matrices are integrated with shape derivatives in world
coordinates, but the corotated displacements were expressed in the element's
own frame, which gave wrong forces unless the rest frame was the identity. Use
the rotation from the rest frame to the current one.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 6 +++---
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 2a3633f..105035c 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -247,9 +247,9 @@ void HexahedronElasticForce::addForce(
 
         Rotation & R = current_rotation[hexa_id];
 
-        // Extract the hexahedron's frame
+        // Rotation of the hexahedron's frame from its rest state to its current state
         if (corotated)
-            R = hexa.frame({0, 0, 0});
+            R = hexa.frame({0, 0, 0}) * R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -260,7 +260,7 @@ void HexahedronElasticForce::addForce(
             const Vec3 r0 {x0[node_id][0], x0[node_id][1],  x0[node_id][2]};
             const Vec3 r  {x [node_id][0],  x [node_id][1], x [node_id][2]};
 
-            const Vec3 u = Rt*r - R0t*r0;
+            const Vec3 u = Rt*r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 8a41dc0..a4305ce 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -184,9 +184,9 @@ void TetrahedronElasticForce::addForce(
         Rotation &R = current_rotation[element_id];
 
 
-        // Extract the tetrahedron's frame
+        // Rotation of the tetrahedron's frame from its rest state to its current state
         if (corotated)
-            R = tetra.frame();
+            R = tetra.frame() * R0t;
 
         const Rotation Rt = R.transpose();
 
@@ -197,7 +197,7 @@ void TetrahedronElasticForce::addForce(
             const Vec3 r0{x0[node_id][0], x0[node_id][1], x0[node_id][2]};
             const Vec3 r  {x[node_id][0],  x[node_id][1],  x[node_id][2]};
 
-            const Vec3 u = Rt * r - R0t * r0;
+            const Vec3 u = Rt * r - r0;
 
             U[i++] = u[0];
             U[i++] = u[1];
-- 
2.43.0


From cf23c07b5e21ca6f222655d485964303768ae333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:25 +0000
Subject: [PATCH 18/19] fix: start from a clean state in the reinit of the
 linear elastic force fields

The Gauss nodes of the hexahedra were accumulated at each reinit, multiplying
the stiffness, and the rotations of a previous corotated state were kept after
corotated was turned off.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 5 +++--
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 105035c..068c47d 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -166,6 +166,7 @@ void HexahedronElasticForce::reinit()
         // 2. At this point, we have all the gauss points of the hexa and their corrected weight.
         //    We now compute constant values required by the simulation for each of them
         auto &hexa_quadrature_nodes = p_quadrature_nodes[hexa_id];
+        hexa_quadrature_nodes.clear();
         for (const auto &gauss_point : gauss_points) {
             // Jacobian of the gauss node's transformation mapping from the elementary space to the world space
             const auto J = hexa.jacobian(gauss_point.first);
@@ -195,8 +196,8 @@ void HexahedronElasticForce::reinit()
 
     // Initialize the stiffness matrix of every hexahedrons
     p_stiffness_matrices.resize(topology->getNbHexahedra());
-    p_initial_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
-    p_current_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
+    p_initial_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
+    p_current_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
 
     // Initialize the initial frame of each hexahedron
     if (d_corotated.getValue()) {
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index a4305ce..e088db0 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -111,8 +111,8 @@ void TetrahedronElasticForce::reinit()
         }
     }
 
-    p_initial_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
-    p_current_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
+    p_initial_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
+    p_current_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
 
     // Initialize the initial frame of each tetrahedron
     if (d_corotated.getValue()) {
-- 
2.43.0


From 73268cb59f287609c246d66ab212f24b1a20acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:25 +0000
Subject: [PATCH 19/19] fix: assemble the complete stiffness in
 HexahedronElasticForce::K

The 3x3 blocks were read at the node index instead of the degree of freedom
index, the lower triangle was missing and the matrix was not updated when the
rotations of the elements changed.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 068c47d..a471aec 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -249,8 +249,11 @@ void HexahedronElasticForce::addForce(
         Rotation & R = current_rotation[hexa_id];
 
         // Rotation of the hexahedron's frame from its rest state to its current state
-        if (corotated)
+        if (corotated) {
             R = hexa.frame({0, 0, 0}) * R0t;
+            K_is_up_to_date = false;
+            eigenvalues_are_up_to_date = false;
+        }
 
         const Rotation Rt = R.transpose();
 
@@ -516,7 +519,7 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                 // Blocks on the diagonal
                 for (Eigen::Index i = 0; i < NumberOfNodes; ++i) {
                     const auto x = static_cast<int>(node_indices[static_cast<sofa::Index>(i)]*3);
-                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i,i) * Rt;
+                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i*3,i*3) * Rt;
                     for (int m = 0; m < 3; ++m) {
                         for (int n = 0; n < 3; ++n) {
                             triplets.emplace_back(x+m, x+n, Kii(m,n));
@@ -530,11 +533,12 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                         const auto x = static_cast<int>(node_indices[i]*3);
                         const auto y = static_cast<int>(node_indices[j]*3);
 
-                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i,j) * Rt;
+                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i*3,j*3) * Rt;
 
                         for (int m = 0; m < 3; ++m) {
                             for (int n = 0; n < 3; ++n) {
                                 triplets.emplace_back(x+m, y+n, Kij(m,n));
+                                triplets.emplace_back(y+n, x+m, Kij(m,n));
                             }
                         }
                     }
-- 
2.43.0

