#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
G='src/Caribou/Geometry/'; T='src/Caribou/Topology/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
ALLEL=[G+f for f in ('Element.h','Segment.h','Triangle.h','Quad.h','Tetrahedron.h','Hexahedron.h','BaseSegment.h','BaseTriangle.h','BaseQuad.h','BaseTetrahedron.h','BaseHexahedron.h')]
p('E01','Shape functions are a nodal partition of unity',
 'For every element type (segments in 1D/2D/3D, triangles and quads in 2D/3D, tetrahedra, hexahedra, rectangular quads and rectangular hexahedra; linear and quadratic) the shape functions sum to one at every local coordinate. Each shape function is one at its own canonical node and zero at every other canonical node, so interpolating any nodal field reproduces nodal values at the nodes and constant fields everywhere.',
 ['inputs'],'all local coordinates and all nodal values, for all element types',
 'The unit tests evaluate the shape functions at a few Gauss points only; the identity must hold at every point of a continuum and for each of the many type/order/dimension combinations.',
 ALLEL+[G+'RectangularQuad.h',G+'RectangularHexahedron.h'],[('L(), canonical_nodes, interpolate()','get_L/canonical_nodes of each element class')])
p('E02','Shape-function derivatives are the exact gradients of the shape functions',
 'For every element type, the matrix of shape-function derivatives returned at any local coordinate is the exact partial derivative of the returned shape functions with respect to each local coordinate. The derivatives of all shape functions sum to zero in every direction.',
 ['inputs'],'all local coordinates, every node and direction, all element types',
 'A wrong sign or term in one derivative of one of 20 nodes is invisible to tests that integrate volumes over symmetric elements.',
 ALLEL+[G+'RectangularQuad.h',G+'RectangularHexahedron.h'],[('dL()','get_dL of each element class')])
p('E03','Isoparametric mapping: nodes map to nodes, Jacobian is its derivative',
 'For every element with arbitrary node positions, world coordinates of the i-th canonical node are the i-th node, the Jacobian at any local point is the exact derivative of the local-to-world mapping, and nodal fields are interpolated with the same mapping. The element center is the image of the canonical barycentre and nodes can be read back, one by one or all together, as they were given whatever constructor was used.',
 ['inputs'],'all node positions, all local coordinates, all element types and constructors',
 'Tests use unit-like elements and a handful of points; the statement is universally quantified over up to 60 node coordinates.',
 ALLEL,[('world_coordinates/jacobian/interpolate','Element.h'),('center, node, nodes','get_center/get_node/get_nodes of each element class'),('constructors','each element class')])
p('E04','Inverse mapping returns local coordinates that map back to the point',
 'For every non-degenerate affine element (linear or straight-sided quadratic segment, triangle, tetrahedron, parallelogram quad or parallelepiped hexahedron) the local coordinates computed for a world point map back to that point, for points inside and outside. For surface or line elements embedded in a higher-dimensional space the result is the local coordinate of a point lying on the element. For a point off such a line or plane, one iteration gives the local coordinate of its orthogonal projection. On any non-degenerate element, a single iteration from a starting point solves the mapping linearised at that point.',
 ['inputs'],'all non-degenerate affine node positions and all world points',
 'Tests invert Gauss points of a couple of fixed elements; wrong residuals, transposed Jacobians or bad starting points only show for skewed elements or far points.',
 [G+'Element.h',G+'BaseSegment.h',G+'BaseTriangle.h',G+'RectangularHexahedron.h',G+'RectangularQuad.h'],[('Newton-Raphson inversion','Element::local_coordinates')])
p('E05','Rectangular elements agree with the general element of the same shape',
 'A rectangular quad or hexahedron given by center, size and rotation has the node positions, local-to-world mapping, Jacobian and interpolation of the general isoparametric element of the same nodes, its local coordinates are the exact inverse of its mapping, and its size and orientation are those given. Converting a general element whose nodes form a box gives the rectangular element of that center, size and orientation. The Jacobian determinant is the volume ratio and is the same at every point.',
 ['inputs'],'all centers, positive sizes, rotations, local coordinates',
 'Rotated and non-cubic rectangular elements form a continuum; tests check unrotated or one rotated box.',
 [G+'RectangularHexahedron.h',G+'RectangularQuad.h',G+'BaseRectangularHexahedron.h',G+'BaseRectangularQuad.h'],[('world/local coordinates, node, jacobian','BaseRectangularHexahedron.h, BaseRectangularQuad.h')])
p('E06','Point-in-element test is exactly the canonical element inflated by epsilon',
 'For every element type, a local point is reported inside if and only if it lies in the canonical domain (the interval or box [-1,1] for segments, quads and hexahedra, the unit simplex for triangles and tetrahedra) inflated by the given tolerance (points exactly on the border of the inflated domain excepted for simplices). All canonical nodes, Gauss points and the center are inside with the default tolerance, which is at most 2e-10.',
 ['inputs'],'all local coordinates and tolerances, all element types',
 'Boundary cases (each face, each corner, near-zero tolerance) are a continuum; tests probe a few points.',
 ALLEL+[G+'RectangularQuad.h',G+'RectangularHexahedron.h'],[('contains_local','get_contains_local of each element class')])
p('E07','Boundary elements are the conforming, outward faces of their element',
 'For every element with arbitrary nodes, each boundary element (edge of a surface element, face of a volume element), built from the published boundary node indices, traces exactly the restriction of the parent mapping to that side of the canonical element. The boundary elements are all distinct, cover every side exactly once, and are ordered consistently so that their normals point outward for positively oriented elements.',
 ['inputs'],'all node positions, all boundary elements, all boundary parameters',
 'Tests compare one or two faces; a wrong mid-edge node index on one face of a quadratic element only shows for curved faces.',
 [G+f for f in ('Triangle.h','Quad.h','Tetrahedron.h','Hexahedron.h','RectangularQuad.h','RectangularHexahedron.h','Element.h')],[('boundary_elements_indices / boundary_element','get_boundary_elements_nodes of each class')])
p('E08','Gauss quadrature is consistent and exact to its order',
 'For every element type the number of Gauss nodes is the advertised one, every Gauss point lies inside the canonical element with a positive weight, and the rule integrates over the canonical element exactly every polynomial of the degree needed for the element (degree 1 for linear simplices, 2 for quadratic simplices, 3 per direction for tensor-product rules). Hence, for every straight-sided element, summing weight times Jacobian determinant gives the exact length, area or volume.',
 ['inputs'],'all polynomials of the stated degree (symbolic coefficients), all node positions of affine elements',
 'Tests integrate a couple of polynomials on fixed elements; exactness is a statement about a whole space of polynomials and all shapes.',
 ALLEL+[G+'RectangularQuad.h',G+'RectangularHexahedron.h'],[('gauss nodes and weights','get_gauss_nodes of each class'),('number_of_gauss_nodes','Element.h, traits')])
p('E09','Promoting a linear element to quadratic preserves its geometry',
 'A quadratic element built from the corner nodes of (or from) a linear element describes exactly the same geometry: same corner nodes, mid-nodes at edge midpoints in the published order, and the same local-to-world mapping at every local coordinate.',
 ['inputs'],'all corner node positions, all local coordinates',
 'Only a symbolic comparison over all shapes can show the two mappings coincide; tests use regular shapes where swapped mid-nodes may coincide.',
 [G+f for f in ('Segment.h','Triangle.h','Quad.h','Tetrahedron.h','Hexahedron.h')],[('quadratic constructors from linear','each quadratic class')])
p('E10','Box-segment intersection test is geometrically exact',
 'A rectangular hexahedron with any center, size and rotation (or a general hexahedron of such a shape) is reported to intersect a segment if and only if the closed box and the segment share a point (up to a negligible margin at tangency). The answer does not depend on the order of the segment end points nor on a common translation.',
 ['inputs'],'all boxes (center, size, rotation) and all segments',
 'Separating-axis code has one branch per axis; a missing or wrong axis shows only for specific oblique configurations.',
 [G+'RectangularHexahedron.h',G+'BaseRectangularHexahedron.h',G+'BaseHexahedron.h'],[('intersects(segment)','BaseRectangularHexahedron.h')])
p('E11','Box-triangle intersection test is geometrically exact',
 'A rectangular hexahedron (or a general hexahedron of box shape) is reported to intersect a triangle if and only if the closed box and the triangle share a point (up to a negligible margin at tangency). The answer does not depend on the order of the triangle vertices.',
 ['inputs'],'all boxes and all triangles',
 'Thirteen separating axes, each decisive for only a thin set of configurations that samples do not hit.',
 [G+'RectangularHexahedron.h',G+'BaseRectangularHexahedron.h',G+'BaseHexahedron.h'],[('intersects(triangle)','BaseRectangularHexahedron.h')])
p('E12','Element frames and normals are orthonormal and oriented',
 'The local frame returned for tetrahedra, rectangle-shaped quads in 2D and 3D and box-shaped hexahedra is an orthonormal right-handed basis whose first axis follows the local x direction and whose last axis, for quads in 3D, is the unit normal oriented by the node ordering. The normal of a 3D triangle has unit length, is orthogonal to its edges and is oriented by the node ordering.',
 ['inputs'],'all non-degenerate node positions',
 'Orthonormality and orientation for every shape is universally quantified; tests check axis-aligned shapes.',
 [G+'BaseTriangle.h',G+'BaseQuad.h',G+'BaseHexahedron.h',G+'BaseSegment.h'],[('frame(), normal()','BaseTriangle.h, BaseQuad.h, BaseHexahedron.h')])
p('M01','Deformation gradient recovers every affine displacement',
 'For any nodal displacements and any shape-function derivatives the deformation gradient is the identity plus the sum of displacement-derivative outer products; in particular for every element and every affine displacement field u(X)=AX+b it equals I+A at every point, and it is the identity under pure translation.',
 ['inputs'],'all nodal displacements, derivatives, node counts and dimensions',
 'The single unit test uses one displacement on one element; index transpositions cancel on symmetric data.',
 ['src/Caribou/Mechanics/Elasticity/Strain.h'],[('F()','Strain.h')])
p('M02','Symmetric dyads equal the 4th-order tensors they compress',
 'For every symmetric second-order tensor a, the two 6x6 dyadic products equal entry by entry the compressed forms of a_ij a_kl and (a_ik a_jl + a_il a_jk)/2 with the ordering 11,22,33,12,23,13, and both are symmetric.',
 ['inputs'],'all symmetric 3x3 matrices',
 'Thirty-six hand-written entries and no unit test at all.',
 ['src/Caribou/Algebra/Tensor.h'],[('symmetric_dyad_1/2','Tensor.h')])
p('M03','Saint-Venant-Kirchhoff energy, stress and tangent are mutually consistent',
 'For every Young modulus, admissible Poisson ratio and right Cauchy-Green strain, the second Piola-Kirchhoff stress is twice the derivative of the strain energy density, the tangent is the derivative of the stress with respect to Green strain, both are symmetric, and an undeformed body has zero energy and stress. The Lame parameters are those of the given Young modulus and Poisson ratio.',
 ['inputs'],'all material parameters and strains',
 'The material code is not compiled or tested without SOFA; consistency is an identity over all strains.',
 ['src/SofaCaribou/Material/SaintVenantKirchhoffMaterial.h','src/SofaCaribou/Material/HyperelasticMaterial.h'],[('energy/PK2/tangent','SaintVenantKirchhoffMaterial.h')])
p('M04','Neo-Hookean energy, stress and tangent are mutually consistent',
 'For every Young modulus, admissible Poisson ratio and positive-definite right Cauchy-Green strain, the second Piola-Kirchhoff stress is twice the derivative of the strain energy density, the tangent is the derivative of the stress with respect to Green strain, both are symmetric, and an undeformed body has zero energy and stress.',
 ['inputs'],'all material parameters and positive-definite strains',
 'The material code is not compiled or tested without SOFA; consistency is an identity over all strains.',
 ['src/SofaCaribou/Material/NeoHookeanMaterial.h','src/Caribou/Algebra/Tensor.h'],[('energy/PK2/tangent','NeoHookeanMaterial.h')])
p('G01','Grid numbering of nodes and cells is a bijection',
 'For every 1D, 2D and 3D grid, flat node (cell) indices from 0 to the number of nodes (cells) minus one correspond one-to-one to in-range integer node (cell) coordinates, the two conversions are mutual inverses, and the x index varies fastest. The numbers of nodes and cells are the products of the per-axis counts.',
 ['inputs','configurations'],'all grid subdivisions and all indices/coordinates',
 'Tests use the 2x2(x2) grid only, where mixing up axes or node and cell counts is often invisible.',
 [T+'Grid/Internal/BaseMultidimensionalGrid.h',T+'Grid/Internal/BaseUnidimensionalGrid.h',T+'Grid/Internal/BaseGrid.h'],[('node_index_at/node_coordinates_at/cell_index_at/cell_coordinates_at','Grid/Internal')])
p('G02','Grid edges enumerate every unit edge exactly once',
 'For every 2D and 3D grid, each edge index below the number of edges yields a pair of in-range nodes that are neighbours along exactly one axis, distinct indices yield distinct edges, and the number of edges is the number of such neighbouring pairs, so that every unit edge appears exactly once.',
 ['inputs','configurations'],'all grid subdivisions and all edge indices',
 'Edge numbering is layered arithmetic on unequal subdivisions; tests use a 2x2(x2) grid where counts coincide.',
 [T+'Grid/Grid.h'],[('edge(), number_of_edges()','Grid 2D/3D specialisations')])
p('G03','Grid faces enumerate every unit face exactly once',
 'For every 3D grid, each face index below the number of faces yields the four in-range corner nodes of one axis-aligned unit square listed around its perimeter, distinct indices yield distinct faces, and the number of faces is the number of such unit squares.',
 ['inputs','configurations'],'all grid subdivisions and all face indices',
 'Face numbering mixes three families with different counts; tests use a 2x2x2 grid where counts coincide.',
 [T+'Grid/Grid.h'],[('face(), number_of_faces()','Grid 3D specialisation')])
p('G04','Grid cells have the geometry and nodes of their position',
 'For every grid and cell, the cell element has corner nodes at anchor plus coordinates times cell size in the element canonical order, and these are the grid positions of the node indices reported for that cell, whether the cell is designated by index or coordinates. Cell sizes times subdivisions give the grid size.',
 ['inputs','configurations'],'all anchors, sizes, subdivisions and cells',
 'Unequal subdivisions and sizes are needed to expose swapped axes; tests use cubes.',
 [T+'Grid/Grid.h',T+'Grid/Internal/BaseGrid.h'],[('cell_at, node_indices_of, node','Grid.h')])
p('G05','Grid point location returns the cell that contains the point',
 'For every grid and every world point, the containment test holds exactly for points in the closed grid box, and for each contained point the reported cell is in range and its closed box contains the point, cells being half-open along each axis except the last one. Points on the upper boundary of the grid are located in the last cell when the boundary test is requested.',
 ['inputs','configurations'],'all grids and all world points',
 'The last-cell boundary handling and per-axis rounding form a continuum of cases.',
 [T+'Grid/Internal/BaseGrid.h',T+'Grid/Internal/BaseMultidimensionalGrid.h'],[('contains, cell_coordinates_at, cell_index_containing','BaseGrid.h')])
p('G06','Cells around a point are exactly the cells whose closed box holds it',
 'For every grid and every world point clear of the rounding band around cell boundaries or exactly on them, the list of cells around the point contains exactly the in-range cells whose closed box contains the point: one for interior points, two on a face, up to eight at a grid vertex, none outside the grid. No cell is listed twice.',
 ['inputs','configurations'],'all grids and all world points',
 'Face, edge, vertex and outside cases per axis multiply; tests use a few of them and no outside point beyond one corner.',
 [T+'Grid/Internal/BaseGrid.h'],[('cells_around','BaseGrid.h')])
p('G07','Cells enclosing a point set cover all its points',
 'For every grid and every set of world points, the cells returned as enclosing the set form a full axis-aligned block of in-range cells without duplicates, which is the smallest block containing every cell around one of the points inside the grid and, for the points outside, the grid cell closest to them along each axis. Nothing is returned when no point lies in the grid.',
 ['inputs','configurations'],'all grids and all sets of points',
 'Combinations of inside/outside/boundary points are unbounded; tests list a dozen.',
 [T+'Grid/Internal/BaseGrid.h',T+'Grid/Internal/BaseMultidimensionalGrid.h'],[('cells_enclosing','Grid/Internal')])
p('H01','Hash grid never misses an element whose bounding box holds the query point',
 'For every cell size, every history of element insertions and every query point, including negative coordinates and points on cell borders, the set returned for the point contains every inserted element whose axis-aligned bounding box contains the point, and contains only inserted elements.',
 ['inputs','histories'],'all cell sizes, insertion histories, query points (1D to 3D)',
 'Cell rounding for negative coordinates and boxes spanning several cells is a continuum; no unit test of the structure exists.',
 [T+'HashGrid.h'],[('add, get, hashing of cells','HashGrid.h')])
p('B01','Embedding finds the containing element and exact local coordinates',
 'For every container domain of non-degenerate elements that fill their space dimension and every point, embedding the point returns an element whose mapping of the returned local coordinates is the point whenever the point lies in some element of the domain, the returned local coordinates being inside that element; a point outside every element is returned with no element (index -1) and listed among the outside nodes, exactly once and in order.',
 ['inputs'],'all meshes of affine elements within bounds and all points',
 'Depends on the joint geometry of mesh, hash grid and point; tests use one 2x2 quad mesh.',
 [T+'BarycentricContainer.h',T+'HashGrid.h',T+'Domain.h'],[('barycentric_point, outside_nodes, embed','BarycentricContainer.h')])
p('B02','Barycentric interpolation reproduces linear fields on embedded points',
 'For every container domain, every set of embedded points inside it and every nodal field, interpolation writes at each embedded point the shape-function combination of the values at the nodes of its containing element, hence reproduces every affine field exactly; rows of points outside every element are left unchanged. Mismatched sizes are rejected with an error instead of being interpolated.',
 ['inputs'],'all meshes within bounds, points and fields',
 'Index mix-ups between element-local and mesh-global nodes vanish on the identity-like field used in tests.',
 [T+'BarycentricContainer.h'],[('interpolate','BarycentricContainer.h')])
p('T01','A mesh returns the positions it was given',
 'For every mesh built from any supported container of positions (vector of vectors, matrix, row- or column-major, any dimension), the number of nodes and each node position are those given, single positions and gathered positions for any list of indices agree in the order requested, and the generic 3D node view is padded with zeros for lower dimensions.',
 ['inputs','configurations'],'all positions, containers, index lists',
 'Storage orders, strides and index lists multiply; tests use two nodes.',
 [T+'Mesh.h',T+'BaseMesh.h'],[('position, positions, node','Mesh.h')])
p('T02','Domain registry of a mesh follows every add/remove history',
 'After any sequence of adding (named, automatically named or external) and removing (by name, by handle) domains, the mesh lists exactly the domains added and not removed, in insertion order, each retrievable by its name, index and handle and attached to the mesh. Creating a domain under a name already taken, re-adding a registered domain under another name and adding a domain of another mesh are refused without changing the registry, and removing an unknown domain returns false and changes nothing.',
 ['histories'],'all histories of operations within the bound',
 'Sequences of operations; tests add one domain and remove it.',
 [T+'Mesh.h',T+'BaseMesh.h'],[('add_domain, remove, domain','Mesh.h')])
p('T03','Copies and moves of meshes and domains are independent and complete',
 'After copying or moving a mesh with domains, the copy has the same node positions, domain names, connectivity and element geometry as the original had, its domains belong to the copy, and it stays valid when the original is modified or destroyed. Copying a domain duplicates its own index storage, externally stored connectivity stays shared, and a copied domain is attached to no mesh until it is added to one.',
 ['inputs','histories'],'all meshes within bounds and copy/move/destroy sequences',
 'Lifetime errors need a copy followed by destruction of the original and then a read; tests never do that.',
 [T+'Mesh.h',T+'Domain.h'],[('copy/move constructors, clone, swap','Mesh.h, Domain.h')])
p('T04','Domain connectivity reads back with any storage layout',
 'For every domain built from node indices in any supported layout (copied matrix, row- or column-major, external buffer with arbitrary row and column strides), the number of elements, the indices of each element and the geometry of each element built from its mesh or from given positions are those designated by the indices.',
 ['inputs','configurations'],'all connectivities, layouts and strides within bounds',
 'Strided external buffers and layouts multiply; tests use small default layouts.',
 [T+'Domain.h',T+'Mesh.h'],[('element, element_indices, constructors','Domain.h')])
p('V01','VTK import keeps nodes, element types and element node order',
 'For every unstructured VTK grid within bounds, the imported mesh has the point positions restricted to its dimension with axes chosen consistently for planar and linear data, one domain per supported cell type present (named domain_1, domain_2, ... in the order VTK lists the types), and every cell becomes an element of the matching type whose i-th node is the cell point located at the i-th canonical node of that element type. An empty grid gives an empty mesh; a missing file, or a grid whose number of varying axes is not the dimension of a 1D or 2D mesh, is refused with an error.',
 ['inputs'],'all point coordinates, cell lists and connectivity within bounds',
 'Tests only sum lengths, areas and volumes, which are insensitive to many node permutations and axis swaps.',
 [T+'IO/VTKReader.cpp',T+'IO/VTKReader.h'],[('mesh(), axis detection, element builders','VTKReader.cpp')])
p('S01','Iso-surface values are signed consistently with the described shape',
 'For every radius, center and point, the circle, sphere and cylinder iso-values are negative exactly for points strictly inside the shape, zero on it and positive outside, equal to squared distance to the center (axis) minus squared radius.',
 ['inputs'],'all radii, centers and points',
 'Not compiled or tested without SOFA; sign and center handling must hold at every point.',
 ['src/SofaCaribou/Topology/SphereIsoSurface.h','src/SofaCaribou/Topology/CircleIsoSurface.h','src/SofaCaribou/Topology/CylinderIsoSurface.h'],[('iso_value','*IsoSurface.h')])
p('A01','The SOFA matrix and vector wrappers hold exactly what their history of writes describes',
 'After any sequence of accumulating, setting and adding entries or blocks, compressing, clearing (all, single rows or columns, ranges, row and column together) and resizing, every entry of a wrapped sparse or dense matrix read back (by element, by copy or from the underlying matrix) is the one given by the same operations on a plain dense matrix; the same holds for wrapped vectors. Wrappers by reference write through to the wrapped object.',
 ['inputs','histories'],'all values and all histories within the bound',
 'Sparse storage has hidden states (accumulated triplets, uncompressed, compressed), and each operation must be right in each; the few tests need SOFA and use one order of calls.',
 ['src/SofaCaribou/Algebra/EigenMatrix.h','src/SofaCaribou/Algebra/EigenVector.h'],[('set, add, clear*, compress, element, resize','EigenMatrix.h')])
p('F01','Hyperelastic forces derive from the elastic energy and the stiffness is their exact derivative',
 'For every mesh, material and current configuration, the hyperelastic force field applies the negative gradient of the potential energy it reports, its assembled stiffness is the symmetric negative Jacobian of that force, and the matrix-free product and the assembly into a SOFA matrix (with their factors and offsets) agree with it. Forces vanish at rest, sum to zero with zero moment (for a frame-indifferent material), and the energy of a uniform deformation is the volume times the energy density. Changed materials, positions and state vectors are taken into account at the next evaluation.',
 ['inputs','configurations'],'all configurations of the meshes within bounds',
 'An index or sign slip in the block assembly cancels on symmetric samples; consistency must hold at every configuration. The repository tests of it need SOFA and compare a handful of numbers.',
 ['src/SofaCaribou/Forcefield/HyperelasticForcefield.inl','src/SofaCaribou/Forcefield/HyperelasticForcefield.h','src/SofaCaribou/Forcefield/CaribouForcefield.inl','src/SofaCaribou/Topology/CaribouTopology.inl'],[('addForce, addDForce, addKToMatrix, getPotentialEnergy, assemble_stiffness','HyperelasticForcefield.inl')])
p('F02','Traction loads are split by the shape functions and follow the prescribed increments',
 'For every surface mesh of affine elements and every traction, the nodal forces applied by the traction force field are the integrals of the traction against the shape functions of the surface (their sum is traction times area) and the reported total load is the norm of that sum. With a slope, the fraction of the load applied after each animation step is min(1, k*slope) where k counts the increments, one at the first step and then one every given number of steps; without slope the whole load is applied from the start. Resetting brings back the state after initialisation. Forces are added to what the force vector holds.',
 ['inputs','histories'],'all affine elements, tractions, slopes and step sequences within bounds',
 'Depends on the joint history of steps, waits and the last truncated increment; there is no test of increments or reset.',
 ['src/SofaCaribou/Forcefield/TractionForcefield.inl','src/SofaCaribou/Forcefield/TractionForcefield.h'],[('init, reset, handleEvent, increment_load, addForce','TractionForcefield.inl')])
p('F03','Linear and corotational elastic forces follow the material law and the rotation of each element',
 'For every mesh, material and configuration, the linear tetrahedron and hexahedron elastic force fields apply the nodal forces of Hooke\'s law for the small strain of each element (integrated with the selected rule). In corotated mode the strain is measured after undoing the rotation that carries the rest frame of the element to its current frame, and forces are turned along: rigid motions cause no force, and rotating the configuration rotates the forces, whatever the orientation of the rest shape. The matrix-free product, the assembly into a SOFA matrix (with factor and offset) and, for hexahedra, the complete stiffness matrix are the symmetric stiffness of the current rotations. Reinitialising any number of times, also after changing the material or switching corotation, gives the state of a fresh component. Forces are added to what the force vector holds.',
 ['inputs','histories'],'all displacements and material parameters within bounds, on the listed rest shapes and frames',
 'Frame and block-index mistakes vanish on axis-aligned or undeformed samples; no test of the repository exercises these two force fields.',
 ['src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp','src/SofaCaribou/Forcefield/TetrahedronElasticForce.h','src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp','src/SofaCaribou/Forcefield/HexahedronElasticForce.h'],[('reinit, addForce, addDForce, addKToMatrix, compute_K, K','TetrahedronElasticForce.cpp, HexahedronElasticForce.cpp')])
p('P01','The barycentric mapping transports forces by the transpose of its interpolation',
 'For every container mesh and every set of mapped points inside it, the barycentric mapping gives mapped positions and velocities equal to the shape-function combination of the parent values of the containing element, and pulls forces and constraint rows back by the exact transpose of that combination, adding them to what the outputs hold; hence mapped forces do the same work as the forces pulled back. Rest positions of the mapped points are used for the embedding (taken from their positions when missing). If a point lies outside, nothing is mapped or pulled back.',
 ['inputs'],'all points, positions, velocities, forces and constraint entries within bounds',
 'A transposition or index error between mapped and parent nodes is invisible on symmetric samples; the tests need SOFA.',
 ['src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl','src/Caribou/Topology/BarycentricContainer.h'],[('init, apply, applyJ, applyJT','CaribouBarycentricMapping.inl')])
p('T05','The topology component exposes exactly the elements of its indices and positions',
 'For every list of node indices and every vector of positions, the topology component initialised from them (positions given, or the rest positions of the state found in its context) has one element per index list, with those indices and the positions of those nodes; if any index is beyond the positions, or nothing is given, it has no domain and no elements. Attaching a domain makes it the domain of the component and fills the indices data with its connectivity, whatever the storage layout, replacing what was there.',
 ['inputs','histories'],'all positions and index lists within bounds',
 'Validation and layout cases multiply; the tests need SOFA and use one mesh.',
 ['src/SofaCaribou/Topology/CaribouTopology.inl','src/SofaCaribou/Topology/CaribouTopology.h'],[('init, initializeFromIndices, attachDomain','CaribouTopology.inl')])
def write():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
        for q in P: f.write(json.dumps(q)+'\n')
if __name__=='__main__': write()
