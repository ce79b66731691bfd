// E09: quadratic element built from a linear one describes the same geometry.
// @bounds corner coordinates in [-10,10], local coordinates in [-3,3]; triangles and quads (2D, 3D), tetrahedra, hexahedra; constructors from the linear element, from corner points (const and non-const)
#include "elements.h"
template<class L,class Q> void same(const L & l,const Q & q) {
  constexpr int D=L::Dimension; auto xi=sym_local<L>("xi",-3,3); constexpr auto S=Info<L>::shape;
  World<L> a=l.world_coordinates(xi),b=q.world_coordinates(xi); for (int k=0;k<D;++k) vp_near(a[k],b[k],1e-6,"same mapping");
  for (int i=0;i<NN<L>;++i) { World<L> u=l.node(i),v=q.node(i); for (int k=0;k<D;++k) vp_near(u[k],v[k],0,"same corner nodes"); }
  for (int i=0;i<NN<Q>;++i) { World<L> u=l.world_coordinates(canon_node<Q>(i)),v=q.node(i); for (int k=0;k<D;++k) vp_near(u[k],v[k],1e-9,"quadratic node at its canonical place"); }
  World<L> cl=l.center(),cq=q.center(); for (int k=0;k<D;++k) vp_near(cl[k],cq[k],1e-8,"same center");
}
template<class Q,class L,std::size_t... I> Q cpoints(const Nodes<L> & X,std::index_sequence<I...>) { return Q(World<L>(X.row(I).transpose())...); }
template<class Q,class L,std::size_t... I> Q mpoints(const Nodes<L> & X,std::index_sequence<I...>) { World<L> p[sizeof...(I)]={World<L>(X.row(I).transpose())...}; return Q(p[I]...); }
template<class L,class Q> void go() { auto X=sym_nodes<L>(); L l(X); same(l,Q(l)); same(l,cpoints<Q,L>(X,std::make_index_sequence<NN<L>>())); same(l,mpoints<Q,L>(X,std::make_index_sequence<NN<L>>())); }
ENTRY(tri2) { go<Triangle<_2D,Linear>,Triangle<_2D,Quadratic>>(); }
ENTRY(tri3) { go<Triangle<_3D,Linear>,Triangle<_3D,Quadratic>>(); }
ENTRY(quad2) { go<Quad<_2D,Linear>,Quad<_2D,Quadratic>>(); }
ENTRY(quad3) { go<Quad<_3D,Linear>,Quad<_3D,Quadratic>>(); }
ENTRY(tet) { go<Tetrahedron<Linear>,Tetrahedron<Quadratic>>(); }
ENTRY(hex) { go<Hexahedron<Linear>,Hexahedron<Quadratic>>(); }
