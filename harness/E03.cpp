// E03: isoparametric mapping, Jacobian, center, node access and constructors.
// @bounds node coordinates in [-1000,1000], local coordinates in [-10,10], step in [1/64,2]; all 18 general element types; constructors from a node matrix (const, non-const, row-major, single precision block), from a list of points, default
#include "elements.h"
template<class E> using RM = Eigen::Matrix<double,NN<E>,(int)E::Dimension,((int)E::Dimension==1?Eigen::ColMajor:Eigen::RowMajor)>;
template<class E> void same_nodes(const E & e,const Nodes<E> & X) {
  constexpr int D=E::Dimension; auto all=e.nodes();
  for (int i=0;i<NN<E>;++i) { World<E> ni=e.node(i); for (int k=0;k<D;++k) { vp_near(ni[k],X(i,k),0,"node(i) is the given node"); vp_near(all(i,k),X(i,k),0,"nodes() are the given nodes"); } }
}
template<class E,std::size_t... I> E from_points(const Nodes<E> & X,std::index_sequence<I...>) { 
  if constexpr ((int)E::Dimension==1) return E(World<E>(X(I,0))...);
  else return E(World<E>(X.row(I).transpose())...); }
template<class E> void go() {
  constexpr int D=E::Dimension; const Nodes<E> X=sym_nodes<E>("X",-1000,1000); E e(X); auto xi=sym_local<E>("xi",-10,10); double h=vp_real("h",1./64,2);
  same_nodes(e,X);
  World<E> p=e.world_coordinates(xi); auto L=e.L(xi);
  for (int k=0;k<D;++k) { double s=0; for (int i=0;i<NN<E>;++i) s+=L[i]*X(i,k); vp_near(p[k],s,1e-6,"mapping is the shape-function combination of the nodes"); }
  for (int i=0;i<NN<E>;++i) { World<E> q=e.world_coordinates(canon_node<E>(i)); for (int k=0;k<D;++k) vp_near(q[k],X(i,k),1e-9,"canonical node maps to node"); }
  auto J=e.jacobian(xi); static_assert((int)decltype(J)::RowsAtCompileTime==D && (int)decltype(J)::ColsAtCompileTime==CD<E>);
  for (int c=0;c<CD<E>;++c) { Local<E> a=xi,b=xi; a[c]+=h; b[c]-=h; World<E> pa=e.world_coordinates(a),pb=e.world_coordinates(b);
    for (int k=0;k<D;++k) vp_near(pa[k]-pb[k],2*h*J(k,c),1e-6,"jacobian is the derivative of the mapping"); }
  Local<E> cc; for (int k=0;k<CD<E>;++k) cc[k]=canon_center(Info<E>::shape);
  World<E> ce=e.center(), ci=e.world_coordinates(cc); for (int k=0;k<D;++k) vp_near(ce[k],ci[k],1e-8,"center is the image of the canonical barycentre");
}
template<class E> void ctors() {
  constexpr int D=E::Dimension; Nodes<E> X=sym_nodes<E>("X",-1000,1000);
  same_nodes(E(X),X); { const auto & cX=X; same_nodes(E(cX),X); } { RM<E> R=X; same_nodes(E(R),X); } same_nodes(from_points<E>(X,std::make_index_sequence<NN<E>>()),X);
  { E a(X); E b(a); same_nodes(b,X); E c; c=a; same_nodes(c,X); }
  E d; for (int i=0;i<NN<E>;++i) { World<E> ni=d.node(i); for (int k=0;k<D;++k) vp_near(ni[k],k<CD<E>?canon(Info<E>::shape,i,k):0,0,"default element is the canonical element"); }
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); } ENTRY(n##_ctors) { ctors<__VA_ARGS__>(); }
FOR_GENERAL(X)
