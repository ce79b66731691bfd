// E01: shape functions are a nodal partition of unity.
// @bounds local coordinates in [-1000,1000] per axis, nodal values in [-100,100]; all 24 element types; every node
// @outside floating-point rounding of the evaluation
#include "elements.h"
template<class E> void go() {
  E e; static_assert((int)E::NumberOfNodesAtCompileTime==NN<E>); 
  auto xi=sym_local<E>("xi",-1000,1000);
  auto L=e.L(xi); double s=0; for (int i=0;i<NN<E>;++i) s+=L[i];
  vp_near(s,1,1e-9,"shape functions sum to one");
  vp_assert((int)e.number_of_nodes()==NN<E>,"number of nodes");
  for (int j=0;j<NN<E>;++j) { auto Lj=e.L(canon_node<E>(j)); for (int i=0;i<NN<E>;++i) vp_near(Lj[i],i==j?1:0,1e-12,"nodal values"); }
  // the nodes of the default (canonical) element are the canonical nodes
  for (int j=0;j<NN<E>;++j) { World<E> nj=e.node(j); Local<E> xj; for (int k=0;k<CD<E>;++k) xj[k]=nj[k]; auto Lj=e.L(xj); for (int i=0;i<NN<E>;++i) vp_near(Lj[i],i==j?1:0,1e-12,"nodal values at the nodes of the canonical element"); }
  // interpolation of nodal fields
  Eigen::Matrix<double,NN<E>,1> f; Eigen::Matrix<double,NN<E>,2> g; double c=vp_real("c",-100,100);
  for (int i=0;i<NN<E>;++i) { f[i]=vp_real_n("f",i,-100,100); g(i,0)=f[i]; g(i,1)=c; }
  double r=0; for (int i=0;i<NN<E>;++i) r+=L[i]*f[i];
  vp_near(e.interpolate(xi,f),r,1e-6,"scalar interpolation");
  Eigen::Matrix<double,2,1> gi=e.interpolate(xi,g);
  vp_near(gi[0],r,1e-6,"vector interpolation"); vp_near(gi[1],c,1e-6,"constants are reproduced");
  for (int j=0;j<NN<E>;++j) { vp_near(e.interpolate(canon_node<E>(j),f),f[j],1e-9,"interpolation at nodes"); Eigen::Matrix<double,2,1> h=e.interpolate(canon_node<E>(j),g); vp_near(h[0],f[j],1e-9,"vector interpolation at nodes"); }
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
FOR_ALL(X)
