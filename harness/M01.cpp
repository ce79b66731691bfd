// M01: deformation gradient.
// @bounds all displacements and shape derivatives in [-10,10]; node counts 2,3,4,6,8,10,20; dimensions 1-3; column- and row-major storage; affine displacements on affine elements (nodes in [-10,10], determinant at least 1/16) at every local point in [-1,1]
#include "elements.h"
#include <Caribou/Mechanics/Elasticity/Strain.h>
#include <Eigen/LU>
namespace st=caribou::mechanics::elasticity::strain;
template<int N,int D,int O> void general() {
  st::Matrix<N,D,O> d,U; for (int i=0;i<N;++i) for (int k=0;k<D;++k) { d(i,k)=vp_real_n("d",i,k,-10,10); U(i,k)=vp_real_n("u",i,k,-10,10); }
  st::Matrix<D,D> F=st::F<N,D,O>(d,U);
  for (int a=0;a<D;++a) for (int b=0;b<D;++b) { double e=a==b?1:0; for (int i=0;i<N;++i) e+=U(i,a)*d(i,b); vp_near(F(a,b),e,1e-9,"F = I + sum u_i (x) dN_i"); }
}
#define X(N,D) ENTRY(n##N##_d##D) { general<N,D,0>(); }
X(2,1) X(3,1) X(2,2) X(3,2) X(4,2) X(6,2) X(8,2) X(2,3) X(3,3) X(4,3) X(6,3) X(8,3) X(10,3) X(20,3)
#undef X
#define X(N,D) ENTRY(row_n##N##_d##D) { general<N,D,Eigen::RowMajor>(); }
X(3,2) X(4,2) X(8,2) X(4,3) X(8,3) X(10,3) X(20,3)
#undef X
template<class E> void affine() {
  constexpr int D=E::Dimension,N=NN<E>; constexpr auto S=Info<E>::shape; double B[3][3],c[3],A[3][3],b[3];
  for (int i=0;i<D;++i) { c[i]=vp_real_n("c",i,-10,10); b[i]=vp_real_n("b",i,-10,10); for (int j=0;j<D;++j) { B[i][j]=vp_real_n("B",i,j,-10,10); A[i][j]=vp_real_n("A",i,j,-10,10); } }
  Nodes<E> X; for (int n=0;n<N;++n) for (int i=0;i<D;++i) { X(n,i)=c[i]; for (int j=0;j<D;++j) X(n,i)+=B[i][j]*canon(S,n,j); }
  st::Matrix<N,D,0> U; for (int n=0;n<N;++n) for (int i=0;i<D;++i) { U(n,i)=b[i]; for (int j=0;j<D;++j) U(n,i)+=A[i][j]*X(n,j); }
  E e(X); auto xi=sym_local<E>("xi",-1,1); Eigen::Matrix<double,D,D> J=e.jacobian(xi); double det=J.determinant(); vp_assume((det>=1./16)|(det<=-1./16));
  // adjugate / det
  Eigen::Matrix<double,D,D> Ji; if constexpr (D==1) Ji(0,0)=1/det; else if constexpr (D==2) { Ji(0,0)=J(1,1)/det; Ji(1,1)=J(0,0)/det; Ji(0,1)=-J(0,1)/det; Ji(1,0)=-J(1,0)/det; }
  else for (int i=0;i<3;++i) for (int j=0;j<3;++j) { int a=(j+1)%3,a2=(j+2)%3,q=(i+1)%3,q2=(i+2)%3; Ji(i,j)=(J(a,q)*J(a2,q2)-J(a,q2)*J(a2,q))/det; }
  auto dL=e.dL(xi); st::Matrix<N,D,0> dN; for (int n=0;n<N;++n) for (int k=0;k<D;++k) { dN(n,k)=0; for (int j=0;j<D;++j) dN(n,k)+=dL(n,j)*Ji(j,k); }
  st::Matrix<D,D> F=st::F<N,D,0>(dN,U); for (int i=0;i<D;++i) for (int j=0;j<D;++j) vp_near(F(i,j),(i==j)+A[i][j],1e-6,"F = I + A for u = A X + b");
}
#define X(n,...) ENTRY(aff_##n) { affine<__VA_ARGS__>(); }
X(seg1l,Segment<_1D,Linear>) X(tri2l,Triangle<_2D,Linear>) X(tri2q,Triangle<_2D,Quadratic>) X(quad2l,Quad<_2D,Linear>) X(quad2q,Quad<_2D,Quadratic>) X(tetl,Tetrahedron<Linear>) X(tetq,Tetrahedron<Quadratic>) X(hexl,Hexahedron<Linear>) X(hexq,Hexahedron<Quadratic>)
