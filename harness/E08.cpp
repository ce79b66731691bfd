// E08: Gauss rules: count, position, weight, exactness; straight-sided volumes.
// @bounds all polynomials of the stated degree (coefficients in [-10,10]); node coordinates of affine elements in [-10,10]; all 24 element types
// @outside exactness of weights beyond 1e-9
#include "elements.h"
static double mono(Shape s,int a,int b,int c) { // integral over the canonical element of x^a y^b z^c
  auto f=[](int n){ double r=1; for (int i=2;i<=n;++i) r*=i; return r; };
  if (s==TRI) return f(a)*f(b)/f(a+b+2); if (s==TET) return f(a)*f(b)*f(c)/f(a+b+c+3);
  auto g=[](int n){ return n%2?0.:2./(n+1); }; double r=g(a); if (s!=SEG) r*=g(b); if (s==HEX) r*=g(c); return r; }
static double ipow(double x,int n) { double r=1; for (int i=0;i<n;++i) r*=x; return r; }
template<class E> void go() {
  E e; constexpr auto S=Info<E>::shape; constexpr int o=Info<E>::order; const auto & gs=e.gauss_nodes();
  vp_assert((int)gs.size()==(int)e.number_of_gauss_nodes(),"advertised number of Gauss nodes"); vp_assert((int)gs.size()==(int)E::NumberOfGaussNodesAtCompileTime,"compile-time number of Gauss nodes");
  const bool tensor=(S!=TRI&&S!=TET); int deg = !tensor ? o : (S==SEG&&o==1 ? 1 : 3);
  double exact=0,num=0; double f[64]; int nf=0;
  for (int a=0;a<=deg;++a) for (int b=0;b<=(CD<E> >1?deg:0);++b) for (int c=0;c<=(CD<E> >2?deg:0);++c) { if (!tensor && a+b+c>deg) continue; f[nf]=vp_real_n("f",nf,-10,10); exact+=f[nf]*mono(S,a,b,c); ++nf; }
  for (const auto & g : gs) { vp_assert(g.weight>0,"positive weight"); vp_assert(e.contains_local(g.position,1e-10),"Gauss point inside the element"); int n=0; double v=0;
    for (int a=0;a<=deg;++a) for (int b=0;b<=(CD<E> >1?deg:0);++b) for (int c=0;c<=(CD<E> >2?deg:0);++c) { if (!tensor && a+b+c>deg) continue; v+=f[n++]*ipow(g.position[0],a)*(CD<E> >1?ipow(g.position[CD<E> >1?1:0],b):1)*(CD<E> >2?ipow(g.position[CD<E> >2?2:0],c):1); }
    num+=g.weight*v; }
  vp_near(num,exact,1e-9,"quadrature integrates every polynomial of its degree");
  for (int i=0;i<(int)gs.size();++i) for (int k=0;k<CD<E>;++k) vp_near(e.gauss_node(i).position[k],gs[i].position[k],0,"gauss_node(i) is the i-th node");
}
// signed volume of a straight-sided element given by an affine image of the canonical one
template<class E> void volume() {
  constexpr int D=E::Dimension; static_assert(D==CD<E>); constexpr auto S=Info<E>::shape;
  double A[3][3],b[3]; for (int i=0;i<D;++i) { b[i]=vp_real_n("b",i,-10,10); for (int j=0;j<D;++j) A[i][j]=vp_real_n("A",i,j,-10,10); }
  Nodes<E> X; for (int n=0;n<NN<E>;++n) for (int i=0;i<D;++i) { X(n,i)=b[i]; for (int j=0;j<D;++j) X(n,i)+=A[i][j]*canon(S,n,j); }
  E e(X); double det = D==1?A[0][0]: D==2?A[0][0]*A[1][1]-A[0][1]*A[1][0]: A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1])-A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0])+A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]);
  double v=0; for (const auto & g : e.gauss_nodes()) v+=g.weight*e.jacobian(g.position).determinant();
  vp_near(v,det*mono(S,0,0,0),1e-6,"weights times Jacobian determinants give the exact size");
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
FOR_ALL(X)
#undef X
#define X(n,...) ENTRY(vol_##n) { volume<__VA_ARGS__>(); }
X(seg1l,Segment<_1D,Linear>) X(seg1q,Segment<_1D,Quadratic>) X(tri2l,Triangle<_2D,Linear>) X(tri2q,Triangle<_2D,Quadratic>) X(quad2l,Quad<_2D,Linear>) X(quad2q,Quad<_2D,Quadratic>) X(tetl,Tetrahedron<Linear>) X(tetq,Tetrahedron<Quadratic>) X(hexl,Hexahedron<Linear>) X(hexq,Hexahedron<Quadratic>)
