// E04: the inverse mapping returns local coordinates that map back to the point.
// @bounds all 18 general element types; affine geometry with origin and edge vectors in [-10,10] and absolute determinant (Gram determinant when embedded) at least 1/64; any world point with local coordinates in [-4,4], inside or outside (embedded elements: on the element's line or plane; for one iteration also any point off it in [-20,20]); any starting point in [-2,2] for the explicit overload; for non-affine elements, one Newton step from several starting points with arbitrary nodes
// @outside convergence of the iteration on curved or bilinear elements; degenerate elements
#include "elements.h"
template<class E,class A> Nodes<E> affine(const World<E> & o,const A & a) { Nodes<E> X; for (int i=0;i<NN<E>;++i) for (int d=0;d<(int)E::Dimension;++d) { double s=o[d]; for (int k=0;k<CD<E>;++k) s+=a(d,k)*canon(Info<E>::shape,i,k); X(i,d)=s; } return X; }
template<class A> double det(const A & a) { if constexpr (A::RowsAtCompileTime==1) return a(0,0); else if constexpr (A::RowsAtCompileTime==2) return a(0,0)*a(1,1)-a(0,1)*a(1,0); else return a(0,0)*(a(1,1)*a(2,2)-a(1,2)*a(2,1))-a(0,1)*(a(1,0)*a(2,2)-a(1,2)*a(2,0))+a(0,2)*(a(1,0)*a(2,1)-a(1,1)*a(2,0)); }
static void nondegenerate(double d) { if (vp_pick("sign",0,1)) vp_assume(d>=1./64); else vp_assume(d<=-1./64); }
template<class A> auto gram(const A & a) { constexpr int C=A::ColsAtCompileTime,D=A::RowsAtCompileTime; Eigen::Matrix<double,C,C> g; for (int i=0;i<C;++i) for (int j=0;j<C;++j) { double s=0; for (int d=0;d<D;++d) s+=a(d,i)*a(d,j); g(i,j)=s; } return g; }
template<class E> auto symA() { Eigen::Matrix<double,(int)E::Dimension,CD<E>> a; for (int d=0;d<(int)E::Dimension;++d) for (int k=0;k<CD<E>;++k) a(d,k)=vp_real_n("A",d,k,-10,10); return a; }
template<class E,class A> World<E> image(const World<E> & o,const A & a,const Local<E> & xi) { World<E> p; for (int d=0;d<(int)E::Dimension;++d) { double s=o[d]; for (int k=0;k<CD<E>;++k) s+=a(d,k)*xi[k]; p[d]=s; } return p; }
template<class E> void solid(bool started) { constexpr int D=E::Dimension; World<E> o=sym_world<E>("o",-10,10); auto a=symA<E>(); nondegenerate(det(a));
  E e(affine<E>(o,a)); Local<E> t=sym_local<E>("t",-4,4); World<E> p=image<E>(o,a,t);
  { Local<E> s0; for (int k=0;k<CD<E>;++k) s0[k]= started ? vp_real_n("s",k,-2,2) : 0; double r=0; World<E> z=image<E>(o,a,s0); for (int d=0;d<D;++d) r+=(p[d]-z[d])*(p[d]-z[d]); vp_assume(r>=1e-8); }
  Local<E> xi; if (started) { Local<E> s=sym_local<E>("s",-2,2); xi=e.local_coordinates(p,s,1e-6,3); } else xi=e.local_coordinates(p);
  World<E> q=image<E>(o,a,xi); for (int k=0;k<D;++k) vp_near(q[k],p[k],started?1.1e-6:1.1e-5,"local coordinates map back to the point"); }
// a point close to the image of the starting point
template<class E> void close() { constexpr int D=E::Dimension; World<E> o=sym_world<E>("o",-10,10); auto a=symA<E>(); nondegenerate(det(a)); E e(affine<E>(o,a)); World<E> p; double r=0; for (int d=0;d<D;++d) { double x=vp_real_n("r",d,-1e-4,1e-4); p[d]=o[d]+x; r+=x*x; } vp_assume(r<=1e-8);
  Local<E> xi=e.local_coordinates(p); World<E> q=image<E>(o,a,xi); for (int k=0;k<D;++k) vp_near(q[k],p[k],1.1e-5,"local coordinates of a close point map back to it"); }
template<class E> void surface() { constexpr int D=E::Dimension; World<E> o=sym_world<E>("o",-10,10); auto a=symA<E>(); vp_assume(det(gram(a))>=1./64); E e(affine<E>(o,a)); Local<E> t=sym_local<E>("t",-4,4); World<E> p=image<E>(o,a,t); 
  Local<E> xi=e.local_coordinates(p); World<E> q=image<E>(o,a,xi); for (int k=0;k<D;++k) vp_near(q[k],p[k],1.1e-5,"local coordinates of a point of the element map back to it"); }
// a point off the line or plane: its local coordinates are those of its orthogonal projection
template<class E> void off() { constexpr int D=E::Dimension; World<E> o=sym_world<E>("o",-10,10); auto a=symA<E>(); vp_assume(det(gram(a))>=1./64); E e(affine<E>(o,a)); World<E> p=sym_world<E>("p",-20,20);
  Local<E> xi=e.local_coordinates(p,Local<E>::Zero(),1e-5,1); World<E> q=image<E>(o,a,xi); double r=0; World<E> z=e.world_coordinates(Local<E>::Zero()); for (int d=0;d<D;++d) r+=(p[d]-z[d])*(p[d]-z[d]); vp_assume(r>=1e-4); for (int k=0;k<CD<E>;++k) { double s=0; for (int d=0;d<D;++d) s+=a(d,k)*(p[d]-q[d]); vp_near(s,0,1e-7,"local coordinates of a point off the element are those of its projection"); } }
// one Newton step on arbitrary nodes
template<class E> void step(const double * s) { constexpr int D=E::Dimension; Nodes<E> X=sym_nodes<E>("X",-10,10); E e(X); World<E> p=sym_world<E>("p",-20,20); Local<E> x0; for (int k=0;k<CD<E>;++k) x0[k]=s[k]; auto J=e.jacobian(x0); World<E> w=e.world_coordinates(x0); double r=0; for (int d=0;d<D;++d) r+=(p[d]-w[d])*(p[d]-w[d]); vp_assume(r>=1e-4); nondegenerate(det(J));
  Local<E> x1=e.local_coordinates(p,x0,1e-5,1); for (int d=0;d<D;++d) { double v=0; for (int k=0;k<CD<E>;++k) v+=J(d,k)*(x1[k]-x0[k]); vp_near(v,p[d]-w[d],1e-6,"one iteration solves the linearised equation"); } }
#define S(n,...) ENTRY(n) { solid<__VA_ARGS__>(false); } ENTRY(n##_start) { solid<__VA_ARGS__>(true); }
S(seg1l,Segment<_1D COMMA Linear>) S(seg1q,Segment<_1D COMMA Quadratic>) S(tri2l,Triangle<_2D COMMA Linear>) S(tri2q,Triangle<_2D COMMA Quadratic>) S(quad2l,Quad<_2D COMMA Linear>) S(quad2q,Quad<_2D COMMA Quadratic>) S(tetl,Tetrahedron<Linear>) S(tetq,Tetrahedron<Quadratic>) S(hexl,Hexahedron<Linear>) S(hexq,Hexahedron<Quadratic>)
#define C(n,...) ENTRY(n##_close) { close<__VA_ARGS__>(); }
C(seg1l,Segment<_1D COMMA Linear>) C(seg1q,Segment<_1D COMMA Quadratic>) C(tri2l,Triangle<_2D COMMA Linear>) C(tri2q,Triangle<_2D COMMA Quadratic>) C(quad2l,Quad<_2D COMMA Linear>) C(tetl,Tetrahedron<Linear>)
#define F(n,...) ENTRY(n) { surface<__VA_ARGS__>(); } ENTRY(n##_off) { off<__VA_ARGS__>(); }
F(seg2l,Segment<_2D COMMA Linear>) F(seg2q,Segment<_2D COMMA Quadratic>) F(seg3l,Segment<_3D COMMA Linear>) F(seg3q,Segment<_3D COMMA Quadratic>) F(tri3l,Triangle<_3D COMMA Linear>) F(tri3q,Triangle<_3D COMMA Quadratic>) F(quad3l,Quad<_3D COMMA Linear>) F(quad3q,Quad<_3D COMMA Quadratic>)
static const double S0[3]={0,0,0},S1[3]={.5,-.25,.75};
#define G(n,...) ENTRY(n##_step0) { step<__VA_ARGS__>(S0); } ENTRY(n##_step1) { step<__VA_ARGS__>(S1); }
G(seg1q,Segment<_1D COMMA Quadratic>) G(tri2q,Triangle<_2D COMMA Quadratic>) G(quad2l,Quad<_2D COMMA Linear>) G(quad2q,Quad<_2D COMMA Quadratic>)
