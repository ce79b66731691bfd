// E12: frames and normals.
// @bounds every orientation in space (unnormalised quaternion with largest component 1, others in [-1,1], four charts), edge lengths factors in [1/8,8], every angle between the two edges from 2*atan(1/8) to pi-2*atan(1/8) (rational parametrisation of the circle), origin in [-8,8]; frames of tetrahedra (linear, quadratic) and of parallelepiped hexahedra (linear, quadratic) at any local point in [-1/2,1/2], of rectangles in 2D and 3D, normals of 3D triangles
// @outside frames of distorted (non-affine) hexahedra and non-rectangular quads, documented as rough approximations
// @opt * select=fork
#include "elements.h"
using V3=Eigen::Matrix<double,3,1>;
static V3 vec3(const char*n) { V3 v; for (int k=0;k<3;++k) v[k]=vp_real_n(n,k,-8,8); return v; }
struct Axes { V3 a,b,e1,e2,e3; };          // e1,e2,e3 orthogonal, right-handed, of equal (squared-norm) length |q|^2
// any non-degenerate pair of vectors: a along e1, b in the half plane of e2
static Axes axes(bool right_angle) {
  long long c=vp_pick("chart",0,3); double q[4]; for (int i=0;i<4;++i) q[i]= i==c ? 1. : vp_real_n("q",i,-1,1);
  double w=q[0],x=q[1],y=q[2],z=q[3]; Axes A;
  A.e1=V3(w*w+x*x-y*y-z*z,2*(x*y+w*z),2*(x*z-w*y)); A.e2=V3(2*(x*y-w*z),w*w-x*x+y*y-z*z,2*(y*z+w*x)); A.e3=V3(2*(x*z+w*y),2*(y*z-w*x),w*w-x*x-y*y+z*z);
  double t=vp_real("t",0.125,8),s=vp_real("s",0.125,8); A.a=t*A.e1;
  if (right_angle) A.b=s*A.e2; else { double h=vp_real("h",0.125,8); A.b=s*((1-h*h)*A.e1+2*h*A.e2); }
  return A;
}
static void same(const V3 & u,const V3 & e,const char * l) { // u is e scaled to unit length
  double n2=e.dot(e); V3 c=u.cross(e); for (int k=0;k<3;++k) vp_near(c[k],0,1e-9,l); vp_near(u.dot(u),1,1e-9,"unit vector"); vp_assert(u.dot(e)>0,l); (void)n2; }
static void ortho(const Eigen::Matrix<double,3,3> & m,const Axes & A) {
  V3 u=m.col(0),v=m.col(1),w=m.col(2);
  same(u,A.e1,"u is along the first axis"); same(v,A.e2,"v is in the plane of the axes, on the side of the second one"); same(w,A.e3,"w completes a right-handed frame");
  vp_near(u.dot(v),0,1e-9,"u and v are orthogonal"); vp_near(u.dot(w),0,1e-9,"u and w are orthogonal"); vp_near(v.dot(w),0,1e-9,"v and w are orthogonal");
}
template<class E> E affine(const V3 & a,const V3 & b,const V3 & c,const V3 & o) { Nodes<E> X; for (int i=0;i<NN<E>;++i) for (int k=0;k<3;++k) X(i,k)=o[k]+a[k]*canon(Info<E>::shape,i,0)+b[k]*canon(Info<E>::shape,i,1)+c[k]*canon(Info<E>::shape,i,2); return E(X); }
ENTRY(normal_tri3l) { V3 o=vec3("o"); Axes A=axes(false); Triangle<_3D,Linear> t(o,V3(o+A.a),V3(o+A.b)); same(t.normal(),A.e3,"normal is orthogonal to both edges, oriented by the node order"); }
ENTRY(normal_tri3q) { V3 o=vec3("o"); Axes A=axes(false); Triangle<_3D,Quadratic> t(o,V3(o+A.a),V3(o+A.b)); same(t.normal(),A.e3,"normal is orthogonal to both edges, oriented by the node order"); }
template<class E> void hexa(bool def) { V3 o=vec3("o"),c=vec3("c"); Axes A=axes(false); E e=affine<E>(A.a,A.b,c,o); if (def) ortho(e.frame(),A); else { Local<E> x=sym_local<E>("xi",-0.5,0.5); ortho(e.frame(x),A); } }
ENTRY(hexl) { hexa<Hexahedron<Linear>>(false); }
ENTRY(hexq) { hexa<Hexahedron<Quadratic>>(false); }
ENTRY(hexl0) { hexa<Hexahedron<Linear>>(true); }
ENTRY(hexq0) { hexa<Hexahedron<Quadratic>>(true); }
template<class E> void tet() { V3 o=vec3("o"),c=vec3("c"); Axes A=axes(false); ortho(affine<E>(A.a,A.b,c,o).frame(),A); }
ENTRY(tetl) { tet<Tetrahedron<Linear>>(); }
ENTRY(tetq) { tet<Tetrahedron<Quadratic>>(); }
template<class E> void quad3(bool def) { V3 o=vec3("o"); Axes A=axes(true); Nodes<E> X; for (int i=0;i<NN<E>;++i) for (int k=0;k<3;++k) X(i,k)=o[k]+A.a[k]*canon(QUAD,i,0)+A.b[k]*canon(QUAD,i,1); E e(X); Eigen::Matrix<double,3,3> m; if (def) m=e.frame(); else m=e.frame(sym_local<E>("xi",-0.5,0.5)); ortho(m,A); }
ENTRY(quad3l) { quad3<Quad<_3D,Linear>>(false); }
ENTRY(quad3q) { quad3<Quad<_3D,Quadratic>>(false); }
ENTRY(quad3l0) { quad3<Quad<_3D,Linear>>(true); }
ENTRY(quad3q0) { quad3<Quad<_3D,Quadratic>>(true); }
template<class E> void quad2(bool def) { double o[2]={vp_real("ox",-8,8),vp_real("oy",-8,8)},ax=vp_real("ax",-8,8),ay=vp_real("ay",-8,8),t=vp_real("t",1./16,8); vp_assume(ax*ax+ay*ay>=1./16); double a[2]={ax,ay},b[2]={-t*ay,t*ax}; Nodes<E> X; for (int i=0;i<NN<E>;++i) for (int k=0;k<2;++k) X(i,k)=o[k]+a[k]*canon(QUAD,i,0)+b[k]*canon(QUAD,i,1); E e(X); Eigen::Matrix<double,2,2> m; if (def) m=e.frame(); else m=e.frame(sym_local<E>("xi",-0.5,0.5));
  vp_near(m(0,0)*m(0,0)+m(1,0)*m(1,0),1,1e-9,"u is a unit vector"); vp_near(m(0,1)*m(0,1)+m(1,1)*m(1,1),1,1e-9,"v is a unit vector"); vp_near(m(0,0)*m(0,1)+m(1,0)*m(1,1),0,1e-9,"u and v are orthogonal"); vp_near(m(0,0)*ay-m(1,0)*ax,0,1e-9,"u is along the first axis"); vp_assert(m(0,0)*ax+m(1,0)*ay>0,"u points along the first axis"); vp_near(m(0,0)*m(1,1)-m(1,0)*m(0,1),1,1e-9,"frame is right-handed"); }
ENTRY(quad2l) { quad2<Quad<_2D,Linear>>(false); }
ENTRY(quad2q) { quad2<Quad<_2D,Quadratic>>(false); }
ENTRY(quad2l0) { quad2<Quad<_2D,Linear>>(true); }
ENTRY(quad2q0) { quad2<Quad<_2D,Quadratic>>(true); }
