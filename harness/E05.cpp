// E05: rectangular quads and hexahedra agree with the general element of the same nodes.
// @bounds centers and points in [-100,100], sizes in [1/64,64], any rotation (2D: all unit complex numbers; 3D: all unit quaternions), local coordinates in [-10,10]; conversion from the general element: four fixed orientations, every center and size
#include "elements.h"
template<class E> struct Gen; template<UNSIGNED_INTEGER_TYPE D,UNSIGNED_INTEGER_TYPE O> struct Gen<RectangularQuad<D,O>> { using type=Quad<D,O>; }; template<UNSIGNED_INTEGER_TYPE O> struct Gen<RectangularHexahedron<O>> { using type=Hexahedron<O>; };
template<int D> Eigen::Matrix<double,D,D> sym_rotation() {
  Eigen::Matrix<double,D,D> R;
  if constexpr (D==2) { double c=vp_real("rc",-1,1),s=vp_real("rs",-1,1); vp_assume(c*c+s*s==1); R<<c,-s,s,c; }
  else { double w=vp_real("qw",-1,1),x=vp_real("qx",-1,1),y=vp_real("qy",-1,1),z=vp_real("qz",-1,1); vp_assume(w*w+x*x+y*y+z*z==1);
    R<<1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y), 2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x), 2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y); }
  return R; }
template<class E> void go() {
  constexpr int D=E::Dimension; using G=typename Gen<E>::type;
  World<E> c=sym_world<E>("c",-100,100); typename E::Size H; for (int k=0;k<CD<E>;++k) H[k]=vp_real_n("H",k,1./64,64);
  // an arbitrary matrix first: the mapping, Jacobian and nodes do not depend on R being a rotation
  typename E::Rotation R; for (int i=0;i<D;++i) for (int j=0;j<D;++j) R(i,j)=vp_real_n("R",i,j,-1,1);
  E e(c,H,R); auto xi=sym_local<E>("xi",-10,10);
  for (int k=0;k<CD<E>;++k) vp_near(e.size()[k],H[k],0,"size is the given one");
  for (int i=0;i<D;++i) { vp_near(e.center()[i],c[i],0,"center is the given one"); for (int j=0;j<D;++j) vp_near(e.rotation()(i,j),R(i,j),0,"rotation is the given one"); }
  auto ref=[&](const Local<E> & x) { World<E> r=c; for (int i=0;i<D;++i) for (int k=0;k<CD<E>;++k) r[i]+=R(i,k)*x[k]*H[k]/2; return r; };
  World<E> p=e.world_coordinates(xi), q=ref(xi); for (int i=0;i<D;++i) vp_near(p[i],q[i],1e-7,"mapping is center plus rotated scaled coordinates");
  auto all=e.nodes(); Nodes<G> X;
  for (int i=0;i<NN<E>;++i) { World<E> n=e.node(i), m=ref(canon_node<E>(i)); for (int k=0;k<D;++k) { vp_near(n[k],m[k],1e-9,"node is the image of the canonical node"); vp_near(all(i,k),m[k],1e-9,"nodes are the images of the canonical nodes"); X(i,k)=m[k]; } }
  G g(X); World<E> pg=g.world_coordinates(xi); for (int i=0;i<D;++i) vp_near(p[i],pg[i],1e-7,"same mapping as the general element");
  auto J=e.jacobian(xi); auto Jg=g.jacobian(xi); for (int i=0;i<D;++i) for (int k=0;k<CD<E>;++k) { vp_near(J(i,k),R(i,k)*H[k]/2,1e-7,"jacobian is rotation times half size"); vp_near(J(i,k),Jg(i,k),1e-7,"same jacobian as the general element"); }
  World<E> pi_=e.interpolate(xi,all); for (int i=0;i<D;++i) vp_near(pi_[i],p[i],1e-7,"interpolating the nodes is the mapping");
  auto L=e.L(xi), Lg=g.L(xi); auto dL=e.dL(xi), dLg=g.dL(xi); Eigen::Matrix<double,NN<E>,1> f; for (int i=0;i<NN<E>;++i) { vp_near(L[i],Lg[i],1e-7,"same shape functions as the general element"); for (int k=0;k<CD<E>;++k) vp_near(dL(i,k),dLg(i,k),1e-7,"same shape derivatives as the general element"); f[i]=vp_real_n("f",i,-100,100); }
  vp_near(e.interpolate(xi,f),g.interpolate(xi,f),1e-6,"same interpolation as the general element");
  { E a(c), b(c,H), d; for (int i=0;i<D;++i) { vp_near(b.world_coordinates(xi)[i],c[i]+(i<CD<E>?xi[i<CD<E>?i:0]*H[i<CD<E>?i:0]/2:0),1e-9,"unrotated box"); vp_near(a.world_coordinates(xi)[i],c[i]+(i<CD<E>?xi[i<CD<E>?i:0]:0),1e-9,"box of size 2"); vp_near(d.world_coordinates(xi)[i],i<CD<E>?xi[i<CD<E>?i:0]:0,1e-9,"canonical box"); } }
}
template<class E> void inverse() {
  constexpr int D=E::Dimension; World<E> c=sym_world<E>("c",-100,100); typename E::Size H; for (int k=0;k<CD<E>;++k) H[k]=vp_real_n("H",k,1./64,64);
  auto R=sym_rotation<D>(); E e(c,H,R); auto xi=sym_local<E>("xi",-10,10);
  if constexpr (CD<E> ==2) { World<E> w=e.world_coordinates(xi); World<E> f=e.world_coordinates(e.local_coordinates(w)); for (int i=0;i<D;++i) vp_near(f[i],w[i],1.1e-5,"local coordinates invert the mapping up to the residual tolerance"); return; } // the quads use the generic iterative inverse
  Local<E> back=e.local_coordinates(e.world_coordinates(xi)); for (int k=0;k<CD<E>;++k) vp_near(back[k],xi[k],1e-6,"local coordinates invert the mapping");
  if constexpr (D==CD<E>) { World<E> w=sym_world<E>("w",-100,100); World<E> f=e.world_coordinates(e.local_coordinates(w)); for (int i=0;i<D;++i) vp_near(f[i],w[i],1e-6,"mapping inverts the local coordinates"); }
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
FOR_RECT(X)
#undef X
#define X(n,...) ENTRY(inv_##n) { inverse<__VA_ARGS__>(); }
X(rhexl,RectangularHexahedron<Linear>) X(rhexq,RectangularHexahedron<Quadratic>) X(rquad2l,RectangularQuad<_2D COMMA Linear>) X(rquad2q,RectangularQuad<_2D COMMA Quadratic>)

#undef X
// conversion from the general element whose nodes form a box: four orientations (one entry each), every center and size
template<class E,class G> void convert(int o) { constexpr int D=E::Dimension; World<E> c=sym_world<E>("c",-100,100); typename E::Size H; for (int k=0;k<CD<E>;++k) H[k]=vp_real_n("H",k,1./64,64);
  Eigen::Matrix<double,D,D> R; R.setIdentity();
  if constexpr (D==2) { if (o==1) R<<0.6,-0.8,0.8,0.6; if (o==2) R<<0,-1,1,0; if (o==3) R<<-5./13,12./13,-12./13,-5./13; }
  else { if (o==1) R<<2./3,-2./3,1./3, 1./3,2./3,2./3, -2./3,-1./3,2./3; if (o==2) R<<0,0,1,1,0,0,0,1,0; if (o==3) R<<6./7,-2./7,-3./7, -3./7,-6./7,-2./7, -2./7,3./7,-6./7; }
  auto at=[&](double u,double v,double w,int k) { double r=c[k]+R(k,0)*u*H[0]/2+R(k,1)*v*H[1]/2; if constexpr (CD<E> ==3) r+=R(k,2)*w*H[2]/2; return r; };
  Nodes<G> X; for (int i=0;i<NN<G>;++i) { auto l=canon_node<G>(i); double w=0; if constexpr (CD<E> ==3) w=l[2]; for (int k=0;k<D;++k) X(i,k)=at(l[0],l[1],w,k); }
  auto same=[&](const E & e) { for (int k=0;k<CD<E>;++k) vp_near(e.size()[k],H[k],1e-6,"size of the converted element"); for (int i=0;i<D;++i) { vp_near(e.center()[i],c[i],1e-7,"center of the converted element"); for (int j=0;j<D;++j) vp_near(e.rotation()(i,j),R(i,j),1e-7,"rotation of the converted element"); } };
  G g(X); E e(g); same(e); if constexpr (NN<E> ==NN<G>) { E f(X); same(f); const Nodes<G> & Y=X; E h(Y); same(h); } }
#define C(n,...) ENTRY(conv_##n##_0) { convert<__VA_ARGS__>(0); } ENTRY(conv_##n##_1) { convert<__VA_ARGS__>(1); } ENTRY(conv_##n##_2) { convert<__VA_ARGS__>(2); } ENTRY(conv_##n##_3) { convert<__VA_ARGS__>(3); }
C(q2l,RectangularQuad<_2D COMMA Linear>,Quad<_2D COMMA Linear>) C(q2q,RectangularQuad<_2D COMMA Quadratic>,Quad<_2D COMMA Quadratic>) C(q2ql,RectangularQuad<_2D COMMA Quadratic>,Quad<_2D COMMA Linear>)
C(q3l,RectangularQuad<_3D COMMA Linear>,Quad<_3D COMMA Linear>) C(q3q,RectangularQuad<_3D COMMA Quadratic>,Quad<_3D COMMA Quadratic>) C(q3ql,RectangularQuad<_3D COMMA Quadratic>,Quad<_3D COMMA Linear>)
C(hl,RectangularHexahedron<Linear>,Hexahedron<Linear>) C(hq,RectangularHexahedron<Quadratic>,Hexahedron<Quadratic>) C(hql,RectangularHexahedron<Quadratic>,Hexahedron<Linear>)
