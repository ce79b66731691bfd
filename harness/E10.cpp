// E10: a box and a segment are reported to intersect exactly when they share a point.
// @bounds rectangular hexahedra with any center in [-100,100] and size in [1/64,64], unrotated or with two axis-permuting rotations, and one with fixed size and a 3-4-5 rotation; a general linear and quadratic hexahedron of box shape; segments with direction components in [-8,8] (general hexahedra: eight directions for segments that share a point) and an end in [-9,9] in units of box half-sizes; tangency margin 1e-6 of a half-size
// @outside other rotation angles (E05 shows that local coordinates are exact for all of them); positive tolerances
#include "box.h"
typedef long long i64;
// the point of the segment at parameter t is a point p of the box
static const double DIR[][3]={{3,2,-1},{-.5,4,1},{-2,-3,5},{0,6,-4},{1,-1,-1},{0,0,3},{.25,.125,-.25},{-7,1,0}};
template<class B> void shares(const Frame & f,const B & b,bool fixed=false) {
  V p,e,q0,q1; double t=vp_real("t",0,1); i64 d= fixed ? vp_pick("direction",0,7) : 0; for (int k=0;k<3;++k) { p[k]=vp_real_n("p",k,-1+MARGIN,1-MARGIN); e[k]= fixed ? DIR[d][k] : vp_real_n("e",k,-8,8); q0[k]=p[k]-t*e[k]; q1[k]=q0[k]+e[k]; }
  vp_assert(b.intersects(Segment<_3D,Linear>(f.world(q0),f.world(q1))),"a segment sharing a point with the box intersects it"); }
// the segment lies on the outer side of a plane clear of the box: one of the six separating directions
template<class B> void apart(const Frame & f,const B & b) {
  V q,e,r; for (int k=0;k<3;++k) { q[k]=vp_real_n("q",k,-9,9); e[k]=vp_real_n("e",k,-8,8); r[k]=q[k]+e[k]; }
  int a=(int)vp_pick("axis",0,5), s=vp_pick("side",0,1)?1:-1;
  if (a<3) { vp_assume(s*q[a]>=1+MARGIN); vp_assume(s*r[a]>=1+MARGIN); }
  else { int i=(a+1)%3,j=(a+2)%3; double si=vp_pick("si",0,1)?1:-1,sj=vp_pick("sj",0,1)?1:-1; vp_assume(si*e[i]>=0); vp_assume(sj*e[j]>=0); vp_assume(si*e[i]+sj*e[j]>=1e-3); double u=s*(e[j]*q[i]-e[i]*q[j]),v=si*e[i]+sj*e[j]; vp_assume(u>=v*(1+MARGIN)); vp_assume(u*u>v*v); /* implied, helps the solver */ }
  vp_assert(!b.intersects(Segment<_3D,Linear>(f.world(q),f.world(r))),"a segment separated from the box does not intersect it"); }
#define X(n,O,m) ENTRY(shares_##n) { Frame f=symbox(m); shares(f,RectangularHexahedron<O>(f.c,f.H,f.R)); } ENTRY(apart_##n) { Frame f=symbox(m); apart(f,RectangularHexahedron<O>(f.c,f.H,f.R)); }
X(rl0,Linear,0) X(rl1,Linear,1) X(rq2,Quadratic,2)
#define Y(n,O,m) ENTRY(shares_##n) { Frame f=fixbox(m); shares(f,RectangularHexahedron<O>(f.c,f.H,f.R)); } ENTRY(apart_##n) { Frame f=fixbox(m); apart(f,RectangularHexahedron<O>(f.c,f.H,f.R)); }
Y(rl3,Linear,3)
#define Z(n,O,m) ENTRY(shares_##n) { Frame f=fixbox(m); shares(f,general<Hexahedron<O>>(f),true); } ENTRY(apart_##n) { Frame f=fixbox(m); apart(f,general<Hexahedron<O>>(f)); }
Z(hl0,Linear,0) Z(hq1,Quadratic,1)
