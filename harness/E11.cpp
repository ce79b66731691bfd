// E11: a box and a triangle are reported to intersect exactly when they share a point.
// @bounds triangles of any position whose two edge vectors (in box half-sizes) come from a catalogue of shapes (large cutting planes, small, slivers, oblique, axis-parallel, degenerate), each in all cyclic axis permutations, two (thorough: four) mirror images and both windings; rectangular hexahedra with any center in [-100,100] and size in [1/64,64], one with fixed size and a 3-4-5 rotation; a general hexahedron of box shape; tangency margin 1e-6 of a half-size
// @outside triangle shapes not in the catalogue; other rotation angles (E05 shows that local coordinates are exact for all of them); positive tolerances
#include "box.h"
static const double SH[][6]={
 {6,-5,1, -4,7,2},      // large, oblique: the plane cuts the box, no edge does
 {9,-9,.5, 0,9,-9},     // large, nearly along a diagonal plane
 {8,0,0, 0,8,0},        // large, parallel to a face
 {.5,.25,-.5, -.25,.5,.25}, // small
 {3,3,-2.5, -3,2,3},    // about the size of the box
 {6,6,6.5, 6.5,6,6},    // sliver along the diagonal
 {2,-2,0, 0,2,-2},      // the hexagonal section
 {4,2,0, 1,-3,0},       // in a plane parallel to a face, oblique in it
 {5,1,1, -5,-1,-1},     // degenerate: a segment
};
static const int NS=sizeof(SH)/sizeof(SH[0]);
struct Tri { double n[3][3], u[3], v[3]; };
#ifdef VP_THOROUGH
static const bool all=true;
#else
static const bool all=false;
#endif
static void shape(int i,double*u,double*v,bool few) {
  int r=(int)vp_pick("perm",0,2), m= all ? (int)vp_pick("mirror",0,3) : few ? 0 : vp_pick("mirrored",0,1) ? 1+i%3 : 0; bool w=vp_pick("winding",0,1); double g[3]={m==1?-1.:1.,m==2?-1.:1.,m==3?-1.:1.};
  for (int k=0;k<3;++k) { int j=(k+r)%3; double a=SH[i][j]*g[k],b=SH[i][3+j]*g[k]; u[k]=w?b:a; v[k]=w?a:b; } }
template<class B> bool hit(const Frame & f,const B & b,const V & n0,const double*u,const double*v) { V n1,n2; for (int k=0;k<3;++k) { n1[k]=n0[k]+u[k]; n2[k]=n0[k]+v[k]; } return b.intersects(Triangle<_3D,Linear>(f.world(n0),f.world(n1),f.world(n2))); }
template<class B> void shares(const Frame & f,const B & b,int i,bool few=false) {
  double u[3],v[3]; shape(i,u,v,few); double s=vp_real("s",0,1),t=vp_real("t",0,1); vp_assume(s+t<=1); V n; for (int k=0;k<3;++k) n[k]=vp_real_n("p",k,-1+MARGIN,1-MARGIN)-s*u[k]-t*v[k];
  vp_assert(hit(f,b,n,u,v),"a triangle sharing a point with the box intersects it"); }
template<class B> void apart(const Frame & f,const B & b,int i,bool few=false) {
  double u[3],v[3]; shape(i,u,v,few); V n; for (int k=0;k<3;++k) n[k]=vp_real_n("q",k,-15,15);
  if (!hit(f,b,n,u,v)) { vp_reach("reported apart"); return; }
  for (int a=0;a<13;++a) { double d[3]={0,0,0}, e[3];   // the thirteen separating directions
    if (a<3) d[a]=1; else if (a==3) { d[0]=u[1]*v[2]-u[2]*v[1]; d[1]=u[2]*v[0]-u[0]*v[2]; d[2]=u[0]*v[1]-u[1]*v[0]; }
    else { int x=(a-4)%3,j=(a-4)/3; for (int k=0;k<3;++k) e[k]= j==0?u[k]: j==1?v[k]: u[k]-v[k]; d[(x+1)%3]=e[(x+2)%3]; d[(x+2)%3]=-e[(x+1)%3]; }
    double h=0,x0=0,xu=0,xv=0; for (int k=0;k<3;++k) { h+= d[k]<0?-d[k]:d[k]; x0+=d[k]*n[k]; xu+=d[k]*u[k]; xv+=d[k]*v[k]; } if (h==0) continue;
    double lo= xu<xv?xu:xv, hi= xu<xv?xv:xu; if (lo>0) lo=0; if (hi<0) hi=0;
    vp_assert(!((x0+lo>=h*(1+MARGIN))|(x0+hi<=-h*(1+MARGIN))),"a triangle separated from the box does not intersect it"); } }
#define X(i) ENTRY(shares_##i) { Frame f=symbox(i%3); shares(f,RectangularHexahedron<Linear>(f.c,f.H,f.R),i); } ENTRY(apart_##i) { Frame f=symbox(i%3); apart(f,RectangularHexahedron<Linear>(f.c,f.H,f.R),i); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8)
ENTRY(shares_rot) { Frame f=fixbox(3); shares(f,RectangularHexahedron<Quadratic>(f.c,f.H,f.R),0,true); } ENTRY(apart_rot) { Frame f=fixbox(3); apart(f,RectangularHexahedron<Quadratic>(f.c,f.H,f.R),4,true); }
ENTRY(shares_hex) { Frame f=fixbox(0); shares(f,general<Hexahedron<Linear>>(f),0,true); } ENTRY(apart_hex) { Frame f=fixbox(0); apart(f,general<Hexahedron<Linear>>(f),4,true); }
