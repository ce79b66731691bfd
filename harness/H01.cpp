// H01: a hash grid returns, for every query point, every inserted element whose bounding box holds the point.
// @bounds 1D: a segment with arbitrary nodes in [-2,2] cells or two segments in [-1,0.75] cells, any cell size in [1/8,16], any query point up to 3 cells away; 2D and 3D: a triangle, a quadratic quad or a tetrahedron with arbitrary nodes spanning up to 3 cells per axis on both sides of the origin, cell sizes 1/4, 1 and 3, any query point around it; and 1D/2D/3D tables filled with 12 to 16 elements at fixed places (with and without reservation), any query point
// @outside query points within 1e-19 of a cell of a border but not on it
#include "elements.h"
#include "stdlib.h"
#include <Caribou/Topology/HashGrid.h>
using caribou::topology::HashGrid;
template<class E> bool in_box(const Nodes<E>&X,const World<E>&p) { bool r=true; for (int k=0;k<(int)E::Dimension;++k) { bool a=false,b=false; for (int i=0;i<NN<E>;++i) { a=a|(X(i,k)<=p[k]); b=b|(X(i,k)>=p[k]); } r=r&a&b; } return r; }
// coordinates are given in cells: X = cs*t
ENTRY(seg) { using E=Segment<_1D,Linear>; double cs=vp_real("cs",0.125,16); HashGrid<E> g(cs); Nodes<E> X; World<E> p; p[0]=cs*vp_real("p",-3,3);
  for (int i=0;i<2;++i) X(i,0)=cs*vp_real_n("t",i,-2,2); g.add(E(X),10);
  auto s=g.get(p); for (auto id : s) vp_assert(id==10,"only inserted elements are returned"); vp_assert(!in_box<E>(X,p) | (s.count(10)==1),"an element whose box holds the point is returned"); }
ENTRY(seg2) { using E=Segment<_1D,Linear>; double cs=vp_real("cs",0.125,16); HashGrid<E> g(cs); Nodes<E> X[2]; World<E> p; p[0]=cs*vp_real("p",-1.5,1.5);
  for (int e=0;e<2;++e) { for (int i=0;i<2;++i) X[e](i,0)=cs*vp_real_n("t",e,i,e?-0.75:-1,0.75); g.add(E(X[e]),10+e); }
  auto s=g.get(p); for (auto id : s) vp_assert(id==10||id==11,"only inserted elements are returned"); for (int e=0;e<2;++e) vp_assert(!in_box<E>(X[e],p) | (s.count(10+e)==1),"an element whose box holds the point is returned"); }
template<class E> void one(double cs,bool reserve,double lx,double hx,double l,double h,double pr) { constexpr int D=E::Dimension; HashGrid<E> g= reserve ? HashGrid<E>(cs,3) : HashGrid<E>(cs); Nodes<E> X; World<E> p;
  for (int i=0;i<NN<E>;++i) for (int k=0;k<D;++k) X(i,k)=cs*vp_real_n("t",i,k,k==0?lx:l,k==0?hx:h);
  for (int k=0;k<D;++k) p[k]=cs*vp_real_n("p",k,k==0?lx-0.25:l-pr,k==0?hx+0.25:h+pr);
  g.add(E(X),7); auto s=g.get(p); for (auto id : s) vp_assert(id==7,"only inserted elements are returned"); vp_assert(!in_box<E>(X,p) | (s.count(7)==1),"an element whose box holds the point is returned"); }
#ifdef VP_THOROUGH
#define W 1.25
#else
#define W 0.75
#endif
ENTRY(tri_a) { one<Triangle<_2D,Linear>>(1,false,-1.25,1.25,-W,W,0.25); }
ENTRY(tri_b) { one<Triangle<_2D,Linear>>(0.25,true,-1.25,0.75,-0.75,W,0.25); }
ENTRY(tri_c) { one<Triangle<_2D,Linear>>(3,false,-W,W,-1.25,0.5,0.25); }
ENTRY(quad) { one<Quad<_2D,Quadratic>>(1,false,-.75,.75,-.75,.75,0); }
// 3D: the box spans several cells along one or two of the axes
void tet(const double*l,const double*h) { using E=Tetrahedron<Linear>; HashGrid<E> g(1.); Nodes<E> X; World<E> p; for (int i=0;i<4;++i) for (int k=0;k<3;++k) X(i,k)=vp_real_n("t",i,k,l[k],h[k]); for (int k=0;k<3;++k) p[k]=vp_real_n("p",k,l[k],h[k]);
  g.add(E(X),7); auto s=g.get(p); for (auto id : s) vp_assert(id==7,"only inserted elements are returned"); vp_assert(!in_box<E>(X,p) | (s.count(7)==1),"an element whose box holds the point is returned"); }
ENTRY(tet_xy) { double l[3]={-.75,-.75,.125},h[3]={.75,.75,.75}; tet(l,h); }
ENTRY(tet_z) { double l[3]={-.75,-.75,-1.25},h[3]={-.125,-.25,1.25}; tet(l,h); }
ENTRY(tet_yz) { double l[3]={-1.75,-1.75,-.5},h[3]={-1.125,-.25,.5}; tet(l,h); }
#ifdef VP_THOROUGH
ENTRY(tet) { one<Tetrahedron<Linear>>(1,false,-0.75,0.75,-0.75,0.75,0); }
#endif
#ifdef VP_THOROUGH
ENTRY(hex) { one<Hexahedron<Linear>>(1,false,-0.75,0.75,-0.75,0.75,0); }
#endif
// a table filled with many elements, some of them sharing cells: N elements at fixed places, symbolic query point
template<class E,int N> void many(double cs,bool reserve,double pr,double prl) { constexpr int D=E::Dimension; HashGrid<E> g= reserve ? HashGrid<E>(cs,N) : HashGrid<E>(cs); Nodes<E> X[N];
  static const double off[16][3]={{0,0,0},{.75,.25,-1},{-1.5,.5,.25},{1,1,1},{-2,-2,.5},{2,-1.25,0},{-.25,-.25,-.25},{1.5,-2.25,-1.25},{-1,1,-.75},{.25,2,.75},{-2.5,0,-2},{0,-1.5,1.25},{.5,.5,.5},{-.75,-1,-1},{2.25,2.25,-.5},{-3,1.25,.125}};
  for (int e=0;e<N;++e) { for (int i=0;i<NN<E>;++i) for (int k=0;k<D;++k) X[e](i,k)=cs*(off[e][k]+(canon(Info<E>::shape,i,k<CD<E>?k:0))*(e%3==0?1.25:0.5)); g.add(E(X[e]),100+e); }
  World<E> p; for (int k=0;k<D;++k) p[k]=cs*vp_real_n("p",k,k==D-1?-prl:-pr,k==D-1?prl:pr);
  auto s=g.get(p); for (auto id : s) vp_assert(id>=100&&id<100+N,"only inserted elements are returned"); for (int e=0;e<N;++e) vp_assert(!in_box<E>(X[e],p) | (s.count(100+e)==1),"an element whose box holds the point is returned"); }
ENTRY(many1) { many<Segment<_1D,Linear>,16>(0.5,false,3.5,3.5); }
ENTRY(many2) { many<Triangle<_2D,Linear>,16>(2,true,2,2.5); }
ENTRY(many3) { many<Tetrahedron<Linear>,12>(1,false,1.25,0.75); }
