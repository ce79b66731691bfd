// G06: cells around a point.
// @bounds grids with up to 3 (thorough: 4) cells on the faster axes and up to 1000 on the slowest one; every point from 2 cells below to 2 cells above the grid, each coordinate exactly on a cell border or at least 1e-6 of a cell away from it; anchors in [-100,100], sizes in [1/4,100]
// @outside points within 1e-6 of a cell of a border but not on it (rounding band)
#include "grid.h"
#ifdef VP_THOROUGH
#define NX 4
#else
#define NX 3
#endif
template<int D> void check(const Grid<D>&g,const SymGrid<D>&S,const GV<D>&p,const i64*lo,const i64*hi) {
  auto cells=g.cells_around(p); i64 cnt=1; for (int k=0;k<D;++k) { i64 w=hi[k]-lo[k]+1; if (w<0) w=0; cnt*=w; }
  vp_assert((i64)cells.size()==cnt,"number of cells around the point"); i64 n=cells.size();
  for (i64 a=0;a<n;++a) { i64 c=cells[a],q=c; bool in=(c>=0); for (int k=0;k<D;++k) { i64 x= k<D-1 ? q%S.N[k] : q; q/= k<D-1 ? S.N[k] : 1; in=in&(x>=lo[k])&(x<=hi[k]); } vp_assert(in,"every listed cell holds the point in its closed box"); for (i64 b=0;b<a;++b) vp_assert(cells[b]!=cells[a],"no cell is listed twice"); }
}
template<int D> void go(int nx) {
  SymGrid<D> S(NX,1000,false,nx); auto g=S.grid(); GV<D> p; i64 lo[3],hi[3];
  for (int k=0;k<D;++k) { i64 m=vp_int(k==0?"mx":k==1?"my":"mz",-2,1002); vp_assume(m<=S.N[k]+2); double f=0; bool off=vp_pick(k==0?"offx":k==1?"offy":"offz",0,1); if (off) f=vp_real_n("f",k,1e-6,1-1e-6);
    p[k]=S.a[k]+((double)m+f)*(S.s[k]/(double)S.N[k]); lo[k]= off?m:m-1; hi[k]=m; if (lo[k]<0) lo[k]=0; if (hi[k]>S.N[k]-1) hi[k]=S.N[k]-1; }
  check<D>(g,S,p,lo,hi);
}
// the same on grids whose arithmetic is exact in binary floating point
template<int D> void dyadic() {
  SymGrid<D> S(2,2,true); GV<D> a,s,p; i64 lo[3],hi[3]; for (int k=0;k<D;++k) { a[k]=(double)vp_int(k==0?"ax":k==1?"ay":"az",-40,40)/4; s[k]=(double)S.N[k]*0.5*(k+1); i64 m=vp_int(k==0?"mx":k==1?"my":"mz",-8,20); vp_assume(m<=4*S.N[k]+8); p[k]=a[k]+((double)m/4)*0.5*(k+1);
    lo[k]=m>=0? m/4 : -((3-m)/4); hi[k]=lo[k]; if (lo[k]*4==m) lo[k]-=1; if (lo[k]<0) lo[k]=0; if (hi[k]>S.N[k]-1) hi[k]=S.N[k]-1; }
  Grid<D> g(a,S.n,s); check<D>(g,S,p,lo,hi);
}
ENTRY(g1) { go<1>(0); }
ENTRY(g2) { go<2>(0); }
ENTRY(g3_x1) { go<3>(1); }
ENTRY(g3_x2) { go<3>(2); }
ENTRY(g3_x3) { go<3>(3); }
ENTRY(exact1) { dyadic<1>(); }
ENTRY(exact2) { dyadic<2>(); }
