// G05: point location.
// @bounds grids with up to 4 (thorough: 6) cells on the faster axes and up to 1000 on the slowest one; every point from 3 cells below to 3 cells above the grid; anchors in [-100,100], sizes in [1/4,100]
// @outside points within 1e-9 of a cell of a cell border but not on it; points outside of the grid (no cell to report)
#include "grid.h"
template<int D> void go() {
  SymGrid<D> S(NP,1000); auto g=S.grid(); GV<D> h,p; GI<D> e; bool in=true,wide=true,upper=false; 
  for (int k=0;k<D;++k) h[k]=S.s[k]/(double)S.N[k];
  for (int k=0;k<D;++k) { i64 m=vp_int(k==0?"mx":k==1?"my":"mz",-3,1003); vp_assume(m<=S.N[k]+3); double f=0; if (vp_pick(k==0?"offx":k==1?"offy":"offz",0,1)) f=vp_real_n("f",k,1e-6,1-1e-6);
    p[k]=S.a[k]+((double)m+f)*h[k]; in=in&(m>=0)&((m<S.N[k])|((m==S.N[k])&(f==0))); upper=upper|(m>=S.N[k]); i64 c=m; if (m==S.N[k]) c=m-1; e[k]=c; }
  (void)wide; vp_assert(g.contains(p)==in,"contains() holds exactly in the closed grid box");
  if (!in) return;
  const auto & b=static_cast<const caribou::topology::internal::BaseGrid<D,Grid<D>>&>(g);
  GI<D> c=b.cell_coordinates_at(p,true); i64 idx=0; for (int k=D;k-->0;) idx=idx*S.N[k]+e[k];
  for (int k=0;k<D;++k) vp_assert((i64)c[k]==e[k],"cell containing the point, last cell on the upper border");
  vp_assert((i64)g.cell_index_containing(p,true)==idx,"index of the cell containing the point");
  if (!upper) { GI<D> d=b.cell_coordinates_at(p,false),d2=b.cell_coordinates_at(p); for (int k=0;k<D;++k) { vp_assert((i64)d[k]==e[k],"cell containing the point, without boundary test"); vp_assert((i64)d2[k]==e[k],"cell containing the point, default"); } vp_assert((i64)g.cell_index_containing(p)==idx,"index of the cell containing the point, default"); vp_reach("interior"); }
}
ENTRY(g1) { go<1>(); }
ENTRY(g2) { go<2>(); }
ENTRY(g3) { go<3>(); }
// tolerance of contains()
template<int D> void tol() { SymGrid<D> S(1,1000,false); auto g=S.grid(); double eps=vp_real("eps",0,1); GV<D> p; bool in=true,wide=true; const double d=1e-9; for (int k=0;k<D;++k) { double t=vp_real_n("t",k,-3,3); p[k]=S.a[k]+t*S.s[k]; in=in&(t>=-eps+d)&(t<=1+eps-d); wide=wide&(t>=-eps-d)&(t<=1+eps+d); }
  bool c=g.contains(p,eps); vp_assert(!c|wide,"contains(eps) only in the box inflated by eps times its size"); vp_assert(c|!in,"contains(eps) everywhere in the box inflated by eps times its size"); }
ENTRY(tol1) { tol<1>(); }
ENTRY(tol2) { tol<2>(); }
ENTRY(tol3) { tol<3>(); }
