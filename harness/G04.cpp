// G04: geometry and nodes of grid cells.
// @bounds faster axes up to 4 (thorough: 6) cells each, slowest axis up to 100000 cells; every cell; anchors in [-100,100], sizes in [1/4,100]
#include "grid.h"
#include "elements.h"
template<int D> void go() {
  SymGrid<D> S(NP,100000); auto g=S.grid(); GV<D> H=g.H(); for (int k=0;k<D;++k) { vp_near(H[k]*(double)S.N[k],S.s[k],1e-9,"cell size times subdivisions is the size"); vp_near(g.size()[k],S.s[k],0,"size"); vp_near(g.anchor_position()[k],S.a[k],0,"anchor"); }
  GI<D> c; i64 ci=0; for (int k=0;k<D;++k) { c[k]=vp_int(k==0?"i":k==1?"j":"k",0,k<D-1?S.N[k]-1:100000); vp_assume(c[k]<S.N[k]); } for (int k=D;k-->0;) ci=ci*S.N[k]+c[k];
  constexpr auto sh=D==1?SEG:D==2?QUAD:HEX; constexpr int n=1<<D; using CI=typename Grid<D>::CellIndex;
  auto ea=g.cell_at(c); auto eb=g.cell_at((CI)ci); auto na=g.node_indices_of(c); auto nb=g.node_indices_of((CI)ci);
  for (int v=0;v<n;++v) { i64 e=0; GI<D> nc; for (int k=D;k-->0;) { i64 o=canon(sh,v,k)>0; nc[k]=c[k]+o; e=e*(S.N[k]+1)+c[k]+o; }
    vp_assert((i64)na[v]==e,"node indices of the cell, by coordinates"); vp_assert((i64)nb[v]==e,"node indices of the cell, by index");
    GV<D> pa=ea.node(v),pb=eb.node(v),pn=g.node((typename Grid<D>::NodeIndex)e),pc=static_cast<const caribou::topology::internal::BaseGrid<D,Grid<D>>&>(g).node(nc);
    for (int k=0;k<D;++k) { double x=S.a[k]+(double)nc[k]*(S.s[k]/(double)S.N[k]); vp_near(pa[k],x,1e-6,"cell corner, by coordinates"); vp_near(pb[k],x,1e-6,"cell corner, by index"); vp_near(pn[k],x,1e-6,"grid node, by index"); vp_near(pc[k],x,1e-6,"grid node, by coordinates"); } }
}
ENTRY(g1) { go<1>(); }
ENTRY(g2) { go<2>(); }
ENTRY(g3) { go<3>(); }
