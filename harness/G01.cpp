// G01: numbering of nodes and cells.
// @bounds faster axes up to 4 (thorough: 6) cells each, slowest axis up to 100000 cells; every index; sizes in [1/4,100]
#include "grid.h"
template<int D> void go() {
  SymGrid<D> S(NP,100000); auto g=S.grid(); i64 nc=1,nn=1; for (int k=0;k<D;++k) { nc*=S.N[k]; nn*=S.N[k]+1; }
  vp_assert((i64)g.number_of_cells()==nc,"number of cells"); vp_assert((i64)g.number_of_nodes()==nn,"number of nodes");
  for (int k=0;k<D;++k) vp_assert((i64)g.N()[k]==S.N[k],"subdivisions");
  { i64 i=vp_int("node",0,100000000); vp_assume(i<nn); GI<D> c=g.node_coordinates_at(i); bool in=true; for (int k=0;k<D;++k) in=in&(c[k]>=0)&(c[k]<=S.N[k]); vp_assert(in,"node coordinates in range"); vp_assert((i64)g.node_index_at(c)==i,"node index of node coordinates"); i64 e=0; for (int k=D;k-->0;) e=e*(S.N[k]+1)+c[k]; vp_assert(e==i,"x varies fastest in node numbering"); }
  { i64 i=vp_int("cell",0,100000000); vp_assume(i<nc); GI<D> c=g.cell_coordinates_at((typename Grid<D>::CellIndex)i); bool in=true; for (int k=0;k<D;++k) in=in&(c[k]>=0)&(c[k]<S.N[k]); vp_assert(in,"cell coordinates in range"); vp_assert((i64)g.cell_index_at(c)==i,"cell index of cell coordinates"); i64 e=0; for (int k=D;k-->0;) e=e*S.N[k]+c[k]; vp_assert(e==i,"x varies fastest in cell numbering"); }
  { GI<D> c,d; for (int k=0;k<D;++k) { c[k]=vp_int(k==0?"i":k==1?"j":"k",0,k<D-1?S.N[k]:100000); vp_assume(c[k]<=S.N[k]); } i64 i=g.node_index_at(c); vp_assert((i>=0)&(i<nn),"node index in range"); d=g.node_coordinates_at(i); bool same=true; for (int k=0;k<D;++k) same=same&(d[k]==c[k]); vp_assert(same,"node coordinates of node index"); }
  { GI<D> c,d; for (int k=0;k<D;++k) { c[k]=vp_int(k==0?"ci":k==1?"cj":"ck",0,k<D-1?S.N[k]-1:100000); vp_assume(c[k]<S.N[k]); } i64 i=g.cell_index_at(c); vp_assert((i>=0)&(i<nc),"cell index in range"); d=g.cell_coordinates_at((typename Grid<D>::CellIndex)i); bool same=true; for (int k=0;k<D;++k) same=same&(d[k]==c[k]); vp_assert(same,"cell coordinates of cell index"); }
}
ENTRY(g1) { go<1>(); }
ENTRY(g2) { go<2>(); }
ENTRY(g3) { go<3>(); }
