// G02: grid edges.
// @bounds faster axes up to 4 (thorough: 6) cells each, slowest axis up to 10000 cells; every edge index and every pair of edge indices
#include "grid.h"
template<int D> void coords(const SymGrid<D>&S,i64 n,i64*c) { for (int k=0;k<D;++k) { c[k]= k<D-1 ? n%(S.N[k]+1) : n; n/= (S.N[k]+1); } }
template<int D> void go() {
  SymGrid<D> S(NP,10000); auto g=S.grid(); i64 cnt=0; for (int a=0;a<D;++a) { i64 p=1; for (int k=0;k<D;++k) p*= k==a?S.N[k]:S.N[k]+1; cnt+=p; }
  vp_assert((i64)g.number_of_edges()==cnt,"number of edges is the number of neighbouring pairs");
  i64 e1=vp_int("e1",0,10000000),e2=vp_int("e2",0,10000000); vp_assume(e1<e2); vp_assume(e2<cnt); i64 nn=1; for (int k=0;k<D;++k) nn*=S.N[k]+1;
  auto p=g.edge((unsigned long long)e1); auto q=g.edge((unsigned long long)e2); i64 a=p[0],b=p[1],c=q[0],d=q[1];
  vp_assert((a>=0)&(a<nn)&(b>=0)&(b<nn),"edge nodes in range"); vp_assert((c>=0)&(c<nn)&(d>=0)&(d<nn),"edge nodes in range");
  i64 x[3],y[3]; coords<D>(S,a,x); coords<D>(S,b,y); int diff=0; bool unit=true; for (int k=0;k<D;++k) { i64 t=y[k]-x[k]; diff+= t!=0; unit=unit&(t>=-1)&(t<=1); } vp_assert(unit&(diff==1),"edge joins neighbours along one axis");
  coords<D>(S,c,x); coords<D>(S,d,y); diff=0; unit=true; for (int k=0;k<D;++k) { i64 t=y[k]-x[k]; diff+= t!=0; unit=unit&(t>=-1)&(t<=1); } vp_assert(unit&(diff==1),"edge joins neighbours along one axis");
  vp_assert(!((a==c)&(b==d)) & !((a==d)&(b==c)),"distinct edge indices give distinct edges");
}
ENTRY(g2) { go<2>(); }
ENTRY(g3) { go<3>(); }
