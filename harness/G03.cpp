// G03: grid faces.
// @bounds x and y axes up to 4 (thorough: 6) cells each, z axis up to 10000 cells; every face index and every pair of face indices
#include "grid.h"
static void coords(const SymGrid<3>&S,i64 n,i64*c) { for (int k=0;k<3;++k) { c[k]= k<2 ? n%(S.N[k]+1) : n; n/= (S.N[k]+1); } }
static void unit_square(const SymGrid<3>&S,const i64*f) {
  i64 c[4][3]; for (int i=0;i<4;++i) coords(S,f[i],c[i]);
  // consecutive corners differ by one step along one axis; opposite corners by one step along two axes
  bool ok=true; for (int i=0;i<4;++i) { i64 n=0,m=0; bool u=true; for (int k=0;k<3;++k) { i64 t=c[(i+1)%4][k]-c[i][k],o=c[(i+2)%4][k]-c[i][k]; u=u&(t>=-1)&(t<=1)&(o>=-1)&(o<=1); n+=t!=0; m+=o!=0; } ok=ok&u&(n==1)&(m==2); }
  vp_assert(ok,"face is a unit square listed around its perimeter");
}
static void go(int nx) {
  SymGrid<3> S(NP,10000,false,nx); auto g=S.grid(); i64 X=S.N[0],Y=S.N[1],Z=S.N[2]; i64 cnt=X*Y*(Z+1)+X*(Y+1)*Z+(X+1)*Y*Z,nn=(X+1)*(Y+1)*(Z+1);
  vp_assert((i64)g.number_of_faces()==cnt,"number of faces is the number of unit squares");
  i64 e1=vp_int("f1",0,10000000),e2=vp_int("f2",0,10000000); vp_assume(e1<e2); vp_assume(e2<cnt);
  auto p=g.face((unsigned long long)e1); auto q=g.face((unsigned long long)e2); i64 a[4],b[4]; for (int i=0;i<4;++i) { a[i]=p[i]; b[i]=q[i]; vp_assert((a[i]>=0)&(a[i]<nn),"face nodes in range"); vp_assert((b[i]>=0)&(b[i]<nn),"face nodes in range"); }
  unit_square(S,a); unit_square(S,b);
  bool same=true; for (int i=0;i<4;++i) { bool f=false; for (int j=0;j<4;++j) f=f|(a[i]==b[j]); same=same&f; } vp_assert(!same,"distinct face indices give distinct faces");
}
ENTRY(g3_x1) { go(1); }
ENTRY(g3_x2) { go(2); }
ENTRY(g3_x3) { go(3); }
ENTRY(g3_x4) { go(4); }
#ifdef VP_THOROUGH
ENTRY(g3_x5) { go(5); }
ENTRY(g3_x6) { go(6); }
#endif
