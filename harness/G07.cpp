// G07: cells enclosing a set of points.
// @bounds grids of 1 to 5 cells (1D), 2x2, 1x3 and 3x1 cells (2D), 2x1x1, 1x2x1 and 1x1x2 cells (3D); 2 points (1D, 2D, 3D) or 3 points (1D); along the first listed axis each point lies in any of the positions {one cell below the grid, on the lower border, in any cell, on any border, above}, along the others in {below, first cell, inner border, last cell, upper border} (3D grids of 1x2x1 and 1x1x2 cells: in the cell or on the upper border along the other axes); positions inside a cell are arbitrary (at least 1e-6 of a cell away from its borders); anchors in [-100,100], sizes in [1/4,100]; thorough: all positions along all axes in 2D
// @outside points within 1e-6 of a cell of a border but not on it (rounding band); more than 3 points
// @opt * weight=1
#include "grid.h"
#include "stdlib.h"
// positions along an axis of N cells: t even: exactly on border t/2-1, t odd: inside cell t/2-1
struct Axis { int N; int n; int t[16]; };
static Axis full(int N) { Axis a; a.N=N; a.n=2*N+5; for (int i=0;i<a.n;++i) a.t[i]=i; return a; }
static Axis some(int N) { Axis a; a.N=N; 
#ifdef VP_THOROUGH
  if (N<=2) return full(N);
#endif
  if (N==1) { a.n=3; a.t[0]=1; a.t[1]=3; a.t[2]=4; } else { a.n=5; a.t[0]=1; a.t[1]=3; a.t[2]=4; a.t[3]=2*N+1; a.t[4]=2*N+2; } return a; }
template<int D,int NPT> void go(const Axis * A,int fix=-1) {
  GV<D> an,s,h,p[NPT]; GN<D> n; for (int k=0;k<D;++k) { an[k]=vp_real_n("a",k,-100,100); s[k]=vp_real_n("s",k,0.25,100); n[k]=A[k].N; h[k]=s[k]/(double)A[k].N; }
  Grid<D> g(an,n,s); i64 lo[3],hi[3]; bool any=false; for (int k=0;k<D;++k) { lo[k]=1000; hi[k]=-1000; }
  i64 l[NPT][3],u[NPT][3]; bool in[NPT];
  for (int q=0;q<NPT;++q) { in[q]=true;
    for (int k=0;k<D;++k) { VpName a=VPN("m",q,k); int w= (q==0&&k==0&&fix>=0) ? fix : (int)vp_pick(a.b,0,A[k].n-1); int t=A[k].t[w]; i64 m=t/2-1; bool off=t&1; double f= off ? vp_real_n("f",q,k,1e-6,1-1e-6) : 0; p[q][k]=an[k]+((double)m+f)*h[k];
      l[q][k]= off? m : m-1; u[q][k]=m; if (m<0 || m>A[k].N || (m==A[k].N&&off)) in[q]=false; }
    any=any|in[q]; }
  for (int q=0;q<NPT;++q) for (int k=0;k<D;++k) { i64 a=l[q][k],b=u[q][k],M=A[k].N-1; if (!in[q]) a=b; // the cell closest to an outside point: the one its coordinate falls in, clipped
      a=a<0?0:a>M?M:a; b=b<0?0:b>M?M:b; if (a<lo[k]) lo[k]=a; if (b>hi[k]) hi[k]=b; }
  std::list<typename Grid<D>::CellIndex> cells;
  if constexpr (NPT==1) cells=g.cells_enclosing(p[0]); else if constexpr (NPT==2) cells=g.cells_enclosing(p[0],GV<D>(p[1])); else cells=g.cells_enclosing(p[0],GV<D>(p[1]),GV<D>(p[2]));
  i64 cnt=0; bool ok=true,dup=false; i64 expect=1; for (int k=0;k<D;++k) expect*=hi[k]-lo[k]+1; if (!any) expect=0;
  unsigned long long seen=0;
  for (auto c : cells) { i64 z=c; bool r=(z>=0); for (int k=0;k<D;++k) { i64 x= k<D-1 ? z%A[k].N : z; z/= k<D-1 ? A[k].N : 1; r=r&(x>=lo[k])&(x<=hi[k]); } ok=ok&r; if (r) { dup=dup|((seen>>c)&1); seen|=1ull<<c; } ++cnt; }
  vp_assert(ok,"every listed cell is in the clipped bounding block of the points"); vp_assert(!dup,"no cell is listed twice"); vp_assert(cnt==expect,"the whole block is listed, and nothing if no point is in the grid");
}
ENTRY(g1) { Axis a=full((int)vp_pick("N",1,5)); go<1,2>(&a); }
#define G13(k) ENTRY(g1_3_##k) { Axis a=full(2); go<1,3>(&a,k); }
G13(0) G13(1) G13(2) G13(3) G13(4) G13(5) G13(6) G13(7) G13(8)
#define G2(k) ENTRY(g2a_##k) { Axis a[2]={full(2),some(2)}; go<2,2>(a,k); } ENTRY(g2b_##k) { Axis a[2]={full(3),some(1)}; go<2,2>(a,k); }
G2(0) G2(1) G2(2) G2(3) G2(4) G2(5) G2(6) G2(7) G2(8)
#define G2B(k) ENTRY(g2c_##k) { Axis a[2]={some(2),full(2)}; go<2,2>(a,k); } 
G2B(0) G2B(1) G2B(2) G2B(3) G2B(4)
#define G2D(k) ENTRY(g2d_##k) { Axis a[2]={some(1),full(3)}; go<2,2>(a,k); }
G2D(0) G2D(1) G2D(2)
#define G3(k) ENTRY(g3a_##k) { Axis a[3]={some(2),some(1),some(1)}; go<3,2>(a,k); } 
G3(0) G3(1) G3(2) G3(3) G3(4)
static Axis two() { Axis a; a.N=1; a.n=2; a.t[0]=3; a.t[1]=4; return a; }
#define G3B(k) ENTRY(g3b_##k) { Axis a[3]={two(),some(2),two()}; go<3,2>(a,k); } ENTRY(g3c_##k) { Axis a[3]={two(),two(),some(2)}; go<3,2>(a,k); } 
G3B(0) G3B(1)
ENTRY(one) { Axis a[2]={full(2),full(3)}; go<2,1>(a); }
