// V01: import of VTK unstructured grids (VTK itself replaced by stand-ins with its documented contracts).
// @flags -I$VERIF/harness/stub/vtk
// @bounds the ten supported cell types and unsupported ones, up to 5 cells of several types in any listed mixture with arbitrary point ids below 2^31 (geometry: ids below the number of points), up to 4 points with arbitrary coordinates; 1D, 2D and 3D; three index types; empty grids; missing files
// @outside parsing of the file by VTK; larger grids; cells of one type with different numbers of points; print()
// @opt H_axes1 select=fork
// @opt H_axes2 select=fork
#include "elements.h"
#include "stdlib.h"
#include <stdexcept>
#include <Caribou/Topology/IO/VTKReader.cpp>
using namespace caribou::topology; using io::VTKReader; typedef long long i64;
VpGrid vp_grid; bool vp_file_exists=true;
static double PX[4][3]; static VpCell CE[5];
static const int LIN[]={VTK_LINE,VTK_QUADRATIC_EDGE,VTK_QUAD,VTK_QUADRATIC_QUAD,VTK_TRIANGLE,VTK_QUADRATIC_TRIANGLE,VTK_TETRA,VTK_QUADRATIC_TETRA,VTK_HEXAHEDRON,VTK_QUADRATIC_HEXAHEDRON};
static int points_of(int t) { switch (t) { case VTK_LINE: return 2; case VTK_QUADRATIC_EDGE: return 3; case VTK_QUAD: return 4; case VTK_QUADRATIC_QUAD: return 8; case VTK_TRIANGLE: return 3; case VTK_QUADRATIC_TRIANGLE: return 6; case VTK_TETRA: return 4; case VTK_QUADRATIC_TETRA: return 10; case VTK_HEXAHEDRON: return 8; case VTK_QUADRATIC_HEXAHEDRON: return 20; case VTK_WEDGE: return 6; case VTK_VERTEX: return 1; default: return 5; } }
static int dim_of(int t) { switch (t) { case VTK_LINE: case VTK_QUADRATIC_EDGE: return 1; case VTK_QUAD: case VTK_QUADRATIC_QUAD: case VTK_TRIANGLE: case VTK_QUADRATIC_TRIANGLE: return 2; case VTK_TETRA: case VTK_QUADRATIC_TETRA: case VTK_HEXAHEDRON: case VTK_QUADRATIC_HEXAHEDRON: return 3; default: return 9; } }
// the order of the points of a VTK quadratic hexahedron is the order of the nodes of Hexahedron<Quadratic>
static void grid(int np,int nc) { vp_grid.np=np; vp_grid.nc=nc; vp_grid.x=PX; vp_grid.cell=CE; }
static void cells(const int * types,int nc) { for (int i=0;i<nc;++i) { CE[i].type=types[i]; CE[i].n=points_of(types[i]); for (int k=0;k<CE[i].n;++k) { VpName n=VPN("id",i,k); CE[i].pt[k]=vp_int(n.b,0,2147483647); } } }
template<int D,class N> const BaseDomain * dom(const Mesh<D> & m,int i) { return m.domain((std::size_t)i); }
template<class E,class N,class D> void same(const D * d,int type,bool geometry) { auto * t=dynamic_cast<const Domain<E,N>*>(d); vp_assert(t!=nullptr,"domain of the matching element type"); if (!t) return; i64 e=0; for (int i=0;i<vp_grid.nc;++i) if (CE[i].type==type) { if (e<(i64)t->number_of_elements()) { auto ix=t->element_indices((unsigned)e); bool ok=(i64)ix.size()==CE[i].n; vp_assert(ok,"number of nodes of an element"); if (ok) for (int k=0;k<CE[i].n;++k) vp_assert((i64)ix[k]==CE[i].pt[k],"i-th node of the element is the i-th point of the cell"); 
    if (geometry) { auto el=t->element((unsigned)e); for (int k=0;k<CE[i].n;++k) for (int a=0;a<(int)E::Dimension;++a) vp_near(el.node(k)[a],PX[CE[i].pt[k]][a],0,"position of the element node"); } } ++e; } vp_assert(e==(i64)t->number_of_elements(),"one element per cell"); }
template<int D,class N> void domains(const Mesh<D> & m,bool geometry=false) { int k=0; for (int i=0;i<vp_grid.nc;++i) { int t=CE[i].type; bool first=true; for (int j=0;j<i;++j) if (CE[j].type==t) first=false; if (!first||dim_of(t)>D) continue;
    if (k<(int)m.number_of_domains()) { auto l=m.domains(); const BaseDomain * d=l[k].second; vp_assert(l[k].first==std::string("domain_")+char('1'+k),"name of the domain");
      switch (t) { case VTK_LINE: same<Segment<D,Linear>,N>(d,t,geometry); break; case VTK_QUADRATIC_EDGE: same<Segment<D,Quadratic>,N>(d,t,geometry); break; default: break; }
      if constexpr (D>1) switch (t) { case VTK_QUAD: same<Quad<D,Linear>,N>(d,t,geometry); break; case VTK_QUADRATIC_QUAD: same<Quad<D,Quadratic>,N>(d,t,geometry); break; case VTK_TRIANGLE: same<Triangle<D,Linear>,N>(d,t,geometry); break; case VTK_QUADRATIC_TRIANGLE: same<Triangle<D,Quadratic>,N>(d,t,geometry); break; default: break; }
      if constexpr (D>2) switch (t) { case VTK_TETRA: same<Tetrahedron<Linear>,N>(d,t,geometry); break; case VTK_QUADRATIC_TETRA: same<Tetrahedron<Quadratic>,N>(d,t,geometry); break; case VTK_HEXAHEDRON: same<Hexahedron<Linear>,N>(d,t,geometry); break; case VTK_QUADRATIC_HEXAHEDRON: same<Hexahedron<Quadratic>,N>(d,t,geometry); break; default: break; } }
    ++k; } vp_assert((int)m.number_of_domains()==k,"one domain per supported cell type"); }
// distinct points so that every axis varies up to dimension D
static void plain(int D) { for (int i=0;i<4;++i) for (int k=0;k<3;++k) PX[i][k]= k<D ? i*(k+1)+.5*k : 0; }
template<int D,class N> void types(const int * t,int nc) { plain(D); cells(t,nc); grid(4,nc); auto r=VTKReader<D,N>::Read("f.vtk"); auto m=r.mesh(); vp_assert(m.number_of_nodes()==4,"number of nodes"); domains<D,N>(m); }
#define TY(n,D,N,...) ENTRY(n) { static const int t[]={__VA_ARGS__}; types<D,N>(t,sizeof(t)/sizeof(t[0])); }
using U=unsigned int; using UL=unsigned long; using ULL=unsigned long long;
TY(lines1,1,ULL,VTK_LINE,VTK_QUADRATIC_EDGE,VTK_LINE,VTK_TRIANGLE,VTK_QUADRATIC_EDGE)
TY(faces2,2,ULL,VTK_QUAD,VTK_TRIANGLE,VTK_QUAD,VTK_TRIANGLE,VTK_LINE)
TY(faces2q,2,UL,VTK_QUADRATIC_TRIANGLE,VTK_QUADRATIC_QUAD,VTK_WEDGE,VTK_QUADRATIC_EDGE,VTK_QUADRATIC_QUAD)
TY(faces3,3,U,VTK_TRIANGLE,VTK_QUADRATIC_QUAD,VTK_QUAD,VTK_QUADRATIC_TRIANGLE,VTK_QUAD)
TY(solids,3,ULL,VTK_TETRA,VTK_HEXAHEDRON,VTK_TETRA,VTK_VERTEX,VTK_HEXAHEDRON)
TY(solidsq,3,ULL,VTK_QUADRATIC_TETRA,VTK_LINE,VTK_PYRAMID,VTK_QUADRATIC_EDGE,VTK_QUADRATIC_TETRA)
TY(none,3,ULL,VTK_WEDGE,VTK_VERTEX)
TY(quadratic_hexahedron,3,ULL,VTK_QUADRATIC_HEXAHEDRON,VTK_QUADRATIC_HEXAHEDRON)
// whatever the order of the mid-edge points, every corner stays and the same mid-edge points are used
static const int FILE_ORDER[20]={0,1,2,3,4,5,6,7,8,9,18,11,10,14,15,12,13,16,19,17};
ENTRY(quadratic_hexahedron_file) { static const int t[]={VTK_QUADRATIC_HEXAHEDRON,VTK_LINE,VTK_QUADRATIC_HEXAHEDRON}; plain(3); cells(t,3); grid(4,3); auto m=VTKReader<3,U>::Read("f.vtk").mesh(); vp_assert(m.number_of_domains()==2,"two domains"); auto * d=dynamic_cast<const Domain<Hexahedron<Quadratic>,U>*>(m.domain(0)); vp_assert(d!=nullptr&&d->number_of_elements()==2,"domain of quadratic hexahedra"); if (!d) return;
  bool vtk=true,file=true; for (int e=0;e<2;++e) { auto ix=d->element_indices(e); for (int k=0;k<20;++k) { vtk=vtk&((i64)ix[k]==CE[2*e].pt[k]); file=file&((i64)ix[k]==CE[2*e].pt[FILE_ORDER[k]]); } } vp_assert(vtk|file,"nodes of a quadratic hexahedron are in VTK order or in the known order of the test mesh"); }
// points and axes
template<int D> void axes() { for (int i=0;i<3;++i) for (int k=0;k<3;++k) PX[i][k]=vp_real_n("x",i,k,-100,100); int np=3; static const int t[]={VTK_LINE}; CE[0]={VTK_LINE,2,{2,0}}; grid(np,1); bool thrown=false;
  try { auto m=VTKReader<D,ULL>::Read("f.vtk").mesh(); bool v[3]; int ax[3],n=0; for (int k=0;k<3;++k) { v[k]=PX[1][k]!=PX[0][k]||PX[2][k]!=PX[0][k]; if (D==3||v[k]) ax[n++]=k; } vp_assert(n==D,"only grids with as many varying axes are read"); vp_assert(m.number_of_nodes()==3,"number of nodes"); if (n==D) { for (int i=0;i<3;++i) { auto p=m.position(i); for (int k=0;k<D;++k) vp_near(p[k],PX[i][ax[k]],0,"position along the varying axes in order"); } auto * d=dynamic_cast<const Domain<Segment<D,Linear>,ULL>*>(m.domain(0)); vp_assert(d!=nullptr,"domain of segments"); if (d) { auto e=d->element(0); for (int k=0;k<D;++k) { vp_near(e.node(0)[k],PX[2][ax[k]],0,"first node of the element"); vp_near(e.node(1)[k],PX[0][ax[k]],0,"second node of the element"); } } } vp_reach("read"); }
  catch (const std::runtime_error &) { thrown=true; }
  if (thrown) { int n=0; for (int k=0;k<3;++k) n+=PX[1][k]!=PX[0][k]||PX[2][k]!=PX[0][k]; vp_assert(D!=3&&n!=D,"a grid with as many varying axes as dimensions is read"); } }
ENTRY(axes1) { axes<1>(); }
ENTRY(axes2) { axes<2>(); }
ENTRY(axes3) { axes<3>(); }
template<int D> void empty() { grid(0,0); auto m=VTKReader<D,ULL>::Read("f.vtk").mesh(); vp_assert(m.number_of_nodes()==0&&m.number_of_domains()==0,"an empty grid gives an empty mesh"); }
ENTRY(empty1) { empty<1>(); }
ENTRY(empty2) { empty<2>(); }
ENTRY(empty3) { empty<3>(); }
ENTRY(missing) { grid(0,0); vp_file_exists=false; bool thrown=false; try { auto r=VTKReader<3,ULL>::Read("f.vtk"); } catch (const std::invalid_argument &) { thrown=true; } vp_file_exists=true; vp_assert(thrown,"a missing file is refused"); }
