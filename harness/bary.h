// Container meshes used for the embedding properties: concrete connectivity and node positions, symbolic points.
#pragma once
#include "elements.h"
#include "stdlib.h"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/BarycentricContainer.h>
using namespace caribou::topology;
template<class E,int N_,int M_> struct Case { using El=E; static constexpr int N=N_,M=M_,D=(int)E::Dimension; double X[N_][3]; int c[M_][NN<E>]; double lo[3],hi[3]; };
static const Case<Segment<_1D,Linear>,5,4> SEG1={{{-2},{-0.75},{0.5},{0.625},{3}},{{0,1},{2,1},{2,3},{3,4}},{-3},{4}};
static const Case<Segment<_1D,Quadratic>,5,2> SEG1Q={{{-1},{0.5},{2},{-0.25},{1.25}},{{0,1,3},{1,2,4}},{-2},{3}};
static const Case<Triangle<_2D,Linear>,5,4> TRI2={{{-1,-1},{1.5,-0.5},{1,2},{-1.25,1},{0.25,0.375}},{{0,1,4},{1,2,4},{2,3,4},{0,4,3}},{-2,-2},{2,3}};
static const Case<Triangle<_2D,Linear>,6,2> TRI2GAP={{{0,0},{1,0},{0,1},{3,3},{5,3},{3,4}},{{0,1,2},{3,5,4}},{-1,-1},{6,5}};
static const Case<Triangle<_2D,Quadratic>,9,2> TRI2Q={{{0,0},{2,0},{0.5,1.5},{2.5,2},{1,0},{1.25,0.75},{0.25,0.75},{2.25,1},{1.5,1.75}},{{0,1,2,4,5,6},{1,3,2,7,8,5}},{-1,-1},{3,3}};
static const Case<Quad<_2D,Linear>,6,2> QUAD2={{{0,0},{1,0.25},{2.5,0.75},{0.25,1},{1.25,1.25},{2.75,1.75}},{{0,1,4,3},{1,2,5,4}},{-1,-1},{4,3}};
static const Case<Quad<_2D,Quadratic>,8,1> QUAD2Q={{{-1,-1},{1,-0.5},{1.5,1},{-0.5,0.5},{0,-0.75},{1.25,0.25},{0.5,0.75},{-0.75,-0.25}},{{0,1,2,3,4,5,6,7}},{-2,-2},{2,2}};
static const Case<Tetrahedron<Linear>,5,2> TET3={{{0,0,0},{2,0,0.25},{0.25,1.5,0},{0.5,0.5,2},{0.5,0.25,-1}},{{0,1,2,3},{0,2,1,4}},{-1,-1,-2},{3,2,3}};
static const Case<Tetrahedron<Quadratic>,10,1> TETQ={{{0,0,0},{2,0,0.5},{0,1,0},{0.5,0.5,2},{1,0,0.25},{1,0.5,0.25},{0,0.5,0},{0.25,0.25,1},{1.25,0.25,1.25},{0.25,0.75,1}},{{0,1,2,3,4,5,6,7,8,9}},{-1,-1,-1},{3,2,3}};
static const Case<Hexahedron<Linear>,12,2> HEX3={{{0,0,0},{1,0,0},{1.5,1,0},{0.5,1,0},{0,0.25,2},{1,0.25,2},{1.5,1.25,2},{0.5,1.25,2},{2,0,0},{2.5,1,0},{2,0.25,2},{2.5,1.25,2}},{{0,1,2,3,4,5,6,7},{1,8,9,2,5,10,11,6}},{-1,-1,-1},{3,2,3}};
// faces in 3D: points are taken in the plane of the triangles
template<class C> typename caribou::topology::Mesh<C::D> * make_mesh(const C & c,caribou::topology::Domain<typename C::El> ** dom,const double * shift=nullptr) { using M=caribou::topology::Mesh<C::D>; std::vector<typename M::WorldCoordinates> v; for (int i=0;i<C::N;++i) { typename M::WorldCoordinates p; for (int k=0;k<C::D;++k) p[k]=c.X[i][k]+(shift?shift[k]:0); v.push_back(p); } M * m=new M(v); typename caribou::topology::Domain<typename C::El>::ElementsIndices I(C::M,NN<typename C::El>); for (int e=0;e<C::M;++e) for (int j=0;j<NN<typename C::El>;++j) I(e,j)=c.c[e][j]; *dom=m->template add_domain<typename C::El>(std::string("c"),I); return m; }
// local coordinates of p in element e by Cramer's rule on the (affine) element, independent of the library
template<class C> void affine_of(const C & c,int e,double * o,double (*a)[3]) { constexpr int D=C::D; constexpr Shape S=Info<typename C::El>::shape; const auto & I=c.c[e];
  for (int d=0;d<D;++d) { if (S==SEG) { o[d]=(c.X[I[0]][d]+c.X[I[1]][d])/2; a[d][0]=(c.X[I[1]][d]-c.X[I[0]][d])/2; }
    else if (S==TRI||S==TET) { o[d]=c.X[I[0]][d]; for (int k=0;k<cdim_of(S);++k) a[d][k]=c.X[I[k+1]][d]-o[d]; }
    else if (S==QUAD) { o[d]=(c.X[I[0]][d]+c.X[I[2]][d])/2; a[d][0]=(c.X[I[1]][d]-c.X[I[0]][d])/2; a[d][1]=(c.X[I[3]][d]-c.X[I[0]][d])/2; }
    else { o[d]=(c.X[I[0]][d]+c.X[I[6]][d])/2; a[d][0]=(c.X[I[1]][d]-c.X[I[0]][d])/2; a[d][1]=(c.X[I[3]][d]-c.X[I[0]][d])/2; a[d][2]=(c.X[I[4]][d]-c.X[I[0]][d])/2; } }
 }
template<class C> void world_of(const C & c,int e,const double * xi,double * p) { double o[3],a[3][3]; affine_of(c,e,o,a); for (int d=0;d<C::D;++d) { p[d]=o[d]; for (int k=0;k<C::D;++k) p[d]+=a[d][k]*xi[k]; } }
template<class C> void local_of(const C & c,int e,const double * p,double * xi) { constexpr int D=C::D; double o[3],a[3][3]; affine_of(c,e,o,a); double b[3]; for (int d=0;d<D;++d) b[d]=p[d]-o[d];
  if constexpr (D==1) xi[0]=b[0]/a[0][0];
  else if constexpr (D==2) { double t=a[0][0]*a[1][1]-a[0][1]*a[1][0]; xi[0]=(b[0]*a[1][1]-a[0][1]*b[1])/t; xi[1]=(a[0][0]*b[1]-b[0]*a[1][0])/t; }
  else { auto d3=[](double x[3][3]) { return x[0][0]*(x[1][1]*x[2][2]-x[1][2]*x[2][1])-x[0][1]*(x[1][0]*x[2][2]-x[1][2]*x[2][0])+x[0][2]*(x[1][0]*x[2][1]-x[1][1]*x[2][0]); }; double t=d3(a); for (int k=0;k<3;++k) { double m[3][3]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) m[i][j]= j==k ? b[i] : a[i][j]; xi[k]=d3(m)/t; } } }
// smallest distance (in local coordinates) to the border of the canonical element: >=0 inside
inline bool inside(Shape s,const double * x,double m) { bool r=true; if (s==TRI||s==TET) { double t=1; for (int k=0;k<cdim_of(s);++k) { r=r&(x[k]>=m); t-=x[k]; } return r&(t>=m); } for (int k=0;k<cdim_of(s);++k) r=r&(x[k]>=m-1)&(x[k]<=1-m); return r; }
