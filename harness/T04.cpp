// T04: domain connectivity reads back with any storage layout.
// @bounds domains of 0 to 3 elements of 8 element types (2 to 8 nodes; thorough: also 10 and 20 nodes), arbitrary valid node indices in meshes of 4 to 6 nodes with arbitrary positions in 1D, 2D and 3D; index types size_t, int, unsigned int and unsigned short; layouts: copied row-major matrix, copied column-major or mapped expression, external matrix, external buffer with default strides and with row/column strides among row-major with gaps, column-major and interleaved; positions given as row- or column-major matrix, block or strided map
// @outside larger domains; negative strides
#include "vp.h"
#include "stdlib.h"
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
template<class El,class I,int NN> struct T { static constexpr int D=geometry::traits<El>::Dimension, K=geometry::traits<El>::NumberOfNodesAtCompileTime; using M=Mesh<D>; using Dom=Domain<El,I>;
  double X[NN][3]; long long c[3][K]; 
  double pos(long long i,int k) const { for (int j=0;j<NN;++j) if (i==j) return X[j][k]; return 0; }
  template<class P> void check(const Dom & d,const M & m,int n,const P & alt,double shift) const {
    vp_assert(d.mesh()==&m,"mesh"); vp_assert((int)d.number_of_elements()==n,"number of elements"); vp_assert((int)d.number_of_nodes_per_elements()==K,"nodes per element"); vp_assert((int)d.canonical_dimension()==(int)geometry::traits<El>::CanonicalDimension,"canonical dimension");
    for (int e=0;e<n;++e) { auto x=d.element_indices(e); vp_assert(x.size()==K,"number of indices"); for (int j=0;j<K;++j) vp_assert((long long)x[j]==c[e][j],"indices of an element"); El a=d.element(e); El b=d.element(e,alt); for (int j=0;j<K;++j) for (int k=0;k<D;++k) { vp_near(a.node(j)[k],pos(c[e][j],k),0,"element built from the mesh"); vp_near(b.node(j)[k],pos(c[e][j],k)+shift,1e-12,"element built from given positions"); } } }
  void run(int n,int layout) { 
    for (int i=0;i<NN;++i) for (int k=0;k<D;++k) X[i][k]=vp_real_n("X",i,k,-100,100); for (int e=0;e<n;++e) for (int j=0;j<K;++j) { VpName v=VPN("c",e,j); c[e][j]=vp_int(v.b,0,NN-1); }
    std::vector<typename M::WorldCoordinates> v; for (int i=0;i<NN;++i) { typename M::WorldCoordinates p; for (int k=0;k<D;++k) p[k]=X[i][k]; v.push_back(p); } M m(v);
    Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor> alt(NN+2,D+1); for (int i=0;i<NN;++i) for (int k=0;k<D;++k) alt(i+1,k)=X[i][k]+1; auto blk=alt.block(1,0,NN,D);
    typename Dom::ElementsIndices rm(n,K); Eigen::Matrix<I,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor> cm(n,K); for (int e=0;e<n;++e) for (int j=0;j<K;++j) rm(e,j)=cm(e,j)=(I)c[e][j];
    std::vector<I> buf(1+3*(2*K+1)+8,(I)0); Eigen::Index os=K,is=1; if (layout==4) { os=K+3; is=1; } else if (layout==5) { os=1; is=n>0?n:1; } else if (layout==6) { os=2*K+1; is=2; } else if (layout==7) { os=2; is=2*(n>0?n:1)+1; }
    for (int e=0;e<n;++e) for (int j=0;j<K;++j) { std::size_t at=1+e*os+j*is; if (at>=buf.size()) buf.resize(at+1); buf[at]=(I)c[e][j]; } const I * p=buf.data()+1; const typename Dom::ElementsIndices * q=&rm;
    Dom * d; std::string nm("d");
    if (layout==0) { d=m.template add_domain<El,I>(nm,rm); for (int e=0;e<n;++e) for (int j=0;j<K;++j) rm(e,j)=0; }
    else if (layout==1) { d=m.template add_domain<El,I>(nm,cm); for (int e=0;e<n;++e) for (int j=0;j<K;++j) cm(e,j)=0; }
    else if (layout==2) d=m.template add_domain<El,I>(nm,q);
    else if (layout==3) d=m.template add_domain<El,I>(nm,p,(Eigen::Index)n,(Eigen::Index)K);
    else d=m.template add_domain<El,I>(p,(Eigen::Index)n,(Eigen::Index)K,os,is);
    check(*d,m,n,blk,1); }
  void all(int lo,int hi) { int n=vp_pick("n",lo,hi),l=vp_pick("layout",0,7); run(n,l); }
};
ENTRY(segment1) { T<Segment<1,Linear>,std::size_t,4> t; t.all(0,3); }
ENTRY(segment2) { T<Segment<2,Quadratic>,int,4> t; t.all(0,3); }
ENTRY(triangle2) { T<Triangle<2,Linear>,unsigned short,4> t; t.all(0,2); }
ENTRY(triangle3) { T<Triangle<3,Linear>,std::size_t,5> t; t.all(0,2); }
ENTRY(quad3) { T<Quad<3,Linear>,unsigned int,5> t; t.all(1,2); }
ENTRY(tetra) { T<Tetrahedron<Linear>,int,6> t; t.all(1,2); }
ENTRY(triangle6) { T<Triangle<2,Quadratic>,unsigned int,4> t; t.all(1,1); }
#ifdef VP_THOROUGH
ENTRY(tetra10) { T<Tetrahedron<Quadratic>,std::size_t,4> t; t.all(1,2); }
ENTRY(hexa) { T<Hexahedron<Linear>,int,4> t; t.all(1,2); }
ENTRY(hexa20) { T<Hexahedron<Quadratic>,int,4> t; t.all(1,1); }
#else
ENTRY(hexa) { T<Hexahedron<Linear>,int,4> t; t.all(1,1); }
#endif
