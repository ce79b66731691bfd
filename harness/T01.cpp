// T01: a mesh returns the positions it was given.
// @bounds meshes of 0 to 4 nodes in 1D, 2D and 3D with arbitrary positions in [-1000,1000], built from std::vector, dynamic and fixed-size Eigen matrices (row- and column-major), strided maps, blocks and expressions; index lists of up to 3 arbitrary valid indices (with repetitions) as C array, std::array, std::vector and Eigen vectors of signed and unsigned integers
// @outside node containers other than the default and those deduced by the deduction guides
#include "vp.h"
#include "stdlib.h"
#include <array>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
using namespace caribou; using namespace caribou::topology;
template<class M,int D> void check(const M & m,const double X[][3],int n,bool gather=true) {
  vp_assert((int)m.number_of_nodes()==n,"number of nodes"); vp_assert((int)m.dimension()==D,"dimension"); vp_assert(m.number_of_domains()==0,"no domain");
  for (int i=0;i<n;++i) { auto p=m.position(i); for (int k=0;k<D;++k) vp_near(p[k],X[i][k],0,"position is the given one"); Eigen::Vector3d v=static_cast<const BaseMesh&>(m).node(i); for (int k=0;k<3;++k) vp_near(v[k],k<D?X[i][k]:0,0,"3D view of a node is padded with zeros"); }
  if (!gather || n==0) return;
  long long a[3]; for (int j=0;j<3;++j) a[j]=vp_pick(j==0?"i0":j==1?"i1":"i2",0,n-1);
  int c[3]={(int)a[0],(int)a[1],(int)a[2]}; std::array<unsigned long long,3> ar{{(unsigned long long)a[0],(unsigned long long)a[1],(unsigned long long)a[2]}}; std::vector<int> v(c,c+3); Eigen::Matrix<int,3,1> e(c[0],c[1],c[2]); Eigen::Matrix<long,1,Eigen::Dynamic> r(3); r<<a[0],a[1],a[2]; Eigen::VectorXi d(3); d<<c[0],c[1],c[2];
  auto P=m.positions(c); auto Pa=m.positions(ar); auto Pv=m.positions(v); auto Pe=m.positions(e); auto Pr=m.positions(r); auto Pd=m.positions(d);
  vp_assert(P.rows()==3&&Pa.rows()==3&&Pv.rows()==3&&Pe.rows()==3&&Pr.rows()==3&&Pd.rows()==3,"one row per index"); vp_assert(P.cols()==D&&Pa.cols()==D&&Pv.cols()==D&&Pe.cols()==D&&Pr.cols()==D&&Pd.cols()==D,"one column per axis");
  for (int j=0;j<3;++j) for (int k=0;k<D;++k) { double x=X[a[j]][k]; vp_near(P(j,k),x,0,"positions gathered from a C array"); vp_near(Pa(j,k),x,0,"positions gathered from a std::array"); vp_near(Pv(j,k),x,0,"positions gathered from a std::vector"); vp_near(Pe(j,k),x,0,"positions gathered from a fixed-size vector"); vp_near(Pr(j,k),x,0,"positions gathered from a row vector"); vp_near(Pd(j,k),x,0,"positions gathered from a dynamic vector"); }
  std::vector<int> none; vp_assert(m.positions(none).rows()==0,"no index, no position");
}
static void fill(double X[][3],int n,int D) { for (int i=0;i<n;++i) for (int k=0;k<D;++k) X[i][k]=vp_real_n("X",i,k,-1000,1000); }
template<int D> void from_vector() { double X[4][3]; int n=vp_pick("n",0,4); fill(X,n,D); std::vector<typename Mesh<D>::WorldCoordinates> v; for (int i=0;i<n;++i) { typename Mesh<D>::WorldCoordinates p; for (int k=0;k<D;++k) p[k]=X[i][k]; v.push_back(p); } Mesh<D> m(v); v.clear(); check<Mesh<D>,D>(m,X,n); }
template<int D> void from_matrix() { double X[4][3]; int n=vp_pick("n",0,4); fill(X,n,D);
  Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor> r(n,D); Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor> c(n,D); for (int i=0;i<n;++i) for (int k=0;k<D;++k) r(i,k)=c(i,k)=X[i][k];
  Mesh<D> mr(r), mc(c); Mesh<D> me(2*c); for (int i=0;i<n;++i) for (int k=0;k<D;++k) r(i,k)=c(i,k)=-1; check<Mesh<D>,D>(mr,X,n); check<Mesh<D>,D>(mc,X,n,false);
  double Y[4][3]; for (int i=0;i<n;++i) for (int k=0;k<D;++k) Y[i][k]=2*X[i][k]; check<Mesh<D>,D>(me,Y,n,false); }
template<int D> void from_other() { double X[4][3]; fill(X,4,D);
  Eigen::Matrix<double,4,D,D==1?Eigen::ColMajor:Eigen::RowMajor> f; Eigen::Matrix<double,Eigen::Dynamic,D,Eigen::ColMajor> c(4,D); Eigen::Matrix<double,6,5> big; big.setZero(); double buf[64]; for (int i=0;i<64;++i) buf[i]=-7;
  for (int i=0;i<4;++i) for (int k=0;k<D;++k) { f(i,k)=c(i,k)=X[i][k]; big(i+1,k+2)=X[i][k]; buf[i*7+k*2]=X[i][k]; }
  Mesh<D> mf(f), mc(c), mb(big.template block<4,D>(1,2)); Eigen::Map<Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>,Eigen::Unaligned,Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic>> map(buf,4,D,{7,2}); Mesh<D> mm(map);
  Mesh dg(f); for (int i=0;i<4;++i) for (int k=0;k<D;++k) f(i,k)=0;
  check<Mesh<D>,D>(mf,X,4); check<Mesh<D>,D>(mc,X,4,false); check<Mesh<D>,D>(mb,X,4,false); check<Mesh<D>,D>(mm,X,4,false); check<decltype(dg),D>(dg,X,4,false); }
#define E(D) ENTRY(vector##D) { from_vector<D>(); } ENTRY(matrix##D) { from_matrix<D>(); } ENTRY(other##D) { from_other<D>(); }
E(1) E(2) E(3)
ENTRY(empty) { Mesh<3> m; vp_assert(m.number_of_nodes()==0,"an empty mesh has no node"); vp_assert(m.number_of_domains()==0,"an empty mesh has no domain"); }
