// B02: barycentric interpolation reproduces linear fields on embedded points.
// @bounds the container meshes of B01; 2 to 4 embedded points, arbitrary along one or two axes and fixed otherwise, inside and outside; arbitrary nodal fields in [-100,100] with 1, 2 or 3 components (vectors, fixed- and dynamic-size matrices, row- and column-major); affine fields with arbitrary coefficients; every combination of mismatched sizes by one or two rows or columns
// @outside containers with curved or bilinear elements; integer-valued fields
#include "bary.h"
// arbitrary field: the value at an embedded point is the combination, with the shape functions at its local coordinates, of the values at the nodes of its element
template<class F,class G,class C,int N> void field(const C & c,const double (&f)[N][3],const int (&sym)[N],int cols,bool affine) { using El=typename C::El; constexpr int D=C::D; Domain<El> * d; auto * m=make_mesh(c,&d); double p[N][3]; Eigen::Matrix<double,N,D> P; for (int i=0;i<N;++i) for (int k=0;k<D;++k) P(i,k)=p[i][k]= sym[i]>>k&1 ? vp_real_n("p",i,k,c.lo[k],c.hi[k]) : f[i][k];
  auto bc=d->embed(P); F in(C::N,cols); G out(N,cols); double A[3][4]; if (affine) for (int j=0;j<cols;++j) for (int k=0;k<=D;++k) A[j][k]=vp_real_n("a",j,k,-10,10);
  for (int i=0;i<C::N;++i) for (int j=0;j<cols;++j) { if (affine) { double v=A[j][D]; for (int k=0;k<D;++k) v+=A[j][k]*c.X[i][k]; in(i,j)=v; } else in(i,j)=vp_real_n("f",i,j,-100,100); }
  for (int i=0;i<N;++i) for (int j=0;j<cols;++j) out(i,j)=1000+10*i+j;
  bc.interpolate(in,out); const auto & b=bc.barycentric_points();
  for (int i=0;i<N;++i) { if (b[i].element_index<0) { for (int j=0;j<cols;++j) vp_near(out(i,j),1000+10*i+j,0,"points outside are left unchanged"); continue; }
    for (int j=0;j<cols;++j) { if (affine) { double v=A[j][D]; for (int k=0;k<D;++k) v+=A[j][k]*p[i][k]; vp_near(out(i,j),v,1e-3,"affine fields are reproduced"); }
      else for (int e=0;e<C::M;++e) if (b[i].element_index==e) { auto L=d->element(e).L(b[i].local_coordinates); double v=0; for (int n=0;n<NN<El>;++n) v+=L[n]*in(c.c[e][n],j); vp_near(out(i,j),v,1e-6,"value is the combination of the nodal values of the element"); } } }
  for (int i=0;i<C::N;++i) for (int j=0;j<cols;++j) { if (!affine) vp_near(in(i,j),vp_real_n("f",i,j,-100,100),0,"nodal values are not modified"); }
  delete m; }
using Dyn=Eigen::MatrixXd; using Vec=Eigen::VectorXd; using R3=Eigen::Matrix<double,Eigen::Dynamic,3,Eigen::RowMajor>; using C2=Eigen::Matrix<double,Eigen::Dynamic,2>; using RD=Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>;
struct VecN : Vec { VecN(int n,int) : Vec(n) {} double & operator()(int i,int) { return Vec::operator[](i); } };
#define A1 {{0},{9},{0}},{1,0,1}
#define A2 {{0,.25},{2,2.5},{0,1.25}},{1,0,1}
#define A3 {{.25,.25,0},{5,5,5},{0,.25,.25}},{4,0,1}
#define FIELD(n,F,G,C,A,cols) ENTRY(n) { field<F,G,decltype(C),3>(C,A,cols,false); } ENTRY(n##_affine) { field<F,G,decltype(C),3>(C,A,cols,true); }
FIELD(seg1,Dyn,Dyn,SEG1,A1,2) FIELD(seg1q,Dyn,Dyn,SEG1Q,A1,1) FIELD(tri2,R3,R3,TRI2,A2,3) FIELD(tri2gap,RD,RD,TRI2GAP,A2,2) FIELD(tri2q,C2,C2,TRI2Q,A2,2) FIELD(quad2,C2,Dyn,QUAD2,A2,2) FIELD(quad2q,Dyn,C2,QUAD2Q,A2,2) FIELD(tet,R3,R3,TET3,A3,3) FIELD(tetq,Dyn,R3,TETQ,A3,3) FIELD(hex,RD,Dyn,HEX3,A3,3)
FIELD(vec1,VecN,VecN,SEG1,A1,1) FIELD(vec2,VecN,VecN,TRI2,A2,1) FIELD(vec3,VecN,VecN,TET3,A3,1)
// mismatched sizes are refused and nothing is written
template<class C> void mismatch(const C & c) { Domain<typename C::El> * d; auto * m=make_mesh(c,&d); Eigen::Matrix<double,2,C::D> P; for (int k=0;k<C::D;++k) { P(0,k)=.25; P(1,k)=9; } auto bc=d->embed(P); int a=vp_pick("rows_in",-2,2),b=vp_pick("rows_out",-2,2),e=vp_pick("cols_in",1,3),g=vp_pick("cols_out",1,3); Dyn in(C::N+a,e),out(2+b,g); in.setZero(); out.setConstant(7); bool thrown=false; try { bc.interpolate(in,out); } catch (const std::runtime_error &) { thrown=true; } vp_assert(thrown==(a!=0||b!=0||e!=g),"mismatched sizes, and only them, are refused"); if (thrown) for (int i=0;i<2+b;++i) for (int j=0;j<g;++j) vp_near(out(i,j),7,0,"nothing is written when sizes are refused"); delete m; }
ENTRY(sizes2) { mismatch(TRI2); }
ENTRY(sizes3) { mismatch(TET3); }
ENTRY(dims) { Domain<Triangle<_2D,Linear>> * d; auto * m=make_mesh(TRI2,&d); int k=vp_pick("cols",1,4); Dyn P(2,k); P.setZero(); bool thrown=false; try { auto bc=d->embed(P); } catch (const std::runtime_error &) { thrown=true; } vp_assert(thrown==(k!=2),"points of another dimension, and only them, are refused"); delete m; }
