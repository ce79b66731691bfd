// M02: symmetric dyads.
// @bounds all symmetric 3x3 matrices with entries in [-10,10], row- and column-major storage
#include "vp.h"
#include <Caribou/config.h>
#include <Caribou/Algebra/Tensor.h>
static const int I[6]={0,1,2,0,1,0},J[6]={0,1,2,1,2,2};
template<int O> void go() {
  Eigen::Matrix<double,3,3,O> a; for (int i=0;i<3;++i) for (int j=i;j<3;++j) a(i,j)=a(j,i)=vp_real_n("a",i,j,-10,10);
  auto M=caribou::algebra::symmetric_dyad_1(a); auto N=caribou::algebra::symmetric_dyad_2(a);
  for (int p=0;p<6;++p) for (int q=0;q<6;++q) { int i=I[p],j=J[p],k=I[q],l=J[q];
    vp_near(M(p,q),a(i,j)*a(k,l),1e-9,"dyad 1 is a_ij a_kl"); vp_near(N(p,q),0.5*(a(i,k)*a(j,l)+a(i,l)*a(j,k)),1e-9,"dyad 2 is (a_ik a_jl + a_il a_jk)/2");
    vp_near(M(p,q),M(q,p),1e-9,"dyad 1 is symmetric"); vp_near(N(p,q),N(q,p),1e-9,"dyad 2 is symmetric"); }
}
ENTRY(col) { go<Eigen::ColMajor>(); }
ENTRY(row) { go<Eigen::RowMajor>(); }
