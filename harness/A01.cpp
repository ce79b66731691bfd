// A01: the SOFA matrix wrapper behaves as the dense matrix its history of operations describes.
// @bounds sparse (column- and row-major) and dense matrices of 2x3 to 4x4 entries, by value and by reference: histories of accumulation (0 or 5 triplets with a duplicate), optional compress, one or two late set/add at every position, every clear operation at every index or range, further add/set; 2x2 and 3x3 blocks at every position; resize and clear; vectors of 1 to 4 entries. Entry values are any reals in [-100,100]
// @outside other sizes and longer histories; single precision blocks; behaviour of element() before the first compress/set (documented as undefined)
// @flags -I$VERIF/harness/stub
// @opt * garbage=true
#include "vp.h"
#include <cstring>
#include <Caribou/config.h>
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
using SofaCaribou::Algebra::EigenMatrix;
struct Ref { int R,C; double v[4][4]; Ref(int r,int c) : R(r),C(c) { zero(); } void zero() { for (auto & a : v) for (auto & x : a) x=0; } };
template<class W> void same(W & w,const Ref & r,const char * l) { vp_assert(w.rowSize()==r.R&&w.colSize()==r.C,"dimensions"); for (int i=0;i<r.R;++i) for (int j=0;j<r.C;++j) vp_near(w.element(i,j),r.v[i][j],1e-9,l); }
template<class W> void clear_op(W & w,Ref & r,int op) { int a=(int)vp_pick("a",0,r.R-1),b=a; if (op==1||op==3) b=(int)vp_pick("b",a,r.R-1);
  switch (op) { case 0: w.clearRow(a); break; case 1: w.clearRows(a,b); break; case 2: w.clearCol(a); break; case 3: w.clearCols(a,b); break; case 4: w.clearRowCol(a); break; }
  for (int i=0;i<r.R;++i) for (int j=0;j<r.C;++j) { bool in; if (op<=1) in=(i>=a&&i<=b); else if (op<=3) in=(j>=a&&j<=b); else in=(i==a||j==a); if (in) r.v[i][j]=0; } }
// initial accumulation (duplicates are summed), then late modifications that may create new entries, then a clear
template<class W> void late_op(W & w,Ref & r,const char * t,int kind) { VpName a=VPN(t,0),b=VPN(t,1),c=VPN(t,2); int i=(int)vp_pick(a.b,0,r.R-1),j=(int)vp_pick(b.b,0,r.C-1); double x=vp_real(c.b,-100,100); if (kind==1) { w.set(i,j,x); r.v[i][j]=x; } else { w.compress(); w.add(i,j,x); r.v[i][j]+=x; } }
template<class W> void history(W & w,int op,int late,int n0) { Ref r(3,3); const int P[5][2]={{0,1},{2,0},{1,1},{0,1},{2,2}};
  for (int k=0;k<n0;++k) { double x=vp_real_n("t",k,-100,100); w.add(P[k][0],P[k][1],x); r.v[P[k][0]][P[k][1]]+=x; }
  if (vp_pick("compress",0,1)) w.compress();
  if (late) { late_op(w,r,"p",late); if (n0==0) late_op(w,r,"q",3-late); same(w,r,"after a late modification"); }
  if (op>=0) { clear_op(w,r,op); same(w,r,"after a clear operation"); }
  w.add(0,2,1.5); r.v[0][2]+=1.5; w.set(1,2,-2.5); r.v[1][2]=-2.5; w.compress(); same(w,r,"after further modifications"); }
using SC=Eigen::SparseMatrix<double,Eigen::ColMajor>; using SR=Eigen::SparseMatrix<double,Eigen::RowMajor>; using DM=Eigen::Matrix<double,-1,-1>; using DR=Eigen::Matrix<double,-1,-1,Eigen::RowMajor>;
template<class S> void val(int op,int late,int n0) { EigenMatrix<S> w(3,3); history(w,op,late,n0); }
#define OPS(n,op) ENTRY(col_##n) { val<SC>(op,0,5); } ENTRY(row_##n) { val<SR>(op,0,5); } ENTRY(col_set_##n) { val<SC>(op,1,5); } ENTRY(row_set_##n) { val<SR>(op,1,5); } ENTRY(col_add_##n) { val<SC>(op,2,5); } ENTRY(row_add_##n) { val<SR>(op,2,5); } \
 ENTRY(col_empty_##n) { val<SC>(op,1,0); } ENTRY(row_empty_##n) { val<SR>(op,1,0); }
OPS(clearRow,0) OPS(clearRows,1) OPS(clearCol,2) OPS(clearCols,3) OPS(clearRowCol,4)
// a symmetric matrix, declared so: the optimised clearRowCol gives the same result
template<class S> void symm(bool late) { EigenMatrix<S> w(4,4); w.set_symmetric(true); vp_assert(w.symmetric(),"declared symmetric"); Ref r(4,4); const int P[5][2]={{0,1},{2,0},{1,1},{3,2},{3,3}};
  for (int k=0;k<5;++k) { double x=vp_real_n("t",k,-100,100); int i=P[k][0],j=P[k][1]; w.add(i,j,x); r.v[i][j]+=x; if (i!=j) { w.add(j,i,x); r.v[j][i]+=x; } }
  if (vp_pick("compress",0,1)) w.compress();
  if (late) { int i=(int)vp_pick("i",0,3),j=(int)vp_pick("j",0,3); double x=vp_real("late",-100,100); w.set(i,j,x); w.set(j,i,x); r.v[i][j]=r.v[j][i]=x; }
  clear_op(w,r,4); same(w,r,"clearRowCol of a symmetric matrix"); }
ENTRY(sym_col) { symm<SC>(false); } ENTRY(sym_row) { symm<SR>(false); } ENTRY(sym_col_late) { symm<SC>(true); } ENTRY(sym_row_late) { symm<SR>(true); }
// rectangular matrices, blocks, resize and clear
template<class M,class W> void block(W & w,Ref & r,int n,const char * t) { M m; VpName a=VPN(t,7),b=VPN(t,8); int i=(int)vp_pick(a.b,0,r.R-n),j=(int)vp_pick(b.b,0,r.C-n); for (int k=0;k<n;++k) for (int l=0;l<n;++l) { double x=vp_real_n(t,k,l,-100,100); m[k][l]=x; r.v[i+k][j+l]+=x; } w.add(i,j,m); }
template<class W> void blocks(W & w,bool sparse) { Ref r(3,4); if (!sparse) w.clear(); w.add(1,3,2.0); r.v[1][3]+=2; if (vp_pick("first",0,1)) w.compress(); if (vp_pick("b3",0,1)) block<sofa::type::Mat3x3d>(w,r,3,"m3"); else block<sofa::type::Mat2x2d>(w,r,2,"m2"); w.compress(); same(w,r,"after a block addition");
  if (vp_pick("b3b",0,1)) block<sofa::type::Mat3x3d>(w,r,3,"n3"); else block<sofa::type::Mat2x2d>(w,r,2,"n2"); same(w,r,"after a second block addition");
  if (vp_pick("resize",0,1)) { w.resize(2,3); r=Ref(2,3); } else { w.clear(); r.zero(); }
  w.add(1,2,3.0); w.add(1,2,0.5); r.v[1][2]=3.5; w.compress(); same(w,r,"after resize or clear"); }
ENTRY(blocks_col) { EigenMatrix<SC> w(3,4); blocks(w,true); } ENTRY(blocks_row) { EigenMatrix<SR> w(3,4); blocks(w,true); }
ENTRY(blocks_dense) { EigenMatrix<DM> w(3,4); blocks(w,false); } ENTRY(blocks_dense_row) { EigenMatrix<DR> w(3,4); blocks(w,false); }
// dense matrices
template<class D> void dense(int op) { EigenMatrix<D> w(3,3); w.resize(3,3); history(w,op,1,5); }
ENTRY(dense_clearRow) { dense<DM>(0); } ENTRY(dense_clearRows) { dense<DM>(1); } ENTRY(dense_clearCol) { dense<DM>(2); } ENTRY(dense_clearCols) { dense<DM>(3); } ENTRY(dense_clearRowCol) { dense<DM>(4); } ENTRY(dense_row_clearRows) { dense<DR>(1); } ENTRY(dense_row_clearCols) { dense<DR>(3); }
// by reference the wrapped matrix follows, by value it stays as it was
ENTRY(sparse_reference) { SC m(3,3); EigenMatrix<SC&> w(m); history(w,(int)vp_pick("op",0,4),1,5); for (int i=0;i<3;++i) for (int j=0;j<3;++j) vp_near(m.coeff(i,j),w.element(i,j),0,"the referenced matrix follows"); }
ENTRY(dense_reference) { DM m=DM::Zero(3,3); EigenMatrix<DM&> w(m); history(w,(int)vp_pick("op",0,4),1,5); for (int i=0;i<3;++i) for (int j=0;j<3;++j) vp_near(m(i,j),w.element(i,j),0,"the referenced matrix follows"); }
ENTRY(dense_copy) { DM m(2,2); double v[4]; for (int k=0;k<4;++k) { v[k]=vp_real_n("v",k,-100,100); m(k/2,k%2)=v[k]; } EigenMatrix<DM> w(m); int i=(int)vp_pick("i",0,1),j=(int)vp_pick("j",0,1); double x=vp_real("x",-100,100); w.add(i,j,x); for (int k=0;k<4;++k) { vp_near(m(k/2,k%2),v[k],0,"the copied matrix is left alone"); vp_near(w.element(k/2,k%2),v[k]+(k/2==i&&k%2==j ? x : 0),1e-9,"the wrapper holds the copied values"); } }
// vectors
using DV=Eigen::Matrix<double,-1,1>; using SofaCaribou::Algebra::EigenVector;
template<class W> void vec(W & w) { double r[4]={0,0,0,0}; w.resize(3); for (int k=0;k<3;++k) vp_near(w.element(k),0,0,"resize resets"); int i=(int)vp_pick("i",0,2),j=(int)vp_pick("j",0,2); double a=vp_real("a",-100,100),b=vp_real("b",-100,100); w.set(i,a); r[i]=a; w.add(j,b); r[j]+=b; vp_assert(w.size()==3,"size"); for (int k=0;k<3;++k) { vp_near(w.element(k),r[k],1e-9,"after set and add"); vp_near(w.vector()[k],r[k],1e-9,"the Eigen vector"); }
  if (vp_pick("clear",0,1)) w.clear(); else { int n=(int)vp_pick("n",1,4); w.resize(n); vp_assert(w.size()==n,"size"); } for (int k=0;k<w.size();++k) vp_near(w.element(k),0,0,"clear and resize reset"); }
ENTRY(vector) { EigenVector<DV> w(2); vec(w); } ENTRY(vector_reference) { DV v(2); EigenVector<DV&> w(v); vec(w); for (int k=0;k<w.size();++k) vp_near(v[k],w.element(k),0,"the referenced vector follows"); }
