#pragma once
#include <sofa/defaulttype/VecTypes.h>
namespace sofa::type {
template<unsigned int L,unsigned int C,class R> struct Mat { using Line=Vec<int(C),R>; Line e[L]; Mat()=default; explicit Mat(R v) { for (auto & l : e) for (unsigned k=0;k<C;++k) l[int(k)]=v; }
  const Line & operator[](int i) const { return e[i]; } Line & operator[](int i) { return e[i]; } const R & operator()(int i,int j) const { return e[i][j]; } R & operator()(int i,int j) { return e[i][j]; } static constexpr int getNbLines() { return int(L); } static constexpr int getNbCols() { return int(C); }
  Mat<C,L,R> transposed() const { Mat<C,L,R> m; for (int i=0;i<int(L);++i) for (int j=0;j<int(C);++j) m(j,i)=e[i][j]; return m; } void transpose() { *this=transposed(); } void clear() { for (auto & l : e) l.clear(); } void identity() { clear(); for (unsigned k=0;k<L;++k) e[k][int(k)]=R(1); }
  template<unsigned int P> Mat<L,P,R> operator*(const Mat<C,P,R> & o) const { Mat<L,P,R> m; for (int i=0;i<int(L);++i) for (int j=0;j<int(P);++j) { R s=e[i][0]*o(0,j); for (int k=1;k<int(C);++k) s+=e[i][k]*o(k,j); m(i,j)=s; } return m; } Vec<int(L),R> operator*(const Line & v) const { Vec<int(L),R> r; for (int i=0;i<int(L);++i) r[i]=e[i]*v; return r; }
  Mat & operator*=(R s) { for (auto & l : e) l*=s; return *this; } Mat & operator/=(R s) { for (auto & l : e) l/=s; return *this; } Mat & operator+=(const Mat & o) { for (unsigned i=0;i<L;++i) e[i]+=o.e[i]; return *this; } Mat & operator-=(const Mat & o) { for (unsigned i=0;i<L;++i) e[i]-=o.e[i]; return *this; }
  Mat operator+(const Mat & o) const { Mat m(*this); m+=o; return m; } Mat operator-(const Mat & o) const { Mat m(*this); m-=o; return m; } Mat operator-() const { Mat m(*this); m*=R(-1); return m; } Mat operator/(R s) const { Mat m(*this); m/=s; return m; } template<class S,class=std::enable_if_t<std::is_arithmetic_v<S>>> Mat operator*(S s) const { Mat m(*this); m*=R(s); return m; } template<class S,class=std::enable_if_t<std::is_arithmetic_v<S>>> friend Mat operator*(S s,const Mat & m) { return m*s; } };
using Mat2x2d=Mat<2,2,double>; using Mat2x2f=Mat<2,2,float>; using Mat3x3d=Mat<3,3,double>; using Mat3x3f=Mat<3,3,float>; using Mat3x3=Mat3x3d; using Mat2x2=Mat2x2d;
}
