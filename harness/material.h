// Hyperelastic materials of SofaCaribou instantiated with dual numbers: the derivative of the real code, exactly.
#pragma once
#include "vp.h"
#include <cmath>
struct Dual { double v,d; Dual(double a=0,double b=0) : v(a),d(b) {}
  Dual & operator+=(const Dual & o) { v+=o.v; d+=o.d; return *this; } Dual & operator-=(const Dual & o) { v-=o.v; d-=o.d; return *this; } Dual & operator*=(const Dual & o) { d=d*o.v+v*o.d; v*=o.v; return *this; } Dual & operator/=(const Dual & o) { d=(d*o.v-v*o.d)/(o.v*o.v); v/=o.v; return *this; } };
inline Dual operator+(Dual a,const Dual & b) { return a+=b; } inline Dual operator-(Dual a,const Dual & b) { return a-=b; } inline Dual operator*(Dual a,const Dual & b) { return a*=b; } inline Dual operator/(Dual a,const Dual & b) { return a/=b; } inline Dual operator-(const Dual & a) { return Dual(-a.v,-a.d); } inline Dual operator+(const Dual & a) { return a; }
inline bool operator==(const Dual & a,const Dual & b) { return a.v==b.v; } inline bool operator!=(const Dual & a,const Dual & b) { return a.v!=b.v; } inline bool operator<(const Dual & a,const Dual & b) { return a.v<b.v; } inline bool operator>(const Dual & a,const Dual & b) { return a.v>b.v; } inline bool operator<=(const Dual & a,const Dual & b) { return a.v<=b.v; } inline bool operator>=(const Dual & a,const Dual & b) { return a.v>=b.v; }
inline Dual log(const Dual & a) { return Dual(std::log(a.v),a.d/a.v); } inline Dual sqrt(const Dual & a) { double s=std::sqrt(a.v); return Dual(s,a.d/(2*s)); } inline Dual abs(const Dual & a) { return a.v<0?-a:a; } inline Dual abs2(const Dual & a) { return a*a; } inline Dual conj(const Dual & a) { return a; } inline Dual real(const Dual & a) { return a; } inline Dual imag(const Dual &) { return Dual(0); } inline Dual pow(const Dual & a,int n) { Dual r(1); for (int i=0;i<(n<0?-n:n);++i) r*=a; return n<0?Dual(1)/r:r; }
namespace std { inline Dual log(const Dual & a) { return ::log(a); } inline Dual sqrt(const Dual & a) { return ::sqrt(a); } inline Dual abs(const Dual & a) { return ::abs(a); } inline Dual pow(const Dual & a,int n) { return ::pow(a,n); } }
#include <Eigen/Core>
namespace Eigen { template<> struct NumTraits<Dual> : NumTraits<double> { using Real=Dual; using NonInteger=Dual; using Nested=Dual; using Literal=Dual; enum { IsComplex=0,IsInteger=0,IsSigned=1,RequireInitialization=1,ReadCost=2,AddCost=2,MulCost=6 }; };
 template<class Op> struct ScalarBinaryOpTraits<Dual,double,Op> { using ReturnType=Dual; }; template<class Op> struct ScalarBinaryOpTraits<double,Dual,Op> { using ReturnType=Dual; }; }
#include <Caribou/config.h>
#include <sofa/defaulttype/VecTypes.h>
#include <Eigen/Dense>
static const int VI[6]={0,1,2,0,1,0},VJ[6]={0,1,2,1,2,2};
using T3=sofa::defaulttype::VecTypes_<3,double>; using D3=sofa::defaulttype::VecTypes_<3,Dual>;
// C = U^T U with U upper triangular: every symmetric positive-definite C; its derivative dC: every symmetric direction
struct Strain { Eigen::Matrix<double,3,3> C; Eigen::Matrix<Dual,3,3> Cd; double J; Dual Jd; double dC[3][3]; };
inline Strain sym_strain() { Strain s; Dual U[3][3]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) if (j>=i) U[i][j]=Dual(i==j?vp_real_n("U",i,j,0.25,4):vp_real_n("U",i,j,-2,2),vp_real_n("dU",i,j,-1,1)); else U[i][j]=Dual(0);
  s.Jd=U[0][0]*U[1][1]*U[2][2]; s.J=s.Jd.v; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { Dual a(0); for (int k=0;k<3;++k) a+=U[k][i]*U[k][j]; s.Cd(i,j)=a; s.C(i,j)=a.v; s.dC[i][j]=a.d; } return s; }
template<template<class> class M,bool Small> void consistency(int part) { double E=vp_real("E",1,10000),nu=vp_real("nu",-0.9,0.49); M<T3> m; M<D3> md; m.template findData<double>("young_modulus")->setValue(E); m.template findData<double>("poisson_ratio")->setValue(nu); md.template findData<Dual>("young_modulus")->setValue(Dual(E)); md.template findData<Dual>("poisson_ratio")->setValue(Dual(nu)); m.before_update(); md.before_update();
  Strain s=sym_strain(); Eigen::Matrix<double,3,3> S=m.PK2_stress(s.J,s.C);
  if (part==0) { Dual W=md.strain_energy_density(s.Jd,s.Cd); double w=m.strain_energy_density(s.J,s.C); vp_near(W.v,w,1e-6,"energy"); double q=0; for (int i=0;i<3;++i) for (int j=0;j<3;++j) q+=S(i,j)*s.dC[i][j]/2; vp_near(W.d,q,1e-3,"stress is twice the derivative of the energy"); for (int i=0;i<3;++i) for (int j=0;j<i;++j) vp_near(S(i,j),S(j,i),1e-3,"stress is symmetric"); }
  else { Eigen::Matrix<Dual,3,3> Sd=md.PK2_stress(s.Jd,s.Cd); Eigen::Matrix<double,6,6> T=m.PK2_stress_jacobian(s.J,s.C); for (int p=0;p<6;++p) { vp_near(Sd(VI[p],VJ[p]).v,S(VI[p],VJ[p]),1e-3,"stress"); double q=0; for (int r=0;r<6;++r) q+=T(p,r)*s.dC[VI[r]][VJ[r]]*(r<3?0.5:1); vp_near(Sd(VI[p],VJ[p]).d,q,1e-2,"tangent is the derivative of the stress"); for (int r=0;r<p;++r) vp_near(T(p,r),T(r,p),1e-3,"tangent is symmetric"); } } }
template<template<class> class M> void rest() { double E=vp_real("E",1,10000),nu=vp_real("nu",-0.9,0.49); M<T3> m; m.template findData<double>("young_modulus")->setValue(E); m.template findData<double>("poisson_ratio")->setValue(nu); m.before_update(); Eigen::Matrix<double,3,3> I=Eigen::Matrix<double,3,3>::Identity(); double mu=E/(2*(1+nu)),l=E*nu/((1+nu)*(1-2*nu));
  vp_near(m.strain_energy_density(1,I),0,1e-9,"no energy at rest"); Eigen::Matrix<double,3,3> S=m.PK2_stress(1,I); for (int i=0;i<3;++i) for (int j=0;j<3;++j) vp_near(S(i,j),0,1e-9,"no stress at rest"); Eigen::Matrix<double,6,6> T=m.PK2_stress_jacobian(1,I); for (int p=0;p<6;++p) for (int q=0;q<6;++q) vp_near(T(p,q),p<3&&q<3?(l+(p==q?2*mu:0)):p==q?mu:0,1e-6,"tangent at rest is Hooke's law with the Lame parameters"); }
