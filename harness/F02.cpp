// F02: traction loads are integrated over the surface, split by the shape functions and follow the prescribed increments.
// @bounds one or two triangles (linear, quadratic) or parallelogram quads (linear, quadratic) in space and in the plane: every edge vector with components in [-2,2] (for the quadratic quad in space: two fixed directions, every length in [1/2,2]); every traction in [-1,1]^D (the load is linear in it); increments: slopes in [1/64,2] (every slope for one traction, every traction for six slopes), 0 to 3 steps between increments, up to 6 animation steps and a reset followed by up to 3 more
// @outside curved quadratic and non-affine quads (quadrature only approximates the area), negative slopes, changes of the data between steps, the SOFA library itself (stand-ins in harness/stub)
// @flags -I$VERIF/harness/stub
#include "ff.h"
#include <SofaCaribou/Forcefield/TractionForcefield.inl>
using namespace SofaCaribou::forcefield;
template<UNSIGNED_INTEGER_TYPE D> using TriL=geometry::Triangle<D,Linear>; template<UNSIGNED_INTEGER_TYPE D> using TriQ=geometry::Triangle<D,Quadratic>; template<UNSIGNED_INTEGER_TYPE D> using QuadL=geometry::Quad<D,Linear>; template<UNSIGNED_INTEGER_TYPE D> using QuadQ=geometry::Quad<D,Quadratic>;
FF_ELEMENT(TriL<3>) FF_ELEMENT(TriQ<3>) FF_ELEMENT(QuadL<3>) FF_ELEMENT(QuadQ<3>) FF_ELEMENT(TriL<2>) FF_ELEMENT(TriQ<2>) FF_ELEMENT(QuadL<2>) FF_ELEMENT(QuadQ<2>)
template<class E> constexpr int DD=(int)caribou::geometry::traits<E>::Dimension;
template<class E> constexpr bool is_tri=FN<E> ==3||FN<E> ==6;
// canonical coordinates of the nodes on the unit triangle / [0,1]^2 square, and the exact integrals of the shape functions over it relative to the area
static const double TC[6][2]={{0,0},{1,0},{0,1},{0.5,0},{0.5,0.5},{0,0.5}}, QC[8][2]={{0,0},{1,0},{1,1},{0,1},{0.5,0},{1,0.5},{0.5,1},{0,0.5}};
template<class E> double share(int i) { if (FN<E> ==3) return 1./3; if (FN<E> ==4) return 0.25; if (FN<E> ==6) return i<3 ? 0 : 1./3; return i<4 ? -1./12 : 1./3; }
template<class E> using VD=sofa::type::Vec<(std::size_t)DD<E>,double>;
template<class E> struct T : Scene<E,TractionForcefield<E>> { using V=VD<E>; using VV=sofa::type::vector<V>; int n=0; double area=0; V t; std::vector<double> w; // w: area share of each node
  // one element of edges a,b at o, optionally followed by its point reflection through the middle of the edge opposite to o (triangles) or a copy next to it (quads)
  void start(const V & o,const V & a,const V & b,int two,const V & traction,double slope,unsigned steps) { t=traction; VV X; typename T::Ind I; std::vector<double> sh;
    auto put=[&](double u,double v,double s) -> unsigned { V p; for (int k=0;k<DD<E>;++k) p[k]=o[k]+u*a[k]+v*b[k]; (void)s; X.push_back(p); return (unsigned)X.size()-1; };
    std::vector<std::array<double,2>> at; auto id=[&](double u,double v) -> unsigned { for (std::size_t i=0;i<at.size();++i) if (at[i][0]==u&&at[i][1]==v) return (unsigned)i; at.push_back({u,v}); return put(u,v,0); };
    put(-3,5,0); at.push_back({-3,5}); // a node of no element
    for (int e=0;e<=two;++e) { sofa::type::fixed_array<unsigned,(std::size_t)FN<E>> ix; for (int i=0;i<FN<E>;++i) { double u=is_tri<E> ? TC[i][0] : QC[i][0],v=is_tri<E> ? TC[i][1] : QC[i][1]; if (e) { if (is_tri<E>) { u=1-u; v=1-v; } else u+=1; } ix[(std::size_t)i]=id(u,v); } I.push_back(ix); }
    n=(int)X.size(); w.assign((std::size_t)n,0.); for (auto & ix : I) for (int i=0;i<FN<E>;++i) w[ix[(std::size_t)i]]+=share<E>(i);
    if constexpr (DD<E> ==3) { double c0=a[1]*b[2]-a[2]*b[1],c1=a[2]*b[0]-a[0]*b[2],c2=a[0]*b[1]-a[1]*b[0]; double q=c0*c0+c1*c1+c2*c2; vp_assume(q>=1./64); area=std::sqrt(q); } else { double d=a[0]*b[1]-a[1]*b[0]; vp_assume(d>=0.125||d<=-0.125); area=std::abs(d); }
    if (is_tri<E>) area/=2; area=area; this->build(X,I); this->ff.template findData<V>("traction")->setValue(t); this->ff.template findData<double>("slope")->setValue(slope); this->ff.template findData<unsigned>("number_of_steps_before_increment")->setValue(steps); this->ff.init(); }
  void step() { sofa::simulation::AnimateBeginEvent e; this->ff.handleEvent(&e); }
  void check(double fraction,int two,double tol=1e-6) { SData<VV> f,x,v; VV f0((std::size_t)n); for (int i=0;i<n;++i) for (int k=0;k<DD<E>;++k) f0[(std::size_t)i][k]=i+10*k; f.setValue(f0); x.setValue(VV((std::size_t)n)); v.setValue(VV((std::size_t)n)); sofa::core::MechanicalParams mp; this->ff.addForce(&mp,f,x,v);
    for (int i=0;i<n;++i) for (int k=0;k<DD<E>;++k) { double e=fraction*t[k]*area*w[(std::size_t)i]; vp_near(f.getValue()[(std::size_t)i][k]-f0[(std::size_t)i][k],e,tol,"nodal force is the integral of the traction against the shape function"); vp_near(this->ff.template findData<VV>("nodal_forces")->getValue()[(std::size_t)i][k],e,tol,"reported nodal forces are those applied"); }
    double l=this->ff.template findData<double>("total_load")->getValue(),s=0; for (int k=0;k<DD<E>;++k) { double q=t[k]*area*(two+1); s+=q*q; } s*=fraction*fraction; vp_assert(l>=-1e-9,"total load is not negative"); vp_near(l*l,s,1e-3,"total load is the norm of the traction times the area"); } };
template<class E> VD<E> vec(const char*n,double b) { VD<E> v; for (int k=0;k<DD<E>;++k) v[k]=vp_real_n(n,k,-b,b); return v; }
template<class E> VD<E> fix(double x,double y,double z) { VD<E> v; v[0]=x; v[1]=y; if constexpr (DD<E> ==3) v[2]=z; (void)z; return v; }
static const double AX[6]={0.5,-0.25,1,1,0.5,0.25};
// constant load: any element
template<class E> void constant(int two,bool axes=false) { T<E> s; VD<E> a,b; if (axes) { double u=vp_real("la",0.5,2),v=vp_real("lb",0.5,2); for (int k=0;k<3;++k) { a[k]=u*AX[k]; b[k]=v*AX[3+k]; } } else { a=vec<E>("a",2); b=vec<E>("b",2); } s.start(vec<E>("o",8),a,b,two,vec<E>("t",1),0,1); s.check(1,two); s.step(); s.check(1,two); s.ff.reset(); s.check(1,two); }
// incremental load
template<class E> void schedule(T<E> & s,double slope,unsigned steps,int two) { s.check(0,two); double applied=0; unsigned wait=0; for (int i=0;i<6;++i) { s.step(); if (wait==0) { applied+=slope; if (applied>1) applied=1; wait=steps ? steps : 1; } --wait; s.check(applied,two); { sofa::core::objectmodel::Event e; s.ff.handleEvent(&e); } }
  s.check(applied,two); s.ff.reset(); s.check(0,two); applied=0; wait=0; for (int i=0;i<3;++i) { s.step(); if (wait==0) { applied+=slope; if (applied>1) applied=1; wait=steps ? steps : 1; } --wait; s.check(applied,two); } }
static const double SL[6]={0.125,0.25,0.375,0.5,1,1.5};
template<class E> void slopes(unsigned steps) { T<E> s; double sl=vp_real("slope",1./64,2); s.start(fix<E>(1,2,3),fix<E>(3,0,4),fix<E>(0,2,0),0,fix<E>(0.25,-0.5,1),sl,steps); schedule(s,sl,steps,0); }
template<class E> void tractions(unsigned steps) { T<E> s; double sl=SL[vp_pick("slope",0,5)]; auto t=vec<E>("t",1); vp_assume(t[0]>=0.125||t[0]<=-0.125); s.start(fix<E>(1,2,3),fix<E>(3,0,4),fix<E>(0,2,0),1,t,sl,steps); schedule(s,sl,steps,1); }
#define C(n,E) ENTRY(n##_1) { constant<E>(0); } ENTRY(n##_2) { constant<E>(1); }
C(tri3l,TriL<3>) C(tri3q,TriQ<3>) C(quad3l,QuadL<3>) C(tri2l,TriL<2>) C(tri2q,TriQ<2>) C(quad2l,QuadL<2>) C(quad2q,QuadQ<2>)
ENTRY(quad3q_1) { constant<QuadQ<3>>(0,true); } ENTRY(quad3q_2) { constant<QuadQ<3>>(1,true); }
ENTRY(slope_0) { slopes<TriL<3>>(0); } ENTRY(slope_1) { slopes<TriL<3>>(1); } ENTRY(slope_2) { slopes<QuadL<3>>(2); } ENTRY(slope_3) { slopes<TriL<2>>(3); }
ENTRY(traction_1) { tractions<TriL<3>>(1); } ENTRY(traction_2) { tractions<QuadL<2>>(2); } ENTRY(traction_3) { tractions<QuadL<3>>(3); }
