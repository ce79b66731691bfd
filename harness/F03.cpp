// F03: linear and corotational elasticity: forces derive from the material and shape, follow rotations, and the assembled stiffness is the one applied.
// @bounds TetrahedronElasticForce (one tetrahedron, two sharing a face) and HexahedronElasticForce (one trilinear hexahedron, two sharing a face; both integration rules): fixed skewed rest shapes (and corner tetrahedra and one-point boxes of every edge lengths in [1/2,2], fully integrated boxes with one edge length at a time); every displacement in [-2,2]; Young modulus in [1,100]; six Poisson ratios in (-1,1/2) (every ratio in [-0.45,0.45] for unit displacements of each node, of three nodes for the fully integrated hexahedron); corotated: one element at rest in one of 3 frames, moved to one of 4 frames with every translation in [-8,8], every length along the first two frame axes in [1/4,2] (two shears between them) and every remaining node position (hexahedron: every third axis and hourglass mode); stiffness factor in [-2,2], offsets 0 to 6; init, two reinit, changes of the material followed by reinit
// @outside rest or current frames other than the listed ones, other meshes, the energy (not provided by these force fields), eigenvalues() and cond(), the SOFA library itself (stand-ins in harness/stub)
// @flags -I$VERIF/harness/stub
#include "vp.h"
#include "stdlib.h"
#include <memory>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <SofaCaribou/Forcefield/TetrahedronElasticForce.cpp>
#include <SofaCaribou/Forcefield/HexahedronElasticForce.cpp>
#undef C
using V3=sofa::type::Vec<3,double>; using VV3=std::vector<V3>; using DT=sofa::defaulttype::Vec3Types; template<class T> using SData=sofa::core::objectmodel::Data<T>; using M33=std::array<std::array<double,3>,3>;
using TF=SofaCaribou::forcefield::TetrahedronElasticForce; using HF=SofaCaribou::forcefield::HexahedronElasticForce;
template<class F> constexpr int NN=std::is_same_v<F,TF> ? 4 : 8;
struct DK : sofa::defaulttype::BaseMatrix { int n; std::vector<double> v; DK(int m) : n(m),v((std::size_t)(m*m),0.0) {} Index rowSize() const override { return n; } Index colSize() const override { return n; } SReal element(Index i,Index j) const override { return v[(std::size_t)(i*n+j)]; } void resize(Index,Index) override {} void clear() override { for (auto & x : v) x=0; } void set(Index i,Index j,double x) override { v[(std::size_t)(i*n+j)]=x; } using BaseMatrix::add; void add(Index i,Index j,double x) override { v[(std::size_t)(i*n+j)]+=x; } };
static V3 mul(const M33 & m,const V3 & v) { V3 r; for (int i=0;i<3;++i) r[i]=m[(std::size_t)i][0]*v[0]+m[(std::size_t)i][1]*v[1]+m[(std::size_t)i][2]*v[2]; return r; }
static V3 tmul(const M33 & m,const V3 & v) { V3 r; for (std::size_t i=0;i<3;++i) r[(int)i]=m[0][i]*v[0]+m[1][i]*v[1]+m[2][i]*v[2]; return r; }
static V3 crossp(const V3 & a,const V3 & b) { return V3(a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]); }
static double dotp(const V3 & a,const V3 & b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
// ---- the oracle: gradients of the shape functions and integration weights of an element, written out here
struct GP { double w; V3 g[8]; };
static const int HS[8][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
template<int N> std::vector<GP> quad(const V3 * X,bool onepoint) { std::vector<GP> r; if (N==4) { V3 a=X[1]-X[0],b=X[2]-X[0],c=X[3]-X[0]; double d=dotp(a,crossp(b,c)); GP p; p.w=d/6; p.g[1]=crossp(b,c)/d; p.g[2]=crossp(c,a)/d; p.g[3]=crossp(a,b)/d; p.g[0]=-(p.g[1]+p.g[2]+p.g[3]); r.push_back(p); return r; }
  const double q=0.57735026918962576451; for (int k=0;k<(onepoint ? 1 : 8);++k) { double s[3]; for (int m=0;m<3;++m) s[m]=onepoint ? 0 : HS[k][m]*q; V3 dl[8]; V3 c[3]; for (int i=0;i<8;++i) { double f[3]; for (int m=0;m<3;++m) f[m]=1+HS[i][m]*s[m]; dl[i]=V3(HS[i][0]*f[1]*f[2]/8,HS[i][1]*f[0]*f[2]/8,HS[i][2]*f[0]*f[1]/8); for (int m=0;m<3;++m) c[m]+=X[i]*dl[i][m]; }
    double d=dotp(c[0],crossp(c[1],c[2])); GP p; p.w=onepoint ? 8*d : d; V3 n0=crossp(c[1],c[2])/d,n1=crossp(c[2],c[0])/d,n2=crossp(c[0],c[1])/d; for (int i=0;i<8;++i) p.g[i]=n0*dl[i][0]+n1*dl[i][1]+n2*dl[i][2]; r.push_back(p); } return r; }
struct Mat { double E,nu; double l() const { return E*nu/((1+nu)*(1-2*nu)); } double mu() const { return E/(2*(1+nu)); } };
// nodal forces of one element in the world frame for small displacements u: f_i = -int sigma grad N_i
template<int N> void small(const std::vector<GP> & q,const Mat & m,const V3 * u,V3 * f) { const double l=m.l(),mu=m.mu(); for (int i=0;i<N;++i) f[i]=V3(); for (const GP & p : q) { double H[3][3]={{0,0,0},{0,0,0},{0,0,0}}; for (int i=0;i<N;++i) for (int a=0;a<3;++a) for (int b=0;b<3;++b) H[a][b]+=u[i][a]*p.g[i][b]; double tr=H[0][0]+H[1][1]+H[2][2];
    for (int i=0;i<N;++i) for (int a=0;a<3;++a) { double s=0; for (int b=0;b<3;++b) s+=((a==b ? l*tr : 0.)+mu*(H[a][b]+H[b][a]))*p.g[i][b]; f[i][a]-=p.w*s; } } }
template<class F> struct S { static constexpr int N=NN<F>; using El=std::array<int,(std::size_t)N>; sofa::simulation::Node ctx; sofa::core::behavior::MechanicalState<DT> ms; sofa::core::topology::BaseMeshTopology topo; F ff; VV3 X; std::vector<El> I; bool one=false; Mat m{1000,0.3}; std::vector<std::vector<GP>> q; int n=0;
  void start(const VV3 & X0,const std::vector<El> & e,const Mat & mat,bool corotated,bool onepoint=false) { X=X0; I=e; m=mat; one=onepoint; n=(int)X.size(); ms.rest_position.setValue(X0); ms.position.setValue(X0); ms.free_position.setValue(X0); for (auto & x : I) { std::array<unsigned,(std::size_t)N> a; for (std::size_t i=0;i<(std::size_t)N;++i) a[i]=(unsigned)x[i]; if constexpr (N==4) topo.tetrahedra.push_back(a); else topo.hexahedra.push_back(a); }
    ctx.addObject(&topo); ctx.addObject(&ff); ff.mstate.set(&ms); material(mat); ff.template findData<bool>("corotated")->setValue(corotated); if constexpr (N==8) { if (onepoint) ff.set_integration_method(HF::IntegrationMethod::OnePointGauss); } ff.init(); for (auto & x : I) { V3 p[8]; for (int i=0;i<N;++i) p[i]=X[(std::size_t)x[(std::size_t)i]]; q.push_back(quad<N>(p,one)); } }
  void material(const Mat & mat) { m=mat; ff.template findData<double>("youngModulus")->setValue(m.E); ff.template findData<double>("poissonRatio")->setValue(m.nu); }
  VV3 force(const VV3 & x) { SData<VV3> d,f,v; VV3 f0((std::size_t)n); for (int i=0;i<n;++i) for (int k=0;k<3;++k) f0[(std::size_t)i][k]=i-4*k; d.setValue(x); f.setValue(f0); v.setValue(VV3((std::size_t)n)); sofa::core::MechanicalParams mp; ff.addForce(&mp,f,d,v); VV3 r=f.getValue(); for (int i=0;i<n;++i) r[(std::size_t)i]-=f0[(std::size_t)i]; return r; }
  VV3 dforce(const VV3 & dx,double k) { SData<VV3> d,f; f.setValue(VV3((std::size_t)n)); d.setValue(dx); sofa::core::MechanicalParams mp; mp.k=k; ff.rayleighStiffness.setValue(0); ff.addDForce(&mp,f,d); return f.getValue(); }
  // expected forces with every element turned by R from its rest frame: R small(R^T x - X)  (derivative: R small(R^T dx))
  VV3 expected(const VV3 & x,const M33 * R,bool derivative) { VV3 r((std::size_t)n); for (std::size_t e=0;e<I.size();++e) { V3 u[8],f[8]; for (int i=0;i<N;++i) { auto k=(std::size_t)I[e][(std::size_t)i]; u[i]=R ? tmul(*R,x[k]) : x[k]; if (!derivative) u[i]-=X[k]; } small<N>(q[e],m,u,f); for (int i=0;i<N;++i) r[(std::size_t)I[e][(std::size_t)i]]+=R ? mul(*R,f[i]) : f[i]; } return r; }
  void near(const VV3 & a,const VV3 & b,const char * what) { for (int i=0;i<n;++i) for (int k=0;k<3;++k) vp_near(a[(std::size_t)i][k],b[(std::size_t)i][k],1e-6,what); }
  void forces(const VV3 & x,const M33 * R=nullptr) { near(force(x),expected(x,R,false),"force is minus the integral of the stress of the small strain in the element's frame"); }
  void dforces(const VV3 & dx,double k,const M33 * R=nullptr) { VV3 e=expected(dx,R,true); for (auto & v : e) v*=k; near(dforce(dx,k),e,"addDForce applies the tangent stiffness"); }
  void matrix(double k,unsigned off,int d0,int d1,const M33 * R=nullptr) { DK K(3*n+9); unsigned o=off; ff.addKToMatrix(&K,k,o); std::vector<VV3> E; for (int d=d0;d<d1;++d) { VV3 dx((std::size_t)n); dx[(std::size_t)(d/3)][d%3]=1; E.push_back(expected(dx,R,true)); VV3 & e=E.back(); for (int i=0;i<3*n;++i) vp_near(K.element((int)off+i,(int)off+d),k*e[(std::size_t)(i/3)][i%3],1e-6,"assembled matrix is the tangent stiffness"); }
    for (int i=0;i<K.n;++i) for (int j=0;j<K.n;++j) if (i<(int)off||j<(int)off||i>=(int)off+3*n||j>=(int)off+3*n) vp_assert(K.element(i,j)==0,"nothing is written outside the block of the force field");
    if constexpr (N==8) { const auto & A=ff.K(); vp_assert(A.rows()==3*n&&A.cols()==3*n,"size of K"); for (int d=d0;d<d1;++d) { VV3 & e=E[(std::size_t)(d-d0)]; for (int i=0;i<3*n;++i) vp_near(A.coeff(i,d),e[(std::size_t)(i/3)][i%3],1e-6,"K() is the complete tangent stiffness"); } } }
};
static const double NU[6]={0.3,0,0.45,0.49,-0.25,0.25};
static const VV3 TX={V3(0,0,0),V3(1,0.25,0),V3(0.25,1.5,0.125),V3(0.25,0.5,2),V3(1.5,1.25,1.5),V3(9,9,9)};
static const VV3 HX={V3(0,0,0),V3(2,0.25,0),V3(2.25,1.5,0.125),V3(0.125,1.25,0),V3(0,0.25,1.75),V3(2,0,2),V3(2.25,1.5,2.25),V3(0,1.5,2),V3(3.75,0.375,-0.25),V3(4,1.625,-0.125),V3(4,1.625,2),V3(3.75,0.125,1.75)};
template<class F> void scene(S<F> & s,int elements,const Mat & m,bool corotated,bool one=false) { if constexpr (NN<F> ==4) { if (elements==2) s.start(TX,{{0,1,2,3},{2,1,4,3}},m,corotated); else s.start(VV3(TX.begin(),TX.begin()+4),{{0,1,2,3}},m,corotated); } else { if (elements==2) s.start(HX,{{0,1,2,3,4,5,6,7},{1,8,9,2,5,11,10,6}},m,corotated,one); else s.start(VV3(HX.begin(),HX.begin()+8),{{0,1,2,3,4,5,6,7}},m,corotated,one); } }
static VV3 symv(const char * n,const VV3 & X,double b,double keep) { VV3 x=X; for (std::size_t i=0;i<x.size();++i) for (int k=0;k<3;++k) x[i][k]=X[i][k]*keep+vp_real_n(n,(int)i*3+k,-b,b); return x; }
// small strains: every displacement, every modulus
template<class F> void lin(int elements,bool one=false) { S<F> s; scene(s,elements,Mat{vp_real("E",1,100),NU[vp_pick("nu",0,5)]},false,one); s.forces(symv("u",s.X,2,1)); }
// every modulus, unit displacements
template<class F> void young(int elements,bool one=false) { S<F> s; scene(s,elements,Mat{vp_real("E",1,100),NU[vp_pick("nu",0,1)]},false,one); int d=vp_pick("d",0,3*NN<F>-1); VV3 x=s.X; x[(std::size_t)(d/3)][d%3]+=1; s.forces(x); }
template<class F> void lind(int elements,bool one=false) { S<F> s; scene(s,elements,Mat{48,NU[vp_pick("nu",0,5)]},false,one); s.dforces(symv("dx",s.X,2,0),vp_real("k",-2,2)); }
template<class F> void mat(int elements,bool one=false,int d0=0,int d1=-1) { S<F> s; scene(s,elements,Mat{vp_real("E",1,100),0.25},false,one); s.matrix(vp_real("k",-2,2),3*(unsigned)vp_pick("offset",0,2),d0,d1<0 ? 3*s.n : d1); }
template<class F> void poisson(int elements,bool one=false) { S<F> s; scene(s,elements,Mat{10,vp_real("nu",-0.45,0.45)},false,one); int d=NN<F> ==8&&!one ? 7*vp_pick("dd",0,2)+1 : vp_pick("d",0,3*NN<F>-1); VV3 x=s.X; x[(std::size_t)(d/3)][d%3]+=1; s.forces(x); }
// materials changed and reinit called again and again
template<class F> void again(bool one=false) { S<F> s; scene(s,1,Mat{vp_real("E",1,100),0.3},false,one); VV3 x=symv("u",s.X,2,1); s.forces(x); s.ff.reinit(); s.forces(x); s.ff.reinit(); s.forces(x); s.material(Mat{vp_real("E2",1,100),0.25}); s.ff.reinit(); s.forces(x); s.matrix(1,0,0,3); s.material(Mat{50,-0.25}); s.ff.reinit(); s.matrix(-1,3,3,6); s.dforces(x,2); }
// rest shapes of every size
template<class F> void sizes(int sym=7,bool one=false) { S<F> s; double a=sym&1 ? vp_real("a",0.5,2) : 1.25,b=sym&2 ? vp_real("b",0.5,2) : 0.75,c=sym&4 ? vp_real("c",0.5,2) : 1.5; VV3 X; std::vector<typename S<F>::El> I; if constexpr (NN<F> ==4) { X={V3(0,0,0),V3(a,0,0),V3(0,b,0),V3(0,0,c)}; I={{0,1,2,3}}; } else { for (auto & h : HS) X.push_back(V3(h[0]<0 ? 0. : a,h[1]<0 ? 0. : b,h[2]<0 ? 0. : c)); I={{0,1,2,3,4,5,6,7}}; } s.start(X,I,Mat{10,0.25},false,one); int d=vp_pick("d",0,3*NN<F>-1); VV3 x=X; x[(std::size_t)(d/3)][d%3]+=1; s.forces(x); }
// corotation: integer matrices with orthogonal columns of equal length L
struct Q { int m[3][3]; int L; }; static const Q QS[4]={{{{1,0,0},{0,1,0},{0,0,1}},1},{{{0,0,1},{1,0,0},{0,1,0}},1},{{{2,-1,2},{2,2,-1},{-1,2,2}},3},{{{3,-4,0},{4,3,0},{0,0,5}},5}};
static V3 app(const Q & q,const V3 & v) { V3 r; for (int i=0;i<3;++i) r[i]=q.m[i][0]*v[0]+q.m[i][1]*v[1]+q.m[i][2]*v[2]; return r; }
static M33 turn(const Q & a,const Q & b) { M33 r; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { int s=0; for (int k=0;k<3;++k) s+=a.m[i][k]*b.m[j][k]; r[(std::size_t)i][(std::size_t)j]=double(s)/double(a.L*b.L); } return r; }
template<int N> VV3 shape(const V3 & c1,const V3 & c2,const V3 & c3,const V3 * h) { VV3 r; if (N==4) { V3 o; return {o,c1,c2,c3}; } for (auto & s : HS) { V3 p=c1*s[0]+c2*s[1]+c3*s[2]; if (h) p+=h[0]*(s[0]*s[1])+h[1]*(s[1]*s[2])+h[2]*(s[0]*s[2])+h[3]*(s[0]*s[1]*s[2]); r.push_back(p); } return r; }
template<class F> struct Co { S<F> s; VV3 x; M33 R; };
template<class F> void co(Co<F> & c,int q0,int q1,bool one,bool symbolic) { constexpr int N=NN<F>; VV3 Y=shape<N>(V3(0.5,0,0),V3(0.125,0.5,0),V3(0.25,0.125,0.75),nullptr); for (auto & p : Y) p=app(QS[q0],p); std::vector<typename S<F>::El> I(1); for (int i=0;i<N;++i) I[0][(std::size_t)i]=i; c.s.start(Y,I,Mat{4,0.25},true,one);
  double al=symbolic ? vp_real("alpha",0.25,2) : 0.75,ga=symbolic ? vp_real("gamma",0.25,2) : 0.5; int sh=vp_pick("shear",0,1); V3 c3(0.25,-0.125,0.5),h[4]; if (symbolic) { for (int k=0;k<3;++k) c3[k]=vp_real_n("c3",k,-2,2); if (N==8) for (int a=0;a<4;++a) for (int k=0;k<3;++k) h[a][k]=vp_real_n("h",3*a+k,-2,2); }
  c.x=shape<N>(V3(al,0,0),V3(sh ? ga*0.75 : 0.,ga,0),c3,h); V3 t; for (int k=0;k<3;++k) t[k]=vp_real_n("t",k,-8,8); for (auto & p : c.x) p=app(QS[q1],p)+t; c.R=turn(QS[q1],QS[q0]); }
template<class F> void corot(int q0,int q1,bool one=false) { auto c=std::make_unique<Co<F>>(); co(*c,q0,q1,one,true); c->s.forces(c->x,&c->R); }
template<class F> void corotk(int q0,int q1,bool one=false) { auto c=std::make_unique<Co<F>>(); co(*c,q0,q1,one,false); if constexpr (NN<F> ==8) c->s.ff.K(); c->s.matrix(1,0,0,2); c->s.forces(c->x,&c->R); c->s.matrix(vp_real("k",-2,2),3,0,3*c->s.n,&c->R); c->s.dforces(symv("dx",c->s.X,2,0),1.5,&c->R); }
// at rest nothing pulls, wherever the rest shape is carried by a rotation
template<class F> void rest(int q0,int q1) { S<F> s; constexpr int N=NN<F>; double sc=vp_real("scale",0.25,2); VV3 Y=shape<N>(V3(sc,0,0),V3(0.75*sc,sc,0),V3(0.25*sc,-0.5*sc,2*sc),nullptr),X=Y,x=Y; V3 t; for (int k=0;k<3;++k) t[k]=vp_real_n("t",k,-8,8); for (std::size_t i=0;i<Y.size();++i) { X[i]=app(QS[q0],Y[i])*double(QS[q1].L); x[i]=app(QS[q1],Y[i])*double(QS[q0].L)+t; } std::vector<typename S<F>::El> I(1); for (int i=0;i<N;++i) I[0][(std::size_t)i]=i; s.start(X,I,Mat{1,0.25},true); VV3 f=s.force(s.X); for (auto & v : f) for (int k=0;k<3;++k) vp_near(v[k],0,1e-6,"no force at rest"); f=s.force(x); for (auto & v : f) for (int k=0;k<3;++k) vp_near(v[k],0,1e-6,"no force after a rigid motion"); }
#define EL(n,F) ENTRY(n##_lin_1) { lin<F>(1); } ENTRY(n##_lin_2) { lin<F>(2); } ENTRY(n##_dforce) { lind<F>(2); } ENTRY(n##_matrix_1) { mat<F>(1); } ENTRY(n##_matrix_2a) { mat<F>(2,false,0,12); } ENTRY(n##_matrix_2b) { mat<F>(2,false,12,18); } ENTRY(n##_poisson) { poisson<F>(1); } ENTRY(n##_reinit) { again<F>(); } ENTRY(n##_young) { young<F>(2); } \
 ENTRY(n##_co_01) { corot<F>(0,1); } ENTRY(n##_co_02) { corot<F>(0,2); } ENTRY(n##_co_13) { corot<F>(1,3); } ENTRY(n##_co_20) { corot<F>(2,0); } ENTRY(n##_co_22) { corot<F>(2,2); } ENTRY(n##_co_23) { corot<F>(2,3); } ENTRY(n##_cok_02) { corotk<F>(0,2); } ENTRY(n##_cok_21) { corotk<F>(2,1); } ENTRY(n##_cok_13) { corotk<F>(1,3); } ENTRY(n##_rest_02) { rest<F>(0,2); } ENTRY(n##_rest_23) { rest<F>(2,3); } ENTRY(n##_rest_11) { rest<F>(1,1); }
// corotation switched off, then reinit: small strains again; and on again
template<class F> void toggle() { auto c=std::make_unique<Co<F>>(); co(*c,2,3,false,false); c->s.forces(c->x,&c->R); auto & d=*c->s.ff.template findData<bool>("corotated"); d.setValue(false); c->s.ff.reinit(); c->s.forces(c->x); c->s.matrix(1,0,0,3); d.setValue(true); c->s.ff.reinit(); c->s.forces(c->x,&c->R); c->s.matrix(1,0,0,3,&c->R); }
ENTRY(tet_toggle) { toggle<TF>(); } ENTRY(hex_toggle) { toggle<HF>(); }
EL(tet,TF) EL(hex,HF)
ENTRY(hex_matrix_2c) { mat<HF>(2,false,18,28); } ENTRY(hex_matrix_2d) { mat<HF>(2,false,28,36); } ENTRY(tet_sizes) { sizes<TF>(); } ENTRY(hex_one_sizes) { sizes<HF>(7,true); } ENTRY(hex_sizes_a) { sizes<HF>(1); } ENTRY(hex_sizes_b) { sizes<HF>(2); } ENTRY(hex_sizes_c) { sizes<HF>(4); } ENTRY(hex_one_poisson) { poisson<HF>(1,true); } ENTRY(hex_one_dforce) { lind<HF>(1,true); }
ENTRY(hex_one_lin) { lin<HF>(2,true); } ENTRY(hex_one_matrix) { mat<HF>(1,true); } ENTRY(hex_one_reinit) { again<HF>(true); } ENTRY(hex_one_co) { corot<HF>(2,3,true); }
