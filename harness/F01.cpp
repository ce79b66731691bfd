// F01: the hyperelastic force field is conservative and its tangent stiffness is the exact derivative of its force.
// @bounds linear tetrahedra (one, two sharing a face) with all 12 (15) current coordinates in [-4,4]; quadratic tetrahedra and linear hexahedra (one, two sharing a face) with 4 to 6 of the current coordinates symbolic at a time in [-4,4], the others deformed; rest shapes are fixed skewed elements and, for the uniform deformations, boxes of every size in the stated entries; a general anisotropic quadratic material with symbolic scale; any factors in addDForce and addKToMatrix
// @outside multithreaded assembly, other meshes, materials that are not quadratic in the Green strain (their own derivatives are M03 and M04), eigenvalues() and cond(), the SOFA library itself (stand-ins in harness/stub)
// @flags -I$VERIF/harness/stub
#include "ff.h"
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
using Tet=geometry::Tetrahedron<Linear>; using TetQ=geometry::Tetrahedron<Quadratic>; using Hex=geometry::Hexahedron<Linear>; using HexQ=geometry::Hexahedron<Quadratic>;
FF_ELEMENT(Tet) FF_ELEMENT(TetQ) FF_ELEMENT(Hex) FF_ELEMENT(HexQ)
using namespace SofaCaribou::forcefield;
// a general anisotropic quadratic material: Psi = 1/2 e.D e with e the Green strain (engineering shears, order xx yy zz xy yz zx)
struct Aniso : SofaCaribou::material::HyperelasticMaterial<DT> { using M3=Eigen::Matrix<double,3,3>; using M6=Eigen::Matrix<double,6,6>; M6 D; double scale=1,cur=0;
  Aniso() { for (int i=0;i<6;++i) for (int j=0;j<6;++j) D(i,j)=i==j ? 8+i : double((3*(i+j)+i*j)%7)/4; }
  void before_update() override { cur=scale; }
  static Eigen::Matrix<double,6,1> voigt(const M3 & C) { Eigen::Matrix<double,6,1> e; e<<(C(0,0)-1)/2,(C(1,1)-1)/2,(C(2,2)-1)/2,C(0,1),C(1,2),C(0,2); return e; }
  double strain_energy_density(const double &,const M3 & C) const override { auto e=voigt(C); return cur*e.dot(D*e)/2; }
  M3 PK2_stress(const double &,const M3 & C) const override { Eigen::Matrix<double,6,1> s=cur*(D*voigt(C)); M3 S; S<<s[0],s[3],s[5],s[3],s[1],s[4],s[5],s[4],s[2]; return S; }
  M6 PK2_stress_jacobian(const double &,const M3 &) const override { return cur*D; } };
template<class E> using Sc=Scene<E,HyperelasticForcefield<E>>;
template<class E> struct S1 : Sc<E> { Aniso mat; SData<VV3> v; int n=0; void start(const VV3 & X0,const typename Sc<E>::Ind & I) { this->build(X0,I); this->ctx.addObject(&mat); n=(int)X0.size(); v.setValue(VV3(X0.size())); this->ff.init(); }
  VV3 force(const VV3 & x) { SData<VV3> dx,f; dx.setValue(x); f.setValue(VV3(x.size())); sofa::core::MechanicalParams mp; this->ff.addForce(&mp,f,dx,v); return f.getValue(); }
  double energy(const VV3 & x) { SData<VV3> dx; dx.setValue(x); sofa::core::MechanicalParams mp; return this->ff.getPotentialEnergy(&mp,dx); } };
static VV3 shifted(const VV3 & x,int d,double h) { VV3 y=x; y[(std::size_t)(d/3)][d%3]+=h; return y; }
// the energy is a polynomial of degree four and the force of degree three in each coordinate: the five-point formula is exact
template<class E> void gradient(S1<E> & s,const VV3 & x,int d0,int d1) { VV3 f=s.force(x); for (int d=d0;d<d1;++d) { double g=(8*(s.energy(shifted(x,d,1))-s.energy(shifted(x,d,-1)))-(s.energy(shifted(x,d,2))-s.energy(shifted(x,d,-2))))/12; vp_near(f[(std::size_t)(d/3)][d%3],-g,1e-6,"force is minus the gradient of the energy"); } }
template<class E> void tangent(S1<E> & s,const VV3 & x,int d0,int d1) { s.ff.assemble_stiffness([&] { SData<VV3> dx; dx.setValue(x); return dx; }()); Eigen::SparseMatrix<double> K=s.ff.K(); int N=3*s.n; vp_assert(K.rows()==N&&K.cols()==N,"size of K");
  for (int d=d0;d<d1;++d) { VV3 a=s.force(shifted(x,d,1)),b=s.force(shifted(x,d,-1)),c=s.force(shifted(x,d,2)),e=s.force(shifted(x,d,-2)); for (int i=0;i<N;++i) { auto I=(std::size_t)(i/3); double g=(8*(a[I][i%3]-b[I][i%3])-(c[I][i%3]-e[I][i%3]))/12; vp_near(K.coeff(i,d),-g,1e-6,"stiffness is minus the derivative of the force"); vp_near(K.coeff(i,d),K.coeff(d,i),1e-7,"stiffness is symmetric"); } } }
template<class E> void balance(S1<E> & s,const VV3 & x) { VV3 f=s.force(x); for (int k=0;k<3;++k) { double t=0,m=0; for (int i=0;i<s.n;++i) { auto I=(std::size_t)i; t+=f[I][k]; int a=(k+1)%3,b=(k+2)%3; m+=x[I][a]*f[I][b]-x[I][b]*f[I][a]; } vp_near(t,0,1e-6,"internal forces sum to zero"); vp_near(m,0,1e-5,"internal moments sum to zero"); } }
static const VV3 TX={V3(0,0,0),V3(1,0.25,0),V3(0.25,1.5,0.125),V3(0.25,0.5,2),V3(1.5,1.25,1.5)};
static VV3 sym_x(const VV3 & X0,int from,int to) { VV3 x=X0; for (std::size_t i=0;i<x.size();++i) for (int k=0;k<3;++k) { int d=(int)i*3+k; if (d>=from&&d<to) x[i][k]=vp_real_n("x",d,-4,4); else x[i][k]=X0[i][k]*1.25+0.125*((d*5)%7-3); } return x; }
static VV3 tet1() { return VV3(TX.begin(),TX.begin()+4); }
static void tet2(S1<Tet> & s) { s.start(TX,{{0,1,2,3},{2,1,4,3}}); }
ENTRY(tet_gradient) { S1<Tet> s; s.start(tet1(),{{0,1,2,3}}); gradient(s,sym_x(tet1(),0,12),0,12); }
ENTRY(tet_tangent) { S1<Tet> s; s.start(tet1(),{{0,1,2,3}}); tangent(s,sym_x(tet1(),0,12),0,12); }
ENTRY(tet_balance) { S1<Tet> s; s.start(tet1(),{{0,1,2,3}}); balance(s,sym_x(tet1(),0,12)); }
ENTRY(tet2_gradient) { S1<Tet> s; tet2(s); gradient(s,sym_x(TX,0,15),0,15); }
ENTRY(tet2_tangent) { S1<Tet> s; tet2(s); tangent(s,sym_x(TX,0,15),0,15); }
static const VV3 HX={V3(0,0,0),V3(2,0.25,0),V3(2.25,1.5,0.125),V3(0.125,1.25,0),V3(0,0.25,1.75),V3(2,0,2),V3(2.25,1.5,2.25),V3(0,1.5,2)};
// two hexahedra glued on a face
static VV3 hx2() { VV3 x=HX; for (int k : {1,2,6,5}) x.push_back(HX[(std::size_t)k]+V3(1.75,0.125,-0.25)); return x; }
#define HEXP(n,a,b) ENTRY(hex_gradient_##n) { S1<Hex> s; s.start(HX,{{0,1,2,3,4,5,6,7}}); gradient(s,sym_x(HX,a,b),0,24); } ENTRY(hex_tangent_##n) { S1<Hex> s; s.start(HX,{{0,1,2,3,4,5,6,7}}); tangent(s,sym_x(HX,a,b),a,b); }
HEXP(a,0,6) HEXP(b,6,12) HEXP(c,12,18) HEXP(d,18,24)
ENTRY(hex2_gradient) { S1<Hex> s; VV3 X=hx2(); s.start(X,{{0,1,2,3,4,5,6,7},{8,9,2,1,11,10,6,5}}); gradient(s,sym_x(X,3,7),0,36); }
ENTRY(hex2_tangent) { S1<Hex> s; VV3 X=hx2(); s.start(X,{{0,1,2,3,4,5,6,7},{8,9,2,1,11,10,6,5}}); tangent(s,sym_x(X,3,7),3,7); }
static VV3 tq() { static const int ed[6][2]={{0,1},{1,2},{2,0},{0,3},{1,3},{2,3}}; VV3 x=tet1(); for (auto & e : ed) x.push_back((x[(std::size_t)e[0]]+x[(std::size_t)e[1]])*0.5); x[5][0]+=0.0625; return x; }
ENTRY(tetq_gradient_a) { S1<TetQ> s; VV3 X=tq(); s.start(X,{{0,1,2,3,4,5,6,7,8,9}}); gradient(s,sym_x(X,0,5),0,30); } ENTRY(tetq_tangent_a) { S1<TetQ> s; VV3 X=tq(); s.start(X,{{0,1,2,3,4,5,6,7,8,9}}); tangent(s,sym_x(X,0,5),0,5); }
ENTRY(tetq_gradient_b) { S1<TetQ> s; VV3 X=tq(); s.start(X,{{0,1,2,3,4,5,6,7,8,9}}); gradient(s,sym_x(X,13,18),0,30); } ENTRY(tetq_tangent_b) { S1<TetQ> s; VV3 X=tq(); s.start(X,{{0,1,2,3,4,5,6,7,8,9}}); tangent(s,sym_x(X,13,18),13,18); }
// uniform deformations: the energy is the volume times the energy density, whatever the rest shape
template<class E> void uniform(const VV3 & X0,const typename Sc<E>::Ind & I,double vol) { S1<E> s; s.start(X0,I); Eigen::Matrix<double,3,3> F; V3 t; for (int i=0;i<3;++i) { t[i]=vp_real_n("t",i,-4,4); for (int j=0;j<3;++j) F(i,j)=vp_real_n("F",i,j,-2,2); } VV3 x=X0; for (auto & p : x) { V3 q=t; for (int i=0;i<3;++i) for (int j=0;j<3;++j) q[i]+=F(i,j)*p[j]; p=q; }
  Eigen::Matrix<double,3,3> C=F.transpose()*F; vp_near(s.energy(x),vol*s.mat.strain_energy_density(1,C),1e-6,"energy of a uniform deformation is the volume times the energy density");
  VV3 g=s.force(x); for (int k=0;k<3;++k) { double u=0; for (auto & p : g) u+=p[k]; vp_near(u,0,1e-6,"internal forces sum to zero"); }
  vp_near(s.energy(X0),0,1e-9,"no energy at rest"); VV3 f=s.force(X0); for (auto & p : f) for (int k=0;k<3;++k) vp_near(p[k],0,1e-9,"no force at rest"); }
static double tetvol(const V3 & a,const V3 & b,const V3 & c,const V3 & d) { double v=(b-a).cross(c-a)*(d-a)/6; return v<0 ? -v : v; }
ENTRY(tet_uniform) { VV3 X=tet1(); uniform<Tet>(X,{{0,1,2,3}},tetvol(X[0],X[1],X[2],X[3])); }
ENTRY(tet_inverted_uniform) { VV3 X=tet1(); uniform<Tet>(X,{{0,2,1,3}},tetvol(X[0],X[1],X[2],X[3])); }
ENTRY(tet_inverted_gradient) { S1<Tet> s; s.start(tet1(),{{0,2,1,3}}); gradient(s,sym_x(tet1(),0,12),0,12); }
ENTRY(tetq_uniform) { VV3 X=tq(); X[5][0]-=0.0625; uniform<TetQ>(X,{{0,1,2,3,4,5,6,7,8,9}},tetvol(X[0],X[1],X[2],X[3])); }
ENTRY(hex_uniform) { VV3 X; for (int i=0;i<8;++i) { static const int c[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; X.push_back(V3(2*c[i][0]+0.5*c[i][1],1.5*c[i][1]+0.25*c[i][2],1.25*c[i][2]+0.5*c[i][0])); } V3 o=X[0]; double v=(X[1]-o).cross(X[3]-o)*(X[4]-o); uniform<Hex>(X,{{0,1,2,3,4,5,6,7}},v<0?-v:v); }
// symbolic rest shapes
ENTRY(tet_any_box) { double a=vp_real("a",0.25,8),b=vp_real("b",0.25,8),c=vp_real("c",0.25,8); VV3 X={V3(0,0,0),V3(a,0,0),V3(0,b,0),V3(0,0,c)}; uniform<Tet>(X,{{0,1,2,3}},a*b*c/6); }
ENTRY(hex_any_box) { double a=vp_real("a",0.25,8),b=vp_real("b",0.25,8),c=vp_real("c",0.25,8); VV3 X={V3(0,0,0),V3(a,0,0),V3(a,b,0),V3(0,b,0),V3(0,0,c),V3(a,0,c),V3(a,b,c),V3(0,b,c)}; uniform<Hex>(X,{{0,1,2,3,4,5,6,7}},a*b*c); }
// the differential of the force, through each of the interfaces SOFA uses
template<class E> void differential(S1<E> & s,const VV3 & x,int d0,int d1) { int N=3*s.n; sofa::core::MechanicalParams mp; mp.k=vp_real("kFactor",-10,10); bool free=vp_pick("free",0,1)!=0; mp.x_id=free ? sofa::core::ConstVecCoordId::freePosition() : sofa::core::ConstVecCoordId::position();
  (free ? s.ms.free_position : s.ms.position).setValue(x); s.ms.force.setValue(VV3(x.size())); s.mat.scale=vp_real("scale",0.5,4);
  s.ff.addForce(&mp,sofa::core::MultiVecDerivId(sofa::core::VecDerivId::force())); VV3 f=s.ms.force.getValue(); { VV3 g=s.force(x); for (int i=0;i<N;++i) vp_near(f[(std::size_t)(i/3)][i%3],g[(std::size_t)(i/3)][i%3],1e-7,"force at the given state vector"); }
  DenseK A(N+3); unsigned int off=2; A.set(2+d0,2,7.0); s.ff.addKToMatrix(&A,mp.k,off); A.set(2+d0,2,A.element(2+d0,2)-7.0);
  Eigen::SparseMatrix<double> K=s.ff.K(); for (int i=0;i<N+3;++i) for (int j=0;j<N+3;++j) { bool in=i>=2&&i<N+2&&j>=2&&j<N+2; vp_near(A.element(i,j),in ? -mp.k*K.coeff(i-2,j-2) : 0,1e-6,"addKToMatrix adds minus kFact times K"); }
  SData<VV3> dx,df; VV3 w(x.size()),z(x.size()); for (int d=d0;d<d1;++d) w[(std::size_t)(d/3)][d%3]=vp_real_n("dx",d,-2,2); z[0][1]=3.0; dx.setValue(w); df.setValue(z); s.ff.addDForce(&mp,df,dx); for (int i=0;i<N;++i) { double g=i==1 ? 3.0 : 0; for (int d=d0;d<d1;++d) g-=mp.k*K.coeff(i,d)*w[(std::size_t)(d/3)][d%3]; vp_near(df.getValue()[(std::size_t)(i/3)][i%3],g,1e-6,"addDForce adds minus kFactor times K dx"); }
  // K is the tangent at the positions and material parameters of the last addForce
  S1<E> s2; typename Sc<E>::Ind I=s.topo.template findData<typename Sc<E>::Ind>("indices")->getValue(); s2.start(s.ms.rest_position.getValue(),I); s2.mat.scale=s.mat.scale; SData<VV3> px; px.setValue(x); s2.ff.assemble_stiffness(px); Eigen::SparseMatrix<double> K2=s2.ff.K(); for (int i=0;i<N;++i) for (int j=0;j<N;++j) vp_near(K.coeff(i,j),K2.coeff(i,j),1e-7,"K is the tangent at the last state"); }
ENTRY(tet_differential) { S1<Tet> s; s.start(tet1(),{{0,1,2,3}}); differential(s,sym_x(tet1(),0,6),0,12); }
ENTRY(tet2_differential) { S1<Tet> s; tet2(s); differential(s,sym_x(TX,3,8),0,15); }
ENTRY(hex_differential) { S1<Hex> s; s.start(HX,{{0,1,2,3,4,5,6,7}}); differential(s,sym_x(HX,4,6),3,6); }
