// P01: the barycentric mapping interpolates positions and velocities and pulls forces and constraints back by the transpose.
// @bounds the fixed meshes of B01 of two linear tetrahedra, one quadratic tetrahedron and two linear hexahedra; three mapped points, one at any place of a box inside an element, the others at any place of segments through an element; every nodal position, velocity, mapped force and constraint entry in [-10,10]; constraint matrices of up to 3 rows with up to 3 entries; topology given in the parent or the same node; mapped rest positions given or taken from the positions; a point at a symbolic place outside
// @outside curved container elements, other meshes, the SOFA library itself (stand-ins in harness/stub)
// @flags -I$VERIF/harness/stub
#include "ff.h"
#include "bary.h"
#include <SofaCaribou/Mapping/CaribouBarycentricMapping.inl>
using namespace SofaCaribou::mapping; using MD=DT::MatrixDeriv;
template<class C> struct P { using E=typename C::El; using Top=SofaCaribou::topology::CaribouTopology<E>; using Ind=sofa::type::vector<sofa::type::fixed_array<unsigned int,(std::size_t)FN<E>>>;
  const C & c; sofa::simulation::Node root,child; sofa::core::behavior::MechanicalState<DT> from,to; Top topo; CaribouBarycentricMapping<E,DT> map; double L[3][8+12]; int el[3]; int N=C::N,Q=0;
  P(const C & c_) : c(c_) { for (auto & r : L) for (auto & x : r) x=0; }
  // mapped point in element e at the local coordinates a+s*b
  V3 add(int e,const double (&a)[3],const double (&b)[3],const V3 & s) { double xi[3],w[3]; typename E::LocalCoordinates l; for (int k=0;k<3;++k) { xi[k]=a[k]+s[k]*b[k]; l[k]=xi[k]; } world_of(c,e,xi,w); Eigen::Matrix<double,FN<E>,3> X; for (int i=0;i<FN<E>;++i) for (int k=0;k<3;++k) X(i,k)=c.X[c.c[e][i]][k]; auto S=E(X).L(l); for (int i=0;i<FN<E>;++i) L[Q][c.c[e][i]]+=S[i]; ++Q; return V3(w[0],w[1],w[2]); }
  void start(const VV3 & pts,bool in_parent,bool rest) { VV3 X; for (int i=0;i<N;++i) X.push_back(V3(c.X[i][0],c.X[i][1],c.X[i][2])); Ind I; for (int e=0;e<C::M;++e) { sofa::type::fixed_array<unsigned,(std::size_t)FN<E>> x; for (int i=0;i<FN<E>;++i) x[(std::size_t)i]=(unsigned)c.c[e][i]; I.push_back(x); }
    from.rest_position.setValue(X); from.position.setValue(X); topo.template findData<Ind>("indices")->setValue(I); topo.template findData<VV3>("position")->setValue(X); child.parent=&root; (in_parent ? root : child).addObject(&topo); topo.init(); child.addObject(&map); map.from=&from; map.to=&to;
    if (rest) { to.rest_position.setValue(pts); VV3 moved=pts; for (auto & p : moved) p[0]+=100; to.position.setValue(moved); } else to.position.setValue(pts); map.init(); } };
static VV3 sym(const char*n,int N) { VV3 v((std::size_t)N); for (int i=0;i<N;++i) for (int k=0;k<3;++k) v[(std::size_t)i][k]=vp_real_n(n,i,k,-10,10); return v; }
static void same(const V3 & a,const V3 & b,const char*l) { for (int k=0;k<3;++k) vp_near(a[k],b[k],5e-3,l); }
static const double A0[3]={0.125,0.25,0.125},B0[3]={0.25,0.125,0.0625},A1[3]={0.25,0.0625,0.25},B1[3]={-0.125,0.25,0.125},A2[3]={0.5,0.25,0.0625},B2[3]={-0.25,0.125,0.25};
template<class C> void mapping(const C & c,bool in_parent,bool rest) { P<C> s(c); VV3 pts; pts.push_back(s.add(0,A0,B0,V3(vp_real("s",0,1),vp_real("t",0,1),vp_real("u",0,1)))); double w=vp_real("w",0,1),y=vp_real("y",0,1); pts.push_back(s.add(C::M-1,A1,B1,V3(w,w,w))); pts.push_back(s.add(0,A2,B2,V3(y,y,y))); s.start(pts,in_parent,rest); int N=s.N;
  vp_assert(s.map.initialised==1,"the mapping is initialised"); vp_assert(s.to.rest_position.getValue().size()==3,"rest positions of the mapped points exist"); for (int i=0;i<3;++i) for (int k=0;k<3;++k) vp_near(s.to.rest_position.getValue()[(std::size_t)i][k],pts[(std::size_t)i][k],0,"rest positions of the mapped points are kept, or taken from the positions");
  sofa::core::MechanicalParams mp; auto J=[&](const VV3 & v,int q) { V3 r; for (int i=0;i<N;++i) r+=v[(std::size_t)i]*s.L[q][i]; return r; };
  { SData<VV3> in,out; VV3 x=sym("x",N); in.setValue(x); VV3 o(3,V3(7,8,9)); out.setValue(o); s.map.apply(&mp,out,in); for (int q=0;q<3;++q) same(out.getValue()[(std::size_t)q],J(x,q),"mapped position is the shape function combination of the positions of its element"); }
  { SData<VV3> in,out; VV3 x=sym("v",N); in.setValue(x); VV3 o(3,V3(7,8,9)); out.setValue(o); s.map.applyJ(&mp,out,in); for (int q=0;q<3;++q) same(out.getValue()[(std::size_t)q],J(x,q),"mapped velocity is the shape function combination of the velocities of its element"); }
  auto JT=[&](const VV3 & f,int i) { V3 r; for (int q=0;q<3;++q) r+=f[(std::size_t)q]*s.L[q][i]; return r; };
  { SData<VV3> in,out; VV3 f=sym("f",3); in.setValue(f); VV3 o; for (int i=0;i<N;++i) o.push_back(V3(i,-i,2*i)); out.setValue(o); s.map.applyJT(&mp,out,in); for (int i=0;i<N;++i) same(out.getValue()[(std::size_t)i]-o[(std::size_t)i],JT(f,i),"forces are pulled back by the transpose and added"); }
  { SData<MD> in,out; MD a,b; VV3 g=sym("g",4); a.writeLine(2).addCol(1,g[0]); a.writeLine(5).addCol(0,g[1]); a.writeLine(5).addCol(2,g[2]); a.writeLine(7); a.writeLine(9).addCol(2,g[3]); b.writeLine(5).addCol((unsigned)c.c[0][1],V3(1,2,3)); in.setValue(a); out.setValue(b); s.map.applyJT((const sofa::core::ConstraintParams*)nullptr,out,in);
    auto entry=[&](const MD & m,unsigned r,unsigned k) { V3 v; for (auto & row : m.rows) if (row.index==r) for (std::size_t j=0;j<row.cols.size();++j) if (row.cols[j]==k) v+=row.vals[j]; return v; };
    for (unsigned r : {0u,2u,5u,7u,9u}) for (int i=0;i<N;++i) { V3 e=entry(b,r,(unsigned)i); for (int q=0;q<3;++q) e+=entry(a,r,(unsigned)q)*s.L[q][i]; same(entry(out.getValue(),r,(unsigned)i),e,"constraint rows are pulled back by the transpose and added"); } } }
ENTRY(tet_parent) { mapping(TET3,true,true); } ENTRY(tet_same) { mapping(TET3,false,false); }
ENTRY(tetq) { mapping(TETQ,true,false); }
ENTRY(hex) { mapping(HEX3,false,true); }
// a point outside: the mapping refuses to work
template<class C> void refused(const C & c) { P<C> s(c); VV3 pts; pts.push_back(s.add(0,A0,B0,V3(0.5,0.5,0.5))); double d=vp_real("d",0.125,4); V3 o(c.hi[0]+d,c.lo[1],c.hi[2]); pts.push_back(o); s.start(pts,true,true); sofa::core::MechanicalParams mp; SData<VV3> in,out; in.setValue(sym("x",s.N)); VV3 k(2,V3(7,8,9)); out.setValue(k); s.map.apply(&mp,out,in); s.map.applyJ(&mp,out,in); for (int q=0;q<2;++q) same(out.getValue()[(std::size_t)q],k[(std::size_t)q],"nothing is mapped when a point is outside");
  SData<VV3> f,g; g.setValue(sym("f",2)); VV3 z((std::size_t)s.N,V3(1,2,3)); f.setValue(z); s.map.applyJT(&mp,f,g); for (int i=0;i<s.N;++i) same(f.getValue()[(std::size_t)i],z[(std::size_t)i],"nothing is pulled back when a point is outside"); }
ENTRY(outside_tet) { refused(TET3); } ENTRY(outside_hex) { refused(HEX3); }
