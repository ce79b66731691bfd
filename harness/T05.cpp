// T05: the SOFA topology component exposes exactly the elements described by its indices and positions.
// @bounds 1 to 3 elements of every type the component is compiled for, over up to 4 nodes more than one element has; every position in [-10,10]; indices: rotated lists at every offset, one or two indices replaced by any index up to two beyond the last node; positions given or found in the context's state; a domain attached from a mesh with copied or strided indices, before or after initialisation
// @outside changing the indices data after initialisation, longer element lists, the SOFA library itself (stand-ins in harness/stub)
// @flags -I$VERIF/harness/stub
#include "ff.h"
template<class E> struct U { static constexpr int D=(int)caribou::geometry::traits<E>::Dimension,N=FN<E>; using Top=SofaCaribou::topology::CaribouTopology<E>; using Arr=sofa::type::fixed_array<unsigned,(std::size_t)N>; using Ind=sofa::type::vector<Arr>; using V=sofa::type::Vec<D,double>; using VV=sofa::type::vector<V>;
  static VV pos(const char*n,int M) { VV x((std::size_t)M); for (int i=0;i<M;++i) for (int k=0;k<D;++k) x[(std::size_t)i][k]=vp_real_n(n,i,k,-10,10); return x; }
  static void same(const Top & t,const Ind & I,const VV & X) { vp_assert(t.number_of_elements()==I.size(),"number of elements"); vp_assert(t.domain()!=nullptr&&t.domain()->number_of_elements()==I.size(),"number of elements of the domain");
    for (std::size_t e=0;e<I.size();++e) { auto ix=t.domain()->element_indices(e); vp_assert(ix.size()==N,"nodes per element"); auto el=t.element(e); for (int i=0;i<N;++i) { vp_assert(ix[i]==I[e][(std::size_t)i],"node indices are those given"); for (int k=0;k<D;++k) vp_near(el.node((UNSIGNED_INTEGER_TYPE)i)[k],X[I[e][(std::size_t)i]][k],0,"element nodes are the positions of its indices"); } } }
  static Ind indices(int M,int n) { Ind I; for (int e=0;e<n;++e) { Arr a; for (int i=0;i<N;++i) a[(std::size_t)i]=(unsigned)((i*1+e*3+1)%M); I.push_back(a); } return I; }
  // any one or two indices replaced by anything, valid or not
  static void build(int n,bool from_state,int extra=4) { const int M=N+extra; sofa::core::objectmodel::BaseContext ctx; sofa::core::behavior::MechanicalState<typename Top::DataTypes> ms; Top t; VV X=pos("x",M); Ind I=indices(M,n); int e=vp_pick("e",0,n-1),i=vp_pick("i",0,N-1),v=vp_pick("v",0,M+1); I[(std::size_t)e][(std::size_t)i]=(unsigned)v; int w=vp_pick("w",0,2); if (w) I[0][0]=(unsigned)(w==1 ? M-1 : M); bool valid=true; for (auto & a : I) for (auto k : a) if (k>=(unsigned)M) valid=false;
    ctx.addObject(&t); if (from_state) { ms.rest_position.setValue(X); VV Y=X; for (auto & p : Y) p[0]+=1; ms.position.setValue(Y); ctx.addObject(&ms); } else t.template findData<VV>("position")->setValue(X); t.template findData<Ind>("indices")->setValue(I);
    t.init(); if (valid) same(t,I,X); else { vp_assert(t.number_of_elements()==0,"an index beyond the positions is refused"); vp_assert(t.domain()==nullptr,"no domain of invalid indices"); }
    auto & J=t.template findData<Ind>("indices")->getValue(); for (std::size_t a=0;a<I.size();++a) for (std::size_t b=0;b<(std::size_t)N;++b) vp_assert(J[a][b]==I[a][b],"the indices data is not modified"); }
  static void empty() { sofa::core::objectmodel::BaseContext ctx; Top t; ctx.addObject(&t); int c=vp_pick("case",0,3); if (c&1) t.template findData<VV>("position")->setValue(pos("x",N)); if (c&2) t.template findData<Ind>("indices")->setValue(c==3 ? Ind() : indices(N,1)); t.init(); vp_assert(t.number_of_elements()==0&&t.domain()==nullptr,"no elements without indices and positions"); }
  static void attach() { const int M=N+2; sofa::core::objectmodel::BaseContext ctx; VV X=pos("x",M),Y=pos("y",M); using Mesh=caribou::topology::Mesh<(UNSIGNED_INTEGER_TYPE)D>; std::vector<typename Mesh::WorldCoordinates> P; for (auto & p : X) { typename Mesh::WorldCoordinates w; for (int k=0;k<D;++k) w[k]=p[k]; P.push_back(w); } Mesh m(P); Ind I=indices(M,2); I[1][(std::size_t)(N-1)]=(unsigned)vp_pick("v",0,M-1);
    bool strided=vp_pick("strided",0,1)!=0; std::vector<unsigned> buf; const typename Top::Domain * d; if (strided) { for (auto & a : I) { for (auto k : a) buf.push_back(k); buf.push_back(77); buf.push_back(78); } d=m.template add_domain<E,unsigned>(buf.data(),2,(std::size_t)N,(Eigen::Index)(N+2),1); } else { Eigen::Matrix<unsigned,Eigen::Dynamic,Eigen::Dynamic> A(2,N); for (int e=0;e<2;++e) for (int i=0;i<N;++i) A(e,i)=I[(std::size_t)e][(std::size_t)i]; d=m.template add_domain<E,unsigned>(A); }
    Top t; ctx.addObject(&t); int before=vp_pick("before",0,1); if (before) { t.template findData<VV>("position")->setValue(Y); t.template findData<Ind>("indices")->setValue(indices(M,1)); t.init(); same(t,indices(M,1),Y); }
    t.attachDomain(d); vp_assert(t.domain()==d,"the attached domain is the one of the topology"); same(t,I,X); auto & J=t.template findData<Ind>("indices")->getValue(); vp_assert(J.size()==2,"indices data filled with the attached domain"); for (std::size_t e=0;e<2;++e) for (std::size_t i=0;i<(std::size_t)N;++i) vp_assert(J[e][i]==I[e][i],"indices data are those of the attached domain"); } };
using namespace caribou::geometry;
#define X(n,...) ENTRY(build_##n) { U<__VA_ARGS__>::build(1,false,2); } ENTRY(empty_##n) { U<__VA_ARGS__>::empty(); } ENTRY(attach_##n) { U<__VA_ARGS__>::attach(); }
#define COMMA ,
X(tri2l,Triangle<_2D COMMA Linear>) X(tri3l,Triangle<_3D COMMA Linear>) X(tri2q,Triangle<_2D COMMA Quadratic>) X(tri3q,Triangle<_3D COMMA Quadratic>) X(quad2l,Quad<_2D COMMA Linear>) X(quad3l,Quad<_3D COMMA Linear>) X(quad2q,Quad<_2D COMMA Quadratic>) X(quad3q,Quad<_3D COMMA Quadratic>) X(tetl,Tetrahedron<Linear>) X(tetq,Tetrahedron<Quadratic>) X(hexl,Hexahedron<Linear>) X(hexq,Hexahedron<Quadratic>)
ENTRY(three_tri) { U<Triangle<_3D,Linear>>::build(3,false); } ENTRY(state_tri) { U<Triangle<_2D,Linear>>::build(2,true); } ENTRY(state_tet) { U<Tetrahedron<Linear>>::build(2,true); } ENTRY(two_hex) { U<Hexahedron<Linear>>::build(2,false,1); } ENTRY(two_tetq) { U<Tetrahedron<Quadratic>>::build(2,true,1); }
