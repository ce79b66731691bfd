// T03: copies and moves of meshes and domains are independent and complete.
// @bounds meshes of 3 or 4 nodes in 2D and 3D with arbitrary positions and 0 to 3 domains (own storage, external matrix, external strided buffer; node indices of type size_t and int, arbitrary valid values); copy construction, move construction, copy and move assignment (onto empty and non-empty meshes, onto itself), swap, clone, copy and move of a domain, each followed by modification and destruction of the source
// @outside the state of a moved-from mesh beyond being destructible and assignable
#include "vp.h"
#include "stdlib.h"
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
constexpr int N=4;
struct Ref { double X[N][3]; int n; int kinds[3]; int nd; long long tri[2][3]; long long seg[2][2]; };
static const char * const NAMES[3]={"one","the second domain of the mesh","3"};
template<int D> struct T { using M=Mesh<D>; using Tri=Triangle<D,Linear>; using Seg=Segment<D,Linear>; using DT=Domain<Tri>; using DS=Domain<Seg,int>;
  typename DT::ElementsIndices ext; int buf[16]; 
  void inputs(Ref & r,const char * tag,int n) { r.n=n; r.nd=0; for (int i=0;i<n;++i) for (int k=0;k<D;++k) r.X[i][k]=vp_real_n(tag,i,k,-100,100); for (int e=0;e<2;++e) { for (int j=0;j<3;++j) { VpName v=VPN("t",e,j); r.tri[e][j]=vp_int(v.b,0,n-1); } for (int j=0;j<2;++j) { VpName v=VPN("s",e,j); r.seg[e][j]=vp_int(v.b,0,n-1); } } 
    ext.resize(2,3); for (int e=0;e<2;++e) for (int j=0;j<3;++j) ext(e,j)=r.tri[e][j]; for (int i=0;i<16;++i) buf[i]=0; for (int e=0;e<2;++e) for (int j=0;j<2;++j) buf[e*5+j*2]=(int)r.seg[e][j]; }
  M * make(Ref & r,int nd,int k0=0) { std::vector<typename M::WorldCoordinates> v; for (int i=0;i<r.n;++i) { typename M::WorldCoordinates p; for (int k=0;k<D;++k) p[k]=r.X[i][k]; v.push_back(p); } M * m=new M(v);
    for (int d=0;d<nd;++d) { int kind=(k0+d)%4; r.kinds[d]=kind; std::string nm(NAMES[d]);
      if (kind==0) { typename DT::ElementsIndices I(ext); m->template add_domain<Tri>(nm,I); }
      else if (kind==1) { const int * b=buf; m->template add_domain<Seg,int>(nm,b,(Eigen::Index)2,(Eigen::Index)2,(Eigen::Index)5,(Eigen::Index)2); }
      else if (kind==2) { const typename DT::ElementsIndices * e=&ext; m->template add_domain<Tri>(nm,e); }
      else { typename DS::ElementsIndices J(2,2); for (int e=0;e<2;++e) for (int j=0;j<2;++j) J(e,j)=(int)r.seg[e][j]; m->add_domain(new DS(nullptr,J),nm); } }
    r.nd=nd; return m; }
  static void domain(const BaseDomain * d,int kind,const Ref & r,const BaseMesh * m) {
    vp_assert(d->mesh()==m,"the domain belongs to its mesh"); vp_assert(d->number_of_elements()==2,"number of elements is kept");
    if (kind%2==0) { const DT * t=dynamic_cast<const DT*>(d); vp_assert(t!=nullptr,"type of the domain is kept"); if (!t) return; vp_assert(t->number_of_nodes_per_elements()==3,"nodes per element"); for (int e=0;e<2;++e) { auto I=t->element_indices(e); for (int j=0;j<3;++j) vp_assert((long long)I[j]==r.tri[e][j],"connectivity is kept"); if (m) { Tri x=t->element(e); for (int j=0;j<3;++j) for (int k=0;k<D;++k) vp_near(x.node(j)[k],pos(r,r.tri[e][j],k),0,"geometry of the elements is kept"); } } }
    else { const DS * t=dynamic_cast<const DS*>(d); vp_assert(t!=nullptr,"type of the domain is kept"); if (!t) return; vp_assert(t->number_of_nodes_per_elements()==2,"nodes per element"); for (int e=0;e<2;++e) { auto I=t->element_indices(e); for (int j=0;j<2;++j) vp_assert((long long)I[j]==r.seg[e][j],"connectivity is kept"); if (m) { Seg x=t->element(e); for (int j=0;j<2;++j) for (int k=0;k<D;++k) vp_near(x.node(j)[k],pos(r,r.seg[e][j],k),0,"geometry of the elements is kept"); } } } }
  static double pos(const Ref & r,long long i,int k) { for (int j=0;j<r.n;++j) if (i==j) return r.X[j][k]; return 0; }
  static void same(const M & m,const Ref & r) { vp_assert((int)m.number_of_nodes()==r.n,"number of nodes is kept"); for (int i=0;i<r.n;++i) { auto p=m.position(i); for (int k=0;k<D;++k) vp_near(p[k],r.X[i][k],0,"positions are kept"); }
    vp_assert((int)m.number_of_domains()==r.nd,"number of domains is kept"); auto l=m.domains(); if ((int)l.size()==r.nd) for (int d=0;d<r.nd;++d) { vp_assert(l[d].first==std::string(NAMES[d]),"names of the domains are kept"); vp_assert(m.domain(std::string(NAMES[d]))==l[d].second,"domains are found by name"); domain(l[d].second,r.kinds[d],r,&m); } }
  static void own(const M & a,const M & b) { auto l=a.domains(), q=b.domains(); for (auto & x : l) for (auto & y : q) vp_assert(x.second!=y.second,"meshes do not share domains"); }
  void run(int n,int nd,int k0,int op) { Ref r,q; inputs(r,"X",n); M * a=make(r,nd,k0);
    if (op==0) { M b(*a); same(b,r); same(*a,r); own(*a,b); if (nd>0) a->remove(a->domain((UNSIGNED_INTEGER_TYPE)0)); same(b,r); delete a; same(b,r); }
    else if (op==1) { M b(std::move(*a)); same(b,r); delete a; same(b,r); }
    else if (op==2) { q.n=2; q.nd=0; for (int i=0;i<2;++i) for (int k=0;k<D;++k) q.X[i][k]=vp_real_n("Y",i,k,-100,100); for (int e=0;e<2;++e) { for (int j=0;j<3;++j) q.tri[e][j]=r.tri[e][j]; for (int j=0;j<2;++j) q.seg[e][j]=r.seg[e][j]; } M * b=make(q,1,k0+1); *b=*a; same(*b,r); same(*a,r); own(*a,*b); M e; *a=e; same(*b,r); vp_assert(a->number_of_nodes()==0&&a->number_of_domains()==0,"assigned from an empty mesh"); delete a; same(*b,r); delete b; }
    else if (op==3) { M b; b=std::move(*a); same(b,r); *a=b; same(*a,r); own(*a,b); delete a; same(b,r); }
    else if (op==4) { Ref s; s.n=n; for (int i=0;i<n;++i) for (int k=0;k<D;++k) s.X[i][k]=vp_real_n("Y",i,k,-100,100); for (int e=0;e<2;++e) { for (int j=0;j<3;++j) s.tri[e][j]=r.tri[e][j]; for (int j=0;j<2;++j) s.seg[e][j]=r.seg[e][j]; } M * b=make(s,1,k0+2); swap(*a,*b); same(*a,s); same(*b,r); delete a; same(*b,r); delete b; }
    else if (op==5) { M & self=*a; *a=self; same(*a,r); delete a; }
    else { auto l=a->domains(); BaseDomain * c[3]; for (int d=0;d<nd;++d) { c[d]=l[d].second->clone(); vp_assert(c[d]!=l[d].second,"clone is a new domain"); domain(c[d],r.kinds[d],r,nullptr); } delete a; for (int d=0;d<nd;++d) domain(c[d],r.kinds[d],r,nullptr); M m; for (int d=0;d<nd;++d) { m.add_domain(c[d],std::string(NAMES[d])); vp_assert(c[d]->mesh()==&m,"a clone can be added to another mesh"); } } }
  void external(int op) { Ref r; inputs(r,"X",3); DT a(nullptr,&ext); DS b(nullptr,(const int*)buf,2,2,5,2); typename DT::ElementsIndices own(ext); DT c(nullptr,own);
    auto chk=[&](const DT & a2,const DS & b2,const DT & c2) { Ref q=r; for (int e=0;e<2;++e) { for (int j=0;j<3;++j) { VpName v=VPN("u",e,j); q.tri[e][j]=vp_int(v.b,0,2); ext(e,j)=q.tri[e][j]; } for (int j=0;j<2;++j) { VpName v=VPN("v",e,j); q.seg[e][j]=vp_int(v.b,0,2); buf[e*5+j*2]=(int)q.seg[e][j]; } } domain(&a2,0,q,nullptr); domain(&b2,1,q,nullptr); domain(&c2,0,r,nullptr); };
    if (op==0) { DT a2(a); DS b2(b); DT * c1=new DT(c); DT c2(*c1); delete c1; chk(a2,b2,c2); } else { DT a2(std::move(a)); DS b2(std::move(b)); DT * c1=new DT(c); DT c2(std::move(*c1)); delete c1; chk(a2,b2,c2); } }
};
#define R(D) ENTRY(copy##D) { T<D> t; int nd=vp_pick("nd",0,3),k=vp_pick("k",0,3); t.run(4,nd,k,0); } ENTRY(move##D) { T<D> t; int nd=vp_pick("nd",0,3),k=vp_pick("k",0,3); t.run(3,nd,k,1); } ENTRY(assign##D) { T<D> t; int nd=vp_pick("nd",0,2),k=vp_pick("k",0,3); t.run(3,nd,k,2); } ENTRY(moveassign##D) { T<D> t; int nd=vp_pick("nd",0,2),k=vp_pick("k",0,3); t.run(3,nd,k,3); } ENTRY(swap##D) { T<D> t; int nd=vp_pick("nd",0,2),k=vp_pick("k",0,3); t.run(3,nd,k,4); } ENTRY(self##D) { T<D> t; int nd=vp_pick("nd",0,2),k=vp_pick("k",0,3); t.run(3,nd,k,5); } ENTRY(clone##D) { T<D> t; int nd=vp_pick("nd",1,3),k=vp_pick("k",0,3); t.run(3,nd,k,6); } ENTRY(domains##D) { T<D> t; int op=vp_pick("op",0,1); t.external(op); }
R(2) R(3)
