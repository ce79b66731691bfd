// T02: the domain registry of a mesh follows every history of additions and removals.
// @bounds every history of 3 operations, and every history of 4 operations that begins with two additions in one of four combinations (thorough: every history of 4 operations), among: create a named domain, create an automatically named domain, add an external domain under a name, re-add a registered domain (same or other name), add a domain of another mesh, remove by name, remove by handle; names are arbitrary strings of 1 or 2 letters (1 letter in the quick histories of 4 operations); up to 3 operations create domains of two element types
// @outside adding an external domain under a name that is already taken; uniqueness of the automatic names
#include "vp.h"
#include "stdlib.h"
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry;
using M=Mesh<2>; using Tri=Triangle<_2D,Linear>; using Seg=Segment<_2D,Linear>; using DT=Domain<Tri>; using DS=Domain<Seg,int>;
static bool one=false;
static std::string name(int step) { VpName a=VPN("c",step),b=VPN("len",step),d=VPN("d",step); char c[3]; c[0]=(char)vp_int(a.b,'a','z'); c[1]=0; c[2]=0;
#ifndef VP_THOROUGH
  if (one) return std::string(c);
#endif
  if (vp_pick(b.b,0,1)) c[1]=(char)vp_int(d.b,'a','z'); return std::string(c); }
struct Rec { std::string n; bool named; const BaseDomain * d; };
template<int K> void history(int first=-1,int second=-1) {
  M m, other; DT::ElementsIndices I(1,3); I<<0,1,2; DS::ElementsIndices J(2,2); J<<0,1,1,2; Rec r[K]; int n=0;
  const BaseDomain * foreign=other.add_domain<Tri>(std::string("f"),I);
  for (int s=0;s<K;++s) { VpName on=VPN("op",s); int op= s==0&&first>=0 ? first : s==1&&second>=0 ? second : (int)vp_pick(on.b,0,6); 
    if (op==0) { std::string a=name(s); bool dup=false; for (int i=0;i<n;++i) if (r[i].n==a) dup=true; bool thrown=false; const BaseDomain * d=nullptr; try { if (s%2) d=m.add_domain<Seg,int>(a,J); else d=m.add_domain<Tri>(a,I); } catch (const std::domain_error &) { thrown=true; } vp_assert(thrown==dup,"creating a domain fails exactly when its name is taken"); if (!thrown) { vp_assert(d!=nullptr,"created"); r[n].n=a; r[n].named=true; r[n].d=d; ++n; } }
    else if (op==1) { const BaseDomain * d=m.add_domain<Tri>(I); r[n].n= (int)m.number_of_domains()==n+1 ? m.domains()[n].first : std::string("?"); r[n].named=true; r[n].d=d; ++n; vp_assert(!r[n-1].n.empty(),"automatic name"); }
    else if (op==2) { std::string a=name(s); bool dup=false; for (int i=0;i<n;++i) if (r[i].n==a) dup=true; vp_assume(!dup); auto * d=new DS(nullptr,J); BaseDomain * q=m.add_domain(d,a); vp_assert(q==d,"adding an external domain returns it"); r[n].n=a; r[n].named=true; r[n].d=d; ++n; }
    else if (op==3) { vp_assume(n>0); VpName h=VPN("h",s); int i=vp_pick(h.b,0,n-1); std::string a=name(s); bool same=(a==r[i].n); bool thrown=false; BaseDomain * q=nullptr; try { q=m.add_domain(const_cast<BaseDomain*>(r[i].d),a); } catch (const std::logic_error &) { thrown=true; } vp_assert(thrown==!same,"re-adding a registered domain is refused unless the name is the same"); if (!thrown) vp_assert(q==r[i].d,"re-adding returns the domain"); }
    else if (op==4) { bool thrown=false; try { m.add_domain(const_cast<BaseDomain*>(foreign),name(s)); } catch (const std::logic_error &) { thrown=true; } vp_assert(thrown,"adding the domain of another mesh is refused"); }
    else if (op==5) { std::string a=name(s); int at=-1; for (int i=0;i<n&&at<0;++i) if (r[i].n==a) at=i; bool q=m.remove_domain(a); vp_assert(q==(at>=0),"removal by name succeeds exactly for a known name"); if (at>=0) { for (int i=at;i+1<n;++i) r[i]=r[i+1]; --n; } }
    else { VpName h=VPN("h",s); int i=vp_pick(h.b,0,n); const BaseDomain * d= i<n ? r[i].d : foreign; bool q=m.remove(d); vp_assert(q==(i<n),"removal by handle succeeds exactly for a registered domain"); if (i<n) { for (int k=i;k+1<n;++k) r[k]=r[k+1]; --n; } }
    vp_assert((int)m.number_of_domains()==n,"number of domains"); auto l=m.domains(); vp_assert((int)l.size()==n,"size of the list of domains");
    if ((int)l.size()==n && (int)m.number_of_domains()==n) for (int i=0;i<n;++i) { vp_assert(l[i].second==r[i].d,"domains are listed in insertion order"); vp_assert(l[i].first==r[i].n,"names are listed in insertion order"); vp_assert(m.domain((UNSIGNED_INTEGER_TYPE)i)==r[i].d,"domain by index"); vp_assert(m.domain(r[i].n)==r[i].d,"domain by name"); vp_assert(r[i].d->mesh()==&m,"domain is attached to the mesh"); }
    vp_assert(m.domain(std::string("ABC"))==nullptr,"unknown name"); vp_assert(other.number_of_domains()==1&&foreign->mesh()==&other,"the other mesh is unchanged"); } }
#define H(a,b) ENTRY(h##a##b) { one=true; history<4>(a,b); }
#ifdef VP_THOROUGH
#define HH(a) H(a,0) H(a,1) H(a,2) H(a,3) H(a,4) H(a,5) H(a,6)
HH(0) HH(1) HH(2) HH(4) HH(5) HH(6)
#else
H(0,0) H(0,2) H(1,0) H(2,1)
#define H3(a) ENTRY(h##a) { history<3>(a); }
H3(0) H3(1) H3(2) H3(4) H3(5) H3(6)
#endif
