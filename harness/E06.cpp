// E06: contains_local is the canonical element inflated by eps.
// @bounds local coordinates in [-4,4], tolerance in [0,1]; all element types; points in the band of width 1e-12 around the inflated boundary may be classified either way
#include "elements.h"
template<class E> void go() {
  E e; auto xi=sym_local<E>("xi",-4,4); double eps=vp_real("eps",0,1); constexpr auto S=Info<E>::shape; const double d=1e-12;
  bool in_strict=true,in_wide=true; double s=0;
  for (int k=0;k<CD<E>;++k) {
    double lo=(S==TRI||S==TET)?0:-1; in_strict=in_strict & (xi[k]>=lo-eps+d); in_wide=in_wide & (xi[k]>=lo-eps-d);
    if (!(S==TRI||S==TET)) { in_strict=in_strict & (xi[k]<=1+eps-d); in_wide=in_wide & (xi[k]<=1+eps+d); } s+=xi[k]; }
  if (S==TRI||S==TET) { in_strict=in_strict & (s<=1+eps-d); in_wide=in_wide & (s<=1+eps+d); }
  bool c=e.contains_local(xi,eps);
  vp_assert(!c | in_wide,"reported inside only if in the inflated canonical element");
  vp_assert(c | !in_strict,"every point of the inflated canonical element is reported inside");
  if (S!=TRI&&S!=TET) { bool cl=true; for (int k=0;k<CD<E>;++k) cl=cl & (xi[k]>=-1) & (xi[k]<=1); vp_assert(!cl | e.contains_local(xi,0.),"the closed box is inside without tolerance"); }
  bool c0=e.contains_local(xi);
  vp_assert(!c0 | e.contains_local(xi,2e-10),"default tolerance is at most 2e-10"); vp_assert(c0 | !e.contains_local(xi,0.),"default tolerance includes the closed element");
  for (int i=0;i<NN<E>;++i) vp_assert(e.contains_local(canon_node<E>(i)),"canonical nodes are inside");
  for (const auto & g : e.gauss_nodes()) vp_assert(e.contains_local(g.position),"Gauss points are inside");
  Local<E> cc; for (int k=0;k<CD<E>;++k) cc[k]=canon_center(S); vp_assert(e.contains_local(cc),"center is inside");
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
FOR_ALL(X)
