// E02: dL is the exact gradient of L.
// @bounds local coordinates in [-100,100] per axis, step in [1/1024,4]; all 24 element types, every node and direction
// @assume every shape function has degree at most 2 in each single local coordinate, so a central difference with any step is its derivative; the degree is itself checked by comparing two steps
#include "elements.h"
template<class E> void go() {
  E e; auto xi=sym_local<E>("xi",-100,100); double h=vp_real("h",1./1024,4);
  auto D=e.dL(xi);
  for (int k=0;k<CD<E>;++k) {
    Local<E> a=xi,b=xi; a[k]+=h; b[k]-=h; auto La=e.L(a),Lb=e.L(b); auto L0=e.L(xi); double s=0;
    Local<E> a2=xi; a2[k]+=2*h; auto La2=e.L(a2);
    for (int i=0;i<NN<E>;++i) {
      vp_near(La[i]-Lb[i],2*h*D(i,k),1e-6,"derivative is the central difference");
      vp_near(La2[i]-3*La[i]+3*L0[i]-Lb[i],0,1e-6,"shape function is quadratic in each coordinate");
      s+=D(i,k); }
    vp_near(s,0,1e-7,"derivatives sum to zero");
  }
}
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
FOR_ALL(X)
