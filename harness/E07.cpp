// E07: boundary elements (and edge lists) are the conforming, outward sides of their element.
// @bounds node coordinates in [-10,10], boundary parameters in [-2,2]; every boundary element and edge of every element type; rectangular hexahedra with any center/size and the rotations identity and two signed axis permutations
#include "elements.h"
template<class E> using BE = typename traits<E>::BoundaryElementType;
static double dot3(const double*a,const double*b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
// combinatorial part, in canonical space
template<class E> void indices(const E & e) {
  constexpr auto S=Info<E>::shape; using B=BE<E>; constexpr auto BS=Info<B>::shape; constexpr int nb=NN<B>;
  const auto & I=e.boundary_elements_node_indices(); constexpr int n = S==TRI?3: S==QUAD?4: S==TET?4: 6;
  vp_assert((int)I.size()==n && (int)e.number_of_boundary_elements()==n,"number of boundary elements");
  double mid[6][3]={};
  for (int b=0;b<n;++b) {
    vp_assert((int)I[b].size()==nb,"nodes per boundary element"); bool ok=true; for (int j=0;j<nb;++j) ok=ok&(I[b][j]<(unsigned)NN<E>); vp_assert(ok,"boundary node indices in range"); if (!ok) return;
    double c[8][3]={}; for (int j=0;j<nb;++j) for (int k=0;k<CD<E>;++k) c[j][k]=canon(S,I[b][j],k);
    const int corners= BS==SEG?2: BS==TRI?3: 4; for (int j=0;j<corners;++j) for (int k=0;k<3;++k) mid[b][k]+=c[j][k]/corners;
    // corners lie on one side of the canonical element, mid-nodes between the right corners
    bool on=false; // one of the side functions vanishes at all nodes
    for (int f=0;f<(S==TRI?3:S==QUAD?4:S==TET?4:6);++f) { bool all=true; for (int j=0;j<nb;++j) { double v;
        if (S==TRI||S==TET) v = f<CD<E> ? c[j][f] : 1-c[j][0]-c[j][1]-c[j][2]; else v = c[j][f%CD<E>]-(f<CD<E>?1:-1); all=all&(v==0); } on=on|all; }
    vp_assert(on,"boundary nodes lie on one side");
    for (int j=corners;j<nb;++j) { int p=j-corners,q=(p+1)%corners; if (BS==SEG) {p=0;q=1;} for (int k=0;k<3;++k) vp_near(c[j][k],(c[p][k]+c[q][k])/2,0,"mid-node sits between its two corners"); }
    double n3[3], ctr=canon_center(S), out[3]; for (int k=0;k<3;++k) out[k]=mid[b][k]-(k<CD<E>?ctr:0);
    if (BS==SEG) { n3[0]=c[1][1]-c[0][1]; n3[1]=-(c[1][0]-c[0][0]); n3[2]=0; }
    else { const double*a=c[0],*d=c[1],*f=c[corners-1]; double u[3],v[3]; for (int k=0;k<3;++k){u[k]=d[k]-a[k];v[k]=f[k]-a[k];} n3[0]=u[1]*v[2]-u[2]*v[1]; n3[1]=u[2]*v[0]-u[0]*v[2]; n3[2]=u[0]*v[1]-u[1]*v[0];
      if (corners==4) for (int k=0;k<3;++k) vp_near(c[2][k],c[1][k]+c[3][k]-c[0][k],0,"face corners listed around the perimeter"); }
    vp_assert(dot3(n3,out)>0,"boundary orientation is outward");
    for (int o=0;o<b;++o) vp_assert(mid[o][0]!=mid[b][0]||mid[o][1]!=mid[b][1]||mid[o][2]!=mid[b][2],"boundary elements are distinct");
  }
}
template<class E,class L> void edge_list(const E &,const L & I) {
  constexpr auto S=Info<E>::shape; const int n=S==TET?6:12; vp_assert((int)I.size()==n,"number of edges"); double mid[12][3];
  for (int b=0;b<n;++b) { vp_assert((int)I[b].size()==Info<E>::order+1,"nodes per edge"); for (int k=0;k<3;++k) { double p=canon(S,I[b][0],k),q=canon(S,I[b][1],k); mid[b][k]=(p+q)/2; if (Info<E>::order==2) vp_near(canon(S,I[b][Info<E>::order],k),mid[b][k],0,"edge mid-node is between its ends"); }
    int differ=0; for (int k=0;k<3;++k) differ+=canon(S,I[b][0],k)!=canon(S,I[b][1],k); vp_assert(S==TET?differ>=1:differ==1,"edge joins neighbouring corners"); vp_assert((int)I[b][0]<(S==TET?4:8)&&(int)I[b][1]<(S==TET?4:8),"edge ends are corners");
    for (int o=0;o<b;++o) vp_assert(mid[o][0]!=mid[b][0]||mid[o][1]!=mid[b][1]||mid[o][2]!=mid[b][2],"edges are distinct"); }
}
// geometric part: the boundary element is the restriction of the parent mapping
template<class E> void trace(const E & e) {
  constexpr auto S=Info<E>::shape; using B=BE<E>; const auto & I=e.boundary_elements_node_indices(); constexpr int D=E::Dimension; auto s=sym_local<B>("s",-2,2);
  for (int b=0;b<(int)I.size();++b) { B f=e.boundary_element(b); auto L=B().L(s); Local<E> x; for (int k=0;k<CD<E>;++k) { x[k]=0; for (int j=0;j<NN<B>;++j) x[k]+=L[j]*canon(S,I[b][j],k); }
    World<E> p=f.world_coordinates(s),q=e.world_coordinates(x); for (int k=0;k<D;++k) vp_near(p[k],q[k],1e-6,"boundary element traces the parent mapping");
    for (int j=0;j<NN<B>;++j) { World<E> u=f.node(j),v=e.node(I[b][j]); for (int k=0;k<D;++k) vp_near(u[k],v[k],1e-8,"boundary nodes are the parent nodes"); } }
}
template<class E> void go() { E e(sym_nodes<E>()); indices(e); trace(e); }
template<class E> void vgo() { E e(sym_nodes<E>()); indices(e); edge_list(e,e.edges()); edge_list(e,e.edges()); trace(e); const auto F=e.faces(); const auto & I=e.boundary_elements_node_indices(); vp_assert(F==I,"faces() are the boundary elements"); }
#define X(n,...) ENTRY(n) { go<__VA_ARGS__>(); }
X(tri2l,Triangle<_2D,Linear>) X(tri3l,Triangle<_3D,Linear>) X(tri2q,Triangle<_2D,Quadratic>) X(tri3q,Triangle<_3D,Quadratic>) X(quad2l,Quad<_2D,Linear>) X(quad3l,Quad<_3D,Linear>) X(quad2q,Quad<_2D,Quadratic>) X(quad3q,Quad<_3D,Quadratic>)
#undef X
#define X(n,...) ENTRY(n) { vgo<__VA_ARGS__>(); }
X(tetl,Tetrahedron<Linear>) X(tetq,Tetrahedron<Quadratic>) X(hexl,Hexahedron<Linear>) X(hexq,Hexahedron<Quadratic>)
#undef X
template<class E> E sym_rect() { constexpr int D=E::Dimension; World<E> c=sym_world<E>("c",-100,100); typename E::Size H; for (int k=0;k<CD<E>;++k) H[k]=vp_real_n("H",k,1./64,64); typename E::Rotation R; R.setIdentity();
  int r=(int)vp_pick("rot",0,2); if constexpr (D==3) { if (r==1) R<<0,0,1, 1,0,0, 0,1,0; if (r==2) R<<0,-1,0, 1,0,0, 0,0,1; } else { if (r==1) R<<0,-1,1,0; if (r==2) R<<-1,0,0,-1; } return E(c,H,R); }
template<class E> void rgo() { E e=sym_rect<E>(); indices(e); trace(e); }
template<class E> void rvgo() { E e=sym_rect<E>(); indices(e); edge_list(e,e.edges()); trace(e); }
#define X(n,...) ENTRY(n) { rgo<__VA_ARGS__>(); }
X(rquad2l,RectangularQuad<_2D,Linear>) X(rquad3l,RectangularQuad<_3D,Linear>) X(rquad2q,RectangularQuad<_2D,Quadratic>) X(rquad3q,RectangularQuad<_3D,Quadratic>)
#undef X
#define X(n,...) ENTRY(n) { rvgo<__VA_ARGS__>(); }
X(rhexl,RectangularHexahedron<Linear>) X(rhexq,RectangularHexahedron<Quadratic>)
