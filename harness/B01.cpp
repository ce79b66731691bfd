// B01: embedding finds the containing element and exact local coordinates.
// @bounds 11 container meshes of 1 to 4 affine elements (segments, triangles, quads, tetrahedra, hexahedra; linear and quadratic; irregular sizes, gaps, both orientations, across the origin) with an arbitrary point of a box around them, several points at once, and 1D meshes of 2 segments of mean size 1 or 6 with an arbitrary middle node
// @outside containers with curved or bilinear elements; points outside of every element by less than 1e-3 in local coordinates; larger meshes
// @opt H_nodes1 select=fork
// @opt H_nodes2 select=fork
#include "bary.h"
template<class C,class B> void check(const C & c,const B & b,const double * p) { constexpr Shape S=Info<typename C::El>::shape; constexpr int D=C::D; bool in=false,nearby=false; 
  double xi[C::M][3]; for (int e=0;e<C::M;++e) { local_of(c,e,p,xi[e]); in=in|inside(S,xi[e],0); nearby=nearby|inside(S,xi[e],-1e-3); }
  vp_assert(b.element_index>=-1&&b.element_index<C::M,"index of an element of the domain or -1");
  if (b.element_index<0) { vp_assert(!in,"a point of an element is found"); }
  else { vp_assert(nearby,"a point outside every element is not attributed to one"); for (int e=0;e<C::M;++e) if (b.element_index==e) { double y[3],w[3]; for (int k=0;k<D;++k) y[k]=b.local_coordinates[k]; world_of(c,e,y,w); for (int k=0;k<D;++k) vp_near(w[k],p[k],1.1e-5,"local coordinates map to the point"); vp_assert(inside(S,y,-1e-9),"local coordinates are inside the element"); } } }
template<class C> void one(const C & c) { Domain<typename C::El> * d; auto * m=make_mesh(c,&d); BarycentricContainer<Domain<typename C::El>> bc(d); double p[3]; typename C::El::WorldCoordinates w; for (int k=0;k<C::D;++k) w[k]=p[k]=vp_real_n("p",k,c.lo[k],c.hi[k]); check(c,bc.barycentric_point(w),p); 
  auto l=bc.closest_elements(w); vp_assert(l.size()<=(unsigned)C::M,"candidates are elements"); for (auto & b : l) { vp_assert(b.element_index>=0&&b.element_index<C::M,"candidate is an element"); for (int e=0;e<C::M;++e) if (b.element_index==e) { double y[3],v[3]; for (int k=0;k<C::D;++k) y[k]=b.local_coordinates[k]; world_of(c,e,y,v); for (int k=0;k<C::D;++k) vp_near(v[k],p[k],1.1e-5,"local coordinates in the candidate"); } } delete m; }
// points: symbolic along the axes given by bits, fixed otherwise
template<class C,int N> void many(const C & c,const double (&f)[N][3],const int (&sym)[N]) { Domain<typename C::El> * d; auto * m=make_mesh(c,&d); double p[N][3]; Eigen::Matrix<double,N,C::D> P; for (int i=0;i<N;++i) for (int k=0;k<C::D;++k) P(i,k)=p[i][k]= sym[i]>>k&1 ? vp_real_n("p",i,k,c.lo[k],c.hi[k]) : f[i][k]; auto bc=d->embed(P); const auto & b=bc.barycentric_points(); const auto & o=bc.outside_nodes(); vp_assert(b.size()==N,"one barycentric point per embedded point"); std::size_t at=0; 
  if (b.size()==N) for (int i=0;i<N;++i) { check(c,b[i],p[i]); if (b[i].element_index<0) { vp_assert(at<o.size()&&o[at<o.size()?at:0]==(unsigned)i,"points outside are listed in order"); ++at; } } vp_assert(o.size()==at,"only points outside are listed"); delete m; }
#define O(n,c) ENTRY(n) { one(c); }
O(seg1,SEG1) O(seg1q,SEG1Q) O(tri2,TRI2) O(tri2gap,TRI2GAP) O(tri2q,TRI2Q) O(quad2,QUAD2) O(quad2q,QUAD2Q) O(tet,TET3) O(tetq,TETQ) O(hex,HEX3)
ENTRY(many1) { many<decltype(SEG1),3>(SEG1,{{0},{9},{0}},{1,0,1}); }
ENTRY(many2) { many<decltype(TRI2GAP),4>(TRI2GAP,{{0,.25},{2,2},{0,3.5},{.25,.25}},{1,0,1,0}); }
ENTRY(many3) { many<decltype(TETQ),4>(TETQ,{{.25,.25,0},{5,5,5},{0,0,0},{0,.25,.25}},{4,0,0,1}); }
// arbitrary nodes in 1D, in units of the mean size of the elements
static void nodes(double h) { using C=Case<Segment<_1D,Linear>,3,2>; C c; double s0=vp_pick("s0",0,2)*.9375-1.5,s1=vp_real("s1",-1.25,2.25),t=vp_real("t",-2,3); vp_assume(s1>=s0+.25&&s1<=s0+1.75); c.X[0][0]=h*s0; c.X[1][0]=h*s1; c.X[2][0]=h*(s0+2); c.c[0][0]=0; c.c[0][1]=1; c.c[1][0]=2; c.c[1][1]=1; Domain<C::El> * d; auto * m=make_mesh(c,&d); BarycentricContainer<Domain<C::El>> bc(d); C::El::WorldCoordinates w; w[0]=h*t; auto b=bc.barycentric_point(w);
  vp_assert(b.element_index>=-1&&b.element_index<2,"index of an element of the domain or -1"); if (b.element_index<0) vp_assert(t<s0||t>s0+2,"a point of an element is found"); else { double x=b.local_coordinates[0],l=b.element_index==0?s0:s0+2; vp_assert(t>=s0-1e-3&&t<=s0+2+1e-3,"a point outside every element is not attributed to one"); vp_assert(x>=-1-1e-9&&x<=1+1e-9,"local coordinates are inside the element"); vp_near(h*(l*(1-x)/2+s1*(1+x)/2),h*t,1.1e-5,"local coordinates map to the point"); } delete m; }
ENTRY(nodes1) { nodes(1); }
ENTRY(nodes2) { nodes(6); }
ENTRY(empty) { Mesh<2> m; Domain<Triangle<_2D,Linear>>::ElementsIndices I(0,3); auto * d=m.add_domain<Triangle<_2D,Linear>>(std::string("e"),I); bool thrown=false; try { BarycentricContainer<Domain<Triangle<_2D,Linear>>> bc(d); } catch (const std::runtime_error &) { thrown=true; } vp_assert(thrown,"an empty domain is refused"); }
