// Boxes of the intersection checks (E10, E11): a box and its own world mapping, written independently of the code under test.
#pragma once
#include "elements.h"
using V=Eigen::Vector3d;
struct Frame { V c,H; Eigen::Matrix3d R; V world(const V & l) const { V w=c; for (int i=0;i<3;++i) for (int k=0;k<3;++k) w[i]+=R(i,k)*l[k]*H[k]/2; return w; } };
inline Eigen::Matrix3d rotation(int m) { Eigen::Matrix3d R; if (m==0) R.setIdentity(); else if (m==1) R<<0,-1,0, 0,0,-1, 1,0,0; else if (m==2) R<<0,0,1, 1,0,0, 0,1,0; else R<<.6,-.8,0, .8,.6,0, 0,0,1; return R; }
// any center and size, rotation m (signed axis permutations)
inline Frame symbox(int m) { Frame f; for (int k=0;k<3;++k) { f.c[k]=vp_real_n("c",k,-100,100); f.H[k]=vp_real_n("H",k,1./64,64); } f.R=rotation(m); return f; }
inline Frame fixbox(int m) { Frame f; f.c=V(3,-2,.5); f.H=V(2,4,1); f.R=rotation(m); return f; }
template<class G> G general(const Frame & f) { Nodes<G> X; for (int i=0;i<NN<G>;++i) { V w=f.world(canon_node<G>(i)); for (int k=0;k<3;++k) X(i,k)=w[k]; } return G(X); }
#define MARGIN 1e-6
