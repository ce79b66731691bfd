// S01: iso-surface values are signed consistently with the described shape.
// @bounds all centers, points and radii in [-100,100] (radius in [0,100]); default parameters too
// @outside the SOFA base classes (a minimal stand-in for BaseObject and Data is used); truncation of the cylinder by its length, which the component does not implement
// @flags -I$VERIF/harness/stub
#include "vp.h"
#include <Caribou/config.h>
#include <SofaCaribou/Topology/CircleIsoSurface.h>
#include <SofaCaribou/Topology/SphereIsoSurface.h>
#include <SofaCaribou/Topology/CylinderIsoSurface.h>
using namespace SofaCaribou::topology;
template<class S,int D,int A> void go(bool def) { S s; double r=1,c[3]={0,0,0}; if (!def) { r=vp_real("r",0,100); for (int k=0;k<D;++k) c[k]=vp_real_n("c",k,-100,100); s.template findData<double>("radius")->setValue(r); sofa::type::Vec<D,double> C; for (int k=0;k<D;++k) C[k]=c[k]; s.template findData<sofa::type::Vec<D,double>>("center")->setValue(C); }
  Eigen::Matrix<double,D,1> x; double d=0; for (int k=0;k<D;++k) x[k]=vp_real_n("x",k,-100,100); for (int k=0;k<A;++k) d+=(x[k]-c[k])*(x[k]-c[k]); double v=s.iso_value(x); vp_near(v,d-r*r,1e-8,"iso value is the squared distance minus the squared radius");
  sofa::type::Vec<D,double> X; for (int k=0;k<D;++k) X[k]=x[k]; const IsoSurface<sofa::defaulttype::VecTypes_<D,double>> & b=s; vp_near(b.iso_value(X),d-r*r,1e-8,"iso value at SOFA coordinates"); vp_near(b.iso_value(x),d-r*r,1e-8,"iso value through the base class"); }
ENTRY(circle) { go<CircleIsoSurface,2,2>(false); } ENTRY(circle_default) { go<CircleIsoSurface,2,2>(true); }
ENTRY(sphere) { go<SphereIsoSurface,3,3>(false); } ENTRY(sphere_default) { go<SphereIsoSurface,3,3>(true); }
ENTRY(cylinder) { go<CylinderIsoSurface,3,2>(false); } ENTRY(cylinder_default) { go<CylinderIsoSurface,3,2>(true); }
