#pragma once
#include <sofa/core/MechanicalParams.h>
#include <sofa/core/visual/VisualParams.h>
#include <sofa/defaulttype/BaseMatrix.h>
namespace sofa::core::behavior {
template<class T> class ForceField : public sofa::core::objectmodel::BaseObject { public: template<class X> using Data=sofa::core::objectmodel::Data<X>; using DataTypes=T; using VecCoord=typename T::VecCoord; using VecDeriv=typename T::VecDeriv; using Coord=typename T::Coord; using Deriv=typename T::Deriv; using Real=typename T::Real; using Inherit1=sofa::core::objectmodel::BaseObject;
  sofa::core::objectmodel::SingleLink<ForceField<T>,MechanicalState<T>,sofa::core::objectmodel::BaseLink::FLAG_STRONGLINK> mstate; Data<bool> f_listening; Data<sofa::type::BoundingBox> f_bbox; Data<SReal> rayleighStiffness; MechanicalState<T> * getMState() { return mstate.get(); } const MechanicalState<T> * getMState() const { return mstate.get(); }
  virtual void addForce(const sofa::core::MechanicalParams * m,sofa::core::MultiVecDerivId f) { addForce(m,*mstate->write(f.id),*mstate->read(m->x().id),mstate->velocity); }
  virtual void addForce(const sofa::core::MechanicalParams *,Data<VecDeriv> &,const Data<VecCoord> &,const Data<VecDeriv> &) = 0; virtual void addDForce(const sofa::core::MechanicalParams *,Data<VecDeriv> &,const Data<VecDeriv> &) = 0; virtual void addKToMatrix(sofa::defaulttype::BaseMatrix *,SReal,unsigned int &) {} virtual SReal getPotentialEnergy(const sofa::core::MechanicalParams *,const Data<VecCoord> &) const = 0; virtual void draw(const sofa::core::visual::VisualParams *) {} };
}
