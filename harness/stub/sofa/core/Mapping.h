#pragma once
#include <sofa/core/State.h>
#include <sofa/core/MechanicalParams.h>
#include <sofa/core/visual/VisualParams.h>
namespace sofa::core { class ConstraintParams;
template<class I,class O> class Mapping : public sofa::core::objectmodel::BaseObject { public: using In=I; using Out=O; template<class X> using Data=sofa::core::objectmodel::Data<X>; State<I> * from=nullptr; State<O> * to=nullptr; State<I> * getFromModel() { return from; } State<O> * getToModel() { return to; } const State<I> * getFromModel() const { return from; } const State<O> * getToModel() const { return to; } int initialised=0;
  void init() override { ++initialised; }
  virtual void apply(const MechanicalParams *,Data<typename O::VecCoord> &,const Data<typename I::VecCoord> &)=0; virtual void applyJ(const MechanicalParams *,Data<typename O::VecDeriv> &,const Data<typename I::VecDeriv> &)=0; virtual void applyJT(const MechanicalParams *,Data<typename I::VecDeriv> &,const Data<typename O::VecDeriv> &)=0; virtual void applyJT(const ConstraintParams *,Data<typename I::MatrixDeriv> &,const Data<typename O::MatrixDeriv> &) {} virtual void draw(const visual::VisualParams *) {} }; }
