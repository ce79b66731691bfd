#pragma once
#include <sofa/core/objectmodel/BaseObject.h>
#include <sofa/defaulttype/VecTypes.h>
namespace sofa::core {
struct ConstVecCoordId { int i; static ConstVecCoordId position() { return {1}; } static ConstVecCoordId restPosition() { return {2}; } static ConstVecCoordId freePosition() { return {3}; } static ConstVecCoordId resetPosition() { return {4}; } }; using VecCoordId=ConstVecCoordId;
struct ConstMultiVecCoordId { ConstVecCoordId id{1}; ConstMultiVecCoordId(ConstVecCoordId c) : id(c) {} template<class S> ConstVecCoordId getId(const S &) const { return id; } }; using MultiVecCoordId=ConstMultiVecCoordId;
struct VecDerivId { int i; static VecDerivId force() { return {1}; } static VecDerivId velocity() { return {2}; } static VecDerivId dx() { return {3}; } }; using ConstVecDerivId=VecDerivId; struct MultiVecDerivId { VecDerivId id{1}; MultiVecDerivId(VecDerivId v) : id(v) {} template<class S> VecDerivId getId(const S &) const { return id; } }; using ConstMultiVecDerivId=MultiVecDerivId;
template<class T> class State : public sofa::core::objectmodel::BaseObject, public BaseState { public: template<class X> using Data=sofa::core::objectmodel::Data<X>; using VecCoord=typename T::VecCoord; using VecDeriv=typename T::VecDeriv; Data<VecCoord> position,rest_position,free_position; Data<VecDeriv> force,velocity,dx; State() { reg("position",&position); reg("rest_position",&rest_position); reg("free_position",&free_position); }
  const Data<VecCoord> * read(ConstVecCoordId id) const { return id.i==1 ? &position : id.i==3 ? &free_position : &rest_position; } Data<VecCoord> * write(ConstVecCoordId id) { return id.i==1 ? &position : id.i==3 ? &free_position : &rest_position; } const Data<VecDeriv> * read(VecDerivId id) const { return id.i==1 ? &force : id.i==2 ? &velocity : &dx; } Data<VecDeriv> * write(VecDerivId id) { return id.i==1 ? &force : id.i==2 ? &velocity : &dx; }
  sofa::helper::ReadAccessor<Data<VecCoord>> readPositions() const { return position; } sofa::helper::ReadAccessor<Data<VecCoord>> readRestPositions() const { return rest_position; } sofa::helper::WriteOnlyAccessor<Data<VecCoord>> writeOnlyRestPositions() { return rest_position; } sofa::helper::WriteAccessor<Data<VecCoord>> writePositions() { return position; } std::size_t getSize() const { return position.getValue().size(); } };
}
namespace sofa::core::behavior { template<class T> class MechanicalState : public sofa::core::State<T> {}; }
