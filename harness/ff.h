// A SOFA-like scene made of the stand-ins in stub/sofa around the real SofaCaribou force fields and topology.
#pragma once
#include "vp.h"
#include "stdlib.h"
#include <cstring>
#include <algorithm>
#include <memory>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#include <SofaCaribou/Forcefield/CaribouForcefield.inl>
using namespace caribou;
using V3=sofa::type::Vec<3,double>; using VV3=sofa::type::vector<V3>; using DT=sofa::defaulttype::Vec3Types; template<class T> using SData=sofa::core::objectmodel::Data<T>;
#define FF_ELEMENT(E) namespace SofaCaribou::forcefield { template<> inline std::string CaribouForcefield<E>::templateName(const CaribouForcefield<E>*) { return "E"; } template<> inline void CaribouForcefield<E>::triangulate_face(const E &,const std::size_t &,std::vector<sofa::type::Vector3> &) {} }
template<class E> constexpr int FN=(int)caribou::geometry::traits<E>::NumberOfNodesAtCompileTime;
template<class E,class FF> struct Scene { sofa::core::objectmodel::BaseContext ctx; using VV3=sofa::type::vector<sofa::type::Vec<(std::size_t)caribou::geometry::traits<E>::Dimension,double>>; sofa::core::behavior::MechanicalState<typename SofaCaribou::topology::SofaVecType<caribou::geometry::traits<E>::Dimension>::Type> ms; SofaCaribou::topology::CaribouTopology<E> topo; FF ff;
  using Ind=sofa::type::vector<sofa::type::fixed_array<unsigned int,(std::size_t)FN<E>>>;
  void build(const VV3 & X0,const Ind & I) { ms.rest_position.setValue(X0); ms.position.setValue(X0); ms.free_position.setValue(X0); ms.force.setValue(VV3(X0.size())); topo.template findData<Ind>("indices")->setValue(I); topo.template findData<VV3>("position")->setValue(X0); ctx.addObject(&topo); ctx.addObject(&ff); topo.init(); ff.mstate.set(&ms); } };
struct DenseK : sofa::defaulttype::BaseMatrix { int n; std::vector<double> v; DenseK(int m) : n(m),v((std::size_t)(m*m),0.0) {} Index rowSize() const override { return n; } Index colSize() const override { return n; } SReal element(Index i,Index j) const override { return v[(std::size_t)(i*n+j)]; } void resize(Index,Index) override {} void clear() override { for (auto & x : v) x=0; } void set(Index i,Index j,double x) override { v[(std::size_t)(i*n+j)]=x; } using BaseMatrix::add; void add(Index i,Index j,double x) override { v[(std::size_t)(i*n+j)]+=x; } };
