#pragma once
#include <sofa/core/topology/Topology.h>
#include <sofa/defaulttype/VecTypes.h>
namespace sofa::core::topology { class BaseMeshTopology : public Topology { public: using Tetra=sofa::type::fixed_array<Index,4>; using Hexa=sofa::type::fixed_array<Index,8>; using Tetrahedron=Tetra; using Hexahedron=Hexa; using SeqTetrahedra=sofa::type::vector<Tetra>; using SeqHexahedra=sofa::type::vector<Hexa>; SeqTetrahedra tetrahedra; SeqHexahedra hexahedra;
  std::size_t getNbTetrahedra() const { return tetrahedra.size(); } std::size_t getNbTetras() const { return tetrahedra.size(); } std::size_t getNbHexahedra() const { return hexahedra.size(); } std::size_t getNbHexas() const { return hexahedra.size(); } const SeqTetrahedra & getTetrahedra() const { return tetrahedra; } const SeqTetrahedra & getTetras() const { return tetrahedra; } const SeqHexahedra & getHexahedra() const { return hexahedra; } const SeqHexahedra & getHexas() const { return hexahedra; }
  const Tetra & getTetrahedron(Index i) const { return tetrahedra[i]; } const Tetra & getTetra(Index i) const { return tetrahedra[i]; } const Hexa & getHexahedron(Index i) const { return hexahedra[i]; } const Hexa & getHexa(Index i) const { return hexahedra[i]; } }; }
