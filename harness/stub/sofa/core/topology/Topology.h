#pragma once
#include <sofa/core/objectmodel/BaseObject.h>
namespace sofa::core::topology { class Topology : public sofa::core::objectmodel::BaseObject { public: using PointID=unsigned int; using Index=unsigned int; using index_type=unsigned int; using EdgeID=unsigned int; using TriangleID=unsigned int; using QuadID=unsigned int; using TetraID=unsigned int; using TetrahedronID=unsigned int; using HexaID=unsigned int; using HexahedronID=unsigned int; }; }
