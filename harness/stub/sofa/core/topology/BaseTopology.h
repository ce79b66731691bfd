#pragma once
#include <sofa/core/topology/BaseMeshTopology.h>
