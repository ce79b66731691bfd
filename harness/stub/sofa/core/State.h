#pragma once
#include <sofa/core/behavior/MechanicalState.h>
