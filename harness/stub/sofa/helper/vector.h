#pragma once
#include <sofa/defaulttype/VecTypes.h>
