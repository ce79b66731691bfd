#pragma once
#include <sofa/core/Mapping.h>
