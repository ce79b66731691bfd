#pragma once
#include "vtkMock.h"
