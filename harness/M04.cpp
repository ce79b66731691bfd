// M04: Neo-Hookean energy, stress and tangent are mutually consistent.
// @bounds Young modulus in [1,10000], Poisson ratio in [-0.9,0.49], every symmetric positive-definite right Cauchy-Green tensor whose Cholesky factor has diagonal in [0.25,4] and off-diagonal entries in [-2,2], every direction of derivation
// @outside the SOFA base classes (a minimal stand-in for BaseObject and Data is used)
// @flags -I$VERIF/harness/stub
#include "material.h"
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
using SofaCaribou::material::NeoHookeanMaterial;
ENTRY(energy) { consistency<NeoHookeanMaterial,false>(0); }
ENTRY(tangent) { consistency<NeoHookeanMaterial,false>(1); }
ENTRY(rest) { rest<NeoHookeanMaterial>(); }
