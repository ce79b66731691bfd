#pragma once
#include <sofa/core/behavior/MechanicalState.h>
namespace sofa::core { class ExecParams { public: virtual ~ExecParams() = default; }; class MechanicalParams : public ExecParams { public: ConstVecCoordId x_id=ConstVecCoordId::position(); SReal k=1; ConstMultiVecCoordId x() const { return x_id; } SReal kFactor() const { return k; } SReal kFactorIncludingRayleighDamping(SReal r) const { return k+r; } }; }
