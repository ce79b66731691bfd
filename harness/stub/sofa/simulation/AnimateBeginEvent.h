#pragma once
#include <sofa/core/objectmodel/BaseObject.h>
namespace sofa::simulation { class AnimateBeginEvent : public sofa::core::objectmodel::Event { public: static bool checkEventType(const sofa::core::objectmodel::Event * e) { return dynamic_cast<const AnimateBeginEvent*>(e)!=nullptr; } }; }
