#pragma once
#include <sofa/core/objectmodel/BaseObject.h>
namespace sofa::simulation { class Node : public sofa::core::objectmodel::BaseContext { public: Node * parent=nullptr; int getNbParents() const { return parent ? 1 : 0; } Node * getFirstParent() const { return parent; } Node * getContext() { return this; } std::string getPathName() const { return ""; } }; }
