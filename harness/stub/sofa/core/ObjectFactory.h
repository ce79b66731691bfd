#pragma once
namespace sofa::core { class RegisterObject { public: explicit RegisterObject(const char *) {} template<class T> RegisterObject & add(bool=false) { return *this; } RegisterObject & addAlias(const char *) { return *this; } operator int() const { return 1; } }; }
