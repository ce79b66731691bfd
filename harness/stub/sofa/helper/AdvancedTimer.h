#pragma once
namespace sofa::helper { struct AdvancedTimer { static void stepBegin(const char *) {} static void stepEnd(const char *) {} static void stepNext(const char *,const char *) {} static void valSet(const char *,double) {} static void begin(const char *) {} static void end(const char *) {} }; struct ScopedAdvancedTimer { ScopedAdvancedTimer(const char *) {} ~ScopedAdvancedTimer() {} }; }
