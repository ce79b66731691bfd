#pragma once
#include <sofa/core/objectmodel/BaseObject.h>
#include <sofa/defaulttype/VecTypes.h>
namespace sofa::type { struct RGBAColor { float c[4]; RGBAColor(float r,float g,float b,float a) : c{r,g,b,a} {} static RGBAColor black() { return {0,0,0,1}; } static RGBAColor red() { return {1,0,0,1}; } static RGBAColor green() { return {0,1,0,1}; } static RGBAColor white() { return {1,1,1,1}; } }; template<class R> struct TBoundingBox { TBoundingBox() = default; TBoundingBox(const R *,const R *) {} }; using BoundingBox=TBoundingBox<SReal>; }
namespace sofa::helper::visual { class DrawTool { public: void saveLastState() {} void restoreLastState() {} void setPolygonMode(int,bool) {} void disableLighting() {} template<class V,class C> void drawLines(const V &,float,const C &) {} template<class V,class C> void drawTriangles(const V &,const C &) {} template<class V,class C> void drawPoints(const V &,float,const C &) {} }; }
namespace sofa::core::visual { struct DisplayFlags { bool getShowForceFields() const { return false; } bool getShowWireFrame() const { return false; } bool getShowMappings() const { return false; } bool getShowMechanicalMappings() const { return false; } }; class VisualParams { public: DisplayFlags displayFlags() const { return {}; } sofa::helper::visual::DrawTool * drawTool() const { static sofa::helper::visual::DrawTool t; return &t; } }; }
