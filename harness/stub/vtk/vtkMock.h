// Stand-ins for the few VTK classes the reader uses, with VTK's contracts: the data set behind every reader is `vp_grid`, set by the harness.
// As for VTK's single-precision arrays, GetPoint returns a buffer that the next call overwrites.
#pragma once
#include "vp.h"
#include <cstddef>
typedef long long vtkIdType;
typedef enum { VTK_EMPTY_CELL=0, VTK_VERTEX=1, VTK_POLY_VERTEX=2, VTK_LINE=3, VTK_POLY_LINE=4, VTK_TRIANGLE=5, VTK_TRIANGLE_STRIP=6, VTK_POLYGON=7, VTK_PIXEL=8, VTK_QUAD=9, VTK_TETRA=10, VTK_VOXEL=11, VTK_HEXAHEDRON=12, VTK_WEDGE=13, VTK_PYRAMID=14,
  VTK_QUADRATIC_EDGE=21, VTK_QUADRATIC_TRIANGLE=22, VTK_QUADRATIC_QUAD=23, VTK_QUADRATIC_TETRA=24, VTK_QUADRATIC_HEXAHEDRON=25, VTK_QUADRATIC_WEDGE=26, VTK_QUADRATIC_PYRAMID=27, VTK_BIQUADRATIC_QUAD=28, VTK_TRIQUADRATIC_HEXAHEDRON=29 } VTKCellType;
struct vtkObjectBase { int refs=0; virtual ~vtkObjectBase() {} };
template<class T> class vtkSmartPointer { T * p=nullptr; void take(T * q) { if (q) ++q->refs; if (p&&--p->refs==0) delete p; p=q; } public:
  vtkSmartPointer() {} vtkSmartPointer(T * q) { take(q); } vtkSmartPointer(const vtkSmartPointer & o) { take(o.p); } vtkSmartPointer(vtkSmartPointer && o) { p=o.p; o.p=nullptr; } ~vtkSmartPointer() { take(nullptr); }
  vtkSmartPointer & operator=(const vtkSmartPointer & o) { take(o.p); return *this; } vtkSmartPointer & operator=(T * q) { take(q); return *this; }
  static vtkSmartPointer New() { return vtkSmartPointer(new T); } T * operator->() const { return p; } T & operator*() const { return *p; } operator T*() const { return p; } T * Get() const { return p; } T * GetPointer() const { return p; } };
template<class T> using vtkNew=vtkSmartPointer<T>;
struct VpCell { int type,n; vtkIdType pt[20]; };
struct VpGrid { vtkIdType np,nc; const double (*x)[3]; const VpCell * cell; };
extern VpGrid vp_grid;
struct vtkPoints : vtkObjectBase { double buf[3]; vtkIdType GetNumberOfPoints() { return vp_grid.np; } void GetPoint(vtkIdType i,double * x) { bool in=i>=0&&i<vp_grid.np; vp_assert(in,"only points of the grid are read"); if (in) for (int k=0;k<3;++k) x[k]=vp_grid.x[i][k]; } double * GetPoint(vtkIdType i) { GetPoint(i,buf); return buf; } };
struct vtkIdList : vtkObjectBase { int c=0; vtkIdType GetNumberOfIds() { return vp_grid.cell[c].n; } vtkIdType GetId(vtkIdType k) { return vp_grid.cell[c].pt[k]; } };
struct vtkCell : vtkObjectBase { int c=0; vtkIdList ids; vtkIdType GetNumberOfPoints() { return vp_grid.cell[c].n; } vtkIdType GetPointId(int k) { vp_assert(k>=0&&k<vp_grid.cell[c].n,"only points of the cell are read"); return vp_grid.cell[c].pt[k]; } vtkIdList * GetPointIds() { ids.c=c; return &ids; } int GetCellType() { return vp_grid.cell[c].type; } };
struct vtkIdTypeArray : vtkObjectBase { vtkIdType v[8]; int n=0; vtkIdType GetDataSize() { return n; } vtkIdType GetNumberOfValues() { return n; } vtkIdType GetNumberOfTuples() { return n; } vtkIdType GetSize() { return n; } vtkIdType GetValue(vtkIdType i) { vp_assert(i>=0&&i<n,"only listed cells are read"); return v[i]; } };
struct vtkCellTypes : vtkObjectBase { unsigned char t[8]; int n=0; vtkIdType GetNumberOfTypes() { return n; } unsigned char GetCellType(int i) { vp_assert(i>=0&&i<n,"only listed types are read"); return t[i]; } static const char * GetClassNameFromTypeId(int) { return "cell"; } };
struct vtkDataArray : vtkObjectBase { int GetDataType() { return 0; } const char * GetDataTypeAsString() { return ""; } };
struct vtkFieldData : vtkObjectBase { vtkDataArray a; int GetNumberOfArrays() { return 0; } vtkDataArray * GetArray(int) { return &a; } const char * GetArrayName(int) { return ""; } };
struct vtkCellData : vtkFieldData {}; struct vtkPointData : vtkFieldData {};
struct vtkUnstructuredGrid : vtkObjectBase { vtkPoints pts; vtkCell c; vtkCellData cd; vtkPointData pd; vtkFieldData fd;
  vtkPoints * GetPoints() { return &pts; } vtkIdType GetNumberOfPoints() { return vp_grid.np; } vtkIdType GetNumberOfCells() { return vp_grid.nc; } double * GetPoint(vtkIdType i) { return pts.GetPoint(i); } void GetPoint(vtkIdType i,double * x) { pts.GetPoint(i,x); }
  int GetCellType(vtkIdType i) { return vp_grid.cell[i].type; } vtkCell * GetCell(vtkIdType i) { bool in=i>=0&&i<vp_grid.nc; vp_assert(in,"only cells of the grid are read"); c.c=(int)i; return &c; }
  void GetCellPoints(vtkIdType i,vtkIdType & n,const vtkIdType *& p) { n=vp_grid.cell[i].n; p=vp_grid.cell[i].pt; } void GetCellPoints(vtkIdType i,vtkIdList * l) { l->c=(int)i; }
  void GetCellTypes(vtkCellTypes * o) { o->n=0; for (int i=0;i<vp_grid.nc;++i) { int j=0; while (j<o->n&&o->t[j]!=vp_grid.cell[i].type) ++j; if (j==o->n) o->t[o->n++]=(unsigned char)vp_grid.cell[i].type; } }
  void GetIdsOfCellsOfType(int type,vtkIdTypeArray * o) { o->n=0; for (int i=0;i<vp_grid.nc;++i) if (vp_grid.cell[i].type==type) o->v[o->n++]=i; }
  vtkCellData * GetCellData() { return &cd; } vtkPointData * GetPointData() { return &pd; } vtkFieldData * GetFieldData() { return &fd; } };
struct vtkUnstructuredGridReader : vtkObjectBase { vtkUnstructuredGrid g; void SetFileName(const char *) {} void Update() {} vtkUnstructuredGrid * GetOutput() { return &g; } };
struct vtkPolyData : vtkObjectBase {};
