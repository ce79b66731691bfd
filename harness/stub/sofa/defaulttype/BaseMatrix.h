#pragma once
#include <sofa/config.h>
#include <sofa/type/Mat.h>
namespace sofa::defaulttype {
class BaseMatrix { public: using Index=int; using Real=SReal; virtual ~BaseMatrix() = default;
  virtual Index rowSize() const = 0; virtual Index colSize() const = 0; Index rows() const { return rowSize(); } Index cols() const { return colSize(); }
  virtual SReal element(Index,Index) const = 0; SReal operator()(Index i,Index j) const { return element(i,j); }
  virtual void resize(Index,Index) = 0; virtual void clear() = 0; virtual void set(Index,Index,double) = 0; virtual void add(Index,Index,double) = 0;
  virtual void add(Index r,Index c,const sofa::type::Mat3x3d & m) { for (int i=0;i<3;++i) for (int j=0;j<3;++j) add(r+i,c+j,double(m[i][j])); }
  virtual void add(Index r,Index c,const sofa::type::Mat3x3f & m) { for (int i=0;i<3;++i) for (int j=0;j<3;++j) add(r+i,c+j,double(m[i][j])); }
  virtual void add(Index r,Index c,const sofa::type::Mat2x2d & m) { for (int i=0;i<2;++i) for (int j=0;j<2;++j) add(r+i,c+j,double(m[i][j])); }
  virtual void add(Index r,Index c,const sofa::type::Mat2x2f & m) { for (int i=0;i<2;++i) for (int j=0;j<2;++j) add(r+i,c+j,double(m[i][j])); }
  virtual void clear(Index i,Index j) { set(i,j,0.0); }
  virtual void clearRow(Index i) { for (Index j=0;j<colSize();++j) clear(i,j); }
  virtual void clearRows(Index a,Index b) { for (Index i=a;i<b;++i) clearRow(i); }
  virtual void clearCol(Index j) { for (Index i=0;i<rowSize();++i) clear(i,j); }
  virtual void clearCols(Index a,Index b) { for (Index j=a;j<b;++j) clearCol(j); }
  virtual void clearRowCol(Index i) { clearRow(i); clearCol(i); }
  virtual void compress() {} };
}
