#pragma once
#include <sofa/config.h>
#include <cstddef>
namespace sofa::defaulttype {
class BaseVector { public: using Index=int; enum ElementType { ELEMENT_UNKNOWN=0, ELEMENT_FLOAT, ELEMENT_INT }; virtual ~BaseVector() = default;
  virtual Index size() const = 0; virtual SReal element(Index) const = 0; SReal operator()(Index i) const { return element(i); } virtual void resize(Index) = 0; virtual void clear() = 0; virtual void set(Index,SReal) = 0; virtual void add(Index,SReal) = 0;
  virtual ElementType getElementType() const { return ELEMENT_FLOAT; } virtual std::size_t getElementSize() const { return sizeof(SReal); } };
}
