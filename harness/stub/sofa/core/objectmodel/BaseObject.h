#pragma once
#include <sofa/config.h>
#include <string>
#include <vector>
namespace sofa::core {
class BaseState { public: virtual ~BaseState() = default; };
template<class T> class sptr { public: using element_type=T; sptr(T * q=nullptr) : p(q) {} template<class U> sptr(const sptr<U> & o) : p(o.get()) {} T * get() const { return p; } T * operator->() const { return p; } T & operator*() const { return *p; } explicit operator bool() const { return p!=nullptr; } void reset(T * q=nullptr) { p=q; } bool operator==(const T * q) const { return p==q; } private: T * p; };
class ExecParams; }
namespace sofa::core::objectmodel {
class BaseData { public: virtual ~BaseData() = default; virtual void setParent(BaseData *) {} const std::string & getName() const { return name_; } std::string getLinkPath() const { return name_; } bool isSet() const { return set_; } void unset() { set_=false; } protected: std::string name_; bool set_=false; };
template<class T=void*> class Data : public BaseData { public: using value_type=T; template<class V> struct Init { V v; }; Data() = default; template<class V> Data(const Init<V> & i) : v(i.v) {} const T & getValue() const { return v; } void setValue(const T & x) { v=x; set_=true; } operator const T & () const { return v; } T * beginEdit() { set_=true; return &v; } void endEdit() {} T * beginWriteOnly() { return beginEdit(); } void setParent(BaseData * b) override { v=static_cast<Data<T>*>(b)->getValue(); set_=true; } T v{}; };
class BaseLink { public: enum { FLAG_NONE=0,FLAG_STRONGLINK=4 }; struct InitLink { const char * name; }; };
template<class O,class T,unsigned F> class SingleLink : public BaseLink { public: SingleLink() = default; SingleLink(const InitLink & i) : n(i.name) {} T * get() const { return p; } void set(T * q) { p=q; } SingleLink & operator=(T * q) { p=q; return *this; } T * operator->() const { return p; } T & operator*() const { return *p; } operator T * () const { return p; } bool empty() const { return p==nullptr; } std::string getName() const { return n; } std::string getPath() const { return n; } private: T * p=nullptr; const char * n=""; };
class BaseObject; class Event { public: virtual ~Event() = default; };
class BaseContext { public: BaseContext * getRootContext() { return this; } enum SearchDirection { SearchUp=-1,Local=0,SearchDown=1,SearchRoot=2,SearchParents=3 }; virtual ~BaseContext() = default; virtual BaseState * getMechanicalState() const { return nullptr; } inline void addObject(BaseObject * o); 
  template<class T> std::vector<T*> getObjects(SearchDirection=Local) const; template<class T> T * get(SearchDirection=Local) const; template<class T> T * get(const std::string &) const { return nullptr; } private: BaseObject * objects_[8]; int n_=0; };
class BaseObjectDescription { public: const char * getAttribute(const std::string &,const char * d) { return d; } void setAttribute(const std::string &,const std::string &) {} void logError(const std::string &) {} };
class BaseObject { public: virtual ~BaseObject() = default; virtual void init() {} virtual void bwdInit() {} virtual void reinit() {} virtual void reset() {} virtual void handleEvent(Event *) {} virtual std::string getTemplateName() const { return ""; } BaseContext * getContext() const { return ctx_; } void setContext(BaseContext * c) { ctx_=c; } std::string getPathName() const { return ""; } std::string getName() const { return ""; } virtual void computeBBox(const sofa::core::ExecParams *,bool=false) {}
  template<class T> static bool canCreate(T *,BaseContext *,BaseObjectDescription *) { return true; }
  template<class T,class V> typename Data<T>::template Init<T> initData(Data<T> * d,const V & v,const char * name,const char *,bool=true,bool=false) { reg(name,d); return {T(v)}; }
  template<class T> typename Data<T>::template Init<T> initData(Data<T> * d,const char * name,const char *,bool=true,bool=false) { reg(name,d); return {T{}}; }
  template<class T> Data<T> * findData(const char * name) { return static_cast<Data<T>*>(find(name)); } BaseData * findData(const std::string & name) const { return find(name.c_str()); }
  void reg(const char * n,BaseData * d) { if (n_<16) { names_[n_]=n; datas_[n_]=d; ++n_; } }
 private: BaseData * find(const char * name) const { for (int i=0;i<n_;++i) { const char * a=names_[i],* b=name; while (*a&&*a==*b) { ++a; ++b; } if (*a==*b) return datas_[i]; } return nullptr; } const char * names_[16]; BaseData * datas_[16]; int n_=0; BaseContext * ctx_=nullptr; };
inline void BaseContext::addObject(BaseObject * o) { if (n_<8) objects_[n_++]=o; o->setContext(this); }
template<class T> std::vector<T*> BaseContext::getObjects(SearchDirection) const { std::vector<T*> r; for (int i=0;i<n_;++i) if (auto * p=dynamic_cast<T*>(objects_[i])) r.push_back(p); return r; }
template<class T> T * BaseContext::get(SearchDirection) const { for (int i=0;i<n_;++i) if (auto * p=dynamic_cast<T*>(objects_[i])) return p; return nullptr; }
template<class T> sptr<T> New() { return sptr<T>(new T()); }
}
namespace sofa::helper {
template<class T> class ReadAccessor; template<class T> class WriteAccessor; template<class T> class WriteOnlyAccessor;
template<class C> class ReadAccessor<sofa::core::objectmodel::Data<C>> { using D=sofa::core::objectmodel::Data<C>; const C * c; public: using container_type=C; ReadAccessor(const D & d) : c(&d.getValue()) {} ReadAccessor(const D * d) : c(&d->getValue()) {}
  const C & ref() const { return *c; } operator const C & () const { return *c; } const C * operator->() const { return c; } const C & operator*() const { return *c; } auto size() const { return c->size(); } bool empty() const { return c->empty(); } template<class I> decltype(auto) operator[](I i) const { return (*c)[i]; } auto begin() const { return c->begin(); } auto end() const { return c->end(); } auto data() const { return c->data(); } };
template<class C> class WriteAccessor<sofa::core::objectmodel::Data<C>> { using D=sofa::core::objectmodel::Data<C>; C * c; public: using container_type=C; WriteAccessor(D & d) : c(d.beginEdit()) {} WriteAccessor(D * d) : c(d->beginEdit()) {}
  const C & ref() const { return *c; } C & wref() { return *c; } operator C & () { return *c; } operator const C & () const { return *c; } C * operator->() { return c; } C & operator*() { return *c; } auto size() const { return c->size(); } bool empty() const { return c->empty(); } template<class I> decltype(auto) operator[](I i) { return (*c)[i]; } template<class I> decltype(auto) operator[](I i) const { return (*static_cast<const C*>(c))[i]; } auto begin() { return c->begin(); } auto end() { return c->end(); } auto data() { return c->data(); }
  template<class I> void resize(I n) { c->resize(std::size_t(n)); } template<class I,class V> void resize(I n,const V & v) { c->resize(std::size_t(n),v); } template<class I> void reserve(I n) { c->reserve(std::size_t(n)); } void clear() { c->clear(); } template<class V> void push_back(const V & v) { c->push_back(v); } template<class... V> void emplace_back(V &&... v) { c->emplace_back(std::forward<V>(v)...); } template<class V> void operator=(const V & v) { *c=v; } template<class V> void operator+=(const V & v) { *c+=v; } template<class V> void operator-=(const V & v) { *c-=v; } };
template<class C> class WriteOnlyAccessor<sofa::core::objectmodel::Data<C>> : public WriteAccessor<sofa::core::objectmodel::Data<C>> { public: using WriteAccessor<sofa::core::objectmodel::Data<C>>::WriteAccessor; using WriteAccessor<sofa::core::objectmodel::Data<C>>::operator=; };
template<class D> auto getReadAccessor(const D & d) { return ReadAccessor<D>(d); } template<class D> auto getWriteAccessor(D & d) { return WriteAccessor<D>(d); } template<class D> auto getWriteOnlyAccessor(D & d) { return WriteOnlyAccessor<D>(d); }
}
