// Minimal stand-in for the SOFA framework (not installed here): just what the SofaCaribou headers under check include.
#pragma once
#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
#define SOFA_CLASS(T_,...) using MyType=T_; using Inherit1=__VA_ARGS__; using SPtr=sofa::core::sptr<T_>; using Inherit1::initData; struct ClassInfo_ { const char * typeName; }; static const ClassInfo_ * GetClass() { static const ClassInfo_ c{""}; return &c; } \
  template<class D_,class V_,class... A_> auto initData(sofa::core::objectmodel::Data<D_> * d_,const V_ & v_,const char * n_,A_... a_) { return this->sofa::core::objectmodel::BaseObject::initData(d_,v_,n_,a_...); } sofa::core::objectmodel::BaseLink::InitLink initLink(const char * n_,const char *) { return {n_}; } friend struct sofa_standin_semicolon_
#define SOFA_ABSTRACT_CLASS(...) SOFA_CLASS(__VA_ARGS__)
#define SOFA_TEMPLATE(C,...) C<__VA_ARGS__>
#define SOFA_TEMPLATE2(C,...) C<__VA_ARGS__>
using SReal=double;
#define SOFA_UNUSED(x) (void)(x)
namespace sofa { using Size=unsigned int; using Index=unsigned int; using SignedIndex=int; struct Sink { template<class T> const Sink & operator<<(const T &) const { return *this; } }; static const Sink sendl{}; }
#define msg_info(...) while (false) ::sofa::Sink()
#define msg_warning(...) while (false) ::sofa::Sink()
#define msg_error(...) while (false) ::sofa::Sink()
#define dmsg_info(...) while (false) ::sofa::Sink()
