#pragma once
#include <sofa/config.h>
#include <array>
#include <cmath>
#include <cstddef>
#include <type_traits>
#include <vector>
namespace sofa::type {
template<int N,class R> struct Vec { using value_type=R; using Real=R; using size_type=std::size_t; R e[N]; Vec() : e{} {} template<class... A,class=std::enable_if_t<sizeof...(A)==N && (std::is_convertible_v<A,R>&&...)>> Vec(A... a) : e{R(a)...} {} explicit Vec(const R * p) { for (int i=0;i<N;++i) e[i]=p[i]; }
  const R * data() const { return e; } R * data() { return e; } const R & operator[](int i) const { return e[i]; } R & operator[](int i) { return e[i]; } const R & operator()(int i) const { return e[i]; } R & operator()(int i) { return e[i]; } const R * ptr() const { return e; } R * ptr() { return e; } static constexpr int size() { return N; } static constexpr int static_size=N; static constexpr int spatial_dimensions=N;
  R * begin() { return e; } R * end() { return e+N; } const R * begin() const { return e; } const R * end() const { return e+N; } const R & x() const { return e[0]; } const R & y() const { return e[1]; } const R & z() const { return e[2]; } R & x() { return e[0]; } R & y() { return e[1]; } R & z() { return e[2]; }
  void clear() { for (auto & v : e) v=R(0); } void fill(R r) { for (auto & v : e) v=r; } void set(R a,R b,R c) { e[0]=a; e[1]=b; e[2]=c; }
  Vec & operator+=(const Vec & o) { for (int i=0;i<N;++i) e[i]+=o.e[i]; return *this; } Vec & operator-=(const Vec & o) { for (int i=0;i<N;++i) e[i]-=o.e[i]; return *this; } Vec & operator*=(R s) { for (auto & v : e) v*=s; return *this; } Vec & operator/=(R s) { for (auto & v : e) v/=s; return *this; }
  Vec operator+(const Vec & o) const { Vec r(*this); r+=o; return r; } Vec operator-(const Vec & o) const { Vec r(*this); r-=o; return r; } Vec operator-() const { Vec r; for (int i=0;i<N;++i) r.e[i]=-e[i]; return r; } Vec operator/(R s) const { Vec r(*this); r/=s; return r; }
  template<class S,class=std::enable_if_t<std::is_arithmetic_v<S>>> Vec operator*(S s) const { Vec r(*this); r*=R(s); return r; } R operator*(const Vec & o) const { R r=0; for (int i=0;i<N;++i) r+=e[i]*o.e[i]; return r; }
  template<class S,class=std::enable_if_t<std::is_arithmetic_v<S>>> friend Vec operator*(S s,const Vec & v) { return v*s; }
  R norm2() const { return (*this)*(*this); } R norm() const { return std::sqrt(norm2()); } void normalize() { *this/=norm(); } Vec normalized() const { return *this/norm(); } Vec cross(const Vec & b) const { return Vec(e[1]*b.e[2]-e[2]*b.e[1],e[2]*b.e[0]-e[0]*b.e[2],e[0]*b.e[1]-e[1]*b.e[0]); }
  bool operator==(const Vec & o) const { for (int i=0;i<N;++i) if (!(e[i]==o.e[i])) return false; return true; } bool operator!=(const Vec & o) const { return !(*this==o); } };
template<int N,class R> R dot(const Vec<N,R> & a,const Vec<N,R> & b) { return a*b; } template<class R> Vec<3,R> cross(const Vec<3,R> & a,const Vec<3,R> & b) { return a.cross(b); }
template<class T> using vector=std::vector<T>; template<class T,std::size_t N> using fixed_array=std::array<T,N>; using Vector3=Vec<3,double>; using Vec3d=Vec<3,double>; using Vec3=Vec<3,double>; using Vec2d=Vec<2,double>;
}
namespace sofa::helper { using sofa::type::vector; using sofa::type::fixed_array; }
namespace sofa::defaulttype { using sofa::type::Vec; using sofa::type::Vector3; 
// rows of (column, value) entries in the order they were written
template<class T> class MapMapSparseMatrix { public: struct Row { unsigned index; std::vector<unsigned> cols; std::vector<T> vals; }; std::vector<Row> rows;
  struct ColIt { const Row * r; std::size_t i; unsigned index() const { return r->cols[i]; } const T & val() const { return r->vals[i]; } void operator++() { ++i; } bool operator==(const ColIt & o) const { return i==o.i; } bool operator!=(const ColIt & o) const { return i!=o.i; } };
  struct RowIt { const Row * r; unsigned index() const { return r->index; } ColIt begin() const { return {r,0}; } ColIt end() const { return {r,r->cols.size()}; } void operator++() { ++r; } bool operator==(const RowIt & o) const { return r==o.r; } bool operator!=(const RowIt & o) const { return r!=o.r; } };
  using RowConstIterator=RowIt; using ColConstIterator=ColIt; RowIt begin() const { return {rows.data()}; } RowIt end() const { return {rows.data()+rows.size()}; }
  struct Line { MapMapSparseMatrix * m; std::size_t k; void addCol(unsigned c,const T & v) { Row & r=m->rows[k]; for (std::size_t i=0;i<r.cols.size();++i) if (r.cols[i]==c) { r.vals[i]+=v; return; } r.cols.push_back(c); r.vals.push_back(v); } void setCol(unsigned c,const T & v) { Row & r=m->rows[k]; for (std::size_t i=0;i<r.cols.size();++i) if (r.cols[i]==c) { r.vals[i]=v; return; } r.cols.push_back(c); r.vals.push_back(v); } };
  Line writeLine(unsigned i) { for (std::size_t k=0;k<rows.size();++k) if (rows[k].index==i) return {this,k}; rows.push_back({i,{},{}}); return {this,rows.size()-1}; } };
template<int N,class R> struct VecTypes_ { using Real=R; using Coord=sofa::type::Vec<N,R>; using Deriv=Coord; using VecCoord=sofa::type::vector<Coord>; using VecDeriv=sofa::type::vector<Deriv>; using VecReal=sofa::type::vector<R>; using MatrixDeriv=MapMapSparseMatrix<Deriv>; static constexpr int spatial_dimensions=N; static constexpr int coord_total_size=N; static constexpr int deriv_total_size=N; static const char * Name() { return "Vec"; } };
 using Vec1Types=VecTypes_<1,double>; using Vec2Types=VecTypes_<2,double>; using Vec3Types=VecTypes_<3,double>; using Vec1dTypes=Vec1Types; using Vec2dTypes=Vec2Types; using Vec3dTypes=Vec3Types; }
