// Element types under test and the documented canonical nodes they are specified against.
#pragma once
#include "vp.h"
#include <cmath>
#include <Caribou/config.h>
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
using namespace caribou; using namespace caribou::geometry;

// canonical positions, in the node order drawn in the documentation of each class
static constexpr double CN_SEG[3][1]={{-1},{1},{0}};
static constexpr double CN_TRI[6][2]={{0,0},{1,0},{0,1},{.5,0},{.5,.5},{0,.5}};
static constexpr double CN_QUAD[8][2]={{-1,-1},{1,-1},{1,1},{-1,1},{0,-1},{1,0},{0,1},{-1,0}};
static constexpr double CN_TET[10][3]={{0,0,0},{1,0,0},{0,1,0},{0,0,1},{.5,0,0},{.5,.5,0},{0,.5,0},{0,0,.5},{.5,0,.5},{0,.5,.5}};
static constexpr double CN_HEX[20][3]={{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1},
  {0,-1,-1},{1,0,-1},{0,1,-1},{-1,0,-1},{0,-1,1},{1,0,1},{0,1,1},{-1,0,1},{-1,-1,0},{1,-1,0},{1,1,0},{-1,1,0}};
enum Shape { SEG, TRI, QUAD, TET, HEX };
template<class E> struct Info;
template<UNSIGNED_INTEGER_TYPE D,UNSIGNED_INTEGER_TYPE O> struct Info<Segment<D,O>>  { static constexpr Shape shape=SEG;  static constexpr int order=O; static constexpr bool rect=false; };
template<UNSIGNED_INTEGER_TYPE D,UNSIGNED_INTEGER_TYPE O> struct Info<Triangle<D,O>> { static constexpr Shape shape=TRI;  static constexpr int order=O; static constexpr bool rect=false; };
template<UNSIGNED_INTEGER_TYPE D,UNSIGNED_INTEGER_TYPE O> struct Info<Quad<D,O>>     { static constexpr Shape shape=QUAD; static constexpr int order=O; static constexpr bool rect=false; };
template<UNSIGNED_INTEGER_TYPE D,UNSIGNED_INTEGER_TYPE O> struct Info<RectangularQuad<D,O>> { static constexpr Shape shape=QUAD; static constexpr int order=O; static constexpr bool rect=true; };
template<UNSIGNED_INTEGER_TYPE O> struct Info<Tetrahedron<O>> { static constexpr Shape shape=TET; static constexpr int order=O; static constexpr bool rect=false; };
template<UNSIGNED_INTEGER_TYPE O> struct Info<Hexahedron<O>>  { static constexpr Shape shape=HEX; static constexpr int order=O; static constexpr bool rect=false; };
template<UNSIGNED_INTEGER_TYPE O> struct Info<RectangularHexahedron<O>> { static constexpr Shape shape=HEX; static constexpr int order=O; static constexpr bool rect=true; };
static constexpr int nnodes_of(Shape s,int order) { return s==SEG?(order==1?2:3): s==TRI?(order==1?3:6): s==QUAD?(order==1?4:8): s==TET?(order==1?4:10): (order==1?8:20); }
static constexpr int cdim_of(Shape s) { return s==SEG?1:(s==TRI||s==QUAD)?2:3; }
inline double canon(Shape s,int i,int k) { return s==SEG?CN_SEG[i][k]: s==TRI?CN_TRI[i][k]: s==QUAD?CN_QUAD[i][k]: s==TET?CN_TET[i][k]: CN_HEX[i][k]; }
inline double canon_center(Shape s) { return s==TRI?1./3: s==TET?1./4: 0.; }
template<class E> constexpr int NN = nnodes_of(Info<E>::shape,Info<E>::order);
template<class E> constexpr int CD = cdim_of(Info<E>::shape);
template<class E> using Local = typename E::LocalCoordinates;
template<class E> using World = typename E::WorldCoordinates;
template<class E> using Nodes = Eigen::Matrix<double,NN<E>,(int)E::Dimension>;

template<class E> inline Local<E> sym_local(const char * n="xi",double lo=-2,double hi=2) { Local<E> x; for (int k=0;k<CD<E>;++k) x[k]=vp_real_n(n,k,lo,hi); return x; }
template<class E> inline World<E> sym_world(const char * n="p",double lo=-10,double hi=10) { World<E> x; for (int k=0;k<(int)E::Dimension;++k) x[k]=vp_real_n(n,k,lo,hi); return x; }
template<class E> inline Nodes<E> sym_nodes(const char * n="X",double lo=-10,double hi=10) { Nodes<E> X; for (int i=0;i<NN<E>;++i) for (int k=0;k<(int)E::Dimension;++k) X(i,k)=vp_real_n(n,i,k,lo,hi); return X; }
template<class E> inline Local<E> canon_node(int i) { Local<E> x; for (int k=0;k<CD<E>;++k) x[k]=canon(Info<E>::shape,i,k); return x; }

#define FOR_GENERAL(X) \
  X(seg1l,Segment<_1D COMMA Linear>) X(seg2l,Segment<_2D COMMA Linear>) X(seg3l,Segment<_3D COMMA Linear>) \
  X(seg1q,Segment<_1D COMMA Quadratic>) X(seg2q,Segment<_2D COMMA Quadratic>) X(seg3q,Segment<_3D COMMA Quadratic>) \
  X(tri2l,Triangle<_2D COMMA Linear>) X(tri3l,Triangle<_3D COMMA Linear>) X(tri2q,Triangle<_2D COMMA Quadratic>) X(tri3q,Triangle<_3D COMMA Quadratic>) \
  X(quad2l,Quad<_2D COMMA Linear>) X(quad3l,Quad<_3D COMMA Linear>) X(quad2q,Quad<_2D COMMA Quadratic>) X(quad3q,Quad<_3D COMMA Quadratic>) \
  X(tetl,Tetrahedron<Linear>) X(tetq,Tetrahedron<Quadratic>) X(hexl,Hexahedron<Linear>) X(hexq,Hexahedron<Quadratic>)
#define FOR_RECT(X) \
  X(rquad2l,RectangularQuad<_2D COMMA Linear>) X(rquad3l,RectangularQuad<_3D COMMA Linear>) X(rquad2q,RectangularQuad<_2D COMMA Quadratic>) X(rquad3q,RectangularQuad<_3D COMMA Quadratic>) \
  X(rhexl,RectangularHexahedron<Linear>) X(rhexq,RectangularHexahedron<Quadratic>)
#define FOR_ALL(X) FOR_GENERAL(X) FOR_RECT(X)
#define COMMA ,
