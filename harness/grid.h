#pragma once
#include "vp.h"
#include <Caribou/config.h>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou; using caribou::topology::Grid;
template<int D> using GV=typename Grid<D>::WorldCoordinates;
template<int D> using GI=typename Grid<D>::GridCoordinates;
template<int D> using GN=typename Grid<D>::Subdivisions;
typedef long long i64;
#ifdef VP_THOROUGH
constexpr int NP=6;   // largest forked subdivision
#else
constexpr int NP=4;
#endif
// a grid whose faster axes have forked subdivisions and whose slowest axis has symbolic subdivisions
template<int D> struct SymGrid { GV<D> a,s; GN<D> n; i64 N[3]; 
  SymGrid(int np,i64 last,bool picklast=false,int fixx=0) { for (int k=0;k<D;++k) { N[k]= k==0&&fixx ? fixx : (k<D-1||picklast) ? vp_pick(k==0?"nx":k==1?"ny":"nz",1,np) : vp_int("nlast",1,last); n[k]=(unsigned long long)N[k]; a[k]=vp_real_n("a",k,-100,100); s[k]=vp_real_n("s",k,0.25,100); } }
  Grid<D> grid() const { return Grid<D>(a,n,s); } };
