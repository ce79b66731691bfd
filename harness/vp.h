// Interface between harnesses and the symbolic executor (tools/symx.py) / the native replay runtime (vp_native.cpp).
#pragma once
extern "C" {
  double    vp_real(const char * name, double lo, double hi);            // symbolic real in [lo,hi]
  long long vp_int(const char * name, long long lo, long long hi);       // symbolic integer in [lo,hi]
  void      vp_assume(bool c);
  void      vp_assert(bool c, const char * label);
  void      vp_near(double a, double b, double tol, const char * label); // |a-b| <= tol
  long long vp_pick(const char * name, long long lo, long long hi);      // like vp_int, but forked to a concrete value
  void      vp_reach(const char * label);                                // vacuity marker: must be reached by a feasible path
}
#define ENTRY(name) extern "C" __attribute__((noinline)) void H_##name()
#define NOINLINE __attribute__((noinline))
#include <cstdio>
#include <string>
// names for families of inputs, e.g. VPN("x",i,j) -> "x_1_2"
struct VpName { char b[48]; };
inline void vpn_num(char *& q, int v) { *q++='_'; if (v<0){*q++='m';v=-v;} char t[12]; int n=0; do { t[n++]=(char)('0'+v%10); v/=10; } while(v); while(n) *q++=t[--n]; }
NOINLINE inline VpName VPN(const char * s, int i) { VpName r; char*q=r.b; while(*s) *q++=*s++; vpn_num(q,i); *q=0; return r; }
NOINLINE inline VpName VPN(const char * s, int i, int j) { VpName r; char*q=r.b; while(*s) *q++=*s++; vpn_num(q,i); vpn_num(q,j); *q=0; return r; }
NOINLINE inline double vp_real_n(const char*s,int i,double lo,double hi){ VpName n=VPN(s,i); return vp_real(n.b,lo,hi);} 
NOINLINE inline double vp_real_n(const char*s,int i,int j,double lo,double hi){ VpName n=VPN(s,i,j); return vp_real(n.b,lo,hi);} 
