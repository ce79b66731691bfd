// Native runtime of the harness interface: replays one entry with concrete inputs against the real code.
// usage: replay ENTRY VALUES.txt      (lines "name value"; missing inputs take the middle of their range)
// exit 0: all assertions held; 1: an assertion failed (printed); 77: an assumption does not hold; other: crash.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <new>
#include <malloc.h>
static std::map<std::string,std::string> & in() { static std::map<std::string,std::string> m; return m; }
static int failed=0; static long nobs=0;
#ifdef VP_FILL
void * operator new(std::size_t n) { void*p=malloc(n?n:1); if(!p) abort(); memset(p,0xFF,n); return p; }
void operator delete(void*p) noexcept { free(p); }
void operator delete(void*p,std::size_t) noexcept { free(p); }
#endif
extern "C" {
double vp_real(const char*n,double lo,double hi){ auto it=in().find(n); double v = it==in().end()? (lo+hi)/2 : strtod(it->second.c_str(),nullptr); if (v<lo) v=lo; if (v>hi) v=hi; return v; }
long long vp_int(const char*n,long long lo,long long hi){ auto it=in().find(n); long long v = it==in().end()? lo+(hi-lo)/2 : strtoll(it->second.c_str(),nullptr,10); if (v<lo) v=lo; if (v>hi) v=hi; return v; }
long long vp_pick(const char*n,long long lo,long long hi){ return vp_int(n,lo,hi); }
void vp_assume(bool c){ if(!c){ printf("ASSUME\n"); fflush(stdout); _Exit(failed?1:77);} }
void vp_assert(bool c,const char*l){ if(!c){ printf("FAIL %s\n",l); fflush(stdout); failed=1; } }
void vp_near(double a,double b,double t,const char*l){ if(nobs++<400) printf("OBS %.17g\n",a); double s=1+std::fabs(a)+std::fabs(b); if(!(std::fabs(a-b)<=t+1e-11*s)){ printf("FAIL %s (%.17g vs %.17g)\n",l,a,b); fflush(stdout); failed=1; } }
void vp_reach(const char*){ }
void vp_log(double){}
}
int main(int argc,char**argv){
  if(argc<3) return 2;
  FILE*f=fopen(argv[2],"r"); if(!f) return 2; char a[256],b[256];
  while(fscanf(f,"%255s %255s",a,b)==2) in()[a]=b;
  fclose(f);
  void(*h)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if(!h){ fprintf(stderr,"no entry %s\n",argv[1]); return 2; }
  h(); printf("END\n"); fflush(stdout); _Exit(failed);
}
