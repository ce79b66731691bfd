"""Models of the harness interface, LLVM intrinsics and C/C++ runtime functions."""
import math
from fractions import Fraction as Q
import z3
import terms as T
from terms import Poly, Unsupported
import symx
from symx import THROWN, PathEnd, MemErr, SHIFT

M={}
def model(*names):
    def d(f):
        for n in names: M[n]=f
        return f
    return d
def D(v): return v

# ---------------------------------------------------------------- harness interface
def _input(s,st,n,is_int,lo,hi):
    an=st.names.get(n)
    if an is not None:
        at=s.ctx.byname[an]
        if (at.lo,at.hi,at.is_int)!=(lo,hi,is_int): raise T.Unsupported('input %s declared twice with different bounds on one path'%n)
        return at
    an=n; at=s.ctx.byname.get(n)
    if at is not None and (at.lo,at.hi,at.is_int)!=(lo,hi,is_int):
        an='%s@%s,%s'%(n,lo,hi); at=s.ctx.byname.get(an)
    if at is None: at=s.ctx.new(an,'in',is_int,lo,hi)
    st.names[n]=an; return at
@model('vp_real')
def _(s,st,a,i):
    return T.var(_input(s,st,s.cstr(st,a[0]),False,Q(a[1]),Q(a[2])))
@model('vp_int')
def _(s,st,a,i):
    n=s.cstr(st,a[0]); lo=s.sint(st,a[1],64); hi=s.sint(st,a[2],64)
    if isinstance(lo,Poly): lo=s.concretize(st,lo)
    if isinstance(hi,Poly): hi=s.concretize(st,hi)
    return T.var(_input(s,st,n,True,Q(lo),Q(hi)))
@model('vp_pick')
def _(s,st,a,i):
    v=M['vp_int'](s,st,a,i)
    lo=s.sint(st,a[1],64); hi=s.sint(st,a[2],64)
    v=s.concretize(st,v)
    if not lo<=v<=hi: raise PathEnd('assume')
    return v&((1<<64)-1)
@model('vp_assume')
def _(s,st,a,i):
    s.assume(st,s.tobool(a[0]))
@model('vp_assert')
def _(s,st,a,i):
    c=s.tobool(a[0]); lab=s.cstr(st,a[1])
    if c is None: c=False
    if isinstance(c,bool): s.check(st,lab,not c)
    else:
        s.check(st,lab,z3.Not(c) if not z3.is_not(c) else c.arg(0))
@model('vp_near')
def _(s,st,a,i):
    x,y,tol=[s.toreal(st,v) for v in a[:3]]; lab=s.cstr(st,a[3])
    if isinstance(x,float) or isinstance(y,float):
        if len(st.obs)<400: st.obs.append(x)
        s.check(st,lab,not (isinstance(x,float) and isinstance(y,float) and (x==y)))
        return
    if len(st.obs)<400: st.obs.append(x)
    d=T.sub(x,y)
    if T.is_zero(d):
        d=Q(0)
        if isinstance(x,Poly) and (len(x.t)<1500):
            k=(x.key(),y.key() if isinstance(y,Poly) else y)
            if k not in s.nfseen: s.nfseen.add(k); s.nf.append((x,y,tol))
    def bad(t):
        p=s.cmp(T.sub(t,d),'<'); n=s.cmp(T.add(d,t),'<')
        if p is True or n is True: return True
        if p is False: return n
        if n is False: return p
        return z3.Or(p,n)
    if isinstance(d,Poly) and any(abs(c)<1e-7 for c in d.t.values()):
        # rounding residue of double constants: over-approximate every monomial by its bounds (linear query)
        z=s.linear_near(st,d,tol)
        if z:
            e=s.asserts.setdefault(lab,[0,0]); e[0]+=1; e[1]+=1; return
    s.check(st,lab,bad(tol),[bad(t) for t in (Q(1,2),Q(1,100),Q(1,10000),tol*100) if t>tol])
@model('vp_reach')
def _(s,st,a,i): st.reach.add(s.cstr(st,a[0]))

_RND=10**18
def linear_near(s,st,d,tol):
    """|d|<=tol with each monomial replaced by an independent bounded variable (sound over-approximation, LRA)."""
    ts=[]; cons=[]
    for k,(m,c) in enumerate(d.t.items()):
        lo,hi=T.bounds(Poly({m:Q(1)})) if m else (Q(1),Q(1))
        if lo==-math.inf or hi==math.inf: return False
        # the term itself is the variable, its bounds rounded outwards to short numbers
        lo,hi=(c*lo,c*hi) if c>0 else (c*hi,c*lo)
        v=z3.Real('mono!%d'%k); cons+=[v>=T.zq(Q(math.floor(lo*_RND),_RND)),v<=T.zq(Q(math.ceil(hi*_RND),_RND))]; ts.append(v)
    e=z3.Sum(ts) if len(ts)>1 else ts[0]
    r,_=s.solve(cons+[z3.Or(e>T.zq(tol),e<-T.zq(tol))],s.o['tmo_branch'])
    return r=='unsat'
symx.Engine.linear_near=linear_near

# ---------------------------------------------------------------- memory
@model('_Znwm','_Znam','malloc')
def _(s,st,a,i):
    n=a[0]
    if isinstance(n,Poly): n=s.concretize(st,n)
    if n>1<<23: raise PathEnd('abort','allocation of %d bytes'%n)
    return s.alloc(st,n,'heap block of %d bytes'%n)
@model('_ZnwmSt11align_val_t','aligned_alloc')
def _(s,st,a,i):
    n=a[0] if i[3].v==s.gaddr.get('_ZnwmSt11align_val_t') else a[1]
    return M['_Znwm'](s,st,[n],i)
@model('posix_memalign')
def _(s,st,a,i):
    p=M['_Znwm'](s,st,[a[2]],i); s.store(st,a[0],8,p); return 0
@model('calloc')
def _(s,st,a,i):
    return s.alloc(st,a[0]*a[1],'heap block',zero=True)
@model('realloc')
def _(s,st,a,i):
    n=a[1]
    if isinstance(n,Poly): n=s.concretize(st,n)
    p=s.alloc(st,n,'heap block of %d bytes'%n)
    if a[0]:
        ob=st.mem[a[0]>>SHIFT]; s.memcpy(st,p,a[0],min(n,ob.size)); M['free'](s,st,[a[0]],i)
    return p
@model('free','_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t')
def _(s,st,a,i):
    p=a[0]
    if p is None: raise MemErr('free of an undefined pointer')
    if isinstance(p,Poly): p=s.concretize(st,p)
    if p==0: return None
    ob=st.mem.get(p>>SHIFT)
    if ob is None or p&((1<<SHIFT)-1): raise MemErr('free of a bad pointer')
    if ob.freed: raise MemErr('double free')
    if ob.kind!='heap': raise MemErr('free of a non-heap object')
    ob=s.writable(st,p>>SHIFT,ob); ob.freed=True; ob.cells={}
    return None
@model('memcpy','memmove')
def _(s,st,a,i): s.memcpy(st,a[0],a[1],a[2]); return a[0]
@model('memset')
def _(s,st,a,i): s.memset(st,a[0],a[1],a[2]); return a[0]
@model('strlen')
def _(s,st,a,i):
    n=0
    while True:
        c=s.load(st,a[0]+n,1,['i',8])
        if c is None: raise MemErr('strlen of uninitialised memory')
        if (s.decide(st,s.icmp1(st,'eq',c,0,['i',8])) if isinstance(c,Poly) else c==0): return n
        n+=1
@model('memcmp','bcmp')
def _(s,st,a,i):
    n=a[2]
    if isinstance(n,Poly): n=s.concretize(st,n)
    for k in range(n):
        x=s.load(st,a[0]+k,1,['i',8]); y=s.load(st,a[1]+k,1,['i',8])
        if isinstance(x,Poly) or isinstance(y,Poly):
            if s.decide(st,s.icmp1(st,'eq',x,y,['i',8])): continue
            return 0xffffffff if s.decide(st,s.icmp1(st,'ult',x,y,['i',8])) else 1
        if x!=y: return 1 if x>y else 0xffffffff
    return 0
@model('strcmp')
def _(s,st,a,i):
    x=s.cstr(st,a[0]); y=s.cstr(st,a[1]); return 0 if x==y else (1 if x>y else 0xffffffff)
@model('memchr')
def _(s,st,a,i):
    for k in range(a[2]):
        if s.load(st,a[0]+k,1,['i',8])==a[1]&255: return a[0]+k
    return 0
# ---------------------------------------------------------------- math
def unary(kind):
    def f(s,st,a,i): return s.rounding(st,kind,s.toreal(st,a[0]))
    return f
for _n,_k in (('floor','floor'),('ceil','ceil'),('trunc','trunc'),('round','round'),('rint','rint'),('nearbyint','rint')): M[_n]=unary(_k)
def vec1(f):
    def g(s,st,a,i):
        if isinstance(a[0],list): return [f(s,st,[x]+a[1:],i) for x in a[0]]
        return f(s,st,a,i)
    return g
@model('sqrt')
def _(s,st,a,i): return s.fsqrt(st,s.toreal(st,a[0]))
@model('fabs')
def _(s,st,a,i): return s.fabs(st,s.toreal(st,a[0]))
@model('lround','llround')
def _(s,st,a,i):
    v=s.rounding(st,'round',s.toreal(st,a[0])); return v if isinstance(v,Poly) else int(v)&((1<<64)-1)
def fn1(name,pyf,kind='fn'):
    def f(s,st,a,i):
        x=s.toreal(st,a[0])
        if not isinstance(x,Poly):
            try: return Q(pyf(float(x)))
            except ValueError: return float('nan')
        k=(name,x.key()); at=s.ctx.memo.get(k)
        if at is None:
            at=s.ctx.new('%s!%d'%(name,len(s.ctx.atoms)),kind,False,None,None,(x,)); s.ctx.memo[k]=at
            s.assumptions.add('%s is an uninterpreted function'%name)
        return T.var(at)
    M[name]=f
fn1('log',math.log); fn1('exp',math.exp,'fnpos'); fn1('sin',math.sin); fn1('cos',math.cos); fn1('tan',math.tan); fn1('acos',math.acos); fn1('asin',math.asin); fn1('atan',math.atan); fn1('cbrt',lambda x: math.copysign(abs(x)**(1/3),x)); fn1('log2',math.log2); fn1('log10',math.log10)
@model('pow')
def _(s,st,a,i):
    x=s.toreal(st,a[0]); y=s.toreal(st,a[1])
    if not isinstance(y,Poly) and not isinstance(y,float) and y.denominator==1 and 0<=y<=8:
        r=Q(1)
        for _ in range(int(y)): r=T.mul(r,x)
        return r
    if not isinstance(x,Poly) and not isinstance(y,Poly): return Q(float(x)**float(y))
    if not isinstance(y,Poly) and y==Q(1,2): return s.fsqrt(st,x)
    raise Unsupported('pow')
def fmin_(s,st,a,b):
    if isinstance(a,float) or isinstance(b,float):
        if isinstance(a,float) and math.isnan(a): return b
        if isinstance(b,float) and math.isnan(b): return a
        if a==-math.inf or b==-math.inf: return -math.inf
        return b if a==math.inf else a
    return s.sel1(st,s.cmp(T.sub(a,b),'<'),a,b,['d'])
@model('fmin')
def _(s,st,a,i): return fmin_(s,st,s.toreal(st,a[0]),s.toreal(st,a[1]))
@model('fmax')
def _(s,st,a,i):
    n=lambda v: -v if isinstance(v,float) else T.neg(v)
    return n(fmin_(s,st,n(s.toreal(st,a[0])),n(s.toreal(st,a[1]))))
@model('abs','labs','llabs')
def _(s,st,a,i): return iabs(s,st,a[0],i[2][1])
def iabs(s,st,v,w):
    v=s.sint(st,v,w)
    if not isinstance(v,Poly): return abs(v)
    lo,hi=T.bounds(v)
    if lo>=0: return v
    return s.ite(s.cmp(v,'<'),T.neg(v),v,True)
# ---------------------------------------------------------------- intrinsics
def intr(name):
    def d(f): PREFIX.append(('llvm.'+name+'.',f)); return f
    return d
PREFIX=[]
@intr('memcpy')
def _(s,st,a,i): s.memcpy(st,a[0],a[1],a[2])
@intr('memmove')
def _(s,st,a,i): s.memcpy(st,a[0],a[1],a[2])
@intr('memset')
def _(s,st,a,i): s.memset(st,a[0],a[1],a[2])
for _k in('sqrt','fabs','floor','ceil','trunc','round','rint','nearbyint','log','exp','sin','cos','log2','log10'): PREFIX.append(('llvm.%s.'%_k,vec1(M[_k])))
PREFIX.append(('llvm.pow.',M['pow']))
PREFIX.append(('llvm.minnum.',M['fmin'])); PREFIX.append(('llvm.maxnum.',M['fmax']))
@intr('fmuladd')
def _(s,st,a,i): return s.fadd(s.fmul(s.toreal(st,a[0]),s.toreal(st,a[1])),s.toreal(st,a[2]))
@intr('copysign')
def _(s,st,a,i):
    x=s.fabs(st,s.toreal(st,a[0])); y=s.toreal(st,a[1])
    if isinstance(y,float): return -x if math.copysign(1,y)<0 else x
    return s.sel1(st,s.cmp(T.P(y) if isinstance(y,Poly) else y,'<'),T.neg(x),x,['d'])
def minmax(op):
    def f(s,st,a,i):
        t=i[2]
        if isinstance(a[0],list): return [g(s,st,x,y,t[3]) for x,y in zip(a[0],a[1])]
        return g(s,st,a[0],a[1],t)
    def g(s,st,x,y,t):
        c=s.icmp1(st,op,x,y,t); return s.sel1(st,c,x,y,t)
    return f
for _n,_o in(('smax','sgt'),('smin','slt'),('umax','ugt'),('umin','ult')): PREFIX.append(('llvm.%s.'%_n,minmax(_o)))
@intr('abs')
def _(s,st,a,i): return s.ic(iabs(s,st,a[0],i[2][1]))
def withov(kind,signed):
    def f(s,st,a,i):
        w=i[2][2][0][1][1]; g=s.sint if signed else s.uint
        x=g(st,a[0],w); y=g(st,a[1],w)
        X=x if isinstance(x,Poly) else Q(x); Y=y if isinstance(y,Poly) else Q(y)
        r={'add':T.add,'sub':T.sub,'mul':T.mul}[kind](X,Y)
        lo,hi=(-(1<<(w-1)),(1<<(w-1))) if signed else (0,1<<w)
        ov=s.decide(st,s.cmp(T.sub(r,lo),'<')) or s.decide(st,s.cmp(T.sub(hi,r),'<='))
        return [r if isinstance(r,Poly) else int(r)&((1<<w)-1),ov]
    return f
for _k in('add','sub','mul'):
    PREFIX.append(('llvm.s%s.with.overflow.'%_k,withov(_k,True))); PREFIX.append(('llvm.u%s.with.overflow.'%_k,withov(_k,False)))
def conc(s,st,v,w): return s.concretize(st,s.uint(st,v,w)) if isinstance(v,Poly) else int(v)
@intr('ctpop')
def _(s,st,a,i): return bin(conc(s,st,a[0],i[2][1])).count('1')
@intr('ctlz')
def _(s,st,a,i): return i[2][1]-conc(s,st,a[0],i[2][1]).bit_length()
@intr('cttz')
def _(s,st,a,i):
    v=conc(s,st,a[0],i[2][1]); return (v&-v).bit_length()-1 if v else i[2][1]
@intr('bswap')
def _(s,st,a,i): w=i[2][1]; return int.from_bytes(conc(s,st,a[0],w).to_bytes(w//8,'little'),'big')
def fsh(left):
    def f(s,st,a,i):
        w=i[2][1]; x,y,k=[conc(s,st,v,w) for v in a]; k%=w; v=(x<<w)|y
        return ((v<<k)>>w if left else v>>k)&((1<<w)-1)
    return f
PREFIX.append(('llvm.fshl.',fsh(True))); PREFIX.append(('llvm.fshr.',fsh(False)))
@intr('usub.sat')
def _(s,st,a,i):
    t=i[2]; c=s.icmp1(st,'ult',a[0],a[1],t); return s.sel1(st,c,0,s.bin1(st,'sub',a[0],a[1],t),t) if not s.decide(st,c) else 0
@intr('uadd.sat')
def _(s,st,a,i): return s.bin1(st,'add',a[0],a[1],i[2])
@intr('expect')
def _(s,st,a,i): return a[0]
@intr('is.constant')
def _(s,st,a,i): return False
@intr('objectsize')
def _(s,st,a,i): return (1<<64)-1
@intr('is.fpclass')
def _(s,st,a,i):
    x=s.toreal(st,a[0])
    if isinstance(x,float): m=3 if math.isnan(x) else (4 if x<0 else 512); return bool(a[1]&m)
    return bool(a[1]&0x1f8) if (a[1]&0x1f8) in(0,0x1f8) else _uns('is.fpclass')
def _uns(x): raise Unsupported(x)
@model('llvm.trap','abort','_ZSt9terminatev','__assert_fail')
def _(s,st,a,i): raise PathEnd('abort','abort/trap')
@model('exit','_exit')
def _(s,st,a,i): raise PathEnd('abort','exit')
M['llvm.stacksave.p0']=M['llvm.stacksave']=lambda s,st,a,i: 0
M['llvm.stackrestore.p0']=M['llvm.stackrestore']=lambda s,st,a,i: None
@model('llvm.eh.typeid.for','llvm.eh.typeid.for.p0')
def _(s,st,a,i): return (a[0]>>SHIFT)+1
def red(kind):
    def f(s,st,a,i):
        v=a[-1]; r=a[0] if len(a)>1 else None
        for x in v: r=x if r is None else s.f1(st,kind,r,x)
        return r
    return f
PREFIX.append(('llvm.vector.reduce.fadd.',red('fadd'))); PREFIX.append(('llvm.vector.reduce.fmul.',red('fmul')))
def redi(kind):
    def f(s,st,a,i):
        v=a[0]; r=v[0]
        for x in v[1:]: r=s.bin1(st,kind,r,x,i[2])
        return r
    return f
for _k in('add','mul','and','or','xor'): PREFIX.append(('llvm.vector.reduce.%s.'%_k,redi(_k)))
NOP=lambda s,st,a,i: None
for _n in('llvm.prefetch.p0','llvm.donothing','__cxa_atexit','_ZNSt8ios_base4InitC1Ev','_ZNSt8ios_base4InitD1Ev','llvm.invariant.start.p0'): M[_n]=lambda s,st,a,i: 0
# ---------------------------------------------------------------- C++ runtime
@model('__cxa_guard_acquire')
def _(s,st,a,i):
    v=s.load(st,a[0],1,['i',8]); return 0 if v else 1
@model('__cxa_guard_release')
def _(s,st,a,i): s.store(st,a[0],1,1)
@model('__cxa_guard_abort')
def _(s,st,a,i): pass
@model('__cxa_allocate_exception')
def _(s,st,a,i): return s.alloc(st,a[0]+64,'exception',zero=True)
@model('__cxa_free_exception','__cxa_end_catch')
def _(s,st,a,i): pass
@model('__cxa_begin_catch','__cxa_get_exception_ptr')
def _(s,st,a,i): return a[0]
@model('__cxa_throw')
def _(s,st,a,i): return s.throw(st,a[0],a[1])
@model('__cxa_rethrow')
def _(s,st,a,i): return s.unwind(st,False)
@model('__cxa_pure_virtual')
def _(s,st,a,i): raise PathEnd('abort','pure virtual call')
def thrower(ti):
    def f(s,st,a,i):
        if ti not in s.gaddr:
            k=st.nextobj; st.nextobj+=1; s.gaddr[ti]=k<<SHIFT; st.mem[k]=symx.Obj(64,ti,st.id,True,'global'); s.base.mem[k]=st.mem[k]
        return s.throw(st,s.alloc(st,64,'exception',zero=True),s.gaddr[ti])
    return f
for _n,_t in(('_ZSt20__throw_length_errorPKc','_ZTISt12length_error'),('_ZSt17__throw_bad_allocv','_ZTISt9bad_alloc'),('_ZSt28__throw_bad_array_new_lengthv','_ZTISt20bad_array_new_length'),('_ZSt19__throw_logic_errorPKc','_ZTISt11logic_error'),
   ('_ZSt24__throw_out_of_range_fmtPKcz','_ZTISt12out_of_range'),('_ZSt20__throw_out_of_rangePKc','_ZTISt12out_of_range'),('_ZSt24__throw_invalid_argumentPKc','_ZTISt16invalid_argument'),('_ZSt16__throw_bad_castv','_ZTISt8bad_cast'),('_ZSt25__throw_bad_function_callv','_ZTISt17bad_function_call'),('__cxa_bad_cast','_ZTISt8bad_cast'),('__cxa_throw_bad_array_new_length','_ZTISt20bad_array_new_length')): M[_n]=thrower(_t)
# std exception constructors/destructors: the payload is not modelled
PREFIX.append(('_ZNSt13runtime_error',NOP)); PREFIX.append(('_ZNSt11logic_error',NOP)); PREFIX.append(('_ZNSt16invalid_argument',NOP)); PREFIX.append(('_ZNSt12out_of_range',NOP)); PREFIX.append(('_ZNSt12length_error',NOP)); PREFIX.append(('_ZNSt9exception',NOP)); PREFIX.append(('_ZNSt9bad_alloc',NOP)); PREFIX.append(('_ZNSt12domain_error',NOP)); PREFIX.append(('_ZNSt11range_error',NOP))
@model('__dynamic_cast')
def _(s,st,a,i):
    # single inheritance hierarchies at offset 0
    p=a[0]
    if p==0: return 0
    vt=s.load(st,p,8,['p']); ti=s.load(st,vt-8,8,['p']); top=s.load(st,vt-16,8,['i',64])
    top=top-(1<<64) if top>>63 else top
    full=p+top
    n=s.tname(ti); want=s.tname(a[2])
    if want==n or want in s.bases(st,n): return full
    return 0
MODELS=M
