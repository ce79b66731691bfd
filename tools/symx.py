"""Symbolic executor for the LLVM IR that clang makes of the real code (see irdump.cpp for the input format).

Doubles are exact reals, integers are mathematical integers with 64-bit range obligations, memory is a set of
objects with typed cells. Symbolic branches are decided by the SMT solver (z3, cvc5 as second opinion).
"""
import json, struct, math, time, sys, itertools, subprocess, os
from fractions import Fraction as Q
import z3
import terms as T
from terms import Poly, Unsupported

DBG=bool(os.environ.get('VP_DBG'))
class Fork(Exception):
    def __init__(s,cond): s.cond=cond
class PathEnd(Exception):
    def __init__(s,kind,msg=''): s.kind=kind; s.msg=msg
class MemErr(Exception): pass
class Budget(Exception): pass

class K:                      # constant operand
    __slots__=('v',)
    def __init__(s,v): s.v=v

SHIFT=24; MASK=(1<<SHIFT)-1
NAN=float('nan')

def fp_from_bits(b,n=64):
    f=struct.unpack('<d',struct.pack('<Q',b))[0] if n==64 else struct.unpack('<f',struct.pack('<I',b))[0]
    if math.isnan(f) or math.isinf(f): return f
    return Q(f)
def fp_to_bits(v):
    return struct.unpack('<Q',struct.pack('<d',float(v)))[0]

class Obj:
    __slots__=('size','cells','owner','name','zero','freed','kind')
    def __init__(s,size,name,owner,zero=False,kind='heap'):
        s.size=size; s.cells={}; s.owner=owner; s.name=name; s.zero=zero; s.freed=False; s.kind=kind
    def clone(s,owner):
        o=Obj(s.size,s.name,owner,s.zero,s.kind); o.cells=dict(s.cells); o.freed=s.freed; return o

class Frame:
    __slots__=('fn','bb','ip','L','dest','prev','allocas','lp')
    def __init__(s,fn,dest):
        s.fn=fn; s.bb=0; s.ip=0; s.L=[None]*fn.n; s.dest=dest; s.prev=-1; s.allocas=[]; s.lp=None
    def clone(s):
        f=Frame.__new__(Frame); f.fn=s.fn; f.bb=s.bb; f.ip=s.ip; f.L=list(s.L); f.dest=s.dest; f.prev=s.prev; f.allocas=list(s.allocas); f.lp=s.lp; return f

class State:
    _n=itertools.count()
    def __init__(s):
        s.id=next(State._n); s.frames=[]; s.mem={}; s.path=[]; s.known={}; s.model=None; s.nextobj=0; s.exc=None; s.ctr=0; s.reach=set(); s.steps=0; s.obs=[]; s.names={}
    def fork(s):
        n=State.__new__(State); n.id=next(State._n); n.frames=[f.clone() for f in s.frames]; n.mem=dict(s.mem); n.path=list(s.path); n.known=dict(s.known); n.model=s.model; n.nextobj=s.nextobj; n.exc=s.exc; n.ctr=s.ctr; n.reach=set(s.reach); n.steps=s.steps; n.obs=list(s.obs); n.names=dict(s.names)
        s.id=next(State._n)      # both sides lose ownership: copy on write
        return n

class Fn: pass

KNOWN_BASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error','_ZTISt9exception'],
 '_ZTISt12length_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt12out_of_range':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt8bad_cast':['_ZTISt9exception'],'_ZTISt20bad_array_new_length':['_ZTISt9bad_alloc','_ZTISt9exception'],
 '_ZTISt12domain_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt11range_error':['_ZTISt13runtime_error','_ZTISt9exception']}

class Stats:
    def __init__(s):
        s.q=0; s.qt=0.0; s.sat=0; s.unsat=0; s.unk=0; s.normal=0; s.maxq=0.0; s.fallback=0; s.normq=0; s.normonly=0; s.steps=0

class Engine:
    def __init__(s, module, opts=None):
        o=dict(max_paths=20000,max_steps=3_000_000,tmo_branch=5000,tmo_assert=60000,select='ite',deadline=None,max_cex=3,loop_check=True)
        o.update(opts or {}); s.o=o; s.ctx=T.reset(); s.st=Stats(); s.mod=module; s.fns={}; s.gaddr={}; s.baddr={}; s.ginit={}
        s.keep=[]; s.condinfo={}; s.atomcache={}; s.defcache={}
        s.asserts={}; s.cex=[]; s.unknown=[]; s.reach={}; s.paths=0; s.ends={}; s.assumptions=set(); s.fcalled=set(); s.samples=[]; s.ext_used=set()
        s.nobj=1; s.nf=[]; s.nfseen=set()
        for name,g in module['globals'].items():
            s.gaddr[name]=s.nobj<<SHIFT; s.nobj+=1
        for name in list(module['functions'])+module['decls']:
            s.gaddr[name]=s.nobj<<SHIFT; s.baddr[s.nobj<<SHIFT]=name; s.nobj+=1
        for name,f in module['functions'].items(): s.fns[name]=f   # compiled lazily
        s.compiled={}
        from models import MODELS
        s.models=MODELS
        s.base=State(); s.base.nextobj=s.nobj
        for name,g in module['globals'].items():
            ob=Obj(g['size'],name,s.base.id,zero=not g['ext'],kind='global')
            for off,size,op in g['init']:
                ob.cells[off]=(size,s.constant(op))
            s.base.mem[s.gaddr[name]>>SHIFT]=ob
            if g['ext'] and g['size']==0: ob.size=4096; ob.zero=True
            if g['ext']: ob.size=max(ob.size,256); ob.zero=True
    # ------------------------------------------------------------ constants
    def constant(s,o):
        k=o[0]
        if k=='c': return o[1]
        if k=='fp': return fp_from_bits(o[2],o[1]) if o[1] in(32,64) else _x80(o[2])
        if k=='g': return s.gaddr[o[1]]
        if k=='u': return s.undef(o[1])
        if k=='z': return s.zero(o[1])
        if k=='ag': return [s.constant(x) for x in o[1]]
        if k=='gep':
            b=s.constant(o[1])
            return (b+o[2])&((1<<64)-1)
        if k=='ce':
            if o[1] in('ptrtoint','inttoptr','bitcast','addrspacecast'): return s.constant(o[3][0][0])
            a=[s.constant(x[0]) for x in o[3]]; w=o[2][1] if len(o[2])>1 else 64; m=(1<<w)-1
            if o[1]=='sub': return (a[0]-a[1])&m
            if o[1]=='add': return (a[0]+a[1])&m
            if o[1]=='trunc': return a[0]&m
        if k=='md': return None
        raise Unsupported('constant '+json.dumps(o)[:200])
    def undef(s,ty):
        if ty[0]=='s': return [s.undef(t) for _,t in ty[2]]
        if ty[0]=='a': return [s.undef(ty[4]) for _ in range(ty[2])]
        if ty[0]=='V': return [s.undef(ty[3]) for _ in range(ty[1])]
        return None     # None is the undefined scalar
    def zero(s,ty):
        if ty[0]=='s': return [s.zero(t) for _,t in ty[2]]
        if ty[0]=='a': return [s.zero(ty[4]) for _ in range(ty[2])]
        if ty[0]=='V': return [s.zero(ty[3]) for _ in range(ty[1])]
        if ty[0] in('d','f','x'): return Q(0)
        return 0
    # ------------------------------------------------------------ function compilation
    def opnd(s,o):
        if o[0]=='l': return o[1]
        if o[0]=='unsupported': return K(('unsupported',o))
        if o[0]=='gep' : return K(s.constant(o))
        return K(s.constant(o))
    def fn(s,name):
        f=s.compiled.get(name)
        if f: return f
        d=s.fns[name]; f=Fn(); f.name=name; f.n=d['n']; f.args=d['args']; f.ret=d['ret']; f.src=d['src']; f.blocks=[]; f.phis=[]
        for b in d['blocks']:
            ins=[]; phis=[]
            for i in b:
                op=i[0]
                if op=='phi':
                    phis.append((i[1],{bb:s.opnd(v) for bb,v in i[3]})); continue
                ins.append(s.compile(i))
            f.blocks.append(ins); f.phis.append(phis)
        s.compiled[name]=f; return f
    def compile(s,i):
        op,d,ty=i[0],i[1],i[2]; O=s.opnd
        if op=='gep':
            g=i[3]
            if g[0]!='gep': return ('unsupported',d,ty,json.dumps(i)[:200])
            return ('gep',d,ty,O(g[1]),g[2],[(O(v),w,sc) for v,w,sc in g[3]])
        if op in('icmp','fcmp'): return (op,d,ty,i[3],O(i[4]),O(i[5]),i[6])
        if op in('call','invoke'):
            if i[3]==['unsupported','asm'] and not i[4] and op=='call': return ('fence',d,ty)      # assembly comment
            return (op,d,ty,O(i[3]) if i[3][0]!='g' else K(s.gaddr[i[3][1]]),[(O(a),t) for a,t in i[4]])+tuple(i[5:])
        if op=='cbr': return (op,d,ty,O(i[3]),i[4],i[5])
        if op=='br': return (op,d,ty,i[3])
        if op=='switch': return (op,d,ty,O(i[3]),i[4],i[5],[(s.constant(v),b) for v,b in i[6]])
        if op=='alloca': return (op,d,ty,i[3],O(i[4]))
        if op=='load': return (op,d,ty,O(i[3]),i[4])
        if op=='store': return (op,d,ty,O(i[3]),O(i[4]),i[5])
        if op=='extractvalue': return (op,d,ty,O(i[3]),i[4])
        if op=='insertvalue': return (op,d,ty,O(i[3]),O(i[4]),i[5])
        if op=='landingpad': return (op,d,ty,i[3],[(k,s.constant(v)) for k,v in i[4]])
        if op=='shufflevector': return (op,d,ty,O(i[3]),O(i[4]),i[5],i[6])
        return (op,d,ty,[(O(a[0]),a[1]) for a in i[3] if a[0]!='bb'])
    # ------------------------------------------------------------ solver
    def zdef(s,a):
        """defining constraints of an atom."""
        if a.defs is not None: return a.defs
        k=a.kind; z=a.zr; d=[]
        if k in('in','uninit'):
            if a.is_int:
                if a.lo is not None: d.append(a.z>=int(a.lo))
                if a.hi is not None: d.append(a.z<=int(a.hi))
            else:
                if a.lo is not None: d.append(a.z>=T.zq(a.lo))
                if a.hi is not None: d.append(a.z<=T.zq(a.hi))
        elif k=='inv': d.append(z*T.to_real(a.args[0])==1)
        elif k=='def': d.append(z==T.to_real(a.args[0]))
        elif k=='sqrt': d+= [z>=0, z*z==T.to_real(a.args[0])]
        elif k=='ite':
            c,x,y=a.args; f=T.to_int if a.is_int else T.to_real; zz=a.z
            d.append(z3.If(c,zz==f(x),zz==f(y)))
        elif k=='floor':
            x=T.to_real(a.args[0]); d+=[z<=x, x<z+1]
        elif k=='trunc':
            x=T.to_real(a.args[0]); d+=[z3.If(x>=0,z3.And(z<=x,x<z+1,a.z>=0),z3.And(z>=x,x>z-1,a.z<=0))]
        elif k=='round':
            x=T.to_real(a.args[0]); h=z3.Q(1,2); d+=[z3.If(x>=0,z3.And(z<=x+h,x+h<z+1,a.z>=0),z3.And(z>=x-h,x-h>z-1,a.z<=0))]
        elif k=='rint': raise Unsupported('rint')
        elif k=='quo':      # args: n, d(positive), r atom
            n,dd,r=a.args; d+=[T.to_int(T.add(T.add(T.mul(dd,T.var(a)),T.var(r)),T.neg(n)))==0, r.z>=0, T.to_int(T.sub(T.var(r),dd))<0]
        elif k=='rem': d+=s.zdef(a.args[0])
        elif k=='bit':      # signed bitwise operation, known through its sign, zero and size facts
            op,x,y=a.args; zx=T.to_int(x); zy=T.to_int(y); zz=a.z
            if op=='or': d+=[(zz<0)==z3.Or(zx<0,zy<0),(zz==0)==z3.And(zx==0,zy==0),zz>=z3.If(zx<zy,zx,zy),z3.Implies(z3.And(zx>=0,zy>=0),z3.And(zz>=zx,zz>=zy,zz<=zx+zy)),z3.Implies(zx==0,zz==zy),z3.Implies(zy==0,zz==zx),z3.Implies(zx==-1,zz==-1),z3.Implies(zy==-1,zz==-1)]
            elif op=='and': d+=[(zz<0)==z3.And(zx<0,zy<0),z3.Implies(zx>=0,z3.And(zz>=0,zz<=zx)),z3.Implies(zy>=0,z3.And(zz>=0,zz<=zy)),z3.Implies(zx==0,zz==0),z3.Implies(zy==0,zz==0),z3.Implies(zx==-1,zz==zy),z3.Implies(zy==-1,zz==zx)]
            else: d+=[(zz<0)==z3.Xor(zx<0,zy<0),(zz==0)==(zx==zy),z3.Implies(z3.And(zx>=0,zy>=0),zz<=zx+zy),z3.Implies(zx==0,zz==zy),z3.Implies(zy==0,zz==zx)]
        elif k=='fn': pass
        elif k=='fnpos': d.append(z>0)
        else: raise Unsupported('atom kind '+k)
        if k not in('in','uninit'):
            lo,hi=a.lo,a.hi
        a.defs=d; return d
    def consts(s,e):
        """names of uninterpreted constants in a z3 expression (memoised)."""
        i=e.get_id(); r=s.atomcache.get(i)
        if r is not None: return r
        if z3.is_const(e):
            r=frozenset([e.decl().name()]) if e.decl().kind()==z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r=frozenset().union(*[s.consts(c) for c in e.children()]) if e.num_args() else frozenset()
        s.atomcache[i]=r; s.keep.append(e); return r
    def closure(s,name):
        """(constraint list, const names) needed to define a constant."""
        r=s.defcache.get(name)
        if r is not None: return r
        a=s.ctx.byname.get(name)
        if a is None: r=((),frozenset([name])); s.defcache[name]=r; return r
        seen={name}; todo=[name]; cons=[]; ids=set()
        while todo:
            n=todo.pop(); b=s.ctx.byname.get(n)
            if b is None: continue
            for c in s.zdef(b):
                if c.get_id() in ids: continue
                ids.add(c.get_id()); cons.append(c)
                for m in s.consts(c):
                    if m not in seen: seen.add(m); todo.append(m)
        r=(tuple(cons),frozenset(seen)); s.defcache[name]=r; return r
    def query(s,state,extra,timeout,want_model=False,full=False):
        """satisfiability of path & extra. Returns (result, model dict or None)."""
        need=set(); 
        def grow(e):
            for n in s.consts(e):
                if n not in need:
                    need.update(s.closure(n)[1])
        for e in extra: grow(e)
        used=[]; rest=list(state.path); changed=True
        if full: used=rest; [grow(e) for e in used]; rest=[]
        while changed:
            changed=False; r2=[]
            for c in rest:
                cn=s.pathconsts(c)
                if cn & need: used.append(c); grow(c); need.update(cn); changed=True
                else: r2.append(c)
            rest=r2
        cons=[]; ids=set()
        for c in list(extra)+used:
            if c.get_id() not in ids: ids.add(c.get_id()); cons.append(c)
        for n in need:
            a=s.ctx.byname.get(n)
            if a is None: continue
            for c in s.zdef(a):
                if c.get_id() not in ids: ids.add(c.get_id()); cons.append(c)
        t0=time.time(); r,m=s.solve(cons,timeout)
        if DBG and time.time()-t0>1: print('SLOW %.1f %s %s'%(time.time()-t0,r,' ; '.join(str(e)[:300] for e in extra)),[str(c)[:150] for c in cons][:12],file=sys.stderr)
        md=None
        if r=='sat' and m is not None:
            md=dict(state.model or {})
            for n in need: 
                a=s.ctx.byname.get(n)
                if a is None or a.kind not in('in','uninit','fn','fnpos'): continue
                v=m.get(n)
                if v is not None: md[n]=v
        return r,md
    def pathconsts(s,c):
        i=('pc',c.get_id()); r=s.defcache.get(i)
        if r is None:
            x=set()
            for n in s.consts(c): x|=s.closure(n)[1]
            r=frozenset(x); s.defcache[i]=r
        return r
    def solve(s,cons,timeout):
        if s.o['deadline'] and time.time()>s.o['deadline']: raise Budget('deadline')
        t0=time.time(); s.st.q+=1; n0=None
        linear=True
        for c in cons:
            if not s.linear(c): linear=False; break
        hasint=any(s.hasint(c) for c in cons)
        r='unknown'; m=None
        tries=[]
        if not linear and not hasint: tries=[('nra',timeout),('cvc5',timeout),('plain',timeout)]
        elif not linear: tries=[('plain',timeout),('cvc5',timeout)]
        else: tries=[('plain',timeout)]
        for k,tm in tries:
            if s.o['deadline']: tm=max(200,min(tm,int((s.o['deadline']-time.time())*1000)))
            if k=='cvc5':
                r,m=self_cvc5(cons,tm); s.st.fallback+=1
            else:
                sol=z3.SolverFor('QF_NRA') if k=='nra' else z3.Solver()
                sol.set('timeout',int(tm)); sol.add(*cons)
                try: rr=sol.check()
                except z3.Z3Exception: rr=z3.unknown
                r=str(rr)
                if r=='sat':
                    mm=sol.model(); m={}
                    for d in mm.decls():
                        if d.arity()==0: m[d.name()]=_val(mm[d])
            if r!='unknown': break
        dt=time.time()-t0; s.st.qt+=dt; s.st.maxq=max(s.st.maxq,dt)
        if r=='sat': s.st.sat+=1
        elif r=='unsat': s.st.unsat+=1
        else: s.st.unk+=1
        return r,m
    def linear(s,e):
        k=('lin',e.get_id()); r=s.atomcache.get(k)
        if r is not None: return r
        r=True
        if z3.is_app(e):
            dk=e.decl().kind()
            if dk==z3.Z3_OP_MUL: r=sum(1 for c in e.children() if s.consts(c))<=1
            elif dk in(z3.Z3_OP_DIV,z3.Z3_OP_IDIV,z3.Z3_OP_MOD,z3.Z3_OP_POWER): r=False
            if r: r=all(s.linear(c) for c in e.children())
        s.atomcache[k]=r; s.keep.append(e); return r
    def hasint(s,e):
        for n in s.consts(e):
            a=s.ctx.byname.get(n)
            if a is not None and a.is_int: return True
        return False
    # ------------------------------------------------------------ evaluating conditions under a model
    def evala(s,aid,model,memo):
        if aid in memo: return memo[aid]
        a=s.ctx.atoms[aid]; v=None; k=a.kind
        if k in('in','uninit','fn','fnpos'):
            v=model.get(a.name)
            if isinstance(v,tuple): v=None
        elif k in('inv','def','sqrt','floor','trunc','round'):
            x=s.evalp(a.args[0],model,memo)
            if x is None: v=None
            elif k=='inv': v=1/x if x else None
            elif k=='def': v=x
            elif k=='floor': v=Q(math.floor(x))
            elif k=='trunc': v=Q(math.trunc(x))
            elif k=='round': v=Q(math.floor(x+Q(1,2))) if x>=0 else Q(math.ceil(x-Q(1,2)))
            else: v=_sqrt_exact(x)
        elif k=='ite':
            c=s.evalc(a.args[0],model,memo)
            v=None if c is None else s.evalp(a.args[1] if c else a.args[2],model,memo)
        elif k=='bit':
            op,x,y=a.args; x=s.evalp(x,model,memo); y=s.evalp(y,model,memo)
            if x is not None and y is not None: x=int(x); y=int(y); v=Q(x|y if op=='or' else x&y if op=='and' else x^y)
        elif k=='quo':
            n=s.evalp(a.args[0],model,memo); d=s.evalp(a.args[1],model,memo)
            v=None if n is None or d is None or d<=0 else Q(n//d)
        elif k=='rem':
            q=s.evala(a.args[0].id,model,memo)
            if q is not None:
                n=s.evalp(a.args[0].args[0],model,memo); d=s.evalp(a.args[0].args[1],model,memo); v=n-d*q
        memo[aid]=v; return v
    def evalp(s,p,model,memo):
        if not isinstance(p,Poly): return Q(p)
        r=Q(0); vals={}
        for m,c in p.t.items():
            x=c
            for aid in m:
                v=vals.get(aid)
                if v is None:
                    v=s.evala(aid,model,memo)
                    if v is None: return None
                    vals[aid]=v
                x=x*v
            r+=x
        return r
    def evalc(s,c,model,memo):
        if isinstance(c,bool): return c
        i=('c',c.get_id())
        if i in memo: return memo[i]
        info=s.condinfo.get(c.get_id()); r=None
        if info is not None:
            v=s.evalp(info[0],model,memo)
            if v is not None: r={'<':v<0,'<=':v<=0,'==':v==0,'!=':v!=0}[info[1]]
        elif z3.is_true(c): r=True
        elif z3.is_false(c): r=False
        elif z3.is_not(c):
            x=s.evalc(c.arg(0),model,memo); r=None if x is None else not x
        elif z3.is_and(c):
            xs=[s.evalc(a,model,memo) for a in c.children()]; r=False if False in xs else (None if None in xs else True)
        elif z3.is_or(c):
            xs=[s.evalc(a,model,memo) for a in c.children()]; r=True if True in xs else (None if None in xs else False)
        elif c.decl().kind()==z3.Z3_OP_XOR:
            xs=[s.evalc(a,model,memo) for a in c.children()]; r=None if None in xs else xs[0]!=xs[1]
        memo[i]=r; return r
    def cmp(s,p,op):
        c=T.cmp0(p,op)
        if isinstance(c,bool): return c
        if c.get_id() not in s.condinfo:
            s.condinfo[c.get_id()]=(p,op); s.keep.append(c)
        return c
    # ------------------------------------------------------------ branching
    def decide(s,st,cond):
        if cond is None:
            raise PathEnd('undef-branch','branch on an undefined value')
        if isinstance(cond,bool): return cond
        if isinstance(cond,int): return bool(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        c=cond; pol=True
        while z3.is_not(c): c=c.arg(0); pol=not pol
        k=st.known.get(c.get_id())
        if k is not None: return k==pol
        s.keep.append(c)
        ev=None
        if st.model is not None: ev=s.evalc(c,st.model,{})
        nc=z3.Not(c); mt=mf=None; T_=F_=None
        if ev is True: T_='sat'; mt=st.model
        elif ev is False: F_='sat'; mf=st.model
        if T_ is None: T_,mt=s.query(st,[c],s.o['tmo_branch'])
        if T_=='unsat':
            st.known[c.get_id()]=False; return (False==pol)
        if F_ is None: F_,mf=s.query(st,[nc],s.o['tmo_branch'])
        if F_=='unsat':
            st.known[c.get_id()]=True; return (True==pol)
        f=Fork(c); f.mt=mt; f.mf=mf; raise f
    def assume(s,st,cond):
        if isinstance(cond,(bool,int)):
            if not cond: raise PathEnd('assume')
            return
        if cond is None: raise PathEnd('assume')
        c=cond; pol=True
        while z3.is_not(c): c=c.arg(0); pol=not pol
        k=st.known.get(c.get_id())
        if k is not None:
            if k!=pol: raise PathEnd('assume')
            return
        ev=s.evalc(c,st.model,{}) if st.model is not None else None
        if ev is None or ev!=pol:
            r,m=s.query(st,[cond],s.o['tmo_branch'])
            if r=='unsat': raise PathEnd('assume')
            st.model=m
        st.known[c.get_id()]=pol; st.path.append(cond); s.keep.append(cond); s.keep.append(c)
    def concretize(s,st,p):
        """fork until the integer-valued term has one value on the path."""
        if not isinstance(p,Poly): return int(p)
        k=('conc',p.key()); v=st.known.get(k)
        if v is not None: return v
        m=st.model
        for attempt in range(1000):
            c=s.evalp(p,m,{}) if m is not None else None
            if c is None:
                z=T.to_real(p); r,m=s.query(st,[z3.Real('conc!probe')==z],s.o['tmo_branch'])
                if r!='sat' or m is None: raise Unsupported('cannot concretize (%s) '%r+repr(p))
                st.model=m; c=s.evalp(p,m,{})
                if c is None: raise Unsupported('cannot evaluate '+repr(p))
            c=int(c)
            if s.decide(st,s.cmp(T.sub(p,c),'==')):
                st.known[k]=c; return c
            m=None
        raise Unsupported('concretize')
    # ------------------------------------------------------------ integers
    def sint(s,st,v,w):
        if v is None: return s.undef_int(st,w)
        if not isinstance(v,Poly):
            if isinstance(v,bool): v=int(v)
            v=s.toint(v)
            v&=(1<<w)-1
            return v-(1<<w) if v>>(w-1) else v
        lo,hi=T.bounds(v); h=1<<(w-1)
        if lo>=-h and hi<h: return v
        return s.wrap(st,v,w,-h,h)
    def uint(s,st,v,w):
        if v is None: return s.undef_int(st,w)
        if not isinstance(v,Poly):
            if isinstance(v,bool): v=int(v)
            return s.toint(v)&((1<<w)-1)
        lo,hi=T.bounds(v); h=1<<w
        if lo>=0 and hi<h: return v
        return s.wrap(st,v,w,0,h)
    def wrap(s,st,v,w,lo,hi):
        m=1<<w
        if s.decide(st,s.cmp(T.sub(v,lo),'<')):
            return s.wrap(st,T.add(v,m),w,lo,hi)
        if s.decide(st,s.cmp(T.sub(hi,v),'<=')):
            return s.wrap(st,T.sub(v,m),w,lo,hi)
        return v
    def toint(s,v):
        if isinstance(v,int): return v
        if isinstance(v,(Q,float)): return fp_to_bits(v)
        if isinstance(v,Poly): return v
        raise Unsupported('int of %r'%(v,))
    def undef_int(s,st,w):
        a=s.fresh(st,'undef','uninit',True,0,(1<<w)-1); return T.var(a)
    def fresh(s,st,name,kind,is_int,lo=None,hi=None,args=()):
        n='%s!%d'%(name,len(s.ctx.atoms))
        return s.ctx.new(n,kind,is_int,None if lo is None else Q(lo),None if hi is None else Q(hi),args)
    def boolint(s,c):
        """0/1 term of a condition."""
        if isinstance(c,(bool,int)): return int(c)
        return s.ite(c,1,0,True)
    def ite(s,c,a,b,is_int):
        if a is None: return b
        if b is None: return a
        if isinstance(c,(bool,int)): return a if c else b
        k=('ite',c.get_id(),a.key() if isinstance(a,Poly) else Q(a),b.key() if isinstance(b,Poly) else Q(b),is_int)
        x=s.ctx.memo.get(k)
        if x is None:
            la,ha=T.bounds(a); lb,hb=T.bounds(b)
            lo=min(la,lb); hi=max(ha,hb)
            x=s.ctx.new('ite!%d'%len(s.ctx.atoms),'ite',is_int,None if lo==-math.inf else Q(lo),None if hi==math.inf else Q(hi),(c,a,b)); s.ctx.memo[k]=x; s.keep.append(c)
        return T.var(x)
    def tobool(s,v):
        if v is None: return None
        if isinstance(v,bool): return v
        if isinstance(v,int): return bool(v&1)
        if isinstance(v,Poly):
            lo,hi=T.bounds(v)
            if lo>=0 and hi<=1:
                # ite(c,1,0) -> c
                if len(v.t)==1:
                    (m,c),=v.t.items()
                    if c==1 and len(m)==1:
                        a=s.ctx.atoms[m[0]]
                        if a.kind=='ite' and a.args[1]==1 and a.args[2]==0: return a.args[0]
                return s.cmp(v,'!=')
            raise Unsupported('bool of '+repr(v))
        return v
    # ------------------------------------------------------------ memory
    def alloc(s,st,size,name,zero=False,kind='heap'):
        i=st.nextobj; st.nextobj+=1
        if size>MASK: raise Unsupported('object of %d bytes'%size)
        st.mem[i]=Obj(size,name,st.id,zero,kind); return i<<SHIFT
    def resolve(s,st,addr,size):
        if addr is None: raise MemErr('dereference of an undefined pointer')
        if isinstance(addr,Poly): addr=s.concretize(st,addr)
        if not isinstance(addr,int): raise Unsupported('address %r'%(addr,))
        oid=addr>>SHIFT; off=addr&MASK
        ob=st.mem.get(oid)
        if ob is None:
            if oid==0: raise MemErr('null pointer dereference')
            raise MemErr('wild pointer dereference')
        if ob.freed: raise MemErr('use of freed memory (%s)'%ob.name)
        if off+size>ob.size: raise MemErr('out-of-bounds access: offset %d size %d in %s of %d bytes'%(off,size,ob.name,ob.size))
        return oid,ob,off
    def writable(s,st,oid,ob):
        if ob.owner!=st.id:
            ob=ob.clone(st.id); st.mem[oid]=ob
        return ob
    def clear_range(s,ob,off,size):
        cells=ob.cells
        if len(cells)<size+16:
            hit=[o for o,(sz,_) in cells.items() if o<off+size and o+sz>off]
        else:
            hit=[o for o in range(off-15,off+size) if o in cells and o+cells[o][0]>off]
        for o in hit:
            sz,v=cells.pop(o)
            if o<off or o+sz>off+size:      # keep the bytes outside
                bs=s.tobytes(v,sz)
                for k in range(sz):
                    if not(off<=o+k<off+size): cells[o+k]=(1,bs[k])
    def tobytes(s,v,sz):
        if isinstance(v,(Q,float)): v=fp_to_bits(v) if sz==8 else struct.unpack('<I',struct.pack('<f',float(v)))[0]
        if isinstance(v,bool): v=int(v)
        if v is None: return [None]*sz
        if isinstance(v,int): return [(v>>(8*k))&255 for k in range(sz)]
        if isinstance(v,Poly):
            lo,hi=T.bounds(v)
            if lo>=0 and hi<256: return [v]+[0]*(sz-1)
        raise Unsupported('byte access to a symbolic value')
    def store(s,st,addr,size,v):
        oid,ob,off=s.resolve(st,addr,size)
        ob=s.writable(st,oid,ob); c=ob.cells.get(off)
        if c is None or c[0]!=size or size==1: s.clear_range(ob,off,size)
        else:
            # same cell; nothing else can overlap
            pass
        ob.cells[off]=(size,v)
    def load(s,st,addr,size,ty):
        oid,ob,off=s.resolve(st,addr,size)
        c=ob.cells.get(off)
        if c is not None and c[0]==size: v=c[1]
        else: v=s.loadslow(st,oid,ob,off,size)
        k=ty[0]
        if k in('d','f'):
            if isinstance(v,int): return fp_from_bits(v,64 if k=='d' else 32)
            if v is None:
                a=s.fresh(st,'uninit','uninit',False); v=T.var(a)
                ob=s.writable(st,oid,ob); s.clear_range(ob,off,size); ob.cells[off]=(size,v)
            return v
        if k=='i' and ty[1]==1: return s.tobool(v)
        if v is None and k=='i' and s.o.get('garbage') and ty[1] in(32,64) and not ob.zero:
            # uninitialised integer: one arbitrary value, the same at every later read
            a=s.fresh(st,'uninit','uninit',True,-(1<<(ty[1]-1)),(1<<(ty[1]-1))-1); v=T.var(a)
            ob=s.writable(st,oid,ob); s.clear_range(ob,off,size); ob.cells[off]=(size,v)
        return v
    def loadslow(s,st,oid,ob,off,size):
        bs=[]; k=off
        while k<off+size:
            c=ob.cells.get(k)
            if c is not None and k+c[0]<=off+size:
                try: bs+=s.tobytes(c[1],c[0])
                except Unsupported:
                    if isinstance(c[1],Poly) and c[0]<size and k==off and s.zero_tail(ob,off+c[0],off+size) : return c[1]
                    raise
                k+=c[0]; continue
            found=False
            for o in range(k-15,k+1):
                c=ob.cells.get(o)
                if c is not None and o+c[0]>k:
                    if isinstance(c[1],Poly) and o==off and size<c[0]:
                        return c[1]      # low part: a residue of the same integer
                    b=s.tobytes(c[1],c[0]); n=min(o+c[0],off+size)
                    bs+=b[k-o:n-o]; k=n; found=True; break
            if not found:
                bs.append(0 if ob.zero else None); k+=1
        if all(b is None for b in bs): return None
        if any(b is None for b in bs):
            bs=[0 if b is None else b for b in bs]; s.assumptions.add('partially uninitialised words are read with zero padding')
        v=0
        for i,b in enumerate(bs):
            if isinstance(b,Poly): v=T.add(v,T.scale(b,1<<(8*i)))
            elif isinstance(v,Poly): v=T.add(v,b<<(8*i))
            else: v|=b<<(8*i)
        return v
    def zero_tail(s,ob,a,b): return all(s_ in ob.cells and ob.cells[s_][1]==0 for s_ in range(a,b))
    def memcpy(s,st,dst,src,n):
        n=s.concretize(st,n) if isinstance(n,Poly) else n
        if n==0: return
        so,sob,soff=s.resolve(st,src,n); do,dob,doff=s.resolve(st,dst,n)
        new=[]
        items=sob.cells.items() if len(sob.cells)<2*n else [(o,sob.cells[o]) for o in range(soff-15,soff+n) if o in sob.cells]
        for o,(sz,v) in items:
            if o+sz<=soff or o>=soff+n: continue
            if o>=soff and o+sz<=soff+n: new.append((o-soff,sz,v))
            else:
                b=s.tobytes(v,sz)
                for k in range(sz):
                    if soff<=o+k<soff+n: new.append((o+k-soff,1,b[k]))
        if sob.zero and not dob.zero:
            cov=set()
            for o,sz,_ in new: cov.update(range(o,o+sz))
            k=0
            while k<n:
                if k in cov: k+=1; continue
                if k+8<=n and not any((k+j) in cov for j in range(8)): new.append((k,8,0)); k+=8
                else: new.append((k,1,0)); k+=1
        elif dob.zero and not sob.zero:
            cov=set()
            for o,sz,_ in new: cov.update(range(o,o+sz))
            new+=[(k,1,None) for k in range(n) if k not in cov]
        dob=s.writable(st,do,dob); s.clear_range(dob,doff,n)
        for o,sz,v in new: dob.cells[doff+o]=(sz,v)
    def memset(s,st,dst,val,n):
        n=s.concretize(st,n) if isinstance(n,Poly) else n
        if n==0: return
        do,dob,doff=s.resolve(st,dst,n); dob=s.writable(st,do,dob); s.clear_range(dob,doff,n)
        if isinstance(val,Poly): val=s.concretize(st,val)
        if val is None:
            return
        val&=255; w=int.from_bytes(bytes([val]*8),'little'); k=0
        while k<n:
            if n-k>=8: dob.cells[doff+k]=(8,w); k+=8
            else: dob.cells[doff+k]=(1,val); k+=1
    def cstr(s,st,addr):
        r=''; 
        while True:
            c=s.load(st,addr,1,['i',8]); 
            if c==0: return r
            r+=chr(c); addr+=1
    # typed aggregate load/store
    def loadt(s,st,addr,size,ty):
        k=ty[0]
        if k=='V': return [s.loadt(st,addr+i*ty[2],ty[2],ty[3]) for i in range(ty[1])]
        if k=='s': return [s.loadt(st,addr+o,tysize(t),t) for o,t in ty[2]]
        if k=='a': return [s.loadt(st,addr+i*ty[3],ty[3],ty[4]) for i in range(ty[2])]
        return s.load(st,addr,size,ty)
    def storet(s,st,addr,size,v,ty):
        k=ty[0]
        if k=='V':
            for i in range(ty[1]): s.storet(st,addr+i*ty[2],ty[2],v[i],ty[3])
            return
        if k=='s':
            for (o,t),x in zip(ty[2],v): s.storet(st,addr+o,tysize(t),x,t)
            return
        if k=='a':
            for i in range(ty[2]): s.storet(st,addr+i*ty[3],ty[3],v[i],ty[4])
            return
        if k=='i' and ty[1]==1: v=s.boolint(v) if v is not None else None
        s.store(st,addr,size,v)
    # ------------------------------------------------------------ floating point (exact reals + inf/nan constants)
    def fadd(s,a,b):
        if isinstance(a,float) or isinstance(b,float): return s.spec('+',a,b)
        r=T.add(a,b)
        if isinstance(r,Poly) and s.ratnorm and len(r.t)<400 and T.has_inv(r):
            r=T.cancel(r)
            if isinstance(r,Poly) and T.is_zero(r): return Q(0)
        return r
    def fsub(s,a,b):
        if isinstance(b,float): return s.spec('+',a,-b)
        if isinstance(a,float): return s.spec('+',a,b)
        return s.fadd(a,T.neg(b))
    def fmul(s,a,b):
        if isinstance(a,float) or isinstance(b,float): return s.spec('*',a,b)
        return T.mul(a,b)
    def spec(s,op,a,b):
        fa=a if isinstance(a,float) else (None if isinstance(a,Poly) else float(a)); fb=b if isinstance(b,float) else (None if isinstance(b,Poly) else float(b))
        if fa is not None and math.isnan(fa) or fb is not None and math.isnan(fb): return NAN
        if op=='+':
            if fa is None: return fb
            if fb is None: return fa
            return fa+fb
        if fa is not None and fb is not None: return fa*fb
        p=a if fa is None else b; f=fb if fa is None else fa
        lo,hi=T.bounds(p)
        if lo>0: return f
        if hi<0: return -f
        raise Unsupported('infinity times symbolic')
    def fdiv(s,st,a,b):
        if isinstance(a,float) or isinstance(b,float):
            if isinstance(b,float):
                if math.isnan(b) or isinstance(a,float): return NAN
                return Q(0)
            if isinstance(a,float) and math.isnan(a): return NAN
            if isinstance(b,Poly):
                if s.decide(st,s.cmp(b,'<')): return -a
                return a
            return a if b>=0 else -a
        if not isinstance(b,Poly):
            if b==0:
                if not isinstance(a,Poly): return NAN if a==0 else (math.inf if a>0 else -math.inf)
                if s.decide(st,s.cmp(a,'==')): return NAN
                return -math.inf if s.decide(st,s.cmp(a,'<')) else math.inf
            return T.div(a,b)
        if s.decide(st,s.cmp(b,'==')):
            return s.fdiv(st,a,Q(0))
        return T.div(a,b)
    def fsqrt(s,st,a):
        if isinstance(a,float): return math.sqrt(a) if a>=0 else NAN
        if not isinstance(a,Poly):
            if a<0: return NAN
            e=_sqrt_exact(a)
            return e if e is not None else Q(math.sqrt(a))
        if T.is_zero(a): return Q(0)
        # perfect squares
        sq=T.square_root(a)
        if sq is not None: return s.fabs(st,sq)
        k=('sqrt',a.key()); x=s.ctx.memo.get(k)
        if x is None:
            lo,hi=T.bounds(a)
            hi2=None if hi==math.inf else Q(math.isqrt(int(hi)+1)+1)
            x=s.ctx.new('sqrt!%d'%len(s.ctx.atoms),'sqrt',False,Q(0),hi2,(a,)); s.ctx.memo[k]=x; T._special(x.id,('sqrt',a))
            s.assumptions.add('square roots are taken of non-negative values (sums of squares)')
        return T.var(x)
    def fabs(s,st,a):
        if isinstance(a,float): return abs(a)
        if not isinstance(a,Poly): return abs(a)
        lo,hi=T.bounds(a)
        if lo>=0: return a
        if hi<=0: return T.neg(a)
        if s.o['select']=='fork':
            return T.neg(a) if s.decide(st,s.cmp(a,'<')) else a
        r=s.ite(s.cmp(a,'<'),T.neg(a),a,False)
        return r
    def toreal(s,st,v):
        """double operand (may hold integer bits)"""
        if v is None:
            return T.var(s.fresh(st,'undef','uninit',False))
        if isinstance(v,int) and not isinstance(v,bool): return fp_from_bits(v)
        return v
    def rounding(s,st,kind,x,is_int=True):
        if isinstance(x,float): return x
        if not isinstance(x,Poly):
            if kind=='floor': return Q(math.floor(x))
            if kind=='ceil': return Q(math.ceil(x))
            if kind=='trunc': return Q(math.trunc(x))
            if kind=='round': return Q(math.floor(x+Q(1,2))) if x>=0 else Q(math.ceil(x-Q(1,2)))
            if kind=='rint':
                return Q(round(x))
        if kind=='ceil': return T.neg(s.rounding(st,'floor',T.neg(x)))
        if kind=='rint': raise Unsupported('rint of a symbolic value')
        if T.all_int(x) and all(c.denominator==1 for c in x.t.values()): return x
        # integer part of known integers: floor(n+r) = n+floor(r)
        n={m:c for m,c in x.t.items() if c.denominator==1 and all(s.ctx.atoms[i].is_int for i in m)}
        if n and any(m for m in n):
            if kind in('trunc','round'):
                if s.decide(st,s.cmp(x,'<')):
                    return T.neg(s.rounding(st,'floor',T.neg(x) if kind=='trunc' else T.add(T.neg(x),Q(1,2))))
                return s.rounding(st,'floor',x if kind=='trunc' else T.add(x,Q(1,2)))
            ip=T.norm(Poly(n)); rest=T.norm(Poly({m:c for m,c in x.t.items() if m not in n}))
            return T.add(ip,s.rounding(st,'floor',rest))
        if kind=='floor':
            lo,hi=T.bounds(x)
            if lo!=-math.inf and hi!=math.inf and math.floor(lo)==math.floor(hi): return Q(math.floor(lo))
        k=(kind,x.key()); a=s.ctx.memo.get(k)
        if a is None:
            lo,hi=T.bounds(x)
            lo=None if lo==-math.inf else Q(math.floor(lo)-1); hi=None if hi==math.inf else Q(math.ceil(hi)+1)
            a=s.ctx.new('%s!%d'%(kind,len(s.ctx.atoms)),kind,True,lo,hi,(x,)); s.ctx.memo[k]=a
        return T.var(a)
    ratnorm=True
    # ------------------------------------------------------------ running
    def run(s,entry):
        st=s.base; st.model={}
        # dynamic initialisers first
        ctors=[]
        g=s.mod['globals'].get('llvm.global_ctors')
        if g:
            for off,size,op in g['init']:
                if op[0]=='g': ctors.append(op[1])
        st=s.base
        for c in ctors+[entry]:
            f=s.fn(c); fr=Frame(f,-1)
            if c==entry: pass
            todo=None
            if c!=entry:
                st.frames=[fr]; s.run_single(st)
        st.frames=[Frame(s.fn(entry),-1)]
        work=[st]; t0=time.time()
        while work:
            st=work.pop()
            try:
                s.exec(st,work)
            except PathEnd as e:
                s.end(st,e.kind,e.msg)
            except MemErr as e:
                s.report(st,'memory',str(e),[])
                s.end(st,'memory',str(e))
            if len(s.cex)>=s.o['max_cex']: break
            if s.paths>s.o['max_paths']: raise Budget('more than %d paths'%s.o['max_paths'])
        s.flush_nf()
        return s
    def run_single(s,st):
        work=[]
        try: s.exec(st,work)
        except PathEnd as e:
            if e.kind!='done': raise Unsupported('static initialiser ended with '+e.kind)
    def end(s,st,kind,msg):
        if kind!='assume': s.paths+=1
        s.st.steps+=st.steps
        s.ends[kind]=s.ends.get(kind,0)+1
        if kind=='done':
            for r in st.reach: s.reach[r]=s.reach.get(r,0)+1
            if len(s.samples)<3 and st.model is not None: s.sample(st)
        elif kind in('uncaught','undef-branch','abort','unreachable','steps'):
            s.report(st,kind,msg or kind,[])
    def export(s,st,m):
        """model with the names the harness uses (an input re-declared with other bounds is a separate variable name@lo,hi)."""
        r={k:_fl(v) for k,v in m.items() if '@' not in k and k not in st.names}
        for n,an in st.names.items():
            if an in m: r[n]=_fl(m[an])
            elif an==n: pass
        return r
    def sample(s,st):
        m=dict(st.model)
        for a in s.ctx.atoms:       # unconstrained inputs take the middle of their range, as in the native runtime
            if a.kind=='in' and a.name not in m and a.lo is not None and a.hi is not None:
                m[a.name]=Q((a.lo+a.hi)/2) if not a.is_int else a.lo+Q((a.hi-a.lo)//2)
        memo={}; obs=[]
        for x in st.obs:
            try: v=x if isinstance(x,float) else s.evalp(x,m,memo)
            except Exception: v=None
            obs.append(None if v is None or v!=v or abs(v)>1e300 else float(v))
        s.samples.append(dict(model=s.export(st,m),obs=obs))
    def flush_nf(s):
        """hand the equalities closed by polynomial normal form to the solver as well."""
        while s.nf:
            batch=s.nf[:40]; s.nf=s.nf[40:]
            ors=[]
            for x,y,tol in batch:
                zx=T.to_real(x) if isinstance(x,Poly) else T.zq(Q(x)); zy=T.to_real(y) if isinstance(y,Poly) else T.zq(Q(y))
                ors+=[zx-zy>T.zq(tol),zy-zx>T.zq(tol)]
            try: r,_=s.query(State(),[z3.Or(*ors)],1500)
            except Budget: r='unknown'
            if r=='unsat': s.st.normq+=len(batch)
            elif len(batch)>1:
                for b in batch:
                    s.nf1(b)
            else: s.st.normonly+=1
    def nf1(s,b):
        x,y,tol=b; zx=T.to_real(x) if isinstance(x,Poly) else T.zq(Q(x)); zy=T.to_real(y) if isinstance(y,Poly) else T.zq(Q(y))
        s.st.nfbudget=getattr(s.st,'nfbudget',20.0)
        if s.st.nfbudget<=0: s.st.normonly+=1; return
        t0=time.time()
        try: r,_=s.query(State(),[z3.Or(zx-zy>T.zq(tol),zy-zx>T.zq(tol))],1000)
        except Budget: r='unknown'
        s.st.nfbudget-=time.time()-t0
        if r=='unsat': s.st.normq+=1
        else: s.st.normonly+=1
    def report(s,st,kind,label,extra,margin=None):
        """a violation: full model of the path."""
        r,m=s.query(st,list(extra),s.o['tmo_assert'],full=True)
        if r=='unsat': return None      # the path itself is infeasible
        if r!='sat':
            s.unknown.append((kind,label)); return False
        where=st.frames[-1].fn.name if st.frames else ''
        s.cex.append(dict(kind=kind,label=label,model=s.export(st,m or {}),where=where)); return True
    def check(s,st,label,bad,strong=()):
        """assertion: `bad` must be unsatisfiable on the path. strong: stronger conditions for a more robust counterexample."""
        a=s.asserts.setdefault(label,[0,0]); a[0]+=1
        if isinstance(bad,bool):
            if not bad: s.st.normal+=1; a[1]+=1; return True
            if s.report(st,'assert',label,[]) is None: a[1]+=1; raise PathEnd('infeasible')
            raise PathEnd('violated')
        r,m=s.query(st,[bad],s.o['tmo_assert'])
        if r=='unsat': a[1]+=1; return True
        if r=='unknown':
            if s.refute(st,label,bad): raise PathEnd('violated')
            s.unknown.append(('assert',label)); return True
        for b in strong:
            if isinstance(b,bool): continue
            r2,m2=s.query(st,[b],s.o['tmo_branch'])
            if r2=='sat': bad=b; break
        if not s.report(st,'assert',label,[bad]): return True
        raise PathEnd('violated')
    def refute(s,st,label,bad):
        """solver gave up: fix most inputs to simple constants taken from the path model and ask again."""
        import random
        rnd=random.Random(1)
        ins=[a for a in s.ctx.atoms if a.kind=='in']
        for attempt in range(6):
            fix=[]
            for a in ins:
                if rnd.random()<0.75 and a.lo is not None and a.hi is not None:
                    if a.is_int: v=rnd.randint(int(a.lo),int(a.hi)); fix.append(a.z==v)
                    else:
                        v=Q(rnd.randint(1,63),64)*(a.hi-a.lo)+a.lo; v=Q(round(v*64),64); fix.append(a.z==T.zq(v))
            r,m=s.query(st,[bad]+fix,s.o['tmo_branch'],full=True)
            if r=='sat':
                return s.report(st,'assert',label,[bad]+fix)
        return False
    def exec(s,st,work):
        while True:
            fr=st.frames[-1]
            try:
                s.step_block(st,fr)
            except Fork as f:
                c=f.cond; o=st.fork()
                st.known[c.get_id()]=True; st.path.append(c); st.model=f.mt
                nc=z3.Not(c); o.known[c.get_id()]=False; o.path.append(nc); o.model=f.mf
                s.keep+= [c,nc]
                work.append(o)
                if s.o['deadline'] and time.time()>s.o['deadline']: raise Budget('deadline')
    def step_block(s,st,fr):
        """execute instructions of the current frame until control leaves the block."""
        L=fr.L; code=fr.fn.blocks[fr.bb]; disp=s.DISPATCH
        while True:
            ins=code[fr.ip]
            st.steps+=1
            h=disp.get(ins[0])
            if h is None: raise Unsupported('instruction %s in %s'%(ins[0],fr.fn.name))
            r=h(s,st,fr,L,ins)
            if r is None: fr.ip+=1; continue
            if r==1:
                if st.steps>s.o['max_steps']: raise PathEnd('steps','does not terminate within %d instructions (%s)'%(s.o['max_steps'],fr.fn.name))
                return
    def goto(s,st,fr,bb):
        fr_prev=fr.bb; phis=fr.fn.phis[bb]
        if phis:
            L=fr.L; vals=[]
            for d,inc in phis:
                o=inc[fr_prev]; vals.append(L[o] if type(o) is int else o.v)
            for (d,_),v in zip(phis,vals): L[d]=v
        fr.bb=bb; fr.ip=0
    # ---- instruction handlers: return None (next), 1 (control transferred)
    def i_br(s,st,fr,L,i): s.goto(st,fr,i[3]); return 1
    def i_cbr(s,st,fr,L,i):
        o=i[3]; c=L[o] if type(o) is int else o.v
        s.goto(st,fr,i[4] if s.decide(st,c) else i[5]); return 1
    def i_switch(s,st,fr,L,i):
        o=i[3]; v=L[o] if type(o) is int else o.v; w=i[4][1]
        if w==1 and not isinstance(v,int): v=s.boolint(v)
        if isinstance(v,Poly):
            v=s.sint(st,v,w)
            if isinstance(v,Poly):
                for c,b in i[6]:
                    if s.decide(st,s.cmp(T.sub(v,s.sint(st,c,w)),'==')): s.goto(st,fr,b); return 1
                s.goto(st,fr,i[5]); return 1
        if v is None: raise PathEnd('undef-branch','switch on an undefined value')
        v=int(v)&((1<<w)-1)
        for c,b in i[6]:
            if c==v: s.goto(st,fr,b); return 1
        s.goto(st,fr,i[5]); return 1
    def i_unreachable(s,st,fr,L,i): raise PathEnd('unreachable','unreachable code reached in '+fr.fn.name)
    def i_ret(s,st,fr,L,i):
        v=None
        if i[3]:
            o=i[3][0][0]; v=L[o] if type(o) is int else o.v
        s.pop(st); 
        if not st.frames: raise PathEnd('done')
        s.resume_call(st,fr,v); return 1
    def pop(s,st):
        fr=st.frames.pop()
        for oid in fr.allocas:
            ob=s.writable(st,oid,st.mem[oid]); ob.freed=True; ob.cells={}
        return fr
    def resume_call(s,st,callee,v):
        fr=st.frames[-1]; ins=fr.fn.blocks[fr.bb][fr.ip]
        if ins[1]>=0: fr.L[ins[1]]=v
        if ins[0]=='invoke': s.goto(st,fr,ins[5])
        else: fr.ip+=1
    def i_call(s,st,fr,L,i):
        o=i[3]; a=L[o] if type(o) is int else o.v
        if isinstance(a,Poly): a=s.concretize(st,a)
        if a is None: raise MemErr('call through an undefined pointer')
        name=s.baddr.get(a)
        if name is None: raise MemErr('call through a bad function pointer')
        args=[L[x] if type(x) is int else x.v for x,_ in i[4]]
        if name in s.models or name.startswith('llvm.') or name not in s.fns:
            m=s.models.get(name) or s.model_for(name)
            if m is None: raise Unsupported('external function '+name)
            if not name.startswith('llvm.'): s.ext_used.add(name)
            v=m(s,st,args,i)
            if v is THROWN: return 1
            if i[1]>=0: L[i[1]]=v
            if i[0]=='invoke': s.goto(st,fr,i[5]); return 1
            return None
        f=s.fn(name); s.fcalled.add(name)
        if len(st.frames)>400: raise Budget('call depth')
        nf=Frame(f,i[1])
        for k,(v,(t,byval)) in enumerate(zip(args,f.args)):
            if byval:
                p=s.alloc(st,byval,'byval',kind='stack'); s.memcpy(st,p,v,byval); nf.allocas.append(p>>SHIFT); v=p
            nf.L[k]=v
        st.frames.append(nf); return 1
    def model_for(s,name):
        from models import PREFIX
        for p,m in PREFIX:
            if name.startswith(p): return m
        return None
    # exceptions
    def throw(s,st,obj,tinfo):
        st.exc=(obj,tinfo); return s.unwind(st,False)
    def unwind(s,st,pop_current):
        """transfer to the nearest landing pad; the current instruction of the top frame is a call/invoke/resume."""
        first=True
        while st.frames:
            fr=st.frames[-1]; ins=fr.fn.blocks[fr.bb][fr.ip]
            if ins[0]=='invoke' and not(first and pop_current):
                s.goto(st,fr,ins[6]); return THROWN
            s.pop(st); first=False
        raise PathEnd('uncaught','uncaught exception '+s.tname(st.exc[1]))
    def tname(s,addr):
        for n,a in s.gaddr.items():
            if a==addr: return n
        return str(addr)
    def i_landingpad(s,st,fr,L,i):
        obj,ti=st.exc; sel=0; tn=s.tname(ti); names=[tn]+s.bases(st,tn)
        for k,c in i[4]:
            if k=='catch':
                if c==0 or s.tname(c) in names: sel=(c>>SHIFT)+1; break
        if sel==0 and not i[3]:
            # no clause matches and no cleanup: keep unwinding
            s.unwind(st,True); return 1
        L[i[1]]=[obj,sel]; fr.lp=True
    def bases(s,st,tn):
        if tn in KNOWN_BASES: return KNOWN_BASES[tn]
        g=s.mod['globals'].get(tn); r=[]
        if g and not g['ext']:
            for off,size,op in g['init']:
                if op[0]=='g' and op[1].startswith('_ZTI') and op[1]!=tn: r.append(op[1]); r+=s.bases(st,op[1])
        return r
    def i_resume(s,st,fr,L,i):
        s.unwind(st,True); return 1
    # memory
    def i_alloca(s,st,fr,L,i):
        o=i[4]; n=L[o] if type(o) is int else o.v
        if isinstance(n,Poly): n=s.concretize(st,n)
        p=s.alloc(st,i[3]*n,'stack object of '+fr.fn.name,kind='stack'); fr.allocas.append(p>>SHIFT); L[i[1]]=p
    def i_load(s,st,fr,L,i):
        o=i[3]; a=L[o] if type(o) is int else o.v; t=i[2]
        if t[0] in 'Vsa': 
            if isinstance(a,Poly): a=s.concretize(st,a)
            L[i[1]]=s.loadt(st,a,i[4],t)
        else:
            if isinstance(a,Poly):
                v=s.load_symbolic(st,a,i[4],t)
                if v is not NotImplemented: L[i[1]]=v; return
            L[i[1]]=s.load(st,a,i[4],t)
    def load_symbolic(s,st,a,size,t):
        """table lookup at base + k*atom: an if-then-else over the cells the index can reach."""
        if s.o.get('tables',True) is False: return NotImplemented
        if len(a.t)>2 or t[0] not in('d','i'): return NotImplemented
        lo,hi=T.bounds(a)
        if lo==-math.inf or hi==math.inf: return NotImplemented
        nz=[m for m in a.t if m]
        if len(nz)!=1 or len(nz[0])!=1: return NotImplemented
        k=a.t[nz[0]]
        if k.denominator!=1: return NotImplemented
        at=s.ctx.atoms[nz[0][0]]
        if not at.is_int or at.hi is None or at.hi-at.lo>64: return NotImplemented
        base=int(a.t.get((),0)); r=None; x=T.var(at); feas=[]
        for v in range(int(at.lo),int(at.hi)+1):
            c=s.cmp(T.sub(x,v),'==')
            if isinstance(c,bool):
                if not c: continue
            else:
                kn=st.known.get(c.get_id())
                if kn is False: continue
                if kn is None:
                    if s.query(st,[c],s.o['tmo_branch'])[0]=='unsat': st.known[c.get_id()]=False; continue
            feas.append((v,c))
        if len(feas)<=1: return NotImplemented
        vals=[]
        for v,c in feas:
            try: vals.append((c,s.load(st,base+int(k)*v,size,t)))
            except MemErr: return NotImplemented      # let the concretising path report it
        if any(y is None or isinstance(y,float) or (not isinstance(y,(int,Q,Poly))) for _,y in vals): return NotImplemented
        if t[0]=='i' and (t[1]==1): return NotImplemented
        r=vals[-1][1]
        if t[0]=='i' and any(isinstance(y,int) and y>=1<<SHIFT for _,y in vals): return NotImplemented
        for c,y in reversed(vals[:-1]):
            same=(not isinstance(y,Poly) and not isinstance(r,Poly) and y==r) or (isinstance(y,Poly) and isinstance(r,Poly) and y.key()==r.key())
            if not same: r=s.ite(c,y,r,t[0]=='i')
        return r
    def i_store(s,st,fr,L,i):
        o=i[3]; v=L[o] if type(o) is int else o.v; o=i[4]; a=L[o] if type(o) is int else o.v; t=i[2]
        if isinstance(a,Poly): a=s.concretize(st,a)
        if t[0] in 'Vsa': s.storet(st,a,i[5],v,t)
        else:
            if t[0]=='i' and t[1]==1 and v is not None: v=s.boolint(v)
            s.store(st,a,i[5],v)
    def i_gep(s,st,fr,L,i):
        o=i[3]; a=L[o] if type(o) is int else o.v
        if a is None: L[i[1]]=None; return
        c=i[4]
        if not i[5] and isinstance(a,int): L[i[1]]=(a+c)&0xffffffffffffffff; return
        r=T.add(a,c) if isinstance(a,Poly) else a+c
        for vo,w,sc in i[5]:
            v=L[vo] if type(vo) is int else vo.v
            v=s.sint(st,v,w)
            if isinstance(v,Poly) or isinstance(r,Poly): r=T.add(r,T.scale(v,sc) if isinstance(v,Poly) else Q(v*sc))
            else: r+=v*sc
        if isinstance(r,int): r&=0xffffffffffffffff
        elif isinstance(r,Q): r=int(r)&0xffffffffffffffff
        L[i[1]]=r
    # integers
    def binop(s,st,fr,L,i):
        (a,ta),(b,_)=i[3]; a=L[a] if type(a) is int else a.v; b=L[b] if type(b) is int else b.v; op=i[0]
        if ta[0]=='V':
            L[i[1]]=[s.bin1(st,op,x,y,ta[3]) for x,y in zip(a,b)]; return
        L[i[1]]=s.bin1(st,op,a,b,ta)
    def bin1(s,st,op,a,b,t):
        w=t[1]
        if w==1 and op in('and','or','xor','add','sub','mul'):
            if a is None or b is None: return None
            a=s.tobool(a); b=s.tobool(b)
            if op in('and','mul'):
                if a is False or b is False: return False
                if a is True: return b
                if b is True: return a
                return z3.And(a,b)
            if op=='or':
                if a is True or b is True: return True
                if a is False: return b
                if b is False: return a
                return z3.Or(a,b)
            if isinstance(a,bool) and isinstance(b,bool): return a!=b
            if isinstance(a,bool): a,b=b,a
            if isinstance(b,bool): return (z3.Not(a) if not z3.is_not(a) else a.arg(0)) if b else a
            return z3.Xor(a,b)
        if a is None or b is None: return None
        if isinstance(a,(Q,float)) or (isinstance(a,Poly) and not T.all_int(a)):   # bit tricks on doubles
            if op=='xor' and b==1<<63: return T.neg(a) if not isinstance(a,float) else -a
            if op=='and' and b==(1<<63)-1: return s.fabs(st,a)
            if isinstance(a,Poly): raise Unsupported('bit operation %s on a symbolic double'%op)
            a=s.toint(a)
        if isinstance(b,(Q,float)): b=s.toint(b)
        m=(1<<w)-1
        if isinstance(a,int) and isinstance(b,int):
            a&=m; b&=m
            if op=='add': return (a+b)&m
            if op=='sub': return (a-b)&m
            if op=='mul': return (a*b)&m
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&m if b<w else None
            if op=='lshr': return a>>b if b<w else None
            sa=a-(1<<w) if a>>(w-1) else a; sb=b-(1<<w) if b>>(w-1) else b
            if op=='ashr': return (sa>>b)&m if b<w else None
            if op in('udiv','urem','sdiv','srem') and b==0: raise PathEnd('abort','integer division by zero')
            if op=='udiv': return a//b
            if op=='urem': return a%b
            if op=='sdiv': q=abs(sa)//abs(sb); return (q if (sa<0)==(sb<0) else -q)&m
            if op=='srem': r=abs(sa)%abs(sb); return (r if sa>=0 else -r)&m
            raise Unsupported(op)
        S=lambda v: v if isinstance(v,Poly) else (v-(1<<w) if (v>>(w-1))&1 else v)
        if op=='add': return s.ic(T.add(S(a),Q(S(b)) if not isinstance(b,Poly) else b) if isinstance(a,Poly) else T.add(b,Q(S(a))))
        if op=='sub': return s.ic(T.sub(S(a) if isinstance(a,Poly) else Q(S(a)),S(b) if isinstance(b,Poly) else Q(S(b))))
        if op=='mul': return s.ic(T.mul(S(a) if isinstance(a,Poly) else Q(S(a)),S(b) if isinstance(b,Poly) else Q(S(b))))
        if op=='shl' and isinstance(b,int): return s.ic(T.scale(a,Q(1<<b)))
        if op=='lshr' and isinstance(b,int):
            return s.divmod(st,s.uint(st,a,w),1<<b)[0]
        if op=='ashr' and isinstance(b,int):
            v=s.sint(st,a,w)
            return s.divmod(st,v,1<<b)[0]        # floor division
        if op=='and' and isinstance(b,int) and (b&(b+1))==0 and b<m:
            return s.divmod(st,s.uint(st,a,w),b+1)[1]
        if op=='and' and isinstance(b,int) and ((m^b)&((m^b)+1))==0:       # clear low bits
            u=s.uint(st,a,w); r=s.divmod(st,u,(m^b)+1)[1]; return s.ic(T.sub(u,r))
        if op=='xor' and b==m: return s.ic(T.sub(Q(-1),a))
        if op=='or' and isinstance(b,int) and b==0: return a
        if op=='or':        # disjoint bits (as produced for adds): only when provably so
            lo,hi=T.bounds(a) if isinstance(a,Poly) else (a,a)
            if isinstance(b,int) and lo>=0 and hi<(b&-b): return s.ic(T.add(a,b))
        if op in('udiv','urem'):
            x=s.uint(st,a,w); y=s.uint(st,b,w)
            q,r=s.divmod(st,x,y); return q if op=='udiv' else r
        if op in('sdiv','srem'):
            x=s.sint(st,a,w); y=s.sint(st,b,w)
            nx=s.decide(st,s.cmp(P_(x),'<')) if isinstance(x,Poly) else x<0
            ny=s.decide(st,s.cmp(P_(y),'<')) if isinstance(y,Poly) else y<0
            q,r=s.divmod(st,T.neg(x) if nx else x,T.neg(y) if ny else y)
            if op=='sdiv': return s.ic(T.neg(q) if isinstance(q,Poly) else -q) if nx!=ny else q
            return s.ic(T.neg(r) if isinstance(r,Poly) else -r) if nx else r
        # general bit operation: an auxiliary integer known through sign/zero/size facts
        if op in('and','or','xor'):
            x=P_(s.sint(st,a,w)); y=P_(s.sint(st,b,w)); bx=T.bounds(x); by=T.bounds(y)
            if (min(bx[0],by[0])>=0 and (bx[1] if isinstance(x,Poly) else 0)<256 and (by[1] if isinstance(y,Poly) else 0)<256) or s.fewvalues(x)*s.fewvalues(y)<=256:     # small sets of values: one path per value
                return s.bin1(st,op,s.concretize(st,x)&((1<<w)-1),s.concretize(st,y)&((1<<w)-1),t)
            k=('bit',op,x.key() if isinstance(x,Poly) else x,y.key() if isinstance(y,Poly) else y); v=s.ctx.memo.get(k)
            if v is None:
                h=1<<(w-1); lo,hi=-h,h-1; xl,xh=T.bounds(x); yl,yh=T.bounds(y)
                if xl>=0 and yl>=0:
                    lo=0
                    if op=='and': hi=min(xh,yh)
                    elif xh+yh<h: hi=xh+yh
                elif op=='and' and yl>=0: lo,hi=0,yh
                elif op=='and' and xl>=0: lo,hi=0,xh
                v=s.ctx.new('bit!%d'%len(s.ctx.atoms),'bit',True,Q(lo),Q(hi),(op,x,y)); s.ctx.memo[k]=v
            return T.var(v)
        a=s.concretize(st,s.uint(st,a,w)) if isinstance(a,Poly) else a
        b=s.concretize(st,s.uint(st,b,w)) if isinstance(b,Poly) else b
        return s.bin1(st,op,a,b,t)
    def ic(s,v):
        """canonical integer result"""
        if isinstance(v,Poly): return v
        return int(v)&0xffffffffffffffff if v<0 else int(v)
    def fewvalues(s,x):
        """upper bound of the number of values of an integer term that is a sparse multiple (hash values), else a large number."""
        if not isinstance(x,Poly): return 1
        g=0
        for m,c in x.t.items():
            if not m: continue
            if c.denominator!=1 or any(not T.CTX.atoms[a].is_int for a in m): return 1<<30
            g=math.gcd(g,abs(c.numerator))
        lo,hi=T.bounds(x)
        if g<1<<16 or lo==-math.inf or hi==math.inf: return 1<<30
        return int((hi-lo)/g)+1
    def divmod(s,st,x,y):
        """floor quotient/remainder for y>0 (x may be negative)."""
        if isinstance(x,Poly) and not isinstance(y,Poly) and s.fewvalues(x)<=64: x=s.concretize(st,x)
        if isinstance(y,Poly):
            if s.decide(st,s.cmp(y,'==')): raise PathEnd('abort','integer division by zero')
        elif y==0: raise PathEnd('abort','integer division by zero')
        if not isinstance(x,Poly) and not isinstance(y,Poly): return x//y,x%y
        if not isinstance(y,Poly):
            if y==1: return x,0
            # split off multiples of y
            big={m:c for m,c in x.t.items() if c.denominator==1 and c.numerator%y==0}
            rest=T.norm(Poly({m:c for m,c in x.t.items() if m not in big}))
            lo,hi=T.bounds(rest)
            if lo!=-math.inf and hi!=math.inf and lo//y==hi//y:
                k=lo//y; return s.ic(T.add(T.norm(Poly({m:c/y for m,c in big.items()})),Q(k))),s.ic(T.sub(rest,Q(k*y)))
            lo,hi=T.bounds(x)
            if lo>=0 and hi<y: return 0,x
        xk=x.key() if isinstance(x,Poly) else x; yk=y.key() if isinstance(y,Poly) else y
        k=('quo',xk,yk); a=s.ctx.memo.get(k)
        if a is None:
            xl,xh=T.bounds(x if isinstance(x,Poly) else Q(x)); yl,yh=T.bounds(y if isinstance(y,Poly) else Q(y))
            yl=max(yl,1)
            n=len(s.ctx.atoms)
            lo=None if xl==-math.inf else Q(min(0,xl//1)) ; hi=None if xh==math.inf else Q(xh//yl if xh>=0 else 0)
            r=s.ctx.new('rem!%d'%n,'rem',True,Q(0),None if yh==math.inf else Q(yh)-1)
            a=s.ctx.new('quo!%d'%(n+1),'quo',True,lo,hi,(x if isinstance(x,Poly) else Q(x),y if isinstance(y,Poly) else Q(y),r)); r.args=(a,); s.ctx.memo[k]=a
        return T.var(a),T.var(a.args[2])
    def i_icmp(s,st,fr,L,i):
        a=i[4]; a=L[a] if type(a) is int else a.v; b=i[5]; b=L[b] if type(b) is int else b.v; t=i[6]
        if t[0]=='V': L[i[1]]=[s.icmp1(st,i[3],x,y,t[3]) for x,y in zip(a,b)]; return
        L[i[1]]=s.icmp1(st,i[3],a,b,t)
    def icmp1(s,st,p,a,b,t):
        w=t[1] if t[0]=='i' else 64
        if a is None or b is None:
            if a is None: a=s.undef_int(st,w)
            if b is None: b=s.undef_int(st,w)
        if w==1:
            a=s.tobool(a); b=s.tobool(b)
            if isinstance(a,bool) and isinstance(b,bool): a=int(a); b=int(b)
            elif p in('eq','ne'):
                x=s.bin1(st,'xor',a,b,['i',1]); 
                return x if p=='ne' else s.bin1(st,'xor',x,True,['i',1])
            else: a=s.boolint(a); b=s.boolint(b)
        if isinstance(a,(Q,float)): a=s.toint(a)
        if isinstance(b,(Q,float)): b=s.toint(b)
        if isinstance(a,int) and isinstance(b,int):
            m=(1<<w)-1; a&=m; b&=m
            if p[0]=='s':
                a=a-(1<<w) if a>>(w-1) else a; b=b-(1<<w) if b>>(w-1) else b
            return {'eq':a==b,'ne':a!=b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p if p in('eq','ne') else p[1:]]
        if isinstance(a,Poly) and isinstance(b,Poly) and a.key()==b.key(): return p in('eq','sge','sle','uge','ule')
        if p[0]=='u': x=s.uint(st,a,w); y=s.uint(st,b,w); p=p[1:]
        elif p[0]=='s': x=s.sint(st,a,w); y=s.sint(st,b,w); p=p[1:]
        else: x=s.sint(st,a,w); y=s.sint(st,b,w)
        d=T.sub(x if isinstance(x,Poly) else Q(x),y if isinstance(y,Poly) else Q(y))
        if p=='eq': return s.cmp(d,'==')
        if p=='ne': return s.cmp(d,'!=')
        if p=='lt': return s.cmp(d,'<')
        if p=='le': return s.cmp(d,'<=')
        if p=='gt': return s.cmp(T.neg(d),'<')
        return s.cmp(T.neg(d),'<=')
    def i_fcmp(s,st,fr,L,i):
        a=i[4]; a=L[a] if type(a) is int else a.v; b=i[5]; b=L[b] if type(b) is int else b.v; t=i[6]
        if t[0]=='V': L[i[1]]=[s.fcmp1(st,i[3],x,y) for x,y in zip(a,b)]; return
        L[i[1]]=s.fcmp1(st,i[3],a,b)
    def fcmp1(s,st,p,a,b):
        a=s.toreal(st,a); b=s.toreal(st,b)
        if p=='true': return True
        if p=='false': return False
        if isinstance(a,float) or isinstance(b,float):
            na=isinstance(a,float) and math.isnan(a); nb=isinstance(b,float) and math.isnan(b)
            if na or nb: return p[0]=='u'
            if p=='ord': return True
            if p=='uno': return False
            fa=a if isinstance(a,float) else 0.0; fb=b if isinstance(b,float) else 0.0
            if fa==fb: return p[1:] in('eq','ge','le')
            return {'eq':False,'ne':True,'lt':fa<fb,'le':fa<=fb,'gt':fa>fb,'ge':fa>=fb}[p[1:]]
        if p=='ord': return True
        if p=='uno': return False
        d=T.sub(a,b); p=p[1:]
        if p=='eq': return s.cmp(d,'==')
        if p=='ne': return s.cmp(d,'!=')
        if p=='lt': return s.cmp(d,'<')
        if p=='le': return s.cmp(d,'<=')
        if p=='gt': return s.cmp(T.neg(d),'<')
        return s.cmp(T.neg(d),'<=')
    def i_fbin(s,st,fr,L,i):
        (a,ta),(b,_)=i[3]; a=L[a] if type(a) is int else a.v; b=L[b] if type(b) is int else b.v
        if ta[0]=='V': L[i[1]]=[s.f1(st,i[0],x,y) for x,y in zip(a,b)]; return
        L[i[1]]=s.f1(st,i[0],a,b)
    def f1(s,st,op,a,b):
        a=s.toreal(st,a); b=s.toreal(st,b)
        if op=='fadd': return s.fadd(a,b)
        if op=='fsub': return s.fsub(a,b)
        if op=='fmul': return s.fmul(a,b)
        if op=='fdiv': return s.fdiv(st,a,b)
        if op=='frem':
            if isinstance(a,Q) and isinstance(b,Q) and b: return Q(math.fmod(a,b))
        raise Unsupported(op)
    def i_fneg(s,st,fr,L,i):
        a,t=i[3][0]; a=L[a] if type(a) is int else a.v
        f=lambda a: -a if isinstance(a,float) else T.neg(s.toreal(st,a))
        L[i[1]]=[f(x) for x in a] if t[0]=='V' else f(a)
    def i_cast(s,st,fr,L,i):
        a,t=i[3][0]; a=L[a] if type(a) is int else a.v
        if t[0]=='V' and i[0]!='bitcast': L[i[1]]=[s.cast1(st,i[0],x,t[3],i[2][3]) for x in a]
        else: L[i[1]]=s.cast1(st,i[0],a,t,i[2])
    def cast1(s,st,op,a,t,rt):
        if op in('bitcast','ptrtoint','inttoptr','addrspacecast'):
            if t[0]=='V' or rt[0]=='V':
                if t==rt: return a
                raise Unsupported('vector bitcast')
            if rt[0]=='d' and isinstance(a,int): return fp_from_bits(a)
            return a
        if op in('fpext','fptrunc'):
            if op=='fptrunc' and isinstance(a,Q) and rt[0]=='f': return Q(struct.unpack('<f',struct.pack('<f',float(a)))[0])
            return a
        if a is None: return None
        if op=='trunc':
            if rt[1]==1:
                if isinstance(a,Poly):
                    lo,hi=T.bounds(a)
                    if lo>=0 and hi<=1: return s.tobool(a)
                    return s.cmp(P_(s.divmod(st,s.uint(st,a,t[1]),2)[1]),'!=')
                return bool(s.toint(a)&1)
            if isinstance(a,Poly): return a
            return s.toint(a)&((1<<rt[1])-1)
        if op=='zext':
            if t[1]==1: return s.boolint(s.tobool(a))
            return s.uint(st,a,t[1])
        if op=='sext':
            if t[1]==1:
                a=s.tobool(a)
                if isinstance(a,bool): return (1<<rt[1])-1 if a else 0
                return s.ite(a,-1,0,True)
            v=s.sint(st,a,t[1]); return v if isinstance(v,Poly) else v&((1<<rt[1])-1)
        if op=='sitofp':
            if t[1]==1: a=s.tobool(a); return Q(-1 if a else 0)
            v=s.sint(st,a,t[1]); return v if isinstance(v,Poly) else Q(v)
        if op=='uitofp':
            if t[1]==1: v=s.boolint(s.tobool(a)); return v if isinstance(v,Poly) else Q(v)
            v=s.uint(st,a,t[1]); return v if isinstance(v,Poly) else Q(v)
        if op in('fptosi','fptoui'):
            a=s.toreal(st,a)
            if isinstance(a,float): return None
            v=s.rounding(st,'trunc',a); w=rt[1]
            if isinstance(v,Poly): return v
            v=int(v); lo,hi=(-(1<<(w-1)),(1<<(w-1))) if op=='fptosi' else (0,1<<w)
            if not lo<=v<hi: return None
            return v&((1<<w)-1)
        raise Unsupported('cast '+op)
    def i_select(s,st,fr,L,i):
        (c,tc),(a,ta),(b,_)=i[3]; c=L[c] if type(c) is int else c.v; a=L[a] if type(a) is int else a.v; b=L[b] if type(b) is int else b.v
        if tc[0]=='V': L[i[1]]=[s.sel1(st,x,y,z,ta[3]) for x,y,z in zip(c,a,b)]; return
        L[i[1]]=s.sel1(st,c,a,b,ta)
    def sel1(s,st,c,a,b,t):
        if c is None: return a
        if isinstance(c,(bool,int)): return a if c else b
        cc=c; pol=True
        while z3.is_not(cc): cc=cc.arg(0); pol=not pol
        k=st.known.get(cc.get_id())
        if k is not None: return a if k==pol else b
        if t[0]=='i' and t[1]==1:
            if a is None or b is None: return b if a is None else a
            a=s.tobool(a); b=s.tobool(b)
            if b is False: return s.bin1(st,'and',c,a,t)
            if a is True: return s.bin1(st,'or',c,b,t)
            n=z3.Not(c)
            return s.bin1(st,'or',s.bin1(st,'and',c,a,t),s.bin1(st,'and',n,b,t),t)
        if t[0]=='i' and s.o['select']=='ite' and isinstance(a,(int,Poly)) and isinstance(b,(int,Poly)):
            w=t[1]
            sg=lambda v: v if isinstance(v,Poly) else (v-(1<<w) if (v>>(w-1))&1 else v)
            if (isinstance(a,int) and a==b): return a
            if not(isinstance(a,int) and a>>SHIFT and a<1<<60 and isinstance(b,int) and b>>SHIFT):
                return s.ite(c,sg(a),sg(b),True)
        if t[0] in('d','f') and s.o['select']=='ite':
            a=s.toreal(st,a); b=s.toreal(st,b)
            if not isinstance(a,float) and not isinstance(b,float):
                if isinstance(a,Poly)==isinstance(b,Poly) and (a.key()==b.key() if isinstance(a,Poly) else a==b): return a
                return s.ite(c,a,b,False)
        return a if s.decide(st,c) else b
    def i_freeze(s,st,fr,L,i):
        a,t=i[3][0]; a=L[a] if type(a) is int else a.v
        if a is None:
            a=T.var(s.fresh(st,'undef','uninit',t[0]=='i',0 if t[0]=='i' else None,(1<<t[1])-1 if t[0]=='i' else None))
            if t[0]=='i' and t[1]==1: a=s.cmp(a,'!=')
        L[i[1]]=a
    def i_extractvalue(s,st,fr,L,i):
        o=i[3]; v=L[o] if type(o) is int else o.v
        for k in i[4]: v=v[k]
        L[i[1]]=v
    def i_insertvalue(s,st,fr,L,i):
        o=i[3]; a=L[o] if type(o) is int else o.v; o=i[4]; v=L[o] if type(o) is int else o.v
        def ins(a,idx):
            a=list(a)
            a[idx[0]]=v if len(idx)==1 else ins(a[idx[0]],idx[1:]); return a
        L[i[1]]=ins(a,i[5])
    def i_extractelement(s,st,fr,L,i):
        (a,_),(k,_)=i[3]; a=L[a] if type(a) is int else a.v; k=L[k] if type(k) is int else k.v
        L[i[1]]=a[k if isinstance(k,int) else s.concretize(st,k)]
    def i_insertelement(s,st,fr,L,i):
        (a,_),(v,_),(k,_)=i[3]; a=list(L[a] if type(a) is int else a.v); v=L[v] if type(v) is int else v.v; k=L[k] if type(k) is int else k.v
        a[k if isinstance(k,int) else s.concretize(st,k)]=v; L[i[1]]=a
    def i_shufflevector(s,st,fr,L,i):
        o=i[3]; a=L[o] if type(o) is int else o.v; o=i[4]; b=L[o] if type(o) is int else o.v; n=i[6]
        if a is None: a=[None]*n
        if b is None: b=[None]*n
        ab=list(a)+list(b); L[i[1]]=[ab[m] if m>=0 else None for m in i[5]]
    def i_fence(s,st,fr,L,i): pass
    def i_atomicrmw(s,st,fr,L,i): raise Unsupported('atomicrmw')
    def i_unsupported(s,st,fr,L,i): raise Unsupported(i[3])
Engine.DISPATCH={'br':Engine.i_br,'cbr':Engine.i_cbr,'switch':Engine.i_switch,'unreachable':Engine.i_unreachable,'ret':Engine.i_ret,'call':Engine.i_call,'invoke':Engine.i_call,
 'landingpad':Engine.i_landingpad,'resume':Engine.i_resume,'alloca':Engine.i_alloca,'load':Engine.i_load,'store':Engine.i_store,'gep':Engine.i_gep,'icmp':Engine.i_icmp,'fcmp':Engine.i_fcmp,
 'select':Engine.i_select,'freeze':Engine.i_freeze,'extractvalue':Engine.i_extractvalue,'insertvalue':Engine.i_insertvalue,'extractelement':Engine.i_extractelement,'insertelement':Engine.i_insertelement,
 'shufflevector':Engine.i_shufflevector,'fneg':Engine.i_fneg,'fence':Engine.i_fence,'unsupported':Engine.i_unsupported}
for _o in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'): Engine.DISPATCH[_o]=Engine.binop
for _o in('fadd','fsub','fmul','fdiv','frem'): Engine.DISPATCH[_o]=Engine.i_fbin
for _o in('trunc','zext','sext','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','bitcast','ptrtoint','inttoptr','addrspacecast'): Engine.DISPATCH[_o]=Engine.i_cast
THROWN=object()
def P_(v): return v if isinstance(v,Poly) else Q(v)
def tysize(t):
    k=t[0]
    if k=='i': return max(1,(t[1]+7)//8)
    if k in('d','p'): return 8
    if k=='f': return 4
    if k=='x': return 16
    if k=='s': return t[1]
    if k=='a': return t[1]
    if k=='V': return t[1]*t[2]
    raise Unsupported('size of '+str(t))
def _x80(b):
    m=b&((1<<64)-1); e=(b>>64)&0x7fff; sg=-1 if b>>79 else 1
    if e==0 and m==0: return Q(0)
    return sg*Q(m)*Q(2)**(e-16383-63)
def _sqrt_exact(x):
    x=Q(x)
    if x<0: return None
    n=math.isqrt(x.numerator); d=math.isqrt(x.denominator)
    return Q(n,d) if n*n==x.numerator and d*d==x.denominator else None
def _val(v):
    if z3.is_int_value(v): return Q(v.as_long())
    if z3.is_rational_value(v): return Q(v.numerator_as_long(),v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a=v.approx(30); return ('alg',Q(a.numerator_as_long(),a.denominator_as_long()))
    return None
class _Alg(Q): pass
def _fl(v):
    if isinstance(v,tuple): v=v[1]
    v=Q(v); return [str(v),float(v)]
def self_cvc5(cons,timeout):
    sol=z3.Solver(); sol.add(*cons); txt=sol.to_smt2()
    txt='(set-logic ALL)\n(set-option :produce-models true)\n'+txt.replace('(check-sat)','(check-sat)')
    try:
        p=subprocess.run(['/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5','--tlimit=%d'%timeout,'-'],input=txt,capture_output=True,text=True,timeout=timeout/1000+5)
    except Exception: return 'unknown',None
    r=p.stdout.split('\n')[0].strip()
    if r=='unsat': return 'unsat',None
    return 'unknown',None     # models are always taken from z3
