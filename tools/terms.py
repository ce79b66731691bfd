"""Exact arithmetic terms for the symbolic executor.

A real (or mathematical-integer) value is a Fraction/int constant or a Poly: a polynomial with rational
coefficients over *atoms*. An atom is an input variable or a named auxiliary (reciprocal, square root,
if-then-else, quotient/remainder, rounding, uninterpreted function) whose defining constraints are handed
to the solver together with every query in which it occurs.
"""
from fractions import Fraction as Q
import math, z3

CAP = 6000            # monomials above which products are named instead of expanded

class Unsupported(Exception): pass

class Atom:
    __slots__ = ('id','name','kind','is_int','lo','hi','args','defs','z','zr','positive')
    def __init__(s, id, name, kind, is_int, lo, hi, args):
        s.id=id; s.name=name; s.kind=kind; s.is_int=is_int; s.lo=lo; s.hi=hi; s.args=args; s.defs=None
        s.z = z3.Int(name) if is_int else z3.Real(name)
        s.zr = z3.ToReal(s.z) if is_int else s.z

class Ctx:
    """Atom table of one executor run."""
    def __init__(s):
        s.atoms=[]; s.byname={}; s.inv={}; s.memo={}
    def new(s, name, kind, is_int=False, lo=None, hi=None, args=()):
        if name in s.byname: raise Unsupported('duplicate atom '+name)
        a=Atom(len(s.atoms), name, kind, is_int, lo, hi, args); s.atoms.append(a); s.byname[name]=a; return a
CTX=Ctx()
def reset():
    global CTX
    CTX=Ctx(); return CTX

class Poly:
    __slots__=('t','_z','_zr','_b','_key')
    def __init__(s,t): s.t=t; s._z=None; s._zr=None; s._b=None; s._key=None
    # -- helpers
    def const(s):
        t=s.t
        if not t: return Q(0)
        if len(t)==1 and () in t: return t[()]
        return None
    def atoms(s):
        r=set()
        for m in s.t: r.update(m)
        return r
    def key(s):
        if s._key is None: s._key=frozenset(s.t.items())
        return s._key
    def degree(s): return max((len(m) for m in s.t), default=0)
    def __repr__(s):
        return ' + '.join('%s*%s'%(c,'*'.join(CTX.atoms[i].name for i in m)) if m else str(c) for m,c in list(s.t.items())[:12]) + (' ...' if len(s.t)>12 else '')

def norm(p):
    """Poly -> Fraction when constant."""
    t=p.t
    if not t: return Q(0)
    if len(t)==1:
        c=t.get(())
        if c is not None: return c
    return p

def P(v):
    if isinstance(v,Poly): return v
    v=Q(v)
    return Poly({():v}) if v else Poly({})

def var(a): return Poly({(a.id,):Q(1)})

def add(a,b):
    if not isinstance(a,Poly):
        if not isinstance(b,Poly): return a+b
        a,b=b,a
    if not isinstance(b,Poly):
        if not b: return a
        t=dict(a.t); c=t.get((),0)+b
        if c: t[()]=c
        else: t.pop((),None)
        return norm(Poly(t))
    if len(a.t)<len(b.t): a,b=b,a
    t=dict(a.t)
    for m,c in b.t.items():
        d=t.get(m)
        if d is None: t[m]=c
        else:
            d+=c
            if d: t[m]=d
            else: del t[m]
    return norm(Poly(t))
def neg(a):
    if not isinstance(a,Poly): return -a
    return Poly({m:-c for m,c in a.t.items()})
def sub(a,b): return add(a,neg(b))
def scale(a,k):
    if not isinstance(a,Poly): return a*k
    if not k: return Q(0)
    if k==1: return a
    return Poly({m:c*k for m,c in a.t.items()})

def _reduce(m, c, t):
    """add monomial m (sorted tuple, may hold reducible pairs: inv*its atom, sqrt^2, boolean squares) to t."""
    d=t.get(m)
    if d is None: t[m]=c
    else:
        d+=c
        if d: t[m]=d
        else: del t[m]

def mul(a,b):
    if not isinstance(a,Poly):
        if not isinstance(b,Poly): return a*b
        return scale(b,a)
    if not isinstance(b,Poly): return scale(a,b)
    if len(a.t)*len(b.t)>CAP*4:
        return name_product(a,b)
    t={}; special=CTX.memo.get('special')
    for m1,c1 in a.t.items():
        for m2,c2 in b.t.items():
            m=tuple(sorted(m1+m2)) if m1 and m2 else (m1 or m2)
            if special is not None and len(m)>1:
                r=_simplify_mono(m,special)
                if r is not None:
                    q=r
                    if isinstance(q,tuple): m=q
                    else:
                        for mm,cc in q.t.items(): _reduce(mm, cc*c1*c2, t)
                        continue
            _reduce(m, c1*c2, t)
    if len(t)>CAP: return name_poly(Poly(t))
    return norm(Poly(t))

def _simplify_mono(m, special):
    """special: atom id -> ('inv1', other atom id) | ('sqrt', Poly). Returns tuple, Poly or None."""
    for x in m:
        s=special.get(x)
        if s is None: continue
        if s[0]=='inv1' and s[1] in m:
            l=list(m); l.remove(x); l.remove(s[1]); m2=tuple(l)
            r=_simplify_mono(m2,special); return m2 if r is None else r
        if s[0]=='sqrt' and m.count(x)>=2:
            l=list(m); l.remove(x); l.remove(x)
            arg=P(s[1]); rest=tuple(l); out=Q(0)
            out=mul(arg, Poly({rest:Q(1)})) if rest else arg
            return P(out)
    return None

def name_poly(p):
    k=('def',p.key())
    a=CTX.memo.get(k)
    if a is None:
        a=CTX.new('t!%d'%len(CTX.atoms),'def',args=(p,)); CTX.memo[k]=a
    return var(a)
def name_product(a,b):
    if len(a.t)>40: a=name_poly(a)
    if len(b.t)>40: b=name_poly(b)
    return mul(a,b)

def _special(aid, what):
    CTX.memo.setdefault('special',{})[aid]=what

def leading(p):
    m=max(p.t, key=lambda m:(len(m),m)); return p.t[m]

def inv_atom(den):
    """reciprocal of a non-constant Poly (the caller guarantees den!=0 on the path)."""
    lc=leading(den); d=scale(den,1/lc); k=('inv',d.key())
    a=CTX.memo.get(k)
    if a is None:
        a=CTX.new('inv!%d'%len(CTX.atoms),'inv',args=(d,)); CTX.memo[k]=a; CTX.memo.setdefault('invs',set()).add(a.id)
        if len(d.t)==1:
            m=next(iter(d.t))
            if len(m)==1: _special(a.id,('inv1',m[0])); 
    return scale(var(a),1/lc)

def div(a,b):
    if not isinstance(b,Poly): return scale(a,1/Q(b)) if isinstance(a,Poly) else Q(a)/Q(b)
    # exact multiples
    if isinstance(a,Poly) and len(a.t)==len(b.t):
        m=next(iter(b.t)); 
        if m in a.t:
            k=a.t[m]/b.t[m]
            if all(a.t.get(mm)==c*k for mm,c in b.t.items()): return k
    if len(b.t)==1:
        (m,c),=b.t.items()
        r=scale(a,1/c) if isinstance(a,Poly) else Q(a)/c
        for x in m: r=mul(r,inv_atom(Poly({(x,):Q(1)})))
        return r
    return cancel(mul(a,inv_atom(b)))

# ---------------------------------------------------------------- exact division, cancellation, perfect squares
def _lead(p): return max(p.t, key=lambda m:(len(m),m))
def _mdiv(m,d):
    """monomial quotient m/d (sorted tuples) or None."""
    l=list(m)
    for x in d:
        try: l.remove(x)
        except ValueError: return None
    return tuple(l)
def exact_div(a,b,limit=4000):
    """a/b when b divides a in the polynomial ring, else None."""
    if not isinstance(a,Poly): return Q(0) if a==0 else None
    lb=_lead(b); cb=b.t[lb]; rem=dict(a.t); q={}
    if not all(_mdiv(_lead(a),(x,)) is not None for x in set(lb)): return None
    n=0
    while rem:
        n+=1
        if n>limit: return None
        m=max(rem,key=lambda m:(len(m),m)); k=_mdiv(m,lb)
        if k is None: return None
        c=rem[m]/cb; q[k]=c
        for mm,cc in b.t.items():
            x=tuple(sorted(mm+k)); v=rem.get(x,0)-cc*c
            if v: rem[x]=v
            else: rem.pop(x,None)
    return norm(Poly(q))
def cancel(p):
    """cancel multi-term denominators against numerators where they divide exactly."""
    if not isinstance(p,Poly): return p
    for _ in range(8):
        inv=[CTX.atoms[i] for i in p.atoms() if CTX.atoms[i].kind=='inv' and len(CTX.atoms[i].args[0].t)>1]
        changed=False
        for a in sorted(inv,key=lambda a:-a.id):
            while True:
                K=max((m.count(a.id) for m in p.t),default=0)
                if not K: break
                parts=[{} for _ in range(K+1)]
                for m,c in p.t.items():
                    parts[m.count(a.id)][tuple(x for x in m if x!=a.id)]=c
                q=exact_div(Poly(parts[K]),a.args[0])
                if q is None: break
                changed=True
                x=tuple([a.id]*(K-1)); out=mul(q,Poly({x:Q(1)})) if x else q
                for k in range(K):
                    if parts[k]:
                        y=tuple([a.id]*k); out=add(out,Poly({tuple(sorted(m+y)):c for m,c in parts[k].items()}))
                p=out
                if not isinstance(p,Poly): return p
        if not changed: break
    return p
def poly_sqrt(p,limit=3000):
    """r with r*r==p, else None (p a Poly without reducible atoms)."""
    lm=_lead(p); lc=p.t[lm]
    if lc<0 or len(lm)%2: return None
    n=math.isqrt(lc.numerator); d=math.isqrt(lc.denominator)
    if n*n!=lc.numerator or d*d!=lc.denominator: return None
    h=[]
    for i in range(0,len(lm),2):
        if lm[i]!=lm[i+1]: return None
        h.append(lm[i])
    lr=tuple(h); cr=Q(n,d); r={lr:cr}; rem=dict(p.t); del rem[lm]; k=0
    while rem:
        k+=1
        if k>limit: return None
        m=max(rem,key=lambda m:(len(m),m)); q=_mdiv(m,lr)
        if q is None or q in r: return None
        c=rem[m]/(2*cr)
        for mm,cc in list(r.items())+[(q,c/2)]:
            x=tuple(sorted(mm+q)); v=rem.get(x,0)-2*cc*c
            if v: rem[x]=v
            else: rem.pop(x,None)
        r[q]=c
    return Poly(r)
def square_root(p):
    """exact square root of a polynomial with reciprocal atoms, or None."""
    p=cancel(p)
    if not isinstance(p,Poly): return None
    den=Q(1)
    for a in sorted((CTX.atoms[i] for i in p.atoms() if CTX.atoms[i].kind=='inv'),key=lambda a:-a.id):
        ks=[m.count(a.id) for m in p.t]; K=max(ks); K+=K%2; d=a.args[0]; out=Q(0)
        for k in set(ks):
            part=Poly({tuple(x for x in m if x!=a.id):c for m,c in p.t.items() if m.count(a.id)==k})
            for _ in range(K-k):
                if len(d.t)*len(P(part).t)>20000: return None
                part=mul(part,d)
            out=add(out,part)
        p=P(out); den=mul(den,Poly({tuple([a.id]*(K//2)):Q(1)}))
    if any(CTX.atoms[i].kind=='inv' for i in p.atoms()) or len(p.t)>6000: return None
    r=poly_sqrt(p)
    return None if r is None else cancel(mul(r,den))

# ---------------------------------------------------------------- rational normal form
def clear_denominators(p, cap=60000):
    """multiply p by powers of the denominators of its 'inv' atoms; None if too large.
    Valid for ==0 tests on paths where those denominators are non-zero."""
    for _ in range(50):
        if not isinstance(p,Poly): return p
        inv=[CTX.atoms[i] for i in p.atoms() if CTX.atoms[i].kind=='inv']
        if not inv: return p
        a=max(inv,key=lambda a:a.id)   # the newest first (its denominator may hold older ones)
        K=max(m.count(a.id) for m in p.t)
        parts=[{} for _ in range(K+1)]
        for m,c in p.t.items():
            k=m.count(a.id); parts[k][tuple(x for x in m if x!=a.id)]=c
        d=a.args[0]; out=norm(Poly(parts[K])); dp=Q(1)
        for k in range(K-1,-1,-1):
            dp=mul(dp,d)
            if parts[k]:
                if isinstance(dp,Poly) and len(dp.t)*len(parts[k])>cap: return None
                out=add(out,mul(dp,Poly(parts[k])))
        p=out
        if isinstance(p,Poly) and len(p.t)>cap: return None
    return None

def has_inv(p):
    inv=CTX.memo.get('invs')
    return bool(inv) and any(x in inv for m in p.t for x in m)
def is_zero(p):
    if not isinstance(p,Poly): return p==0
    if any(CTX.atoms[i].kind=='inv' for i in p.atoms()):
        c=clear_denominators(p)
        return c is not None and not isinstance(c,Poly) and c==0
    return False

# ---------------------------------------------------------------- bounds (interval arithmetic on atom bounds)
def bounds(p):
    if not isinstance(p,Poly): return (p,p)
    if p._b is not None: return p._b
    lo=hi=Q(0)
    for m,c in p.t.items():
        l=h=Q(1); i=0
        while i<len(m):
            x=m[i]; e=1
            while i+e<len(m) and m[i+e]==x: e+=1
            a=CTX.atoms[x]
            al,ah=a.lo,a.hi
            if al is None or ah is None:
                if al is not None and al>=0: al,ah=al,math.inf
                else: lo=-math.inf; hi=math.inf; break
            if e%2==0:
                if al>=0: pl,ph=al**e,ah**e
                elif ah<=0: pl,ph=ah**e,al**e
                else: pl,ph=Q(0),max(al**e,ah**e)
            else: pl,ph=al**e,ah**e
            c4=[_m(l,pl),_m(l,ph),_m(h,pl),_m(h,ph)]; l,h=min(c4),max(c4); i+=e
        else:
            if c>=0: lo=lo+_m(l,c); hi=hi+_m(h,c)
            else: lo=lo+_m(h,c); hi=hi+_m(l,c)
            continue
        break
    p._b=(lo,hi); return p._b
def _m(a,b):
    if a==0 or b==0: return Q(0)
    return a*b

# ---------------------------------------------------------------- z3
def zq(c):
    c=Q(c); return z3.Q(c.numerator,c.denominator) if c.denominator!=1 else z3.RealVal(c.numerator)
def to_real(p):
    if not isinstance(p,Poly): return zq(p)
    if p._zr is None:
        ts=[]
        for m,c in p.t.items():
            fs=[CTX.atoms[x].zr for x in m]
            if c!=1 or not fs: fs=[zq(c)]+fs
            ts.append(z3.Product(fs) if len(fs)>1 else fs[0])
        p._zr=z3.Sum(ts) if len(ts)>1 else ts[0]
    return p._zr
def all_int(p): return all(CTX.atoms[x].is_int for m in p.t for x in m)
def to_int(p):
    """z3 Int expression of an integer-valued Poly with integer atoms (denominators multiplied out by the caller)."""
    if not isinstance(p,Poly): return z3.IntVal(int(p))
    if p._z is None:
        ts=[]
        for m,c in p.t.items():
            assert c.denominator==1
            fs=[CTX.atoms[x].z for x in m]
            if c!=1 or not fs: fs=[z3.IntVal(int(c))]+fs
            ts.append(z3.Product(fs) if len(fs)>1 else fs[0])
        p._z=z3.Sum(ts) if len(ts)>1 else ts[0]
    return p._z

def _prim(p):
    """scale to integer coprime coefficients (positive factor)."""
    l=1
    for c in p.t.values(): l=l*c.denominator//math.gcd(l,c.denominator)
    g=0
    for c in p.t.values(): g=math.gcd(g,(c*l).numerator)
    return scale(p,Q(l,g)) if (l,g)!=(1,1) else p

def _qsqrt(q):
    """exact rational square root or None."""
    import math
    if q<0: return None
    a,b=int(q.numerator),int(q.denominator); r,t=math.isqrt(a),math.isqrt(b)
    return Q(r,t) if r*r==a and t*t==b else None

def _linear_square(p,op):
    """p op 0 for p=a*L*L+b*L+c with L a linear form and rational roots, as linear conditions; None if p is not of that shape."""
    if len(p.t)>60 or p.degree()!=2: return None
    ats=sorted(p.atoms())
    if any(CTX.atoms[i].is_int for i in ats): return None
    for x in ats:
        a=p.t.get((x,x))
        if a: break
    else: return None
    L={}
    for y in ats:
        m=(x,y) if x<=y else (y,x); c=p.t.get(m,Q(0)); L[y]=Q(1) if y==x else c/(2*a)
    if any(v==0 for v in L.values()): return None
    for i,u in enumerate(ats):
        for v in ats[i:]:
            want=a*L[u]*L[v]*(1 if u==v else 2)
            if p.t.get((u,v),Q(0))!=want: return None
    b=p.t.get((x,),Q(0))
    for y in ats:
        if p.t.get((y,),Q(0))!=b*L[y]: return None
    c=p.t.get((),Q(0)); d=b*b-4*a*c
    if d<0: return a<0
    s=_qsqrt(d)
    if s is None: return None
    r1,r2=sorted(((-b-s)/(2*a),(-b+s)/(2*a))); l=Poly({(y,):v for y,v in L.items()})
    lo=lambda q,o: cmp0(sub(l,q),o); hi=lambda q,o: cmp0(sub(q,l),o)
    zb=lambda v: z3.BoolVal(v) if isinstance(v,bool) else v
    parts=[lo(r1,op),hi(r2,op)] if a<0 else [hi(r1,op),lo(r2,op)]
    if a<0:
        if True in [v for v in parts if isinstance(v,bool)]: return True
        parts=[v for v in parts if not isinstance(v,bool)]
        return z3.Or(*parts) if len(parts)>1 else parts[0] if parts else False
    if False in [v for v in parts if isinstance(v,bool)]: return False
    parts=[v for v in parts if not isinstance(v,bool)]
    return z3.And(*parts) if len(parts)>1 else parts[0] if parts else True

def cmp0(p,op):
    """z3 Bool (or python bool) for  p op 0, op in '<','<=','==','!='."""
    if not isinstance(p,Poly):
        return {'<':p<0,'<=':p<=0,'==':p==0,'!=':p!=0}[op]
    lo,hi=bounds(p)
    if op=='<':
        if hi<0: return True
        if lo>=0: return False
    elif op=='<=':
        if hi<=0: return True
        if lo>0: return False
    elif op=='==':
        if lo>0 or hi<0: return False
    elif op=='!=':
        if lo>0 or hi<0: return True
    if op in('==','!='):
        if any(CTX.atoms[i].kind=='inv' for i in p.atoms()):
            c=clear_denominators(p)
            if c is not None:
                if not isinstance(c,Poly): return (c==0)==(op=='==')
                p=c
        if p.t[max(p.t)]<0: p=neg(p)
    else:
        if is_zero(p): return op=='<='
        p=cancel(p)
        if not isinstance(p,Poly): return cmp0(p,op)
    p=_prim(p)
    if op in('<','<='):
        f=_linear_square(p,op)
        if f is not None: return f
    if all_int(p):
        e=to_int(p); z=z3.IntVal(0)
    else: e=to_real(p); z=z3.RealVal(0)
    if op=='<': return e<z
    if op=='<=': return e<=z
    if op=='==': return e==z
    return z3.Not(e==z)
