#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property by symbolic execution of the real code: check.py PROP [--tier quick|thorough]

1. compiles harness/<PROP>*.cpp against /repo's current headers/sources to LLVM IR (clang, -O2),
2. executes every H_* entry symbolically (symx.py) and has the SMT solver decide every branch and assertion,
3. replays each counterexample natively against the real code; only a reproduced one is a violation.
"""
import sys, os, json, re, time, subprocess, tempfile, shutil, glob, argparse, multiprocessing as mp, threading, traceback, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get('VP_REPO','/repo')
sys.path.insert(0,HERE); sys.setrecursionlimit(20000)
CXX='clang++-18' if shutil.which('clang++-18') else 'clang++'
COMMON=['-std=c++17','-DNDEBUG','-DEIGEN_DONT_VECTORIZE','-D_GLIBCXX_EXTERN_TEMPLATE=0','-ffp-contract=off','-fno-math-errno','-Wno-everything','-DVP_HARNESS']
IRFLAGS=['-DVP_IR','-O2','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-gline-tables-only','-S','-emit-llvm','-fno-threadsafe-statics']

def sh(cmd,**k): return subprocess.run(cmd,capture_output=True,text=True,**k)
def gen_config(inc):
    d=os.path.join(inc,'Caribou'); os.makedirs(d,exist_ok=True)
    for n in('config','constants','macros','traits'):
        src=os.path.join(REPO,'src/Caribou/Config',n+'.h.in'); txt=open(src).read() if os.path.exists(src) else open(src[:-3]).read()
        txt=re.sub(r'#cmakedefine (\w+).*',r'/* #undef \1 */',txt); open(os.path.join(d,n+'.h'),'w').write(txt)
    src=os.path.join(REPO,'src/SofaCaribou/config.h.in'); d=os.path.join(inc,'SofaCaribou'); os.makedirs(d,exist_ok=True)
    if os.path.exists(src): open(os.path.join(d,'config.h'),'w').write(re.sub(r'#cmakedefine (\w+).*',r'/* #undef \1 */',open(src).read()))
def includes(inc): return ['-I'+os.path.join(VERIF,'harness'),'-I'+inc,'-I'+os.path.join(REPO,'src'),'-isystem','/usr/include/eigen3']

def directives(path):
    """// @key text   and   // @opt ENTRY k=v ...   lines of a harness."""
    d={'bounds':[], 'outside':[], 'assume':[], 'opt':{}, 'flags':[]}
    for l in open(path):
        m=re.match(r'//\s*@(\w+)\s+(.*)',l)
        if not m: continue
        k,v=m.groups()
        if k=='opt':
            e,*kv=v.split(); d['opt'].setdefault(e,{}).update({a.split('=')[0]:(json.loads(a.split('=')[1]) if re.match(r'[\d.]+$|true|false',a.split('=')[1]) else a.split('=')[1]) for a in kv})
        elif k=='flags': d['flags']+=v.split()
        else: d.setdefault(k,[]).append(v.strip())
    return d

def worker(js,entry,opts,out,deadline):
    import symx, terms
    t0=time.time(); r=dict(entry=entry,error=None)
    try:
        import resource; resource.setrlimit(resource.RLIMIT_AS,(12<<30,12<<30))
    except Exception: pass
    E=None
    try:
        mod=json.load(open(js)); o=dict(opts); o['deadline']=deadline
        E=symx.Engine(mod,o); E.run(entry)
    except terms.Unsupported as e: r['error']='unsupported: '+str(e)
    except symx.Budget as e: r['error']='budget: '+str(e)
    except MemoryError: r['error']='out of memory'
    except Exception as e: r['error']='internal: '+''.join(traceback.format_exception(e))[-1500:]
    if E is not None:
        r.update(paths=E.paths,ends=E.ends,asserts=E.asserts,cex=E.cex,unknown=E.unknown,reach=E.reach,q=E.st.q,qt=E.st.qt,sat=E.st.sat,unsat=E.st.unsat,unk=E.st.unk,normal=E.st.normal,normq=E.st.normq,normonly=E.st.normonly,maxq=E.st.maxq,cvc5=E.st.fallback,steps=E.st.steps,
          samples=E.samples,assumptions=sorted(E.assumptions),fcalled=len(E.fcalled),ext=sorted(E.ext_used))
    r['wall']=time.time()-t0
    json.dump(r,open(out,'w'))

class Check:
    def __init__(s,prop,tier,only=None,verbose=False,keep=False):
        s.prop=prop; s.tier=tier; s.only=only; s.verbose=verbose; s.keep=keep; s.t0=time.time()
        s.tmp=tempfile.mkdtemp(prefix='vp_%s_'%prop); s.inc=os.path.join(s.tmp,'inc')
        s.hs=sorted(f for f in glob.glob(os.path.join(VERIF,'harness',prop+'*.cpp')) if re.match(prop+r'(_\w+)?\.cpp$',os.path.basename(f)))
        s.budget=int(os.environ.get('VP_BUDGET','600' if tier=='quick' else '5400'))
    def log(s,*a):
        if s.verbose: print(*a,file=sys.stderr,flush=True)
    def run(s):
        try: return s._run()
        finally:
            if not s.keep: shutil.rmtree(s.tmp,ignore_errors=True)
            else: print('kept',s.tmp,file=sys.stderr)
    def build(s):
        gen_config(s.inc); ir=os.path.join(s.tmp,'irdump'); procs=[]
        def irdump():
            f=sh('llvm-config-18 --cxxflags',shell=True).stdout.split(); l=sh('llvm-config-18 --ldflags --libs core irreader',shell=True).stdout.split()
            r=sh([CXX,'-O1','-std=c++17']+f+['-w',os.path.join(HERE,'irdump.cpp'),'-o',ir]+l)
            if r.returncode: raise RuntimeError('irdump: '+r.stderr[-800:])
        def one(h):
            d=directives(h); ll=os.path.join(s.tmp,os.path.basename(h)[:-4]+'.ll')
            r=sh([CXX]+COMMON+IRFLAGS+['-I'+os.path.join(VERIF,'harness','shim')]+(['-DVP_THOROUGH'] if s.tier=='thorough' else [])+[x.replace('$VERIF',VERIF).replace('$REPO',REPO) for x in d['flags']]+includes(s.inc)+[h,'-o',ll])
            if r.returncode: raise RuntimeError('compiling %s: %s'%(h,r.stderr[:3000]))
            return h,d,ll
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            fi=ex.submit(irdump); fs=[ex.submit(one,h) for h in s.hs]; fi.result(); lls=[f.result() for f in fs]
        s.mods=[]
        for h,d,ll in lls:
            js=ll[:-3]+'.json'
            with open(js,'w') as o:
                r=subprocess.run([ir,ll,'H_'],stdout=o,stderr=subprocess.PIPE,text=True)
            if r.returncode: raise RuntimeError('irdump: '+r.stderr[-500:])
            m=json.load(open(js)); s.mods.append((h,d,js,m))
        s.log('built in %.1f s'%(time.time()-s.t0))
    def native(s,h,san):
        exe=os.path.join(s.tmp,os.path.basename(h)[:-4]+('.san' if san else '.nat'))
        if os.path.exists(exe): return exe
        d=directives(h)
        fl=['-fsanitize=address,undefined','-fno-sanitize-recover=all','-fno-sanitize=vptr,alignment,null','-g1'] if san else ['-ftrivial-auto-var-init=pattern','-DVP_FILL']
        r=sh([CXX]+[c for c in COMMON if 'EXTERN_TEMPLATE' not in c]+['-O1','-w']+fl+(['-DVP_THOROUGH'] if s.tier=='thorough' else [])+['-DVP_NATIVE']+[x.replace('$VERIF',VERIF).replace('$REPO',REPO) for x in d['flags']]+includes(s.inc)+[h,os.path.join(VERIF,'harness','vp_native.cpp'),'-rdynamic','-ldl','-o',exe])
        if r.returncode: raise RuntimeError('native build of %s: %s'%(h,r.stderr[:1500]))
        return exe
    def replay(s,h,entry,model,kind,vals=None):
        """(reproduced?, text)"""
        vals=vals or os.path.join(s.tmp,'v_%s_%d.txt'%(entry,abs(hash(json.dumps(model,sort_keys=True)))%10**8))
        with open(vals,'w') as f:
            for k,(q,fl) in model.items():
                if '!' in k: continue
                f.write('%s %s\n'%(k,q if '/' not in q and len(q)<19 else repr(fl)))
        outs=[]
        for san in ([False] if kind=='assert' else [True,False]):
            exe=s.native(h,san)
            env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1',UBSAN_OPTIONS='print_stacktrace=0')
            try: r=sh([exe,entry,vals],timeout=30,env=env,errors='replace')
            except subprocess.TimeoutExpired: outs.append('does not terminate within 30 s'); return True,outs[-1],vals
            txt=(r.stdout+r.stderr); fails=[l for l in txt.splitlines() if l.startswith('FAIL') or 'ERROR: Addr' in l or 'runtime error' in l or 'terminate' in l]
            outs.append('rc=%d %s'%(r.returncode,'; '.join(fails[:4])))
            if r.returncode not in(0,77): return True,outs[-1],vals
        return False,' | '.join(outs),vals
    def validate(s,h,entry,sample):
        model,obs=sample['model'],sample['obs']
        vals=os.path.join(s.tmp,'s_%s_%d.txt'%(entry,abs(hash(json.dumps(model,sort_keys=True)))%10**8))
        with open(vals,'w') as f:
            for k,(q,fl) in model.items():
                if '!' not in k: f.write('%s %s\n'%(k,q if '/' not in q and len(q)<19 else repr(fl)))
        try: r=sh([s.native(h,False),entry,vals],timeout=30,errors='replace')
        except subprocess.TimeoutExpired: return 'timeout',None
        if r.returncode==77: return 'assume',None
        got=[float(l.split()[1]) for l in r.stdout.splitlines() if l.startswith('OBS')]
        if r.returncode!=0: return 'fail',r.stdout[-300:]
        for a,b in zip(obs,got):
            if a is not None and abs(a-b)>1e-6*(1+abs(a)+abs(b)): return 'differs','%r vs %r'%(a,b)
        return 'ok',len(got)
    def _run(s):
        if not s.hs: print('no harness for',s.prop); return 2
        try: s.build()
        except RuntimeError as e:
            print('ERROR: '+str(e)); s.evidence([],[],[],str(e)[:500],0,{}); return 2
        jobs=[]
        end=s.t0+s.budget
        for h,d,js,m in s.mods:
            for e in sorted(m['functions']):
                if e.startswith('H_') and (not s.only or re.search(s.only,e)):
                    o={}; o.update(d['opt'].get('*',{})); o.update(d['opt'].get(e,{})); o.update(d['opt'].get(e[2:],{}))
                    jobs.append((h,js,e,o))
        jobs.sort(key=lambda j:-j[3].pop('weight',0))
        res=[]; running=[]; queue=list(jobs); n=int(os.environ.get('VP_JOBS','8'))
        while queue or running:
            while queue and len(running)<n:
                h,js,e,o=queue.pop(0); out=os.path.join(s.tmp,'r_%s_%s.json'%(os.path.basename(h)[:-4],e))
                lim=o.pop('limit',None); dl=min(end,time.time()+lim) if lim else end
                p=mp.Process(target=worker,args=(js,e,o,out,dl)); p.start(); running.append((p,h,e,out,time.time(),dl))
            time.sleep(0.02); still=[]
            for p,h,e,out,ts,dl in running:
                if p.is_alive():
                    if time.time()>dl+45: p.kill(); p.join()
                    else: still.append((p,h,e,out,ts,dl)); continue
                p.join()
                try: r=json.load(open(out))
                except Exception: r=dict(entry=e,error='worker died',wall=time.time()-ts)
                r['h']=h; res.append(r)
                s.log('%-40s %6.1fs paths=%s ends=%s q=%s qt=%.1f norm=%s unk=%s cex=%s %s'%(e,r['wall'],r.get('paths'),r.get('ends'),r.get('q'),r.get('qt',0),r.get('normal'),r.get('unknown') and len(r['unknown']),[(c['kind'],c['label']) for c in r.get('cex',[])],r['error'] or ''))
                if s.verbose:
                    for u in sorted(set(map(tuple,r.get('unknown') or []))): s.log('   unknown:',u)
            running=still
        # counterexamples
        known=json.load(open(os.path.join(VERIF,'known_findings.json'))).get('known',[]) if os.path.exists(os.path.join(VERIF,'known_findings.json')) else []
        viol=[]; kf=[]; unrep=[]; inconc=[]; validated={}; nval=0
        os.makedirs(os.path.join(VERIF,'evidence','replays'),exist_ok=True)
        for r in res:
            for c in r.get('cex',[]):
                k=[x for x in known if x['property']==s.prop and x['entry']==r['entry'] and x['label']==c['label']]
                if c['kind']=='steps' and len(viol)>0: continue
                try: ok,txt,vals=s.replay(r['h'],r['entry'],c['model'],c['kind'])
                except RuntimeError as ex: inconc.append('%s: %s'%(r['entry'],ex)); continue
                s.log('cex',r['entry'],c['kind'],c['label'],{k:v[1] for k,v in c['model'].items()},'->',ok,txt,c.get('where'))
                if not ok: unrep.append((r['entry'],c['kind'],c['label'],txt)); continue
                if k: kf.append((k[0],c)); continue
                dst=os.path.join(VERIF,'evidence','replays','%s_%s_%d.txt'%(s.prop,r['entry'],len(viol)))
                with open(dst,'w') as f:
                    f.write('# property %s, entry %s of %s, %s: %s\n# native run on the real code: %s\n# inputs (exact value, double):\n'%(s.prop,r['entry'],os.path.relpath(r['h'],VERIF),c['kind'],c['label'],txt))
                    for n_,(q,fl) in c['model'].items(): f.write('%s %s %r\n'%(n_,q,fl))
                viol.append((r['entry'],c['kind'],c['label'],txt,dst))
            if r['error']: inconc.append('%s: %s'%(r['entry'],r['error']))
            if r.get('unknown'): inconc.append('%s: solver undecided on %s'%(r['entry'],sorted(set(l for _,l in r['unknown']))[:6]))
            if not r['error'] and not r.get('cex') and not r['ends'].get('done'): inconc.append('%s: vacuous (no path completes)'%r['entry'])
            if not r['error'] and not r.get('cex') and not r['asserts']: inconc.append('%s: vacuous (no assertion reached)'%r['entry'])
        if not viol:
            from concurrent.futures import ThreadPoolExecutor
            try:
                with ThreadPoolExecutor(8) as ex: list(ex.map(lambda h: s.native(h,False),sorted({r['h'] for r in res if r.get('samples')})))
                with ThreadPoolExecutor(8) as ex:
                    fs=[(r['entry'],ex.submit(s.validate,r['h'],r['entry'],x)) for r in res for x in r.get('samples',[])[:3]]
                    for e,f in fs:
                        k,t=f.result(); validated[k]=validated.get(k,0)+1
                        if k in('fail','differs','timeout'): s.log('sample',e,k,t)
            except RuntimeError as ex: inconc.append(str(ex))
        nv=len(viol)
        s.evidence(res,viol,unrep,'; '.join(inconc)[:1500],nv,validated,kf)
        for k,c in kf: print('KNOWN-FINDING: property=%s %s'%(s.prop,k['what']))
        done=set()
        for e,kind,lab,txt,dst in viol:
            if (e,lab) in done: continue
            done.add((e,lab)); print('VIOLATION property=%s replay=%s'%(s.prop,dst)); print('  %s: %s (%s) -- native: %s'%(e,lab,kind,txt))
        if viol: return 1
        for u in unrep: print('INCONCLUSIVE: counterexample not reproduced natively: %s %s %s [%s]'%u)
        for u in inconc: print('INCONCLUSIVE:',u)
        tot=sum(a[0] for r in res for a in (r.get('asserts') or {}).values()); pr=sum(a[1] for r in res for a in (r.get('asserts') or {}).values())
        print('%s %s: %d entries, %d paths, %d/%d assertions decided, %d solver queries (%.1f s), native samples %s, %.1f s'%(s.prop,'ok' if not(unrep or inconc) else 'INCONCLUSIVE',len(res),sum(r.get('paths',0) for r in res),pr,tot,sum(r.get('q',0) for r in res),sum(r.get('qt',0) for r in res),validated,time.time()-s.t0))
        return 2 if (unrep or inconc) else 0
    def evidence(s,res,viol,unrep,inconc,nv,validated,kf=()):
        if s.only: return
        fns=set(); bounds=[]; outside=[]; ass=set()
        for h,d,js,m in getattr(s,'mods',[]):
            for f in m.get('srcfuncs',[]):
                fn=f.split('/src/')[-1] if '/src/' in f else f
                fns.add(fn)
            bounds+=d['bounds']; outside+=d['outside']; ass|=set(d['assume'])
        for r in res: ass|=set(r.get('assumptions') or [])
        S=lambda k: sum(r.get(k,0) or 0 for r in res)
        tot=sum(a[0] for r in res for a in (r.get('asserts') or {}).values()); pr=sum(a[1] for r in res for a in (r.get('asserts') or {}).values())
        smp=[dict(entry=r['entry'],inputs={k:v[1] for k,v in list(x['model'].items())[:12] if '!' not in k}) for r in res for x in (r.get('samples') or [])[:1]][:6]
        cov=dict(states=S('paths'),transitions=S('steps'),traces_validated_against_impl=validated.get('ok',0),samples=smp or [dict(note='no completed path')],
          native_samples=validated,entries=len(res),functions_encoded=sorted(fns),functions_encoded_count=len(fns),bounds=bounds,outside_the_bounds=outside,
          assertions=tot,assertions_decided=pr,queries=S('q'),unsat=S('unsat'),sat=S('sat'),unknown=S('unk'),closed_by_normal_form=S('normal'),normal_form_confirmed_by_solver=S('normq'),normal_form_only=S('normonly'),cvc5_queries=S('cvc5'),solver_time_s=round(S('qt'),2),slowest_query_s=round(max([r.get('maxq',0) or 0 for r in res] or [0]),2),
          path_ends={k:sum((r.get('ends') or {}).get(k,0) for r in res) for k in {k for r in res for k in (r.get('ends') or {})}},per_entry={r['entry']:dict(paths=r.get('paths'),queries=r.get('q'),wall_s=round(r['wall'],2)) for r in res},
          states_meaning='symbolic paths followed to their end; transitions: IR instructions executed symbolically',
          external_models=sorted({x for r in res for x in (r.get('ext') or [])}),unreproduced=[' '.join(u) for u in unrep],inconclusive=inconc,known_findings=[k['what'] for k,_ in kf])
        e=dict(property=s.prop,tier=s.tier,seed=int(os.environ.get('VERIF_SEED','1')),level='model_checking',coverage=cov,assumptions=sorted(ass|{'IEEE doubles are treated as exact real numbers; rounding is outside the claim','integers are mathematical with explicit wrap-around at their machine width'}),wall_s=round(time.time()-s.t0,2),violations=nv)
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(e,open(os.path.join(VERIF,'evidence',s.prop+'.json'),'w'),indent=1)
if __name__=='__main__':
    a=argparse.ArgumentParser(); a.add_argument('prop'); a.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); a.add_argument('--only'); a.add_argument('-v',action='store_true'); a.add_argument('--keep',action='store_true')
    A=a.parse_args(); sys.exit(Check(A.prop,A.tier,A.only,A.v,A.keep).run())
