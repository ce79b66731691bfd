#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a harness, the others under not_applicable."""
import json,os,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
NA=json.load(open(os.path.join(V,'tools','not_applicable.json')))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']; hs=sorted(glob.glob(os.path.join(V,'harness',i+'.cpp'))+glob.glob(os.path.join(V,'harness',i+'_*.cpp')))
    if i in NA or not hs:
        na.append(dict(property=i,reason=NA.get(i,'not built yet'))); continue
    b=[];o=[]
    for h in hs:
        for l in open(h):
            if l.startswith('// @bounds'): b.append(l[10:].strip())
            if l.startswith('// @outside'): o.append(l[11:].strip())
    note='Bounded: holds for all values within: '+'; '.join(b)+'. '+('Outside: '+'; '.join(o)+'. ' if o else '')+'Floating-point arithmetic is modelled as exact real arithmetic (rounding is outside; assertions carry tolerances); trusts clang 18 -O2 IR generation, the IR interpreter in tools/ (cross-checked by replaying solver models against the natively compiled code on every run) and z3/cvc5.'
    checks.append(dict(property=i,quick_cmd='python3-vt tools/check.py %s --tier quick'%i,thorough_cmd='python3-vt tools/check.py %s --tier thorough'%i,evidence_file='evidence/%s.json'%i,
        technique='symbolic execution of the LLVM IR of the real code, assertions decided by SMT (z3, cvc5), counterexamples replayed natively',level='model_checking',level_note=note))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=na,notes='Every check compiles its harness against the headers in /repo/src of the current working tree in a scratch directory and regenerates the encoding; no hooks in /repo are needed.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
