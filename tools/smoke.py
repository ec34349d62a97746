"""Vacuity check of the contracts: python3-vt tools/smoke.py c08 ...  No path may have contradictory hypotheses."""
import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(20000)
import importlib, pyvc.verify as VV, z3
from pyvc.logic import *
for mod in sys.argv[1:]:
    c=importlib.import_module('contracts.'+mod)
    for t in c.TARGETS:
        if isinstance(t, VV.Lemma): continue
        n=[0,0]
        def post(ctx,s,r,n=n):
            n[0]+=1
            sol=z3.Solver(); sol.set('timeout',4000); sol.add(*s.pc)
            r1=sol.check()
            if r1==z3.unsat or prove(s.pc,BoolVal(False),4000)[0]=='proved': n[1]+=1
            return [('x',BoolVal(True))]
        t.post=post
        if callable(t.allow_raise): t.allow_raise=True
        r=VV.run_target(VV.Repo('/repo'),t)
        print(mod,t.name,'paths',n[0],'contradictory',n[1],'VACUOUS' if n[0]==n[1] else '',flush=True)
