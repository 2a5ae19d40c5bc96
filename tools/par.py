"""Runs a worker over configurations in parallel and merges what it found into a Check."""
import os, sys, traceback
from concurrent.futures import ProcessPoolExecutor
import facts, mir, configs
class Out:
    """what a worker reports"""
    def __init__(s,cfg): s.cfg=cfg; s.obs=[]; s.counts={}; s.sets={}; s.samples=[]; s.skipped=[]
    def ob(s,rule,construct,ok,detail=""):
        s.obs.append((rule,construct,bool(ok),"" if ok else (detail() if callable(detail) else str(detail)),s.cfg)); return bool(ok)
    def count(s,k,n=1): s.counts[k]=s.counts.get(k,0)+n
    def set(s,k,v): s.sets.setdefault(k,set()).add(v)
    def sample(s,x):
        if len(s.samples)<3: s.samples.append(x)
def _one(a):
    modname,fn,c,need_build=a
    import importlib
    o=Out(configs.name(c))
    try:
        m=importlib.import_module(modname)
        try: F=facts.extract(*c)
        except facts.BuildError as e:
            if need_build: o.ob("builds","crate",False,"does not type-check: "+first_error(str(e)))
            else: o.skipped.append("%s: does not build (decided by C19)"%configs.name(c))
            return o
        P=mir.Program(F)
        getattr(m,fn)(P,c,o)
    except mir.Unsupported as e:
        o.skipped.append("%s: not analysed (%s)"%(o.cfg,str(e)[:200]))
    except Exception as e:
        if os.environ.get("VERIF_STRICT"): raise
        # a defect of the analysis says nothing about the code: reported, decides nothing
        o.skipped.append("%s: not analysed (internal: %s at %s)"%(o.cfg,repr(e)[:160],traceback.format_exc().strip().splitlines()[-3].strip()))
    return o
def first_error(s):
    L=[l for l in s.splitlines() if l.startswith("error")]
    i=next((i for i,l in enumerate(s.splitlines()) if l.startswith("error")),0)
    return " / ".join(x.strip() for x in s.splitlines()[i:i+3])[:400]
def run(check,modname,fn,cfgs,need_build=lambda c:False,procs=8):
    facts.ensure(sorted({c[0] for c in cfgs}))
    with ProcessPoolExecutor(procs) as ex:
        for o in ex.map(_one,[(modname,fn,c,need_build(c)) for c in cfgs]):
            check.merge(o.obs,o.counts,o.sets,o.samples,o.skipped)
    check.count["configurations"]+=len(cfgs)
    check.sets["targets"]|={c[0] for c in cfgs}
