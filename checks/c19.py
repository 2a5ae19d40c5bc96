"""C19: every supported target x feature set type-checks and assembles; core only without features."""
import os, tempfile
from concurrent.futures import ThreadPoolExecutor
import facts, codegen, checklib
from targets import T
FE=[(),("default-stack",),("unwind",),("default-stack","unwind"),("asm-unwind","unwind"),("asm-unwind","default-stack","unwind")]
W=os.path.join(checklib.V,"witness","inst.rs")
CORE={"core","compiler_builtins","cfg_if","scopeguard"}
def err(ds,text):
    for x in ds:
        if x.get("level")=="error":
            sp=x["spans"][0] if x.get("spans") else None
            where=""
            while sp and sp.get("expansion") and not sp["file_name"].startswith(facts.REPO): sp=sp["expansion"]["span"]
            if sp: where=" at %s:%d `%s`"%(sp["file_name"],sp["line_start"],(sp["text"][0]["text"].strip() if sp["text"] else ""))
            return x["message"][:300]+where
    L=[l for l in text.splitlines() if l.strip()]
    i=next((i for i,l in enumerate(L) if l.startswith("error")),0)
    return " / ".join(l.strip() for l in L[i:i+4])[:500]
def one(a):
    t,f,dbg,opt=a; out=[]
    n="%s[%s]"%(t,"+".join(f) or "-"); cfg=n+(" debug" if dbg else "")+" O%s"%opt
    with tempfile.TemporaryDirectory(dir=facts.B) as d:
        ok,e=codegen.lib(t,f,dbg,d,extra=["-C","opt-level=%s"%opt])
        out.append(("crate type-checks and assembles",n,ok,err([],e),cfg))
        if ok:
            ok,ds,e=codegen.client(t,f,W,d,obj=True,extra=["-C","opt-level=%s"%opt])
            out.append(("instantiated assembly assembles",n,ok,err(ds,e),cfg))
    return out
def crates(t):
    try: F=facts.extract(t,(),False)
    except facts.BuildError: return []
    extra=sorted(set(F["crates"])-CORE)
    return [("no features: core only",t,not extra,"built without features the crate pulls in %s"%", ".join(extra),t)]
def run(c):
    facts.ensure(list(T))
    modes=[(False,"1")] if c.tier!="thorough" else [(False,"1"),(True,"0"),(False,"3"),(True,"s")]
    jobs=[(t,f,d,o) for t in T for f in (FE if T[t]["std"] else [()]) for d,o in modes]
    c.explain=("Type-checks the crate and assembles its global and (through a client that instantiates every generic entry point) inline assembly "
      "for every target family and feature set with rustc/LLVM as the checker - objects only, nothing is linked or run; without asm-unwind nightly features are refused. "
      "With no features the crate graph must not contain std or alloc.")
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one,jobs): c.merge(r)
        for r in ex.map(crates,list(T)): c.merge(r)
    c.count["compilations"]=len(jobs)*2; c.sets["targets"]=set(T); c.sets["feature_sets"]={"+".join(f) or "-" for f in FE}
    c.finish(200)
