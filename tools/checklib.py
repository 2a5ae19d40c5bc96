"""Common part of all checks: obligations, evidence, known findings, exit status."""
import os, sys, json, time, collections
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KF=os.path.join(V,"known-findings.txt")
def known(prop):
    out={}
    if os.path.exists(KF):
        for l in open(KF):
            l=l.strip()
            if l.startswith("finding: property=%s "%prop):
                k=l.split(" key=",1)[1]; key,_,what=k.partition(" :: ")
                out[key.strip()]=what.strip()
    return out
class Check:
    def __init__(s,prop,level="other"):
        s.prop=prop; s.level=level; s.t0=time.time(); s.tier=os.environ.get("VERIF_TIER","quick"); s.seed=int(os.environ.get("VERIF_SEED","1") or 1)
        s.obs=collections.OrderedDict()      # (rule, construct) -> [n_ok, n_bad, first bad detail, configs]
        s.count=collections.Counter(); s.sets=collections.defaultdict(set); s.assumptions=[]; s.samples=[]; s.explain=""; s.skipped=[]
    def ob(s,rule,construct,ok,detail="",cfg=""):
        """one obligation; `construct` names the function / site, without line numbers"""
        k=(rule,construct); o=s.obs.setdefault(k,dict(ok=0,bad=0,detail="",cfgs=set(),badcfgs=[]))
        if ok: o["ok"]+=1
        else:
            o["bad"]+=1
            if len(o["badcfgs"])<6 and cfg not in o["badcfgs"]: o["badcfgs"].append(cfg)
            if not o["detail"]: o["detail"]=detail() if callable(detail) else str(detail)
        o["cfgs"].add(cfg)
        return ok
    def merge(s,obs,counts=None,sets=None,samples=None,skipped=None):
        """results of a worker process: list of (rule, construct, ok, detail, cfg)"""
        for r in obs: s.ob(*r)
        for k,v in (counts or {}).items(): s.count[k]+=v
        for k,v in (sets or {}).items(): s.sets[k]|=set(v)
        for x in samples or []:
            if len(s.samples)<40: s.samples.append(x)
        s.skipped+=skipped or []
    def finish(s,min_obligations=1):
        kn=known(s.prop); total=sum(o["ok"]+o["bad"] for o in s.obs.values())
        viol=[];kf=[]
        undecided=total<min_obligations and bool(s.skipped)
        if total<min_obligations and not undecided:
            s.ob("non-vacuity","check",False,"only %d obligations were generated (expected at least %d): the code no longer has the constructs this check decides on"%(total,min_obligations))
            total=sum(o["ok"]+o["bad"] for o in s.obs.values())
        for (rule,con),o in s.obs.items():
            if not o["bad"]: continue
            key="%s|%s"%(rule,con)
            rec=dict(key=key,rule=rule,construct=con,detail=o["detail"],configs=o["badcfgs"],occurrences=o["bad"])
            if key in kn: kf.append((kn[key],rec))
            else: viol.append(rec)
        rules=collections.Counter()
        for (rule,con),o in s.obs.items(): rules[rule]+=o["ok"]+o["bad"]
        cov=dict(explanation=s.explain,obligations=total,discharged=sum(o["ok"] for o in s.obs.values()),
                 distinct_rule_construct_pairs=len(s.obs),obligations_by_rule=dict(rules),
                 constructs=sorted({c for _,c in s.obs})[:400])
        for k,v in s.count.items(): cov[k]=v
        for k,v in s.sets.items(): cov[k]=sorted(v)[:400]
        if s.samples: cov["samples"]=s.samples
        if s.skipped: cov["skipped"]=sorted(set(s.skipped))
        if kf: cov["known_findings"]=[r for _,r in kf]
        if viol: cov["violations_found"]=viol
        ev=dict(property=s.prop,tier=s.tier if s.tier in("quick","thorough") else "quick",seed=s.seed,level=s.level,coverage=cov,assumptions=s.assumptions,wall_s=round(time.time()-s.t0,2),violations=len(viol))
        d=os.path.join(V,"evidence"); os.makedirs(d,exist_ok=True)
        json.dump(ev,open(os.path.join(d,s.prop+".json"),"w"),indent=1,default=str)
        for w,r in kf: print("KNOWN-FINDING: property=%s %s"%(s.prop,w))
        rep=os.path.join(d,s.prop+".violation.json")
        if viol:
            json.dump(viol,open(rep,"w"),indent=1,default=str)
            for r in viol:
                print("VIOLATION property=%s replay=%s"%(s.prop,rep))
                print("  rule: %s\n  at:   %s\n  %s\n  configurations: %s"%(r["rule"],r["construct"],r["detail"],", ".join(map(str,r["configs"]))))
            sys.exit(1)
        if os.path.exists(rep): os.remove(rep)
        if undecided: print("UNDECIDED property=%s: the analysis could not follow the code (%s)"%(s.prop,s.skipped[0][:200])); sys.exit(0)
        print("%s: %d obligations discharged (%d rule/construct pairs), %.1f s"%(s.prop,total,len(s.obs),time.time()-s.t0))
        sys.exit(0)
