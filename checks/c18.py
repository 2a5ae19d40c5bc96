"""C18: the Windows default stack."""
import mir, par, configs, osmem, c10
from mir import Unsupported
from osmem import OsRun, S, up, layers, prot_of
from lin import Lin
from targets import T
WIN=[t for t in T if "windows" in t]
def fmt(v): return repr(v)[:200]
MEM_COMMIT,MEM_RESERVE,MEM_DECOMMIT,MEM_RELEASE=0x1000,0x2000,0x4000,0x8000
RW,GUARD=4,0x100
def worker(P,c,o):
    salign=int(next(x["bits"] for x in P.items if x["k"]=="const" and x["path"].split("::")[-1]=="STACK_ALIGNMENT"))
    mins=int(next(x["bits"] for x in P.items if x["k"]=="const" and x["path"].split("::")[-1]=="MIN_STACK_SIZE"))
    for page in osmem.PAGES[:1]+[16384]:
        for fn in("DefaultStack::new","as core::default::Default>::default"):
            R=OsRun(P,c[0],page); con="DefaultStack::"+fn.split(":")[-1]
            try: one(P,c,o,R,fn,con,page,mins,salign)
            except Unsupported as e: o.skipped.append("%s page %d: %s not analysed (%s)"%(o.cfg,page,con,e))
def one(P,c,o,R,fn,con,page,mins,salign):
    root=[x for x in P.roots if P.I[x]["path"].endswith(fn) and "DefaultStack" in P.I[x]["path"]]
    if len(root)!=1: raise Unsupported("%d functions %s"%(len(root),fn))
    fn=P.I[root[0]]["path"]; new=P.I[root[0]]["body"]["argc"]==1
    res=R.new(fn); o.count("paths",len(res)); o.set("functions",fn); n=S("size"); G=S("guarantee")
    soft=(2 if R.wb==8 else 1)*page; oks=0
    for x in res:
        if x.status=="loop": continue
        evs=R.vm(x); I=R.interp(); f=x.facts; o.count("system_calls",len(evs))
        maps=[e for e in evs if e.op=="map" and not e.fail]; fails=[e for e in evs if e.fail]
        rel=[e for e in evs if e.op=="unmap"]
        for e in evs:
            if e.op=="map" and not e.fail: o.ob("reserves",con,bool(e.type&MEM_RESERVE),"%s: VirtualAlloc type 0x%x does not reserve"%(con,e.type))
        kind=x.status
        if x.status=="return":
            v=x.ret
            if v[0]=="agg" and v[2] is not None and P.T[v[1]].get("kind")=="enum":
                kind="ok" if v[2]==0 else "err"
                if kind=="ok": v=dict(v[4])[0]
            else: kind="ok"
        if kind in("abort","ub","unreachable"):
            o.ob("constructor-returns",con,False,"%s ends with %s"%(con,kind)); continue
        if kind!="ok":
            o.ob("failure-releases",con,len(maps)==len(rel) and all(sum(1 for r in rel if is_rel(f,m,r))==1 for m in maps),"%s fails after reserving %s, released with %s"%(con,[(fmt(e.addr),fmt(e.len)) for e in maps],[(e.call,fmt(e.addr),fmt(e.len),e.type) for e in rel]))
            if kind=="err": o.ob("error-only-on-failure",con,bool(fails),"%s reports an error although no system call failed"%con)
            # a constructor that returns a Result reports the operating system's failures through it
            else: o.ob("panic-only-on-overflow",con,not new and bool(fails) or f.nonneg(n+G-(Lin(R.M)-12*page)),lambda:"%s panics for a size that does not overflow (%s)"%(con,[e.what for e in x.events() if e.k=="panic"][:1]))
            continue
        oks+=1
        o.ob("success-means-success",con,not fails,"%s returns a stack although %s failed"%(con,fails[0].call if fails else ""))
        if fails: continue
        o.ob("one-reservation",con,len(maps)==1 and not rel,"%s makes %d reservations and releases %d"%(con,len(maps),len(rel)))
        if len(maps)!=1 or rel: continue
        m=maps[0]; end=m.addr+up(I,x,m.len,page); LY=layers(o,x,I,evs,page)
        teb=tebf(R,P,v,x)
        b=get(R,"DefaultStack as stack::Stack>::base",v,x); l=get(R,"DefaultStack as stack::Stack>::limit",v,x)
        if teb is None or b is None or l is None: o.ob("accessors",con,False,"base/limit/teb_fields do not return a known value"); continue
        eq=lambda a,d: f.zero(a-d)
        o.ob("base-is-end-of-reservation",con,eq(b,end),lambda:"%s: base() is %s, the reservation ends at %s"%(con,fmt(f.norm(b)),fmt(f.norm(end))))
        o.ob("limit-is-start-of-reservation",con,eq(l,m.addr),lambda:"%s: limit() is %s, the reservation starts at %s"%(con,fmt(l),fmt(m.addr)))
        for k,want,nm in(("StackBase",end,"the end of the reservation"),("DeallocationStack",m.addr,"its start")):
            o.ob("teb-fields",con+"|"+k,eq(teb[k],want),lambda:"%s: teb_fields().%s is %s instead of %s"%(con,k,fmt(f.norm(teb[k])),nm))
        o.ob("base-aligned",con,f.multiple(f.norm(b),salign),lambda:"%s: base() %s is not a multiple of %d"%(con,fmt(f.norm(b)),salign))
        sl=teb["StackLimit"]; sg=teb["GuaranteedStackBytes"]
        ok=f.nonneg(sg-G) and f.nonneg(sg-page) and f.multiple(f.norm(sg),page)
        o.ob("guarantee-rounded",con,ok,lambda:"%s: the stack guarantee %s is not the thread's guarantee (at least a page) rounded up to pages"%(con,fmt(f.norm(sg))))
        o.ob("stack-limit-page-aligned",con,f.multiple(f.norm(sl-m.addr),page),lambda:"%s: StackLimit %s is not on a page boundary"%(con,fmt(f.norm(sl))))
        bad="StackLimit is less than MIN_STACK_SIZE below the base" if not f.nonneg(b-sl-mins) else prot_of(f,LY,sl,b,lambda pr: isinstance(pr,int) and pr&0xff==RW and not pr&GUARD)
        o.ob("initially-committed",con,bad is None,lambda:"%s (page size %d): initial part of the stack: %s"%(con,page,bad))
        lo=sl-soft-sg
        bad="the guard area reaches outside the reservation" if not f.nonneg(lo-m.addr-page) else prot_of(f,LY,lo,sl,lambda pr: isinstance(pr,int) and pr&0xff==RW and bool(pr&GUARD))
        o.ob("guard-pages",con,bad is None,lambda:"%s (page size %d): the %d guard bytes plus the guarantee below StackLimit: %s"%(con,page,soft,bad))
        bad=prot_of(f,LY,m.addr,m.addr+page,lambda pr: pr is None or isinstance(pr,int) and pr&0xff==1)
        o.ob("hard-guard-page",con,bad is None,lambda:"%s: the lowest page of the reservation is committed: %s"%(con,bad))
        for w,nn in ([("the requested size",n)] if new else [])+[("MIN_STACK_SIZE",Lin(mins))]:
            room=f.norm(b-m.addr-soft-sg-page-nn)
            o.ob("capacity",con+"|"+w,f.nonneg(room),lambda:"%s (page size %d): the reservation lacks room for %s besides guard area and hard guard page (%s)"%(con,page,w,fmt(room)))
        for e in evs:
            if e.op in("commit","reprotect"):
                o.ob("commit-within-reservation",con,f.nonneg(f.norm(e.addr-m.addr)) and f.nonneg(f.norm(end-e.addr-e.len)),lambda:"%s: %s of [%s, +%s) lies outside the reservation"%(con,e.call,fmt(f.norm(e.addr)),fmt(f.norm(e.len))))
        c10.more(P,o,R,I,x,v,b,lambda g,y,r: is_rel(g,m,r))
        # release, also after the bounds were updated
        updated=[(v,x.facts,x.ctr,"")]
        l2,g2=S("newlimit"),S("newguarantee")
        for y in R.call("DefaultStack as stack::Stack>::update_teb_fields",v,x.facts.add_ge(l2-page) or x.facts,x.ctr,extra=[("n",l2),("n",g2)]):
            o.ob("update-returns","DefaultStack::update_teb_fields",y.status=="return","update_teb_fields ends with "+y.status)
            if y.status!="return": continue
            v2=y.store[("P","self")]; t2=tebf(R,P,v2,y); ok=t2 is not None
            for k,want in(("StackBase",end),("DeallocationStack",m.addr),("StackLimit",l2),("GuaranteedStackBytes",g2)):
                o.ob("update-teb-fields","DefaultStack::update_teb_fields|"+k,ok and f.zero(t2[k]-want),lambda:"after update_teb_fields(limit, guarantee) the field %s is %s instead of %s"%(k,fmt(t2 and t2[k]),fmt(f.norm(want))))
            updated.append((v2,y.facts,y.ctr," after update_teb_fields"))
        for v1,f1,c1,how in updated:
            done=0
            for y in R.call("DefaultStack as stack::Stack>::base",v1,f1,c1,glue=True):
                if y.status=="loop": continue
                done+=1; o.count("drop_paths",1)
                rl=[e for e in R.vm(y) if e.op=="unmap"]
                o.ob("drop-returns","DefaultStack::drop"+how,y.status=="return","dropping the stack ends with "+y.status)
                o.ob("drop-releases-once","DefaultStack::drop"+how,len(rl)==1 and is_rel(y.facts,m,rl[0]),lambda:"dropping the stack calls %s; the reservation is at %s"%([(e.call,fmt(e.addr),fmt(e.len),e.type) for e in rl],fmt(m.addr)))
            o.ob("drop-analysed","DefaultStack::drop"+how,done>0)
    o.ob("can-succeed",con,oks>0,"%s has no path that returns a stack"%con)
def is_rel(f,m,r): return r.op=="unmap" and f.zero(r.addr-m.addr) and r.type==MEM_RELEASE and f.zero(r.len)
def get(R,fn,v,x):
    vals=[]
    for y in R.call(fn,v,x.facts,x.ctr):
        if y.status!="return": 
            if y.facts.feasible(): return None
            continue
        vals.append(y.ret)
    return vals[0][1] if len(vals)==1 and vals[0][0]=="n" else None
def tebf(R,P,v,x):
    for y in R.call("DefaultStack as stack::Stack>::teb_fields",v,x.facts,x.ctr):
        if y.status!="return" or y.ret[0]!="agg": return None
        fs=P.T[y.ret[1]]["variants"][0]["fields"]; d=dict(y.ret[4]); out={}
        for i,q in enumerate(fs):
            if i not in d or d[i][0]!="n": return None
            out[q["name"]]=d[i][1]
        return out
EXPL="DefaultStack::new, ::default, base, limit, teb_fields, update_teb_fields and the destructor are interpreted over rustc's MIR with a symbolic size and a symbolic stack guarantee; VirtualAlloc, VirtualFree, GetSystemInfo and SetThreadStackGuarantee are given their documented effect (success and failure); the resulting map of the reservation is compared with what the accessors promise."
def run(c):
    if c.tier=="thorough": cfgs=[(t,f,d) for t in WIN for f in(configs.DEF,configs.NOU,configs.ASM) for d in(False,True)]
    else: cfgs=[(t,configs.DEF,d) for t in WIN for d in(False,True)]
    c.explain=EXPL
    c.assumptions=["Windows implements VirtualAlloc/VirtualFree/SetThreadStackGuarantee/GetSystemInfo as documented","page sizes 4 and 16 KiB, allocation granularity 64 KiB","a thread's stack guarantee is below 1 GiB"]
    par.run(c,"c18","worker",cfgs); c.finish(20)
