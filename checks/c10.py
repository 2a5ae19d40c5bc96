"""C10: the Unix default stack."""
import mir, par, configs, osmem
from mir import Unsupported
from osmem import OsRun, S, up, layers, prot_of
from lin import Lin
from targets import T
UNIX=[t for t in T if T[t]["std"] and "windows" not in t]
def fmt(v): return repr(v)[:200]
def worker(P,c,o):
    salign=int(next(x["bits"] for x in P.items if x["k"]=="const" and x["path"].split("::")[-1]=="STACK_ALIGNMENT"))
    mins=int(next(x["bits"] for x in P.items if x["k"]=="const" and x["path"].split("::")[-1]=="MIN_STACK_SIZE"))
    for page in osmem.PAGES:
        for fn,need in(("DefaultStack::new",None),("as core::default::Default>::default",mins)):
            R=OsRun(P,c[0],page); con="DefaultStack::"+fn.split(":")[-1]
            try: res=one(P,c,o,R,fn,con,need,page,mins,salign)
            except Unsupported as e: o.skipped.append("%s page %d: %s not analysed (%s)"%(o.cfg,page,con,e))
def one(P,c,o,R,fn,con,need,page,mins,salign):
    root=[x for x in P.roots if P.I[x]["path"].endswith(fn) and "DefaultStack" in P.I[x]["path"]]
    if len(root)!=1: raise Unsupported("%d functions %s"%(len(root),fn))
    fn=P.I[root[0]]["path"]
    res=R.new(fn); o.count("paths",len(res)); o.set("functions",fn); n=S("size")
    oks=0
    for x in res:
        if x.status=="loop": continue
        evs=R.vm(x); I=R.interp(); f=x.facts; o.count("system_calls",len(evs))
        maps=[e for e in evs if e.op=="map" and not e.fail]; fails=[e for e in evs if e.fail]
        rel=[e for e in evs if e.op=="unmap"]
        for e in evs:
            if e.op=="map" and e.flags is not None: flags(o,R,con,e)
        kind=x.status
        if x.status=="return":
            v=x.ret
            if v[0]=="agg" and P.T[v[1]]["s"].startswith("core::result::Result") or v[0]=="agg" and v[2] is not None and P.T[v[1]].get("kind")=="enum":
                kind="ok" if v[2]==0 else "err"
                if kind=="ok": v=dict(v[4])[0]
            else: kind="ok"
        if kind in("abort","ub","unreachable"):
            o.ob("constructor-returns",con,False,"%s ends with %s"%(con,kind)); continue
        if kind!="ok":
            o.ob("failure-unmaps",con,released(f,I,x,maps,rel,page),"%s fails after mapping %s, which it releases with %s"%(con,[(fmt(e.addr),fmt(e.len)) for e in maps],[(e.call,fmt(e.addr),fmt(e.len)) for e in rel]))
            if kind=="err":
                o.ob("error-only-on-failure",con,bool(fails),"%s reports an error although no system call failed"%con)
            else:   # panic: only a size that cannot be mapped
                big=f.nonneg(n-(Lin(R.M)-4*page)) or need is not None and bool(fails)   # new() reports failures as an Err
                o.ob("panic-only-on-overflow",con,big,lambda:"%s panics for a size that does not overflow (%s)"%(con,[e.what for e in x.events() if e.k=="panic"][:1]))
            continue
        oks+=1
        o.ob("success-means-success",con,not fails,"%s returns a stack although %s failed"%(con,fails[0].call if fails else ""))
        if fails: continue
        live=[m for m in maps if not any(is_rel(f,I,x,m,r,page) for r in rel)]
        o.ob("one-mapping",con,len(live)==1 and len(rel)==0,"%s leaves %d mappings"%(con,len(live)))
        if len(live)!=1 or rel: continue
        m=live[0]; end=m.addr+up(I,x,m.len,page)
        b=get(R,o,"DefaultStack as stack::Stack>::base",v,x); l=get(R,o,"DefaultStack as stack::Stack>::limit",v,x)
        eq=lambda a,d: f.zero(a-d)
        o.ob("base-is-end-of-mapping",con,b is not None and eq(b,end),lambda:"%s: base() is %s, the mapping ends at %s"%(con,fmt(f.norm(b)) if b is not None else None,fmt(f.norm(end))))
        o.ob("limit-is-start-of-mapping",con,l is not None and eq(l,m.addr),lambda:"%s: limit() is %s, the mapping starts at %s"%(con,fmt(l),fmt(m.addr)))
        if b is None or l is None: continue
        o.ob("base-aligned",con,f.multiple(f.norm(b),salign),lambda:"%s: base() %s is not a multiple of %d"%(con,fmt(f.norm(b)),salign))
        LY=layers(o,x,I,evs,page)
        cases=[("the requested size",n)] if need is None else []
        cases.append(("MIN_STACK_SIZE",Lin(mins)))
        for w,nn in cases:
            f2=f
            lo=b-nn
            bad="requested size exceeds the mapping" if not f.nonneg(lo-m.addr) else prot_of(f2,LY,lo,b,lambda pr: isinstance(pr,int) and pr&3==3)
            o.ob("capacity",con+"|"+w,bad is None,lambda:"%s (page size %d): of the %s bytes below base() %s"%(con,page,w,bad))
        bad=prot_of(f,LY,l,l+page,lambda pr: pr==0)
        o.ob("guard-page",con,bad is None and f.nonneg(b-l-page),lambda:"%s (page size %d): no inaccessible guard page at the low end: %s"%(con,page,bad))
        for e in evs:
            if e.op=="protect":
                o.ob("protect-page-aligned",con,f.multiple(f.norm(e.addr-m.addr),page),lambda:"%s: mprotect of %s, which is not a page boundary of the mapping"%(con,fmt(f.norm(e.addr))))
                d=f.norm(end-e.addr-up(I,x,e.len,page))
                o.ob("protect-within-mapping",con,f.nonneg(d) and f.nonneg(e.addr-m.addr),lambda:"%s: mprotect reaches outside the mapping (up to %s beyond its end)"%(con,fmt(-d)))
                if e.prot is not None: o.ob("not-executable",con,not e.prot&4,"%s makes the stack executable"%con)
        more(P,o,R,I,x,v,b,lambda g,y,r: is_rel(g,I,y,m,r,page))
        # release
        done=0
        for y in R.call("DefaultStack as stack::Stack>::base",v,f,x.ctr,glue=True):
            if y.status=="loop": continue
            o.count("drop_paths",1); done+=1
            rl=[e for e in R.vm(y) if e.op=="unmap"]; g=y.facts
            o.ob("drop-returns","DefaultStack::drop",y.status=="return","dropping the stack ends with "+y.status)
            o.ob("drop-unmaps-once","DefaultStack::drop",len(rl)==1 and is_rel(g,I,y,m,rl[0],page),lambda:"dropping the stack calls %s; the mapping is %s, length %s"%([(e.call,fmt(g.norm(e.addr)),fmt(g.norm(e.len))) for e in rl],fmt(g.norm(m.addr)),fmt(g.norm(m.len))))
        o.ob("drop-analysed","DefaultStack::drop",done>0)
    o.ob("can-succeed",con,oks>0,"%s has no path that returns a stack"%con)
def more(P,o,R,I,x,v,b,mine):
    """what safe operations beyond the constructors make of a stack: it stays whole, and is released once"""
    for n,ok in osmem.exposed(R): o.ob("state-is-private","DefaultStack."+n,ok,"field %s of DefaultStack can be changed by any client"%n)
    G="DefaultStack as stack::Stack>::base"
    try: runs=list(osmem.further(R,v,x.facts,x.ctr))
    except Unsupported as e: o.skipped.append("%s: further operations not analysed (%s)"%(o.cfg,e)); return
    for con,y,now,ret,ref in runs:
        o.count("further_operation_paths",1); evs=R.vm(y); g=y.facts
        hit=sum(mine(g,y,r) for r in evs if r.op=="unmap"); later=[]
        for w in (now,ret):
            if w is None: continue
            if ref and w is now:
                nb=get(R,o,G,now,y); o.ob("stack-unchanged",con,nb is not None and g.zero(nb-b),lambda:"after %s base() is %s instead of %s"%(con,fmt(nb),fmt(b)))
            try: k=[sum(mine(z.facts,z,r) for r in R.vm(z) if r.op=="unmap") for z in R.call(G,w,g,y.ctr,glue=True) if z.status!="loop"]
            except Unsupported as e: o.skipped.append("%s: %s not analysed (%s)"%(o.cfg,con,e)); continue
            later.append(max(k or [0]))
            if ref and w is now: o.ob("still-released-by-drop",con,not k or min(k)==1 or ret is not None,"after %s dropping the stack does not release its memory, or not all of it"%con)
        n=hit+sum(later)
        o.ob("released-by-one-owner",con,n<=1,lambda:"%s leaves %d owners that each release the same memory"%(con,n))
        if ref: o.ob("not-released-while-owned",con,hit==0,"%s releases the memory of a stack that is still owned"%con)
def flags(o,R,con,e):
    c=R.c; fl=e.flags
    o.ob("private-anonymous",con,bool(fl&c["MAP_ANON"]) and fl&3==2,"%s: mmap flags 0x%x are not private and anonymous"%(con,fl))
    o.ob("no-fixed-address",con,not fl&c["FIXED"],"%s: mmap flags 0x%x place the stack over whatever is there"%(con,fl))
    o.ob("no-growsdown",con,not fl&c["MAP_GROWSDOWN"],"%s: mmap flags 0x%x let the mapping grow"%(con,fl))
    if c["os"]=="openbsd": o.ob("map-stack",con,bool(fl&c["MAP_STACK"]),"%s: mmap without MAP_STACK"%con)
def is_rel(f,I,st,m,r,page):
    """munmap r covers exactly mapping m (lengths are rounded up to pages)"""
    return r.op=="unmap" and f.zero(r.addr-m.addr) and f.zero(up(I,st,r.len,page)-up(I,st,m.len,page))
def released(f,I,x,maps,rel,page):
    return len(maps)==len(rel) and all(sum(1 for r in rel if is_rel(f,I,x,m,r,page))==1 for m in maps)
def get(R,o,fn,v,x):
    vals=[]
    for y in R.call(fn,v,x.facts,x.ctr):
        if y.status!="return": 
            if y.facts.feasible(): return None
            continue
        vals.append(y.ret)
    if len(vals)!=1 or vals[0][0]!="n": return None
    return vals[0][1]
EXPL="DefaultStack::new, ::default, base, limit and the destructor are interpreted over rustc's MIR with a symbolic size; mmap, mprotect, munmap and sysconf are given their documented effect (success and failure), for every page size in use; the resulting map of protections is compared with what base() and limit() promise."
def run(c):
    if c.tier=="thorough": cfgs=[(t,f,d) for t in UNIX for f in(configs.DEF,configs.NOU,configs.ASM) for d in(False,True)]
    else: cfgs=[(t,configs.DEF,False) for t in UNIX]+[(t,f,d) for t in("x86_64-unknown-linux-gnu","i686-unknown-linux-gnu") for f,d in((configs.DEF,True),(configs.NOU,False),(configs.NOU,True))]
    c.explain=EXPL
    c.assumptions=["the operating system implements mmap/mprotect/munmap/sysconf as documented; munmap of an exact mapping succeeds","page sizes 4, 8, 16 and 64 KiB","mappings never touch the last page of the address space"]
    c.sets["page_sizes"]|=set(map(str,osmem.PAGES))
    par.run(c,"c10","worker",cfgs); c.finish(20)
