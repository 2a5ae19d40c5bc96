"""Engine M on the default stacks: the operating-system calls are given their documented meaning,
every constructor, accessor and destructor path is interpreted and the memory map it leaves is judged.

The page size is a parameter of the analysis (all page sizes in use on the platforms are enumerated);
requested sizes, addresses and every other quantity are symbolic.
"""
import re, mir, asm
from mir import Unsupported
from lin import Lin, L
PAGES=[4096,8192,16384,65536]
# constants of the platforms' headers
UNIX=dict(PROT_NONE=0,PROT_READ=1,PROT_WRITE=2,MAP_PRIVATE=2,MAP_FIXED=0x10)
def osc(target):
    c=dict(UNIX)
    if "linux" in target: c.update(os="linux",SC={30},MAP_ANON=0x20,MAP_GROWSDOWN=0x100,MAP_STACK=0x20000,FIXED=0x100010)
    elif "apple" in target: c.update(os="apple",SC={29},MAP_ANON=0x1000,MAP_GROWSDOWN=0,MAP_STACK=0,FIXED=0x10)
    elif "openbsd" in target: c.update(os="openbsd",SC={28},MAP_ANON=0x1000,MAP_GROWSDOWN=0,MAP_STACK=0x4000,FIXED=0x10)
    return c
def S(name): return Lin.atom(("sym",name))
def con(v): return v[1].const() if v is not None and v[0]=="n" else None
class OsRun:
    def __init__(s,P,target,page,vg=True):
        s.P=P; s.p=page; s.target=target; s.win=P.windows; s.c=None if s.win else osc(target); s.W=None; s.n=0
        s.w=P.w; s.M=(1<<s.w)-1; s.wb=s.w//8
    def interp(s):
        I=mir.Interp(s.P); I.split_wrap=True; I.hooks["foreign"]=s.foreign; I.hooks["asm_out"]=s.asm_out; I.uw=False
        return I
    def root(s,suffix):
        pat=re.escape(suffix).replace(re.escape("stack::Stack>"),r"(?:\w+::)*Stack>")+"$"
        r=[x for x in s.P.roots if re.search(pat,s.P.I[x]["path"])]
        if len(r)!=1: raise Unsupported("%d functions named %s"%(len(r),suffix))
        return r[0]
    def param(s,root,i):
        b=s.P.I[root]["body"]
        for n,p in b["names"]:
            if not p[1] and p[0]==i: return n
        raise Unsupported("unnamed parameter of "+s.P.I[root]["path"])
    # ---------------------------------------------------------- operating system
    def fork(s,I,st,t,dest,name,alts):
        out=[]
        for facts,ret,kw in alts:
            if facts is None: continue
            n=st.copy(); n.facts=facts
            I.ev(n,"vm",at=t["at"],ret=ret,call=name,**kw)
            out+=I.outcomes(n,n.frames[-1],t,dest,ret,False,name)
        return out
    def fresh(s,st,what): st.ctr+=1; return "%s#%d"%(what,st.ctr)
    def foreign(s,I,st,fr,t,name,args,dest):
        name=name.split("::")[-1]; f=st.facts; p=s.p; x=[I.as_lin(st,a) for a in args]
        if any(z is None for z in x) : raise Unsupported("argument of %s unknown"%name)
        if not s.win:
            if name=="sysconf":
                if x[0].const() in s.c["SC"]: return s.fork(I,st,t,dest,name,[(f,("n",Lin(p)),dict(op="query"))])
                return None
            if name=="getpagesize": return s.fork(I,st,t,dest,name,[(f,("n",Lin(p)),dict(op="query"))])
            if name in("mmap","mmap64"):
                k=Lin.atom(("sym",s.fresh(st,"map"))); a=k*p; ln=x[1]
                f1=f.add_ge(k-1); f1=f1 and f1.add_ge(Lin(s.M+1-p)-a-ln); f1=f1 and f1.add_ge(ln-1)
                return s.fork(I,st,t,dest,name,[(f1,("n",a),dict(op="map",addr=a,len=ln,prot=x[2].const(),flags=x[3].const(),fd=x[4],off=x[5],hint=x[0],fail=False)),
                                              (f,("n",Lin(s.M)),dict(op="map",fail=True))])
            if name=="mprotect":
                return s.fork(I,st,t,dest,name,[(f,("n",Lin(0)),dict(op="protect",addr=x[0],len=x[1],prot=x[2].const(),fail=False)),
                                              (f,("n",Lin(-1)),dict(op="protect",addr=x[0],len=x[1],prot=x[2].const(),fail=True))])
            if name=="munmap":
                return s.fork(I,st,t,dest,name,[(f,("n",Lin(0)),dict(op="unmap",addr=x[0],len=x[1],fail=False))])
            if name in("madvise",):
                return s.fork(I,st,t,dest,name,[(f,("n",Lin(0)),dict(op="none",fail=False))])
            raise Unsupported("call of %s is not modelled"%name)
        if name in("GetSystemInfo","GetNativeSystemInfo"):
            r,pp=I.deref(st,args[0]); pt=s.P.T[t["at_"][0]]["to"]
            tok=I.opaque(st,s.fresh(st,"sysinfo"),pt); I.set(st,r,pp,tok)
            fs=s.P.T[pt]["variants"][0]["fields"]; i=next(i for i,q in enumerate(fs) if q["name"]=="dwPageSize")
            I.set(st,r,pp+(("f",i,fs[i]["ty"]),),("n",Lin(p)))
            return I.outcomes(st,fr,t,dest,I.opaque(st,s.fresh(st,name),t["dty"]),False,name)
        if name=="SetThreadStackGuarantee":
            r,pp=I.deref(st,args[0]); pt=s.P.T[t["at_"][0]]["to"]
            old=I.get(st,r,pp,pt); I.ev(st,"vm",op="guarantee",set=I.as_lin(st,old),fail=False)
            g=S("guarantee"); st.facts=st.facts.add_ge(g) or st.facts; st.facts=st.facts.add_ge(Lin(1<<30)-g) or st.facts
            I.set(st,r,pp,("n",g))
            ok=Lin.atom(("sym",s.fresh(st,"stg")))
            return I.outcomes(st,fr,t,dest,("n",Lin(1)),False,name)
        if name=="VirtualAlloc":
            ty=x[2].const(); pr=x[3].const()
            if ty is None or pr is None: raise Unsupported("VirtualAlloc with unknown flags")
            if x[0].const()==0:
                k=Lin.atom(("sym",s.fresh(st,"map"))); a=k*65536; ln=x[1]
                f1=f.add_ge(k-1); f1=f1 and f1.add_ge(Lin(s.M+1-65536)-a-ln); f1=f1 and f1.add_ge(ln-1)
                return s.fork(I,st,t,dest,name,[(f1,("n",a),dict(op="map",addr=a,len=ln,type=ty,prot=pr,fail=False)),(f,("n",Lin(0)),dict(op="map",fail=True))])
            return s.fork(I,st,t,dest,name,[(f,("n",x[0]),dict(op="commit",addr=x[0],len=x[1],type=ty,prot=pr,fail=False)),
                                            (f,("n",Lin(0)),dict(op="commit",addr=x[0],len=x[1],type=ty,prot=pr,fail=True))])
        if name=="VirtualProtect":
            alts=[]
            r,pp=I.deref(st,args[3]); pt=s.P.T[t["at_"][3]]["to"]; I.set(st,r,pp,I.opaque(st,s.fresh(st,"oldprot"),pt))
            for fail in(False,True): alts.append((f,("n",Lin(0 if fail else 1)),dict(op="reprotect",addr=x[0],len=x[1],type=0,prot=x[2].const(),fail=fail)))
            return s.fork(I,st,t,dest,name,alts)
        if name=="VirtualFree":
            return s.fork(I,st,t,dest,name,[(f,("n",Lin(1)),dict(op="unmap",addr=x[0],len=x[1],type=x[2].const(),fail=False))])
        raise Unsupported("call of %s is not modelled"%name)
    # ---------------------------------------------------------- valgrind requests
    VG=dict(x86={8:("rax","rdx"),4:("eax","edx")},aarch64={8:("x4","x3")},arm={4:("r4","r3")})
    def asm_out(s,I,st,fr,t,ev):
        if s.W is None: s.W=asm.World(s.P)
        a=s.W.a; regs=s.VG.get(a.fam,{}).get(s.wb)
        args=None; req=None; default=None; outk=None
        if regs:
            for k,o in enumerate(ev.ops):
                r=o["reg"] and asm.opreg(a,o["reg"][1])
                if r==regs[0] and o.get("v") is not None: args=o["v"]
                if r==regs[1] and o.get("p") is not None: outk=k; default=o.get("v")
        if args is None or outk is None: raise Unsupported("asm! block that is not a Valgrind request")
        q=[]
        r,pp=I.deref(st,args)
        if pp and pp[-1]==("i",0): pp=pp[:-1]
        arr=I.get(st,r,pp,None); d=dict(arr[4]) if arr[0]=="agg" else {}
        for i in range(3):
            v=d.get(i); q.append(v[1] if v is not None and v[0]=="n" else None)
        if q[0] is None or q[0].const() is None: raise Unsupported("arguments of a Valgrind request")
        out=S(s.fresh(st,"vgid"))
        n=st.copy(); I.ev(n,"vm",op="vg",req=q[0].const() if q[0] is not None else None,a=q[1],b=q[2],default=default,out=out,fail=False,asm=ev,at=t["at"])
        r,p,ty=ev.ops[outk]["p"]; I.set(n,r,p,("n",out))
        return [n]
    # ---------------------------------------------------------- runs
    def vm(s,x): return [e for e in x.events() if e.k=="vm"]
    def new(s,fn="DefaultStack::new"):
        r=s.root(fn); I=s.interp(); args=None
        if s.P.I[r]["body"]["argc"]==1: args={s.param(r,1):("n",S("size"))}
        return I.run(r,args=args,facts=mir.Facts(w=s.w).add_ge(S("size")).add_ge(Lin(s.M)-S("size")))
    def call(s,fn,selfv,facts,ctr,extra=None,glue=False):
        """a method on a stack value, or (glue) the destruction of that value"""
        r=s.root(fn); I=s.interp()
        args={s.param(r,1):("n",Lin.atom(("addr",("P","self"),())))}
        for i,v in enumerate(extra or []): args[s.param(r,2+i)]=v
        g=(("P","self"),s.P.T[s.P.I[r]["body"]["locals"][1]]["to"]) if glue else None
        def prep(I2,st): st.store[("P","self")]=selfv
        return I.run(r,args=args,facts=facts,prep=prep,ctr0=ctr,glue=g)
def up(I,st,x,p):
    """x rounded up to a multiple of p (same normal form as the code's own rounding)"""
    return I.adown(st,x+(p-1),Lin(p))
def layers(o,st,I,evs,p):
    """mapped ranges with their protection, oldest first"""
    out=[]
    for e in evs:
        if e.get("fail"): continue
        if e.op=="map": out.append((e.addr,e.addr+up(I,st,e.len,p),e.prot if "type" not in e else (None if not e.type&0x1000 else e.prot)))
        elif e.op in("protect",): out.append((e.addr,e.addr+up(I,st,e.len,p),e.prot))
        elif e.op in("commit","reprotect"):
            lo=I.adown(st,e.addr,Lin(p)); out.append((lo,lo+up(I,st,e.addr-lo+e.len,p),e.prot if e.op=="reprotect" or e.type&0x1000 else None))
        elif e.op=="unmap": out.append((e.addr,e.addr+up(I,st,e.len,p),"unmapped"))
    return out
def prot_of(f,L,a,b,ok,depth=0):
    """every byte of [a,b) has a protection accepted by ok; returns None or what is wrong"""
    if f is None or f.nonneg(a-b): return None
    if depth>24: raise Unsupported("ranges cannot be ordered")
    for i in range(len(L)-1,-1,-1):
        lo,hi,pr=L[i]
        if f.nonneg(a-hi) or f.nonneg(lo-b): continue
        if f.nonneg(a-lo) and f.nonneg(hi-b):
            return None if ok(pr) else "[%s, %s) has protection %s"%(a,b,pr)
        # partly covered (or not ordered): split
        for e in (a-lo,hi-b,hi-a-1,b-lo-1):
            if not f.nonneg(e) and not f.nonneg(-e-1):
                return prot_of(f.add_ge(e),L,a,b,ok,depth+1) or prot_of(f.add_ge(-e-1),L,a,b,ok,depth+1)
        if not f.nonneg(a-lo): return prot_of(f,L,a,lo,ok,depth+1) or prot_of(f,L,lo,b,ok,depth+1)
        return prot_of(f,L,a,hi,ok,depth+1) or prot_of(f,L,hi,b,ok,depth+1)
    return "[%s, %s) is not mapped"%(a,b)
def owner(P):
    """the type the constructors make"""
    for i in P.items:
        if i["k"]=="type" and i.get("reachable") and P.T[i["ty"]].get("path","").split("::")[-1]=="DefaultStack": return P.T[i["ty"]]
def further(R,v,f,ctr):
    """public safe operations on an existing stack besides those of the Stack trait, each run on this stack:
    (construct, run, the stack afterwards (None: the operation consumed it), the stack it returned (or None))"""
    P=R.P; T=owner(P)
    if T is None: return
    for i in P.items:
        if i["k"]!="fn" or not i.get("reachable") or i["unsafe"] or i.get("inst") is None or (i.get("trait") or "").endswith("Stack") or i["path"].endswith(("Drop>::drop","Debug>::fmt")): continue
        I0=P.I[i["inst"]]
        if "body" not in I0 or I0["body"]["argc"]<1: continue
        b=I0["body"]; A=P.T[b["locals"][1]]; ref=A["k"]=="ref"; X=P.T[A["to"]] if ref else A
        if X.get("path")!=T["path"]: continue
        I=R.interp(); args={}; con=re.sub(r"<?(?:\w+::)*(\w+)",r"\1",i["path"]).replace(">::","::"); fx=f; c=ctr
        nm={q[0]:n for n,q in b["names"] if not q[1]}
        args[nm.get(1,"self")]=("n",Lin.atom(("addr",("P","self"),()))) if ref else v
        for k in range(2,b["argc"]+1):
            if P.T[b["locals"][k]]["k"] in("int","uint"): args[nm.get(k,"arg%d"%k)]=("n",S("extra%d"%k))
        def prep(I2,st): 
            if ref: st.store[("P","self")]=v
        for y in I.run(i["inst"],args=args,facts=fx,prep=prep,ctr0=c):
            if y.status not in("return","unwind"): continue
            ret=y.ret if y.status=="return" and P.T[b["locals"][0]].get("path")==T["path"] else None
            yield con,y,(y.store.get(("P","self")) if ref else None),ret,ref
def exposed(R):
    """public fields of the stack type that hold something"""
    T=owner(R.P)
    if T is None: return
    for w in T["variants"]:
        for f in w["fields"]:
            yield f["name"],not f["pub"] or bool(R.P.T[f["ty"]].get("phantom"))
