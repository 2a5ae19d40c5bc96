"""C20: no hidden shared or per-thread state."""
import re
import mir, par, configs, asmtext
from lin import Lin
# operating-system queries whose result is the same for the whole process
PROCESS_CONST=re.compile(r"^(sysconf|getpagesize|getauxval|GetSystemInfo|GetNativeSystemInfo|GetModuleHandle[AW]?|GetProcAddress)\b")
THREAD=re.compile(r"(^|::)(pthread_self|pthread_getspecific|pthread_setspecific|pthread_key_create|gettid|GetCurrentThread|GetCurrentThreadId|NtCurrentTeb|TlsAlloc|TlsGetValue|TlsSetValue|FlsAlloc|FlsGetValue|FlsSetValue|__tls_get_addr)$")
THREADSTD=re.compile(r"^std::thread::(?!panicking)")
def leaves(v):
    """atoms a value is built from"""
    if v is None: return set()
    if v[0]=="n": return set(v[1].atoms())
    if v[0]=="t": return {("sym",v[1])}
    if v[0]=="agg":
        out=set()
        for _,x in v[4]: out|=leaves(x)
        if v[3] is not None: out|=leaves(v[3])
        return out
    if v[0]=="pun": return leaves(v[2])
    if v[0]=="b": return set(v[2].atoms())
    return set()
def sources(evs):
    """names of results of process-constant queries on this path"""
    return [e.name for e in evs if e.k=="ext"]
def const_atom(a):
    if a[0] in("sym",): return bool(PROCESS_CONST.match(str(a[1]).split("::")[-1])) or str(a[1]).split("#")[0].split(".")[0].split("::")[-1] in() 
    if a[0] in("q","adown"): return all(const_atom(x) for x in (a[1].atoms() if isinstance(a[1],Lin) else []))
    return a[0] in("size","align","fnp")
ONCE=re.compile(r"(Once(Lock|Cell|Box)?|LazyLock|LazyCell)(::)?(<.*>)?::(get|get_or_init|get_or_try_init|force|deref|is_completed|call_once)$")
def static_of(v):
    for a in leaves(v):
        if a[0]=="static": return a[1]
        if a[0]=="addr" and a[1][0]=="mem":
            for b in a[1][1].atoms():
                if b[0]=="static": return b[1]
    return None
def worker(P,c,o):
    mutable={}; stored={}
    for s in P.f["statics"]:
        if s["foreign"]:
            o.ob("foreign-static-immutable",s["path"],s["freeze"] and not s["mut"] and not s["tls"],"foreign static %s is mutable or thread-local"%s["path"]); continue
        o.set("statics",s["path"])
        o.ob("no-thread-local",s["path"],not s["tls"],"%s (%s) is a thread-local: coroutine state would depend on the thread that runs it"%(s["path"],s["span"]))
        o.ob("no-static-mut",s["path"],not s["mut"],"%s (%s) is a `static mut`"%(s["path"],s["span"]))
        if not s["freeze"] and not s["mut"] and not s["tls"]: mutable[s["path"]]=s
    for r in P.f["insts"]:
        b=r.get("body")
        if r["path"].startswith("std::thread::local::") or r["path"].startswith("std::thread::LocalKey"):
            o.ob("no-thread-local","call:"+r["path"],False,"a thread-local is accessed through %s"%r["path"])
        if r.get("foreign") and THREAD.search(r["path"]): o.ob("no-thread-identity","call:"+r["path"],False,"per-thread state is queried through %s"%r["path"])
        if not r["local"] and THREADSTD.match(r["path"]) : o.ob("no-thread-identity","call:"+r["path"],False,"%s is called"%r["path"])
    o.ob("no-thread-identity","all calls",True)
    # every way a value can get into an interior-mutable static
    for r in P.roots:
        p=P.I[r]["path"]
        if P.I[r]["local"]: o.set("functions",p)
        if " as core::fmt" in p or "core::hash" in p: continue
        it=mir.Interp(P); res=it.run(r); o.count("paths",len(res))
        for x in res:
            for e in x.events():
                if e.k=="write" and e.root[0]=="mem":
                    for a in e.root[1].atoms():
                        if a[0]!="static": continue
                        lv=leaves(e.val); ok=all(const_atom(b) for b in lv) and (e.rmw is None or e.rmw in("cxchg","cxchgweak"))
                        o.ob("static-holds-process-constant",a[1],ok,"%s stores %r into the static %s%s"%(p,e.val,a[1]," ("+e.rmw+")" if e.rmw else ""))
                        if ok and not lv and e.val[0]=="n" and e.rmw is None: stored.setdefault(a[1],set()).add(repr(e.val[1]))
                if e.k in("std","ext","user","stack_call"):
                    args=e.args or []
                    for i,a in enumerate(args):
                        s=static_of(a)
                        if s is None or s not in mutable: continue
                        nm=(e.path or e.name or "")
                        if ONCE.search(nm):
                            ok=all(const_atom(b) for j,v in enumerate(args) if j!=i for b in leaves(v))
                        else: ok=False
                        o.ob("static-holds-process-constant",s,ok,"%s passes the static %s to %s(%s)"%(p,s,nm,", ".join(repr(v) for v in args)))
    for s,vs in stored.items(): o.ob("static-holds-process-constant",s,len(vs)<2,"different constants are stored into the static %s: %s"%(s,", ".join(sorted(vs))))
    for s in mutable: o.ob("static-holds-process-constant",s,True)
    for f,ln,d in asmtext.data_directives(P): o.ob("asm-owns-no-data",f,False,"assembly defines writable data: %s"%d)
    o.ob("asm-owns-no-data","all assembly",True)
    for f,ins in asmtext.symbol_stores(P): o.ob("asm-writes-no-global",f,False,"assembly writes to a global symbol: %s"%ins)
    o.ob("asm-writes-no-global","all assembly",True)
def run(c):
    q=c.tier!="thorough"
    cf=configs.all_configs(debug=(False,),targets=configs.QUICK if q else None) if q else configs.all_configs()
    c.explain=("Every static of the crate, every call any of its functions makes and every store on every abstract path is "
      "enumerated from the type-checked program: no static mut, no thread-local, no thread-identity query; an interior-mutable "
      "static may only ever receive process-wide constants returned by the operating system; assembly defines no data and writes to no symbol.")
    par.run(c,"c20","worker",cf)
    c.finish(20)
