"""C16: Valgrind annotations."""
import mir, par, configs, osmem, asm, re
from mir import Unsupported
from asm import Mach, opreg, is_junk
from osmem import OsRun, S, up
from lin import Lin
from targets import T
import c10
UNIX=c10.UNIX
# the preamble (rotations) and the marker of a client request as Valgrind's own valgrind.h defines them, per architecture
MAGIC=dict(x86_64=([("rol","rdi",k) for k in(3,13,61,51)],("xchg","rbx","rbx")),
           x86=([("rol","edi",k) for k in(3,13,29,19)],("xchg","ebx","ebx")),
           aarch64=([("ror","x12",k) for k in(3,13,51,61)],("orr","x10","x10","x10")),
           arm=([("ror","r12",k) for k in(3,13,29,19)],("orr","r10","r10","r10")))
FLAGS=re.compile(r"^(rol|ror|rcl|rcr|shl|shr|sal|sar|add|sub|and|or|xor|neg|inc|dec|test|cmp|adds|subs|ands|rors|orrs|movs|muls?)[bwlq]?$")
def flagset(fam,mn):
    if fam=="x86": return bool(re.match(r"^(rol|ror|rcl|rcr|shl|shr|sal|sar|add|sub|and|or|xor|neg|inc|dec|test|cmp|imul|mul|bt\w?)[bwlq]?$",mn))
    return mn in("adds","subs","ands","rors","orrs","movs","muls","mvns","bics","lsls","lsrs","asrs","adcs","sbcs","rsbs","cmp","cmn","tst","teq")
def fmt(v): return repr(v)[:200]
def worker(P,c,o):
    page=4096; R=OsRun(P,c[0],page); fam=T[c[0]]["arch"]
    blocks={}
    # every asm! block of the stack modules, wherever it is used
    for r in P.roots:
        if "valgrind" not in P.I[r]["path"]: continue
        try: I=R.interp(); res=I.run(r)
        except Unsupported as e: o.skipped.append("%s: %s not analysed (%s)"%(o.cfg,P.I[r]["path"],e)); continue
        for x in res:
            for e in R.vm(x):
                if e.op=="vg": request(P,R,o,fam,e,blocks)
    for fn in("DefaultStack::new","as core::default::Default>::default"):
        root=[x for x in P.roots if P.I[x]["path"].endswith(fn) and "DefaultStack" in P.I[x]["path"]]
        con="DefaultStack::"+fn.split(":")[-1]
        if len(root)!=1: continue
        try: pairing(P,R,o,fam,P.I[root[0]]["path"],con,page,blocks)
        except Unsupported as e: o.skipped.append("%s: %s not analysed (%s)"%(o.cfg,con,e))
def request(P,R,o,fam,e,blocks):
    ev=e.asm; im=R.W.block(ev); con="valgrind_request"; f=e.facts
    if e.req==0x1501: o.ob("register-arguments",con,e.a is not None and e.b is not None,"the range given to Valgrind is not known")
    k=(im.name,)
    if k in blocks: return
    blocks[k]=1; o.set("asm_blocks",im.fn)
    opts=set(ev.opts)
    o.ob("request-not-elided",con,not {"pure","nomem"}&opts,"the request is declared %s: the compiler may drop it or not write its arguments first"%", ".join(sorted({"pure","nomem"}&opts)))
    a=R.W.a; init={r:Lin.atom(("r","x",r)) for r in a.gpr}; init[a.sp]=Lin.atom(("sp","x"))
    m=Mach(R.W,init,[],f,{}); m.load_block(im,ev.ops); before=dict(m.regs)
    m.run(im); o.count("asm_instructions",len(m.trail))
    outs={opreg(a,d["reg"][1]) for d in ev.ops if d["k"] in("out","inout") and d.get("reg")}
    outs|={opreg(a,d["reg"][1]) for d in ev.t["ops"] if d["k"] in("out","inout") and d.get("reg")}
    for r in a.gpr:
        if r in outs: continue
        v=m.get(r); w=m.norm(before.get(r,init[r]))
        o.ob("register-unchanged",con+"|"+r,f.zero(v-w),lambda:"%s: outside Valgrind register %s is changed to %s and the compiler is not told"%(im.fn,r,fmt(v)))
    for d in ev.ops:
        if d["k"]=="inout" and d.get("p") is not None:
            r=opreg(a,d["reg"][1]); v=m.get(r); w=d.get("v")
            o.ob("returns-default",con,w is not None and w[0]=="n" and f.zero(v-w[1]),lambda:"outside Valgrind the request returns %s instead of its default %s"%(fmt(v),fmt(w)))
    w=[x for x in m.mem if x[0]!="r"]
    o.ob("writes-no-memory",con,not m.mem and not m.log,lambda:"the request writes memory: %s"%fmt(m.mem[:2]))
    ins=[(mn,ops) for mn,ops in seq(R,im)]
    fl=[mn for mn,_ in ins if flagset(a.fam,mn)]
    o.ob("flags-declared",con,not fl or "preserves_flags" not in opts,"%s changes the flags but the block is declared preserves_flags"%(fl[:1]))
    pre,mark=MAGIC.get(fam,(None,None))
    if pre:
        want=[(mn,reg)+((reg,str(k)) if a.fam!="x86" else (str(k),)) for mn,reg,k in pre]+[mark]
        got=[(mn,)+tuple(canon(a,x) for x in asm.split_ops(ops)) for mn,ops in ins]
        alt=[(mn,reg,str(k)) for mn,reg,k in pre]+[mark]
        o.ob("recognised-by-valgrind",con,got in(want,alt),lambda:"%s is not the instruction sequence Valgrind recognises: %s"%(im.fn,got))
def canon(a,x):
    x=x.strip().lstrip("#").lower()
    return a.names.get(x,x) if ":" not in str(a.names.get(x,x)) else x
def seq(R,im):
    for i in im.ins:
        yield i[0] if isinstance(i,tuple) else i.mn, i[1] if isinstance(i,tuple) else i.ops
def pairing(P,R,o,fam,fn,con,page,blocks):
    active=fam in MAGIC
    for x in R.new(fn):
        if x.status=="loop": continue
        evs=R.vm(x); f=x.facts; I=R.interp()
        maps=[e for e in evs if e.op=="map" and not e.fail]
        ok=x.status=="return" and not(x.ret[0]=="agg" and x.ret[2]==1 and P.T[x.ret[1]].get("kind")=="enum")
        m=maps[0] if len(maps)==1 else None
        regs=[e for e in evs if e.op=="vg" and e.req==0x1501]; der=[e for e in evs if e.op=="vg" and e.req==0x1502]; oth=[e for e in evs if e.op=="vg" and e.req not in(0x1501,0x1502)]
        for e in oth: o.ob("known-request",con,False,"%s makes Valgrind request %s"%(con,e.req))
        if not active:
            o.ob("no-request-on-unsupported",con,not regs and not der); continue
        if m is None:
            o.ob("no-registration-without-mapping",con,not regs,"%s registers a stack with Valgrind although nothing is mapped"%con); continue
        for e in regs:
            sz=up(I,x,m.len,page)
            good=e.a is not None and f.zero(e.a-m.addr) and e.b is not None and (f.zero(e.b-m.addr-sz) or f.zero(e.b-m.addr-sz+1))
            o.ob("registers-exact-range",con,good,lambda:"%s registers [%s, %s) with Valgrind; the mapping is [%s, %s)"%(con,fmt(e.a and f.norm(e.a)),fmt(e.b and f.norm(e.b)),fmt(m.addr),fmt(f.norm(m.addr+sz))))
        if ok:
            o.ob("registered-once",con,len(regs)==1 and not der,"%s registers the stack %d times and de-registers it %d times"%(con,len(regs),len(der)))
            if len(regs)!=1: continue
            v=x.ret
            if v[0]=="agg" and P.T[v[1]].get("kind")=="enum": v=dict(v[4])[0]
            for y in R.call("DefaultStack as stack::Stack>::base",v,f,x.ctr,glue=True):
                if y.status=="loop": continue
                o.count("drop_paths",1)
                dereg(o,"DefaultStack::drop",R.vm(y),y.facts,regs[0].out,True)
            for con2,y,now,ret,ref in osmem.further(R,v,f,x.ctr):
                ids=[e.a for e in R.vm(y) if e.op=="vg" and e.req==0x1502]
                for w in (now,ret):
                    if w is None: continue
                    best=[]
                    for z in R.call("DefaultStack as stack::Stack>::base",w,y.facts,y.ctr,glue=True):
                        q=[e.a for e in R.vm(z) if e.op=="vg" and e.req==0x1502]
                        if len(q)>len(best): best=q
                    ids+=best
                n=sum(1 for a in ids if a is not None and y.facts.zero(a-regs[0].out))
                o.ob("deregistered-by-one-owner",con2,n<=1,"%s leaves %d owners that each de-register the same stack"%(con2,n))
        else: 
            if regs: dereg(o,con+" (failure path)",evs,f,regs[0].out,len(regs)==1)
def dereg(o,con,evs,f,vid,once):
    d=[e for e in evs if e.op=="vg" and e.req==0x1502]
    o.ob("deregistered-once",con,len(d)==1 and once,"%s de-registers the stack %d times"%(con,len(d)))
    if len(d)!=1: return
    o.ob("deregisters-own-id",con,d[0].a is not None and f.zero(d[0].a-vid),lambda:"%s de-registers identifier %s instead of the one returned by its registration"%(con,fmt(d[0].a)))
    u=[i for i,e in enumerate(evs) if e.op=="unmap"]; i=evs.index(d[0])
    o.ob("deregistered-before-unmap",con,not u or i<u[0],"%s de-registers the stack after unmapping it"%con)
EXPL="The Valgrind request blocks are interpreted instruction by instruction with symbolic registers (net effect must be nothing) and compared with the sequence Valgrind recognises; DefaultStack's constructors and destructor are interpreted with the requests as events, whose arguments are compared with the mapping."
def run(c):
    if c.tier=="thorough": cfgs=[(t,f,d) for t in UNIX for f in(configs.DEF,configs.NOU,configs.ASM) for d in(False,True)]
    else: cfgs=[(t,configs.DEF,False) for t in UNIX]+[(t,configs.DEF,True) for t in("x86_64-unknown-linux-gnu","i686-unknown-linux-gnu")]
    c.explain=EXPL
    c.assumptions=["the request encoding is the one documented in valgrind.h for the architecture","the operating system implements mmap/munmap as documented"]
    par.run(c,"c16","worker",cfgs); c.finish(20)
