"""Joint analysis of the Rust side (engine M on MIR) and the assembly side (engine A on templates).

A history is a sequence of public operations on one coroutine (first resume, suspend, resume from
another frame, completion, forced unwind, trap, on_parent_stack).  The Rust code of each operation
is interpreted abstractly until its asm! block; the block is interpreted from there until it leaves
for another context (another asm! block, or the entry of a Rust function), and the values it hands
over are given to the abstract interpretation of the receiving Rust code.  All register and memory
contents, sizes, alignments, stack positions are symbolic.
"""
import re
import mir, asm
from asm import Mach, World, val_lin, back, is_junk, junk, opreg, overlap, Unsupported
from lin import Lin, Facts, L
TEB8=dict(ExceptionList=0,StackBase=8,StackLimit=16,DeallocationStack=0x1478,GuaranteedStackBytes=0x1748)
TEB4=dict(ExceptionList=0,StackBase=4,StackLimit=8,DeallocationStack=0xe0c,GuaranteedStackBytes=0xf78)
SWITCH_MAX=100
COSTLY=re.compile(r"(syscall|sysenter|int|svc|swi|hvc|smc|ecall|lock|xsave\w*|xrstor\w*|fxsave\w*|fxrstor\w*|cpuid|mfence|lfence|sfence|serialize|isb|dsb|dmb|fence(\.i)?|ibar|dbar|rdtscp?|wrfsbase|wrgsbase|mrs|msr|csr\w+|div\w*|idiv\w*)$")
class Miss(Exception): pass
def short(p): return re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>","",p).replace("::::","::").strip(":")
def describe_pc(W,l):
    a=l.single()
    if a and a[0]=="code":
        im=W.images.get(a[1]); return "%s of %s"%("the end" if im and a[2]>=len(im.ins) else "`%s %s`"%im.ins[a[2]] if im else "a point",short(getattr(im,"fn",a[1])))
    return fmt(l)
class Side:
    m_in=None; first=False
    """a suspended Rust context: what it knew when it entered its asm! block"""
    def __init__(s,name,ev,im,regs,teb=None): s.name=name; s.ev=ev; s.im=im; s.regs=regs; s.teb=teb
class H:
    def copy(s):
        n=H(); n.__dict__.update(s.__dict__); n.mem=list(s.mem); n.regions=dict(s.regions); n.hist=list(s.hist); return n
class Sim:
    def __init__(s,P,o):
        s.P=P; s.o=o; s.W=World(P); s.a=s.W.a; s.w=s.a.w; s.uid=1000; s.n=0
        s.feat=P.features; s.win=P.windows
        s.asmunw="asm-unwind" in s.feat
        s.TEB=TEB8 if s.w==8 else TEB4
        s.salign=int(next(x["bits"] for x in P.items if x["k"]=="const" and re.search(r"(^|::)STACK_ALIGNMENT$",x["path"])))
        s.minstack=int(next((x["bits"] for x in P.items if x["k"]=="const" and re.search(r"(^|::)MIN_STACK_SIZE$",x["path"])),4096))
        s.blocks_seen={}
        s.R={}
        for k,pat in dict(with_stack=r"Coroutine::<.*>::with_stack$",new=r"Coroutine::<.*>::new$",resume=r"Coroutine::<.*>::resume$",force_unwind=r"Coroutine::<.*>::force_unwind$",
              started=r"Coroutine::<.*>::started$",done=r"Coroutine::<.*>::done$",into_stack=r"Coroutine::<.*>::into_stack$",trap_handler=r"Coroutine::<.*>::trap_handler$",
              force_reset=r"Coroutine::<.*>::force_reset$",suspend=r"Yielder::<.*>::suspend$",on_parent_stack=r"Yielder::<.*>::on_parent_stack$",on_stack=r"^(?!.*\barch::)(\w+::)*on_stack$",
              setup=r"::setup_trap_handler$",in_bounds=r"::stack_ptr_in_bounds$",drop=r"<coroutine::Coroutine<.*> as core::ops::drop::Drop>::drop$|Coroutine.*Drop.*::drop$").items():
            r=[x for x in P.roots if re.search(pat,P.I[x]["path"])]
            if r: s.R[k]=r[0]
        # parameters of the public operations are known by position, whatever they are called
        for k,nm in dict(with_stack=("stack","f"),new=("f",),resume=("self","val"),force_unwind=("self",),started=("self",),done=("self",),into_stack=("self",),trap_handler=("self",),
              force_reset=("self",),suspend=("self","val"),on_parent_stack=("self","f"),on_stack=("stack","f"),setup=("self","f"),in_bounds=("self","stack_ptr"),drop=("self",)).items():
            if k not in s.R: continue
            b=P.I[s.R[k]]["body"]
            if b["argc"]!=len(nm): raise Miss("%s has %d parameters"%(k,b["argc"]))
            b["names"]=[x for x in b["names"] if x[1][1] or not 1<=x[1][0]<=b["argc"]]+[[n,[i+1,[]]] for i,n in enumerate(nm)]
    def ob(s,prop,rule,con,ok,detail=""):
        for p in (prop,) if isinstance(prop,str) else prop: s.o.ob(p+":"+rule,con,ok,detail)
        return ok
    def tok(s,kind): s.n+=1; return "%s%d"%(kind,s.n)
    def ctr(s): s.uid+=1000; return s.uid
    # ------------------------------------------------------------ machines
    def mach(s,h,name,regs=None):
        """machine whose registers are the initial tokens of context `name`"""
        init={r:Lin.atom(("r","any" if r in s.a.reserved and(r!="x18" or s.P.x18_reserved) else name,r)) for r in s.a.gpr}
        sp=Lin.atom(("sp",name)); init[s.a.sp]=sp
        if regs: init.update(regs)
        m=Mach(s.W,init,h.mem,h.facts,h.regions); return m,init
    def spatom(s,h,name,region):
        """the stack pointer of a context: always a multiple of the word size"""
        sp=Lin.atom(("sp",name)); h.regions[("sp",name)]=region; h.regions[("spk",name)]=region
        h.facts=h.facts.add_eq(sp-Lin.atom(("spk",name))*s.w) or h.facts
        return sp
    def side_regs(s,m): return dict(m.regs)
    def parent(s,h,name,teb=True):
        """a new resuming context: a stack of its own"""
        sp=s.spatom(h,name,"P:"+name)
        h.facts=h.facts.add_ge(sp-(1<<20))
        if s.win and teb: s.set_teb(h,name)
    def set_teb(s,h,name,fields=None):
        for f,off in s.TEB.items():
            if fields is None or f in fields: h.mem.append(("w",Lin.atom(("teb",))+off,s.w,Lin.atom(("teb",name,f))))
    def teb_check(s,prop,rule,con,m,want,fields=None):
        for f,off in s.TEB.items():
            if f=="ExceptionList" and s.w==8: continue
            if f not in want or fields and f not in fields: continue
            v=m.read(Lin.atom(("teb",))+off)
            s.ob("C17",rule,con+"|"+f,s.eq(m.facts,v,want[f]),lambda:"%s: the TEB field %s is %s instead of %s"%(con,f,fmt(v),fmt(want[f])))
    # ------------------------------------------------------------ rules on one asm! block
    def block_rules(s,ev,im,role):
        """static rules on the declaration of an asm! block"""
        k=(im.name,role)
        if k in s.blocks_seen: return
        s.blocks_seen[k]=1
        s.o.set("asm_blocks",short(im.fn)+" ["+role+"]")
        con=short(im.fn); opts=set(ev.opts); never="noreturn" in opts
        bad={"nomem","readonly","pure"}&opts
        s.ob("C03","asm-memory-declared",con,not bad,"%s declares %s although it switches stacks: the compiler would keep or reorder memory accesses across it"%(con,", ".join(sorted(bad))))
        if not never:
            bad={"nostack","preserves_flags"}&opts
            s.ob("C03","asm-stack-flags-declared",con,not bad,"%s declares %s although it uses the stack and runs other code"%(con,", ".join(sorted(bad))))
            have=set()
            for o in ev.t["ops"]:
                if o["k"] in("out","inout") and o.get("reg"):
                    for u in overlap(o["reg"][1]): have.add(u)
            need=s.a.other_call if role=="call" else s.a.other_switch
            miss=[x for x in need if x not in have]
            s.ob("C03","asm-vector-clobbers",con,not miss,"%s does not declare %s as changed, but code running before it returns may change them"%(con,", ".join(miss[:8])))
        if s.asmunw and not never:
            need=(role=="yield") or not s.win
            if need:
                ok="may_unwind" in opts and ev.t["u"]!="unreachable"
                s.ob("C07","asm-may-unwind",con,ok,"%s is not declared may_unwind with asm-unwind: panics pass through it"%con)
    def declared(s,ev):
        out=set()
        for o in ev.t["ops"]:
            if o["k"] in("out","inout") and o.get("reg"):
                r=opreg(s.a,o["reg"][1])
                if r: out.add(r)
        return out
    def go(s,m,im,*a):
        """runs assembly up to where it hands control to compiled code, which may assume the control state it left"""
        oc=m.run(im,*a)
        if oc[0] in("exit","enter"):
            bad=m.ctl_changed()
            s.ob("C03","control-state-preserved",short(im.fn) if getattr(im,"fn",None) else im.name,not bad,"compiled code is given a changed %s"%", ".join("direction flag" if b=="df" else b for b in bad))
        return oc
    def check_return(s,m,side,how,props="C03"):
        """control is back at the end of side's asm! block"""
        con=short(side.im.fn); dec=s.declared(side.ev)
        spv=m.get(s.a.sp); other=m.region(spv)!=m.region(m.norm(side.regs[s.a.sp]))
        s.ob("C15","returns-to-latest-resumer",con+"|"+how,not(other and str(m.region(spv)).startswith("P:")),lambda:"%s: after %s control is back in another context (stack pointer %s instead of %s)"%(con,how,fmt(spv),fmt(side.regs[s.a.sp])))
        s.ob("C03","stack-pointer-restored",con+"|"+how,s.eq(m.facts,spv,side.regs[s.a.sp]),lambda:"%s: after %s the stack pointer is %s instead of %s"%(con,how,fmt(spv),fmt(side.regs[s.a.sp])))
        for r in s.a.gpr:
            if r==s.a.sp or r in dec: continue
            v=m.get(r); w=m.norm(side.regs[r])
            s.ob("C03","register-preserved",con+"|"+r,s.eq(m.facts,v,w),lambda:"%s: after %s register %s holds %s, but the compiler was not told that it changes (it had %s)"%(con,how,r,fmt(v),fmt(w)))
        for l in m.log: s.ob("C03","stores-known",con,False,l)
        if s.win and side.teb: s.teb_check("C17","teb-restored",con+"|"+how,m,side.teb)
    def outs(s,m,ev):
        """values of the block's outputs"""
        r={}
        for k,o in enumerate(ev.ops):
            if o.get("p") is None: continue
            reg=o["reg"] and opreg(s.a,o["reg"][1])
            v=m.get(reg) if reg else getattr(m,"phoutv",{}).get(k,junk("output never written"))
            r[k]=back(s.W,v)
        return r
    def set_outs(s,I,st,ev,outs,t):
        for k,v in outs.items():
            d=ev.ops[k]; r,p,ty=d["p"]
            I.set(st,r,p,v)
    # ------------------------------------------------------------ running Rust code
    def mrun(s,root,args,facts,store,on_asm,ctr0=None,payload=None,glue=None,escaped=None,user_ran=None):
        I=mir.Interp(s.P); I.user_payload=payload; I.asm_payload=escaped; c0=ctr0 if ctr0 is not None else s.ctr()
        def hook(I2,st,fr,t,ev):
            im=s.W.block(ev)
            res=on_asm(I2,st,ev) if not asm.is_local(im) else s.local_asm(st,ev,im)
            out=[]
            for outs,store2,facts2 in res:
                n=st.copy()
                if facts2 is not None: n.facts=facts2
                n.store.update(store2 or {})
                s.set_outs(I2,n,ev,outs,t); out.append(n)
            return out
        if on_asm: I.hooks["asm_out"]=hook
        if user_ran: I.hooks["user_ran"]=user_ran
        def prep(I2,st):
            if store:
                for k,v in store.items(): st.store.setdefault(k,v) if k[0]=="L" else st.store.__setitem__(k,v)
        res=I.run(root,args=args,facts=facts,prep=prep,ctr0=c0,glue=glue)
        s.o.count("rust_paths",len(res)); s.o.count("rust_steps",I.steps)
        n=len(res); res=[x for x in res if x.status!="loop"]; s.o.count("loop_paths_cut",n-len(res))     # further iterations of a loop already followed twice
        return res,I
    def local_asm(s,st,ev,im):
        m=Mach(s.W,{r:Lin.atom(("r","local",r)) for r in s.a.gpr},[],st.facts,{}); m.load_block(im,ev.ops)
        if s.win: 
            for f,off in s.TEB.items(): m.mem.append(("w",Lin.atom(("teb",))+off,s.w,Lin.atom(("teb","now",f))))
        s.go(m,im)
        outs={}
        for k,v in s.outs(m,ev).items(): outs[k]=v if not(v[0]=="n" and is_junk(v[1])) else ("n",Lin.atom(("sym","local#%d"%s.ctr())))
        return [(outs,None,None)]
    def noreturn_asm(s,res):
        """(state, event) of paths that end in a noreturn asm! block"""
        out=[]
        for x in res:
            if x.status=="noreturn":
                e=[e for e in x.events() if e.k=="asm"][-1]; out.append((x,e))
        return out
    # ------------------------------------------------------------ operations
    def contract(s):
        """the documented contract of Stack::base: aligned, and (an assumption) not within 1 MiB of address 0 or one page of the end"""
        f=mir.Facts(w=s.P.w); k=Lin.atom(("sym","basek"))
        return f.add_eq(Lin.atom(("sym","base(stack)"))-k*s.salign).add_ge(k-((1<<20)//s.salign)).add_ge(Lin(((1<<s.P.w)-4096)//s.salign)-k)
    def fresh(s):
        """with_stack on any stack and closure -> one history per layout class"""
        res,I=s.mrun(s.R["with_stack"],None,s.contract(),None,None)
        out=[]; seen=set()
        for x in res:
            if x.status!="return": continue
            key=repr(sorted((repr(x.facts.norm(e.root[1])),e.ty) for e in x.events() if e.k=="write" and e.root[0]=="mem" and not e.path))
            if key in seen: continue
            seen.add(key)
            h=H(); h.self=x.ret; h.mem=[]; h.facts=x.facts; h.regions={}; h.state="fresh"; h.hist=["with_stack"]; h.link=None; h.y=None; h.entry=None
            h.base=None; h.func=None; h.obj=None; h.store={}
            bases={a for e in x.events() if e.k=="stack_get" and e.name=="base" for a in [Lin.atom(("sym","base(stack)"))]}
            h.base=Lin.atom(("sym","base(stack)"))
            h.regions[("sym","base(stack)")]="C"; h.regions[("sym","basek")]="C"
            h.teb=None
            for e in x.events():
                if e.k=="stack_call" and e.name=="teb_fields": h.teb=e.ret
                if e.k=="write" and e.root[0]=="mem" and not e.path:
                    ty=s.P.T[s.P.newtype_norm(e.ty)]; size=s.P.size(e.ty)
                    v=e.val
                    if size==s.w or isinstance(size,int) and size==s.w: h.mem.append(("w",e.root[1],s.w,val_lin(s.W,v)))
                    else:
                        h.mem.append(("w",e.root[1],size,val_lin(s.W,v)))
                    if v[0]=="t" and v[1]=="f": h.obj=(e.root[1],size,ty)
                    if v[0]=="fn" and s.W.fn_target(v[1]) is None: h.func=v[1]
            for k,v in x.store.items():
                if k[0]=="mem": h.store[k]=v
            h.base_store=dict(h.store)
            h.store={(k[0],h.facts.norm(k[1])):v for k,v in h.store.items()}; h.base_store=dict(h.store)
            if h.obj: h.obj=(h.facts.norm(h.obj[0]),)+h.obj[1:]
            h.self0=h.self; h.ev0=x
            out.append(h)
        return out
    def self_store(s,h):
        st={("P","self"):h.self}; st.update(s.mem_words(h)); return st
    def mem_words(s,h):
        """machine words whose contents are known, as Rust memory"""
        st={}; m=Mach(s.W,{},h.mem,h.facts,h.regions); seen=set()
        for e in h.mem:
            if e[0]=="w" and e[2]==s.w:
                ad=h.facts.norm(e[1])
                if ad in seen: continue
                seen.add(ad); v=m.read(ad)
                if not is_junk(v): st[("mem",ad)]=back(s.W,v)
        return st
    SELF=("n",Lin.atom(("addr",("P","self"),())))
    def query(s,h,which):
        res,_=s.mrun(s.R[which],{"self":s.SELF},h.facts,s.self_store(h),None)
        vals=set()
        for x in res:
            if x.status!="return": vals.add(x.status); continue
            v=x.ret
            if v[0]=="b": 
                I=mir.Interp(s.P); vals|={int(b) for _,b in I.decide(x,v)}
            elif v[0]=="n" and v[1].const() is not None: vals.add(int(v[1].const()))
            elif v[0]=="n": vals|={0,1}
            else: vals.add(str(v))
        return vals
    def entry_checks(s,h,m,atom,what,expect,prop="C04"):
        """m is at the entry of a Rust function on the coroutine's stack"""
        a=s.a; con=what
        sp=m.get(a.sp)
        k=sp+a.entry_bias
        s.ob(prop,"entry-stack-aligned",con,m.facts.multiple(m.norm(k),a.sp_align),lambda:"%s is entered with stack pointer %s: %s is not a multiple of %d"%(con,fmt(sp),fmt(m.norm(k)),a.sp_align))
        for i,(nm,want) in enumerate(expect):
            if want is None: continue
            got=s.arg(m,i)
            s.ob(prop,"entry-argument",con+"|"+nm,s.eq(m.facts,got,want),lambda:"%s is entered with %s=%s instead of %s"%(con,nm,fmt(got),fmt(want)))
    def arg(s,m,i):
        a=s.a
        if i<len(a.args): return m.get(a.args[i])
        off=(i-len(a.args))*s.w+(s.w if a.ra is None else 0)
        return m.read(m.get(a.sp)+off)
    def retaddr(s,m):
        return m.read(m.get(s.a.sp)) if s.a.ra is None else m.get(s.a.ra)
    # -- one resume operation
    def argty(s,root,name):
        b=s.P.I[root]["body"]
        for n,p in b["names"]:
            if n==name and not p[1] and 1<=p[0]<=b["argc"]: return b["locals"][p[0]]
        raise Miss("parameter %s of %s"%(name,s.P.I[root]["path"]))
    def roles(s,inst):
        """indices of the parameters of an entry function by type: encoded value / link / object"""
        b=s.P.I[inst]["body"]; r={}
        for i in range(1,b["argc"]+1):
            t=s.P.T[b["locals"][i]]
            if t["k"]=="uint": r["value"]=i-1
            elif t["k"] in("ref","ptr"):
                to=s.P.T[t["to"]]
                if to["k"]=="param": r["obj"]=i-1
                else: r["link"]=i-1
        return r,b
    def resume(s,h0,does,op="resume",escaped=None):
        """`op` (resume or force_unwind) from a new frame on another stack; the coroutine then performs
        `does` (yield, complete).  Returns [(history after, final Rust state of op, info)]"""
        h0=h0.copy(); name=s.tok("R"); s.parent(h0,name); out=[]
        args={"self":s.SELF}; val=None
        root=s.R.get(op); glue=None
        if op=="resume": val=("t","val:"+name,s.argty(s.R[op],"val")); args["val"]=val
        if op=="drop":      # the destructor of the whole coroutine: its Drop impl, then its fields
            root=s.R["force_reset"]; b=s.P.I[root]["body"]; glue=(("P","self"),s.P.T[b["locals"][1]]["to"])
        if op=="into_stack": args={"self":h0.self}
        s.hs={}; s.ended=[]; info0=dict(val=val,name=name,op=op)
        def on_asm(I,st,ev):
            h=h0.copy(); h.facts=st.facts; im=s.W.block(ev); h.plow=None
            if ("P","self") in st.store: h.self=st.store[("P","self")]
            info0["at_switch"]=list(st.events()); s.block_rules(ev,im,"switch")
            m,_=s.mach(h,name); m.load_block(im,ev.ops); s.rust_writes(m,st)
            side=Side(name,ev,im,dict(m.regs),{f:Lin.atom(("teb",name,f)) for f in s.TEB} if s.win else None)
            oc=s.go(m,im); side.m_in=m if op=="resume" else None; side.first=h0.state=="fresh"; s.o.count("asm_instructions",len(m.trail)); con=short(im.fn)
            # memory of the resumer that the coroutine side is given by address
            store={k:v for k,v in st.store.items() if k[0]=="L"}
            res=[]
            for h2,outs,st2,info in s.entered(h,side,m,oc,store,con,does,info0):
                k=("H",len(s.hs)); s.hs[k]=(h2,info)
                st2=dict(st2); st2[k]=("n",Lin(0)); new=s.mem_words(h2); st2.update(new); mm=Mach(s.W,{},[],h2.facts,h2.regions)
                for q in st.store:
                    if q[0]=="mem" and q not in new and mm.region(q[1])=="C": st2[q]=("u",)      # whatever it was, the coroutine may have changed it
                res.append((outs,st2,h2.facts))
            return res
        res,I=s.mrun(root,args,h0.facts,s.self_store(h0),on_asm,glue=glue,escaped=escaped)
        for x in res:
            ks=[k for k in x.store if k[0]=="H"]
            if not ks: out.append((None,x,dict(info0))); continue
            h2,info=s.hs[ks[0]]; h2=h2.copy(); h2.self=x.store.get(("P","self")); h2.facts=x.facts
            out.append((h2,x,info))
        return out
    def entered(s,h,side,m,oc,store,con,does,info0):
        """control left the resumer's block"""
        how=h.hist[-1]
        if h.state=="fresh":
            a=oc[1] if oc[0]=="enter" else None
            ok=a is not None and h.func is not None and a[2]==h.func
            s.ob("C04","first-resume-enters-function",con,ok,lambda:"%s: the first resume does not reach the coroutine's entry function: %s"%(con,s.outcome(oc,m)))
            if not ok: return
            roles,body=s.roles(h.func); fn=short(s.P.I[h.func]["path"])
            want=[None]*body["argc"]
            want[roles["obj"]]=("closure",h.obj[0])
            s.entry_checks(h,m,a,fn,[x or ("?",None) for x in want])
            h.link=s.arg(m,roles["link"]); h.spe=m.get(s.a.sp); h.enc=back(s.W,s.arg(m,roles["value"])); h.instore=store
            h.entry_regs=dict(m.regs); h.entry_ret=s.retaddr(m)
            s.layout_checks(h,m,fn)
            for l in m.log: s.ob("C04","stores-known",fn,False,l)
            if s.win: s.teb_entered(h,m,fn)
            h.mem=m.mem; h.entry_store=s.mem_words(h)
            s.unwind_checks(h,m,side,"at the first entry of the coroutine")
            h.state="running"; h.entry_m=m
        elif h.state=="susp":
            if oc[0]=="enter" and info0["op"]!="resume" and s.asmunw: 
                yield from s.thrown(h,side,m,oc,store,con,does,info0); return
            ok=oc[0]=="exit" and oc[1] is h.y["side"].im
            s.ob("C03","resume-returns-to-suspend",con,ok,lambda:"%s: resuming a suspended coroutine does not return to its suspend: %s"%(con,s.outcome(oc,m)))
            if not ok: return
            s.check_return(m,h.y["side"],"being resumed")
            h.mem=m.mem
            youts=s.outs(m,h.y["side"].ev)
            if not s.link_is(h,m,side,con): pass
            s.unwind_checks(h,None,side,"after being resumed by another frame")
            cont=s.y_continue(h,youts,store)
            s.link_kept(h,m,cont)
            info0=dict(info0,cont=cont)
            h.state="running"
        else:
            s.ob("C02","no-switch-into-completed-coroutine",con,False,"%s switches into a coroutine that has completed"%con); return
        yield from s.act(h,side,does,info0)
    def short_path(s,con,a,b):
        """assembly executed by one resume and the suspend that answers it: no loop, no system call, no serialising instruction"""
        n=len(a.trail)+len(b.trail); s.o.count("switch_pairs"); s.ob("C21","few-instructions",con,n<=SWITCH_MAX,"a resume and the suspend that answers it execute %d instructions of assembly"%n)
        for t in a.trail+b.trail:
            mn=t.split(": ",1)[1].split()[0]
            s.ob("C21","few-instructions",con+"|cost",not COSTLY.match(mn),"the switch executes `%s`"%t.split(": ",1)[1])
    def predicted(s,con,ms,what,ret=None):
        """the switches' calls and returns, seen by a return address predictor, are paired"""
        st=[]; bad=None
        for m in ms:
            for k,v,t in m.hints:
                if k=="push": st.append(m.norm(v)); continue
                if not st: bad=bad or "`%s` consumes the prediction of a return further out"%t; continue
                p=st.pop()
                if m.norm(p-v).const()!=0: bad=bad or "`%s` goes to %s where the predictor expects %s"%(t,describe_pc(s.W,m.norm(v)),describe_pc(s.W,p))
        if ret is not None: 
            if not st: bad=bad or "the function is entered without a call that its return is paired with"
            else:
                p=st.pop()
                if ms[-1].norm(p-ret).const()!=0: bad=bad or "the function returns to %s where the predictor expects %s"%(describe_pc(s.W,ms[-1].norm(ret)),describe_pc(s.W,p))
        if st and not bad: bad="%d call(s) never paired with a return: %s"%(len(st),", ".join(describe_pc(s.W,p) for p in st))
        s.ob("C21","calls-and-returns-paired",con+"|"+what,bad is None,lambda:"%s, %s: %s"%(con,what,bad))
    def outcome(s,oc,m):
        d={"exit":"control ends up in %s"%(short(getattr(oc[1],"fn",oc[1].name)) if oc[0]=="exit" else ""),"trap":"it runs into a trap instruction","bad":str(oc[1])}.get(oc[0]) or "it enters %s"%short(oc[1][1])
        return d+" (last instructions: %s)"%"; ".join(x.split(": ",1)[1] for x in m.trail[-4:])
    def link_is(s,h,m,side,con):
        return True
    def y_continue(s,h,youts,store):
        """the suspended Rust frame continues with the values it was handed"""
        y=h.y
        def on_asm(I,st,ev):
            n=dict(store); n.update(s.time_passed(y["store"],h)); return [(youts,n,None)]
        res,_=s.mrun(s.R["suspend"],y["args"],h.facts,y["store"],on_asm,ctr0=y["ctr"])
        return [x for x in res if not any(e.k=="asm_unwind" for e in x.events())]     # no panic comes through a switch that resumes normally
    def time_passed(s,then,h):
        """what has become of the machine words that a frame saw when it gave up control"""
        now=s.mem_words(h)
        n={q:("u",) for q in then if q[0]=="mem" and q not in now}; n.update(now); return n
    def rust_writes(s,m,st):
        """words the Rust code stored between the last time user code ran and the switch"""
        ev=list(st.events()); u=max([i for i,e in enumerate(ev) if e.k=="user_call"],default=-1)
        for e in ev[u+1:]:
            if e.k=="write" and e.root[0]=="mem" and not e.path:
                ty=s.P.T[s.P.newtype_norm(e.ty)]; sz=s.P.size(e.ty)
                m.mem.append(("w",m.facts.norm(e.root[1]),sz,val_lin(s.W,e.val)))
    def link_kept(s,h,m,cont):
        """the rest of the pending suspend leaves the record of the resume that has just happened alone"""
        for c in cont:
            ev=list(c.events()); at=max([i for i,e in enumerate(ev) if e.k=="asm"],default=None)
            if at is None: continue
            for e in ev[at+1:]:
                if e.k!="write" or e.root[0]!="mem": continue
                d=c.facts.norm(e.root[1]-h.link).const()
                if d is None or abs(d)>=s.w: continue
                now=m.read(h.link); v=val_lin(s.W,e.val)
                ok=v is not None and not is_junk(v) and not is_junk(now) and d==0 and c.facts.norm(v-now).const()==0
                s.ob("C15","record-kept","suspend",ok,lambda:"after it has been resumed, suspend overwrites the record of that resume with %s"%fmt(v))
    def act(s,h,side,does,info0):
        """what the coroutine does next: yields histories"""
        if does=="yield": yield from s.do_yield(h,side,info0)
        elif does=="parent+yield":
            for h2 in s.do_parent(h,side): yield from s.do_yield(h2,side,info0)
        elif does=="complete": yield from s.do_complete(h,side,info0)
        elif does in("propagate","rethrow-other"):
            # the frames on the coroutine unwind with what surfaced at the pending suspend / with another
            # forced unwind that is passing through
            for c in info0.get("thrown") or info0.get("cont") or []:
                if c.status!="unwind": continue
                pay=c.inflight
                if does=="rethrow-other":
                    if pay[0]!="agg": continue
                    n=s.tok("other"); at=Lin.atom(("sym","stack_ptr:"+n)); pay=s.P.newbox(pay[1],("n",at),dict(pay[4])["boxty"][2])
                yield from s.do_complete(h,side,dict(info0,payload=pay,cause=c))
        elif does=="trap": yield from s.do_trap(h,side,info0)
    def user_time(s,h,side,y):
        """coroutine code runs: its stack below the entry, and the resumer's stack below what
        on_parent_stack may reach, become unknown"""
        h.mem.append(("havoc","C",None,h.spe,"the coroutine's stack below its entry frame, which its own code overwrites"))
        pl=h.plow if getattr(h,"plow",None) is not None else None
        if pl is not None: h.mem.append(("havoc","P:"+side.name,None,pl,"the part of the resumer's stack that on_parent_stack may use"))
        s.spatom(h,y,"C")
        h.facts=h.facts.add_ge(h.spe-Lin.atom(("sp",y))-s.w) or h.facts
        h.facts=h.facts.add_ge(Lin.atom(("sp",y))-(1<<20)) or h.facts
        if s.win: s.set_teb(h,y,("StackLimit","GuaranteedStackBytes","ExceptionList"))
    def teb_now(s,h,y):
        """TEB contents while the coroutine runs"""
        if not s.win: return None
        d={f:v for f,v in h.tebC.items()}
        for f in("StackLimit","GuaranteedStackBytes","ExceptionList"): d[f]=Lin.atom(("teb",y,f))
        return d
    def do_yield(s,h,side,info0):
        h=h.copy(); y=s.tok("Y"); s.user_time(h,side,y)
        val=("t","yield:"+y,s.argty(s.R["suspend"],"val")); args={"self":("n",h.link),"val":val}; c=s.ctr(); got=[]; st00=s.self_store(h)
        def on_asm(I,st,ev):
            h2=h.copy(); h2.facts=st.facts; im=s.W.block(ev); con=short(im.fn)
            s.block_rules(ev,im,"yield")
            m,_=s.mach(h2,y); m.load_block(im,ev.ops); s.rust_writes(m,st)
            ys=Side(y,ev,im,dict(m.regs),s.teb_now(h2,y))
            oc=s.go(m,im); s.o.count("asm_instructions",len(m.trail))
            ok=oc[0]=="exit" and oc[1] is side.im
            s.ob("C15","suspend-returns-to-resumer",con,ok,lambda:"%s: suspend does not return to the frame that resumed most recently (%s): %s"%(con,short(side.im.fn),s.outcome(oc,m)))
            if ok:
                s.check_return(m,side,"a suspend")
                if side.m_in: s.short_path(con,side.m_in,m); s.predicted(con,[side.m_in,m],"%s, then suspend"%("first resume" if side.first else "resume"))
                h2.mem=m.mem; h2.state="susp"; h2.hist=h.hist+["suspend"]; h2.y=dict(side=ys,args=args,ctr=c,store=st00)
                s.spcheck(h2,m,con)
                got.append((h2,s.outs(m,side.ev),{k:v for k,v in st.store.items() if k[0]=="L"},dict(info0,sent=val,kind="yield",y=y)))
            return []
        s.mrun(s.R["suspend"],args,h.facts,st00,on_asm,ctr0=c)
        yield from got
    def spcheck(s,h,m,con): pass
    def do_complete(s,h,side,info0):
        """the entry function's user closure returns or panics"""
        h=h.copy(); z=s.tok("Z"); s.user_time(h,side,z); roles,body=s.roles(h.func)
        nm={}
        for n,p in body["names"]:
            if not p[1] and 1<=p[0]<=body["argc"]: nm.setdefault(p[0]-1,n)
        args={nm.get(roles["value"],"arg%d"%(roles["value"]+1)):h.enc,nm.get(roles["link"],"arg%d"%(roles["link"]+1)):("n",h.link),nm.get(roles["obj"],"arg%d"%(roles["obj"]+1)):("n",h.obj[0])}
        # the entry function reads memory as it was when it was entered until the closure has run
        st0=dict(h.entry_store); st0.update(h.instore); st0.update(h.base_store)
        n={q:v for q,v in s.time_passed(h.entry_store,h).items() if q not in h.base_store}
        res,_=s.mrun(h.func,args,h.facts,st0,None,payload=info0.get("payload"),user_ran=lambda I,st,e: st.store.update(n))
        yield from s.finish(h,side,res,z,dict(info0,fn=short(s.P.I[h.func]["path"])))
    def finish(s,h,side,res,z,info0):
        fn=info0["fn"]
        info0=dict(info0,paths=res)
        for x in res:
            if x.status!="noreturn":
                s.ended.append((x,info0)); continue
            ev=[e for e in x.events() if e.k=="asm"][-1]
            h2=h.copy(); h2.facts=x.facts; im=s.W.block(ev); con=short(im.fn)
            s.block_rules(ev,im,"reset")
            m,_=s.mach(h2,z); m.load_block(im,ev.ops); s.rust_writes(m,x); oc=s.go(m,im); s.o.count("asm_instructions",len(m.trail))
            ok=oc[0]=="exit" and oc[1] is side.im
            s.ob(("C15","C11") if info0.get("trap") else "C15","completion-returns-to-resumer",con,ok,lambda:"%s: completion does not return to the frame that resumed most recently (%s): %s"%(con,short(side.im.fn),s.outcome(oc,m)))
            if not ok: continue
            s.check_return(m,side,"completion")
            if side.m_in and not info0.get("trap"): s.predicted(con,[side.m_in,m],"%s, then completion"%("first resume" if side.first else "resume"))
            h2.mem=m.mem; h2.state="done"; h2.hist=h.hist+["complete"]; h2.y=None; h2.tebZ=s.teb_now(h2,z) if s.win else None
            calls=[e for e in x.events() if e.k=="user_call"]
            yield (h2,s.outs(m,side.ev),{k:v for k,v in x.store.items() if k[0]=="L"},dict(info0,kind="complete",path=x,calls=calls))
    # ------------------------------------------------------------ layout of a fresh stack
    def eq(s,f,a,b): return f.norm(a-b).const()==0
    def layout_checks(s,h,m,fn):
        base=h.base; f=m.facts; n=0
        for e in m.mem:
            if e[0]!="w" or m.region(e[1])!="C": continue
            n+=1; lo,size=e[1],(e[2] if isinstance(e[2],Lin) else Lin(e[2]))
            what="the closure" if h.obj and s.eq(f,lo,h.obj[0]) and not isinstance(e[2],int) else "a word"
            s.ob("C04","writes-inside-stack",fn+"|"+what,f.nonneg(base-lo-size),lambda:"%s is written at %s (size %s), beyond the base of the stack"%(what,fmt(lo),fmt(size)))
            s.ob("C04","writes-inside-stack",fn+"|"+what+" (low)",f.nonneg(lo-base+s.minstack),lambda:"%s is written at %s, which can be below the limit of a stack of the minimum size"%(what,fmt(lo)))
        s.o.count("stack_writes",n)
        if h.obj:
            o,sz=h.obj[0],(h.obj[1] if isinstance(h.obj[1],Lin) else Lin(h.obj[1]))
            al=h.obj[2]; ala=al["align"] if isinstance(al.get("align"),int) and "align" in al else None
            s.ob("C04","closure-aligned",fn,s.aligned(f,o,al),lambda:"the closure is stored at %s, which is not a multiple of its alignment in every case"%fmt(o))
            for ad,n in m.wrote:
                if m.region(ad)!="C": continue
                s.ob("C04","closure-not-overwritten",fn,m.disj(ad,n,o,sz),lambda:"preparing the stack writes %s, which may overlap the closure stored at %s"%(fmt(ad),fmt(o)))
            s.ob("C04","closure-above-stack-pointer",fn,f.nonneg(o-h.spe-(s.a.ret_pop if s.a.ra is None else 0)),lambda:"the entry function starts with stack pointer %s although the closure lives at %s: its frames overwrite it"%(fmt(h.spe),fmt(o)))
        s.ob("C15","link-above-entry-frame",fn,f.nonneg(h.link-h.spe) ,lambda:"the link record %s is below the entry stack pointer %s: coroutine code overwrites it"%(fmt(h.link),fmt(h.spe)))
        s.ob("C04","usable-space-left",fn,f.nonneg(h.spe-base+s.minstack-1024),lambda:"after preparation the stack pointer is %s: less than 1 KiB of a minimum-size stack is left"%fmt(h.spe))
        d=f.norm(h.link-base).const()
        s.ob("C15","link-at-fixed-place",fn,d is not None,lambda:"the link record is at %s, which is not a fixed distance from the stack base"%fmt(h.link))
        s.links=getattr(s,"links",set()); s.links.add(d)
        s.ob("C15","link-at-fixed-place",fn+" (same in all layouts)",len(s.links)==1,lambda:"the link record is at different distances from the base: %s"%sorted(s.links,key=str))
    def aligned(s,f,o,ty):
        if ty.get("align"): return f.multiple(f.norm(o),ty["align"])
        a=("align",ty["s"])
        # in a class of layouts where the alignment is bounded by a constant, a multiple of that bound will do
        e=f.norm(o)
        for k in(1,2,4,8,16,32,64):
            if f.nonneg(Lin(k)-Lin.atom(a)) and f.multiple(e,k): return True
        al=Lin.atom(a)
        r=e
        # o = align_down(x, align)
        return len(e.t)==1 and e.c==0 and e.t[0][0][0]=="adown" and e.t[0][0][2]==al
    # ------------------------------------------------------------ Windows thread information block
    def teb_fields(s,tok): return {f:Lin.atom(("sym",tok[1]+"."+f)) for f in("StackBase","StackLimit","DeallocationStack","GuaranteedStackBytes")}
    def teb_entered(s,h,m,fn):
        h.tebC={}
        if not h.teb: s.ob("C17","teb-of-new-stack",fn,False,"the bounds of the new stack are never asked for"); want={}
        else: want=s.teb_fields(h.teb)
        s.teb_check("C17","teb-of-new-stack",fn,m,want)
        for f,off in s.TEB.items(): h.tebC[f]=m.read(Lin.atom(("teb",))+off)
        if s.w==4:
            v=h.tebC["ExceptionList"]; ok=not is_junk(v) and (v.const()==-1 or m.region(v)=="C")
            s.ob("C17","teb-of-new-stack",fn+"|ExceptionList",ok,lambda:"on entry the exception list is %s, which belongs to another stack"%fmt(v))
    # ------------------------------------------------------------ unwinding out of a stack
    def unwinders(s):
        a=s.a; t=a.target
        if a.win: return ["seh"] if a.w==8 else (["dwarf"] if t.endswith("gnu") else [])
        if a.fam=="arm" and "apple" not in t: return ["ehabi","dwarf"]
        return ["dwarf"]
    def unwind(s,h,m,regs,pc,side,when,who):
        """an unwinder has reached return address pc with the given callee-saved registers"""
        import unwind as U
        a=s.a; m=m.copy(); m.direct=True; con=who
        c=m.resolve(m.norm(pc))
        ok=c is not None and c[0]=="code" and c[1]=="global_asm"
        s.ob("C12","bottom-return-address",con,ok,lambda:"%s: the return address of the bottom frame is %s, not a place with unwind information"%(when,fmt(pc)))
        if not ok: return
        im=s.W.glob; pos=c[2]; keep=set(a.callee)|{a.fp}
        base={r:(m.norm(regs[r]) if r in keep or r==a.sp else junk("%s is not preserved by calls"%r)) for r in a.gpr}
        dec=s.declared(side.ev)
        for kind in s.unwinders():
          try:
            if kind=="dwarf":
                I=U.dwarf(a,im,pos-1)
                sig=bool(I and I.signal); spots=[pos-1]+([pos] if sig else [])
            else: spots=[pos]; sig=False
            for p in spots:
                info={"dwarf":U.dwarf,"ehabi":U.ehabi,"seh":U.seh}[kind](a,im,p)
                s.ob("C12","covered",con+"|"+kind,info is not None,lambda:"%s: no %s unwind information covers the return address of the bottom frame (instruction %d of the trampolines)"%(when,kind,p))
                if info is None: continue
                n,rpc={"dwarf":U.step_dwarf,"ehabi":U.step_ehabi,"seh":U.step_seh}[kind](a,info,base,m.read)
                s.o.count("unwind_steps")
                s.recovered(m,side,n,rpc,dec,kind,when,con,sig)
          except U.Malformed as e: s.ob("C12","well-formed",con+"|"+kind,False,"%s: the %s information in force at the return address of the bottom frame cannot be read: %s"%(when,kind,e))
          else: s.ob("C12","well-formed",con+"|"+kind,True,"")
        # frame pointers
        if a.win and a.w==8: return
        ch=U.fp_chain(a,base[a.fp],m.read)
        ok=any(s.eq(m.facts,f,side.regs[a.fp]) and s.in_block(m,r,side.im) is not None for f,r in ch)
        s.ob("C12","frame-pointer-chain",con,ok,lambda:"%s: following frame pointers from %s gives %s, which never reaches the resumer"%(when,fmt(base[a.fp]),"; ".join("(%s, %s)"%(fmt(f),fmt(r)) for f,r in ch)))
    def in_block(s,m,pc,im):
        if pc is None or is_junk(pc): return None
        m.direct=True; c=m.resolve(m.norm(pc))
        return c[2] if c and c[0]=="code" and c[1]==im.name else None
    def args_reset(s,side,pos,when,prop):
        """a panic that unwinds into an asm! block must not have the landing pad pop arguments of the enclosing function"""
        if s.a.fam!="x86" or pos is None or "may_unwind" not in side.ev.t["opts"] or s.win and s.a.w==8 or not(s.unwinders() and "dwarf" in s.unwinders()): return
        d=[t for i,t in side.im.dirs if i<=pos-1 and re.match(r"\.cfi_escape\s+(0x2e|46)\s*,",t)]
        ok=bool(d) and bool(re.search(r",\s*(0x0+|0)$",d[-1].strip()))
        s.ob(prop,"no-pending-arguments",short(side.im.fn),ok,lambda:"%s: a panic enters %s without DW_CFA_GNU_args_size 0: the landing pad would pop arguments pending in the function it is inlined in"%(when,short(side.im.fn)))
    def recovered(s,m,side,n,rpc,dec,kind,when,con,sig):
        a=s.a; pos=s.in_block(m,rpc,side.im)
        s.ob("C12","return-address",con+"|"+kind,pos is not None and pos>0,lambda:"%s: %s information recovers the return address %s instead of the one in %s"%(when,kind,fmt(rpc),short(side.im.fn)))
        if pos is not None and sig:
            s.ob("C12","return-address-inside-block",short(side.im.fn),pos<len(side.im.ins),lambda:"%s: the return address is at the very end of the asm! block, but the trampoline is marked as a signal frame, so unwinders look at the instruction after it"%short(side.im.fn))
        if kind=="dwarf":
            ap="apple" in a.target      # Darwin's unwinder refuses signal frames; everyone else's debuggers stop when the stack goes backwards
            s.ob("C12","change-of-stack-is-marked",con+"|"+kind,sig!=ap,lambda:"%s: the trampoline's frame is %smarked as a signal frame: %s"%(when,"" if sig else "not ","Darwin's unwinder stops there" if ap else "debuggers take the change of stack for a corrupt backtrace"))
            s.args_reset(side,pos,when,"C12")
        ok=s.eq(m.facts,n[a.sp],side.regs[a.sp])
        s.ob("C12","stack-pointer",con+"|"+kind,ok,lambda:"%s: %s information recovers the stack pointer as %s instead of %s"%(when,kind,fmt(n[a.sp]),fmt(side.regs[a.sp])))
        for r in sorted(set(a.callee)|{a.fp}):
            if r in dec or r==a.sp: continue
            s.ob("C12","register",con+"|"+kind+"|"+r,s.eq(m.facts,n[r],side.regs[r]),lambda:"%s: %s information recovers %s as %s instead of %s"%(when,kind,r,fmt(n[r]),fmt(side.regs[r])))
    def unwind_checks(s,h,m,side,when):
        """unwinding from the coroutine's entry function"""
        if m is not None: h.ureg=dict(m.regs); h.ureg[s.a.sp]=m.get(s.a.sp)+s.a.ret_pop; h.upc=s.retaddr(m)
        mm,_=s.mach(h,"u")
        mm.mem=m.mem if m is not None else h.mem
        s.unwind(h,mm,h.ureg,h.upc,side,when,"bottom of a coroutine")
    # ------------------------------------------------------------ running a closure on another stack
    def abi_return(s,m,regs0):
        """the Rust function entered with registers regs0 returns"""
        a=s.a; m.direct=True
        ra=s.retaddr(m); sp=m.get(a.sp)+a.ret_pop
        for r in a.gpr:
            if r in a.callee or r in a.reserved or r==a.fp: m.regs[r]=regs0[r]
            else: m.regs[r]=junk("%s is not preserved by calls"%r)
        m.regs[a.sp]=sp
        c=m.resolve(m.norm(ra))
        return c
    def run_on(s,h,ctx,root,args,region,base,what,extra_store=None,side=None):
        """runs `root` (on_stack or on_parent_stack) in context ctx; the closure must run on the stack `region`
        below `base`.  -> [(history after, final state, wrapper paths)]"""
        a=s.a; got={}; s.mark=getattr(s,"mark",0)
        def on_asm(I,st,ev):
            h2=h.copy(); h2.facts=st.facts; im=s.W.block(ev); con=short(im.fn)
            s.block_rules(ev,im,"call")
            h2.mem=list(h2.mem); pre=[]
            for e in st.events():
                if e.k=="write" and e.root[0]=="mem" and not e.path:      # words the Rust side put on the new stack
                    ty=s.P.T[s.P.newtype_norm(e.ty)]; sz=s.P.size(e.ty)
                    pre.append(("w",h2.facts.norm(e.root[1]),sz,val_lin(s.W,e.val)))
            m,_=s.mach(h2,ctx); m.load_block(im,ev.ops)
            for w in pre:
                if m.region(w[1])==region: m.mem.append(w)
            teb=s.teb_now(h2,ctx) if s.win and ctx[0]!="R" else {f:Lin.atom(("teb",ctx,f)) for f in s.TEB} if s.win else None
            me=Side(ctx,ev,im,dict(m.regs),teb)
            oc=s.go(m,im); s.o.count("asm_instructions",len(m.trail))
            ok=oc[0]=="enter"
            s.ob("C14","closure-entered",con+"|"+what,ok,lambda:"%s does not reach the function that runs the closure: %s"%(con,s.outcome(oc,m)))
            if not ok: return []
            at=oc[1]; wi=at[2]; fn=short(s.P.I[wi]["path"])+" ("+what+")"
            for l in m.log: s.ob("C14","stores-known",fn,False,l)
            k=m.get(a.sp)+a.entry_bias
            s.ob("C14","entry-stack-aligned",fn,m.facts.multiple(m.norm(k),a.sp_align),lambda:"%s is entered with stack pointer %s: not aligned for a call"%(fn,fmt(m.get(a.sp))))
            top=m.norm(m.get(a.sp)+a.ret_pop)
            onit=m.region(top)==region and m.facts.nonneg(base-top) and m.facts.nonneg(top-base+(256 if side is not None else 64))
            s.ob("C14" if side is None else ("C14","C15"),"runs-on-requested-stack",fn,onit,lambda:"%s runs with stack pointer %s, not at the top of the requested stack %s"%(fn,fmt(top),fmt(base)))
            if not onit: return []
            s.low_writes(h2,m,side,fn)
            if s.win: s.teb_on(h2,m,fn,what,st,side)
            s.unwind(h2,m,{**m.regs,a.sp:top},s.retaddr(m),me,"while a closure runs through "+what.split(",")[0],"on_stack frame, "+what)
            regs0=dict(m.regs); ptr=s.arg(m,0)
            m.havoc(region,None,top-a.ret_pop,"the stack below the frame that runs the closure")
            m.havoc(region,top-a.ret_pop,top,"the return address slot") if a.ret_pop else None
            wm=mir.Interp(s.P)
            b=s.P.I[wi]["body"]; nm=[n for n,p in b["names"] if p[0]==1 and not p[1]]
            ra=s.retaddr_before=None
            store={k:v for k,v in st.store.items() if k[0]=="L"}
            if extra_store: store.update(extra_store)
            res,_=s.mrun(wi,{nm[0] if nm else "arg1":("n",ptr) if not ptr.single() in s.W.back else back(s.W,ptr)},m.facts,store,None)
            out=[]; wteb=s.tok("W") if s.win else None
            for x in res:
                if x.status=="unwind":
                    u=(x.facts,{q:v for q,v in x.store.items() if q[0]=="L" and q in store})
                    if not any(o[1]==u[1] for o in ev.setdefault("unw",[])): ev["unw"].append(u)
                if x.status!="return": 
                    s.mark+=1; got.setdefault("other",[]).append(x); continue
                m2=m.copy(); m2.facts=x.facts; m2.mem=list(m.mem)
                mm=m.copy(); mm.mem=m.mem[:-(2 if a.ret_pop else 1)]; mm.regs=dict(regs0)
                if s.win:
                    for f in("StackLimit","GuaranteedStackBytes"): m2.mem.append(("w",Lin.atom(("teb",))+s.TEB[f],s.w,Lin.atom(("teb",wteb,f))))
                c=s.abi_return(mm,regs0); m2.regs=mm.regs; m2.wroteregs=set(m.wroteregs); m2.phany=set()
                if not c or c[0]!="code":
                    s.ob("C14","returns-to-caller",fn,False,"%s returns to %s"%(fn,fmt(s.retaddr(mm)))); continue
                oc=m2.run(s.W.images[c[1]],c[2])
                ok=oc[0]=="exit" and oc[1] is im
                s.ob("C14","returns-to-caller",fn,ok,lambda:"after the closure, control does not come back to %s: %s"%(con,s.outcome(oc,m2)))
                if not ok: continue
                s.check_return(m2,me,"the closure returned")
                h3=h2.copy(); h3.mem=m2.mem; h3.facts=x.facts; h3.plow=top if side is not None else getattr(h,"plow",None)
                h3.wteb=wteb; h3.mark=None
                k=("W",len(got)); got[k]=(h3,x,wi); 
                st2={q:v for q,v in x.store.items() if q[0]=="L"}; st2[k]=("n",Lin(0))
                st2.update({q:v for q,v in s.self_store(h3).items() if q[0]=="mem"})
                out.append((s.outs(m2,ev),st2,x.facts))
            return out
        st0=s.self_store(h); st0.update(extra_store or {})
        res,_=s.mrun(s.R[root],args,h.facts,st0,on_asm)
        out=[]
        for x in res:
            ks=[k for k in x.store if k[0]=="W"]
            if ks: h3,w,wi=got[ks[-1]]; h3=h3.copy(); h3.facts=x.facts
            else: h3=w=None
            out.append((h3,x,w))
        return out,got.get("other",[])
    def low_writes(s,h,m,side,fn):
        if side is None: return
        reg="P:"+side.name; n0=len(h.mem)
        ctx=[e for e in h.mem if e[0]=="w" and m.region(e[1])==reg]
        for e in m.mem[n0:]:
            if e[0]!="w" or m.region(e[1])!=reg: continue
            ok=m.facts.nonneg(side.regs[s.a.sp]-e[1]-e[2]) and all(m.facts.nonneg(c[1]-e[1]-e[2]) for c in ctx)
            s.ob("C14","below-resumer-frames",fn,ok,lambda:"on_parent_stack writes %s, which the suspended resumer has in use"%fmt(e[1]))
        top=m.norm(m.get(s.a.sp)+s.a.ret_pop)
        ok=all(m.facts.nonneg(c[1]-top) for c in ctx) and m.facts.nonneg(side.regs[s.a.sp]-top)
        s.ob("C14","below-resumer-frames",fn,ok,lambda:"the closure runs with its stack at %s, above words the suspended resumer has in use"%fmt(top))
    def teb_on(s,h,m,fn,what,st,side):
        if side is not None: want={f:Lin.atom(("teb",side.name,f)) for f in("StackBase","StackLimit","DeallocationStack","GuaranteedStackBytes")}
        else:
            ev=[e for e in st.events() if e.k=="stack_call" and e.name=="teb_fields"]
            want=s.teb_fields(ev[-1].ret) if ev else {}
            s.ob("C17","teb-of-new-stack",fn+"|asked",bool(ev),"on_stack never asks the new stack for its bounds")
        s.teb_check("C17","teb-of-new-stack",fn,m,want)
        if s.w==4:
            v=m.read(Lin.atom(("teb",))+s.TEB["ExceptionList"]); 
            ok=not is_junk(v) and (v.const()==-1 or m.region(v)==m.region(m.get(s.a.sp)) or v==Lin.atom(("teb",side.name if side else "","ExceptionList")))
            s.ob("C17","teb-of-new-stack",fn+"|ExceptionList",ok,lambda:"%s runs with exception list %s of another stack"%(fn,fmt(v)))
    def value_checks(s,res,others,ftok,what):
        """C14/C01/C07 on the results of on_stack / on_parent_stack"""
        n=0
        for h3,x,w in res:
            ran=[e for e in x.events() if e.k=="user_call"]
            s.ob("C14","runs-on-requested-stack",what,not ran,"%s calls the closure on the stack it is called on"%what)
            if w is None:
                if not ran and not any(e.k=="asm_unwind" for e in x.events()): s.ob("C14","closure-runs-once",what,x.status!="return","%s returns without having run the closure"%what)
                continue
            calls=[e for e in w.events() if e.k=="user_call"]
            fn=what
            s.ob("C14","closure-runs-once",fn,len(calls)==1,lambda:"the closure runs %d times"%len(calls))
            if len(calls)!=1: continue
            c=calls[0]; callee=s.callee(c)
            s.ob("C14","right-closure",fn,callee is not None and callee[:2]==ftok[:2],lambda:"the function called is %s, not the closure passed in"%(callee,))
            s.ob("C01","closure-arrives",fn,callee is not None and callee[:2]==ftok[:2],lambda:"%s runs %s instead of the closure it was given"%(what,callee))
            pan=[e for e in w.events() if e.k=="catch_end" and not e.ok]
            ud=any(e.k=="panic" and str(e.what)=="user drop" for e in x.events())    # the owner of the stack may itself panic
            if ud: s.ob("C14","result-returned",fn+"|stack destructor panics",x.status in("unwind","abort"),lambda:"%s %s although the stack's destructor panicked"%(what,x.status))
            elif not pan:
                ok=x.status=="return" and x.ret[:2]==(c.ret or("?",))[:2]
                s.ob("C14","result-returned",fn,ok,lambda:"%s ends with %s %s instead of returning the closure's result"%(what,x.status,x.ret)); n+=ok
                s.ob("C01","result-arrives",fn,ok,lambda:"%s ends with %s %s instead of the closure's result"%(what,x.status,x.ret))
            else:
                ok=x.status=="unwind" and x.inflight==pan[-1].payload
                s.ob("C07","payload-reraised",fn,ok,lambda:"a panic of the closure given to %s ends as %s with %s instead of being re-raised with its payload"%(what,x.status,x.inflight))
            s.once(x,w,ftok,c,what)
        s.ob("C14","can-return",what,n>0,"no path of %s returns the closure's result"%what)
    def callee(s,c):
        v=c.get("callee") or (c.args[0] if c.args else None)
        while v and v[0]=="agg" and v[4]: v=v[4][0][1]
        return v
    def once(s,x,w,ftok,c,what): pass
    def do_parent(s,h,side):
        h=h.copy(); y=s.tok("Y"); s.user_time(h,side,y)
        f=("t","pf:"+y,s.argty(s.R["on_parent_stack"],"f")); what="on_parent_stack"
        base=s.slot_ctx(h)
        args={"self":("n",h.link),"f":f}
        res,oth=s.run_on(h,y,"on_parent_stack",args,"P:"+side.name,side.regs[s.a.sp],"on_parent_stack",{k:v for k,v in h.instore.items()},side=side)
        s.value_checks(res,oth,f,what)
        for h3,x,w in res:
            if h3 is None or x.status!="return": continue
            h3=h3.copy(); h3.hist=h.hist+["on_parent_stack"]
            if s.win:
                for fl in("StackLimit","GuaranteedStackBytes"): side.teb=dict(side.teb); side.teb[fl]=Lin.atom(("teb",h3.wteb,fl))
                for e in x.events():
                    if e.k=="write" and e.root[0]=="mem" and not e.path: h3.mem.append(("w",e.root[1],s.w,val_lin(s.W,e.val)))
            yield h3; return
    def slot_ctx(s,h):
        m,_=s.mach(h,"q"); return m.read(h.link)
    # ------------------------------------------------------------ trap handlers
    def do_trap(s,h,side,info0):
        h=h.copy(); z=s.tok("T"); s.user_time(h,side,z); a=s.a
        tr,_=s.mrun(s.R["trap_handler"],{"self":s.SELF},h.facts,s.self_store(h),None)
        tr=[x for x in tr if x.status=="return"]
        for t in tr:
            f=("t","tf:"+z,s.argty(s.R["setup"],"f")); st=s.self_store(h); st[("P","th")]=t.ret
            res,_=s.mrun(s.R["setup"],{"self":("n",Lin.atom(("addr",("P","th"),()))),"f":f},t.facts,st,None)
            for x in res:
                if x.status!="return": continue
                h2=h.copy(); h2.facts=x.facts; obj=None; con="setup_trap_handler"
                for e in x.events():
                    if e.k=="write" and e.root[0]=="mem" and not e.path:
                        ty=s.P.T[s.P.newtype_norm(e.ty)]; size=s.P.size(e.ty)
                        ad=h2.facts.norm(e.root[1])
                        h2.mem.append(("w",ad,size,val_lin(s.W,e.val)))
                        lo,sz=ad,size if isinstance(size,Lin) else Lin(size)
                        s.ob("C11","writes-inside-stack",con,h2.facts.nonneg(h.base-lo-sz) and h2.facts.nonneg(lo-h.base+s.minstack),lambda:"%s writes at %s (size %s), not inside the stack"%(con,fmt(lo),fmt(sz)))
                        if e.val[:2]==f[:2]: obj=(ad,sz,ty)
                s.ob("C11","closure-stored",con,obj is not None,"the closure is never stored on the stack")
                if obj is None: continue
                m,init=s.mach(h2,z); pc=None; flags={}
                names=s.fields(x.ret)
                for nm,v in names.items():
                    l=val_lin(s.W,v) if v[0]!="b" else None
                    if nm in("pc","rip","eip"): pc=l
                    elif nm.startswith("cpsr"): flags[nm]=v
                    elif nm in a.names and ":" not in a.names[nm]: m.regs[a.names[nm]]=m.norm(l)
                    elif "$"+nm in a.names: m.regs[a.names["$"+nm]]=m.norm(l)
                    else: s.ob("C11","known-register",con,False,"field %s of TrapHandlerRegs is no register"%nm)
                m.phany=set(); m.wroteregs=set(); 
                tgt=s.pc_target(m,pc,flags,x)
                if tgt and tgt[0]=="code": tgt=s.go(m,s.W.images[tgt[1]],tgt[2])
                ok=tgt is not None and tgt[0]=="enter"
                s.ob("C11","handler-entered",con,ok,lambda:"the program counter in TrapHandlerRegs is %s, not the handler"%fmt(pc))
                if not ok: continue
                hi=tgt[1][2]; roles,body=s.roles(hi); fn=short(s.P.I[hi]["path"])
                want=[("?",None)]*body["argc"]
                if "obj" in roles: want[roles["obj"]]=("closure",obj[0])
                if "link" in roles: want[roles["link"]]=("parent link",h.link)
                s.entry_checks(h2,m,tgt[1],fn,want,prop="C11")
                spv=m.get(a.sp)
                s.ob("C11","closure-above-stack-pointer",fn,m.facts.nonneg(obj[0]-spv-(a.ret_pop if a.ra is None else 0)) ,lambda:"the handler runs with stack pointer %s although its closure is at %s"%(fmt(spv),fmt(obj[0])))
                s.ob("C11","closure-aligned",fn,s.aligned(m.facts,obj[0],obj[2]),lambda:"the closure is stored at %s, which is not always aligned for it"%fmt(obj[0]))
                s.ob("C11","on-coroutine-stack",fn,m.region(spv)=="C" and m.facts.nonneg(h.base-spv) and m.facts.nonneg(spv-h.base+s.minstack-1024),lambda:"the handler runs with stack pointer %s, not near the top of the coroutine's stack"%fmt(spv))
                for ad,n in [(e[1],e[2]) for e in h2.mem[len(h.mem):] if e[0]=="w"]:
                    s.ob(("C11","C15"),"trap-setup-keeps-link",fn,m.disj(ad,n,h.link,s.w),lambda:"setting up a trap handler writes %s, which may overlap the link to the resumer at %s"%(fmt(ad),fmt(h.link)))
                s.unwind(h2,m,{**m.regs,a.sp:spv+a.ret_pop},s.retaddr(m),side,"inside a trap handler","bottom of a trap handler")
                st0={k:v for k,v in h.instore.items()}; st0[("mem",obj[0])]=f
                nm={}
                for n,p in body["names"]:
                    if not p[1] and 1<=p[0]<=body["argc"]: nm.setdefault(p[0]-1,n)
                args={nm.get(i,"arg%d"%(i+1)):(("n",obj[0]) if r=="obj" else ("n",h.link)) for r,i in roles.items() if r in("obj","link")}
                h2.mem.append(("havoc","C",None,spv,"the stack below the trap handler's entry"))
                r2,_=s.mrun(hi,args,h2.facts,st0,None)
                yield from s.finish(h2,side,r2,z,dict(info0,fn=fn,ftok=f,trap=True))
    def fields(s,v):
        t=s.P.T[v[1]]; fs=t["variants"][0]["fields"]
        return {fs[i]["name"] if isinstance(fs[i],dict) else fs[i][0]:x for i,x in v[4]}
    def pc_target(s,m,pc,flags,x):
        a=s.a
        if pc is None: return None
        if flags:
            # arm: bit 0 of the function pointer goes to CPSR.T
            for k in pc.atoms():
                q=None
                if k[0]=="q" and k[2]==2 and m.norm(pc-Lin.atom(k)*2).const()==0: q=k[1].single()
                if k[0]=="adown" and k[2].const()==2 and m.norm(pc-Lin.atom(k)).const()==0: q=k[1].single()
                if q:
                    s.cpsr(m,flags,m.norm(Lin.atom(q)-pc))
                    m.direct=True
                    return m.resolve(Lin.atom(q))
        m.direct=not a.thumb
        return m.resolve(m.norm(pc))
    def cpsr(s,m,flags,bit):
        """the status register bits that select the instruction set and the byte order of the handler"""
        def may(f,v,want):
            if v[0]=="n": v=("b","ne",v[1])
            if v[0]!="b": return True
            k,e=v[1],v[2]
            if k=="ge": return (f.add_ge(e) if want else f.add_ge(-e-1)) is not None
            return (f.add_eq(e) if (k=="eq")==want else f.add_ne(e)) is not None
        con="TrapHandlerRegs"
        for n,v in flags.items():
            if "thumb" in n:
                for thumb in(0,1):
                    f=m.facts.add_eq(bit-thumb)
                    if f is not None: s.ob("C11","handler-instruction-set",con+"|%d"%thumb,not may(f,v,not thumb),"%s may be %s although bit 0 of the handler's address is %d"%(n,"false" if thumb else "true",thumb))
            elif "endian" in n:
                s.ob("C11","handler-byte-order",con,not may(m.facts,v,True),"%s does not say that the target is %s-endian"%(n,"little"))
    # ------------------------------------------------------------ forced unwinding by throwing on the coroutine's stack
    def thrown(s,h,side,m,oc,store,con,does,info0):
        a=s.a; Y=h.y["side"]; m.direct=True
        fn=short(oc[1][1]); dec=s.declared(Y.ev)
        k=m.get(a.sp)+a.entry_bias
        # the compiler keeps the stack aligned at every asm! block that may use it
        ysp=m.facts.multiple(m.norm(k-Y.regs[a.sp]),a.sp_align)
        s.ob("C06","throw-stack-aligned",con,ysp,lambda:"%s is entered with stack pointer %s, misaligned relative to the suspended frame"%(fn,fmt(m.get(a.sp))))
        ra=s.retaddr(m); pos=s.in_block(m,ra,Y.im)
        s.ob("C06","throws-from-suspend",con,pos is not None and pos>0,lambda:"%s looks as if it was called from %s instead of the pending suspend"%(fn,fmt(ra)))
        if "dwarf" in s.unwinders(): s.args_reset(Y,pos,"forced unwind","C06")
        sp=m.norm(m.get(a.sp)+a.ret_pop)
        s.ob("C06","throw-stack-pointer",con,s.eq(m.facts,sp,Y.regs[a.sp]),lambda:"the frame of the pending suspend is given stack pointer %s instead of %s"%(fmt(sp),fmt(Y.regs[a.sp])))
        for r in sorted(set(a.callee)|{a.fp}):
            if r in dec: continue
            s.ob("C06","throw-register",con+"|"+r,s.eq(m.facts,m.get(r),Y.regs[r]),lambda:"when the pending suspend is unwound, %s is %s instead of %s"%(r,fmt(m.get(r)),fmt(Y.regs[r])))
        if s.win and Y.teb: s.teb_check("C17","teb-restored",con+"|a forced unwind",m,Y.teb)
        ti=oc[1][2]; b=s.P.I[ti]["body"]; nm=[n for n,p in b["names"] if p[0]==1 and not p[1]]
        st0=dict(store)
        res,_=s.mrun(ti,{nm[0] if nm else "arg1":back(s.W,s.arg(m,0))},m.facts,st0,None)
        h.mem=m.mem; h.state="running"
        s.unwind_checks(h,None,side,"after a forced unwind was injected by another frame")
        info0=dict(info0,thrown=res)
        yield from s.act(h,side,does,info0)
    def tyid(s,name):
        for t in s.P.T.values():
            if t["k"]=="param" and t["s"]==name: return t["id"]
        raise Miss("type parameter "+name)
def fmt(v):
    if v is None: return "nothing"
    r=repr(v)
    if is_junk(v):
        return "an unknown value (%s)"%next(a[1].split("#")[0] for a in v.atoms() if a[0]=="junk")
    return r if len(r)<160 else r[:157]+"..."
