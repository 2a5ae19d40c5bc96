"""Rules over the joint analysis (cosim) of one configuration.

Every public operation is analysed from every state a coroutine can be in, followed by everything the
coroutine can do next; the rules below judge the final abstract states.  Obligations are named
"Cnn:rule"; each check keeps the ones of its property.
"""
import os, re
import mir, cosim, asm, surface
from cosim import Sim, short
from lin import Lin
from asm import Unsupported
def toks(v,out=None):
    """names of the opaque values inside v"""
    out=[] if out is None else out
    if not isinstance(v,tuple) or not v: return out
    if v[0]=="t": out.append(v[1])
    elif v[0]=="agg":
        for _,x in v[4]: toks(x,out)
        if v[3] is not None: toks(v[3],out)
    elif v[0]=="pun": toks(v[2],out)
    return out
def same(a,b): return bool(a) and bool(b) and a[0]=="t" and a[:2]==b[:2]
class Rules:
    def __init__(s,P,o):
        s.P=P; s.o=o; s.S=Sim(P,o); s.f=P.features; s.win=P.windows
        s.unw=bool(s.f&{"unwind","asm-unwind"}); s.asmunw="asm-unwind" in s.f; s.through=s.asmunw and not s.win
    def ob(s,prop,rule,con,ok,detail=""):
        """an obligation of one property, or of each of several"""
        for p in (prop,) if isinstance(prop,str) else prop: s.o.ob(p+":"+rule,con,ok,detail)
        return ok
    # ------------------------------------------------------------ helpers
    def variant(s,v):
        """(variant name, payload) of an enum value"""
        if not v or v[0]!="agg" or v[2] is None: return None,None
        t=s.P.T[v[1]]
        if t["k"]!="adt" or t["kind"]!="enum": return None,None
        fs=dict(v[4])
        return t["variants"][v[2]]["name"],fs.get(0)
    def show(s,v):
        if v is None: return "nothing"
        n,p=s.variant(v)
        if n: return "%s(%s)"%(n,s.show(p) if p else "")
        if v[0]=="t": return re.sub(r"#\d+","",v[1])
        if v[0]=="n": return cosim.fmt(v[1])
        return "a value built from "+(", ".join(re.sub(r"#\d+","",t) for t in toks(v)) or "constants")
    def ends(s,x):
        return {"return":"returns "+s.show(x.ret),"unwind":"unwinds with "+s.show(x.inflight),"abort":"aborts","noreturn":"switches away"}.get(x.status,"ends as "+x.status)
    def asmi(s,x):
        """indices of switches on a path"""
        return [i for i,e in enumerate(x.events()) if e.k=="asm" and not asm.is_local(s.S.W.block(e))]
    def panics(s,x): return x.status=="unwind" or s.P.pabort and x.status=="abort"
    def drops(s,x,name): return [e for e in x.events() if e.k in("drop","drop_in_place") and e.val and name in toks(e.val)]
    def memory_rules(s,x,con):
        """no path touches memory it may not, or as something it is not"""
        for e in x.events():
            if e.k in("oob","misaligned","pun_mismatch","ub","double_drop"):
                what={"oob":"an access goes beyond the memory that holds the value (size of %s)"%e.what,"misaligned":"an access may be misaligned","pun_mismatch":"a value is read back as another type than it was stored as",
                    "ub":"undefined behaviour: %s"%e.why,"double_drop":"a value that has already been moved or dropped is dropped"}[e.k]
                s.ob("C01","transfer-well-formed",con,False,"%s: %s (%s)"%(con,what,e.at))
        s.ob("C01","transfer-well-formed",con,True)
    def read_in_time(s,x,con,name):
        """what arrives by address must be read before anything else can happen to the sender's frame"""
        ev=x.events(); ai=s.asmi(x)
        if not ai: return
        for e in ev[ai[-1]+1:]:
            if e.k=="read" and e.val and name in toks(e.val): break
            if e.k in("user_call","drop","drop_in_place","drop_impl","ext","call_ptr","box_new"):
                late=any(f.k=="read" and f.val and name in toks(f.val) for f in ev)
                s.ob("C01","received-before-anything-else",con,not late,"%s: the value handed over is read only after other code (%s) has run: the sender's frame may be gone"%(con,e.k)); return
        s.ob("C01","received-before-anything-else",con,True)
    def state(s,h): return (tuple(sorted(s.S.query(h,"started"),key=str)),tuple(sorted(s.S.query(h,"done"),key=str)))
    def expect_state(s,h,con,started,done,prop="C02"):
        a,b=s.state(h)
        s.ob(prop,"started-agrees",con,a==(started,),"started() is %s after %s"%(a,con))
        s.ob(prop,"done-agrees",con,b==(done,),"done() is %s after %s"%(b,con))
    def after(s,h,x):
        n=h.copy(); n.self=x.store.get(("P","self"),h.self); n.facts=x.facts; return n
    # ------------------------------------------------------------ a resume that reached the coroutine
    def sent_rules(s,x,info,con):
        v=info.get("val")
        if v is not None:
            s.ob("C01","sender-gives-up-value",con,not s.drops(x,v[1]),"%s drops the input although it was handed to the coroutine"%con)
        v=info.get("sent")
        if v is not None:
            for c in info.get("susp_paths") or []:
                s.ob("C01","sender-gives-up-value","suspend",not s.drops(c,v[1]),"suspend drops the value it has yielded")
    def continued(s,info,prev,con):
        """what the pending suspend does after the switch back"""
        cont=info.get("cont")
        if cont is None: return
        val=info.get("val"); sent=prev and prev.get("sent")
        for c in cont:
            s.memory_rules(c,"suspend"); s.cheap(c,"suspend")
            if sent is not None: s.ob("C01","sender-gives-up-value","suspend",not s.drops(c,sent[1]),"suspend drops the value it has yielded although the resumer owns it")
            if val is not None:
                ok=c.status=="return" and same(c.ret,val)
                s.ob("C01","input-arrives","suspend",ok,lambda:"after resume(v) the pending suspend %s instead of returning v"%s.ends(c))
                s.ob("C01","received-once","suspend",not s.drops(c,val[1]),"suspend drops the value it received")
                s.read_in_time(c,"suspend",val[1])
                s.ob("C06","no-spurious-unwind","suspend",c.status=="return","an ordinary resume makes the pending suspend unwind")
        s.ob("C01","input-arrives","suspend",bool(cont) or val is None,"after resume(v) the pending suspend never returns")
    def yielded(s,x,info,con):
        sent=info["sent"]; n,p=s.variant(x.ret) if x.status=="return" else (None,None)
        s.cheap(x,con)
        s.ob("C02","suspension-reported",con,n=="Yield",lambda:"the coroutine suspended but %s %s"%(con,s.ends(x)))
        s.ob("C01","yielded-value-arrives",con,same(p,sent),lambda:"the coroutine yielded v but %s %s"%(con,s.ends(x)))
        s.ob("C01","received-once",con,not s.drops(x,sent[1]),"%s drops the value the coroutine yielded"%con)
        s.read_in_time(x,con,sent[1])
    def cheap(s,x,con):
        """the Rust part of a switch that neither starts, ends nor unwinds the coroutine"""
        bad=None
        for e in x.events():
            w={"ext":"calls the external function %s","box_new":"allocates a Box","catch_begin":"sets up a catch of panics","user_call":"runs user code (%s)","call_ptr":"calls a function pointer"}.get(e.k)
            if w: bad=w%getattr(e,"name","") if "%" in w else w
            if e.k=="fence" and e.cpu: bad="executes a memory fence"
            if e.k=="block" and (e.const or 0)>256: bad="overwrites %d bytes of memory"%e.const
            if e.k=="write" and getattr(e,"rmw",None): bad="executes an atomic read-modify-write"
            if e.k=="std" and re.match(r"<?(alloc|std::(thread|sync|fs|io|sys|panic|env|process))\b",e.path): bad="calls %s"%short(e.path)
        s.ob("C21","no-work-beyond-the-switch",con,bad is None,"%s of a running coroutine %s"%(con,bad))
    def body_run(s,info,h0,con):
        """the path of the entry function (or trap handler) up to its final switch"""
        q=info["path"]; fn=info["fn"]; s.memory_rules(q,fn)
        calls=[e for e in q.events() if e.k=="user_call"]
        pan=[e for e in q.events() if e.k=="catch_end" and not e.ok]
        own=("C04","C11") if info.get("trap") else "C04"
        s.ob(own,"runs-its-own-closure-once",fn,len(calls)==1,lambda:"%s calls the closure %d times before it completes"%(fn,len(calls)))
        if info.get("trap") and s.win:
            for c in calls:
                ev=list(q.events()); pre=[e for e in ev[:ev.index(c)] if e.k=="ext" and e.name.split("::")[-1]=="_resetstkoflw"]
                ok=any(e.ret[0]=="n" and c.facts.nonzero(e.ret[1]) for e in pre)
                s.ob("C11","guard-page-restored",fn,ok,"%s runs the closure without having restored the stack's guard page (%s)"%(fn,"the result of _resetstkoflw says it failed" if pre else "_resetstkoflw is not called"))
        if len(calls)!=1: return None,pan
        c=calls[0]; names=[t for a in c.args for t in toks(a)]; want=info["ftok"][1] if info.get("ftok") else "f"
        s.ob(own,"runs-its-own-closure-once",fn+"|which",names.count(want)==1,lambda:"%s calls %s instead of the closure it was given"%(fn,names[:1]))
        s.ob("C01","closure-arrives",fn,names.count(want)==1,lambda:"%s runs %s instead of the closure that was sent"%(fn,names[:1]))
        s.ob("C01","received-once",fn+"|closure",not s.drops(q,want),"%s drops the closure it consumed"%fn)
        if not info.get("trap"):
            link=[a for a in s.nums(c.args) if q.facts.norm(a-h0.link).const()==0] if h0.link is not None else [1]
            s.ob("C04","own-yielder",fn,bool(link),lambda:"the closure is not given the yielder of its own coroutine (the link record at %s)"%cosim.fmt(h0.link))
        return c,pan
    def nums(s,args):
        out=[]
        def w(v):
            if not isinstance(v,tuple): return
            if v[0]=="n": out.append(v[1])
            elif v[0]=="agg":
                for _,x in v[4]: w(x)
                if v[3] is not None: w(v[3])
        for a in args: w(a)
        return out
    def guarded(s,paths,fn):
        """user code on a foreign stack must run inside the catch at its root"""
        for q in paths:
            depth=0
            for e in q.events():
                if e.k=="catch_begin": depth+=1
                elif e.k=="catch_end": depth-=1
                elif e.k=="user_call" or e.k=="drop" and s.leafty(e.ty):
                    if s.unw and not s.through: s.ob("C07","user-code-under-catch",fn,depth>0,lambda:"%s runs user code (%s) outside the catch at the root of the stack: its panic would leave the stack"%(fn,e.name or "a destructor"))
            st=q.status
            if s.through:
                up=[e for e in q.events() if e.k=="panic" and str(e.what).startswith("user")]
                ok=st in("noreturn","return","unwind") or st=="abort" and not up
                s.ob("C07","panic-can-leave-root",fn,ok,lambda:"with asm-unwind a panic of user code in %s %s instead of unwinding into the resumer"%(fn,s.ends(q)))
                if st=="unwind": s.ob("C07","payload-unchanged",fn,len([e for e in q.events() if e.k=="panic"])==1,"%s replaces the panic"%fn)
            elif s.unw:
                s.ob("C07","root-never-unwinds",fn,st in("noreturn","abort","return"),lambda:"%s %s: a panic leaves the root of the stack"%(fn,s.ends(q)))
                pan=[e for e in q.events() if e.k=="panic" and str(e.what).startswith("user code")]
                if pan: s.ob("C07","panic-is-caught",fn,st in("noreturn","return"),lambda:"a panic of user code in %s %s instead of being handed to the resumer"%(fn,s.ends(q)))
            else:
                pan=[e for e in q.events() if e.k=="panic"]
                if pan: s.ob("C08","panic-aborts",fn,st=="abort",lambda:"without the unwind feature, a panic in %s %s instead of aborting the process"%(fn,s.ends(q)))
                s.ob("C08","root-never-unwinds",fn,st in("noreturn","abort","return"),lambda:"%s %s"%(fn,s.ends(q)))
    def leafty(s,ty): return ty is not None and s.P.T[ty]["k"] in("param","dyn")
    def completed(s,x,info,h0,con):
        c,pan=s.body_run(info,h0,con)
        if c is None: return
        if pan:
            pay=pan[-1].payload
            s.ob("C07","payload-reraised",con,x.status=="unwind" and x.inflight==pay,lambda:"the coroutine panicked but %s %s instead of re-raising the payload"%(con,s.ends(x)))
            n=len([e for e in x.events() if e.k=="resume_unwind"])
            s.ob("C07","reraised-once",con,n<=1 and not s.drops(x,toks(pay)[0]) if toks(pay) else True,"%s also drops the payload it re-raises"%con)
            s.ob("C02","panic-not-reported-as-result",con,x.status!="return",lambda:"the coroutine panicked but %s %s"%(con,s.ends(x)))
        else:
            n,p=s.variant(x.ret) if x.status=="return" else (None,None)
            s.ob("C02","completion-reported",con,n=="Return",lambda:"the coroutine's function returned but %s %s"%(con,s.ends(x)))
            s.ob("C01","result-arrives",con,same(p,c.ret),lambda:"the coroutine returned r but %s %s"%(con,s.ends(x)))
            if info.get("trap"): s.ob("C11","result-completes-resume",con,n=="Return" and same(p,c.ret),lambda:"a trap handler returned r but the pending %s %s"%(con,s.ends(x)))
            if c.ret and c.ret[0]=="t":
                s.ob("C01","received-once",con,not s.drops(x,c.ret[1]),"%s drops the coroutine's result"%con)
                s.ob("C01","sender-gives-up-value",info["fn"],not s.drops(info["path"],c.ret[1]),"%s drops the result it has sent"%info["fn"])
                s.read_in_time(x,con,c.ret[1])
    # ------------------------------------------------------------ scenarios
    def r_resume(s,h,does,con,prev=None):
        S=s.S; out=[]; rs=S.resume(h,does)
        s.o.count("scenarios")
        hit=0
        for h2,x,info in rs:
            s.memory_rules(x,con)
            if h2 is None:
                asmu=[e for e in x.events() if e.k=="asm_unwind"]
                if asmu:      # a panic comes out of the coroutine by unwinding through the switch
                    s.ob("C07","payload-reraised",con,x.status=="unwind" and x.inflight and "asmpanic" in str(x.inflight),lambda:"a panic unwinding out of the coroutine makes %s: it %s"%(con,s.ends(x)))
                    s.expect_state(s.after(h,x),con+", panicked",1,1,("C02","C07"))
                else: s.ob("C02","resume-reaches-coroutine",con,False,lambda:"%s of a coroutine that has not completed %s without running it"%(con,s.ends(x)))
                continue
            hit+=1; s.sent_rules(x,info,con); s.continued(info,prev,con)
            if info["kind"]=="yield":
                s.yielded(x,info,con); s.expect_state(h2,"a suspend",1,0)
            else:
                s.completed(x,info,h2,con); s.expect_state(h2,"completion",1,1)
                if x.status=="unwind": s.expect_state(h2,"a panic",1,1,("C02","C07"))
                s.guarded(info["paths"],info["fn"])
                if h.state=="fresh" and not info.get("trap"):
                    c=[e for e in info["path"].events() if e.k=="user_call"]
                    names=[t for e in c for a in e.args for t in toks(a)]
                    s.ob(("C01","C04"),"input-arrives",info["fn"],names.count(info["val"][1])==1,lambda:"the first resume sent v but the closure is called with %s"%names)
                    s.ob("C01","received-once",info["fn"],not s.drops(info["path"],info["val"][1]),"%s drops the input it received"%info["fn"])
            out.append((h2,x,info))
        for q,i in S.ended: 
            s.guarded([q],i["fn"])
            if s.through and q.status=="unwind": s.memory_rules(q,i["fn"])
        s.ob(("C02","C11") if does=="trap" else "C02","resume-reaches-coroutine",con+", then "+does,hit>0,"no path of %s reaches the coroutine and comes back when it does: %s"%(con,does))
        return out
    def r_done(s,h):
        """operations on a completed coroutine"""
        S=s.S
        for op,prop in(("resume","C02"),("force_unwind","C06")):
            for h2,x,info in S.resume(h,"yield",op):
                sw=s.asmi(x)
                s.ob(prop,"completed-never-entered",op,not sw and h2 is None,"%s of a completed coroutine switches stacks"%op)
                if op=="resume": s.ob("C02","resume-after-completion-panics",op,s.panics(x) or dtor_abort(x),lambda:"resume of a completed coroutine %s instead of panicking"%s.ends(x))
                else: s.ob("C06","noop-after-completion",op,x.status=="return",lambda:"force_unwind of a completed coroutine %s"%s.ends(x))
                s.ob(prop,"state-unchanged",op,x.store.get(("P","self"))==h.self,"%s of a completed coroutine changes its state"%op)
                if op=="resume":
                    d=s.drops(x,info["val"][1]); s.ob("C01","not-leaked",op,len(d)==1 or x.status=="abort","the input of a refused resume is dropped %d times"%len(d))
    def stackdrops(s,x): return [i for i,e in enumerate(x.events()) if e.k=="drop" and e.val and "stack" in toks(e.val)]
    def closure_drops(s,h,x):
        """drops of the value stored where the closure was put: (number, as its own type)"""
        n=0; ok=True
        for e in x.events():
            if e.k=="drop_in_place":
                l=e.ptr[1] if e.ptr and e.ptr[0]=="n" else None
                if l is not None and x.facts.norm(l-h.obj[0]).const()==0:
                    t=s.P.T[e.ty]
                    if t.get("manually_drop") or not t.get("needs_drop",True): continue      # drops nothing
                    n+=1; ok=ok and s.P.T[s.P.newtype_norm(e.ty)]["s"]==h.obj[2]["s"]
                elif l is not None and h.regions.get(next(iter(l.atoms()),None))=="C": ok=False; n+=1
        return n,ok
    def r_fresh(s,h):
        """a coroutine that was never resumed"""
        S=s.S
        s.expect_state(h,"creation",0,0)
        for op in("force_unwind","drop","into_stack"):
            con={"into_stack":"into_stack (refused)"}.get(op,op)
            for h2,x,info in S.resume(h,"yield",op):
                s.memory_rules(x,con)
                s.ob("C05","no-switch",con,not s.asmi(x),"%s of a coroutine that was never resumed switches stacks"%con)
                n,ok=s.closure_drops(h,x)
                if not(n==0 and x.status=="abort"):
                    s.ob("C05","closure-dropped-once",con,n==1,"%s of a coroutine that was never resumed drops its closure %d times"%(con,n))
                s.ob("C05","closure-dropped-as-itself",con,ok,"%s drops something else than the closure stored at %s"%(con,cosim.fmt(h.obj[0])))
                sd=s.stackdrops(x); ci=[i for i,e in enumerate(x.events()) if e.k=="drop_in_place"]
                if sd and ci: s.ob("C09","stack-released-last",con,max(ci)<sd[0],"%s releases the stack before it drops the closure stored on it"%con)
                s.stack_once(x,op,con,0 if op=="force_unwind" else 1)
                if op=="into_stack": s.ob("C09","into-stack-refused",con,x.status!="return",lambda:"into_stack of a coroutine that was never resumed %s"%s.ends(x))
                if op=="force_unwind":
                    up=[e for e in x.events() if e.k=="panic"]
                    s.ob("C05","ends",con,x.status=="return" or s.panics(x) and bool(up),lambda:"force_unwind of a coroutine that was never resumed %s"%s.ends(x))
                    n2=s.after(h,x); n2.state="done"
                    a,b=s.state(n2)
                    s.ob(("C02","C05"),"done-afterwards",con,b==(1,),"done() is %s after force_unwind%s"%(b," whose destructor panicked" if x.status=="unwind" else ""))
                    if b==(1,):
                        for op2 in("force_unwind","drop"):
                            for _,y,_ in S.resume(n2,"yield",op2):
                                m,_=s.closure_drops(h,y)
                                s.ob("C05","never-again",op2,m==0,"%s drops the closure again after force_unwind%s"%(op2," whose destructor panicked" if x.status=="unwind" else ""))
                if op in("drop","into_stack") and s.win: s.teb_back(h,x,op,{f:Lin.atom(("sym","%s.%s"%(h.teb[1],f))) for f in("StackLimit","GuaranteedStackBytes")} if h.teb else {},"of a coroutine that was never resumed")
    def stack_once(s,x,op,con,want):
        n=len(s.stackdrops(x)); dd=[e for e in x.events() if e.k=="double_drop"]
        if x.status in("return","unwind"): s.ob("C09","stack-released-once",con,n==want and not dd,lambda:"%s %s and releases the stack %d times instead of %d"%(con,s.ends(x),n+len(dd),want))
        else: s.ob("C09","stack-released-once",con,n<=want and not dd,"%s releases the stack %d times"%(con,n))
    def teb_back(s,h,x,op,want,how):
        """on Windows the possibly grown limit and guarantee go back to the owner of the stack"""
        if not want or x.status not in("return","unwind"): return
        if op=="into_stack" and x.status!="return" : return
        ev=x.events(); sd=s.stackdrops(x); up=[(i,e) for i,e in enumerate(ev) if e.k=="stack_call" and e.name=="update_teb_fields"]
        s.ob("C17","limits-handed-back",op,len(up)==1 and (not sd or up[0][0]<sd[0]),lambda:"%s %s hands the limits back %d times"%(op,how,len(up)))
        if len(up)!=1: return
        for a,f in zip(up[0][1].args[-2:],("StackLimit","GuaranteedStackBytes")):
            ok=a[0]=="n" and x.facts.norm(a[1]-want[f]).const()==0
            s.ob("C17","limits-handed-back",op+"|"+f,ok,lambda:"%s %s tells the stack that %s is %s instead of %s"%(op,how,f,cosim.fmt(a[1]) if a[0]=="n" else "unknown",cosim.fmt(want[f])))
    def payload_ptr(s,v):
        return dict(v[4]).get("boxed") if v and v[0]=="agg" else None
    def identity(s,h):
        """numbers stored in the coroutine object that it did not hold from the start (the suspended position is one of them)"""
        old=getattr(s,"first_nums",())
        return [q for q in s.nums([h.self]) if not any(h.facts.norm(q-o).const()==0 for o in old)]
    def is_request(s,v,h,facts):
        """v is the payload of the forced unwind of this very suspension"""
        if not v or v[0]!="agg" or "boxty" not in dict(v[4]): return False
        ty=dict(v[4])["boxty"][2]
        if not(s.P.T[ty]["k"]=="adt" and s.P.T[ty].get("local")): return False     # a type of the crate: nobody else can make one
        p=s.payload_ptr(v)
        return p is not None and p[0]=="n" and any(facts.norm(p[1]-q).const()==0 for q in s.identity(h) if q.const() is None)
    def r_forced(s,h,prev,op):
        """force_unwind or drop of a suspended coroutine"""
        S=s.S; con=op; prop="C06"
        if not s.unw:
            for h2,x,info in S.resume(h,"complete",op):
                s.ob("C08","no-switch",op,not s.asmi(x),"without the unwind feature, %s of a suspended coroutine switches stacks"%op)
                s.ob("C08","stack-never-released",op,not s.stackdrops(x),"without the unwind feature, %s of a suspended coroutine releases its stack"%op)
                if op=="drop": s.ob("C08","drop-of-suspended-aborts",op,x.status=="abort",lambda:"without the unwind feature, dropping a suspended coroutine %s instead of aborting"%s.ends(x))
                else:
                    s.ob("C08","force-unwind-refused",op,s.panics(x),lambda:"without the unwind feature, force_unwind of a suspended coroutine %s instead of panicking"%s.ends(x))
                    s.ob("C08","force-unwind-refused",op+"|state",x.store.get(("P","self"))==h.self,"a refused force_unwind changes the coroutine")
                if op=="drop": s.ob("C09","stack-never-released-while-suspended",op,not s.stackdrops(x),"dropping a suspended coroutine that cannot be unwound releases its stack")
            return
        for does in("propagate","complete","rethrow-other","yield"):
            rs=S.resume(h,does,op); s.o.count("scenarios"); ended=list(S.ended); hit=0
            for h2,x,info in rs:
                s.memory_rules(x,con); s.after_forced(h,h2,x,info,prev,op,does,con)
                if h2 is not None: hit+=1
            s.request_surfaces(h,rs,prev)
            if s.through and does in("propagate","rethrow-other","complete"):
                # the panic leaves the coroutine by unwinding through the switch: give it to the resumer
                for q,i in ended:
                    if q.status!="unwind": continue
                    hit+=1
                    s.guarded([q],i["fn"])
                    s.ob("C06","request-leaves-coroutine",i["fn"],i.get("payload") is None or q.inflight==i["payload"],lambda:"%s replaces the forced unwind that passes through it"%i["fn"])
                    for h2,x,info in S.resume(h,"yield",op,escaped=q.inflight):
                        if not[e for e in x.events() if e.k=="asm_unwind"]: continue
                        s.verdict(h,x,q.inflight,op,does,con,S)
                        s.expect_state(s.after(h,x),"a forced unwind",1,1) if op=="force_unwind" else None
                        s.drop_rules(h,x,op,con,True)
            s.ob("C06","reaches-coroutine",con+", then "+does,hit>0,"%s of a suspended coroutine never reaches it (scenario: %s)"%(con,does))
    def request_surfaces(s,h,rs,prev):
        for h2,x,info in rs:
            for c in (info.get("cont") or [])+(info.get("thrown") or []):
                s.memory_rules(c,"suspend")
                s.ob("C06","request-surfaces-at-suspend","suspend",c.status=="unwind" and s.is_request(c.inflight,h,c.facts),lambda:"forced unwinding makes the pending suspend %s: it must unwind with the identity of this suspension"%s.ends(c))
                if prev: s.ob("C01","sender-gives-up-value","suspend",not s.drops(c,prev["sent"][1]),"a suspend that is unwound drops the value it has yielded although the resumer owns it")
    def entails_own(s,x,pay,h):
        if pay[0]=="agg":
            p=s.payload_ptr(pay); return p is not None and p[0]=="n" and any(x.facts.norm(p[1]-q).const()==0 for q in s.identity(h) if q.const() is None)
        dc=[e for e in x.events() if e.k=="downcast" and e.ok and s.P.T[e.ty]["k"]=="adt" and s.P.T[e.ty].get("local")]
        if not dc: return False
        at=Lin.atom(("sym","payload(%s)"%pay[1]))
        return any(x.facts.norm(at-q).const()==0 for q in s.identity(h) if q.const() is None)
    def verdict(s,h,x,pay,op,does,con,S):
        """a panic with payload `pay` came out of the coroutine"""
        if does=="propagate":
            s.ob("C06","own-request-accepted",con,x.status=="return" or op=="drop" and x.status=="unwind" and self_user(x),lambda:"the forced unwind came back out of the coroutine unhandled but %s %s"%(con,s.ends(x)))
        elif x.status=="return":
            s.ob(("C06","C09") if op=="drop" else "C06","only-own-request-accepted",con,s.entails_own(x,pay,h),lambda:"%s returns normally although the panic that came out of the coroutine may not be this forced unwind"%con)
        elif op=="force_unwind":
            s.ob("C06","other-panic-continues",con,x.status=="unwind" and x.inflight==pay,lambda:"another panic came out of the coroutine but %s %s instead of passing it on"%(con,s.ends(x)))
    def drop_rules(s,h,x,op,con,complete):
        if op!="drop": return
        n=s.stackdrops(x); ai=s.asmi(x)
        if not complete: s.ob("C09","stack-never-released-while-suspended",con,not n,"dropping a coroutine that suspends again while it is unwound releases its stack"); 
        if n and ai: s.ob("C09","stack-released-last",con,n[0]>ai[-1],"drop releases the stack before the coroutine's frames are gone")
        s.stack_once(x,op,con,1)
    def after_forced(s,h,h2,x,info,prev,op,does,con):
        m,_=s.closure_drops(h,x)
        s.ob("C05","never-again",con,m==0,"%s drops the original closure storage of a started coroutine"%con)
        if h2 is None:
            if not[e for e in x.events() if e.k=="asm_unwind"]: s.ob("C06","reaches-coroutine",con,False,lambda:"%s of a suspended coroutine %s without switching to it"%(con,s.ends(x)))
            return
        if info["kind"]=="yield":
            s.drop_rules(h,x,op,con,False)
            if op=="drop": s.ob("C09","aborts-if-not-unwound",con,x.status=="abort",lambda:"a coroutine suspends again while it is dropped, but drop %s instead of aborting"%s.ends(x)); return
            s.ob("C06","swallowed-request-reported",con,x.status=="unwind",lambda:"the coroutine suspends again instead of unwinding, but force_unwind %s"%s.ends(x))
            d=s.drops(x,info["sent"][1]); s.ob("C01","not-leaked",con,len(d)==1,"a value yielded during a forced unwind is dropped %d times"%len(d))
            s.expect_state(h2,"a suspend",1,0); return
        c,pan=s.body_run(info,h2,con); s.guarded(info["paths"],info["fn"])
        if op=="force_unwind": s.expect_state(h2,"a forced unwind",1,1)
        s.drop_rules(h2,x,op,con,True)
        if c is None: return
        if pan: s.verdict(h,x,pan[-1].payload,op,does,con,s.S)
        else:
            if op=="drop": s.ob("C09","aborts-if-not-unwound",con,x.status=="abort" or self_user(x) and x.status in("return","unwind"),lambda:"a coroutine swallows the forced unwind while it is dropped, but drop %s instead of aborting"%s.ends(x))
            elif not(self_user(x) and x.status=="return" and s.state(h2)[1]==(1,)):     # (a destructor of the result that rethrows the request makes no difference)
                s.ob("C06","swallowed-request-reported",con,x.status=="unwind",lambda:"the coroutine returned normally instead of unwinding, but force_unwind %s"%s.ends(x))
            if c.ret and c.ret[0]=="t":
                d=s.drops(x,c.ret[1]); s.ob("C01","not-leaked",con,len(d)==1,"a result returned during a forced unwind is dropped %d times"%len(d))
        if op=="drop" and s.win and x.status in("return","unwind"): s.teb_back(h2,x,op,{f:h2.tebZ[f] for f in("StackLimit","GuaranteedStackBytes")},"after a forced unwind")
    def r_release(s,h):
        """drop and into_stack of a completed coroutine"""
        S=s.S; want={f:h.tebZ[f] for f in("StackLimit","GuaranteedStackBytes")} if s.win and getattr(h,"tebZ",None) else {}
        for h2,x,_ in S.resume(h,"yield","drop"):
            s.memory_rules(x,"drop"); s.ob("C09","no-switch","drop",not s.asmi(x),"dropping a completed coroutine switches stacks")
            s.stack_once(x,"drop","drop of a completed coroutine",1); s.teb_back(h,x,"drop",want,"of a completed coroutine")
            n,_=s.closure_drops(h,x); s.ob("C05","never-again","drop",n==0,"dropping a completed coroutine drops its closure again")
            ok=x.status=="return" or s.panics(x) and self_user(x)
            s.ob("C09","drop-ends","drop",ok,lambda:"dropping a completed coroutine %s"%s.ends(x))
        for h2,x,_ in S.resume(h,"yield","into_stack"):
            s.memory_rules(x,"into_stack")
            ok=x.status=="return" and toks(x.ret)==["stack"]
            s.ob("C09","stack-handed-back","into_stack",ok,lambda:"into_stack of a completed coroutine %s instead of returning the stack"%s.ends(x))
            s.stack_once(x,"into_stack","into_stack of a completed coroutine",0); s.teb_back(h,x,"into_stack",want,"of a completed coroutine")
    def r_refused(s,h):
        """into_stack of a suspended coroutine"""
        for h2,x,info in s.S.resume(h,"propagate","into_stack"):
            s.ob("C09","into-stack-refused","into_stack of a suspended coroutine",x.status!="return",lambda:"into_stack of a suspended coroutine %s"%s.ends(x))
            done=h2 is not None and info.get("kind")=="complete" or bool([e for e in x.events() if e.k=="asm_unwind"])
            if s.stackdrops(x): s.ob("C09","stack-never-released-while-suspended","into_stack of a suspended coroutine",done,"a refused into_stack releases the stack of a coroutine that is still suspended")
    def r_extra(s,h):
        """safe operations beyond the known ones, on a suspended coroutine: what they do without switching to it"""
        S=s.S; m=surface.coro(s.P,S.R); known=set(S.R.values())
        if m is None: return
        for i,I in surface.operations(s.P):
            b=I["body"]
            if i["inst"] in known or b["argc"]<1 or i["path"].endswith("Drop>::drop"): continue
            T=s.P.T[b["locals"][1]]; ref=T["k"]=="ref"; A=s.P.T[T["to"]] if ref else T
            if A.get("path")!=m[0]: continue
            nm={q[0]:n for n,q in b["names"] if not q[1]}; con=short(i["path"]); s.o.count("further_public_operations")
            args={nm.get(1,"self"):S.SELF if ref else h.self}
            for k in range(2,b["argc"]+1): 
                if s.P.T[b["locals"][k]]["k"]=="param": args[nm.get(k,"arg%d"%k)]=("t","extra%d"%k,b["locals"][k])
            try: res,_=S.mrun(i["inst"],args,h.facts,S.self_store(h),lambda I2,st,ev: [])
            except (Unsupported,mir.Unsupported) as e: s.o.skipped.append("%s: %s not analysed (%s)"%(s.o.cfg,con,str(e)[:120])); continue
            for x in res:
                if x.status not in("return","unwind") or s.asmi(x): continue
                s.ob("C09","stack-kept-while-suspended",con,not s.stackdrops(x),"%s drops the stack of a suspended coroutine without having resumed it"%con)
                if not ref: continue
                had="stack" in toks(h.self); n=s.after(h,x); now=n.self
                s.ob("C09","stack-kept-while-suspended",con,not had or "stack" in toks(now),"%s takes the stack out of a suspended coroutine"%con)
                s.ob("C09","stack-kept-while-suspended",con,x.status!="return" or "stack" not in toks(x.ret),"%s gives away the stack of a suspended coroutine"%con)
                a,d=s.state(n)
                s.ob("C02","started-agrees",con,a==(1,),"started() is %s after %s of a suspended coroutine"%(a,con))
                s.ob(("C02","C09"),"done-agrees",con,d==(0,),"done() is %s after %s of a suspended coroutine, although nothing resumed it"%(d,con))
    def r_surface(s):
        surface.judge(s.P,s.S.R,s.ob,s.o.count)
    def r_reset(s,h):
        """force_reset: every way it ends, and what force_unwind and drop do afterwards"""
        res,_=s.S.mrun(s.S.R["force_reset"],{"self":s.S.SELF},h.facts,s.S.self_store(h),None); out=None; fresh=h.state=="fresh"
        for x in res:
            s.memory_rules(x,"force_reset")
            ok=x.status=="return" or fresh and (s.panics(x) and self_user(x) or dtor_abort(x))
            s.ob("C02","reset-completes","force_reset",ok,lambda:"force_reset %s"%s.ends(x))
            s.ob("C05","no-switch","force_reset",not s.asmi(x),"force_reset switches stacks")
            if x.status not in("return","unwind"): continue
            how="force_reset"+(" whose destructor panicked" if x.status=="unwind" else "")
            m,own=s.closure_drops(h,x)
            s.ob("C05","closure-dropped-once","force_reset",m<=(1 if fresh else 0),"%s of a %s coroutine drops the storage of its closure %d times"%(how,"fresh" if fresh else "suspended",m))
            s.ob("C05","closure-dropped-as-itself","force_reset",own,"force_reset drops something else than the closure")
            n=s.after(h,x); a,b=s.state(n)
            s.ob(("C02","C05"),"done-agrees","force_reset",b==(1,),"done() is %s after %s"%(b,how))
            if b==(1,): n.state="done"
            for op2 in("force_unwind","drop"):
                for _,y,_ in s.S.resume(n,"yield",op2) if fresh or b==(1,) else []:
                    k,_=s.closure_drops(h,y)
                    s.ob("C05","never-again",op2,m+k<=(1 if m or b!=(1,) else 0),"%s drops the closure %s%s"%(op2,"again " if m else "",  "after "+how))
            if x.status=="return" and out is None and b==(1,): out=n
        return out
    def r_creation(s):
        """with_stack: what it does with the stack and the closure on every path"""
        res,_=s.S.mrun(s.S.R["with_stack"],None,s.S.contract(),None,None); n=0
        for x in res:
            con="with_stack"; s.memory_rules(x,con)
            if x.status=="return":
                n+=1; w=[e for e in x.events() if e.k=="write" and e.root[0]=="mem" and same(e.val,("t","f"))]
                s.ob("C01","closure-stored-once",con,len(w)==1,"the closure is stored %d times"%len(w))
                s.ob("C01","sender-gives-up-value",con,not s.drops(x,"f"),"with_stack drops the closure it stored on the stack")
                s.ob("C09","stack-kept",con,not s.stackdrops(x) and toks(x.ret).count("stack")==1,"the stack is not (or not only) kept in the coroutine")
            elif x.status=="unwind":
                s.ob("C09","stack-released-once",con,len(s.stackdrops(x))==1,"a refused creation releases the stack %d times"%len(s.stackdrops(x)))
                s.ob("C01","not-leaked",con,len(s.drops(x,"f"))==1,"a refused creation drops the closure %d times"%len(s.drops(x,"f")))
                w=[e for e in x.events() if e.k=="write" and e.root[0]=="mem" and same(e.val,("t","f"))]
                s.ob("C04","refused-before-writing",con,not w,"a closure that does not fit is stored before it is refused")
            s.ob("C04","no-switch",con,not s.asmi(x),"creating a coroutine switches stacks")
        s.ob("C04","creation-succeeds","with_stack",n>0,"no path of with_stack returns")
        if "new" in s.S.R: s.guard("Coroutine::new",s.r_new)
    def r_new(s):
        """new: with_stack on a default stack of its own"""
        con="new"; n=0; res,_=s.S.mrun(s.S.R["new"],None,None,None,None)
        for x in res:
            s.memory_rules(x,con); w=[e for e in x.events() if e.k=="write" and e.root[0]=="mem" and same(e.val,("t","f"))]
            s.ob("C04","no-switch",con,not s.asmi(x),"creating a coroutine switches stacks")
            if x.status=="return":
                n+=1
                s.ob("C01","closure-stored-once",con,len(w)==1,"the closure is stored %d times"%len(w))
                s.ob("C01","sender-gives-up-value",con,not s.drops(x,"f"),"new drops the closure it stored on the stack")
                s.ob("C09","stack-kept",con,not [e for e in x.events() if e.k=="ext" and e.name.split("::")[-1] in("munmap","VirtualFree")],"the stack is released although the coroutine keeps it")
            elif x.status=="unwind" and not w:      # once stored: with_stack's obligations, where the base is known to be aligned
                s.ob("C01","not-leaked",con,len(s.drops(x,"f"))==1,"a refused creation drops the closure %d times"%len(s.drops(x,"f")))
        s.ob("C04","creation-succeeds",con,n>0,"no path of new returns")
    def r_on_stack(s):
        """on_stack on any stack from any context"""
        S=s.S; root=S.R["on_stack"]; h=cosim.H(); h.mem=[]; h.facts=mir.Facts(w=s.P.w); h.regions={}; h.state="none"; h.hist=[]; h.self=None; h.instore={}
        name=S.tok("R"); S.parent(h,name)
        base=Lin.atom(("sym","base(stack)")); h.regions[("sym","base(stack)")]="C"; h.regions[("sym","basek")]="C"
        f=h.facts.add_eq(base-Lin.atom(("sym","basek"))*S.salign); h.facts=f.add_ge(Lin.atom(("sym","basek"))-((1<<20)//S.salign)).add_ge(Lin(((1<<s.P.w)-4096)//S.salign)-Lin.atom(("sym","basek")))
        ft=("t","of:"+name,S.argty(root,"f")); stk=("t","stack",S.argty(root,"stack"))
        res,oth=S.run_on(h,name,"on_stack",{"f":ft,"stack":stk},"C",h.facts.norm(base),"on_stack")
        S.value_checks(res,oth,ft,"on_stack")
        paths=[w for _,_,w in res if w is not None]+oth
        s.guarded(paths,"on_stack wrapper")
        for w in paths: s.memory_rules(w,"on_stack wrapper"); s.ob("C01","received-once","on_stack wrapper",not s.drops(w,ft[1]),"the wrapper drops the closure it consumed")
        n=0
        for h3,x,w in res:
            s.memory_rules(x,"on_stack"); ai=s.asmi(x); sd=s.stackdrops(x)
            s.ob("C09","stack-released-once","on_stack",len(sd)==1 or x.status=="abort" and len(sd)<=1,lambda:"on_stack %s and releases the stack %d times"%(s.ends(x),len(sd)))
            if ai and sd: s.ob("C09","stack-released-last","on_stack",sd[0]>ai[-1],"on_stack releases the stack before the closure has finished")
            s.ob("C01","sender-gives-up-value","on_stack",not(ai and s.drops(x,ft[1])),"on_stack drops the closure it has handed over")
            if w is not None and s.win and ai:
                up=[(i,e) for i,e in enumerate(x.events()) if e.k=="stack_call" and e.name=="update_teb_fields"]
                s.ob("C17","limits-handed-back","on_stack",len(up)==1 and up[0][0]>ai[-1] and (not sd or up[0][0]<sd[0]),"on_stack hands the limits back %d times"%len(up))
                for a,fl in zip(up[0][1].args[-2:] if len(up)==1 else [],("StackLimit","GuaranteedStackBytes")):
                    wt=Lin.atom(("teb",h3.wteb,fl)); ok=a[0]=="n" and x.facts.norm(a[1]-wt).const()==0
                    s.ob("C17","limits-handed-back","on_stack|"+fl,ok,lambda:"after on_stack the stack is told that %s is %s instead of %s"%(fl,cosim.fmt(a[1]) if a[0]=="n" else "unknown",cosim.fmt(wt)))
            n+=x.status=="return"
            if w is None:
                au=[e for e in x.events() if e.k=="asm_unwind"]
                if au: s.ob("C07","payload-reraised","on_stack",x.status=="unwind" and "asmpanic" in str(x.inflight) or self_user(x) or dtor_abort(x),lambda:"a panic unwinding out of the closure makes on_stack: it %s"%s.ends(x))
        s.ob("C14","can-return","on_stack",n>0,"no path of on_stack returns")
    def r_bounds(s):
        """trap_handler().stack_ptr_in_bounds(sp) <=> limit <= sp < base"""
        S=s.S; root=S.R["trap_handler"]; inb=S.R["in_bounds"]; con="stack_ptr_in_bounds"
        h=S.fresh()[0]
        base=Lin.atom(("sym","base(stack)")); limit=Lin.atom(("sym","limit(stack)")); p=Lin.atom(("sym","probe")); n=0
        tr,_=S.mrun(root,{"self":S.SELF},h.facts,S.self_store(h),None)
        for t in tr:
            s.ob("C11","trap-handler-returns","trap_handler",t.status=="return",lambda:"trap_handler %s"%s.ends(t))
            if t.status!="return": continue
            nm=[a for a,q in s.P.I[inb]["body"]["names"] if q[0]==2 and not q[1]]
            f=t.facts.add_ge(p)
            f=f.add_ge(Lin((1<<s.P.w)-1)-p); f=f.add_ge(limit); f=f.add_ge(base-limit)
            res,_=S.mrun(inb,{"self":("n",Lin.atom(("addr",("P","th"),()))),(nm[0] if nm else "stack_ptr"):("n",p)},f,{("P","th"):t.ret},None)
            for x in res:
                s.ob("C11","bounds-test-returns",con,x.status=="return",lambda:"%s %s"%(con,s.ends(x)))
                if x.status!="return": continue
                I=mir.Interp(s.P)
                for y,b in I.decide(x,x.ret) if x.ret[0] in("b","n") else []:
                    n+=1; F=y.facts
                    if b:
                        s.ob("C11","in-bounds-implies-inside",con,F.nonneg(p-limit) and F.nonneg(base-p-1),"stack_ptr_in_bounds can be true for an address outside [limit, base)")
                    else:
                        g=F.add_ge(p-limit); g=g.add_ge(base-p-1) if g is not None else None
                        s.ob("C11","inside-implies-in-bounds",con,g is None,"stack_ptr_in_bounds can be false for an address inside [limit, base)")
        s.ob("C11","bounds-test-decided",con,n>=2,"the bounds test could not be decided on any path")
    def r_accessors(s):
        I0=s.P
        for nm,mine in(("as_yield","Yield"),("as_return","Return")):
            for r in s.P.roots:
                if not re.search(r"CoroutineResult::<.*>::%s$"%nm,s.P.I[r]["path"]): continue
                b=s.P.I[r]["body"]; ty=b["locals"][1]; T=s.P.T[ty]
                for vi,v in enumerate(T["variants"]):
                    tok=("t","payload",v["fields"][0]["ty"]); arg=("agg",ty,vi,None,((0,tok),))
                    an=[a for a,q in b["names"] if q[0]==1 and not q[1]]
                    res,_=s.S.mrun(r,{(an[0] if an else "self"):arg},None,None,None)
                    for x in res:
                        if x.status!="return":
                            s.ob("C02","accessor-agrees",nm,self_user(x),lambda:"%s %s"%(nm,s.ends(x))); continue
                        n,p=s.variant(x.ret)
                        ok=(n=="Some" and same(p,tok)) if v["name"]==mine else n=="None"
                        s.ob("C02","accessor-agrees",nm,ok,lambda:"%s of %s(v) is %s"%(nm,v["name"],s.show(x.ret)))
                        d=len(s.drops(x,"payload")); s.ob("C02","accessor-drops-once",nm,d==(0 if v["name"]==mine else 1),"%s of %s(v) drops v %d times"%(nm,v["name"],d))
    def r_borrowed(s):
        """impl Stack for &mut S: every method forwards"""
        want={"base","limit"}|({"teb_fields","update_teb_fields"} if s.win else set()); seen=set()
        for r in s.P.roots:
            m=re.search(r"^<&(?:'\w+ )?mut \w+ as (?:\w+::)*Stack>::(\w+)$",s.P.I[r]["path"])
            if not m: continue
            nm=m.group(1); seen.add(nm); con="&mut S: "+nm
            res,_=s.S.mrun(r,None,None,None,None); b=s.P.I[r]["body"]
            an={q[0]:a for a,q in b["names"] if not q[1] and q[0]<=b["argc"]}
            bp=("C09","C17") if "teb" in nm else ("C09","C11") if nm=="limit" else ("C09","C04","C11","C14")
            for x in res:
                ev=[e for e in x.events() if e.k in("stack_get","stack_call")]
                good=[e for e in ev if e.name==nm]
                if x.status=="unwind" and self_user(x): continue
                s.ob(bp,"borrowed-stack-forwards",con,x.status=="return" and len(ev)==1 and len(good)==1,lambda:"%s calls %s of the stack it borrows and %s"%(con,[e.name for e in ev],s.ends(x)))
                if x.status!="return" or len(good)!=1: continue
                e=good[0]
                if nm in("base","limit"): s.ob(bp,"borrowed-stack-forwards",con+"|value",x.ret[0]=="n" and all(a[0]=="sym" and a[1].startswith(nm+"(") for a in x.ret[1].atoms()) and len(x.ret[1].t)==1 and x.ret[1].c==0,lambda:"%s returns %s"%(con,s.show(x.ret)))
                elif nm=="teb_fields": s.ob(bp,"borrowed-stack-forwards",con+"|value",x.ret==e.ret,lambda:"%s returns %s"%(con,s.show(x.ret)))
                else:
                    ps=[("n",Lin.atom(("sym",an.get(i)))) for i in(2,3)]
                    s.ob(bp,"borrowed-stack-forwards",con+"|arguments",list(e.args[-2:])==ps,lambda:"%s passes %s on"%(con,[s.show(a) for a in e.args[-2:]]))
        s.ob("C09","borrowed-stack-forwards","&mut S",want<=seen,"impl Stack for &mut S lacks %s"%sorted(want-seen))
    # ------------------------------------------------------------ all of it
    def guard(s,owner,fn,*a):
        """a scenario the analysis cannot follow decides nothing: it is reported as not analysed"""
        try: return fn(*a)
        except Exception as e:
            if not isinstance(e,(Unsupported,mir.Unsupported)):
                if os.environ.get("VERIF_STRICT"): raise
                e="internal: %r"%e
            s.lost=True; s.o.count("scenarios_not_analysed"); s.o.skipped.append("%s: %s scenarios not analysed (%s)"%(s.o.cfg,owner,str(e)[:160]))
    def all(s,groups=None):
        g=groups or GROUPS; s.lost=False
        if "creation" in g: s.guard("creation",s.r_creation)
        if "surface" in g: s.guard("public surface",s.r_surface)
        if "bounds" in g: s.guard("bounds test",s.r_bounds)
        if "accessors" in g: s.guard("accessor",s.r_accessors)
        if "borrowed" in g: s.guard("borrowed stack",s.r_borrowed)
        if "on_stack" in g: s.guard("on_stack",s.r_on_stack)
        if not set(g)-{"surface","creation","bounds","accessors","borrowed","on_stack"}: return
        hs=s.guard("entry",s.S.fresh)
        if hs is not None: s.ob("C04","creation-succeeds","layout classes",bool(hs),"no layout of a fresh coroutine was found")
        for k,h in enumerate(hs or []): s.one_layout(h,k,g)
    def widened(s,a,b):
        """a later suspended state in which everything that went from a to b by a constant step has made any number of further steps"""
        n=b.copy(); k=[0]
        def ty(v,i):
            T=s.P.T[v[1]] if isinstance(v[1],int) else None
            fs=T and (T["variants"][v[2] or 0]["fields"] if T["k"]=="adt" else None)
            return s.P.T[fs[i]["ty"]] if fs and isinstance(i,int) and i<len(fs) else None
        def go(x,y,t):
            if x[0]=="n" and y[0]=="n":
                d=step(x,y)
                if d is None or t is None or t["k"] not in("uint","int","adt"): return y
                bits=(t.get("size") or s.S.w)*8; hi=min((1<<(bits-(t["k"]=="int")))-1,1<<48); lo=0 if t["k"]!="int" else -hi-1
                k[0]+=1; q=Lin.atom(("sym","steps%s"%("" if bits>32 else k[0])))
                v=y[1]+q*d; f=n.facts.add_ge(q)
                for e in (Lin(hi)-v,v-Lin(lo)): f=f and f.add_ge(e)
                if f is None: return y
                n.facts=f; return ("n",v)
            if x[0]=="agg" and y[0]=="agg" and x[1:3]==y[1:3]:
                X=dict(x[4]); return y[:4]+(tuple((i,go(X[i],v,ty(y,i)) if i in X and isinstance(v,tuple) else v) for i,v in y[4]),)
            return y
        n.self=go(a.self,b.self,None)
        return n if k[0] else None
    def one_layout(s,h,k,g):
        S=s.S
        s.first_nums=s.nums([h.self])
        if "fresh" in g: s.guard("never-resumed",s.r_fresh,h)
        n=s.guard("reset",s.r_reset,h) if "done" in g or "fresh" in g else None
        if not set(g)&{"resume","extra","trap","parent","forced","drop","refused","done","release"}: return
        ys=s.guard("resume",s.r_resume,h,"yield","resume") or []
        dn=[]; full="resume" in g
        for a,x,i in s.guard("resume",s.r_resume,h,"complete","resume") or []: dn.append((a,x,i))
        if ys:
            a,x,i=ys[0]; y2=p2=tr=[]
            if full:
                y2=s.guard("resume",s.r_resume,a,"yield","resume",i) or []
                dn+=s.guard("resume",s.r_resume,a,"complete","resume",i) or []
            if "parent" in g or full: p2=s.guard("on_parent_stack",s.r_resume,a,"parent+yield","resume",i) or []
            if "trap" in g or full: tr=s.guard("trap handler",s.r_resume,a,"trap","resume",i) or []
            for b,_,j in tr[:1]:
                s.ob("C11","done-afterwards","setup_trap_handler",s.state(b)[1]==(1,),"the coroutine is not done after its trap handler returned")
            for b,_,j in y2[:1]: dn+=s.guard("resume",s.r_resume,b,"complete","resume",j) or []
            if counts(h.self,a.self) or y2 and counts(a.self,y2[0][0].self):     # state that counts: any number of switches later
                for b,_,j in (y2 or s.guard("resume",s.r_resume,a,"yield","resume",i) or [])[:1]:
                    if not counts(a.self,b.self): break
                    b=s.widened(a,b) or b
                    s.o.count("widened_states"); dn+=s.guard("resume",s.r_resume,b,"complete","resume",j) or []
                    s.guard("resume",s.r_resume,b,"yield","resume",j)
                    if "forced" in g: s.guard("forced unwind",s.r_forced,b,j,"force_unwind")
                    if "drop" in g: s.guard("drop",s.r_forced,b,j,"drop")
                    if "refused" in g: s.guard("into_stack",s.r_refused,b)
                    if "extra" in g: s.guard("further operations",s.r_extra,b)
            for b,_,j in p2[:1]: 
                if full: s.guard("resume",s.r_resume,b,"complete","resume",j)
                s.guard("on_parent_stack",s.r_resume,b,"parent+yield","resume",j)
            if "forced" in g:
                s.guard("forced unwind",s.r_forced,a,i,"force_unwind")
                if k==0:
                    for b,_,j in y2[:1]: s.guard("forced unwind",s.r_forced,b,j,"force_unwind")
                    for b,_,j in p2[:1]: s.guard("forced unwind",s.r_forced,b,j,"force_unwind")
            if "drop" in g: s.guard("drop",s.r_forced,a,i,"drop")
            if "refused" in g: s.guard("into_stack",s.r_refused,a)
            if "extra" in g: s.guard("further operations",s.r_extra,a)
            m=s.guard("reset",s.r_reset,a) if "done" in g else None
            if m is not None: s.guard("completed",s.r_done,m)
            for q in tr[:1]: dn.append(q)
        if "done" in g:
            for a,x,i in dn: s.guard("completed",s.r_done,a)
            if n is not None: s.guard("completed",s.r_done,n)
        if "release" in g:
            for a,x,i in dn[:1]+dn[-1:]: s.guard("release",s.r_release,a)
def step(x,y):
    d=(y[1]-x[1]).const()
    return d if d else None
def counts(x,y):
    """something went from one state to the other by a constant"""
    if x[0]=="n" and y[0]=="n": return step(x,y) is not None
    if x[0]=="agg" and y[0]=="agg" and x[1:3]==y[1:3]:
        X=dict(x[4]); return any(i in X and isinstance(v,tuple) and counts(X[i],v) for i,v in y[4])
    return False
GROUPS=("creation","bounds","accessors","borrowed","on_stack","fresh","resume","parent","trap","forced","drop","refused","extra","surface","done","release")
NEED=dict(C01=GROUPS,C02=("accessors","extra","fresh","resume","trap","forced","done"),C03=("on_stack","resume","parent","trap","forced"),C04=("creation","borrowed","fresh","resume"),
    C05=("fresh","forced","drop","release"),C06=("fresh","resume","forced","drop","done"),C07=("on_stack","resume","trap","forced"),C08=("on_stack","resume","trap","forced","drop"),
    C09=("surface","extra","creation","borrowed","on_stack","fresh","drop","refused","release"),C11=("bounds","borrowed","trap"),C12=("on_stack","resume","parent","trap","forced"),
    C14=("on_stack","borrowed","parent"),C15=("resume","parent","trap","forced"),C21=("resume",),C17=("creation","borrowed","on_stack","fresh","resume","parent","trap","forced","drop","refused","release"))
def dtor_abort(x): return x.status=="abort" and any(e.k=="abort" and "in a destructor" in str(e.why) for e in x.events())
def self_user(x): return any(e.k=="panic" and str(e.what).startswith("user") for e in x.events())
class Only:
    """keeps the obligations of one property"""
    def __init__(s,o,prop): s.o=o; s.prop=prop; s.cfg=o.cfg; s.skipped=o.skipped; s.count=o.count; s.set=o.set; s.sample=o.sample
    def ob(s,rule,con,ok,detail=""):
        if rule[:4]!=s.prop+":": return bool(ok)
        return s.o.ob(rule[4:],con,ok,detail)
class Any:
    """obligations that some path exists are met if one of the runs meets them"""
    RULES=("can-return","resume-reaches-coroutine","creation-succeeds")
    def __init__(s,o): s.o=o; s.cfg=o.cfg; s.skipped=o.skipped; s.count=o.count; s.set=o.set; s.sample=o.sample; s.got={}
    def ob(s,rule,con,ok,detail=""):
        if rule.split(":")[-1] in s.RULES:
            k=(rule,con)
            if k not in s.got or ok and not s.got[k][0]: s.got[k]=(bool(ok),detail)
            return bool(ok)
        return s.o.ob(rule,con,ok,detail)
    def settle(s):
        for (r,c),(ok,d) in s.got.items(): s.o.ob(r,c,ok,d)
def run_config(P,c,o,prop=None):
    """assembly conditions that nothing decides: one run per combination of outcomes"""
    todo=[{}]; seen=[]; o=Any(o)
    while todo and len(seen)<6:
        pol=todo.pop(0); seen.append(pol); P.asm_policy=pol; P.asm_asked=[]
        if prop is None: Rules(P,o).all()
        else: Rules(P,Only(o,prop)).all(NEED[prop])
        for k in P.asm_asked:
            if k not in pol:
                q=dict(pol); q[k]=False; q.update({j:pol.get(j,True) for j in P.asm_asked if j!=k and j in pol})
                if q not in seen and q not in todo: todo.append(q)
    o.settle()
    if todo: o.skipped.append("%s: %d combinations of branches in assembly not analysed"%(o.cfg,len(todo)))
