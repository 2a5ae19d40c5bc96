"""C13: compile-fail witnesses with compiling twins; rustc's type checker decides."""
import os, tempfile, re
from concurrent.futures import ThreadPoolExecutor
import facts, codegen, configs, par
from targets import T
PRE='''#![no_std]
#![allow(dead_code,unused)]
extern crate alloc;
HEADSTD
use alloc::rc::Rc; use alloc::boxed::Box; use alloc::string::String;
use core::cell::{Cell,RefCell}; use core::marker::PhantomData;
use corosensei::{Coroutine,CoroutineResult,Yielder,on_stack};
use corosensei::stack::{Stack,StackPointer};
use corosensei::trap::CoroutineTrapHandler;
pub struct St<M>(StackPointer,PhantomData<M>);
unsafe impl<M> Stack for St<M> {
    fn base(&self)->StackPointer{self.0} fn limit(&self)->StackPointer{self.0}
    #[cfg(windows)] fn teb_fields(&self)->corosensei::stack::StackTebFields{loop{}}
    #[cfg(windows)] fn update_teb_fields(&mut self,_:usize,_:usize){}
}
pub type Free=St<u8>;               // Send + Sync
pub type NoSync=St<Cell<u8>>;       // Send, not Sync
pub fn mk<T>()->T{loop{}}
pub fn send<T:Send>(){} pub fn sync<T:Sync>(){} pub fn clone<T:Clone>(){} pub fn copy<T:Copy>(){} pub fn any<T>(){} pub fn send_val<T:Send>(_:T){} pub fn take<T>(_:T){}
'''
LT="lifetime"       # borrow checker errors without a code
# (name, construct, code with @@ , text that must be rejected, text that must compile, accepted error codes)
W=[]
def w(name,con,code,bad,good,codes): W.append((name,con,code,bad,good,set(codes)))
for i,S in(("own stack","Free"),("stack borrowed mutably","&'static mut Free")):
    w("coroutine-not-send|"+i,"Coroutine","pub fn t(){ @@::<Coroutine<(),(),(),%s>>() }"%S,"send","any",["E0277"])
w("coroutine-not-send|generic","Coroutine","pub fn t<I:Send+Sync,Y:Send+Sync,R:Send+Sync,S:Stack+Send+Sync>(){ @@::<Coroutine<I,Y,R,S>>() }","send","any",["E0277"])
w("mut-ref-to-coroutine-not-send","Coroutine","pub fn t<I:Send+Sync,Y:Send+Sync,R:Send+Sync,S:Stack+Send+Sync>(){ @@::<&mut Coroutine<I,Y,R,S>>() }","send","any",["E0277"])
w("coroutine-sync-needs-sync-stack|concrete","Coroutine","pub fn t(){ sync::<Coroutine<(),(),(),@@>>() }","NoSync","Free",["E0277"])
w("coroutine-sync-needs-sync-stack|generic","Coroutine","pub fn t<S:Stack @@>(){ sync::<Coroutine<(),(),(),S>>() }","+Send","+Sync",["E0277"])
w("yielder-not-shared|send of reference","Yielder","pub fn t<I:Send+Sync,Y:Send+Sync>(){ @@::<&Yielder<I,Y>>() }","send","any",["E0277"])
w("yielder-not-shared|sync","Yielder","pub fn t<I:Send+Sync,Y:Send+Sync>(){ @@::<Yielder<I,Y>>() }","sync","any",["E0277"])
w("yielder-not-shared|captured","Yielder","pub fn t(c: &Yielder<(),()>){ @@(||{ c.suspend(()) }) }","send_val","take",["E0277"])
w("yielder-not-cloned","Yielder","pub fn t(){ @@::<Yielder<(),()>>() }","clone","any",["E0277"])
w("coroutine-not-cloned","Coroutine","pub fn t(){ @@::<Coroutine<(),(),(),Free>>() }","clone","any",["E0277"])
w("yielder-not-constructed","Yielder","pub fn t()->Yielder<(),()>{ @@ }","Default::default()","mk()",["E0277"])
for fn,args,st in(("with_stack","mk::<Free>(),f","Free"),("new","f","corosensei::stack::DefaultStack")):
    for drop,what in(("F","closure"),("I","input"),("Y","yield"),("R","return")):
        b=lambda x: "'static" if x!=drop else "@@"
        code="pub fn t<F,I,Y,R>(f:F) where F:FnOnce(&Yielder<I,Y>,I)->R, "+", ".join("%s:Sized+%s"%(x,b(x)) for x in"FIYR")+" { let _=Coroutine::<I,Y,R,%s>::%s(%s); }"%(st,fn,args)
        code=code.replace("Sized+@@","@@")
        w("static-%s|%s"%(what,fn),"Coroutine::"+fn,("#[cfg(feature=\"default-stack\")] " if fn=="new" else "")+code,"Sized","'static",["E0310"])
    w("static-closure|%s borrowing a local"%fn,"Coroutine::"+fn,("#[cfg(feature=\"default-stack\")] " if fn=="new" else "")+"pub fn t()->Coroutine<(),(),(),%s>{ let s=Cell::new(1); let r=@@; let %s=(|_:&Yielder<(),()>,_:()|()); Coroutine::%s(%s) }"%(st,"f","with_stack" if fn=="with_stack" else "new",args.replace("f","move |_,_|{ take(r) }") if fn=="with_stack" else "move |_,_|{ take(r) }"),"&s","s",["E0597","E0515","E0373",LT])
w("static-closure|generic lifetime","Coroutine::with_stack","pub fn t<'a>(x:&@@ str){ let _=Coroutine::<(),(),(),Free>::with_stack(mk(),move|_,_|{ take(x) }); }","'a","'static",["E0521","E0310",LT])
w("static-input|generic lifetime","Coroutine::with_stack","pub fn t<'a>(_:&'a str){ let _=Coroutine::<&@@ str,(),(),Free>::with_stack(mk(),move|_,_|{}); }","'a","'static",["E0521","E0310",LT])
w("static-yield|generic lifetime","Coroutine::with_stack","pub fn t<'a>(_:&'a str){ let _=Coroutine::<(),&@@ str,(),Free>::with_stack(mk(),move|_,_|{}); }","'a","'static",["E0521","E0310",LT])
w("static-return|generic lifetime","Coroutine::with_stack","pub fn t<'a>(_:&'a str){ let _=Coroutine::<(),(),&@@ str,Free>::with_stack(mk(),move|_,_|{ mk() }); }","'a","'static",["E0521","E0310",LT])
w("parent-stack-needs-send|generic","Yielder::on_parent_stack","pub fn t<F:FnOnce() @@>(y:&Yielder<(),()>,f:F){ y.on_parent_stack(f) }","+Sync","+Send",["E0277"])
w("parent-stack-needs-send|yielder","Yielder::on_parent_stack","pub fn t(y:&Yielder<(),()>){ y.on_parent_stack(||{ @@ }) }","y.suspend(())","()",["E0277"])
w("parent-stack-needs-send|rc","Yielder::on_parent_stack","pub fn t(y:&Yielder<(),()>,r:@@<u8>){ y.on_parent_stack(move||{ take(r) }) }","Rc","Box",["E0277"])
for op,a in(("resume","c.resume(())"),("force_unwind","c.force_unwind()")):
    w("exclusive-access|"+op,"Coroutine::"+op,"pub fn t(c:@@ Coroutine<(),(),(),Free>){ %s; }"%a,"&","&mut",["E0596"])
w("exclusive-access|force_reset","Coroutine::force_reset","pub fn t(c:@@ Coroutine<(),(),(),Free>){ unsafe{ c.force_reset() } }","&","&mut",["E0596"])
w("two-resumers","Coroutine::resume","pub fn t(c:&mut Coroutine<(),(),(),Free>){ let a=&mut *c; @@ a.resume(()); }","c.resume(());","",["E0499"])
w("consumed-by-into-stack","Coroutine::into_stack","pub fn t(c:Coroutine<(),(),(),Free>){ let mut c=c; let s=@@.into_stack(); c.resume(()); }","c","mk::<Coroutine<(),(),(),Free>>()",["E0382"])
w("into-stack-not-by-ref","Coroutine::into_stack","pub fn t(c:@@ Coroutine<(),(),(),Free>)->Free{ c.into_stack() }","&mut","",["E0507"])
w("yielder-stays-inside|returned","Coroutine::with_stack","pub fn t(){ let _=Coroutine::<(),(),&'static Yielder<(),()>,Free>::with_stack(mk(),|y,_| @@); }","y","mk()",["E0521","E0310",LT])
w("yielder-stays-inside|stored","Coroutine::with_stack","pub fn t(o:Rc<Cell<Option<&'static Yielder<(),()>>>>){ let _=Coroutine::<(),(),(),Free>::with_stack(mk(),move|y,_| o.set(@@)); }","Some(y)","None",["E0521","E0310",LT])
w("yielder-stays-inside|moved out","Coroutine::with_stack","pub fn t(o:Rc<RefCell<Option<Yielder<(),()>>>>){ let _=Coroutine::<(),(),(),Free>::with_stack(mk(),move|y,_| { *o.borrow_mut()=@@; }); }","Some(*y)","None",["E0507"])
w("yielder-stays-inside|lifetime chosen by caller","Coroutine::with_stack","pub fn t<F>(f:F) where F:@@ FnOnce(&'a Yielder<(),()>,())+'static { let _=Coroutine::<(),(),(),Free>::with_stack(mk(),f); }".replace("'a Yielder","LT Yielder"),"","for<'a>",["E0277","E0308",LT])
W[-1]=(W[-1][0],W[-1][1],"pub fn t<F>(f:F) where F:@@ { let _=Coroutine::<(),(),(),Free>::with_stack(mk(),f); }","FnOnce(&'static Yielder<(),()>,())+'static","for<'a> FnOnce(&'a Yielder<(),()>,())+'static",{"E0277","E0308",LT})
C="Coroutine<%s,Free>"
def var(name,con,ty,co):
    """ty with % for the varying place; co: 'co' (shrinking must be accepted, growing rejected) or 'contra'"""
    L,S=ty%"&'static str",ty%"&'a str"
    if co=="contra": L,S=S,L
    w(name,con,"pub fn t<'a>(_:&'a str,c:@@){ fn id<'a>(_:&'a str,c:%s){} }"%S,"%s){ let _:%s=c; } pub fn u<'a>(_:&'a str,c:%s"%(S,L,S),"%s){ let _:%s=c; } pub fn u<'a>(_:&'a str,c:%s"%(L,S,S),[LT])
var("covariant-in-yield","Coroutine","Coroutine<(),%s,(),Free>","co")
var("covariant-in-return","Coroutine","Coroutine<(),(),%s,Free>","co")
var("contravariant-in-input","Coroutine","Coroutine<%s,(),(),Free>","contra")
w("yielder-not-covariant-in-yield","Yielder","pub fn t<'a>(_:&'a str,c:&Yielder<(),&'static str>){ let _:&Yielder<(),&@@ str>=c; }","'a","'static",[LT])
w("yielder-not-contravariant-in-input","Yielder","pub fn t<'a>(_:&'a str,c:&Yielder<&@@ str,()>){ let _:&Yielder<&'static str,()>=c; }","'a","'static",[LT])
w("trap-handler-not-covariant","CoroutineTrapHandler","pub fn t<'a>(_:&'a str,c:CoroutineTrapHandler<&'static str>){ let _:CoroutineTrapHandler<&@@ str>=c; }","'a","'static",[LT])
w("stack-stays-borrowed","Coroutine::with_stack","pub fn t(mut s:Free){ let mut c=Coroutine::<(),(),(),&mut Free>::with_stack(&mut s,|_,_|()); @@; c.resume(()); }","drop(s)","()",["E0505"])
w("unsafe-stays-unsafe|force_reset","Coroutine::force_reset","pub fn t(mut c:Coroutine<(),(),(),Free>){ @@{ c.force_reset() } }","","unsafe",["E0133"])
w("unsafe-stays-unsafe|setup_trap_handler","CoroutineTrapHandler::setup_trap_handler","pub fn t(c:&Coroutine<(),(),(),Free>){ @@{ let _=c.trap_handler().setup_trap_handler(||()); } }","","unsafe",["E0133"])
w("unsafe-stays-unsafe|Stack","stack::Stack","pub struct X; @@ impl Stack for X { fn base(&self)->StackPointer{mk()} fn limit(&self)->StackPointer{mk()} #[cfg(windows)] fn teb_fields(&self)->corosensei::stack::StackTebFields{loop{}} #[cfg(windows)] fn update_teb_fields(&mut self,_:usize,_:usize){} }","","unsafe",["E0200"])
w("trap-handler-static-closure","CoroutineTrapHandler::setup_trap_handler","pub fn t<F>(c:&Coroutine<(),(),(),Free>,f:F) where F:FnOnce()+@@ { unsafe{ let _=c.trap_handler().setup_trap_handler(f); } }","Sized","'static",["E0310"])
# uses that must keep compiling
POS={
"sync with a sync stack":"pub fn t<S:Stack+Sync>(){ sync::<Coroutine<(),(),(),S>>() }",
"sync with the default stack":"#[cfg(feature=\"default-stack\")] pub fn t(){ sync::<Coroutine<(),(),()>>(); send::<corosensei::stack::DefaultStack>(); sync::<corosensei::stack::DefaultStack>() }",
"non-Send captures, input, yield and return":"pub fn t(r:Rc<u8>){ let mut c=Coroutine::<Rc<u8>,Rc<u8>,Rc<u8>,Free>::with_stack(mk(),move|y,i|{ y.suspend(i); r }); c.resume(mk()); }",
"borrowing and non-Send closures on other stacks":"pub fn t(r:Rc<u8>,s:&mut String)->Rc<u8>{ on_stack(mk::<Free>(),||{ s.push('x'); r.clone() }) }",
"on_parent_stack with borrows and any result":"pub fn t(y:&Yielder<(),()>,s:&mut String)->Rc<u8>{ y.on_parent_stack(||{ s.push('x'); mk() }) }",
"reusing a borrowed stack":"pub fn t(mut s:Free){ { let mut c=Coroutine::<(),(),(),&mut Free>::with_stack(&mut s,|_,_|()); c.resume(()); } let c=Coroutine::<(),(),(),Free>::with_stack(s,|_,_|()); let _:Free=c.into_stack(); }",
"queries through a shared reference":"pub fn t(c:&Coroutine<u8,u16,u32,Free>)->(bool,bool,bool){ (c.started(),c.done(),c.trap_handler().stack_ptr_in_bounds(1)) }",
"results":"pub fn t(mut c:Coroutine<u8,u16,u32,Free>)->(Option<u16>,Option<u32>){ (c.resume(1).as_yield(),c.resume(2).as_return()) }",
"nested coroutines and unnameable closures":"pub fn t(){ let mut c=Coroutine::<(),(),Coroutine<(),(),(),Free>,Free>::with_stack(mk(),|y,_|{ y.suspend(()); Coroutine::with_stack(mk(),|y,_| y.suspend(())) }); c.resume(()); }",
"default stack constructor":"#[cfg(feature=\"default-stack\")] pub fn t(){ let mut c=Coroutine::new(|y:&Yielder<u8,u16>,x:u8|->u32{ y.suspend(x as u16) as u32 }); match c.resume(1){CoroutineResult::Yield(_)=>{} CoroutineResult::Return(_)=>{}} }",
"unwinding operations":"#[cfg(feature=\"unwind\")] pub fn t(c:&mut Coroutine<u8,u16,u32,Free>){ c.force_unwind() }",
}
def comp(cfg,d,name,code):
    t,f,dbg=cfg
    src=os.path.join(d,re.sub(r"\W+","_",name)+".rs")
    open(src,"w").write(PRE.replace("HEADSTD","")+code+"\n")
    ok,ds,e=codegen.client(t,f,src,d,name=re.sub(r"\W+","_","w_"+name))
    errs=[(x["code"]["code"] if x.get("code") else None,x["message"]) for x in ds if x.get("level")=="error" and not x["message"].startswith("aborting due")]
    return ok,errs,e
def one(a):
    cfg,d,it=a
    if it[0]=="pos":
        ok,errs,e=comp(cfg,d,"pos_"+it[1],it[2])
        return [("use-compiles",it[1],ok,"a correct use no longer compiles: %s"%(errs[:1] or e[:300]))]
    name,con,code,bad,good,codes=it[1]; out=[]
    ok,errs,e=comp(cfg,d,"good_"+name,code.replace("@@",good))
    out.append(("twin-compiles",con+"|"+name,ok,"the correct counterpart no longer compiles: %s"%(errs[:1] or e[:300])))
    if ok:
        ok,errs,e=comp(cfg,d,"bad_"+name,code.replace("@@",bad))
        out.append(("misuse-rejected",con+"|"+name,not ok,"rustc accepts the misuse: "+code.replace("@@",bad)))
        if not ok:
            kinds=sorted({x or "lifetime" for x,_ in errs})
            if not set(kinds)&codes: out.append(("rejected-with-another-error",con+"|"+name,True,""))
    return out
def run(c):
    X="x86_64-unknown-linux-gnu"; D,N,A,Z=configs.DEF,configs.NOU,configs.ASM,configs.NONE
    cfgs=[(X,D,False),(X,N,False),(X,A,False),(X,Z,False),("i686-unknown-linux-gnu",D,False),("x86_64-pc-windows-msvc",D,False)]
    if c.tier=="thorough": cfgs=configs.all_configs(debug=(False,))
    facts.ensure(sorted({x[0] for x in cfgs}))
    c.explain="Each misuse is a small client of the public API that rustc must reject with the expected kind of error; an identical client without the misuse must compile, so that the rejection is due to the misuse. The crate is type-checked from its current source for every configuration."
    c.assumptions=["rustc's type and borrow checkers are sound"]
    n=0
    for cfg in cfgs:
        with tempfile.TemporaryDirectory(dir=facts.B) as d:
            ok,e=codegen.lib(*cfg,d,obj=False)
            if not ok: c.skipped.append("%s: does not build (decided by C19)"%configs.name(cfg)); continue
            items=[("w",x) for x in W]+[("pos",k,v) for k,v in POS.items()]
            if "default-stack" not in facts.closure(cfg[1]): items=[x for x in items if not(x[0]=="w" and "default-stack" in x[1][2])]
            with ThreadPoolExecutor(8) as ex:
                for r in ex.map(one,[(cfg,d,x) for x in items]):
                    for rule,con,ok,det in r: c.ob(rule,con,ok,det,configs.name(cfg)); n+=1
    par.run(c,"surface","worker",cfgs)
    c.count["configurations"]=len(cfgs); c.count["witness_programs"]=len(W); c.count["positive_programs"]=len(POS)
    c.sets["targets"]|={x[0] for x in cfgs}
    c.finish(50)
