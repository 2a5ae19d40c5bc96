"""Runs the rustc driver on /repo for one configuration and loads the facts it dumps."""
import os, sys, json, subprocess, tempfile, fcntl, hashlib
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE)
from targets import T
B=os.path.join(V,"build")
REPO=os.environ.get("VERIF_REPO","/repo")
# std functions whose bodies are not needed: they are modelled (see mir.py) or only reached on
# panic paths.
STOP=["core::panicking","core::fmt","alloc::fmt","std::io","std::panicking","std::panic::","core::panic::",
      "alloc::alloc","alloc::raw_vec","std::rt","std::thread","alloc::vec","alloc::string","std::sync",
      "core::option::expect_failed","core::option::unwrap_failed","core::result::unwrap_failed","alloc::boxed",
      "core::unicode","core::str","std::sys","std::backtrace","core::ub_checks","core::intrinsics::const_eval_select",
      "alloc::rc","alloc::sync","alloc::collections","std::collections","std::env","std::time"]
_sys=None
def sysroot():
    global _sys
    if _sys is None:
        _sys=subprocess.run(["rustc","+nightly","--print","sysroot"],stdout=subprocess.PIPE,text=True,check=True).stdout.strip()
    return _sys
def ensure(targets=()):
    """Build the driver and the dependency metadata if setup_cmd has not."""
    os.makedirs(B,exist_ok=True)
    with open(os.path.join(B,".lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        src=os.path.join(V,"extract","main.rs"); exe=os.path.join(B,"extract"); st=exe+".src"
        h=hashlib.sha256(open(src,"rb").read()).hexdigest()
        if not (os.path.exists(exe) and os.path.exists(st) and open(st).read()==h):
            subprocess.run(["rustc","+nightly","--edition","2021","-O","-Awarnings",src,"-o",exe+".new","--out-dir",B] if 0 else
                           ["rustc","+nightly","--edition","2021","-O","-Awarnings",src,"-o",exe+".new"],check=True)
            os.replace(exe+".new",exe); open(st,"w").write(h)
        miss=[t for t in targets if not os.path.exists(os.path.join(B,"deps",t,"DONE"))]
        if miss:
            import build_deps
            if build_deps.main(miss): raise SystemExit("cannot prepare "+" ".join(miss))
def arm_cfgs(t):
    """What build.rs would emit (its probes, resolved for the targets analysed here)."""
    if T[t]["arch"]!="arm": return []
    c=[]
    if t.startswith("thumb"):
        c+=["is_thumb","fp_is_r7"] if 0 else ["is_thumb"]
    return c
_probe={}
def probe(t,args):
    k=(t,tuple(args))
    if k in _probe: return _probe[k]
    with tempfile.TemporaryDirectory(dir=B) as d:
        f=os.path.join(d,"p.rs")
        open(f,"w").write("#![no_std]\n#![allow(stable_features)]\n"+args[0])
        r=subprocess.run(["rustc","+nightly","--sysroot",os.path.join(B,"sysroot"),"--target",t,"--crate-type","lib","--edition","2021",
                          "--emit","metadata","-o",os.path.join(d,"o"),f],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    _probe[k]=r.returncode==0
    return _probe[k]
def build_rs_cfgs(t):
    """Same probes as build.rs, answered by the compiler for this target."""
    if T[t]["arch"]!="arm": return []
    asm='pub fn f(){ unsafe{ core::arch::asm!("", out("%s") _) } }'
    r7,r9,r11=(probe(t,[asm%r]) for r in("r7","r9","r11"))
    c=[]
    if not r9: c.append("r9_reserved")
    if (r7,r11)==(False,True): c.append("fp_is_r7")
    feats=subprocess.run(["rustc","+nightly","--print","cfg","--target",t],stdout=subprocess.PIPE,text=True).stdout
    if 'target_feature="thumb-mode"' in feats: c.append("is_thumb")
    if 'target_feature="thumb2"' in feats: c.append("has_thumb2")
    return c
def edition():
    for l in open(os.path.join(REPO,"Cargo.toml")):
        if l.strip().startswith("edition"): return l.split('"')[1]
    return "2021"
def cargo_toml():
    import tomllib
    return tomllib.load(open(os.path.join(REPO,"Cargo.toml"),"rb"))
def closure(features):
    """the features cargo would enable, according to /repo/Cargo.toml"""
    ft=cargo_toml().get("features",{})
    fs=set(); work=list(features)
    while work:
        f=work.pop()
        if f in fs: continue
        fs.add(f)
        for x in ft.get(f,[]): work.append(x[4:] if x.startswith("dep:") else x.split("/")[0].rstrip("?"))
    return fs
def rustc_args(t,features,debug):
    """features: closed set of cargo features."""
    fs=closure(features)
    a=["--crate-name","corosensei","--crate-type","lib","--edition",edition(),"--target",t,"--sysroot",os.path.join(B,"sysroot"),
       "--cap-lints","allow","-C","debug-assertions="+("on" if debug else "off"),"-C","panic=unwind" if T[t]["std"] else "panic=abort"]
    for f in sorted(fs):
        a+=["--cfg",'feature="%s"'%f]
    for c in build_rs_cfgs(t): a+=["--cfg",c]
    d=os.path.join(B,"deps",t); ext=json.load(open(os.path.join(d,"externs.json")))
    for n,f in ext.items():
        if n in("libc","windows_sys") and "default-stack" not in fs: continue
        if n in("cfg_if","scopeguard","libc","windows_sys"): a+=["--extern","%s=%s"%(n,os.path.join(d,f))]
    a+=["-L","dependency="+d]
    return a
class BuildError(Exception): pass
def extract(t,features,debug=False):
    """Facts for one configuration. Raises BuildError(stderr) if it does not type-check."""
    ensure([t])
    with tempfile.TemporaryDirectory(dir=B) as d:
        out=os.path.join(d,"o.json")
        env=dict(os.environ,VERIF_OUT=out,VERIF_STOP=",".join(STOP),LD_LIBRARY_PATH=os.path.join(sysroot(),"lib"))
        cmd=[os.path.join(B,"extract"),os.path.join(REPO,"src/lib.rs")]+rustc_args(t,features,debug)+["-Zmir-opt-level=0","-o",os.path.join(d,"x.rmeta"),"--emit","metadata"]
        r=subprocess.run(cmd,cwd=REPO,env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        if r.returncode or not os.path.exists(out): raise BuildError(r.stderr)
        return json.load(open(out))
if __name__=="__main__":
    import time
    t=sys.argv[1]; f=[x for x in sys.argv[2].split(",") if x]; 
    t0=time.time(); x=extract(t,f,len(sys.argv)>3)
    json.dump(x,open("/tmp/w/facts.json","w"))
    print(time.time()-t0, len(x["insts"]), len(x["types"]), len(x["roots"]), os.path.getsize("/tmp/w/facts.json"))
