"""Type-checks and assembles the crate and a witness that instantiates it (objects only, nothing is linked or run)."""
import os, subprocess, tempfile, json
import facts
def rustc(args,cwd=None,stable=False):
    env=dict(os.environ)
    if stable: env["RUSTC_BOOTSTRAP"]="-1"      # refuse nightly-only features
    return subprocess.run(["rustc","+nightly"]+args,cwd=cwd or facts.REPO,env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
def lib(t,features,debug,d,obj=True,extra=()):
    """compile the crate in d; returns (ok, stderr)"""
    a=facts.rustc_args(t,features,debug)+["-C","opt-level=1","-C","debuginfo=0"]+list(extra)
    r=rustc([os.path.join(facts.REPO,"src/lib.rs")]+a+["--out-dir",d,"--emit","metadata,obj" if obj else "metadata"],stable="asm-unwind" not in features)
    return r.returncode==0,r.stderr
def client(t,features,src,d,obj=False,extra=(),name="witness"):
    """compile a client crate against the metadata in d; returns (ok, json diagnostics)"""
    fs=facts.closure(features)
    a=["--crate-name",name,"--crate-type","lib","--edition","2021","--target",t,"--sysroot",os.path.join(facts.B,"sysroot"),
       "-C","panic="+("unwind" if facts.T[t]["std"] else "abort"),"-Awarnings",
       "--extern","corosensei="+os.path.join(d,"libcorosensei.rmeta"),"-L","dependency="+d,"-L","dependency="+os.path.join(facts.B,"deps",t),
       "--error-format=json","--out-dir",d,"--emit","obj" if obj else "metadata"]
    for f in sorted(fs): a+=["--cfg",'feature="%s"'%f]
    r=rustc([src]+a+list(extra),stable="asm-unwind" not in features)
    ds=[]
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try: ds.append(json.loads(l))
            except ValueError: pass
    return r.returncode==0,ds,r.stderr
