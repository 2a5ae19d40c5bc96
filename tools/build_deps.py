#!/usr/bin/env python3
"""Type-check std and the third-party dependencies for every analysed target (metadata only, MIR
kept), into /verif/build/sysroot/lib/rustlib/<target>/lib and /verif/build/deps/<target>."""
import os, sys, subprocess, shutil, glob, json, time, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE)
from targets import T
B=os.path.join(V,"build")
OURS=("cfg_if","scopeguard","libc","windows_sys","windows_targets")
def build(t):
    done=os.path.join(B,"deps",t,"DONE")
    if os.path.exists(done): return t,0,""
    t0=time.time()
    td=os.path.join(B,"tmp-"+t)
    env=dict(os.environ, RUSTFLAGS="-Zalways-encode-mir -Cdebuginfo=0", CARGO_TARGET_DIR=td, CARGO_TERM_COLOR="never",
             CARGO_NET_OFFLINE="true", __CARGO_DEFAULT_LIB_METADATA="verif")
    env.pop("CARGO_ENCODED_RUSTFLAGS",None)
    if "windows" in t and "gnu" in t:
        bd=os.path.join(B,"bin")
        env["PATH"]=bd+":"+env["PATH"]
    std="core,alloc,std,panic_unwind" if T[t]["std"] else "core,alloc"
    r=subprocess.run(["cargo","+nightly","check","--offline","-Zbuild-std="+std,"--target",t,"-j4",
                      "--message-format=json"],
                     cwd=os.path.join(V,"deps"),env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if r.returncode: return t,r.returncode,r.stderr[-3000:]
    sysd=os.path.join(B,"sysroot","lib","rustlib",t,"lib"); dd=os.path.join(B,"deps",t)
    for d in (sysd,dd):
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    ext={}
    for l in r.stdout.splitlines():
        if not l.startswith("{"): continue
        m=json.loads(l)
        if m.get("reason")!="compiler-artifact": continue
        for f in m["filenames"]:
            if not f.endswith(".rmeta") or "/%s/"%t not in f: continue
            src=m["target"]["src_path"]; name=m["target"]["name"].replace("-","_")
            instd="/rustlib/src/rust/library/" in src or "rustc-dep-of-std" in m.get("features",()) \
                  or not (name in OURS or name.startswith("windows_"))
            if name=="deps": continue
            shutil.copy(f, sysd if instd else dd)
            if not instd: ext[name]=os.path.basename(f)
    json.dump(ext,open(os.path.join(dd,"externs.json"),"w"))
    shutil.rmtree(td)
    open(done,"w").write("ok")
    return t,0,"%.0fs"%(time.time()-t0)
def dlltool():
    # *-windows-gnu std wants dlltool for its import libraries; nothing is linked here, so a stand-in
    # that writes an empty archive will do.
    bd=os.path.join(B,"bin"); os.makedirs(bd,exist_ok=True)
    for n in ("x86_64-w64-mingw32-dlltool","i686-w64-mingw32-dlltool","dlltool"):
        f=os.path.join(bd,n); t=f+".tmp%d"%os.getpid()
        open(t,"w").write("#!/usr/bin/env python3\nimport sys\na=sys.argv\nfor i,x in enumerate(a):\n    if x in('-l','--output-lib'): open(a[i+1],'wb').write(b'!<arch>\\n')\n")
        os.chmod(t,0o755); os.replace(t,f)
def main(ts):
    os.makedirs(B,exist_ok=True)
    dlltool()
    bad=0
    with ThreadPoolExecutor(4) as ex:
        for t,rc,msg in ex.map(build,ts):
            print(t,"ok" if rc==0 else "FAILED",msg,flush=True); bad|=rc
    return 1 if bad else 0
if __name__=="__main__": sys.exit(main(sys.argv[1:] or list(T)))
