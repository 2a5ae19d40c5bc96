"""Configurations: target x features x debug assertions."""
from targets import T
def name(c): return "%s[%s]%s"%(c[0],"+".join(c[1]) or "-","+debug" if c[2] else "")
DEF=("default-stack","unwind"); NOU=("default-stack",); ASM=("asm-unwind","default-stack","unwind"); NONE=(); UNW=("unwind",)
def all_configs(debug=(False,True),targets=None,feats=None):
    out=[]
    for t in T:
        if targets and t not in targets: continue
        fs=[DEF,NOU,ASM,NONE] if T[t]["std"] else [NONE]
        for f in fs:
            if feats is not None and f not in feats: continue
            for d in debug: out.append((t,f,d))
    return out
QUICK=["x86_64-unknown-linux-gnu","i686-unknown-linux-gnu","aarch64-unknown-linux-gnu","armv7-unknown-linux-gnueabihf",
       "riscv64gc-unknown-linux-gnu","loongarch64-unknown-linux-gnu","x86_64-pc-windows-msvc","i686-pc-windows-msvc"]
