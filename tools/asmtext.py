"""Text-level view of all assembly: inline asm terminators in MIR bodies and global_asm! items."""
import re
DATA=re.compile(r"^\.(data|bss|comm|lcomm|tbss|tdata|section\s+\S*(data|bss|tls)|quad|long|word|byte|zero|space|fill|8byte|4byte)\b")
def blocks(P):
    """(owner, [lines], terminator or None)"""
    out=[]
    for i in P.f["insts"]:
        for bb in (i.get("body") or {}).get("blocks",[]):
            t=bb["t"]
            if t.get("k")=="asm": out.append((i["path"],lines(t["tpl"]),t))
    for g in P.f["global_asm"]: 
        L=lines(g["tpl"]); n=[l for l in L if re.match(r"^[A-Za-z_.$][\w.$@]*:$",l)]
        out.append((n[0].rstrip(":") if n else "global_asm",L,None))
    return out
def lines(tpl):
    s="".join(x if isinstance(x,str) else "{%s}"%x[0] for x in tpl)
    out=[]
    for l in re.split(r"[\n;]",s):
        l=re.sub(r"(//|#\s|@\s).*$","",l).strip()
        if l: out.append(l)
    return out
def data_directives(P):
    for o,L,t in blocks(P):
        sec=None
        for l in L:
            if DATA.match(l): yield o,0,l
def symbol_stores(P):
    STORE=re.compile(r"^(mov\w*|add|sub|xchg|inc|dec|and|or|pop|cmpxchg|lock\b.*)\s+(\w+ ptr )?\[?\s*(rip\s*\+\s*)?([A-Za-z_.][\w.]*)\s*(\+\s*rip)?\s*\]?\s*(,|$)",re.I)
    regs=re.compile(r"^(r[a-z0-9]+|e[a-z][a-z]|x\d+|w\d+|sp|a\d|t\d|s\d+|ra|fp|lr|pc|\w?s)$",re.I)
    for o,L,t in blocks(P):
        for l in L:
            m=STORE.match(l)
            if m and "[" in l.split(",")[0] and not regs.match(m.group(4)): yield o,l
