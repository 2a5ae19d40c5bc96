"""Unwind information of the trampolines, read from the directives in the global assembly, and the
frame-pointer chain: what an unwinder standing at a return address recovers as the caller's state."""
import re, collections
from lin import Lin
from asm import num, is_junk, junk, Unsupported
def const(t):
    v=num(t)
    if v is None: raise Unsupported("constant `%s` in unwind information"%t)
    return v
class Malformed(Exception):
    """bytes that no unwinder can make sense of"""
def byte(bs):
    if not bs: raise Malformed("it ends in the middle of an instruction")
    return bs.pop(0)
def sleb(bs):
    r=0;sh=0
    while True:
        b=byte(bs); r|=(b&0x7f)<<sh; sh+=7
        if not b&0x80: return r-(1<<sh) if b&0x40 else r
def uleb(bs):
    r=0;sh=0
    while True:
        b=byte(bs); r|=(b&0x7f)<<sh; sh+=7
        if not b&0x80: return r
def fixed(bs,n,signed=False): return int.from_bytes(bytes(byte(bs) for _ in range(n)),"little",signed=signed)
def dreg(a,n):
    if n not in a.dwarf: raise Malformed("register %d does not exist"%n)
    return a.dwarf[n]
def dcheck(a,bs):
    """the operations of an expression, decoded without being evaluated"""
    try: dwarf_expr(a,bs,collections.defaultdict(lambda:Lin.atom(("sym","r"))),lambda x:Lin.atom(("sym","m")))
    except Unsupported: pass
def escape(a,I,bs,stack):
    """call frame instructions given as bytes"""
    bs=list(bs); daf=-a.w
    while bs:
        op=byte(bs); lo=op&0x3f
        if op>>6==1: raise Unsupported("DW_CFA_advance_loc in .cfi_escape")
        if op>>6==2: I.rules[dreg(a,lo)]=uleb(bs)*daf
        elif op>>6==3: I.rules.pop(dreg(a,lo),None)
        elif op==0: pass
        elif op==0x05: r=dreg(a,uleb(bs)); I.rules[r]=uleb(bs)*daf
        elif op==0x06 or op==0x08: I.rules.pop(dreg(a,uleb(bs)),None)
        elif op==0x07: I.rules[dreg(a,uleb(bs))]="undef"
        elif op==0x09: r=dreg(a,uleb(bs)); I.rules[r]=("reg",dreg(a,uleb(bs)))
        elif op==0x0a: stack.append((I.cfa,I.expr,dict(I.rules)))
        elif op==0x0b:
            if not stack: raise Malformed("a state is restored that was never remembered")
            I.cfa,I.expr,I.rules=stack.pop()
        elif op==0x0c: r=dreg(a,uleb(bs)); I.cfa=(r,uleb(bs)); I.expr=None
        elif op==0x0d: I.cfa=(dreg(a,uleb(bs)),I.cfa[1])
        elif op==0x0e: I.cfa=(I.cfa[0],uleb(bs))
        elif op==0x0f:
            n=uleb(bs); I.expr=[byte(bs) for _ in range(n)]; dcheck(a,I.expr)
        elif op in(0x10,0x16):
            r=dreg(a,uleb(bs)); n=uleb(bs); e=[byte(bs) for _ in range(n)]; I.rules[r]=("expr" if op==0x10 else "valexpr",e)
        elif op==0x11: r=dreg(a,uleb(bs)); I.rules[r]=sleb(bs)*daf
        elif op==0x12: r=dreg(a,uleb(bs)); I.cfa=(r,sleb(bs)*daf); I.expr=None
        elif op==0x13: I.cfa=(I.cfa[0],sleb(bs)*daf)
        elif op==0x14: r=dreg(a,uleb(bs)); I.rules[r]=("val",uleb(bs)*daf)
        elif op==0x15: r=dreg(a,uleb(bs)); I.rules[r]=("val",sleb(bs)*daf)
        elif op==0x2e: uleb(bs)
        elif op in(0x01,0x02,0x03,0x04): raise Unsupported("DW_CFA_advance_loc in .cfi_escape")
        elif op==0x2d: raise Unsupported("DW_CFA %#x"%op)
        else: raise Malformed("%#x is no call frame instruction"%op)
class Info:
    """unwind information covering one instruction index of an image"""
    def __init__(s): s.signal=False
def procs(im,start,end):
    """[(first, last+1, [(idx, directive)])] of regions between start and end directives"""
    out=[];cur=None
    for i,d in im.dirs:
        if re.match(r"\.%s\b"%start,d): cur=[i,None,[]]
        elif re.match(r"\.%s\b"%end,d):
            if cur: cur[1]=i; out.append(tuple(cur))
            cur=None
        elif cur: cur[2].append((i,d))
    return out
def reg(a,t):
    t=t.strip().lstrip("%").lower()
    n=num(t)
    if n is not None:
        return a.dwarf.get(n,"dw%d"%n)      # a register number this code has no use for
    if t in("rip","eip","pc") and a.pc: return a.pc
    if t in a.names: return a.names[t]
    if "$"+t in a.names: return a.names["$"+t]
    raise Unsupported("register `%s` in unwind information"%t)
def dwarf(a,im,pos):
    """unwinding rules in force at instruction index pos (None if not covered)"""
    for lo,hi,ds in procs(im,"cfi_startproc","cfi_endproc"):
        if not lo<=pos<hi: continue
        I=Info(); I.all=[d for _,d in ds]; I.signal=any(d.split()[0]==".cfi_signal_frame" for _,d in ds)
        I.cfa=(a.sp,a.w if a.fam=="x86" else 0); I.expr=None; I.rules={}; I.ra=a.pc if a.fam=="x86" else a.ra
        if a.fam=="x86": I.rules[a.pc]=-a.w
        stack=[]; esc=[]
        for j,(i,d) in enumerate(ds):
            if i>pos: break
            k,_,rest=d.partition(" "); ops=[x.strip() for x in rest.split(",")]
            if "\t" in k: k,_,rest=d.partition("\t"); ops=[x.strip() for x in rest.split(",")]
            if k==".cfi_def_cfa": I.cfa=(reg(a,ops[0]),const(ops[1])); I.expr=None
            elif k==".cfi_def_cfa_offset": I.cfa=(I.cfa[0],const(ops[0]))
            elif k==".cfi_adjust_cfa_offset": I.cfa=(I.cfa[0],I.cfa[1]+const(ops[0]))
            elif k==".cfi_def_cfa_register": I.cfa=(reg(a,ops[0]),I.cfa[1])
            elif k==".cfi_offset": I.rules[reg(a,ops[0])]=const(ops[1])
            elif k==".cfi_rel_offset": I.rules[reg(a,ops[0])]=const(ops[1])-I.cfa[1]
            elif k in(".cfi_same_value",".cfi_restore"): I.rules.pop(reg(a,ops[0]),None)
            elif k==".cfi_undefined": I.rules[reg(a,ops[0])]="undef"
            elif k==".cfi_register": I.rules[reg(a,ops[0])]=("reg",reg(a,ops[1]))
            elif k==".cfi_val_offset": I.rules[reg(a,ops[0])]=("val",const(ops[1]))
            elif k==".cfi_remember_state": stack.append((I.cfa,I.expr,dict(I.rules)))
            elif k==".cfi_restore_state":
                if not stack: raise Malformed("a state is restored that was never remembered")
                I.cfa,I.expr,I.rules=stack.pop()
            elif k==".cfi_return_column": I.ra=reg(a,ops[0])
            elif k==".cfi_escape":
                esc+=[const(x)&0xff for x in ops]; nx=ds[j+1] if j+1<len(ds) else None
                if nx is not None and nx[0]==i and nx[1].split()[0]==".cfi_escape": continue    # one run of bytes
                escape(a,I,esc,stack); esc=[]
            elif k in(".cfi_signal_frame",".cfi_sections",".cfi_personality",".cfi_lsda") or not k.startswith(".cfi"): pass
            else: raise Unsupported("directive "+d)
        return I
    return None
def dwarf_expr(a,bs,regs,read,start=()):
    bs=list(bs); st=list(start)
    def pop():
        if not st: raise Malformed("the expression takes a value from an empty stack")
        return st.pop()
    def both(f):
        y=pop(); x=pop()
        if x.const() is None or y.const() is None: raise Unsupported("DWARF arithmetic on unknown values")
        return Lin(f(x.const(),y.const()))
    while bs:
        op=byte(bs)
        if 0x70<=op<=0x8f: r=dreg(a,op-0x70); st.append(regs[r]+sleb(bs))
        elif op==0x92: r=dreg(a,uleb(bs)); st.append(regs[r]+sleb(bs))
        elif op==0x06: st.append(read(pop()))
        elif op==0x94:
            if fixed(bs,1)!=a.w: raise Unsupported("DW_OP_deref_size")
            st.append(read(pop()))
        elif 0x08<=op<=0x0f: st.append(Lin(fixed(bs,1<<(op-8>>1),bool(op&1))))
        elif op==0x10: st.append(Lin(uleb(bs)))
        elif op==0x11: st.append(Lin(sleb(bs)))
        elif op==0x12: x=pop(); st+=[x,x]
        elif op==0x13: pop()
        elif op==0x14 or op==0x15:
            n=1 if op==0x14 else byte(bs)
            if n>=len(st): raise Malformed("the expression takes a value from an empty stack")
            st.append(st[-1-n])
        elif op==0x16: y=pop(); x=pop(); st+=[y,x]
        elif op==0x17: z=pop(); y=pop(); x=pop(); st+=[z,x,y]
        elif op==0x1a:
            y=pop(); x=pop()
            if y.const() is None: x,y=y,x
            if y.const() is not None and x.const() is not None: st.append(Lin(x.const()&y.const()))
            else: raise Unsupported("DW_OP_and")
        elif op==0x1c: y=pop(); st.append(pop()-y)
        elif op==0x1e:
            y=pop(); x=pop()
            if y.const() is None: x,y=y,x
            if y.const() is None: raise Unsupported("DW_OP_mul")
            st.append(x*y.const())
        elif op==0x1f: st.append(Lin(0)-pop())
        elif op==0x22: y=pop(); st.append(pop()+y)
        elif op==0x23: st.append(pop()+uleb(bs))
        elif op==0x24:
            y=pop(); x=pop()
            if y.const() is None: raise Unsupported("DW_OP_shl")
            st.append(x*(1<<min(y.const(),64)))
        elif op==0x21: st.append(both(lambda x,y:x|y))
        elif op==0x27: st.append(both(lambda x,y:x^y))
        elif op==0x25: st.append(both(lambda x,y:x>>y))
        elif 0x30<=op<=0x4f: st.append(Lin(op-0x30))
        elif op==0x96: pass
        elif 0x50<=op<=0x6f or op==0x90: raise Malformed("the expression names a register instead of computing a value")
        elif op in(0x03,0x18,0x19,0x1b,0x1d,0x20,0x26,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x95): raise Unsupported("DWARF operation %#x"%op)
        else: raise Malformed("%#x is no operation of an expression"%op)
    if not st: raise Malformed("the expression computes nothing")
    return st[-1]
def step_dwarf(a,I,regs,read):
    """-> (registers of the caller, its pc)"""
    cfa=dwarf_expr(a,I.expr,regs,read) if I.expr is not None else regs[I.cfa[0]]+I.cfa[1]
    n=dict(regs); n[a.sp]=cfa
    for r,k in I.rules.items():
        if k=="undef": n[r]=junk("undefined by the unwind information")
        elif isinstance(k,tuple) and k[0] in("expr","valexpr"):
            v=dwarf_expr(a,k[1],regs,read,(cfa,)); n[r]=read(v) if k[0]=="expr" else v
        elif isinstance(k,tuple): n[r]=regs[k[1]] if k[0]=="reg" else cfa+k[1]
        else: n[r]=read(cfa+k)
    return n,n.get(I.ra)
def ehabi(a,im,pos):
    for lo,hi,ds in procs(im,"fnstart","fnend"):
        if lo<=pos<hi: 
            if any(d.startswith(".cantunwind") for _,d in ds): return None
            return ds
    return None
def step_ehabi(a,ds,regs,read):
    ops=[]; spoff=0; fpreg=None; fpoff=0; lastsave=0
    def regs_of(t):
        out=[]
        for x in t.strip().strip("{}").split(","):
            x=x.strip().lower()
            m=re.fullmatch(r"r(\d+)\s*-\s*r(\d+)",x)
            if m: out+=["r%d"%i for i in range(int(m.group(1)),int(m.group(2))+1)]
            elif x: out.append(reg(a,x))
        return sorted(set(out),key=lambda r:int(r[1:]))
    seq=[]
    for i,d in ds:
        k,_,rest=d.replace("\t"," ").partition(" "); o=rest.strip()
        if k==".save": seq.append(("save",regs_of(o)))
        elif k==".pad": seq.append(("pad",const(o)))
        elif k==".setfp":
            x=[y.strip() for y in o.split(",")]; seq.append(("setfp",reg(a,x[0]),reg(a,x[1]),const(x[2]) if len(x)>2 else 0))
        elif k==".movsp":
            x=[y.strip() for y in o.split(",")]; seq.append(("movsp",reg(a,x[0]),const(x[1]) if len(x)>1 else 0))
        elif k==".vsave": raise Unsupported(d)
    n=dict(regs); pc=None; vsp=n[a.sp]; setpc=False; i=len(seq)
    # undo in reverse; a .setfp makes the offsets before it relative to the frame pointer
    fp=next((x for x in reversed(seq) if x[0]=="setfp"),None); done=False
    for x in reversed(seq):
        if x[0]=="pad":
            if fp and not done: continue      # the frame pointer restores sp regardless of later pads
            vsp=vsp+x[1]
        elif x[0]=="setfp":
            if not done: vsp=n[x[1]]-x[3]; done=True
        elif x[0]=="movsp": vsp=n[x[1]]-x[2]
        elif x[0]=="save":
            if fp and not done: raise Unsupported(".save after .setfp")
            newsp=None
            for r in x[1]:
                v=read(vsp); vsp=vsp+a.w
                if r==a.sp: newsp=v
                elif r==a.pc: pc=v; setpc=True
                else: n[r]=v
            if newsp is not None: vsp=newsp
    n[a.sp]=vsp
    if not setpc: pc=n[a.ra]
    return n,pc
def seh(a,im,pos):
    for lo,hi,ds in procs(im,r"seh_proc",r"seh_endproc"):
        if lo<=pos<hi: return ds
    return None
def step_seh(a,ds,regs,read):
    seq=[]; frame=None
    for i,d in ds:
        k,_,rest=d.replace("\t"," ").partition(" "); x=[y.strip() for y in rest.split(",")]
        if k==".seh_endprologue": break
        if k==".seh_pushreg": seq.append(("push",reg(a,x[0])))
        elif k==".seh_stackalloc": seq.append(("alloc",const(x[0])))
        elif k==".seh_setframe": seq.append(("frame",reg(a,x[0]),const(x[1]))); frame=seq[-1]
        elif k==".seh_savereg": seq.append(("save",reg(a,x[0]),const(x[1])))
        elif k==".seh_handler" or k==".seh_handlerdata" : pass
        else: raise Unsupported("directive "+d)
    n=dict(regs); base=n[a.sp] if frame is None else n[frame[1]]-frame[2]
    for x in reversed(seq):
        if x[0]=="frame": n[a.sp]=n[x[1]]-x[2]
        elif x[0]=="save": n[x[1]]=read(base+x[2])
        elif x[0]=="push": n[x[1]]=read(n[a.sp]); n[a.sp]=n[a.sp]+a.w
        elif x[0]=="alloc": n[a.sp]=n[a.sp]+x[1]
    pc=read(n[a.sp]); n[a.sp]=n[a.sp]+a.w
    return n,pc
def fp_chain(a,fp,read,hops=3):
    """frame records reached from a frame pointer: (saved fp, return address)"""
    out=[]
    for _ in range(hops):
        if is_junk(fp): break
        f,r=read(fp+a.fpl[0]),read(fp+a.fpl[1]); out.append((f,r)); fp=f
    return out
