"""Engine M: path-sensitive abstract interpretation of the dumped MIR.

One abstract state holds: the call stack (crate-local and std callees are analysed in place), an
abstract store (places -> values), a polyhedral/congruence fact base over symbolic atoms (sizes and
alignments of generic types, addresses, OS results, ...) and the trace of externally visible events
(user calls, drops, asm blocks, OS calls, writes through raw addresses, panics).  Unknown branches
fork; loops are cut by havocking what the loop assigns.  Nothing is executed and no solver is used.

Values:
  ('n', Lin)                  scalar / pointer / function address
  ('b', 'ge'|'eq'|'ne', Lin)  boolean: Lin >=0 / ==0 / !=0
  ('t', name, ty)             opaque value of type ty (identity token)
  ('agg', ty, variant, base, ((i, v), ...))   aggregate; missing fields come from `base`
  ('fn', inst)                function item / reified function
  ('u',)                      uninitialised / moved out / dropped
"""
from lin import Lin, L, Facts, atom_str, root_str
import re, itertools

class Unsupported(Exception): pass

class Program:
    def __init__(s,facts):
        s.f=facts; s.I={i["id"]:i for i in facts["insts"]}; s.T={t["id"]:t for t in facts["types"]}
        s.w=facts["ptr_bits"]; s.target=facts["target"]; s.wb=s.w//8
        s.roots=facts["roots"]; s.items=facts["items"]
        s.by_path={}
        for r in s.roots: s.by_path.setdefault(s.I[r]["path"],[]).append(r)
        s.windows=any(c=="windows" for c in facts["cfg"]); s.pabort='panic="abort"' in facts["cfg"]
        s.x18_reserved=any(x in facts["target"] for x in("apple","windows","android"))
        s.features={c.split('"')[1] for c in facts["cfg"] if c.startswith("feature=")}
        s.asmops={}
        s._boxany=None; s.boxes={}
    def newbox(s,dty,val,ty):
        """the value of Box::new(val)"""
        s.nbox=getattr(s,"nbox",0)+1; root=("box","Box#%d"%s.nbox)
        v=s.boxes[root]=("agg",dty,0,None,((0,("n",Lin.atom(("addr",root,())))),("boxed",val),("boxty",("t","ty",ty))))
        return v
    def boxany(s):
        """type id of the box a panic payload travels in"""
        if s._boxany is None:
            c=[i for i,t in (s.T.items() if isinstance(s.T,dict) else enumerate(s.T)) if t["k"]=="adt" and t.get("is_box") and s.T[t["args"][0]]["k"]=="dyn"]
            s._boxany=c[0] if c else 0
        return s._boxany
    def ty(s,i): return s.T[i]
    def root(s,path):
        x=s.by_path.get(path)
        return x[0] if x else None
    def find_roots(s,pred): return [r for r in s.roots if pred(s.I[r])]
    def transparent_inner(s,t):
        """index of the only non-ZST field if the ADT is a transparent wrapper"""
        if t["k"]!="adt" or t["kind"] not in("struct","union") : return None
        if s.is_nz(t): return None
        if t.get("is_box"): return None
        if not t["transparent"] :
            return None
        fs=t["variants"][0]["fields"]
        nz=[i for i,f in enumerate(fs) if s.T[f["ty"]].get("size")!=0]
        if len(nz)==1: return nz[0]
        if len(nz)==0 and fs: return None
        return None
    def newtype_norm(s,tid):
        """strip transparent wrappers / NonZero from a type id"""
        while True:
            t=s.T[tid]
            if t["k"]=="adt":
                i=s.transparent_inner(t)
                if i is not None: tid=t["variants"][0]["fields"][i]["ty"]; continue
                if t["path"]=="core::num::nonzero::NonZero" and t["args"]: tid=t["args"][0]; continue
                if t["kind"]=="union" and t["path"].endswith("MaybeUninit"): tid=t["args"][0]; continue
            return tid
    def size(s,tid):
        """size in bytes, or a symbol for it"""
        t=s.T[tid]
        if "size" not in t: t=s.T[s.newtype_norm(tid)]
        return t["size"] if "size" in t else Lin.atom(("size",t["s"]))
    def is_nz(s,t):
        return t["k"]=="adt" and (t["path"]=="core::num::nonzero::NonZero" or t["path"].startswith("core::num::niche_types::"))
    def uninhabited(s,tid):
        t=s.T[tid]
        if t["k"]=="never": return True
        if t["k"]=="adt" and t["kind"]=="enum" and not t["variants"]: return True
        return False

class Frame:
    __slots__=("uid","kind","inst","body","bb","dest","target","unwind","data","visits","via")
    def copy(s):
        f=Frame()
        for a in Frame.__slots__: setattr(f,a,getattr(s,a))
        if s.visits is not None: f.visits=dict(s.visits)
        return f
class State:
    __slots__=("frames","store","facts","trace","ctr","inflight","status","ret","stores")
    def copy(s):
        n=State(); n.frames=[f.copy() for f in s.frames]; n.store=dict(s.store); n.facts=s.facts
        n.trace=s.trace; n.ctr=s.ctr; n.inflight=s.inflight; n.status=s.status; n.ret=s.ret
        return n
    def events(s):
        out=[]; t=s.trace
        while t: out.append(t[1]); t=t[0]
        out.reverse(); return out
class Ev(dict):
    __getattr__=dict.get

def tupv(v): return v

class Interp:
    split_wrap=False
    def __init__(s,prog,max_paths=4000,max_steps=400000,hooks=None,assume=None,unwind_asm=True):
        s.p=prog; s.max_paths=max_paths; s.max_steps=max_steps; s.hooks=hooks or {}
        s.M=(1<<prog.w)-1; s.assume=assume; s.asm_model=None; s.steps=0; s.notes=set()
        s.user_may_unwind=True; s.user_payload=s.asm_payload=None      # what user code panics with, when it matters
    # ---------- helpers
    def fresh(s,st,base):
        st.ctr+=1; return "%s#%d"%(base,st.ctr)
    def ev(s,st,kind,**kw):
        e=Ev(kw); e["k"]=kind; e["facts"]=st.facts
        e["fn"]=[ (s.p.I[f.inst]["path"] if f.inst is not None else f.kind) for f in st.frames]
        st.trace=(st.trace,e)
        return e
    def size_lin(s,tid):
        t=s.p.T[tid]
        if "size" not in t: t=s.p.T[s.newtype_norm(tid)]
        return Lin(t["size"]) if "size" in t else Lin.atom(("size",t["s"]))
    def align_lin(s,tid):
        t=s.p.T[tid]
        if "align" not in t: t=s.p.T[s.newtype_norm(tid)]
        return Lin(t["align"]) if "align" in t else Lin.atom(("align",t["s"]))
    def is_scalar(s,t):
        return t["k"] in("int","uint","bool","char","ptr","ref","fnptr","float")
    def opaque(s,st,name,tid):
        t=s.p.T[tid]
        if t["k"]=="adt":
            i=s.p.transparent_inner(t)
            if i is not None and t["kind"]=="struct": return s.opaque(st,name,t["variants"][0]["fields"][i]["ty"])
            if s.p.is_nz(t):
                a=("sym",name)
                f=st.facts.add_ge(Lin.atom(a)-1)
                if f is not None: st.facts=f
                return ("n",Lin.atom(a))
        if t["k"]=="bool":
            a=("sym",name); f=st.facts.add_ge(Lin(1)-Lin.atom(a)); st.facts=f or st.facts
            return ("n",Lin.atom(a))
        if s.is_scalar(t):
            a=("sym",name)
            if t["k"] in("ref","fnptr"):
                f=st.facts.add_ge(Lin.atom(a)-1); st.facts=f or st.facts
            return ("n",Lin.atom(a))
        if t["k"]=="fndef": return ("t",name,tid)
        return ("t",name,tid)
    def fields_of(s,tid,variant):
        t=s.p.T[tid]
        if t["k"] in("tuple","closure"): return [("%d"%i,x) for i,x in enumerate(t["fields"])]
        if t["k"]=="adt":
            vs=t["variants"]
            if not vs: return []
            v=vs[variant or 0]
            return [(f["name"],f["ty"]) for f in v["fields"]]
        return []
    def proj(s,st,v,variant,i,fty):
        """field i of value v"""
        if v[0]=="agg":
            for j,x in v[4]:
                if j==i and (v[2]==variant or v[2] is None or variant is None): return x
            if v[3] is not None: return s.proj(st,v[3],variant,i,fty)
            return ("u",)
        if v[0]=="t":
            t=s.p.T[v[2]]
            nm=str(i)
            fs=s.fields_of(v[2],variant) if t["k"] in("adt","tuple","closure") else []
            if t.get("is_box") and i==0: return ("n",Lin.atom(("addr",("box",v[1]),())))
            if i<len(fs): nm=fs[i][0]; fty=fs[i][1] if fty is None else fty
            vn=""
            if variant is not None and t["k"]=="adt" and t["kind"]=="enum": vn="."+t["variants"][variant]["name"]
            if fty is None: return ("u",)
            return s.opaque(st,v[1]+vn+"."+nm,fty)
        if v[0]=="n": # punned scalar: only field 0 of a newtype makes sense
            return v if i==0 else ("u",)
        return ("u",)
    # ---------- store
    def root_ty(s,st,root):
        return None
    def read_root(s,st,root):
        if root in st.store: return st.store[root]
        if root[0]=="L": return ("u",)
        return None
    def get(s,st,root,path,ty):
        v=s.read_root(st,root)
        if v is None:
            # memory never written here: lazily invent its content. The type of the whole is unknown
            # for raw memory, so key sub-places by their own path.
            best=None
            v=None
            if not path and root[0]=="mem" and ty is not None and s.laid_out(ty):
                t=s.p.T[ty]
                if t["k"]=="array": fs=[(i,t["elem"],i*s.p.T[t["elem"]]["size"]) for i in range(t["len"])]
                else: fs=[(i,x,t["offsets"][i]) for i,x in enumerate([f["ty"] for f in t["variants"][0]["fields"]] if t["k"]=="adt" else t["fields"])]
                return ("agg",ty,0,None,tuple((i,s.get(st,("mem",st.facts.norm(root[1]+o)),(),x)) for i,x,o in fs))
            if not path:
                v=s.opaque(st,"*"+root_str(root),ty) if ty is not None else ("u",)
                st.store[root]=v
                return v
            sub=(root,path)
            k=("sub",root,path)
            if k in st.store: return st.store[k]
            if ty is None: return ("u",)
            v=s.opaque(st,"*"+root_str(root)+"."+".".join(str(x[-1]) for x in path),ty)
            st.store[k]=v
            return v
        return s.walk(st,v,path,ty)
    def walk(s,st,v,path,ty):
        var=None
        n=len(path)
        for j,e in enumerate(path):
            if v[0]=="u": return v
            if e[0]=="d": var=e[1]; continue
            if e[0]=="f":
                v=s.proj(st,v,var,e[1],e[2] if len(e)>2 else None); var=None
            elif e[0]=="i":
                v=s.proj(st,v,None,e[1],None) if v[0]=="agg" else (s.opaque(st,v[1]+"[%s]"%(e[1],),ty) if v[0]=="t" and ty is not None else ("u",))
            else: return ("u",)
        return v
    def set(s,st,root,path,val):
        if not path:
            st.store[root]=val
            for k in [k for k in st.store if k[0]=="sub" and k[1]==root]: del st.store[k]
            return
        v=s.read_root(st,root)
        if v is None:
            k=("sub",root,path); st.store[k]=val
            for q in [q for q in st.store if q[0]=="sub" and q[1]==root and len(q[2])>len(path) and q[2][:len(path)]==path]: del st.store[q]
            return
        st.store[root]=s.upd(st,v,path,val)
    def upd(s,st,v,path,val):
        if not path: return val
        e=path[0]
        var=None
        if e[0]=="d":
            var=e[1]; rest=path[1:]
            if not rest: return val
            e=rest[0]; rest=rest[1:]
        else: rest=path[1:]
        i=e[1]
        if v[0]=="agg" and (var is None or v[2]==var or v[2] is None):
            cur=s.proj(st,v,var if var is not None else v[2],i,e[2] if len(e)>2 else None)
            new=s.upd(st,cur,rest,val)
            fl=dict(v[4]); fl[i]=new
            return ("agg",v[1],var if var is not None else v[2],v[3],tuple(sorted(fl.items(),key=lambda x:repr(x[0]))))
        base=v if v[0]=="t" else None
        cur=s.proj(st,v,var,i,e[2] if len(e)>2 else None) if rest else ("u",)
        new=s.upd(st,cur,rest,val)
        tid=v[2] if v[0]=="t" else None
        return ("agg",tid,var,base,((i,new),))
    # ---------- places
    def place(s,st,fr,pl):
        """-> (root, path, type) ; derefs evaluated"""
        loc,proj=pl
        root=("L",fr.uid,loc); path=(); tid=fr.body["locals"][loc]
        for e in proj:
            t=s.p.T[tid]
            if e[0]=="*":
                v=s.get(st,root,path,tid)
                to=t.get("to")
                if to is None and t["k"]=="adt" and t.get("is_box"): to=t["args"][0]
                root,path=s.deref(st,v)
                tid=to
            elif e[0]=="f":
                fi,fty=e[1],e[2]
                inner=s.p.transparent_inner(t) if t["k"]=="adt" else None
                if t["k"]=="adt" and t["kind"]=="union":
                    pass
                elif t["k"]=="adt" and s.p.is_nz(t):
                    pass
                elif inner is not None:
                    if fi!=inner: root,path=("Z",),()
                elif root[0]=="mem" and not path and root not in st.store and s.laid_out(tid):
                    root=("mem",st.facts.norm(root[1]+t["offsets"][fi]))
                else:
                    path=path+(("f",fi,fty),)
                tid=fty
            elif e[0]=="d":
                path=path+(("d",e[1]),)
            elif e[0]=="i":
                iv=s.get(st,("L",fr.uid,e[1]),(),None)
                c=iv[1].const() if iv[0]=="n" else None
                if root[0]=="mem" and not path and root not in st.store and c is not None and s.laid_out(tid): root=("mem",st.facts.norm(root[1]+c*s.p.T[t["elem"]]["size"]))
                else: path=path+(("i",c if c is not None else repr(iv)),)
                tid=t.get("elem")
            elif e[0]=="c":
                if t["k"]=="array" and e[2] and "len" in t: idx=t["len"]-e[1]
                else: idx=e[1]
                path=path+(("i",idx),); tid=t.get("elem")
            elif e[0]=="o": pass
            else: raise Unsupported("projection %r"%(e,))
            if root==("Z",): path=()
        return root,s.canon(path),tid
    def canon(s,path): return path
    def laid_out(s,tid):
        """a record whose fields can be told apart by their addresses"""
        t=s.p.T[tid]
        if t["k"]=="array": return "len" in t and t["len"]<=64 and "size" in s.p.T[t["elem"]]
        if t["k"] in("tuple","closure"): return bool(t.get("offsets")) and len(t["offsets"])==len(t["fields"])
        return t["k"]=="adt" and t["kind"]=="struct" and bool(t.get("offsets")) and s.p.transparent_inner(t) is None and not s.p.is_nz(t) and not t.get("is_box") and not s.is_scalar(t)
    def parts(s,st,r,p,tid,v):
        """a record written to raw memory, as writes of its fields"""
        if r[0]!="mem" or p or tid is None or v[0] not in("agg","t") or not s.laid_out(tid): return [(r,p,tid,v)]
        t=s.p.T[tid]
        if t["k"]=="array": fs=[(i,t["elem"],i*s.p.T[t["elem"]]["size"]) for i in range(t["len"])]
        else:
            ft=[f["ty"] for f in t["variants"][0]["fields"]] if t["k"]=="adt" else t["fields"]
            fs=[(i,ft[i],t["offsets"][i]) for i in range(len(ft))]
        out=[]
        for i,ty,o in fs: 
            if s.p.T[ty].get("size")!=0: out+=s.parts(st,("mem",st.facts.norm(r[1]+o)),(),ty,s.proj(st,v,None,i,ty))
        return out
    def deref(s,st,v):
        if v[0]=="n":
            a=st.facts.norm(v[1]).single()
            if a and a[0]=="addr": return a[1],a[2]
            return ("mem",st.facts.norm(v[1])),()
        if v[0]=="t": return ("P",v[1]),()
        if v[0]=="agg" and v[3] is not None: return s.deref(st,v[3])
        if v[0]=="fn": return ("code",v[1]),()
        return ("bad",),()
    def addr_of(s,root,path):
        # &*p where p is a raw address gives the address back
        if root[0]=="mem" and not path: return ("n",root[1])
        return ("n",Lin.atom(("addr",root,path)))
    # ---------- operands / rvalues
    def const(s,st,c):
        if "fn" in c: return ("fnc",c["fn"])
        t=s.p.T[c["ty"]]
        if "bits" in c:
            b=int(c["bits"])
            if t["k"]=="int" and "size" in t:
                w=t["size"]*8
                if b>>(w-1)&1: b-=1<<w
            if s.is_scalar(t) or (t["k"]=="adt" and (s.p.transparent_inner(t) is not None or s.p.is_nz(t))):
                return ("n",Lin(b))
            return s.const_agg(st,c["ty"],b)
        if "fnaddr" in c: return ("fn",c["fnaddr"])
        if "static" in c: return ("n",Lin.atom(("static",c["static"])))
        if "str" in c: return ("n",Lin.atom(("str",c["str"])))
        if "membytes" in c and t.get("to") is not None:
            to=s.p.T[t["to"]]
            if s.is_scalar(to) and to.get("size")==len(c["membytes"]):
                root=("const",c["mem"]); v=int.from_bytes(bytes(map(int,c["membytes"])),"little")
                if to["k"]=="int" and v>>(8*to["size"]-1)&1: v-=1<<(8*to["size"])
                st.store[root]=("n",Lin(v)); return ("n",Lin.atom(("addr",root,())))
            el=s.p.T[to["elem"]] if to["k"]=="array" else None
            if el and s.is_scalar(el) and el["k"]!="int" and el.get("size") and to.get("len",0)*el["size"]==len(c["membytes"]):
                by=bytes(map(int,c["membytes"])); z=el["size"]
                root=("const",c["mem"]); st.store[root]=("agg",t["to"],None,None,tuple((i,("n",Lin(int.from_bytes(by[i*z:i*z+z],"little")))) for i in range(to["len"])))
                return ("n",Lin.atom(("addr",root,())))
        if "mem" in c: return ("n",Lin.atom(("constmem",c["mem"])))
        if "uneval" in c:
            u=c["uneval"]
            if u.endswith("SizedTypeProperties::SIZE"): return ("n",s.size_lin(c["uneval_args"][0]))
            if u.endswith("SizedTypeProperties::ALIGN"): return ("n",s.align_lin(c["uneval_args"][0]))
            if u.endswith("SizedTypeProperties::IS_ZST"): return ("b","eq",s.size_lin(c["uneval_args"][0]))
            if "uneval_inst" in c and "body" in s.p.I[c["uneval_inst"]]: return ("ceval",c["uneval_inst"])
            return s.opaque(st,"const:%s"%u,c["ty"])
        if "zst" in c:
            if t["k"]=="fndef": return ("t","fn:"+t.get("path",""),c["ty"])
            if t["k"]=="closure" or t["k"]=="tuple": return ("agg",c["ty"],0,None,())
            if t["k"]=="adt" and t["kind"]=="struct": return ("agg",c["ty"],0,None,())
            return ("t","zst:"+t["s"],c["ty"])
        if "param" in c: return ("n",Lin.atom(("sym","constparam:"+c["param"])))
        return s.opaque(st,"const?",c["ty"])
    def const_agg(s,st,tid,b):
        t=s.p.T[tid]
        if t["k"]=="adt" and t["kind"]=="enum":
            # C-like or niche-encoded constant: only None-like (single fieldless variant) is decoded
            for vi,v in enumerate(t["variants"]):
                if not v["fields"] and v["discr"] is not None and int(v["discr"])==b and all(not x["fields"] for x in t["variants"]):
                    return ("agg",tid,vi,None,())
            if t["path"]=="core::option::Option":
                if b==0 : return ("agg",tid,0,None,())
                return ("agg",tid,1,None,((0,("n",Lin(b))),))
        return s.opaque(st,"const?%d"%b,tid)
    def operand(s,st,fr,o):
        if o[0] in("cp","mv"):
            r,p,t=s.place(st,fr,o[1])
            v=s.get(st,r,p,t)
            if t is not None and v[0]=="pun" and not s.plain(t) and s.p.T[t].get("k")!="array": return s.retype(st,v,t)
            return v
        if o[0]=="k": return s.const(st,o[1])
        if o[0]=="rt":
            if o[1]=="OverflowChecks": return ("n",Lin(0))
            return ("n",Lin(0))
        raise Unsupported("operand %r"%(o,))
    def op_ty(s,fr,o,st):
        if o[0] in("cp","mv"): return s.place(st,fr,o[1])[2]
        if o[0]=="k": return o[1]["ty"]
        return None
    def as_lin(s,st,v):
        if v[0]=="n": return v[1]
        if v[0]=="fn": return Lin.atom(("fnaddr",s.p.I[v[1]]["path"],v[1]))
        if v[0]=="t": return Lin.atom(("val",v[1]))
        if v[0]=="pun": return Lin.atom(("val","pun:%r"%(v[2],)))
        if v[0]=="b":
            return None
        return None
    def decide(s,st,b):
        """[(state, bool)] for a boolean value"""
        if b[0]=="n":
            c=st.facts.norm(b[1]).const()
            if c is not None: return [(st,bool(c))]
            out=[]
            f=st.facts.add_ne(b[1])
            if f is not None:
                n=st.copy(); n.facts=f; out.append((n,True))
            f=st.facts.add_eq(b[1])
            if f is not None:
                n=st.copy(); n.facts=f; out.append((n,False))
            return out
        if b[0]=="b":
            k,e=b[1],b[2]
            out=[]
            if k=="ge":
                t=st.facts.add_ge(e); f=st.facts.add_ge(-e-1)
            elif k=="eq":
                t=st.facts.add_eq(e); f=st.facts.add_ne(e)
            else:
                t=st.facts.add_ne(e); f=st.facts.add_eq(e)
            for x,v in((t,True),(f,False)):
                if x is not None:
                    n=st.copy(); n.facts=x; out.append((n,v))
            return out
        # unknown boolean
        a=("sym",s.fresh(st,"bool"))
        out=[]
        for v in(1,0):
            f=st.facts.add_eq(Lin.atom(a)-v)
            n=st.copy(); n.facts=f; out.append((n,bool(v)))
        return out
    def bnot(s,b):
        if b[0]=="b":
            k,e=b[1],b[2]
            if k=="ge": return ("b","ge",-e-1)
            return ("b","ne" if k=="eq" else "eq",e)
        if b[0]=="n" and b[1].const() is not None: return ("n",Lin(0 if b[1].const() else 1))
        if b[0]=="n": return ("b","eq",b[1])
        return b
    def cmp(s,st,op,a,b):
        x,y=s.as_lin(st,a),s.as_lin(st,b)
        if x is None or y is None:
            # booleans: decide later
            return None
        d=x-y
        if op in("Eq","Ne"):
            return ("b","eq" if op=="Eq" else "ne",d)
        if op=="Ge": return ("b","ge",d)
        if op=="Gt": return ("b","ge",d-1)
        if op=="Le": return ("b","ge",-d)
        if op=="Lt": return ("b","ge",-d-1)
    def note_wrap(s,st,op,e,signed):
        if signed: return
        if op=="Sub":
            if st.facts.nonneg(e): return
        else:
            if st.facts.nonneg(Lin(s.M)-e): return
        s.ev(st,"wrap",op=op,expr=e)
    def binop(s,st,op,a,b,tid):
        """-> [(state,value)]"""
        t=s.p.T[tid] if tid is not None else {"k":"uint"}
        signed=t["k"]=="int"
        if op in("Eq","Ne","Lt","Le","Gt","Ge"):
            if signed and s.p.w==32 and t.get("size",4)==4 and op not in("Eq","Ne"):
                # an address reinterpreted as signed may be negative (on 64-bit targets user space lies in the lower half)
                out=[]
                for n,x in s.as_signed(st,a):
                    for m,y in s.as_signed(n,b): out.append((m,s.cmp(m,op,x,y)))
                if all(r is not None for _,r in out): return out
            r=s.cmp(st,op,a,b)
            if r is not None: return [(st,r)]
            out=[]
            for n,x in s.decide(st,a):
                for m,y in s.decide(n,b):
                    v={"Eq":x==y,"Ne":x!=y,"Lt":x<y,"Le":x<=y,"Gt":x>y,"Ge":x>=y}[op]
                    out.append((m,("n",Lin(int(v)))))
            return out
        if (a[0]=="b" or b[0]=="b" or t["k"]=="bool") and op in("BitAnd","BitOr","BitXor"):
            out=[]
            for n,x in s.decide(st,a):
                if op=="BitAnd" and not x: out.append((n,("n",Lin(0)))); continue
                if op=="BitOr" and x: out.append((n,("n",Lin(1)))); continue
                for m,y in s.decide(n,b):
                    v={"BitAnd":x and y,"BitOr":x or y,"BitXor":x!=y}[op]
                    out.append((m,("n",Lin(int(v)))))
            return out
        if op=="Cmp":
            x,y=s.as_lin(st,a),s.as_lin(st,b)
            out=[]
            if x is not None and y is not None:
                for f,v in((st.facts.add_ge(y-x-1),-1),(st.facts.add_eq(x-y),0),(st.facts.add_ge(x-y-1),1)):
                    if f is not None:
                        n=st.copy(); n.facts=f; out.append((n,("ord",v)))
                return out
            return [(st,("u",))]
        if a[0]=="b" or b[0]=="b":
            out=[]
            for n,x in (s.decide(st,a) if a[0]=="b" else [(st,a)]):
                aa=("n",Lin(int(x))) if a[0]=="b" else a
                for m,y in (s.decide(n,b) if b[0]=="b" else [(n,b)]):
                    bb=("n",Lin(int(y))) if b[0]=="b" else b
                    out+=s.binop(m,op,aa,bb,tid)
            return out
        x,y=s.as_lin(st,a),s.as_lin(st,b)
        if x is None or y is None: return [(st,("u",))]
        x=st.facts.norm(x); y=st.facts.norm(y)
        base=op.replace("WithOverflow","").replace("Unchecked","")
        if base=="Offset":
            # pointer offset: element size from the pointee
            es=s.size_lin(t["to"]) if t["k"] in("ptr","ref") else Lin(1)
            return [(st,("n",x+s.mul(st,y,es)))]
        if base in("Add","Sub"): r=x+y if base=="Add" else x-y
        elif base=="Mul": r=s.mul(st,x,y)
        elif base=="Div": r=s.div(st,x,y)
        elif base=="Rem":
            r=x-s.adown(st,x,y)
        elif base=="BitAnd": r=s.bitand(st,x,y)
        elif base=="BitOr":
            r=Lin(x.const()|y.const()) if x.const() is not None and y.const() is not None else Lin.atom(("or",)+tuple(sorted((x,y),key=repr)))
        elif base=="BitXor":
            r=Lin(x.const()^y.const()) if x.const() is not None and y.const() is not None else (s.inv(x) if y.const()==s.M else Lin.atom(("xor",)+tuple(sorted((x,y),key=repr))))
        elif base=="Shl":
            r=x*(1<<y.const()) if y.const() is not None and 0<=y.const()<s.p.w else Lin.atom(("shl",x,y))
        elif base=="Shr":
            r=s.div(st,x,Lin(1<<y.const())) if y.const() is not None and 0<=y.const()<s.p.w else Lin.atom(("shr",x,y))
        else: r=Lin.atom(("op",op,x,y))
        if (op.endswith("WithOverflow") or base in("Add","Sub","Mul") and not op.endswith("Unchecked")) and s.bounded(t,r):
            return [(n,("agg",None,0,None,((0,("n",v)),(1,("n",Lin(int(w)))))) if op.endswith("WithOverflow") else ("n",v)) for n,v,w in s.wrapped(st,r,t)]
        if op.endswith("WithOverflow"):
            if signed: fl=("n",Lin(0))
            elif base=="Sub": fl=("b","ge",-r-1)
            else: fl=("b","ge",r-(s.M+1))
            return [(st,("agg",None,0,None,((0,("n",r)),(1,fl))))]
        if base in("Add","Sub") and not op.endswith("Unchecked") and not signed and s.split_wrap and t["k"]=="uint" and t.get("size",s.p.w//8)==s.p.w//8:
            out=[]; ov=(-r-1) if base=="Sub" else r-(s.M+1)
            for f,v in((st.facts.add_ge(-ov-1),r),(st.facts.add_ge(ov),r+(s.M+1)*(1 if base=="Sub" else -1))):
                if f is None: continue
                n=st.copy(); n.facts=f
                if v is not r: s.ev(n,"wrapped",op=base,expr=r)
                out.append((n,("n",v)))
            return out
        if base in("Add","Sub","Mul") and not op.endswith("Unchecked"):
            s.note_wrap(st,base,r,signed)
        return [(st,("n",r))]
    def as_signed(s,st,v):
        x=s.as_lin(st,v); top=1<<s.p.w-1
        if x is None or v[0]=="b" or not st.facts.nonneg(x) or st.facts.nonneg(Lin(top-1)-x): return [(st,v)]
        out=[]
        for f,y in((st.facts.add_ge(Lin(top-1)-x),x),(st.facts.add_ge(x-top),x-2*top)):
            if f is not None:
                n=st.copy(); n.facts=f; out.append((n,("n",y)))
        return out
    def bounded(s,t,r):
        """arithmetic whose overflow is followed exactly: constants, and counters of unknown value"""
        if t["k"] not in("uint","int") or t["k"]=="uint" and t.get("size",s.p.w//8)*8>=s.p.w: return False
        return r.const() is not None or all(a[0]=="sym" and str(a[1]).startswith("steps") for a in r.atoms())
    def wrapped(s,st,r,t):
        """[(state, value, overflowed)] of an exact result brought into its type's range"""
        b=t.get("size",s.p.w//8)*8; lo,hi=(0,(1<<b)-1) if t["k"]=="uint" else (-(1<<b-1),(1<<b-1)-1); c=st.facts.norm(r).const()
        if c is not None: return [(st,Lin((c-lo)%(1<<b)+lo),not lo<=c<=hi)]
        out=[]
        for fs,v,w in(((r-lo,Lin(hi)-r),r,False),((r-hi-1,),r-(1<<b),True),((Lin(lo-1)-r,),r+(1<<b),True)):
            f=st.facts
            for e in fs: f=f and f.add_ge(e)
            if f is None: continue
            n=st.copy(); n.facts=f; out.append((n,v,w))
        return out
    def inv(s,x): return Lin(s.M)-x     # !x
    def mul(s,st,x,y):
        if y.const() is not None: return x*y.const()
        if x.const() is not None: return y*x.const()
        # distribute over one side when the other is a single atom
        for p,q in((x,y),(y,x)):
            a=q.single()
            if a is None: continue
            r=q*p.c
            for b,k in p.t:
                if b[0]=="qs" and b[2]==q: r=r+s.adown(st,b[1],q)*k
                else: r=r+Lin.atom(("mul",)+tuple(sorted((b,a),key=repr)))*k
            return r
        return Lin.atom(("mul",x,y))
    def div(s,st,x,y):
        c=y.const()
        if c is not None and c>0:
            if x.const() is not None: return Lin(x.const()//c)
            if c==1: return x
            # exact division
            if all(k%c==0 for _,k in x.t) and x.c%c==0: return Lin(x.c//c,tuple((a,k//c) for a,k in x.t))
            return Lin.atom(("q",x,c))
        return Lin.atom(("qs",x,y))
    def adown(s,st,x,al):
        c=al.const()
        if c is not None and c>0:
            if x.const() is not None: return Lin(x.const()//c*c)
            if c==1: return x
            return s._q(st,x,c)
        # multiples of al inside x can be pulled out: x = y + n*al
        a=al.single()
        if a is not None:
            d=x.d(); k=d.pop(a,0)
            if k: return s.adown(st,Lin.of(d,x.c),al)+al*k
            for b,kk in x.t:
                if b[0]=="adown" and b[2]==al:
                    return s.adown(st,x-Lin.atom(b)*kk,al)+Lin.atom(b)*kk
        if x.const()==0: return Lin(0)
        if x.t and x.c==0 and len(x.t)==1 and x.t[0][1]==1 and st.facts is not None and ("mulof",x.t[0][0],al) in st.facts.pow2:
            return x
        if st.facts.is_pow2(al):
            # al is a power of two that is at most c, and c divides x
            c=1
            while c<(1<<16) and st.facts.multiple(x,c*2): c*=2
            if st.facts.nonneg(Lin(c)-al): return x
        return Lin.atom(("adown",x,al))
    def _q(s,st,x,c):
        """the largest multiple of c that is <= x"""
        d={};cc=x.c//c*c;r=x.c-cc;out=Lin(cc)
        rest={}
        for a,k in x.t:
            m=k if st.facts.atom_multiple(a,k,c) else k//c*c
            if m: out=out+Lin.atom(a)*m
            if k-m: rest[a]=k-m
        y=Lin.of(rest,r)
        if y.const() is not None: return out+(y.const()//c*c)
        return out+Lin.atom(("q",y,c))*c
    def bitand(s,st,x,y):
        cx,cy=x.const(),y.const()
        if cx is not None and cy is not None: return Lin(cx&cy)
        for a,m in((x,y),(y,x)):
            c=m.const()
            if c is not None:
                c&=s.M
                n=(~c)&s.M
                if n==0: return a
                if n&(n+1)==0: return s.adown(st,a,Lin(n+1))          # mask of high bits
                if c&(c+1)==0: return a-s.adown(st,a,Lin(c+1))        # mask of low bits
            # !(al-1)  ==  M - (al-1)   or   -al (== 0 - al, or 2^w - al)
            for al in (Lin(s.M+1)-m, -m):
                if al.t and st.facts.is_pow2(st.facts.norm(al)): return s.adown(st,a,st.facts.norm(al))
            al=m+1
            if al.t and st.facts.is_pow2(al): return a-s.adown(st,a,al)
        return Lin.atom(("and",)+tuple(sorted((x,y),key=repr)))
    def newtype_norm(s,tid): return s.p.newtype_norm(tid)
    def is_opt_nz(s,tid):
        t=s.p.T[tid]
        if t["k"]=="adt" and t["path"]=="core::option::Option" and t.get("size") in(1,2,4,8,16) and t["args"]:
            a=s.p.T[t["args"][0]]
            return a.get("size")==t.get("size")
        return False
    def transmute(s,st,v,frm,to):
        f,t=s.newtype_norm(frm),s.newtype_norm(to)
        if f==t: return [(st,v)]
        F,TT=s.p.T[f],s.p.T[t]
        if s.is_scalar(F) and s.is_scalar(TT): return [(st,v)]
        if s.is_opt_nz(t) and s.is_scalar(F):
            l=s.as_lin(st,v)
            if l is None: return [(st,s.opaque(st,s.fresh(st,"transmute"),to))]
            out=[]
            a=st.facts.add_eq(l); b=st.facts.add_ne(l)
            if a is not None:
                n=st.copy(); n.facts=a; out.append((n,("agg",t,0,None,())))
            if b is not None:
                n=st.copy(); n.facts=b; out.append((n,("agg",t,1,None,((0,("n",l)),))))
            return out
        if s.is_opt_nz(f) and s.is_scalar(TT):
            out=[]
            for n,d in s.discr(st,v,f):
                if d==0: out.append((n,("n",Lin(0))))
                else: out.append((n,s.proj(n,v,1,0,s.p.T[f]["args"][0])))
            return out
        return [(st,v)]    # same bytes, other type: keep the identity
    def discr(s,st,v,tid):
        """[(state, variant index)]"""
        if v[0]=="agg" and v[2] is not None:
            t=s.p.T[tid] if tid is not None else None
            return [(st,v[2])]
        if v[0]=="ord": return [(st,v[1]+1)]
        if v[0]=="agg": v=v[3] or v
        t=s.p.T[tid]
        if v[0]=="t":
            a=Lin.atom(("discr",v[1])); out=[]
            for i,var in enumerate(t["variants"]):
                if any(s.p.uninhabited(f["ty"]) for f in var["fields"]): continue
                f=st.facts.add_eq(a-i)
                if f is not None:
                    n=st.copy(); n.facts=f; out.append((n,i))
            return out
        if v[0]=="n" and s.is_opt_nz(tid):
            return [(n,x[2]) for n,x in s.transmute(st,v,tid if False else s.p.T[tid]["args"][0],tid)]
        out=[]
        a=("sym",s.fresh(st,"discr"))
        for i,var in enumerate(t["variants"]):
            f=st.facts.add_eq(Lin.atom(a)-i); n=st.copy(); n.facts=f; out.append((n,i))
        return out
    def rvalue(s,st,fr,rv,dty,at):
        k=rv[0]
        if k=="use": return [(st,s.operand(st,fr,rv[1]))]
        if k in("ref","reborrow"):
            r,p,t=s.place(st,fr,rv[2]); return [(st,s.addr_of(r,p))]
        if k=="addr":
            r,p,t=s.place(st,fr,rv[1]); return [(st,s.addr_of(r,p))]
        if k=="bin":
            a=s.operand(st,fr,rv[2]); b=s.operand(st,fr,rv[3])
            return s.binop(st,rv[1],a,b,s.op_ty(fr,rv[2],st))
        if k=="un":
            a=s.operand(st,fr,rv[2])
            if rv[1]=="Not":
                if a[0]=="b" or (dty is not None and s.p.T[dty]["k"]=="bool"): return [(st,s.bnot(a))]
                x=s.as_lin(st,a)
                t=s.p.T[dty] if dty is not None else {}
                if x is not None and x.const() is not None and t.get("k")=="int": return [(st,("n",Lin(~x.const())))]
                return [(st,("n",s.inv(x)) if x is not None else ("u",))]
            if rv[1]=="Neg":
                x=s.as_lin(st,a); return [(st,("n",-x) if x is not None else ("u",))]
            if rv[1]=="PtrMetadata": return [(st,s.opaque(st,s.fresh(st,"meta"),dty))]
            return [(st,("u",))]
        if k=="discr":
            r,p,t=s.place(st,fr,rv[1])
            v=s.get(st,r,p,t)
            T=s.p.T[t]
            out=[]
            if T["k"]!="adt" or T["kind"]!="enum": return [(st,("n",Lin(0)))]
            if T["path"]=="core::cmp::Ordering" and v[0]=="ord": return [(st,("n",Lin(v[1])))]
            for n,i in s.discr(st,v,t):
                d=T["variants"][i]["discr"]
                d=int(d) if d is not None else i
                if T["path"]=="core::cmp::Ordering": d=i-1
                out.append((n,("n",Lin(d))))
            return out
        if k=="agg":
            kind,ty,var,act,ops=rv[1:]
            vals=[s.operand(st,fr,o) for o in ops]
            if kind=="rawptr": return [(st,vals[0])]
            if kind=="adt":
                T=s.p.T[ty]
                if T["kind"]=="union": return [(st,vals[0])]
                i=s.p.transparent_inner(T)
                if i is not None: return [(st,vals[i])]
                if s.p.is_nz(T): return [(st,vals[0])]
            return [(st,("agg",ty if ty is not None else dty,var,None,tuple(enumerate(vals))))]
        if k=="cast":
            v=s.operand(st,fr,rv[2]); frm=s.op_ty(fr,rv[2],st); to=rv[3]; ck=rv[1]
            if ck.startswith("PointerCoercion"):
                if rv[4] is not None: return [(st,("fn",rv[4]))]
                if v[0]=="fnc" and v[1].get("inst") is not None: return [(st,("fn",v[1]["inst"]))]
                if "ClosureFnPointer" in ck: return [(st,("closurefn",v))]
                return [(st,v)]
            if ck.startswith("Transmute") or ck=="BoxDerefTransmute":
                if ck=="BoxDerefTransmute": return [(st,v)]
                return s.transmute(st,v,frm,to)
            if ck.startswith("IntToInt"):
                return s.int_cast(st,v,frm,to)
            return [(st,v)]
        if k=="repeat":
            v=s.operand(st,fr,rv[1]); n=rv[2]
            if n is not None and n<=64: return [(st,("agg",dty,0,None,tuple((i,v) for i in range(n))))]
            return [(st,s.opaque(st,s.fresh(st,"repeat"),dty))]
        if k=="tls":
            s.ev(st,"tls",path=rv[1],at=at)
            return [(st,("n",Lin.atom(("tls",rv[1]))))]
        raise Unsupported("rvalue %r"%(k,))
    def int_cast(s,st,v,frm,to):
        F,TT=s.p.T[frm],s.p.T[to]
        if v[0]=="b":
            return [(n,("n",Lin(int(b)))) for n,b in s.decide(st,v)]
        if v[0]=="ord": return [(st,("n",Lin(v[1])))]
        if F["k"]=="adt":   # enum as int
            out=[]
            for n,i in s.discr(st,v,frm):
                d=F["variants"][i]["discr"]; out.append((n,("n",Lin(int(d)))))
            return out
        x=s.as_lin(st,v)
        if x is None: return [(st,("u",))]
        fs,ts=F.get("size",8),TT.get("size",8)
        c=x.const()
        if c is not None:
            w=ts*8; c&=(1<<w)-1
            if TT["k"]=="int" and c>>(w-1)&1: c-=1<<w
            return [(st,("n",Lin(c)))]
        if ts>=fs: return [(st,("n",x))]
        return [(st,("n",Lin.atom(("trunc",x,ts*8))))]
    # ---------- running
    def start(s,root,args=None,facts=None,names=None,ctr0=0):
        inst=s.p.I[root]; body=inst["body"]
        st=State(); st.frames=[]; st.store={}; st.facts=facts or Facts(s.p.w); st.trace=None; st.ctr=ctr0
        st.inflight=None; st.status=None; st.ret=None
        fr=Frame(); fr.uid=ctr0; fr.kind="fn"; fr.inst=root; fr.body=body; fr.bb=0; fr.dest=None; fr.target=None; fr.unwind="continue"; fr.data=None; fr.visits={}; fr.via=None
        st.frames.append(fr)
        nm={}
        for n,p in body["names"]:
            if not p[1] and 1<=p[0]<=body["argc"]: nm.setdefault(p[0],n)
        for i in range(1,body["argc"]+1):
            name=nm.get(i,"arg%d"%i); tid=body["locals"][i]
            if args and name in args: v=args[name]
            else: v=s.arg_value(st,name,tid)
            st.store[("L",ctr0,i)]=v
        return st
    def arg_value(s,st,name,tid):
        t=s.p.T[tid]
        if t["k"]=="ref":
            root=("P",name); 
            v=s.opaque(st,name,t["to"]) if s.p.T[t["to"]]["k"] not in("slice","str","dyn") else None
            if v is not None: st.store[root]=v
            return ("n",Lin.atom(("addr",root,())))
        return s.opaque(st,name,tid)
    def run(s,root,args=None,facts=None,prep=None,ctr0=0,glue=None):
        """glue=(root place, type): instead of the body of `root`, run the destructor of that place"""
        st=s.start(root,args,facts,ctr0=ctr0)
        if prep: prep(s,st)
        if glue:
            f=st.frames[-1]; f.body=dict(f.body); f.body["blocks"]=[{"s":[],"t":{"k":"return","at":""}}]; f.bb=0
            s.push_drops(st,[(glue[0],(),glue[1])],0,"continue","drop")
        work=[st]; done=[]
        while work:
            if len(done)+len(work)>s.max_paths: raise Unsupported("too many paths in %s"%s.p.I[root]["path"])
            st=work.pop()
            while True:
                s.steps+=1
                if s.steps>s.max_steps: raise Unsupported("step limit in %s"%s.p.I[root]["path"])
                nxt=s.step(st)
                nxt=[n for n in nxt]
                fin=[n for n in nxt if n.status]; act=[n for n in nxt if not n.status]
                done+=[n for n in fin if n.status!="infeasible"]
                if not act: break
                st=act[0]; work+=act[1:]
        return done
    def step(s,st):
        fr=st.frames[-1]
        if fr.kind=="drops": return s.step_drops(st,fr)
        if fr.kind=="forward":   # result already placed: return to the caller
            return s.ret_to_caller(st,fr,fr.data)
        b=fr.body["blocks"][fr.bb]
        fr.visits[fr.bb]=fr.visits.get(fr.bb,0)+1
        if fr.visits[fr.bb]>6:
            if fr.visits[fr.bb]==7: s.havoc_loop(st,fr)
            else:
                st.status="loop"; return [st]
        sts=[st]
        for stm in b["s"]:
            nsts=[]
            for x in sts:
                f=x.frames[-1]
                k=stm[0]
                if k=="=":
                    dr=stm[1]
                    dty=None
                    try:
                        r0,p0,dty=s.place(x,f,dr)
                    except Unsupported: raise
                    for n,v in s.rvalue(x,f,stm[2],dty,stm[3]):
                        v=s.force(n,v)
                        r,p,t=s.place(n,n.frames[-1],dr)
                        s.write(n,r,p,t,v,stm[3])
                        nsts.append(n)
                elif k=="setd":
                    r,p,t=s.place(x,f,stm[1]); v=s.get(x,r,p,t)
                    fl=v[4] if v[0]=="agg" else ()
                    s.set(x,r,p,("agg",t,stm[2],None,fl)); nsts.append(x)
                elif k=="sl":
                    x.store[("L",f.uid,stm[1])]=("u",); nsts.append(x)
                elif k=="sd":
                    x.store.pop(("L",f.uid,stm[1]),None); nsts.append(x)
                elif k=="assume":
                    v=s.operand(x,f,stm[1])
                    nsts+=[n for n,bv in s.decide(x,v) if bv]
                elif k=="cno":
                    src=s.operand(x,f,stm[1]); dst=s.operand(x,f,stm[2])
                    pt=s.p.T[s.op_ty(f,stm[1],x)].get("to")
                    r,p=s.deref(x,src); v=s.get(x,r,p,pt)
                    r,p=s.deref(x,dst); s.write(x,r,p,pt,v,"")
                    nsts.append(x)
                else: nsts.append(x)
            sts=nsts
        out=[]
        for x in sts: out+=s.term(x,x.frames[-1],b["t"])
        return out
    def force(s,st,v):
        if v[0]=="fnc":
            if v[1].get("inst") is not None: return ("fn",v[1]["inst"])
            return ("t","fn:"+v[1]["path"],0)
        if v[0]=="ceval":
            r=s.eval_const(v[1]); return r
        return v
    def eval_const(s,inst):
        sub=Interp(s.p); rs=[x for x in sub.run(inst) if x.status=="return"]
        if len(rs)==1: return rs[0].ret
        return ("u",)
    def havoc_loop(s,st,fr):
        """widening: forget every local of this frame assigned in a block on a cycle through here"""
        blocks=fr.body["blocks"]
        def succ(i):
            t=blocks[i]["t"]; o=[]
            for key in("t","o"):
                x=t.get(key)
                if isinstance(x,int): o.append(x)
                elif isinstance(x,list): o+=[y for y in x if isinstance(y,int)]
            if t["k"]=="switch": o+=[y for _,y in t["v"]]
            return o
        def reach(a):
            seen=set(); w=[a]
            while w:
                i=w.pop()
                for j in succ(i):
                    if j not in seen: seen.add(j); w.append(j)
            return seen
        cyc={j for j in reach(fr.bb) if fr.bb in reach(j)}|{fr.bb}
        for j in cyc:
            b=blocks[j]
            for stm in b["s"]:
                if stm[0]=="=":
                    r,p,t=s.place(st,fr,stm[1])
                    if t is not None: s.set(st,r,p,s.opaque(st,s.fresh(st,"widen"),t))
            t=b["t"]
            if t["k"]=="call":
                r,p,ty=s.place(st,fr,t["d"])
                if ty is not None: s.set(st,r,p,s.opaque(st,s.fresh(st,"widen"),ty))
        for j in cyc: fr.visits[j]=5 if j!=fr.bb else 7
        s.ev(st,"widened")
    def write(s,st,r,p,t,v,at):
        if r==("Z",): return
        w=s.parts(st,r,p,t,v)
        if w!=[(r,p,t,v)]:
            st.store.pop(r,None)
            for x in w: s.write(st,*x,at)
            return
        if r[0] in("mem","P","bad","code") or (r[0]=="L" and r[1]!=st.frames[-1].uid):
            s.ev(st,"write",root=r,path=p,ty=t,val=v,at=at)
        s.set(st,r,p,v)
    # ---------- terminators
    def goto(s,st,b):
        st.frames[-1].bb=b; return st
    def term(s,st,fr,t):
        k=t["k"]
        if k=="goto": return [s.goto(st,t["t"])]
        if k=="return":
            v=s.get(st,("L",fr.uid,0),(),fr.body["locals"][0])
            return s.ret_to_caller(st,fr,v)
        if k=="unreachable":
            # compiler-proved or assumed unreachable
            s.ev(st,"unreachable",at=t["at"]); st.status="unreachable"; return [st]
        if k=="switch": return s.switch(st,fr,t)
        if k=="assert":
            c=s.operand(st,fr,t["c"]); out=[]
            for n,b in s.decide(st,c):
                if b==t["e"]: out.append(s.goto(n,t["t"]))
                else:
                    if t["msg"] in("misaligned","null"): continue
                    s.ev(n,"panic",what="assert:"+t["msg"],at=t["at"])
                    n.inflight=s.payload_tok(s.fresh(n,"panic:"+t["msg"]))
                    out+=s.unwind_to(n,n.frames[-1],t["u"])
            return out
        if k=="drop":
            r,p,ty=s.place(st,fr,t["p"])
            s.push_drops(st,[(r,p,t["ty"])],t["t"],t["u"],t["at"])
            return [st]
        if k=="call": return s.call_term(st,fr,t)
        if k=="asm": return s.asm(st,fr,t)
        if k=="resume": return s.unwind_out(st)
        if k=="terminate":
            s.ev(st,"abort",why="unwind terminate",at=t["at"]); st.status="abort"; return [st]
        raise Unsupported("terminator "+k)
    def switch(s,st,fr,t):
        v=s.operand(st,fr,t["d"])
        out=[]
        ty=s.p.T[t["ty"]]
        vals=[]
        for a,b in t["v"]:
            a=int(a)
            if ty["k"]=="int" and a>>(ty.get("size",8)*8-1)&1: a-=1<<(ty.get("size",8)*8)
            vals.append((a,b))
        if v[0]=="b" or ty["k"]=="bool":
            for n,b in s.decide(st,v):
                for a,tb in vals:
                    if a==int(b): out.append(s.goto(n,tb)); break
                else: out.append(s.goto(n,t["o"]))
            return out
        x=s.as_lin(st,v)
        if x is None: x=Lin.atom(("sym",s.fresh(st,"switch")))
        x=st.facts.norm(x)
        c=x.const()
        if c is not None:
            for a,b in vals:
                if a==c: return [s.goto(st,b)]
            return [s.goto(st,t["o"])]
        f=st.facts
        for a,b in vals:
            g=st.facts.add_eq(x-a)
            if g is not None:
                n=st.copy(); n.facts=g; out.append(s.goto(n,b))
            if f is not None: f=f.add_ne(x-a)
        if f is not None:
            n=st.copy(); n.facts=f; out.append(s.goto(n,t["o"]))
        return out
    def pop_locals(s,st,fr):
        for k in [k for k in st.store if k[0]=="L" and k[1]==fr.uid]: del st.store[k]
    def ret_to_caller(s,st,fr,v):
        st.frames.pop()
        if not st.frames:
            st.status="return"; st.ret=v; st.store["frame"]=None; del st.store["frame"]; return [st]
        s.pop_locals(st,fr)
        c=st.frames[-1]
        if fr.kind=="fn" and fr.via is not None:
            v=fr.via[0](st,v)     # result adaptor (catch_unwind etc.)
        if fr.dest is not None:
            r,p,t=fr.dest
            s.write(st,r,p,t,v,"") if v is not None else None
        if c.kind=="drops": return [st]
        if fr.target is None:
            st.status="unreachable"; return [st]
        c.bb=fr.target
        return [st]
    def unwind_to(s,st,fr,u):
        if s.p.pabort: s.ev(st,"abort",why="a panic, with panic=abort"); st.status="abort"; return [st]
        """an operation in frame fr unwinds with action u"""
        if fr.kind=="drops":
            fr.data["unwinding"]=True; return [st]
        if u=="continue": return s.unwind_out(st)
        if u=="terminate":
            s.ev(st,"abort",why="unwind in nounwind context"); st.status="abort"; return [st]
        if u=="unreachable":
            s.ev(st,"ub",why="unwind marked unreachable"); st.status="ub"; return [st]
        fr.bb=u; return [st]
    def unwind_out(s,st):
        fr=st.frames.pop()
        if fr.kind=="fn" and fr.via is not None and len(fr.via)>1 and fr.via[1] is not None:
            # caught
            s.pop_locals(st,fr)
            pay=st.inflight; st.inflight=None
            v=fr.via[1](st,pay)
            r,p,t=fr.dest; s.write(st,r,p,t,v,"")
            st.frames[-1].bb=fr.target
            return [st]
        if not st.frames:
            st.status="unwind"; return [st]
        s.pop_locals(st,fr)
        return s.unwind_to(st,st.frames[-1],fr.unwind)
    # ---------- drops
    def push_drops(s,st,items,target,unwind,at):
        fr=Frame(); fr.uid=s.uid(st); fr.kind="drops"; fr.inst=None; fr.body=None; fr.bb=None; fr.dest=None
        fr.target=target; fr.unwind=unwind; fr.data={"items":list(items),"unwinding":False,"at":at}; fr.visits=None; fr.via=None
        st.frames.append(fr)
    def uid(s,st):
        st.ctr+=1; return st.ctr
    def step_drops(s,st,fr):
        fr.data=dict(fr.data); fr.data["items"]=list(fr.data["items"])
        if not fr.data["items"]:
            if fr.data["unwinding"]:
                st.frames.pop()
                return s.unwind_to(st,st.frames[-1],fr.unwind)
            st.frames.pop()
            c=st.frames[-1]
            if c.kind!="drops":
                if fr.target is None: st.status="unreachable"; return [st]
                c.bb=fr.target
            return [st]
        r,p,ty=fr.data["items"].pop(0)
        T=s.p.T[ty]
        if not T["needs_drop"]: return [st]
        v=s.get(st,r,p,ty)
        at=fr.data["at"]
        if v==("u",) or v[0]=="dropped":
            s.ev(st,"double_drop",root=r,path=p,ty=ty,at=at)
            return [st]
        if T["k"]=="adt" and T.get("manually_drop"): return [st]
        if T["k"]=="adt" and T.get("is_box"):
            s.ev(st,"drop",val=v,ty=ty,root=r,path=p,at=at); s.set(st,r,p,("dropped",)); return [st]
        if T["k"]=="adt" and T["kind"]=="union": return [st]
        if T["k"]=="adt" and ("drop_impl" in T) and not fr.data.get("noimpl")==(r,p,ty):
            fr.data["items"].insert(0,(r,p,ty)); fr.data["noimpl"]=(r,p,ty)
            di=T["drop_impl"]; inst=s.p.I[di]
            if "body" in inst and (inst["local"] or inst["krate"]=="scopeguard"):
                s.ev(st,"drop_impl",ty=ty,root=r,path=p,val=v,at=at)
                return s.enter(st,di,[s.addr_of(r,p)],None,None,"continue")
            fr.data["items"].pop(0)
            s.ev(st,"drop",val=v,ty=ty,root=r,path=p,at=at); s.set(st,r,p,("dropped",)); return [st]
        if T["k"]=="adt" and T["kind"]=="struct" or T["k"] in("tuple","closure"):
            fs=s.fields_of(ty,0)
            inner=s.p.transparent_inner(T) if T["k"]=="adt" else None
            its=[]
            for i,(n,ft) in enumerate(fs):
                if inner is not None:
                    if i==inner: its.append((r,p,ft))
                else: its.append((r,p+(("f",i,ft),),ft))
            fr.data["items"]=its+fr.data["items"]
            return [st]
        if T["k"]=="adt" and T["kind"]=="enum":
            out=[]
            for n,i in s.discr(st,v,ty):
                f=n.frames[-1]; f.data=dict(f.data)
                its=[(r,p+(("d",i),("f",j,fd["ty"])),fd["ty"]) for j,fd in enumerate(T["variants"][i]["fields"])]
                f.data["items"]=its+list(f.data["items"]); out.append(n)
            return out
        # leaf with unknown drop: type parameter, trait object, ...
        s.ev(st,"drop",val=v,ty=ty,root=r,path=p,at=at)
        s.set(st,r,p,("dropped",))
        out=[st]
        if s.user_may_unwind and T["k"] in("param","dyn","other") :
            n=st.copy(); f=n.frames[-1]; f.data=dict(f.data)
            already=f.data["unwinding"]
            if already or n.inflight is not None:
                s.ev(n,"abort",why="panic in a destructor while unwinding",at=at); n.status="abort"
            else:
                s.ev(n,"panic",what="user drop",at=at); n.inflight=s.payload_tok(s.fresh(n,"userpanic")); f.data["unwinding"]=True
            out.append(n)
        return out
    # ---------- calls
    def enter(s,st,inst,args,dest,target,unwind,via=None,flat=False):
        I=s.p.I[inst]; body=I["body"]
        depth=sum(1 for f in st.frames if f.inst==inst)
        if depth>3 or len(st.frames)>60: raise Unsupported("recursion through "+I["path"])
        fr=Frame(); fr.uid=s.uid(st); fr.kind="fn"; fr.inst=inst; fr.body=body; fr.bb=0; fr.dest=dest; fr.target=target
        fr.unwind=unwind; fr.data=None; fr.visits={}; fr.via=via
        n=body["argc"]
        args=[s.force(st,a) for a in args]
        if (len(args)!=n or flat) and args:
            last=args[-1]
            ex=n-len(args)+1
            flat=[]
            for i in range(ex):
                fty=body["locals"][len(args)+i] if len(args)+i<len(body["locals"]) else None
                flat.append(s.proj(st,last,None,i,fty))
            args=args[:-1]+flat
        for i,a in enumerate(args): st.store[("L",fr.uid,i+1)]=a
        st.frames.append(fr)
        return [st]
    def call_term(s,st,fr,t):
        f=t["f"]
        args=[s.force(st,s.operand(st,fr,a)) for a in t["a"]]
        dest=s.place(st,fr,t["d"])
        c=None
        if f[0]=="k" and "fn" in f[1]: c=f[1]["fn"]
        if c is None:
            fv=s.force(st,s.operand(st,fr,f))
            if fv[0]=="fn": return s.call_inst(st,fr,t,fv[1],args,dest,None)
            if fv[0]=="t" and s.p.T[fv[2]]["k"]=="fndef": return s.unknown(st,fr,t,fv[1],args,dest)
            s.ev(st,"call_ptr",f=fv,args=args,at_=t["at_"],at=t["at"])
            return s.outcomes(st,fr,t,dest,ret=s.opaque(st,s.fresh(st,"ptrcall"),t["dty"]),may_unwind=True,why="function pointer")
        return s.call_inst(st,fr,t,c.get("inst"),args,dest,c)
    def outcomes(s,st,fr,t,dest,ret,may_unwind,why,diverge=False):
        out=[]
        if may_unwind:
            n=st.copy()
            if s.unwinding_context(n):
                s.ev(n,"maybe_abort",why="unwind during cleanup: "+why,at=t["at"])
            s.ev(n,"panic",what=why,at=t["at"]); n.inflight=s.user_payload if s.user_payload is not None and why.startswith("user code") else s.payload_tok(s.fresh(n,"userpanic"))
            out+=s.unwind_to(n,n.frames[-1],t["u"])
        if not diverge and t["t"] is not None:
            r,p,ty=dest; s.write(st,r,p,ty,ret,t["at"])
            out.append(s.goto(st,t["t"]))
        return out
    def unwinding_context(s,st): return st.inflight is not None
    def user_call(s,st,fr,t,name,args,dest):
        e=s.ev(st,"user_call",name=name,args=args,at=t["at"],atys=t["at_"])
        ret=s.opaque(st,s.fresh(st,"ret"),t["dty"]); e["ret"]=ret
        if "user_ran" in s.hooks: s.hooks["user_ran"](s,st,e)
        return s.outcomes(st,fr,t,dest,ret,s.user_may_unwind,"user code: "+name)
    def call_inst(s,st,fr,t,inst,args,dest,c):
        path=(c or {}).get("path") or s.p.I[inst]["path"]
        I=s.p.I[inst] if inst is not None else None
        m=s.model(st,fr,t,path,I,c,args,dest)
        if m is not None: return m
        if I is None or I.get("trait_decl"):
            return s.user_or_getter(st,fr,t,path,c,args,dest)
        if "body" in I:
            flat=path.startswith("core::ops::function::Fn") and path.split("::")[-1] in("call_once","call_mut","call") and I["path"].rsplit("::",1)[-1].startswith("{closure") and I["body"].get("spread") is None
            return s.enter(st,inst,args,dest,t["t"],t["u"],flat=flat)
        if c and c.get("foreign"):
            return s.foreign(st,fr,t,c["name"],args,dest)
        if I.get("foreign"): return s.foreign(st,fr,t,I["name"],args,dest)
        return s.unknown(st,fr,t,path,args,dest)
    def foreign(s,st,fr,t,name,args,dest):
        h=s.hooks.get("foreign")
        if h:
            r=h(s,st,fr,t,name,args,dest)
            if r is not None: return r
        e=s.ev(st,"ext",name=name,args=args,at=t["at"])
        # whatever the callee may write through pointers it was given is unknown afterwards
        for a,aty in zip(args,t["at_"]):
            A=s.p.T[aty]
            if A["k"] in("ptr","ref") and A.get("mut") and a[0]=="n":
                r,p=s.deref(st,a)
                if r[0] in("L","P"):
                    s.set(st,r,p,s.opaque(st,s.fresh(st,"%s.out"%name),A["to"]))
        ret=s.opaque(st,s.fresh(st,name),t["dty"]); e["ret"]=ret
        return s.outcomes(st,fr,t,dest,ret,False,name,diverge=t["t"] is None)
    def unknown(s,st,fr,t,path,args,dest):
        e=s.ev(st,"std",path=path,args=args,at=t["at"])
        if t["t"] is None:
            s.ev(st,"panic",what=path,at=t["at"]); st.inflight=s.payload_tok(s.fresh(st,"panic"))
            return s.unwind_to(st,fr,t["u"])
        ret=s.opaque(st,s.fresh(st,path.split("::")[-1]),t["dty"]); e["ret"]=ret
        return s.outcomes(st,fr,t,dest,ret,False,path)
    def user_or_getter(s,st,fr,t,path,c,args,dest):
        name=path.split("::")[-1]
        if re.search(r"^(?:\w+::)*Stack::(?:base|limit|teb_fields|update_teb_fields)$",path):
            a=s.deref(st,args[0]) if args else None
            v=s.get(st,a[0],a[1],(c or {}).get("targs",[None])[0])
            key=v[1] if v[0]=="t" else repr(v)
            if name in("base","limit"):
                s.ev(st,"stack_get",name=name,recv=v,at=t["at"])
                ret=s.opaque(st,"%s(%s)"%(name,key),t["dty"])
                return s.outcomes(st,fr,t,dest,ret,False,path)
            e=s.ev(st,"stack_call",name=name,recv=v,args=args,at=t["at"])
            ret=s.opaque(st,s.fresh(st,"%s(%s)"%(name,key)),t["dty"]); e["ret"]=ret
            return s.outcomes(st,fr,t,dest,ret,False,path)
        return s.user_call(st,fr,t,path,args,dest)
    def ret1(s,st,t,dest,v):
        r,p,ty=dest; s.write(st,r,p,ty,v,t["at"])
        if t["t"] is None: st.status="unreachable"; return [st]
        return [s.goto(st,t["t"])]
    def model(s,st,fr,t,path,I,c,args,dest):
        name=path.split("::")[-1]
        targs=(c or I or {}).get("targs") or []
        krate=(c or I or {}).get("krate","")
        if krate not in("core","alloc","std"): return None
        if name in("size_of","size_of_val","min_align_of","align_of","pref_align_of","align_of_val","min_align_of_val") and targs and path.startswith("core::"):
            if s.p.T[targs[0]]["k"] in("dyn","slice","str"): return None
            if name in("size_of","size_of_val"): return s.ret1(st,t,dest,("n",s.size_lin(targs[0])))
            if name in("align_of","min_align_of","align_of_val","min_align_of_val"): return s.ret1(st,t,dest,("n",s.align_lin(targs[0])))
        if name=="needs_drop" and targs: return s.ret1(st,t,dest,("n",Lin(int(s.p.T[targs[0]]["needs_drop"]))))
        if path.startswith("core::ptr::") or path.startswith("core::intrinsics::"):
            base=name
            if base in("read","read_unaligned","read_volatile","volatile_load","unaligned_volatile_load","typed_swap","read_via_copy"):
                pt=targs[0]
                if base=="typed_swap": return None
                r,p=s.deref(st,args[0]); v=s.get(st,r,p,pt)
                v=s.typed_read(st,t,r,p,pt,v,"unaligned" in base)
                return s.ret1(st,t,dest,v)
            if base in("write","write_unaligned","write_volatile","write_via_move","volatile_store"):
                pt=targs[0]; r,p=s.deref(st,args[0])
                s.typed_write(st,t,r,p,pt,args[1],"unaligned" in base)
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            if base in("copy_nonoverlapping","copy"):
                pt=targs[0]; n=s.as_lin(st,args[2])
                if n is not None and n.const()==1:
                    r,p=s.deref(st,args[0]); v=s.typed_read(st,t,r,p,pt,s.get(st,r,p,pt),False)
                    r,p=s.deref(st,args[1]); s.typed_write(st,t,r,p,pt,v,False)
                    return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
                r,p=s.deref(st,args[0]); sv=s.get(st,r,p,None)
                sty=sv[1] if sv[0] in("agg","pun") else sv[2] if sv[0]=="t" and len(sv)>2 else None
                if n is not None and sty is not None and s.mul(st,n,s.size_lin(pt))==s.size_lin(sty):
                    v=s.typed_read(st,t,r,p,sty,sv,True)
                    r,p=s.deref(st,args[1]); s.typed_write(st,t,r,p,sty,v,True)
                    return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
                s.ev(st,"rawcopy",src=args[0],dst=args[1],count=args[2],ty=pt,at=t["at"])
                s.smear(st,t,args[1],pt,n,"copied")
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            if base=="write_bytes":
                s.smear(st,t,args[0],targs[0],s.as_lin(st,args[2]),"filled")
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            if base in("replace","swap") and path.startswith("core::ptr::"): return None
            if base=="drop_in_place" or base=="drop_glue":
                pt=targs[0]; r,p=s.deref(st,args[0])
                s.ev(st,"drop_in_place",ptr=args[0],ty=pt,at=t["at"])
                if s.read_root(st,r) is None and not p and s.p.T[pt]["k"]=="param":
                    st.store[r]=s.opaque(st,"*"+root_str(r),pt)
                s.push_drops(st,[(r,p,pt)],t["t"],t["u"],t["at"])
                s.write_unit(st,dest)
                return [st]
        if path in("core::mem::forget","core::mem::manually_drop::ManuallyDrop::<T>::new","core::intrinsics::forget"):
            if name=="forget":
                s.ev(st,"forget",val=args[0],ty=targs[0],at=t["at"])
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            return s.ret1(st,t,dest,args[0])
        if path.endswith("ManuallyDrop::<T>::take"):
            r,p=s.deref(st,args[0]); v=s.get(st,r,p,targs[0])
            s.ev(st,"md_take",root=r,path=p,val=v,at=t["at"])
            return s.ret1(st,t,dest,v)
        if path.endswith("ManuallyDrop::<T>::into_inner"): return s.ret1(st,t,dest,args[0])
        if path.endswith("ManuallyDrop::<T>::drop"):
            r,p=s.deref(st,args[0]); s.push_drops(st,[(r,p,targs[0])],t["t"],t["u"],t["at"]); s.write_unit(st,dest); return [st]
        if path.startswith("<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref"): return s.ret1(st,t,dest,args[0])
        if "nonzero::NonZero" in path:
            if name=="new":
                out=[]
                for n,v in s.transmute_opt(st,args[0],t["dty"]): 
                    out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),v)
                return out
            if name=="new_unchecked":
                l=s.as_lin(st,args[0])
                if l is not None: s.ev(st,"new_unchecked",expr=l,at=t["at"])
                return s.ret1(st,t,dest,args[0])
            if name in("get",): return s.ret1(st,t,dest,args[0])
        m=__import__("re").match(r"core::num::<impl (u\w+)>::(checked|wrapping|saturating|overflowing)_(add|sub|mul)$",path)
        if m and m.group(1) in("usize","u64" if s.p.w==64 else "u32"):
            op=m.group(3).capitalize(); kind=m.group(2)
            a,b=st.facts.norm(s.as_lin(st,args[0])),st.facts.norm(s.as_lin(st,args[1]))
            r=a+b if op=="Add" else a-b if op=="Sub" else s.mul(st,a,b)
            ok=(st.facts.add_ge(r) if op=="Sub" else st.facts.add_ge(Lin(s.M)-r))
            bad=(st.facts.add_ge(-r-1) if op=="Sub" else st.facts.add_ge(r-(s.M+1)))
            out=[]
            def emit(facts,v):
                if facts is None: return
                n=st.copy(); n.facts=facts
                out.extend(s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),v))
            if kind=="checked":
                emit(ok,("agg",t["dty"],1,None,((0,("n",r)),))); emit(bad,("agg",t["dty"],0,None,()))
            elif kind=="overflowing":
                emit(ok,("agg",t["dty"],0,None,((0,("n",r)),(1,("n",Lin(0)))))); emit(bad,("agg",t["dty"],0,None,((0,("n",r+(s.M+1) if op=="Sub" else r-(s.M+1))),(1,("n",Lin(1))))))
            elif kind=="saturating":
                emit(ok,("n",r)); emit(bad,("n",Lin(0) if op=="Sub" else Lin(s.M)))
            else:
                emit(ok,("n",r)); emit(bad,("n",r+(s.M+1)) if op=="Sub" else ("n",r-(s.M+1)) if op=="Add" else s.opaque(st,s.fresh(st,"wrapmul"),t["dty"]))
            return out
        if name=="is_power_of_two" and path.startswith("core::num::"):
            x=st.facts.norm(s.as_lin(st,args[0])); a=x.single()
            if x.const() is not None: return s.ret1(st,t,dest,("n",Lin(int(x.const()>0 and x.const()&(x.const()-1)==0))))
            out=[]
            if a is not None:
                n=st.copy(); f=n.facts.add_ge(x-1)
                if f is not None:
                    n.facts=f.add_pow2(a); out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),("n",Lin(1)))
                n=st.copy(); out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),("n",Lin(0)))
                return out
        if path in("std::panic::catch_unwind","std::panicking::catch_unwind","std::panicking::try","core::intrinsics::catch_unwind"):
            return s.catch_unwind(st,fr,t,c or I,args,dest)
        if path in("std::panic::resume_unwind","std::panicking::resume_unwind"):
            s.ev(st,"resume_unwind",val=args[0],at=t["at"])
            st.inflight=args[0]
            return s.unwind_to(st,fr,t["u"])
        if path in("std::process::abort","core::intrinsics::abort","std::process::exit"):
            s.ev(st,"abort",why=path,at=t["at"]); st.status="abort"; return [st]
        if path.startswith("core::panicking::panic_nounwind") or path.startswith("core::panicking::panic_cannot_unwind") or path.startswith("core::panicking::panic_in_cleanup"):
            s.ev(st,"abort",why=path,at=t["at"]); st.status="abort"; return [st]
        if path.startswith("core::panicking::") or path.endswith("::expect_failed") or path.endswith("::unwrap_failed") or path in("std::panic::panic_any","std::panicking::begin_panic","std::rt::begin_panic"):
            if t["t"] is None:
                if st.inflight is not None:
                    # panicking while already panicking aborts the process
                    s.ev(st,"abort",why="panic while panicking",at=t["at"]); st.status="abort"; return [st]
                s.ev(st,"panic",what=path,at=t["at"]); st.inflight=s.payload_tok(s.fresh(st,"panic"))
                return s.unwind_to(st,fr,t["u"])
        if path=="std::thread::panicking" or path.endswith("::panicking") and path.startswith("std::thread"):
            # with no panic of ours in flight, the caller may itself be a destructor run by somebody else's
            return s.ret1(st,t,dest,("n",Lin(1)) if st.inflight is not None else s.opaque(st,"thread_panicking",t["dty"]))
        if path=="alloc::boxed::Box::<T>::new":
            v=s.p.newbox(t["dty"],args[0],targs[0]); st.store[s.deref(st,dict(v[4])[0])[0]]=args[0]
            s.ev(st,"box_new",val=args[0],ty=targs[0],at=t["at"])
            return s.ret1(st,t,dest,v)
        if name in("downcast_ref","is","downcast","downcast_mut") and "dyn core::any::Any" in path:
            return s.downcast(st,fr,t,name,args,dest,targs)
        if name in("black_box",): return s.ret1(st,t,dest,args[0])
        if name in("cold_path","assert_inhabited","assert_zero_valid","assert_mem_uninitialized_valid") : return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
        if name in("likely","unlikely") : return s.ret1(st,t,dest,args[0])
        if name=="precondition_check" or name.startswith("check_language_ub") or "ub_checks" in path:
            return s.ret1(st,t,dest,("n",Lin(0)))
        if name in("offset","arith_offset") and path.startswith("core::intrinsics"):
            es=s.size_lin(targs[0]) if len(targs)==1 else s.size_lin(s.p.T[targs[0]]["to"])
            x,y=s.as_lin(st,args[0]),s.as_lin(st,args[1])
            return s.ret1(st,t,dest,("n",x+s.mul(st,y,es)))
        mm=__import__("re").match(r"core::ptr::(mut_ptr|const_ptr)::<impl \*(?:mut|const) T>::(wrapping_|byte_|wrapping_byte_)?(add|sub|offset)$",path)
        if mm and targs:
            es=Lin(1) if mm.group(2) and "byte" in mm.group(2) else s.size_lin(targs[0])
            x,y=s.as_lin(st,args[0]),s.as_lin(st,args[1]); d=s.mul(st,y,es)
            r=x-d if mm.group(3)=="sub" else x+d
            return s.ret1(st,t,dest,("n",r))
        if mm is None and path.startswith("core::intrinsics::") and name in("wrapping_add","wrapping_sub","unchecked_add","unchecked_sub","wrapping_mul"):
            a,b=s.as_lin(st,args[0]),s.as_lin(st,args[1])
            if s.split_wrap and name in("wrapping_add","wrapping_sub") and a is not None and b is not None and s.p.T[targs[0]]["k"]=="uint" and s.p.T[targs[0]].get("size",s.p.w//8)==s.p.w//8:
                out=[]
                for n,v in s.binop(st,"Add" if "add" in name else "Sub",args[0],args[1],targs[0]): out+=s.ret1(n,t,dest,v)
                return out
            r=a+b if "add" in name else a-b if "sub" in name else s.mul(st,a,b)
            if name.startswith("wrapping") and s.bounded(s.p.T[targs[0]],st.facts.norm(r)):
                out=[]
                for n,v,w in s.wrapped(st,st.facts.norm(r),s.p.T[targs[0]]): out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),("n",v))
                return out
            return s.ret1(st,t,dest,("n",r))
        if path.startswith("core::intrinsics::") and name in("integer_max","integer_min") and s.p.T[targs[0]]["k"]=="uint":
            a,b=s.as_lin(st,args[0]),s.as_lin(st,args[1])
            if a is not None and b is not None:
                out=[]
                for f,v in((st.facts.add_ge(a-b),a if name.endswith("max") else b),(st.facts.add_ge(b-a-1),b if name.endswith("max") else a)):
                    if f is None: continue
                    n=st.copy(); n.facts=f; out+=s.ret1(n,t,dest,("n",v))
                return out
        if path.startswith("core::intrinsics::") and name in("saturating_add","saturating_sub") and s.p.T[targs[0]]["k"]=="uint" and s.p.T[targs[0]].get("size",s.p.w//8)==s.p.w//8:
            a,b=s.as_lin(st,args[0]),s.as_lin(st,args[1])
            if a is not None and b is not None:
                out=[]; r=a+b if "add" in name else a-b
                ov=r-(s.M+1) if "add" in name else -r-1
                for f,v in((st.facts.add_ge(-ov-1),r),(st.facts.add_ge(ov),Lin(s.M if "add" in name else 0))):
                    if f is None: continue
                    n=st.copy(); n.facts=f; out+=s.ret1(n,t,dest,("n",v))
                return out
        if path.startswith("core::intrinsics::") and name in("add_with_overflow","sub_with_overflow","mul_with_overflow"):
            out=[]
            for n,v in s.binop(st,name.split("_")[0].capitalize()+"WithOverflow",args[0],args[1],targs[0]): out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),v)
            return out
        if path.startswith("core::intrinsics::") and name=="transmute":
            out=[]
            for n,v in s.transmute(st,args[0],targs[0],targs[1]): out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),v)
            return out
        if path.startswith("core::intrinsics::atomic_"):
            op=name[7:]
            if op in("fence","singlethreadfence"):
                s.ev(st,"fence",at=t["at"],cpu=op=="fence")
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            r,p=s.deref(st,args[0]); shared=r[0]=="mem" and any(a[0]=="static" for a in r[1].atoms())
            if op=="load":
                v=s.opaque(st,s.fresh(st,"atomic_load"),t["dty"]) if shared else s.get(st,r,p,t["dty"])
                s.ev(st,"read",root=r,path=p,ty=t["dty"],val=v,unaligned=False,pun=None,at=t["at"],atomic=True)
                return s.ret1(st,t,dest,v)
            if op=="store":
                s.ev(st,"write",root=r,path=p,ty=targs[0],val=args[1],unaligned=False,pun=None,at=t["at"],raw=True,atomic=True)
                s.set(st,r,p,args[1])
                return s.ret1(st,t,dest,("agg",t["dty"],0,None,()))
            for a in args[1:]:
                s.ev(st,"write",root=r,path=p,ty=targs[0],val=a,unaligned=False,pun=None,at=t["at"],raw=True,atomic=True,rmw=op)
            s.set(st,r,p,s.opaque(st,s.fresh(st,"atomic_rmw"),targs[0]))
            return s.ret1(st,t,dest,s.opaque(st,s.fresh(st,"atomic_old"),t["dty"]))
        if path.startswith("core::intrinsics::") and I is not None and I["kind"]=="intrinsic":
            if t["t"] is None:
                s.ev(st,"abort",why=path,at=t["at"]); st.status="abort"; return [st]
            x=[s.as_lin(st,a) for a in args]
            if all(z is not None for z in x): return s.ret1(st,t,dest,s.opaque(st,"%s(%s)"%(name,",".join(map(repr,x))),t["dty"]))
            return s.ret1(st,t,dest,s.opaque(st,s.fresh(st,name),t["dty"]))
        return None
    def write_unit(s,st,dest):
        r,p,t=dest; s.set(st,r,p,("agg",t,0,None,()))
    def transmute_opt(s,st,v,dty):
        l=s.as_lin(st,v); out=[]
        a=st.facts.add_eq(l); b=st.facts.add_ne(l)
        if a is not None:
            n=st.copy(); n.facts=a; out.append((n,("agg",dty,0,None,())))
        if b is not None:
            n=st.copy(); n.facts=b; out.append((n,("agg",dty,1,None,((0,("n",l)),))))
        return out
    def decl_ty(s,st,r,p):
        """declared type of a local place (None if unknown)"""
        if r[0]!="L": return None
        if p:
            return p[-1][2] if p[-1][0]=="f" and len(p[-1])>2 else None
        for f in st.frames:
            if f.uid==r[1] and f.body is not None: return f.body["locals"][r[2]]
        return None
    def tname(s,tid): return s.p.T[s.newtype_norm(tid)]["s"]
    def plain(s,tid):
        """scalar-like types whose values are ('n', ..) even when reinterpreted"""
        t=s.p.T[s.newtype_norm(tid)]
        return s.is_scalar(t) or s.is_opt_nz(t["id"]) or s.p.is_nz(t)
    def punned(s,st,r,p,ty):
        """(declared type, True) when an access of type ty reinterprets the place"""
        d=s.decl_ty(st,r,p)
        if d is None: return None
        a,b=s.newtype_norm(d),s.newtype_norm(ty)
        if a==b or s.p.T[a]["s"]==s.p.T[b]["s"]: return None
        D=s.p.T[a]
        if D["k"]=="adt" and D["kind"]=="union": return None
        if s.plain(a) and s.plain(b) and s.p.T[a].get("size")==s.p.T[b].get("size"): return None
        return d
    def fits(s,st,t,kind,d,ty,unaligned):
        sz,dz=s.size_lin(ty),s.size_lin(d)
        if not st.facts.nonneg(dz-sz): s.ev(st,"oob",what=kind,ty=ty,place_ty=d,at=t["at"])
        if not unaligned and not st.facts.nonneg(s.align_lin(d)-s.align_lin(ty)):
            s.ev(st,"misaligned",what=kind,ty=ty,place_ty=d,at=t["at"])
    def retype(s,st,v,ty):
        """value v read as type ty"""
        if v[0]=="pun":
            if s.tname(v[1])==s.tname(ty): return v[2]
            if s.plain(ty): return v
            s.ev(st,"pun_mismatch",stored=v[1],read=ty)
            return s.opaque(st,"<%s as %s>"%(v[2][1] if v[2][0]=="t" else "pun",s.p.T[ty]["s"]),ty)
        if v[0]=="n" and not s.plain(ty):
            t=s.p.T[ty]
            if t.get("size")==0 and not t["needs_drop"] and t["k"] in("tuple","closure"): return ("agg",ty,0,None,())
            return s.opaque(st,"<%r as %s>"%(st.facts.norm(v[1]),t["s"]),ty)
        return v
    def typed_read(s,st,t,r,p,ty,v,unaligned):
        d=s.punned(st,r,p,ty)
        if d is not None:
            s.fits(st,t,"read",d,ty,unaligned)
            v=s.retype(st,v,ty)
        elif r[0]=="L" and not p and not any(f.uid==r[1] for f in st.frames):
            # a local of a context analysed separately (the other side of a switch): the types must agree
            vt=v[1] if v[0]in("agg","pun") else v[2] if v[0]=="t" else None
            if vt is not None and s.tname(vt)!=s.tname(ty):
                s.ev(st,"pun_mismatch",stored=vt,read=ty)
                v=s.opaque(st,"<%s as %s>"%(v[1] if v[0]=="t" else s.tname(vt),s.tname(ty)),ty)
        s.ev(st,"read",root=r,path=p,ty=ty,val=v,unaligned=unaligned,pun=d,at=t["at"])
        if v==("u",) and s.p.T[ty].get("size")==0 and not s.p.T[ty]["needs_drop"]: return ("agg",ty,0,None,())
        return v
    def typed_write(s,st,t,r,p,ty,v,unaligned):
        w=s.parts(st,r,p,ty,v)
        if w!=[(r,p,ty,v)]:
            st.store.pop(r,None)
            for x in w: s.typed_write(st,t,*x,unaligned)
            return
        d=s.punned(st,r,p,ty)
        if d is not None:
            s.fits(st,t,"write",d,ty,unaligned)
            v=("pun",ty,v)
        s.ev(st,"write",root=r,path=p,ty=ty,val=v,unaligned=unaligned,pun=d,at=t["at"],raw=True)
        s.set(st,r,p,v)
    def smear(s,st,t,ptr,pt,n,why):
        """a block of bytes is overwritten: what was there is unknown from now on"""
        sz=s.mul(st,n,s.size_lin(pt)) if n is not None else None; c=st.facts.norm(sz).const() if sz is not None else None
        s.ev(st,"block",ptr=ptr,size=sz,const=c,at=t["at"])
        if c==0: return
        r,p=s.deref(st,ptr); w=s.p.w//8
        if r[0]=="mem" and not p:
            u=next((i for i,q in s.p.T.items() if q["k"]=="uint" and q.get("size")==w and q["s"]=="usize"),None)
            if u is not None and c is not None and c<=4096:
                for o in range(0,c,w): s.typed_write(st,t,("mem",st.facts.norm(r[1]+o)),(),u,s.opaque(st,s.fresh(st,why),u),True)
                return
            for k in [k for k in st.store if k[0]=="mem"]:
                d=st.facts.norm(k[1]-r[1]).const()
                if d is None or d>=0 and (c is None or d<c): st.store[k]=("u",)
            return
        v=s.get(st,r,p,None); ty=v[1] if v[0] in("agg","pun") else v[2] if v[0]=="t" and len(v)>2 else None
        s.set(st,r,p,s.opaque(st,s.fresh(st,why),ty) if ty is not None else ("u",))
    def catch_unwind(s,st,fr,t,c,args,dest):
        targs=c.get("targs") or []
        fty=targs[0]
        clo=args[0]
        # AssertUnwindSafe(f) is a plain wrapper struct
        T=s.p.T[fty]
        v=clo
        while T["k"]=="adt":
            if T["path"].endswith("AssertUnwindSafe"):
                if s.p.transparent_inner(T) is None: v=s.proj(st,v,0,0,T["variants"][0]["fields"][0]["ty"])
                fty=T["variants"][0]["fields"][0]["ty"]; T=s.p.T[fty]
            else: break
        okty=t["dty"]
        def ok(st2,x): return ("agg",okty,0,None,((0,x),))
        def err(st2,pay): return ("agg",okty,1,None,((0,pay),))
        s.ev(st,"catch_begin",at=t["at"])
        if T["k"]=="closure":
            inst=s.closure_inst(T)
            if inst is not None:
                return s.enter(st,inst,[v],dest,t["t"],t["u"],via=(lambda st2,x:(s.ev(st2,"catch_end",ok=True),ok(st2,x))[1],
                                                                       lambda st2,p:(s.ev(st2,"catch_end",ok=False,payload=p),err(st2,p))[1]))
        # generic callable
        n=st.copy()
        e=s.ev(st,"user_call",name="FnOnce::call_once",args=[v],at=t["at"],atys=[fty])
        T=s.p.T[okty]
        oty=T["args"][0]
        ret=s.opaque(st,s.fresh(st,"ret"),oty); e["ret"]=ret
        s.ev(st,"catch_end",ok=True)
        out=s.ret1(st,t,dest,ok(st,ret))
        s.ev(n,"user_call",name="FnOnce::call_once",args=[v],at=t["at"],atys=[fty])
        s.ev(n,"panic",what="user code",at=t["at"])
        pay=s.user_payload if s.user_payload is not None else s.payload_tok(s.fresh(n,"userpanic"))
        s.ev(n,"catch_end",ok=False,payload=pay)
        out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),err(n,pay))
        return out
    def closure_inst(s,T):
        c=[i for i,x in s.p.I.items() if x["path"]==T["path"] and "body" in x and x["kind"]=="item" and s.closure_self(x)==T["id"]]
        return c[0] if c else None
    def closure_self(s,x):
        b=x["body"]
        if b["argc"]<1: return None
        t=s.p.T[b["locals"][1]]
        if t["k"]=="ref": return t["to"]
        return t["id"]
    def payload_tok(s,name): return ("t",name,s.p.boxany())
    def downcast(s,st,fr,t,name,args,dest,targs):
        """the receiver is a panic payload, by value (`downcast`) or by reference: through the box, or to the box"""
        ty=targs[0] if targs else None
        v=recv=args[0]
        for _ in range(3):
            if v[0]!="n": break
            r,p=s.deref(st,v)
            if r[0]=="box" and not p:
                v=s.p.boxes.get(r,s.payload_tok(r[1])); break
            v=s.get(st,r,p,s.p.boxany())
        if v[0]=="agg" and v[3] is not None and v[3][0]=="t": v=v[3]
        key=v[1] if v[0]=="t" else repr(v)
        tyn=s.p.T[ty]["s"] if ty is not None else "?"
        known=None          # the answer is known for a payload boxed on this path
        bt=dict(v[4]).get("boxty") if v[0]=="agg" else None
        if bt is not None: known=(bt[2]==ty)
        out=[]
        a=Lin.atom(("sym","is<%s>(%s)"%(tyn,key)))
        for val in(True,False):
            if known is not None and val!=known: continue
            f=st.facts if known is not None else st.facts.add_eq(a-int(val))
            if f is None: continue
            n=st.copy(); n.facts=f
            s.ev(n,"downcast",recv=v,ty=ty,ok=val,at=t["at"])
            if name=="is": res=("n",Lin(int(val)))
            elif val:
                if name=="downcast":
                    res=("agg",t["dty"],0,None,((0,v),))
                else:
                    if known:
                        root=s.deref(n,dict(v[4])[0])[0]
                        if root not in n.store: n.store[root]=dict(v[4])["boxed"]
                    else:
                        root=("P","payload:%s"%key)
                        if root not in n.store: n.store[root]=s.opaque(n,"payload(%s)"%key,ty)
                    res=("agg",t["dty"],1,None,((0,("n",Lin.atom(("addr",root,())))),))
            else:
                res=("agg",t["dty"],1,None,((0,v),)) if name=="downcast" else ("agg",t["dty"],0,None,())
            out+=s.ret1(n,t,s.place(n,n.frames[-1],t["d"]),res)
        return out
    # ---------- asm
    def asm(s,st,fr,t):
        ops=[]
        for o in t["ops"]:
            d=dict(k=o["k"],reg=o.get("reg"),late=o.get("late"))
            if o["k"] in("in","inout","const","symfn") and "v" in o:
                d["v"]=s.force(st,s.operand(st,fr,o["v"]) if o["k"] in("in","inout") else s.const(st,o["v"][1]) if o["v"][0]=="k" else ("u",))
            if o.get("p") is not None:
                d["p"]=s.place(st,fr,o["p"])
            if "path" in o: d["path"]=o["path"]
            ops.append(d)
        live=set(st.store.keys())
        e=s.ev(st,"asm",ops=ops,t=t,at=t["at"],opts=t["opts"],inst=fr.inst,live=live,store=dict(st.store),id=st.ctr)
        out=[]; st0=st.copy()
        if "noreturn" in t["opts"] or not t["t"]:
            st.status="noreturn"; out.append(st)
        else:
            h=s.hooks.get("asm_out")
            for o,d in zip(t["ops"],ops):
                if d.get("p") is not None:
                    reg=d["reg"][1] if d["reg"] else "?"
                    v=s.opaque(st,s.fresh(st,"asm.%s"%reg),d["p"][2]); d["out"]=v
                    r,p,ty=d["p"]; s.set(st,r,p,v)
            if h:
                for n in h(s,st,fr,t,e): out.append(s.goto(n,t["t"][0]))
            else: out.append(s.goto(st,t["t"][0]))
        if t["u"]!="unreachable" and "may_unwind" in t["opts"]:
            # what the other side has written to memory of this one before its panic came through
            for facts,store in e.get("unw") or [(None,{})]:
                n=st0.copy()
                if facts is not None: n.facts=facts
                n.store.update(store)
                s.ev(n,"asm_unwind",asm=e,at=t["at"]); n.inflight=s.asm_payload if s.asm_payload is not None else s.payload_tok(s.fresh(n,"asmpanic"))
                out=s.unwind_to(n,n.frames[-1],t["u"])+out
        return out
