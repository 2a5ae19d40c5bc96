"""Affine expressions over symbolic atoms, and a small polyhedral/congruence domain over them.

A Lin is  const + sum(coef*atom).  Atoms are hashable tuples.  Facts are Lins known to be >= 0
(and Lins known to be == 0); `Facts.nonneg(e)` decides whether e >= 0 follows (Fourier-Motzkin over
the rationals on the relevant facts), `Facts.multiple(e, m)` whether m divides e.
"""
from fractions import Fraction
_R={}
def rep(a):
    """repr of an atom (memoised: it is the canonical order of terms)"""
    r=_R.get(a)
    if r is None: r=_R[a]=repr(a)
    return r
def _key(x):
    a=x[0]; r=_R.get(a)
    if r is None: r=_R[a]=repr(a)
    return r
class Lin:
    __slots__=("c","t","_h")
    def __init__(s,c=0,t=()):
        s.c=c; s.t=t; s._h=None
    @staticmethod
    def of(d,c=0):
        t=[x for x in d.items() if x[1]]
        if len(t)>1: t.sort(key=_key)
        return Lin(c,tuple(t))
    @staticmethod
    def atom(a,k=1): return Lin(0,((a,k),))
    def __hash__(s):
        if s._h is None: s._h=hash((s.c,s.t))
        return s._h
    def __eq__(s,o): return isinstance(o,Lin) and s.c==o.c and s.t==o.t
    def d(s): return dict(s.t)
    def __add__(s,o):
        if isinstance(o,int): return Lin(s.c+o,s.t)
        if not o.t: return Lin(s.c+o.c,s.t)
        if not s.t: return Lin(s.c+o.c,o.t)
        d=s.d()
        for a,k in o.t: d[a]=d.get(a,0)+k
        return Lin.of(d,s.c+o.c)
    def __neg__(s): return Lin(-s.c,tuple((a,-k) for a,k in s.t))
    def __sub__(s,o):
        if isinstance(o,int): return Lin(s.c-o,s.t)
        return s+(-o)
    def __mul__(s,k): return Lin(s.c*k,tuple((a,c*k) for a,c in s.t)) if k else Lin(0)
    def const(s): return s.c if not s.t else None
    def single(s):
        "the atom if this is exactly 1*atom"
        if s.c==0 and len(s.t)==1 and s.t[0][1]==1: return s.t[0][0]
    def atoms(s): return [a for a,_ in s.t]
    def subst(s,a,e):
        d=s.d(); k=d.pop(a,0)
        if not k: return s
        return Lin.of(d,s.c)+e*k
    def __repr__(s):
        r=[]
        for a,k in s.t:
            r.append(("" if k==1 else "-" if k==-1 else "%d*"%k)+atom_str(a))
        if s.c or not r: r.append(str(s.c))
        return " + ".join(r).replace("+ -","- ")
def L(x): return x if isinstance(x,Lin) else Lin(x)
def atom_str(a):
    k=a[0]
    if k=="sym": return str(a[1])
    if k in("size","align"): return "%s_of<%s>"%(k,a[1])
    if k=="addr": return "&"+root_str(a[1])+"".join("."+"_".join(map(str,p)) for p in a[2])
    if k=="q": return "floor((%r)/%d)"%(a[1],a[2])
    if k=="adown": return "align_down(%r, %r)"%(a[1],a[2])
    return k+"("+", ".join(repr(x) for x in a[1:])+")"
def root_str(r):
    if r[0]=="mem": return "[%r]"%(r[1],)
    return ":".join(str(x) for x in r)

class Facts:
    """Immutable-ish set of constraints; `add_*` return a new object (or None if contradictory)."""
    __slots__=("ge","eq","ne","pow2","_cache","_eqm","w")
    def __init__(s,w=64,ge=(),eq=(),ne=(),pow2=frozenset()):
        s.w=w; s.ge=ge; s.eq=eq; s.ne=ne; s.pow2=pow2; s._cache={}; s._eqm=dict(eq)
    def norm(s,e):
        """s.eq is in solved form: no eliminated atom occurs in a right-hand side"""
        m=s._eqm
        if not m or not e.t: return e
        for a,_ in e.t:
            if a in m: break
        else: return e
        d={}; c=e.c
        for a,k in e.t:
            v=m.get(a)
            if v is None: d[a]=d.get(a,0)+k
            else:
                c+=v.c*k
                for b,q in v.t: d[b]=d.get(b,0)+q*k
        return Lin.of(d,c)
    def add_pow2(s,a):
        return Facts(s.w,s.ge,s.eq,s.ne,s.pow2|{a})
    def add_ge(s,e):
        e=s.norm(e)
        c=e.const()
        if c is not None: return s if c>=0 else None
        if e in s.ge: return s
        if s.nonneg(-e-1): return None
        n=Facts(s.w,s.ge+(e,),s.eq,s.ne,s.pow2)
        # e>=0 and -e>=0 known => equality
        for x in s.ne:
            if x==e or x==-e: return n.add_ge(e-1)
        return n
    def add_eq(s,e):
        e=s.norm(e)
        c=e.const()
        if c is not None: return s if c==0 else None
        if e in s.ne or -e in s.ne: return None
        if s.nonneg(e-1) or s.nonneg(-e-1): return None
        for x in s.ne:
            if s.norm(x)==e or s.norm(x)==-e: return None
        # pick an atom with coefficient +-1 to eliminate
        cand=sorted((x for x in e.t if abs(x[1])==1),key=lambda x:(pref(x[0]),rep(x[0])))
        if not cand:
            return Facts(s.w,s.ge+(e,-e),s.eq,s.ne,s.pow2)
        a,k=cand[0]
        d=e.d(); d.pop(a)
        v=Lin.of(d,e.c)*(-k)
        eq=tuple((x,y.subst(a,v)) for x,y in s.eq)+((a,v),)
        ge=[]
        for x in s.ge:
            y=x.subst(a,v)
            c=y.const()
            if c is not None:
                if c<0: return None
                continue
            ge.append(y)
        ne=[]
        for x in s.ne:
            y=x.subst(a,v); c=y.const()
            if c is not None:
                if c==0: return None
                continue
            ne.append(y)
        return Facts(s.w,tuple(dict.fromkeys(ge)),eq,tuple(ne),s.pow2)
    def add_ne(s,e):
        e=s.norm(e); c=e.const()
        if c is not None: return s if c!=0 else None
        if s.nonneg(e) and s.nonneg(-e): return None
        n=Facts(s.w,s.ge,s.eq,s.ne+(e,),s.pow2)
        if s.nonneg(e): return n.add_ge(e-1)
        if s.nonneg(-e): return n.add_ge(-e-1)
        return n
    # -- queries
    def axioms(s,atoms):
        """inequalities that hold of the atoms themselves"""
        out=[]; seen=set(); st=list(atoms)
        M=(1<<s.w)-1
        while st:
            a=st.pop()
            if a in seen: continue
            seen.add(a)
            x=Lin.atom(a); k=a[0]
            def more(e):
                e=s.norm(e); out.append(e)
                for b in e.atoms():
                    if b not in seen: st.append(b)
            if k in("q","adown"):
                for b in a[1].atoms():
                    if b not in seen: st.append(b)
            if k=="q":
                e=a[1]; m=a[2]
                more(e-x*m); more(x*m-e+(m-1))
                if e.c>=m and all(c>0 and b[0] in("size","align","q","adown","mul") for b,c in e.t): out.append(x-e.c//m)
                if s.w: more(x)
            elif k=="adown":
                e,al=a[1],a[2]
                more(e-x); more(x-e+al-1); out.append(x)
            elif k=="align":
                out.append(x-1); out.append(Lin(1<<29)-x)
            elif k=="size":
                out.append(x); out.append(Lin(M>>1)-x)
            elif k=="mul":
                out.append(x)
            elif k=="sym" and isinstance(a[1],str) and a[1].startswith("signed:"):
                pass
            else:
                out.append(x); out.append(Lin(M)-x)
        return [s.norm(x) for x in out] if s.eq else out
    def relevant(s,e):
        out=[]; have=set(e.atoms()); pool=list(s.ge)+s.axioms(sorted(set(a for x in s.ge for a in x.atoms())|have,key=rep))
        ch=True; used=[False]*len(pool)
        while ch:
            ch=False
            for i,x in enumerate(pool):
                if not used[i] and any(a in have for a in x.atoms()):
                    used[i]=True; out.append(x)
                    for a in x.atoms():
                        if a not in have: have.add(a); ch=True
                    ch=True
        return list(dict.fromkeys(out))
    def nonneg(s,e):
        e=s.norm(e); c=e.const()
        if c is not None: return c>=0
        if e in s._cache: return s._cache[e]
        r=fm_infeasible(s.relevant(e)+[-e-1])
        s._cache[e]=r
        return r
    def zero(s,e):
        e=s.norm(e)
        c=e.const()
        if c is not None: return c==0
        return s.nonneg(e) and s.nonneg(-e)
    def nonzero(s,e):
        e=s.norm(e); c=e.const()
        if c is not None: return c!=0
        if e in s.ne or -e in s.ne: return True
        return s.nonneg(e-1) or s.nonneg(-e-1)
    def feasible(s):
        return not fm_infeasible(list(s.ge)+s.axioms([a for x in s.ge for a in x.atoms()]))
    def multiple(s,e,m):
        """m (an int) divides e"""
        e=s.norm(e)
        if e.c%m: return False
        for a,k in e.t:
            if k%m==0: continue
            if not s.atom_multiple(a,k,m): return False
        return True
    def atom_multiple(s,a,k,m):
        import math
        r=m//math.gcd(k,m)   # need r | a
        if r==1: return True
        for (b,n) in s.mults():
            if b==a and n%r==0: return True
        if a[0]=="adown":
            al=a[2]; c=al.const()
            if c is not None: return c%r==0
            # a power-of-two alignment that is at least r is a multiple of the power of two r
            if r&(r-1)==0 and s.is_pow2(al) and s.nonneg(al-r): return True
            if r&(r-1)==0 and s.is_pow2(al) and s.nonneg(al*2-r-1): return True   # al > r/2
        if a[0]=="align" or a in s.pow2:
            if r&(r-1)==0 and (s.nonneg(Lin.atom(a)-r) or s.nonneg(Lin.atom(a)*2-r-1)): return True
        return False
    def is_pow2(s,e):
        a=e.single()
        if a is None:
            c=e.const(); return c is not None and c>0 and c&(c-1)==0
        return a[0]=="align" or a in s.pow2
    MULT=()
    def mults(s): return [x[1:] for x in s.pow2 if isinstance(x,tuple) and x and x[0]=="mult"]
    def add_mult(s,a,n): return Facts(s.w,s.ge,s.eq,s.ne,s.pow2|{("mult",a,n)})
def pref(a):
    # which atoms to eliminate first when solving an equality
    return {"q":3,"adown":3,"size":2,"align":2,"addr":4}.get(a[0],1)
import math
def fm_infeasible(cs,limit=4000):
    """Fourier-Motzkin: True if the conjunction of (c >= 0) has no rational solution (with integer
    tightening of single-step combinations)."""
    rows=[]
    def add(d,c,rows,seen):
        if not d:
            return c<0
        g=0
        for v in d.values(): g=math.gcd(g,abs(v))
        if g>1:
            d={a:v//g for a,v in d.items()}; c=c//g
        key=frozenset(d.items())
        old=seen.get(key)
        if old is not None:
            if rows[old] is not None and rows[old][1]<=c: return False
            rows[old]=(d,c); return False
        seen[key]=len(rows); rows.append((d,c)); return False
    seen={}
    for e in cs:
        if add(e.d(),e.c,rows,seen): return True
    n=0
    while True:
        rows=[r for r in rows if r]
        cnt={}
        for d,c in rows:
            for a,v in d.items():
                p=cnt.setdefault(a,[0,0]); p[0 if v>0 else 1]+=1
        if not cnt: return False
        a=min(cnt,key=lambda x:(cnt[x][0]*cnt[x][1]-cnt[x][0]-cnt[x][1],rep(x)))
        pos=[r for r in rows if r[0].get(a,0)>0]; neg=[r for r in rows if r[0].get(a,0)<0]
        rest=[r for r in rows if a not in r[0]]
        rows=[];seen={}
        for d,c in rest:
            if add(dict(d),c,rows,seen): return True
        for d1,c1 in pos:
            for d2,c2 in neg:
                k1=d1[a];k2=-d2[a]
                d={}
                for x,v in d1.items():
                    if x!=a: d[x]=v*k2
                for x,v in d2.items():
                    if x!=a: d[x]=d.get(x,0)+v*k1
                d={x:v for x,v in d.items() if v}
                if add(d,c1*k2+c2*k1,rows,seen): return True
                n+=1
                if n>limit: return False
