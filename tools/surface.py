"""The public surface as types: what safe operations hand out."""
def coro(P,R):
    """ids of the Coroutine type family (path), of the Yielder path, and of the argument position of the stack"""
    rs=R.get("resume"); su=R.get("suspend"); ws=R.get("with_stack")
    if rs is None or su is None: return None
    c=P.T[P.T[P.I[rs]["body"]["locals"][1]]["to"]]; y=P.T[P.T[P.I[su]["body"]["locals"][1]]["to"]]
    pos=len(c["args"])-1
    if ws is not None:
        b=P.I[ws]["body"]; st=[P.T[b["locals"][i]]["s"] for i in range(1,b["argc"]+1)]
        out=P.T[b["locals"][0]]
        for i,a in enumerate(out.get("args") or []):
            if P.T[a]["s"] in st: pos=i
    return c["path"],y["path"],pos
def walk(P,t,ref=None,depth=0,stop=()):
    """(type, nearest enclosing reference or None) for everything a value of the type gives access to"""
    T=P.T[t]; yield T,ref
    if depth>6 or T["k"]=="adt" and T.get("path") in stop: return
    if T["k"] in("ref","ptr"): yield from walk(P,T["to"],T,depth+1,stop)
    elif T["k"]=="adt":
        for a in T.get("args") or []: yield from walk(P,a,ref,depth+1,stop)
    else:
        for a in (T.get("fields") if T["k"]=="tuple" else None) or T.get("args") or ([T["elem"]] if isinstance(T.get("elem"),int) else []): yield from walk(P,a,ref,depth+1,stop)
def operations(P):
    """externally reachable safe functions that have a body"""
    for i in P.items:
        if i["k"]=="fn" and i.get("reachable") and not i["unsafe"] and i.get("inst") is not None and "body" in P.I[i["inst"]]: yield i,P.I[i["inst"]]
def judge(P,R,ob,count):
    m=coro(P,R)
    if m is None: return
    C,Y,pos=m
    for i,I in operations(P):
        b=I["body"]; con=i["path"]; count("public_safe_operations")
        ins=[x for k in range(1,b["argc"]+1) for x in walk(P,b["locals"][k])]
        outs=list(walk(P,b["locals"][0],stop=(C,)))
        cs=[t for t,_ in ins if t["k"]=="adt" and t.get("path")==C]
        for c in cs[:1]:
            stk=P.T[c["args"][pos]]["s"] if pos<len(c["args"]) else None
            bad=[t for t,r in outs if r is not None and r["k"]=="ref" and r["mut"] and t["s"]==stk]
            ob("C09","stack-not-handed-out",con,not bad,"%s gives its caller mutable access to the stack of a coroutine that may be suspended on it"%con)
        yo=[(t,r) for t,r in outs if t["k"]=="adt" and t.get("path")==Y]; yi=[t for t,_ in ins if t["k"]=="adt" and t.get("path")==Y]
        if yo or cs:
            ob("C13","yielder-stays-inside",con,all(r is not None for t,r in yo),"%s hands out a yielder by value"%con)
            ob("C13","yielder-stays-inside",con,not yo or bool(yi),"%s hands out a yielder without having been given one"%con)
    for x in P.items:
        if x["k"]!="type" or not x.get("reachable"): continue
        T=P.T[x["ty"]]
        if T.get("path") not in(C,Y): continue
        for v in T["variants"]:
            for f in v["fields"]:
                F=P.T[f["ty"]]
                ob(("C09","C13") if T["path"]==C else "C13","state-is-private",T["path"]+"."+f["name"],not f["pub"] or bool(F.get("phantom")),"field %s of %s can be changed by any client"%(f["name"],T["path"]))
def worker(P,c,o):
    """the C13 share, on its own"""
    import rules
    R=rules.Rules(P,rules.Only(o,"C13")); R.r_surface()
