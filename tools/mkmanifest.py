#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist in checks/."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
"C01":"path-sensitive ownership dataflow over rustc MIR (value tokens through encode/decode and switches)",
"C02":"typestate analysis of the public API over rustc MIR, composed over operation histories",
"C03":"abstract interpretation of the inline and global assembly, register tokens composed over both sides of a switch",
"C04":"affine/alignment abstract interpretation of stack preparation (MIR) composed with the entry assembly",
"C05":"typestate and ownership dataflow over rustc MIR incl. unwind edges",
"C06":"value-provenance dataflow over rustc MIR incl. unwind edges",
"C07":"unwind-edge dominance and payload provenance over rustc MIR",
"C08":"unwind-edge reachability over rustc MIR (no-unwind configurations)",
"C09":"ownership typestate of the stack object over rustc MIR on every exit",
"C10":"affine/alignment abstract interpretation and resource typestate over rustc MIR",
"C11":"abstract interpretation of trap set-up (MIR) composed with assembly; interval predicate equivalence",
"C12":"evaluation of CFI/EHABI directives on the abstract machine state of each boundary frame",
"C13":"type-level witnesses: client programs that must not type-check, each with a compiling twin; trait and variance queries",
"C14":"abstract interpretation of on_stack (MIR + assembly), call counting on every path",
"C15":"abstract interpretation of the assembly: link record composed over resume histories",
"C16":"bit-rotation algebra on the assembly and resource typestate over rustc MIR",
"C17":"abstract interpretation of the Windows assembly with the thread information block as tracked memory",
"C18":"affine/alignment abstract interpretation and resource typestate over rustc MIR (Windows)",
"C19":"type-checking and assembling every target and feature set with rustc",
"C21":"abstract return-address-predictor stack over the interpreted assembly of each resume/suspend pair; effect search on the MIR paths around it",
"C20":"static/thread-local/effect analysis over the type-checked program",
}
NOTE={}
NA={
"C22":"depends on the operating system's fault delivery and on compiler-inserted stack probes for arbitrary frame sizes; the static part (guard area exists and is placed correctly) is decided under C10 and C18",
"C23":"is about third-party unwinders and debuggers consuming the emitted tables at run time; the tables themselves are decided under C12",
"C24":"quantifies over arbitrary client programs and Stack implementations (whole-program soundness); no sound static argument in reach, the local obligations are decided under C01-C15",
}
def main():
    have=sorted(f[:-3].upper() for f in os.listdir(os.path.join(V,"checks")) if f.startswith("c") and f.endswith(".py") and f[1:3].isdigit())
    ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
    ch=[]
    for p in ids:
        if p not in have: continue
        ch.append(dict(property=p,quick_cmd="python3 tools/run.py %s --tier quick"%p,thorough_cmd="python3 tools/run.py %s --tier thorough"%p,
          technique=TECH[p],level="other",
          level_note=NOTE.get(p,"static analysis: every obligation is decided from /repo's source on all abstract paths of each analysed configuration; coverage lists configurations, constructs and obligations")))
    na=[dict(property=p,reason=NA.get(p,"not built yet")) for p in ids if p not in have]
    json.dump(dict(version=1,setup_cmd="python3 tools/build_deps.py && python3 -c \"import sys;sys.path.insert(0,'tools');import facts;facts.ensure()\"",checks=ch,not_applicable=na),open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
main()
