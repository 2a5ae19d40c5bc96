"""The checks that are decided on the joint analysis of scenarios (rules.py)."""
import par, rules, configs
from targets import T
X64="x86_64-unknown-linux-gnu"; X86="i686-unknown-linux-gnu"
WIN=[t for t in T if "windows" in t]
EXPL={
"C01":"Every value handed over (input, yielded value, result, closures of with_stack / on_stack / on_parent_stack / setup_trap_handler) is followed as an opaque token of a type parameter through rustc's MIR, the words passed in registers and memory through the assembly, and the MIR on the other side; layout classes of type parameters are split by the code's own comparisons of size_of/align_of.",
"C02":"started/done/resume/accessors are evaluated in every abstract state of a coroutine (never resumed, suspended, completed normally / by panic / forced unwind / trap handler / reset) reached by composing the public operations.",
"C03":"Registers and memory are symbolic; each asm! block and trampoline is interpreted instruction by instruction from the state the previous block left, over histories of several switches; at each point where control is back every register not declared clobbered must hold the symbol it had.",
"C04":"with_stack is interpreted over MIR with symbolic base, size_of and align_of; the first resume is continued through the link block and the entry trampoline into the entry function; addresses are affine/aligned expressions, containment and disjointness are decided by Fourier-Motzkin.",
"C05":"force_unwind, drop and refused into_stack on a never-resumed coroutine, including paths on which the closure's destructor unwinds, and every later operation on the result.",
"C06":"force_unwind and drop of a suspended coroutine are followed into the suspended frame; the coroutine's frames then propagate the request, swallow it, suspend again, or throw another forced unwind, and the caller's outcome is judged by payload identity.",
"C07":"For every path of every entry function, trap handler and on_stack wrapper with an unwinding user call: catch coverage, payload identity at the caller, number of re-raises, state afterwards; with asm-unwind, that the frames let it through unchanged.",
"C08":"Same paths in builds without unwind support: every path on which user code panics must abort, no switch happens on drop/force_unwind of a suspended coroutine, its stack is never released.",
"C09":"Ownership of the stack value on every exit path of every operation in every abstract state, ordered against the last switch.",
"C11":"stack_ptr_in_bounds is decided as a predicate equivalence; registers from setup_trap_handler are installed at an arbitrary point of the coroutine's stack and execution is continued through trampoline and handler to the pending resume.",
"C12":"The CFI/EHABI directives of each trampoline (and the frame-pointer chain) are evaluated on the abstract machine state at each point user code can run, and compared with the resumer's registers.",
"C14":"on_stack and on_parent_stack are followed from an arbitrary caller through the trampoline into the wrapper and back: entry stack pointer, alignment, region of the stack written, number of calls of the closure, result.",
"C15":"Histories in which successive resumes come from unrelated contexts: suspend, completion, trap completion and on_parent_stack must come back to the latest one; all writes to the coroutine's stack are compared with the link record.",
"C17":"The thread information block is tracked memory; at every entry to a stack and every return its fields are compared with the stack being run on, and what is handed to update_teb_fields with what the block held when the stack was left.",
"C21":"Each resume is composed with the suspend or completion that answers it; every jump executed in between in the crate's assembly is given the push/pop effect the architecture's manual assigns to it and the resulting stack of predictions is compared with the real targets; the Rust paths around the switch are searched for calls out of the crate, allocation, user code and catches.",
}
ASSUME=["user closures, destructors and Stack implementations are arbitrary code that respects Rust's types and the platform ABI",
 "a suspended frame's stack pointer lies at least one word below the entry frame's and above the limit",
 "rustc's MIR (built with -Zmir-opt-level=0) is what is compiled; LLVM honours asm! operand, clobber and option declarations",
 "scenarios the engines cannot follow are listed under skipped and decide nothing"]
THROWN=("C02","C03","C06","C07","C12","C15")     # asm-unwind has a switch of its own on every architecture
def quick(prop):
    D,N,A,Z=configs.DEF,configs.NOU,configs.ASM,configs.NONE
    c=[]
    if prop=="C17": return [(t,f,False) for t in ("x86_64-pc-windows-msvc","i686-pc-windows-msvc") for f in (D,N,A)]
    if prop=="C08": return [(t,N,False) for t in configs.QUICK]+[(X64,N,True),("thumbv6m-none-eabi",Z,False),("x86_64-unknown-none",Z,False)]
    main=(D,N,A) if prop not in("C06","C07","C12") else (D,A)
    for t in configs.QUICK:
        for f in (main if t in(X64,X86) else (D,A) if prop in THROWN else (D,)): c.append((t,f,False))
    c.append((X64,D,True))
    return c
def thorough(prop):
    if prop=="C17": return configs.all_configs(targets=WIN)
    if prop=="C21": return configs.all_configs(debug=(False,))
    if prop=="C08": return configs.all_configs(feats=[configs.NOU,configs.NONE])
    if prop in("C06","C07"): return configs.all_configs(feats=[configs.DEF,configs.ASM])
    return configs.all_configs()
def worker(prop,P,c,o): rules.run_config(P,c,o,prop)
def run(c,mod):
    cfgs=thorough(c.prop) if c.tier=="thorough" else quick(c.prop)
    # long ones first
    cfgs=sorted(cfgs,key=lambda x:("i686-pc" not in x[0],"windows" not in x[0],"unwind" not in x[1]))
    c.explain=EXPL[c.prop]; c.assumptions=list(ASSUME)
    par.run(c,mod,"worker",cfgs)
    c.finish(20)
