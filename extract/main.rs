//! rustc_private driver: type-checks a crate with the given rustc arguments and dumps, as JSON
//! (path in $VERIF_OUT), the polymorphic MIR of every local function and of everything it calls,
//! inline/global assembly, layouts and item facts. Nothing is executed or code-generated.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;

use rustc_ast::{InlineAsmOptions, InlineAsmTemplatePiece};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt,
    TypingEnv,
};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn jo(fields: &[(&str, String)]) -> String {
    let v: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

type Key<'tcx> = (InstanceKind<'tcx>, GenericArgsRef<'tcx>, TypingEnv<'tcx>);

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<(Ty<'tcx>, TypingEnv<'tcx>), usize>,
    tyq: VecDeque<(Ty<'tcx>, TypingEnv<'tcx>, usize)>,
    tyout: Vec<(usize, String)>,
    insts: HashMap<Key<'tcx>, usize>,
    q: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    instout: Vec<String>,
    stop: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(format!("{t}"))
        )
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        js(&format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn env_for(&self, t: impl TypeVisitableExt<TyCtxt<'tcx>>, env: TypingEnv<'tcx>) -> TypingEnv<'tcx> {
        if t.has_param() || t.has_non_region_infer() { env } else { TypingEnv::fully_monomorphized() }
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if t.has_escaping_bound_vars() { return self.ty(self.tcx.types.unit, env); }
        let env = self.env_for(t, env);
        if let Some(&i) = self.tys.get(&(t, env)) {
            return i;
        }
        let i = self.tys.len();
        self.tys.insert((t, env), i);
        self.tyq.push_back((t, env, i));
        i
    }
    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, t: T, env: TypingEnv<'tcx>) -> T {
        self.tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t.clone()))
            .unwrap_or(t)
    }
    fn dump_ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>, id: usize) {
        let tcx = self.tcx;
        let mut f: Vec<(&str, String)> = vec![("id", id.to_string()), ("s", js(&self.tystr(t)))];
        let lay = tcx.layout_of(env.as_query_input(t));
        if let Ok(l) = lay {
            if l.is_sized() {
                f.push(("size", l.size.bytes().to_string()));
                f.push(("align", l.align.abi.bytes().to_string()));
                if let rustc_abi::FieldsShape::Arbitrary { offsets, .. } = &l.fields {
                    f.push(("offsets", jl(offsets.iter().map(|o| o.bytes().to_string()))));
                }
            }
        }
        f.push(("needs_drop", t.needs_drop(tcx, env).to_string()));
        f.push(("freeze", t.is_freeze(tcx, env).to_string()));
        f.push(("copy", tcx.type_is_copy_modulo_regions(env, t).to_string()));
        f.push(("has_param", t.has_param().to_string()));
        match *t.kind() {
            ty::Bool => f.push(("k", js("bool"))),
            ty::Char => f.push(("k", js("char"))),
            ty::Int(i) => {
                f.push(("k", js("int")));
                f.push(("name", js(i.name_str())));
            }
            ty::Uint(i) => {
                f.push(("k", js("uint")));
                f.push(("name", js(i.name_str())));
            }
            ty::Float(_) => f.push(("k", js("float"))),
            ty::Str => f.push(("k", js("str"))),
            ty::Never => f.push(("k", js("never"))),
            ty::Param(p) => {
                f.push(("k", js("param")));
                f.push(("name", js(p.name.as_str())));
            }
            ty::RawPtr(p, m) => {
                f.push(("k", js("ptr")));
                f.push(("mut", m.is_mut().to_string()));
                let x = self.ty(p, env);
                f.push(("to", x.to_string()));
            }
            ty::Ref(_, p, m) => {
                f.push(("k", js("ref")));
                f.push(("mut", m.is_mut().to_string()));
                let x = self.ty(p, env);
                f.push(("to", x.to_string()));
            }
            ty::Slice(p) => {
                f.push(("k", js("slice")));
                let x = self.ty(p, env);
                f.push(("elem", x.to_string()));
            }
            ty::Array(p, n) => {
                f.push(("k", js("array")));
                let x = self.ty(p, env);
                f.push(("elem", x.to_string()));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    f.push(("len", n.to_string()));
                }
            }
            ty::Tuple(ts) => {
                f.push(("k", js("tuple")));
                let v: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                f.push(("fields", jl(v)));
            }
            ty::FnDef(d, _) => {
                f.push(("k", js("fndef")));
                f.push(("path", js(&self.path(d))));
            }
            ty::FnPtr(..) => {
                f.push(("k", js("fnptr")));
                let sig = tcx.instantiate_bound_regions_with_erased(t.fn_sig(tcx));
                f.push(("abi", js(sig.abi().as_str())));
                let ins: Vec<String> =
                    sig.inputs().iter().map(|x| { let x = self.norm(*x, env); self.ty(x, env).to_string() }).collect();
                f.push(("ins", jl(ins)));
                let out = self.norm(sig.output(), env);
                f.push(("out", self.ty(out, env).to_string()));
            }
            ty::Dynamic(..) => f.push(("k", js("dyn"))),
            ty::Closure(d, args) => {
                f.push(("k", js("closure")));
                f.push(("path", js(&self.path(d))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<String> = ups
                    .into_iter()
                    .map(|x| { let x = self.norm(x, env); self.ty(x, env).to_string() })
                    .collect();
                f.push(("fields", jl(v)));
            }
            ty::Adt(def, args) => {
                f.push(("k", js("adt")));
                f.push(("path", js(&self.path(def.did()))));
                f.push(("local", def.did().is_local().to_string()));
                f.push((
                    "kind",
                    js(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" }),
                ));
                f.push(("transparent", def.repr().transparent().to_string()));
                f.push(("manually_drop", def.is_manually_drop().to_string()));
                f.push(("is_box", def.is_box().to_string()));
                f.push(("phantom", def.is_phantom_data().to_string()));
                let args_ty: Vec<String> =
                    args.types().map(|x| self.ty(x, env).to_string()).collect();
                f.push(("args", jl(args_ty)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "null".into()
                    };
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let fty = fd.ty(tcx, args).skip_norm_wip();
                        let fty = self.norm(fty, env);
                        let fi = self.ty(fty, env);
                        fs.push(jo(&[
                            ("name", js(fd.name.as_str())),
                            ("ty", fi.to_string()),
                            ("pub", fd.vis.is_public().to_string()),
                        ]));
                    }
                    vs.push(jo(&[
                        ("name", js(v.name.as_str())),
                        ("discr", discr),
                        ("fields", jl(fs)),
                    ]));
                }
                f.push(("variants", jl(vs)));
                if !def.is_box() && !def.is_manually_drop() {
                    if let Some(d) = tcx.adt_destructor(def.did()) {
                        // Resolve <T as Drop>::drop
                        let drop_did = d.did;
                        let dropargs = args;
                        let inst = Instance::new_raw(drop_did, dropargs);
                        let i = self.inst(inst, env);
                        f.push(("drop_impl", i.to_string()));
                        f.push(("drop_path", js(&self.path(drop_did))));
                    }
                }
            }
            _ => f.push(("k", js("other"))),
        }
        self.tyout.push((id, jo(&f)));
    }
    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(inst.args);
        let env = self.env_for(args, env);
        let key = (inst.def, args, env);
        if let Some(&i) = self.insts.get(&key) {
            return i;
        }
        let i = self.insts.len();
        self.insts.insert(key, i);
        self.q.push_back((Instance { def: inst.def, args }, env, i));
        i
    }
    fn dump_inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, id: usize) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let path = self.path(did);
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "llvm".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => "closure_once".into(),
                ShimKind::FnPtr(..) => "fnptr_shim".into(),
                ShimKind::DropGlue(..) => "drop_glue".into(),
                ShimKind::Clone(..) => "clone".into(),
                ShimKind::Reify(..) => "reify".into(),
                ShimKind::ThreadLocal(..) => "thread_local".into(),
                _ => "shim".into(),
            },
        };
        let targs: Vec<String> = inst.args.types().map(|t| self.ty(t, env).to_string()).collect();
        let mut f: Vec<(&str, String)> = vec![
            ("id", id.to_string()),
            ("path", js(&path)),
            ("kind", js(&kind)),
            ("local", did.is_local().to_string()),
            ("krate", js(tcx.crate_name(did.krate).as_str())),
            ("name", js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str())),
            ("targs", jl(targs)),
            ("span", self.span(tcx.def_span(did))),
        ];
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            f.push(("abi", js(sig.abi().as_str())));
            f.push(("unsafe", sig.safety().is_unsafe().to_string()));
            f.push(("foreign", tcx.is_foreign_item(did).to_string()));
            f.push(("pub", tcx.visibility(did).is_public().to_string()));
            let attrs = tcx.codegen_fn_attrs(did);
            f.push(("inline", js(&format!("{:?}", attrs.inline))));
            if let Some(im) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    f.push(("trait", js(&self.path(tr.skip_binder().def_id))));
                }
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                f.push(("self_ty", js(&self.tystr(st))));
            }
            if let Some(tr) = tcx.trait_of_assoc(did) {
                f.push(("trait_item", js(&self.path(tr))));
            }
        }
        let stopped = self.stop.iter().any(|s| path.starts_with(s.as_str()));
        let avail = match inst.def {
            InstanceKind::Item(d) => match tcx.def_kind(d) {
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Ctor(..) => {
                    true
                }
                _ => tcx.is_mir_available(d),
            },
            InstanceKind::Shim(ShimKind::DropGlue(..)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        let is_trait_decl = tcx.trait_of_assoc(did).is_some()
            && matches!(inst.def, InstanceKind::Item(_))
            && !avail;
        f.push(("trait_decl", is_trait_decl.to_string()));
        if avail && !stopped {
            let body = tcx.instance_mir(inst.def);
            let body = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                EarlyBinder::bind(tcx, body.clone()),
            );
            match body {
                Ok(b) => {
                    let s = self.body(&b, env, inst);
                    f.push(("body", s));
                }
                Err(_) => f.push(("body_err", js("normalization failed"))),
            }
        }
        let s = jo(&f);
        self.instout.push(s);
    }
    fn place(&mut self, p: Place<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::PhantomDeref => "[\"**\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.norm(t, env);
                    format!("[\"f\",{},{}]", i.index(), self.ty(t, env))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.index()),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {
                    "[\"o\"]".to_string()
                }
            });
        }
        format!("[{},{}]", p.local.index(), jl(v))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut f: Vec<(&str, String)> = vec![("path", js(&self.path(d)))];
        let args = self.norm(args, env);
        let targs: Vec<String> = args.types().map(|t| self.ty(t, env).to_string()).collect();
        f.push(("targs", jl(targs)));
        f.push(("name", js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
        f.push(("krate", js(tcx.crate_name(d.krate).as_str())));
        f.push(("foreign", tcx.is_foreign_item(d).to_string()));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("trait", js(&self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            f.push(("ctor", "true".into()));
            return jo(&f);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let id = self.inst(i, env);
                f.push(("inst", id.to_string()));
            }
            _ => f.push(("inst", "null".into())),
        }
        jo(&f)
    }
    fn const_(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = self.norm(c.ty(), env);
        let tid = self.ty(t, env);
        let mut f: Vec<(&str, String)> = vec![("ty", tid.to_string())];
        if let ty::FnDef(d, args) = *t.kind() {
            f.push(("fn", self.callee(d, args.skip_binder(), env)));
            return format!("[\"k\",{}]", jo(&f));
        }
        let ev = match c {
            Const::Ty(_, ct) if ct.has_param() => {
                f.push(("param", js(&format!("{ct:?}"))));
                None
            }
            _ => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        match ev {
            Some(ConstValue::Scalar(interpret::Scalar::Int(i))) => {
                f.push(("bits", js(&i.to_bits(i.size()).to_string())));
            }
            Some(ConstValue::ZeroSized) => f.push(("zst", "true".into())),
            Some(ConstValue::Scalar(interpret::Scalar::Ptr(p, _))) => {
                let (prov, off) = p.prov_and_relative_offset();
                let g = tcx.global_alloc(prov.alloc_id());
                match g {
                    interpret::GlobalAlloc::Function { instance, .. } => {
                        let i = self.inst(instance, env);
                        f.push(("fnaddr", i.to_string()));
                    }
                    interpret::GlobalAlloc::Static(d) => {
                        f.push(("static", js(&self.path(d))));
                        f.push(("static_foreign", tcx.is_foreign_item(d).to_string()));
                        f.push(("static_mut", tcx.is_mutable_static(d).to_string()));
                    }
                    g => {
                        f.push(("mem", js(&format!("{:?}+{}", prov.alloc_id(), off.bytes()))));
                        if let interpret::GlobalAlloc::Memory(m) = g {
                            // plain bytes of a promoted constant
                            let n = m.inner().len();
                            if n <= 256 && off.bytes() == 0 && m.inner().provenance().ptrs().is_empty() {
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                f.push(("membytes", jl(v)));
                            }
                        }
                    }
                }
            }
            Some(ConstValue::Slice { alloc_id, meta }) => {
                if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                        0..(meta as usize).min(m.inner().len()),
                    );
                    f.push(("str", js(&String::from_utf8_lossy(b))));
                }
            }
            Some(ConstValue::Indirect { .. }) => f.push(("opaque", js("indirect"))),
            None => {
                if let Const::Unevaluated(u, _) = c {
                    f.push(("uneval", js(&self.path(u.def))));
                    let args = self.norm(u.args, env);
                    let targs: Vec<String> =
                        args.types().map(|t| self.ty(t, env).to_string()).collect();
                    f.push(("uneval_args", jl(targs)));
                    if let Some(p) = u.promoted {
                        f.push(("promoted", p.index().to_string()));
                    } else if let Ok(Some(i)) = Instance::try_resolve(tcx, env, u.def, args) {
                        let id = self.inst(i, env);
                        f.push(("uneval_inst", id.to_string()));
                    }
                }
            }
        }
        format!("[\"k\",{}]", jo(&f))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(*p, env)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(*p, env)),
            Operand::Constant(c) => self.const_(&c.const_, env),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{r:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", js(if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shared" }), self.place(*p, env))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reborrow\",{},{}]", js(if m.is_mut() { "mut" } else { "shared" }), self.place(*p, env))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(*p, env)),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t, env);
                let from = js(&format!("{k:?}"));
                // reify function pointers: collect the instance
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(pc, _) = k {
                    if let Operand::Constant(c) = o {
                        let ct = self.norm(c.const_.ty(), env);
                        if let ty::FnDef(d, args) = *ct.kind() {
                            if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, env, d, self.norm(args.skip_binder(), env)) {
                                extra = self.inst(i, env).to_string();
                            }
                        }
                    }
                    let _ = pc;
                }
                format!("[\"cast\",{},{},{},{}]", from, self.operand(o, env), self.ty(t, env), extra)
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{b:?}")), self.operand(&ops.0, env), self.operand(&ops.1, env))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{u:?}")), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(*p, env)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let (kind, ty, var, act) = match &**k {
                    AggregateKind::Array(t) => ("array", self.ty(*t, env).to_string(), 0, -1i64),
                    AggregateKind::Tuple => ("tuple", "null".into(), 0, -1),
                    AggregateKind::Adt(d, v, args, _, act) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t, env);
                        ("adt", self.ty(t, env).to_string(), v.index(), act.map(|x| x.index() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        if d.is_local() {
                            // its body is needed even where only the standard library calls it
                            let i = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                            self.inst(i, env);
                        }
                        ("closure", self.ty(t, env).to_string(), 0, -1)
                    }
                    AggregateKind::RawPtr(t, _) => ("rawptr", self.ty(*t, env).to_string(), 0, -1),
                    _ => ("other", "null".into(), 0, -1),
                };
                format!("[\"agg\",{},{},{},{},{}]", js(kind), ty, var, act, jl(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(*p, env)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => js("continue"),
            UnwindAction::Unreachable => js("unreachable"),
            UnwindAction::Terminate(_) => js("terminate"),
            UnwindAction::Cleanup(b) => b.index().to_string(),
        }
    }
    fn template(&self, t: &[InlineAsmTemplatePiece]) -> String {
        jl(t.iter().map(|p| match p {
            InlineAsmTemplatePiece::String(s) => js(s),
            InlineAsmTemplatePiece::Placeholder { operand_idx, modifier, .. } => {
                format!("[{},{}]", operand_idx, modifier.map(|c| js(&c.to_string())).unwrap_or("null".into()))
            }
        }))
    }
    fn asm_opts(&self, o: InlineAsmOptions) -> String {
        jl(o.human_readable_names().iter().map(|s| js(s)))
    }
    fn reg(&self, r: rustc_target::asm::InlineAsmRegOrRegClass) -> String {
        use rustc_target::asm::InlineAsmRegOrRegClass::*;
        match r {
            Reg(r) => format!("[\"reg\",{}]", js(&r.name())),
            RegClass(c) => format!("[\"class\",{}]", js(c.name().as_str())),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, _inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> =
            b.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) => {
                    Some(format!("[{},{}]", js(v.name.as_str()), self.place(p, env)))
                }
                _ => None,
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(a) => {
                        let pl = self.place(a.0, env);
                        let rv = self.rvalue(&a.1, env);
                        format!("[\"=\",{},{},{}]", pl, rv, self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"setd\",{},{},{}]",
                        self.place(**place, env),
                        variant_index.index(),
                        self.span(s.source_info.span)
                    ),
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.index()),
                    StatementKind::StorageDead(l) => format!("[\"sd\",{}]", l.index()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{}]", self.operand(o, env)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"cno\",{},{},{}]",
                            self.operand(&c.src, env),
                            self.operand(&c.dst, env),
                            self.operand(&c.count, env)
                        ),
                    },
                    _ => continue,
                };
                st.push(x);
            }
            let t = bb.terminator();
            let mut f: Vec<(&str, String)> = vec![("at", self.span(t.source_info.span))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    f.push(("k", js("goto")));
                    f.push(("t", target.index().to_string()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    f.push(("k", js("switch")));
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.norm(dt, env);
                    f.push(("ty", self.ty(dt, env).to_string()));
                    f.push(("d", self.operand(discr, env)));
                    f.push(("v", jl(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())))));
                    f.push(("o", targets.otherwise().index().to_string()));
                }
                TerminatorKind::UnwindResume => f.push(("k", js("resume"))),
                TerminatorKind::UnwindTerminate(_) => f.push(("k", js("terminate"))),
                TerminatorKind::Return => f.push(("k", js("return"))),
                TerminatorKind::Unreachable => f.push(("k", js("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    f.push(("k", js("drop")));
                    f.push(("p", self.place(*place, env)));
                    let pt = self.norm(place.ty(&b.local_decls, tcx).ty, env);
                    f.push(("ty", self.ty(pt, env).to_string()));
                    f.push(("t", target.index().to_string()));
                    f.push(("u", self.unwind(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    f.push(("k", js("call")));
                    f.push(("f", self.operand(func, env)));
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    f.push(("a", jl(a)));
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = self.norm(a.node.ty(&b.local_decls, tcx), env);
                            self.ty(t, env).to_string()
                        })
                        .collect();
                    f.push(("at_", jl(at)));
                    f.push(("d", self.place(*destination, env)));
                    let dt = self.norm(destination.ty(&b.local_decls, tcx).ty, env);
                    f.push(("dty", self.ty(dt, env).to_string()));
                    f.push(("t", target.map(|t| t.index().to_string()).unwrap_or("null".into())));
                    f.push(("u", self.unwind(unwind)));
                }
                TerminatorKind::TailCall { .. } => f.push(("k", js("tailcall"))),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    f.push(("k", js("assert")));
                    f.push(("c", self.operand(cond, env)));
                    f.push(("e", expected.to_string()));
                    f.push(("m", js(&format!("{:?}", std::mem::discriminant(&**msg)))));
                    let m = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow-{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow-neg".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(..) => "div0".into(),
                        AssertKind::RemainderByZero(..) => "rem0".into(),
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertKind::NullPointerDereference => "null".into(),
                        AssertKind::NullReferenceConstructed => "null".into(),
                        _ => "other".into(),
                    };
                    f.push(("msg", js(&m)));
                    f.push(("t", target.index().to_string()));
                    f.push(("u", self.unwind(unwind)));
                }
                TerminatorKind::InlineAsm { template, operands, options, targets, unwind, .. } => {
                    f.push(("k", js("asm")));
                    f.push(("tpl", self.template(template)));
                    let mut ops = vec![];
                    for o in operands.iter() {
                        ops.push(match o {
                            InlineAsmOperand::In { reg, value } => jo(&[
                                ("k", js("in")),
                                ("reg", self.reg(*reg)),
                                ("v", self.operand(value, env)),
                            ]),
                            InlineAsmOperand::Out { reg, late, place } => jo(&[
                                ("k", js("out")),
                                ("reg", self.reg(*reg)),
                                ("late", late.to_string()),
                                ("p", place.map(|p| self.place(p, env)).unwrap_or("null".into())),
                            ]),
                            InlineAsmOperand::InOut { reg, late, in_value, out_place } => jo(&[
                                ("k", js("inout")),
                                ("reg", self.reg(*reg)),
                                ("late", late.to_string()),
                                ("v", self.operand(in_value, env)),
                                ("p", out_place.map(|p| self.place(p, env)).unwrap_or("null".into())),
                            ]),
                            InlineAsmOperand::Const { value } => {
                                jo(&[("k", js("const")), ("v", self.const_(&value.const_, env))])
                            }
                            InlineAsmOperand::SymFn { value } => {
                                jo(&[("k", js("symfn")), ("v", self.const_(&value.const_, env))])
                            }
                            InlineAsmOperand::SymStatic { def_id } => {
                                jo(&[("k", js("symstatic")), ("path", js(&self.path(*def_id)))])
                            }
                            InlineAsmOperand::Label { target_index } => {
                                jo(&[("k", js("label")), ("t", target_index.to_string())])
                            }
                        });
                    }
                    f.push(("ops", jl(ops)));
                    f.push(("opts", self.asm_opts(*options)));
                    f.push(("t", jl(targets.iter().map(|t| t.index().to_string()))));
                    f.push(("u", self.unwind(unwind)));
                }
                k => {
                    f.push(("k", js("other")));
                    f.push(("dbg", js(&format!("{k:?}"))));
                }
            }
            blocks.push(jo(&[
                ("s", jl(st)),
                ("t", jo(&f)),
                ("cleanup", bb.is_cleanup.to_string()),
            ]));
        }
        jo(&[
            ("argc", b.arg_count.to_string()),
            ("spread", b.spread_arg.map(|l| l.index().to_string()).unwrap_or("null".into())),
            ("locals", jl(locals)),
            ("names", jl(names)),
            ("blocks", jl(blocks)),
        ])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
        let stop = std::env::var("VERIF_STOP").unwrap_or_default();
        let mut d = Dump {
            tcx,
            tys: HashMap::new(),
            tyq: VecDeque::new(),
            tyout: vec![],
            insts: HashMap::new(),
            q: VecDeque::new(),
            instout: vec![],
            stop: stop.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        };
        let mut roots = vec![];
        let mut items = vec![];
        let mut asms = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                    let foreign = tcx.is_foreign_item(did);
                    let mut f = vec![
                        ("path", js(&d.path(did))),
                        ("k", js("fn")),
                        ("pub", tcx.visibility(did).is_public().to_string()),
                        ("reachable", tcx.effective_visibilities(()).is_exported(id).to_string()),
                        ("unsafe", sig.safety().is_unsafe().to_string()),
                        ("abi", js(sig.abi().as_str())),
                        ("foreign", foreign.to_string()),
                        ("sig", js(&format!("{sig:?}"))),
                        ("span", d.span(tcx.def_span(did))),
                    ];
                    let preds: Vec<String> = tcx
                        .param_env(did)
                        .caller_bounds()
                        .map(|p| js(&format!("{p}")))
                        .collect();
                    f.push(("preds", jl(preds)));
                    if !foreign && tcx.is_mir_available(did) {
                        let args = ty::GenericArgs::identity_for_item(tcx, did);
                        let env = TypingEnv::post_analysis(tcx, did);
                        let inst = Instance::new_raw(did, args);
                        let i = d.inst(inst, env);
                        f.push(("inst", i.to_string()));
                        roots.push(i);
                        if let Some(im) = tcx.impl_of_assoc(did) {
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            f.push(("self_ty", js(&d.tystr(st))));
                            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                                f.push(("trait", js(&d.path(tr.skip_binder().def_id))));
                            }
                        }
                    }
                    items.push(jo(&f));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized();
                    let ti = d.ty(t, env);
                    statics.push(jo(&[
                        ("path", js(&d.path(did))),
                        ("ty", ti.to_string()),
                        ("mut", tcx.is_mutable_static(did).to_string()),
                        ("tls", tcx.is_thread_local_static(did).to_string()),
                        ("foreign", tcx.is_foreign_item(did).to_string()),
                        ("freeze", t.is_freeze(tcx, env).to_string()),
                        ("span", d.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, did);
                    let ti = d.ty(t, env);
                    let vars: Vec<String> = tcx.variances_of(did).iter().map(|v| js(&format!("{v:?}"))).collect();
                    items.push(jo(&[
                        ("path", js(&d.path(did))),
                        ("k", js("type")),
                        ("ty", ti.to_string()),
                        ("variances", jl(vars)),
                        ("reachable", tcx.effective_visibilities(()).is_exported(id).to_string()),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut f = vec![("path", js(&d.path(did))), ("k", js("const"))];
                    let env = TypingEnv::fully_monomorphized();
                    if !t.has_param() && tcx.generics_of(did).count() == 0 {
                        if let Ok(ConstValue::Scalar(interpret::Scalar::Int(i))) = tcx.const_eval_poly(did) {
                            f.push(("bits", js(&i.to_bits(i.size()).to_string())));
                        }
                    }
                    let ti = d.ty(t, env);
                    f.push(("ty", ti.to_string()));
                    items.push(jo(&f));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut f = vec![("k", js("impl")), ("self_ty", js(&d.tystr(st)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        f.push(("trait", js(&d.path(tr.skip_binder().def_id))));
                    }
                    let preds: Vec<String> = tcx.param_env(did).caller_bounds().map(|p| js(&format!("{p}"))).collect();
                    f.push(("preds", jl(preds)));
                    f.push(("span", d.span(tcx.def_span(did))));
                    items.push(jo(&f));
                }
                _ => {}
            }
        }
        for id in tcx.hir_free_items() {
            let it = tcx.hir_item(id);
            if let rustc_hir::ItemKind::GlobalAsm { asm, .. } = it.kind {
                let ops: Vec<String> = asm.operands.iter().map(|(o, _)| match o {
                    rustc_hir::InlineAsmOperand::SymStatic { def_id, .. } => jo(&[("k", js("symstatic")), ("path", js(&d.path(*def_id)))]),
                    rustc_hir::InlineAsmOperand::SymFn { .. } => {
                        jo(&[("k", js("symfn"))])
                    }
                    rustc_hir::InlineAsmOperand::Const { .. } => jo(&[("k", js("const"))]),
                    _ => jo(&[("k", js("other"))]),
                }).collect();
                asms.push(jo(&[
                    ("tpl", d.template(asm.template)),
                    ("ops", jl(ops)),
                    ("opts", d.asm_opts(asm.options)),
                    ("span", d.span(it.span)),
                    ("lines", jl(asm.line_spans.iter().map(|s| d.span(*s)))),
                ]));
            }
        }
        loop {
            if let Some((i, e, id)) = d.q.pop_front() {
                d.dump_inst(i, e, id);
            } else if let Some((t, e, id)) = d.tyq.pop_front() {
                d.dump_ty(t, e, id);
            } else {
                break;
            }
        }
        d.tyout.sort_by_key(|x| x.0);
        let cfgs: Vec<String> = {
            let mut v: Vec<String> = tcx.sess.config.iter().map(|(k, v)| match v { Some(v) => format!("{k}=\"{v}\""), None => k.to_string() }).collect();
            v.sort();
            v.iter().map(|s| js(s)).collect()
        };
        let s = jo(&[
            ("crate", js(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("target", js(&tcx.sess.opts.target_triple.to_string())),
            ("ptr_bits", tcx.data_layout.pointer_size().bits().to_string()),
            ("cfg", jl(cfgs)),
            ("roots", jl(roots.iter().map(|x| x.to_string()))),
            ("items", format!("[{}]", items.join(",\n"))),
            ("statics", jl(statics)),
            ("crates", jl(tcx.crates(()).iter().map(|c| format!("\"{}\"", tcx.crate_name(*c))))),
            ("global_asm", format!("[{}]", asms.join(",\n"))),
            ("types", format!("[{}]", d.tyout.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"))),
            ("insts", format!("[{}]", d.instout.join(",\n"))),
        ]);
        std::fs::write(out, s).unwrap();
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".into();
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
