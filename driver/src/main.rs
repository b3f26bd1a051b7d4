//! MIR fact extractor.  Run as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
//! For the crates named in $MIRDUMP_CRATES it writes $MIRDUMP_OUT/<crate>.json with the
//! unoptimised MIR (`mir_built`) of every body, with resolved callees and named fields.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::fmt::Write as _;

enum J { S(String), N(i128), B(bool), A(Vec<J>), O(Vec<(&'static str, J)>), Null }
use J::*;
impl J {
    fn w(&self, o: &mut String) {
        match self {
            S(s) => { o.push('"'); for c in s.chars() { match c {
                '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                c => o.push(c) } } o.push('"'); }
            N(n) => { let _ = write!(o, "{n}"); }
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']'); }
            O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') }
                S(k.to_string()).w(o); o.push(':'); x.w(o) } o.push('}'); }
            Null => o.push_str("null"),
        }
    }
}
fn s(x: impl Into<String>) -> J { S(x.into()) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }
impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified, stable against re-exports
        let krate = self.tcx.crate_name(d.krate).to_string();
        rustc_middle::ty::print::with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            if d.is_local() { format!("{krate}::{p}") } else { p }
        })
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1))
    }
    fn place(&self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            proj.push(match e {
                ProjectionElem::Deref => A(vec![s("*")]),
                ProjectionElem::Field(i, _) => {
                    let name = match pt.ty.kind() {
                        TyKind::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[i].name.to_string()
                        }
                        _ => i.as_usize().to_string(),
                    };
                    A(vec![s("f"), s(name)])
                }
                ProjectionElem::Index(l) => A(vec![s("i"), N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } =>
                    A(vec![s("ci"), N(offset as i128), B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    A(vec![s("sub"), N(from as i128), N(to as i128), B(from_end)]),
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|x| x.to_string()).unwrap_or_else(|| v.as_usize().to_string());
                    A(vec![s("d"), s(name)])
                }
                _ => A(vec![s("o")]),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        O(vec![("l", N(p.local.as_usize() as i128)), ("p", A(proj))])
    }
    fn konst(&self, did: LocalDefId, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut v = vec![("k", s("const")), ("ty", s(self.ty(t)))];
        let mut folded = *c;
        // a named constant of the crate stands for its value
        if let Const::Unevaluated(u, ty) = c.const_ {
            let plain = match t.kind() {
                TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => true,
                TyKind::Ref(_, x, _) => x.is_str(),
                _ => false,
            };
            if plain && u.def.is_local() && u.promoted.is_none() {
                if let Ok(val) = c.const_.eval(self.tcx, TypingEnv::non_body_analysis(self.tcx, did), c.span) {
                    folded.const_ = Const::Val(val, ty);
                }
            }
        }
        let c = &folded;
        match t.kind() {
            TyKind::FnDef(d, args) => {
                v.push(("fn", s(self.path(*d))));
                v.push(("fnr", self.resolve(did, *d, args.skip_binder())));
            }
            _ => {
                let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
                v.push(("v", s(txt)));
                if let Some((neg, bits)) = self.scalar(t, c) { v.push(("n", N(if neg { -(bits as i128) } else { bits as i128 }))); }
                if let Const::Unevaluated(u, _) = c.const_ { v.push(("item", s(self.path(u.def)))); }
                if let Const::Ty(_, ct) = c.const_ { v.push(("tyconst", s(format!("{ct}")))); }
            }
        }
        O(v)
    }
    fn scalar(&self, t: Ty<'tcx>, c: &ConstOperand<'tcx>) -> Option<(bool, u128)> {
        let sc = match c.const_ { Const::Val(ConstValue::Scalar(x), _) => x.try_to_scalar_int().ok()?, _ => return None };
        let bits = sc.to_bits(sc.size());
        match t.kind() {
            TyKind::Int(_) => { let n = sc.size().sign_extend(bits); Some((n < 0, n.unsigned_abs())) }
            TyKind::Uint(_) | TyKind::Bool | TyKind::Char => Some((false, bits)),
            _ => None,
        }
    }
    fn resolve(&self, did: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, did);
        let eargs = tcx.erase_and_anonymize_regions(args);
        let mut v = vec![("path", s(self.path(d)))];
        let argtxt: Vec<J> = eargs.iter().map(|a| s(rustc_middle::ty::print::with_no_trimmed_paths!(a.to_string()))).collect();
        v.push(("args", A(argtxt)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, eargs)));
        if let Ok(Ok(Some(i))) = r {
            let kind = match i.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" };
            v.push(("res", s(self.path(i.def_id()))));
            v.push(("rk", s(kind)));
            if i.def_id().is_local() { v.push(("local", B(true))); }
        }
        if d.is_local() { v.push(("dlocal", B(true))); }
        if tcx.trait_of_assoc(d).is_some() { v.push(("trait", B(true))); }
        O(v)
    }
    fn op(&self, b: &Body<'tcx>, did: LocalDefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => O(vec![("k", s("copy")), ("p", self.place(b, p))]),
            Operand::Move(p) => O(vec![("k", s("move")), ("p", self.place(b, p))]),
            Operand::Constant(c) => self.konst(did, c),
            _ => O(vec![("k", s("rtcheck"))]),
        }
    }
    fn rv(&self, b: &Body<'tcx>, did: LocalDefId, r: &Rvalue<'tcx>) -> J {
        let o = |x: &Operand<'tcx>| self.op(b, did, x);
        match r {
            Rvalue::Use(x, _) => O(vec![("k", s("use")), ("o", o(x))]),
            Rvalue::Repeat(x, c) => O(vec![("k", s("repeat")), ("o", o(x)), ("n", s(c.to_string()))]),
            Rvalue::Ref(_, k, p) => O(vec![("k", s("ref")), ("m", B(matches!(k, BorrowKind::Mut { .. }))),
                ("fake", B(matches!(k, BorrowKind::Fake(_)))), ("p", self.place(b, p))]),
            Rvalue::RawPtr(_, p) => O(vec![("k", s("ref")), ("m", B(true)), ("raw", B(true)), ("p", self.place(b, p))]),
            Rvalue::Cast(k, x, t) => O(vec![("k", s("cast")), ("ck", s(format!("{k:?}"))), ("o", o(x)), ("ty", s(self.ty(*t)))]),
            Rvalue::BinaryOp(op, x) => O(vec![("k", s("bin")), ("op", s(format!("{op:?}"))), ("a", o(&x.0)), ("b", o(&x.1)),
                ("aty", s(self.ty(x.0.ty(b, self.tcx))))]),
            Rvalue::UnaryOp(op, x) => O(vec![("k", s("un")), ("op", s(format!("{op:?}"))), ("a", o(x))]),
            Rvalue::Discriminant(p) => O(vec![("k", s("discr")), ("p", self.place(b, p)), ("ty", s(self.ty(p.ty(b, self.tcx).ty))),
                ("vars", self.variants(p.ty(b, self.tcx).ty))]),
            Rvalue::CopyForDeref(p) => O(vec![("k", s("use")), ("o", O(vec![("k", s("copy")), ("p", self.place(b, p))]))]),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("k", s("agg"))];
                let mut names: Vec<J> = (0..ops.len()).map(|i| s(i.to_string())).collect();
                match &**k {
                    AggregateKind::Array(_) => v.push(("ak", s("array"))),
                    AggregateKind::Tuple => v.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        v.push(("ak", s("adt")));
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        v.push(("adt", s(self.path(*d))));
                        v.push(("var", s(var.name.to_string())));
                        names = var.fields.iter().take(ops.len()).map(|f| s(f.name.to_string())).collect();
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("ak", s("closure")));
                        v.push(("def", s(self.path(*d))));
                        if let Some(l) = d.as_local() {
                            v.push(("caps", A(self.tcx.closure_captures(l).iter().map(|c| s(c.to_symbol().to_string())).collect())));
                        }
                    }
                    _ => v.push(("ak", s("other"))),
                }
                v.push(("names", A(names)));
                v.push(("ops", A(ops.iter().map(|x| o(x)).collect())));
                O(v)
            }
            _ => O(vec![("k", s("other")), ("txt", s(format!("{r:?}")))]),
        }
    }
    fn variants(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            TyKind::Adt(def, _) if def.is_enum() => A(def.discriminants(self.tcx).map(|(vi, d)|
                A(vec![N(d.val as i128), s(def.variant(vi).name.to_string())])).collect()),
            _ => A(vec![]),
        }
    }
    fn body(&self, did: LocalDefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let d = did.to_def_id();
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upv = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
                else if p.local.as_usize() == 1 { upv.push(A(vec![s(v.name.to_string()), self.place(b, &p)])); }
            }
        }
        let locals = b.local_decls.iter().enumerate().map(|(i, l)| {
            let mut v = vec![("ty", s(self.ty(l.ty)))];
            if let Some(n) = &names[i] { v.push(("name", s(n.clone()))); }
            O(v)
        }).collect();
        let blocks = b.basic_blocks.iter().map(|bb| {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => st.push(O(vec![("p", self.place(b, &bx.0)), ("r", self.rv(b, did, &bx.1)),
                        ("s", self.span(x.source_info.span))])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(O(vec![("setd", self.place(b, place)),
                        ("v", N(variant_index.as_usize() as i128))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bbn = |x: &BasicBlock| N(x.as_usize() as i128);
            let mut tv: Vec<(&'static str, J)> = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", bbn(target))],
                TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bbn(real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bbn(real_target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(b, tcx);
                    let arms = targets.iter().map(|(v, t)| {
                        let v = if let TyKind::Int(_) = dty.kind() { v as i128 } else { v as i128 };
                        A(vec![N(v), N(t.as_usize() as i128)])
                    }).collect();
                    vec![("k", s("switch")), ("o", self.op(b, did, discr)), ("ty", s(self.ty(dty))), ("arms", A(arms)), ("else", bbn(&targets.otherwise()))]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", s("resume"))],
                TerminatorKind::Drop { place, target, .. } => vec![("k", s("drop")), ("p", self.place(b, place)), ("t", bbn(target)), ("ty", s(self.ty(place.ty(b, tcx).ty)))],
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    vec![("k", s("call")), ("f", self.op(b, did, func)),
                        ("a", A(args.iter().map(|x| self.op(b, did, &x.node)).collect())),
                        ("aty", A(args.iter().map(|x| s(self.ty(x.node.ty(b, tcx)))).collect())),
                        ("d", self.place(b, destination)),
                        ("dty", s(self.ty(destination.ty(b, tcx).ty))),
                        ("t", target.map(|x| bbn(&x)).unwrap_or(Null)),
                        ("fs", self.span(*fn_span))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.op(b, did, len), self.op(b, did, index)]),
                        AssertKind::Overflow(op, x, y) => (format!("Overflow{op:?}"), vec![self.op(b, did, x), self.op(b, did, y)]),
                        AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.op(b, did, x)]),
                        AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.op(b, did, x)]),
                        AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.op(b, did, x)]),
                        m => (format!("{m:?}"), vec![]),
                    };
                    vec![("k", s("assert")), ("c", self.op(b, did, cond)), ("e", B(*expected)), ("m", s(mk)), ("ops", A(ops)), ("t", bbn(target))]
                }
                k => vec![("k", s("other")), ("txt", s(format!("{k:?}"))), ("succ", A(k.successors().map(|x| bbn(&x)).collect()))],
            };
            tv.push(("s", self.span(t.source_info.span)));
            O(vec![("st", A(st)), ("t", O(tv)), ("c", B(bb.is_cleanup))])
        }).collect();
        let kind = tcx.def_kind(d);
        let parent = tcx.typeck_root_def_id(d);
        let sm = tcx.sess.source_map();
        let sp = b.span;
        let (lo, hi) = (sm.lookup_char_pos(sp.lo()), sm.lookup_char_pos(sp.hi()));
        let mut v = vec![
            ("path", s(self.path(d))), ("kind", s(format!("{kind:?}"))), ("root", s(self.path(parent))),
            ("argc", N(b.arg_count as i128)), ("locals", A(locals)), ("upvars", A(upv)), ("blocks", A(blocks)),
            ("file", s(lo.file.name.prefer_local_unconditionally().to_string())), ("lo", N(lo.line as i128)), ("hi", N(hi.line as i128)),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            v.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            v.push(("exported", B(tcx.effective_visibilities(()).is_exported(did))));
        }
        if let Some(p) = tcx.opt_parent(parent) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                if let Some(h) = tcx.impl_opt_trait_ref(p) {
                    let h = h.instantiate_identity().skip_normalization();
                    v.push(("impl_trait", s(self.path(h.def_id))));
                }
                v.push(("impl_self", s(self.ty(tcx.type_of(p).instantiate_identity().skip_normalization()))));
                v.push(("derived", B(tcx.is_automatically_derived(p))));
            } else if matches!(tcx.def_kind(p), DefKind::Trait) { v.push(("in_trait", s(self.path(p)))); }
        }
        O(v)
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        let mut lost = vec![];
        for did in keys {
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) { continue; }
            let st = tcx.mir_built(did);
            if st.is_stolen() { lost.push(s(cx.path(did.to_def_id()))); continue; }
            bodies.push((did, st.borrow().clone()));
        }
        let mut js = vec![];
        for (d, b) in &bodies { js.push(cx.body(*d, b)); }
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(d);
                    let vars = def.variants().iter().map(|v| O(vec![("name", s(v.name.to_string())), ("fields", A(v.fields.iter().map(|f|
                        O(vec![("name", s(f.name.to_string())), ("ty", s(cx.ty(tcx.type_of(f.did).instantiate_identity().skip_normalization()))),
                               ("pub", B(f.vis.is_public()))])).collect()))])).collect();
                    adts.push(O(vec![("path", s(cx.path(d))), ("enum", B(def.is_enum())), ("vars", A(vars)), ("s", cx.span(tcx.def_span(d))),
                        ("exported", B(tcx.effective_visibilities(()).is_exported(id)))]));
                }
                DefKind::Impl { .. } => {
                    let tr = tcx.impl_opt_trait_ref(d).map(|h| s(cx.path(h.instantiate_identity().skip_normalization().def_id))).unwrap_or(Null);
                    let items = tcx.associated_item_def_ids(d).iter().map(|x| s(cx.path(*x))).collect();
                    impls.push(O(vec![("trait", tr), ("self", s(cx.ty(tcx.type_of(d).instantiate_identity().skip_normalization()))), ("items", A(items)),
                        ("derived", B(tcx.is_automatically_derived(d)))]));
                }
                _ => {}
            }
        }
        let j = O(vec![("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())), ("bodies", A(js)), ("adts", A(adts)), ("impls", A(impls)), ("lost", A(lost))]);
        let mut o = String::new();
        j.w(&mut o);
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

struct NoCb;
impl Callbacks for NoCb {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|x| x == "rustc").unwrap_or(false) { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let hit = name.as_ref().map(|n| want.split(',').any(|w| w == n)).unwrap_or(false);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if hit && !out.is_empty() {
        let mut cb = Cb { out: format!("{}/{}.json", out, name.unwrap()) };
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut NoCb))
    }
}
