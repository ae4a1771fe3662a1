#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

mod js;
use js::J;

struct Cb {
    out: String,
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("KYFACTS_CRATE").unwrap_or_else(|_| "kyber_rs".into());
    let mut is_target = false;
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() && args[i + 1] == target {
            is_target = true;
        }
        i += 1;
    }
    let is_test = args.iter().any(|a| a == "--test");
    if is_target && !is_test && !args.iter().any(|a| a.starts_with("--print")) {
        let out = std::env::var("KYFACTS_OUT").expect("KYFACTS_OUT");
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        let mut cb = Cb { out };
        std::process::exit(run(&args, &mut cb));
    } else {
        let mut cb = rustc_driver::TimePassesCallbacks::default();
        std::process::exit(run(&args, &mut cb));
    }
}

fn run(args: &[String], cb: &mut (dyn rustc_driver::Callbacks + Send)) -> i32 {
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(args, cb));
    if code == std::process::ExitCode::SUCCESS { 0 } else { 1 }
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn ty_str(t: Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_forced_impl_filename_line!(format!("{}", t)))
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn adt_of(t: Ty<'_>) -> Option<DefId> {
    let mut t = t;
    loop {
        match t.kind() {
            ty::Ref(_, x, _) => t = *x,
            ty::RawPtr(x, _) => t = *x,
            ty::Adt(d, _) => return Some(d.did()),
            _ => return None,
        }
    }
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    J::A(vec![J::s(format!("{}", lo.file.name.prefer_remapped_unconditionally())), J::n(lo.line as i64)])
}
fn line(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> i64 {
    let sp = sp.source_callsite();
    tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i64
}

/// describe a callable definition
/// functions named in an initialiser
struct Fns<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
}

impl<'tcx> mir::visit::Visitor<'tcx> for Fns<'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            let mut p = path(self.tcx, *d);
            if self.tcx.trait_of_assoc(*d).is_some() {
                let e = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, ty::TypingEnv::fully_monomorphized(), *d, e) {
                    p = path(self.tcx, i.def_id());
                }
            }
            self.out.push(J::s(p));
        }
    }
}

fn fn_desc<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Vec<(&'static str, J)> {
    let mut v = vec![("p", J::s(path(tcx, d))), ("local", J::B(d.is_local()))];
    if let Some(n) = tcx.opt_item_name(d) {
        v.push(("name", J::s(n.to_string())));
    }
    match tcx.def_kind(d) {
        DefKind::AssocFn | DefKind::AssocConst { .. } => {
            let parent = tcx.parent(d);
            match tcx.def_kind(parent) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    v.push(("self", J::s(ty_str(st))));
                    if let Some(a) = adt_of(st) {
                        v.push(("self_adt", J::s(path(tcx, a))));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        v.push(("trait", J::s(path(tcx, tr.def_id))));
                        v.push(("trait_ref", J::s(ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                    }
                }
                DefKind::Trait => {
                    v.push(("trait", J::s(path(tcx, parent))));
                    v.push(("in_trait", J::B(true)));
                }
                _ => {}
            }
        }
        _ => {}
    }
    v
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let j = match el {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let var = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if d.is_union() || d.variants().is_empty() {
                                (format!("{}", f.index()), String::new())
                            } else {
                                let vd = &d.variants()[var];
                                (vd.fields[f].name.to_string(), path(self.tcx, d.did()))
                            }
                        }
                        ty::Closure(cd, _) => {
                            let n = cd
                                .as_local()
                                .and_then(|l| self.tcx.closure_captures(l).get(f.index()).map(|c| c.to_symbol().to_string()))
                                .unwrap_or(format!("{}", f.index()));
                            (n, "closure".into())
                        }
                        _ => (format!("{}", f.index()), String::new()),
                    };
                    J::A(vec![J::s("f"), J::n(f.index() as i64), J::s(name), J::s(owner)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::n(l.index() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::n(offset as i64),
                    J::B(from_end),
                    J::n(min_length as i64),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("sub"), J::n(from as i64), J::n(to as i64), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(d, _) => d.variants()[v].name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    J::A(vec![J::s("dc"), J::s(nm)])
                }
                _ => J::A(vec![J::s("oth")]),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, el);
        }
        J::A(vec![J::n(p.local.index() as i64), J::A(proj)])
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("k", J::s("const")), ("ty", J::s(ty_str(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                o.push(("fn", self.callee(*d, args.skip_binder())));
                return J::O(o);
            }
            ty::Closure(d, _) => {
                o.push(("closure", J::s(path(self.tcx, *d))));
                return J::O(o);
            }
            _ => {}
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::n(p.index() as i64)));
                } else {
                    o.push(("item", J::s(path(self.tcx, u.def))));
                    o.push(("item_trait", J::B(self.tcx.trait_of_assoc(u.def).is_some())));
                }
            }
            mir::Const::Ty(_, ct) => {
                o.push(("ct", J::s(format!("{:?}", ct))));
            }
            _ => {}
        }
        // a reference to a global
        if let mir::Const::Val(ConstValue::Scalar(interpret::Scalar::Ptr(ptr, _)), _) = c.const_ {
            if t.is_ref() {
                if let Some(interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(ptr.into_raw_parts().0.alloc_id()) {
                    o.push(("static", J::s(path(self.tcx, d))));
                }
            }
        }
        // evaluated scalars / strings (skip promoteds & generic)
        let is_prom = matches!(c.const_, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_prom {
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
                    let sz = c.const_.ty();
                    let mut v = b as i128;
                    if let ty::Int(it) = sz.kind() {
                        let bits = it.bit_width().unwrap_or(64);
                        if bits < 128 && (b >> (bits - 1)) & 1 == 1 {
                            v = b as i128 - (1i128 << bits);
                        }
                    }
                    o.push(("v", J::s(format!("{}", v))));
                }
            } else if let ty::Ref(_, inner, _) = t.kind() {
                let is_u8s = match inner.kind() {
                    ty::Slice(e) | ty::Array(e, _) => *e == self.tcx.types.u8,
                    _ => false,
                };
                if inner.is_str() || is_u8s {
                    if let mir::Const::Val(cv, _) = c.const_ {
                        if inner.is_str() || matches!(inner.kind(), ty::Slice(_)) {
                            if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                            }
                        } else if let ConstValue::Scalar(interpret::Scalar::Ptr(ptr, _)) = cv {
                            let (prov, off) = ptr.into_raw_parts();
                            if let Some(interpret::GlobalAlloc::Memory(al)) =
                                self.tcx.try_get_global_alloc(prov.alloc_id())
                            {
                                let al = al.inner();
                                let n = al.len();
                                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..n);
                                o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                            }
                        }
                    }
                }
            }
        }
        J::O(o)
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut o = fn_desc(self.tcx, d);
        o.push((
            "args",
            J::A(args.iter().filter(|a| a.as_region().is_none()).map(|a| J::s(ty::print::with_no_trimmed_paths!(format!("{}", a)))).collect()),
        ));
        // resolve trait method to impl where possible
        let e = self.tcx.erase_and_anonymize_regions(args);
        if self.tcx.trait_of_assoc(d).is_some() {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, self.env, d, e) {
                if inst.def_id() != d {
                    o.push(("res", J::O(fn_desc(self.tcx, inst.def_id()))));
                } else if let ty::InstanceKind::Item(_) = inst.def {
                    o.push(("res_default", J::B(true)));
                }
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    o.push(("virt", J::B(true)));
                }
            }
        }
        J::O(o)
    }

    fn operand(&self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::s("oth"))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", J::s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![("r", J::s("repeat")), ("o", self.operand(o)), ("n", J::s(format!("{}", n)))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", J::s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", J::s("raw")), ("p", self.place(p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", J::s("cast")),
                ("ck", J::s(format!("{:?}", k))),
                ("o", self.operand(o)),
                ("from", J::s(ty_str(o.ty(&self.body.local_decls, self.tcx)))),
                ("ty", J::s(ty_str(*t))),
            ]),
            Rvalue::BinaryOp(b, ops) => J::O(vec![
                ("r", J::s("bin")),
                ("op", J::s(format!("{:?}", b))),
                ("a", self.operand(&ops.0)),
                ("b", self.operand(&ops.1)),
                ("ty", J::s(ty_str(ops.0.ty(&self.body.local_decls, self.tcx)))),
            ]),
            Rvalue::UnaryOp(u, o) => J::O(vec![("r", J::s("un")), ("op", J::s(format!("{:?}", u))), ("a", self.operand(o))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                let mut adt = String::new();
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        adt = path(self.tcx, d.did());
                        for (vi, dis) in d.discriminants(self.tcx) {
                            vs.push(J::A(vec![J::s(format!("{}", dis.val)), J::s(d.variants()[vi].name.to_string())]));
                        }
                    }
                }
                J::O(vec![("r", J::s("discr")), ("p", self.place(p)), ("vs", J::A(vs)), ("adt", J::s(adt))])
            }
            Rvalue::Aggregate(k, ops) => {
                let a = J::A(ops.iter().map(|o| self.operand(o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::O(vec![("r", J::s("agg")), ("ak", J::s("array")), ("ops", a)]),
                    AggregateKind::Tuple => J::O(vec![("r", J::s("agg")), ("ak", J::s("tuple")), ("ops", a)]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let vd = &def.variants()[*v];
                        J::O(vec![
                            ("r", J::s("agg")),
                            ("ak", J::s("adt")),
                            ("adt", J::s(path(self.tcx, *d))),
                            ("var", J::s(vd.name.to_string())),
                            ("enum", J::B(def.is_enum())),
                            ("fields", J::A(vd.fields.iter().map(|f| J::s(f.name.to_string())).collect())),
                            ("ops", a),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        let caps = d
                            .as_local()
                            .map(|l| self.tcx.closure_captures(l).iter().map(|c| J::s(c.to_symbol().to_string())).collect())
                            .unwrap_or_default();
                        J::O(vec![
                            ("r", J::s("agg")),
                            ("ak", J::s("closure")),
                            ("def", J::s(path(self.tcx, *d))),
                            ("caps", J::A(caps)),
                            ("ops", a),
                        ])
                    }
                    _ => J::O(vec![("r", J::s("agg")), ("ak", J::s("other")), ("ops", a)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::O(vec![("r", J::s("use")), ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(p))]))]),
            Rvalue::Reborrow(_, _, p) => J::O(vec![("r", J::s("ref")), ("m", J::B(true)), ("p", self.place(p))]),
            #[allow(unreachable_patterns)]
            other => J::O(vec![("r", J::s("oth")), ("d", J::s(format!("{:?}", other)))]),
        }
    }

    fn bb(&self, b: BasicBlock) -> J {
        J::n(b.index() as i64)
    }

    fn term(&self, t: &Terminator<'tcx>) -> J {
        let ln = J::n(line(self.tcx, t.source_info.span));
        let mac = t.source_info.span.from_expansion();
        let mut o: Vec<(&'static str, J)> = vec![("l", ln), ("mac", J::B(mac))];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("t", J::s("goto")));
                o.push(("to", self.bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("t", J::s("switch")));
                o.push(("o", self.operand(discr)));
                o.push(("ty", J::s(ty_str(discr.ty(&self.body.local_decls, self.tcx)))));
                o.push(("ts", J::A(targets.iter().map(|(v, b)| J::A(vec![J::s(format!("{}", v)), self.bb(b)])).collect())));
                o.push(("else", self.bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("t", J::s("return"))),
            TerminatorKind::Unreachable => o.push(("t", J::s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("t", J::s("drop")));
                o.push(("p", self.place(place)));
                o.push(("to", self.bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("t", J::s("call")));
                o.push(("f", self.operand(func)));
                o.push(("args", J::A(args.iter().map(|a| self.operand(&a.node)).collect())));
                o.push(("aty", J::A(args.iter().map(|a| J::s(ty_str(a.node.ty(&self.body.local_decls, self.tcx)))).collect())));
                o.push(("dest", self.place(destination)));
                o.push(("dty", J::s(ty_str(destination.ty(&self.body.local_decls, self.tcx).ty))));
                o.push(("to", target.map(|b| self.bb(b)).unwrap_or(J::Null)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("t", J::s("assert")));
                o.push(("o", self.operand(cond)));
                o.push(("exp", J::B(*expected)));
                o.push(("to", self.bb(*target)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        J::A(vec![J::s("bounds"), self.operand(len), self.operand(index)])
                    }
                    AssertKind::Overflow(b, ..) => J::A(vec![J::s("overflow"), J::s(format!("{:?}", b))]),
                    AssertKind::DivisionByZero(x) => J::A(vec![J::s("div0"), self.operand(x)]),
                    AssertKind::RemainderByZero(x) => J::A(vec![J::s("rem0"), self.operand(x)]),
                    _ => J::A(vec![J::s("oth")]),
                };
                o.push(("msg", m));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("t", J::s("goto")));
                o.push(("to", self.bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("t", J::s("goto")));
                o.push(("to", self.bb(*real_target)));
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("t", J::s("unwind"))),
            other => {
                o.push(("t", J::s("oth")));
                o.push(("d", J::s(format!("{:?}", other))));
            }
        }
        J::O(o)
    }

    fn body_json(&self) -> Vec<(&'static str, J)> {
        let b = self.body;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upv = vec![];
        for vi in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(vi.name.to_string());
                } else {
                    upv.push(J::A(vec![J::s(vi.name.to_string()), self.place(&p)]));
                }
            }
        }
        let locals = J::A(
            b.local_decls
                .iter_enumerated()
                .map(|(l, d)| {
                    let mut o = vec![("ty", J::s(ty_str(d.ty)))];
                    if let Some(n) = &names[l.index()] {
                        o.push(("n", J::s(n.clone())));
                    }
                    if let Some(a) = adt_of(d.ty) {
                        o.push(("adt", J::s(path(self.tcx, a))));
                    }
                    J::O(o)
                })
                .collect(),
        );
        let blocks = J::A(
            b.basic_blocks
                .iter()
                .map(|bb| {
                    let mut st = vec![];
                    for s in &bb.statements {
                        let ln = line(self.tcx, s.source_info.span);
                        match &s.kind {
                            StatementKind::Assign(a) => {
                                st.push(J::O(vec![
                                    ("s", J::s("=")),
                                    ("l", J::n(ln)),
                                    ("d", self.place(&a.0)),
                                    ("v", self.rvalue(&a.1)),
                                ]));
                            }
                            StatementKind::SetDiscriminant { place, variant_index } => {
                                st.push(J::O(vec![
                                    ("s", J::s("setd")),
                                    ("d", self.place(place)),
                                    ("v", J::n(variant_index.index() as i64)),
                                ]));
                            }
                            StatementKind::StorageDead(l) => {
                                st.push(J::O(vec![("s", J::s("dead")), ("x", J::n(l.index() as i64))]));
                            }
                            _ => {}
                        }
                    }
                    let t = bb.terminator();
                    J::O(vec![("st", J::A(st)), ("te", self.term(t)), ("cl", J::B(bb.is_cleanup))])
                })
                .collect(),
        );
        vec![("argc", J::n(b.arg_count as i64)), ("locals", locals), ("upv", J::A(upv)), ("blocks", blocks)]
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut bodies: Vec<J> = vec![];
    let mut serdes: Vec<J> = vec![];
    let mut consts: Vec<J> = vec![];
    let mut adts: Vec<J> = vec![];
    let mut impls: Vec<J> = vec![];
    let mut stolen: Vec<J> = vec![];

    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    // functions & closures first
    for &ld in &owners {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let ps = path(tcx, d);
        let serde = ps.contains("::_::<impl serde") || ps.contains("__Visitor") || ps.contains("__DeserializeWith") || ps.contains("__Field");
        if serde && (ps.contains("__Field") && !ps.ends_with("::visit_seq") || !(ps.ends_with("::serialize") || ps.ends_with("::deserialize") || ps.ends_with("::visit_seq"))) {
            continue;
        }
        let (m, proms) = tcx.mir_promoted(ld);
        if m.is_stolen() {
            stolen.push(J::s(path(tcx, d)));
            continue;
        }
        let body = m.borrow().clone();
        let env = TypingEnv::non_body_analysis(tcx, d);
        let cx = Cx { tcx, body: &body, env };
        let mut o: Vec<(&'static str, J)> = vec![("kind", J::s(format!("{:?}", kind).split(' ').next().unwrap().to_string()))];
        o.extend(fn_desc(tcx, d));
        o.push(("loc", loc(tcx, tcx.def_span(d))));
        if kind != DefKind::Closure {
            o.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
            o.push(("sig", J::s(ty::print::with_no_trimmed_paths!(format!("{}", tcx.fn_sig(d).skip_binder())))));
            o.push(("const", J::B(tcx.is_const_fn(d))));
        } else {
            o.push(("parent", J::s(path(tcx, tcx.typeck_root_def_id(d)))));
        }
        let parent = tcx.parent(d);
        o.push(("derived", J::B(matches!(tcx.def_kind(parent), DefKind::Impl { .. }) && tcx.is_automatically_derived(parent))));
        o.push(("ret", J::s(ty_str(body.return_ty()))));
        o.extend(cx.body_json());
        let mut pj = vec![];
        if !proms.is_stolen() {
            for pb in proms.borrow().iter() {
                let cx = Cx { tcx, body: pb, env };
                pj.push(J::O(cx.body_json()));
            }
        }
        o.push(("proms", J::A(pj)));
        if serde {
            serdes.push(J::O(o));
        } else {
            bodies.push(J::O(o));
        }
    }
    // ADTs, impls, unsafe
    let items = tcx.hir_crate_items(());
    for ld in items.definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let def = tcx.adt_def(d);
                let vs = def
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", J::s(v.name.to_string())),
                            (
                                "fields",
                                J::A(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            J::O(vec![
                                                ("n", J::s(f.name.to_string())),
                                                ("ty", J::s(ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                                                ("vis", J::s(format!("{:?}", f.vis))),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect();
                let mut o = vec![
                    ("p", J::s(path(tcx, d))),
                    ("name", J::s(tcx.item_name(d).to_string())),
                    ("enum", J::B(def.is_enum())),
                    ("variants", J::A(vs)),
                    ("loc", loc(tcx, tcx.def_span(d))),
                ];
                // memory layout of plain structs, to read their constants
                if !def.is_enum() && !tcx.generics_of(d).requires_monomorphization(tcx) && tcx.generics_of(d).own_counts().lifetimes == 0 {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                        let n = def.non_enum_variant().fields.len();
                        o.push(("size", J::n(l.size.bytes() as i64)));
                        o.push(("off", J::A((0..n).map(|i| J::n(l.fields.offset(i).bytes() as i64)).collect())));
                    }
                }
                adts.push(J::O(o));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", J::s(ty_str(st)))];
                if let Some(a) = adt_of(st) {
                    o.push(("self_adt", J::s(path(tcx, a))));
                }
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(path(tcx, tr.def_id))));
                    o.push(("trait_ref", J::s(ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                o.push(("items", J::A(tcx.associated_item_def_ids(d).iter().map(|i| J::s(path(tcx, *i))).collect())));
                o.push(("loc", loc(tcx, tcx.def_span(d))));
                impls.push(J::O(o));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let mut o = vec![
                    ("p", J::s(path(tcx, d))),
                    ("ty", J::s(ty_str(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ("loc", loc(tcx, tcx.def_span(d))),
                    ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
                ];
                let generic = tcx.generics_of(d).requires_monomorphization(tcx);
                if !generic && matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.trait_of_assoc(d).is_none() {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        match v {
                            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                                o.push(("int", J::s(format!("{}", i.to_bits(i.size())))));
                                o.push(("size", J::n(i.size().bytes() as i64)));
                            }
                            ConstValue::Indirect { alloc_id, offset } => {
                                if let interpret::GlobalAlloc::Memory(al) = tcx.global_alloc(alloc_id) {
                                    let al = al.inner();
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes() as usize..al.len());
                                    let mut h = String::new();
                                    for x in b {
                                        let _ = write!(h, "{:02x}", x);
                                    }
                                    o.push(("hex", J::s(h)));
                                }
                            }
                            ConstValue::Slice { .. } => {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let DefKind::Static { .. } = tcx.def_kind(d) {
                    if !tcx.is_foreign_item(d) {
                        let mut fs = Fns { tcx, out: vec![] };
                        mir::visit::Visitor::visit_body(&mut fs, tcx.mir_for_ctfe(d));
                        o.push(("init", J::A(fs.out)));
                    }
                }
                if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                    if !mutability.is_mut() && !generic && !tcx.is_foreign_item(d) && tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                        if let Ok(al) = tcx.eval_static_initializer(d) {
                            let al = al.inner();
                            if al.provenance().ptrs().is_empty() {
                                let mut h = String::new();
                                for x in al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len()) {
                                    let _ = write!(h, "{:02x}", x);
                                }
                                o.push(("hex", J::s(h)));
                            }
                        }
                    }
                }
                consts.push(J::O(o));
            }
            _ => {}
        }
    }
    let root = J::O(vec![
        ("bodies", J::A(bodies)),
        ("serde", J::A(serdes)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("consts", J::A(consts)),
        ("stolen", J::A(stolen)),
    ]);
    let mut s = String::new();
    root.write(&mut s);
    std::fs::write(out, s).expect("write facts");
}
