// MIR fact extractor for the fall workspace.
// Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; compiles exactly what cargo asks
// for and, for the crates named in FALL_FACTS_CRATES, writes one JSON file per crate with:
// ADTs, impls, function signatures and the control-flow graphs (MIR) of all bodies.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, TypeVisitableExt, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(xs: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", xs.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t))))
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        q(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn tyj(&self, t: Ty<'tcx>) -> String {
        // structural hints next to the printed type
        let (k, extra) = match t.kind() {
            ty::Adt(d, a) => ("adt", format!(",\"def\":{},\"args\":{}", q(&self.path(d.did())), arr(a.iter().filter_map(|x| x.as_type()).map(|x| q(&self.ty(x)))))),
            ty::Ref(_, i, m) => ("ref", format!(",\"mut\":{},\"to\":{}", m.is_mut(), self.tyj(*i))),
            ty::RawPtr(i, m) => ("ptr", format!(",\"mut\":{},\"to\":{}", m.is_mut(), self.tyj(*i))),
            ty::Closure(d, _) => ("closure", format!(",\"def\":{}", q(&self.path(*d)))),
            ty::FnDef(d, a) => ("fndef", format!(",\"def\":{},\"args\":{}", q(&self.path(*d)), arr(a.no_bound_vars().unwrap().iter().filter_map(|x| x.as_type()).map(|x| q(&self.ty(x)))))),
            ty::Slice(i) => ("slice", format!(",\"to\":{}", self.tyj(*i))),
            ty::Array(i, n) => ("array", format!(",\"to\":{},\"n\":{}", self.tyj(*i), q(&format!("{:?}", n)))),
            ty::Tuple(ts) => ("tuple", format!(",\"elems\":{}", arr(ts.iter().map(|x| self.tyj(x))))),
            ty::Bool => ("bool", String::new()),
            ty::Int(_) | ty::Uint(_) => ("int", String::new()),
            ty::Param(_) => ("param", String::new()),
            ty::Dynamic(..) => ("dyn", String::new()),
            ty::Never => ("never", String::new()),
            ty::Str => ("str", String::new()),
            ty::FnPtr(..) => ("fnptr", String::new()),
            _ => ("other", String::new()),
        };
        format!("{{\"k\":\"{}\",\"s\":{}{}}}", k, q(&self.ty(t)), extra)
    }
}

impl<'tcx> Cx<'tcx> {
    fn auto(&self, d: DefId, t: Ty<'tcx>, tr: Option<DefId>) -> bool {
        let Some(tr) = tr else { return false };
        let (infcx, env) = self.tcx.infer_ctxt().build_with_typing_env(TypingEnv::post_analysis(self.tcx, d));
        infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
    }
    // the types a field is made of, at every level of nesting
    fn parts(&self, d: DefId, t: Ty<'tcx>) -> String {
        let env = TypingEnv::post_analysis(self.tcx, d);
        arr(t.walk().filter_map(|x| x.as_type()).map(|x| {
            let (k, p, local) = match x.kind() {
                ty::Adt(a, _) => ("adt", self.path(a.did()), a.did().is_local()),
                ty::RawPtr(..) => ("ptr", self.ty(x), false),
                ty::Dynamic(ps, _) => ("dyn", ps.principal_def_id().map(|p| self.path(p)).unwrap_or_default(), false),
                ty::FnPtr(..) => ("fnptr", String::new(), false),
                ty::Param(_) => ("param", self.ty(x), false),
                ty::Ref(_, _, m) => (if m.is_mut() { "mutref" } else { "ref" }, String::new(), false),
                _ => ("other", self.ty(x), false),
            };
            let frz = matches!(x.kind(), ty::Dynamic(..)) || x.has_escaping_bound_vars() || x.is_freeze(self.tcx, env);
            format!("[{},{},{},{}]", q(k), q(&p), frz, local)
        }))
    }
}

struct Unsafe<'a, 'tcx> { cx: &'a Cx<'tcx>, tc: &'tcx ty::TypeckResults<'tcx>, depth: usize, ext: bool, ops: Vec<String>, out: Vec<String>, owner: String }

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'a, 'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        let uns = matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided));
        if uns {
            self.depth += 1;
            let ext = b.span.from_expansion() && b.span.ctxt().outer_expn_data().macro_def_id.map(|m| !m.is_local()).unwrap_or(false);
            let ops = std::mem::take(&mut self.ops);
            rustc_hir::intravisit::walk_block(self, b);
            let mine = std::mem::replace(&mut self.ops, ops);
            let mac = b.span.ctxt().outer_expn_data().macro_def_id.map(|m| self.cx.path(m)).unwrap_or_default();
            self.out.push(format!("{{\"in\":{},\"span\":{},\"external\":{},\"macro\":{},\"ops\":{}}}", q(&self.owner), self.cx.span(b.span), ext, q(&mac), arr(mine.iter().map(|x| q(x)))));
            self.depth -= 1;
        } else { rustc_hir::intravisit::walk_block(self, b); }
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        let tcx = self.cx.tcx;
        if self.depth > 0 {
            let callee = match e.kind {
                rustc_hir::ExprKind::MethodCall(..) => self.tc.type_dependent_def_id(e.hir_id),
                rustc_hir::ExprKind::Call(f, _) => match f.kind { rustc_hir::ExprKind::Path(ref qp) => self.tc.qpath_res(qp, f.hir_id).opt_def_id(), _ => None },
                _ => None,
            };
            if let Some(c) = callee {
                if matches!(tcx.def_kind(c), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(c).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe() { self.ops.push(format!("call {}", self.cx.path(c))); }
            }
            match e.kind {
                rustc_hir::ExprKind::Unary(rustc_hir::UnOp::Deref, x) if self.tc.expr_ty(x).is_raw_ptr() => self.ops.push("deref of a raw pointer".into()),
                rustc_hir::ExprKind::Path(ref qp) => if let Some(d) = self.tc.qpath_res(qp, e.hir_id).opt_def_id() {
                    if matches!(tcx.def_kind(d), DefKind::Static { .. }) && tcx.is_mutable_static(d) { self.ops.push(format!("static mut {}", self.cx.path(d))); }
                },
                _ => {}
            }
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

struct B<'a, 'tcx> { cx: &'a Cx<'tcx>, body: &'a Body<'tcx>, owner: DefId, env: TypingEnv<'tcx> }

impl<'a, 'tcx> B<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut pty = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let on = match pty.ty.kind() { ty::Adt(d, _) => self.cx.path(d.did()), ty::Closure(..) => "{closure}".into(), _ => String::new() };
                    format!("[\"field\",{},{},{}]", f.as_usize(), q(&name), q(&on))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => format!("[\"downcast\",{},{}]", v.as_usize(), q(&n.map(|n| n.to_string()).unwrap_or_default())),
                _ => "[\"opaque\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(proj))
    }

    fn fnref(&self, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.cx.tcx;
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let mut r = String::from("null");
                let mut kind = "";
                let erased = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, erased) {
                    r = q(&self.cx.path(i.def_id()));
                    kind = match i.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" };
                }
                let tr = tcx.trait_of_assoc(*d).map(|x| q(&self.cx.path(x))).unwrap_or("null".into());
                let name = tcx.opt_item_name(*d).map(|s| s.to_string()).unwrap_or_default();
                Some(format!("{{\"fn\":{},\"name\":{},\"resolved\":{},\"rkind\":\"{}\",\"trait\":{},\"args\":{}}}",
                    q(&self.cx.path(*d)), q(&name), r, kind, tr,
                    arr(args.iter().filter_map(|x| x.as_type()).map(|x| self.cx.tyj(x)))))
            }
            _ => None,
        }
    }

    fn cnst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        if let Some(f) = self.fnref(t) { return f; }
        let tyj = self.cx.tyj(t);
        let mut item = String::from("null");
        if let Const::Unevaluated(u, _) = c.const_ {
            item = match u.promoted {
                Some(p) => format!("{{\"promoted\":{},\"of\":{}}}", p.as_usize(), q(&self.cx.path(u.def))),
                None => format!("{{\"const\":{}}}", q(&self.cx.path(u.def))),
            };
        }
        let mut val = String::from("null");
        if !t.has_param() {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                match v {
                    ConstValue::Scalar(s) => {
                        if let rustc_middle::mir::interpret::Scalar::Int(i) = s {
                            let bits = i.to_bits(i.size());
                            val = if t.is_signed() {
                                let sz = i.size().bits();
                                let sh = 128 - sz;
                                format!("{{\"int\":{}}}", ((bits << sh) as i128) >> sh)
                            } else { format!("{{\"int\":{}}}", bits) };
                        }
                    }
                    ConstValue::ZeroSized => val = "{\"zst\":true}".into(),
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            val = match std::str::from_utf8(b) { Ok(s) => format!("{{\"str\":{}}}", q(s)), Err(_) => "null".into() };
                        }
                    }
                    _ => {}
                }
            }
        }
        let pretty = with_no_trimmed_paths!(format!("{}", c.const_));
        format!("{{\"c\":{},\"item\":{},\"ty\":{},\"pp\":{}}}", val, item, tyj, q(&pretty))
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.cnst(c)),
            #[allow(unreachable_patterns)]
            _ => "[\"const\",{\"c\":null,\"item\":null,\"ty\":{\"k\":\"other\",\"s\":\"?\"},\"pp\":\"?\"}]".into(),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), q(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", q(match k { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", q(&format!("{:?}", k)), self.place(p)),
            Rvalue::BinaryOp(b, xs) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.op(&xs.0), self.op(&xs.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(o)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.op(o), self.cx.tyj(*t)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{},{}]", self.place(p), self.cx.tyj(p.ty(self.body, self.cx.tcx).ty)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = arr(ops.iter().map(|o| self.op(o)));
                match &**k {
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let ad = self.cx.tcx.adt_def(*d);
                        format!("[\"adt\",{},{},{},{}]", q(&self.cx.path(*d)), v.as_usize(), q(&ad.variant(*v).name.to_string()), ops)
                    }
                    AggregateKind::Tuple => format!("[\"tuple\",{}]", ops),
                    AggregateKind::Array(_) => format!("[\"array\",{}]", ops),
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{},{}]", q(&self.cx.path(*d)), ops),
                    _ => format!("[\"agg\",{}]", ops),
                }
            }
            x => format!("[\"other\",{}]", q(&format!("{:?}", x))),
        }
    }

    fn body(&self) -> String {
        let tcx = self.cx.tcx;
        let b = self.body;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upvars = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
                else { upvars.push(format!("[{},{}]", q(&v.name.to_string()), self.place(&p))); }
            }
        }
        let locals = arr(b.local_decls.iter_enumerated().map(|(l, d)| format!("[{},{}]", self.cx.tyj(d.ty), names[l.as_usize()].as_ref().map(|n| q(n)).unwrap_or("null".into()))));
        let blocks = arr(b.basic_blocks.iter().map(|bb| {
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = self.cx.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => st.push(format!("[\"=\",{},{},{}]", self.place(&x.0), self.rv(&x.1), sp)),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"setdiscr\",{},{},{}]", self.place(place), variant_index.as_usize(), sp)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.cx.span(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"o\":{},\"sp\":{}}}",
                    self.op(discr), self.cx.tyj(discr.ty(b, tcx)),
                    arr(targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize()))), targets.otherwise().as_usize(), sp),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{},\"u\":{},\"sp\":{}}}", self.place(place), self.cx.tyj(place.ty(b, tcx).ty), target.as_usize(), uw(unwind), sp),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => format!("{{\"k\":\"call\",\"f\":{},\"a\":{},\"aty\":{},\"d\":{},\"dty\":{},\"t\":{},\"u\":{},\"sp\":{}}}",
                    self.op(func), arr(args.iter().map(|a| self.op(&a.node))), arr(args.iter().map(|a| self.cx.tyj(a.node.ty(b, tcx)))), self.place(destination), self.cx.tyj(destination.ty(b, tcx).ty),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), uw(unwind), sp),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"sp\":{}}}", self.op(cond), expected, q(match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds",
                    AssertKind::Overflow(BinOp::Sub, ..) => "sub", AssertKind::Overflow(BinOp::Add, ..) => "add", AssertKind::Overflow(..) => "overflow",
                    _ => "other" }), target.as_usize(), sp),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                x => format!("{{\"k\":\"other\",\"pp\":{}}}", q(&format!("{:?}", x))),
            };
            format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), term, bb.is_cleanup)
        }));
        let _ = self.owner;
        format!("{{\"argc\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}}}", b.arg_count, locals, arr(upvars), blocks)
    }
}

struct Cb { out: String, all: bool }

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let _ = self.all;
        let cx = Cx { tcx };
        let mut fns = Vec::new();
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut mods = Vec::new();
        let mut statics = Vec::new();
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let emit = |did: LocalDefId, kind: &str, fns: &mut Vec<String>| {
            let d = did.to_def_id();
            let env = TypingEnv::post_analysis(tcx, d);
            let (bodystr, prom) = {
                let is_const = !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
                let body = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
                let bs = B { cx: &cx, body, owner: d, env }.body();
                let pr = arr(tcx.promoted_mir(d).iter().map(|pb| B { cx: &cx, body: pb, owner: d, env }.body()));
                (bs, pr)
            };
            let vis = if matches!(tcx.def_kind(d), DefKind::Closure) { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) };
            let mut parent_impl = String::from("null");
            let mut ti = String::from("null");
            if let Some(i) = tcx.impl_of_assoc(d) {
                parent_impl = q(&cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip()));
                if let Some(t) = tcx.impl_opt_trait_ref(i) { ti = q(&cx.path(t.skip_binder().def_id)); }
            }
            let (sig, unsf) = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    let s = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    (format!("{{\"in\":{},\"out\":{}}}", arr(s.inputs().iter().map(|t| cx.tyj(*t))), cx.tyj(s.output())), s.safety().is_unsafe())
                }
                _ => ("null".into(), false),
            };
            let par = tcx.opt_parent(d).map(|p| cx.path(p)).unwrap_or_default();
            let trait_default = tcx.trait_of_assoc(d).map(|t| q(&cx.path(t))).unwrap_or("null".into());
            let nm = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            fns.push(format!("{{\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"vis\":{},\"self_ty\":{},\"impl_trait\":{},\"of_trait\":{},\"sig\":{},\"unsafe\":{},\"span\":{},\"body\":{},\"promoted\":{}}}",
                q(&cx.path(d)), q(&nm), q(kind), q(&par), q(&vis), parent_impl, ti, trait_default, sig, unsf, cx.span(tcx.def_span(d)), bodystr, prom));
        };
        let mut unsafes = Vec::new();
        for did in tcx.hir_body_owners() {
            let d = did.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Closure) {
                let body = tcx.hir_body_owned_by(did);
                let mut v = Unsafe { cx: &cx, tc: tcx.typeck_body(body.id()), depth: 0, ext: false, ops: vec![], out: vec![], owner: cx.path(d) };
                let _ = v.ext;
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe() { v.depth = 1; }
                rustc_hir::intravisit::Visitor::visit_expr(&mut v, body.value);
                if v.depth > 0 { let x = format!("{{\"in\":{},\"span\":{},\"external\":{},\"macro\":\"\",\"ops\":{}}}", q(&v.owner), cx.span(tcx.def_span(d)), tcx.def_span(d).from_expansion(), arr(v.ops.iter().map(|x| q(x)))); v.out.push(x); }
                unsafes.extend(v.out);
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => emit(did, "fn", &mut fns),
                DefKind::Closure => emit(did, "closure", &mut fns),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => emit(did, "const", &mut fns),
                DefKind::Static { .. } => emit(did, "static", &mut fns),
                _ => {}
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vs = arr(a.variants().iter().map(|v| format!("{{\"name\":{},\"fields\":{}}}", q(&v.name.to_string()),
                        arr(v.fields.iter().map(|f| format!("{{\"name\":{},\"ty\":{},\"parts\":{},\"vis\":{}}}", q(&f.name.to_string()), cx.tyj(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), cx.parts(d, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()), q(&format!("{:?}", tcx.visibility(f.did)))))))));
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    adts.push(format!("{{\"path\":{},\"send\":{},\"sync\":{},\"freeze\":{},\"kind\":\"{}\",\"vis\":{},\"variants\":{},\"span\":{}}}", q(&cx.path(d)), cx.auto(d, t, send), cx.auto(d, t, sync), t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)), if a.is_enum() { "enum" } else { "struct" }, q(&format!("{:?}", tcx.visibility(d))), vs, cx.span(tcx.def_span(d))));
                }
                DefKind::Impl { .. } => {
                    let t = tcx.impl_opt_trait_ref(d).map(|t| q(&cx.path(t.skip_binder().def_id))).unwrap_or("null".into());
                    let uns = tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe();
                    let neg = tcx.impl_opt_trait_ref(d).is_some() && matches!(tcx.impl_polarity(d), ty::ImplPolarity::Negative);
                    impls.push(format!("{{\"unsafe\":{},\"neg\":{},\"expanded\":{},\"trait\":{},\"self\":{},\"items\":{},\"span\":{}}}", uns, neg, tcx.def_span(d).from_expansion(), t, q(&cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
                        arr(tcx.associated_item_def_ids(d).iter().map(|x| q(&cx.path(*x)))), cx.span(tcx.def_span(d))));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!("{{\"path\":{},\"mut\":{},\"parts\":{},\"expanded\":{},\"span\":{}}}", q(&cx.path(d)), tcx.is_mutable_static(d), cx.parts(d, t), tcx.def_span(d).from_expansion(), cx.span(tcx.def_span(d))));
                }
                DefKind::Mod => mods.push(q(&cx.path(d))),
                _ => {}
            }
        }
        let js = format!("{{\"crate\":{},\"fns\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n],\"mods\":{},\"unsafe\":{},\"statics\":{}}}\n", q(&krate), fns.join(",\n"), adts.join(",\n"), impls.join(",\n"), arr(mods), arr(unsafes), arr(statics));
        std::fs::write(&self.out, js).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, ...]
    if args.len() > 1 && (args[1].ends_with("rustc")) { args.remove(1); }
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() { if a == "--crate-name" { name = it.next().cloned(); } }
    let dir = std::env::var("FALL_FACTS_DIR").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let ty = args.iter().position(|a| a == "--crate-type").map(|i| args[i + 1].clone()).unwrap_or_default();
    match name {
        Some(n) if !dir.is_empty() && n != "___" && n != "build_script_build" && !is_test => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir".into());
            args.push("-Coverflow-checks=on".into());
            let suffix = if ty == "bin" { ".bin" } else { "" };
            let out = format!("{}/{}{}.json", dir, n, suffix);
            rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out, all: true });
        }
        _ => rustc_driver_impl::compiler_entrypoint(&args, &mut Plain),
    }
}
