//! rustc driver (used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`)
//! that dumps the type-checked program -- MIR with resolved callees, impls,
//! traits, ADTs -- of the crate being compiled as one JSON file.
//! No analysis happens here; the deciding steps are in /verif/absint.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

struct Cb;

fn main() {
    // argv: <wrapper> <rustc> <args..>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let out = std::env::var("MIRFACTS_OUT").ok();
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1] == want);
    if out.is_some() && is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zub-checks=no".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut d = Dump { tcx, s: String::new() };
        d.run();
        std::fs::write(std::env::var("MIRFACTS_OUT").unwrap(), &d.s).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    s: String,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ));
        p
    }
    fn did(&self, d: DefId) -> String {
        if d.is_local() {
            esc(&format!("L{}", d.index.as_usize()))
        } else {
            esc(&self.path(d))
        }
    }

    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            _ => match c.try_to_target_usize(self.tcx) {
                Some(n) => format!("{{\"k\":\"int\",\"v\":{}}}", n),
                None => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", c))),
            },
        }
    }

    fn gargs(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        list(a.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t)),
            ty::GenericArgKind::Const(c) => Some(format!("{{\"k\":\"const\",\"c\":{}}}", self.cst(c))),
            _ => None,
        }))
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        use rustc_middle::ty::*;
        match t.kind() {
            Bool => "{\"k\":\"bool\"}".into(),
            Char => "{\"k\":\"char\"}".into(),
            Str => "{\"k\":\"str\"}".into(),
            Never => "{\"k\":\"never\"}".into(),
            Int(_) | Uint(_) => format!("{{\"k\":\"int\",\"n\":{}}}", esc(&t.to_string())),
            Float(_) => format!("{{\"k\":\"float\",\"n\":{}}}", esc(&t.to_string())),
            Adt(d, a) => format!(
                "{{\"k\":\"adt\",\"p\":{},\"a\":{}}}",
                esc(&self.path(d.did())),
                self.gargs(a)
            ),
            Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), self.ty(*t)),
            Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(*t), self.cst(*n)),
            Tuple(ts) => format!("{{\"k\":\"tuple\",\"a\":{}}}", list(ts.iter().map(|t| self.ty(t)))),
            Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", esc(p.name.as_str()), p.index),
            FnDef(d, a) => format!("{{\"k\":\"fndef\",\"d\":{},\"p\":{},\"a\":{}}}", self.did(*d), esc(&self.path(*d)), self.gargs(a.no_bound_vars().unwrap_or(a.skip_binder()))),
            Closure(d, a) => format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", self.did(*d), self.gargs(a)),
            _ => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&t.to_string())),
        }
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let pr = list(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "{\"k\":\"deref\"}".to_string(),
            ProjectionElem::Field(f, _) => format!("{{\"k\":\"field\",\"i\":{}}}", f.as_usize()),
            ProjectionElem::Index(l) => format!("{{\"k\":\"index\",\"l\":{}}}", l.as_usize()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(
                "{{\"k\":\"cidx\",\"o\":{},\"m\":{},\"e\":{}}}", offset, min_length, from_end
            ),
            ProjectionElem::Subslice { from, to, from_end } => format!(
                "{{\"k\":\"sub\",\"f\":{},\"t\":{},\"e\":{}}}", from, to, from_end
            ),
            ProjectionElem::Downcast(_, v) => format!("{{\"k\":\"down\",\"v\":{}}}", v.as_usize()),
            other => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", other))),
        }));
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), pr)
    }

    fn constant(&self, body_def: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let env = TypingEnv::post_analysis(tcx, body_def);
        if let ty::TyKind::FnDef(d, a) = t.kind() {
            return format!("{{\"c\":\"fn\",\"f\":{}}}", self.callee(body_def, *d, a.no_bound_vars().unwrap_or(a.skip_binder())));
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    return format!(
                        "{{\"c\":\"promoted\",\"d\":{},\"i\":{},\"t\":{}}}",
                        self.did(u.def), p.as_usize(), tj
                    );
                }
                let ev = c.const_.try_eval_scalar_int(tcx, env);
                let v = match ev {
                    Some(i) => esc(&format!("{}", self.scalar(i, t))),
                    None => "null".into(),
                };
                format!("{{\"c\":\"named\",\"p\":{},\"a\":{},\"v\":{},\"t\":{}}}", esc(&self.path(u.def)), self.gargs(u.args), v, tj)
            }
            mir::Const::Ty(_, ct) => format!("{{\"c\":\"ty\",\"v\":{},\"t\":{}}}", self.cst(ct), tj),
            mir::Const::Val(v, _) => match v {
                ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{}}}", tj),
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", esc(&self.scalar(i, t)), tj)
                    } else {
                        // pointer: try to read the pointee bytes (e.g. &[u8; N] templates)
                        let mut bytes = None;
                        if let mir::interpret::Scalar::Ptr(p, _) = s {
                            let (prov, off) = p.into_raw_parts();
                            if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                let a = a.inner();
                                if a.provenance().ptrs().is_empty() {
                                    let lo = off.bytes_usize();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..a.len());
                                    bytes = Some(b.to_vec());
                                }
                            }
                        }
                        match bytes {
                            Some(b) => format!("{{\"c\":\"bytes\",\"v\":{},\"t\":{}}}", list(b.iter().map(|x| x.to_string())), tj),
                            None => format!("{{\"c\":\"ptr\",\"t\":{}}}", tj),
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx);
                    match b {
                        Some(b) => format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", list(b.iter().map(|x| x.to_string())), tj),
                        None => format!("{{\"c\":\"slice\",\"t\":{}}}", tj),
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let mut bytes = None;
                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                            bytes = Some(b.to_vec());
                        }
                    }
                    match bytes {
                        Some(b) => format!("{{\"c\":\"bytes\",\"v\":{},\"t\":{}}}", list(b.iter().map(|x| x.to_string())), tj),
                        None => format!("{{\"c\":\"indirect\",\"t\":{}}}", tj),
                    }
                }
            },
        }
    }

    fn scalar(&self, i: ty::ScalarInt, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::TyKind::Int(_) => i.to_int(i.size()).to_string(),
            ty::TyKind::Float(f) => {
                let bits = i.to_bits(i.size());
                match f.bit_width() {
                    32 => format!("{:?}", f32::from_bits(bits as u32)),
                    64 => format!("{:?}", f64::from_bits(bits as u64)),
                    _ => bits.to_string(),
                }
            }
            _ => i.to_bits(i.size()).to_string(),
        }
    }

    fn callee(&self, body_def: DefId, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, body_def);
        let tr = tcx.trait_of_assoc(d);
        let mut res = "null".to_string();
        let mut rargs = "[]".to_string();
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
            res = self.did(inst.def_id());
            rargs = self.gargs(inst.args);
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        format!(
            "{{\"d\":{},\"p\":{},\"n\":{},\"tr\":{},\"a\":{},\"r\":{},\"ra\":{}}}",
            self.did(d),
            esc(&self.path(d)),
            esc(&name),
            tr.map(|t| esc(&self.path(t))).unwrap_or("null".into()),
            self.gargs(a),
            res,
            rargs
        )
    }

    fn operand(&self, bd: DefId, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.constant(bd, c)),
            #[allow(unreachable_patterns)]
            other => format!("{{\"o\":\"other\",\"d\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn rvalue(&self, bd: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(bd, o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(bd, o), self.cst(*n)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"rawptr\",\"m\":{},\"p\":{}}}", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", op)), self.operand(bd, a), self.operand(bd, b))
            }
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(bd, a)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{}}}",
                esc(&format!("{:?}", k)), self.operand(bd, o), self.ty(*t)
            ),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, a, _, _) => format!(
                        "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"a\":{}}}", esc(&self.path(*d)), v.as_usize(), self.gargs(a)
                    ),
                    AggregateKind::Closure(d, a) => format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", self.did(*d), self.gargs(a)),
                    o => format!("{{\"k\":\"other\",\"d\":{}}}", esc(&format!("{:?}", o))),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"a\":{}}}", kk, list(ops.iter().map(|o| self.operand(bd, o))))
            }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            other => format!("{{\"r\":\"other\",\"d\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, lo.line)
    }

    fn body(&self, bd: DefId, b: &Body<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "{{\"argc\":{},\"locals\":{},", b.arg_count, list(b.local_decls.iter().map(|l| self.ty(l.ty))));
        let names = list(b.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                Some(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())))
            }
            _ => None,
        }));
        let _ = write!(o, "\"names\":{},\"blocks\":[", names);
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
            let mut first = true;
            for st in &bb.statements {
                let j = match &st.kind {
                    StatementKind::Assign(ab) => {
                        let (p, r) = &**ab;
                        format!("{{\"p\":{},\"r\":{},\"ln\":{}}}", self.place(p), self.rvalue(bd, r), esc(&self.span(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("{{\"setd\":{},\"v\":{}}}", self.place(place), variant_index.as_usize())
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&j);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ln = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = list(targets.iter().map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t.as_usize())));
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"dt\":{},\"v\":{},\"o\":{}}}",
                        self.operand(bd, discr),
                        self.ty(discr.ty(b, self.tcx)),
                        v,
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"k\":\"drop\",\"p\":{},\"t\":{}}}", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => format!(
                    "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{}}}",
                    self.operand(bd, func),
                    list(args.iter().map(|a| self.operand(bd, &a.node))),
                    self.place(destination),
                    target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        o => format!("other:{:?}", o),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{}}}",
                        self.operand(bd, cond), expected, esc(&m), target.as_usize()
                    )
                }
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"}".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                other => format!("{{\"k\":\"other\",\"x\":{}}}", esc(&format!("{:?}", other))),
            };
            o.push_str(&tj);
            let _ = write!(o, ",\"ln\":{}}}", ln);
        }
        o.push_str("]}");
        o
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},", esc(tcx.crate_name(LOCAL_CRATE).as_str()));
        // bodies
        let mut first = true;
        o.push_str("\"fns\":{");
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let body = tcx.optimized_mir(d);
            let parent = tcx.opt_parent(d);
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let gens = tcx.generics_of(d);
            let mut gnames = vec![];
            let mut g = Some(gens);
            while let Some(gg) = g {
                let mut v: Vec<(u32, String)> = gg
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| (p.index, p.name.to_string()))
                    .collect();
                v.append(&mut gnames);
                gnames = v;
                g = gg.parent.map(|p| tcx.generics_of(p));
            }
            let vis = if k == DefKind::Closure { "closure".to_string() } else {
                if tcx.effective_visibilities(()).is_reachable(*ld) { "pub".into() } else { "priv".to_string() }
            };
            let proms = if k == DefKind::Closure || true {
                list(tcx.promoted_mir(d).iter().map(|p| self.body(d, p)))
            } else { "[]".into() };
            let unsafe_ = if k == DefKind::Closure { false } else { tcx.fn_sig(d).skip_binder().safety().is_unsafe() };
            let _ = write!(
                o,
                "{}:{{\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"span\":{},\"vis\":{},\"unsafe\":{},\"gens\":{},\"body\":{},\"prom\":{}}}\n",
                self.did(d),
                esc(&self.path(d)),
                esc(&name),
                esc(&format!("{:?}", k)),
                parent.map(|p| self.did(p)).unwrap_or("null".into()),
                esc(&self.span(tcx.def_span(d))),
                esc(&vis),
                unsafe_,
                list(gnames.iter().map(|(i, n)| format!("[{},{}]", i, esc(n)))),
                self.body(d, body),
                proms
            );
        }
        o.push_str("},");
        // impls
        o.push_str("\"impls\":{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let self_ty = tcx.type_of(d).instantiate_identity();
            let self_ty = self_ty.skip_norm_wip();
            let (tp, ta) = match tcx.impl_opt_trait_ref(d) {
                Some(tr) => {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    (esc(&self.path(tr.def_id)), self.gargs(tr.args))
                }
                None => ("null".into(), "[]".into()),
            };
            let items = tcx.associated_items(d);
            let its = list(items.in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. })).map(|i| {
                format!("[{},{}]", esc(i.name().as_str()), self.did(i.def_id))
            }));
            let derived = tcx.is_automatically_derived(d);
            let _ = write!(
                o,
                "{}:{{\"trait\":{},\"targs\":{},\"self\":{},\"items\":{},\"span\":{},\"derived\":{}}}\n",
                self.did(d), tp, ta, self.ty(self_ty), its, esc(&self.span(tcx.def_span(d))), derived
            );
        }
        o.push_str("},\"traits\":{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Trait) {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let items = tcx.associated_items(d);
            let its = list(items.in_definition_order().filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. })).map(|i| {
                format!("[{},{},{}]", esc(i.name().as_str()), self.did(i.def_id), i.defaultness(tcx).has_value())
            }));
            let _ = write!(o, "{}:{{\"path\":{},\"items\":{}}}\n", self.did(d), esc(&self.path(d)), its);
        }
        o.push_str("},\"adts\":{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            let a = tcx.adt_def(d);
            let vs = list(a.variants().iter().map(|v| {
                format!(
                    "{{\"n\":{},\"f\":{}}}",
                    esc(v.name.as_str()),
                    list(v.fields.iter().map(|f| format!(
                        "[{},{},{}]",
                        esc(f.name.as_str()),
                        self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                        esc(if f.vis.is_public() { "pub" } else { "priv" })
                    )))
                )
            }));
            let _ = write!(o, "{}:{{\"path\":{},\"variants\":{},\"span\":{}}}\n", self.did(d), esc(&self.path(d)), vs, esc(&self.span(tcx.def_span(d))));
        }
        o.push_str("}}");
        self.s = o;
    }
}
