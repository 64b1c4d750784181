//! rustc driver: runs the normal compiler front end on one crate and writes the type-checked
//! program (MIR before borrowck lowering tricks: `mir_promoted`) plus item tables as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_index;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::fmt::Write as _;

thread_local! {
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>, Vec<Body<'static>>)>> = RefCell::new(Vec::new());
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let name = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        format!("{}:{}", name, l.line)
    }
    fn adt_id(&self, t: Ty<'tcx>) -> String {
        let t = t.peel_refs();
        match t.kind() {
            ty::Adt(a, _) => self.id(a.did()),
            _ => String::new(),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            out.push(',');
            match e {
                ProjectionElem::Deref => out.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut nm = String::new();
                    if let ty::Adt(a, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if a.is_struct() || a.is_enum() || a.is_union() {
                            if (vi.as_usize()) < a.variants().len() {
                                let v = a.variant(vi);
                                if let Some(fd) = v.fields.get(f) {
                                    nm = fd.name.to_string();
                                }
                            }
                        }
                    }
                    let _ = write!(out, "[\"f\",{},{}]", f.as_u32(), esc(&nm));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(out, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        out,
                        "[\"d\",{},{}]",
                        v.as_u32(),
                        esc(&n.map(|s| s.to_string()).unwrap_or_default())
                    );
                }
                _ => out.push_str("[\"o\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn fnref(&self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"id\":{},\"p\":{}", esc(&self.id(did)), esc(&self.pretty(did)));
        if args.len() > 0 {
            let _ = write!(
                o,
                ",\"ga\":{}",
                arr(args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(
                    &with_no_trimmed_paths!(format!("{}", a))
                )))
            );
        }
        let dk = tcx.def_kind(did);
        if matches!(dk, DefKind::AssocFn) {
            if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(o, ",\"tr\":{}", esc(&self.id(tr)));
                let st = args.type_at(0);
                let _ = write!(o, ",\"self\":{},\"selfadt\":{}", esc(&self.ty(st)), esc(&self.adt_id(st)));
                match st.peel_refs().kind() {
                    ty::Closure(d, _) | ty::Coroutine(d, _) => {
                        let _ = write!(o, ",\"selfcl\":{}", esc(&self.id(*d)));
                    }
                    _ => {}
                }
            } else if let Some(im) = tcx.inherent_impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self\":{},\"selfadt\":{}", esc(&self.ty(st)), esc(&self.adt_id(st)));
            }
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe()
        {
            let _ = write!(o, ",\"us\":1");
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn)
            && (did.is_local() || o.ends_with(",\"us\":1"))
            && args.types().next().is_some()
        {
            let _ = write!(o, ",\"gl\":{}", arr(args.types().map(|t| esc(&self.layout(env, t, 0)))));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, eargs) {
                let rd = inst.def_id();
                if rd != did {
                    let _ = write!(o, ",\"rid\":{}", esc(&self.id(rd)));
                }
                let _ = write!(o, ",\"rk\":{}", esc(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(..) => "shim",
                    _ => "other",
                }));
            }
        }
        o.push('}');
        o
    }

    /// Canonical name of a type's memory layout: wrappers with a transparent representation are looked through,
    /// slices and arrays keep their element's layout, signed integers are named like unsigned ones.
    fn layout(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "?".to_string();
        }
        match t.kind() {
            ty::Slice(e) => format!("[{}]", self.layout(env, *e, depth + 1)),
            ty::Array(e, n) => {
                format!("[{};{}]", self.layout(env, *e, depth + 1), with_no_trimmed_paths!(format!("{}", n)))
            }
            ty::Int(i) => i.name_str().replacen('i', "u", 1),
            ty::Uint(u) => u.name_str().to_string(),
            ty::RawPtr(e, _) => format!("*{}", self.layout(env, *e, depth + 1)),
            ty::Adt(a, args) if a.repr().transparent() && a.is_struct() => {
                for f in a.non_enum_variant().fields.iter() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx
                        .try_normalize_erasing_regions(env, ft)
                        .unwrap_or_else(|_| tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip());
                    let zst = ft.is_phantom_data() || matches!(ft.kind(), ty::Tuple(l) if l.is_empty());
                    if !zst {
                        return self.layout(env, ft, depth + 1);
                    }
                }
                self.ty(t)
            }
            _ => self.ty(t),
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().expect("fn def with bound vars");
                return format!("{{\"fn\":{}}}", self.fnref(env, *did, args));
            }
            _ => {}
        }
        let mut o = format!("{{\"c\":{}", esc(&self.ty(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{},\"defp\":{}", esc(&self.id(u.def)), esc(&self.pretty(u.def)));
            if let Some(st) = u.args.types().next() {
                let _ = write!(o, ",\"cs\":{}", esc(&self.ty(st)));
            }
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}", p.as_u32());
            }
        }
        if let Const::Ty(_, k) = c.const_ {
            let _ = write!(o, ",\"k\":{}", esc(&with_no_trimmed_paths!(format!("{}", k))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                let _ = write!(o, ",\"v\":{}", esc(&format!("{}", b)));
            }
        } else if t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                let f = if self.ty(t) == "f32" { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b as u64) };
                let _ = write!(o, ",\"fv\":{}", esc(&format!("{}", f)));
            }
        } else if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                let _ = write!(o, ",\"s\":{}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
            }
        }
        o.push('}');
        o
    }

    fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, c),
            #[allow(unreachable_patterns)]
            _ => "{\"o\":1}".to_string(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, env, o),
                esc(&with_no_trimmed_paths!(format!("{}", n)))
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                esc(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let mut x = format!("[\"cast\",{},{},{}", esc(&ks), self.operand(body, env, o), esc(&self.ty(*t)));
                if ks == "PtrToPtr" || ks == "Transmute" || ks.contains("Provenance") {
                    let st = o.ty(body, self.tcx);
                    let _ = write!(
                        x,
                        ",{},{},{}",
                        esc(&self.ty(st)),
                        esc(&self.layout(env, st, 0)),
                        esc(&self.layout(env, *t, 0))
                    );
                }
                x.push(']');
                x
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.operand(body, env, &ops.0),
                self.operand(body, env, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!(
                "[\"un\",{},{}]",
                esc(&format!("{:?}", u)),
                self.operand(body, env, o)
            ),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let a = self.tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        format!(
                            "{{\"k\":\"adt\",\"id\":{},\"v\":{},\"vn\":{},\"fields\":{},\"uf\":{}}}",
                            esc(&self.id(*d)),
                            v.as_u32(),
                            esc(vd.name.as_str()),
                            arr(vd.fields.iter().map(|f| esc(f.name.as_str()))),
                            f.map(|f| f.as_u32() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d)))
                    }
                    AggregateKind::Coroutine(d, _) => {
                        format!("{{\"k\":\"coroutine\",\"id\":{}}}", esc(&self.id(*d)))
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("{{\"k\":\"corclosure\",\"id\":{}}}", esc(&self.id(*d)))
                    }
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                };
                format!(
                    "[\"agg\",{},{}]",
                    kk,
                    arr(ops.iter().map(|o| self.operand(body, env, o)))
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(body, p)),
        }
    }

    fn body(&self, ld: LocalDefId, body: &Body<'tcx>, idsuf: &str) -> String {
        let tcx = self.tcx;
        let did = ld.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let dk = tcx.def_kind(did);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"id\":{},\"p\":{},\"dk\":{},\"span\":{}",
            esc(&format!("{}{}", self.id(did), idsuf)),
            esc(&self.pretty(did)),
            esc(&format!("{:?}", dk)),
            esc(&self.span(body.span))
        );
        let root = tcx.typeck_root_def_id(did);
        let _ = write!(o, ",\"root\":{}", esc(&self.id(root)));
        let parent = tcx.parent(did);
        let _ = write!(o, ",\"parent\":{}", esc(&self.id(parent)));
        let _ = write!(o, ",\"name\":{}", esc(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"async\":{}", tcx.asyncness(did).is_async());
            let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(
                o,
                ",\"sig\":{},\"ret\":{},\"unsafe\":{}",
                arr(sig.inputs().iter().map(|t| esc(&self.ty(*t)))),
                esc(&self.ty(sig.output())),
                sig.safety().is_unsafe()
            );
        }
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = write!(
                o,
                ",\"impl\":{},\"implself\":{},\"implselfadt\":{}",
                esc(&self.id(im)),
                esc(&self.ty(st)),
                esc(&self.adt_id(st))
            );
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(
                    o,
                    ",\"impltrait\":{},\"impltraitp\":{}",
                    esc(&self.id(tr.def_id)),
                    esc(&with_no_trimmed_paths!(format!("{}", tr)))
                );
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(root) {
            let _ = write!(o, ",\"intrait\":{}", esc(&self.id(tr)));
        }
        let gens = ty::GenericArgs::identity_for_item(tcx, root);
        let _ = write!(o, ",\"gen\":{}", arr(gens.types().map(|t| esc(&self.ty(t)))));
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        let _ = write!(
            o,
            ",\"locals\":{}",
            arr(body.local_decls.iter().map(|l| format!(
                "[{},{}]",
                esc(&self.ty(l.ty)),
                esc(&self.adt_id(l.ty))
            )))
        );
        let _ = write!(
            o,
            ",\"vars\":{}",
            arr(body.var_debug_info.iter().filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => Some(format!(
                    "[{},{}]",
                    esc(v.name.as_str()),
                    self.place(body, p)
                )),
                _ => None,
            }))
        );
        o.push_str(",\"blocks\":[");
        for (i, bb) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for s in &bb.statements {
                let line = self.span(s.source_info.span);
                let txt = match &s.kind {
                    StatementKind::Assign(b) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &b.0),
                        self.rvalue(body, env, &b.1),
                        esc(&line)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"sd\",{},{},{}]",
                        self.place(body, place),
                        variant_index.as_u32(),
                        esc(&line)
                    ),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let line = self.span(t.source_info.span);
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{},{}]",
                    self.operand(body, env, discr),
                    arr(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.as_u32()))),
                    targets.otherwise().as_u32(),
                    esc(&line)
                ),
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "[\"drop\",{},{}]",
                    self.place(body, place),
                    target.as_u32()
                ),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => format!(
                    "[\"call\",{},{},{},{},{},{},{}]",
                    self.operand(body, env, func),
                    arr(args.iter().map(|a| self.operand(body, env, &a.node))),
                    self.place(body, destination),
                    target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                    esc(&self.span(*fn_span)),
                    esc(&self.ty(destination.ty(body, tcx).ty)),
                    // written by the compiler or a macro of another crate
                    (t.source_info.span.desugaring_kind().is_some()
                        || t.source_info.span.in_external_macro(tcx.sess.source_map())) as u8
                ),
                TerminatorKind::TailCall { .. } => "[\"unreach\"]".to_string(),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "[\"assert\",{},{},{},{},{}]",
                    self.operand(body, env, cond),
                    expected,
                    target.as_u32(),
                    esc(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "div0",
                        _ => "other",
                    }),
                    esc(&line)
                ),
                TerminatorKind::Yield { value: _, resume, resume_arg, .. } => format!(
                    "[\"yield\",{},{}]",
                    resume.as_u32(),
                    self.place(body, resume_arg)
                ),
                TerminatorKind::CoroutineDrop => "[\"unreach\"]".to_string(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".to_string(),
            };
            o.push_str(&txt);
            let _ = write!(o, ",\"l\":{}}}", esc(&line));
        }
        o.push_str("]}");
        o
    }

    fn items(&self) -> String {
        let tcx = self.tcx;
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut traits = Vec::new();
        let mut consts = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let ds: Vec<String> = if a.is_enum() {
                        a.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else {
                        Vec::new()
                    };
                    let vs = arr(a.variants().iter().enumerate().map(|(vn, v)| {
                        format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(v.name.as_str()),
                            ds.get(vn).map(|d| esc(d)).unwrap_or("null".to_string()),
                            arr(v.fields.iter().map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!(
                                    "[{},{},{},{}]",
                                    esc(f.name.as_str()),
                                    esc(&self.ty(t)),
                                    esc(&self.adt_id(t)),
                                    esc(&format!("{:?}", f.vis))
                                )
                            }))
                        )
                    }));
                    adts.push(format!(
                        "{{\"id\":{},\"p\":{},\"transparent\":{},\"reprc\":{},\"variants\":{},\"span\":{}}}",
                        esc(&self.id(did)),
                        esc(&self.pretty(did)),
                        a.repr().transparent(),
                        a.repr().c(),
                        vs,
                        esc(&self.span(tcx.def_span(did)))
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut o = format!(
                        "{{\"id\":{},\"self\":{},\"selfadt\":{}",
                        esc(&self.id(did)),
                        esc(&self.ty(st)),
                        esc(&self.adt_id(st))
                    );
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        if tcx.impl_trait_header(did).safety.is_unsafe() {
                            o.push_str(",\"us\":1");
                        }
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(
                            o,
                            ",\"trait\":{},\"traitp\":{}",
                            esc(&self.id(tr.def_id)),
                            esc(&with_no_trimmed_paths!(format!("{}", tr)))
                        );
                    }
                    let its: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|it| {
                            let tyv = if matches!(it.kind, ty::AssocKind::Type { .. }) {
                                self.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())
                            } else {
                                String::new()
                            };
                            format!(
                                "{{\"id\":{},\"n\":{},\"ti\":{},\"ty\":{}}}",
                                esc(&self.id(it.def_id)),
                                esc(&it.opt_name().map(|s| s.to_string()).unwrap_or_default()),
                                esc(&it.trait_item_def_id().map(|d| self.id(d)).unwrap_or_default()),
                                esc(&tyv)
                            )
                        })
                        .collect();
                    let _ = write!(o, ",\"items\":{}}}", arr(its));
                    impls.push(o);
                }
                DefKind::Trait => {
                    let its: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|it| {
                            format!(
                                "{{\"id\":{},\"n\":{},\"def\":{}}}",
                                esc(&self.id(it.def_id)),
                                esc(&it.opt_name().map(|s| s.to_string()).unwrap_or_default()),
                                it.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!(
                        "{{\"id\":{},\"p\":{},\"items\":{}}}",
                        esc(&self.id(did)),
                        esc(&self.pretty(did)),
                        arr(its)
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let g = tcx.generics_of(did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut v = String::new();
                    if g.count() == 0 && tcx.hir_maybe_body_owned_by(ld).is_some() {
                        if let Ok(cv) = tcx.const_eval_poly(did) {
                            let env = TypingEnv::fully_monomorphized();
                            if let Some(b) = cv.try_to_bits_for_ty(tcx, env, t) {
                                v = if t.is_floating_point() {
                                    format!("{}", f64::from_bits(b as u64))
                                } else {
                                    format!("{}", b)
                                };
                            }
                        }
                    }
                    let parent_impl = tcx.impl_of_assoc(did).map(|im| self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip())).unwrap_or_default();
                    consts.push(format!(
                        "{{\"id\":{},\"p\":{},\"ty\":{},\"v\":{},\"implself\":{},\"span\":{}}}",
                        esc(&self.id(did)),
                        esc(&self.pretty(did)),
                        esc(&self.ty(t)),
                        esc(&v),
                        esc(&parent_impl),
                        esc(&self.span(tcx.def_span(did)))
                    ));
                }
                _ => {}
            }
        }
        format!(
            "\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"consts\":[{}]",
            adts.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            consts.join(",\n")
        )
    }
}


fn mir_promoted_hook<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_promoted)(tcx, d);
    let b: Body<'tcx> = r.0.borrow().clone();
    let ps: Vec<Body<'tcx>> = r.1.borrow().iter().cloned().collect();
    // SAFETY: bodies only reference data interned in `tcx`; they are consumed in
    // `after_analysis`, while the same `tcx` is alive.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    let ps: Vec<Body<'static>> = unsafe { std::mem::transmute(ps) };
    BODIES.with(|v| v.borrow_mut().push((d, b, ps)));
    r
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, providers| {
            providers.queries.mir_promoted = mir_promoted_hook;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let bodies = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
        let mut parts = Vec::new();
        for (d, b, ps) in bodies {
            let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
            parts.push(cx.body(d, &b, ""));
            for (i, p) in ps.into_iter().enumerate() {
                let p: Body<'tcx> = unsafe { std::mem::transmute(p) };
                parts.push(cx.body(d, &p, &format!("#promoted{}", i)));
            }
        }
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let text = format!(
            "{{\"crate\":{},\"bodies\":[\n{}\n],\n{}}}\n",
            esc(&krate),
            parts.join(",\n"),
            cx.items()
        );
        let ct = format!("{:?}", tcx.crate_types()).replace(|c: char| !c.is_alphanumeric(), "");
        let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
        let p = format!("{}/{}.{}-{}.json", self.out, pkg, krate, ct);
        std::fs::write(&p, text).expect("writing facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let out = std::env::var("VLINT_OUT").unwrap_or_default();
    let is_info = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) || !args.iter().any(|a| a == "--crate-name");
    let named = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if out.is_empty() || is_info || named == "build_script_build" || named == "___" {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    }
}
