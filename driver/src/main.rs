//! acorn-facts: a rustc driver that dumps what the checks in /verif analyse.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, so it sees the
//! same crate, features and dependencies as the real build.  For every body owner of the
//! `acorn` package it writes the MIR as first built (before borrow checking and drop
//! elaboration), with resolved callees, named fields and named variants; for every ADT it
//! writes fields, variants and attributes; and for every impl, the trait and the self type.
#![feature(rustc_private)]

extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_structures;
extern crate rustc_driver_impl;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::Mutex;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Stored(Vec<(LocalDefId, Body<'static>)>);
unsafe impl Send for Stored {}
static BODIES: Mutex<Stored> = Mutex::new(Stored(Vec::new()));

fn mir_built_hook<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let original = rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_built;
    let steal = original(tcx, def);
    let body: Body<'tcx> = steal.borrow().clone();
    // The stored bodies are only read in after_analysis, while the same tcx is alive.
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.lock().unwrap().0.push((def, body));
    steal
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<String, usize>,
}

struct BodyCx<'a, 'tcx> {
    body: &'a Body<'tcx>,
    def: LocalDefId,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dumper<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let s = with_no_trimmed_paths!(format!("{}", t));
        self.intern(s)
    }

    fn intern(&mut self, s: String) -> usize {
        if let Some(&i) = self.type_ids.get(&s) {
            return i;
        }
        let i = self.types.len();
        self.types.push(s.clone());
        self.type_ids.insert(s, i);
        i
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn line(&self, sp: Span) -> (String, usize, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = format!(
            "{}",
            lo.file
                .name
                .display(rustc_span::RemapPathScopeComponents::DIAGNOSTICS)
        );
        (name, lo.line, hi.line)
    }

    fn ln(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn fnref(&mut self, cx: &BodyCx<'_, 'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let mut res = String::new();
        if tcx.def_kind(d) == DefKind::AssocFn || tcx.def_kind(d) == DefKind::Fn {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, cx.env, d, eargs) {
                let p = self.path(inst.def_id());
                if p != path {
                    res = p;
                }
            }
        }
        let mut tys = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                tys.push(self.ty(t).to_string());
            }
        }
        // the closure or fn item a generic argument names, if any
        format!(
            "{{\"f\":{},\"r\":{},\"a\":[{}],\"l\":{}}}",
            esc(&path),
            esc(&res),
            tys.join(","),
            if d.is_local() { 1 } else { 0 }
        )
    }

    fn konst(&mut self, cx: &BodyCx<'_, 'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            return format!("[\"f\",{}]", self.fnref(cx, *d, args));
        }
        let tcx = self.tcx;
        let ti = self.ty(t);
        let mut val: Option<String> = None;
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Const::Unevaluated(u, _) = c.const_ {
                    let p = self.path(u.def);
                    let v = c
                        .const_
                        .try_eval_bits(tcx, cx.env)
                        .map(|b| b.to_string())
                        .unwrap_or_else(|| "?".to_string());
                    return format!("[\"n\",{},{},{}]", esc(&p), ti, esc(&v));
                }
                if let Some(b) = c.const_.try_eval_bits(tcx, cx.env) {
                    val = Some(b.to_string());
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Const::Val(v, _) = c.const_ {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(bytes).to_string();
                        return format!("[\"s\",{}]", esc(&s));
                    }
                }
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let p = self.path(u.def);
            let prom = if u.promoted.is_some() { 1 } else { 0 };
            let _ = prom;
            return format!("[\"n\",{},{},\"?\"]", esc(&p), ti);
        }
        let s = val.unwrap_or_else(|| with_no_trimmed_paths!(format!("{}", c.const_)));
        format!("[\"k\",{},{}]", esc(&s), ti)
    }

    fn place(&mut self, cx: &BodyCx<'_, 'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        if p.projection.is_empty() {
            return format!("{}", p.local.as_usize());
        }
        let mut out = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(cx.body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            match elem {
                ProjectionElem::Deref => out.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pty.variant_index {
                                Some(v) => Some(adt.variant(v)),
                                None if adt.is_struct() || adt.is_union() => {
                                    Some(adt.non_enum_variant())
                                }
                                None => None,
                            };
                            if let Some(v) = v {
                                name = v.fields[f].name.to_string();
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let names = tcx.closure_saved_names_of_captured_variables(*d);
                            if let Some(n) = names.get(f) {
                                name = format!("^{}:{}", f.as_usize(), n);
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(out, ",{}", esc(&format!(".{}", name)));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, ",\"[{}\"", l.as_usize());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(
                        out,
                        ",\"#{}{}\"",
                        if from_end { "-" } else { "" },
                        offset
                    );
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, ",\"%{}:{}{}\"", from, if from_end { "-" } else { "" }, to);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(out, ",{}", esc(&format!("@{}", name)));
                }
                _ => out.push_str(",\"?\""),
            }
            pty = pty.projection_ty(tcx, elem);
        }
        out.push(']');
        out
    }

    fn operand(&mut self, cx: &BodyCx<'_, 'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(cx, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(cx, p)),
            Operand::Constant(c) => self.konst(cx, c),
            _ => "[\"k\",\"true\",0]".to_string(),
        }
    }

    fn rvalue(&mut self, cx: &BodyCx<'_, 'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(cx, o)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(cx, o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => 1,
                    BorrowKind::Shared => 0,
                    _ => 2,
                };
                format!("[\"ref\",{},{}]", m, self.place(cx, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(cx, p)),
            Rvalue::Cast(_, o, t) => {
                let o = self.operand(cx, o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{}]", o, t)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(cx, &ab.0);
                let b = self.operand(cx, &ab.1);
                let unsigned = matches!(ab.0.ty(&cx.body.local_decls, self.tcx).kind(), ty::Uint(_));
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, a, b, unsigned)
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(cx, a);
                format!("[\"un\",\"{:?}\",{}]", op, a)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&cx.body.local_decls, self.tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(adt, _) => self.path(adt.did()),
                    _ => String::new(),
                };
                let p = self.place(cx, p);
                format!("[\"disc\",{},{}]", p, esc(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops_s: Vec<String> = ops.iter().map(|o| self.operand(cx, o)).collect();
                let (kind, name, variant, fields) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let mut names: Vec<String> =
                            var.fields.iter().map(|f| f.name.to_string()).collect();
                        if let Some(a) = active {
                            names = vec![var.fields[*a].name.to_string()];
                        }
                        ("adt", self.path(*d), var.name.to_string(), names)
                    }
                    AggregateKind::Closure(d, _) => {
                        ("closure", self.path(*d), String::new(), vec![])
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        ("coroutine", self.path(*d), String::new(), vec![])
                    }
                    _ => ("other", String::new(), String::new(), vec![]),
                };
                let f: Vec<String> = fields.iter().map(|f| esc(f)).collect();
                format!(
                    "[\"agg\",\"{}\",{},{},[{}],[{}]]",
                    kind,
                    esc(&name),
                    esc(&variant),
                    f.join(","),
                    ops_s.join(",")
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(cx, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(cx, o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(cx, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        let kind = tcx.def_kind(def.to_def_id());
        let env = TypingEnv::post_analysis(tcx, def);
        let cx = BodyCx { body, def, env };
        let path = self.path(def.to_def_id());
        let (file, lo, hi) = self.line(body.span);
        let kind_s = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => {
                if body.coroutine.is_some() {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
            DefKind::Static { .. } => "static",
            DefKind::AnonConst => "anon",
            _ => "other",
        };
        let parent = tcx.typeck_root_def_id(def.to_def_id());
        let mut extra = String::new();
        if let DefKind::AssocFn = kind {
            let parent_impl = tcx.parent(def.to_def_id());
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent_impl) {
                let selfty = tcx.type_of(parent_impl).instantiate_identity().skip_norm_wip();
                let st = with_no_trimmed_paths!(format!("{}", selfty));
                let tr = if of_trait {
                    let t = tcx.impl_trait_ref(parent_impl);
                    with_no_trimmed_paths!(format!(
                        "{}",
                        t.instantiate_identity().skip_norm_wip().print_only_trait_path()
                    ))
                } else {
                    String::new()
                };
                let auto = tcx.is_automatically_derived(parent_impl);
                let _ = write!(
                    extra,
                    ",\"self\":{},\"trait\":{},\"derived\":{}",
                    esc(&st),
                    esc(&tr),
                    if auto { 1 } else { 0 }
                );
            }
        }
        let vis = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            if tcx.visibility(def.to_def_id()).is_public() {
                1
            } else {
                0
            }
        } else {
            0
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let ps = self.place(&cx, p);
                    upnames.push(format!("[{},{}]", esc(v.name.as_str()), ps));
                }
            }
        }
        let _ = write!(
            out,
            "{{\"path\":{},\"kind\":\"{}\",\"root\":{},\"file\":{},\"lo\":{},\"hi\":{},\"pub\":{}{},\"args\":{},\"locals\":[",
            esc(&path),
            kind_s,
            esc(&self.path(parent)),
            esc(&file),
            lo,
            hi,
            vis,
            extra,
            body.arg_count
        );
        for (i, d) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                out.push(',');
            }
            let t = self.ty(d.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(out, "[{},{}]", t, esc(n));
                }
                None => {
                    let _ = write!(out, "[{}]", t);
                }
            }
        }
        let _ = write!(out, "],\"up\":[{}],\"blocks\":[", upnames.join(","));
        // unwinding blocks are left out: keep only what is reachable along normal edges
        let mut keep = vec![false; body.basic_blocks.len()];
        let mut stack = vec![START_BLOCK];
        while let Some(b) = stack.pop() {
            if keep[b.as_usize()] {
                continue;
            }
            keep[b.as_usize()] = true;
            for s in self.normal_succ(&body.basic_blocks[b]) {
                stack.push(s);
            }
        }
        let mut remap = vec![usize::MAX; body.basic_blocks.len()];
        let mut n = 0;
        for b in body.basic_blocks.indices() {
            if keep[b.as_usize()] {
                remap[b.as_usize()] = n;
                n += 1;
            }
        }
        let mut first = true;
        for (b, data) in body.basic_blocks.iter_enumerated() {
            if !keep[b.as_usize()] {
                continue;
            }
            if !first {
                out.push(',');
            }
            first = false;
            out.push_str("[[");
            let mut fs = true;
            for s in &data.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&cx, &pr.0);
                        let r = self.rvalue(&cx, &pr.1);
                        format!("[{},{},{}]", p, r, self.ln(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => {
                        let p = self.place(&cx, place);
                        format!(
                            "[{},[\"setdisc\",{}],{}]",
                            p,
                            variant_index.as_usize(),
                            self.ln(s.source_info.span)
                        )
                    }
                    _ => continue,
                };
                if !fs {
                    out.push(',');
                }
                fs = false;
                out.push_str(&txt);
            }
            out.push_str("],");
            let term = data.terminator();
            let l = self.ln(term.source_info.span);
            let rm = |b: BasicBlock| remap[b.as_usize()];
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", rm(*target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(&cx, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(dt);
                    let mut arms = Vec::new();
                    for (v, b) in targets.iter() {
                        arms.push(format!("[{},{}]", esc(&v.to_string()), rm(b)));
                    }
                    format!(
                        "[\"switch\",{},[{}],{},{}]",
                        o,
                        arms.join(","),
                        rm(targets.otherwise()),
                        ti
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(&cx, place);
                    format!("[\"drop\",{},{}]", p, rm(*target))
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => {
                    let f = self.operand(&cx, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&cx, &a.node)).collect();
                    let d = self.place(&cx, destination);
                    let tg = match target {
                        Some(t) => rm(*t).to_string(),
                        None => "null".to_string(),
                    };
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), d, tg)
                }
                TerminatorKind::Assert {
                    cond,
                    expected,
                    target,
                    ..
                } => {
                    let o = self.operand(&cx, cond);
                    format!("[\"assert\",{},{},{}]", o, expected, rm(*target))
                }
                TerminatorKind::Yield { resume, value, .. } => {
                    let o = self.operand(&cx, value);
                    format!("[\"yield\",{},{}]", rm(*resume), o)
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", rm(*real_target))
                }
                _ => "[\"unreach\"]".to_string(),
            };
            let _ = write!(out, "{},{}]", t, l);
        }
        out.push_str("]}");
        let _ = cx.def;
    }

    fn normal_succ(&self, data: &BasicBlockData<'tcx>) -> Vec<BasicBlock> {
        match &data.terminator().kind {
            TerminatorKind::Goto { target, .. } => vec![*target],
            TerminatorKind::SwitchInt { targets, .. } => targets.all_targets().to_vec(),
            TerminatorKind::Drop { target, .. } => vec![*target],
            TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
            TerminatorKind::Assert { target, .. } => vec![*target],
            TerminatorKind::Yield { resume, .. } => vec![*resume],
            TerminatorKind::FalseEdge { real_target, .. }
            | TerminatorKind::FalseUnwind { real_target, .. } => vec![*real_target],
            _ => vec![],
        }
    }

    fn attrs(&self, id: LocalDefId) -> String {
        let hid = self.tcx.local_def_id_to_hir_id(id);
        let mut v = Vec::new();
        for a in self.tcx.hir_attrs(hid) {
            if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                let s = self
                    .tcx
                    .sess
                    .source_map()
                    .span_to_snippet(item.span)
                    .unwrap_or_default();
                v.push(esc(&s));
            }
        }
        format!("[{}]", v.join(","))
    }

    fn adts(&mut self, out: &mut String) {
        let tcx = self.tcx;
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let kind = tcx.def_kind(id.to_def_id());
            if !matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let adt = tcx.adt_def(id.to_def_id());
            let (file, lo, _) = self.line(tcx.def_span(id.to_def_id()));
            if !first {
                out.push(',');
            }
            first = false;
            let _ = write!(
                out,
                "{{\"path\":{},\"kind\":\"{}\",\"file\":{},\"lo\":{},\"attrs\":{},\"variants\":[",
                esc(&self.path(id.to_def_id())),
                if adt.is_enum() { "enum" } else { "struct" },
                esc(&file),
                lo,
                self.attrs(id)
            );
            for (i, (vi, v)) in adt.variants().iter_enumerated().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                let disc = if adt.is_enum() {
                    adt.discriminant_for_variant(tcx, vi).val.to_string()
                } else {
                    "0".to_string()
                };
                let va = v.def_id.as_local().filter(|_| adt.is_enum());
                let attrs = va.map(|d| self.attrs(d)).unwrap_or("[]".to_string());
                let _ = write!(
                    out,
                    "{{\"name\":{},\"disc\":{},\"attrs\":{},\"fields\":[",
                    esc(v.name.as_str()),
                    esc(&disc),
                    attrs
                );
                for (j, f) in v.fields.iter().enumerate() {
                    if j > 0 {
                        out.push(',');
                    }
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let p = tcx.visibility(f.did).is_public();
                    let _ = write!(
                        out,
                        "[{},{},{},{}]",
                        esc(f.name.as_str()),
                        ti,
                        if p { 1 } else { 0 },
                        self.attrs(f.did.expect_local())
                    );
                }
                out.push_str("]}");
            }
            out.push_str("]}");
        }
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_some() {
            config.override_queries = Some(|_sess, providers| {
                providers.queries.mir_built = mir_built_hook;
            });
        }
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Some(dir) = &self.out else {
            return Compilation::Continue;
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| matches!(t, rustc_structures::CrateType::Executable));
        let stored = std::mem::take(&mut BODIES.lock().unwrap().0);
        let mut stored: Vec<(LocalDefId, Body<'tcx>)> = unsafe { std::mem::transmute(stored) };
        stored.sort_by_key(|(d, _)| d.local_def_index.as_u32());
        let mut d = Dumper {
            tcx,
            types: Vec::new(),
            type_ids: HashMap::new(),
        };
        let mut out = String::new();
        let _ = write!(
            out,
            "{{\"crate\":{},\"bin\":{},\"fns\":[\n",
            esc(&name),
            is_bin
        );
        for (i, (def, body)) in stored.iter().enumerate() {
            if i > 0 {
                out.push_str(",\n");
            }
            d.body(*def, body, &mut out);
        }
        out.push_str("\n],\"adts\":[");
        d.adts(&mut out);
        out.push_str("],\"types\":[");
        for (i, t) in d.types.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            out.push_str(&esc(t));
        }
        out.push_str("]}\n");
        let file = format!("{}/{}-{}.json", dir, if is_bin { "bin" } else { "lib" }, name);
        std::fs::write(&file, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    args.remove(0);
    if args.is_empty() {
        eprintln!("acorn-facts is a rustc wrapper");
        std::process::exit(2);
    }
    let mut dump = std::env::var("VP_FACTS_OUT").ok();
    let mut it = args.iter();
    let mut crate_name = String::new();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned().unwrap_or_default();
        }
    }
    if crate_name.is_empty() || crate_name == "build_script_build" || crate_name == "___" {
        dump = None;
    }
    let mut cb = Cb { out: dump };
    rustc_driver_impl::compiler_entrypoint(&args, &mut cb);
}
