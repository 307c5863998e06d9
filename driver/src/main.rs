//! `mirfacts`: a rustc driver that dumps, for every body of the crate being
//! compiled, the *built* MIR (before borrow checking, optimisation or the
//! coroutine transform) with resolved callees, plus ADT and impl tables.
//! The output is one JSON object per line; `/verif/engine` reads it.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_middle::ty::print::with_no_trimmed_paths;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t)))
    }

    /// Canonical path of an ADT, trait, free function, constant...
    fn path(&self, d: DefId) -> String {
        let mut s = self.tcx.crate_name(d.krate).to_string();
        for e in self.tcx.def_path(d).data {
            use rustc_hir::definitions::DefPathData::*;
            match e.data {
                TypeNs(n) | ValueNs(n) | MacroNs(n) => {
                    s.push_str("::");
                    s.push_str(n.as_str());
                }
                Closure => {
                    write!(s, "::{{closure#{}}}", e.disambiguator).unwrap();
                }
                Ctor => s.push_str("::{ctor}"),
                Impl => {
                    write!(s, "::{{impl#{}}}", e.disambiguator).unwrap();
                }
                other => {
                    write!(s, "::{{{:?}#{}}}", std::mem::discriminant(&other), e.disambiguator).unwrap();
                }
            }
        }
        s
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            TyKind::Ref(_, t, m) => {
                if m.is_mut() {
                    format!("&mut {}", self.head(*t))
                } else {
                    format!("&{}", self.head(*t))
                }
            }
            TyKind::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.head(t)).collect();
                format!("({})", v.join(","))
            }
            TyKind::Slice(t) => format!("[{}]", self.head(*t)),
            TyKind::Dynamic(..) => "dyn".to_string(),
            TyKind::Closure(d, _) | TyKind::Coroutine(d, _) => self.key(*d),
            _ => self.ty_str(t),
        }
    }

    /// Stable identity of a function: independent of impl numbering.
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let p = tcx.parent(d);
                let dis = tcx.def_path(d).data.last().unwrap().disambiguator;
                return format!("{}::{{closure#{}}}", self.key(p), dis);
            }
            _ => {}
        }
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    let trait_args: Vec<String> = tr
                        .args
                        .types()
                        .skip(1)
                        .map(|t| self.head(t))
                        .collect();
                    let ta = if trait_args.is_empty() {
                        String::new()
                    } else {
                        format!("<{}>", trait_args.join(","))
                    };
                    return format!(
                        "<{} as {}{}>::{}",
                        self.head(self_ty),
                        self.path(tr.def_id),
                        ta,
                        name
                    );
                } else {
                    return format!("{}::{}", self.head(self_ty), name);
                }
            }
            // nested items inside an impl'd fn
            if matches!(tcx.def_kind(p), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
                return format!("{}::{}", self.key(p), name);
            }
        }
        self.path(d)
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize, bool) {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().into_owned(),
                None => "?".into(),
            },
            _ => "?".into(),
        };
        (f, loc.line, exp)
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("{{\"l\":{}", p.local.as_usize());
        if !p.projection.is_empty() {
            s.push_str(",\"p\":[");
            let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
            for (i, e) in p.projection.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                match e {
                    ProjectionElem::Deref => s.push_str("[\"d\"]"),
                    ProjectionElem::Field(f, _) => {
                        let (name, adt) = match pty.ty.kind() {
                            TyKind::Adt(a, _) => {
                                let v = match pty.variant_index {
                                    Some(v) => a.variant(v),
                                    None => {
                                        if a.is_enum() {
                                            a.variant(rustc_abi::VariantIdx::from_u32(0))
                                        } else {
                                            a.non_enum_variant()
                                        }
                                    }
                                };
                                (v.fields[f].name.to_string(), self.path(a.did()))
                            }
                            TyKind::Closure(d, _) | TyKind::Coroutine(d, _) => {
                                let name = d
                                    .as_local()
                                    .and_then(|l| {
                                        tcx.closure_captures(l)
                                            .get(f.as_usize())
                                            .map(|c| c.to_string(tcx))
                                    })
                                    .unwrap_or_else(|| f.as_usize().to_string());
                                (name, "upvar".to_string())
                            }
                            _ => (f.as_usize().to_string(), String::new()),
                        };
                        write!(s, "[\"f\",{},{}]", esc(&name), esc(&adt)).unwrap();
                    }
                    ProjectionElem::Downcast(_, v) => {
                        let name = match pty.ty.kind() {
                            TyKind::Adt(a, _) => a.variant(v).name.to_string(),
                            _ => format!("{}", v.as_usize()),
                        };
                        write!(s, "[\"v\",{}]", esc(&name)).unwrap();
                    }
                    ProjectionElem::Index(l) => write!(s, "[\"i\",{}]", l.as_usize()).unwrap(),
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        write!(s, "[\"c\",{},{}]", offset, from_end).unwrap()
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        write!(s, "[\"s\",{},{},{}]", from, to, from_end).unwrap()
                    }
                    _ => s.push_str("[\"o\"]"),
                }
                pty = pty.projection_ty(tcx, e);
            }
            s.push(']');
        }
        s.push('}');
        s
    }

    fn fndef(&self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let key = self.key(d);
        let targs: Vec<String> = args.types().map(|t| esc(&self.ty_str(t))).collect();
        let mut s = format!("{{\"fn\":{},\"ta\":[{}]", esc(&key), targs.join(","));
        if d.is_local() {
            s.push_str(",\"loc\":1");
        }
        let tr = tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            write!(s, ",\"tr\":{}", esc(&self.path(t))).unwrap();
            if let Some(t0) = args.types().next() {
                write!(s, ",\"self\":{}", esc(&self.head(t0))).unwrap();
            }
            let env = TypingEnv::non_body_analysis(tcx, owner);
            let norm = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args));
            if let Ok(nargs) = norm {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, nargs) {
                    let rd = inst.def_id();
                    if rd != d {
                        write!(s, ",\"res\":{}", esc(&self.key(rd))).unwrap();
                    }
                }
            }
        }
        s.push('}');
        s
    }

    fn constant(&self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            return format!("{{\"k\":{}}}", self.fndef(owner, *d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder())));
        }
        let mut s = String::from("{\"c\":");
        let txt = with_no_trimmed_paths!(format!("{}", c.const_));
        s.push_str(&esc(&txt));
        write!(s, ",\"t\":{}", esc(&self.head(t))).unwrap();
        if let Const::Unevaluated(u, _) = c.const_ {
            write!(s, ",\"u\":{}", esc(&self.key(u.def))).unwrap();
        }
        if let Some(d) = c.check_static_ptr(self.tcx) {
            write!(s, ",\"st\":{}", esc(&self.path(d))).unwrap();
        }
        s.push('}');
        s
    }

    fn operand(&self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place(body, p),
            Operand::Constant(c) => self.constant(owner, c),
            #[allow(unreachable_patterns)]
            _ => "{\"c\":\"?\",\"t\":\"?\"}".to_string(),
        }
    }

    fn rvalue(&self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(owner, body, o);
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", op(o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", op(o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let kind = format!("{:?}", k);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                format!("[\"cast\",{},{},{}]", esc(&kind), op(o), esc(&self.head(*t)))
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, op(&ab.0), op(&ab.1))
            }
            Rvalue::UnaryOp(b, a) => format!("[\"un\",\"{:?}\",{}]", b, op(a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), esc(&self.head(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"a\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let fields: Vec<String> =
                            var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"a\":\"adt\",\"adt\":{},\"v\":{},\"fs\":[{}]}}",
                            esc(&self.path(*d)),
                            esc(var.name.as_str()),
                            fields.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"a\":\"closure\",\"d\":{},\"fs\":{}}}", esc(&self.key(*d)), self.upvars(*d))
                    }
                    AggregateKind::Coroutine(d, _) => {
                        format!("{{\"a\":\"coroutine\",\"d\":{},\"fs\":{}}}", esc(&self.key(*d)), self.upvars(*d))
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("{{\"a\":\"cclosure\",\"d\":{}}}", esc(&self.key(*d)))
                    }
                    _ => "{\"a\":\"raw\"}".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| op(o)).collect();
                format!("[\"agg\",{},[{}]]", kind, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{}]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", op(o)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn upvars(&self, d: DefId) -> String {
        match d.as_local() {
            Some(l) => {
                let v: Vec<String> = self
                    .tcx
                    .closure_captures(l)
                    .iter()
                    .map(|c| esc(&c.to_string(self.tcx)))
                    .collect();
                format!("[{}]", v.join(","))
            }
            None => "[]".into(),
        }
    }

    fn body(&self, did: DefId, body: &Body<'tcx>, out: &mut String) {
        let tcx = self.tcx;
        let (file, line, _) = self.span(body.span);
        let hi = tcx.sess.source_map().lookup_char_pos(body.span.source_callsite().hi()).line;
        write!(
            out,
            "{{\"kind\":\"fn\",\"key\":{},\"path\":{},\"file\":{},\"line\":{},\"hi\":{},\"dk\":\"{:?}\"",
            esc(&self.key(did)),
            esc(&self.path(did)),
            esc(&file),
            line,
            hi,
            tcx.def_kind(did)
        )
        .unwrap();
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                write!(out, ",\"self\":{},\"selft\":{}", esc(&self.head(self_ty)), esc(&self.ty_str(self_ty))).unwrap();
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    write!(out, ",\"trait\":{}", esc(&self.path(tr.def_id))).unwrap();
                }
                let auto = tcx.is_builtin_derived(p);
                if auto { out.push_str(",\"derived\":1"); }
            }
            if tcx.def_kind(p) == DefKind::Trait {
                write!(out, ",\"trait_default\":{}", esc(&self.path(p))).unwrap();
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(did);
            write!(out, ",\"pub\":{}", vis.is_public() as u8).unwrap();
            if let Some(l) = did.as_local() {
                let ev = tcx.effective_visibilities(());
                write!(out, ",\"reach\":{}", ev.is_reachable(l) as u8).unwrap();
            }
            write!(out, ",\"async\":{}", tcx.asyncness(did).is_async() as u8).unwrap();
            write!(out, ",\"unsafe\":{}", (!tcx.fn_sig(did).skip_binder().safety().is_safe()) as u8).unwrap();
        }
        write!(out, ",\"argc\":{}", body.arg_count).unwrap();
        if let Some(k) = body.coroutine_kind() {
            write!(out, ",\"coroutine\":{}", esc(&format!("{:?}", k))).unwrap();
        }
        // locals
        let mut names: std::collections::HashMap<usize, String> = Default::default();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        out.push_str(",\"locals\":[");
        for (i, d) in body.local_decls.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let n = names.get(&i).map(|s| esc(s)).unwrap_or("null".into());
            write!(out, "[{},{}]", n, esc(&self.ty_str(d.ty))).unwrap();
        }
        out.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                out.push(',');
            }
            out.push_str("{\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let (txt, sp) = match &st.kind {
                    StatementKind::Assign(ab) => (
                        format!(
                            "[\"=\",{},{}",
                            self.place(body, &ab.0),
                            self.rvalue(did, body, &ab.1)
                        ),
                        st.source_info.span,
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => (
                        format!(
                            "[\"sd\",{},{}",
                            self.place(body, place),
                            variant_index.as_usize()
                        ),
                        st.source_info.span,
                    ),
                    _ => continue,
                };
                if !first {
                    out.push(',');
                }
                first = false;
                let (_, l, e) = self.span(sp);
                write!(out, "{},{},{}]", txt, l, e as u8).unwrap();
            }
            out.push_str("],\"t\":");
            let t = b.terminator();
            let (_, l, e) = self.span(t.source_info.span);
            let op = |o: &Operand<'tcx>| self.operand(did, body, o);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    write!(out, "[\"goto\",{}]", target.as_usize()).unwrap()
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    write!(out, "[\"switch\",{},{},[", op(discr), esc(&self.head(dty))).unwrap();
                    for (i, (v, t)) in targets.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        write!(out, "[{},{}]", v, t.as_usize()).unwrap();
                    }
                    write!(out, "],{},{},{}]", targets.otherwise().as_usize(), l, e as u8).unwrap();
                }
                TerminatorKind::Return => out.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => out.push_str("[\"unreach\"]"),
                TerminatorKind::Drop { place, target, .. } => write!(
                    out,
                    "[\"drop\",{},{}]",
                    self.place(body, place),
                    target.as_usize()
                )
                .unwrap(),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|a| op(&a.node)).collect();
                    let (_, l2, _) = self.span(*fn_span);
                    write!(
                        out,
                        "[\"call\",{},[{}],{},{},{},{}]",
                        op(func),
                        a.join(","),
                        self.place(body, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        l2,
                        e as u8
                    )
                    .unwrap();
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let mk: String = m.chars().take(60).collect();
                    write!(
                        out,
                        "[\"assert\",{},{},{},{},{}]",
                        op(cond),
                        expected,
                        esc(&mk),
                        target.as_usize(),
                        l
                    )
                    .unwrap();
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => write!(
                    out,
                    "[\"yield\",{},{},{}]",
                    op(value),
                    resume.as_usize(),
                    self.place(body, resume_arg)
                )
                .unwrap(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    write!(out, "[\"goto\",{}]", real_target.as_usize()).unwrap()
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    write!(out, "[\"goto\",{}]", real_target.as_usize()).unwrap()
                }
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => out.push_str("[\"unwind\"]"),
                TerminatorKind::TailCall { .. } | TerminatorKind::InlineAsm { .. } => {
                    out.push_str("[\"other\"]")
                }
            }
            if b.is_cleanup {
                out.push_str(",\"cl\":1");
            }
            out.push('}');
        }
        out.push_str("]}\n");
    }

    fn items(&self, out: &mut String) {
        let tcx = self.tcx;
        let mut foreign: std::collections::BTreeSet<DefId> = Default::default();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d, out),
                DefKind::Impl { of_trait } => {
                    let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        esc(&self.path(tcx.impl_trait_ref(d).skip_binder().def_id))
                    } else {
                        "null".into()
                    };
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| esc(i.name().as_str()))
                        .collect();
                    let (file, line, _) = self.span(tcx.def_span(d));
                    write!(
                        out,
                        "{{\"kind\":\"impl\",\"self\":{},\"trait\":{},\"items\":[{}],\"derived\":{},\"unsafe\":{},\"file\":{},\"line\":{}}}\n",
                        esc(&self.head(self_ty)),
                        tr,
                        items.join(","),
                        tcx.is_builtin_derived(d) as u8,
                        (of_trait && !tcx.impl_trait_header(d).safety.is_safe()) as u8,
                        esc(&file),
                        line
                    )
                    .unwrap();
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| format!("[{},{}]", esc(i.name().as_str()), i.defaultness(tcx).has_value() as u8))
                        .collect();
                    write!(
                        out,
                        "{{\"kind\":\"trait\",\"path\":{},\"items\":[{}]}}\n",
                        esc(&self.path(d)),
                        items.join(",")
                    )
                    .unwrap();
                }
                _ => {}
            }
        }
        // foreign ADTs whose variants the engine must be able to name
        for id in tcx.hir_body_owners() {
            let _ = id;
        }
        let _ = &mut foreign;
    }

    fn adt(&self, d: DefId, out: &mut String) {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        write!(
            out,
            "{{\"kind\":\"adt\",\"path\":{},\"enum\":{},\"variants\":[",
            esc(&self.path(d)),
            a.is_enum() as u8
        )
        .unwrap();
        for (i, v) in a.variants().iter_enumerated() {
            if i.as_usize() > 0 {
                out.push(',');
            }
            let discr = if a.is_enum() {
                a.discriminant_for_variant(tcx, i).val.to_string()
            } else {
                "0".into()
            };
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    format!(
                        "[{},{}]",
                        esc(f.name.as_str()),
                        esc(&self.ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                    )
                })
                .collect();
            write!(
                out,
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                esc(v.name.as_str()),
                discr,
                fs.join(",")
            )
            .unwrap();
        }
        out.push_str("]}\n");
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some(dir) = self.out.clone() else {
            return rustc_driver::Compilation::Continue;
        };
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        let mut bodies: Vec<(DefId, Body<'tcx>)> = Vec::new();
        for id in owners {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
                | DefKind::SyntheticCoroutineBody => {}
                _ => continue,
            }
            let b = tcx.mir_built(id);
            if b.is_stolen() {
                continue;
            }
            bodies.push((d, b.borrow().clone()));
        }
        // type checking, borrow checking and lints all run here, so a tree
        // that does not compile yields no facts.
        let _ = tcx.ensure_ok().analysis(());
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut out = String::new();
        write!(
            out,
            "{{\"kind\":\"crate\",\"name\":{},\"bodies\":{}}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            bodies.len()
        )
        .unwrap();
        cx.items(&mut out);
        let mut seen: std::collections::HashSet<DefId> = Default::default();
        for (_, b) in &bodies {
            for d in &b.local_decls {
                for w in d.ty.walk() {
                    if let Some(t) = w.as_type() {
                        if let TyKind::Adt(a, _) = t.kind() {
                            if !a.did().is_local() && a.is_enum() {
                                seen.insert(a.did());
                            }
                        }
                    }
                }
            }
        }
        for d in seen {
            cx.adt(d, &mut out);
        }
        for (d, b) in &bodies {
            cx.body(*d, b, &mut out);
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable");
        let path = format!("{}/{}{}.jsonl", dir, name, if is_bin { "-bin" } else { "" });
        let tmp = format!("{}.tmp", path);
        let mut f = std::fs::File::create(&tmp).expect("facts file");
        f.write_all(out.as_bytes()).unwrap();
        drop(f);
        std::fs::rename(&tmp, &path).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_check = args.iter().any(|a| a.starts_with("--crate-name"))
        && !args.iter().any(|a| a == "--crate-name=___" || a.contains("build_script_build"));
    let out = if is_check { std::env::var("MIRFACTS_OUT").ok() } else { None };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
