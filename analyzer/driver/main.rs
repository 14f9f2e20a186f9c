// rustc driver that dumps the type-checked program (MIR with resolved callees,
// ADT definitions, constants, impls) of ONE workspace crate as JSON lines.
// It is injected with RUSTC_WORKSPACE_WRAPPER; it never runs the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    /// generic functions of the crate with the types they are used with
    mono: std::cell::RefCell<Vec<(DefId, ty::GenericArgsRef<'tcx>, String)>>,
    seen: std::cell::RefCell<std::collections::HashSet<String>>,
    /// the types the body being written is used with
    cur: std::cell::RefCell<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // Canonical, stable, unique per crate: the def path with the crate name in front.
        let tcx = self.tcx;
        let mut s = tcx.crate_name(d.krate).to_string();
        let dp = tcx.def_path(d);
        s.push_str(&dp.to_string_no_crate_verbose());
        s
    }
    /// Human path such as `<T as Trait>::f` or `Type::f`
    fn pretty(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(format!("{t}"))))
    }
    fn line(&self, sp: Span) -> u32 {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        l.line as u32
    }
    fn file(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        f.file.name.prefer_local_unconditionally().to_string()
    }
    /// name of the crate+macro of any enclosing macro expansion (comma separated outermost first)
    fn exp(&self, sp: Span) -> String {
        let mut v: Vec<String> = vec![];
        let mut ctxt = sp.ctxt();
        let mut guard = 0;
        while !ctxt.is_root() && guard < 64 {
            guard += 1;
            let e = ctxt.outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, name) => {
                    let k = e
                        .macro_def_id
                        .map(|d| self.tcx.crate_name(d.krate).to_string())
                        .unwrap_or_default();
                    v.push(format!("{k}::{name}"));
                }
                ExpnKind::Desugaring(k) => v.push(format!("desugar::{k:?}")),
                _ => {}
            }
            ctxt = e.call_site.ctxt();
        }
        v.reverse();
        v.join(",")
    }

    fn is_tracing(&self, sp: Span) -> bool {
        let mut ctxt = sp.ctxt();
        let mut guard = 0;
        while !ctxt.is_root() && guard < 64 {
            guard += 1;
            let e = ctxt.outer_expn_data();
            if let ExpnKind::Macro(_, _) = e.kind {
                if let Some(d) = e.macro_def_id {
                    let k = self.tcx.crate_name(d.krate);
                    let k = k.as_str();
                    if k == "tracing" || k == "tracing_attributes" || k == "tracing_core" {
                        return true;
                    }
                }
            }
            ctxt = e.call_site.ctxt();
        }
        false
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            o.push(',');
            match el {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if adt.is_struct() || adt.is_union() || pt.variant_index.is_some() {
                                adt.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        ty::Closure(d, _) => {
                            let caps = tcx.closure_captures(d.expect_local());
                            caps.get(f.as_usize())
                                .map(|c| format!("^{}", c.to_string(tcx)))
                                .unwrap_or_else(|| f.as_usize().to_string())
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let adt = match pt.ty.kind() {
                        ty::Adt(adt, _) => self.path(adt.did()),
                        ty::Closure(..) => "closure".into(),
                        _ => String::new(),
                    };
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), js(&name), js(&adt));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(vi).name.to_string(),
                        _ => String::new(),
                    };
                    let _ = write!(o, "[\"v\",{},{}]", vi.as_usize(), js(&name));
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, el);
        }
        o.push(']');
        o
    }

    /// types without parameters, closures or functions among them
    fn plain(&self, args: ty::GenericArgsRef<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt as _;
        args.types().next().is_some()
            && !args.has_param()
            && !args.has_escaping_bound_vars()
            && !args.types().any(|t| t.walk().any(|a| a.as_type().is_some_and(|t| t.is_closure() || t.is_fn())))
    }

    fn fnref(&self, body_def: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, body_def);
        let args_e = tcx.erase_and_anonymize_regions(args);
        let mut res = d;
        let mut rargs = args_e;
        let mut kind = "item";
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
            res = inst.def_id();
            rargs = inst.args;
            kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(..) => "intrinsic",
                _ => "shim",
            };
        } else {
            kind = if kind == "item" { "unresolved" } else { kind };
        }
        let mut g = String::from("[");
        for (i, a) in args_e.iter().filter(|a| a.as_region().is_none()).enumerate() {
            if i > 0 {
                g.push(',');
            }
            let s = match a.as_type() {
                Some(t) => self.ty(t),
                None => ty::print::with_no_trimmed_paths!(format!("{a}")),
            };
            g.push_str(&js(&s));
        }
        g.push(']');
        let mut rg = String::from("[");
        for (i, a) in rargs.iter().filter(|a| a.as_region().is_none()).enumerate() {
            if i > 0 {
                rg.push(',');
            }
            let s = match a.as_type() {
                Some(t) => self.ty(t),
                None => ty::print::with_no_trimmed_paths!(format!("{a}")),
            };
            rg.push_str(&js(&s));
        }
        rg.push(']');
        let mut rid = self.path(res);
        if res.is_local() && kind == "item" && matches!(tcx.def_kind(res), DefKind::Fn | DefKind::AssocFn) && self.plain(rargs) && !rid.contains("::dbg_peek_") {
            let suffix = format!("<{}>", rargs.types().map(|t| self.ty(t)).collect::<Vec<_>>().join(","));
            rid.push_str(&suffix);
            if self.seen.borrow_mut().insert(rid.clone()) {
                self.mono.borrow_mut().push((res, rargs, suffix));
            }
        }
        format!(
            "{{\"p\":{},\"id\":{},\"rp\":{},\"rid\":{},\"k\":{},\"g\":{},\"rg\":{},\"local\":{}}}",
            js(&self.pretty(d)),
            js(&self.path(d)),
            js(&self.pretty(res)),
            js(&rid),
            js(kind),
            g,
            rg,
            res.is_local()
        )
    }

    fn constant(&self, body_def: DefId, c: &Const<'tcx>, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = String::from("{\"t\":");
        o.push_str(&js(&self.ty(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(o, ",\"fn\":{}", self.fnref(body_def, *d, args.no_bound_vars().unwrap()));
            o.push('}');
            return o;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}", js(&self.path(*d)));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":[{},{}]", js(&self.path(u.def)), p.as_usize());
            } else {
                let _ = write!(o, ",\"item\":{}", js(&self.path(u.def)));
            }
        }
        let env = TypingEnv::post_analysis(tcx, body_def);
        let generic = matches!(c, Const::Unevaluated(..)) && {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param()
        };
        if !generic {
            if let Ok(v) = c.eval(tcx, env, sp) {
                match v {
                    ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                        let size = i.size();
                        let bits = i.to_bits(size);
                        match t.kind() {
                            ty::Int(_) => {
                                let sv = size.sign_extend(bits);
                                let _ = write!(o, ",\"v\":{}", sv);
                            }
                            ty::Bool => {
                                let _ = write!(o, ",\"v\":{}", bits);
                            }
                            ty::Float(_) => {
                                let f = if size.bits() == 32 {
                                    f32::from_bits(bits as u32) as f64
                                } else {
                                    f64::from_bits(bits as u64)
                                };
                                let _ = write!(o, ",\"fl\":{}", js(&format!("{f:?}")));
                            }
                            _ => {
                                let _ = write!(o, ",\"v\":{}", bits);
                            }
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            match std::str::from_utf8(b) {
                                Ok(s) => {
                                    let _ = write!(o, ",\"s\":{}", js(s));
                                }
                                Err(_) => {
                                    let _ = write!(o, ",\"b\":{}", js(&format!("{b:?}")));
                                }
                            }
                        }
                    }
                    ConstValue::Scalar(interpret::Scalar::Ptr(ptr, _)) => {
                        // &[u8; N] and friends: dump the bytes when plain
                        let (prov, off) = ptr.into_raw_parts();
                        if let Some(interpret::GlobalAlloc::Memory(a)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            let a = a.inner();
                            if a.provenance().ptrs().is_empty() && off.bytes() == 0 && a.size().bytes() <= 4096 {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.size().bytes_usize());
                                let _ = write!(o, ",\"bytes\":{}", js(&format!("{b:?}")));
                            }
                        } else if let Some(interpret::GlobalAlloc::Static(d)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            let _ = write!(o, ",\"static\":{}", js(&self.path(d)));
                        }
                    }
                    ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    _ => {}
                }
            }
        } else {
            o.push_str(",\"generic\":true");
        }
        let _ = write!(o, ",\"d\":{}", js(&ty::print::with_no_trimmed_paths!(format!("{c}"))));
        o.push('}');
        o
    }

    fn operand(&self, body: &Body<'tcx>, def: DefId, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(def, &c.const_, c.span)),
            _ => "[\"?\"]".into(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, def: DefId, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(body, def, op)),
            Rvalue::Repeat(op, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, def, op),
                js(&format!("{n}"))
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, p),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, self.tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    js(&format!("{k:?}")),
                    self.operand(body, def, op),
                    js(&self.ty(from)),
                    js(&self.ty(*t))
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{b:?}")),
                self.operand(body, def, &ops.0),
                self.operand(body, def, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => format!(
                "[\"un\",{},{}]",
                js(&format!("{u:?}")),
                self.operand(body, def, op)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(a, _) => self.path(a.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{}]", self.place(body, p), js(&adt))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut names: Vec<String> = vec![];
                let head = match &**k {
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        for f in v.fields.iter() {
                            names.push(f.name.to_string());
                        }
                        let _ = args;
                        format!(
                            "\"adt\",{},{},{}",
                            js(&self.path(*d)),
                            vi.as_usize(),
                            js(v.name.as_str())
                        )
                    }
                    AggregateKind::Tuple => "\"tuple\",\"\",0,\"\"".to_string(),
                    AggregateKind::Array(_) => "\"array\",\"\",0,\"\"".to_string(),
                    AggregateKind::Closure(d, args) => {
                        let mut id = self.path(*d);
                        let suffix = self.cur.borrow().clone();
                        if !suffix.is_empty() {
                            id.push_str(&suffix);
                            if self.seen.borrow_mut().insert(id.clone()) {
                                self.mono.borrow_mut().push((*d, args, suffix));
                            }
                        }
                        format!("\"closure\",{},0,\"\"", js(&id))
                    }
                    _ => "\"other\",\"\",0,\"\"".to_string(),
                };
                let mut o = format!("[\"agg\",{head},[");
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&self.operand(body, def, op));
                }
                o.push_str("],[");
                for (i, n) in names.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&js(n));
                }
                o.push_str("]]");
                o
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            _ => format!("[\"other\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn body(&self, def: DefId, body: &Body<'tcx>) -> String {
        let mut o = String::new();
        o.push_str("\"nargs\":");
        let _ = write!(o, "{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&js(&self.ty(l.ty)));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = std::collections::HashSet::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"bbs\":[");
        for (bi, (_, bb)) in body.basic_blocks.iter_enumerated().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut f = true;
            for st in &bb.statements {
                if self.is_tracing(st.source_info.span) {
                    continue;
                }
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!(
                            "[{},{},{},{}]",
                            self.place(body, &b.0),
                            self.rvalue(body, def, &b.1),
                            self.line(st.source_info.span),
                            js(&self.exp(st.source_info.span))
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[{},[\"setdiscr\",{}],{},\"\"]",
                        self.place(body, place),
                        variant_index.as_usize(),
                        self.line(st.source_info.span)
                    ),
                    _ => continue,
                };
                if !f {
                    o.push(',');
                }
                f = false;
                o.push_str(&s);
            }
            let t = bb.terminator();
            let _ = write!(
                o,
                "],\"l\":{},\"x\":{},\"t\":",
                self.line(t.source_info.span),
                js(&self.exp(t.source_info.span))
            );
            if self.is_tracing(t.source_info.span) {
                // logging never decides anything: both sides of its level checks are kept
                let mut ts: Vec<String> = vec![];
                for b in t.successors() {
                    if !body.basic_blocks[b].is_cleanup {
                        ts.push(b.as_usize().to_string());
                    }
                }
                if matches!(t.kind, TerminatorKind::Return) {
                    o.push_str("[\"return\"]}");
                } else {
                    let _ = write!(o, "[\"nd\",[{}]]}}", ts.join(","));
                }
                continue;
            }
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let _ = write!(o, "[\"switch\",{},{},[", self.operand(body, def, discr), js(&self.ty(ty)));
                    for (i, (v, b)) in targets.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let v = match ty.kind() {
                            ty::Int(it) => {
                                let bits = it.normalize(64).bit_width().unwrap();
                                rustc_abi::Size::from_bits(bits).sign_extend(v)
                            }
                            _ => v as i128,
                        };
                        let _ = write!(o, "[{},{}]", v, b.as_usize());
                    }
                    let _ = write!(o, "],{}]", targets.otherwise().as_usize());
                }
                TerminatorKind::Return => o.push_str("[\"return\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    let _ = write!(o, "[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), js(&self.ty(ty)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push_str("[\"call\",");
                    o.push_str(&self.operand(body, def, func));
                    o.push_str(",[");
                    for (i, a) in args.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        o.push_str(&self.operand(body, def, &a.node));
                    }
                    let _ = write!(
                        o,
                        "],{},{}]",
                        self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    );
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| c == '(' || c == '{').next().unwrap_or("").trim().to_string();
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertKind::Overflow(op, ..) => format!("Overflow{op:?}"),
                        AssertKind::OverflowNeg(..) => "OverflowNeg".to_string(),
                        AssertKind::DivisionByZero(..) => "DivisionByZero".to_string(),
                        AssertKind::RemainderByZero(..) => "RemainderByZero".to_string(),
                        _ => m,
                    };
                    let _ = write!(
                        o,
                        "[\"assert\",{},{},{},{}]",
                        self.operand(body, def, cond),
                        expected,
                        js(&m),
                        target.as_usize()
                    );
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "[\"goto\",{}]", real_target.as_usize());
                }
                k => {
                    let _ = write!(o, "[\"other\",{}]", js(&format!("{k:?}")));
                }
            }
            o.push('}');
        }
        o.push(']');
        o
    }
}

/// Derived bodies (formatting, hashing, (de)serialisation glue) and logging internals: their
/// impls are listed, their code is the derive macro's and not the repository's.
fn serde_glue(e: &str, path: &str) -> bool {
    let h = e.split(',').next().unwrap_or("");
    matches!(h, "serde_derive::Deserialize" | "serde_derive::Serialize")
        && ["::serialize", "::visit_str", "::visit_map", "::visit_enum", "::visit_newtype_struct"].iter().any(|x| path.ends_with(x))
}

fn skip_exp(e: &str) -> bool {
    let h = e.split(',').next().unwrap_or("");
    h.starts_with("tracing::")
        || h.starts_with("tracing_core::")
        || (h.starts_with("tracing_attributes::") && false)
        || matches!(
            h,
            "serde_derive::Deserialize"
                | "serde_derive::Serialize"
                | "arrow_convert_derive::ArrowSerialize"
                | "arrow_convert_derive::ArrowDeserialize"
                | "arrow_convert_derive::ArrowField"
                | "core::Debug"
                | "core::PartialEq"
                | "core::Eq"
                | "core::Hash"
                | "core::PartialOrd"
                | "core::Ord"
        )
}

struct Dump {
    out: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx, mono: Default::default(), seen: Default::default(), cur: Default::default() };
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        let f = std::fs::File::create(&tmp).expect("create facts file");
        let mut w = std::io::BufWriter::with_capacity(1 << 20, f);
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        let _ = writeln!(w, "{{\"kind\":\"crate\",\"name\":{}}}", js(&cname));
        // items
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let mut o = String::new();
                    let _ = write!(
                        o,
                        "{{\"kind\":\"adt\",\"id\":{},\"p\":{},\"enum\":{},\"line\":{},\"file\":{},\"variants\":[",
                        js(&cx.path(d)),
                        js(&cx.pretty(d)),
                        adt.is_enum(),
                        cx.line(tcx.def_span(d)),
                        js(&cx.file(tcx.def_span(d)))
                    );
                    let discrs: Vec<String> = if adt.is_enum() {
                        adt.discriminants(tcx).map(|(_, x)| format!("{}", x.val)).collect()
                    } else {
                        vec!["0".into()]
                    };
                    for (i, v) in adt.variants().iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let _ = write!(o, "{{\"name\":{},\"discr\":{},\"fields\":[", js(v.name.as_str()), discrs[i]);
                        for (j, fd) in v.fields.iter().enumerate() {
                            if j > 0 {
                                o.push(',');
                            }
                            let t = tcx.type_of(fd.did).instantiate_identity();
                            let t = t.skip_norm_wip();
                            let _ = write!(
                                o,
                                "[{},{},{}]",
                                js(fd.name.as_str()),
                                js(&cx.ty(t)),
                                fd.vis.is_public()
                            );
                        }
                        o.push_str("]}");
                    }
                    o.push_str("]}");
                    let _ = writeln!(w, "{o}");
                }
                DefKind::Impl { of_trait } => {
                    let mut o = String::new();
                    let self_ty = tcx.type_of(d).instantiate_identity();
                    let self_ty = self_ty.skip_norm_wip();
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(d).instantiate_identity();
                        let t = t.skip_norm_wip();
                        ty::print::with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()))
                    } else {
                        String::new()
                    };
                    let _ = write!(
                        o,
                        "{{\"kind\":\"impl\",\"id\":{},\"self\":{},\"trait\":{},\"line\":{},\"exp\":{},\"items\":[",
                        js(&cx.path(d)),
                        js(&cx.ty(self_ty)),
                        js(&tr),
                        cx.line(tcx.def_span(d)),
                        js(&cx.exp(tcx.def_span(d)))
                    );
                    for (i, it) in tcx.associated_item_def_ids(d).iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        o.push_str(&js(&cx.path(*it)));
                    }
                    o.push_str("]}");
                    let _ = writeln!(w, "{o}");
                }
                _ => {}
            }
        }
        // bodies
        for id in tcx.mir_keys(()) {
            let d = id.to_def_id();
            let kind = tcx.def_kind(d);
            let is_const = matches!(
                kind,
                DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::Static { .. }
                    | DefKind::AnonConst
            );
            if is_const && cx.path(d).contains("__CALLSITE") {
                continue;
            }
            let k = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "fn",
                DefKind::Closure => "closure",
                DefKind::Ctor(..) => continue,
                _ if is_const => "const",
                _ => continue,
            };
            // Skip deriving noise of Debug/Clone/PartialEq etc? keep: tagged by exp
            let sp = tcx.def_span(d);
            // the glue that writes and reads the values as text is kept apart
            let glue = self::serde_glue(&cx.exp(sp), &cx.path(d));
            if self::skip_exp(&cx.exp(sp)) && !glue {
                continue;
            }
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"kind\":{},\"bk\":{},\"id\":{},\"p\":{},\"file\":{},\"line\":{},\"exp\":{},\"parent\":{},\"pub\":{},",
                js(if glue { "glue" } else { "body" }),
                js(k),
                js(&cx.path(d)),
                js(&cx.pretty(d)),
                js(&cx.file(sp)),
                cx.line(sp),
                js(&cx.exp(sp)),
                js(&cx.path(tcx.parent(d))),
                if matches!(kind, DefKind::Closure | DefKind::AnonConst) { false } else { tcx.visibility(d).is_public() }
            );
            if is_const {
                // value when it is a plain scalar / str
                let t = tcx.type_of(d).instantiate_identity();
                let t = t.skip_norm_wip();
                let _ = write!(o, "\"ty\":{},", js(&cx.ty(t)));
                if matches!(kind, DefKind::Const { .. }) && tcx.generics_of(d).is_empty() {
                    let c = Const::from_unevaluated(tcx, d).instantiate_identity();
                    let c = c.skip_norm_wip();
                    let _ = write!(o, "\"value\":{},", cx.constant(d, &c, sp));
                }
                let b = tcx.mir_for_ctfe(d);
                o.push_str(&cx.body(d, b));
            } else {
                let b = tcx.optimized_mir(d);
                o.push_str(&cx.body(d, b));
            }
            let prom = tcx.promoted_mir(d);
            o.push_str(",\"promoted\":[");
            for (i, pb) in prom.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('{');
                o.push_str(&cx.body(d, pb));
                o.push('}');
            }
            o.push_str("]}");
            let _ = writeln!(w, "{o}");
        }
        // generic functions, once for each choice of types they are used with
        loop {
            let Some((d, args, suffix)) = cx.mono.borrow_mut().pop() else {
                break;
            };
            let sp = tcx.def_span(d);
            let closure = matches!(tcx.def_kind(d), DefKind::Closure);
            let own = |d: DefId| cx.path(d) + &suffix;
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"kind\":\"body\",\"bk\":{},\"id\":{},\"p\":{},\"file\":{},\"line\":{},\"exp\":{},\"parent\":{},\"pub\":{},\"mono\":{},",
                js(if closure { "closure" } else { "fn" }),
                js(&own(d)),
                js(&cx.pretty(d)),
                js(&cx.file(sp)),
                cx.line(sp),
                js(&cx.exp(sp)),
                js(&if closure { own(tcx.parent(d)) } else { cx.path(tcx.parent(d)) }),
                if closure { false } else { tcx.visibility(d).is_public() },
                js(&suffix)
            );
            *cx.cur.borrow_mut() = suffix.clone();
            let inst = Instance { def: ty::InstanceKind::Item(d), args };
            let env = TypingEnv::fully_monomorphized();
            let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, tcx.optimized_mir(d).clone()));
            o.push_str(&cx.body(d, &b));
            o.push_str(",\"promoted\":[");
            for (i, pb) in tcx.promoted_mir(d).iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let pb = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, pb.clone()));
                o.push('{');
                o.push_str(&cx.body(d, &pb));
                o.push('}');
            }
            o.push_str("]}");
            cx.cur.borrow_mut().clear();
            let _ = writeln!(w, "{o}");
        }
        let _ = writeln!(w, "{{\"kind\":\"end\"}}");
        w.flush().expect("flush");
        drop(w);
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("S2_FACTS_OUT").unwrap_or_default();
    let target = std::env::var("S2_FACTS_CRATE").unwrap_or_else(|_| "s2protocol".into());
    let mut name = String::new();
    let mut is_test = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if args[i] == "--test" {
            is_test = true;
        }
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"))
        || args.iter().any(|a| a.starts_with("--crate-type=") && a.contains("lib"));
    if name == target && is_lib && !is_test && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
        args.push("-Zthreads=8".into());
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
