//! `spade-facts`: a rustc driver that dumps the resolved program (MIR after drop
//! elaboration, ADT definitions, impls) of every workspace crate as JSON, for the
//! rule engine in ../engine.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let s = stdify(with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string()))));
        let i = self.tys.len();
        self.tys.push(s);
        self.ty_ix.insert(t, i);
        i
    }
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let tcx = self.tcx;
        let s = stdify(with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(tcx.def_path_str(d)))));
        self.paths.insert(d, s.clone());
        s
    }
    fn line(&self, sp: Span) -> (String, usize, bool) {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let loc = sm.lookup_char_pos(root.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        (f, loc.line, sp.from_expansion())
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "[{}", p.local.as_usize());
        for (base, elem) in p.as_ref().iter_projections() {
            let bty = base.ty(&body.local_decls, self.tcx);
            o.push(',');
            match elem {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match bty.ty.kind() {
                        ty::Adt(adt, _) => {
                            if bty.ty.is_box() {
                                "<box>".to_string()
                            } else {
                                let vi = bty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                                adt.variant(vi).fields[f].name.to_string()
                            }
                        }
                        ty::Closure(..) => format!("^{}", f.as_usize()),
                        _ => format!("{}", f.as_usize()),
                    };
                    let _ = write!(o, "[\"f\",{}]", q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match bty.ty.kind() {
                        ty::Adt(adt, _) => adt.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    let _ = write!(o, "[\"d\",{}]", q(&name));
                }
                _ => o.push_str("\"?\""),
            }
        }
        o.push(']');
        o
    }

    fn bytes_of_const(&self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        let val = c.eval(tcx, env, rustc_span::DUMMY_SP).ok()?;
        if let ty::Ref(_, inner, _) = c.ty().kind() {
            match inner.kind() {
                ty::Str => return val.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec()),
                ty::Slice(e) if *e == tcx.types.u8 => {
                    return val.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec());
                }
                ty::Array(e, n) if *e == tcx.types.u8 => {
                    let n = n.try_to_target_usize(tcx)? as usize;
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = val {
                        let (prov, off) = p.into_raw_parts();
                        let alloc = match tcx.try_get_global_alloc(prov.alloc_id())? {
                            mir::interpret::GlobalAlloc::Memory(a) => a,
                            _ => return None,
                        };
                        let o = off.bytes_usize();
                        return Some(
                            alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec(),
                        );
                    }
                }
                _ => {}
            }
        }
        None
    }

    fn fndesc(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let decl = self.path(did);
        let mut res = String::new();
        let mut dy = false;
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, args) {
                if let ty::InstanceKind::Virtual(..) = inst.def {
                    dy = true;
                }
                let rd = inst.def_id();
                if rd != did {
                    res = self.path(rd);
                }
            }
        }
        let mut g = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                g.push(self.ty(t).to_string());
            }
        }
        let mut o = format!("{{\"d\":{}", q(&decl));
        if !res.is_empty() {
            let _ = write!(o, ",\"r\":{}", q(&res));
        }
        if dy {
            o.push_str(",\"dyn\":1");
        }
        let _ = write!(o, ",\"g\":[{}]}}", g.join(","));
        o
    }

    fn constant(&mut self, c: &Const<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(did, args) = t.kind() {
            let args = args.skip_binder();
            let f = self.fndesc(*did, args, env);
            return format!("{{\"t\":{ti},\"fn\":{f}}}");
        }
        if let ty::Closure(did, _) = t.kind() {
            let p = self.path(*did);
            return format!("{{\"t\":{ti},\"clos\":{}}}", q(&p));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"t\":{ti},\"prom\":{}}}", p.as_usize());
            }
            let p = self.path(u.def);
            let mut extra = String::new();
            if let Some(b) = self.bytes_of_const(c, env) {
                if let Ok(s) = String::from_utf8(b) {
                    let _ = write!(extra, ",\"s\":{}", q(&s));
                }
            } else if let Some(i) = c.try_eval_scalar_int(tcx, env) {
                let _ = write!(extra, ",\"v\":{}", q(&format!("{}", i.to_bits_unchecked())));
            }
            return format!("{{\"t\":{ti},\"const\":{}{extra}}}", q(&p));
        }
        if let Some(b) = self.bytes_of_const(c, env) {
            return match String::from_utf8(b.clone()) {
                Ok(s) if matches!(t.peel_refs().kind(), ty::Str) => format!("{{\"t\":{ti},\"s\":{}}}", q(&s)),
                _ => {
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    format!("{{\"t\":{ti},\"b\":[{}]}}", v.join(","))
                }
            };
        }
        if let Some(i) = c.try_eval_scalar_int(tcx, env) {
            return format!("{{\"t\":{ti},\"v\":{}}}", q(&format!("{}", i.to_bits_unchecked())));
        }
        format!("{{\"t\":{ti}}}")
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_, env)),
            _ => "[\"?\"]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(body, o, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{n}]", self.op(body, o, env))
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(body, *p), m as u8)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},2]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let k = format!("{k:?}");
                format!("[\"cast\",{},{ti},{}]", self.op(body, o, env), q(&k))
            }
            Rvalue::BinaryOp(b, ops) => {
                let (l, r) = (self.op(body, &ops.0, env), self.op(body, &ops.1, env));
                format!("[\"bin\",{},{l},{r}]", q(&format!("{b:?}")))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{u:?}")), self.op(body, o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"disc\",{},{ti}]", self.place(body, *p))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut os = vec![];
                for o in ops.iter() {
                    os.push(self.op(body, o, env));
                }
                let os = os.join(",");
                match &**k {
                    AggregateKind::Adt(did, vi, _, _, act) => {
                        let adt = self.tcx.adt_def(*did);
                        let v = adt.variant(*vi);
                        let vn = if adt.is_enum() { v.name.to_string() } else { String::new() };
                        let names: Vec<String> = if let Some(a) = act {
                            vec![q(&v.fields[*a].name.to_string())]
                        } else {
                            v.fields.iter().map(|f| q(&f.name.to_string())).collect()
                        };
                        let p = self.path(*did);
                        format!("[\"agg\",{},{},[{}],[{os}]]", q(&p), q(&vn), names.join(","))
                    }
                    AggregateKind::Tuple => format!("[\"tup\",[{os}]]"),
                    AggregateKind::Array(_) => format!("[\"arr\",[{os}]]"),
                    AggregateKind::Closure(did, _) => {
                        let p = self.path(*did);
                        format!("[\"clos\",{},[{os}]]", q(&p))
                    }
                    _ => format!("[\"aggo\",[{os}]]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            other => format!("[\"other\",{}]", q(&format!("{other:?}"))),
        }
    }

    fn body(&mut self, did: DefId, name: &str, body: &Body<'tcx>, prom: bool) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let (file, line, _) = self.line(body.span);
        let end = {
            let sm = tcx.sess.source_map();
            sm.lookup_char_pos(body.span.source_callsite().hi()).line
        };
        let mut o = String::new();
        let kind = if prom { "promoted".to_string() } else { format!("{:?}", tcx.def_kind(did)) };
        let _ = write!(
            o,
            "{{\"p\":{},\"file\":{},\"line\":{line},\"end\":{end},\"kind\":{},\"nargs\":{},",
            q(name),
            q(&file),
            q(&kind),
            body.arg_count
        );
        // debug names
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<(String, String)> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upv.push((v.name.to_string(), self.place(body, p)));
                }
            }
        }
        o.push_str("\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => {
                    let _ = write!(o, "[{t},{}]", q(n));
                }
                None => {
                    let _ = write!(o, "[{t}]");
                }
            }
        }
        o.push_str("],\"upv\":[");
        for (i, (n, p)) in upv.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "[{},{p}]", q(n));
        }
        o.push_str("],\"bbs\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for s in &bb.statements {
                let (_, l, ex) = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let ps = self.place(body, *p);
                        let rs = self.rvalue(body, r, env);
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[{ps},{rs},{l},{}]", ex as u8);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, **place);
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        let _ = write!(o, "[{ps},[\"setd\",{}],{l},{}]", variant_index.as_usize(), ex as u8);
                    }
                    _ => {}
                }
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let (_, l, ex) = self.line(t.source_info.span);
            let tb = |b: BasicBlock| b.as_usize();
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", tb(*target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dop = self.op(body, discr, env);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        v.push(format!("[{},{}]", q(&val.to_string()), tb(b)));
                    }
                    let dty = {
                        let t = discr.ty(&body.local_decls, tcx);
                        self.ty(t)
                    };
                    format!("[\"sw\",{dop},[{}],{},{dty}]", v.join(","), tb(targets.otherwise()))
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ps = self.place(body, *place);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let ti = self.ty(t);
                    format!("[\"drop\",{ps},{ti},{}]", tb(*target))
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let fs = match func {
                        Operand::Constant(c) => self.constant(&c.const_, env),
                        other => self.op(body, other, env),
                    };
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.op(body, &a.node, env));
                    }
                    let ps = self.place(body, *destination);
                    let tg = target.map(|b| tb(b).to_string()).unwrap_or("null".into());
                    let _ = call_source;
                    format!("[\"call\",{fs},[{}],{ps},{tg}]", v.join(","))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.op(body, cond, env);
                    let m = format!("{:?}", std::mem::discriminant(&**msg));
                    let _ = m;
                    format!("[\"assert\",{c},{},{}]", *expected as u8, tb(*target))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", tb(*real_target)),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", tb(*real_target)),
                _ => "[\"other\"]".to_string(),
            };
            let _ = write!(o, "{ts},\"l\":{l},\"x\":{}}}", ex as u8);
        }
        o.push_str("]}");
        o
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("SPADE_FACTS_OUT") {
            dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, dir: &str) {
    let mut cx = Cx { tcx, tys: vec![], ty_ix: HashMap::new(), paths: HashMap::new() };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable"));
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or(krate.clone());
    let name = if is_bin { format!("{pkg}.bin-{krate}") } else { pkg.clone() };
    if krate == "build_script_build" {
        return;
    }
    let mut bodies = String::new();
    let mut nb = 0usize;
    let mut skipped = 0usize;
    let mut auto = 0usize;
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if !matches!(
            kind,
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }
        ) {
            continue;
        }
        // inside an automatically derived impl?
        let mut cur: Option<DefId> = Some(did);
        let mut derived = false;
        while let Some(c) = cur {
            if matches!(tcx.def_kind(c), DefKind::Impl { .. }) && tcx.is_automatically_derived(c) {
                derived = true;
            }
            cur = tcx.opt_parent(c);
        }
        if derived {
            auto += 1;
            continue;
        }
        let path = cx.path(did);
        let steal = tcx.mir_drops_elaborated_and_const_checked(ld);
        let owned;
        let guard;
        let body: &Body<'tcx> = if steal.is_stolen() {
            if matches!(kind, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) || tcx.is_const_fn(did) {
                owned = tcx.mir_for_ctfe(ld).clone();
            } else {
                owned = tcx.optimized_mir(ld).clone();
            }
            skipped += 1;
            &owned
        } else {
            guard = steal.borrow();
            &guard
        };
        if nb > 0 {
            bodies.push_str(",\n");
        }
        nb += 1;
        let b = cx.body(did, &path, body, false);
        bodies.push_str(&b);
        let proms = tcx.promoted_mir(did);
        for (pi, pb) in proms.iter_enumerated() {
            let b = cx.body(did, &format!("{path}#prom{}", pi.as_usize()), pb, true);
            bodies.push_str(",\n");
            bodies.push_str(&b);
        }
    }
    // ADTs and impls
    let mut adts = String::new();
    let mut impls = String::new();
    let mut na = 0;
    let mut ni = 0;
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                if na > 0 {
                    adts.push_str(",\n");
                }
                na += 1;
                let p = cx.path(did);
                let (f, l, _) = cx.line(tcx.def_span(did));
                let _ = write!(
                    adts,
                    "{{\"p\":{},\"enum\":{},\"file\":{},\"line\":{l},\"vs\":[",
                    q(&p),
                    adt.is_enum() as u8,
                    q(&f)
                );
                for (vi, v) in adt.variants().iter_enumerated() {
                    if vi.as_usize() > 0 {
                        adts.push(',');
                    }
                    let d = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    let _ = write!(adts, "{{\"n\":{},\"d\":{},\"fs\":[", q(v.name.as_str()), q(&d));
                    for (fi, fd) in v.fields.iter().enumerate() {
                        if fi > 0 {
                            adts.push(',');
                        }
                        let t = tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        let pubv = tcx.visibility(fd.did).is_public();
                        let _ = write!(adts, "[{},{ti},{}]", q(fd.name.as_str()), pubv as u8);
                    }
                    adts.push_str("]}");
                }
                adts.push_str("]}");
            }
            DefKind::Impl { .. } => {
                if ni > 0 {
                    impls.push_str(",\n");
                }
                ni += 1;
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(st);
                let tr = tcx.impl_opt_trait_ref(did).map(|t| t.skip_binder().def_id);
                let tp = tr.map(|d| cx.path(d)).unwrap_or_default();
                let items: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| q(&cx.path(i.def_id)))
                    .collect();
                let d = tcx.is_automatically_derived(did);
                let _ = write!(
                    impls,
                    "{{\"self\":{ti},\"trait\":{},\"derived\":{},\"items\":[{}]}}",
                    q(&tp),
                    d as u8,
                    items.join(",")
                );
            }
            _ => {}
        }
    }
    let mut out = String::new();
    let _ = write!(
        out,
        "{{\"crate\":{},\"bin\":{},\"stats\":{{\"bodies\":{nb},\"stolen\":{skipped},\"derived\":{auto}}},\n\"adts\":[{adts}],\n\"impls\":[{impls}],\n\"bodies\":[{bodies}],\n\"tys\":[",
        q(&krate),
        is_bin as u8
    );
    for (i, t) in cx.tys.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        esc(t, &mut out);
    }
    out.push_str("]}\n");
    let tmp = format!("{dir}/{name}.json.tmp");
    std::fs::write(&tmp, out).expect("write facts");
    std::fs::rename(&tmp, format!("{dir}/{name}.json")).expect("rename facts");
}

/// real definition paths name the std facade crates; fold them into `std::`
fn stdify(s: String) -> String {
    let mut out = String::with_capacity(s.len());
    let b = s.as_bytes();
    let mut i = 0;
    let mut word = false; // previous char continues a path/identifier
    while i < b.len() {
        if !word && s[i..].starts_with("core::") {
            out.push_str("std::");
            i += 6;
            word = true;
            continue;
        }
        if !word && s[i..].starts_with("alloc::") {
            out.push_str("std::");
            i += 7;
            word = true;
            continue;
        }
        if s[i..].starts_with("::<") && !s[i..].starts_with("::<impl ") {
            out.push('<');
            i += 3;
            word = false;
            continue;
        }
        let ch = s[i..].chars().next().unwrap();
        out.push(ch);
        i += ch.len_utf8();
        word = ch.is_alphanumeric() || ch == '_' || ch == ':';
    }
    out
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probe = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print="));
    if !probe {
        args.push("-Zmir-opt-level=0".into());
    }
    let mut d = Dump;
    rustc_driver::install_ice_hook(rustc_driver::DEFAULT_BUG_REPORT_URL, |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut d));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
