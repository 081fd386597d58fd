// MIR fact extractor: run as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// Dumps, for every body of the crate being compiled, the borrow-checker-stage MIR
// (resolved callees, typed places, constants, promoteds) as JSON, together with a
// type table, the trait-impl table, and the generic MIR of small std helpers the
// crate calls.  It never runs any of the analysed code.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => { write!(o, "{}", i).unwrap(); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.out(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    write!(o, "\"{}\":", k).unwrap();
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ext_queue: Vec<(DefId, usize)>,
    ext_seen: HashSet<DefId>,
}

thread_local! {
    /// workspace items that other workspace crates know under a re-exported path: (path used there, own path)
    static ALIASES: std::cell::RefCell<std::collections::BTreeSet<(String, String)>> = Default::default();
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)));
    if !d.is_local() && WS.contains(&tcx.crate_name(d.krate).as_str()) {
        let q = with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d))));
        if q != p {
            ALIASES.with(|a| a.borrow_mut().insert((p.clone(), q)));
        }
    }
    p
}
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn tystr(t: Ty<'_>) -> String { with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))) }

const WS: &[&str] = &["server", "simple_server", "multi_server", "async_server", "vpmodels"];

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        match t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(_) | TyKind::Uint(_) => { o.push(("k", s("int"))); o.push(("name", s(tystr(t)))); }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("kind", s(if def.is_enum() { "enum" } else { "struct" })));
                let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                let cn = tcx.crate_name(def.did().krate).to_string();
                let local = WS.contains(&cn.as_str());
                let p = path(tcx, def.did());
                o.push(("local", J::B(local)));
                if local || def.is_enum() || cn == "httparse" || p.starts_with("core::ops::") || p.starts_with("core::ops::range") {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let fi = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), n(fi)]));
                        }
                        let dis = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        vs.push(J::O(vec![("name", s(v.name.to_string())), ("disc", J::N(dis)), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
                // does the type have derived / handwritten Serialize etc. is in the impl table
            }
            TyKind::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to", n(i)));
            }
            TyKind::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let i = self.ty(*inner);
                o.push(("to", n(i)));
            }
            TyKind::Slice(inner) => { let i = self.ty(*inner); o.push(("k", s("slice"))); o.push(("to", n(i))); }
            TyKind::Array(inner, len) => {
                let i = self.ty(*inner);
                o.push(("k", s("array")));
                o.push(("to", n(i)));
                o.push(("len", s(with_no_trimmed_paths!(format!("{}", len)))));
                if let Some(l) = len.try_to_target_usize(tcx) { o.push(("n", n(l as usize))); }
            }
            TyKind::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("k", s("tuple")));
                o.push(("args", J::A(a)));
            }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(uid(tcx, *d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(up)));
            }
            TyKind::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("def", s(uid(tcx, *d))));
                let up: Vec<J> = args.as_coroutine().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(up)));
            }
            TyKind::FnDef(d, _) => { o.push(("k", s("fndef"))); o.push(("def", s(uid(tcx, *d)))); o.push(("path", s(path(tcx, *d)))); }
            TyKind::Dynamic(..) => { o.push(("k", s("dyn"))); }
            TyKind::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[id] = J::O(o);
        id
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let _ = base;
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_usize()), n(t)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("c"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                _ => J::A(vec![s("o")]),
            });
        }
        let _ = body;
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", n(ti))];
        if let TyKind::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let args = args.skip_binder();
            return self.fndef(owner, d, args, ti);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                o.push(("promoted", n(pr.as_usize())));
                o.push(("pdef", s(uid(tcx, u.def))));
                return J::O(o);
            }
            o.push(("const", s(path(tcx, u.def))));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.constval(v, t, &mut o),
            Err(_) => o.push(("opaque", s(with_no_trimmed_paths!(format!("{}", c.const_))))),
        }
        J::O(o)
    }

    fn constval(&mut self, v: mir::ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            mir::ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() {
                    let bits = i.to_bits(i.size());
                    match t.kind() {
                        TyKind::Bool => o.push(("bool", J::B(bits != 0))),
                        TyKind::Char => o.push(("char", s(char::from_u32(bits as u32).unwrap().to_string()))),
                        TyKind::Int(_) => { o.push(("int", J::N(i.to_int(i.size())))); }
                        TyKind::Uint(_) => o.push(("int", J::S(format!("{}", bits)))),
                        TyKind::Float(_) => o.push(("float", J::S(format!("{:x}", bits)))),
                        _ => o.push(("bits", J::S(format!("{}", bits)))),
                    }
                } else {
                    // pointer to a byte array (byte-string literals, fmt templates)
                    if let TyKind::Ref(_, inner, _) = t.kind() {
                        if let TyKind::Array(el, len) = inner.kind() {
                            if *el == tcx.types.u8 {
                                if let (Some(l), mir::interpret::Scalar::Ptr(p, _)) = (len.try_to_target_usize(tcx), sc) {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                        let st = off.bytes() as usize;
                                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l as usize);
                                        o.push(("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    o.push(("opaque", s("ptr")));
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id);
                if let mir::interpret::GlobalAlloc::Memory(a) = a {
                    let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    if let TyKind::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            o.push(("str", s(String::from_utf8_lossy(bytes).to_string())));
                            return;
                        }
                    }
                    o.push(("bytes", J::A(bytes.iter().map(|b| n(*b as usize)).collect())));
                }
            }
            mir::ConstValue::Indirect { .. } => o.push(("opaque", s("indirect"))),
        }
    }

    fn fndef(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>, ti: usize) -> J {
        let tcx = self.tcx;
        let mut o = vec![("ty", n(ti)), ("fn", s(path(tcx, d))), ("uid", s(uid(tcx, d)))];
        let a: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| n(self.ty(x))).collect();
        o.push(("gargs", J::A(a)));
        o.push(("astr", s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{:?}", args))))));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            let v = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(v) == DefKind::Variant {
                let adt = tcx.parent(v);
                (adt, tcx.adt_def(adt).variant_index_with_id(v).as_usize())
            } else { (v, 0) };
            o.push(("adt", s(path(tcx, adt))));
            o.push(("variant", n(vi)));
            o.push(("vname", s(tcx.item_name(v).to_string())));
            return J::O(o);
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args = tcx.erase_and_anonymize_regions(args);
            // result type of this use of the function
            let out = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip()).output();
            if let Ok(t) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(out)) {
                let ti = self.ty(t);
                o.push(("out", n(ti)));
            }
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                match i.def {
                    ty::InstanceKind::Item(rd) => {
                        o.push(("res", s(path(tcx, rd))));
                        o.push(("ruid", s(uid(tcx, rd))));
                        self.want_ext(rd, 0);
                    }
                    ty::InstanceKind::Virtual(..) => o.push(("virt", J::B(true))),
                    _ => o.push(("shim", s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()))),
                }
            }
            self.want_ext(d, 0);
        }
        J::O(o)
    }

    fn want_ext(&mut self, d: DefId, depth: usize) {
        if d.is_local() || self.ext_seen.contains(&d) { return; }
        let cn = self.tcx.crate_name(d.krate).to_string();
        if !matches!(cn.as_str(), "core" | "alloc" | "std") { return; }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
        self.ext_seen.insert(d);
        if self.tcx.is_mir_available(d) { self.ext_queue.push((d, depth)); }
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, *p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(owner, c))]),
            Operand::RuntimeChecks(_) => J::O(vec![("k", J::O(vec![("bool", J::B(true)), ("rtcheck", J::B(true))]))]),
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(owner, body, op)]),
            Rvalue::Repeat(op, c) => {
                let l = c.try_to_target_usize(tcx).map(|x| n(x as usize)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(owner, body, op), l])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let fake = matches!(bk, BorrowKind::Fake(_));
                J::A(vec![s("ref"), J::B(m), self.place(body, *p), J::B(fake)])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::O(vec![("c", self.place(body, *p))])]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("ref"), J::B(format!("{:?}", k).contains("Mut")), self.place(body, *p), J::B(false)]),
            Rvalue::Cast(k, op, t) => {
                let ti = self.ty(*t);
                let from = op.ty(body, tcx);
                let fi = self.ty(from);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.operand(owner, body, op), n(ti), n(fi)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let lt = ops.0.ty(body, tcx);
                let lti = self.ty(lt);
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.operand(owner, body, &ops.0), self.operand(owner, body, &ops.1), n(lti)])
            }
            Rvalue::UnaryOp(u, op) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(owner, body, op)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let ti = self.ty(t);
                J::A(vec![s("disc"), self.place(body, *p), n(ti)])
            }
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.operand(owner, body, x)).collect();
                let t = r.ty(body, tcx);
                let ti = self.ty(t);
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, af) => J::A(vec![s("adt"), s(path(tcx, *d)), n(v.as_usize()),
                        s(tcx.adt_def(*d).variant(*v).name.to_string()), af.map(|x| n(x.as_usize())).unwrap_or(J::Null)]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(uid(tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(uid(tcx, *d))]),
                    AggregateKind::CoroutineClosure(d, _) => J::A(vec![s("coroutine"), s(uid(tcx, *d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kk, J::A(f), n(ti)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(body, *p))])]),
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), self.place(body, a.0), self.rvalue(owner, body, &a.1), sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        st.push(J::A(vec![s("sd"), self.place(body, **place), n(variant_index.as_usize())])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut a = vec![];
                    for (v, b) in targets.iter() { a.push(J::A(vec![J::S(v.to_string()), n(b.as_usize())])); }
                    let dt = discr.ty(body, tcx);
                    let dti = self.ty(dt);
                    J::A(vec![s("switch"), self.operand(owner, body, discr), J::A(a), n(targets.otherwise().as_usize()), n(dti)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(body, tcx).ty;
                    let dti = self.ty(dt);
                    J::A(vec![s("drop"), self.place(body, *place), n(target.as_usize()), n(dti)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, body, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(body, tcx); n(self.ty(t)) }).collect();
                    let dt = destination.ty(body, tcx).ty;
                    let dti = self.ty(dt);
                    J::A(vec![s("call"), f, J::A(a), self.place(body, *destination),
                        target.map(|x| n(x.as_usize())).unwrap_or(J::Null), J::A(at), n(dti)])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(owner, body, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(owner, body, &x.node)).collect();
                    J::A(vec![s("tailcall"), f, J::A(a)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(owner, body, len), self.operand(owner, body, index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.operand(owner, body, x), self.operand(owner, body, y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(owner, body, x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.operand(owner, body, x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.operand(owner, body, x)]),
                        AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) | AssertKind::ResumedAfterDrop(_) => ("resumed".into(), vec![]),
                        _ => ("ub".into(), vec![]),
                    };
                    J::A(vec![s("assert"), self.operand(owner, body, cond), J::B(*expected), s(k), J::A(ops), n(target.as_usize())])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } =>
                    J::A(vec![s("yield"), self.operand(owner, body, value), n(resume.as_usize()), self.place(body, *resume_arg)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", term), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let mut vars = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                vars.push(J::A(vec![s(v.name.to_string()), self.place(body, p)]));
            }
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("vars", J::A(vars)),
        ]
    }

    fn fn_header(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("uid", s(uid(tcx, d))), ("path", s(path(tcx, d))), ("kind", s(format!("{:?}", tcx.def_kind(d))))];
        o.push(("span", self.span(tcx.def_span(d))));
        o.push(("coroutine", J::B(tcx.is_coroutine(d))));
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let parent = tcx.parent(d);
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                o.push(("self_ty", n(sti)));
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    o.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
                }
            }
            o.push(("name", s(tcx.item_name(d).to_string())));
        } else if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::Const { .. } | DefKind::Static { .. }) {
            o.push(("name", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            let c: u8 = match tcx.asyncness(d) { ty::Asyncness::Yes => 1, _ => 0 };
            o.push(("async", J::B(c == 1)));
        }
        o
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], ext_queue: vec![], ext_seen: HashSet::new() };
        let mut fns = vec![];
        let mut missing = vec![];
        // first touch every fn body, so consts cannot steal them afterwards
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        for ld in owners {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let (b, pr) = tcx.mir_promoted(ld);
                    if b.is_stolen() { missing.push(s(uid(tcx, d))); continue; }
                    let mut o = cx.fn_header(d);
                    {
                        let bb = b.borrow();
                        let rest = cx.body(d, &bb);
                        o.extend(rest);
                    }
                    let mut prs = vec![];
                    if !pr.is_stolen() {
                        for p in pr.borrow().iter() { let x = cx.body(d, p); prs.push(J::O(x)); }
                    }
                    o.push(("promoted", J::A(prs)));
                    fns.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    let mut o = cx.fn_header(d);
                    if !tcx.is_trivial_const(ld) {
                        let b = tcx.mir_for_ctfe(d);
                        let rest = cx.body(d, b);
                        o.extend(rest);
                    }
                    fns.push(J::O(o));
                }
                _ => {}
            }
        }
        // trait impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is.iter() {
                let id = i.to_def_id();
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                let mut ms = vec![];
                for it in tcx.associated_items(id).in_definition_order() {
                    ms.push(J::A(vec![s(it.name().to_string()), s(uid(tcx, it.def_id))]));
                }
                impls.push(J::O(vec![
                    ("trait", s(path(tcx, *tr))), ("self", n(sti)), ("derived", J::B(tcx.is_automatically_derived(id))),
                    ("methods", J::A(ms)), ("span", cx.span(tcx.def_span(id))),
                ]));
            }
        }
        // generic MIR of small std helpers
        let mut ext = vec![];
        while let Some((d, depth)) = cx.ext_queue.pop() {
            let b = tcx.instance_mir(ty::InstanceKind::Item(d));
            if b.basic_blocks.len() > 40 || depth > 4 { continue; }
            let mut o = cx.fn_header(d);
            let before: HashSet<DefId> = cx.ext_seen.clone();
            let rest = cx.body(d, b);
            o.extend(rest);
            // fix depth of newly discovered callees
            for (q, dd) in cx.ext_queue.iter_mut() { if !before.contains(q) { *dd = depth + 1; } }
            ext.push(J::O(o));
        }
        // ADT field visibility of local types
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let def = tcx.adt_def(d);
                let mut vs = vec![];
                for v in def.variants().iter() {
                    let fs: Vec<J> = v.fields.iter().map(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let fi = cx.ty(ft);
                        J::A(vec![s(f.name.to_string()), s(format!("{:?}", f.vis)), n(fi)])
                    }).collect();
                    vs.push(J::A(vec![s(v.name.to_string()), J::A(fs)]));
                }
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sti = cx.ty(st);
                adts.push(J::O(vec![("path", s(path(tcx, d))), ("ty", n(sti)), ("variants", J::A(vs)), ("span", cx.span(tcx.def_span(d)))]));
            }
        }
        let tys = std::mem::take(&mut cx.ty_out);
        let doc = J::O(vec![
            ("crate", s(krate.clone())), ("fns", J::A(fns)), ("impls", J::A(impls)), ("ext", J::A(ext)),
            ("types", J::A(tys)), ("missing", J::A(missing)), ("adts", J::A(adts)),
            ("aliases", ALIASES.with(|a| J::A(a.borrow().iter().map(|(p, q)| J::A(vec![s(p.clone()), s(q.clone())])).collect()))),
        ]);
        let mut txt = String::new();
        doc.out(&mut txt);
        std::fs::write(format!("{}/{}.json", out, krate), txt).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    let print_only = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if print_only {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    let code = rustc_driver::catch_with_exit_code(move || { rustc_driver::compiler_entrypoint(&args, &mut Cb); });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
