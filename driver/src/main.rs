//! mirdump: a rustc_private driver which writes the type-checked, callee-resolved MIR of the
//! crate being compiled (plus the MIR of the few std/itertools combinators that it reaches) as
//! JSON.  It is run as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
//!
//! Generic functions are dumped once, under their own parameter environment: a call through a
//! type parameter stays a trait-method call ("unresolved"), everything else names its callee.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---- a tiny JSON value ------------------------------------------------------
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => jstr(t, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    jstr(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn jstr(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---- which non-local functions are followed into their own MIR ---------------
const FOLLOW: &[&str] = &[
    "core::option::", "core::result::", "core::cmp::", "core::ops::", "core::convert::",
    "core::bool::", "core::tuple::", "core::default::", "core::borrow::", "core::clone::",
    "itertools::EitherOrBoth", "itertools::either_or_both::", "core::hint::", "core::any::",
    "std::option::", "std::result::", "std::cmp::", "std::ops::", "std::convert::",
    "std::bool::", "std::tuple::", "std::default::", "std::borrow::", "std::clone::",
    "core::num::", "std::num::", "core::f64::", "core::f32::", "core::iter::traits::",
    "std::iter::Iterator::", "core::iter::Iterator::", "std::iter::", "core::iter::",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<String, usize>,
    adts: BTreeMap<String, J>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>)>,
    cqueue: VecDeque<(String, DefId, GenericArgsRef<'tcx>, Option<u32>, TypingEnv<'tcx>)>,
    seen: HashSet<String>,
    bodies: Vec<(String, J)>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, loc.line))
    }
    fn key(&self, inst: &Instance<'tcx>) -> String {
        let d = inst.def_id();
        let base = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, inst.args));
        let base = if self.tcx.is_closure_like(d) {
            let mut a = String::new();
            if let Some(p) = self.tcx.opt_parent(d) {
                let _ = p;
            }
            for x in inst.args.iter() {
                if let Some(t) = x.as_type() {
                    let _ = write!(a, "{},", self.tystr(t));
                }
            }
            format!("{:?}<{}>", d, a)
        } else {
            base
        };
        match inst.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Intrinsic(_) => format!("intrinsic:{}", base),
            InstanceKind::Virtual(..) => format!("virtual:{}", base),
            k => format!("shim:{:?}:{}", k, base),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let st = self.tystr(t);
        let key = match t.kind() {
            ty::Closure(d, a) => format!("closure {:?} {:?}", d, a),
            ty::FnDef(d, a) => format!("fndef {:?} {:?}", d, a),
            _ => st.clone(),
        };
        if let Some(i) = self.tymap.get(&key) {
            return n(*i as i64);
        }
        let id = self.types.len();
        self.tymap.insert(key, id);
        self.types.push(J::Null);
        let tcx = self.tcx;
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(i) => J::O(vec![("k", s("int")), ("name", s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![("k", s("uint")), ("name", s(i.name_str()))]),
            ty::Float(i) => J::O(vec![("k", s("float")), ("name", s(i.name_str()))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adt(*def, &p);
                let a: Vec<J> = args.iter().map(|x| self.garg(x)).collect();
                J::O(vec![("k", s("adt")), ("path", s(p)), ("args", J::A(a)), ("s", s(st))])
            }
            ty::Array(e, c) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("array")), ("e", e), ("n", s(format!("{}", c)))])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("slice")), ("e", e)])
            }
            ty::RawPtr(e, _) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("rawptr")), ("e", e)])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("ref")), ("e", e), ("mut", J::B(m.is_mut()))])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("es", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Closure(d, args) => {
                let up: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![
                    ("k", s("closure")),
                    ("path", s(format!("{:?}", d))),
                    ("upvars", J::A(up)),
                    ("kind", s(format!("{:?}", args.as_closure().kind_ty()))),
                ])
            }
            ty::FnDef(d, _) => {
                J::O(vec![("k", s("fndef")), ("path", s(self.path(*d))), ("s", s(st))])
            }
            _ => J::O(vec![("k", s("other")), ("s", s(st))]),
        };
        let _ = tcx;
        self.types[id] = j;
        n(id as i64)
    }
    fn garg(&mut self, x: ty::GenericArg<'tcx>) -> J {
        if let Some(t) = x.as_type() {
            self.ty(t)
        } else {
            s(with_no_trimmed_paths!(format!("{}", x)))
        }
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) {
            return;
        }
        self.adts.insert(p.to_string(), J::Null);
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tj = self.ty(t);
                fs.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", tj),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
        }
        let discrs: Vec<J> = if def.is_enum() {
            def.discriminants(self.tcx)
                .map(|(_, d)| {
                    // sign-extend
                    let size = self
                        .tcx
                        .layout_of(TypingEnv::fully_monomorphized().as_query_input(d.ty))
                        .unwrap()
                        .size;
                    if d.ty.is_signed() {
                        J::N(size.sign_extend(d.val))
                    } else {
                        J::N(d.val as i128)
                    }
                })
                .collect()
        } else {
            vec![]
        };
        let params: Vec<J> = self
            .tcx
            .generics_of(def.did())
            .own_params
            .iter()
            .map(|g| s(g.name.to_string()))
            .collect();
        let j = J::O(vec![
            ("kind", s(if def.is_enum() { "enum" } else { "struct" })),
            ("local", J::B(def.did().is_local())),
            ("params", J::A(params)),
            ("variants", J::A(vs)),
            ("discrs", J::A(discrs)),
        ]);
        self.adts.insert(p.to_string(), j);
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(_) => return false,
            _ => return false,
        }
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let p = self.path(d);
        FOLLOW.iter().any(|f| p.starts_with(f) || p.starts_with(&format!("<{}", f)))
            || self.tcx.is_closure_like(d)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d)))];
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let a: Vec<J> = args.iter().map(|x| self.garg(x)).collect();
        o.push(("args", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let st = args.type_at(0);
            let stj = self.ty(st);
            o.push(("self", stj));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let e = tcx.parent(parent);
                    let ad = tcx.adt_def(e);
                    (e, ad.variant_index_with_ctor_id(d).as_usize())
                }
                _ => (parent, 0),
            };
            let p = self.path(adt);
            self.adt(tcx.adt_def(adt), &p);
            o.push(("ctor", s(p)));
            o.push(("variant", n(vi as i64)));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(inst)) => {
                let k = self.key(&inst);
                o.push(("key", s(k.clone())));
                o.push(("rpath", s(self.path(inst.def_id()))));
                o.push(("crate", s(tcx.crate_name(inst.def_id().krate).to_string())));
                if let Some(imp) = tcx.impl_of_assoc(inst.def_id()) {
                    let sty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", s(self.tystr(sty))));
                }
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                o.push(("kind", s(kind)));
                if self.want_body(&inst) {
                    o.push(("body", J::B(true)));
                    self.push(k, inst, env);
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }
    fn push(&mut self, k: String, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k, inst, env));
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let _ = base;
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    J::A(vec![s("field"), n(f.as_usize() as i64), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.as_usize() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![s("cindex"), n(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    J::A(vec![s("downcast"), n(v.as_usize() as i64)])
                }
                _ => J::A(vec![s("otherproj")]),
            });
        }
        let _ = (body, env);
        J::O(vec![("l", n(p.local.as_usize() as i64)), ("p", J::A(pr))])
    }

    fn cnst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            let f = self.fnref(*d, a, env);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let k = format!("{:?}<{:?}>::promoted[{}]", u.def, u.args, p.as_usize());
                o.push(("promoted", s(k.clone())));
                if self.seen.insert(k.clone()) {
                    self.cqueue.push_back((k, u.def, u.args, Some(p.as_u32()), env));
                }
                return J::O(o);
            }
            let p = self.path(u.def);
            o.push(("const", s(p.clone())));
            let a: Vec<J> = u.args.iter().map(|x| self.garg(x)).collect();
            o.push(("cargs", J::A(a)));
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                o.push(("trait", s(self.path(tr))));
                o.push(("name", s(tcx.item_name(u.def).to_string())));
                let stj = self.ty(u.args.type_at(0));
                o.push(("self", stj));
            }
            let val = c.const_.try_eval_scalar(tcx, env);
            let simple = matches!(
                t.kind(),
                ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)
            );
            if !(simple && val.is_some()) {
                // follow to the const's own body if it resolves to a local item
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    let d = inst.def_id();
                    if d.is_local() && tcx.is_mir_available(d) {
                        let k = format!("const:{}", self.key(&inst));
                        o.push(("constkey", s(k.clone())));
                        if self.seen.insert(k.clone()) {
                            self.cqueue.push_back((k, d, inst.args, None, env));
                        }
                    } else {
                        o.push(("constres", s(self.path(d))));
                    }
                }
                return J::O(o);
            }
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                    let size = sc.size();
                    let v = match t.kind() {
                        ty::Int(_) => sc.to_int(size),
                        _ => sc.to_bits(size) as i128,
                    };
                    o.push(("v", J::N(v)));
                }
            }
            ty::Float(_) => {
                if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                    let bits = sc.to_bits(sc.size());
                    let txt = if sc.size().bytes() == 8 {
                        format!("{:?}", f64::from_bits(bits as u64))
                    } else {
                        format!("{:?}", f32::from_bits(bits as u32))
                    };
                    o.push(("fv", s(txt)));
                }
            }
            ty::Ref(_, inner, _) => {
                if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                    match inner.kind() {
                        ty::Str | ty::Slice(_) => {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                o.push((
                                    "bytes",
                                    J::A(b.iter().map(|x| J::N(*x as i128)).collect()),
                                ));
                            }
                        }
                        ty::Array(e, _) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                            if let ConstValue::Scalar(sc) = v {
                                {
                                    let ptr = sc.to_pointer(&tcx);
                                    if let Some(prov) = ptr.provenance {
                                        let al = tcx.global_alloc(prov.alloc_id());
                                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = al {
                                            let a = m.inner();
                                            let len = a.len();
                                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                                            o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }
    fn op(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("copy", self.place(p, body, env))]),
            Operand::Move(p) => J::O(vec![("move", self.place(p, body, env))]),
            Operand::Constant(c) => J::O(vec![("const", self.cnst(c, env))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rtcheck", s(format!("{:?}", r)))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", s("use")), ("o", self.op(o, body, env))]),
            Rvalue::Repeat(o, c) => J::O(vec![
                ("k", s("repeat")),
                ("o", self.op(o, body, env)),
                ("n", s(format!("{}", c))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(p, body, env)),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("rawptr")), ("pl", self.place(p, body, env))])
            }
            Rvalue::ThreadLocalRef(d) => {
                J::O(vec![("k", s("threadlocal")), ("path", s(self.path(*d)))])
            }
            Rvalue::Cast(ck, o, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", ck))),
                ("o", self.op(o, body, env)),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(b, ab) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", self.op(&ab.0, body, env)),
                ("b", self.op(&ab.1, body, env)),
            ]),
            Rvalue::UnaryOp(b, a) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", b))),
                ("a", self.op(a, body, env)),
            ]),
            Rvalue::Discriminant(p) => {
                J::O(vec![("k", s("discr")), ("pl", self.place(p, body, env))])
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("o", J::O(vec![("copy", self.place(p, body, env))])),
            ]),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|x| self.op(x, body, env)).collect();
                let mut o = vec![("k", s("agg")), ("fs", J::A(f))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        let t = self.ty(*t);
                        o.push(("ty", t));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        o.push(("ak", s("adt")));
                        let p = self.path(*d);
                        self.adt(self.tcx.adt_def(*d), &p);
                        o.push(("adt", s(p)));
                        o.push(("v", n(v.as_usize() as i64)));
                        let a: Vec<J> = args.iter().map(|x| self.garg(x)).collect();
                        o.push(("args", J::A(a)));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak", s("closure")));
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let k = self.key(&inst);
                        o.push(("key", s(k.clone())));
                        self.push(k, inst, env);
                    }
                    _ => o.push(("ak", s("other"))),
                }
                J::O(o)
            }
            other => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize() as i64), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(ab) => {
                        let pl = self.place(&ab.0, body, env);
                        let rv = self.rvalue(&ab.1, body, env);
                        let sp = self.span(st.source_info.span);
                        ss.push(J::O(vec![("pl", pl), ("rv", rv), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, body, env);
                        ss.push(J::O(vec![
                            ("setdiscr", pl),
                            ("v", n(variant_index.as_usize() as i64)),
                        ]));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(J::O(vec![("intrinsic", s(format!("{:?}", i)))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize() as i64)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let tj = self.ty(dty);
                    o.push(("ty", tj));
                    o.push(("d", self.op(discr, body, env)));
                    let signed_size = match dty.kind() {
                        ty::Int(_) => self
                            .tcx
                            .layout_of(env.as_query_input(dty))
                            .ok()
                            .map(|l| l.size),
                        _ => None,
                    };
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match signed_size {
                                Some(sz) => sz.sign_extend(v),
                                None => v as i128,
                            };
                            J::A(vec![J::N(v), n(b.as_usize() as i64)])
                        })
                        .collect();
                    o.push(("ts", J::A(v)));
                    o.push(("else", n(targets.otherwise().as_usize() as i64)));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    let p = self.place(place, body, env);
                    o.push(("pl", p));
                    o.push(("t", n(target.as_usize() as i64)));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    let f = self.op(func, body, env);
                    o.push(("f", f));
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, body, env)).collect();
                    o.push(("args", J::A(a)));
                    let d = self.place(destination, body, env);
                    o.push(("dst", d));
                    o.push((
                        "t",
                        target.map(|t| n(t.as_usize() as i64)).unwrap_or(J::Null),
                    ));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    let c = self.op(cond, body, env);
                    o.push(("c", c));
                    o.push(("exp", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    o.push(("msg", s(m)));
                    o.push(("t", n(target.as_usize() as i64)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize() as i64)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize() as i64)));
                }
                other => {
                    o.push(("k", s("other")));
                    o.push(("s", s(format!("{:?}", other))));
                }
            }
            blocks.push(J::O(vec![
                ("s", J::A(ss)),
                ("t", J::O(o)),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("nargs", n(body.arg_count as i64)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize() as i64)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("sp", self.span(body.span)),
        ]
    }
    fn run(&mut self) {
        loop {
            if let Some((k, inst, env)) = self.queue.pop_front() {
                let tcx = self.tcx;
                let mir = tcx.instance_mir(inst.def).clone();
                let mono = inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, mir),
                );
                let Ok(b) = mono else {
                    self.bodies.push((k, J::O(vec![("err", s("normalize"))])));
                    continue;
                };
                let mut o = self.body(&b, env);
                let d = inst.def_id();
                o.push(("path", s(self.path(d))));
                o.push(("crate", s(tcx.crate_name(d.krate).to_string())));
                o.push(("key", s(k.clone())));
                self.bodies.push((k, J::O(o)));
                continue;
            }
            if let Some((k, d, args, prom, env)) = self.cqueue.pop_front() {
                let tcx = self.tcx;
                let mir = match prom {
                    Some(p) => tcx.promoted_mir(d)[Promoted::from_u32(p)].clone(),
                    None => tcx.mir_for_ctfe(d).clone(),
                };
                let inst = Instance { def: InstanceKind::Item(d), args };
                let mono = inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, mir),
                );
                let Ok(b) = mono else {
                    self.bodies.push((k, J::O(vec![("err", s("normalize"))])));
                    continue;
                };
                let mut o = self.body(&b, env);
                o.push(("path", s(self.path(d))));
                o.push(("key", s(k.clone())));
                self.bodies.push((k, J::O(o)));
                continue;
            }
            break;
        }
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: BTreeMap::new(),
        queue: VecDeque::new(),
        cqueue: VecDeque::new(),
        seen: HashSet::new(),
        bodies: vec![],
    };
    let mut roots = vec![];
    let mut statics = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if let DefKind::Static { .. } = tcx.def_kind(d) {
            statics.push(J::O(vec![
                ("path", s(cx.path(d))),
                ("ty", s(cx.tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                ("sp", cx.span(tcx.def_span(d))),
                ("mutable", J::B(tcx.is_mutable_static(d))),
                ("freeze", J::B(tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::fully_monomorphized()))),
            ]));
        }
    }
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
        let is_const = matches!(kind, DefKind::AssocConst { .. } | DefKind::Const { .. });
        if !is_fn && !is_const {
            continue;
        }
        if !tcx.is_mir_available(d) && is_fn {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let args = tcx.erase_and_anonymize_regions(args);
        let env = TypingEnv::post_analysis(tcx, d);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let mut o: Vec<(&'static str, J)> = vec![("path", s(cx.path(d)))];
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("sp", cx.span(tcx.def_span(d))));
        o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(*ld))));
        o.push(("kind", s(if is_fn { "fn" } else { "const" })));
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let sty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", s(cx.tystr(sty))));
            let j = cx.ty(sty);
            o.push(("self", j));
            if tcx.impl_opt_trait_ref(imp).is_some() {
                let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(cx.path(tr.def_id))));
                o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
                let a: Vec<J> = tr.args.iter().skip(1).map(|x| cx.garg(x)).collect();
                o.push(("trait_args", J::A(a)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("in_trait", s(cx.path(tr))));
        }
        if is_fn {
            let k = cx.key(&inst);
            o.push(("key", s(k.clone())));
            let safety = tcx.fn_sig(d).skip_binder().safety();
            o.push(("unsafe", J::B(!safety.is_safe())));
            cx.push(k, inst, env);
        } else {
            let k = format!("const:{}", cx.key(&inst));
            o.push(("key", s(k.clone())));
            if cx.seen.insert(k.clone()) {
                cx.cqueue.push_back((k, d, args, None, env));
            }
        }
        roots.push(J::O(o));
    }
    cx.run();
    let mut o = String::new();
    o.push_str("{\"crate\":");
    jstr(tcx.crate_name(LOCAL_CRATE).as_str(), &mut o);
    o.push_str(",\"roots\":");
    J::A(roots).w(&mut o);
    o.push_str(",\"statics\":");
    J::A(statics).w(&mut o);
    o.push_str(",\"types\":");
    J::A(cx.types.clone()).w(&mut o);
    o.push_str(",\"adts\":{");
    for (i, (k, v)) in cx.adts.iter().enumerate() {
        if i > 0 {
            o.push(',')
        }
        jstr(k, &mut o);
        o.push(':');
        v.w(&mut o);
    }
    o.push_str("},\"bodies\":{");
    for (i, (k, v)) in cx.bodies.iter().enumerate() {
        if i > 0 {
            o.push(',')
        }
        jstr(k, &mut o);
        o.push(':');
        v.w(&mut o);
        o.push('\n');
    }
    o.push_str("}}");
    std::fs::write(out, o).expect("write mirdump output");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        // the pointer checks of debug builds are not the program's own behaviour
        for p in ["CheckAlignment", "CheckNull", "CheckEnums"] {
            c.opts.unstable_opts.mir_enable_passes.push((p.to_string(), false));
        }
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            let kind = if tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Exec")) {
                "bin"
            } else {
                "lib"
            };
            let f = format!("{}/{}-{}.json", out, tcx.crate_name(LOCAL_CRATE), kind);
            dump(tcx, &f);
        }
        Compilation::Continue
    }
}

fn main() {
    // argv: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if primary && !is_query {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(
        &args,
        &mut Cb { out: if primary && !is_query { out } else { None } },
    );
}
