#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    consts: HashMap<String, usize>,
    tyout: Vec<J>,
    adts: HashSet<DefId>,
    adt_queue: Vec<DefId>,
    paths: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let p = with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(self.tcx.def_path_str(d))));
        self.paths.insert(d, p.clone());
        p
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string())))
    }
    fn seen_adt(&mut self, d: DefId) {
        if self.adts.insert(d) {
            self.adt_queue.push(d);
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v: Vec<J> = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(n(self.ty(t)));
            } else if let Some(c) = x.as_const() {
                v.push(n(self.constarg(c)));
            }
        }
        J::A(v)
    }
    /// a const argument, listed as a type: the parameter, or its value
    fn constarg(&mut self, c: ty::Const<'tcx>) -> usize {
        let st = format!("{}", c);
        let key = format!("const {}", st);
        if let Some(i) = self.consts.get(&key) {
            return *i;
        }
        let idx = self.tyout.len();
        self.consts.insert(key, idx);
        let o: Vec<(&'static str, J)> = match c.kind() {
            ty::ConstKind::Param(p) => vec![("s", J::S(st)), ("k", s("param")), ("d", s(p.name))],
            _ => {
                let v = match c.try_to_value().and_then(|v| Some((v.try_to_leaf()?, v.ty))) {
                    Some((i, t)) => match t.kind() {
                        ty::Int(_) => i.to_int(i.size()).to_string(),
                        ty::Uint(_) | ty::Char => i.to_uint(i.size()).to_string(),
                        ty::Bool => i.try_to_bool().unwrap_or(false).to_string(),
                        _ => st.clone(),
                    },
                    _ => st.clone(),
                };
                vec![("s", J::S(v)), ("k", s("cval"))]
            }
        };
        self.tyout.push(J::O(o));
        idx
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let idx = self.tyout.len();
        self.tys.insert(t, idx);
        self.tyout.push(J::Null);
        let st = self.tystr(t);
        let mut o: Vec<(&'static str, J)> = vec![("s", J::S(st))];
        match t.kind() {
            ty::Adt(d, a) => {
                self.seen_adt(d.did());
                let p = self.path(d.did());
                o.push(("k", s("adt")));
                o.push(("d", J::S(p)));
                let a = self.args(a);
                o.push(("a", a));
            }
            ty::Ref(_, i, m) => {
                o.push(("k", s(if m.is_mut() { "refmut" } else { "ref" })));
                let i = self.ty(*i);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::RawPtr(i, _) => {
                o.push(("k", s("ptr")));
                let i = self.ty(*i);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Slice(i) => {
                o.push(("k", s("slice")));
                let i = self.ty(*i);
                o.push(("a", J::A(vec![n(i)])));
            }
            ty::Array(i, l) => {
                o.push(("k", s("array")));
                let i = self.ty(*i);
                o.push(("a", J::A(vec![n(i)])));
                if let Some(l) = l.try_to_target_usize(self.tcx) {
                    o.push(("n", J::I(l as i128)));
                }
            }
            ty::Tuple(l) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = l.iter().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                let p = self.path(*d);
                o.push(("d", J::S(p)));
                let v: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(v)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                let p = self.path(*d);
                o.push(("d", J::S(p)));
                let v: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                o.push(("a", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let p = self.path(*d);
                o.push(("d", J::S(p)));
                let a = self.args((*a).skip_binder());
                o.push(("a", a));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    let p = self.path(p);
                    o.push(("d", J::S(p)));
                }
            }
            ty::Alias(..) => {
                o.push(("k", s("alias")));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("d", s(p.name)));
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => o.push(("k", s("prim"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyout[idx] = J::O(o);
        idx
    }

    fn loc(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        (f, l.line)
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        self.loc(sp).1
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let p = self.path(d);
        let mut vs = vec![];
        let discrs: HashMap<usize, i128> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val as i128)).collect()
        } else {
            HashMap::new()
        };
        for (i, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if d.is_local() || self.is_ws(d) {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    n(self.ty(t))
                } else {
                    J::Null
                };
                fs.push(J::A(vec![s(f.name), t, J::S(self.vis(f.vis))]));
            }
            vs.push(J::O(vec![
                ("n", s(v.name)),
                ("d", J::I(*discrs.get(&i.as_usize()).unwrap_or(&0))),
                ("f", J::A(fs)),
                ("ck", s(match v.ctor_kind() { Some(CtorKind::Fn) => "fn", Some(CtorKind::Const) => "const", None => "struct" })),
                ("cv", match v.ctor_def_id() { Some(c) => { let vis = tcx.visibility(c); J::S(self.vis(vis)) } None => J::Null }),
            ]));
        }
        let (f, l) = self.loc(tcx.def_span(d));
        let vis = tcx.visibility(d);
        let gens: Vec<J> = {
            let g = tcx.generics_of(d);
            g.own_params.iter().map(|p| s(p.name)).collect()
        };
        J::O(vec![
            ("id", J::S(p)),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
            ("file", J::S(f)),
            ("line", n(l)),
            ("vis", J::S(self.vis(vis))),
            ("local", J::B(d.is_local())),
            ("gen", J::A(gens)),
            ("nonexh", J::B(def.is_variant_list_non_exhaustive())),
            ("v", J::A(vs)),
        ])
    }
    fn is_ws(&self, d: DefId) -> bool {
        d.is_local()
    }
    fn vis(&mut self, v: ty::Visibility<rustc_span::def_id::ModId>) -> String {
        match v {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => {
                if m.is_crate_root() {
                    "crate".into()
                } else {
                    format!("in {}", self.path(m.to_def_id()))
                }
            }
        }
    }
}

struct Bcx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    owner: DefId,
}

impl<'a, 'tcx> Bcx<'a, 'tcx> {
    fn place(&mut self, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() {
            return n(p.local.as_usize());
        }
        let mut v = vec![n(p.local.as_usize())];
        let tcx = self.cx.tcx;
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, _) => {
                    let mut name = i.as_usize().to_string();
                    let mut owner = J::Null;
                    match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            self.cx.seen_adt(d.did());
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_struct() || d.is_union() || pt.variant_index.is_some() {
                                name = d.variant(vi).fields[i].name.to_string();
                            }
                            owner = J::S(self.cx.path(d.did()));
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            owner = J::S(self.cx.path(*d));
                            if let Some(l) = d.as_local() {
                                let caps: Vec<String> =
                                    tcx.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect();
                                if let Some(nm) = caps.get(i.as_usize()) {
                                    name = format!("^{}", nm);
                                }
                            }
                        }
                        _ => {}
                    }
                    J::A(vec![s("f"), J::S(name), owner, n(i.as_usize())])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), n(offset as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, vi) => {
                    let name = match nm {
                        Some(x) => x.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(d, _) => d.variant(vi).name.to_string(),
                            _ => vi.as_usize().to_string(),
                        },
                    };
                    J::A(vec![s("v"), J::S(name)])
                }
                _ => s("o"),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn place_ty(&mut self, p: &Place<'tcx>) -> usize {
        let t = p.ty(&self.body.local_decls, self.cx.tcx).ty;
        self.cx.ty(t)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let t = c.const_.ty();
        let ti = self.cx.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", n(ti))];
        if let ty::FnDef(d, a) = t.kind() {
            let a = (*a).skip_binder();
            let cal = self.callee(*d, a);
            o.push(("fn", cal));
            return J::A(vec![s("k"), J::O(o)]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("pr", n(p.as_usize())));
                return J::A(vec![s("k"), J::O(o)]);
            }
            let p = self.cx.path(u.def);
            o.push(("p", J::S(p)));
            if u.args.types().next().is_some() {
                let a = self.cx.args(u.args);
                o.push(("a", a));
            }
        }
        if let Some(v) = self.cval(c.const_) {
            o.push(("v", v));
        } else if let Const::Ty(_, ct) = c.const_ {
            let i = self.cx.constarg(ct);
            o.push(("ct", n(i)));
        } else if let Some(d) = static_of(tcx, c.const_) {
            let p = self.cx.path(d);
            o.push(("x", J::S(format!("static {p}"))));
        } else {
            o.push(("x", J::S(format!("{:?}", c.const_))));
        }
        let _ = tcx;
        J::A(vec![s("k"), J::O(o)])
    }
    fn cval(&mut self, c: Const<'tcx>) -> Option<J> {
        cval(self.cx.tcx, self.env, c)
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let p = self.cx.path(d);
        let aj = self.cx.args(a);
        let mut o: Vec<(&'static str, J)> = vec![("d", J::S(p)), ("a", aj)];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let trp = self.cx.path(tr);
            o.push(("tr", J::S(trp)));
            let ea = tcx.erase_and_anonymize_regions(a);
            match ty::Instance::try_resolve(tcx, self.env, d, ea) {
                Ok(Some(inst)) => match inst.def {
                    ty::InstanceKind::Item(rd) => {
                        let rp = self.cx.path(rd);
                        o.push(("r", J::S(rp)));
                        let ra = self.cx.args(inst.args);
                        o.push(("ra", ra));
                    }
                    ty::InstanceKind::Virtual(..) => o.push(("dyn", J::B(true))),
                    other => {
                        let dd = other.def_id();
                        let rp = self.cx.path(dd);
                        o.push(("sh", J::S(rp)));
                    }
                },
                _ => {}
            }
        }
        J::O(o)
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.cx.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx);
                J::A(vec![s("repeat"), self.op(o), l.map(|x| J::I(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                };
                J::A(vec![s("ref"), s(m), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.op(o);
                let ft = o.ty(&self.body.local_decls, tcx);
                let f = self.cx.ty(ft);
                let t = self.cx.ty(*t);
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap().to_string();
                J::A(vec![s("cast"), J::S(ks), oj, n(f), n(t)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let lt = ops.0.ty(&self.body.local_decls, tcx);
                let a = self.op(&ops.0);
                let c = self.op(&ops.1);
                let t = self.cx.ty(lt);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c, n(t)])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o)]),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(p);
                J::A(vec![s("discr"), self.place(p), n(t)])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.op(o)).collect();
                match &**k {
                    AggregateKind::Adt(d, vi, a, _, fld) => {
                        self.cx.seen_adt(*d);
                        let def = tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names: Vec<J> = match fld {
                            Some(f) => vec![s(v.fields[*f].name)],
                            None => v.fields.iter().map(|f| s(f.name)).collect(),
                        };
                        let p = self.cx.path(*d);
                        let aj = self.cx.args(a);
                        J::A(vec![s("agg"), s("adt"), J::S(p), s(v.name), J::A(names), J::A(ops), aj])
                    }
                    AggregateKind::Closure(d, _) => {
                        let p = self.cx.path(*d);
                        J::A(vec![s("agg"), s("closure"), J::S(p), J::Null, J::Null, J::A(ops)])
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        let p = self.cx.path(*d);
                        J::A(vec![s("agg"), s("coroutine"), J::S(p), J::Null, J::Null, J::A(ops)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::Null, J::Null, J::Null, J::A(ops)]),
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), J::Null, J::Null, J::Null, J::A(ops)]),
                    _ => J::A(vec![s("agg"), s("raw"), J::Null, J::Null, J::Null, J::A(ops)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            other => J::A(vec![s("other"), s(format!("{:?}", other).chars().take(80).collect::<String>())]),
        }
    }
    fn body(&mut self) -> Vec<(&'static str, J)> {
        let body = self.body;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upn: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(p);
                    upn.push(J::A(vec![s(v.name), pj]));
                }
            }
        }
        let mut ls = vec![];
        for (i, d) in body.local_decls.iter_enumerated() {
            let t = self.cx.ty(d.ty);
            ls.push(match names.get(&i.as_usize()) {
                Some(nm) => J::A(vec![n(t), s(nm)]),
                None => n(t),
            });
        }
        let mut bbs = vec![];
        for b in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &b.statements {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let l = self.cx.line(st.source_info.span);
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        ss.push(J::A(vec![p, r, n(l)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let l = self.cx.line(st.source_info.span);
                        let p = self.place(place);
                        ss.push(J::A(vec![p, J::A(vec![s("setdiscr"), n(variant_index.as_usize())]), n(l)]));
                    }
                    StatementKind::StorageDead(l) => ss.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let l = self.cx.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.as_usize()),
                _ => J::Null,
            };
            let bbn = |b: &BasicBlock| n(b.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&self.body.local_decls, self.cx.tcx);
                    let o = self.op(discr);
                    let t = self.cx.ty(dt);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbn(&b)])).collect();
                    J::A(vec![s("switch"), o, n(t), J::A(v), bbn(&targets.otherwise()), n(l)])
                }
                TerminatorKind::Return => J::A(vec![s("ret"), n(l)]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place);
                    let ty = self.place_ty(place);
                    J::A(vec![s("drop"), p, n(ty), bbn(target), uw(unwind), n(l)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(*d, (*a).skip_binder()),
                            _ => self.op(func),
                        },
                        _ => self.op(func),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    let d = self.place(destination);
                    J::A(vec![
                        s("call"), f, J::A(a), d,
                        match target { Some(t) => bbn(t), None => J::Null },
                        uw(unwind), n(l),
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.op(func);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    J::A(vec![s("tailcall"), f, J::A(a), n(l)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let m = match &**msg {
                        AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), J::S(m), bbn(target), n(l)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.op(value);
                    let ra = self.place(resume_arg);
                    J::A(vec![s("yield"), v, bbn(resume), ra, n(l)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            let mut o = vec![("s", J::A(ss)), ("t", tj)];
            if b.is_cleanup {
                o.push(("c", J::I(1)));
            }
            bbs.push(J::O(o));
        }
        let _ = self.owner;
        vec![("argc", n(body.arg_count)), ("locals", J::A(ls)), ("dbg", J::A(upn)), ("bbs", J::A(bbs))]
    }
}

fn cval<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, c: Const<'tcx>) -> Option<J> {
    use rustc_middle::ty::TypeVisitableExt;
    if let Const::Unevaluated(u, _) = c {
        if u.args.has_param() || u.args.has_infer() {
            return None;
        }
    }
    if c.ty().has_param() {
        return None;
    }
    let v = c.eval(tcx, env, rustc_span::DUMMY_SP).ok()?;
    let t = c.ty();
    let mut budget = 3000usize;
    vconv(tcx, v, t, 0, &mut budget)
}

/// the static item a constant points to
fn static_of<'tcx>(tcx: TyCtxt<'tcx>, c: Const<'tcx>) -> Option<DefId> {
    let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c else { return None };
    let (prov, offset) = p.prov_and_relative_offset();
    if offset.bytes() != 0 {
        return None;
    }
    match tcx.try_get_global_alloc(prov.alloc_id())? {
        rustc_middle::mir::interpret::GlobalAlloc::Static(d) => Some(d),
        _ => None,
    }
}

fn vconv<'tcx>(tcx: TyCtxt<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize, budget: &mut usize) -> Option<J> {
    use rustc_middle::ty::TypeVisitableExt;
    if depth > 8 || *budget == 0 || t.has_non_region_param() {
        return None;
    }
    *budget -= 1;
    if v.all_bytes_uninit(tcx) {
        return None;
    }
    match (v, t.kind()) {
        (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)), _) if t.is_integral() || t.is_bool() || t.is_char() => {
            return Some(match t.kind() {
                ty::Bool => J::B(i.try_to_bool().unwrap_or(false)),
                ty::Int(_) => J::I(i.to_int(i.size())),
                ty::Char => J::I(i.to_uint(i.size()) as i128),
                _ => {
                    let x = i.to_uint(i.size());
                    if x > i128::MAX as u128 { J::S(x.to_string()) } else { J::I(x as i128) }
                }
            });
        }
        (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)), ty::Float(f)) => {
            let b = i.to_uint(i.size());
            let x = match f {
                ty::FloatTy::F64 => format!("{:?}", f64::from_bits(b as u64)),
                ty::FloatTy::F32 => format!("{:?}", f32::from_bits(b as u32)),
                _ => format!("{:?}", i),
            };
            return Some(J::O(vec![("F", J::S(x))]));
        }
        (_, ty::Pat(base, _)) => return vconv(tcx, v, *base, depth + 1, budget),
        (_, ty::Ref(_, inner, _)) => {
            if inner.is_str() {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                return Some(J::S(String::from_utf8_lossy(b).to_string()));
            }
            if let (ty::Array(..), ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) = (inner.kind(), v) {
                let (prov, offset) = p.prov_and_relative_offset();
                return vconv(tcx, ConstValue::Indirect { alloc_id: prov.alloc_id(), offset }, *inner, depth + 1, budget);
            }
            if let ty::Slice(e) = inner.kind() {
                if let ConstValue::Slice { alloc_id, meta } = v {
                    if meta == 0 {
                        return Some(J::O(vec![("A", J::A(vec![]))]));
                    }
                    if meta > 4096 {
                        return None;
                    }
                    let at = Ty::new_array(tcx, *e, meta);
                    return vconv(tcx, ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, at, depth + 1, budget);
                }
            }
            return None;
        }
        (ConstValue::Indirect { alloc_id, offset }, ty::Array(e, l)) if *e == tcx.types.u8 => {
            let l = l.try_to_target_usize(tcx)?;
            if l > 4096 {
                return None;
            }
            let alloc = tcx.try_get_global_alloc(alloc_id)?;
            let rustc_middle::mir::interpret::GlobalAlloc::Memory(alloc) = alloc else { return None };
            let range = rustc_middle::mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(l) };
            let b = alloc.inner().get_bytes_strip_provenance(&tcx, range).ok()?;
            let mut h = String::new();
            for x in b {
                let _ = write!(h, "{:02x}", x);
            }
            return Some(J::O(vec![("b", J::S(h))]));
        }
        (_, ty::Array(..) | ty::Tuple(..) | ty::Adt(..)) => {
            if let ty::Array(_, l) = t.kind() {
                if l.try_to_target_usize(tcx)? > 1024 {
                    return None;
                }
            }
            let c = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let fields: Vec<(ConstValue, Ty<'tcx>)> = c.fields.to_vec();
            let vs: Vec<J> = fields.iter().map(|(v, t)| vconv(tcx, *v, *t, depth + 1, budget).unwrap_or_else(|| J::O(vec![("U", J::S(format!("{:?}: {:?}", v, t)))]))).collect();
            return Some(match t.kind() {
                ty::Array(..) => J::O(vec![("A", J::A(vs))]),
                ty::Tuple(..) => J::O(vec![("T", J::A(vs))]),
                ty::Adt(def, _) => {
                    if def.variants().is_empty() {
                        return None;
                    }
                    let vd = def.variant(c.variant?);
                    let names: Vec<J> = vd.fields.iter().map(|f| s(f.name)).collect();
                    let p = with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(tcx.def_path_str(def.did()))));
                    J::O(vec![("S", J::S(p)), ("V", s(vd.name)), ("n", J::A(names)), ("f", J::A(vs))])
                }
                _ => return None,
            });
        }
        _ => None,
    }
}

struct Cb {
    out: String,
}

thread_local! {
    /// Bodies as they are right before the coroutine transform, taken as the query computes them: the later
    /// passes steal them (for every coroutine already during type checking).
    static COROS: std::cell::RefCell<HashMap<LocalDefId, Box<Body<'static>>>> = Default::default();
    static BODIES: std::cell::RefCell<HashMap<LocalDefId, Box<Body<'static>>>> = Default::default();
}

fn capture_mir<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_drops_elaborated_and_const_checked)(tcx, d);
    let b: Box<Body<'tcx>> = Box::new(r.borrow().clone());
    let b: Box<Body<'static>> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(d, b));
    r
}

/// Coroutine bodies: as built (the state-machine transform is part of the query above).
fn capture_coroutine<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> (
    &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
    &'tcx rustc_data_structures::steal::Steal<rustc_index::IndexVec<Promoted, Body<'tcx>>>,
) {
    let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_promoted)(tcx, d);
    if tcx.is_coroutine(d.to_def_id()) {
        let b: Box<Body<'tcx>> = Box::new(r.0.borrow().clone());
        let b: Box<Body<'static>> = unsafe { std::mem::transmute(b) };
        COROS.with(|m| m.borrow_mut().insert(d, b));
    }
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            p.queries.mir_drops_elaborated_and_const_checked = capture_mir;
            p.queries.mir_promoted = capture_coroutine;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, outdir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx { tcx, tys: HashMap::new(), consts: HashMap::new(), tyout: vec![], adts: HashSet::new(), adt_queue: vec![], paths: HashMap::new() };
    let mut out = String::new();
    let mut seen_ids: BTreeMap<String, usize> = BTreeMap::new();
    let emit = |kind: &str, j: J, out: &mut String| {
        out.push_str(kind);
        out.push('\t');
        j.w(out);
        out.push('\n');
    };
    // --- items
    let mut consts: Vec<LocalDefId> = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.seen_adt(d),
            DefKind::Impl { .. } => {
                let selft = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = cx.ty(selft);
                let mut o: Vec<(&'static str, J)> = vec![("id", J::S(cx.path(d))), ("self", n(st))];
                let (f, l) = cx.loc(tcx.def_span(d));
                o.push(("file", J::S(f)));
                o.push(("line", n(l)));
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let p = cx.path(tr.def_id);
                    o.push(("tr", J::S(p)));
                    let a = cx.args(tr.args);
                    o.push(("tra", a));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let p = cx.path(it.def_id);
                    let timpl = match it.trait_item_def_id() { Some(t) => J::S(cx.path(t)), None => J::Null };
                    let extra = if tcx.def_kind(it.def_id) == DefKind::AssocTy {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        n(cx.ty(t))
                    } else { J::Null };
                    let nm = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                    items.push(J::A(vec![J::S(nm), J::S(p), timpl, extra]));
                }
                o.push(("items", J::A(items)));
                let preds: Vec<J> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| J::S(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", p))))).collect();
                o.push(("preds", J::A(preds)));
                emit("impl", J::O(o), &mut out);
            }
            DefKind::Trait => {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let p = cx.path(it.def_id);
                    let nm = it.opt_name().map(|x| x.to_string()).unwrap_or_default();
                    items.push(J::A(vec![J::S(nm), J::S(p), J::B(it.defaultness(tcx).has_value())]));
                }
                let sup: Vec<J> = tcx.explicit_super_clauses_of(d).skip_binder().iter().map(|(p, _)| J::S(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", p))))).collect();
                let vis = tcx.visibility(d);
                let o = J::O(vec![("id", J::S(cx.path(d))), ("items", J::A(items)), ("super", J::A(sup)), ("vis", J::S(cx.vis(vis)))]);
                emit("trait", o, &mut out);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => consts.push(id),
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let (f, l) = cx.loc(tcx.def_span(d));
                let o = J::O(vec![("id", J::S(cx.path(d))), ("ty", n(ti)), ("file", J::S(f)), ("line", n(l))]);
                emit("static", o, &mut out);
            }
            _ => {}
        }
    }
    for id in consts {
        let d = id.to_def_id();
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ti = cx.ty(t);
        let (f, l) = cx.loc(tcx.def_span(d));
        let generic = tcx.generics_of(d).requires_monomorphization(tcx);
        let has_body = tcx.hir_maybe_body_owned_by(id).is_some();
        let v = if generic || !has_body {
            None
        } else {
            match tcx.const_eval_poly(d) {
                Ok(v) => cval(tcx, TypingEnv::fully_monomorphized(), Const::Val(v, tcx.erase_and_anonymize_regions(t))),
                Err(_) => None,
            }
        };
        let o = J::O(vec![("id", J::S(cx.path(d))), ("ty", n(ti)), ("v", v.unwrap_or(J::Null)), ("file", J::S(f)), ("line", n(l))]);
        emit("const", o, &mut out);
    }
    // --- bodies
    for &id in tcx.mir_keys(()).iter() {
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        let is_const = matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        if matches!(dk, DefKind::Ctor(..) | DefKind::AnonConst | DefKind::SyntheticCoroutineBody) {
            continue;
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        let mut p = cx.path(d);
        let c = seen_ids.entry(p.clone()).or_insert(0);
        *c += 1;
        if *c > 1 {
            p = format!("{}#{}", p, *c);
        }
        o.push(("id", J::S(p)));
        let (f, l) = cx.loc(tcx.def_span(d));
        o.push(("file", J::S(f)));
        o.push(("line", n(l)));
        o.push(("kind", s(format!("{:?}", dk).split(|c: char| !c.is_alphanumeric()).next().unwrap())));
        if matches!(dk, DefKind::Closure) {
            let tr = tcx.typeck_root_def_id(d);
            o.push(("root", J::S(cx.path(tr))));
            let par = tcx.parent(d);
            o.push(("parent", J::S(cx.path(par))));
            if tcx.is_coroutine(d) {
                o.push(("coro", J::B(true)));
            }
            let caps: Vec<J> = tcx.closure_captures(id).iter().map(|c| s(c.to_symbol())).collect();
            o.push(("caps", J::A(caps)));
        } else {
            let vis = tcx.visibility(d);
            o.push(("vis", J::S(cx.vis(vis))));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("sig", J::S(with_no_trimmed_paths!(with_resolve_crate_name!(sig.to_string())))));
            o.push(("const", J::B(tcx.is_const_fn(d))));
            o.push(("async", J::B(tcx.asyncness(d).is_async())));
            let preds: Vec<J> = tcx.clauses_of(d).clauses.iter().map(|(p, _)| J::S(with_no_trimmed_paths!(with_resolve_crate_name!(format!("{}", p))))).collect();
            o.push(("preds", J::A(preds)));
        }
        {
            let gd = tcx.typeck_root_def_id(d);
            let mut names: Vec<J> = vec![];
            let mut g = tcx.generics_of(gd);
            let mut chain = vec![g];
            while let Some(pd) = g.parent {
                g = tcx.generics_of(pd);
                chain.push(g);
            }
            for g in chain.iter().rev() {
                for p in g.own_params.iter() {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        names.push(s(p.name));
                    }
                }
            }
            if !names.is_empty() {
                o.push(("gen", J::A(names)));
            }
        }
        if let Some(par) = tcx.opt_parent(d) {
            match tcx.def_kind(par) {
                DefKind::Impl { .. } => {
                    let selft = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(selft);
                    o.push(("self", n(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        let p = cx.path(tr.skip_binder().def_id);
                        o.push(("impl_tr", J::S(p)));
                    }
                    if let Some(ti) = tcx.trait_item_of(d) {
                        let p = cx.path(ti);
                        o.push(("trait_item", J::S(p)));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(par))));
                }
                DefKind::Trait => {
                    let p = cx.path(par);
                    o.push(("of_trait", J::S(p)));
                }
                _ => {}
            }
        }
        let env = TypingEnv::post_analysis(tcx, d);
        if is_const {
            let body = tcx.mir_for_ctfe(d);
            let mut b = Bcx { cx: &mut cx, body, env, owner: d };
            o.extend(b.body());
        } else {
            let _ = tcx.mir_drops_elaborated_and_const_checked(id);
            let body: Box<Body<'static>> = COROS
                .with(|m| m.borrow_mut().remove(&id))
                .or_else(|| BODIES.with(|m| m.borrow_mut().remove(&id)))
                .expect("body captured");
            let body: Box<Body<'tcx>> = unsafe { std::mem::transmute(body) };
            {
                let mut b = Bcx { cx: &mut cx, body: &*body, env, owner: d };
                o.extend(b.body());
            }
            let pr = tcx.promoted_mir(d);
            let mut v = vec![];
            for body in pr.iter() {
                let mut b = Bcx { cx: &mut cx, body, env, owner: d };
                v.push(J::O(b.body()));
            }
            if !v.is_empty() {
                o.push(("promoted", J::A(v)));
            }
        }
        emit("fn", J::O(o), &mut out);
    }
    while let Some(d) = cx.adt_queue.pop() {
        let j = cx.adt(d);
        emit("adt", j, &mut out);
    }
    for (i, t) in std::mem::take(&mut cx.tyout).into_iter().enumerate() {
        let _ = i;
        emit("ty", t, &mut out);
    }
    let _ = std::fs::create_dir_all(outdir);
    let cts = tcx.crate_types();
    let suffix = if cts.iter().any(|c| format!("{:?}", c) == "Executable") { "-bin" } else { "" };
    let path = format!("{}/{}{}.facts", outdir, krate, suffix);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    let mut f = std::fs::File::create(&tmp).unwrap();
    f.write_all(out.as_bytes()).unwrap();
    drop(f);
    std::fs::rename(&tmp, &path).unwrap();
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MLDRIVER_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let probing = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a == "___");
    rustc_driver::catch_with_exit_code(move || {
        if out.is_empty() || is_build_script || probing {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N)
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
    })
}
