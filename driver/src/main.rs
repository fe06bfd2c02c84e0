//! mirx: exports the type-checked MIR of one crate as JSON facts for the static analysis in /verif.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; acts only on the crate named in
//! MIRX_CRATE and writes to MIRX_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("MIRX_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want {
            let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
            let j = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(Ex::new(tcx).run()));
            std::fs::write(&out, j).expect("write MIRX_OUT");
        }
        rustc_driver::Compilation::Continue
    }
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
    defs: HashMap<DefId, J>,
}

fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn n(x: usize) -> J { J::N(x as i128) }

impl<'tcx> Ex<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Ex { tcx, tys: vec![], tyix: HashMap::new(), adts: HashMap::new(), defs: HashMap::new() }
    }

    /// A stable, unique name: crate::path with impl indices.
    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.uid(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.head(*t)),
            ty::Slice(_) => "[]".into(),
            ty::Array(..) => "[;]".into(),
            ty::Tuple(_) => "()".into(),
            ty::Param(p) => format!("{}", p.name),
            ty::Dynamic(p, _) => match p.principal_def_id() { Some(d) => format!("dyn {}", self.uid(d)), None => "dyn".into() },
            ty::Closure(d, _) => self.uid(*d),
            ty::RawPtr(..) => "*ptr".into(),
            _ => format!("{}", t),
        }
    }

    /// Readable canonical name: Self::method / <Self as Trait>::method / Trait::method / path.
    fn defj(&mut self, d: DefId) -> J {
        let uid = self.uid(d);
        if !self.defs.contains_key(&d) {
            let tcx = self.tcx;
            let mut o: Vec<(&str, J)> = vec![("local", J::B(d.is_local()))];
            let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
            o.push(("name", s(&name)));
            let mut canon = uid.clone();
            if let Some(p) = tcx.opt_parent(d) {
                match tcx.def_kind(p) {
                    DefKind::Impl { of_trait } => {
                        let selfty = tcx.type_of(p).skip_binder();
                        let h = self.head(selfty);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).skip_binder();
                            let t = self.uid(tr.def_id);
                            canon = format!("<{} as {}>::{}", h, t, name);
                            o.push(("trait", s(t)));
                        } else {
                            canon = format!("{}::{}", h, name);
                        }
                        o.push(("impl_self", s(h)));
                        o.push(("impl", s(self.uid(p))));
                    }
                    DefKind::Trait => {
                        let t = self.uid(p);
                        canon = format!("{}::{}", t, name);
                        o.push(("trait", s(&t)));
                        o.push(("intrait", J::B(true)));
                    }
                    _ => {}
                }
            }
            o.push(("canon", s(canon)));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure | DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Impl{..} | DefKind::Const{..} | DefKind::AssocConst{..}) {
                let g = tcx.generics_of(d);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    names.push(s(p.name));
                }
                o.push(("generics", J::A(names)));
            }
            let j = J::obj(o);
            self.defs.insert(d, j);
        }
        s(uid)
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => v.push(J::S("'".into())),
                GenericArgKind::Type(t) => { let i = self.ty(t); v.push(n(i)) }
                GenericArgKind::Const(c) => v.push(J::S(format!("const {}", c))),
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyix.get(&t) { return *i; }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tyix.insert(t, i);
        let k = |x: &str| ("k", s(x));
        let j = match t.kind() {
            ty::Bool => J::obj(vec![k("bool")]),
            ty::Char => J::obj(vec![k("char")]),
            ty::Str => J::obj(vec![k("str")]),
            ty::Never => J::obj(vec![k("never")]),
            ty::Int(x) => J::obj(vec![k("int"), ("n", s(x.name_str()))]),
            ty::Uint(x) => J::obj(vec![k("int"), ("n", s(x.name_str()))]),
            ty::Float(x) => J::obj(vec![k("float"), ("n", s(x.name_str()))]),
            ty::Adt(a, args) => {
                let d = self.defj(a.did());
                self.adt(a.did());
                let ar = self.args(args);
                J::obj(vec![k("adt"), ("d", d), ("a", ar)])
            }
            ty::Ref(_, x, m) => { let x = self.ty(*x); J::obj(vec![k("ref"), ("m", J::B(m.is_mut())), ("t", n(x))]) }
            ty::RawPtr(x, m) => { let x = self.ty(*x); J::obj(vec![k("ptr"), ("m", J::B(m.is_mut())), ("t", n(x))]) }
            ty::Slice(x) => { let x = self.ty(*x); J::obj(vec![k("slice"), ("t", n(x))]) }
            ty::Array(x, c) => { let x = self.ty(*x); J::obj(vec![k("array"), ("t", n(x)), ("n", s(format!("{}", c)))]) }
            ty::Tuple(ts) => { let v = ts.iter().map(|x| n(self.ty(x))).collect(); J::obj(vec![k("tuple"), ("a", J::A(v))]) }
            ty::Param(p) => J::obj(vec![k("param"), ("n", s(p.name)), ("i", n(p.index as usize))]),
            ty::Closure(d, args) => { let dj = self.defj(*d); let ar = self.args(args); J::obj(vec![k("closure"), ("d", dj), ("a", ar)]) }
            ty::FnDef(d, args) => { let dj = self.defj(*d); let ar = self.args(args.skip_binder()); J::obj(vec![k("fndef"), ("d", dj), ("a", ar)]) }
            ty::Dynamic(p, _) => {
                let mut o = vec![k("dyn")];
                if let Some(b) = p.principal() {
                    let b = b.skip_binder();
                    let dj = self.defj(b.def_id);
                    let ar = self.args(b.args);
                    o.push(("d", dj)); o.push(("a", ar));
                }
                let mut pr = vec![];
                for b in p.projection_bounds() {
                    let b = b.skip_binder();
                    if let Some(t) = b.term.as_type() { let t = self.ty(t); pr.push(J::A(vec![s(self.tcx.item_name(b.def_id)), n(t)])); }
                }
                o.push(("proj", J::A(pr)));
                J::obj(o)
            }
            ty::Alias(_, a) => {
                let ar = self.args(a.args);
                J::obj(vec![k("alias"), ("s", s(format!("{}", t))), ("a", ar)])
            }
            _ => J::obj(vec![k("other"), ("s", s(format!("{}", t)))]),
        };
        self.tys[i] = j;
        i
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) { return; }
        self.adts.insert(d, J::Null);
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<(usize, i128)> = if a.is_enum() { a.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val as i128)).collect() } else { vec![] };
        for (i, v) in a.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut o = vec![("n", s(f.name)), ("pub", J::B(f.vis.is_public()))];
                if d.is_local() {
                    let t = tcx.type_of(f.did).skip_binder();
                    o.push(("t", n(self.ty(t))));
                    o.push(("vis", s(format!("{:?}", f.vis))));
                }
                fs.push(J::obj(o));
            }
            let dv = discrs.iter().find(|x| x.0 == i.as_usize()).map(|x| x.1).unwrap_or(0);
            vs.push(J::obj(vec![("n", s(v.name)), ("d", J::N(dv)), ("f", J::A(fs))]));
        }
        self.defj(d);
        let mut o = vec![("kind", s(kind)), ("variants", J::A(vs))];
        if d.is_local() {
            o.push(("span", self.span(tcx.def_span(d))));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
        }
        self.adts.insert(d, J::obj(o));
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        J::A(vec![s(f), n(lo.line)])
    }

    fn decode(&mut self, t: Ty<'tcx>, alloc: rustc_middle::mir::interpret::ConstAllocation<'tcx>, off: u64, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        let rd = |o: u64, sz: u64, ptr: bool| -> Option<Scalar> {
            alloc.inner().read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(o), size: rustc_abi::Size::from_bytes(sz) }, ptr).ok()
        };
        let size = |t: Ty<'tcx>| tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes());
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                let sz = size(t)?;
                let v = rd(off, sz, false)?.try_to_scalar_int().ok()?;
                Some(J::N(v.to_bits_unchecked() as i128))
            }
            ty::Array(e, c) => {
                let len = c.try_to_target_usize(tcx)?;
                let es = size(*e)?;
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(*e, alloc, off + i * es, env, depth + 1)?); }
                Some(J::A(v))
            }
            ty::Tuple(ts) if ts.is_empty() => Some(J::A(vec![])),
            ty::Ref(_, inner, _) => {
                let p = rd(off, 8, true)?;
                let Scalar::Ptr(p, _) = p else { return None };
                let (prov, o) = p.into_raw_parts();
                let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) else { return None };
                let o = o.bytes();
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let len = rd(off + 8, 8, false)?.try_to_scalar_int().ok()?.to_bits_unchecked() as u64;
                        self.decode_slice(*inner, a, o, len, env, depth)
                    }
                    _ => self.decode(*inner, a, o, env, depth + 1),
                }
            }
            _ => None,
        }
    }

    fn decode_slice(&mut self, inner: Ty<'tcx>, a: rustc_middle::mir::interpret::ConstAllocation<'tcx>, o: u64, len: u64, env: TypingEnv<'tcx>, depth: usize) -> Option<J> {
        match inner.kind() {
            ty::Str => {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + len) as usize);
                Some(J::S(String::from_utf8_lossy(b).into_owned()))
            }
            ty::Slice(e) => {
                let es = self.tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(*e, a, o + i * es, env, depth + 1)?); }
                Some(J::A(v))
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("t", n(ti))];
        if let ty::FnDef(..) = t.kind() { return J::obj(o); }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                o.push(("promoted", n(p.as_usize())));
                let d = self.defj(uv.def); o.push(("of", d));
                return J::obj(o);
            }
            let d = self.defj(uv.def);
            o.push(("item", d));
            let a = self.args(uv.args);
            o.push(("iargs", a));
        }
        if let Const::Ty(_, cc) = c.const_ { o.push(("tyconst", s(format!("{}", cc)))); }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Scalar(Scalar::Int(i)) => o.push(("v", J::N(i.to_bits_unchecked() as i128))),
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    if let (GlobalAlloc::Memory(a), ty::Ref(_, inner, _)) = (tcx.global_alloc(prov.alloc_id()), t.kind()) {
                        if let Some(j) = self.decode(*inner, a, off.bytes(), env, 0) { o.push(("v", j)); }
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Slice { alloc_id, meta } => {
                    if let (GlobalAlloc::Memory(a), ty::Ref(_, inner, _)) = (tcx.global_alloc(alloc_id), t.kind()) {
                        if let Some(j) = self.decode_slice(*inner, a, 0, meta, env, 0) { o.push(("v", j)); }
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        if let Some(j) = self.decode(t, a, offset.bytes(), env, 0) { o.push(("v", j)); }
                    }
                }
            }
        }
        J::obj(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), n(f.as_usize()), n(t)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, env)]),
            _ => J::A(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.op(o, env), s(format!("{}", c))]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), s(match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shr", _ => "fake" }), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, env), n(t)]) }
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&x.0, env), self.op(&x.1, env)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), n(t)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        self.adt(*d);
                        let dj = self.defj(*d);
                        let aj = self.args(a);
                        J::A(vec![s("adt"), dj, n(vi.as_usize()), aj, match af { Some(f) => n(f.as_usize()), None => J::Null }])
                    }
                    AggregateKind::Closure(d, a) => { let dj = self.defj(*d); let aj = self.args(a); J::A(vec![s("closure"), dj, aj]) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("rawptr"), n(t)]) }
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shr" }), self.place(p)]),
            _ => J::A(vec![s("?"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, did: DefId) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let locals: Vec<J> = b.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value { let pj = self.place(p); dbg.push(J::A(vec![s(v.name), pj])); }
        }
        let mut bbs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { bbs.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                let line = match self.span(x.source_info.span) { J::A(v) => v.into_iter().nth(1).unwrap(), _ => J::Null };
                match &x.kind {
                    StatementKind::Assign(a) => { let pj = self.place(&a.0); let rj = self.rvalue(&a.1, env); st.push(J::A(vec![s("="), pj, rj, line])) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pj = self.place(place); st.push(J::A(vec![s("setd"), pj, n(variant_index.as_usize()), line])) }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |x: &BasicBlock| n(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.op(discr, env);
                    let dt = self.ty(discr.ty(&b.local_decls, tcx));
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())])).collect();
                    J::A(vec![s("switch"), o, J::A(v), n(targets.otherwise().as_usize()), n(dt), sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => { let pt = self.ty(place.ty(&b.local_decls, tcx).ty); let pj = self.place(place); J::A(vec![s("drop"), pj, bbn(target), n(pt), sp]) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env);
                    let av: Vec<J> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let d = self.place(destination);
                    let dt = self.ty(destination.ty(&b.local_decls, tcx).ty);
                    let mut res = J::Null;
                    if let ty::FnDef(fd, fa) = func.ty(&b.local_decls, tcx).kind() {
                        if tcx.trait_of_assoc(*fd).is_some() {
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, *fd, fa.skip_binder()) {
                                if let ty::InstanceKind::Item(rd) = inst.def {
                                    if rd != *fd { let dj = self.defj(rd); let aj = self.args(inst.args); res = J::A(vec![dj, aj]); }
                                }
                            }
                        }
                    }
                    J::A(vec![s("call"), f, J::A(av), d, match target { Some(t) => bbn(t), None => J::Null }, n(dt), res, sp])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env);
                    let mut m = vec![];
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => { m.push(s("bounds")); let l = self.op(len, env); m.push(l); let i = self.op(index, env); m.push(i); }
                        AssertKind::Overflow(b, x, y) => { m.push(s("overflow")); m.push(s(format!("{:?}", b))); let x = self.op(x, env); m.push(x); let y = self.op(y, env); m.push(y); }
                        AssertKind::DivisionByZero(x) => { m.push(s("divzero")); let x = self.op(x, env); m.push(x); }
                        AssertKind::RemainderByZero(x) => { m.push(s("remzero")); let x = self.op(x, env); m.push(x); }
                        _ => m.push(s("other")),
                    }
                    J::A(vec![s("assert"), c, J::B(*expected), J::A(m), bbn(target), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(real_target)]),
                _ => J::A(vec![s("?")]),
            };
            bbs.push(J::A(vec![J::A(st), tj]));
        }
        J::obj(vec![("args", n(b.arg_count)), ("locals", J::A(locals)), ("dbg", J::A(dbg)), ("bbs", J::A(bbs)), ("span", self.span(b.span))])
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let b = tcx.optimized_mir(d);
            let mut j = match self.body(b, d) { J::O(v) => v, _ => vec![] };
            let dj = self.defj(d);
            j.push(("id".into(), dj));
            j.push(("kind".into(), s(format!("{:?}", kind))));
            j.push(("pub".into(), J::B(tcx.effective_visibilities(()).is_reachable(ld))));
            if kind != DefKind::Closure {
                let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                let v: Vec<J> = sig.inputs_and_output.iter().map(|t| n(self.ty(t))).collect();
                j.push(("sig".into(), J::A(v)));
                j.push(("unsafe".into(), J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            }
            let pr = tcx.promoted_mir(d);
            let v: Vec<J> = pr.iter().map(|p| self.body(p, d)).collect();
            j.push(("promoted".into(), J::A(v)));
            bodies.push(J::O(j));
        }
        // impls and traits
        let mut impls = vec![];
        let mut traits = vec![];
        let items = tcx.hir_crate_items(());
        for id in items.free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).skip_binder();
                    let mut o = vec![("id", self.defj(d)), ("self", n(self.ty(st)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).skip_binder();
                        let t = self.defj(tr.def_id);
                        let a = self.args(tr.args);
                        o.push(("trait", t));
                        o.push(("targs", a));
                    }
                    let mut m = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() { let dj = self.defj(it.def_id); m.push(J::A(vec![s(it.name()), dj, J::B(tcx.visibility(it.def_id).is_public())])); }
                        else if it.is_type() { let t = tcx.type_of(it.def_id).skip_binder(); let t = self.ty(t); m.push(J::A(vec![s(it.name()), n(t)])); }
                    }
                    o.push(("items", J::A(m)));
                    o.push(("span", self.span(tcx.def_span(d))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    let mut preds = vec![];
                    for (p, _) in tcx.clauses_of(d).clauses.iter() { let mut x = String::new(); let _ = write!(x, "{:?}", p); preds.push(J::S(x)); }
                    o.push(("preds", J::A(preds)));
                    impls.push(J::obj(o));
                }
                DefKind::Trait => {
                    let mut m = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() { let dj = self.defj(it.def_id); m.push(J::A(vec![s(it.name()), dj, J::B(it.defaultness(tcx).has_value())])); }
                    }
                    let mut sup = vec![];
                    for (c, _) in tcx.explicit_super_clauses_of(d).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                        if let Some(tp) = c.as_trait_clause() { let x = self.defj(tp.def_id()); sup.push(x); }
                    }
                    let id = self.defj(d);
                    traits.push(J::obj(vec![("id", id), ("items", J::A(m)), ("supers", J::A(sup)), ("pub", J::B(tcx.effective_visibilities(()).is_reachable(id_local(d))))]));
                }
                DefKind::Struct | DefKind::Enum => self.adt(d),
                _ => {}
            }
        }
        let tys = std::mem::take(&mut self.tys);
        let adts: Vec<(String, J)> = self.adts.iter().map(|(d, j)| (self.uid(*d), j.clone())).collect();
        let defs: Vec<(String, J)> = self.defs.iter().map(|(d, j)| (self.uid(*d), j.clone())).collect();
        let root = J::O(vec![
            ("types".into(), J::A(tys)),
            ("adts".into(), J::O(adts)),
            ("defs".into(), J::O(defs)),
            ("bodies".into(), J::A(bodies)),
            ("impls".into(), J::A(impls)),
            ("traits".into(), J::A(traits)),
        ]);
        let mut out = String::new();
        root.write(&mut out);
        out
    }
}

fn id_local(d: DefId) -> rustc_hir::def_id::LocalDefId { d.expect_local() }

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper we are called as: mirx /path/to/rustc args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
