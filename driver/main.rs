#![feature(rustc_private)]
// Dumps the MIR (overflow checks on, MIR optimisations off) of one crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(t: T) -> J {
    J::S(t.to_string())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::U(i) => write!(o, "{i}").unwrap(),
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                let mut first = true;
                for (k, x) in v.iter() {
                    if let J::N = x {
                        continue;
                    }
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashMap<DefId, ()>,
    adt_todo: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() && !p.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p)
        } else {
            p
        }
    }
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tmap.insert(t, i);
        let txt = ("s", s(t));
        let j = match t.kind() {
            ty::Adt(d, args) => {
                let did = d.did();
                if self.adt_seen.insert(did, ()).is_none() {
                    self.adt_todo.push(did);
                }
                let a: Vec<J> = args.types().map(|x| J::I(self.ty(x) as i128)).collect();
                J::O(vec![("k", s("adt")), ("path", J::S(self.id(did))), ("args", J::A(a)), txt])
            }
            ty::Ref(_, x, m) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(m.is_mut())),
                ("ty", J::I(self.ty(*x) as i128)),
                txt,
            ]),
            ty::RawPtr(x, m) => J::O(vec![
                ("k", s("ptr")),
                ("mut", J::B(m.is_mut())),
                ("ty", J::I(self.ty(*x) as i128)),
                txt,
            ]),
            ty::Slice(x) => J::O(vec![("k", s("slice")), ("ty", J::I(self.ty(*x) as i128)), txt]),
            ty::Array(x, n) => J::O(vec![
                ("k", s("array")),
                ("ty", J::I(self.ty(*x) as i128)),
                ("len", n.try_to_target_usize(self.tcx).map_or(J::N, |v| J::U(v as u128))),
                txt,
            ]),
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|x| J::I(self.ty(x) as i128)).collect();
                J::O(vec![("k", s("tuple")), ("args", J::A(a)), txt])
            }
            ty::Closure(d, args) => {
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| J::I(self.ty(x) as i128)).collect();
                J::O(vec![("k", s("closure")), ("path", J::S(self.id(*d))), ("args", J::A(ups)), txt])
            }
            ty::FnDef(d, _) => J::O(vec![("k", s("fndef")), ("path", J::S(self.id(*d))), txt]),
            ty::Param(_) => J::O(vec![("k", s("param")), txt]),
            ty::Str => J::O(vec![("k", s("str")), txt]),
            ty::Bool => J::O(vec![("k", s("bool")), txt]),
            ty::Char => J::O(vec![("k", s("char")), txt]),
            ty::Int(_) => J::O(vec![("k", s("int")), txt]),
            ty::Uint(_) => J::O(vec![("k", s("uint")), txt]),
            ty::Float(_) => J::O(vec![("k", s("float")), txt]),
            ty::Never => J::O(vec![("k", s("never")), txt]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), txt]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), txt]),
            _ => J::O(vec![("k", s("other")), txt]),
        };
        self.types[i] = j;
        i
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty(t) as i128)
    }
    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_todo.pop() {
            let def = self.tcx.adt_def(d);
            let mut vs = Vec::new();
            let krate = self.tcx.crate_name(d.krate).to_string();
            let detailed = d.is_local()
                || matches!(krate.as_str(), "crossterm" | "minimad" | "crokey" | "coolor");
            if def.is_struct() || def.is_enum() {
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        J::S(def.discriminant_for_variant(self.tcx, vi).val.to_string())
                    } else {
                        J::N
                    };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub",
                            _ => "restricted",
                        };
                        let fty = if detailed {
                            let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            self.tyj(t)
                        } else {
                            J::N
                        };
                        fs.push(J::O(vec![("name", s(f.name)), ("vis", s(vis)), ("ty", fty)]));
                    }
                    vs.push(J::O(vec![("name", s(v.name)), ("discr", discr), ("fields", J::A(fs))]));
                }
            }
            let kind = if def.is_struct() {
                "struct"
            } else if def.is_enum() {
                "enum"
            } else {
                "union"
            };
            self.adts.push(J::O(vec![
                ("path", J::S(self.id(d))),
                ("kind", s(kind)),
                ("local", J::B(d.is_local())),
                ("variants", J::A(vs)),
            ]));
        }
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut proj = Vec::new();
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.index());
                    match pty.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if (d.is_struct() || d.is_enum()) && vi.index() < d.variants().len() {
                                let v = d.variant(vi);
                                if f.index() < v.fields.len() {
                                    name = v.fields[f].name.to_string();
                                }
                            }
                        }
                        _ => {}
                    }
                    let owner = match pty.ty.kind() {
                        ty::Adt(d, _) => J::S(self.id(d.did())),
                        ty::Closure(..) => s("closure"),
                        _ => s("tuple"),
                    };
                    let t = self.tyj(fty);
                    J::A(vec![s("f"), J::I(f.index() as i128), J::S(name), owner, t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::U(offset as u128),
                    J::B(from_end),
                    J::U(min_length as u128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = n.map(|n| n.to_string()).unwrap_or_else(|| format!("{}", vi.index()));
                    J::A(vec![s("d"), J::I(vi.index() as i128), J::S(name)])
                }
                _ => J::A(vec![s("?"), s(format!("{e:?}"))]),
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        let t = self.tyj(pty.ty);
        J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(proj)), ("t", t)])
    }

    fn fn_ref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![("path", J::S(self.path(d))), ("id", J::S(self.id(d)))];
        let targs: Vec<J> = args.types().map(|t| self.tyj(t)).collect();
        v.push(("targs", J::A(targs)));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            v.push(("trait", J::S(self.id(tr))));
            v.push(("method", s(self.tcx.item_name(d))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(self.tcx, env, d, args)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            v.push(("rid", J::S(self.id(rd))));
            v.push(("rpath", J::S(self.path(rd))));
            v.push(("rlocal", J::B(rd.is_local())));
            let k = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "other",
            };
            v.push(("rkind", s(k)));
        }
        J::O(v)
    }

    fn const_str(&mut self, val: ConstValue, t: Ty<'tcx>) -> J {
        // &str
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return J::O(vec![("str", s(String::from_utf8_lossy(b)))]);
                }
            }
        }
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Char => J::O(vec![(
                        "char",
                        s(char::from_u32(bits as u32).unwrap_or('\u{fffd}')),
                    ), ("int", J::U(bits))]),
                    ty::Int(_) => J::O(vec![("int", J::I(size.sign_extend(bits)))]),
                    ty::Uint(_) => J::O(vec![("int", J::U(bits))]),
                    ty::Float(ty::FloatTy::F32) => J::O(vec![("float", s(f32::from_bits(bits as u32)))]),
                    ty::Float(ty::FloatTy::F64) => J::O(vec![("float", s(f64::from_bits(bits as u64)))]),
                    _ => J::O(vec![("bits", J::S(bits.to_string()))]),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, _off) = p.into_raw_parts();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => J::O(vec![("static", J::S(self.id(d))), ("stpath", J::S(self.path(d)))]),
                    GlobalAlloc::Function { instance } => {
                        J::O(vec![("fnptr", J::S(self.id(instance.def_id())))])
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            J::O(vec![("bytes", J::A(b.iter().map(|x| J::U(*x as u128)).collect()))])
                        } else {
                            J::O(vec![("alloc", J::B(true))])
                        }
                    }
                    _ => J::O(vec![("alloc", J::B(true))]),
                }
            }
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            _ => J::O(vec![("opaque", s(format!("{val:?}")))]),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.tyj(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fn_ref(*d, args.skip_binder(), env);
            return J::O(vec![("ty", tj), ("fn", f)]);
        }
        if let ty::Closure(d, _) = t.kind() {
            return J::O(vec![("ty", tj), ("closure", J::S(self.id(*d)))]);
        }
        let mut v = vec![("ty", tj)];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", J::S(format!("{}::{{promoted#{}}}", self.id(u.def), p.index()))));
                return J::O(v);
            }
            v.push(("named", J::S(self.id(u.def))));
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            c.const_.eval(self.tcx, env, c.span)
        }));
        if let Ok(Ok(val)) = r {
            let j = self.const_str(val, t);
            v.push(("val", j));
        }
        J::O(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("cp", self.place(p, body))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(p, body))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(c, env))]),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("other", s(format!("{o:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, body, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(o, body, env),
                n.try_to_target_usize(self.tcx).map_or(J::N, |v| J::U(v as u128)),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                J::B(matches!(bk, BorrowKind::Mut { .. })),
                self.place(p, body),
            ]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let tj = self.tyj(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o, body, env), tj])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env),
            ]),
            Rvalue::UnaryOp(op, o) => {
                J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o, body, env)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p, body)]),
            Rvalue::Aggregate(k, ops) => {
                let a: Vec<J> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::O(vec![("k", s("array"))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names: Vec<J> = match active {
                            None => v.fields.iter().map(|f| s(f.name)).collect(),
                            Some(f) => vec![s(v.fields[*f].name)],
                        };
                        J::O(vec![
                            ("k", s("adt")),
                            ("path", J::S(self.id(*d))),
                            ("variant", s(v.name)),
                            ("vi", J::I(vi.index() as i128)),
                            ("fields", J::A(names)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::O(vec![("k", s("closure")), ("path", J::S(self.id(*d)))])
                    }
                    x => J::O(vec![("k", s("other")), ("d", s(format!("{x:?}")))]),
                };
                J::A(vec![s("agg"), kj, J::A(a)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p, body))])]),
            x => J::A(vec![s("other"), s(format!("{x:?}"))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::I(lo.line as i128)
    }

    fn body(&mut self, body: &Body<'tcx>, id: String, path: String, kind: &str, did: DefId) -> J {
        let env = TypingEnv::post_analysis(self.tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names.entry(l.index()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(p, body);
                    upvars.push(J::A(vec![s(v.name), pj]));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.tyj(d.ty);
            let n = names.get(&l.index()).map_or(J::N, |n| s(n));
            locals.push(J::O(vec![("t", t), ("n", n)]));
        }
        let mut blocks = Vec::new();
        for (_bi, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &b.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, body);
                        let r = self.rvalue(&a.1, body, env);
                        st.push(J::A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![s("setd"), p, J::I(variant_index.index() as i128), ln]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), J::I(l.index() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let bb = |x: BasicBlock| J::I(x.index() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("to", bb(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, env);
                    let tt = discr.ty(&body.local_decls, self.tcx);
                    let tyj = self.tyj(tt);
                    let mut a = Vec::new();
                    for (v, b) in targets.iter() {
                        a.push(J::A(vec![J::U(v), bb(b)]));
                    }
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", o),
                        ("ty", tyj),
                        ("arms", J::A(a)),
                        ("else", bb(targets.otherwise())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::O(vec![("k", s("resume"))])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, body);
                    J::O(vec![("k", s("drop")), ("pl", p), ("to", bb(*target))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let d = self.place(destination, body);
                    J::O(vec![
                        ("k", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("dst", d),
                        ("to", target.map_or(J::N, bb)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            vec![self.operand(len, body, env), self.operand(index, body, env)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{op:?}"),
                            vec![self.operand(a, body, env), self.operand(b, body, env)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow:Neg".to_string(), vec![self.operand(a, body, env)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("divzero".to_string(), vec![self.operand(a, body, env)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("remzero".to_string(), vec![self.operand(a, body, env)])
                        }
                        x => (format!("other:{x:?}"), vec![]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", c),
                        ("exp", J::B(*expected)),
                        ("msg", J::S(mk)),
                        ("ops", J::A(ops)),
                        ("to", bb(*target)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("to", bb(*real_target))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("to", bb(*real_target))])
                }
                x => J::O(vec![("k", s("other")), ("d", s(format!("{x:?}")))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("ln", ln),
                ("cl", if b.is_cleanup { J::B(true) } else { J::N }),
            ]));
        }
        let sp = self.tcx.def_span(did);
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let dk = self.tcx.def_kind(did);
        let (vis, parent) = (
            if matches!(dk, DefKind::Closure) {
                "closure"
            } else if self.tcx.visibility(did).is_public() {
                "pub"
            } else {
                "priv"
            },
            self.tcx.opt_parent(did),
        );
        let mut impl_of = J::N;
        let mut impl_self = J::N;
        let mut impl_def = J::N;
        if let Some(p) = parent {
            if let DefKind::Impl { of_trait } = self.tcx.def_kind(p) {
                if of_trait {
                    let tr = self.tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    impl_of = J::S(self.id(tr.def_id));
                }
                let st = self.tcx.type_of(p).instantiate_identity().skip_norm_wip();
                impl_self = self.tyj(st);
                impl_def = J::B(self.tcx.sess.source_map().lookup_char_pos(self.tcx.def_span(p).lo()).line > 0
                    && self.tcx.def_span(p).from_expansion());
            }
        }
        let reach = if let Some(l) = did.as_local() {
            self.tcx.effective_visibilities(()).is_reachable(l)
        } else {
            false
        };
        let name = if matches!(dk, DefKind::Closure) { J::N } else { self.tcx.opt_item_name(did).map_or(J::N, |n| s(n)) };
        J::O(vec![
            ("id", J::S(id)),
            ("path", J::S(path)),
            ("name", name),
            ("kind", s(kind)),
            ("file", J::S(file)),
            ("line", J::I(lo.line as i128)),
            ("vis", s(vis)),
            ("reach", J::B(reach)),
            ("parent", parent.map_or(J::N, |p| J::S(self.id(p)))),
            ("impl_of", impl_of),
            ("impl_self", impl_self),
            ("derived", impl_def),
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upvars", J::A(upvars)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            adts: vec![],
            adt_seen: HashMap::new(),
            adt_todo: vec![],
        };
        let mut bodies = Vec::new();
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (b, k): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => (tcx.mir_for_ctfe(d), "const"),
                DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "static"),
                _ => continue,
            };
            let id = cx.id(d);
            let path = cx.path(d);
            let j = cx.body(b, id.clone(), path.clone(), k, d);
            bodies.push(j);
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                let j = cx.body(
                    pb,
                    format!("{}::{{promoted#{}}}", id, pi.index()),
                    format!("{}::{{promoted#{}}}", path, pi.index()),
                    "promoted",
                    d,
                );
                bodies.push(j);
            }
        }
        cx.drain_adts();
        let mut impls = Vec::new();
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = cx.tyj(tr.self_ty());
                impls.push(J::O(vec![("trait", J::S(cx.id(tr.def_id))), ("self", st), ("id", J::S(cx.id(d)))]));
            }
        }
        cx.drain_adts();
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::A(std::mem::take(&mut cx.adts))),
            ("impls", J::A(impls)),
            ("bodies", J::A(bodies)),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, o).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc path when used as a wrapper
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("VERIF_CRATE").unwrap_or_default();
    let out = std::env::var("VERIF_DUMP").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && name == want && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
