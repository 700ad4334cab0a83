use crate::json::{s, u, J};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, MacroKind, Span};

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn head(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        ty::Adt(a, _) => key(tcx, a.did()),
        ty::Ref(_, i, _) => format!("&{}", head(tcx, *i)),
        ty::Slice(_) => "slice".into(),
        ty::Array(..) => "array".into(),
        ty::Str => "str".into(),
        ty::Tuple(_) => "tuple".into(),
        ty::Closure(d, _) => key(tcx, *d),
        ty::FnDef(d, _) => key(tcx, *d),
        ty::Dynamic(..) => "dyn".into(),
        ty::Param(p) => format!("param:{}", p.name),
        ty::RawPtr(..) => "ptr".into(),
        _ => with_no_trimmed_paths!(t.to_string()),
    }
}

/// A readable, impl-index-free path: `SelfHead::name` for inherent methods,
/// `<SelfHead as Trait>::name` for trait impls, the definition path otherwise.
fn friendly(tcx: TyCtxt<'_>, d: DefId) -> String {
    if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::AssocConst { .. }) {
        let p = tcx.parent(d);
        if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let h = head(tcx, st);
            let name = tcx.item_name(d);
            if of_trait {
                let tr = tcx.impl_trait_ref(p).skip_binder().def_id;
                return format!("<{} as {}>::{}", h, key(tcx, tr), name);
            }
            return format!("{}::{}", h, name);
        }
    }
    key(tcx, d)
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", file, lo.line))
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let k = |x: &str| ("k", s(x));
        match t.kind() {
            ty::Bool => J::O(vec![k("bool")]),
            ty::Char => J::O(vec![k("char")]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![k("int"), ("n", s(t.to_string()))]),
            ty::Float(_) => J::O(vec![k("float"), ("n", s(t.to_string()))]),
            ty::Str => J::O(vec![k("str")]),
            ty::Never => J::O(vec![k("never")]),
            ty::Adt(a, args) => J::O(vec![
                k("adt"),
                ("path", s(key(tcx, a.did()))),
                ("args", J::A(args.types().map(|x| self.ty(x)).collect())),
                ("s", s(with_no_trimmed_paths!(t.to_string()))),
            ]),
            ty::Ref(_, i, m) => {
                J::O(vec![k("ref"), ("mut", J::B(m.is_mut())), ("to", self.ty(*i))])
            }
            ty::RawPtr(i, m) => {
                J::O(vec![k("ptr"), ("mut", J::B(m.is_mut())), ("to", self.ty(*i))])
            }
            ty::Slice(i) => J::O(vec![k("slice"), ("of", self.ty(*i))]),
            ty::Array(i, n) => J::O(vec![
                k("array"),
                ("of", self.ty(*i)),
                ("n", n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null)),
            ]),
            ty::Tuple(ts) => J::O(vec![k("tuple"), ("of", J::A(ts.iter().map(|x| self.ty(x)).collect()))]),
            ty::Closure(d, args) => J::O(vec![
                k("closure"),
                ("def", s(key(tcx, *d))),
                (
                    "kind",
                    s(format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind())),
                ),
            ]),
            ty::FnDef(d, args) => {
                J::O(vec![k("fndef"), ("def", s(key(tcx, *d))), ("callee", self.callee(None, *d, args.skip_binder()))])
            }
            ty::Param(p) => J::O(vec![k("param"), ("n", s(p.name.to_string()))]),
            _ => J::O(vec![k("other"), ("s", s(with_no_trimmed_paths!(t.to_string())))]),
        }
    }

    fn callee(&self, owner: Option<DefId>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d);
        let mut o = vec![
            ("path", s(friendly(tcx, d))),
            ("key", s(key(tcx, d))),
            ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("args", J::A(args.types().map(|x| self.ty(x)).collect())),
            ("consts", J::A(args.consts().map(|c| s(c.to_string())).collect())),
        ];
        if let Some(t) = tr {
            o.push(("trait", s(key(tcx, t))));
        }
        if let DefKind::Fn | DefKind::AssocFn = tcx.def_kind(d) {
            let sg = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(!sg.safety().is_safe())));
        }
        if let Some(ow) = owner {
            let env = TypingEnv::post_analysis(tcx, ow);
            let args2 = tcx.normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new(tcx.erase_and_anonymize_regions(args)));
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args2) {
                let rd = i.def_id();
                o.push(("res", s(friendly(tcx, rd))));
                o.push(("reskey", s(key(tcx, rd))));
                o.push(("rescrate", s(tcx.crate_name(rd.krate).to_string())));
                o.push(("resargs", J::A(i.args.types().map(|x| self.ty(x)).collect())));
                if let DefKind::Ctor(..) = tcx.def_kind(rd) {
                    o.push(("ctor", J::B(true)));
                }
            }
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // struct or variant constructor used as a function
            let p = tcx.parent(d);
            let (adt, variant) = match of {
                rustc_hir::def::CtorOf::Struct => (p, None),
                rustc_hir::def::CtorOf::Variant => (tcx.parent(p), Some(p)),
            };
            o.push(("ctor_adt", s(key(tcx, adt))));
            if let Some(v) = variant {
                let ad = tcx.adt_def(adt);
                let vi = ad.variant_index_with_id(v);
                o.push(("ctor_variant", s(ad.variant(vi).name.to_string())));
                o.push(("ctor_vidx", u(vi.as_usize())));
            }
        }
        J::O(o)
    }

    fn scalar(&self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Int(_) => {
                        let sz = i.size();
                        J::O(vec![("int", J::I(sz.sign_extend(bits) as i128)), ("ty", self.ty(t))])
                    }
                    ty::Uint(_) => J::O(vec![("int", s(bits.to_string())), ("ty", self.ty(t))]),
                    ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                    ty::Float(f) => {
                        let v = match f {
                            ty::FloatTy::F32 => f32::from_bits(bits as u32) as f64,
                            _ => f64::from_bits(bits as u64),
                        };
                        J::O(vec![("float", s(format!("{:?}", v))), ("ty", self.ty(t))])
                    }
                    _ => J::O(vec![("bits", s(bits.to_string())), ("ty", self.ty(t))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let tcx = self.tcx;
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Memory(m)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, n) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                                    let a = m.inner();
                                    let st = off.bytes() as usize;
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                                    return J::O(vec![(
                                        "bytes",
                                        J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
                                    ), ("ty", self.ty(t))]);
                                }
                            }
                        }
                        J::O(vec![("ptr", s("memory")), ("ty", self.ty(t))])
                    }
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(key(tcx, d))), ("ty", self.ty(t))]),
                    Some(GlobalAlloc::Function { instance }) => {
                        let args = instance.args.types().map(|t| self.ty(t)).collect();
                        J::O(vec![("fnptr", s(key(tcx, instance.def_id()))), ("fnargs", J::A(args)), ("ty", self.ty(t))])
                    }
                    _ => J::O(vec![("ptr", s("other")), ("ty", self.ty(t))]),
                }
            }
        }
    }

    fn cval(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(sc) => {
                if let ty::Adt(..) = t.kind() {
                    if let Some(j) = self.destructure(v, t, depth) {
                        return j;
                    }
                }
                self.scalar(sc, t)
            }
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(d, args) => J::O(vec![("fn", self.callee(None, *d, args.skip_binder())), ("ty", J::Null)]),
                ty::Closure(..) => J::O(vec![("zst", self.ty(t))]),
                ty::Adt(..) => {
                    self.destructure(v, t, depth).unwrap_or_else(|| J::O(vec![("zst", self.ty(t))]))
                }
                _ => J::O(vec![("zst", self.ty(t))]),
            },
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let b = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.inner().len()));
                match t.kind() {
                    ty::Ref(_, i, _) if i.is_str() => {
                        J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))])
                    }
                    _ => J::O(vec![
                        ("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())),
                        ("ty", self.ty(t)),
                    ]),
                }
            }
            ConstValue::Indirect { .. } => {
                self.destructure(v, t, depth).unwrap_or_else(|| J::O(vec![("indirect", self.ty(t))]))
            }
        }
    }

    fn destructure(&self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 4 {
            return None;
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return None;
        }
        if let ty::Array(_, n) = t.kind() {
            if n.try_to_target_usize(self.tcx).unwrap_or(9999) > 64 {
                return None;
            }
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fields = J::A(d.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect());
        let mut o = vec![("fields", fields), ("ty", self.ty(t))];
        if let ty::Adt(a, _) = t.kind() {
            if let Some(vi) = d.variant {
                if a.is_enum() {
                    o.push(("variant", s(a.variant(vi).name.to_string())));
                    o.push(("vidx", u(vi.as_usize())));
                }
            }
        }
        Some(J::O(o))
    }

    fn constant(&self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return J::O(vec![("fn", self.callee(Some(owner), *d, args.skip_binder()))]);
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut named: Option<String> = None;
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                return J::O(vec![
                    ("promoted", s(format!("{}::promoted[{}]", key(tcx, uv.def), p.as_usize()))),
                    ("ty", self.ty(t)),
                ]);
            }
            named = Some(key(tcx, uv.def));
        }
        let j = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => J::O(vec![("uneval", s(with_no_trimmed_paths!(format!("{}", c.const_)))), ("ty", self.ty(t))]),
        };
        match (named, j) {
            (Some(n), J::O(mut v)) => {
                v.push(("named", s(n)));
                J::O(v)
            }
            (_, j) => j,
        }
    }

    fn place(&self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("field"), u(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("index"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("cindex"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    s("downcast"),
                    s(n.map(|x| x.to_string()).unwrap_or_default()),
                    u(v.as_usize()),
                ]),
                _ => J::A(vec![s("otherproj")]),
            });
        }
        J::A(vec![u(p.local.as_usize()), J::A(pr)])
    }

    fn op(&self, owner: DefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.constant(owner, c)]),
            o => J::A(vec![s("rt"), s(format!("{:?}", o))]),
        }
    }

    fn rvalue(&self, owner: DefId, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(owner, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.op(owner, o),
                n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, b, p) => {
                J::A(vec![s("ref"), J::B(matches!(b, BorrowKind::Mut { .. })), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(key(tcx, *d))]),
            Rvalue::Cast(k, o, t) => J::A(vec![
                s("cast"),
                s(format!("{:?}", k)),
                self.op(owner, o),
                self.ty(*t),
            ]),
            Rvalue::BinaryOp(b, ab) => {
                J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(owner, &ab.0), self.op(owner, &ab.1)])
            }
            Rvalue::UnaryOp(b, a) => J::A(vec![s("un"), s(format!("{:?}", b)), self.op(owner, a)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, fs) => {
                let ops = J::A(fs.iter().map(|f| self.op(owner, f)).collect());
                match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t), ops]),
                    AggregateKind::Tuple => J::A(vec![s("tuple"), ops]),
                    AggregateKind::Adt(d, v, args, ..) => {
                        let ad = tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![
                            s("adt"),
                            s(key(tcx, *d)),
                            s(var.name.to_string()),
                            u(v.as_usize()),
                            J::B(ad.is_enum()),
                            J::A(names),
                            ops,
                            J::A(args.types().map(|x| self.ty(x)).collect()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(key(tcx, *d)), ops]),
                    k => J::A(vec![s("aggother"), s(format!("{:?}", k)), ops]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            r => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&self, owner: DefId, b: &Body<'tcx>, k: String, kind: &str) -> J {
        let tcx = self.tcx;
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p), v.argument_index.map(|x| u(x as usize)).unwrap_or(J::Null)]));
            }
        }
        let locals = J::A(b.local_decls.iter().map(|l| self.ty(l.ty)).collect());
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => st.push(J::A(vec![
                        s("assign"),
                        self.place(&pr.0),
                        self.rvalue(owner, &pr.1),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(place),
                        u(variant_index.as_usize()),
                        self.span(x.source_info.span),
                    ])),
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i)), self.span(x.source_info.span)]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![s("goto"), u(target.as_usize())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut arms = vec![];
                    let dt = discr.ty(&b.local_decls, tcx);
                    for (v, tg) in targets.iter() {
                        let vv: i128 = match dt.kind() {
                            ty::Int(it) => {
                                let bits = it.normalize(tcx.sess.target.pointer_width).bit_width().unwrap();
                                rustc_abi::Size::from_bits(bits).sign_extend(v) as i128
                            }
                            _ => v as i128,
                        };
                        arms.push(J::A(vec![J::I(vv), u(tg.as_usize())]));
                    }
                    vec![
                        s("switch"),
                        self.op(owner, discr),
                        J::A(arms),
                        u(targets.otherwise().as_usize()),
                        self.ty(dt),
                    ]
                }
                TerminatorKind::Return => vec![s("return")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("unwind")],
                TerminatorKind::Drop { place, target, .. } => {
                    vec![s("drop"), self.place(place), u(target.as_usize())]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => vec![
                    s("call"),
                    self.op(owner, func),
                    J::A(args.iter().map(|a| self.op(owner, &a.node)).collect()),
                    self.place(destination),
                    target.map(|x| u(x.as_usize())).unwrap_or(J::Null),
                ],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    s("assert"),
                    self.op(owner, cond),
                    J::B(*expected),
                    s(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "divzero".to_string(),
                        AssertKind::RemainderByZero(..) => "remzero".to_string(),
                        _ => "other".to_string(),
                    }),
                    u(target.as_usize()),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), u(real_target.as_usize())],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), u(real_target.as_usize())],
                k => vec![s("otherterm"), s(format!("{:?}", k))],
            };
            blocks.push(J::O(vec![
                ("st", J::A(st)),
                ("t", J::A(tj)),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
                ("exp", J::B(t.source_info.span.from_expansion())),
            ]));
        }
        let mut o = vec![
            ("key", s(k)),
            ("friendly", s(friendly(tcx, owner))),
            ("kind", s(kind)),
            ("argc", u(b.arg_count)),
            ("span", self.span(b.span)),
            ("locals", locals),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ];
        let dk = tcx.def_kind(owner);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) && kind == "fn" {
            let sg = tcx.fn_sig(owner).skip_binder();
            o.push(("unsafe", J::B(!sg.safety().is_safe())));
            o.push(("vis", J::B(tcx.visibility(owner).is_public())));
            o.push((
                "generics",
                J::A(
                    ty::GenericArgs::identity_for_item(tcx, owner)
                        .types()
                        .map(|x| s(x.to_string()))
                        .collect(),
                ),
            ));
            o.push(("expanded", J::B(tcx.def_span(owner).from_expansion())));
        }
        if dk == DefKind::Closure {
            o.push(("parent", s(key(tcx, tcx.typeck_root_def_id(owner)))));
        }
        J::O(o)
    }
}

// --- user-written unsafe -------------------------------------------------------------

struct UnsafeVis<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    owner: LocalDefId,
    out: Vec<J>,
}

fn external_macro(sp: Span) -> Option<String> {
    // Some(name) when the span was produced by a macro defined outside the workspace crate
    let mut cur = sp;
    let mut found = None;
    while cur.from_expansion() {
        let d = cur.ctxt().outer_expn_data();
        match d.kind {
            ExpnKind::Macro(kind, name) => {
                let local = d.macro_def_id.map(|m| m.is_local()).unwrap_or(false);
                if !local || matches!(kind, MacroKind::Attr | MacroKind::Derive) {
                    found = Some(name.to_string());
                }
            }
            ExpnKind::AstPass(_) | ExpnKind::Desugaring(_) => {}
            ExpnKind::Root => {}
        }
        cur = d.call_site;
    }
    found
}

impl<'a, 'tcx> Visitor<'tcx> for UnsafeVis<'a, 'tcx> {
    type NestedFilter = nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let user = matches!(src, hir::UnsafeSource::UserProvided);
            self.out.push(J::O(vec![
                ("what", s("block")),
                ("owner", s(key(self.cx.tcx, self.owner.to_def_id()))),
                ("span", self.cx.span(b.span)),
                ("user", J::B(user)),
                ("expanded", J::B(b.span.from_expansion())),
                ("macro", external_macro(b.span).map(s).unwrap_or(J::Null)),
            ]));
        }
        intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let cx = Cx { tcx };
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let types: Vec<String> = tcx.crate_types().iter().map(|t| format!("{:?}", t)).collect();
    let mut bodies = vec![];
    let mut uns = vec![];
    for ld in tcx.mir_keys(()).iter().copied() {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let b = tcx.optimized_mir(d);
                bodies.push(cx.body(d, b, key(tcx, d), if dk == DefKind::Closure { "closure" } else { "fn" }));
                for (pi, p) in tcx.promoted_mir(d).iter_enumerated() {
                    bodies.push(cx.body(d, p, format!("{}::promoted[{}]", key(tcx, d), pi.as_usize()), "promoted"));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                if tcx.generics_of(d).is_empty() || true {
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, b, key(tcx, d), "const"));
                    for (pi, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, p, format!("{}::promoted[{}]", key(tcx, d), pi.as_usize()), "promoted"));
                    }
                }
            }
            _ => {}
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            let mut v = UnsafeVis { cx: &cx, owner: ld, out: vec![] };
            if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                v.visit_body(b);
            }
            uns.append(&mut v.out);
        }
    }
    // items
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        let mut o = vec![("key", s(key(tcx, d))), ("kind", s(format!("{:?}", dk))), ("span", cx.span(tcx.def_span(d)))];
        let sp = tcx.def_span(d);
        o.push(("expanded", J::B(sp.from_expansion())));
        o.push(("macro", external_macro(sp).map(s).unwrap_or(J::Null)));
        o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(id))));
        if matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            o.push(("ty", cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())));
        }
        match dk {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                o.push(("mut", J::B(mutability.is_mut())));
                o.push(("freeze", J::B(t.is_freeze(tcx, env))));
                o.push(("ty", cx.ty(t)));
            }
            DefKind::Struct | DefKind::Enum => {
                let ad = tcx.adt_def(d);
                o.push((
                    "variants",
                    J::A(
                        ad.variants()
                            .iter()
                            .map(|v| {
                                J::O(vec![
                                    ("name", s(v.name.to_string())),
                                    (
                                        "fields",
                                        J::A(
                                            v.fields
                                                .iter()
                                                .map(|f| {
                                                    J::A(vec![
                                                        s(f.name.to_string()),
                                                        cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                                        J::B(tcx.visibility(f.did).is_public()),
                                                    ])
                                                })
                                                .collect(),
                                        ),
                                    ),
                                ])
                            })
                            .collect(),
                    ),
                ));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sg = tcx.fn_sig(d).skip_binder();
                o.push(("unsafe", J::B(!sg.safety().is_safe())));
                o.push(("vis", J::B(tcx.visibility(d).is_public())));
            }
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(d);
                o.push(("unsafe", J::B(!h.safety.is_safe())));
                o.push(("trait", s(key(tcx, h.trait_ref.skip_binder().def_id))));
            }
            _ => {}
        }
        items.push(J::O(o));
    }
    let deps: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c).to_string())).collect();
    let root = J::O(vec![
        ("crate", s(krate.clone())),
        ("types", J::A(types.iter().map(|x| s(x.clone())).collect())),
        ("deps", J::A(deps)),
        ("bodies", J::A(bodies)),
        ("items", J::A(items)),
        ("unsafe", J::A(uns)),
    ]);
    let mut out = String::new();
    root.write(&mut out);
    let kind = if types.iter().any(|t| t.contains("Executable")) { "bin" } else { "lib" };
    std::fs::create_dir_all(dir).unwrap();
    let path = format!("{}/{}.{}.json", dir, krate, kind);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
}
