use crate::json::{i, s, J};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: FxHashMap<Ty<'tcx>, usize>,
    adts: Vec<DefId>,
    adt_seen: FxHashSet<DefId>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn tystr<'tcx>(t: Ty<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())))
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.tyi(t))
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.type_ids.get(&t) {
            return *x;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.type_ids.insert(t, id);
        let st = ("s", s(tystr(t)));
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![("k", s("prim")), st])
            }
            ty::Adt(a, args) => {
                if self.adt_seen.insert(a.did()) {
                    self.adts.push(a.did());
                }
                let args = self.args(args);
                J::O(vec![("k", s("adt")), st, ("p", s(path(self.tcx, a.did()))), ("a", args)])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ref")), st, ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ptr")), st, ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), st, ("a", J::A(v))])
            }
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::N, |x| J::U(x as u128));
                let t = self.ty(*t);
                J::O(vec![("k", s("array")), st, ("t", t), ("n", n)])
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("slice")), st, ("t", t)])
            }
            ty::Closure(d, a) => {
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("closure")), st, ("p", s(path(self.tcx, *d))), ("up", J::A(up))])
            }
            ty::Coroutine(d, a) => {
                let up: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("coroutine")), st, ("p", s(path(self.tcx, *d))), ("up", J::A(up))])
            }
            ty::FnDef(d, a) => {
                let f = self.callee(*d, a.skip_binder(), TypingEnv::fully_monomorphized());
                J::O(vec![("k", s("fndef")), st, ("f", f)])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), st, ("i", i(p.index))]),
            ty::Alias(..) => J::O(vec![("k", s("alias")), st]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), st]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), st]),
            _ => J::O(vec![("k", s("other")), st]),
        };
        self.types[id] = j;
        id
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|x| {
                    if let Some(t) = x.as_type() {
                        Some(self.ty(t))
                    } else {
                        x.as_const().map(|c| {
                            c.try_to_target_usize(self.tcx).map_or(s(c.to_string()), |x| J::A(vec![J::U(x as u128)]))
                        })
                    }
                })
                .collect(),
        )
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        let mut o = vec![("p", s(path(tcx, d)))];
        let args = self.args(a);
        o.push(("a", args));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("m", s(tcx.item_name(d).to_string())));
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
            let r = inst.def_id();
            if r != d {
                o.push(("r", s(path(tcx, r))));
                let ra = self.args(inst.args);
                o.push(("ra", ra));
            }
            if r.is_local() {
                o.push(("local", J::B(true)));
            }
        }
        //what a blanket impl goes on to call
        let p = path(tcx, d);
        let via: Option<(&str, &str, Vec<ty::GenericArg<'tcx>>)> = match p.as_str() {
            "core::convert::Into::into" => Some(("From", "from", vec![a[1], a[0]])),
            "core::convert::TryInto::try_into" => Some(("TryFrom", "try_from", vec![a[1], a[0]])),
            _ => None,
        };
        if let Some((tr, m, ga)) = via {
            let tdid = match tr {
                "From" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")),
                "TryFrom" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("TryFrom")),
                _ => None,
            };
            if let Some(tdid) = tdid {
                let f = tcx
                    .associated_items(tdid)
                    .in_definition_order()
                    .find(|x| x.name() == rustc_span::Symbol::intern(m))
                    .map(|x| x.def_id);
                if let Some(f) = f {
                    let ga = tcx.mk_args(&ga);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, f, ga) {
                        o.push(("via", s(path(tcx, inst.def_id()))));
                    }
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_u32()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), i(v.as_u32())]),
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                    let t = self.ty(t);
                    J::A(vec![s("oc"), t])
                }
            });
        }
        J::A(v)
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::O(vec![("c", s("opaque"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let mut sc = v.try_to_scalar_int();
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let Some(mir::interpret::GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                            let r = mir::interpret::AllocRange { start: offset, size: l.size };
                            if let Ok(mir::interpret::Scalar::Int(x)) = a.inner().read_scalar(&tcx, r, false) {
                                sc = Some(x);
                            }
                        }
                    }
                }
                if let Some(sc) = sc {
                    let bits = sc.to_bits_unchecked();
                    let val = match t.kind() {
                        ty::Int(_) => {
                            let sz = sc.size();
                            J::I(sz.sign_extend(bits))
                        }
                        _ => J::U(bits),
                    };
                    return J::O(vec![("c", s("int")), ("v", val)]);
                }
            }
            ty::FnDef(d, a) => {
                let f = self.callee(*d, a.skip_binder(), TypingEnv::fully_monomorphized());
                return J::O(vec![("c", s("fn")), ("f", f)]);
            }
            ty::Pat(base, _) => return self.const_val(v, *base, depth + 1),
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str | ty::Slice(_) => {
                    let is_bytes = match inner.kind() {
                        ty::Str => true,
                        ty::Slice(t) => *t == tcx.types.u8,
                        _ => false,
                    };
                    if is_bytes {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if inner.is_str() {
                                return J::O(vec![("c", s("str")), ("v", s(String::from_utf8_lossy(b).to_string()))]);
                            }
                            return J::O(vec![
                                ("c", s("bytes")),
                                ("v", J::A(b.iter().map(|x| i(*x)).collect())),
                            ]);
                        }
                    }
                    if let (ConstValue::Slice { alloc_id, meta }, ty::Slice(el)) = (v, inner.kind()) {
                        if meta <= 4096 {
                            let at = Ty::new_array(tcx, *el, meta);
                            let iv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                            let iv = self.const_val(iv, at, depth + 1);
                            return J::O(vec![("c", s("ref")), ("v", iv)]);
                        }
                    }
                }
                _ => {
                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let iv = self.const_val(iv, *inner, depth + 1);
                                return J::O(vec![("c", s("ref")), ("v", iv)]);
                            }
                            //an immutable static is as good as a constant
                            Some(mir::interpret::GlobalAlloc::Static(d))
                                if !tcx.is_mutable_static(d)
                                    && !tcx.is_foreign_item(d)
                                    && inner.is_freeze(tcx, TypingEnv::fully_monomorphized())
                                    && depth < 8 =>
                            {
                                if let Ok(a) = tcx.eval_static_initializer(d) {
                                    let id = tcx.reserve_and_set_memory_alloc(a);
                                    let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                                    let iv = self.const_val(iv, *inner, depth + 1);
                                    return J::O(vec![("c", s("static")), ("p", s(path(tcx, d))), ("v", iv)]);
                                }
                                return J::O(vec![("c", s("static")), ("p", s(path(tcx, d)))]);
                            }
                            Some(mir::interpret::GlobalAlloc::Static(d)) => {
                                return J::O(vec![("c", s("static")), ("p", s(path(tcx, d)))]);
                            }
                            _ => {}
                        }
                    }
                }
            },
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                if matches!(t.kind(), ty::Adt(a, _) if a.is_union()) {
                    return J::O(vec![("c", s("opaque"))]);
                }
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).is_none_or(|x| x > 4096) {
                        return J::O(vec![("c", s("opaque"))]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let f: Vec<J> = d.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                    let ty = self.ty(t);
                    return J::O(vec![
                        ("c", s("agg")),
                        ("ty", ty),
                        ("var", d.variant.map_or(J::N, |v| i(v.as_u32()))),
                        ("f", J::A(f)),
                    ]);
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return J::O(vec![("c", s("zst"))]);
        }
        J::O(vec![("c", s("opaque"))])
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let ty = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let mut f = self.callee(*d, a.skip_binder(), env);
            //the signature the function has here, for uses of it as a value
            let sig = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
            let sig = self.tcx.erase_and_anonymize_regions(sig);
            let io: Vec<J> = sig
                .inputs_and_output
                .iter()
                .map(|x| {
                    let n = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new(x)).unwrap_or(x);
                    self.ty(n)
                })
                .collect();
            if let J::O(o) = &mut f {
                o.push(("io", J::A(io)));
            }
            return J::O(vec![("c", s("fn")), ("f", f), ("ty", ty)]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![("c", s("promoted")), ("v", i(p.as_u32())), ("ty", ty)]);
            }
        }
        let name = if let Const::Unevaluated(u, _) = c.const_ { Some(path(self.tcx, u.def)) } else { None };
        let mut o = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => match self.const_val(v, t, 0) {
                J::O(o) => o,
                _ => unreachable!(),
            },
            Err(_) => vec![("c", s("opaque"))],
        };
        if let Some(n) = name {
            o.push(("name", s(n)));
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("tc", s(ct.to_string())));
        }
        o.push(("ty", ty));
        J::O(o)
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, env)]),
            other => J::A(vec![s("k"), J::O(vec![("c", s("rtc")), ("s", s(format!("{other:?}")))])]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map_or(J::N, |x| J::U(x as u128));
                J::A(vec![s("repeat"), self.operand(o, env), n])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), self.place(p), s(format!("{bk:?}").split(' ').next().unwrap())]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), s("raw")]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o, env), t])
            }
            Rvalue::BinaryOp(op, x) => {
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(&x.0, env), self.operand(&x.1, env)])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(x, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.operand(o, env)).collect());
                let k = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        if self.adt_seen.insert(*d) {
                            self.adts.push(*d);
                        }
                        let a = self.args(a);
                        J::A(vec![
                            s("adt"),
                            s(path(self.tcx, *d)),
                            i(v.as_u32()),
                            a,
                            f.map_or(J::N, |f| i(f.as_u32())),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(self.tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(path(self.tcx, *d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, ops])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut names: FxHashMap<u32, String> = FxHashMap::default();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                } else {
                    let p = self.place(&p);
                    dbg.push(J::A(vec![s(v.name.to_string()), p]));
                }
            }
        }
        let locals = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                J::A(vec![t, names.get(&l.as_u32()).map_or(J::N, |n| s(n.clone()))])
            })
            .collect();
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, i(variant_index.as_u32()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_u32())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env);
                    let t = discr.ty(&b.local_decls, self.tcx);
                    let t = self.ty(t);
                    let v = targets.iter().map(|(v, b)| J::A(vec![J::U(v), i(b.as_u32())])).collect();
                    J::A(vec![s("switch"), d, t, J::A(v), i(targets.otherwise().as_u32()), sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret"), sp]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable"), sp]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&b.local_decls, self.tcx).ty;
                    let t = self.ty(t);
                    J::A(vec![s("drop"), self.place(place), i(target.as_u32()), t, sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::N, |t| i(t.as_u32())), sp])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("tailcall")]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let mut ops = vec![];
                    let k = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ops.push(self.operand(len, env));
                            ops.push(self.operand(index, env));
                            "bounds".to_string()
                        }
                        AssertKind::Overflow(op, a, b) => {
                            ops.push(self.operand(a, env));
                            ops.push(self.operand(b, env));
                            format!("overflow {op:?}")
                        }
                        AssertKind::OverflowNeg(a) => {
                            ops.push(self.operand(a, env));
                            "overflow Neg".to_string()
                        }
                        AssertKind::DivisionByZero(a) => {
                            ops.push(self.operand(a, env));
                            "div0".to_string()
                        }
                        AssertKind::RemainderByZero(a) => {
                            ops.push(self.operand(a, env));
                            "rem0".to_string()
                        }
                        _ => "other".to_string(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), i(target.as_u32()), sp])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, env);
                    let p = self.place(resume_arg);
                    J::A(vec![s("yield"), v, i(resume.as_u32()), p, sp])
                }
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("argc", i(b.arg_count)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
            ("spread", b.spread_arg.map_or(J::N, |l| i(l.as_u32()))),
        ])
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        if a.is_enum() || a.is_struct() {
            let discrs: Vec<u128> =
                if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![0; a.variants().len()] };
            for (v, dv) in a.variants().iter().zip(discrs) {
                let mut fs = vec![];
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    let t = self.ty(t);
                    fs.push(J::A(vec![s(f.name.to_string()), t]));
                }
                vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::U(dv)), ("f", J::A(fs))]));
            }
        }
        J::O(vec![
            ("kind", s(if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" })),
            ("v", J::A(vs)),
            ("local", J::B(d.is_local())),
        ])
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut bodies: Vec<(LocalDefId, Body<'_>, Vec<Body<'_>>)> = vec![];
    let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    //closures first: borrow checking their parent would steal nothing, but be safe about the order
    owners.sort_by_key(|d| match tcx.def_kind(*d) {
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => 1,
        _ => 0,
    });
    let mut missing = vec![];
    for d in owners {
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                let (b, p) = tcx.mir_promoted(d);
                if b.is_stolen() || p.is_stolen() {
                    missing.push(d);
                    continue;
                }
                let b = b.borrow().clone();
                let p = p.borrow().iter().cloned().collect();
                bodies.push((d, b, p));
            }
            _ => {}
        }
    }
    for d in missing {
        let b = tcx.optimized_mir(d).clone();
        let p = tcx.promoted_mir(d).iter().cloned().collect();
        bodies.push((d, b, p));
    }
    let mut ctx = D { tcx, types: vec![], type_ids: Default::default(), adts: vec![], adt_seen: Default::default() };
    let mut fns = vec![];
    for (d, b, p) in &bodies {
        let did = d.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let jb = ctx.body(b, env);
        let jp = p.iter().map(|x| ctx.body(x, env)).collect();
        let mut o = vec![("span", ctx.span(tcx.def_span(did))), ("body", jb), ("promoted", J::A(jp))];
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::AssocFn => "method",
            _ => "fn",
        };
        o.push(("kind", s(kind)));
        o.push(("parent", s(path(tcx, tcx.parent(did)))));
        if tcx.def_kind(did) != DefKind::Closure {
            let vis = tcx.visibility(did).is_public();
            o.push(("pub", J::B(vis)));
            o.push(("name", s(tcx.item_name(did).to_string())));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let t = tcx.type_of(im).instantiate_identity().skip_normalization();
                let t = ctx.ty(t);
                o.push(("self", t));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_normalization();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    let ta = ctx.args(tr.args);
                    o.push(("ta", ta));
                }
            }
            let gens = tcx.generics_of(did);
            let mut g = vec![];
            for k in 0..gens.count() {
                g.push(s(gens.param_at(k, tcx).name.to_string()));
            }
            o.push(("gen", J::A(g)));
        }
        if let Ok(x) = tcx.sess.source_map().span_to_snippet(tcx.def_span(did)) {
            o.push(("from_macro", J::B(tcx.def_span(did).from_expansion())));
            let _ = x;
        }
        fns.push((path(tcx, did), J::O(o)));
    }
    //named constants of the crate
    let mut consts = vec![];
    for d in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(d).is_empty() {
            let did = d.to_def_id();
            let t = tcx.type_of(did).instantiate_identity().skip_normalization();
            if let Ok(v) = tcx.const_eval_poly(did) {
                let j = ctx.const_val(v, t, 0);
                consts.push((path(tcx, did), j));
            }
        }
    }
    let mut adts = vec![];
    let mut n = 0;
    while n < ctx.adts.len() {
        let d = ctx.adts[n];
        let j = ctx.adt(d);
        adts.push((path(tcx, d), j));
        n += 1;
    }
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let types = std::mem::take(&mut ctx.types);
    let j = J::O(vec![
        ("crate", s(name)),
        ("fns", J::M(fns)),
        ("adts", J::M(adts)),
        ("consts", J::M(consts)),
        ("types", J::A(types)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    let tmp = format!("{out}.{}", std::process::id());
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(tmp, out).expect("rename dump");
}
