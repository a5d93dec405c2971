//! Compiler driver used by the static checks: type-checks the crate exactly as rustc does and
//! writes the resolved program (MIR bodies with resolved callees, types, ADT shapes, item facts)
//! as JSON.  It never executes anything from the crate under analysis.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: RefCell<BTreeMap<String, DefId>>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i64>) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
macro_rules! o { ($($k:literal : $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) } }

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        use rustc_middle::ty::print::with_no_visible_paths;
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn id(&self, d: DefId) -> String {
        if d.krate == LOCAL_CRATE {
            format!("L{}", d.index.as_u32())
        } else {
            format!("{}:{}", self.tcx.crate_name(d.krate), d.index.as_u32())
        }
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool => o! {"k": s("bool")},
            ty::Char => o! {"k": s("char")},
            ty::Str => o! {"k": s("str")},
            ty::Never => o! {"k": s("never")},
            ty::Int(i) => o! {"k": s("int"), "n": s(i.name_str())},
            ty::Uint(i) => o! {"k": s("uint"), "n": s(i.name_str())},
            ty::Float(i) => o! {"k": s("float"), "n": s(i.name_str())},
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adts.borrow_mut().insert(p.clone(), def.did());
                o! {"k": s("adt"), "p": s(p), "a": J::A(args.types().map(|t| self.ty(t)).collect())}
            }
            ty::Array(t, c) => o! {"k": s("array"), "t": self.ty(t),
            "n": match c.try_to_target_usize(self.tcx) { Some(x) => n(x as i64), None => J::Null }},
            ty::Slice(t) => o! {"k": s("slice"), "t": self.ty(t)},
            ty::RawPtr(t, m) => {
                o! {"k": s("ptr"), "t": self.ty(t), "m": J::B(m.is_mut())}
            }
            ty::Ref(_, t, m) => {
                o! {"k": s("ref"), "t": self.ty(t), "m": J::B(m.is_mut())}
            }
            ty::Tuple(ts) => {
                o! {"k": s("tuple"), "a": J::A(ts.iter().map(|t| self.ty(t)).collect())}
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let d: DefId = d.into();
                o! {"k": s("fndef"), "p": s(self.path(d)), "id": s(self.id(d)),
                "a": J::A(args.types().map(|t| self.ty(t)).collect())}
            }
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                o! {"k": s("closure"), "p": s(self.path(d)), "id": s(self.id(d)),
                "kind": s(format!("{:?}", args.as_closure().kind_ty()))}
            }
            ty::Param(p) => o! {"k": s("param"), "n": s(p.name.as_str())},
            ty::FnPtr(..) => o! {"k": s("fnptr"), "s": s(with_no_trimmed_paths!(t.to_string()))},
            ty::Dynamic(..) => o! {"k": s("dyn"), "s": s(with_no_trimmed_paths!(t.to_string()))},
            ty::Alias(..) => o! {"k": s("alias"), "s": s(with_no_trimmed_paths!(t.to_string()))},
            _ => o! {"k": s("other"), "s": s(with_no_trimmed_paths!(t.to_string()))},
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    let isbox = pty.ty.is_box();
                    o! {"e": s("deref"), "box": J::B(isbox)}
                }
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    let (mut adt, mut vn) = (String::new(), String::new());
                    let mut arity = -1i64;
                    if let ty::Tuple(ts) = pty.ty.kind() {
                        arity = ts.len() as i64;
                    }
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        adt = self.path(def.did());
                        self.adts.borrow_mut().insert(adt.clone(), def.did());
                        let v = match pty.variant_index {
                            Some(v) => def.variant(v),
                            None if !def.is_enum() => def.non_enum_variant(),
                            None => def.variant(rustc_abi::VariantIdx::from_u32(0)),
                        };
                        vn = v.name.to_string();
                        if let Some(fd) = v.fields.get(f) {
                            name = fd.name.to_string();
                        }
                    }
                    o! {"e": s("field"), "i": n(f.as_u32()), "n": s(name), "adt": s(adt), "vn": s(vn), "ar": n(arity)}
                }
                ProjectionElem::Index(l) => o! {"e": s("index"), "l": n(l.as_u32())},
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    o! {"e": s("cindex"), "o": n(offset as i64), "min": n(min_length as i64), "end": J::B(from_end)}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    o! {"e": s("subslice"), "from": n(from as i64), "to": n(to as i64), "end": J::B(from_end)}
                }
                ProjectionElem::Downcast(name, v) => {
                    let mut nm = name.map(|x| x.to_string()).unwrap_or_default();
                    let mut adt = String::new();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        adt = self.path(def.did());
                        nm = def.variant(v).name.to_string();
                    }
                    o! {"e": s("downcast"), "v": n(v.as_u32()), "n": s(nm), "adt": s(adt)}
                }
                _ => o! {"e": s("other")},
            };
            proj.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        o! {"l": n(p.local.as_u32()), "p": J::A(proj)}
    }

    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut tr = J::Null;
        let mut selfty = J::Null;
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = s(self.path(t));
            if args.len() > 0 {
                if let Some(t) = args.types().next() {
                    selfty = self.ty(t);
                }
            }
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let _ = imp;
            let t = tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip();
            selfty = self.ty(t);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let res = match ty::Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                o! {"id": s(self.id(rd)), "p": s(self.path(rd)), "kind": s(match i.def {
                    ty::InstanceKind::Item(_) => "item".to_string(),
                    ty::InstanceKind::Virtual(..) => "virtual".to_string(),
                    ref k => { let k = format!("{:?}", k); k.split('(').next().unwrap_or("").to_string() }
                }),
                "a": J::A(i.args.types().map(|t| self.ty(t)).collect())}
            }
            _ => J::Null,
        };
        let via = self.via(env, d, args);
        o! {"via": via, "id": s(self.id(d)), "p": s(self.path(d)), "name": s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default()),
        "a": J::A(args.types().map(|t| self.ty(t)).collect()), "tr": tr, "self": selfty, "res": res}
    }

    /// `Into`, `TryInto`, `ToString` and `str::parse` are blanket implementations outside the crate:
    /// name the conversion they end up in.  Comparison traits on references are peeled.
    fn via(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = self.path(d);
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let find = |tr: &str, m: &str| -> Option<DefId> {
            for t in tcx.all_traits_including_private() {
                if self.path(t) == tr {
                    for it in tcx.associated_item_def_ids(t) {
                        if tcx.item_name(*it).as_str() == m {
                            return Some(*it);
                        }
                    }
                }
            }
            None
        };
        let (target, ntys): (Option<DefId>, Vec<Ty<'tcx>>) = match p.as_str() {
            "core::convert::Into::into" => (find("core::convert::From", "from"), vec![tys[1], tys[0]]),
            "core::convert::TryInto::try_into" => (find("core::convert::TryFrom", "try_from"), vec![tys[1], tys[0]]),
            "alloc::string::ToString::to_string" => (find("core::fmt::Display", "fmt"), vec![tys[0]]),
            "core::str::<impl str>::parse" => (find("core::str::traits::FromStr", "from_str"), vec![tys[0]]),
            _ => {
                let is_cmp = p.starts_with("core::cmp::");
                if is_cmp && !tys.is_empty() && tys.iter().all(|t| matches!(t.kind(), ty::Ref(..))) {
                    let peeled: Vec<_> = tys.iter().map(|t| t.peel_refs()).collect();
                    (Some(d), peeled)
                } else {
                    return J::Null;
                }
            }
        };
        let Some(target) = target else { return J::Null };
        let a = tcx.mk_args_from_iter(ntys.iter().map(|t| ty::GenericArg::from(*t)));
        if tcx.generics_of(target).count() != ntys.len() {
            return J::Null;
        }
        match ty::Instance::try_resolve(tcx, env, target, a) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                o! {"id": s(self.id(rd)), "p": s(self.path(rd)), "tp": s(self.path(target)), "self": self.ty(ntys[0]), "a": J::A(i.args.types().map(|t| self.ty(t)).collect())}
            }
            _ => o! {"id": J::Null, "p": s(self.path(target)), "tp": s(self.path(target)), "self": self.ty(ntys[0]), "a": J::A(vec![])},
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut fields = vec![("ty".to_string(), self.ty(t))];
        if let ty::FnDef(d, args) = *t.kind() {
            let d: DefId = d.into();
            fields.push(("fn".into(), self.callee(env, d, args.skip_binder())));
            return J::O(fields);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                fields.push(("promoted".into(), n(p.as_u32())));
                fields.push(("pdef".into(), s(self.id(u.def))));
            } else {
                fields.push(("named".into(), s(self.path(u.def))));
                fields.push(("nid".into(), s(self.id(u.def))));
            }
        }
        if let mir::Const::Ty(_, k) = c {
            fields.push(("tyconst".into(), s(k.to_string())));
        }
        let generic_env = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_non_region_param()
        };
        if !generic_env {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                self.const_value(&v, t, &mut fields);
            }
        }
        J::O(fields)
    }

    fn const_value(&self, v: &ConstValue, t: Ty<'tcx>, fields: &mut Vec<(String, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => fields.push(("bool".into(), J::B(bits != 0))),
                    ty::Char => fields.push((
                        "char".into(),
                        s(char::from_u32(bits as u32).unwrap_or('?').to_string()),
                    )),
                    ty::Int(_) => {
                        let x = i.to_int(i.size());
                        fields.push(("int".into(), s(x.to_string())))
                    }
                    ty::Uint(_) => fields.push(("int".into(), s(bits.to_string()))),
                    ty::Float(f) => {
                        let x = if f.bit_width() == 32 {
                            f32::from_bits(bits as u32) as f64
                        } else {
                            f64::from_bits(bits as u64)
                        };
                        fields.push(("float".into(), s(format!("{:e}", x))));
                        fields.push(("fbits".into(), s(format!("{:x}", x.to_bits()))));
                    }
                    ty::Adt(def, _) if def.is_enum() && def.is_payloadfree() => {
                        for (vi, d) in def.discriminants(tcx) {
                            let m = if i.size().bits() >= 128 { u128::MAX } else { (1u128 << i.size().bits()) - 1 };
                            if (d.val & m) == bits {
                                fields.push(("variant".into(), s(def.variant(vi).name.as_str())));
                                fields.push(("vidx".into(), n(vi.as_u32())));
                            }
                        }
                    }
                    _ => fields.push(("bits".into(), s(bits.to_string()))),
                }
            }
            ConstValue::ZeroSized => fields.push(("zst".into(), J::B(true))),
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                // reference to a (static) allocation: try byte arrays
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(el, len) = inner.kind() {
                        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let Some(len) = len.try_to_target_usize(tcx) {
                                let (prov, off) = p.into_raw_parts();
                                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                                    let st = off.bytes_usize();
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + len as usize);
                                    fields.push(("bytes".into(), J::A(b.iter().map(|x| n(*x)).collect())));
                                }
                            }
                        }
                    }
                }
                fields.push(("ptr".into(), J::B(true)))
            }
            ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            fields.push(("str".into(), s(String::from_utf8_lossy(b).to_string())));
                        }
                        return;
                    }
                    if let ty::Slice(el) = inner.kind() {
                        if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                fields.push(("bytes".into(), J::A(b.iter().map(|x| n(*x)).collect())));
                            }
                            return;
                        }
                    }
                }
                fields.push(("indirect".into(), J::B(true)));
            }
        }
    }

    fn operand(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => o! {"o": s("copy"), "p": self.place(body, p)},
            Operand::Move(p) => o! {"o": s("move"), "p": self.place(body, p)},
            Operand::Constant(c) => o! {"o": s("const"), "c": self.konst(env, &c.const_)},
            Operand::RuntimeChecks(r) => o! {"o": s("rtcheck"), "k": s(format!("{:?}", r))},
        }
    }

    fn rvalue(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |x: &Operand<'tcx>| self.operand(env, body, x);
        match r {
            Rvalue::Use(x, _) => o! {"r": s("use"), "x": op(x)},
            Rvalue::Repeat(x, c) => o! {"r": s("repeat"), "x": op(x), "n": match c.try_to_target_usize(self.tcx) { Some(x) => n(x as i64), None => J::Null }},
            Rvalue::Ref(_, k, p) => o! {"r": s("ref"), "m": J::B(matches!(k, BorrowKind::Mut{..})),
                "fake": J::B(matches!(k, BorrowKind::Fake(_))), "p": self.place(body, p)},
            Rvalue::RawPtr(k, p) => o! {"r": s("rawptr"), "m": s(format!("{:?}", k)), "p": self.place(body, p)},
            Rvalue::ThreadLocalRef(d) => o! {"r": s("tls"), "d": s(self.path(*d))},
            Rvalue::Cast(k, x, t) => o! {"r": s("cast"), "k": s(format!("{:?}", k).split('(').next().unwrap_or("").to_string()),
                "kd": s(format!("{:?}", k)), "x": op(x), "from": self.ty(x.ty(&body.local_decls, self.tcx)), "t": self.ty(*t)},
            Rvalue::BinaryOp(b, xs) => o! {"r": s("bin"), "op": s(format!("{:?}", b)), "x": op(&xs.0), "y": op(&xs.1), "ty": self.ty(xs.0.ty(&body.local_decls, self.tcx))},
            Rvalue::UnaryOp(u, x) => o! {"r": s("un"), "op": s(format!("{:?}", u)), "x": op(x), "ty": self.ty(x.ty(&body.local_decls, self.tcx))},
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                o! {"r": s("discr"), "p": self.place(body, p), "ty": self.ty(t)}
            }
            Rvalue::Aggregate(k, xs) => {
                let a = J::A(xs.iter().map(|x| op(x)).collect());
                match **k {
                    AggregateKind::Array(t) => o! {"r": s("agg"), "k": s("array"), "t": self.ty(t), "x": a},
                    AggregateKind::Tuple => o! {"r": s("agg"), "k": s("tuple"), "x": a},
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let def = self.tcx.adt_def(d);
                        let p = self.path(d);
                        self.adts.borrow_mut().insert(p.clone(), d);
                        let var = def.variant(v);
                        o! {"r": s("agg"), "k": s("adt"), "p": s(p), "v": n(v.as_u32()), "vn": s(var.name.as_str()),
                        "f": J::A(var.fields.iter().map(|f| s(f.name.as_str())).collect()),
                        "active": match active { Some(a) => n(a.as_u32()), None => J::Null },
                        "a": J::A(args.types().map(|t| self.ty(t)).collect()), "x": a}
                    }
                    AggregateKind::Closure(d, _) => o! {"r": s("agg"), "k": s("closure"), "p": s(self.path(d)), "id": s(self.id(d)), "x": a},
                    AggregateKind::RawPtr(..) => o! {"r": s("agg"), "k": s("rawptr"), "x": a},
                    _ => o! {"r": s("agg"), "k": s("other"), "x": a},
                }
            }
            Rvalue::CopyForDeref(p) => o! {"r": s("use"), "x": o!{"o": s("copy"), "p": self.place(body, p)}},
            other => o! {"r": s("other"), "s": s(format!("{:?}", other))},
        }
    }

    fn body(&self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let bb = |b: BasicBlock| n(b.as_u32());
        let mut blocks = vec![];
        for (_i, blk) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in &blk.statements {
                let j = match &stmt.kind {
                    StatementKind::Assign(b) => {
                        o! {"s": s("assign"), "p": self.place(body, &b.0), "r": self.rvalue(env, body, &b.1), "sp": self.span(stmt.source_info.span)}
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        o! {"s": s("setdiscr"), "p": self.place(body, place), "v": n(variant_index.as_u32())}
                    }
                    StatementKind::StorageDead(l) => o! {"s": s("dead"), "l": n(l.as_u32())},
                    StatementKind::StorageLive(l) => o! {"s": s("live"), "l": n(l.as_u32())},
                    StatementKind::Intrinsic(i) => o! {"s": s("intrinsic"), "d": s(format!("{:?}", i))},
                    _ => continue,
                };
                st.push(j);
            }
            let t = blk.terminator();
            let op = |x: &Operand<'tcx>| self.operand(env, body, x);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => o! {"t": s("goto"), "to": bb(*target)},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, tgt) in targets.iter() {
                        v.push(J::A(vec![s(val.to_string()), bb(tgt)]));
                    }
                    o! {"t": s("switch"), "d": op(discr), "ty": self.ty(discr.ty(&body.local_decls, self.tcx)), "v": J::A(v), "else": bb(targets.otherwise())}
                }
                TerminatorKind::UnwindResume => o! {"t": s("resume")},
                TerminatorKind::UnwindTerminate(_) => o! {"t": s("abort")},
                TerminatorKind::Return => o! {"t": s("return")},
                TerminatorKind::Unreachable => o! {"t": s("unreachable")},
                TerminatorKind::Drop { place, target, .. } => {
                    o! {"t": s("drop"), "p": self.place(body, place), "to": bb(*target), "ty": self.ty(place.ty(&body.local_decls, self.tcx).ty)}
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o! {"t": s("call"), "f": op(func), "args": J::A(args.iter().map(|a| op(&a.node)).collect()),
                        "argty": J::A(args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, self.tcx))).collect()),
                        "d": self.place(body, destination),
                        "dty": self.ty(destination.ty(&body.local_decls, self.tcx).ty),
                        "to": match target { Some(t) => bb(*t), None => J::Null },
                        "sp": self.span(t.source_info.span)}
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (&str, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![op(len), op(index)]),
                        AssertKind::Overflow(b, x, y) => ("overflow", vec![s(format!("{:?}", b)), op(x), op(y)]),
                        AssertKind::OverflowNeg(x) => ("overflowneg", vec![op(x)]),
                        AssertKind::DivisionByZero(x) => ("divzero", vec![op(x)]),
                        AssertKind::RemainderByZero(x) => ("remzero", vec![op(x)]),
                        _ => ("other", vec![]),
                    };
                    o! {"t": s("assert"), "c": op(cond), "exp": J::B(*expected), "k": s(k), "ops": J::A(ops), "to": bb(*target), "sp": self.span(t.source_info.span)}
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    o! {"t": s("goto"), "to": bb(*real_target)}
                }
                other => o! {"t": s("other"), "s": s(format!("{:?}", other))},
            };
            blocks.push(o! {"s": J::A(st), "t": tj, "cleanup": J::B(blk.is_cleanup)});
        }
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals = J::A(
            body.local_decls
                .iter_enumerated()
                .map(|(l, d)| o! {"ty": self.ty(d.ty), "n": match names.get(&l.as_u32()) { Some(x) => s(x.clone()), None => J::Null }})
                .collect(),
        );
        o! {"argc": n(body.arg_count as i64), "locals": locals, "blocks": J::A(blocks)}
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                let owner = b.hir_id.owner.def_id.to_def_id();
                let p = with_no_trimmed_paths!(self.tcx.def_path_str(owner));
                self.found.push((p, b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let out = match std::env::var("KDUMP_OUT") {
            Ok(x) => x,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if name != std::env::var("KDUMP_CRATE").unwrap_or_else(|_| "kserd".into()) {
            return rustc_driver::Compilation::Continue;
        }
        let d = Dump { tcx, adts: Default::default() };
        let mut fns = vec![];
        let vis = tcx.effective_visibilities(());
        let mut defs: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        defs.sort_by_key(|d| d.local_def_index.as_u32());
        for ld in defs {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let env = TypingEnv::post_analysis(tcx, did);
            let mut fields: Vec<(String, J)> = vec![
                ("id".into(), s(d.id(did))),
                ("path".into(), s(d.path(did))),
                ("kind".into(), s(format!("{:?}", kind).split(|c| c == ' ' || c == '{').next().unwrap_or("").to_string())),
                ("span".into(), d.span(tcx.def_span(did))),
                ("pub".into(), J::B(vis.is_reachable(ld))),
            ];
            let body: &Body<'tcx> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) {
                        continue;
                    }
                    tcx.optimized_mir(did)
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) && !matches!(kind, DefKind::AssocConst { .. } | DefKind::Const { .. }) {
                        continue;
                    }
                    tcx.mir_for_ctfe(did)
                }
                _ => continue,
            };
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = sig.skip_binder();
                fields.push(("inputs".into(), J::A(sig.inputs().iter().map(|t| d.ty(*t)).collect())));
                fields.push(("output".into(), d.ty(sig.output())));
                fields.push(("unsafe".into(), J::B(!sig.safety().is_safe())));
                fields.push(("sig".into(), s(with_no_trimmed_paths!(format!("{}", tcx.fn_sig(did).instantiate_identity().skip_norm_wip())))));
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    fields.push(("implself".into(), d.ty(st)));
                    if tcx.impl_opt_trait_ref(imp).is_some() {
                        let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
                        fields.push(("impltrait".into(), s(d.path(tr.def_id))));
                        fields.push(("implargs".into(), J::A(tr.args.types().map(|t| d.ty(t)).collect())));
                    }
                    fields.push(("derived".into(), J::B(tcx.is_automatically_derived(imp))));
                }
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    fields.push(("traitdef".into(), s(d.path(tr))));
                }
                fields.push(("name".into(), s(tcx.item_name(did).as_str())));
            }
            let mut gn = vec![];
            let mut g = Some(tcx.generics_of(did));
            while let Some(x) = g {
                let mut own: Vec<J> = x.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| s(p.name.as_str())).collect();
                own.append(&mut gn);
                gn = own;
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            fields.push(("generics".into(), J::A(gn)));
            let parent = tcx.opt_parent(did).map(|p| d.id(p)).unwrap_or_default();
            fields.push(("parent".into(), s(parent)));
            fields.push(("body".into(), d.body(env, body)));
            let pm: Vec<J> = match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    tcx.promoted_mir(did).iter().map(|b| d.body(env, b)).collect()
                }
                _ => vec![],
            };
            fields.push(("promoted".into(), J::A(pm)));
            fns.push(J::O(fields));
        }

        // items: statics, local types, impls
        let mut statics = vec![];
        let mut types = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Static { mutability, .. } => statics.push(o! {"path": s(d.path(did)), "mut": J::B(mutability.is_mut()), "freeze": J::B(tcx.type_of(did).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::fully_monomorphized())), "ty": d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip()), "span": d.span(tcx.def_span(did))}),
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, did);
                    let _ = d.ty(t);
                    types.push(o! {"path": s(d.path(did)), "kind": s(format!("{:?}", tcx.def_kind(did))), "pub": J::B(vis.is_reachable(id)), "span": d.span(tcx.def_span(did)),
                        "freeze": J::B(t.is_freeze(tcx, env)), "needs_drop": J::B(t.needs_drop(tcx, env))});
                }
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut f = vec![("self".to_string(), d.ty(t)), ("span".to_string(), d.span(tcx.def_span(did))), ("derived".to_string(), J::B(tcx.is_automatically_derived(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        f.push(("trait".into(), s(d.path(tr.def_id))));
                        f.push(("args".into(), J::A(tr.args.types().map(|t| d.ty(t)).collect())));
                        let h = tcx.impl_trait_header(did);
                        f.push(("unsafe".into(), J::B(!h.safety.is_safe())));
                        f.push(("polarity".into(), s(format!("{:?}", h.polarity))));
                    }
                    let items: Vec<J> = tcx.associated_item_def_ids(did).iter().map(|x| s(d.id(*x))).collect();
                    f.push(("items".into(), J::A(items)));
                    impls.push(J::O(f));
                }
                _ => {}
            }
        }
        let mut uv = UnsafeVisitor { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let unsafes = J::A(uv.found.iter().map(|(p, sp)| o! {"in": s(p.clone()), "span": d.span(*sp)}).collect());

        let mut adts = vec![];
        let mut done: BTreeSet<String> = BTreeSet::new();
        loop {
            let todo: Vec<(String, DefId)> = d.adts.borrow().iter().filter(|(p, _)| !done.contains(*p)).map(|(p, d)| (p.clone(), *d)).collect();
            if todo.is_empty() {
                break;
            }
            for (p, did) in todo {
                done.insert(p.clone());
                let def = tcx.adt_def(did);
                let local = did.krate == LOCAL_CRATE;
                let mut vs = vec![];
                let discr: Vec<u128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val).collect() } else { vec![] };
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs = v
                        .fields
                        .iter()
                        .map(|f| {
                            let ty = if local { d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()) } else { J::Null };
                            o! {"n": s(f.name.as_str()), "ty": ty, "pub": J::B(f.vis.is_public())}
                        })
                        .collect();
                    vs.push(o! {"n": s(v.name.as_str()), "f": J::A(fs), "d": match discr.get(vi.as_usize()) { Some(x) => s(x.to_string()), None => J::Null }});
                }
                adts.push((p.clone(), o! {"enum": J::B(def.is_enum()), "local": J::B(local), "v": J::A(vs)}));
            }
        }
        let root = o! {"crate": s(name), "fns": J::A(fns), "adts": J::O(adts), "statics": J::A(statics), "types": J::A(types), "impls": J::A(impls), "unsafe": unsafes,
            "debug_assertions": J::B(tcx.sess.opts.debug_assertions), "features": J::A(tcx.sess.opts.cg.metadata.iter().map(|x| s(x.clone())).collect())};
        let mut buf = String::new();
        root.write(&mut buf);
        std::fs::write(&out, buf).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of the real rustc as first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    // further flags for the crate alone, leaving its dependencies as they are
    args.extend(std::env::var("KDUMP_FLAGS").unwrap_or_default().split_whitespace().map(String::from));
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
