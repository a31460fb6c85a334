//! mirfacts: a rustc wrapper that type-checks a crate exactly as cargo asks, and on
//! the way dumps the facts the /verif analyses work on (MIR, types, impls, consts)
//! as one JSON file per crate into $MIRFACTS_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_data_structures;
extern crate rustc_type_ir;

mod js;
use js::J;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_span::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    defs: RefCell<BTreeMap<String, J>>,
    adts: RefCell<BTreeMap<String, J>>,
    adt_queue: RefCell<BTreeSet<(String, u32, u32)>>,
    extern_consts: RefCell<Vec<(DefId, Option<u32>)>>,
}

fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::I(x as i128) }

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        let id = format!("{}{}", krate, p);
        if !self.defs.borrow().contains_key(&id) {
            self.defs.borrow_mut().insert(id.clone(), J::Null);
            let j = self.def_info(d);
            self.defs.borrow_mut().insert(id.clone(), j);
        }
        id
    }

    fn pretty(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn def_info(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("name", s(self.pretty(d))),
            ("kind", s(format!("{:?}", kind))),
            ("krate", s(tcx.crate_name(d.krate).to_string())),
        ];
        if let Some(nm) = tcx.opt_item_name(d) { o.push(("item", s(nm.to_string()))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            if !d.is_local() {
                o.push(("ret_never", J::B(sig.output().is_never())));
            }
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            let mut names = vec![];
            self.generic_names(d, &mut names);
            o.push(("generics", J::A(names)));
            if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", s(self.id(t)))); }
            if let Some(i) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(self.id(i))));
                if let Some(ti) = tcx.trait_item_of(d) { o.push(("trait_item", s(self.id(ti)))); }
                o.push(("impl_self", self.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
            }
            let fa = tcx.codegen_fn_attrs(d);
            if fa.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER) {
                o.push(("track_caller", J::B(true)));
            }
            if !d.is_local() {
                let mut panics = false;
                for a in tcx.get_all_attrs(d) {
                    if let Some(doc) = rustc_ast::attr::AttributeExt::doc_str(a) {
                        if doc.as_str().contains("# Panics") { panics = true; }
                    }
                }
                if panics { o.push(("panics_doc", J::B(true))); }
            }
        }
        J::O(o)
    }

    fn generic_names(&self, d: DefId, out: &mut Vec<J>) {
        let g = self.tcx.generics_of(d);
        if let Some(p) = g.parent { self.generic_names(p, out); }
        for p in &g.own_params { out.push(s(p.name.to_string())); }
    }

    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => self.ty(t),
            ty::GenericArgKind::Lifetime(_) => J::A(vec![s("lt")]),
            ty::GenericArgKind::Const(c) => J::A(vec![s("const"), self.tyconst(c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("?")]),
        }).collect())
    }

    fn tyconst(&self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Value(v) => {
                if let Some(sc) = v.try_to_leaf() {
                    return J::I(sc.to_bits(sc.size()) as i128);
                }
                s(format!("{:?}", c))
            }
            ty::ConstKind::Param(p) => J::A(vec![s("param"), n(p.index as usize), s(p.name.to_string())]),
            _ => s(format!("{:?}", c)),
        }
    }

    fn ty(&self, t: Ty<'tcx>) -> J {
        use rustc_type_ir::TyKind::*;
        let a = |v: Vec<J>| J::A(v);
        match *t.kind() {
            Bool | Char | Int(_) | Uint(_) | Float(_) | Str | Never => a(vec![s("p"), s(format!("{}", t))]),
            Adt(def, args) => {
                let id = self.id(def.did());
                self.adt_queue.borrow_mut().insert((id.clone(), def.did().krate.as_u32(), def.did().index.as_u32()));
                a(vec![s("adt"), s(id), self.args(args)])
            }
            Array(t, len) => a(vec![s("array"), self.ty(t), self.tyconst(len)]),
            Slice(t) => a(vec![s("slice"), self.ty(t)]),
            RawPtr(t, m) => a(vec![s("raw"), J::B(m.is_mut()), self.ty(t)]),
            Ref(_, t, m) => a(vec![s("ref"), J::B(m.is_mut()), self.ty(t)]),
            FnDef(d, args) => { let d: DefId = d.into(); a(vec![s("fndef"), s(self.id(d)), self.args(args.skip_binder())]) }
            FnPtr(sig, _) => {
                let sg = sig.skip_binder();
                a(vec![s("fnptr"), J::A(sg.inputs_and_output.iter().map(|t| self.ty(t)).collect())])
            }
            Dynamic(preds, _) => {
                let mut v = vec![];
                if let Some(p) = preds.principal() { v.push(s(self.id(p.def_id()))); }
                a(vec![s("dyn"), J::A(v)])
            }
            Closure(d, args) => a(vec![s("closure"), s(self.id(d.into())), self.args(args)]),
            Tuple(ts) => a(vec![s("tuple"), J::A(ts.iter().map(|t| self.ty(t)).collect())]),
            Param(p) => a(vec![s("param"), n(p.index as usize), s(p.name.to_string())]),
            _ => {
                a(vec![s("other"), s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)))])
            }
        }
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_else(|| format!("{:?}", r))
            }
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn place(&self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(nm, vi) =>
                    J::A(vec![s("d"), n(vi.as_usize()), nm.map(|x| s(x.to_string())).unwrap_or(J::Null)]),
                _ => J::A(vec![s("oc")]),
            });
        }
        J::A(v)
    }

    fn scalar_of(&self, sc: mir::interpret::Scalar, ty: Ty<'tcx>) -> J {
        match sc {
            mir::interpret::Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let v: i128 = match ty.kind() {
                    ty::TyKind::Int(_) => i.to_int(i.size()),
                    _ => bits as i128,
                };
                J::A(vec![s("int"), J::I(v)])
            }
            mir::interpret::Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if let Some(d) = ty.builtin_deref(true) {
                    return J::A(vec![s("cref"), self.alloc_val(aid, off.bytes(), d)]);
                }
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Function { instance } => J::A(vec![s("fnptrc"), s(self.id(instance.def_id()))]),
                    _ => J::A(vec![s("opaque"), s("ptr")]),
                }
            }
        }
    }

    // Decode a constant allocation of a type made of scalars, arrays, refs.
    fn alloc_val(&self, aid: mir::interpret::AllocId, off: u64, ty: Ty<'tcx>) -> J {
        match self.tcx.global_alloc(aid) {
            GlobalAlloc::Memory(al) => self.mem_val(al.inner(), off, ty),
            GlobalAlloc::Static(d) => J::A(vec![s("static"), s(self.id(d))]),
            _ => J::A(vec![s("opaque"), s("alloc")]),
        }
    }

    fn mem_val(&self, al: &mir::interpret::Allocation, off: u64, ty: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let opaque = || J::A(vec![s("opaque"), s(format!("{}", ty))]);
        use rustc_type_ir::TyKind::*;
        let raw = |o: u64, sz: u64| -> Option<u128> {
            if o + sz > al.size().bytes() { return None; }
            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + sz) as usize);
            let mut v: u128 = 0;
            for (i, x) in b.iter().enumerate() { if i < 16 { v |= (*x as u128) << (8 * i); } }
            Some(v)
        };
        match *ty.kind() {
            Bool | Char | Uint(_) | Int(_) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return opaque() };
                let sz = l.size.bytes();
                let Some(v) = raw(off, sz) else { return opaque() };
                let v = if let Int(_) = ty.kind() {
                    let sh = 128 - 8 * sz as u32;
                    ((v << sh) as i128) >> sh
                } else { v as i128 };
                J::A(vec![s("int"), J::I(v)])
            }
            Array(et, len) => {
                let Some(len) = len.try_to_target_usize(tcx) else { return opaque() };
                let Ok(l) = tcx.layout_of(env.as_query_input(et)) else { return opaque() };
                self.mem_seq(al, off, et, len, l.size.bytes())
            }
            Tuple(ts) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return opaque() };
                J::A(vec![s("tup"), J::A(ts.iter().enumerate().map(|(i, t)| self.mem_val(al, off + l.fields.offset(i).bytes(), t)).collect())])
            }
            Ref(_, inner, _) => {
                let Some((_, prov)) = al.provenance().ptrs().range(rustc_abi::Size::from_bytes(off)..rustc_abi::Size::from_bytes(off + 1)).first().map(|x| (x.0, x.1)) else { return opaque() };
                let aid = prov.alloc_id();
                let Some(po) = raw(off, 8) else { return opaque() };
                match *inner.kind() {
                    Str => {
                        let Some(len) = raw(off + 8, 8) else { return opaque() };
                        self.bytes_of(aid, po as u64, len as u64, true)
                    }
                    Slice(et) => {
                        let Some(len) = raw(off + 8, 8) else { return opaque() };
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Memory(a2) => {
                                let Ok(l) = tcx.layout_of(env.as_query_input(et)) else { return opaque() };
                                J::A(vec![s("cref"), self.mem_seq(a2.inner(), po as u64, et, len as u64, l.size.bytes())])
                            }
                            _ => opaque(),
                        }
                    }
                    _ => J::A(vec![s("cref"), self.alloc_val(aid, po as u64, inner)]),
                }
            }
            Adt(def, args) if def.is_struct() => {
                let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return opaque() };
                let v = def.non_enum_variant();
                let fs = v.fields.iter().enumerate().map(|(i, f)| {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.normalize_erasing_regions(env, ft);
                    self.mem_val(al, off + l.fields.offset(i).bytes(), ft)
                }).collect();
                J::A(vec![s("cadt"), s(self.id(def.did())), n(0), J::A(fs)])
            }
            Adt(def, _) if def.is_enum() && def.is_payloadfree() => {
                let Ok(l) = tcx.layout_of(env.as_query_input(ty)) else { return opaque() };
                let sz = l.size.bytes();
                let v = if sz == 0 { 0 } else { match raw(off, sz) { Some(v) => v, None => return opaque() } };
                for (vi, d) in def.discriminants(tcx) {
                    let mask = if sz == 0 || sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                    if sz == 0 || (d.val & mask) == v {
                        return J::A(vec![s("cadt"), s(self.id(def.did())), n(vi.as_usize()), J::A(vec![])]);
                    }
                }
                opaque()
            }
            _ => opaque(),
        }
    }

    fn mem_seq(&self, al: &mir::interpret::Allocation, off: u64, et: Ty<'tcx>, len: u64, esz: u64) -> J {
        if len > 4096 { return J::A(vec![s("opaque"), s("bigarray")]); }
        J::A(vec![s("arr"), J::A((0..len).map(|i| self.mem_val(al, off + i * esz, et)).collect())])
    }

    fn bytes_of(&self, aid: mir::interpret::AllocId, off: u64, len: u64, is_str: bool) -> J {
        match self.tcx.global_alloc(aid) {
            GlobalAlloc::Memory(al) => {
                let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                if is_str {
                    J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())])
                } else {
                    J::A(vec![s("cref"), J::A(vec![s("arr"), J::A(b.iter().map(|x| J::A(vec![s("int"), J::I(*x as i128)])).collect())])])
                }
            }
            _ => J::A(vec![s("opaque"), s("bytes")]),
        }
    }

    fn constval(&self, v: ConstValue, ty: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(sc) => {
                if let ty::TyKind::Adt(def, _) = ty.kind() {
                    if def.is_enum() && def.is_payloadfree() {
                        if let mir::interpret::Scalar::Int(i) = sc {
                            let bits = i.to_bits(i.size());
                            let sz = i.size().bytes();
                            let mask = if sz >= 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                            for (vi, d) in def.discriminants(self.tcx) {
                                if d.val & mask == bits { return J::A(vec![s("cadt"), s(self.id(def.did())), n(vi.as_usize()), J::A(vec![])]); }
                            }
                        }
                    }
                    if def.is_struct() && def.non_enum_variant().fields.len() == 1 {
                        return J::A(vec![s("cadt"), s(self.id(def.did())), n(0), J::A(vec![
                            self.scalar_of(sc, def.non_enum_variant().fields.iter().next().map(|f| match ty.kind() { ty::TyKind::Adt(_, a) => f.ty(self.tcx, a).skip_norm_wip(), _ => unreachable!() }).unwrap())
                        ])]);
                    }
                }
                self.scalar_of(sc, ty)
            }
            ConstValue::ZeroSized => match *ty.kind() {
                ty::TyKind::FnDef(d, args) => { let d: DefId = d.into(); J::A(vec![s("fn"), s(self.id(d)), self.args(args.skip_binder())]) }
                ty::TyKind::Closure(d, args) => J::A(vec![s("closure"), s(self.id(d.into())), self.args(args)]),
                ty::TyKind::Adt(d, _) => J::A(vec![s("cadt"), s(self.id(d.did())), n(0), J::A(vec![])]),
                _ => J::A(vec![s("unit")]),
            },
            ConstValue::Slice { alloc_id, meta } => match ty.builtin_deref(true).map(|t| *t.kind()) {
                Some(ty::TyKind::Str) => self.bytes_of(alloc_id, 0, meta, true),
                Some(ty::TyKind::Slice(et)) => {
                    match self.tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(al) => {
                            if let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(et)) {
                                return J::A(vec![s("cref"), self.mem_seq(al.inner(), 0, et, meta, l.size.bytes())]);
                            }
                            J::A(vec![s("opaque"), s("slice")])
                        }
                        _ => J::A(vec![s("opaque"), s("slice")]),
                    }
                }
                _ => self.bytes_of(alloc_id, 0, meta, false),
            },
            ConstValue::Indirect { alloc_id, offset } => self.alloc_val(alloc_id, offset.bytes(), ty),
        }
    }

    fn constant(&self, c: &ConstOperand<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        let mut o = vec![("ty", self.ty(ty))];
        match c.const_ {
            Const::Val(v, t) => o.push(("v", self.constval(v, t))),
            Const::Ty(_, k) => o.push(("v", J::A(vec![s("tyconst"), self.tyconst(k)]))),
            Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    let g: J = self.args(u.args);
                    o.push(("v", J::A(vec![s("promoted"), s(self.id(u.def)), n(p.as_usize()), g])));
                } else {
                    let env = TypingEnv::post_analysis(tcx, owner);
                    let mut ok = false;
                    if !rustc_middle::ty::TypeVisitableExt::has_param(&u.args) {
                        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                            o.push(("v", self.constval(v, t)));
                            ok = true;
                        }
                    }
                    if !ok {
                        o.push(("v", J::A(vec![s("const_item"), s(self.id(u.def)), self.args(u.args)])));
                    }
                    o.push(("from", s(self.id(u.def))));
                    o.push(("from_args", self.args(u.args)));
                }
            }
        }
        J::O(o)
    }

    fn operand(&self, op: &Operand<'tcx>, owner: DefId) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c, owner))]),
            _ => J::O(vec![("rc", J::B(true))]),
        }
    }

    fn rvalue(&self, rv: &Rvalue<'tcx>, owner: DefId) -> J {
        let op = |o: &Operand<'tcx>| self.operand(o, owner);
        match rv {
            Rvalue::Use(o, _) => J::A(vec![s("use"), op(o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), op(o), self.tyconst(*c)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{:?}", k)), op(o), self.ty(*t)]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{:?}", b)), op(&ops.0), op(&ops.1)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), op(o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, fs) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let _ = self.ty(self.tcx.type_of(*d).instantiate_identity().skip_norm_wip());
                        J::A(vec![s("adt"), s(self.id(*d)), n(vi.as_usize()), self.args(args),
                            af.map(|f| n(f.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, args) => J::A(vec![s("closure"), s(self.id(*d)), self.args(args)]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kind, J::A(fs.iter().map(op).collect())])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.id(*d))]),
            _ => J::A(vec![s("other"), s(format!("{:?}", rv))]),
        }
    }

    fn body(&self, body: &Body<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let locals = J::A(body.local_decls.iter().map(|l| self.ty(l.ty)).collect());
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => sts.push(J::A(vec![s("="), self.place(&b.0), self.rvalue(&b.1, owner), self.span(st.source_info.span)])),
                    StatementKind::SetDiscriminant { place, variant_index } =>
                        sts.push(J::A(vec![s("setd"), self.place(place), n(variant_index.as_usize())])),
                    StatementKind::StorageDead(l) => sts.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => sts.push(J::A(vec![s("live"), n(l.as_usize())])),
                    StatementKind::Intrinsic(i) => sts.push(J::A(vec![s("intr"), s(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let macro_name = {
                let mut e = t.source_info.span;
                let mut name = String::new();
                while e.from_expansion() {
                    let d = e.ctxt().outer_expn_data();
                    if let rustc_span::ExpnKind::Macro(_, nm) = d.kind { name = nm.to_string(); }
                    e = d.call_site;
                }
                name
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let signed = matches!(dty.kind(), ty::TyKind::Int(_));
                    let sz = tcx.layout_of(TypingEnv::post_analysis(tcx, owner).as_query_input(dty)).map(|l| l.size.bytes()).unwrap_or(8);
                    let conv = |v: u128| -> J {
                        if signed && sz < 16 { let sh = 128 - 8 * sz as u32; J::I(((v << sh) as i128) >> sh) } else { J::I(v as i128) }
                    };
                    J::A(vec![s("switch"), self.operand(discr, owner),
                        J::A(targets.iter().map(|(v, b)| J::A(vec![conv(v), n(b.as_usize())])).collect()),
                        n(targets.otherwise().as_usize()), self.ty(dty)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), n(target.as_usize())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let callee = match *fty.kind() {
                        ty::TyKind::FnDef(d, ga) => {
                            let d: DefId = d.into();
                            let ga = ga.skip_binder();
                            let mut o = vec![("def", s(self.id(d))), ("args", self.args(ga))];
                            let env = TypingEnv::post_analysis(tcx, owner);
                            let ga2 = tcx.erase_and_anonymize_regions(ga);
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ga2) {
                                if inst.def_id() != d {
                                    o.push(("res", s(self.id(inst.def_id()))));
                                    o.push(("res_args", self.args(inst.args)));
                                }
                                if matches!(inst.def, ty::InstanceKind::Virtual(..)) { o.push(("virtual", J::B(true))); }
                            }
                            J::O(o)
                        }
                        _ => J::O(vec![("op", self.operand(func, owner))]),
                    };
                    J::A(vec![s("call"), callee, J::A(args.iter().map(|a| self.operand(&a.node, owner)).collect()),
                        self.place(destination), target.map(|t| n(t.as_usize())).unwrap_or(J::Null)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len, owner), self.operand(index, owner)]),
                        AssertKind::Overflow(b, x, y) => J::A(vec![s("overflow"), s(format!("{:?}", b)), self.operand(x, owner), self.operand(y, owner)]),
                        AssertKind::OverflowNeg(x) => J::A(vec![s("overflowneg"), self.operand(x, owner)]),
                        AssertKind::DivisionByZero(x) => J::A(vec![s("divzero"), self.operand(x, owner)]),
                        AssertKind::RemainderByZero(x) => J::A(vec![s("remzero"), self.operand(x, owner)]),
                        o => J::A(vec![s("other"), s(format!("{:?}", o))]),
                    };
                    J::A(vec![s("assert"), self.operand(cond, owner), J::B(*expected), m, n(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } =>
                    J::A(vec![s("goto"), n(real_target.as_usize())]),
                o => J::A(vec![s("other"), s(format!("{:?}", o).chars().take(60).collect::<String>())]),
            };
            blocks.push(J::O(vec![("s", J::A(sts)), ("t", term), ("sp", sp), ("mac", s(macro_name)), ("cu", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("locals", locals),
            ("names", J::A(names)),
            ("span", self.span(body.span)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn adt_info(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        let discrs: Vec<_> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val as i128).collect() } else { vec![0] };
        for (i, v) in def.variants().iter().enumerate() {
            let fs = v.fields.iter().map(|f| {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                J::O(vec![("name", s(f.name.to_string())), ("ty", if d.is_local() { self.ty(t) } else { s(format!("{}", t)) }),
                    ("vis", s(if f.vis.is_public() { "pub".into() } else { format!("{:?}", f.vis) }))])
            }).collect();
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(discrs.get(i).copied().unwrap_or(0))), ("fields", J::A(fs))]));
        }
        J::O(vec![("name", s(self.pretty(d))), ("kind", s(if def.is_enum() {"enum"} else if def.is_union() {"union"} else {"struct"})),
            ("local", J::B(d.is_local())), ("variants", J::A(vs)), ("span", if d.is_local() { self.span(tcx.def_span(d)) } else { J::Null })])
    }
}

struct UnsafeV<'a, 'tcx> { cx: &'a Cx<'tcx>, out: Vec<J>, cur: String }
impl<'a, 'tcx> Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.cx.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            self.out.push(J::A(vec![s(self.cur.clone()), self.cx.span(b.span), s(format!("{:?}", src))]));
        }
        intravisit::walk_block(self, b);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, outdir: &str) {
    let cx = Cx { tcx, defs: Default::default(), adts: Default::default(), adt_queue: Default::default(), extern_consts: Default::default() };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut fns: Vec<(String, J)> = vec![];
    let mut unsafes = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| k.local_def_index.as_u32());
    for ld in keys {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let body = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if tcx.is_constructor(d) { continue; }
                tcx.optimized_mir(d)
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => tcx.mir_for_ctfe(d),
            _ => continue,
        };
        let id = cx.id(d);
        let mut gn = vec![];
        cx.generic_names(d, &mut gn);
        let mut o = vec![
            ("kind", s(format!("{:?}", kind))),
            ("name", s(cx.pretty(d))),
            ("generics", J::A(gn)),
            ("body", cx.body(body, d)),
        ];
        if let Some(nm) = tcx.opt_item_name(d) { o.push(("item", s(nm.to_string()))); }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("sig_in", J::A(sig.inputs().iter().map(|t| cx.ty(*t)).collect())));
            o.push(("sig_out", cx.ty(sig.output())));
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            if let Some(i) = tcx.impl_of_assoc(d) {
                o.push(("impl", s(cx.id(i))));
                o.push(("impl_self", cx.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                if let Some(t) = tcx.trait_impl_of_assoc(d) {
                    let tr = tcx.impl_trait_ref(t).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.id(tr.def_id))));
                    o.push(("trait_args", cx.args(tr.args)));
                    if let Some(ti) = tcx.trait_item_of(d) { o.push(("trait_item", s(cx.id(ti)))); }
                }
            } else if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("default_of", s(cx.id(t))));
            }
        }
        if kind == DefKind::Closure {
            o.push(("parent", s(cx.id(tcx.typeck_root_def_id(d)))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            let pr = tcx.promoted_mir(d);
            o.push(("promoted", J::A(pr.iter().map(|b| cx.body(b, d)).collect())));
        }
        if matches!(kind, DefKind::Static { .. }) {
            o.push(("static_mut", J::B(tcx.is_mutable_static(d))));
        }
        if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            if tcx.generics_of(d).count() == 0 && tcx.trait_of_assoc(d).is_none() {
                if let Ok(v) = tcx.const_eval_poly(d) {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t));
                    o.push(("val", cx.constval(v, t)));
                }
            }
        }
        o.push(("test", J::B(false)));
        fns.push((id.clone(), J::O(o)));
        // unsafe blocks
        if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
            if !matches!(kind, DefKind::Closure | DefKind::AnonConst) {
                let mut v = UnsafeV { cx: &cx, out: vec![], cur: id };
                v.visit_body(b);
                unsafes.extend(v.out);
            }
        }
    }
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for i in is {
            let did = i.to_def_id();
            let trf = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let mut items = vec![];
            for it in tcx.associated_items(did).in_definition_order() {
                if let Some(ti) = tcx.trait_item_of(it.def_id) {
                    let mut v = vec![s(cx.id(ti)), s(cx.id(it.def_id)), s(it.name().to_string())];
                    if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                        v.push(cx.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()));
                    }
                    items.push(J::A(v));
                }
            }
            let mut gn = vec![];
            cx.generic_names(did, &mut gn);
            let derived = tcx.is_builtin_derived(did);
            impls.push(J::O(vec![
                ("id", s(cx.id(did))),
                ("trait", s(cx.id(*tr))),
                ("trait_name", s(cx.pretty(*tr))),
                ("self", cx.ty(trf.self_ty())),
                ("trait_args", cx.args(trf.args)),
                ("generics", J::A(gn)),
                ("items", J::A(items)),
                ("derived", J::B(derived)),
                ("span", cx.span(tcx.def_span(did))),
            ]));
        }
    }
    // statics / consts / uses: list all local ADTs
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
        }
    }
    // resolve adts (worklist)
    loop {
        let next = { cx.adt_queue.borrow().iter().find(|(id, _, _)| !cx.adts.borrow().contains_key(id)).cloned() };
        let Some((id, k, ix)) = next else { break };
        let d = DefId { krate: rustc_span::def_id::CrateNum::from_u32(k), index: rustc_span::def_id::DefIndex::from_u32(ix) };
        let j = cx.adt_info(d);
        cx.adts.borrow_mut().insert(id, j);
    }
    // trait -> method vis etc. local item visibility
    let mut items = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        let k = tcx.def_kind(d);
        if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Trait | DefKind::Mod | DefKind::TyAlias) {
            items.push(J::A(vec![s(cx.id(d)), s(format!("{:?}", k)), J::B(tcx.effective_visibilities(()).is_reachable(ld)), cx.span(tcx.def_span(d))]));
        }
    }
    let _ = &cx.extern_consts;
    let feats: Vec<String> = tcx.sess.config.iter().filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|x| x.to_string()) } else { None }).collect();
    let mut fs = feats.clone();
    fs.sort();
    let defs = cx.defs.take();
    let adts = cx.adts.take();
    let out = J::O(vec![
        ("crate", s(krate.clone())),
        ("features", J::A(fs.iter().map(|x| s(x.clone())).collect())),
        ("defs", J::M(defs.into_iter().collect())),
        ("adts", J::M(adts.into_iter().collect())),
        ("impls", J::A(impls)),
        ("items", J::A(items)),
        ("unsafes", J::A(unsafes)),
        ("fns", J::M(fns)),
    ]);
    let mut text = String::new();
    out.write(&mut text);
    let path = format!("{}/{}.json", outdir, krate);
    let tmp = format!("{}.{}.tmp", path, std::process::id());
    std::fs::write(&tmp, text).expect("write facts");
    std::fs::rename(&tmp, &path).expect("rename facts");
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_none() { dump(tcx, &self.out); }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let out = std::env::var("MIRFACTS_OUT").ok();
    let is_real = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a.starts_with("--print")) 
        && !args.windows(2).any(|w| w[0] == "--crate-name" && (w[1] == "___" || w[1].starts_with("build_script")));
    struct Nop;
    impl rustc_driver::Callbacks for Nop {}
    let code = rustc_driver::catch_with_exit_code(move || match (out, is_real) {
        (Some(o), true) => rustc_driver::compiler_entrypoint(&args, &mut Cb { out: o }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Nop),
    });
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
