//! Dumps the monomorphic MIR reachable from every function of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER.  No analysis happens here: the rules are in ../sa.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::Size;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::intravisit as hv;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

/// minimal JSON value
#[derive(Clone, Debug)]
enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}
impl J {
    fn out(&self, w: &mut String) {
        match self {
            J::N => w.push_str("null"),
            J::B(b) => w.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(w, "{}", i).unwrap(),
            J::U(i) => write!(w, "{}", i).unwrap(),
            J::S(t) => {
                w.push('"');
                for c in t.chars() {
                    match c {
                        '"' => w.push_str("\\\""),
                        '\\' => w.push_str("\\\\"),
                        c if (c as u32) < 0x20 => write!(w, "\\u{:04x}", c as u32).unwrap(),
                        c => w.push(c),
                    }
                }
                w.push('"');
            }
            J::A(v) => {
                w.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    x.out(w);
                }
                w.push(']');
            }
            J::O(v) => {
                w.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        w.push(',');
                    }
                    write!(w, "\"{}\":", k).unwrap();
                    x.out(w);
                }
                w.push('}');
            }
        }
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tyids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    fns: Vec<J>,
}

const CORE_OK: &[&str] = &[
    "option", "result", "ops", "cmp", "convert", "clone", "default", "bool", "iter", "mem", "array", "borrow", "num",
    "tuple",
];

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        let t = with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str(d)));
        let name = self.tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        t.replace("crate::", &format!("{}::", name))
    }
    fn path_args(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let t = with_no_trimmed_paths!(with_crate_prefix!(self.tcx.def_path_str_with_args(d, args)));
        let name = self.tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        t.replace("crate::", &format!("{}::", name))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        let t = with_no_trimmed_paths!(with_crate_prefix!(t.to_string()));
        let name = self.tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        t.replace("crate::", &format!("{}::", name))
    }
    fn raw_path(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        t
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.tyids.insert(t, id);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(self.tystr(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", u(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(i) => {
                o.push(("k", s("uint")));
                o.push(("bits", u(i.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("e", u(e)));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("e", u(e)));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("n", u(n as usize)));
                }
            }
            ty::Ref(_, e, m) | ty::RawPtr(e, m) => {
                o.push(("k", s(if t.is_ref() { "ref" } else { "ptr" })));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(e);
                o.push(("e", u(e)));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| u(self.ty(x))).collect();
                o.push(("f", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let v = args.as_closure().upvar_tys().iter().map(|x| u(self.ty(x))).collect();
                o.push(("f", J::A(v)));
                if !args.has_param() {
                    if let Some(id) = self.inst(Instance::new_raw(d, args)) {
                        o.push(("fn", u(id)));
                    }
                }
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(d))));
                if !t.has_param() {
                    let c = self.callee(d, args);
                    o.push(("callee", c));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                o.push(("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a = args.types().map(|x| u(self.ty(x))).collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                let expand = def.is_enum() || {
                    let k = self.tcx.crate_name(def.did().krate).to_string();
                    k == "core" || k == "retrocompressor" || def.did().is_local()
                };
                if expand {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            let fid = self.ty(ft);
                            fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", u(fid))]));
                        }
                        let d = if def.is_enum() {
                            let d = def.discriminant_for_variant(self.tcx, vi);
                            let v = d.val;
                            // sign extend
                            let sz = match d.ty.kind() {
                                ty::Int(i) => i.bit_width().unwrap_or(64),
                                _ => 0,
                            };
                            if sz > 0 && sz < 128 && (v >> (sz - 1)) & 1 == 1 {
                                J::I(v as i128 - (1i128 << sz))
                            } else {
                                J::U(v)
                            }
                        } else {
                            J::N
                        };
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn body_ok(&self, inst: Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                let tcx = self.tcx;
                if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                if !tcx.is_mir_available(d) {
                    return false;
                }
                let k = tcx.crate_name(d.krate).to_string();
                if k == "retrocompressor" {
                    return true;
                }
                if k == "core" {
                    let p = tcx.def_path(d).to_string_no_crate_verbose();
                    let first = p.split("::").nth(1).unwrap_or("").to_string();
                    return CORE_OK.contains(&first.as_str());
                }
                false
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ShimKind::FnPtr(..))
            | InstanceKind::Shim(ShimKind::Clone(..)) => true,
            _ => false,
        }
    }
    fn inst(&mut self, inst: Instance<'tcx>) -> Option<usize> {
        if let Some(i) = self.insts.get(&inst) {
            return Some(*i);
        }
        if !self.body_ok(inst) {
            return None;
        }
        let id = self.fns.len();
        self.fns.push(J::N);
        self.insts.insert(inst, id);
        self.queue.push_back((inst, id));
        Some(id)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("decl", s(self.path(d))));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    let i = self.ty(t);
                    o.push(("selfty", u(i)));
                }
            }
        }
        let tys: Vec<J> = args.types().map(|x| u(self.ty(x))).collect();
        o.push(("args", J::A(tys)));
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    _ => "shim",
                };
                o.push(("kind", s(k)));
                let rd = inst.def_id();
                o.push(("path", s(self.path(rd))));
                o.push(("raw", s(self.raw_path(rd))));
                o.push(("full", s(self.path_args(rd, inst.args))));
                o.push(("crate", s(tcx.crate_name(rd.krate).to_string())));
                if let Some(ti) = tcx.trait_impl_of_assoc(rd) {
                    if let Some(it) = tcx.opt_associated_item(rd).and_then(|a| a.trait_item_def_id()) {
                        if tcx.trait_of_assoc(d).is_none() {
                            o.push(("itrait", s(self.path(tcx.parent(it)))));
                            o.push(("imethod", s(tcx.item_name(it).to_string())));
                        }
                    }
                    let _ = ti;
                }
                if let Some(id) = self.inst(inst) {
                    o.push(("fn", u(id)));
                }
            }
            _ => {
                o.push(("kind", s("unresolved")));
                o.push(("path", s(self.path(d))));
                o.push(("crate", s(tcx.crate_name(d.krate).to_string())));
            }
        }
        J::O(o)
    }

    // ---- constants
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", u(tid))];
        if depth > 12 {
            o.push(("k", s("deep")));
            return J::O(o);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(sc) = self.scalar(v, t) {
                    if let Scalar::Int(i) = sc {
                        let sz = i.size();
                        let bits = i.to_bits(sz);
                        let val = if let ty::Int(_) = t.kind() { J::I(sz.sign_extend(bits)) } else { J::U(bits) };
                        o.push(("k", s("int")));
                        o.push(("v", val));
                        return J::O(o);
                    }
                }
                o.push(("k", s("opaque")));
                J::O(o)
            }
            ty::FnDef(..) => {
                o.push(("k", s("fn")));
                J::O(o)
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                match *e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let r = self.fat(v);
                        if let Some((alloc, off, len)) = r {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc) {
                                let esz = match *e.kind() {
                                    ty::Slice(x) => tcx
                                        .layout_of(self.env.as_query_input(x))
                                        .map(|l| l.size.bytes())
                                        .unwrap_or(0),
                                    _ => 1,
                                };
                                if e.is_str() {
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                        off as usize..(off + len * esz) as usize,
                                    );
                                    o.push(("k", s("str")));
                                    o.push(("v", s(String::from_utf8_lossy(b).to_string())));
                                    return J::O(o);
                                }
                                let x = e.sequence_element_type(tcx);
                                let mut el = vec![];
                                for i in 0..len.min(4096) {
                                    let cv =
                                        ConstValue::Indirect { alloc_id: alloc, offset: Size::from_bytes(off + i * esz) };
                                    el.push(self.cval(cv, x, depth + 1));
                                }
                                o.push(("k", s("slice")));
                                o.push(("v", J::A(el)));
                                return J::O(o);
                            }
                        }
                        o.push(("k", s("opaque")));
                        J::O(o)
                    }
                    ty::Dynamic(..) => {
                        o.push(("k", s("opaque")));
                        J::O(o)
                    }
                    _ => {
                        if let Some(Scalar::Ptr(p, _)) = self.scalar(v, t) {
                            let (prov, off) = p.prov_and_relative_offset();
                            match tcx.global_alloc(prov.alloc_id()) {
                                GlobalAlloc::Memory(_) => {
                                    let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                    let inner = self.cval(cv, e, depth + 1);
                                    o.push(("k", s("refto")));
                                    o.push(("v", inner));
                                    return J::O(o);
                                }
                                GlobalAlloc::Static(d) => {
                                    let frozen = !tcx.is_mutable_static(d)
                                        && !tcx.is_foreign_item(d)
                                        && !tcx.is_thread_local_static(d)
                                        && e.is_freeze(tcx, self.env);
                                    if frozen {
                                        if let Ok(a) = tcx.eval_static_initializer(d) {
                                            let id = tcx.reserve_and_set_memory_alloc(a);
                                            let inner = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, e, depth + 1);
                                            o.push(("k", s("refto")));
                                            o.push(("v", inner));
                                            o.push(("static", s(self.path(d))));
                                            return J::O(o);
                                        }
                                    }
                                    o.push(("k", s("static")));
                                    o.push(("v", s(self.path(d))));
                                    return J::O(o);
                                }
                                _ => {}
                            }
                        }
                        o.push(("k", s("opaque")));
                        J::O(o)
                    }
                }
            }
            ty::Adt(def, _) if def.is_union() => {
                o.push(("k", s("opaque")));
                J::O(o)
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(def, args) = *t.kind() {
                    // single-variant zero-sized or opaque std types are of no interest
                    let _ = (def, args);
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc.fields.iter().map(|(cv, ct)| self.cval(*cv, *ct, depth + 1)).collect();
                        o.push(("k", s("agg")));
                        if let Some(vi) = dc.variant {
                            o.push(("vi", u(vi.as_usize())));
                        }
                        o.push(("v", J::A(fs)));
                    }
                    None => o.push(("k", s("opaque"))),
                }
                J::O(o)
            }
            _ => {
                o.push(("k", s("opaque")));
                J::O(o)
            }
        }
    }
    fn scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        match v {
            ConstValue::Scalar(x) => Some(x),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let r = AllocRange { start: offset, size: l.size };
                a.inner().read_scalar(&self.tcx, r, t.is_ref() || t.is_raw_ptr()).ok()
            }
            _ => None,
        }
    }
    fn fat(&self, v: ConstValue) -> Option<(mir::interpret::AllocId, u64, u64)> {
        match v {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
                let ps = self.tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&self.tcx, AllocRange { start: offset, size: ps }, true).ok()?;
                let l = a.inner().read_scalar(&self.tcx, AllocRange { start: offset + ps, size: ps }, false).ok()?;
                let Scalar::Ptr(p, _) = p else { return None };
                let (prov, off) = p.prov_and_relative_offset();
                let Scalar::Int(l) = l else { return None };
                Some((prov.alloc_id(), off.bytes(), l.to_bits(ps) as u64))
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let mut name = None;
        if let mir::Const::Unevaluated(un, _) = c {
            if un.promoted.is_none() {
                name = Some(self.path(un.def));
            }
        }
        let mut r = match c.eval(self.tcx, self.env, sp) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => {
                let tid = self.ty(t);
                J::O(vec![("t", u(tid)), ("k", s("opaque"))])
            }
        };
        if let (Some(n), J::O(o)) = (name, &mut r) {
            o.push(("name", s(n)));
        }
        r
    }

    // ---- bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), u(f.as_usize()), u(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), u(offset as usize), u(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), u(from as usize), u(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), u(v.as_usize())]),
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(t);
                    J::A(vec![s("o"), u(t)])
                }
                _ => s("?"),
            });
        }
        J::A(vec![u(p.local.as_usize()), J::A(pr)])
    }
    fn op(&mut self, o: &Operand<'tcx>, sp: Span) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, sp)]),
            Operand::RuntimeChecks(c) => J::A(vec![s("rt"), s(format!("{:?}", c))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, sp: Span) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, sp)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| u(x as usize)).unwrap_or(J::N);
                J::A(vec![s("rep"), self.op(o, sp), n])
            }
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                // a reborrow of a reference-like value: same as copying it
                J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)]), J::B(m.is_mut())])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o, sp);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, u(t)])
            }
            Rvalue::BinaryOp(b, x) => {
                let a = self.op(&x.0, sp);
                let c = self.op(&x.1, sp);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c])
            }
            Rvalue::UnaryOp(b, x) => J::A(vec![s("un"), s(format!("{:?}", b)), self.op(x, sp)]),
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.op(o, sp)).collect();
                let kk = match **k {
                    AggregateKind::Array(_) => s("array"),
                    AggregateKind::Tuple => s("tuple"),
                    AggregateKind::Adt(_, v, _, _, af) => {
                        J::A(vec![s("adt"), u(v.as_usize()), af.map(|f| u(f.as_usize())).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(..) => s("closure"),
                    AggregateKind::RawPtr(..) => s("rawptr"),
                    _ => s("other"),
                };
                J::A(vec![s("agg"), kk, J::A(ops)])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let b = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, b.clone()),
        );
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(self.path(did))));
        o.push(("full", s(self.path_args(did, inst.args))));
        o.push(("raw", s(self.raw_path(did))));
        o.push(("crate", s(tcx.crate_name(did.krate).to_string())));
        o.push(("local", J::B(did.is_local())));
        o.push(("shim", J::B(!matches!(inst.def, InstanceKind::Item(_)))));
        o.push(("closure", J::B(tcx.is_closure_like(did))));
        o.push(("span", self.span(body.span)));
        o.push(("argc", u(body.arg_count)));
        if matches!(inst.def, InstanceKind::Item(_)) {
            if let Some(l) = did.as_local() {
                if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                    o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(l))));
                }
            }
        }
        o.push(("spread", body.spread_arg.map(|x| u(x.as_usize())).unwrap_or(J::N)));
        let locals: Vec<J> = body.local_decls.iter().map(|d| u(self.ty(d.ty))).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![u(p.local.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for stmt in &bb.statements {
                let sp = stmt.source_info.span;
                match &stmt.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rv(&x.1, sp);
                        st.push(J::A(vec![s("="), p, r, self.span(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, u(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(l.as_usize())])),
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = **i {
                            st.push(J::A(vec![s("cno")]));
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let bbi = |x: BasicBlock| u(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbi(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbi(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbi(*real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, sp);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), bbi(b)])).collect();
                    J::A(vec![s("switch"), d, J::A(v), bbi(targets.otherwise()), u(dt), self.span(sp)])
                }
                TerminatorKind::Return => J::A(vec![s("ret"), self.span(sp)]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, bbi(*target), u(pt), self.span(sp)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match *c.const_.ty().kind() {
                            ty::FnDef(d, a) => {
                                let a = a.skip_binder();
                                self.callee(d, a)
                            }
                            _ => J::A(vec![s("op"), self.op(func, sp)]),
                        },
                        _ => J::A(vec![s("op"), self.op(func, sp)]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, sp)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let at: Vec<J> =
                        args.iter().map(|x| x.node.ty(&body.local_decls, tcx)).collect::<Vec<_>>().into_iter().map(|t| u(self.ty(t))).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(|x| u(x.as_usize())).unwrap_or(J::N),
                        self.span(*fn_span),
                        u(dt),
                        J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, sp);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.op(len, sp), self.op(index, sp)])
                        }
                        AssertKind::Overflow(b, x, y) => {
                            (format!("overflow:{:?}", b), vec![self.op(x, sp), self.op(y, sp)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x, sp)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(x, sp)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(x, sp)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(ops), bbi(*target), self.span(sp)])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct UnsafeV<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    out: &'a mut Vec<(String, Span)>,
}
impl<'a, 'tcx> hv::Visitor<'tcx> for UnsafeV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.out.push(("unsafe block".into(), b.span));
        }
        hv::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if let Some(of) = im.of_trait {
                    if of.safety.is_unsafe() {
                        self.out.push(("unsafe impl".into(), i.span));
                    }
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(("extern block".into(), i.span)),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.out.push(("global_asm".into(), i.span)),
            _ => {}
        }
        hv::walk_item(self, i);
    }
    fn visit_fn(
        &mut self,
        fk: hv::FnKind<'tcx>,
        fd: &'tcx rustc_hir::FnDecl<'tcx>,
        b: rustc_hir::BodyId,
        sp: Span,
        id: rustc_hir::def_id::LocalDefId,
    ) {
        if let Some(h) = fk.header() {
            if h.is_unsafe() {
                self.out.push(("unsafe fn".into(), sp));
            }
        }
        hv::walk_fn(self, fk, fd, b, id);
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let env = TypingEnv::fully_monomorphized();
        let mut d = Dumper {
            tcx,
            env,
            types: vec![],
            tyids: HashMap::new(),
            insts: HashMap::new(),
            queue: VecDeque::new(),
            fns: vec![],
        };
        let mut roots = vec![];
        let mut generic = vec![];
        let mut items = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let did = l.to_def_id();
            let k = tcx.def_kind(did);
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(did) {
                        continue;
                    }
                    let p = d.path(did);
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        generic.push(J::O(vec![
                            ("path", s(p)),
                            ("pub", J::B(tcx.effective_visibilities(()).is_exported(l))),
                            ("span", d.span(tcx.def_span(did))),
                        ]));
                    } else {
                        let inst = Instance::mono(tcx, did);
                        if let Some(id) = d.inst(inst) {
                            roots.push(u(id));
                        }
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let mut o = vec![("path", s(d.path(did))), ("span", d.span(tcx.def_span(did)))];
                    o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(l))));
                    if let DefKind::Static { mutability, .. } = k {
                        o.push(("static", J::B(true)));
                        o.push(("mut", J::B(mutability.is_mut())));
                        o.push(("freeze", J::B(t.is_freeze(tcx, env))));
                        o.push(("ty", s(d.tystr(t))));
                    } else {
                        match tcx.const_eval_poly(did) {
                            Ok(v) => {
                                let c = d.cval(v, t, 0);
                                o.push(("v", c));
                            }
                            Err(_) => o.push(("v", J::N)),
                        }
                    }
                    items.push(J::O(o));
                }
                _ => {}
            }
        }
        while let Some((inst, id)) = d.queue.pop_front() {
            let b = d.body(inst);
            d.fns[id] = b;
        }
        let mut us = vec![];
        {
            let mut v = UnsafeV { tcx, out: &mut us };
            tcx.hir_walk_toplevel_module(&mut v);
        }
        let us: Vec<J> = us
            .into_iter()
            .map(|(k, sp)| {
                J::O(vec![("k", s(k)), ("span", d.span(sp)), ("macro", J::B(sp.from_expansion()))])
            })
            .collect();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let isbin = tcx.entry_fn(()).is_some();
        let entry = tcx.entry_fn(()).map(|(e, _)| s(d.path(e))).unwrap_or(J::N);
        let files: Vec<J> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter(|f| f.cnum == rustc_span::def_id::LOCAL_CRATE)
            .map(|f| s(f.name.prefer_local_unconditionally().to_string()))
            .collect();
        let j = J::O(vec![
            ("crate", s(name.clone())),
            ("bin", J::B(isbin)),
            ("entry", entry),
            ("files", J::A(files)),
            ("types", J::A(d.types)),
            ("fns", J::A(d.fns)),
            ("roots", J::A(roots)),
            ("generic", J::A(generic)),
            ("items", J::A(items)),
            ("unsafe", J::A(us)),
        ]);
        let mut w = String::new();
        j.out(&mut w);
        let f = format!("{}/{}-{}.json", self.out, name, if isbin { "bin" } else { "lib" });
        std::fs::write(&f, w).expect("write dump");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if out.is_empty() || test || name != "retrocompressor" {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    for a in ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=on"] {
        args.push(a.to_string());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
