//! Dumps, as JSON, the MIR of everything reachable from the methods of the probe crate's
//! `impl P<N>` and from its free functions, together with the types and virtual tables in use.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::VariantIdx;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Key<'tcx> {
    Fn(Instance<'tcx>),
    Const(Instance<'tcx>, Option<usize>),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    te: ty::TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<(Ty<'tcx>, usize)>,
    keys: HashMap<Key<'tcx>, usize>,
    key_out: Vec<String>,
    key_queue: VecDeque<(Key<'tcx>, usize)>,
    vtables: HashMap<(usize, usize), String>,
    stops: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_queue.push_back((t, i));
        i
    }
    fn key(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.keys.get(&k) {
            return *i;
        }
        let i = self.key_out.len();
        self.keys.insert(k, i);
        self.key_out.push(String::new());
        self.key_queue.push_back((k, i));
        i
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return v.to_string();
        }
        if let Ok(c2) = self.tcx.try_normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(c)) {
            if let Some(v) = c2.try_to_target_usize(self.tcx) {
                return v.to_string();
            }
        }
        esc(&format!("{c}"))
    }
    fn emit_ty(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let name = with_no_trimmed_paths!(format!("{t}"));
        let _ = write!(o, "\"name\":{}", esc(&name));
        if let Ok(l) = tcx.layout_of(self.te.as_query_input(t)) {
            if l.is_sized() {
                let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
            }
        }
        let _ = write!(o, ",\"nd\":{}", t.needs_drop(tcx, self.te));
        match *t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64));
            }
            ty::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64));
            }
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = self.cst(n);
                let _ = write!(o, ",\"k\":\"array\",\"el\":{e},\"n\":{n}");
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"slice\",\"el\":{e}");
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ptr\",\"el\":{e},\"mut\":{}", m.is_mut());
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ref\",\"el\":{e},\"mut\":{}", m.is_mut());
            }
            ty::Tuple(es) => {
                let es: Vec<_> = es.iter().map(|e| self.ty(e).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"els\":{}", list(es));
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let c = self.callee(d, args);
                let _ = write!(o, ",\"k\":\"fndef\",\"fn\":{c}");
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"els\":{}", esc(&self.path(d)), list(ups));
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                let _ = write!(o, ",\"k\":\"dyn\",\"path\":{}", esc(&p));
            }
            ty::Pat(e, _) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"pat\",\"el\":{e}");
            }
            ty::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"path\":{}", esc(p.name.as_str()));
            }
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"path\":{},\"kind\":\"{kind}\",\"transparent\":{}", esc(&path), def.repr().transparent());
                let targs: Vec<_> = args.iter().filter_map(|a| {
                    if let Some(t) = a.as_type() { Some(self.ty(t).to_string()) } else if let Some(c) = a.as_const() { Some(format!("{{\"c\":{}}}", self.cst(c))) } else { None }
                }).collect();
                let _ = write!(o, ",\"args\":{}", list(targs));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.try_normalize_erasing_regions(self.te, ft).unwrap_or_else(|_| ft.skip_norm_wip());
                        let fi = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(v.name.as_str()), discr, list(fs)));
                }
                let _ = write!(o, ",\"variants\":{}", list(vs));
                if let Some(ds) = def.destructor(tcx) {
                    let a = tcx.mk_args(&[t.into()]);
                    let trait_drop = tcx.lang_items().drop_trait().and_then(|d| tcx.associated_item_def_ids(d).first().copied());
                    let mut done = false;
                    if let Some(td) = trait_drop {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.te, td, a) {
                            let stopped = self.stopped(&self.path(ds.did)) || self.stopped(&path);
                            if !stopped && tcx.is_mir_available(inst.def_id()) {
                                let id = self.key(Key::Fn(inst));
                                let _ = write!(o, ",\"drop\":{id}");
                                done = true;
                            }
                        }
                    }
                    if !done {
                        o.push_str(",\"drop\":-1");
                    }
                }
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        o
    }
    fn stopped(&self, p: &str) -> bool {
        let not = self.stops.iter().any(|s| s.strip_prefix('!').is_some_and(|s| p.starts_with(s)));
        !not && self.stops.iter().any(|s| p.starts_with(s.as_str()))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let tpath = self.path(d);
        let targs: Vec<_> = args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(self.ty(t).to_string())
                } else if let Some(c) = a.as_const() {
                    Some(format!("{{\"c\":{}}}", self.cst(c)))
                } else {
                    None
                }
            })
            .collect();
        let mut o = format!("{{\"tpath\":{},\"args\":{}", esc(&tpath), list(targs));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let dk = tcx.def_kind(d);
        if let DefKind::Ctor(..) = dk {
            o.push_str(",\"ctor\":true");
        }
        if self.stopped(&tpath) {
            // A trait of a stopped path is followed where this crate or the library implements it.
            let mut own = false;
            if tcx.trait_of_assoc(d).is_some() {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.te, d, args) {
                    let did = inst.def_id();
                    let by_ref = tcx
                        .impl_of_assoc(did)
                        .is_some_and(|im| tcx.type_of(im).instantiate_identity().skip_norm_wip().is_ref());
                    own = did != d && (did.is_local() || by_ref || tcx.crate_name(did.krate).as_str() == "lokky");
                    if !own {
                        let _ = write!(o, ",\"path\":{}", esc(&self.path(did)));
                    }
                }
            }
            if !own {
                o.push_str(",\"k\":\"stop\"}");
                return o;
            }
        }
        match Instance::try_resolve(tcx, self.te, d, args) {
            Ok(Some(inst)) => {
                let did = inst.def_id();
                let rpath = self.path(did);
                let _ = write!(o, ",\"path\":{}", esc(&rpath));
                let impl_ = tcx.impl_of_assoc(did);
                if let Some(im) = impl_ {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"implself\":{}", esc(&with_no_trimmed_paths!(format!("{st}"))));
                }
                match inst.def {
                    InstanceKind::Item(di) => {
                        if self.stopped(&rpath) {
                            o.push_str(",\"k\":\"stop\"");
                        } else if tcx.is_mir_available(di) {
                            let id = self.key(Key::Fn(inst));
                            let cl = tcx.is_closure_like(di);
                            let _ = write!(o, ",\"k\":\"item\",\"fn\":{id},\"closure\":{cl}");
                        } else {
                            o.push_str(",\"k\":\"nomir\"");
                        }
                        if tcx.codegen_fn_attrs(di).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NEVER_UNWIND) {
                            o.push_str(",\"nounwind\":true");
                        }
                    }
                    InstanceKind::Intrinsic(di) => {
                        let _ = write!(o, ",\"k\":\"intrinsic\",\"name\":{}", esc(tcx.item_name(di).as_str()));
                    }
                    InstanceKind::Virtual(di, _) => {
                        let _ = write!(o, ",\"k\":\"virtual\",\"method\":{}", esc(&self.path(di)));
                    }
                    InstanceKind::Shim(s) => match s {
                        ShimKind::ClosureOnce { closure, .. } => {
                            let cargs = match args.type_at(0).kind() {
                                ty::Closure(_, a) => *a,
                                _ => args,
                            };
                            let i2 = Instance::new_raw(closure, cargs);
                            let id = self.key(Key::Fn(i2));
                            let _ = write!(o, ",\"k\":\"closureonce\",\"fn\":{id}");
                        }
                        ShimKind::FnPtr(..) => o.push_str(",\"k\":\"fnptrshim\""),
                        ShimKind::DropGlue(_, Some(t)) => {
                            let t = self.ty(t);
                            let _ = write!(o, ",\"k\":\"dropglue\",\"ty\":{t}");
                        }
                        ShimKind::DropGlue(_, None) => o.push_str(",\"k\":\"nop\""),
                        ShimKind::Clone(_, t) => {
                            let t = self.ty(t);
                            let _ = write!(o, ",\"k\":\"cloneshim\",\"ty\":{t}");
                        }
                        other => {
                            let _ = write!(o, ",\"k\":\"shim\",\"name\":{}", esc(&format!("{other:?}")));
                        }
                    },
                    _ => o.push_str(",\"k\":\"other\""),
                }
            }
            _ => {
                o.push_str(",\"k\":\"unresolved\"");
            }
        }
        o.push('}');
        o
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(..) => return "{\"z\":1}".into(),
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_struct() || d.is_enum() {
                        if let Some(ds) = self.destr(v, t, depth) {
                            return ds;
                        }
                    }
                }
                "{\"z\":1}".into()
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                if let ty::Adt(..) | ty::Tuple(..) | ty::Array(..) = t.kind() {
                    if let Some(ds) = self.destr(v, t, depth) {
                        return ds;
                    }
                }
                let bits = i.to_bits(i.size());
                let (signed, n) = match t.kind() {
                    ty::Int(it) => (true, it.bit_width().unwrap_or(64)),
                    _ => (false, 0),
                };
                if signed && n < 128 && n > 0 && (bits >> (n - 1)) & 1 == 1 {
                    return format!("{{\"i\":{}}}", bits as i128 - (1i128 << n));
                }
                format!("{{\"i\":{bits}}}")
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
                    Some(GlobalAlloc::Function { instance }) => {
                        let id = self.key(Key::Fn(instance));
                        format!("{{\"fnptr\":{id}}}")
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        if let Some(inner) = t.builtin_deref(true) {
                            if depth < 6 {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let it = self.ty(inner);
                                let s = self.cval(iv, inner, depth + 1);
                                return format!("{{\"refto\":{s},\"t\":{it}}}");
                            }
                        }
                        if let ty::Adt(..) = t.kind() {
                            if let Some(ds) = self.destr(v, t, depth) {
                                return ds;
                            }
                        }
                        format!("{{\"opq\":{}}}", esc(&format!("{t}")))
                    }
                    _ => format!("{{\"opq\":{}}}", esc(&format!("{t}"))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let bytes = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..m.inner().len().min(meta as usize));
                    let is_str = t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false);
                    if is_str {
                        return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(bytes)));
                    }
                }
                format!("{{\"slice\":{meta}}}")
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let (Some(inner), GlobalAlloc::Memory(m)) = (t.builtin_deref(true), tcx.global_alloc(alloc_id)) {
                    // A reference kept in a constant.
                    let w = tcx.data_layout.pointer_size();
                    let at = |o: rustc_abi::Size, ptr: bool| m.inner().read_scalar(&tcx, mir::interpret::alloc_range(o, w), ptr).ok();
                    if let Some(Scalar::Ptr(p, z)) = at(offset, true) {
                        if inner.is_str() {
                            if let Some(Scalar::Int(n)) = at(offset + w, false) {
                                let (prov, o) = p.into_raw_parts();
                                if let Some(GlobalAlloc::Memory(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                    let (o, n) = (o.bytes() as usize, n.to_bits(n.size()) as usize);
                                    if o + n <= d.inner().len() {
                                        let b = d.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                        return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                                    }
                                }
                            }
                        } else if inner.is_sized(tcx, self.te) {
                            return self.cval(ConstValue::Scalar(Scalar::Ptr(p, z)), t, depth + 1);
                        }
                    }
                }
                if let Some(ds) = self.destr(v, t, depth) {
                    return ds;
                }
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(si) = v.try_to_scalar_int() {
                        return format!("{{\"i\":{}}}", si.to_bits(si.size()));
                    }
                    if let Ok(l) = tcx.layout_of(self.te.as_query_input(t)) {
                        if let ConstValue::Indirect { alloc_id, offset } = v {
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                if let Ok(Scalar::Int(si)) = m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, l.size), false) {
                                    return format!("{{\"i\":{}}}", si.to_bits(si.size()));
                                }
                            }
                        }
                    }
                }
                format!("{{\"opq\":{}}}", esc(&format!("{t}")))
            }
        }
    }
    fn destr(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Adt(d, _) if d.is_union() => return None,
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {}
            _ => return None,
        }
        let tcx = self.tcx;
        let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fs: Vec<String> = d
            .fields
            .iter()
            .map(|(fv, ft)| {
                let s = self.cval(*fv, *ft, depth + 1);
                let ti = self.ty(*ft);
                format!("[{ti},{s}]")
            })
            .collect();
        Some(format!("{{\"agg\":{},\"v\":{}}}", list(fs), d.variant.map(|v| v.as_u32() as i64).unwrap_or(-1)))
    }
    fn constant(&mut self, c: mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let mir::Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"t\":{ti},\"param\":{}}}", esc(p.name.as_str()));
            }
        }
        match c.eval(tcx, self.te, DUMMY_SP) {
            Ok(v) => {
                let s = self.cval(v, t, 0);
                format!("{{\"t\":{ti},\"v\":{s}}}")
            }
            Err(_) => match c {
                mir::Const::Unevaluated(u, _) => {
                    let args = tcx.try_normalize_erasing_regions(self.te, ty::Unnormalized::new_wip(u.args)).unwrap_or(u.args);
                    match Instance::try_resolve(tcx, self.te, u.def, args) {
                        Ok(Some(inst)) => {
                            let id = self.key(Key::Const(inst, u.promoted.map(|p| p.as_usize())));
                            format!("{{\"t\":{ti},\"body\":{id}}}")
                        }
                        _ => format!("{{\"t\":{ti},\"v\":{{\"opq\":{}}}}}", esc(&format!("{c:?}"))),
                    }
                }
                mir::Const::Ty(_, ct) => {
                    let s = self.cst(ct);
                    format!("{{\"t\":{ti},\"cst\":{s}}}")
                }
                _ => format!("{{\"t\":{ti},\"v\":{{\"opq\":{}}}}}", esc(&format!("{c:?}"))),
            },
        }
    }
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{t}]", f.as_u32())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_u32()),
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(t);
                    format!("[\"o\",{t}]")
                }
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), list(pr))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c.const_)),
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) {
        let tcx = self.tcx;
        let (si, di) = (self.ty(src), self.ty(dst));
        if self.vtables.contains_key(&(si, di)) {
            return;
        }
        self.vtables.insert((si, di), String::new());
        let ty::Dynamic(preds, _) = dst.kind() else { return };
        let Some(principal) = preds.principal() else { return };
        let tr = tcx.instantiate_bound_regions_with_erased(principal.with_self_ty(tcx, src));
        let mut ms = vec![];
        // The trait itself and its supertraits.
        let mut todo = vec![tr];
        let mut i = 0;
        while i < todo.len() {
            let tr = todo[i];
            i += 1;
            for m in tcx.own_existential_vtable_entries(tr.def_id).iter() {
                let a = GenericArgs::for_item(tcx, *m, |p, _| {
                    if (p.index as usize) < tr.args.len() { tr.args[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                });
                let c = self.callee(*m, a);
                ms.push(format!("{}:{}", esc(&self.path(*m)), c));
            }
            for (c, _) in tcx.explicit_super_clauses_of(tr.def_id).iter_identity_copied().map(|u| u.skip_norm_wip()) {
                if let Some(tc) = c.as_trait_clause() {
                    let t2 = tc.skip_binder().trait_ref;
                    let t2 = EarlyBinder::bind(tcx, t2).instantiate(tcx, tr.args).skip_norm_wip();
                    if !todo.contains(&t2) { todo.push(t2); }
                }
            }
        }
        let s = format!("{{\"src\":{si},\"dst\":{di},\"m\":{{{}}}}}", ms.join(","));
        self.vtables.insert((si, di), s);
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), self.cst(*n)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(*p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(body, tcx);
                let ks = format!("{k:?}");
                if ks.contains("Unsize") {
                    let pair = match (st.builtin_deref(true), t.builtin_deref(true)) {
                        (Some(a), Some(b)) => Some((a, b)),
                        _ => match (st.kind(), t.kind()) {
                            (ty::Adt(d, a), ty::Adt(_, b)) if d.is_struct() && a.types().next().is_some() && b.types().next().is_some() => Some((a.type_at(0), b.type_at(0))),
                            _ => None,
                        },
                    };
                    if let Some((a, b)) = pair {
                        let (a, b) = tcx.struct_lockstep_tails_for_codegen(a, b, self.te);
                        if let ty::Dynamic(..) = b.kind() {
                            if !matches!(a.kind(), ty::Dynamic(..)) {
                                self.vtable(a, b);
                            }
                        }
                        let (ai, bi) = (self.ty(a), self.ty(b));
                        let (s, t2) = (self.ty(st), self.ty(*t));
                        return format!("[\"unsize\",{},{s},{t2},{ai},{bi}]", self.operand(o));
                    }
                }
                let (s, t2) = (self.ty(st), self.ty(*t));
                format!("[\"cast\",{},{},{s},{t2}]", esc(&ks), self.operand(o))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, tcx);
                let ti = self.ty(t);
                format!("[\"bin\",\"{op:?}\",{},{},{ti}]", self.operand(&ab.0), self.operand(&ab.1))
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, tcx);
                let ti = self.ty(t);
                format!("[\"un\",\"{op:?}\",{},{ti}]", self.operand(a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{ti}]", self.place(*p))
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<_> = fs.iter().map(|f| self.operand(f)).collect();
                let t = r.ty(body, tcx);
                let ti = self.ty(t);
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => format!("[\"adt\",{},{}]", v.as_u32(), f.map(|f| f.as_u32() as i64).unwrap_or(-1)),
                    AggregateKind::Closure(..) => "[\"closure\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{ks},{},{ti}]", list(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(*p)),
            _ => format!("[\"?\",{}]", esc(&format!("{r:?}"))),
        }
    }
    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn unwind(&self, u: UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"cont\"".into(),
            UnwindAction::Unreachable => "\"unreach\"".into(),
            UnwindAction::Terminate(_) => "\"term\"".into(),
            UnwindAction::Cleanup(b) => b.as_u32().to_string(),
        }
    }
    fn emit_key(&mut self, k: Key<'tcx>) -> String {
        let tcx = self.tcx;
        let (inst, body) = match k {
            Key::Fn(inst) => {
                let b = match inst.def {
                    InstanceKind::Item(d) => {
                        if tcx.is_mir_available(d) { tcx.optimized_mir(d).clone() } else { return "null".into() }
                    }
                    _ => return "null".into(),
                };
                (inst, b)
            }
            Key::Const(inst, None) => {
                let d = inst.def_id();
                if !tcx.is_mir_available(d) {
                    return "null".into();
                }
                (inst, tcx.mir_for_ctfe(d).clone())
            }
            Key::Const(inst, Some(p)) => {
                let d = inst.def_id();
                (inst, tcx.promoted_mir(d)[mir::Promoted::from_usize(p)].clone())
            }
        };
        let d = inst.def_id();
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.te, EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return "null".into(),
        };
        let mut o = String::from("{");
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args));
        let lo = body.span.source_callsite().lo();
        let file = tcx.sess.source_map().lookup_char_pos(lo).file.name.prefer_local_unconditionally().to_string();
        let _ = write!(o, "\"name\":{},\"path\":{},\"crate\":{},\"file\":{},\"args\":{}", esc(&name), esc(&self.path(d)), esc(tcx.crate_name(d.krate).as_str()), esc(&file), body.arg_count);
        let _ = write!(o, ",\"spread\":{}", body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1));
        let ls: Vec<_> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", list(ls));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_u32(), esc(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"vars\":{{{}}}", names.join(","));
        let mut bs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                let x = match &s.kind {
                    StatementKind::Assign(b) => format!("[\"=\",{},{},{ln}]", self.place(b.0), self.rvalue(&b.1, &body)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{ln}]", self.place(**place), variant_index.as_u32()),
                    StatementKind::StorageLive(l) => format!("[\"sl\",{}]", l.as_u32()),
                    StatementKind::StorageDead(l) => format!("[\"sx\",{}]", l.as_u32()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{},{ln}]", self.operand(op)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("[\"copy\",{},{},{},{ln}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count)),
                    },
                    _ => continue,
                };
                ss.push(x);
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt = discr.ty(&body, tcx);
                    let ti = self.ty(tt);
                    let cs: Vec<_> = targets.iter().map(|(v, b)| {
                        let v = if let ty::Int(it) = tt.kind() {
                            let n = it.bit_width().unwrap_or(64);
                            if n < 128 && (v >> (n - 1)) & 1 == 1 { (v as i128 - (1i128 << n)).to_string() } else { v.to_string() }
                        } else { v.to_string() };
                        format!("[{v},{}]", b.as_u32())
                    }).collect();
                    format!("[\"switch\",{},{ti},{},{},{ln}]", self.operand(discr), list(cs), targets.otherwise().as_u32())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body, tcx).ty;
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{ti},{},{},{ln}]", self.place(*place), target.as_u32(), self.unwind(*unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.skip_binder();
                            self.callee(*d, a)
                        }
                        _ => {
                            let op = self.operand(func);
                            format!("{{\"k\":\"ptr\",\"op\":{op}}}")
                        }
                    };
                    let as_: Vec<_> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let ats: Vec<_> = args.iter().map(|a| { let t = a.node.ty(&body, tcx); self.ty(t).to_string() }).collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{f},{},{},{},{},{},{ln},{dt}]", list(as_), list(ats), self.place(*destination), target.map(|t| t.as_u32() as i64).unwrap_or(-1), self.unwind(*unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    format!("[\"assert\",{},{expected},{},{},{},{ln}]", self.operand(cond), target.as_u32(), self.unwind(*unwind), esc(&format!("{msg:?}")[..].split('(').next().unwrap_or("")))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                other => format!("[\"?\",{}]", esc(&format!("{other:?}"))),
            };
            bs.push(format!("[{},{},{}]", list(ss), ts, bb.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}", list(bs));
        o.push('}');
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("DUMP_OUT").expect("DUMP_OUT");
        let stops = std::fs::read_to_string(std::env::var("DUMP_STOPS").unwrap_or_default()).unwrap_or_default();
        let stops: Vec<String> = stops.lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty() && !s.starts_with('#')).collect();
        let mut entries = vec![];
        for d in tcx.hir_body_owners() {
            let d = d.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.trait_impl_of_assoc(d).is_some() {
                continue;
            }
            let name = tcx.item_name(d).to_string();
            if name.starts_with("s_") || name.starts_with("n_") {
                entries.push((name, d));
            }
        }
        let envd = entries.iter().find(|e| e.0.starts_with("n_")).or(entries.first()).expect("no entries").1;
        let te = ty::TypingEnv::codegen(tcx, envd);
        let mut du = Dump { tcx, te, tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), keys: HashMap::new(), key_out: vec![], key_queue: VecDeque::new(), vtables: HashMap::new(), stops };
        let mut ents = vec![];
        for (n, d) in &entries {
            let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, *d));
            let inst = Instance::new_raw(*d, args);
            let id = du.key(Key::Fn(inst));
            ents.push(format!("{}:{id}", esc(n)));
        }
        loop {
            if let Some((k, i)) = du.key_queue.pop_front() {
                let s = du.emit_key(k);
                du.key_out[i] = s;
            } else if let Some((t, i)) = du.ty_queue.pop_front() {
                let s = du.emit_ty(t);
                du.ty_out[i] = s;
            } else {
                break;
            }
        }
        let mut vt: Vec<_> = du.vtables.values().filter(|s| !s.is_empty()).cloned().collect();
        vt.sort();
        let s = format!("{{\"types\":[\n{}\n],\n\"bodies\":[\n{}\n],\n\"vtables\":[\n{}\n],\n\"entries\":{{{}}}}}\n", du.ty_out.join(",\n"), du.key_out.join(",\n"), vt.join(",\n"), ents.join(",\n"));
        std::fs::write(out, s).expect("write dump");
        let _ = VariantIdx::from_u32(0);
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
