//! MIR extractor.  Used as RUSTC_WRAPPER: for the crates named in MIRDUMP_CRATES it runs the
//! compiler front end and then writes, to $MIRDUMP_OUT/<crate>-<kind>.json, the monomorphised MIR of
//! every function of the crate that needs no generic arguments and of everything they call
//! (down to the library functions in STOP, which the analysis models), with decoded constants and
//! types.  For every other crate it just runs rustc.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self as ity, TyCtxt};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_middle::ty::print::PrintTraitRefExt;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

mod json;
use json::J;

const DESCEND: &[&str] = &[
    "core::iter", "core::option", "core::result", "core::ops", "core::convert", "core::cmp",
    "core::bool", "core::clone", "core::borrow", "core::default", "core::tuple", "core::mem::drop",
    "<core::iter", "<core::option", "<core::result", "<core::ops", "<core::convert", "<core::cmp",
    "alloc::borrow", "<alloc::borrow", "alloc::slice::<impl [T]>::into_vec", "core::hint::must_use",
    "alloc::slice::<impl [T]>::to_vec_NO",
    "<I as core::", "<T as core::", "<&T as core::", "<F as core::", "<&mut T as core::", "<&mut F as core::", "<&mut I as core::",
    "serde_yaml::value::Value::as_", "serde_yaml::value::Value::is_",
    "core::intrinsics::likely", "core::mem::take", "core::mem::replace_NO",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty, usize>,
    type_list: Vec<J>,
    type_queue: VecDeque<(usize, Ty)>,
    fns: HashMap<String, usize>,
    fn_list: Vec<J>,
    fndefs: HashMap<(Ty, bool), usize>,
    fndef_list: Vec<J>,
    queue: VecDeque<(Instance, String)>,
    seen: HashSet<String>,
    body_ok: HashSet<String>,
    local_crates: HashSet<String>,
    iter_seen: HashSet<Ty>,
    iter_tab: BTreeMap<usize, J>,
    callable_seen: HashSet<Ty>,
    callable_tab: BTreeMap<usize, J>,
    depth: usize,
    dei: Option<rustc_span::def_id::DefId>,
}

fn dpath<'tcx>(tcx: TyCtxt<'tcx>, d: rustc_span::def_id::DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn ty_str(&self, t: Ty) -> String {
        let it = internal(self.tcx, t);
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", it)))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_list.len();
        self.types.insert(t, i);
        self.type_list.push(J::Null);
        self.type_queue.push_back((i, t));
        i
    }

    fn tyj(&mut self, t: Ty) -> J {
        J::Int(self.ty(t) as i128)
    }

    fn args(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => {
                    v.push(self.tyj(*t))
                }
                GenericArgKind::Const(c) => v.push(J::Arr(vec![J::s("c"), self.tyconst(c)])),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::Arr(v)
    }

    fn tyconst(&mut self, c: &TyConst) -> J {
        match c.eval_target_usize() {
            Ok(n) => J::Int(n as i128),
            Err(_) => J::s(&format!("{:?}", c)),
        }
    }

    /// A type used as a generic argument: if it is an iterator remember how to step it, if it can be
    /// called remember its body.
    fn note_generic_ty(&mut self, t: Ty) {
        self.note_callable(t);
        if !self.iter_seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        let it = internal(tcx, t);
        use rustc_middle::ty::TypeVisitableExt;
        if it.has_param() || it.has_escaping_bound_vars() {
            return;
        }
        if self.ty_str(t).contains("MaybeUninit") {
            return;
        }
        let env = ity::TypingEnv::fully_monomorphized();
        let mut obj = vec![];
        for (tr, m, key) in [
            (tcx.get_diagnostic_item(rustc_span::sym::Iterator), "next", "next"),
            (self.dei, "next_back", "next_back"),
            (tcx.get_diagnostic_item(rustc_span::sym::IntoIterator), "into_iter", "into_iter"),
        ] {
            let Some(tr) = tr else { continue };
            let Some(item) = tcx
                .associated_items(tr)
                .in_definition_order()
                .find(|i| i.opt_name().map(|n| n.as_str() == m).unwrap_or(false))
            else {
                continue;
            };
            let args = tcx.mk_args(&[it.into()]);
            // does the type implement the trait at all?
            let infcx_ok = tcx
                .non_blanket_impls_for_ty(tr, it)
                .next()
                .is_some()
                || (key == "next" && matches!(it.kind(), ity::Ref(..)))
                || matches!(it.kind(), ity::Adt(..))
                || matches!(it.kind(), ity::Ref(..) | ity::Array(..));
            if !infcx_ok {
                continue;
            }
            if !implements(tcx, tr, it) {
                continue;
            }
            if let Ok(Some(inst)) = ity::Instance::try_resolve(tcx, env, item.def_id, args) {
                let inst: Instance = stable(inst);
                let k = self.instance(inst);
                obj.push((key.to_string(), k));
                // item type
                if key == "next" {
                    if let Some(o) = tcx
                        .associated_items(tr)
                        .in_definition_order()
                        .find(|i| i.opt_name().map(|n| n.as_str() == "Item").unwrap_or(false))
                    {
                        let proj = ity::Ty::new_projection(tcx, ity::IsRigid::No, o.def_id, [it]);
                        if let Ok(n) =
                            tcx.try_normalize_erasing_regions(env, ity::Unnormalized::new_wip(proj))
                        {
                            let st: Ty = stable(n);
                            let x = self.tyj(st);
                            obj.push(("item".into(), x));
                        }
                    }
                }
                if key == "into_iter" {
                    if let Some(o) = tcx
                        .associated_items(tr)
                        .in_definition_order()
                        .find(|i| i.opt_name().map(|n| n.as_str() == "IntoIter").unwrap_or(false))
                    {
                        let proj = ity::Ty::new_projection(tcx, ity::IsRigid::No, o.def_id, [it]);
                        if let Ok(n) =
                            tcx.try_normalize_erasing_regions(env, ity::Unnormalized::new_wip(proj))
                        {
                            let st: Ty = stable(n);
                            let x = self.tyj(st);
                            obj.push(("into_iter_ty".into(), x));
                            self.note_generic_ty(st);
                        }
                    }
                }
            }
        }
        if !obj.is_empty() {
            let i = self.ty(t);
            self.iter_tab.insert(i, J::Obj(obj));
        }
    }

    fn note_callable(&mut self, t: Ty) {
        if !self.callable_seen.insert(t) {
            return;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                for (k, kind) in [
                    ("fn", ClosureKind::Fn),
                    ("mut", ClosureKind::FnMut),
                    ("once", ClosureKind::FnOnce),
                ] {
                    if let Ok(inst) = Instance::resolve_closure(def, &args, kind) {
                        let j = self.instance(inst);
                        let i = self.ty(t);
                        let e = self.callable_tab.entry(i).or_insert_with(|| J::Obj(vec![]));
                        if let J::Obj(v) = e {
                            v.push((k.to_string(), j));
                        }
                    }
                }
            }
            TyKind::RigidTy(RigidTy::FnDef(..)) => {
                let f = self.fndef(t, false);
                let i = self.ty(t);
                self.callable_tab.insert(i, J::Obj(vec![("fndef".into(), J::Int(f as i128))]));
            }
            _ => {}
        }
    }

    fn instance(&mut self, inst: Instance) -> J {
        let key = inst.mangled_name().to_string();
        if self.seen.insert(key.clone()) {
            self.queue.push_back((inst, key.clone()));
        }
        J::s(&key)
    }

    fn fndef(&mut self, t: Ty, as_ptr: bool) -> usize {
        if let Some(i) = self.fndefs.get(&(t, as_ptr)) {
            return *i;
        }
        let i = self.fndef_list.len();
        self.fndefs.insert((t, as_ptr), i);
        self.fndef_list.push(J::Null);
        let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() else { unreachable!() };
        let tcx = self.tcx;
        let did = internal(tcx, def.def_id());
        let mut o = vec![("def".to_string(), J::s(&dpath(tcx, did)))];
        let aj = self.args(&args);
        for g in args.0.iter() {
            if let GenericArgKind::Type(t) = g {
                self.note_generic_ty(*t);
            }
        }
        o.push(("args".into(), aj));
        let mut use_default = false;
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let trp = dpath(tcx, tr);
            o.push(("trait".into(), J::s(&trp)));
            o.push(("method".into(), J::s(tcx.item_name(did).as_str())));
            // Always use the provided bodies of Iterator / DoubleEndedIterator methods: the
            // overrides are optimisations with the same meaning.
            if (trp.ends_with("::Iterator") || trp.ends_with("::DoubleEndedIterator"))
                && trp.starts_with("core::iter")
                && tcx.defaultness(did).has_value()
            {
                // ... except where `next` itself is written in terms of an override
                let own = args.0.iter().find_map(|g| match g {
                    GenericArgKind::Type(t) => Some(match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(def, _)) => {
                            let d = internal(tcx, def.def_id());
                            let k = tcx.crate_name(d.krate).to_string();
                            tcx.item_name(d).as_str() == "GenericShunt"
                                || !matches!(k.as_str(), "core" | "alloc" | "std" | "hashbrown" | "csv" | "serde_yaml" | "indexmap")
                        }
                        _ => false,
                    }),
                    _ => None,
                });
                // ... or where constants of the provided body would be looked up in the override
                use_default = own != Some(true)
                    && !(matches!(tcx.item_name(did).as_str(), "any" | "all")
                        && Instance::resolve(def, &args).map_or(true, |i| internal(tcx, i).def_id() != did));
            }
        }
        let inst = if use_default {
            let iargs = internal(tcx, &args);
            let env = ity::TypingEnv::fully_monomorphized();
            let iargs = tcx.normalize_erasing_regions(env, ity::Unnormalized::new_wip(iargs));
            Some(stable(ity::Instance::new_raw(did, iargs)))
        } else {
            Instance::resolve(def, &args).ok()
        };
        if let Some(inst) = inst {
            let k = self.instance(inst);
            o.push(("inst".into(), k));
        }
        self.fndef_list[i] = J::Obj(o);
        i
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => J::Arr(vec![J::s("f"), J::Int(*i as i128), self.tyj(*t)]),
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::Int(*l as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("c"),
                    J::Int(*offset as i128),
                    J::Int(*min_length as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("s"),
                    J::Int(*from as i128),
                    J::Int(*to as i128),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Downcast(i) => {
                    J::Arr(vec![J::s("d"), J::Int(internal(self.tcx, *i).as_usize() as i128)])
                }
                ProjectionElem::OpaqueCast(_) => J::s("oc"),
            });
        }
        J::Arr(vec![J::Int(p.local as i128), J::Arr(v)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("cp"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("mv"), self.place(p)]),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let v = self.mirconst(&c.const_);
                J::Arr(vec![J::s("k"), self.tyj(ty), v])
            }
            Operand::RuntimeChecks(r) => J::Arr(vec![J::s("rt"), J::s(&format!("{:?}", r))]),
        }
    }

    fn mirconst(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = ty.kind() {
            let f = self.fndef(ty, false);
            return J::Arr(vec![J::s("fn"), J::Int(f as i128)]);
        }
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Ty(tc) => {
                if let Ok(n) = tc.eval_target_usize() {
                    return J::Arr(vec![J::s("int"), J::Int(n as i128)]);
                }
                match tc.kind() {
                    TyConstKind::Value(_, a) => self.decode(a, 0, ty),
                    TyConstKind::ZSTValue(_) => self.zst(ty),
                    _ => J::Arr(vec![J::s("opaque"), J::s(&format!("{:?}", tc))]),
                }
            }
            k => J::Arr(vec![J::s("opaque"), J::s(&format!("{:?}", k))]),
        }
    }

    fn zst(&mut self, ty: Ty) -> J {
        // structure of a zero sized value
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v = ts.iter().map(|t| self.zst(*t)).collect();
                J::Arr(vec![J::s("tup"), J::Arr(v)])
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let fs = def.variants()[0].fields();
                let v = fs.iter().map(|f| { let t = f.ty_with_args(&args); self.zst(t) }).collect();
                J::Arr(vec![J::s("adt"), J::Int(0), J::Arr(v)])
            }
            TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum && def.num_variants() == 1 => {
                J::Arr(vec![J::s("adt"), J::Int(0), J::Arr(vec![])])
            }
            TyKind::RigidTy(RigidTy::FnDef(..)) => {
                let f = self.fndef(ty, false);
                J::Arr(vec![J::s("fn"), J::Int(f as i128)])
            }
            TyKind::RigidTy(RigidTy::Array(..)) => J::Arr(vec![J::s("arr"), J::Arr(vec![])]),
            TyKind::RigidTy(RigidTy::Closure(..)) => {
                self.note_callable(ty);
                J::Arr(vec![J::s("clo"), J::Arr(vec![])])
            }
            _ => J::Arr(vec![J::s("opaque"), J::s("zst")]),
        }
    }

    fn raw(a: &Allocation, off: usize, len: usize) -> Option<u128> {
        if off + len > a.bytes.len() || len > 16 {
            return None;
        }
        let mut v: u128 = 0;
        for i in 0..len {
            v |= (a.bytes[off + i]? as u128) << (8 * i);
        }
        Some(v)
    }

    fn opaque(&self, why: &str) -> J {
        J::Arr(vec![J::s("opaque"), J::s(why)])
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty) -> J {
        if self.depth > 40 {
            return self.opaque("deep");
        }
        self.depth += 1;
        let r = self.decode_(a, off, ty);
        self.depth -= 1;
        r
    }

    fn decode_(&mut self, a: &Allocation, off: usize, ty: Ty) -> J {
        let size = |t: Ty| t.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Bool) => match Self::raw(a, off, 1) {
                Some(v) => J::Arr(vec![J::s("bool"), J::Bool(v != 0)]),
                None => self.opaque("bool"),
            },
            TyKind::RigidTy(RigidTy::Char) => match Self::raw(a, off, 4) {
                Some(v) => J::Arr(vec![J::s("char"), J::Int(v as i128)]),
                None => self.opaque("char"),
            },
            TyKind::RigidTy(RigidTy::Uint(_)) => {
                let n = size(ty);
                match Self::raw(a, off, n) {
                    Some(v) => J::Arr(vec![J::s("int"), J::s(&v.to_string())]),
                    None => self.opaque("int"),
                }
            }
            TyKind::RigidTy(RigidTy::Int(_)) => {
                let n = size(ty);
                match Self::raw(a, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        let s = ((v << sh) as i128) >> sh;
                        J::Arr(vec![J::s("int"), J::s(&s.to_string())])
                    }
                    None => self.opaque("int"),
                }
            }
            TyKind::RigidTy(RigidTy::Array(et, n)) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = size(et);
                if n > 100000 {
                    return self.opaque("big array");
                }
                let mut v = vec![];
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = et.kind() {
                    for i in 0..n {
                        match a.bytes.get(off + i) {
                            Some(Some(b)) => v.push(J::Int(*b as i128)),
                            _ => return self.opaque("uninit bytes"),
                        }
                    }
                    return J::Arr(vec![J::s("bytes"), J::Arr(v)]);
                }
                for i in 0..n {
                    v.push(self.decode(a, off + i * es, et));
                }
                J::Arr(vec![J::s("arr"), J::Arr(v)])
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let offs = self.offsets(ty);
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = offs.get(i).copied().unwrap_or(0);
                    v.push(self.decode(a, off + o, *t));
                }
                J::Arr(vec![J::s("tup"), J::Arr(v)])
            }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => {
                self.decode_ptr(a, off, t)
            }
            TyKind::RigidTy(RigidTy::Adt(def, args)) => match def.kind() {
                AdtKind::Struct => {
                    let offs = self.offsets(ty);
                    let fs = def.variants()[0].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let o = offs.get(i).copied().unwrap_or(0);
                        v.push(self.decode(a, off + o, ft));
                    }
                    J::Arr(vec![J::s("adt"), J::Int(0), J::Arr(v)])
                }
                AdtKind::Enum => self.decode_enum(a, off, ty, def, &args),
                AdtKind::Union => self.opaque("union"),
            },
            TyKind::RigidTy(RigidTy::FnDef(..)) => {
                let f = self.fndef(ty, false);
                J::Arr(vec![J::s("fn"), J::Int(f as i128)])
            }
            TyKind::RigidTy(RigidTy::FnPtr(..)) => {
                for (o, p) in &a.provenance.ptrs {
                    if *o == off {
                        if let GlobalAlloc::Function(inst) = GlobalAlloc::from(p.0) {
                            let k = self.instance(inst);
                            return J::Arr(vec![J::s("fnptr"), k]);
                        }
                    }
                }
                self.opaque("fnptr")
            }
            TyKind::RigidTy(RigidTy::Closure(..)) => {
                self.note_callable(ty);
                J::Arr(vec![J::s("clo"), J::Arr(vec![])])
            }
            _ => self.opaque("kind"),
        }
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, t: Ty) -> J {
        let tgt = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
        let addend = Self::raw(a, off, 8).unwrap_or(0) as usize;
        let unsized_len = Self::raw(a, off + 8, 8).map(|x| x as usize);
        let Some(id) = tgt else {
            // dangling pointer to a ZST / empty slice
            match t.kind() {
                TyKind::RigidTy(RigidTy::Slice(_)) => {
                    return J::Arr(vec![J::s("ref"), J::Arr(vec![J::s("arr"), J::Arr(vec![])])])
                }
                TyKind::RigidTy(RigidTy::Str) => return J::Arr(vec![J::s("str"), J::s("")]),
                _ => {
                    let z = self.zst(t);
                    return J::Arr(vec![J::s("ref"), z]);
                }
            }
        };
        match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => match t.kind() {
                TyKind::RigidTy(RigidTy::Str) => {
                    let n = unsized_len.unwrap_or(0);
                    let mut b = vec![];
                    for i in 0..n {
                        match m.bytes.get(addend + i) {
                            Some(Some(x)) => b.push(*x),
                            _ => return self.opaque("str"),
                        }
                    }
                    match String::from_utf8(b) {
                        Ok(s) => J::Arr(vec![J::s("str"), J::s(&s)]),
                        Err(_) => self.opaque("str"),
                    }
                }
                TyKind::RigidTy(RigidTy::Slice(et)) => {
                    let n = unsized_len.unwrap_or(0);
                    let es = et.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.decode(&m, addend + i * es, et));
                    }
                    J::Arr(vec![J::s("ref"), J::Arr(vec![J::s("arr"), J::Arr(v)])])
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => self.opaque("dyn"),
                _ => {
                    let x = self.decode(&m, addend, t);
                    J::Arr(vec![J::s("ref"), x])
                }
            },
            GlobalAlloc::Static(s) => {
                let name = s.name().to_string();
                J::Arr(vec![J::s("static"), J::s(&name)])
            }
            GlobalAlloc::Function(inst) => {
                let k = self.instance(inst);
                J::Arr(vec![J::s("fnptr"), k])
            }
            _ => self.opaque("ptr"),
        }
    }

    fn offsets(&self, ty: Ty) -> Vec<usize> {
        match ty.layout() {
            Ok(l) => match l.shape().fields {
                rustc_public::abi::FieldsShape::Arbitrary { offsets } => {
                    offsets.iter().map(|s| s.bytes()).collect()
                }
                _ => vec![],
            },
            Err(_) => vec![],
        }
    }

    fn decode_enum(&mut self, a: &Allocation, off: usize, ty: Ty, def: AdtDef, args: &GenericArgs) -> J {
        // use the compiler's own layout to find the variant
        let tcx = self.tcx;
        let ity_ = internal(tcx, ty);
        let env = ity::TypingEnv::fully_monomorphized();
        let Ok(layout) = tcx.layout_of(env.as_query_input(ity_)) else { return self.opaque("layout") };
        use rustc_abi::{TagEncoding, Variants};
        let vi: usize = match &layout.variants {
            Variants::Empty => return self.opaque("empty"),
            Variants::Single { index } => index.as_usize(),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let toff = layout.fields.offset(tag_field.as_usize()).bytes() as usize;
                let tsz = tag.size(&tcx).bytes() as usize;
                let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                match tag_encoding {
                    TagEncoding::Direct => {
                        let Some(t) = Self::raw(a, off + toff, tsz) else { return self.opaque("tag") };
                        let mut found = None;
                        for (i, d) in internal(tcx, def).discriminants(tcx) {
                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                            if d.val & mask == t {
                                found = Some(i.as_usize());
                            }
                        }
                        match found {
                            Some(f) => f,
                            None => return self.opaque("tagval"),
                        }
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if is_ptr {
                            untagged_variant.as_usize()
                        } else {
                            let Some(t) = Self::raw(a, off + toff, tsz) else { return self.opaque("tag") };
                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                            let rel = t.wrapping_sub(*niche_start) & mask;
                            let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            if rel <= n {
                                niche_variants.start.as_usize() + rel as usize
                            } else {
                                untagged_variant.as_usize()
                            }
                        }
                    }
                }
            }
        };
        let lc = ity::layout::LayoutCx::new(tcx, env);
        let vl = layout.for_variant(&lc, rustc_abi::VariantIdx::from_usize(vi));
        let fs = def.variants()[vi].fields();
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
            let ft = f.ty_with_args(args);
            let o = vl.fields.offset(i).bytes() as usize;
            v.push(self.decode(a, off + o, ft));
        }
        J::Arr(vec![J::s("adt"), J::Int(vi as i128), J::Arr(v)])
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("cp"), p])])
            }
            Rvalue::Ref(_, bk, p) => {
                J::Arr(vec![J::s("ref"), self.place(p), J::Bool(matches!(bk, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::Arr(vec![J::s("ref"), self.place(p), J::Bool(matches!(m, Mutability::Mut))])
            }
            Rvalue::AddressOf(k, p) => {
                J::Arr(vec![J::s("addr"), self.place(p), J::Bool(matches!(k, RawPtrKind::Mut))])
            }
            Rvalue::BinaryOp(op, x, y) => {
                let x = self.operand(x);
                let y = self.operand(y);
                J::Arr(vec![J::s("bin"), J::s(&format!("{:?}", op)), x, y])
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let x = self.operand(x);
                let y = self.operand(y);
                J::Arr(vec![J::s("cbin"), J::s(&format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, x) => J::Arr(vec![J::s("un"), J::s(&format!("{:?}", op)), self.operand(x)]),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Operand::Constant(c) = o {
                        let f = self.fndef(c.const_.ty(), true);
                        return J::Arr(vec![J::s("reify"), J::Int(f as i128), self.tyj(*t)]);
                    }
                }
                let x = self.operand(o);
                J::Arr(vec![J::s("cast"), J::s(&format!("{:?}", k)), x, self.tyj(*t)])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::Arr(vec![J::s("len"), self.place(p)]),
            Rvalue::Repeat(o, n) => {
                let x = self.operand(o);
                J::Arr(vec![J::s("repeat"), x, self.tyconst(n)])
            }
            Rvalue::ThreadLocalRef(i) => J::Arr(vec![J::s("tls"), J::s(&i.name().to_string())]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kind = match k {
                    AggregateKind::Array(t) => J::Arr(vec![J::s("array"), self.tyj(*t)]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = d.ty_with_args(args);
                        J::Arr(vec![
                            J::s("adt"),
                            self.tyj(t),
                            J::Int(internal(self.tcx, *vi).as_usize() as i128),
                            match af {
                                Some(i) => J::Int(*i as i128),
                                None => J::Null,
                            },
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        self.note_callable(t);
                        J::Arr(vec![J::s("closure"), self.tyj(t)])
                    }
                    AggregateKind::RawPtr(t, _) => J::Arr(vec![J::s("rawptr"), self.tyj(*t)]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kind, J::Arr(v)])
            }
        }
    }

    fn body(&mut self, b: &Body) -> Vec<(String, J)> {
        let locals: Vec<J> = b.locals().iter().map(|l| self.tyj(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line as i128;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rvalue(r);
                        st.push(J::Arr(vec![J::s("="), pj, rj, J::Int(line)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::Arr(vec![
                            J::s("setd"),
                            pj,
                            J::Int(internal(self.tcx, *variant_index).as_usize() as i128),
                        ]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![J::s("dead"), J::Int(*l as i128)])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push(J::Arr(vec![J::s("copyno")]))
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line as i128;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::Arr(vec![J::s("goto"), J::Int(*target as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = discr.ty(b.locals()).unwrap();
                    let br = targets
                        .branches()
                        .map(|(v, t)| J::Arr(vec![J::s(&v.to_string()), J::Int(t as i128)]))
                        .collect();
                    J::Arr(vec![
                        J::s("switch"),
                        d,
                        J::Arr(br),
                        J::Int(targets.otherwise() as i128),
                        self.tyj(dt),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Resume | TerminatorKind::Abort => J::Arr(vec![J::s("resume")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let p = self.place(place);
                    let tj = match pt {
                        Some(t) => self.tyj(t),
                        None => J::Null,
                    };
                    J::Arr(vec![J::s("drop"), p, J::Int(*target as i128), tj])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(x)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(b.locals()).unwrap();
                    J::Arr(vec![
                        J::s("call"),
                        f,
                        J::Arr(a),
                        d,
                        match target {
                            Some(t) => J::Int(*t as i128),
                            None => J::Null,
                        },
                        J::Int(line),
                        self.tyj(dt),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let (mk, ops): (String, Vec<J>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            (format!("overflow {:?}", op), vec![self.operand(x), self.operand(y)])
                        }
                        m => (m.description().unwrap_or("assert").to_string(), vec![]),
                    };
                    J::Arr(vec![
                        J::s("assert"),
                        c,
                        J::Bool(*expected),
                        J::s(&mk),
                        J::Arr(ops),
                        J::Int(*target as i128),
                        J::Int(line),
                    ])
                }
                TerminatorKind::InlineAsm { .. } => J::Arr(vec![J::s("asm")]),
            };
            blocks.push(J::Arr(vec![J::Arr(st), t]));
        }
        let mut vars = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                vars.push(J::Arr(vec![J::s(&v.name.to_string()), J::Int(l as i128)]));
            }
        }
        let mut o = vec![
            ("nargs".to_string(), J::Int(b.arg_locals().len() as i128)),
            ("locals".into(), J::Arr(locals)),
            ("blocks".into(), J::Arr(blocks)),
            ("vars".into(), J::Arr(vars)),
        ];
        if let Some(s) = b.spread_arg() {
            o.push(("spread".into(), J::Int(s as i128)));
        }
        o
    }

    fn describe_type(&mut self, t: Ty) -> J {
        let s = self.ty_str(t);
        let mut o = vec![("s".to_string(), J::s(&s))];
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                let did = internal(self.tcx, def.def_id());
                o.push(("k".into(), J::s("adt")));
                o.push(("name".into(), J::s(&dpath(self.tcx, did))));
                o.push(("akind".into(), J::s(&format!("{:?}", def.kind()))));
                let aj = self.args(&args);
                o.push(("args".into(), aj));
                let mut vs = vec![];
                if def.kind() != AdtKind::Union {
                    for v in def.variants() {
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        let fs = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let ft = f.ty_with_args(&args);
                                J::Arr(vec![J::s(&f.name.to_string()), self.tyj(ft)])
                            })
                            .collect();
                        vs.push(J::Arr(vec![J::s(&v.name().to_string()), J::s(&d.to_string()), J::Arr(fs)]));
                    }
                }
                o.push(("variants".into(), J::Arr(vs)));
            }
            TyKind::RigidTy(RigidTy::Ref(_, x, m)) => {
                o.push(("k".into(), J::s("ref")));
                let xj = self.tyj(x);
                o.push(("to".into(), xj));
                o.push(("mut".into(), J::Bool(m == Mutability::Mut)));
            }
            TyKind::RigidTy(RigidTy::RawPtr(x, m)) => {
                o.push(("k".into(), J::s("ptr")));
                let xj = self.tyj(x);
                o.push(("to".into(), xj));
                o.push(("mut".into(), J::Bool(m == Mutability::Mut)));
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                o.push(("k".into(), J::s("tuple")));
                let v = ts.iter().map(|x| self.tyj(*x)).collect();
                o.push(("elems".into(), J::Arr(v)));
            }
            TyKind::RigidTy(RigidTy::Array(x, n)) => {
                o.push(("k".into(), J::s("array")));
                let xj = self.tyj(x);
                o.push(("of".into(), xj));
                let nj = self.tyconst(&n);
                o.push(("n".into(), nj));
            }
            TyKind::RigidTy(RigidTy::Slice(x)) => {
                o.push(("k".into(), J::s("slice")));
                let xj = self.tyj(x);
                o.push(("of".into(), xj));
            }
            TyKind::RigidTy(RigidTy::Str) => o.push(("k".into(), J::s("str"))),
            TyKind::RigidTy(RigidTy::Bool) => o.push(("k".into(), J::s("bool"))),
            TyKind::RigidTy(RigidTy::Char) => o.push(("k".into(), J::s("char"))),
            TyKind::RigidTy(RigidTy::Int(_)) => o.push(("k".into(), J::s("int"))),
            TyKind::RigidTy(RigidTy::Uint(_)) => o.push(("k".into(), J::s("uint"))),
            TyKind::RigidTy(RigidTy::Never) => o.push(("k".into(), J::s("never"))),
            TyKind::RigidTy(RigidTy::FnDef(..)) => {
                o.push(("k".into(), J::s("fndef")));
                let f = self.fndef(t, false);
                o.push(("f".into(), J::Int(f as i128)));
            }
            TyKind::RigidTy(RigidTy::FnPtr(..)) => o.push(("k".into(), J::s("fnptr"))),
            TyKind::RigidTy(RigidTy::Dynamic(..)) => o.push(("k".into(), J::s("dyn"))),
            TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                o.push(("k".into(), J::s("closure")));
                let did = internal(self.tcx, def.def_id());
                let targs: Vec<String> = args
                    .0
                    .iter()
                    .filter_map(|g| match g {
                        GenericArgKind::Type(t) => Some(t.to_string()),
                        _ => None,
                    })
                    .collect();
                o.push(("name".into(), J::s(&format!("{}#{}", dpath(self.tcx, did), targs.join(",")))));
                // upvar types: last generic argument is a tuple
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        let v = ts.iter().map(|x| self.tyj(*x)).collect();
                        o.push(("upvars".into(), J::Arr(v)));
                    }
                }
            }
            _ => o.push(("k".into(), J::s("other"))),
        }
        J::Obj(o)
    }

    fn process(&mut self, inst: Instance, key: String) {
        let tcx = self.tcx;
        let iinst = internal(tcx, inst);
        let did = iinst.def_id();
        let path = dpath(tcx, did);
        let krate = tcx.crate_name(did.krate).to_string();
        let mut o = vec![
            ("key".to_string(), J::s(&key)),
            ("path".into(), J::s(&path)),
            ("name".into(), J::s(&inst.name().to_string())),
            ("krate".into(), J::s(&krate)),
            ("kind".into(), J::s(&match inst.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".to_string(),
                InstanceKind::Virtual { idx } => format!("virtual {}", idx),
                InstanceKind::Shim => "shim".to_string(),
                _ => "other".to_string(),
            })),
        ];
        if let Some(n) = inst.intrinsic_name() {
            o.push(("intrinsic".into(), J::s(&n.to_string())));
        }
        let args = inst.args();
        let aj = self.args(&args);
        o.push(("args".into(), aj));
        if tcx.def_kind(did) == rustc_hir::def::DefKind::AssocFn {
            o.push(("method".into(), J::s(tcx.item_name(did).as_str())));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).skip_binder();
                let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)));
                o.push(("implfor".into(), J::s(&s)));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    o.push(("trait".into(), J::s(&dpath(tcx, tr.skip_binder().def_id))));
                    let tra = with_no_visible_paths!(with_no_trimmed_paths!(format!(
                        "{}",
                        tr.skip_binder().print_only_trait_path()
                    )));
                    o.push(("traitref".into(), J::s(&tra)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("trait".into(), J::s(&dpath(tcx, tr))));
                o.push(("provided".into(), J::Bool(true)));
            }
        }
        if matches!(
            tcx.def_kind(did),
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure
        ) {
            let sp = tcx.def_span(did);
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(sp.lo());
            o.push(("file".into(), J::s(&format!("{}", lo.file.name.prefer_local_unconditionally()))));
            o.push(("line".into(), J::Int(lo.line as i128)));
            if did.is_local() && matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) {
                o.push(("vis".into(), J::Bool(tcx.visibility(did).is_public())));
            }
        }
        let is_local = self.local_crates.contains(&krate);
        let is_shim = matches!(inst.kind, InstanceKind::Shim);
        let is_ctor = matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Ctor(..));
        let is_clo = tcx.def_kind(did) == rustc_hir::def::DefKind::Closure;
        let descend = is_local
            || is_ctor
            || (is_shim && !inst.is_empty_shim() && !is_drop_glue(&iinst))
            || (krate == "core" || krate == "alloc" || krate == "std" || krate == "serde_yaml") && {
                DESCEND.iter().any(|p| path.starts_with(p))
                    || (is_clo && DESCEND.iter().any(|p| path.contains(p)))
                    || (tcx.trait_of_assoc(did).is_some() && DESCEND.iter().any(|p| path.starts_with(p)))
            };
        if descend && !matches!(inst.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. }) && inst.has_body() {
            if let Some(b) = inst.body() {
                let bj = self.body(&b);
                o.extend(bj);
                self.body_ok.insert(key.clone());
            }
        }
        self.fns.insert(key, self.fn_list.len());
        self.fn_list.push(J::Obj(o));
    }

    fn drain(&mut self) {
        loop {
            if let Some((inst, key)) = self.queue.pop_front() {
                if self.fn_list.len() % 2000 == 1999 || self.fn_list.len() > 30000 {
                    eprintln!("MIRDUMP {} {}", self.fn_list.len(), inst.name().to_string().chars().take(600).collect::<String>());
                    if self.fn_list.len() > 30010 { panic!("too many"); }
                }
                self.process(inst, key);
                continue;
            }
            if let Some((i, t)) = self.type_queue.pop_front() {
                let j = self.describe_type(t);
                self.type_list[i] = j;
                continue;
            }
            break;
        }
    }
}

fn is_drop_glue(i: &ity::Instance<'_>) -> bool {
    format!("{:?}", i.def).starts_with("DropGlue")
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: rustc_span::def_id::DefId, t: ity::Ty<'tcx>) -> bool {
    let env = ity::TypingEnv::fully_monomorphized();
    let tref = ity::TraitRef::new(tcx, tr, [t]);
    let tref = tcx.erase_and_anonymize_regions(tref);
    tcx.codegen_select_candidate(env.as_query_input(tref)).is_ok()
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let local: HashSet<String> =
        std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.replace('-', "_")).collect();
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_list: vec![],
        type_queue: VecDeque::new(),
        fns: HashMap::new(),
        fn_list: vec![],
        fndefs: HashMap::new(),
        fndef_list: vec![],
        queue: VecDeque::new(),
        seen: HashSet::new(),
        body_ok: HashSet::new(),
        local_crates: local,
        iter_seen: HashSet::new(),
        iter_tab: BTreeMap::new(),
        callable_seen: HashSet::new(),
        callable_tab: BTreeMap::new(),
        depth: 0,
        dei: tcx
            .visible_traits()
            .find(|d| dpath(tcx, *d) == "core::iter::DoubleEndedIterator" || dpath(tcx, *d).ends_with("double_ended::DoubleEndedIterator")),
    };
    let mut roots = vec![];
    let mut consts = vec![];
    for item in rustc_public::all_local_items() {
        if item.requires_monomorphization() {
            continue;
        }
        match item.kind() {
            rustc_public::ItemKind::Fn => {
                if let Ok(inst) = Instance::try_from(item) {
                    let j = cx.instance(inst);
                    roots.push(j);
                }
            }
            rustc_public::ItemKind::Const => {
                let did = internal(tcx, item.def_id());
                let dk = format!("{:?}", tcx.def_kind(did));
                if !dk.starts_with("AssocConst") && !dk.starts_with("Const") {
                    continue;
                }
                let ty = item.ty();
                if let Ok(inst) = Instance::try_from(item) {
                    if let Ok(a) = inst.try_const_eval(ty) {
                        let v = cx.decode(&a, 0, ty);
                        let p = dpath(tcx, did);
                        let t = cx.tyj(ty);
                        let sp = tcx.def_span(did);
                        let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
                        let mut cj = vec![
                            ("path".to_string(), J::s(&p)),
                            ("ty".into(), t),
                            ("v".into(), v),
                            ("file".into(), J::s(&format!("{}", lo.file.name.prefer_local_unconditionally()))),
                            ("line".into(), J::Int(lo.line as i128)),
                            ("vis".into(), J::Bool(tcx.visibility(did).is_public())),
                        ];
                        if let Some(imp) = tcx.impl_of_assoc(did) {
                            let st = tcx.type_of(imp).skip_binder();
                            let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st)));
                            cj.push(("implfor".into(), J::s(&s)));
                        }
                        cj.push(("name".into(), J::s(tcx.item_name(did).as_str())));
                        consts.push(J::Obj(cj));
                    }
                }
            }
            _ => {}
        }
    }
    let mut statics = vec![];
    for did in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(did), rustc_hir::def::DefKind::Static { .. }) {
            let ty = tcx.type_of(did).skip_binder();
            statics.push(J::Arr(vec![J::s(&dpath(tcx, did.to_def_id())), J::s(&format!("{}", ty))]));
        }
    }
    cx.drain();
    let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
    let mut o = vec![
        ("crate".to_string(), J::s(&krate)),
        ("ckind".into(), J::s(kind)),
        ("roots".into(), J::Arr(roots)),
        ("consts".into(), J::Arr(consts)),
        ("statics".into(), J::Arr(statics)),
    ];
    if let Some((e, _)) = tcx.entry_fn(()) {
        let inst: Instance = stable(ity::Instance::mono(tcx, e));
        o.push(("entry".into(), J::s(&inst.mangled_name().to_string())));
    }
    o.push(("fns".into(), J::Arr(std::mem::take(&mut cx.fn_list))));
    o.push(("fndefs".into(), J::Arr(std::mem::take(&mut cx.fndef_list))));
    o.push(("types".into(), J::Arr(std::mem::take(&mut cx.type_list))));
    o.push((
        "iters".into(),
        J::Obj(std::mem::take(&mut cx.iter_tab).into_iter().map(|(k, v)| (k.to_string(), v)).collect()),
    ));
    o.push((
        "callables".into(),
        J::Obj(std::mem::take(&mut cx.callable_tab).into_iter().map(|(k, v)| (k.to_string(), v)).collect()),
    ));
    let mut s = String::new();
    let _ = write!(s, "{}", J::Obj(o));
    let path = format!("{}/{}-{}.json", out, krate, kind);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, s).expect("write dump");
    std::fs::rename(&tmp, &path).expect("rename dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // RUSTC_WRAPPER: first argument is the real rustc
    let rustc = args[0].clone();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want: HashSet<String> =
        std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.replace('-', "_")).collect();
    let is_target = match &name {
        Some(n) => want.contains(n) && !args.iter().any(|a| a == "--print"),
        None => false,
    };
    if !is_target {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=off".into());
    let r = run_with_tcx!(&args, analyze);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {
            std::process::exit(0)
        }
        Err(_) => std::process::exit(1),
    }
}
