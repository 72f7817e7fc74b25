// MIR extraction driver: compiles one crate with rustc_public and dumps, as JSON,
// every monomorphic instance reachable from the `root_*` functions of that crate.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    tyout: Vec<String>,
    insts: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    instout: Vec<String>,
    stops: Vec<String>,
    redirects: HashMap<String, FnDef>, // iterator method name -> model fn
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.tyout.len();
        self.tys.insert(t, id);
        self.tyout.push(String::new());
        let s = self.ty_json(t);
        self.tyout[id] = s;
        id
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
            _ => None,
        }).collect();
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let name = js(&t.to_string());
        let TyKind::RigidTy(r) = t.kind() else { return format!("{{\"k\":\"other\",\"n\":{name}}}"); };
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("\"k\":\"float\",\"bits\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"e\":{e}") }
            RigidTy::Array(e, n) => { let e = self.ty(e); format!("\"k\":\"array\",\"e\":{e},\"len\":{}", n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())) }
            RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"e\":{e},\"mut\":{}", m == Mutability::Mut) }
            RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"e\":{e},\"mut\":{}", m == Mutability::Mut) }
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); format!("\"k\":\"tuple\",\"f\":{}", arr(v)) }
            RigidTy::FnDef(d, a) => { let a2 = self.args(&a); format!("\"k\":\"fndef\",\"path\":{},\"args\":{}", js(&d.name().to_string()), a2) }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
            RigidTy::Closure(d, a) => {
                let up = a.0.last().and_then(|g| g.ty().copied());
                let ups = match up.map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => { let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect(); arr(v) }
                    _ => "null".into(),
                };
                format!("\"k\":\"closure\",\"path\":{},\"f\":{}", js(&d.name().to_string()), ups)
            }
            RigidTy::Adt(d, a) => {
                let args = self.args(&a);
                let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = self.ty(f.ty_with_args(&a));
                        fs.push(format!("[{},{}]", js(&f.name.to_string()), ft));
                    }
                    let dv = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"f\":{},\"d\":{}}}", js(&v.name().to_string()), arr(fs), dv));
                }
                let did = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
                let dtor = self.tcx.adt_destructor(did).is_some();
                format!("\"k\":\"adt\",\"adt\":\"{kind}\",\"path\":{},\"crate\":{},\"args\":{},\"v\":{},\"dtor\":{}", js(&d.name().to_string()), js(&d.krate().name.to_string()), args, arr(vs), dtor)
            }
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{\"n\":{name},{body}}}")
    }

    // ---- constants -------------------------------------------------------
    fn rd(alloc: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n {
            let b = (*alloc.bytes.get(off + i)?)?;
            v |= (b as u128) << (8 * i);
        }
        Some(v)
    }
    fn val(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 40 { return "null".into(); }
        let TyKind::RigidTy(r) = t.kind() else { return "null".into(); };
        match r {
            RigidTy::Bool => Self::rd(a, off, 1).map(|x| x.to_string()).unwrap_or("null".into()),
            RigidTy::Char => Self::rd(a, off, 4).map(|x| x.to_string()).unwrap_or("null".into()),
            RigidTy::Int(i) => Self::rd(a, off, i.num_bytes()).map(|x| x.to_string()).unwrap_or("null".into()),
            RigidTy::Uint(i) => Self::rd(a, off, i.num_bytes()).map(|x| x.to_string()).unwrap_or("null".into()),
            RigidTy::Float(f) => Self::rd(a, off, match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 }).map(|x| x.to_string()).unwrap_or("null".into()),
            RigidTy::FnDef(..) => "[]".into(),
            RigidTy::Tuple(_) | RigidTy::Closure(..) | RigidTy::Array(..) | RigidTy::Adt(..) => self.agg(a, off, t, depth),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let addr = Self::rd(a, off, 8).unwrap_or(0) as usize;
                let wide = match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => Some(Ty::unsigned_ty(UintTy::U8)),
                    TyKind::RigidTy(RigidTy::Slice(x)) => Some(x),
                    _ => None,
                };
                let is_dyn = matches!(e.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)));
                if is_dyn { return "null".into(); }
                let n = if wide.is_some() { Self::rd(a, off + 8, 8).unwrap_or(0) as usize } else { 0 };
                let Some(p) = prov else {
                    if wide.is_some() && n == 0 { return "{\"r\":[]}".into(); }
                    return format!("{{\"addr\":{}}}", addr);
                };
                let (ga, id) = match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => (m, String::new()),
                    GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(m) => (m, s.name().to_string()), Err(_) => return "null".into() },
                    _ => return "null".into(),
                };
                let inner = if let Some(et) = wide {
                    let sz = et.layout().unwrap().shape().size.bytes();
                    let mut v = vec![];
                    for i in 0..n { v.push(self.val(&ga, addr + i * sz, et, depth + 1)); }
                    arr(v)
                } else { self.val(&ga, addr, e, depth + 1) };
                if id.is_empty() { format!("{{\"r\":{}}}", inner) } else { format!("{{\"r\":{},\"static\":{},\"mut\":{}}}", inner, js(&id), ga.mutability == Mutability::Mut) }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                if let Some(p) = prov { if let GlobalAlloc::Function(i) = GlobalAlloc::from(p) { let id = self.inst(i); return format!("{{\"fn\":{id}}}"); } }
                "null".into()
            }
            _ => "null".into(),
        }
    }
    fn agg(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let TyKind::RigidTy(r) = t.kind() else { return "null".into(); };
        match r {
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().unwrap().shape().size.bytes();
                let mut v = vec![];
                for i in 0..n { v.push(self.val(a, off + i * sz, e, depth + 1)); }
                arr(v)
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "[]".into() };
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() { v.push(self.val(a, off + offsets[i].bytes(), *x, depth + 1)); }
                arr(v)
            }
            RigidTy::Adt(d, args) => match d.kind() {
                AdtKind::Union => "null".into(),
                AdtKind::Struct => {
                    let FieldsShape::Arbitrary { offsets } = &sh.fields else { return "[]".into() };
                    let fs = d.variants()[0].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(self.val(a, off + offsets[i].bytes(), f.ty_with_args(&args), depth + 1)); }
                    arr(v)
                }
                AdtKind::Enum => {
                    let vs = d.variants();
                    let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return "null".into(),
                        VariantsShape::Single { index } => {
                            let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(), _ => vec![] };
                            (index.to_index(), o)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                            let sz = match prim {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                rustc_public::abi::Primitive::Float { length } => length.bits() / 8,
                                _ => 8,
                            };
                            let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let Some(tv) = Self::rd(a, off + toff, sz) else { return "null".into() };
                            let mask: u128 = if sz == 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                            let idx = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for v in vs.iter() { if d.discriminant_for_variant(v.idx()).val & mask == tv { r = Some(v.idx().to_index()); } }
                                    match r { Some(r) => r, None => return "null".into() }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if !isptr && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                                }
                            };
                            (idx, variants[idx].offsets.iter().map(|x| x.bytes()).collect())
                        }
                    };
                    let fs = vs[idx].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(self.val(a, off + offs[i], f.ty_with_args(&args), depth + 1)); }
                    format!("{{\"v\":{},\"f\":{}}}", idx, arr(v))
                }
            },
            _ => "[]".into(),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.val(a, 0, t, 0),
            ConstantKind::ZeroSized => "[]".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.val(a, 0, *vt, 0),
                TyConstKind::ZSTValue(_) => "[]".into(),
                _ => match tc.eval_target_usize() { Ok(x) => x.to_string(), _ => "null".into() },
            },
            _ => "null".into(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", ti, v)
    }

    // ---- instances -------------------------------------------------------
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.instout.len();
        self.insts.insert(i, id);
        self.instout.push(String::new());
        self.queue.push(i);
        id
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return format!("{}", p.local); }
        let v: Vec<String> = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".into(),
            ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); format!("[\"oc\",{}]", t) }
        }).collect();
        format!("[{},{}]", p.local, arr(v))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(m, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); format!("[\"bin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); format!("[\"cbin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), o, t) }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, os) => {
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, u) => { let t = self.ty(d.ty_with_args(a)); format!("[\"adt\",{},{},{}]", t, v.to_index(), u.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
        }
    }
    fn stmt(&mut self, s: &Statement) -> Option<String> {
        Some(match &s.kind {
            StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rv(r); format!("[\"=\",{},{},{}]", p, r, s.source_info.span.get_lines().start_line) }
            StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()),
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!("[\"assume\",{}]", self.op(o)),
            StatementKind::Intrinsic(_) => "[\"unsupported\",\"copy_nonoverlapping\"]".into(),
            _ => return None,
        })
    }
    fn callee(&mut self, f: &Operand, body: &Body) -> String {
        let Ok(t) = f.ty(body.locals()) else { return "null".into() };
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            // iterator model redirection
            let dn = d.name().to_string();
            if let Some(m) = dn.strip_prefix("std::iter::Iterator::") {
                if let Some(md) = self.redirects.get(m).copied() {
                    if let Some(st) = a.0.first().and_then(|g| g.ty().copied()) {
                        let local_override = match Instance::resolve(d, &a) {
                            Ok(i) => { let n = i.def_krate(); n.starts_with("httlib") }
                            _ => false,
                        };
                        if !local_override {
                            if let Ok(i) = Instance::resolve(md, &a) {
                                let id = self.inst(i);
                                return format!("{{\"i\":{},\"d\":{}}}", id, js(&dn));
                            }
                        }
                    }
                }
            }
            let by_name = match dn.as_str() {
                "core::slice::<impl [T]>::contains" => Some("slice_contains"),
                "std::vec::Vec::<T, A>::retain" => Some("vec_retain"),
                "std::array::<impl [T; N]>::map" => Some("array_map"),
                _ => None,
            };
            if let Some(md) = by_name.and_then(|m| self.redirects.get(m).copied()) {
                if let Ok(i) = Instance::resolve(md, &a) {
                    let id = self.inst(i);
                    return format!("{{\"i\":{},\"d\":{}}}", id, js(&dn));
                }
            }
            if dn == "std::iter::Iterator::next" {
                if let Some(TyKind::RigidTy(RigidTy::Adt(z, za))) = a.0.first().and_then(|g| g.ty().copied()).map(|t| t.kind()) {
                    if z.name().to_string() == "std::iter::Zip" {
                        if let Some(md) = self.redirects.get("zip_next").copied() {
                            if let Ok(i) = Instance::resolve(md, &za) {
                                let id = self.inst(i);
                                return format!("{{\"i\":{},\"d\":{}}}", id, js(&dn));
                            }
                        }
                    }
                }
            }
            if dn == "std::iter::FromIterator::from_iter" || dn == "std::iter::Extend::extend" {
                if let Some((m, na)) = self.collection_model(&dn, &a) {
                    if let Some(md) = self.redirects.get(m).copied() {
                        if let Ok(i) = Instance::resolve(md, &na) {
                            let id = self.inst(i);
                            return format!("{{\"i\":{},\"d\":{}}}", id, js(&dn));
                        }
                    }
                }
            }
            match Instance::resolve(d, &a) {
                Ok(i) => { let id = self.inst(i); format!("{{\"i\":{},\"d\":{}}}", id, js(&dn)) }
                Err(_) => { let args = self.args(&a); format!("{{\"i\":null,\"d\":{},\"a\":{}}}", js(&dn), args) }
            }
        } else { format!("{{\"ptr\":{}}}", self.op(f)) }
    }
    // Vec's FromIterator/Extend and Result's FromIterator are analysed through plain reference bodies
    fn collection_model(&self, dn: &str, a: &GenericArgs) -> Option<(&'static str, GenericArgs)> {
        let t = |k: usize| a.0.get(k).and_then(|g| g.ty().copied());
        let (d, sargs) = match t(0)?.kind() { TyKind::RigidTy(RigidTy::Adt(d, s)) => (d, s), _ => return None };
        let name = d.name().to_string();
        let g = |x: Ty| GenericArgKind::Type(x);
        if name == "std::vec::Vec" || name == "std::collections::VecDeque" {
            let e = sargs.0.first()?.ty().copied()?;
            let it = t(2)?;
            if dn.ends_with("from_iter") { return Some(("vec_from_iter", GenericArgs(vec![g(e), g(it)]))); }
            let item = t(1)?;
            if item == e { return Some(("vec_extend", GenericArgs(vec![g(e), g(it)]))); }
            if let TyKind::RigidTy(RigidTy::Ref(r, _, _)) = item.kind() {
                return Some(("vec_extend_ref", GenericArgs(vec![GenericArgKind::Lifetime(r), g(e), g(it)])));
            }
            return None;
        }
        if name == "std::result::Result" && dn.ends_with("from_iter") {
            let v = sargs.0.first()?.ty().copied()?;
            let e = sargs.0.get(1)?.ty().copied()?;
            if let TyKind::RigidTy(RigidTy::Adt(vd, va)) = v.kind() {
                if vd.name().to_string() == "std::vec::Vec" {
                    let x = va.0.first()?.ty().copied()?;
                    return Some(("result_from_iter", GenericArgs(vec![g(x), g(e), g(t(2)?)])));
                }
            }
        }
        if name == "std::option::Option" && dn.ends_with("from_iter") {
            let v = sargs.0.first()?.ty().copied()?;
            if let TyKind::RigidTy(RigidTy::Adt(vd, va)) = v.kind() {
                if vd.name().to_string() == "std::vec::Vec" {
                    let x = va.0.first()?.ty().copied()?;
                    return Some(("option_from_iter", GenericArgs(vec![g(x), g(t(2)?)])));
                }
            }
        }
        None
    }
    fn term(&mut self, t: &Terminator, body: &Body) -> String {
        let line = t.source_info.span.get_lines().start_line;
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                let ty = discr.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"switch\",{},{},{},{},{}]", self.op(discr), arr(br), targets.otherwise(), ty, line)
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => { let ty = place.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(0); format!("[\"drop\",{},{},{}]", self.place(place), target, ty) }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let c = self.callee(func, body);
                let a: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                let ats: Vec<String> = args.iter().map(|o| o.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(0).to_string()).collect();
                let dty = destination.ty(body.locals()).map(|t| self.ty(t)).unwrap_or(0);
                format!("[\"call\",{},{},{},{},{},{},{}]", c, arr(a), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), line, arr(ats), dty)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{:?}", msg);
                let kind: String = match msg { AssertMessage::BoundsCheck { .. } => "BoundsCheck".into(), AssertMessage::Overflow(b, ..) => format!("Overflow({:?})", b), AssertMessage::OverflowNeg(_) => "OverflowNeg".into(), AssertMessage::DivisionByZero(_) => "DivisionByZero".into(), AssertMessage::RemainderByZero(_) => "RemainderByZero".into(), _ => m.split('(').next().unwrap_or("").to_string() };
                format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, js(&kind), target, line)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }
    fn process(&mut self, i: Instance) {
        let id = self.insts[&i];
        let name = i.name().to_string();
        let (path, krate) = i.def_info();
        let intr = i.intrinsic_name().map(|s| js(&s.to_string())).unwrap_or("null".into());
        let args = self.args(&i.args());
        let kind = format!("{:?}", i.kind);
        let kind = kind.split(' ').next().unwrap_or("").to_string();
        let empty = i.is_empty_shim();
        let stop = self.stops.iter().any(|s| path.starts_with(s.as_str()));
        let mut body_s = "null".to_string();
        if intr == "null" && !stop {
            if let Some(b) = i.body() {
                let mut blocks = vec![];
                for bb in &b.blocks {
                    let st: Vec<String> = bb.statements.iter().filter_map(|s| self.stmt(s)).collect();
                    let t = self.term(&bb.terminator, &b);
                    blocks.push(format!("[{},{}]", arr(st), t));
                }
                let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
                let file = b.span.get_filename().to_string();
                let names: Vec<String> = b.var_debug_info.iter().filter_map(|v| match &v.value {
                    VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(format!("[{},{}]", js(&v.name.to_string()), p.local)),
                    _ => None,
                }).collect();
                body_s = format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{},\"file\":{},\"line\":{},\"names\":{}}}", arr(locals), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), arr(blocks), js(&file), b.span.get_lines().start_line, arr(names));
            }
        }
        self.instout[id] = format!("{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"intr\":{},\"args\":{},\"empty\":{},\"body\":{}}}", js(&name), js(&path), js(&krate), kind, intr, args, empty, body_s);
    }
}

trait InstExt { fn def_krate(&self) -> String; fn def_info(&self) -> (String, String); }
impl InstExt for Instance {
    fn def_krate(&self) -> String { self.def_info().1 }
    fn def_info(&self) -> (String, String) {
        struct D(rustc_public::DefId);
        impl CrateDef for D { fn def_id(&self) -> rustc_public::DefId { self.0 } }
        let d = D(self.def.def_id());
        (d.name().to_string(), d.krate().name.to_string())
    }
}

// ---- effect scan of one whole crate (generic bodies, closures, statics) ------
struct Scan { fns: Vec<(String, Vec<String>, usize)>, tys: Vec<Ty>, casts: Vec<(String, usize)>, statics: Vec<(String, usize)>, tls: Vec<usize>, line: usize, locals: Vec<LocalDecl> }
impl Scan {
    fn konst(&mut self, c: &MirConst, line: usize) {
        self.ty(c.ty(), line);
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(s) = GlobalAlloc::from(p.0) { self.statics.push((s.name().to_string(), line)); }
            }
        }
    }
    fn ty(&mut self, t: Ty, line: usize) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            let args: Vec<String> = a.0.iter().filter_map(|g| g.ty().map(|t| t.to_string())).collect();
            self.fns.push((d.name().to_string(), args, line));
        }
        if !self.tys.contains(&t) { self.tys.push(t); }
    }
}
impl MirVisitor for Scan {
    fn visit_ty(&mut self, t: &Ty, l: visit::Location) { let n = l.span().get_lines().start_line; self.ty(*t, n); }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: visit::Location) { let n = l.span().get_lines().start_line; self.konst(&c.const_, n); }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        let n = l.span().get_lines().start_line;
        if let Rvalue::Cast(k, _, _) = r { self.casts.push((format!("{:?}", k), n)); }
        if let Rvalue::ThreadLocalRef(_) = r { self.tls.push(n); }
        self.super_rvalue(r, l);
    }
}
fn scan(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("VP_OUT").unwrap();
    let mut fs = vec![];
    let mut sts = vec![];
    for s in rustc_public::local_crate().statics() {
        let did = rustc_public::rustc_internal::internal(tcx, s.def_id());
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let freeze = t.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        sts.push(format!("[{},{},{},{},{}]", js(&s.name().to_string()), js(&format!("{}", t)), tcx.is_mutable_static(did), tcx.is_thread_local_static(did), freeze));
    }
    for it in rustc_public::all_local_items() {
        let Some(b) = it.body() else { continue };
        let mut v = Scan { fns: vec![], tys: vec![], casts: vec![], statics: vec![], tls: vec![], line: 0, locals: b.locals().to_vec() };
        v.visit_body(&b);
        let f: Vec<String> = v.fns.iter().map(|(n, a, l)| format!("[{},{},{}]", js(n), arr(a.iter().map(|x| js(x))), l)).collect();
        let c: Vec<String> = v.casts.iter().map(|(k, l)| format!("[{},{}]", js(k), l)).collect();
        let s: Vec<String> = v.statics.iter().map(|(k, l)| format!("[{},{}]", js(k), l)).collect();
        let t: Vec<String> = v.tys.iter().map(|t| js(&t.to_string())).collect();
        let tl: Vec<String> = v.tls.iter().map(|l| l.to_string()).collect();
        fs.push(format!("{{\"name\":{},\"fns\":{},\"casts\":{},\"statics\":{},\"types\":{},\"tls\":{}}}", js(&it.name().to_string()), arr(f), arr(c), arr(s), arr(t), arr(tl)));
    }
    std::fs::write(out, format!("{{\"statics\":{},\n\"bodies\":[\n{}\n]}}\n", arr(sts), fs.join(",\n"))).unwrap();
    ControlFlow::Continue(())
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    if std::env::var("VP_SCAN").is_ok() { return scan(tcx); }
    let out = std::env::var("VP_OUT").unwrap();
    let stops: Vec<String> = std::env::var("VP_STOPS").ok().map(|f| std::fs::read_to_string(f).unwrap().lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|s| s.to_string()).collect()).unwrap_or_default();
    let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], insts: HashMap::new(), queue: vec![], instout: vec![], stops, redirects: HashMap::new() };
    let krate = rustc_public::local_crate();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let short = n.rsplit("::").next().unwrap().to_string();
        if let Some(m) = short.strip_prefix("model_iter_") { cx.redirects.insert(m.to_string(), f); }
        if let Some(m) = short.strip_prefix("model_") { cx.redirects.insert(m.to_string(), f); }
    }
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let short = n.rsplit("::").next().unwrap().to_string();
        if short.starts_with("root_") || short.starts_with("vp_") {
            if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                let id = cx.inst(i);
                roots.push(format!("{}:{}", js(&short), id));
            }
        }
    }
    while let Some(i) = cx.queue.pop() { cx.process(i); }
    let s = format!("{{\"roots\":{{{}}},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n]}}\n", roots.join(","), cx.tyout.join(",\n"), cx.instout.join(",\n"));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = rustc_public::run_with_tcx!(&args, analyze);
    if r.is_err() { std::process::exit(1); }
}
