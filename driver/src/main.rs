//! mirdump: a compiler driver that writes the type-checked, monomorphised MIR of the
//! analysed crate (every local function plus everything it calls, down to a stop list of
//! modelled library crates) as JSON.  It never runs any of that code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_infer;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    inst: HashMap<String, usize>,
    queue: VecDeque<(usize, Instance)>,
    fn_out: Vec<(usize, String)>,
    statics: HashMap<String, String>,
    static_q: Vec<StaticDef>,
    notes: Vec<String>,
}

fn span_s(sp: &Span) -> String {
    let l = sp.get_lines();
    format!("{}:{}", sp.get_filename(), l.start_line)
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => "{\"c\":null}".to_string(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let disp = js(&format!("{}", t));
        let k = t.kind();
        let body = match k.rigid() {
            None => "\"k\":\"other\"".to_string(),
            Some(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"w\":{}", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("\"k\":\"uint\",\"w\":{}", x.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(*e),
                    n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
                ),
                RigidTy::RawPtr(e, m) => format!(
                    "\"k\":\"ptr\",\"e\":{},\"mut\":{}",
                    self.ty(*e),
                    *m == Mutability::Mut
                ),
                RigidTy::Ref(_, e, m) => format!(
                    "\"k\":\"ref\",\"e\":{},\"mut\":{}",
                    self.ty(*e),
                    *m == Mutability::Mut
                ),
                RigidTy::Tuple(v) => {
                    let v: Vec<String> = v.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":{}", arr(v))
                }
                RigidTy::FnDef(d, a) => {
                    let g = self.gargs(a);
                    format!("\"k\":\"fndef\",\"def\":{},\"g\":{}", js(&d.name()), g)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).ok();
                    // the body itself, by its natural kind
                    let mut ids = vec![];
                    for kd in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        let r = Instance::resolve_closure(*d, a, kd).ok();
                        ids.push(match r {
                            Some(i) => self.instance(i).to_string(),
                            None => "null".into(),
                        });
                    }
                    let _ = inst;
                    // upvar types: the last generic arg is a tuple type
                    let mut up = String::from("null");
                    if let Some(GenericArgKind::Type(t)) = a.0.last() {
                        up = self.ty(*t).to_string();
                    }
                    format!(
                        "\"k\":\"closure\",\"def\":{},\"calls\":{},\"up\":{}",
                        js(&d.name()),
                        arr(ids),
                        up
                    )
                }
                RigidTy::Dynamic(p, _) => {
                    let mut v = vec![];
                    for x in p.iter() {
                        match x.clone().skip_binder() {
                            ExistentialPredicate::Trait(t) => v.push(js(&t.def_id.name())),
                            ExistentialPredicate::AutoTrait(t) => v.push(js(&t.name())),
                            ExistentialPredicate::Projection(_) => {}
                        }
                    }
                    format!("\"k\":\"dyn\",\"traits\":{}", arr(v))
                }
                RigidTy::Adt(d, a) => {
                    let mut vs = vec![];
                    let is_enum = d.kind() == AdtKind::Enum;
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        let dis = if is_enum {
                            let x = d.discriminant_for_variant(v.idx());
                            signed(x.val, x.ty)
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"d\":{},\"f\":{}}}",
                            js(&v.name()),
                            dis,
                            arr(fs)
                        ));
                    }
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let g = self.gargs(a);
                    let sp = d.span();
                    format!(
                        "\"k\":\"adt\",\"a\":\"{}\",\"def\":{},\"crate\":{},\"g\":{},\"box\":{},\"span\":{},\"v\":{}",
                        kind,
                        js(&d.name()),
                        js(&d.krate().name),
                        g,
                        d.is_box(),
                        js(&span_s(&sp)),
                        arr(vs)
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
        };
        let size = t
            .layout()
            .ok()
            .map(|l| l.shape())
            .filter(|s| s.is_sized())
            .map(|s| s.size.bytes().to_string())
            .unwrap_or("null".into());
        format!("{{\"n\":{},\"size\":{},{}}}", disp, size, body)
    }

    fn instance(&mut self, i: Instance) -> usize {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(x) = self.inst.get(&key) {
            return *x;
        }
        let n = self.inst.len();
        self.inst.insert(key, n);
        self.queue.push_back((n, i));
        n
    }

    fn descend(&self, name: &str, krate: &str) -> bool {
        if krate == "redox_ecc" || krate == "witness" {
            return true;
        }
        if krate != "core" && krate != "num_traits" && krate != "num_integer" {
            return false;
        }
        // `name` of an impl method looks like `<T as path::Trait>::m` or `path::f`.
        for s in [
            "fmt::", "slice::sort", "panicking::", "unicode::", "str::pattern", "alloc::", "hash::",
            "ffi::", "any::", "time::", "net::",
        ] {
            if name.starts_with(&format!("core::{}", s)) || name.starts_with(&format!("std::{}", s)) {
                return false;
            }
        }
        if name.contains(" as std::fmt::") || name.contains(" as core::fmt::") {
            return false;
        }
        true
    }

    // ---------------------------------------------------------------- constants
    fn read_uint(b: &[Option<u8>]) -> Option<u128> {
        let mut r = 0u128;
        for (i, x) in b.iter().enumerate() {
            r |= (x.as_ref().copied()? as u128) << (8 * i);
        }
        Some(r)
    }
    /// a pointer to e covers a value of type t
    fn whole(t: Ty, e: Ty) -> bool {
        let size = |x: Ty| x.layout().ok().map(|l| l.shape().size.bytes());
        let array = |x: Ty| matches!(x.kind().rigid(), Some(RigidTy::Array(..)));
        match e.kind().rigid() {
            Some(RigidTy::Dynamic(..)) => true,
            Some(RigidTy::Slice(..)) | Some(RigidTy::Str) => false,
            _ => size(t) == size(e) && array(t) == array(e),
        }
    }
    fn pointee(
        &mut self,
        m: &Allocation,
        base: usize,
        e: Ty,
        meta: Option<u128>,
        ti: usize,
        depth: usize,
    ) -> String {
        let ek = e.kind();
        match ek.rigid() {
            Some(RigidTy::Str) => {
                let n = meta.unwrap_or(0) as usize;
                let bs: Vec<u8> =
                    m.bytes[base..base + n].iter().map(|x| x.unwrap_or(0)).collect();
                format!(
                    "{{\"s\":{},\"t\":{}}}",
                    js(&String::from_utf8_lossy(&bs)),
                    ti
                )
            }
            Some(RigidTy::Slice(el)) => {
                let n = meta.unwrap_or(0) as usize;
                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(m, base + i * es, *el, depth + 1));
                }
                format!("{{\"sl\":{},\"t\":{}}}", arr(v), ti)
            }
            Some(RigidTy::Dynamic(..)) => "{\"u\":\"dyn\"}".into(),
            _ => {
                let d = self.decode(m, base, e, depth + 1);
                format!("{{\"r\":{},\"t\":{}}}", d, ti)
            }
        }
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"u\":\"depth\"}".into();
        }
        let lay = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "{\"u\":\"layout\"}".into(),
        };
        let size = lay.size.bytes();
        let ti = self.ty(t);
        let k = t.kind();
        let Some(r) = k.rigid() else { return "{\"u\":\"kind\"}".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => {
                match Self::read_uint(&a.bytes[off..off + size]) {
                    Some(v) => format!("{{\"i\":\"{}\",\"t\":{}}}", v, ti),
                    None => "{\"u\":\"uninit\"}".into(),
                }
            }
            RigidTy::Int(_) => match Self::read_uint(&a.bytes[off..off + size]) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    let v = ((v << sh) as i128) >> sh;
                    format!("{{\"i\":\"{}\",\"t\":{}}}", v, ti)
                }
                None => "{\"u\":\"uninit\"}".into(),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                let Some(p) = prov else { return "{\"u\":\"ptr-noprov\"}".into() };
                let base = Self::read_uint(&a.bytes[off..off + 8]).unwrap_or(0) as usize;
                let meta = if size == 16 {
                    Self::read_uint(&a.bytes[off + 8..off + 16])
                } else {
                    None
                };
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Memory(m) => {
                        self.pointee(&m, base, *e, meta, ti, depth)
                    }
                    GlobalAlloc::Static(s) if base != 0 || !Self::whole(s.ty(), *e) => {
                        // a part of a static: its value
                        match s.eval_initializer() {
                            Ok(m) => self.pointee(&m, base, *e, meta, ti, depth),
                            Err(_) => "{\"u\":\"init\"}".into(),
                        }
                    }
                    GlobalAlloc::Static(s) => {
                        self.static_q.push(s);
                        format!("{{\"st\":{},\"t\":{}}}", js(&s.name()), ti)
                    }
                    GlobalAlloc::Function(i) => {
                        let n = self.instance(i);
                        format!("{{\"fn\":{},\"t\":{}}}", n, ti)
                    }
                    _ => "{\"u\":\"galloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1);
                match prov.map(|p| GlobalAlloc::from(p.0)) {
                    Some(GlobalAlloc::Function(i)) => {
                        let n = self.instance(i);
                        format!("{{\"fn\":{},\"t\":{}}}", n, ti)
                    }
                    _ => "{\"u\":\"fnptr\"}".into(),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + i * es, *e, depth + 1));
                }
                format!("{{\"a\":{},\"t\":{}}}", arr(v), ti)
            }
            RigidTy::Tuple(fs) => {
                let mut v = vec![];
                if let FieldsShape::Arbitrary { offsets } = &lay.fields {
                    for (i, f) in fs.iter().enumerate() {
                        v.push(self.decode(a, off + offsets[i].bytes(), *f, depth + 1));
                    }
                }
                format!("{{\"f\":{},\"v\":0,\"t\":{}}}", arr(v), ti)
            }
            RigidTy::Closure(..) | RigidTy::FnDef(..) => format!("{{\"f\":[],\"v\":0,\"t\":{}}}", ti),
            RigidTy::Adt(d, ga) => {
                if d.kind() == AdtKind::Union {
                    return "{\"u\":\"union\"}".into();
                }
                match &lay.variants {
                    VariantsShape::Single { index } => {
                        let mut v = vec![];
                        let vars = d.variants();
                        if let FieldsShape::Arbitrary { offsets } = &lay.fields {
                            for (i, f) in vars[index.to_index()].fields().iter().enumerate() {
                                let ft = f.ty_with_args(ga);
                                v.push(self.decode(a, off + offsets[i].bytes(), ft, depth + 1));
                            }
                        }
                        format!("{{\"f\":{},\"v\":{},\"t\":{}}}", arr(v), index.to_index(), ti)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tsize = tag_size(tag);
                        let raw = Self::read_uint(&a.bytes[off + toff..off + toff + tsize]);
                        let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                        let has_prov =
                            a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let mut idx = None;
                        match tag_encoding {
                            TagEncoding::Direct => {
                                if let Some(raw) = raw {
                                    for (j, _v) in d.variants().iter().enumerate() {
                                        let dv = d.discriminant_for_variant(_v.idx()).val;
                                        if dv & mask == raw {
                                            idx = Some(j);
                                        }
                                    }
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    idx = Some(untagged_variant.to_index());
                                } else if let Some(raw) = raw {
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 {
                                        idx = Some(lo + rel as usize);
                                    } else {
                                        idx = Some(untagged_variant.to_index());
                                    }
                                }
                            }
                        }
                        let Some(idx) = idx else { return "{\"u\":\"tag\"}".into() };
                        let mut v = vec![];
                        let vars = d.variants();
                        for (i, f) in vars[idx].fields().iter().enumerate() {
                            let ft = f.ty_with_args(ga);
                            v.push(self.decode(
                                a,
                                off + variants[idx].offsets[i].bytes(),
                                ft,
                                depth + 1,
                            ));
                        }
                        format!("{{\"f\":{},\"v\":{},\"t\":{}}}", arr(v), idx, ti)
                    }
                    VariantsShape::Empty => "{\"u\":\"empty\"}".into(),
                }
            }
            _ => "{\"u\":\"ty\"}".into(),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => {
                if let Some(RigidTy::FnDef(d, a)) = t.kind().rigid() {
                    let g = self.gargs(a);
                    let inst = Instance::resolve(*d, a).ok();
                    let n = match inst {
                        Some(i) => self.instance(i).to_string(),
                        None => "null".into(),
                    };
                    return format!(
                        "{{\"fd\":{},\"g\":{},\"inst\":{},\"t\":{}}}",
                        js(&d.name()),
                        g,
                        n,
                        ti
                    );
                }
                format!("{{\"z\":1,\"t\":{}}}", ti)
            }
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(&a, 0, t, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => {
                    let a = a.clone();
                    self.decode(&a, 0, *t, 0)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"z\":1,\"t\":{}}}", ti),
                _ => format!("{{\"u\":\"tyconst\",\"t\":{}}}", ti),
            },
            k => format!("{{\"u\":{},\"t\":{}}}", js(&format!("{:?}", k)), ti),
        }
    }
    // ---------------------------------------------------------------- bodies
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", i.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!(
                "[\"{}\",{}]",
                if matches!(o, Operand::Copy(_)) { "cp" } else { "mv" },
                self.place(p)
            ),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::Reborrow(_, _, p) => format!("[\"reborrow\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(x),
                self.operand(y)
            ),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(
                "[\"chk\",\"{:?}\",{},{}]",
                b,
                self.operand(x),
                self.operand(y)
            ),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(o),
                self.ty(*t)
            ),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, v) => {
                let vs: Vec<String> = v.iter().map(|x| self.operand(x)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, ga, _, af) => {
                        let t = d.ty_with_args(ga);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            vi.to_index(),
                            af.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, arr(vs))
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let mut ls = vec![];
        for l in b.locals() {
            ls.push(self.ty(l.ty).to_string());
        }
        let mut bs = vec![];
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(format!(
                        "[{},{},{}]",
                        self.place(p),
                        self.rvalue(r),
                        s.source_info.span.get_lines().start_line
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!(
                        "[\"sd\",{},{}]",
                        self.place(place),
                        variant_index.to_index()
                    )),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(format!(
                            "[\"cno\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let sp = js(&span_s(&t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        arr(br),
                        targets.otherwise(),
                        sp
                    )
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.operand(func),
                        arr(a),
                        self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "div0".into(),
                        AssertMessage::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        js(&m),
                        target,
                        sp
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            bs.push(format!("{{\"s\":{},\"t\":{}}}", arr(ss), tj));
        }
        let spread = "null";
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let Some(i) = v.argument_index {
                names.push(format!("[{},{}]", i, js(&v.name)));
            }
        }
        format!(
            "\"argc\":{},\"locals\":{},\"spread\":{},\"argn\":{},\"blocks\":{}",
            b.arg_locals().len(),
            arr(ls),
            spread,
            arr(names),
            arr(bs)
        )
    }
    fn run(&mut self) {
        while let Some((n, i)) = self.queue.pop_front() {
            let name = i.name();
            let krate = i.def.krate().name.clone();
            let mut extra = String::new();
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { idx } => {
                    extra = format!(",\"vidx\":{}", idx);
                    "virtual"
                }
                InstanceKind::Shim => "shim",
            };
            let intr = i
                .intrinsic_name()
                .map(|x| js(&x))
                .unwrap_or("null".into());
            let g = self.gargs(&i.args());
            let mut body = String::from("\"blocks\":null");
            let want = match i.kind {
                InstanceKind::Item => self.descend(&name, &krate),
                InstanceKind::Shim => !name.starts_with("std::ptr::drop_in_place") && !name.starts_with("core::ptr::drop_in_place"),
                _ => false,
            };
            if want {
                if let Some(b) = i.body() {
                    body = self.body(&b);
                }
            }
            let sp = i.def.span();
            let t = self.ty(i.ty());
            self.fn_out.push((
                n,
                format!(
                    "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\"{},\"intr\":{},\"g\":{},\"ty\":{},\"span\":{},{}}}",
                    n,
                    js(&name),
                    js(&i.def.name()),
                    js(&krate),
                    kind,
                    extra,
                    intr,
                    g,
                    t,
                    js(&span_s(&sp)),
                    body
                ),
            ));
            while let Some(s) = self.static_q.pop() {
                self.do_static(s);
            }
        }
    }
    fn do_static(&mut self, s: StaticDef) {
        let name = s.name();
        if self.statics.contains_key(&name) {
            return;
        }
        self.statics.insert(name.clone(), String::new());
        let t = s.ty();
        let v = match s.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t, 0),
            Err(_) => "{\"u\":\"init\"}".into(),
        };
        let ti = self.ty(t);
        let sp = s.span();
        self.statics.insert(
            name.clone(),
            format!(
                "{{\"name\":{},\"t\":{},\"v\":{},\"span\":{},\"crate\":{}}}",
                js(&name),
                ti,
                v,
                js(&span_s(&sp)),
                js(&s.krate().name)
            ),
        );
    }
}

/// the value of a discriminant of type `t` held in `v` as raw bits
fn signed(v: u128, t: Ty) -> String {
    let bits = match t.kind() {
        TyKind::RigidTy(RigidTy::Int(i)) => 8 * i.num_bytes() as u32,
        _ => return v.to_string(),
    };
    if bits < 128 && v >> (bits - 1) & 1 == 1 {
        let m = (1i128 << bits) - 1;
        ((v as i128 & m) - m - 1).to_string()
    } else {
        (v as i128).to_string()
    }
}

fn tag_size(t: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match t {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

/// does the type implement Send and Sync (the compiler's own trait selection)
fn auto_traits<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, t: Ty) -> (bool, bool) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let ty = rustc_public::rustc_internal::internal(tcx, t);
    let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::non_body_analysis());
    let pe = rustc_middle::ty::ParamEnv::empty();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send).expect("Send");
    let sync = tcx.lang_items().sync_trait().expect("Sync");
    let f = |d| infcx.type_implements_trait(d, [ty], pe).must_apply_modulo_regions();
    (f(send), f(sync))
}

fn go<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut d = Dump::default();
    let mut roots = vec![];
    let mut generic = vec![];
    let mut seen = HashSet::new();
    for it in rustc_public::all_local_items() {
        let nm = it.name();
        match it.kind() {
            rustc_public::ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) {
                    d.do_static(s);
                }
                continue;
            }
            rustc_public::ItemKind::Fn => {}
            _ => continue,
        }
        if it.requires_monomorphization() {
            generic.push(js(&nm));
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            if i.has_body() {
                let n = d.instance(i);
                if seen.insert(n) {
                    roots.push(n.to_string());
                }
            }
        }
    }
    let mut adts = vec![];
    let mut auto = vec![];
    let lc = rustc_public::local_crate();
    for a in lc.adts() {
        // only monomorphic local types
        let g = a.generics_of();
        if g.params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime)) {
            let t = a.ty();
            adts.push(d.ty(t).to_string());
            let (send, sync) = auto_traits(tcx, t);
            let did = rustc_public::rustc_internal::internal(tcx, a.def_id());
            let reach = did
                .as_local()
                .map(|l| tcx.effective_visibilities(()).is_reachable(l))
                .unwrap_or(true);
            auto.push(format!("[{},{},{},{}]", d.ty(t), send, sync, reach));
        }
    }
    // fields of local types that code outside the crate can name
    let mut open = vec![];
    for a in lc.adts() {
        let did = rustc_public::rustc_internal::internal(tcx, a.def_id());
        if let Some(l) = did.as_local() {
            if !tcx.effective_visibilities(()).is_reachable(l) {
                continue;
            }
        }
        for f in tcx.adt_def(did).all_fields() {
            if f.vis.is_public() {
                open.push(format!("[{},{}]", js(&a.name()), js(f.name.as_str())));
            }
        }
    }
    let mut impls = vec![];
    for im in lc.trait_impls() {
        let tr = im.trait_impl();
        let tr = tr.value;
        let st = tr.self_ty();
        impls.push(format!(
            "[{},{}]",
            js(&tr.def_id.name()),
            js(&format!("{}", st))
        ));
    }
    d.run();
    while let Some(s) = d.static_q.pop() {
        d.do_static(s);
    }
    d.run();
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"types\":[", js(&lc.name));
    o.push_str(&d.ty_out.join(",\n"));
    o.push_str("],\n\"fns\":[");
    d.fn_out.sort_by_key(|x| x.0);
    o.push_str(&d.fn_out.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"statics\":[");
    let mut st: Vec<String> = d.statics.values().filter(|x| !x.is_empty()).cloned().collect();
    st.sort();
    o.push_str(&st.join(",\n"));
    let _ = write!(
        o,
        "],\n\"roots\":[{}],\"generic\":[{}],\"adts\":[{}],\"impls\":[{}],\"notes\":[{}],\"auto\":[{}],\"open\":[{}]}}\n",
        roots.join(","),
        generic.join(","),
        adts.join(","),
        impls.join(","),
        d.notes.join(","),
        auto.join(","),
        open.join(",")
    );
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let is_target = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && Some(&w[1]) == std::env::var("MIRDUMP_CRATE").ok().as_ref())
        && !args.iter().any(|a| a == "--test");
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, go);
    if r.is_err() {
        std::process::exit(1);
    }
}
