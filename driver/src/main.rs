//! mirdump: a rustc wrapper (RUSTC_WRAPPER).  For every crate it forwards to the
//! real compiler; for the crates named in MIRDUMP_CRATES it additionally writes, to
//! MIRDUMP_OUT/<crate>.json, the type-checked program: monomorphised MIR of all local
//! functions and of everything they reach, evaluated constants, type layouts, spans.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;
use std::process::Command;

struct Dump {
    types: HashMap<Ty, usize>,
    type_q: VecDeque<Ty>,
    type_out: Map<String, Value>,
    insts: HashMap<Instance, usize>,
    inst_q: VecDeque<Instance>,
    inst_out: Vec<Value>,
    allocs: HashMap<AllocId, usize>,
    alloc_q: VecDeque<AllocId>,
    alloc_out: Map<String, Value>,
    stop: Vec<String>,
}

// paths of items the crate graph also re-exports elsewhere
fn clean(s: String) -> String {
    s.replace("wasm_bindgen::__rt::", "")
}

fn crate_of(i: &Instance) -> String {
    i.def.krate().name.to_string()
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        let n = self.types.len();
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        self.types.insert(t, n);
        self.type_q.push_back(t);
        n
    }
    fn inst(&mut self, i: Instance) -> usize {
        let n = self.insts.len();
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        self.insts.insert(i, n);
        self.inst_q.push_back(i);
        n
    }
    fn alloc(&mut self, a: AllocId) -> usize {
        let n = self.allocs.len();
        if let Some(k) = self.allocs.get(&a) {
            return *k;
        }
        self.allocs.insert(a, n);
        self.alloc_q.push_back(a);
        n
    }
    fn span(&self, s: Span) -> Value {
        let l = s.get_lines();
        json!([s.get_filename().to_string(), l.start_line])
    }
    fn allocation(&mut self, a: &Allocation) -> Value {
        let mut hex = String::new();
        for b in &a.bytes {
            match b {
                Some(b) => hex.push_str(&format!("{:02x}", b)),
                None => hex.push_str("uu"),
            }
        }
        let p: Vec<Value> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| json!([o, self.alloc(p.0)]))
            .collect();
        if p.is_empty() {
            json!({ "b": hex })
        } else {
            json!({"b": hex, "p": p})
        }
    }
    fn konst(&mut self, c: &MirConst) -> Value {
        let ty = self.ty(c.ty());
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = c.ty().kind() {
            if let Ok(i) = Instance::resolve(def, &args) {
                let n = self.inst(i);
                return json!({"t": ty, "fn": n});
            }
            return json!({"t": ty, "fnun": def.name().to_string()});
        }
        match c.kind() {
            ConstantKind::Allocated(a) => json!({"t": ty, "a": self.allocation(a)}),
            ConstantKind::ZeroSized => json!({"t": ty, "z": 1}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => json!({"t": ty, "a": self.allocation(a)}),
                TyConstKind::ZSTValue(_) => json!({"t": ty, "z": 1}),
                k => json!({"t": ty, "u": format!("{:?}", k)}),
            },
            k => json!({"t": ty, "u": format!("{:?}", k)}),
        }
    }
    fn place(&mut self, p: &Place) -> Value {
        if p.projection.is_empty() {
            return json!(p.local);
        }
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => json!("D"),
                ProjectionElem::Field(i, t) => json!(["F", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["I", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["C", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["S", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["V", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => json!(["O", self.ty(*t)]),
            });
        }
        json!([p.local, v])
    }
    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(r) => json!(["rt", format!("{:?}", r)]),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::AddressOf(k, p) => json!(["addr", format!("{:?}", k), self.place(p)]),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "f",
                    BorrowKind::Mut { .. } => "m",
                };
                json!(["ref", m, self.place(p)])
            }
            Rvalue::Aggregate(k, ops) => {
                let ty = r.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                let o: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
                match k {
                    AggregateKind::Adt(_, v, _, _, f) => {
                        json!(["agg", "adt", ty, o, v.to_index(), f])
                    }
                    AggregateKind::Array(_) => json!(["agg", "array", ty, o]),
                    AggregateKind::Tuple => json!(["agg", "tuple", ty, o]),
                    AggregateKind::Closure(..) => json!(["agg", "closure", ty, o]),
                    AggregateKind::RawPtr(..) => json!(["agg", "rawptr", ty, o]),
                    _ => json!(["agg", "other", ty, o]),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                json!(["bin", format!("{:?}", b), self.op(x), self.op(y)])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                json!(["cbin", format!("{:?}", b), self.op(x), self.op(y)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                json!(["cast", format!("{:?}", k), self.op(o), self.ty(*t), from])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                json!(["discr", self.place(p), t])
            }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => {
                let ty = r.ty(locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                json!(["repeat", self.op(o), n.eval_target_usize().ok(), ty])
            }
            Rvalue::UnaryOp(u, o) => json!(["un", format!("{:?}", u), self.op(o)]),
            Rvalue::ThreadLocalRef(c) => json!(["tls", c.name().to_string()]),
            Rvalue::Reborrow(_, m, p) => json!(["reborrow", format!("{:?}", m), self.place(p)]),
        }
    }
    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt: Vec<usize> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        ss.push(json!(["=", self.place(p), self.rv(r, &locals), line]))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(json!(["sd", self.place(place), variant_index.to_index(), line]))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(json!(["cno", self.op(&c.src), self.op(&c.dst), self.op(&c.count), line]))
                    }
                    StatementKind::StorageDead(l) => ss.push(json!(["dead", l])),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> =
                        targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    let dt = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(usize::MAX);
                    json!(["switch", self.op(discr), br, targets.otherwise(), dt])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let n = if i.is_empty_shim() { Value::Null } else { json!(self.inst(i)) };
                    json!(["drop", self.place(place), target, self.ty(t), n])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    let at: Vec<usize> = args
                        .iter()
                        .map(|o| o.ty(&locals).map(|t| self.ty(t)).unwrap_or(usize::MAX))
                        .collect();
                    json!(["call", self.op(func), a, self.place(destination), target, at])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            json!(["bounds", self.op(len), self.op(index)])
                        }
                        m => json!([m.description().unwrap_or("assert")]),
                    };
                    json!(["assert", self.op(cond), expected, target, m])
                }
                TerminatorKind::InlineAsm { .. } => json!(["asm"]),
            };
            blocks.push(json!({"s": ss, "t": t, "l": line}));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(json!([v.name.to_string(), self.place(p), v.argument_index]));
            }
        }
        json!({"argc": b.arg_locals().len(), "locals": lt, "blocks": blocks,
               "spread": b.spread_arg(), "names": names, "span": self.span(b.span)})
    }
    fn do_inst(&mut self, i: Instance) -> Value {
        let kr = crate_of(&i);
        let name = clean(i.name().to_string());
        let base = clean(i.def.name().to_string());
        let mut o = Map::new();
        o.insert("name".into(), json!(name));
        o.insert("path".into(), json!(base));
        o.insert("crate".into(), json!(kr));
        o.insert("kind".into(), json!(format!("{:?}", i.kind)));
        let args: Vec<Value> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => json!({ "n": n }),
                    Err(_) => json!({"u": format!("{:?}", c)}),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        o.insert("args".into(), json!(args));
        if let Some(n) = i.intrinsic_name() {
            o.insert("intrinsic".into(), json!(n.to_string()));
        }
        let stop = self.stop.iter().any(|s| base.starts_with(s.as_str()) || name.starts_with(s.as_str()));
        o.insert("stop".into(), json!(stop));
        if !stop && i.has_body() && !matches!(i.kind, InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                let v = self.body(&b);
                o.insert("body".into(), v);
            }
        } else if !stop && i.kind == InstanceKind::Shim {
            if let Some(b) = i.body() {
                let v = self.body(&b);
                o.insert("body".into(), v);
            }
        }
        Value::Object(o)
    }
    fn do_ty(&mut self, t: Ty) -> Value {
        let mut o = Map::new();
        let k = t.kind();
        o.insert("s".into(), json!(clean(format!("{}", t))));
        let TyKind::RigidTy(r) = k else {
            o.insert("k".into(), json!("other"));
            return Value::Object(o);
        };
        let ks = match &r {
            RigidTy::Bool => "bool",
            RigidTy::Char => "char",
            RigidTy::Int(i) => {
                o.insert("n".into(), json!(format!("{:?}", i).to_lowercase()));
                "int"
            }
            RigidTy::Uint(i) => {
                o.insert("n".into(), json!(format!("{:?}", i).to_lowercase()));
                "uint"
            }
            RigidTy::Float(_) => "float",
            RigidTy::Str => "str",
            RigidTy::Never => "never",
            RigidTy::Foreign(_) => "foreign",
            RigidTy::Array(e, n) => {
                o.insert("e".into(), json!(self.ty(*e)));
                o.insert("len".into(), json!(n.eval_target_usize().ok()));
                "array"
            }
            RigidTy::Slice(e) => {
                o.insert("e".into(), json!(self.ty(*e)));
                "slice"
            }
            RigidTy::RawPtr(e, m) => {
                o.insert("e".into(), json!(self.ty(*e)));
                o.insert("mut".into(), json!(*m == Mutability::Mut));
                "ptr"
            }
            RigidTy::Ref(_, e, m) => {
                o.insert("e".into(), json!(self.ty(*e)));
                o.insert("mut".into(), json!(*m == Mutability::Mut));
                "ref"
            }
            RigidTy::Tuple(ts) => {
                let f: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                o.insert("f".into(), json!(f));
                "tuple"
            }
            RigidTy::Adt(def, args) => {
                o.insert("adt".into(), json!(clean(def.name().to_string())));
                o.insert("crate".into(), json!(def.krate().name.to_string()));
                let a: Vec<Value> = args
                    .0
                    .iter()
                    .filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                        GenericArgKind::Const(c) => Some(json!({"n": c.eval_target_usize().ok()})),
                        _ => None,
                    })
                    .collect();
                o.insert("args".into(), json!(a));
                let kind = format!("{:?}", def.kind());
                o.insert("ak".into(), json!(kind));
                let mut vs = vec![];
                for v in def.variants_iter() {
                    let fs: Vec<Value> = v
                        .fields()
                        .iter()
                        .map(|f| json!([f.name.to_string(), self.ty(f.ty_with_args(args))]))
                        .collect();
                    let d = if kind == "Enum" {
                        json!(def.discriminant_for_variant(v.idx()).val.to_string())
                    } else {
                        Value::Null
                    };
                    vs.push(json!({"n": v.name().to_string(), "f": fs, "d": d}));
                }
                o.insert("v".into(), json!(vs));
                o.insert("repr".into(), json!(format!("{:?}", def.repr())));
                "adt"
            }
            RigidTy::Closure(def, args) => {
                o.insert("adt".into(), json!(clean(def.name().to_string())));
                // the upvar tuple is the last generic argument
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        let f: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                        o.insert("f".into(), json!(f));
                    }
                }
                "closure"
            }
            RigidTy::FnDef(def, args) => {
                o.insert("adt".into(), json!(clean(def.name().to_string())));
                if let Ok(i) = Instance::resolve(*def, args) {
                    o.insert("fn".into(), json!(self.inst(i)));
                }
                "fndef"
            }
            RigidTy::FnPtr(_) => "fnptr",
            RigidTy::Dynamic(..) => "dyn",
            _ => "other",
        };
        o.insert("k".into(), json!(ks));
        if let Ok(l) = t.layout() {
            let s = l.shape();
            o.insert("size".into(), json!(s.size.bytes()));
            o.insert("align".into(), json!(s.abi_align));
            o.insert("unsized".into(), json!(s.is_unsized()));
            if let FieldsShape::Arbitrary { offsets } = &s.fields {
                let v: Vec<usize> = offsets.iter().map(|x| x.bytes()).collect();
                o.insert("off".into(), json!(v));
            }
            match &s.variants {
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let v: Vec<Vec<usize>> = variants
                        .iter()
                        .map(|v| v.offsets.iter().map(|x| x.bytes()).collect())
                        .collect();
                    let tf = if let FieldsShape::Arbitrary { offsets } = &s.fields {
                        offsets.get(*tag_field).map(|x| x.bytes())
                    } else {
                        None
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => json!("direct"),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            json!([untagged_variant.to_index(), niche_variants.start().to_index(),
                                   niche_variants.end().to_index(), niche_start.to_string()])
                        }
                    };
                    o.insert(
                        "multi".into(),
                        json!({"tag": format!("{:?}", tag), "enc": enc, "at": tf, "off": v}),
                    );
                }
                VariantsShape::Single { index } => {
                    o.insert("single".into(), json!(index.to_index()));
                }
                VariantsShape::Empty => {
                    o.insert("empty".into(), json!(true));
                }
            }
        }
        Value::Object(o)
    }
    fn do_alloc(&mut self, a: AllocId) -> Value {
        match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => json!({"m": self.allocation(&m)}),
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
            GlobalAlloc::Static(s) => self.static_(s),
            GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
            GlobalAlloc::TypeId { ty } => json!({"typeid": self.ty(ty)}),
        }
    }
    fn static_(&mut self, s: StaticDef) -> Value {
        let ty = self.ty(s.ty());
        match s.eval_initializer() {
            Ok(m) => {
                json!({"static": s.name().to_string(), "t": ty, "m": self.allocation(&m), "mut": m.mutability == Mutability::Mut})
            }
            Err(_) => json!({"static": s.name().to_string(), "t": ty}),
        }
    }
    fn drain(&mut self) {
        loop {
            if let Some(i) = self.inst_q.pop_front() {
                let v = self.do_inst(i);
                self.inst_out.push(v);
            } else if let Some(t) = self.type_q.pop_front() {
                let v = self.do_ty(t);
                let n = self.types[&t];
                self.type_out.insert(n.to_string(), v);
            } else if let Some(a) = self.alloc_q.pop_front() {
                let v = self.do_alloc(a);
                let n = self.allocs[&a];
                self.alloc_out.insert(n.to_string(), v);
            } else {
                break;
            }
        }
    }
}

fn dump() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();
    let mut d = Dump {
        types: HashMap::new(),
        type_q: VecDeque::new(),
        type_out: Map::new(),
        insts: HashMap::new(),
        inst_q: VecDeque::new(),
        inst_out: vec![],
        allocs: HashMap::new(),
        alloc_q: VecDeque::new(),
        alloc_out: Map::new(),
        stop,
    };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut consts = vec![];
    let mut statics = vec![];
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        let name = it.name().to_string();
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(json!([name, d.span(it.span())]));
                } else if let Ok(i) = Instance::try_from(it.clone()) {
                    let is_closure = matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
                    if !is_closure {
                        roots.push(json!([name, d.inst(i), d.span(it.span())]));
                    }
                }
            }
            ItemKind::Const => {
                if !it.requires_monomorphization() {
                    let ty = it.ty();
                    if let Ok(i) = Instance::try_from(it.clone()) {
                        if let Ok(a) = i.try_const_eval(ty) {
                            consts.push(json!([name, d.ty(ty), d.allocation(&a), d.span(it.span())]));
                        }
                    }
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it.clone()) {
                    statics.push(json!([name, d.static_(s), d.span(it.span())]));
                }
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    for a in krate.adts() {
        // non-generic or lifetime-only generic local types
        let g = a.generics_of();
        let only_lt = g.params.iter().all(|p| matches!(p.kind, GenericParamDefKind::Lifetime));
        if only_lt && g.parent_count == 0 {
            let args = GenericArgs(
                g.params
                    .iter()
                    .map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }))
                    .collect(),
            );
            let t = a.ty_with_args(&args);
            adts.push(json!([a.name().to_string(), d.ty(t)]));
        } else {
            adts.push(json!([a.name().to_string(), Value::Null]));
        }
    }
    d.drain();
    let out = json!({
        "crate": krate.name.to_string(),
        "roots": roots, "generic": generic, "consts": consts, "statics": statics, "adts": adts,
        "types": d.type_out, "insts": d.inst_out, "allocs": d.alloc_out,
    });
    let dir = std::env::var("MIRDUMP_OUT").unwrap();
    let path = format!("{}/{}.json", dir, krate.name);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv = [wrapper, rustc, args...]
    args.remove(0);
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|p| args.get(p + 1))
        .cloned()
        .unwrap_or_default();
    if name.is_empty() || name == "___" || name.starts_with("build_script") {
        let s = Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(s.code().unwrap_or(101));
    }
    // A dependency the pinned lockfile brings in that this nightly rejects: a source-level
    // substitute (same crate, one transmute rewritten) listed as name=path.
    if let Ok(s) = std::env::var("MIRDUMP_SWAP") {
        for kv in s.split(',') {
            if let Some((n, p)) = kv.split_once('=') {
                if n == name {
                    for a in args.iter_mut() {
                        if a.ends_with("/src/lib.rs") {
                            *a = p.to_string();
                        }
                    }
                }
            }
        }
    }
    // Analyse the configuration that is deployed: the on-chain branches of the listed crates
    // (`#[cfg(target_os = "solana")]`) instead of their host stubs.
    if let Ok(s) = std::env::var("MIRDUMP_SOLANA") {
        if s.split(',').any(|w| w == name) {
            args.push("--cfg".into());
            args.push("target_os=\"solana\"".into());
            args.push("-Aexplicit_builtin_cfgs_in_flags".into());
        }
    }
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=off".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("--cap-lints=allow".into());
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !is_test && want.split(',').any(|w| w == name) {
        let r = rustc_public::run!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
        return;
    }
    let s = Command::new(&args[0]).args(&args[1..]).status().unwrap();
    std::process::exit(s.code().unwrap_or(101));
}
