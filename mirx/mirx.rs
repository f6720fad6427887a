// mirx: exports the MIR of the crate being compiled (and of the library bodies it
// reaches) as JSON. It is a rustc driver; cargo runs it as RUSTC_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
extern crate rustc_public;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::CrateItem;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(v: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let parts: Vec<String> = v.into_iter().map(|x| f(x)).collect();
    format!("[{}]", parts.join(","))
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    allocs: HashMap<usize, String>,
    alloc_ids: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    local_crate: String,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }
    fn layout(&mut self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                let fields = match &sh.fields {
                    FieldsShape::Arbitrary { offsets, .. } => list(offsets.iter(), |o| format!("{}", o.bytes())),
                    _ => "null".into(),
                };
                let variants = match &sh.variants {
                    VariantsShape::Single { .. } => "null".to_string(),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        format!("{{\"tag\":{},\"enc\":{},\"tag_field\":{},\"offs\":{}}}", esc(&format!("{:?}", tag)), esc(&format!("{:?}", tag_encoding)), tag_field,
                            list(variants.iter(), |v| list(v.offsets.iter(), |o| format!("{}", o.bytes()))))
                    }
                    _ => "null".to_string(),
                };
                format!("{{\"size\":{},\"fields\":{},\"variants\":{}}}", sh.size.bytes(), fields, variants)
            }
            Err(_) => "null".into(),
        }
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let name = esc(&format!("{}", t));
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => format!("{{\"k\":\"bool\",\"n\":{name}}}"),
                RigidTy::Char => format!("{{\"k\":\"char\",\"n\":{name}}}"),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"s\":true,\"b\":{},\"n\":{name}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"s\":false,\"b\":{},\"n\":{name}}}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"f\":{},\"n\":{name}}}", esc(&format!("{:?}", f))),
                RigidTy::Str => format!("{{\"k\":\"str\",\"n\":{name}}}"),
                RigidTy::Never => format!("{{\"k\":\"never\",\"n\":{name}}}"),
                RigidTy::Array(e, n) => {
                    let ei = self.ty(e);
                    let len = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"array\",\"e\":{ei},\"len\":{len},\"n\":{name}}}")
                }
                RigidTy::Slice(e) => { let ei = self.ty(e); format!("{{\"k\":\"slice\",\"e\":{ei},\"n\":{name}}}") }
                RigidTy::RawPtr(e, m) => { let ei = self.ty(e); format!("{{\"k\":\"ptr\",\"e\":{ei},\"m\":{},\"n\":{name}}}", m == Mutability::Mut) }
                RigidTy::Ref(_, e, m) => { let ei = self.ty(e); format!("{{\"k\":\"ref\",\"e\":{ei},\"m\":{},\"n\":{name}}}", m == Mutability::Mut) }
                RigidTy::Tuple(es) => {
                    let es: Vec<usize> = es.iter().map(|e| self.ty(*e)).collect();
                    let lay = self.layout(t);
                    format!("{{\"k\":\"tuple\",\"es\":{},\"n\":{name},\"layout\":{lay}}}", list(es, |x| x.to_string()))
                }
                RigidTy::Adt(def, args) => {
                    let targs: Vec<String> = args.0.iter().filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                        GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
                        _ => None }).collect();
                    let kind = if def.is_box() { "box" } else { match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" } };
                    let dn = esc(&def.name());
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            let fi = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name), fi));
                        }
                        let d = if kind == "enum" { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(&v.name()), d, fs.join(",")));
                    }
                    let lay = self.layout(t);
                    format!("{{\"k\":\"{kind}\",\"dn\":{dn},\"args\":[{}],\"vs\":[{}],\"n\":{name},\"layout\":{lay}}}", targs.join(","), vs.join(","))
                }
                RigidTy::FnDef(def, args) => {
                    let (inst, desc) = self.callee(def, &args);
                    let _ = inst;
                    format!("{{\"k\":\"fndef\",\"callee\":{desc},\"n\":{name}}}")
                }
                RigidTy::Closure(def, args) => {
                    let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce).ok();
                    let direct = Instance::resolve_closure(def, &args, ClosureKind::FnMut).ok();
                    let _ = inst;
                    let id = direct.map(|i| { self.enqueue(i); esc(&i.mangled_name()) }).unwrap_or("null".into());
                    // upvar types: last generic arg is a tuple type
                    let up = args.0.iter().rev().find_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None });
                    let up = up.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"closure\",\"fn\":{id},\"up\":{up},\"n\":{name}}}")
                }
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{name}}}"),
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{name}}}"),
                _ => format!("{{\"k\":\"other\",\"n\":{name}}}"),
            },
            _ => format!("{{\"k\":\"other\",\"n\":{name}}}"),
        }
    }
    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> (Option<Instance>, String) {
        let path = def.name();
        let targs: Vec<String> = args.0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
            _ => None }).collect();
        match Instance::resolve(def, args) {
            Ok(i) => {
                self.enqueue(i);
                let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual{..} => "virtual", InstanceKind::Shim => "shim" };
                let s = format!("{{\"id\":{},\"name\":{},\"path\":{},\"kind\":\"{kind}\",\"targs\":[{}]}}", esc(&i.mangled_name()), esc(&i.name()), esc(&path), targs.join(","));
                (Some(i), s)
            }
            Err(_) => (None, format!("{{\"id\":null,\"name\":{},\"path\":{},\"kind\":\"unresolved\",\"targs\":[{}]}}", esc(&path), esc(&path), targs.join(","))),
        }
    }
    fn enqueue(&mut self, i: Instance) {
        let n = i.mangled_name();
        if self.seen.contains(&n) { return; }
        self.seen.insert(n);
        self.queue.push_back(i);
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        let mut hex = String::new();
        for b in a.bytes.iter() { match b { Some(b) => { let _ = write!(hex, "{:02x}", b); }, None => hex.push_str("uu") } }
        let ptrs: Vec<(usize, rustc_public::mir::alloc::AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
        let mut ps = vec![];
        for (o, id) in ptrs { let k = self.global_alloc(id); ps.push(format!("[{o},{k}]")); }
        format!("{{\"b\":\"{hex}\",\"p\":[{}]}}", ps.join(","))
    }
    fn global_alloc(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(k) = self.alloc_ids.get(&id) { return *k; }
        let k = self.alloc_ids.len();
        self.alloc_ids.insert(id, k);
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => { let s = self.alloc(&a); format!("{{\"k\":\"mem\",\"a\":{s}}}") }
            GlobalAlloc::Function(i) => { self.enqueue(i); format!("{{\"k\":\"fn\",\"id\":{},\"name\":{}}}", esc(&i.mangled_name()), esc(&i.name())) }
            GlobalAlloc::Static(s) => match s.eval_initializer() { Ok(a) => { let x = self.alloc(&a); let t = self.ty(s.ty()); format!("{{\"k\":\"static\",\"name\":{},\"ty\":{t},\"a\":{x}}}", esc(&s.name())) }, Err(_) => "{\"k\":\"static?\"}".into() },
            GlobalAlloc::VTable(t, _) => { let t = self.ty(t); format!("{{\"k\":\"vtable\",\"ty\":{t}}}") },
            _ => "{\"k\":\"other\"}".into(),
        };
        self.allocs.insert(k, s);
        k
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let t = self.ty(ty);
        match c.kind() {
            ConstantKind::Allocated(a) => { let a = self.alloc(a); format!("{{\"c\":\"alloc\",\"t\":{t},\"a\":{a}}}") }
            ConstantKind::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{t}}}"),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let a = self.alloc(a); format!("{{\"c\":\"alloc\",\"t\":{t},\"a\":{a}}}") }
                TyConstKind::ZSTValue(_) => format!("{{\"c\":\"zst\",\"t\":{t}}}"),
                _ => format!("{{\"c\":\"other\",\"t\":{t},\"d\":{}}}", esc(&format!("{:?}", tc))),
            },
            k => format!("{{\"c\":\"other\",\"t\":{t},\"d\":{}}}", esc(&format!("{:?}", k))),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{i},{t}]") }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, pr.join(","))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("{{\"o\":\"rt\",\"r\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("{{\"r\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("{{\"r\":\"ref\",\"p\":{}}}", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("{{\"r\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{t}}}", esc(&format!("{:?}", k)), self.operand(o)) }
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
            Rvalue::Len(p) => format!("{{\"r\":\"len\",\"p\":{}}}", self.place(p)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Aggregate(k, os) => {
                let os: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{t}]") }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, uf) => { let t = self.ty(d.ty_with_args(args)); format!("[\"adt\",{t},{},{}]", v.to_index(), uf.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, args) => { let t = self.ty(Ty::new_closure(*d, args.clone())); format!("[\"closure\",{t}]") }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"rawptr\",{t}]") }
                    _ => "[\"other\"]".into(),
                };
                format!("{{\"r\":\"agg\",\"k\":{kk},\"os\":[{}]}}", os.join(","))
            }
            Rvalue::ThreadLocalRef(_) => "{\"r\":\"tls\"}".into(),
        }
    }
    fn line(&self, s: Span) -> usize { s.get_lines().start_line }
    fn body(&mut self, inst: Instance, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(format!("[\"=\",{},{},{line}]", self.place(p), self.rvalue(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("[\"sd\",{},{},{line}]", self.place(place), variant_index.to_index())),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => ss.push(format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("{{\"t\":\"goto\",\"b\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => format!("{{\"t\":\"switch\",\"d\":{},\"br\":{},\"else\":{},\"line\":{line}}}", self.operand(discr), list(targets.branches(), |(v, b)| format!("[{v},{b}]")), targets.otherwise()),
                TerminatorKind::Resume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Abort => "{\"t\":\"abort\"}".into(),
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let _ = place;
                    format!("{{\"t\":\"drop\",\"p\":{},\"b\":{target}}}", self.place(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(b.locals()).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => self.callee(d, &a).1,
                        _ => format!("{{\"id\":null,\"kind\":\"indirect\",\"name\":\"?\",\"path\":\"?\",\"op\":{},\"targs\":[]}}", self.operand(func)),
                    };
                    let args: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    format!("{{\"t\":\"call\",\"f\":{f},\"a\":[{}],\"d\":{},\"b\":{},\"line\":{line}}}", args.join(","), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck{..} => "bounds".to_string(), m => m.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", m)) };
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{expected},\"b\":{target},\"m\":{},\"line\":{line}}}", self.operand(cond), esc(&m))
                }
                TerminatorKind::InlineAsm { .. } => "{\"t\":\"asm\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{ts}}}", ss.join(",")));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local, esc(&v.name))); }
            }
        }
        let targs: Vec<String> = inst.args().0.iter().filter_map(|a| match a {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
            _ => None }).collect();
        format!("{{\"id\":{},\"name\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"targs\":[{}],\"file\":{},\"line\":{},\"blocks\":[{}]}}",
            esc(&inst.mangled_name()), esc(&inst.name()), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            locals.join(","), names.join(","), targs.join(","), esc(&b.span.get_filename()), self.line(b.span), blocks.join(",\n"))
    }
}

fn want(cx: &Cx, i: &Instance) -> bool {
    let def: rustc_public::DefId = i.def.def_id();
    let krate = { let n = def.name(); n.split("::").next().unwrap_or("").trim_start_matches('<').to_string() };
    let _ = krate;
    let kn = i.def.krate().name;
    if kn == cx.local_crate { return true; }
    if kn == "posidonius" || kn == "math" || kn == "serde_big_array" || kn == "bincode" || kn == "serde" || kn == "serde_core" { return true; }
    if kn == "core" || kn == "alloc" || kn == "std" {
        let n = def.name();
        for bad in ["fmt::", "::fmt", "panicking", "std::io", "std::fs", "std::path", "std::sys", "std::thread", "std::env", "alloc::raw_vec", "core::str", "alloc::str", "std::time",
                    "core::num::flt2dec", "core::num::dec2flt", "core::unicode", "std::hash", "core::hash", "std::backtrace", "std::sync", "std::ffi", "core::ffi", "std::process", "core::sync", "alloc::alloc", "std::alloc", "hashbrown", "std::rt", "core::slice::sort", "core::alloc", "core::char"] {
            if n.contains(bad) { return false; }
        }
        return true;
    }
    false
}

fn export(out: String) -> ControlFlow<(), ()> {
    let lc = rustc_public::local_crate();
    let mut cx = Cx { tys: HashMap::new(), ty_out: vec![], queue: VecDeque::new(), seen: HashSet::new(), allocs: HashMap::new(), alloc_ids: HashMap::new(), local_crate: lc.name.to_string() };
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    let mut generic = vec![];
    let mut consts = vec![];
    for it in items {
        match it.kind() {
            rustc_public::ItemKind::Fn => match Instance::try_from(it) {
                Ok(i) => cx.enqueue(i),
                Err(_) => generic.push(it.name()),
            },
            rustc_public::ItemKind::Const => {
                if let Ok(i) = Instance::try_from(it) {
                    let t = it.ty();
                    if let Ok(a) = i.try_const_eval(t) {
                        let ti = cx.ty(t);
                        let a = cx.alloc(&a);
                        consts.push(format!("{{\"name\":{},\"v\":{{\"c\":\"alloc\",\"t\":{ti},\"a\":{a}}}}}", esc(&it.name())));
                    }
                }
            }
            _ => {}
        }
    }
    let mut fns = vec![];
    let mut nobody = vec![];
    while let Some(i) = cx.queue.pop_front() {
        if i.kind == InstanceKind::Intrinsic || i.kind == InstanceKind::LlvmIntrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) { continue; }
        if !want(&cx, &i) { nobody.push(esc(&i.name())); continue; }
        if i.kind == InstanceKind::Shim && i.is_empty_shim() { continue; }
        if !i.has_body() && i.kind == InstanceKind::Item { nobody.push(esc(&i.name())); continue; }
        if let Some(b) = i.body() {
            let s = cx.body(i, &b);
            fns.push(s);
        } else { nobody.push(esc(&i.name())); }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\n\"types\":[{}],\n\"consts\":[{}],\n\"generic\":{},\n\"fns\":[{}],\n\"nobody\":[{}],\n\"allocs\":{{{}}}}}\n", esc(&lc.name), cx.ty_out.join(",\n"), consts.join(",\n"),
        list(generic, |g| esc(&g)), fns.join(",\n"), nobody.join(","), { let mut v: Vec<_> = cx.allocs.iter().collect(); v.sort(); v.iter().map(|(k, s)| format!("\"{k}\":{s}")).collect::<Vec<_>>().join(",\n") });
    std::fs::write(&out, o).expect("mirx: cannot write output");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER protocol: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    let is_target = |name: &str| args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == name);
    let krate_type_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let out_dir = std::env::var("MIRX_OUT").unwrap_or_default();
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    if !out_dir.is_empty() && primary && is_target("posidonius") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let out = format!("{}/{}.json", out_dir, if krate_type_bin { "bin" } else { "lib" });
        let r = rustc_public::run!(&args, || export(out));
        match r { Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => std::process::exit(0), Err(_) => std::process::exit(1) }
    }
    let mut cmd = std::process::Command::new(std::env::var("MIRX_RUSTC").unwrap_or("rustc".into()));
    cmd.args(&args[1..]);
    cmd.arg("-Zalways-encode-mir");
    let st = cmd.status().expect("rustc");
    std::process::exit(st.code().unwrap_or(1));
}
