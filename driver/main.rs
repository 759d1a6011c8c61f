// MIR dumper for the blend-contracts static analysis.
//
// Used as RUSTC_WRAPPER.  For the crates named in BLEND_DUMP_CRATES it runs the
// real compiler front end (rustc_public) and, after analysis, writes every
// monomorphic body reachable from the crate's own functions as JSON to
// $BLEND_DUMP_DIR/<crate>.json.  Callees are resolved by the compiler
// (Instance::resolve), never by text.  All other crates are compiled unchanged.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::FieldsShape;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
#[allow(unused_imports)]
use std::ops::ControlFlow;
use rustc_public_bridge::IndexedVal;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T, F: FnMut(&T) -> String>(v: &[T], mut f: F) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Cx {
    types: Vec<String>,
    tyids: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<Instance>,
}

/// size and field offsets, to read constants out of their memory
fn layout(t: Ty) -> String {
    let Ok(l) = t.layout() else { return String::new() };
    let sh = l.shape();
    let mut r = format!(",\"sz\":{}", sh.size.bytes());
    if let FieldsShape::Arbitrary { offsets } = &sh.fields {
        let o = list(offsets, |o| o.bytes().to_string());
        let _ = write!(r, ",\"off\":{}", o);
    }
    r
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tyids.insert(t, id);
        let s = format!("{}", t);
        let d = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Ref(_, t, m) => {
                    format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m == Mutability::Mut, self.ty(t))
                }
                RigidTy::RawPtr(t, _) => format!("\"k\":\"ptr\",\"t\":{}", self.ty(t)),
                RigidTy::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
                RigidTy::Array(t, _) => format!("\"k\":\"array\",\"t\":{}", self.ty(t)),
                RigidTy::Tuple(ts) => {
                    let l = list(&ts, |t| self.ty(*t).to_string());
                    format!("\"k\":\"tuple\",\"ts\":{}", l)
                }
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Closure(def, args) => {
                    let _ = args;
                    format!("\"k\":\"closure\",\"def\":{}", js(&def.name()))
                }
                RigidTy::FnDef(def, args) => {
                    let c = self.callee(def, &args);
                    format!("\"k\":\"fndef\",\"c\":{}", c)
                }
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = String::from("[");
                    for (i, v) in def.variants_iter().enumerate() {
                        if i > 0 {
                            vs.push(',');
                        }
                        let fs = v.fields();
                        let fl = list(&fs, |f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", js(&f.name.to_string()), self.ty(ft))
                        });
                        let disc = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let _ = write!(vs, "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", js(&v.name()), disc, fl);
                    }
                    vs.push(']');
                    let targs: Vec<Ty> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(*t),
                            _ => None,
                        })
                        .collect();
                    let ta = list(&targs, |t| self.ty(*t).to_string());
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{}\",\"n\":{},\"v\":{},\"a\":{}",
                        k,
                        js(&def.name()),
                        vs,
                        ta
                    )
                }
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        let ly = match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Array(..)) => layout(t),
            _ => String::new(),
        };
        self.types[id] = format!("{{{}{},\"s\":{}}}", d, ly, js(&s));
        id
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> String {
        let targs: Vec<Ty> = args
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
            .collect();
        let ta = list(&targs, |t| self.ty(*t).to_string());
        let mut o = format!("{{\"def\":{},\"targs\":{}", js(&def.name()), ta);
        match Instance::resolve(def, args) {
            Ok(inst) => {
                let kind = match inst.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                    _ => "other",
                };
                let _ = write!(
                    o,
                    ",\"kind\":\"{}\",\"rname\":{},\"krate\":{}",
                    kind,
                    js(&inst.trimmed_name()),
                    js(&inst.def.krate().name)
                );
                let is_closure = format!("{:?}", inst.def.name()).contains("{closure#");
                if is_closure {
                    o.push_str(",\"closure\":true");
                }
                let _ = write!(o, ",\"inst\":{}", js(&key(&inst)));
                self.push(inst);
            }
            Err(_) => o.push_str(",\"kind\":\"unresolved\""),
        }
        o.push('}');
        o
    }

    fn push(&mut self, inst: Instance) {
        if self.seen.contains(&inst) {
            return;
        }
        self.seen.insert(inst);
        let k = inst.def.krate();
        let n = inst.def.name();
        let take = k.is_local || k.name == "core" || k.name == "alloc" || k.name == "std" || k.name == "cast" ;
        if !take {
            return;
        }
        // formatting machinery and panics are never analysed
        for p in ["core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "alloc::alloc", "std::io"] {
            if n.starts_with(p) {
                return;
            }
        }
        self.queue.push_back(inst);
    }

    fn constant(&mut self, c: &ConstOperand) -> String {
        self.mirconst(&c.const_)
    }
    fn mirconst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => "\"zst\":true".to_string(),
            ConstantKind::Allocated(a) => self.alloc(a, t),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("\"int\":\"{}\"", v),
                Err(_) => "\"unk\":true".to_string(),
            },
            ConstantKind::Unevaluated(_) => match c.eval_target_usize() {
                Ok(v) => format!("\"int\":\"{}\"", v),
                Err(_) => format!("\"unk\":true,\"txt\":{}", js(&format!("{:?}", c))),
            },
            _ => "\"unk\":true".to_string(),
        };
        format!("{{\"ty\":{},{}}}", tid, v)
    }
    fn alloc(&mut self, a: &Allocation, t: Ty) -> String {
        let kind = t.kind();
        let prov = &a.provenance.ptrs;
        if prov.is_empty() {
            if let TyKind::RigidTy(r) = &kind {
                match r {
                    RigidTy::Int(_) => {
                        if let Ok(v) = a.read_int() {
                            return format!("\"int\":\"{}\"", v);
                        }
                    }
                    RigidTy::Uint(_) | RigidTy::Char => {
                        if let Ok(v) = a.read_uint() {
                            return format!("\"int\":\"{}\"", v);
                        }
                    }
                    RigidTy::Bool => {
                        if let Ok(v) = a.read_bool() {
                            return format!("\"bool\":{}", v);
                        }
                    }
                    _ => {}
                }
            }
            let hex: String = a
                .bytes
                .iter()
                .map(|b| match b {
                    Some(b) => format!("{:02x}", b),
                    None => "__".into(),
                })
                .collect();
            return format!("\"bytes\":\"{}\"", hex);
        }
        // a reference to memory: follow one level
        let (off, pr) = &prov[0];
        let raw: Vec<u8> = a.bytes.iter().map(|b| b.unwrap_or(0)).collect();
        let target = GlobalAlloc::from(pr.0);
        if let GlobalAlloc::Memory(m) = target {
            if prov.len() == 1 && *off == 0 {
                if let TyKind::RigidTy(RigidTy::Ref(_, inner, _)) = &kind {
                    if matches!(inner.kind(), TyKind::RigidTy(RigidTy::Str)) {
                        let start = u64::from_le_bytes(raw[0..8].try_into().unwrap()) as usize;
                        let len = u64::from_le_bytes(raw[8..16].try_into().unwrap()) as usize;
                        let b: Vec<u8> = m.bytes.iter().map(|b| b.unwrap_or(0)).collect();
                        let s = String::from_utf8_lossy(&b[start..start + len]).to_string();
                        return format!("\"str\":{}", js(&s));
                    }
                    let it = self.ty(*inner);
                    let v = self.alloc(&m, *inner);
                    return format!("\"ref\":{{\"ty\":{},{}}}", it, v);
                }
            }
            let hex: String = m
                .bytes
                .iter()
                .map(|b| match b {
                    Some(b) => format!("{:02x}", b),
                    None => "__".into(),
                })
                .collect();
            return format!("\"mem\":\"{}\"", hex);
        }
        format!("\"unk\":true,\"txt\":{}", js(&format!("{:?}", target)))
    }

    fn place(&mut self, p: &Place) -> String {
        let pj = list(&p.projection, |e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                format!("[\"c\",{},{}]", offset, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"s\",{},{},{}]", from, to, from_end)
            }
            _ => "[\"o\"]".to_string(),
        });
        format!("[{},{}]", p.local, pj)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) | Operand::Move(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.constant(c)),
            other => format!("{{\"rt\":{}}}", js(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{}]",
                js(&format!("{:?}", k)),
                self.operand(o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, a, b) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                op,
                self.operand(a),
                self.operand(b)
            ),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(
                "[\"cbin\",\"{:?}\",{},{}]",
                op,
                self.operand(a),
                self.operand(b)
            ),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match k {
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Adt(def, v, args, _, _) => {
                        let t = def.ty_with_args(args);
                        format!("[\"adt\",{},{}]", self.ty(t), v.to_index())
                    }
                    AggregateKind::Closure(def, _) => {
                        format!("[\"closure\",{}]", js(&def.name()))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops, |o| self.operand(o)))
            }
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(o)),
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, inst: &Instance, body: &Body) -> String {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"name\":{},\"tname\":{},\"krate\":{},\"local\":{},\"argc\":{}",
            js(&inst.def.name()),
            js(&inst.trimmed_name()),
            js(&inst.def.krate().name),
            inst.def.krate().is_local,
            body.arg_locals().len()
        );
        if let Some(s) = body.spread_arg() {
            let _ = write!(o, ",\"spread\":{}", s);
        }
        let sp = body.span;
        let _ = write!(o, ",\"file\":{},\"line\":{}", js(&sp.get_filename()), sp.get_lines().start_line);
        let ls: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
        let _ = write!(o, ",\"locals\":{}", list(&ls, |t| self.ty(*t).to_string()));
        let mut dbg = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push((v.name.to_string(), self.place(p)));
            }
        }
        let _ = write!(o, ",\"dbg\":{}", list(&dbg, |(n, p)| format!("[{},{}]", js(n), p)));
        o.push_str(",\"blocks\":[");
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let line = s.source_info.span.get_lines().start_line;
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "[\"sd\",{},{},{}]",
                        self.place(place),
                        variant_index.to_index(),
                        line
                    ),
                    StatementKind::Intrinsic(x) => format!("[\"intr\",{},{}]", js(&format!("{:?}", x)), line),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let ts = b.terminator.source_info.span;
            let line = ts.get_lines().start_line;
            let file = ts.get_filename();
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<(u128, usize)> = targets.branches().collect();
                    format!(
                        "[\"switch\",{},{},{}]",
                        self.operand(discr),
                        list(&br, |(v, t)| format!("[\"{}\",{}]", v, t)),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(def, ga)) => self.callee(def, &ga),
                            _ => "{\"kind\":\"dyn\"}".to_string(),
                        },
                        other => format!("{{\"kind\":\"dyn\",\"op\":{}}}", self.operand(other)),
                    };
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        list(args, |a| self.operand(a)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::Overflow(op, ..) => format!("Overflow:{:?}", op),
                        AssertMessage::OverflowNeg(_) => "Overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".into(),
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".into(),
                        _ => "Other".into(),
                    };
                    format!("[\"assert\",{},{},\"{}\",{}]", self.operand(cond), expected, m, target)
                }
                other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
            };
            let _ = write!(o, "{},\"l\":{},\"fl\":{}}}", t, line, js(&file));
        }
        o.push_str("]}");
        o
    }
}

fn key(i: &Instance) -> String {
    i.mangled_name()
}

fn dump(out: &str) {
    let mut cx = Cx { types: vec![], tyids: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new() };
    let mut roots = vec![];
    let mut generic = vec![];
    for item in all_local_items() {
        let n = item.name();
        if !matches!(item.kind(), ItemKind::Fn) {
            continue;
        }
        match Instance::try_from(item) {
            Ok(inst) => {
                roots.push(key(&inst));
                cx.push(inst);
            }
            Err(_) => generic.push(n),
        }
    }
    let mut fns: BTreeMap<String, String> = BTreeMap::new();
    while let Some(inst) = cx.queue.pop_front() {
        let k = key(&inst);
        if fns.contains_key(&k) {
            continue;
        }
        if let Some(b) = inst.body() {
            let s = cx.body(&inst, &b);
            fns.insert(k, s);
        }
    }
    let mut o = String::from("{\"roots\":");
    o.push_str(&list(&roots, |r| js(r)));
    o.push_str(",\"generic\":");
    o.push_str(&list(&generic, |r| js(r)));
    o.push_str(",\n\"types\":[\n");
    for (i, t) in cx.types.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        o.push_str(t);
    }
    o.push_str("],\n\"fns\":{\n");
    let mut first = true;
    for (k, v) in &fns {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str(&js(k));
        o.push(':');
        o.push_str(v);
    }
    o.push_str("\n}}\n");
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, out).expect("rename dump");
}

fn main() {
    // argv: [wrapper, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    let rustc = args.remove(1);
    let mut krate = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            krate = args[i + 1].clone();
        }
        i += 1;
    }
    let want = std::env::var("BLEND_DUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("BLEND_DUMP_DIR").unwrap_or_default();
    let is_target = want.split(',').any(|c| c == krate) && !dir.is_empty();
    if !is_target {
        let st = std::process::Command::new(&rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    for f in ["-Zmir-opt-level=0", "-Zinline-mir=no"] {
        args.push(f.to_string());
    }
    let out = format!("{}/{}.json", dir, krate);
    let r = run!(&args, || -> ControlFlow<()> {
        dump(&out);
        ControlFlow::Continue(())
    });
    match r {
        Ok(()) => {}
        Err(_) => std::process::exit(1),
    }
}
