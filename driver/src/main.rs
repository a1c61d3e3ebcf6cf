//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles the crate exactly as cargo asks, and writes the
//! monomorphic MIR of every function of the crate (and of a whitelist of small std functions it
//! calls) to $MIRDUMP_OUT as JSON. Nothing is dropped: every block, statement and terminator of a
//! dumped body is in the output.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, ConstOperand, ProjectionElem};
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::ops::ControlFlow;

const WHITELIST: &[&str] = &[
    "std::option::Option", "core::option::Option", "std::result::Result", "core::result::Result",
    "std::cmp::", "core::cmp::", "std::mem::replace", "std::mem::take", "std::mem::swap",
    "std::convert::", "core::convert::", "std::ops::", "core::ops::", "core::bool::", "std::bool::",
    "std::clone::", "core::clone::", "std::tuple::", "core::tuple::", "std::default::",
    "std::borrow::", "std::array::", "std::iter::", "core::iter::",
];

#[derive(Default)]
struct Cx {
    types: BTreeMap<usize, Value>,
    tyq: VecDeque<Ty>,
    fns: BTreeMap<String, Value>,
    seen: HashSet<String>,
    work: VecDeque<Instance>,
    consts: BTreeMap<usize, Value>,
}

fn idx(t: &Ty) -> usize { serde_json::to_value(t).unwrap().as_u64().unwrap() as usize }

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        let i = idx(&t);
        if !self.types.contains_key(&i) {
            self.types.insert(i, Value::Null);
            self.tyq.push_back(t);
        }
        i
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for k in a.0.iter() {
            match k {
                GenericArgKind::Type(t) => { let i = self.ty(*t); v.push(json!(i)) }
                GenericArgKind::Const(c) => v.push(json!({"const": format!("{:?}", c.eval_target_usize().ok())})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        Value::Array(v)
    }
    fn inst(&mut self, i: Instance) -> Value {
        let key = i.mangled_name();
        let name = i.name();
        let intr = i.intrinsic_name();
        let defname = CrateDef::name(&i.def);
        let a = { let a = i.args(); self.args(&a) };
        if self.seen.insert(key.clone()) { self.work.push_back(i); }
        json!({"key": key, "name": name, "def": defname, "kind": format!("{:?}", i.kind), "intrinsic": intr, "args": a})
    }
    fn dump_ty(&mut self, t: Ty) -> Value {
        let k = match t.kind() { TyKind::RigidTy(r) => r, other => return json!({"k": "other", "s": format!("{:?}", other)}) };
        let s = format!("{}", t);
        match k {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","n":format!("{:?}", i)}),
            RigidTy::Uint(i) => json!({"k":"uint","n":format!("{:?}", i)}),
            RigidTy::Float(i) => json!({"k":"float","n":format!("{:?}", i)}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Slice(t) => { let i = self.ty(t); json!({"k":"slice","t":i}) }
            RigidTy::Array(t, c) => { let i = self.ty(t); json!({"k":"array","t":i,"len":c.eval_target_usize().ok()}) }
            RigidTy::Ref(_, t, m) => { let i = self.ty(t); json!({"k":"ref","t":i,"mut": format!("{:?}", m) == "Mut"}) }
            RigidTy::RawPtr(t, m) => { let i = self.ty(t); json!({"k":"ptr","t":i,"mut": format!("{:?}", m) == "Mut"}) }
            RigidTy::Tuple(ts) => { let v: Vec<_> = ts.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","ts":v}) }
            RigidTy::Adt(d, a) => {
                let args = self.args(&a);
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        let i = self.ty(ft);
                        fs.push(json!({"name": f.name, "ty": i}));
                    }
                    let disc = if matches!(d.kind(), AdtKind::Enum) { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".to_string() };
                    vs.push(json!({"name": v.name(), "fields": fs, "disc": disc}));
                }
                json!({"k":"adt","name":CrateDef::name(&d),"s":s,"args":args,"kind":format!("{:?}", d.kind()),"variants":vs,"local":d.krate().is_local})
            }
            RigidTy::FnDef(d, a) => {
                let args = self.args(&a);
                let r = Instance::resolve(d, &a).ok().map(|i| self.inst(i));
                json!({"k":"fndef","def":CrateDef::name(&d),"args":args,"inst":r})
            }
            RigidTy::Closure(d, a) => {
                let args = self.args(&a);
                let r = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                let rr = Instance::resolve_closure(d, &a, ClosureKind::FnMut).ok();
                let rf = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok();
                let r = r.map(|i| self.inst(i)); let rr = rr.map(|i| self.inst(i)); let rf = rf.map(|i| self.inst(i));
                json!({"k":"closure","def":CrateDef::name(&d),"args":args,"once":r,"mut":rr,"fn":rf})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","s":s}),
            RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
            _ => json!({"k":"other","s":s}),
        }
    }
    fn alloc(&self, a: &Allocation, t: Ty, depth: usize) -> Value {
        let bytes: Vec<Option<u8>> = a.bytes.clone();
        let raw: Vec<u8> = bytes.iter().map(|b| b.unwrap_or(0)).collect();
        let mut o = Map::new();
        o.insert("bytes".into(), json!(raw));
        let mut ps = vec![];
        for (off, p) in a.provenance.ptrs.iter() {
            let g = GlobalAlloc::from(p.0);
            let v = match g {
                GlobalAlloc::Memory(m) => {
                    if depth < 4 { self.alloc(&m, t, depth + 1) } else { Value::Null }
                }
                GlobalAlloc::Function(i) => json!({"fn": i.name(), "key": i.mangled_name()}),
                GlobalAlloc::Static(s) => json!({"static": CrateDef::name(&s)}),
                _ => Value::Null,
            };
            ps.push(json!({"off": off, "to": v}));
        }
        if !ps.is_empty() { o.insert("ptrs".into(), Value::Array(ps)); }
        Value::Object(o)
    }
}

struct V<'a> { cx: &'a mut Cx }
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _: Location) { self.cx.ty(*ty); }
    fn visit_projection_elem(&mut self, ptx: rustc_public::mir::visit::PlaceRef<'_>, elem: &ProjectionElem, c: rustc_public::mir::visit::PlaceContext, l: Location) {
        if let ProjectionElem::Field(_, t) = elem { self.cx.ty(*t); }
        let _ = ptx; self.super_projection_elem(elem, c, l)
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        let t = c.const_.ty();
        let i = self.cx.ty(t);
        let id = serde_json::to_value(&c.const_.id).unwrap().as_u64().unwrap() as usize;
        if !self.cx.consts.contains_key(&id) {
            let v = match c.const_.kind() {
                ConstantKind::Allocated(a) => self.cx.alloc(a, t, 0),
                ConstantKind::ZeroSized => json!({"zst": true}),
                ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(n) => json!({"usize": n}), Err(_) => json!({"other": format!("{:?}", tc)}) },
                k => json!({"other": format!("{:?}", k)}),
            };
            self.cx.consts.insert(id, json!({"ty": i, "v": v}));
        }
        self.super_const_operand(c, l)
    }
}

fn slim(v: &mut Value) {
    // constants are in the `consts` table: keep their id and type only; spans go through line info
    match v {
        Value::Object(m) => {
            if m.contains_key("const_") {
                let c = m.get("const_").unwrap();
                let r = json!({"id": c["id"], "ty": c["ty"]});
                m.insert("const_".into(), r);
                m.remove("user_ty");
            }
            for (_, x) in m.iter_mut() { slim(x) }
        }
        Value::Array(a) => for x in a { slim(x) },
        _ => {}
    }
}

fn span_str(s: &rustc_public::ty::Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

fn dump_body(cx: &mut Cx, b: &Body) -> Value {
    { let mut v = V { cx }; v.visit_body(b); }
    let locals: Vec<_> = b.locals().iter().map(|l| cx.ty(l.ty)).collect();
    let mut blocks = vec![];
    for bb in &b.blocks {
        let mut sts = vec![];
        for s in &bb.statements {
            let mut k = serde_json::to_value(&s.kind).unwrap();
            slim(&mut k);
            sts.push(k);
        }
        let mut t = serde_json::to_value(&bb.terminator.kind).unwrap();
        slim(&mut t);
        blocks.push(json!({"st": sts, "t": t, "line": span_str(&bb.terminator.source_info.span)}));
    }
    let mut dbg = vec![];
    for d in &b.var_debug_info {
        dbg.push(json!({"name": d.name, "local": d.local()}));
    }
    json!({"locals": locals, "argc": b.arg_locals().len(), "spread": b.spread_arg(), "blocks": blocks, "dbg": dbg, "span": span_str(&b.span)})
}

fn go() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let mut cx = Cx::default();
    let mut items = vec![];
    let mut skipped = BTreeSet::new();
    for it in all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) { continue; }
        if it.requires_monomorphization() { skipped.insert(it.name()); continue; }
        if let Ok(i) = Instance::try_from(it) {
            let v = cx.inst(i);
            items.push(v);
        }
    }
    loop {
        if let Some(t) = cx.tyq.pop_front() {
            let v = cx.dump_ty(t);
            cx.types.insert(idx(&t), v);
            continue;
        }
        if let Some(i) = cx.work.pop_front() {
            let key = i.mangled_name();
            let name = i.name();
            let defname = CrateDef::name(&i.def);
            let local = i.def.krate().is_local;
            let args = { let a = i.args(); cx.args(&a) };
            let want = local || WHITELIST.iter().any(|w| defname.starts_with(w) || name.starts_with(&format!("<{}", w)));
            let has = i.has_body();
            let mut body = Value::Null;
            if want && has && !matches!(i.kind, rustc_public::mir::mono::InstanceKind::Virtual { .. }) {
                if let Some(b) = i.body() { body = dump_body(&mut cx, &b); }
            }
            cx.fns.insert(key, json!({"name": name, "def": defname, "local": local, "kind": format!("{:?}", i.kind), "args": args, "body": body,
                "krate": i.def.krate().name}));
            continue;
        }
        break;
    }
    let v = json!({"types": cx.types, "fns": cx.fns, "consts": cx.consts, "items": items, "generic_local": skipped});
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // cargo calls us as: mirdump rustc <args>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) { args.remove(1); }
    let code = rustc_driver::catch_with_exit_code(|| {
        let _ = run!(&args, go);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
