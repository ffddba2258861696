//! Compiler driver: behaves exactly like rustc, and additionally, for the crate named in
//! MIRDUMP_CRATE, writes the monomorphised and trait-resolved MIR of every function reachable from
//! that crate's public functions to MIRDUMP_OUT as JSON.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Dumper {
    stops: Vec<String>,
    instances: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    types_seen: HashSet<usize>,
    type_queue: VecDeque<Ty>,
    types: Map<String, Value>,
    allocs: Map<String, Value>,
    alloc_queue: VecDeque<AllocId>,
    allocs_seen: HashSet<AllocId>,
}

fn ty_id(ty: Ty) -> usize {
    serde_json::to_value(ty).unwrap().as_u64().unwrap() as usize
}

impl Dumper {
    fn instance(&mut self, instance: Instance) -> usize {
        if let Some(id) = self.instances.get(&instance) {
            return *id;
        }
        let id = self.instances.len();
        self.instances.insert(instance, id);
        self.queue.push_back((id, instance));
        id
    }

    fn ty(&mut self, ty: Ty) -> usize {
        let id = ty_id(ty);
        if self.types_seen.insert(id) {
            self.type_queue.push_back(ty);
        }
        id
    }

    fn generic_args(&mut self, args: &GenericArgs) -> Value {
        Value::Array(
            args.0
                .iter()
                .map(|arg| match arg {
                    GenericArgKind::Lifetime(_) => Value::Null,
                    GenericArgKind::Type(ty) => json!({"ty": self.ty(*ty)}),
                    GenericArgKind::Const(c) => {
                        json!({"const": c.eval_target_usize().ok()})
                    }
                })
                .collect(),
        )
    }

    fn allocation(&mut self, allocation: &Allocation) {
        for (_, prov) in &allocation.provenance.ptrs {
            if self.allocs_seen.insert(prov.0) {
                self.alloc_queue.push_back(prov.0);
            }
        }
    }

    fn drain_types(&mut self) {
        while let Some(ty) = self.type_queue.pop_front() {
            let id = ty_id(ty);
            let value = self.describe_ty(ty);
            self.types.insert(id.to_string(), value);
        }
    }

    fn describe_ty(&mut self, ty: Ty) -> Value {
        let mut value = match ty.kind() {
            TyKind::RigidTy(rigid) => match rigid {
                RigidTy::Bool => json!({"k": "bool"}),
                RigidTy::Char => json!({"k": "char"}),
                RigidTy::Int(int) => json!({"k": "int", "signed": true, "bits": int.num_bytes() * 8}),
                RigidTy::Uint(int) => json!({"k": "int", "signed": false, "bits": int.num_bytes() * 8}),
                RigidTy::Float(float) => json!({"k": "float", "w": format!("{float:?}")}),
                RigidTy::Adt(def, args) => {
                    let variants: Vec<Value> = def
                        .variants()
                        .iter()
                        .map(|variant| {
                            let fields: Vec<Value> = variant
                                .fields()
                                .iter()
                                .map(|field| {
                                    json!({"name": field.name.to_string(), "ty": self.ty(field.ty_with_args(&args))})
                                })
                                .collect();
                            let discr = if def.kind() == AdtKind::Enum {
                                Some(def.discriminant_for_variant(variant.idx()).val.to_string())
                            } else {
                                None
                            };
                            json!({"name": variant.name().to_string(), "fields": fields, "discr": discr})
                        })
                        .collect();
                    json!({
                        "k": "adt", "kind": format!("{:?}", def.kind()), "name": def.name().to_string(),
                        "args": self.generic_args(&args), "variants": variants,
                        "box": def.is_box(),
                    })
                }
                RigidTy::Str => json!({"k": "str"}),
                RigidTy::Array(elem, len) => {
                    json!({"k": "array", "elem": self.ty(elem), "len": len.eval_target_usize().ok()})
                }
                RigidTy::Slice(elem) => json!({"k": "slice", "elem": self.ty(elem)}),
                RigidTy::RawPtr(to, _) => json!({"k": "ptr", "to": self.ty(to)}),
                RigidTy::Ref(_, to, m) => {
                    json!({"k": "ref", "to": self.ty(to), "mut": m == Mutability::Mut})
                }
                RigidTy::FnDef(def, args) => {
                    let instance = Instance::resolve(def, &args).ok();
                    json!({
                        "k": "fndef", "name": def.name().to_string(), "args": self.generic_args(&args),
                        "inst": instance.map(|i| self.instance(i)),
                    })
                }
                RigidTy::FnPtr(_) => json!({"k": "fnptr"}),
                RigidTy::Closure(def, args) => {
                    let upvars = args.0.last().and_then(|a| a.ty().copied());
                    let fields: Vec<usize> = match upvars.map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(tys))) => tys.iter().map(|t| self.ty(*t)).collect(),
                        _ => vec![],
                    };
                    let kind_ty = args.0.len().checked_sub(3).and_then(|i| args.0[i].ty().copied());
                    let kind = match kind_ty.map(|t| format!("{t}")).as_deref() {
                        Some("i8") => Some(ClosureKind::Fn),
                        Some("i16") => Some(ClosureKind::FnMut),
                        Some("i32") => Some(ClosureKind::FnOnce),
                        _ => None,
                    };
                    let kind_name = kind.as_ref().map(|k| format!("{k:?}"));
                    let instance = kind.and_then(|k| Instance::resolve_closure(def, &args, k).ok());
                    json!({
                        "k": "closure", "name": def.name().to_string(), "upvars": fields, "ckind": kind_name,
                        "inst": instance.map(|i| self.instance(i)),
                    })
                }
                RigidTy::Never => json!({"k": "never"}),
                RigidTy::Tuple(tys) => {
                    json!({"k": "tuple", "fields": tys.iter().map(|t| self.ty(*t)).collect::<Vec<_>>()})
                }
                RigidTy::Dynamic(..) => json!({"k": "dyn"}),
                RigidTy::Pat(inner, _) => json!({"k": "pat", "inner": self.ty(inner)}),
                other => json!({"k": "other", "debug": format!("{other:?}")}),
            },
            other => json!({"k": "other", "debug": format!("{other:?}")}),
        };
        let object = value.as_object_mut().unwrap();
        object.insert("str".into(), json!(format!("{}", ty)));
        if let Ok(layout) = ty.layout() {
            let shape = layout.shape();
            object.insert("size".into(), json!(shape.size.bytes()));
            object.insert("layout_fields".into(), serde_json::to_value(&shape.fields).unwrap());
            object.insert("layout_variants".into(), serde_json::to_value(&shape.variants).unwrap());
        }
        value
    }

    fn drain_allocs(&mut self) {
        while let Some(id) = self.alloc_queue.pop_front() {
            let value = match GlobalAlloc::from(id) {
                GlobalAlloc::Memory(allocation) => {
                    self.allocation(&allocation);
                    json!({"memory": serde_json::to_value(&allocation).unwrap()})
                }
                GlobalAlloc::Function(instance) => json!({"fn": self.instance(instance)}),
                GlobalAlloc::Static(def) => {
                    let ty = self.ty(def.ty());
                    let init = def.eval_initializer().ok();
                    if let Some(init) = &init {
                        self.allocation(init);
                    }
                    json!({"static": def.name().to_string(), "ty": ty, "init": init.map(|i| serde_json::to_value(&i).unwrap())})
                }
                other => json!({"other": format!("{other:?}")}),
            };
            let key = serde_json::to_value(id).unwrap().to_string();
            self.allocs.insert(key, value);
        }
    }

    fn stopped(&self, name: &str) -> bool {
        self.stops.iter().any(|s| name.starts_with(s.as_str()))
    }
}

struct Collector<'a> {
    dumper: &'a mut Dumper,
}

impl MirVisitor for Collector<'_> {
    fn visit_ty(&mut self, ty: &Ty, _: Location) {
        self.dumper.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, constant: &MirConst, location: Location) {
        self.dumper.ty(constant.ty());
        if let ConstantKind::Allocated(allocation) = constant.kind() {
            self.dumper.allocation(allocation);
        }
        self.super_mir_const(constant, location);
    }
}

fn span_string(span: &Span) -> String {
    span.diagnostic()
}

fn dump() -> ControlFlow<()> {
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let krate = rustc_public::local_crate();
    if krate.name.to_string() != target {
        return ControlFlow::Continue(());
    }
    let stops = std::env::var("MIRDUMP_STOPS")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut d = Dumper {
        stops,
        instances: HashMap::new(),
        queue: VecDeque::new(),
        types_seen: HashSet::new(),
        type_queue: VecDeque::new(),
        types: Map::new(),
        allocs: Map::new(),
        alloc_queue: VecDeque::new(),
        allocs_seen: HashSet::new(),
    };
    let mut roots = Map::new();
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(instance) = Instance::try_from(item) {
            let id = d.instance(instance);
            roots.insert(item.name().to_string(), json!(id));
        }
    }
    let mut fns = Map::new();
    loop {
        d.drain_types();
        d.drain_allocs();
        let Some((id, instance)) = d.queue.pop_front() else {
            if d.type_queue.is_empty() && d.alloc_queue.is_empty() {
                break;
            }
            continue;
        };
        let name = instance.name().to_string();
        let def_name = instance.def.name().to_string();
        let args = d.generic_args(&instance.args());
        let mut record = json!({
            "name": name, "def": def_name, "args": args,
            "kind": format!("{:?}", instance.kind),
            "intrinsic": instance.intrinsic_name().map(|n| n.to_string()),
        });
        let stop = d.stopped(&def_name) || d.stopped(&name) || instance.kind == InstanceKind::Intrinsic;
        let virt = matches!(instance.kind, InstanceKind::Virtual { .. });
        if !stop && !virt && (instance.kind == InstanceKind::Shim || instance.has_body()) {
            if let Some(body) = instance.body() {
                let mut collector = Collector { dumper: &mut d };
                collector.visit_body(&body);
                let mut value = serde_json::to_value(&body).unwrap();
                let spans: Vec<Value> = body
                    .blocks
                    .iter()
                    .map(|b| json!(span_string(&b.terminator.source_info.span)))
                    .collect();
                let object = value.as_object_mut().unwrap();
                object.insert("spans".into(), Value::Array(spans));
                object.insert("span".into(), json!(span_string(&body.span)));
                record.as_object_mut().unwrap().insert("body".into(), value);
            }
        }
        fns.insert(id.to_string(), record);
    }
    let out = json!({"fns": fns, "types": d.types, "allocs": d.allocs, "roots": roots});
    let path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(path, serde_json::to_string(&out).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // Used as RUSTC_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    let rustc = args.remove(1);
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if !args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target) {
        let status = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let result = run!(&args, dump);
    if let Err(e) = result {
        eprintln!("mirdump: {e:?}");
        std::process::exit(1)
    }
}
