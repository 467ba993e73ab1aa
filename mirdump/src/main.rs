//! rustc wrapper: exports the monomorphised MIR of the `webparse` crate (and of the
//! std/dependency functions it reaches, where their MIR is available) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate serde;
extern crate serde_json;

use rustc_middle::ty as ity;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::{
    AdtKind, Allocation, ClosureKind, ConstantKind, GenericArgKind, MirConst, RigidTy, Span, Ty,
    TyConstKind, TyKind,
};
use rustc_public::*;
use serde_json::{json, Map, Value};
use rustc_ast::attr::AttributeExt as _;
use std::collections::{HashMap, HashSet, VecDeque};

/// Path prefixes of external code whose bodies are exported (small combinators the analyser
/// inlines); every other external call is modelled or treated as unknown by the analyser.
const EXT_BODY: &[&str] = &[
    "std::option::Option", "std::result::Result", "<std::option::Option", "<std::result::Result",
    "<T as std::convert::", "<I as std::iter::IntoIterator", "std::cmp::", "std::mem::replace",
    "std::mem::take", "std::mem::swap", "std::convert::", "std::iter::", "<std::iter::", "std::ops::ControlFlow",
    "<std::ops::ControlFlow", "std::ops::function", "<std::ops::", "std::bool::", "core::bool::", "std::ops::",
    "<std::slice::Iter<", "<std::slice::IterMut<", "std::borrow::", "<std::borrow::", "<&A as std::cmp::", "<&mut A as std::cmp::",
    "<&u", "<&i", "<u8 as", "<u16 as", "<u32 as", "<u64 as", "<usize as", "<isize as", "<i32 as", "<std::num::Wrapping", "<&mut u", "<std::array::", "std::array::",
];

const EXT_HAS: &[&str] = &["::str::<impl str>::parse"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<u64, Value>,
    tyq: VecDeque<Ty>,
    seen_ty: HashSet<u64>,
    insts: Vec<Value>,
    inst_ix: HashMap<Instance, usize>,
    instq: VecDeque<(Instance, usize, u32)>,
    allocs: HashMap<u64, Value>,
    spans: HashMap<u64, Value>,
}

fn num<T: serde::Serialize>(t: &T) -> u64 {
    serde_json::to_value(t).unwrap().as_u64().unwrap()
}

fn alloc_num(a: &AllocId) -> u64 {
    serde_json::to_value(a).ok().and_then(|v| v.as_u64()).unwrap_or_else(|| {
        let s = format!("{:?}", a);
        s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
    })
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> u64 {
        let n = num(&t);
        if self.seen_ty.insert(n) {
            self.tyq.push_back(t);
        }
        n
    }

    fn span(&mut self, s: &Span) -> u64 {
        let n = num(s);
        if !self.spans.contains_key(&n) {
            let li = s.get_lines();
            self.spans.insert(n, json!([s.get_filename(), li.start_line, li.start_col, li.end_line]));
        }
        n
    }

    fn inst(&mut self, i: Instance, depth: u32) -> usize {
        if let Some(&n) = self.inst_ix.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.inst_ix.insert(i, n);
        self.insts.push(Value::Null);
        self.instq.push_back((i, n, depth));
        n
    }

    fn emit_ty(&mut self, t: Ty) {
        let n = num(&t);
        let kind = t.kind();
        let mut o = Map::new();
        o.insert("name".into(), json!(format!("{}", t)));
        if let Ok(l) = t.layout() {
            if let Ok(v) = serde_json::to_value(&l.shape()) {
                o.insert("layout".into(), v);
            }
        }
        let k: Value = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","n":format!("{:?}",i)}),
                RigidTy::Uint(i) => json!({"k":"uint","n":format!("{:?}",i)}),
                RigidTy::Float(_) => json!({"k":"float"}),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for (ix, v) in def.variants_iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(args);
                            fs.push(json!([f.name.to_string(), self.ty(ft)]));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            let d = def.discriminant_for_variant(v.idx());
                            json!(d.val.to_string())
                        } else {
                            Value::Null
                        };
                        let _ = ix;
                        vs.push(json!({"name": v.name(), "discr": d, "fields": fs}));
                    }
                    let mut targs = vec![];
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            targs.push(self.ty(*t));
                        }
                    }
                    json!({"k":"adt","path":def.name(),"local":def.krate().is_local,
                        "kind":format!("{:?}",def.kind()),"variants":vs,"args":targs})
                }
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Array(e, c) => {
                    let n = match c.kind() {
                        TyConstKind::Value(_, _) => c.eval_target_usize().ok(),
                        _ => c.eval_target_usize().ok(),
                    };
                    json!({"k":"array","elem":self.ty(*e),"len":n})
                }
                RigidTy::Pat(t, _) => json!({"k":"pat","elem":self.ty(*t)}),
                RigidTy::Slice(e) => json!({"k":"slice","elem":self.ty(*e)}),
                RigidTy::RawPtr(t, _) => json!({"k":"ptr","to":self.ty(*t)}),
                RigidTy::Ref(_, t, m) => {
                    json!({"k":"ref","to":self.ty(*t),"mut":*m==Mutability::Mut})
                }
                RigidTy::FnDef(def, args) => {
                    let r = Instance::resolve(*def, args).ok();
                    let p = Instance::resolve_for_fn_ptr(*def, args).ok();
                    let ri = r.map(|i| self.inst(i, 1));
                    let pi = p.map(|i| self.inst(i, 1));
                    json!({"k":"fndef","path":def.name(),"inst":ri,"ptr_inst":pi})
                }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(def, args) => {
                    let ity = rustc_public::rustc_internal::internal(self.tcx, t);
                    let mut up = vec![];
                    let mut kindn = String::new();
                    if let ity::TyKind::Closure(_, a) = ity.kind() {
                        kindn = format!("{:?}", a.as_closure().kind());
                        let tys: Vec<_> = a.as_closure().upvar_tys().iter().collect();
                        for u in tys {
                            let st: Ty = rustc_public::rustc_internal::stable(u);
                            up.push(self.ty(st));
                        }
                    }
                    let ck = match kindn.as_str() {
                        "Fn" => ClosureKind::Fn,
                        "FnMut" => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let r = Instance::resolve_closure(*def, args, ck).ok();
                    let ri = r.map(|i| self.inst(i, 1));
                    json!({"k":"closure","path":def.name(),"inst":ri,"upvars":up,"ckind":kindn})
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<u64> = ts.iter().map(|t| self.ty(*t)).collect();
                    json!({"k":"tuple","elems":v})
                }
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                _ => json!({"k":"other"}),
            },
            _ => json!({"k":"other"}),
        };
        if let Value::Object(m) = k {
            for (a, b) in m {
                o.insert(a, b);
            }
        }
        self.types.insert(n, Value::Object(o));
    }

    fn alloc_json(&mut self, a: &Allocation) -> Value {
        // bytes as hex; uninitialised as "__"
        let mut s = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => s.push_str(&format!("{:02x}", b)),
                None => s.push_str("__"),
            }
        }
        let mut ptrs = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = p.0;
            let n = alloc_num(&id);
            ptrs.push(json!([off, n]));
            self.global(id, n);
        }
        json!({"hex": s, "ptrs": ptrs})
    }

    fn global(&mut self, id: AllocId, n: u64) {
        if self.allocs.contains_key(&n) {
            return;
        }
        self.allocs.insert(n, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => json!({"k":"fn","inst":self.inst(i, 1)}),
            GlobalAlloc::VTable(t, _) => json!({"k":"vtable","ty":self.ty(t)}),
            GlobalAlloc::Static(s) => {
                let t = s.ty();
                let tid = self.ty(t);
                let a = s.eval_initializer().ok().map(|a| self.alloc_json(&a));
                json!({"k":"static","name":s.name(),"ty":tid,"init":a,"local":s.krate().is_local})
            }
            GlobalAlloc::Memory(a) => json!({"k":"mem","a":self.alloc_json(&a)}),
            GlobalAlloc::TypeId { ty } => json!({"k":"typeid","ty":self.ty(ty)}),
        };
        self.allocs.insert(n, v);
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => json!({"ty":t,"a":self.alloc_json(a)}),
            ConstantKind::ZeroSized => json!({"ty":t,"z":1}),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => {
                    let t2 = self.ty(*ty);
                    json!({"ty":t2,"a":self.alloc_json(a)})
                }
                TyConstKind::ZSTValue(_) => json!({"ty":t,"z":1}),
                _ => json!({"ty":t,"u":"tyconst"}),
            },
            _ => json!({"ty":t,"u":"unevaluated"}),
        }
    }

    fn place(&mut self, p: &Place) -> Value {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["c", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["s", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", num(v)]),
                ProjectionElem::OpaqueCast(t) => json!(["o", self.ty(*t)]),
            });
        }
        json!([p.local, pr])
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            _ => json!(["rt"]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.operand(o)]),
            Rvalue::Ref(_, k, p) => {
                json!(["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)])
            }
            Rvalue::AddressOf(_, p) => json!(["ref", true, self.place(p)]),
            Rvalue::BinaryOp(op, a, b) => {
                json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                json!(["cbin", format!("{:?}", op), self.operand(a), self.operand(b)])
            }
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(a)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["c", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, c) => {
                json!(["rep", self.operand(o), c.eval_target_usize().ok()])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                let kk = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        json!(["adt", def.name(), num(v), f, args.0.len()])
                    }
                    AggregateKind::Closure(def, _) => json!(["closure", def.name()]),
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    _ => json!(["other"]),
                };
                json!(["agg", kk, os])
            }
            other => json!(["other", format!("{:?}", other).chars().take(60).collect::<String>()]),
        }
    }

    fn body(&mut self, b: &Body, depth: u32) -> Value {
        let locals: Vec<u64> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = Map::new();
        for d in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.to_string(), json!(d.name));
                }
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(&s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        st.push(json!(["=", p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(json!(["sd", p, num(variant_index), sp]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(json!(["intr", format!("{:?}", i).chars().take(40).collect::<String>(), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l])),
                    _ => {}
                }
            }
            let tsp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets
                        .branches()
                        .map(|(v, t)| json!([v.to_string(), t]))
                        .collect();
                    json!(["switch", self.operand(discr), br, targets.otherwise()])
                }
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, .. } => {
                    json!(["drop", self.place(place), target])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<Value> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    let mut callee = Value::Null;
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = c.const_.ty().kind() {
                            match Instance::resolve(def, &gargs) {
                                Ok(i) => callee = json!(self.inst(i, depth + 1)),
                                Err(_) => callee = json!(def.name()),
                            }
                        }
                    }
                    json!(["call", callee, f, a, d, target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            json!(["bounds", self.operand(len), self.operand(index)])
                        }
                        AssertMessage::Overflow(op, a, b) => {
                            json!(["overflow", format!("{:?}", op), self.operand(a), self.operand(b)])
                        }
                        AssertMessage::OverflowNeg(a) => json!(["overflowneg", self.operand(a)]),
                        AssertMessage::DivisionByZero(a) => json!(["div0", self.operand(a)]),
                        AssertMessage::RemainderByZero(a) => json!(["rem0", self.operand(a)]),
                        other => json!([format!("{:?}", other).chars().take(40).collect::<String>()]),
                    };
                    json!(["assert", self.operand(cond), expected, m, target])
                }
                TerminatorKind::Resume | TerminatorKind::Abort => json!(["resume"]),
                _ => json!(["other"]),
            };
            // unwind-only blocks stay in the list so that indices keep their meaning
            blocks.push(json!({"s": st, "t": t, "sp": tsp}));
        }
        json!({"args": b.arg_locals().len(), "locals": locals, "names": names,
            "blocks": blocks, "spread": b.spread_arg()})
    }

    fn emit_inst(&mut self, i: Instance, n: usize, depth: u32) {
        let def_id = i.def.def_id();
        let path = i.def.name();
        let krate = i.def.krate();
        let mut o = Map::new();
        let iid = rustc_public::rustc_internal::internal(self.tcx, def_id);
        o.insert("id".into(), json!(n));
        o.insert("name".into(), json!(i.name()));
        o.insert("path".into(), json!(path));
        o.insert("crate".into(), json!(krate.name));
        o.insert("local".into(), json!(krate.is_local));
        o.insert("kind".into(), json!(match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        }));
        let sp = i.def.span();
        o.insert("span".into(), json!(self.span(&sp)));
        if let Some(nm) = i.intrinsic_name() {
            o.insert("intrinsic".into(), json!(nm));
        }
        let mut targs = vec![];
        for a in &i.args().0 {
            if let GenericArgKind::Type(t) = a {
                targs.push(self.ty(*t));
            }
        }
        o.insert("targs".into(), json!(targs));
        if !krate.is_local && i.kind == InstanceKind::Item {
            let mut docs = String::new();
            #[allow(deprecated)]
            for a in self.tcx.get_all_attrs(iid) {
                if let Some(s) = a.doc_str() {
                    docs.push_str(s.as_str());
                    docs.push('\n');
                }
            }
            o.insert("panics_doc".into(), json!(docs.contains("# Panics")));
        }
        // trait / impl context
        if let Some(p) = self.tcx.opt_parent(iid) {
            if let rustc_hir::def::DefKind::Impl { of_trait } = self.tcx.def_kind(p) {
                let st = self.tcx.type_of(p).instantiate_identity();
                o.insert("impl_self".into(), json!(format!("{:?}", st)));
                if of_trait {
                    let tr = self.tcx.impl_trait_ref(p).instantiate_identity();
                    o.insert("impl_trait".into(), json!(format!("{:?}", tr)));
                }
            } else if let rustc_hir::def::DefKind::Trait = self.tcx.def_kind(p) {
                o.insert("in_trait".into(), json!(self.tcx.def_path_str(p)));
            }
        }
        o.insert("vis".into(), json!(if krate.is_local { format!("{:?}", self.tcx.visibility(iid)) } else { String::new() }));
        let want = krate.is_local
            || i.kind == InstanceKind::Shim
            || (depth <= 60 && (EXT_BODY.iter().any(|p| path.starts_with(p)) || EXT_HAS.iter().any(|p| path.ends_with(p))));
        if want && i.kind != InstanceKind::LlvmIntrinsic && !matches!(i.kind, InstanceKind::Virtual{..}) {
            if i.has_body() || i.kind == InstanceKind::Shim {
                if let Some(b) = i.body() {
                    let bj = self.body(&b, depth);
                    o.insert("body".into(), bj);
                }
            }
        }
        self.insts[n] = Value::Object(o);
    }
}

fn candidates<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<ity::Ty<'tcx>> {
    let mut v: Vec<ity::Ty<'tcx>> = vec![];
    let mut named: HashMap<String, ity::Ty<'tcx>> = HashMap::new();
    for c in find_crates("algorithm") {
        for a in c.adts() {
            let nm = a.name();
            let id = rustc_public::rustc_internal::internal(tcx, a.def_id());
            if nm.ends_with("::BinaryMut") {
                named.insert("BinaryMut".into(), tcx.type_of(id).instantiate_identity().skip_norm_wip());
            }
        }
    }
    for n in ["BinaryMut"] {
        if let Some(t) = named.get(n) {
            v.push(*t);
        }
    }
    let st = ity::Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_);
    v.push(st);
    for k in [find_crates("alloc"), find_crates("std")] {
        for c in k {
            for a in c.adts() {
                let nm = a.name();
                if nm == "alloc::string::String" || nm == "std::hash::random::DefaultHasher" || nm == "std::string::String" {
                    let id = rustc_public::rustc_internal::internal(tcx, a.def_id());
                    v.push(tcx.type_of(id).instantiate_identity().skip_norm_wip());
                }
            }
        }
    }
    for c in [local_crate()] {
        for a in c.adts() {
            let id = rustc_public::rustc_internal::internal(tcx, a.def_id());
            if tcx.generics_of(id).count() == 0 {
                v.push(tcx.type_of(id).instantiate_identity().skip_norm_wip());
            }
        }
    }
    v.push(tcx.types.u32);
    v.push(tcx.types.u8);
    v
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        tyq: VecDeque::new(),
        seen_ty: HashSet::new(),
        insts: vec![],
        inst_ix: HashMap::new(),
        instq: VecDeque::new(),
        allocs: HashMap::new(),
        spans: HashMap::new(),
    };
    let cands = candidates(tcx);
    let mut roots = vec![];
    let mut uninst = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    for ld in tcx.mir_keys(()) {
        let id = ld.to_def_id();
        use rustc_hir::def::DefKind;
        match tcx.def_kind(id) {
            DefKind::Fn | DefKind::AssocFn => {
                let g = tcx.generics_of(id);
                let mut tps = vec![];
                let mut cur = Some(g);
                let mut has_const = false;
                while let Some(gg) = cur {
                    for p in &gg.own_params {
                        match p.kind {
                            ity::GenericParamDefKind::Type { .. } => tps.push(p.index),
                            ity::GenericParamDefKind::Const { .. } => has_const = true,
                            _ => {}
                        }
                    }
                    cur = gg.parent.map(|p| tcx.generics_of(p));
                }
                tps.sort();
                if has_const {
                    uninst.push(tcx.def_path_str(id));
                    continue;
                }
                let total = cands.len().pow(tps.len() as u32).min(40000);
                let mut found = None;
                for k in 0..total {
                    let mut kk = k;
                    let mut choice = vec![];
                    for _ in 0..tps.len() {
                        choice.push(kk % cands.len());
                        kk /= cands.len();
                    }
                    let args = ity::GenericArgs::for_item(tcx, id, |p, _| match p.kind {
                        ity::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => {
                            let pos = tps.iter().position(|x| *x == p.index).unwrap();
                            cands[choice[pos]].into()
                        }
                    });
                    if tps.is_empty() || !tcx.instantiate_and_check_impossible_clauses((id, args)) {
                        found = Some(args);
                        break;
                    }
                }
                match found {
                    Some(args) => {
                        let r = ity::Instance::try_resolve(tcx, ity::TypingEnv::fully_monomorphized(), id, args);
                        if let Ok(Some(i)) = r {
                            let si: Instance = rustc_public::rustc_internal::stable(i);
                            roots.push(cx.inst(si, 0));
                        } else {
                            uninst.push(tcx.def_path_str(id));
                        }
                    }
                    None => uninst.push(tcx.def_path_str(id)),
                }
            }
            _ => {}
        }
    }
    // provided methods of local traits, for every local implementation without type parameters
    for (tr, impls) in tcx.all_local_trait_impls(()) {
        if !tr.is_local() {
            continue;
        }
        for im in impls {
            let g = tcx.generics_of(im.to_def_id());
            if g.own_params.iter().any(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let tref = tcx.erase_and_anonymize_regions(tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip());
            for it in tcx.associated_items(*tr).in_definition_order() {
                if !it.is_fn() || !it.defaultness(tcx).has_value() {
                    continue;
                }
                if tcx.generics_of(it.def_id).own_params.iter().any(|p| !matches!(p.kind, ity::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let args = ity::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                    if (p.index as usize) < tref.args.len() {
                        tref.args[p.index as usize]
                    } else {
                        tcx.lifetimes.re_erased.into()
                    }
                });
                if let Ok(Some(i)) = ity::Instance::try_resolve(tcx, ity::TypingEnv::fully_monomorphized(), it.def_id, args) {
                    let si: Instance = rustc_public::rustc_internal::stable(i);
                    roots.push(cx.inst(si, 0));
                }
            }
        }
    }
    for it in all_local_items() {
        match it.kind() {
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) {
                    let t = cx.ty(s.ty());
                    let a = s.eval_initializer().ok().map(|a| cx.alloc_json(&a));
                    statics.push(json!({"name": s.name(), "ty": t, "init": a}));
                }
            }
            ItemKind::Const => {
                if let Ok(i) = Instance::try_from(it) {
                    let t = i.ty();
                    let tid = cx.ty(t);
                    if let Ok(a) = i.try_const_eval(t) {
                        let a = cx.alloc_json(&a);
                        consts.push(json!({"name": it.name(), "ty": tid, "init": a}));
                    }
                }
            }
            _ => {}
        }
    }
    loop {
        if let Some((i, n, d)) = cx.instq.pop_front() {
            cx.emit_inst(i, n, d);
            continue;
        }
        if let Some(t) = cx.tyq.pop_front() {
            cx.emit_ty(t);
            continue;
        }
        break;
    }
    let v = json!({
        "crate": local_crate().name,
        "roots": roots, "uninstantiated": uninst, "insts": cx.insts,
        "types": cx.types.iter().map(|(k,v)|(k.to_string(), v.clone())).collect::<Map<String,Value>>(),
        "allocs": cx.allocs.iter().map(|(k,v)|(k.to_string(), v.clone())).collect::<Map<String,Value>>(),
        "spans": cx.spans.iter().map(|(k,v)|(k.to_string(), v.clone())).collect::<Map<String,Value>>(),
        "statics": statics, "consts": consts,
    });
    let f = std::fs::File::create(out).expect("create output");
    serde_json::to_writer(std::io::BufWriter::new(f), &v).unwrap();
}

fn main() {
    // invoked as: mirdump <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "webparse".into());
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target)
        && !args.iter().any(|a| a == "--test")
        && out.is_some();
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        let out = out.unwrap();
        let r: Result<(), CompilerError<()>> = run_with_tcx!(&args, |tcx| {
            dump(tcx, &out);
            ControlFlow::Continue(())
        });
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        use std::os::unix::process::CommandExt;
        let raw: Vec<String> = std::env::args().collect();
        let e = std::process::Command::new(&raw[1]).args(&raw[2..]).exec();
        eprintln!("cannot run rustc: {}", e);
        std::process::exit(1);
    }
}
