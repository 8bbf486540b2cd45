// mirex: exports the monomorphic MIR reachable from contract roots (functions whose last path
// segment starts with `vc_` or `stub_`) of the crate being compiled, as JSON, for /verif/mirver.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::ItemKind;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ex {
    tys: HashMap<Ty, usize>,
    tyout: Vec<String>,
    insts: HashMap<Instance, usize>,
    instout: Vec<String>,
    queue: VecDeque<(usize, Instance)>,
    local_crate: String,
    /// std functions replaced by their Rust definition in the prelude: (std path, prelude function)
    redirect: Vec<(&'static str, FnDef)>,
}

const REDIRECT: &[(&str, &str)] = &[
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "verif::model_collect"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "verif::model_extend"),
    ("core::slice::<impl [T]>::ends_with", "verif::model_ends_with"),
    ("core::slice::<impl [T]>::starts_with", "verif::model_starts_with"),
    ("core::slice::<impl [T]>::contains", "verif::model_contains"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "verif::model_any"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "verif::model_all"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::position", "verif::model_position"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::find", "verif::model_find"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "verif::model_or_insert"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with", "verif::model_or_insert_with"),
    ("std::collections::hash_map::Entry::<'a, K, V, A>::or_default", "verif::model_or_default"),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition", "verif::model_rposition"),
];

const FIELDLESS: &[&str] = &[
    "std::vec::", "std::sync::", "std::collections::", "std::string::", "hashbrown::", "std::thread::",
    "alloc::", "tokio::", "std::fmt::", "std::cell::", "std::slice::", "core::fmt", "std::str::", "std::io::",
    "std::fs::", "std::path::", "std::hash::", "rand::", "reqwest::", "std::panic", "std::time",
];

impl Ex {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(String::new());
        let disp = format!("{t}");
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(x) => format!("\"k\":\"int\",\"w\":{},\"s\":true", x.num_bytes() * 8),
                RigidTy::Uint(x) => format!("\"k\":\"int\",\"w\":{},\"s\":false", x.num_bytes() * 8),
                RigidTy::Float(x) => format!("\"k\":\"float\",\"w\":{}", match x {
                    FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let name = def.name();
                    let mut s = format!("\"k\":\"adt\",\"name\":{},\"adt\":\"{}\",\"args\":[", js(&name),
                        match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" });
                    let a: Vec<String> = args.0.iter().filter_map(|g| g.ty().cloned()).map(|t| self.ty(t).to_string()).collect();
                    s.push_str(&a.join(","));
                    s.push_str("],\"variants\":[");
                    let skip = FIELDLESS.iter().any(|p| name.starts_with(p));
                    if !skip {
                        let mut vs = vec![];
                        for v in def.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&args);
                                let id = self.ty(ft);
                                fs.push(format!("[{},{}]", js(&f.name), id));
                            }
                            let d = if matches!(def.kind(), AdtKind::Enum) { def.discriminant_for_variant(v.idx()).val } else { 0 };
                            vs.push(format!("{{\"name\":{},\"d\":\"{}\",\"f\":[{}]}}", js(&v.name()), d, fs.join(",")));
                        }
                        s.push_str(&vs.join(","));
                    }
                    s.push(']');
                    if skip { s.push_str(",\"opaque\":true"); }
                    s
                }
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
                }
                RigidTy::Slice(e) => { let e = self.ty(e); format!("\"k\":\"slice\",\"e\":{}", e) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", e, m == Mutability::Mut) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); format!("\"k\":\"ref\",\"t\":{},\"m\":{}", e, m == Mutability::Mut) }
                RigidTy::FnDef(d, a) => {
                    let inst = Instance::resolve_for_fn_ptr(d, &a).ok();
                    let id = inst.map(|x| self.inst(x));
                    format!("\"k\":\"fndef\",\"name\":{},\"inst\":{}", js(&d.name()), id.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let u: Vec<String> = up.iter().map(|t| self.ty(*t).to_string()).collect();
                    let id = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                    let _ = id;
                    format!("\"k\":\"closure\",\"name\":{},\"up\":[{}]", js(&d.name()), u.join(","))
                }
                RigidTy::Tuple(ts) => {
                    let u: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":[{}]", u.join(","))
                }
                RigidTy::Pat(t, _) => { let e = self.ty(t); format!("\"k\":\"pat\",\"t\":{}", e) }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.tyout[i] = format!("{{{},\"p\":{}}}", body, js(&disp));
        i
    }

    fn inst(&mut self, x: Instance) -> usize {
        if let Some(&i) = self.insts.get(&x) {
            return i;
        }
        let i = self.instout.len();
        self.insts.insert(x, i);
        self.instout.push(String::new());
        self.queue.push_back((i, x));
        i
    }

    fn redirected(&self, x: Instance) -> Instance {
        let name = x.def.name();
        for (n, d) in &self.redirect {
            if *n == name {
                let mut a = x.args();
                a.0.retain(|g| g.ty().is_some());
                if *n == REDIRECT[1].0 { a.0.remove(1); }
                if n.contains("<'a, K, V, A>") { a.0.remove(2); }
                if let Ok(i) = Instance::resolve(*d, &a) { return i; }
            }
        }
        x
    }

    fn want_body(&self, x: &Instance, name: &str, krate: &str) -> bool {
        if x.kind == InstanceKind::Intrinsic { return false; }
        if let InstanceKind::Virtual { .. } = x.kind { return false; }
        if name.starts_with("std::ptr::drop_in_place") { return false; }
        if krate == self.local_crate || krate == "vecmath" || krate == "range" || krate == "piston_float" || krate == "float" { return true; }
        if krate == "core" || krate == "alloc" || krate == "std" {
            let ok = ["option::", "Option<", "Option::", "result::", "Result<", "Result::", "ops::", "cmp::", "convert::", "mem::replace", "mem::take",
                "mem::swap", "iter::", "Iterator", "Fn", "clone::", "Box", "Range", "f64", "f32", "num::", "array::", "tuple::", "ControlFlow", "marker::", "default::", "borrow::", "bool::", "hint::", "any::"];
            let deny = ["fmt", "panic", "alloc::alloc", "alloc::raw", "hash", "str::", "String", "Vec<", "vec::", "Arc<", "sync::", "slice::", "ptr::", "dec2flt", "flt2dec", "thread", "io::"];
            return ok.iter().any(|p| name.contains(p)) && !deny.iter().any(|p| name.contains(p));
        }
        false
    }

    fn flush(&mut self) {
        while let Some((i, x)) = self.queue.pop_front() {
            let name = x.def.name();
            let full = x.name();
            let krate = x.def.krate().name;
            let targs: Vec<String> = x.args().0.iter().filter_map(|g| g.ty().cloned()).map(|t| self.ty(t).to_string()).collect();
            let kind = match x.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic => "intrinsic".into(),
                InstanceKind::LlvmIntrinsic => "llvm".into(),
                InstanceKind::Virtual { idx } => format!("virtual{idx}"),
                InstanceKind::Shim => "shim".into(),
            };
            let intr = x.intrinsic_name().map(|s| js(&s)).unwrap_or("null".into());
            let body = if self.want_body(&x, &name, &krate) && x.has_body() { x.body() } else { None };
            let sp = x.def.span();
            let file = sp.get_filename();
            let line = sp.get_lines().start_line;
            let b = match body { Some(b) => self.body(&b), None => "null".into() };
            let fty = self.ty(x.ty());
            self.instout[i] = format!("{{\"name\":{},\"full\":{},\"crate\":{},\"kind\":\"{}\",\"intr\":{},\"targs\":[{}],\"ty\":{},\"file\":{},\"line\":{},\"body\":{}}}",
                js(&name), js(&full), js(&krate), kind, intr, targs.join(","), fty, js(&file), line, b);
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for blk in &b.blocks {
            let mut ss = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pp = self.place(p);
                        let rr = self.rvalue(r);
                        let ty = r.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                        ss.push(format!("[\"a\",{},{},{},{}]", pp, rr, ty, s.source_info.span.get_lines().start_line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pp = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", pp, variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("[\"unsup\",\"copy_nonoverlapping\"]".into()),
                    _ => {}
                }
            }
            let ln = blk.terminator.source_info.span.get_lines().start_line;
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"t\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{v}\",{t}]")).collect();
                    format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"br\":[{}],\"o\":{}}}", self.operand(discr), ty, br.join(","), targets.otherwise())
                }
                TerminatorKind::Resume | TerminatorKind::Abort => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}", self.place(place), ty, target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok();
                    let mut callee = String::from("null");
                    let mut decl = String::new();
                    if let Some(fty) = fty {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = fty.kind() {
                            decl = d.name();
                            if let Ok(inst) = Instance::resolve(d, &a) {
                                let inst = self.redirected(inst);
                                callee = self.inst(inst).to_string();
                            }
                        }
                    }
                    let fop = if callee == "null" { self.operand(func) } else { "null".into() };
                    let aa: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                    let at: Vec<String> = args.iter().map(|a| a.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string()).collect();
                    let dt = destination.ty(b.locals()).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("{{\"k\":\"call\",\"f\":{},\"fop\":{},\"decl\":{},\"args\":[{}],\"at\":[{}],\"dest\":{},\"dt\":{},\"t\":{},\"ln\":{}}}",
                        callee, fop, js(&decl), aa.join(","), at.join(","), self.place(destination), dt,
                        target.map(|t| t.to_string()).unwrap_or("null".into()), ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        _ => msg.description().map(|x| x.to_string()).unwrap_or("assert".into()),
                    };
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"ln\":{}}}", self.operand(cond), expected, js(&m), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"unsup\"}".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{}}}", ss.join(","), t));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", js(&v.name), p.local));
                }
            }
        }
        format!("{{\"argc\":{},\"spread\":{},\"locals\":[{}],\"dbg\":[{}],\"blocks\":[{}]}}", b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), locals.join(","), dbg.join(","), blocks.join(","))
    }

    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{i},{t}]") }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
            });
        }
        format!("[{},[{}]]", p.local, pr.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                let tid = self.ty(ty);
                let v = self.konst(&c.const_);
                format!("[\"k\",{},{}]", tid, v)
            }
            Operand::RuntimeChecks(_) => "[\"rt\"]".into(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::ZeroSized => "{\"z\":1}".into(),
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(a, 0, *ty, 0),
                TyConstKind::ZSTValue(_) => "{\"z\":1}".into(),
                _ => "{\"u\":1}".into(),
            },
            _ => "{\"u\":1}".into(),
        }
    }

    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> String {
        if depth > 12 { return "{\"u\":1}".into(); }
        let rd = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        let un = || "{\"u\":1}".to_string();
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => rd(off, 1).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or_else(un),
                RigidTy::Char => rd(off, 4).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or_else(un),
                RigidTy::Int(x) => rd(off, x.num_bytes()).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or_else(un),
                RigidTy::Uint(x) => rd(off, x.num_bytes()).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or_else(un),
                RigidTy::Float(x) => {
                    let n = match x { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                    rd(off, n).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or_else(un)
                }
                RigidTy::Pat(t, _) => self.decode(a, off, t, depth + 1),
                RigidTy::Tuple(ts) if ts.is_empty() => "{\"z\":1}".into(),
                RigidTy::FnDef(..) => "{\"z\":1}".into(),
                RigidTy::FnPtr(..) => {
                    for (o, p) in &a.provenance.ptrs {
                        if *o == off {
                            if let GlobalAlloc::Function(inst) = GlobalAlloc::from(p.0) {
                                return format!("{{\"fn\":{}}}", self.inst(inst));
                            }
                        }
                    }
                    un()
                }
                RigidTy::Tuple(ts) => {
                    let Ok(l) = ty.layout() else { return un() };
                    let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return un() };
                    let fs: Vec<String> = ts.iter().enumerate().map(|(i, t)| self.decode(a, off + offsets[i].bytes(), *t, depth + 1)).collect();
                    format!("{{\"t\":[{}]}}", fs.join(","))
                }
                RigidTy::Array(e, n) => {
                    let Ok(n) = n.eval_target_usize() else { return un() };
                    if n > 300 { return un(); }
                    let Ok(l) = e.layout() else { return un() };
                    let sz = l.shape().size.bytes();
                    let fs: Vec<String> = (0..n as usize).map(|i| self.decode(a, off + i * sz, e, depth + 1)).collect();
                    format!("{{\"t\":[{}]}}", fs.join(","))
                }
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                    for (o, p) in &a.provenance.ptrs {
                        if *o == off {
                            let inner = rd(off, 8).unwrap_or(0) as usize;
                            return match GlobalAlloc::from(p.0) {
                                GlobalAlloc::Memory(m) => match t.kind() {
                                    TyKind::RigidTy(RigidTy::Str) => {
                                        let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                        let bytes: Vec<u8> = m.bytes[inner..inner + n].iter().map(|b| b.unwrap_or(0)).collect();
                                        format!("{{\"s\":{}}}", js(&String::from_utf8_lossy(&bytes)))
                                    }
                                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                                        let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                        if n > 300 { return un(); }
                                        let Ok(l) = e.layout() else { return un() };
                                        let sz = l.shape().size.bytes();
                                        let fs: Vec<String> = (0..n).map(|i| self.decode(&m, inner + i * sz, e, depth + 1)).collect();
                                        format!("{{\"sl\":[{}]}}", fs.join(","))
                                    }
                                    _ => { let d = self.decode(&m, inner, t, depth + 1); format!("{{\"r\":{}}}", d) }
                                },
                                GlobalAlloc::Static(s) => {
                                    let init = if s.ty().kind().is_adt() || true { s.eval_initializer().ok() } else { None };
                                    let sty = s.ty();
                                    let nm = s.name();
                                    let d = match init { Some(m) => self.decode(&m, inner, sty, depth + 1), None => un() };
                                    format!("{{\"r\":{},\"static\":{}}}", d, js(&nm))
                                }
                                GlobalAlloc::Function(inst) => format!("{{\"fn\":{}}}", self.inst(inst)),
                                _ => un(),
                            };
                        }
                    }
                    // dangling (empty slice)
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::Slice(_)) => "{\"sl\":[]}".into(),
                        TyKind::RigidTy(RigidTy::Str) => "{\"s\":\"\"}".into(),
                        _ => un(),
                    }
                }
                RigidTy::Adt(def, args) => {
                    let Ok(l) = ty.layout() else { return un() };
                    let sh = l.shape();
                    let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                        VariantsShape::Empty => return un(),
                        VariantsShape::Single { index } => {
                            let offs = match &sh.fields {
                                FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(),
                                FieldsShape::Primitive => vec![0],
                                _ => return un(),
                            };
                            (index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let FieldsShape::Arbitrary { offsets, .. } = &sh.fields else { return un() };
                            let toff = offsets[*tag_field].bytes();
                            let tsz = scalar_size(tag);
                            let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(t) = rd(off + toff, tsz) else { return un() };
                                    let mut f = None;
                                    for v in def.variants() {
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if def.discriminant_for_variant(v.idx()).val & mask == t { f = Some(v.idx().to_index()); }
                                    }
                                    match f { Some(x) => x, None => return un() }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov { untagged_variant.to_index() } else {
                                        let Some(t) = rd(off + toff, tsz) else { return un() };
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = t.wrapping_sub(*niche_start) & mask;
                                        let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                        if rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                    };
                    let vs = def.variants();
                    let v = &vs[vi];
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        if i >= offs.len() { return un(); }
                        fs.push(self.decode(a, off + offs[i], ft, depth + 1));
                    }
                    format!("{{\"v\":{},\"f\":[{}]}}", vi, fs.join(","))
                }
                _ => un(),
            },
            _ => un(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::Aggregate(k, ops) => {
                let oo: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let (kk, ex) = match k {
                    AggregateKind::Array(_) => ("arr", 0),
                    AggregateKind::Tuple => ("tup", 0),
                    AggregateKind::Adt(_, v, _, _, act) => { if act.is_some() { ("union", 0) } else { ("adt", v.to_index()) } }
                    AggregateKind::Closure(..) => ("clo", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("unsup", 0),
                };
                format!("[\"agg\",\"{}\",{},[{}]]", kk, ex, oo.join(","))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), t) }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(_) => "[\"unsup\",\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
        }
    }
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::{Primitive, Scalar};
    let v = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match v {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

fn export() -> ControlFlow<()> {
    let Ok(out) = std::env::var("MIREX_OUT") else { return ControlFlow::Continue(()) };
    let lc = rustc_public::local_crate().name;
    let want = std::env::var("MIREX_CRATE").unwrap_or("dyon".into());
    if lc != want { return ControlFlow::Continue(()); }
    let mut ex = Ex { tys: HashMap::new(), tyout: vec![], insts: HashMap::new(), instout: vec![], queue: VecDeque::new(), local_crate: lc, redirect: vec![] };
    let mut roots = vec![];
    let mut names = vec![];
    let mut items = rustc_public::all_local_items();
    items.sort_by_key(|i| i.name());
    for it in &items {
        for (n, m) in REDIRECT {
            if it.kind() == ItemKind::Fn && it.name().ends_with(m) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() { ex.redirect.push((n, d)); }
            }
        }
    }
    for it in items {
        if it.kind() != ItemKind::Fn { continue; }
        let name = it.name();
        names.push(js(&name));
        let last = name.rsplit("::").next().unwrap_or("");
        let all = std::env::var("MIREX_ROOTS").unwrap_or_default();
        if last.starts_with("vc_") || last.starts_with("stub_") || all.split(',').any(|x| !x.is_empty() && x == name) {
            if let Ok(inst) = Instance::try_from(it) {
                let id = ex.inst(inst);
                roots.push(format!("{}:{}", js(&name), id));
            }
        }
    }
    ex.flush();
    let s = format!("{{\"roots\":{{{}}},\n\"fns\":[{}],\n\"tys\":[{}],\n\"insts\":[{}]}}\n", roots.join(","), names.join(","), ex.tyout.join(",\n"), ex.instout.join(",\n"));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes: mirex <rustc> <args...>
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let r = run!(&args, export);
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
