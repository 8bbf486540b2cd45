// P10: parts of values, assignment and copies.
use super::*;
use crate::verif::*;
use ast::AssignOp as Op;
//@include lang.inc.rs
//@include eval.inc.rs

fn item_of(name: Arc<String>, d: usize, current: bool, ids: Vec<ast::Id>) -> ast::Item {
    ast::Item {
        name,
        stack_id: std::cell::Cell::new(Some(d)),
        static_stack_id: std::cell::Cell::new(Some(d)),
        current,
        try_flag: false,
        ids,
        try_ids: vec![],
        source_range: Range::empty(0),
    }
}
/// The slot of a variable: `d` slots down, through a reference.
fn slot(rt: &Runtime, d: usize) -> usize {
    let k = rt.stack.len() - d;
    match &rt.stack[k] {
        Variable::Ref(r) => *r,
        _ => k,
    }
}
fn in_scope(rt: &Runtime, d: usize) -> bool {
    inv(rt) && d >= 1 && d <= rt.stack.len() && wf(&rt.stack[rt.stack.len() - d], &rt.stack)
        && rt.call_stack[rt.call_stack.len() - 1].local_len <= rt.local_stack.len()
}
pub fn vc_name(mut rt: Runtime, name: Arc<String>, d: usize, current: bool, first: bool) {
    require(in_scope(&rt, d));
    let (pre, s0, k) = (heights(&rt), snap(&rt.stack), slot(&rt, d));
    let it = item_of(name, d, current, vec![]);
    if first { it.stack_id.set(None); }
    let got = rt.item(&it, Side::Right);
    match &got {
        Ok((Some(Variable::Ref(r)), Flow::Continue)) => { cover("found"); ensure(*r == k, "a name never stands for another variable than the one the checker found") }
        Ok(_) => ensure(false, "a name stands for its variable"),
        // the runtime checks the result of the checker (`debug_lookup`)
        Err(_) => {}
    }
    ensure(same(&rt.stack, &s0), "reading a variable changes nothing");
    ensure(keeps(&got, &rt, &pre), "reading a variable changes nothing");
}
// The runtime checks the slot against the names in scope, and panics on a broken list of names.
//@cfg vc_name,vc_part_* panics 1
/// The part of a value under an index or a key.
fn part<'a>(v: &'a Variable, id: &Variable) -> Option<&'a Variable> {
    match (v, id) {
        (Variable::Array(a), Variable::F64(i, _)) => a.get(*i as usize),
        (Variable::Object(o), Variable::Str(k)) => o.get(k),
        _ => None,
    }
}
fn read_part(rt: &Runtime, got: &FlowResult, v: &Variable, id: &Variable, s0: &Vec<Variable>) {
    match (part(v, id), got) {
        (Some(x), Ok((Some(y), Flow::Continue))) => { cover("found"); ensure(same(x, y), "a part is the one under the index or key"); }
        (None, Ok(_)) => ensure(false, "a missing part is an error"),
        (_, Ok(_)) => ensure(false, "a part has a value"),
        (_, Err(_)) => {}
    }
    if got.is_ok() {
        ensure(rt.stack.len() == s0.len(), "reading a part leaves nothing behind");
        let k = skolem();
        require(k < s0.len());
        ensure(same(&rt.stack[k], &s0[k]), "reading a part changes nothing");
    }
}
pub fn vc_part_index(mut rt: Runtime, name: Arc<String>, d: usize, i: f64) {
    require(in_scope(&rt, d));
    let (s0, k) = (snap(&rt.stack), slot(&rt, d));
    require(matches!(s0[k], Variable::Array(_)));
    let got = rt.item(&item_of(name, d, false, vec![ast::Id::F64(Range::empty(0), i)]), Side::Right);
    read_part(&rt, &got, &s0[k], &Variable::f64(i), &s0);
}
pub fn vc_part_key(mut rt: Runtime, name: Arc<String>, d: usize, key: Arc<String>) {
    require(in_scope(&rt, d));
    let (s0, k) = (snap(&rt.stack), slot(&rt, d));
    require(matches!(s0[k], Variable::Object(_)));
    let id = Variable::Str(snap(&key));
    let got = rt.item(&item_of(name, d, false, vec![ast::Id::String(Range::empty(0), key)]), Side::Right);
    read_part(&rt, &got, &s0[k], &id, &s0);
}
/// A computed index or key is evaluated first.
pub fn vc_part_computed(mut rt: Runtime, name: Arc<String>, d: usize, e: Ex) {
    require(in_scope(&rt, d));
    let k = slot(&rt, d);
    let (a, s1) = eval(&e, &rt.stack);
    let n = s1.len();
    match value(&a) {
        Some(x) => {
            require(!matches!(s1[k], Variable::Ref(_)) && !matches!(deref(x, &s1), Variable::Array(_)));
            let (v, id, s1) = (snap(&s1[k]), snap(deref(x, &s1)), snap(&s1));
            let got = rt.item(&item_of(name, d, false, vec![ast::Id::Expression(e)]), Side::Right);
            read_part(&rt, &got, &v, &id, &s1);
        }
        None => {
            let got = rt.item(&item_of(name, d, false, vec![ast::Id::Expression(e)]), Side::Right);
            cover("fails");
            if got.is_ok() { ensure(fails(&got, &a), "an index without a value returns or is an error"); }
            let _ = n;
        }
    }
}
/// A part that is written: `a[i] = v` and `a.k := v`.
fn wrote_part(rt: &mut Runtime, got: FlowResult, k: usize, id: &Variable, insert: bool, w: Variable, s0: &Vec<Variable>) {
    let has = part(&s0[k], id).is_some();
    match got {
        Ok((Some(Variable::UnsafeRef(r)), Flow::Continue)) => {
            cover("found");
            ensure(has || (insert && matches!(id, Variable::Str(_))), "only `:=` adds a part, and only to an object");
            unsafe { *r.0 = snap(&w); }
            match part(&rt.stack[k], id) {
                Some(x) => ensure(same(x, &w), "a written part has the new value"),
                None => ensure(false, "a written part has the new value"),
            }
            ensure(rt.stack.len() == s0.len(), "writing a part leaves nothing behind");
            let i = skolem();
            require(i < s0.len());
            if i != k { ensure(same(&rt.stack[i], &s0[i]), "writing a part changes no other variable"); }
            match (&rt.stack[k], &s0[k], id) {
                (Variable::Array(a), Variable::Array(b), Variable::F64(j, _)) => {
                    ensure(a.len() == b.len(), "writing a part of an array keeps the number of items");
                    let i = skolem();
                    require(i < b.len() && i != *j as usize);
                    ensure(same(&a[i], &b[i]), "writing a part changes no other part");
                }
                (Variable::Object(a), Variable::Object(b), Variable::Str(j)) => {
                    let q: Arc<String> = any();
                    require(q != *j);
                    ensure(same(&a.get(&q).map(|x| snap(x)), &b.get(&q).map(|x| snap(x))), "writing a part changes no other part");
                }
                _ => ensure(false, "writing a part keeps the type"),
            }
        }
        Ok(_) => ensure(false, "the left side of an assignment is a place"),
        Err(_) => {}
    }
}
pub fn vc_part_set_index(mut rt: Runtime, name: Arc<String>, d: usize, i: f64, insert: bool, w: Variable) {
    require(in_scope(&rt, d));
    let (s0, k) = (snap(&rt.stack), slot(&rt, d));
    require(matches!(s0[k], Variable::Array(_)));
    let got = rt.item(&item_of(name, d, false, vec![ast::Id::F64(Range::empty(0), i)]), Side::LeftInsert(insert));
    wrote_part(&mut rt, got, k, &Variable::f64(i), insert, w, &s0);
}
pub fn vc_part_set_key(mut rt: Runtime, name: Arc<String>, d: usize, key: Arc<String>, insert: bool, w: Variable) {
    require(in_scope(&rt, d));
    let (s0, k) = (snap(&rt.stack), slot(&rt, d));
    require(matches!(s0[k], Variable::Object(_)));
    let id = Variable::Str(snap(&key));
    let got = rt.item(&item_of(name, d, false, vec![ast::Id::String(Range::empty(0), key)]), Side::LeftInsert(insert));
    wrote_part(&mut rt, got, k, &id, insert, w, &s0);
}
/// Two parts: `a[i].k`.
pub fn vc_part_nested(mut rt: Runtime, name: Arc<String>, d: usize, i: f64, key: Arc<String>) {
    require(in_scope(&rt, d));
    let (s0, k) = (snap(&rt.stack), slot(&rt, d));
    require(matches!(s0[k], Variable::Array(_)));
    let id = Variable::Str(snap(&key));
    let got = rt.item(&item_of(name, d, false, vec![ast::Id::F64(Range::empty(0), i), ast::Id::String(Range::empty(0), key)]), Side::Right);
    match part(&s0[k], &Variable::f64(i)) {
        Some(x) => {
            require(wf(x, &s0));
            match deref(x, &s0) {
                v @ Variable::Object(_) => { cover("object"); read_part(&rt, &got, v, &id, &s0); }
                _ => { cover("no object"); ensure(got.is_err(), "only objects have keys"); }
            }
        }
        None => { cover("missing"); ensure(got.is_err(), "a missing part is an error"); }
    }
}
// ---- copies
//@stub vc_copy* <dyon::Variable as dyon::Variable>::deep_clone stub_deep
//@stub vc_copy* dyon::Variable::deep_clone stub_deep
pub fn stub_deep(v: &Variable, stack: &[Variable]) -> Variable {
    let _ = stack;
    uf1("deep", v)
}
pub fn vc_copy(v: Variable, stack: Vec<Variable>) {
    require(wf(&v, &stack) && !matches!(v, Variable::UnsafeRef(_)));
    let got = v.deep_clone(&stack);
    match (&v, &got) {
        (Variable::Ref(k), x) => { cover("reference"); ensure(same(x, &uf1::<Variable, Variable>("deep", &stack[*k])), "a copy of a reference is a copy of the variable"); }
        (Variable::Array(a), Variable::Array(b)) => {
            cover("array");
            ensure(a.len() == b.len(), "a copy of an array has as many items");
            let k = skolem();
            require(k < a.len());
            ensure(same(&b[k], &uf1::<Variable, Variable>("deep", &a[k])), "a copy of an array has copies of its items");
        }
        (Variable::Object(_), Variable::Object(_)) => {}
        (x, y) => { cover("other"); ensure(same(x, y), "a copy of a value without parts is the value"); }
    }
}
pub fn vc_declare(mut rt: Runtime, name: Arc<String>, current: bool, right: Ex) {
    let pre = heights(&rt);
    let (a, s1) = eval(&right, &rt.stack);
    let (l0, c0) = (snap(&rt.local_stack), snap(&rt.current_stack));
    let n = snap(&name);
    let got = rt.assign(Op::Assign, &Ex::Item(Box::new(item_of(name, 0, current, vec![]))), &right);
    match value(&a) {
        Some(x) => {
            cover("value");
            ensure(matches!(&got, Ok((None, Flow::Continue))), "a declaration has no value");
            ensure(same(&rt.stack, &push1(&s1, deref(x, &s1))), "`:=` adds a variable with the value, and changes no other");
            let mut l = l0;
            l.push((snap(&n), s1.len()));
            ensure(same(&rt.local_stack, &l), "`:=` adds the name");
            let mut c = c0;
            if current { c.push((n, s1.len())); }
            ensure(same(&rt.current_stack, &c), "`~` makes it a current object, nothing else does");
        }
        None => { cover("fails"); ensure(fails(&got, &a), "a right side without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "nothing below is removed");
}
/// What `old op= b` leaves in the variable; nothing when it is an error.
fn updated(op: Op, old: &Variable, b: &Variable) -> Option<Variable> {
    fn f(op: Op, a: f64, b: f64) -> f64 {
        match op { Op::Set => b, Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b, Op::Rem => a % b, _ => a.powf(b) }
    }
    fn g(op: Op, a: f32, b: f32) -> f32 {
        match op { Op::Set => b, Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b, Op::Rem => a % b, _ => a.powf(b) }
    }
    match (old, b) {
        (Variable::Return, Variable::UnsafeRef(_) | Variable::Ref(_) | Variable::Return | Variable::Thread(_) | Variable::In(_)) => None,
        (Variable::Return, b) => if op == Op::Set { Some(snap(b)) } else { None },
        (Variable::F64(a, _), Variable::F64(b, sec)) => Some(Variable::F64(f(op, *a, *b), snap(sec))),
        (Variable::Vec4(a), Variable::F64(b, _)) => {
            let b = *b as f32;
            if op == Op::Set { None } else { Some(Variable::Vec4([g(op, a[0], b), g(op, a[1], b), g(op, a[2], b), g(op, a[3], b)])) }
        }
        (Variable::Vec4(a), Variable::Vec4(b)) => Some(Variable::Vec4([g(op, a[0], b[0]), g(op, a[1], b[1]), g(op, a[2], b[2]), g(op, a[3], b[3])])),
        (Variable::Mat4(a), Variable::Mat4(b)) => match op {
            Op::Set => Some(Variable::Mat4(snap(b))),
            Op::Add => Some(Variable::Mat4(Box::new(vecmath::mat4_add(**a, **b)))),
            Op::Sub => Some(Variable::Mat4(Box::new(vecmath::mat4_sub(**a, **b)))),
            Op::Mul => Some(Variable::Mat4(Box::new(vecmath::col_mat4_mul(**a, **b)))),
            _ => None,
        },
        (Variable::Str(a), Variable::Str(b)) => match op {
            Op::Set => Some(Variable::Str(snap(b))),
            Op::Add => { let mut s: String = snap(&**a); s.push_str(b); Some(Variable::Str(Arc::new(s))) }
            _ => None,
        },
        (Variable::Bool(..), Variable::Bool(..)) | (Variable::Object(_), Variable::Object(_)) | (Variable::Array(_), Variable::Array(_))
        | (Variable::Option(_), Variable::Option(_)) | (Variable::Result(_), Variable::Result(_)) | (Variable::RustObject(_), Variable::RustObject(_))
        | (Variable::Closure(..), Variable::Closure(..)) => if op == Op::Set { Some(snap(b)) } else { None },
        _ => None,
    }
}
/// `left op= right` where the left side is a variable.
fn set<F: Fn(&Variable) -> bool>(mut rt: Runtime, op: Op, left: &Ex, right: &Ex, kind: F) -> (Runtime, Option<(usize, Variable, Variable, Vec<Variable>)>) {
    let (b, s1) = eval(right, &rt.stack);
    let (a, s2) = eval(left, &s1);
    require(op != Op::Assign && wf_all(&b, &s2));
    let _ = &mut rt;
    match (value(&b), value(&a)) {
        (Some(y), Some(Variable::Ref(k))) => {
            require(kind(deref(y, &s2)));
            require(!matches!(s2[*k], Variable::Link(_)));
            let r = (*k, snap(&s2[*k]), snap(deref(y, &s2)), snap(&s2));
            (rt, Some(r))
        }
        _ => { require(false); (rt, None) }
    }
}
fn wf_all(r: &FlowResult, s: &Vec<Variable>) -> bool {
    valid(r, s)
}
fn was_set(rt: &Runtime, got: &FlowResult, op: Op, r: &(usize, Variable, Variable, Vec<Variable>)) {
    let (k, old, b, s) = r;
    match updated(op, old, b) {
        Some(w) => {
            cover("set");
            ensure(matches!(got, Ok((None, Flow::Continue))), "an assignment has no value");
            ensure(same(&rt.stack[*k], &w), "an assignment leaves the new value in the variable");
        }
        None => { cover("error"); ensure(got.is_err(), "an operator the types do not have is an error"); }
    }
    ensure(rt.stack.len() == s.len(), "an assignment adds and removes no variables");
    let i = skolem();
    require(i < s.len() && i != *k);
    ensure(same(&rt.stack[i], &s[i]), "an assignment changes no other variable");
}
pub fn vc_set_number(rt: Runtime, op: Op, left: Ex, right: Ex) {
    let (mut rt, r) = set(rt, op, &left, &right, |b| matches!(b, Variable::F64(..)));
    let got = rt.assign(op, &left, &right);
    if let Some(r) = r { was_set(&rt, &got, op, &r); }
}
pub fn vc_set_vec4(rt: Runtime, op: Op, left: Ex, right: Ex) {
    let (mut rt, r) = set(rt, op, &left, &right, |b| matches!(b, Variable::Vec4(..)));
    let got = rt.assign(op, &left, &right);
    if let Some(r) = r { was_set(&rt, &got, op, &r); }
}
pub fn vc_set_mat4(rt: Runtime, op: Op, left: Ex, right: Ex) {
    let (mut rt, r) = set(rt, op, &left, &right, |b| matches!(b, Variable::Mat4(..)));
    let got = rt.assign(op, &left, &right);
    if let Some(r) = r { was_set(&rt, &got, op, &r); }
}
pub fn vc_set_text(rt: Runtime, op: Op, left: Ex, right: Ex) {
    let (mut rt, r) = set(rt, op, &left, &right, |b| matches!(b, Variable::Str(..)));
    let got = rt.assign(op, &left, &right);
    if let Some(r) = r { was_set(&rt, &got, op, &r); }
}
pub fn vc_set_value(rt: Runtime, op: Op, left: Ex, right: Ex) {
    let (mut rt, r) = set(rt, op, &left, &right, |b| !matches!(b, Variable::F64(..) | Variable::Vec4(_) | Variable::Mat4(_) | Variable::Str(_) | Variable::Link(_)));
    let got = rt.assign(op, &left, &right);
    if let Some(r) = r { was_set(&rt, &got, op, &r); }
}
/// Random programs that read, write, copy and share parts of values compute what the language says.
pub fn nc_script_items() {
    let fs = lang::items_program();
    lang::compare(&fs, true);
}
native! {
    nc_script_items: ();
}
