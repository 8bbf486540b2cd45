// P04: optional values, results and secrets.
use super::*;
use crate::verif::*;
//@include rt.inc.rs

type R = Result<Variable, String>;

//@stub * dyon::Variable::deep_clone stub_deep_clone
//@assume deep_clone of an argument is a function of the argument (its references denote slots that do not change while the arguments are popped); deep_clone itself is under contract in P10
pub fn stub_deep_clone(v: &Variable, stack: &[Variable]) -> Variable {
    if native() {
        return v.deep_clone(stack);
    }
    uf1("deep_clone", v)
}
//@stub vc_unwrap dyon::runtime::Runtime::stack_trace stub_stack_trace
pub fn stub_stack_trace(rt: &Runtime) -> String {
    if native() {
        return rt.stack_trace();
    }
    any()
}
//@cfg vc_unwrap utf8_ok 1
//@assume bytes of strings are valid UTF-8
//@assume write_variable to a byte buffer succeeds and the text of an unwrap error is not specified
//@stub vc_unwrap dyon::write::write_variable stub_write_variable
pub fn stub_write_variable(w: &mut Vec<u8>, rt: &Runtime, v: &Variable, e: crate::write::EscapeString, tabs: u32) -> Result<(), std::io::Error> {
    if native() {
        return crate::write::write_variable(w, rt, v, e, tabs);
    }
    Ok(())
}
fn wopt() -> Variable {
    if !native() {
        return Variable::Return;
    }
    match any::<u8>() % 4 {
        0 => Variable::Option(None),
        1 => Variable::Option(Some(any())),
        2 => Variable::Result(Ok(any())),
        _ => Variable::Result(Err(any())),
    }
}
fn wany() -> Variable {
    if native() { any() } else { Variable::Return }
}
fn dc(v: &Variable, pre: &Vec<Variable>) -> Variable {
    stub_deep_clone(deref(v, pre), pre)
}

pub fn vc_some(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wany());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = some(&mut rt);
    ensure(match &r { Ok(Variable::Option(Some(x))) => same(&**x, &dc(&v, &pre)), _ => false }, "some(x) holds a copy of x");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_ok(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wany());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = ok(&mut rt);
    ensure(match &r { Ok(Variable::Result(Ok(x))) => same(&**x, &dc(&v, &pre)), _ => false }, "ok(x) holds a copy of x");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_err(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wany());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = err(&mut rt);
    ensure(match &r { Ok(Variable::Result(Err(x))) => same(&x.message, &dc(&v, &pre)) && x.trace.len() == 0, _ => false }, "err(x) holds a copy of x and an empty trace");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_is_err(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wopt());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = is_err(&mut rt);
    match deref(&v, &pre) {
        Variable::Result(x) => { cover("ok"); ensure(matches!(&r, Ok(Variable::Bool(b, None)) if *b == x.is_err()), "is_err is true on err only") }
        _ => { cover("err"); ensure(r.is_err(), "is_err of a non-result is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_is_ok(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wopt());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = is_ok(&mut rt);
    match deref(&v, &pre) {
        Variable::Result(x) => { cover("ok"); ensure(matches!(&r, Ok(Variable::Bool(b, None)) if *b == x.is_ok()), "is_ok is true on ok only") }
        _ => { cover("err"); ensure(r.is_err(), "is_ok of a non-result is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_unwrap(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wopt());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = unwrap(&mut rt);
    match deref(&v, &pre) {
        Variable::Option(Some(x)) => { cover("some"); ensure(match &r { Ok(y) => same(y, &**x), _ => false }, "unwrap(some(x)) is x") }
        Variable::Result(Ok(x)) => { cover("ok"); ensure(match &r { Ok(y) => same(y, &**x), _ => false }, "unwrap(ok(x)) is x") }
        _ => { cover("err"); ensure(r.is_err(), "unwrap of none, err or another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_unwrap_or(mut rt: Runtime, v: Variable, d: Variable) {
    let v = argp(&mut rt, v, wopt());
    let d = argp(&mut rt, d, wany());
    require(ref_ok(&v, &rt.stack) && ref_ok(&d, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&d));
    let r = unwrap_or(&mut rt);
    match deref(&v, &pre) {
        Variable::Option(Some(x)) => { cover("some"); ensure(match &r { Ok(y) => same(y, &**x), _ => false }, "unwrap_or(some(x), d) is x") }
        Variable::Result(Ok(x)) => { cover("ok"); ensure(match &r { Ok(y) => same(y, &**x), _ => false }, "unwrap_or(ok(x), d) is x") }
        Variable::Option(None) => { cover("none"); ensure(match &r { Ok(y) => same(y, deref(&d, &pre)), _ => false }, "unwrap_or(none(), d) is d") }
        Variable::Result(Err(_)) => { cover("err"); ensure(match &r { Ok(y) => same(y, deref(&d, &pre)), _ => false }, "unwrap_or(err(e), d) is d") }
        _ => ensure(r.is_err(), "unwrap_or of another type is an error"),
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_unwrap_err(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wopt());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = unwrap_err(&mut rt);
    match deref(&v, &pre) {
        Variable::Result(Err(e)) => { cover("ok"); ensure(match &r { Ok(y) => same(y, &e.message), _ => false }, "unwrap_err(err(e)) is e") }
        _ => { cover("err"); ensure(r.is_err(), "unwrap_err of anything else is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
/// `out` is `sec` in reverse order.
fn reversed(r: &R, sec: &Vec<Variable>) -> bool {
    match r {
        Ok(Variable::Array(a)) => {
            let q = skolem();
            a.len() == sec.len() && (q >= sec.len() || same(&a[q], &sec[sec.len() - 1 - q]))
        }
        _ => false,
    }
}
fn wsec() -> Variable {
    if !native() {
        return Variable::Return;
    }
    let sec = if any::<bool>() { Some(any::<Box<Vec<Variable>>>()) } else { None };
    if any::<bool>() { Variable::Bool(any(), sec) } else { Variable::F64(any(), sec) }
}
pub fn vc_why(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wsec());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = why(&mut rt);
    match deref(&v, &pre) {
        Variable::Bool(true, Some(sec)) => { cover("ok"); ensure(reversed(&r, sec), "why lists the reasons, latest first") }
        _ => { cover("err"); ensure(r.is_err(), "why needs a true value with a secret") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_where(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wsec());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = _where(&mut rt);
    match deref(&v, &pre) {
        Variable::F64(x, Some(sec)) if !x.is_nan() => { cover("ok"); ensure(reversed(&r, sec), "where lists the reasons, latest first") }
        _ => { cover("err"); ensure(r.is_err(), "where needs a number with a secret") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
/// `new` is `old` with `item` appended.
fn appended(new: &Vec<Variable>, old: &Option<Box<Vec<Variable>>>, item: &Variable) -> bool {
    match old {
        None => new.len() == 1 && same(&new[0], item),
        Some(o) => {
            let q = skolem();
            new.len() == o.len() + 1 && same(&new[o.len()], item) && (q >= o.len() || same(&new[q], &o[q]))
        }
    }
}
pub fn vc_explain_why(mut rt: Runtime, v: Variable, e: Variable) {
    let v = argp(&mut rt, v, wsec());
    let e = argp(&mut rt, e, wany());
    require(ref_ok(&v, &rt.stack) && ref_ok(&e, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&e));
    let r = explain_why(&mut rt);
    let item = stub_deep_clone(&e, &pre);
    match deref(&v, &pre) {
        Variable::Bool(x, sec) => { cover("ok"); ensure(match &r { Ok(Variable::Bool(y, Some(s))) => x == y && appended(s, sec, &item), _ => false }, "explain_why keeps the value and adds the reason") }
        _ => { cover("err"); ensure(r.is_err(), "explain_why of a non-bool is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_explain_where(mut rt: Runtime, v: Variable, e: Variable) {
    let v = argp(&mut rt, v, wsec());
    let e = argp(&mut rt, e, wany());
    require(ref_ok(&v, &rt.stack) && ref_ok(&e, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&e));
    let r = explain_where(&mut rt);
    let item = stub_deep_clone(&e, &pre);
    match deref(&v, &pre) {
        Variable::F64(x, sec) => { cover("ok"); ensure(match &r { Ok(Variable::F64(y, Some(s))) => same(x, y) && appended(s, sec, &item), _ => false }, "explain_where keeps the value and adds the reason") }
        _ => { cover("err"); ensure(r.is_err(), "explain_where of a non-number is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_and_also(mut rt: Runtime, a: Variable, b: Variable) {
    let a = argp(&mut rt, a, wsec());
    let b = argp(&mut rt, b, wsec());
    require(ref_ok(&a, &rt.stack) && ref_ok(&b, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&a));
    rt.stack.push(snap(&b));
    let r = and_also(&mut rt);
    match (deref(&a, &pre), deref(&b, &pre)) {
        (Variable::Bool(x, s), Variable::Bool(y, _)) => { cover("ok"); ensure(match &r { Ok(Variable::Bool(z, t)) => *z == (*x && *y) && same(s, t), _ => false }, "a && b is true iff both are, with the secret of a") }
        _ => { cover("err"); ensure(r.is_err(), "&& of non-bools is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_or_else(mut rt: Runtime, a: Variable, b: Variable) {
    let a = argp(&mut rt, a, wsec());
    let b = argp(&mut rt, b, wsec());
    require(ref_ok(&a, &rt.stack) && ref_ok(&b, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&a));
    rt.stack.push(snap(&b));
    let r = or_else(&mut rt);
    match (deref(&a, &pre), deref(&b, &pre)) {
        (Variable::Bool(x, s), Variable::Bool(y, _)) => { cover("ok"); ensure(match &r { Ok(Variable::Bool(z, t)) => *z == (*x || *y) && same(s, t), _ => false }, "a || b is true iff one of them is, with the secret of a") }
        _ => { cover("err"); ensure(r.is_err(), "|| of non-bools is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
/// Scripts reach the functions by their documented names and argument order.
pub fn nc_script_opt(x: Variable, b: Variable) {
    require(!matches!(x, Variable::Return) && !matches!(b, Variable::Return));
    let o = if any::<u8>() % 8 == 0 { b.clone() } else { wopt() };
    script_same("some", some, &[x.clone()]);
    script_same("ok", ok, &[x.clone()]);
    script_same("err", err, &[x.clone()]);
    script_same("is_err", is_err, &[o.clone()]);
    script_same("is_ok", is_ok, &[o.clone()]);
    script_same("unwrap", unwrap, &[o.clone()]);
    script_same("unwrap_or", unwrap_or, &[o.clone(), x.clone()]);
    script_same("unwrap_err", unwrap_err, &[o.clone()]);
    let sec = Some(Box::new((0..any::<u8>() % 3).map(|_| Variable::f64(any())).collect::<Vec<_>>()));
    let sb = Variable::Bool(any(), if any::<u8>() % 5 == 0 { None } else { sec.clone() });
    let sn = Variable::F64(any(), if any::<u8>() % 5 == 0 { None } else { sec });
    // a value without a secret does not have the type `sec[_]`: unpack inside the script by type any
    script_same("why", why, &[sb.clone()]);
    script_same("where", _where, &[sn.clone()]);
    script_same("explain_why", explain_why, &[sb.clone(), x.clone()]);
    script_same("explain_where", explain_where, &[sn.clone(), x.clone()]);
    // && and || evaluate the right operand only when it is needed
    let (p, q) = (any::<bool>(), any::<bool>());
    for (op, shown) in [("&&", p), ("||", !p)] {
        let r = run_fn(&format!("f(mut t, x: bool) = {{\npush(mut t, 1)\nclone(x)\n}}\nfn main(p: bool, q: bool) -> any {{\nt := []\nr := p {} f(mut t, q)\nreturn [clone(r), len(t)]\n}}\n", op), "main", &[Variable::bool(p), Variable::bool(q)]);
        let want = if op == "&&" { p && q } else { p || q };
        if !(match &r { Ok(Variable::Array(a)) => matches!(a[0], Variable::Bool(v, _) if v == want) && matches!(a[1], Variable::F64(n, _) if n == if shown { 1.0 } else { 0.0 }), _ => false }) {
            note(format!("{} {} {}: {:?}", p, op, q, r));
            ensure(false, "lazy logic gives the value and evaluates the right side only when needed");
        }
    }
}

native! {
    nc_script_opt: (Variable, Variable);
    vc_some: (Runtime, Variable); vc_ok: (Runtime, Variable); vc_err: (Runtime, Variable); vc_is_err: (Runtime, Variable); vc_is_ok: (Runtime, Variable);
    vc_unwrap: (Runtime, Variable); vc_unwrap_or: (Runtime, Variable, Variable); vc_unwrap_err: (Runtime, Variable); vc_why: (Runtime, Variable);
    vc_where: (Runtime, Variable); vc_explain_why: (Runtime, Variable, Variable); vc_explain_where: (Runtime, Variable, Variable);
    vc_and_also: (Runtime, Variable, Variable); vc_or_else: (Runtime, Variable, Variable);
}
