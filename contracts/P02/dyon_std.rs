// P02: the built-in link functions are the link operations (contracts on those: link.rs).
use super::*;
use crate::verif::*;
//@include rt.inc.rs

type R = Result<Variable, String>;
//@stub vc_rt_* dyon::link::Link::head stub_head
pub fn stub_head(l: &Link) -> Option<Box<Variable>> {
    if native() { l.head() } else { uf1("Link::head", l) }
}
//@stub vc_rt_* dyon::link::Link::tip stub_tip
pub fn stub_tip(l: &Link) -> Option<Box<Variable>> {
    if native() { l.tip() } else { uf1("Link::tip", l) }
}
//@stub vc_rt_* dyon::link::Link::tail stub_tail
pub fn stub_tail(l: &Link) -> Link {
    if native() { l.tail() } else { uf1("Link::tail", l) }
}
//@stub vc_rt_* dyon::link::Link::neck stub_neck
pub fn stub_neck(l: &Link) -> Link {
    if native() { l.neck() } else { uf1("Link::neck", l) }
}
//@stub vc_rt_* dyon::link::Link::is_empty stub_is_empty
pub fn stub_is_empty(l: &Link) -> bool {
    if native() { l.is_empty() } else { uf1("Link::is_empty", l) }
}
fn wlink() -> Variable {
    if native() { Variable::Link(any()) } else { Variable::Return }
}

pub fn vc_rt_head(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wlink());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = head(&mut rt);
    match deref(&v, &pre) {
        Variable::Link(l) => { cover("link"); ensure(match &r { Ok(Variable::Option(x)) => same(x, &stub_head(l)), _ => false }, "head of a link") }
        _ => { cover("err"); ensure(r.is_err(), "head of another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}

pub fn vc_rt_tip(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wlink());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = tip(&mut rt);
    match deref(&v, &pre) {
        Variable::Link(l) => { cover("link"); ensure(match &r { Ok(Variable::Option(x)) => same(x, &stub_tip(l)), _ => false }, "tip of a link") }
        _ => { cover("err"); ensure(r.is_err(), "tip of another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}

pub fn vc_rt_tail(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wlink());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = tail(&mut rt);
    match deref(&v, &pre) {
        Variable::Link(l) => { cover("link"); ensure(match &r { Ok(Variable::Link(x)) => same(&**x, &stub_tail(l)), _ => false }, "tail of a link") }
        _ => { cover("err"); ensure(r.is_err(), "tail of another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}

pub fn vc_rt_neck(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wlink());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = neck(&mut rt);
    match deref(&v, &pre) {
        Variable::Link(l) => { cover("link"); ensure(match &r { Ok(Variable::Link(x)) => same(&**x, &stub_neck(l)), _ => false }, "neck of a link") }
        _ => { cover("err"); ensure(r.is_err(), "neck of another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}

pub fn vc_rt_is_empty(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, wlink());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = is_empty(&mut rt);
    match deref(&v, &pre) {
        Variable::Link(l) => { cover("link"); ensure(match &r { Ok(Variable::Bool(x, None)) => *x == stub_is_empty(l), _ => false }, "is_empty of a link") }
        _ => { cover("err"); ensure(r.is_err(), "is_empty of another type is an error") }
    }
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}

/// Links built and taken apart by scripts.
pub fn nc_script_link(a: Vec<Variable>, b: Vec<Variable>) {
    let pick = |v: Vec<Variable>| -> Vec<Variable> {
        v.into_iter().map(|x| match x {
            Variable::F64(x, _) => Variable::f64(x),
            Variable::Bool(x, _) => Variable::bool(x),
            Variable::Str(s) => Variable::Str(s),
            _ => Variable::f64(7.0),
        }).collect()
    };
    let (mut a, b) = (pick(a), pick(b));
    let pad = if any::<u8>() % 4 == 0 { 120 + any::<usize>() % 12 } else { 0 };
    for i in 0..pad {
        a.insert(0, if i % 3 == 0 { Variable::bool(i % 2 == 0) } else { Variable::f64(i as f64) });
    }
    let names = |off: usize, n: usize| (0..n).map(|i| format!("a{}", off + i)).collect::<Vec<_>>().join(" ");
    let all: Vec<Variable> = a.iter().chain(b.iter()).cloned().collect();
    let (mk, args) = if pad == 0 {
        (format!("a := link {{ {} }}\nb := link {{ {} }}\n", names(0, a.len()), names(a.len(), b.len())), all.clone())
    } else {
        let lk = |v: &Vec<Variable>| { let mut l = Link::new(); for x in v { l.push(x).unwrap(); } Variable::Link(Box::new(l)) };
        ("a := a0\nb := a1\n".to_string(), vec![lk(&a), lk(&b)])
    };
    let items = |r: R| match r { Ok(Variable::Link(l)) => Some(link_items(&l)), _ => None };
    ensure(same(&items(run_body(&format!("{}return clone(a)", mk), &args)), &Some(a.clone())), "link { .. } holds its items in order");
    ensure(same(&items(run_body(&format!("{}return a + b", mk), &args)), &Some(all.clone())), "a + b is the concatenation");
    ensure(same(&items(run_body(&format!("{}return link {{ a b }}", mk), &args)), &Some(all.clone())), "link { a b } is the concatenation");
    ensure(same(&items(run_body(&format!("{}c := a + b\nreturn clone(a)", mk), &args)), &Some(a.clone())), "a + b changes neither");
    ensure(same(&items(run_body(&format!("{}c := tail(a)\nreturn clone(c)", mk), &args)), &Some(a.iter().skip(1).cloned().collect())), "tail drops the first item");
    ensure(same(&items(run_body(&format!("{}c := neck(a)\nreturn clone(c)", mk), &args)), &Some(a[..a.len().saturating_sub(1)].to_vec())), "neck drops the last item");
    let opt = |r: R| match r { Ok(Variable::Option(x)) => Some(x.map(|x| *x)), _ => None };
    ensure(same(&opt(run_body(&format!("{}return head(a)", mk), &args)), &Some(a.first().cloned())), "head is the first item");
    ensure(same(&opt(run_body(&format!("{}return tip(a)", mk), &args)), &Some(a.last().cloned())), "tip is the last item");
    ensure(match run_body(&format!("{}return is_empty(a)", mk), &args) { Ok(Variable::Bool(x, _)) => x == a.is_empty(), _ => false }, "is_empty");
}
native! { vc_rt_head: (Runtime, Variable); vc_rt_tip: (Runtime, Variable); vc_rt_tail: (Runtime, Variable); vc_rt_neck: (Runtime, Variable); vc_rt_is_empty: (Runtime, Variable);
    nc_script_link: (Vec<Variable>, Vec<Variable>); }
