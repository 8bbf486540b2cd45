// P11: values cross between a script and its host unchanged.
use super::*;
use crate::verif::*;
use crate::embed::{obj_field, ConvertMat4, ConvertVec4, PopVariable, PushVariable};
use crate::{dyon_fn, dyon_fn_pop, dyon_macro_items, dyon_obj, Dfn, Mat4, Object, Type, RustObject, Vec4};
extern crate self as dyon;
//@include rt.inc.rs

/// A host type of any kind: its conversions are unknown functions.  A contract on `Vec<Ab>` holds for `Vec<T>`, any `T`.
#[derive(Clone, Debug, PartialEq)]
pub struct Ab(u64);
impl Same for Ab { fn same_(&self, o: &Ab) -> bool { self.0 == o.0 } }
impl Gen for Ab { fn gen_(g: &mut G) -> Ab { Ab(f64::gen_(g).to_bits()) } }
impl PopVariable for Ab {
    fn pop_var(rt: &Runtime, var: &Variable) -> Result<Ab, String> {
        let r = ab(rt, var);
        if !native() && r.is_err() { gset("failed", true); }
        r
    }
}
fn ab(rt: &Runtime, var: &Variable) -> Result<Ab, String> {
    if native() { return <f64 as PopVariable>::pop_var(rt, var).map(|x| Ab(x.to_bits())); }
    uf1("pop_ab", var)
}
impl PushVariable for Ab {
    fn push_var(&self) -> Variable { ba(self) }
}
fn ba(x: &Ab) -> Variable {
    if native() { return Variable::f64(f64::from_bits(x.0)); }
    uf1("push_ab", x)
}
fn num() -> Variable { if native() { if any::<u8>() % 6 == 0 { any() } else { Variable::f64(any()) } } else { Variable::Return } }
fn nums() -> Variable {
    if native() { Variable::Array(Arc::new((0..below(6)).map(|_| num()).collect())) } else { Variable::Return }
}
/// What an item of an array gives.
fn it(rt: &Runtime, a: &Variable, i: usize) -> Result<Ab, String> {
    match a { Variable::Array(a) => { require(ref_ok(&a[i], &rt.stack)); ab(rt, deref(&a[i], &rt.stack)) } _ => unreachable!() }
}
fn items_ok(rt: &Runtime, a: &Variable) -> bool {
    if native() { return match a { Variable::Array(a) => a.iter().all(|x| ref_ok(x, &rt.stack)), _ => true }; }
    true
}
fn eq<T: Same>(a: &Result<T, String>, b: &T) -> bool { match a { Ok(x) => same(x, b), Err(_) => false } }

// ------------------------------------------------------------ plain values out of a script
macro_rules! pops {
    ($($vc:ident $t:ty, $want:expr, $p:pat => $e:expr;)*) => { $(
        pub fn $vc(rt: Runtime, v: Variable) {
            let v = if native() && any::<bool>() { $want } else { v };
            let r = <$t as PopVariable>::pop_var(&rt, &v);
            match v {
                $p => { cover("value"); ensure(eq(&r, &$e), "the host gets the value of the script"); }
                _ => { cover("other"); ensure(r.is_err(), "a value of another type is an error"); }
            }
        }
    )* };
}
pops! {
    vc_pop_bool bool, Variable::bool(any()), Variable::Bool(b, _) => b;
    vc_pop_string String, Variable::Str(any()), Variable::Str(ref s) => snap(&**s);
    vc_pop_arc_string Arc<String>, Variable::Str(any()), Variable::Str(ref s) => snap(s);
    vc_pop_u32 u32, Variable::f64(any()), Variable::F64(n, _) => n as u32;
    vc_pop_usize usize, Variable::f64(any()), Variable::F64(n, _) => n as usize;
    vc_pop_f32 f32, Variable::f64(any()), Variable::F64(n, _) => n as f32;
    vc_pop_f64 f64, Variable::f64(any()), Variable::F64(n, _) => n;
}
pub fn vc_pop_vec4(rt: Runtime, v: Variable) {
    let v = if native() && any::<bool>() { Variable::Vec4(any()) } else { v };
    let r = <Vec4 as PopVariable>::pop_var(&rt, &v).map(|x| x.0);
    match v {
        Variable::Vec4(x) => ensure(eq(&r, &x), "the host gets the value of the script"),
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
pub fn vc_pop_mat4(rt: Runtime, v: Variable) {
    let v = if native() && any::<bool>() { Variable::Mat4(any()) } else { v };
    let r = <Mat4 as PopVariable>::pop_var(&rt, &v).map(|x| x.0);
    match v {
        Variable::Mat4(x) => ensure(eq(&r, &*x), "the host gets the value of the script"),
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
// ------------------------------------------------------------ values made of values
/// `r` is what the conversions of the parts give, an error when one of them is.
pub fn vc_pop_option(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, if native() { Variable::Option(if any() { Some(Box::new(num())) } else { None }) } else { Variable::Return });
    require(match &v { Variable::Option(Some(x)) => ref_ok(x, &rt.stack), _ => true });
    let r = <Option<Ab> as PopVariable>::pop_var(&rt, &v);
    match &v {
        Variable::Option(Some(x)) => match ab(&rt, deref(x, &rt.stack)) {
            Ok(y) => ensure(matches!(&r, Ok(Some(z)) if same(z, &y)), "the host gets what the option holds"),
            Err(_) => ensure(r.is_err(), "a part of another type is an error"),
        },
        Variable::Option(None) => ensure(matches!(r, Ok(None)), "none is none"),
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
pub fn vc_pop_result(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, if native() { Variable::Result(if any() { Ok(Box::new(num())) } else { Err(Box::new(crate::Error { message: num(), trace: vec![] })) }) } else { Variable::Return });
    require(match &v { Variable::Result(Ok(x)) => ref_ok(x, &rt.stack), Variable::Result(Err(x)) => ref_ok(&x.message, &rt.stack), _ => true });
    let r = <Result<Ab, Ab> as PopVariable>::pop_var(&rt, &v);
    match &v {
        Variable::Result(Ok(x)) => match ab(&rt, deref(x, &rt.stack)) {
            Ok(y) => ensure(matches!(&r, Ok(Ok(z)) if same(z, &y)), "the host gets what the result holds"),
            Err(_) => ensure(r.is_err(), "a part of another type is an error"),
        },
        Variable::Result(Err(x)) => match ab(&rt, deref(&x.message, &rt.stack)) {
            Ok(y) => ensure(matches!(&r, Ok(Err(z)) if same(z, &y)), "the host gets the message of the error"),
            Err(_) => ensure(r.is_err(), "a part of another type is an error"),
        },
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
macro_rules! pops_n {
    ($($vc:ident $t:ty, $n:expr, $($f:tt $i:expr),*;)*) => { $(
        pub fn $vc(mut rt: Runtime, v: Variable) {
            let v = argp(&mut rt, v, nums());
            let v = if native() { snap(deref(&v, &rt.stack)) } else { v };
            require(match &v { Variable::Array(a) => true $(&& (a.len() <= $i || ref_ok(&a[$i], &rt.stack)))*, _ => true });
            let r = <$t as PopVariable>::pop_var(&rt, &v);
            match &v {
                Variable::Array(a) if a.len() >= $n => {
                    cover("array");
                    let all = true $(&& it(&rt, &v, $i).is_ok())*;
                    match &r {
                        Ok(x) => { $( ensure(matches!(&it(&rt, &v, $i), Ok(y) if same(y, &x.$f)), "the host gets the items in their order"); )* ensure(all, "an item of another type is an error"); }
                        Err(_) => ensure(!all, "an array of the right items is accepted"),
                    }
                }
                Variable::Array(_) => { cover("short"); ensure(r.is_err(), "an array that is too short is an error"); }
                _ => ensure(r.is_err(), "a value of another type is an error"),
            }
        }
    )* };
}
pops_n! {
    vc_pop_pair (Ab, Ab), 2, 0 0, 1 1;
    vc_pop_triple (Ab, Ab, Ab), 3, 0 0, 1 1, 2 2;
    vc_pop_quad (Ab, Ab, Ab, Ab), 4, 0 0, 1 1, 2 2, 3 3;
}
macro_rules! pops_a {
    ($($vc:ident $n:expr, $($i:expr),*;)*) => { $(
        pub fn $vc(mut rt: Runtime, v: Variable) {
            let v = argp(&mut rt, v, nums());
            let v = if native() { snap(deref(&v, &rt.stack)) } else { v };
            require(match &v { Variable::Array(a) => true $(&& (a.len() <= $i || ref_ok(&a[$i], &rt.stack)))*, _ => true });
            let r = <[Ab; $n] as PopVariable>::pop_var(&rt, &v);
            match &v {
                Variable::Array(a) if a.len() >= $n => {
                    let all = true $(&& it(&rt, &v, $i).is_ok())*;
                    match &r {
                        Ok(x) => { $( ensure(matches!(&it(&rt, &v, $i), Ok(y) if same(y, &x[$i])), "the host gets the items in their order"); )* ensure(all, "an item of another type is an error"); }
                        Err(_) => ensure(!all, "an array of the right items is accepted"),
                    }
                }
                Variable::Array(_) => { cover("short"); ensure(r.is_err(), "an array that is too short is an error"); }
                _ => ensure(r.is_err(), "a value of another type is an error"),
            }
        }
    )* };
}
pops_a! { vc_pop_array2 2, 0, 1; vc_pop_array3 3, 0, 1, 2; vc_pop_array4 4, 0, 1, 2, 3; }
/// References in a value point at slots that are there (P07).
//@stub vc_pop_vec dyon::runtime::Runtime::get stub_get
//@assume references inside an array that is converted point at live slots (P07)
pub fn stub_get<'a>(rt: &'a Runtime, var: &'a Variable) -> &'a Variable {
    if native() { return rt.get(var); }
    if let Variable::Ref(k) = var { require(*k < rt.stack.len()); &rt.stack[*k] } else { var }
}
/// A list of any length.
pub fn vc_pop_vec(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, nums());
    let v = if native() { snap(deref(&v, &rt.stack)) } else { v };
    require(items_ok(&rt, &v));
    if !native() {
        gset("failed", false);
    }
    let r = <Vec<Ab> as PopVariable>::pop_var(&rt, &v);
    match &v {
        Variable::Array(a) => match &r {
            Ok(x) => {
                ensure(x.len() == a.len(), "the host gets as many items as there are");
                let i = skolem();
                require(i < a.len());
                cover("item");
                ensure(matches!(&it(&rt, &v, i), Ok(y) if same(y, &x[i])), "the host gets the items in their order");
            }
            Err(_) => ensure(if native() { a.iter().any(|x| ab(&rt, deref(x, &rt.stack)).is_err()) } else { gget("failed") }, "an array of the right items is accepted"),
        },
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
// ------------------------------------------------------------ values into a script
pub fn vc_push_plain(b: bool, u: u32, n: usize, f: f64, s: Arc<String>) {
    ensure(matches!(b.push_var(), Variable::Bool(x, None) if x == b), "a bool is a bool");
    ensure(matches!(u.push_var(), Variable::F64(x, None) if same(&x, &f64::from(u))), "a u32 is its number");
    ensure(matches!(n.push_var(), Variable::F64(x, None) if same(&x, &(n as f64))), "a usize is its number");
    ensure(matches!(f.push_var(), Variable::F64(x, None) if same(&x, &f)), "a number is itself");
    let g = f as f32;
    ensure(matches!(g.push_var(), Variable::F64(x, None) if same(&x, &f64::from(g))), "an f32 is its number");
    ensure(matches!(s.push_var(), Variable::Str(ref x) if same(x, &s)), "a text is itself");
    ensure(matches!((*s).push_var(), Variable::Str(ref x) if same(x, &s)), "a text is itself");
}
pub fn vc_push_value(v: Variable) {
    ensure(same(&v.push_var(), &v), "a value is itself");
}
pub fn vc_push_option(v: Option<Ab>) {
    let r = v.push_var();
    match (&v, &r) {
        (None, Variable::Option(None)) => {}
        (Some(x), Variable::Option(Some(y))) => ensure(same(&**y, &ba(x)), "the script gets what the option holds"),
        _ => ensure(false, "an option is an option"),
    }
}
pub fn vc_push_result(v: Result<Ab, Ab>) {
    let r = v.push_var();
    match (&v, &r) {
        (Ok(x), Variable::Result(Ok(y))) => ensure(same(&**y, &ba(x)), "the script gets what the result holds"),
        (Err(x), Variable::Result(Err(y))) => ensure(same(&y.message, &ba(x)) && y.trace.len() == 0, "the script gets the error"),
        _ => ensure(false, "a result is a result"),
    }
}
fn pushed(r: &Variable, want: &[&Ab]) {
    match r {
        Variable::Array(a) => {
            ensure(a.len() == want.len(), "the script gets as many items as there are");
            let i = skolem();
            require(i < want.len());
            ensure(same(&a[i], &ba(want[i])), "the script gets the items in their order");
        }
        _ => ensure(false, "a list is an array"),
    }
}
pub fn vc_push_tuples(a: Ab, b: Ab, c: Ab, d: Ab) {
    pushed(&(a.clone(), b.clone()).push_var(), &[&a, &b]);
    pushed(&(a.clone(), b.clone(), c.clone()).push_var(), &[&a, &b, &c]);
    pushed(&(a.clone(), b.clone(), c.clone(), d.clone()).push_var(), &[&a, &b, &c, &d]);
}
pub fn vc_push_arrays(a: Ab, b: Ab, c: Ab, d: Ab) {
    pushed(&[a.clone(), b.clone()].push_var(), &[&a, &b]);
    pushed(&[a.clone(), b.clone(), c.clone()].push_var(), &[&a, &b, &c]);
    pushed(&[a.clone(), b.clone(), c.clone(), d.clone()].push_var(), &[&a, &b, &c, &d]);
}
pub fn vc_push_vec(v: Vec<Ab>) {
    match v.push_var() {
        Variable::Array(a) => {
            ensure(a.len() == v.len(), "the script gets as many items as there are");
            let i = skolem();
            require(i < v.len());
            cover("item");
            ensure(same(&a[i], &ba(&v[i])), "the script gets the items in their order");
        }
        _ => ensure(false, "a list is an array"),
    }
}
pub fn vc_push_vec4(v: [f32; 4], m: [[f32; 4]; 4]) {
    ensure(matches!(Vec4(v).push_var(), Variable::Vec4(x) if same(&x, &v)), "a vec4 is itself");
    ensure(matches!(Mat4(m).push_var(), Variable::Mat4(x) if same(&*x, &m)), "a mat4 is itself");
}
// ------------------------------------------------------------ vectors
/// Host vectors of fewer components are the first ones; the others are 0.
pub fn vc_convert_vec4(v: [f32; 4], d: [f64; 4]) {
    ensure(same(&<[f32; 2] as ConvertVec4>::from(v), &[v[0], v[1]]), "the first components");
    ensure(same(&<[f32; 3] as ConvertVec4>::from(v), &[v[0], v[1], v[2]]), "the first components");
    ensure(same(&<[f32; 4] as ConvertVec4>::from(v), &v), "all components");
    ensure(same(&<Vec4 as ConvertVec4>::from(v).0, &v), "all components");
    ensure(same(&<[f64; 2] as ConvertVec4>::from(v), &[v[0] as f64, v[1] as f64]), "the first components");
    ensure(same(&<[f64; 3] as ConvertVec4>::from(v), &[v[0] as f64, v[1] as f64, v[2] as f64]), "the first components");
    ensure(same(&<[f64; 4] as ConvertVec4>::from(v), &[v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64]), "all components");
    ensure(same(&ConvertVec4::to(&[v[0], v[1]]), &[v[0], v[1], 0.0, 0.0]), "two components and 0");
    ensure(same(&ConvertVec4::to(&[v[0], v[1], v[2]]), &[v[0], v[1], v[2], 0.0]), "three components and 0");
    ensure(same(&ConvertVec4::to(&v), &v), "all components");
    ensure(same(&ConvertVec4::to(&Vec4(v)), &v), "all components");
    ensure(same(&ConvertVec4::to(&[d[0], d[1]]), &[d[0] as f32, d[1] as f32, 0.0, 0.0]), "two components and 0");
    ensure(same(&ConvertVec4::to(&[d[0], d[1], d[2]]), &[d[0] as f32, d[1] as f32, d[2] as f32, 0.0]), "three components and 0");
    ensure(same(&ConvertVec4::to(&d), &[d[0] as f32, d[1] as f32, d[2] as f32, d[3] as f32]), "all components");
}
pub fn vc_convert_mat4(m: [[f32; 4]; 4]) {
    ensure(same(&<[[f32; 4]; 4] as ConvertMat4>::from(m), &m), "all components");
    ensure(same(&<Mat4 as ConvertMat4>::from(m).0, &m), "all components");
    ensure(same(&ConvertMat4::to(&m), &m), "all components");
    ensure(same(&ConvertMat4::to(&Mat4(m)), &m), "all components");
    ensure(same(&<Mat4 as From<[[f32; 4]; 4]>>::from(m).0, &m), "all components");
}
pub fn vc_vec4_from(v: [f32; 4], d: [f64; 4], u: [u32; 2], b: [u8; 4]) {
    let w = |x: Vec4, y: [f32; 4]| ensure(same(&x.0, &y), "a vec4 of the given components");
    w(<Vec4 as From<[f32; 2]>>::from([v[0], v[1]]), [v[0], v[1], 0.0, 0.0]);
    w(<Vec4 as From<[f32; 3]>>::from([v[0], v[1], v[2]]), [v[0], v[1], v[2], 0.0]);
    w(<Vec4 as From<[f32; 4]>>::from(v), v);
    w(<Vec4 as From<(f32, f32)>>::from((v[0], v[1])), [v[0], v[1], 0.0, 0.0]);
    w(<Vec4 as From<(f32, f32, f32)>>::from((v[0], v[1], v[2])), [v[0], v[1], v[2], 0.0]);
    w(<Vec4 as From<(f32, f32, f32, f32)>>::from((v[0], v[1], v[2], v[3])), v);
    let e = [d[0] as f32, d[1] as f32, d[2] as f32, d[3] as f32];
    w(<Vec4 as From<[f64; 2]>>::from([d[0], d[1]]), [e[0], e[1], 0.0, 0.0]);
    w(<Vec4 as From<[f64; 3]>>::from([d[0], d[1], d[2]]), [e[0], e[1], e[2], 0.0]);
    w(<Vec4 as From<[f64; 4]>>::from(d), e);
    w(<Vec4 as From<(f64, f64)>>::from((d[0], d[1])), [e[0], e[1], 0.0, 0.0]);
    w(<Vec4 as From<(f64, f64, f64)>>::from((d[0], d[1], d[2])), [e[0], e[1], e[2], 0.0]);
    w(<Vec4 as From<(f64, f64, f64, f64)>>::from((d[0], d[1], d[2], d[3])), e);
    w(<Vec4 as From<[u32; 2]>>::from(u), [u[0] as f32, u[1] as f32, 0.0, 0.0]);
    w(<Vec4 as From<(u32, u32)>>::from((u[0], u[1])), [u[0] as f32, u[1] as f32, 0.0, 0.0]);
    let c = [b[0] as f32 / 255.0, b[1] as f32 / 255.0, b[2] as f32 / 255.0, b[3] as f32 / 255.0];
    w(<Vec4 as From<[u8; 4]>>::from(b), c);
    w(<Vec4 as From<(u8, u8, u8, u8)>>::from((b[0], b[1], b[2], b[3])), c);
}
pub fn vc_vec4_into(v: [f32; 4]) {
    let m = "the components of the vec4";
    let d = [v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64];
    ensure(same(&Into::<[f32; 2]>::into(Vec4(v)), &[v[0], v[1]]), m);
    ensure(same(&Into::<[f32; 3]>::into(Vec4(v)), &[v[0], v[1], v[2]]), m);
    ensure(same(&Into::<[f32; 4]>::into(Vec4(v)), &v), m);
    ensure(same(&Into::<[f64; 2]>::into(Vec4(v)), &[d[0], d[1]]), m);
    ensure(same(&Into::<[f64; 3]>::into(Vec4(v)), &[d[0], d[1], d[2]]), m);
    ensure(same(&Into::<[f64; 4]>::into(Vec4(v)), &d), m);
    ensure(same(&Into::<(f32, f32)>::into(Vec4(v)), &(v[0], v[1])), m);
    ensure(same(&Into::<(f32, f32, f32)>::into(Vec4(v)), &(v[0], v[1], v[2])), m);
    let t: (f32, f32, f32, f32) = Vec4(v).into();
    ensure(same(&[t.0, t.1, t.2, t.3], &v), m);
    ensure(same(&Into::<(f64, f64)>::into(Vec4(v)), &(d[0], d[1])), m);
    ensure(same(&Into::<(f64, f64, f64)>::into(Vec4(v)), &(d[0], d[1], d[2])), m);
    let t: (f64, f64, f64, f64) = Vec4(v).into();
    ensure(same(&[t.0, t.1, t.2, t.3], &d), m);
    let u = [v[0] as u32, v[1] as u32];
    ensure(Into::<[u32; 2]>::into(Vec4(v)) == u, m);
    ensure(Into::<(u32, u32)>::into(Vec4(v)) == (u[0], u[1]), m);
    let b = [(v[0] * 255.0) as u8, (v[1] * 255.0) as u8, (v[2] * 255.0) as u8, (v[3] * 255.0) as u8];
    ensure(Into::<[u8; 4]>::into(Vec4(v)) == b, m);
    let t: (u8, u8, u8, u8) = Vec4(v).into();
    ensure([t.0, t.1, t.2, t.3] == b, m);
}
// ------------------------------------------------------------ the stack as seen by a host function
pub fn vc_rt_pop(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, num());
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r: Result<Ab, String> = rt.pop();
    ensure(same(&r.is_ok(), &ab(&rt, deref(&v, &pre)).is_ok()) && (r.is_err() || same(&r.ok(), &ab(&rt, deref(&v, &pre)).ok())), "pop gives the last value");
    ensure(frame(&rt, &pre), "pop removes the last value and nothing else");
}
pub fn vc_rt_var(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, num());
    require(ref_ok(&v, &rt.stack));
    let r: Result<Ab, String> = rt.var(&v);
    let w = ab(&rt, deref(&v, &rt.stack));
    ensure(r.is_ok() == w.is_ok() && (r.is_err() || same(&r.ok(), &w.ok())), "var gives the value");
}
pub fn vc_rt_vec4(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, if native() { Variable::Vec4(any()) } else { Variable::Return });
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    let a: Result<[f32; 4], String> = rt.var_vec4(&v);
    rt.stack.push(snap(&v));
    let b: Result<[f32; 4], String> = rt.pop_vec4();
    match deref(&v, &pre) {
        Variable::Vec4(x) => ensure(eq(&a, x) && eq(&b, x), "the host gets the vec4 of the script"),
        _ => ensure(a.is_err() && b.is_err(), "a value of another type is an error"),
    }
    ensure(frame(&rt, &pre), "pop removes the last value and nothing else");
}
pub fn vc_rt_mat4(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, if native() { Variable::Mat4(any()) } else { Variable::Return });
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    let a: Result<[[f32; 4]; 4], String> = rt.var_mat4(&v);
    rt.stack.push(snap(&v));
    let b: Result<[[f32; 4]; 4], String> = rt.pop_mat4();
    match deref(&v, &pre) {
        Variable::Mat4(x) => ensure(eq(&a, &**x) && eq(&b, &**x), "the host gets the mat4 of the script"),
        _ => ensure(a.is_err() && b.is_err(), "a value of another type is an error"),
    }
    ensure(frame(&rt, &pre), "pop removes the last value and nothing else");
}
pub fn vc_rt_push(mut rt: Runtime, x: Ab, v: [f32; 4], m: [[f32; 4]; 4]) {
    let pre = snap(&rt.stack);
    rt.push(x.clone());
    ensure(matches!(rt.stack.pop(), Some(y) if same(&y, &ba(&x))), "push adds the value");
    ensure(frame(&rt, &pre), "push changes nothing else");
    rt.push_vec4(v);
    ensure(matches!(rt.stack.pop(), Some(Variable::Vec4(y)) if same(&y, &v)), "push adds the value");
    ensure(frame(&rt, &pre), "push changes nothing else");
    rt.push_mat4(m);
    ensure(matches!(rt.stack.pop(), Some(Variable::Mat4(y)) if same(&*y, &m)), "push adds the value");
    ensure(frame(&rt, &pre), "push changes nothing else");
}
/// The current object a host function sees is the one declared last.
pub fn vc_rt_current(mut rt: Runtime, name: Arc<String>, k: usize) {
    if native() {
        for _ in 0..below(5) {
            let n = rt.stack.len();
            rt.stack.push(num());
            rt.current_stack.push((Arc::new(["a", "b"][below(2)].to_string()), n));
        }
        havoc_cur(&mut rt);
    }
    let name = if native() { Arc::new(["a", "b", "c"][below(3)].to_string()) } else { name };
    let n = rt.current_stack.len();
    let k = if native() { (0..n).rev().find(|&i| rt.current_stack[i].0 == name).unwrap_or(n) } else { k };
    require(k <= n);
    if !native() {
        // found among the last two, or the only ones there are
        require(k + 2 >= n && (k < n || n <= 2));
        require(k == n || rt.current_stack[k].0 == name);
        require(n == 0 || k + 1 >= n || rt.current_stack[n - 1].0 != name);
        require(k < n || ((n < 1 || rt.current_stack[0].0 != name) && (n < 2 || rt.current_stack[1].0 != name)));
    }
    if k < n { let i = rt.current_stack[k].1; require(i < rt.stack.len()); require(ref_ok(&rt.stack[i], &rt.stack)); }
    let r: Result<Ab, String> = rt.current_object(&name);
    if k < n {
        cover("found");
        let w = ab(&rt, deref(&rt.stack[rt.current_stack[k].1], &rt.stack));
        ensure(r.is_ok() == w.is_ok() && (r.is_err() || same(&r.ok(), &w.ok())), "the current object is the one declared last");
    } else {
        cover("none");
        ensure(r.is_err(), "a current object that is not there is an error");
    }
}
fn havoc_cur(_rt: &mut Runtime) {}
// ------------------------------------------------------------ objects
pub fn vc_obj_field(rt: Runtime, obj: Object, name: Arc<String>) {
    let mut obj = obj;
    if native() && any() { Arc::make_mut(&mut obj).insert(name.clone(), num()); }
    if native() && any() && !rt.stack.is_empty() { let k = below(rt.stack.len()); Arc::make_mut(&mut obj).insert(name.clone(), Variable::Ref(k)); }
    if let Some(v) = obj.get(&name) { require(ref_ok(v, &rt.stack)); }
    let r: Result<Ab, String> = obj_field(&rt, &obj, &name);
    match obj.get(&name) {
        Some(v) => {
            cover("found");
            let w = ab(&rt, deref(v, &rt.stack));
            ensure(r.is_ok() == w.is_ok() && (r.is_err() || same(&r.ok(), &w.ok())), "a field is the value under its name");
        }
        None => ensure(r.is_err(), "a missing field is an error"),
    }
}
#[derive(Clone, Debug)]
pub struct Rec { a: Ab, b: Ab, c: Ab }
dyon_obj! { Rec { a, b, c } }
fn field(rt: &Runtime, o: &Object, k: &str) -> Result<Ab, String> {
    match o.get(&Arc::new(k.into())) { Some(v) => ab(rt, deref(v, &rt.stack)), None => Err(String::new()) }
}
fn live(rt: &Runtime, o: &Object, k: &str) { if let Some(x) = o.get(&Arc::new(k.into())) { require(ref_ok(x, &rt.stack)); } }
pub fn vc_obj_pop(mut rt: Runtime, v: Variable) {
    if native() {
        let mut o = HashMap::new();
        for k in ["a", "b", "c", "d"] { if below(6) > 0 {
            let x = if below(3) == 0 { rt.stack.push(num()); Variable::Ref(rt.stack.len() - 1) } else { num() };
            if ref_ok(&x, &rt.stack) { o.insert(Arc::new(k.to_string()), x); }
        } }
        rt.stack.push(Variable::Object(Arc::new(o)));
    }
    let v = if native() && below(8) > 0 { Variable::Ref(rt.stack.len() - 1) } else { v };
    require(ref_ok(&v, &rt.stack));
    if let Variable::Object(o) = deref(&v, &rt.stack) {
        live(&rt, o, "a");
        live(&rt, o, "b");
        live(&rt, o, "c");
    }
    let r = <Rec as PopVariable>::pop_var(&rt, &v);
    match deref(&v, &rt.stack) {
        Variable::Object(o) => {
            let w = [field(&rt, o, "a"), field(&rt, o, "b"), field(&rt, o, "c")];
            match &r {
                Ok(x) => { cover("object"); ensure(eq(&w[0], &x.a) && eq(&w[1], &x.b) && eq(&w[2], &x.c), "each field is the value under its name"); }
                Err(_) => ensure(w[0].is_err() || w[1].is_err() || w[2].is_err(), "an object with the fields is accepted"),
            }
        }
        _ => ensure(r.is_err(), "a value of another type is an error"),
    }
}
pub fn vc_obj_push(a: Ab, b: Ab, c: Ab, q: Arc<String>) {
    let r = Rec { a: a.clone(), b: b.clone(), c: c.clone() }.push_var();
    match r {
        Variable::Object(o) => {
            let at = |k: &str| o.get(&Arc::new(k.into())).map(|x| snap(x));
            ensure(same(&at("a"), &Some(ba(&a))) && same(&at("b"), &Some(ba(&b))) && same(&at("c"), &Some(ba(&c))), "the object has each field under its name");
            let k = |k: &str| Arc::new(k.into());
            require(q != k("a") && q != k("b") && q != k("c"));
            ensure(o.get(&q).is_none(), "the object has no other keys");
        }
        _ => ensure(false, "a host object is an object"),
    }
}
// ------------------------------------------------------------ host functions
dyon_fn! { fn host3(a: Ab, b: Ab, c: Ab) -> (Ab, Ab, Ab) { (a, b, c) } }
dyon_fn! { fn host2(a: Ab, b: Ab) { hosted(a, b) } }
fn hosted(a: Ab, b: Ab) {
    if native() { HOSTED.with(|h| *h.borrow_mut() = Some((a, b))) } else { gset("a", a); gset("b", b); }
}
thread_local! { static HOSTED: std::cell::RefCell<Option<(Ab, Ab)>> = std::cell::RefCell::new(None); }
pub fn vc_host_fn(mut rt: Runtime, a: Variable, b: Variable, c: Variable) {
    let a = argp(&mut rt, a, num());
    let b = argp(&mut rt, b, num());
    let c = argp(&mut rt, c, num());
    require(ref_ok(&a, &rt.stack) && ref_ok(&b, &rt.stack) && ref_ok(&c, &rt.stack));
    let pre = snap(&rt.stack);
    let w = [ab(&rt, deref(&a, &pre)), ab(&rt, deref(&b, &pre)), ab(&rt, deref(&c, &pre))];
    rt.stack.push(snap(&a));
    rt.stack.push(snap(&b));
    rt.stack.push(snap(&c));
    let r = host3(&mut rt);
    match (&w[0], &w[1], &w[2], &r) {
        (Ok(x), Ok(y), Ok(z), Ok(Variable::Array(v))) => {
            cover("called");
            ensure(v.len() == 3 && same(&v[0], &ba(x)) && same(&v[1], &ba(y)) && same(&v[2], &ba(z)), "a host function gets its arguments in order and gives its result");
            ensure(frame(&rt, &pre), "a host function takes its arguments and nothing else");
        }
        (Ok(_), Ok(_), Ok(_), _) => ensure(false, "a host function is called with arguments of its types"),
        _ => ensure(r.is_err(), "an argument of another type is an error"),
    }
}
pub fn vc_host_void(mut rt: Runtime, a: Variable, b: Variable) {
    let a = argp(&mut rt, a, num());
    let b = argp(&mut rt, b, num());
    require(ref_ok(&a, &rt.stack) && ref_ok(&b, &rt.stack));
    let pre = snap(&rt.stack);
    let w = [ab(&rt, deref(&a, &pre)), ab(&rt, deref(&b, &pre))];
    rt.stack.push(snap(&a));
    rt.stack.push(snap(&b));
    let r = host2(&mut rt);
    match (&w[0], &w[1], &r) {
        (Ok(x), Ok(y), Ok(())) => {
            cover("called");
            let got: (Ab, Ab) = if native() { HOSTED.with(|h| h.borrow_mut().take().unwrap()) } else { (gget("a"), gget("b")) };
            ensure(same(&got.0, x) && same(&got.1, y), "a host function gets its arguments in order");
            ensure(frame(&rt, &pre), "a host function takes its arguments and nothing else");
        }
        (Ok(_), Ok(_), _) => ensure(false, "a host function is called with arguments of its types"),
        _ => ensure(r.is_err(), "an argument of another type is an error"),
    }
}
// ------------------------------------------------------------ calls by the host
//@stub vc_call_str* dyon::runtime::Runtime::call_internal stub_internal
//@stub vc_call_str* dyon::module::Module::find_function stub_find
//@stub vc_call_str* dyon::module::Module::error stub_error
//@stub vc_call_str* dyon::runtime::Runtime::stack_trace stub_trace
//@assume what a call does (call_internal) is under contract in P08; the text of errors is not specified
impl Same for Module { fn same_(&self, _: &Module) -> bool { unimplemented!() } }
impl Gen for Module { fn gen_(_: &mut G) -> Module { unimplemented!() } }
impl Gen for Call { fn gen_(_: &mut G) -> Call { unimplemented!() } }
impl Gen for Flow { fn gen_(_: &mut G) -> Flow { unimplemented!() } }
pub fn stub_internal(rt: &mut Runtime, call: &ast::Call, loader: bool) -> FlowResult {
    let want: Vec<Variable> = gget("args");
    ensure(loader, "a call by the host is not relative to a calling function");
    ensure(call.args.len() == want.len(), "a called function gets the arguments it is given");
    ensure(matches!((&call.f_index, &gget::<FnIndex>("f")), (FnIndex::Loaded(a), FnIndex::Loaded(b)) if a == b) || !matches!(gget::<FnIndex>("f"), FnIndex::Loaded(_)), "the function that is called is the one of the name");
    let i = skolem();
    if i < want.len() {
        ensure(matches!(&call.args[i], ast::Expression::Variable(x) if same(&x.1, &want[i])), "a called function gets its arguments in order");
    }
    ensure(same(&rt.module, &gget("module")), "a called function runs in its module");
    // what it does to the stacks of calls is undone
    if any() { rt.call_stack.push(any()); }
    rt.module = any();
    let r: FlowResult = any();
    let v: Option<Variable> = match &r { Ok((Some(x), Flow::Continue)) => Some(snap(x)), _ => None };
    gset("value", v);
    gset("ok", r.is_ok());
    r
}
pub fn stub_find(m: &Module, name: &Arc<String>, relative: usize) -> FnIndex {
    let _ = (m, relative);
    ensure(same(name, &gget("name")) && relative == 0, "the function that is called is the one of the name");
    gget("f")
}
pub fn stub_error(_m: &Module, _r: Range, _s: &str, _rt: &Runtime) -> String { any() }
pub fn stub_trace(_rt: &Runtime) -> String { any() }
fn host_call(rt: &Runtime, name: &Arc<String>, args: &Vec<Variable>, m: &Arc<Module>, f: FnIndex) {
    gset("args", snap(args));
    gset("name", snap(name));
    gset("module", snap(m));
    if let FnIndex::Loaded(k) = f { require(k >= 0 && (k as usize) < m.functions.len()); }
    gset("f", f);
    let _ = rt;
    let v: Option<Variable> = None;
    gset("value", v);
    gset("ok", false);
}
pub fn vc_call_str(mut rt: Runtime, name: Arc<String>, args: Vec<Variable>, m: Arc<Module>, f: FnIndex) {
    host_call(&rt, &name, &args, &m, f);
    let (n, old) = (rt.call_stack.len(), snap(&rt.module));
    let got = rt.call_str(&name, &args, &m);
    ensure(got.is_ok() == gget::<bool>("ok"), "an error in a call is an error to the host");
    ensure(rt.call_stack.len() <= n && same(&rt.module, &old), "a call leaves the module and the calls as they were");
}
pub fn vc_call_str_ret(mut rt: Runtime, name: Arc<String>, args: Vec<Variable>, m: Arc<Module>, f: FnIndex) {
    host_call(&rt, &name, &args, &m, f);
    let (n, old) = (rt.call_stack.len(), snap(&rt.module));
    let got = rt.call_str_ret(&name, &args, &m);
    let want: Option<Variable> = gget("value");
    match &want {
        Some(x) => { cover("value"); ensure(matches!(&got, Ok(y) if same(x, y)), "the host gets the result of the function"); }
        _ => ensure(got.is_err(), "a call without a result is an error to the host"),
    }
    ensure(rt.call_stack.len() == n && same(&rt.module, &old), "a call leaves the module and the calls as they were");
}
/// Natively: a script that calls host functions, and a host that calls the script.
pub fn nc_host() {
    fn val(d: usize) -> Variable {
        match below(if d == 0 { 6 } else { 9 }) {
            0 => Variable::bool(any()),
            1 | 2 => Variable::f64(any()),
            3 => Variable::Str(any()),
            4 => Variable::Vec4(any()),
            5 => Variable::Mat4(any()),
            6 => Variable::Array(Arc::new((0..below(4)).map(|_| val(d - 1)).collect())),
            7 => Variable::Option(if any() { Some(Box::new(val(d - 1))) } else { None }),
            _ => { let mut o = HashMap::new(); for k in ["a", "b", "c"] { if any() { o.insert(Arc::new(k.to_string()), val(d - 1)); } } Variable::Object(Arc::new(o)) }
        }
    }
    dyon_fn! { fn h_bool(x: bool) -> bool { x } }
    dyon_fn! { fn h_f64(x: f64) -> f64 { x } }
    dyon_fn! { fn h_str(x: Arc<String>) -> Arc<String> { x } }
    dyon_fn! { fn h_vec(x: Vec<Variable>) -> Vec<Variable> { x } }
    dyon_fn! { fn h_opt(x: Option<Variable>) -> Option<Variable> { x } }
    dyon_fn! { fn h_vec4(x: Vec4) -> Vec4 { x } }
    dyon_fn! { fn h_mat4(x: Mat4) -> Mat4 { x } }
    dyon_fn! { fn h_any(x: Variable) -> Variable { x } }
    dyon_fn! { fn h_two(x: f64, y: Arc<String>) -> (f64, Arc<String>) { (x, y) } }
    dyon_fn! { fn h_note(x: f64, y: Variable) { LAST.with(|l| l.borrow_mut().push((x, y))) } }
    thread_local! { static LAST: std::cell::RefCell<Vec<(f64, Variable)>> = std::cell::RefCell::new(vec![]); }
    thread_local! { static M: Arc<Module> = {
        let mut m = Module::new();
        let t = || Dfn::nl(vec![Type::Any], Type::Any);
        m.add_str("h_bool", h_bool, t()); m.add_str("h_f64", h_f64, t()); m.add_str("h_str", h_str, t());
        m.add_str("h_vec", h_vec, t()); m.add_str("h_opt", h_opt, t()); m.add_str("h_vec4", h_vec4, t());
        m.add_str("h_mat4", h_mat4, t()); m.add_str("h_any", h_any, t());
        m.add_str("h_two", h_two, Dfn::nl(vec![Type::Any, Type::Any], Type::Any));
        m.add_str("h_note", h_note, Dfn::nl(vec![Type::F64, Type::Any], Type::Void));
        let mut src = String::from("fn three(a, b, c) -> any { return [clone(a), clone(b), clone(c)] }\nfn two(a, b) -> any { return h_two(a, b) }\nfn log(a, b) {\nh_note(1, a)\nh_note(2, b)\n}\nfn bad(a) -> any { return unwrap(none()) }\n");
        for h in ["bool", "f64", "str", "vec", "opt", "vec4", "mat4", "any"] {
            src.push_str(&format!("fn by_{0}(a) -> any {{\nx := h_{0}(a)\nreturn [clone(x), clone(a)]\n}}\n", h));
        }
        crate::load_str("host.dyon", Arc::new(src), &mut m).unwrap();
        Arc::new(m)
    } }
    let m = M.with(|m| m.clone());
    let mut rt = Runtime::new();
    for _ in 0..4 {
        match below(6) {
            0 => {
                let (a, b, c) = (val(2), val(2), val(2));
                note(format!("three {:?} {:?} {:?}", a, b, c));
                let r = rt.call_str_ret("three", &[a.clone(), b.clone(), c.clone()], &m);
                note(format!("gives {:?}", r));
                ensure(eq(&r, &Variable::Array(Arc::new(vec![a, b, c]))), "a called function gets its arguments in order, and the host its result");
            }
            1 => {
                let (a, b) = (val(2), val(2));
                note(format!("log {:?} {:?}", a, b));
                LAST.with(|l| l.borrow_mut().clear());
                ensure(rt.call_str("log", &[a.clone(), b.clone()], &m).is_ok(), "a function is called");
                let l = LAST.with(|l| l.borrow().clone());
                ensure(l.len() == 2 && l[0].0 == 1.0 && same(&l[0].1, &a) && l[1].0 == 2.0 && same(&l[1].1, &b), "a host function gets the arguments of the call, once and in order");
            }
            2 => {
                let (a, b) = (val(1), val(1));
                note(format!("two {:?} {:?}", a, b));
                let r = rt.call_str_ret("two", &[a.clone(), b.clone()], &m);
                if let (Variable::F64(..), Variable::Str(_)) = (&a, &b) { ensure(eq(&r, &Variable::Array(Arc::new(vec![a, b]))), "a host function gets its arguments in order, and the script its result"); }
                else { ensure(r.is_err(), "an argument of another type is an error"); rt = Runtime::new(); }
            }
            3 => {
                ensure(rt.call_str_ret("nothing", &[], &m).is_err() && rt.call_str("nothing", &[], &m).is_err(), "a function that is not there is an error");
                ensure(rt.call_str_ret("bad", &[val(1)], &m).is_err() && rt.call_str_ret("three", &[val(1)], &m).is_err(), "an error in a call is an error to the host");
                ensure(rt.call_stack.is_empty(), "an error leaves no call behind");
                rt = Runtime::new();
            }
            _ => {
                let a = val(2);
                note(format!("by {:?}", a));
                for (h, f) in [("bool", matches!(a, Variable::Bool(..))), ("f64", matches!(a, Variable::F64(..))), ("str", matches!(a, Variable::Str(_))), ("vec", matches!(a, Variable::Array(_))),
                    ("opt", matches!(a, Variable::Option(_))), ("vec4", matches!(a, Variable::Vec4(_))), ("mat4", matches!(a, Variable::Mat4(_))), ("any", true)] {
                    let r = rt.call_str_ret(&format!("by_{}", h), &[a.clone()], &m);
                    if f { ensure(eq(&r, &Variable::Array(Arc::new(vec![a.clone(), a.clone()]))), "a value given to a host function and back is the same value"); }
                    else { ensure(r.is_err(), "a value of another type is an error to a host function"); rt = Runtime::new(); }
                }
            }
        }
        ensure(rt.stack.is_empty() && rt.local_stack.is_empty() && rt.current_stack.is_empty() && rt.call_stack.is_empty(), "a call by the host leaves the stacks as they were");
    }
}
native! {
    nc_host: ();
    vc_pop_vec4: (Runtime, Variable);
    vc_pop_mat4: (Runtime, Variable);
    vc_pop_option: (Runtime, Variable);
    vc_pop_result: (Runtime, Variable);
    vc_pop_vec: (Runtime, Variable);
    vc_push_plain: (bool, u32, usize, f64, Arc<String>);
    vc_push_value: (Variable);
    vc_push_option: (Option<Ab>);
    vc_push_result: (Result<Ab, Ab>);
    vc_push_tuples: (Ab, Ab, Ab, Ab);
    vc_push_arrays: (Ab, Ab, Ab, Ab);
    vc_push_vec: (Vec<Ab>);
    vc_push_vec4: ([f32; 4], [[f32; 4]; 4]);
    vc_convert_vec4: ([f32; 4], [f64; 4]);
    vc_convert_mat4: ([[f32; 4]; 4]);
    vc_vec4_from: ([f32; 4], [f64; 4], [u32; 2], [u8; 4]);
    vc_vec4_into: ([f32; 4]);
    vc_rt_pop: (Runtime, Variable);
    vc_rt_var: (Runtime, Variable);
    vc_rt_vec4: (Runtime, Variable);
    vc_rt_mat4: (Runtime, Variable);
    vc_rt_push: (Runtime, Ab, [f32; 4], [[f32; 4]; 4]);
    vc_rt_current: (Runtime, Arc<String>, usize);
    vc_obj_field: (Runtime, Object, Arc<String>);
    vc_obj_pop: (Runtime, Variable);
    vc_obj_push: (Ab, Ab, Ab, Arc<String>);
    vc_host_fn: (Runtime, Variable, Variable, Variable);
    vc_host_void: (Runtime, Variable, Variable);
    vc_pop_bool: (Runtime, Variable);
    vc_pop_string: (Runtime, Variable);
    vc_pop_arc_string: (Runtime, Variable);
    vc_pop_u32: (Runtime, Variable);
    vc_pop_usize: (Runtime, Variable);
    vc_pop_f32: (Runtime, Variable);
    vc_pop_f64: (Runtime, Variable);
    vc_pop_pair: (Runtime, Variable);
    vc_pop_triple: (Runtime, Variable);
    vc_pop_quad: (Runtime, Variable);
    vc_pop_array2: (Runtime, Variable);
    vc_pop_array3: (Runtime, Variable);
    vc_pop_array4: (Runtime, Variable);
}
