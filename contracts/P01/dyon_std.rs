// P01: operators.  Each contract states the complete result of one operator for every pair of
// operand variants: the value, the secret that survives, and the error cases.
use super::*;
use crate::verif::*;

type R = Result<Variable, String>;
type Sec = Option<Box<Vec<Variable>>>;

fn is_f64(r: &R, x: f64, sec: &Sec) -> bool {
    match r {
        Ok(Variable::F64(y, s)) => same(y, &x) && same(s, sec),
        _ => false,
    }
}
fn is_bool(r: &R, x: bool, sec: &Sec) -> bool {
    match r {
        Ok(Variable::Bool(y, s)) => *y == x && same(s, sec),
        _ => false,
    }
}
fn is_vec4(r: &R, x: [f32; 4]) -> bool {
    match r {
        Ok(Variable::Vec4(y)) => same(&y[0], &x[0]) && same(&y[1], &x[1]) && same(&y[2], &x[2]) && same(&y[3], &x[3]),
        _ => false,
    }
}
fn row(a: &[f32; 4], b: &[f32; 4]) -> bool {
    same(&a[0], &b[0]) && same(&a[1], &b[1]) && same(&a[2], &b[2]) && same(&a[3], &b[3])
}
fn is_mat4(r: &R, x: [[f32; 4]; 4]) -> bool {
    match r {
        Ok(Variable::Mat4(y)) => row(&y[0], &x[0]) && row(&y[1], &x[1]) && row(&y[2], &x[2]) && row(&y[3], &x[3]),
        _ => false,
    }
}
fn map4(a: [f32; 4], f: fn(f32) -> f32) -> [f32; 4] {
    [f(a[0]), f(a[1]), f(a[2]), f(a[3])]
}
fn zip4(a: [f32; 4], b: [f32; 4], f: fn(f32, f32) -> f32) -> [f32; 4] {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]
}
fn zip44(a: [[f32; 4]; 4], b: [[f32; 4]; 4], f: fn(f32, f32) -> f32) -> [[f32; 4]; 4] {
    [zip4(a[0], b[0], f), zip4(a[1], b[1], f), zip4(a[2], b[2], f), zip4(a[3], b[3], f)]
}
fn splat(x: f64) -> [f32; 4] {
    let x = x as f32;
    [x, x, x, x]
}
fn splat2(x: f64) -> [[f32; 4]; 4] {
    [splat(x), splat(x), splat(x), splat(x)]
}
fn addf(a: f32, b: f32) -> f32 { a + b }
fn subf(a: f32, b: f32) -> f32 { a - b }
fn mulf(a: f32, b: f32) -> f32 { a * b }
fn divf(a: f32, b: f32) -> f32 { a / b }
fn remf(a: f32, b: f32) -> f32 { a % b }
fn powf_(a: f32, b: f32) -> f32 { a.powf(b) }
fn negf(a: f32) -> f32 { -a }

pub fn vc_less(a: Variable, b: Variable) {
    let r = less(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_bool(&r, *x < *y, s), "a < b compares f64 and keeps the left secret") }
        (Variable::Str(x), Variable::Str(y)) => { cover("str"); ensure(is_bool(&r, x < y, &None), "a < b compares str lexicographically") }
        _ => { cover("err"); ensure(r.is_err(), "a < b is an error on other operands") }
    }
}
pub fn vc_less_or_equal(a: Variable, b: Variable) {
    let r = less_or_equal(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_bool(&r, *x <= *y, s), "a <= b compares f64 and keeps the left secret") }
        (Variable::Str(x), Variable::Str(y)) => { cover("str"); ensure(is_bool(&r, x <= y, &None), "a <= b compares str lexicographically") }
        _ => { cover("err"); ensure(r.is_err(), "a <= b is an error on other operands") }
    }
}
pub fn vc_greater(a: Variable, b: Variable) {
    let r = greater(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_bool(&r, *x > *y, s), "a > b compares f64 and keeps the left secret") }
        (Variable::Str(x), Variable::Str(y)) => { cover("str"); ensure(is_bool(&r, x > y, &None), "a > b compares str lexicographically") }
        _ => { cover("err"); ensure(r.is_err(), "a > b is an error on other operands") }
    }
}
pub fn vc_greater_or_equal(a: Variable, b: Variable) {
    let r = greater_or_equal(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_bool(&r, *x >= *y, s), "a >= b compares f64 and keeps the left secret") }
        (Variable::Str(x), Variable::Str(y)) => { cover("str"); ensure(is_bool(&r, x >= y, &None), "a >= b compares str lexicographically") }
        _ => { cover("err"); ensure(r.is_err(), "a >= b is an error on other operands") }
    }
}
fn eq_domain(a: &Variable, b: &Variable) -> bool {
    matches!((a, b), (Variable::F64(..), Variable::F64(..)) | (Variable::Str(..), Variable::Str(..)) | (Variable::Bool(..), Variable::Bool(..))
        | (Variable::Vec4(..), Variable::Vec4(..)) | (Variable::Object(..), Variable::Object(..)) | (Variable::Array(..), Variable::Array(..)) | (Variable::Option(..), Variable::Option(..)))
}
pub fn vc_equal(a: Variable, b: Variable) {
    // containers are covered by their own contracts below
    require(!matches!((&a, &b), (Variable::Object(..), Variable::Object(..)) | (Variable::Array(..), Variable::Array(..)) | (Variable::Option(Some(_)), Variable::Option(Some(_)))));
    let r = equal(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_bool(&r, *x == *y, s), "a == b on f64") }
        (Variable::Bool(x, s), Variable::Bool(y, _)) => ensure(is_bool(&r, *x == *y, s), "a == b on bool"),
        (Variable::Str(x), Variable::Str(y)) => ensure(is_bool(&r, x == y, &None), "a == b on str"),
        (Variable::Vec4(x), Variable::Vec4(y)) => {
            let e = x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3];
            ensure(is_bool(&r, e, &None), "a == b on vec4 compares all components")
        }
        (Variable::Option(None), Variable::Option(None)) => ensure(is_bool(&r, true, &None), "none() == none()"),
        (Variable::Option(_), Variable::Option(_)) => ensure(is_bool(&r, false, &None), "none() != some(x)"),
        _ => { cover("err"); ensure(r.is_err(), "a == b is an error on other operands") }
    }
}
// Contract of `equal` used at recursive calls and by `not_equal`: a function of the two operands
// that is `Ok(bool)` on comparable operands and `Err` otherwise.  vc_equal, vc_equal_option,
// vc_equal_array and vc_equal_object discharge it.
//@stub vc_equal_option,vc_not_equal dyon::dyon_std::equal stub_equal
//@stub vc_equal_array,vc_equal_object dyon::dyon_std::equal stub_equal_any
pub fn stub_equal(a: &Variable, b: &Variable) -> R {
    if native() {
        return equal(a, b);
    }
    if !eq_domain(a, b) {
        return Err(any());
    }
    uf_eq(a, b)
}
fn uf_eq(a: &Variable, b: &Variable) -> R {
    let r: Result<(bool, Sec), String> = uf2("equal", a, b);
    match r {
        Ok((x, s)) => Ok(Variable::Bool(x, s)),
        Err(e) => Err(e),
    }
}
pub fn stub_equal_any(a: &Variable, b: &Variable) -> R {
    if native() {
        return equal(a, b);
    }
    uf_eq(a, b)
}
fn is_true(r: &R) -> bool {
    matches!(r, Ok(Variable::Bool(true, _)))
}
pub fn vc_equal_option(a: Variable, b: Variable) {
    let r = equal(&Variable::Option(Some(Box::new(a.clone()))), &Variable::Option(Some(Box::new(b.clone()))));
    let e = stub_equal(&a, &b);
    match (&r, &e) {
        (Ok(x), Ok(y)) => { cover("ok"); ensure(same(x, y) && matches!(x, Variable::Bool(..)), "some(a) == some(b) iff a == b") }
        (Err(_), Err(_)) => { cover("err") }
        _ => ensure(false, "some(a) == some(b) is defined iff a == b is"),
    }
}
pub fn vc_equal_array(a: Vec<Variable>, b: Vec<Variable>) {
    let r = equal(&Variable::Array(Arc::new(a.clone())), &Variable::Array(Arc::new(b.clone())));
    let mut all = a.len() == b.len();
    if all {
        let mut i = 0;
        while i < a.len() {
            if !is_true(&stub_equal_any(&a[i], &b[i])) {
                all = false;
                break;
            }
            i += 1;
        }
    }
    if all { cover("equal") } else { cover("different") }
    ensure(is_bool(&r, all, &None), "arrays are equal iff they have the same length and equal elements");
}
pub fn vc_equal_object(a: HashMap<Arc<String>, Variable>, b: HashMap<Arc<String>, Variable>) {
    let r = equal(&Variable::Object(Arc::new(a.clone())), &Variable::Object(Arc::new(b.clone())));
    let mut all = a.len() == b.len();
    if all {
        for (k, v) in a.iter() {
            let ok = match b.get(k) {
                Some(w) => is_true(&stub_equal_any(v, w)),
                None => false,
            };
            if !ok {
                all = false;
                break;
            }
        }
    }
    if all { cover("equal") } else { cover("different") }
    ensure(is_bool(&r, all, &None), "objects are equal iff they have the same keys and equal values");
}
pub fn vc_not_equal(a: Variable, b: Variable) {
    let e = stub_equal(&a, &b);
    let r = not_equal(&a, &b);
    match (&e, &r) {
        (Ok(Variable::Bool(x, s)), Ok(Variable::Bool(y, t))) => { cover("ok"); ensure(*x != *y && same(s, t), "a != b is the negation of a == b") }
        (Err(_), Err(_)) => { cover("err") }
        _ => ensure(false, "a != b is defined iff a == b is"),
    }
    ensure(eq_domain(&a, &b) || r.is_err(), "a != b is an error outside the domain of ==");
}
pub fn vc_add(a: Variable, b: Variable) {
    let r = add(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, *x + *y, s), "f64 + f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, addf)), "vec4 + vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), addf)), "vec4 + f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, addf)), "f64 + vec4"),
        (Variable::Mat4(x), Variable::Mat4(y)) => ensure(is_mat4(&r, zip44(**x, **y, addf)), "mat4 + mat4"),
        (Variable::Mat4(x), Variable::F64(y, _)) => ensure(is_mat4(&r, zip44(**x, splat2(*y), addf)), "mat4 + f64"),
        (Variable::F64(x, _), Variable::Mat4(y)) => ensure(is_mat4(&r, zip44(splat2(*x), **y, addf)), "f64 + mat4"),
        (Variable::Bool(x, s), Variable::Bool(y, _)) => ensure(is_bool(&r, *x || *y, s), "bool + bool is or"),
        (Variable::Str(x), Variable::Str(y)) => {
            let mut e = String::new();
            e.push_str(x);
            e.push_str(y);
            ensure(match &r { Ok(Variable::Str(z)) => **z == e, _ => false }, "str + str concatenates")
        }
        (Variable::Link(_), Variable::Link(_)) => ensure(matches!(r, Ok(Variable::Link(_))), "link + link is a link"),
        _ => { cover("err"); ensure(r.is_err(), "a + b is an error on other operands") }
    }
}
pub fn vc_sub(a: Variable, b: Variable) {
    let r = sub(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, *x - *y, s), "f64 - f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, subf)), "vec4 - vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), subf)), "vec4 - f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, subf)), "f64 - vec4"),
        (Variable::Mat4(x), Variable::Mat4(y)) => ensure(is_mat4(&r, zip44(**x, **y, subf)), "mat4 - mat4"),
        (Variable::Mat4(x), Variable::F64(y, _)) => ensure(is_mat4(&r, zip44(**x, splat2(*y), subf)), "mat4 - f64"),
        (Variable::F64(x, _), Variable::Mat4(y)) => ensure(is_mat4(&r, zip44(splat2(*x), **y, subf)), "f64 - mat4"),
        (Variable::Bool(x, s), Variable::Bool(y, _)) => ensure(is_bool(&r, *x && !*y, s), "bool - bool is and-not"),
        _ => { cover("err"); ensure(r.is_err(), "a - b is an error on other operands") }
    }
}
fn col_mul(a: &[[f32; 4]; 4], b: &[[f32; 4]; 4]) -> [[f32; 4]; 4] {
    // column-major product: column j of a*b is a * (column j of b)
    [col_tr(a, &b[0]), col_tr(a, &b[1]), col_tr(a, &b[2]), col_tr(a, &b[3])]
}
fn col_tr(a: &[[f32; 4]; 4], v: &[f32; 4]) -> [f32; 4] {
    [dot4(row_of(a, 0), *v), dot4(row_of(a, 1), *v), dot4(row_of(a, 2), *v), dot4(row_of(a, 3), *v)]
}
fn row_of(a: &[[f32; 4]; 4], i: usize) -> [f32; 4] {
    [a[0][i], a[1][i], a[2][i], a[3][i]]
}
fn dot4(a: [f32; 4], b: [f32; 4]) -> f32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn vc_mul(a: Variable, b: Variable) {
    let r = mul(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, *x * *y, s), "f64 * f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, mulf)), "vec4 * vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), mulf)), "vec4 * f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, mulf)), "f64 * vec4"),
        (Variable::Mat4(x), Variable::Mat4(y)) => ensure(is_mat4(&r, col_mul(x, y)), "mat4 * mat4 is the column-major product"),
        (Variable::Mat4(x), Variable::F64(y, _)) => ensure(is_mat4(&r, zip44(**x, splat2(*y), mulf)), "mat4 * f64"),
        (Variable::F64(x, _), Variable::Mat4(y)) => ensure(is_mat4(&r, zip44(splat2(*x), **y, mulf)), "f64 * mat4"),
        (Variable::Mat4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, col_tr(x, y)), "mat4 * vec4 transforms the vector"),
        (Variable::Bool(x, s), Variable::Bool(y, _)) => ensure(is_bool(&r, *x && *y, s), "bool * bool is and"),
        _ => { cover("err"); ensure(r.is_err(), "a * b is an error on other operands") }
    }
}
pub fn vc_div(a: Variable, b: Variable) {
    let r = div(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, *x / *y, s), "f64 / f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, divf)), "vec4 / vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), divf)), "vec4 / f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, divf)), "f64 / vec4"),
        _ => { cover("err"); ensure(r.is_err(), "a / b is an error on other operands") }
    }
}
pub fn vc_rem(a: Variable, b: Variable) {
    let r = rem(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, *x % *y, s), "f64 % f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, remf)), "vec4 % vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), remf)), "vec4 % f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, remf)), "f64 % vec4"),
        _ => { cover("err"); ensure(r.is_err(), "a % b is an error on other operands") }
    }
}
pub fn vc_pow(a: Variable, b: Variable) {
    let r = pow(&a, &b);
    match (&a, &b) {
        (Variable::F64(x, s), Variable::F64(y, _)) => { cover("f64"); ensure(is_f64(&r, x.powf(*y), s), "f64 ^ f64") }
        (Variable::Vec4(x), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(*x, *y, powf_)), "vec4 ^ vec4"),
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_vec4(&r, zip4(*x, splat(*y), powf_)), "vec4 ^ f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_vec4(&r, zip4(splat(*x), *y, powf_)), "f64 ^ vec4"),
        (Variable::Bool(x, s), Variable::Bool(y, _)) => ensure(is_bool(&r, *x != *y, s), "bool ^ bool is xor"),
        _ => { cover("err"); ensure(r.is_err(), "a ^ b is an error on other operands") }
    }
}
pub fn vc_not(a: Variable) {
    let r = not(&a);
    match &a {
        Variable::Bool(x, s) => { cover("bool"); ensure(is_bool(&r, !*x, s), "!bool") }
        _ => { cover("err"); ensure(r.is_err(), "!a is an error on other operands") }
    }
}
pub fn vc_neg(a: Variable) {
    let r = neg(&a);
    match &a {
        Variable::F64(x, s) => { cover("f64"); ensure(is_f64(&r, -*x, s), "-f64") }
        Variable::Vec4(x) => ensure(is_vec4(&r, map4(*x, negf)), "-vec4"),
        Variable::Mat4(x) => ensure(is_mat4(&r, [map4(x[0], negf), map4(x[1], negf), map4(x[2], negf), map4(x[3], negf)]), "-mat4"),
        _ => { cover("err"); ensure(r.is_err(), "-a is an error on other operands") }
    }
}
pub fn vc_dot(a: Variable, b: Variable) {
    let r = dot(&a, &b);
    match (&a, &b) {
        (Variable::Vec4(x), Variable::Vec4(y)) => { cover("vec4"); ensure(is_f64(&r, dot4(*x, *y) as f64, &None), "vec4 *. vec4") }
        (Variable::Vec4(x), Variable::F64(y, _)) => ensure(is_f64(&r, dot4(*x, splat(*y)) as f64, &None), "vec4 *. f64"),
        (Variable::F64(x, _), Variable::Vec4(y)) => ensure(is_f64(&r, dot4(*y, splat(*x)) as f64, &None), "f64 *. vec4"),
        _ => { cover("err"); ensure(r.is_err(), "a *. b is an error on other operands") }
    }
}

/// The operator text in a script denotes the operator function (same value, or an error for both).
pub fn nc_script_ops(a: Variable, b: Variable) {
    type F2 = fn(&Variable, &Variable) -> R;
    let ops: [(&str, F2); 16] = [("<", less), ("<=", less_or_equal), (">", greater), (">=", greater_or_equal), ("==", equal), ("!=", not_equal),
        ("+", add), ("-", sub), ("*", mul), ("/", div), ("%", rem), ("^", pow), ("*.", dot), ("or", add), ("and", mul), ("xor", pow)];
    require(!matches!(a, Variable::Return) && !matches!(b, Variable::Return));
    let (a, b) = if any::<u8>() % 3 == 0 { (like(&b), b) } else if any::<bool>() { (a.clone(), like(&a)) } else { (a, b) };
    for (o, f) in ops {
        let want = f(&a, &b);
        let got = run_body(&format!("return a0 {} a1", o), &[a.clone(), b.clone()]);
        ensure(match (&want, &got) { (Ok(x), Ok(y)) => same(x, y), (Err(_), Err(_)) => true, _ => false }, "a script's `a op b` is the operator applied to a and b");
    }
    let got = run_body("return !a0", &[a.clone()]);
    ensure(match (&not(&a), &got) { (Ok(x), Ok(y)) => same(x, y), (Err(_), Err(_)) => true, _ => false }, "a script's `!a` is the operator applied to a");
    let got = run_body("return -a0", &[a.clone()]);
    ensure(match (&neg(&a), &got) { (Ok(x), Ok(y)) => same(x, y), (Err(_), Err(_)) => true, _ => false }, "a script's `-a` is the operator applied to a");
}
/// A value of the same kind.
fn like(a: &Variable) -> Variable {
    match a {
        Variable::F64(..) => Variable::f64(any()),
        Variable::Bool(..) => Variable::bool(any()),
        Variable::Str(_) => Variable::Str(any()),
        Variable::Vec4(_) => Variable::Vec4(any()),
        Variable::Mat4(_) => Variable::Mat4(any()),
        x => x.clone(),
    }
}

native! {
    nc_script_ops: (Variable, Variable);
    vc_less: (Variable, Variable); vc_less_or_equal: (Variable, Variable); vc_greater: (Variable, Variable);
    vc_greater_or_equal: (Variable, Variable); vc_equal: (Variable, Variable); vc_equal_option: (Variable, Variable);
    vc_equal_array: (Vec<Variable>, Vec<Variable>); vc_equal_object: (HashMap<Arc<String>, Variable>, HashMap<Arc<String>, Variable>);
    vc_not_equal: (Variable, Variable); vc_add: (Variable, Variable); vc_sub: (Variable, Variable); vc_mul: (Variable, Variable);
    vc_div: (Variable, Variable); vc_rem: (Variable, Variable); vc_pow: (Variable, Variable); vc_not: (Variable);
    vc_neg: (Variable); vc_dot: (Variable, Variable);
}
