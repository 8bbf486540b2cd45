// P05: vector, matrix and number built-ins.
use super::*;
use crate::verif::*;
//@include rt.inc.rs

type R = Result<Variable, String>;
type M = [[f32; 4]; 4];
type V4 = [f32; 4];

fn is_f64(r: &R, x: f64) -> bool {
    match r {
        Ok(Variable::F64(y, None)) => same(y, &x),
        _ => false,
    }
}
fn row(a: &V4, b: &V4) -> bool {
    same(&a[0], &b[0]) && same(&a[1], &b[1]) && same(&a[2], &b[2]) && same(&a[3], &b[3])
}
fn is_vec4(r: &R, x: V4) -> bool {
    match r {
        Ok(Variable::Vec4(y)) => row(y, &x),
        _ => false,
    }
}
fn is_mat4(r: &R, x: M) -> bool {
    match r {
        Ok(Variable::Mat4(y)) => row(&y[0], &x[0]) && row(&y[1], &x[1]) && row(&y[2], &x[2]) && row(&y[3], &x[3]),
        _ => false,
    }
}
fn v4(v: &Variable) -> Option<V4> {
    match v { Variable::Vec4(x) => Some(*x), _ => None }
}
fn m4(v: &Variable) -> Option<M> {
    match v { Variable::Mat4(x) => Some(**x), _ => None }
}
fn num(v: &Variable) -> Option<f64> {
    match v { Variable::F64(x, _) => Some(*x), _ => None }
}
fn wvec() -> Variable { Variable::Vec4(any()) }
fn wmat() -> Variable { Variable::Mat4(Box::new(any())) }
fn wnum() -> Variable { Variable::f64(any()) }

macro_rules! unary {
    ($vc:ident, $f:path, $w:ident, $get:ident, $is:ident, |$x:ident| $e:expr, $label:expr) => {
        pub fn $vc(mut rt: Runtime, v: Variable) {
            let v = argp(&mut rt, v, $w());
            require(ref_ok(&v, &rt.stack));
            let pre = snap(&rt.stack);
            rt.stack.push(snap(&v));
            let r = $f(&mut rt);
            match $get(deref(&v, &pre)) {
                Some($x) => { cover("ok"); ensure($is(&r, $e), $label) }
                None => { cover("err"); ensure(r.is_err(), "an argument of another type is an error") }
            }
            ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
        }
    };
}
macro_rules! binary {
    ($vc:ident, $f:path, $w:ident, $get:ident, $w2:ident, $get2:ident, $is:ident, |$x:ident, $y:ident| $e:expr, $label:expr) => {
        pub fn $vc(mut rt: Runtime, v: Variable, u: Variable) {
            let v = argp(&mut rt, v, $w());
            let u = argp(&mut rt, u, $w2());
            require(ref_ok(&v, &rt.stack) && ref_ok(&u, &rt.stack));
            let pre = snap(&rt.stack);
            rt.stack.push(snap(&v));
            rt.stack.push(snap(&u));
            let r = $f(&mut rt);
            match ($get(deref(&v, &pre)), $get2(deref(&u, &pre))) {
                (Some($x), Some($y)) => {
                    cover("ok");
                    ensure($is(&r, $e), $label);
                    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
                }
                _ => { cover("err"); ensure(r.is_err(), "an argument of another type is an error") }
            }
        }
    };
}
/// Item access by index: `None` is out of bounds.
macro_rules! indexed {
    ($vc:ident, $f:path, $w:ident, $get:ident, $is:ident, |$x:ident, $i:ident| $e:expr, $label:expr) => {
        pub fn $vc(mut rt: Runtime, v: Variable, u: Variable) {
            let v = argp(&mut rt, v, $w());
            let u = argp(&mut rt, u, wnum());
            require(ref_ok(&v, &rt.stack) && ref_ok(&u, &rt.stack));
            let pre = snap(&rt.stack);
            rt.stack.push(snap(&v));
            rt.stack.push(snap(&u));
            let r = $f(&mut rt);
            match ($get(deref(&v, &pre)), num(deref(&u, &pre))) {
                (Some($x), Some(i)) if (i as usize) < 4 => {
                    cover("ok");
                    let $i = i as usize;
                    ensure($is(&r, $e), $label);
                    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
                }
                _ => { cover("err"); ensure(r.is_err(), "an index out of bounds or an argument of another type is an error") }
            }
        }
    };
}
unary!(vc_x, x, wvec, v4, is_f64, |v| v[0] as f64, "x is component 0");
unary!(vc_y, y, wvec, v4, is_f64, |v| v[1] as f64, "y is component 1");
unary!(vc_z, z, wvec, v4, is_f64, |v| v[2] as f64, "z is component 2");
unary!(vc_w, w, wvec, v4, is_f64, |v| v[3] as f64, "w is component 3");
indexed!(vc_s, s, wvec, v4, is_f64, |v, i| v[i] as f64, "s(v, i) is component i");
unary!(vc_rx, rx, wmat, m4, is_vec4, |m| [m[0][0], m[1][0], m[2][0], m[3][0]], "rx is row 0");
unary!(vc_ry, ry, wmat, m4, is_vec4, |m| [m[0][1], m[1][1], m[2][1], m[3][1]], "ry is row 1");
unary!(vc_rz, rz, wmat, m4, is_vec4, |m| [m[0][2], m[1][2], m[2][2], m[3][2]], "rz is row 2");
unary!(vc_rw, rw, wmat, m4, is_vec4, |m| [m[0][3], m[1][3], m[2][3], m[3][3]], "rw is row 3");
indexed!(vc_rv, rv, wmat, m4, is_vec4, |m, i| [m[0][i], m[1][i], m[2][i], m[3][i]], "rv(m, i) is row i");
unary!(vc_cx, cx, wmat, m4, is_vec4, |m| m[0], "cx is column 0");
unary!(vc_cy, cy, wmat, m4, is_vec4, |m| m[1], "cy is column 1");
unary!(vc_cz, cz, wmat, m4, is_vec4, |m| m[2], "cz is column 2");
unary!(vc_cw, cw, wmat, m4, is_vec4, |m| m[3], "cw is column 3");
indexed!(vc_cv, cv, wmat, m4, is_vec4, |m, i| m[i], "cv(m, i) is column i");
unary!(vc_mov, mov, wvec, v4, is_mat4, |v| [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [v[0], v[1], v[2], 1.0]], "mov is the translation matrix");
unary!(vc_scale, scale, wvec, v4, is_mat4, |v| [[v[0], 0.0, 0.0, 0.0], [0.0, v[1], 0.0, 0.0], [0.0, 0.0, v[2], 0.0], [0.0, 0.0, 0.0, 1.0]], "scale is the scaling matrix");
binary!(vc_cross, cross, wvec, v4, wvec, v4, is_vec4, |a, b| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 0.0], "cross is the cross product");
unary!(vc_sqrt, sqrt, wnum, num, is_f64, |a| a.sqrt(), "sqrt");
unary!(vc_sin, sin, wnum, num, is_f64, |a| a.sin(), "sin");
unary!(vc_asin, asin, wnum, num, is_f64, |a| a.asin(), "asin");
unary!(vc_cos, cos, wnum, num, is_f64, |a| a.cos(), "cos");
unary!(vc_acos, acos, wnum, num, is_f64, |a| a.acos(), "acos");
unary!(vc_tan, tan, wnum, num, is_f64, |a| a.tan(), "tan");
unary!(vc_atan, atan, wnum, num, is_f64, |a| a.atan(), "atan");
unary!(vc_exp, exp, wnum, num, is_f64, |a| a.exp(), "exp");
unary!(vc_ln, ln, wnum, num, is_f64, |a| a.ln(), "ln");
unary!(vc_log2, log2, wnum, num, is_f64, |a| a.log2(), "log2");
unary!(vc_log10, log10, wnum, num, is_f64, |a| a.log10(), "log10");
unary!(vc_round, round, wnum, num, is_f64, |a| a.round(), "round");
unary!(vc_abs, abs, wnum, num, is_f64, |a| a.abs(), "abs");
unary!(vc_floor, floor, wnum, num, is_f64, |a| a.floor(), "floor");
unary!(vc_ceil, ceil, wnum, num, is_f64, |a| a.ceil(), "ceil");
binary!(vc_atan2, atan2, wnum, num, wnum, num, is_f64, |y, x| y.atan2(x), "atan2(y, x)");
unary!(vc_dir__angle, dir__angle, wnum, num, is_vec4, |a| [a.cos() as f32, a.sin() as f32, 0.0, 0.0], "dir(angle) is the unit vector at the angle");

pub fn vc_norm(v: Variable) {
    let r = norm(&v);
    match &v {
        Variable::Vec4(v) => { cover("ok"); ensure(is_f64(&r, (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]).sqrt() as f64), "norm is the length of the vector") }
        _ => { cover("err"); ensure(r.is_err(), "norm of another type is an error") }
    }
}
fn dot4(a: V4, b: V4) -> f32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
fn tr(a: &M, v: &V4) -> V4 {
    [dot4([a[0][0], a[1][0], a[2][0], a[3][0]], *v), dot4([a[0][1], a[1][1], a[2][1], a[3][1]], *v),
     dot4([a[0][2], a[1][2], a[2][2], a[3][2]], *v), dot4([a[0][3], a[1][3], a[2][3], a[3][3]], *v)]
}
fn cmul(a: &M, b: &M) -> M {
    [tr(a, &b[0]), tr(a, &b[1]), tr(a, &b[2]), tr(a, &b[3])]
}
pub fn vc_mvp(mut rt: Runtime, model: M, view: M, proj: M) {
    let pre = snap(&rt.stack);
    rt.stack.push(Variable::Mat4(Box::new(model)));
    rt.stack.push(Variable::Mat4(Box::new(view)));
    rt.stack.push(Variable::Mat4(Box::new(proj)));
    let r = mvp__model_view_projection(&mut rt);
    ensure(is_mat4(&r, cmul(&cmul(&proj, &view), &model)), "mvp is projection * view * model");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_ortho(mut rt: Runtime, pos: V4, right: V4, up: V4, forward: V4) {
    let pre = snap(&rt.stack);
    rt.stack.push(Variable::Vec4(pos));
    rt.stack.push(Variable::Vec4(right));
    rt.stack.push(Variable::Vec4(up));
    rt.stack.push(Variable::Vec4(forward));
    let r = ortho__pos_right_up_forward(&mut rt);
    ensure(is_mat4(&r, [
        [right[0], up[0], forward[0], 0.0],
        [right[1], up[1], forward[1], 0.0],
        [right[2], up[2], forward[2], 0.0],
        [-dot4(right, pos), -dot4(up, pos), -dot4(forward, pos), 1.0],
    ]), "ortho is the orthogonal view matrix");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
pub fn vc_proj(mut rt: Runtime, fov: f64, near: f64, far: f64, ar: f64) {
    let pre = snap(&rt.stack);
    rt.stack.push(Variable::f64(fov));
    rt.stack.push(Variable::f64(near));
    rt.stack.push(Variable::f64(far));
    rt.stack.push(Variable::f64(ar));
    let r = proj__fov_near_far_ar(&mut rt);
    let f = 1.0 / (fov * ::std::f64::consts::PI).tan();
    ensure(is_mat4(&r, [
        [(f / ar) as f32, 0.0, 0.0, 0.0],
        [0.0, f as f32, 0.0, 0.0],
        [0.0, 0.0, ((far + near) / (near - far)) as f32, -1.0],
        [0.0, 0.0, ((2.0 * far * near) / (near - far)) as f32, 0.0],
    ]), "proj is the perspective matrix");
    ensure(frame(&rt, &pre), "the call leaves the rest of the stack alone");
}
fn small() -> f32 {
    (any::<u8>() % 21) as f32 / 4.0 - 2.5
}
fn smallm() -> M {
    [[small(), small(), small(), small()], [small(), small(), small(), small()], [small(), small(), small(), small()], [small(), small(), small(), small()]]
}
fn detf(m: &M) -> f64 {
    let m: Vec<Vec<f64>> = m.iter().map(|c| c.iter().map(|x| *x as f64).collect()).collect();
    fn go(m: &Vec<Vec<f64>>) -> f64 {
        if m.len() == 1 {
            return m[0][0];
        }
        let mut s = 0.0;
        for j in 0..m.len() {
            let minor: Vec<Vec<f64>> = m[1..].iter().map(|c| c.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
            s += if j % 2 == 0 { 1.0 } else { -1.0 } * m[0][j] * go(&minor);
        }
        s
    }
    go(&m)
}
pub fn nc_det_inv() {
    let m = smallm();
    let mut rt = Runtime::new();
    rt.stack.push(Variable::Mat4(Box::new(m)));
    let d = match det(&mut rt) { Ok(Variable::F64(d, None)) => d, _ => { ensure(false, "det gives a number"); return } };
    ensure((d - detf(&m)).abs() < 1e-2, "det is the determinant");
    require(detf(&m).abs() > 1.0);
    rt.stack.push(Variable::Mat4(Box::new(m)));
    let i = match inv(&mut rt) { Ok(Variable::Mat4(i)) => *i, _ => { ensure(false, "inv gives a matrix"); return } };
    let p = cmul(&m, &i);
    for c in 0..4 {
        for r in 0..4 {
            ensure((p[c][r] - if c == r { 1.0 } else { 0.0 }).abs() < 1e-2, "m * inv(m) is the identity");
        }
    }
}
pub fn nc_rot(ang: f64) {
    require(ang.abs() < 100.0);
    let a = [small(), small(), small(), 0.0];
    let l = dot4(a, a).sqrt();
    require(l > 0.1);
    let a = [a[0] / l, a[1] / l, a[2] / l, 0.0];
    let mut rt = Runtime::new();
    rt.stack.push(Variable::Vec4(a));
    rt.stack.push(Variable::f64(ang));
    let m = match rot__axis_angle(&mut rt) { Ok(Variable::Mat4(m)) => *m, _ => { ensure(false, "rot gives a matrix"); return } };
    let b = tr(&m, &a);
    ensure((0..4).all(|i| (b[i] - a[i]).abs() < 1e-4), "rot keeps the axis");
    ensure((detf(&m) - 1.0).abs() < 1e-3, "rot is a proper rotation");
    ensure(((m[0][0] + m[1][1] + m[2][2]) as f64 - 1.0 - 2.0 * ang.cos()).abs() < 1e-3, "rot turns by the angle");
    // direction of rotation: columns follow the transposed Rodrigues formula used throughout dyon
    let s = ang.sin();
    ensure(((m[1][0] - m[0][1]) as f64 - 2.0 * s * a[2] as f64).abs() < 1e-3, "rot turns in the documented direction");
    ensure(((m[0][2] - m[2][0]) as f64 - 2.0 * s * a[1] as f64).abs() < 1e-3, "rot turns in the documented direction");
    ensure(((m[2][1] - m[1][2]) as f64 - 2.0 * s * a[0] as f64).abs() < 1e-3, "rot turns in the documented direction");
}
/// Scripts reach the functions by their documented names and argument order.
pub fn nc_script_math(other: Variable) {
    require(!matches!(other, Variable::Return));
    let odd = any::<u8>() % 10 == 0;
    let m = if odd { other.clone() } else { Variable::Mat4(any()) };
    let v = if odd { other.clone() } else { Variable::Vec4(any()) };
    let v2 = Variable::Vec4(any());
    let n = if odd { other.clone() } else { Variable::f64(any()) };
    let n2 = Variable::f64(any());
    let i = Variable::f64((any::<u8>() % 6) as f64);
    script_same("x", x, &[v.clone()]);
    script_same("y", y, &[v.clone()]);
    script_same("z", z, &[v.clone()]);
    script_same("w", w, &[v.clone()]);
    script_same("rx", rx, &[m.clone()]);
    script_same("ry", ry, &[m.clone()]);
    script_same("rz", rz, &[m.clone()]);
    script_same("rw", rw, &[m.clone()]);
    script_same("cx", cx, &[m.clone()]);
    script_same("cy", cy, &[m.clone()]);
    script_same("cz", cz, &[m.clone()]);
    script_same("cw", cw, &[m.clone()]);
    script_same("mov", mov, &[v.clone()]);
    script_same("scale", scale, &[v.clone()]);
    script_same("det", det, &[m.clone()]);
    script_same("inv", inv, &[m.clone()]);
    script_same("sqrt", sqrt, &[n.clone()]);
    script_same("sin", sin, &[n.clone()]);
    script_same("asin", asin, &[n.clone()]);
    script_same("cos", cos, &[n.clone()]);
    script_same("acos", acos, &[n.clone()]);
    script_same("tan", tan, &[n.clone()]);
    script_same("atan", atan, &[n.clone()]);
    script_same("exp", exp, &[n.clone()]);
    script_same("ln", ln, &[n.clone()]);
    script_same("log2", log2, &[n.clone()]);
    script_same("log10", log10, &[n.clone()]);
    script_same("round", round, &[n.clone()]);
    script_same("abs", abs, &[n.clone()]);
    script_same("floor", floor, &[n.clone()]);
    script_same("ceil", ceil, &[n.clone()]);
    script_same("s", s, &[v.clone(), i.clone()]);
    script_same("rv", rv, &[m.clone(), i.clone()]);
    script_same("cv", cv, &[m.clone(), i.clone()]);
    script_same("cross", cross, &[v.clone(), v2.clone()]);
    script_same("atan2", atan2, &[n.clone(), n2.clone()]);
    script_same("dir__angle", dir__angle, &[n.clone()]);
    script_same("rot__axis_angle", rot__axis_angle, &[v.clone(), n.clone()]);
    script_same("norm", |rt| { let v = rt.stack.pop().unwrap(); norm(rt.get(&v)) }, &[v.clone()]);
    script_same("mvp__model_view_projection", mvp__model_view_projection, &[m.clone(), Variable::Mat4(any()), Variable::Mat4(any())]);
    script_same("ortho__pos_right_up_forward", ortho__pos_right_up_forward, &[v.clone(), v2.clone(), Variable::Vec4(any()), Variable::Vec4(any())]);
    script_same("proj__fov_near_far_ar", proj__fov_near_far_ar, &[n.clone(), n2.clone(), Variable::f64(any()), Variable::f64(any())]);
    let got = run_body("return mvp(model: a0, view: a1, projection: a2)", &[m.clone(), Variable::Mat4(any()), Variable::Mat4(any())]);
    ensure(got.is_ok() == matches!(m, Variable::Mat4(_)), "a call with named arguments is the function with those names");
}

native! {
    nc_script_math: (Variable);
    vc_x: (Runtime, Variable); vc_y: (Runtime, Variable); vc_z: (Runtime, Variable); vc_w: (Runtime, Variable); vc_s: (Runtime, Variable, Variable);
    vc_rx: (Runtime, Variable); vc_ry: (Runtime, Variable); vc_rz: (Runtime, Variable); vc_rw: (Runtime, Variable); vc_rv: (Runtime, Variable, Variable);
    vc_cx: (Runtime, Variable); vc_cy: (Runtime, Variable); vc_cz: (Runtime, Variable); vc_cw: (Runtime, Variable); vc_cv: (Runtime, Variable, Variable);
    vc_mov: (Runtime, Variable); vc_scale: (Runtime, Variable); vc_cross: (Runtime, Variable, Variable); vc_sqrt: (Runtime, Variable);
    vc_sin: (Runtime, Variable); vc_asin: (Runtime, Variable); vc_cos: (Runtime, Variable); vc_acos: (Runtime, Variable); vc_tan: (Runtime, Variable);
    vc_atan: (Runtime, Variable); vc_exp: (Runtime, Variable); vc_ln: (Runtime, Variable); vc_log2: (Runtime, Variable); vc_log10: (Runtime, Variable);
    vc_round: (Runtime, Variable); vc_abs: (Runtime, Variable); vc_floor: (Runtime, Variable); vc_ceil: (Runtime, Variable);
    vc_atan2: (Runtime, Variable, Variable); vc_dir__angle: (Runtime, Variable); vc_norm: (Variable);
    vc_mvp: (Runtime, M, M, M); vc_ortho: (Runtime, V4, V4, V4, V4); vc_proj: (Runtime, f64, f64, f64, f64);
    nc_det_inv: (); nc_rot: (f64);
}
