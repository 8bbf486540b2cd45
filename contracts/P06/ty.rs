// P06: compatibility of types.  `goes(a, b)`: a value of type `b` may be used where `a` is declared.
use super::*;
use crate::verif::*;

/// The specification is a recursively defined relation.  In the logic it is an uninterpreted
/// function with its defining equation (`table`) assumed where it is used; natively it is computed.
fn goes(a: &Type, b: &Type) -> bool {
    if native() {
        return table(a, b);
    }
    let r: bool = uf2("goes", a, b);
    require(r == table(a, b));
    r
}
/// The relation on smaller types.
fn sub(a: &Type, b: &Type) -> bool {
    if native() {
        return table(a, b);
    }
    uf2("goes", a, b)
}
fn all_goes(a: &Vec<Type>, b: &Vec<Type>) -> bool {
    let mut i = 0;
    while i < a.len() {
        if !sub(&a[i], &b[i]) {
            return false;
        }
        i += 1;
    }
    true
}
/// The relation of an ad-hoc type to one that is not, with its defining equation.
fn turned(a: &Type, b: &Type) -> bool {
    let r = sub(a, b);
    if !native() {
        require(r == match (a, b) {
            (_, Type::Secret(t)) => sub(a, t),
            (_, Type::Unreachable) => true,
            (_, Type::Void) => false,
            (Type::AdHoc(_, s), _) => sub(s, b),
            _ => r,
        });
    }
    r
}
/// Defining equation of compatibility.
fn table(a: &Type, b: &Type) -> bool {
    use Type::*;
    match (a, b) {
        // Ad-hoc types agree when their names and inner types do; the ad-hoc name may be left out on
        // either side.
        (AdHoc(x, s), AdHoc(y, t)) => same(x, y) && sub(s, t),
        (_, AdHoc(..)) => turned(b, a),
        // A secret value may be used as a plain one, not the other way around.
        (Secret(s), Secret(t)) => sub(s, t),
        (_, Secret(t)) => sub(a, t),
        (Unreachable, _) | (_, Unreachable) => true,
        // `any` is compatible with everything that has a value.
        (AdHoc(..), Void) => false,
        (AdHoc(_, s), _) => sub(s, b),
        (Void, Void) => true,
        (Void, _) | (_, Void) => false,
        (Any, _) | (_, Any) => true,
        // Containers agree when their items do.
        (Array(s), Array(t)) | (Option(s), Option(t)) | (Result(s), Result(t)) | (Thread(s), Thread(t)) | (In(s), In(t)) => sub(s, t),
        (Closure(f), Closure(g)) => f.tys.len() == g.tys.len() && all_goes(&f.tys, &g.tys) && sub(&f.ret, &g.ret),
        (Bool, Bool) | (F64, F64) | (Vec4, Vec4) | (Mat4, Mat4) | (Str, Str) | (Link, Link) | (Object, Object) => true,
        _ => false,
    }
}
//@stub vc_goes_with,vc_ambiguous,vc_add_assign,vc_bind_* dyon::ty::Type::goes_with stub_goes
pub fn stub_goes(a: &Type, b: &Type) -> bool {
    if native() {
        return a.goes_with(b);
    }
    sub(a, b)
}
pub fn vc_goes_with(a: Type, b: Type) {
    let b = related(&a, b);
    let r = a.goes_with(&b);
    let e = goes(&a, &b);
    if e { cover("compatible") } else { cover("incompatible") }
    ensure(r == e, "goes_with decides compatibility");
}

/// `amb(a, b)`: a value known as `b` might turn out not to fit `a` when more is known about it.
fn amb(a: &Type, b: &Type) -> bool {
    if native() {
        return amb_table(a, b);
    }
    let r: bool = uf2("amb", a, b);
    require(r == amb_table(a, b));
    r
}
fn amb_sub(a: &Type, b: &Type) -> bool {
    if native() {
        return amb_table(a, b);
    }
    uf2("amb", a, b)
}
fn amb_table(a: &Type, b: &Type) -> bool {
    use Type::*;
    match (a, b) {
        (AdHoc(x, s), AdHoc(y, t)) if same(x, y) => amb_sub(s, t),
        (AdHoc(_, s), _) => sub(s, b),
        (Array(s), Array(t)) | (Option(s), Option(t)) | (Result(s), Result(t)) | (Thread(s), Thread(t)) | (In(s), In(t)) => amb_sub(s, t),
        (Bool | F64 | Str | Vec4 | Mat4 | Link | Array(_) | Option(_) | Result(_) | Thread(_) | Secret(_) | In(_), Any) => true,
        _ => false,
    }
}
//@stub vc_ambiguous,vc_bind_* dyon::ty::Type::ambiguous stub_amb
pub fn stub_amb(a: &Type, b: &Type) -> bool {
    if native() {
        return a.ambiguous(b);
    }
    amb(a, b)
}
pub fn vc_ambiguous(a: Type, b: Type) {
    let b = related(&a, b);
    let r = a.ambiguous(&b);
    let e = amb(&a, &b);
    if e { cover("ambiguous") } else { cover("definite") }
    ensure(r == e, "ambiguous decides whether refinement may still collide");
}

fn add_ok(a: &Type, b: &Type) -> bool {
    if native() {
        return add_table(a, b);
    }
    let r: bool = uf2("add_ok", a, b);
    require(r == add_table(a, b));
    r
}
fn add_table(a: &Type, b: &Type) -> bool {
    use Type::*;
    match (a, b) {
        (AdHoc(x, s), AdHoc(y, t)) => same(x, y) && sub(s, t) && if native() { add_table(s, t) } else { uf2("add_ok", s, t) },
        (AdHoc(..), _) | (_, AdHoc(..)) => false,
        (Void, _) | (_, Void) => false,
        _ => true,
    }
}
//@stub vc_add_assign dyon::ty::Type::add_assign stub_add_assign
pub fn stub_add_assign(a: &Type, b: &Type) -> bool {
    if native() {
        return a.add_assign(b);
    }
    add_ok(a, b)
}
pub fn vc_add_assign(a: Type, b: Type) {
    let b = related(&a, b);
    let r = a.add_assign(&b);
    let e = add_ok(&a, &b);
    if e { cover("ok") } else { cover("not") }
    ensure(r == e, "add_assign accepts exactly operands without or with the same ad-hoc name");
}

//@stub vc_closure_ret dyon::ty::Type::closure_ret_ty stub_closure_ret
pub fn stub_closure_ret(a: &Type) -> Option<Type> {
    if native() {
        return a.closure_ret_ty();
    }
    uf1("closure_ret", a)
}
pub fn vc_closure_ret(a: Type) {
    let r = a.closure_ret_ty();
    let e = match &a {
        Type::Closure(d) => { cover("closure"); Some(snap(&d.ret)) }
        Type::AdHoc(_, t) => { cover("ad-hoc"); stub_closure_ret(t) }
        Type::Any => Some(Type::Any),
        _ => { cover("other"); None }
    };
    ensure(same(&r, &e), "closure_ret_ty gives the declared return type of a closure type");
}

//@stub vc_insert_var dyon::ty::Type::insert_var stub_insert_var
pub fn stub_insert_var(a: &mut Type, name: &Arc<String>, val: &Arc<String>) {
    if native() {
        return a.insert_var(name, val);
    }
    let r: Type = uf3("insert_var", a, name, val);
    *a = r;
}
pub fn vc_insert_var(a: Type, name: Arc<String>, val: Arc<String>) {
    let mut r = snap(&a);
    let name = if native() && any::<bool>() { if let Type::AdHoc(n, _) = &a { n.clone() } else { name } } else { name };
    r.insert_var(&name, &val);
    match (&a, &r) {
        (Type::AdHoc(n, t), Type::AdHoc(m, u)) => {
            cover("ad-hoc");
            let mut t = snap(t);
            stub_insert_var(&mut t, &name, &val);
            ensure(same(m, if same(n, &name) { &val } else { n }), "the type variable is replaced by its value and no other name is");
            ensure(same(&t, u), "type variables are replaced in the inner type");
        }
        _ => ensure(same(&a, &r) && !matches!(a, Type::AdHoc(..)), "other types have no type variables"),
    }
}
//@stub vc_insert_none dyon::ty::Type::insert_none_var stub_insert_none
pub fn stub_insert_none(a: &mut Type, name: &Arc<String>) {
    if native() {
        return a.insert_none_var(name);
    }
    let r: Type = uf2("insert_none", a, name);
    *a = r;
}
pub fn vc_insert_none(a: Type, name: Arc<String>) {
    let mut r = snap(&a);
    r.insert_none_var(&name);
    match &a {
        Type::AdHoc(_, t) => {
            cover("ad-hoc");
            let mut t = snap(&**t);
            stub_insert_none(&mut t, &name);
            ensure(same(&t, &r), "an ad-hoc name that stands for nothing is left out");
        }
        _ => ensure(same(&a, &r), "other types are kept"),
    }
}

// ---- scripts (native only): what the type checker accepts
fn gen_ty(depth: usize) -> Type {
    let k = any::<u64>() % if depth == 0 { 11 } else { 18 };
    match k {
        0 => Type::Any,
        1 => Type::Bool,
        2 | 9 => Type::F64,
        3 => Type::Vec4,
        4 => Type::Mat4,
        5 => Type::Str,
        6 => Type::Link,
        7 => Type::Object,
        8 => Type::Secret(Box::new(Type::F64)),
        10 => Type::Secret(Box::new(Type::Bool)),
        11 => Type::Array(Box::new(gen_ty(depth - 1))),
        12 => Type::Option(Box::new(gen_ty(depth - 1))),
        13 => Type::Result(Box::new(gen_ty(depth - 1))),
        14 => Type::Thread(Box::new(gen_ty(depth - 1))),
        15 => Type::AdHoc(Arc::new(if any::<bool>() { "Foo".into() } else { "Bar".into() }), Box::new(gen_ty(depth - 1))),
        16 => Type::Closure(Box::new(Dfn { lts: vec![], tys: (0..1 + any::<u64>() % 2).map(|_| gen_ty(depth - 1)).collect(), ret: gen_ty(depth - 1), ext: vec![], lazy: crate::LAZY_NO })),
        _ => Type::In(Box::new(gen_ty(depth - 1))),
    }
}
/// Natively, mostly types of similar shape.
fn related(a: &Type, b: Type) -> Type {
    if native() && any::<u64>() % 3 > 0 { vary(a, 2) } else { b }
}
/// Another type for the same place: a variation of `t` or an unrelated one.
fn vary(t: &Type, depth: usize) -> Type {
    if any::<u64>() % 4 == 0 {
        return gen_ty(depth);
    }
    if any::<u64>() % 6 == 0 {
        return Type::Any;
    }
    if any::<u64>() % 6 == 0 {
        return Type::AdHoc(Arc::new("Foo".into()), Box::new(vary(t, depth)));
    }
    let d = depth.saturating_sub(1);
    match t {
        Type::Array(x) => Type::Array(Box::new(vary(x, d))),
        Type::Option(x) => Type::Option(Box::new(vary(x, d))),
        Type::Result(x) => Type::Result(Box::new(vary(x, d))),
        Type::Thread(x) => Type::Thread(Box::new(vary(x, d))),
        Type::In(x) => Type::In(Box::new(vary(x, d))),
        Type::AdHoc(n, x) => Type::AdHoc(n.clone(), Box::new(vary(x, d))),
        Type::Closure(f) => Type::Closure(Box::new(Dfn { lts: vec![], tys: f.tys.iter().chain(if any::<u64>() % 4 == 0 { f.tys.get(0) } else { None }).skip((any::<u64>() % 6 == 0) as usize).map(|x| vary(x, d)).collect(), ret: vary(&f.ret, d), ext: vec![], lazy: crate::LAZY_NO })),
        x => x.clone(),
    }
}
fn src(t: &Type) -> String {
    match t {
        Type::Any => "any".into(),
        Type::Bool => "bool".into(),
        Type::F64 => "f64".into(),
        Type::Vec4 => "vec4".into(),
        Type::Mat4 => "mat4".into(),
        Type::Str => "str".into(),
        Type::Link => "link".into(),
        Type::Object => "{}".into(),
        Type::Secret(x) => format!("sec[{}]", src(x)),
        Type::Array(x) => format!("[{}]", src(x)),
        Type::Option(x) => format!("opt[{}]", src(x)),
        Type::Result(x) => format!("res[{}]", src(x)),
        Type::Thread(x) => format!("thr[{}]", src(x)),
        Type::In(x) => format!("in[{}]", src(x)),
        Type::AdHoc(n, x) => format!("{} {}", n, src(x)),
        Type::Closure(f) => format!("\\({}) -> {}", f.tys.iter().map(src).collect::<Vec<_>>().join(", "), src(&f.ret)),
        _ => "any".into(),
    }
}
fn plain(t: &Type) -> bool {
    match t {
        Type::AdHoc(..) | Type::Closure(_) => false,
        Type::Array(x) | Type::Option(x) | Type::Result(x) | Type::Thread(x) | Type::In(x) => plain(x),
        _ => true,
    }
}
fn want(script: String, ok: bool, label: &'static str) {
    let script = script.replace(" }", "\n}").replace("{ ", "{\n");
    note(script.clone());
    let mut m = crate::Module::new();
    let r = crate::load_str("t.dyon", Arc::new(script), &mut m);
    if let Err(e) = &r {
        note(e.to_string());
    }
    if ok { cover("accepted") } else { cover("rejected") }
    ensure(r.is_ok() == ok, label);
}
/// Wraps a statement in surroundings that do not matter.
fn around(stm: String) -> String {
    match any::<u64>() % 8 {
        0 => format!("for i 3 {{ {} }}", stm),
        1 => format!("if true {{ {} }}", stm),
        2 => format!("loop {{ {}\nbreak }}", stm),
        3 => format!("if false {{ a := 1 }} else {{ {} }}", stm),
        4 => format!("a := [1, 2]\nfor i {{ b := a[i]\n{} }}", stm),
        _ => stm,
    }
}
pub fn nc_script_types() {
    let t = gen_ty(2);
    let s = vary(&t, 2);
    let (u, k) = (gen_ty(1), any::<u64>());
    let g = format!("fn g() -> {} {{ return g() }}\nfn h() -> {} {{ return h() }}\n", src(&t), src(&u));
    match k % 16 {
        0 | 1 => {
            let arg = if any::<bool>() { ("g()", "") } else { ("x", "x := g()\n") };
            // An argument in any position, the others being right.
            let (ps, a) = match any::<u64>() % 3 {
                0 => (format!("a: {}", src(&s)), arg.0.to_string()),
                1 => (format!("a: {}, b: {}", src(&u), src(&s)), format!("h(), {}", arg.0)),
                _ => (format!("a: {}, b: {}, c", src(&s), src(&u)), format!("{}, h(), 1", arg.0)),
            };
            let ret = any::<bool>();
            let (d, c) = if ret { (" -> f64 { return 1 }", "y := ") } else { (" {}", "") };
            want(format!("{}fn f({}){}\nfn main() {{ {} }}", g, ps, d, around(format!("{}{}f({})", arg.1, c, a))), table(&s, &t), "an argument is accepted iff its type is compatible with the declared one");
        }
        2 | 3 => {
            let body = match any::<u64>() % 4 {
                0 => "return g()".to_string(),
                1 => "return = g()\nx := 1".into(),
                2 => "if true { return g() }\nreturn f()".into(),
                _ => "for i 2 { return g() }\nreturn f()".into(),
            };
            want(format!("{}fn f() -> {} {{ {} }}\nfn main() {{}}", g, src(&s), body), table(&s, &t), "a returned value is accepted iff its type is compatible with the declared one");
        }
        4 => want(format!("{}f() = g()\nfn k(a: {}) {{}}\nfn main() {{ {} }}", g, src(&s), around("k(f())".into())), table(&s, &t), "the type of an expression function is the type of its expression"),
        5 => want(format!("{}fn main() {{ if g() {{}} }}", g), table(&Type::Bool, &t), "a condition is a boolean"),
        6 => want(format!("{}fn main() {{ if true {{}} else if g() {{}} else {{}} }}", g), table(&Type::Bool, &t), "a condition of `else if` is a boolean"),
        7 => {
            let g = format!("{}fn g2() -> {} {{ return g2() }}\n", g, src(&s));
            let arms = if any::<bool>() { "if true { g() } else { g2() }" } else { "if true { g() } else if false { g2() } else { g() }" };
            want(format!("{}fn main() {{ x := {} }}", g, arms), table(&s, &t), "the branches of an `if` have compatible types");
        }
        8 => {
            let v = ["(g(), 0)", "(0, g())", "(0, 1, g())", "(0, 1, 2, g())"][any::<usize>() % 4];
            want(format!("{}fn main() {{ x := {} }}", g, v), table(&t, &Type::F64), "components of a vector are numbers");
        }
        9 => {
            want(format!("{}fn main() {{ {} }}", g, if any::<bool>() { "g()\ny := 1" } else { "for i 3 { g()\ny := 1 }" }), false, "a result must be used");
        }
        10 => {
            want(format!("{}fn f(a: {}) -> {} {{ a2 := a }}\nfn main() {{}}", g, src(&s), src(&t)), false, "a function with a result returns it");
        }
        11 => {
            let u = if any::<bool>() { Type::F64 } else { u };
            let (ps, n) = match any::<u64>() % 4 {
                0 => (format!("a: f64, b: {}", src(&u)), "xy"),
                1 => (format!("a: {}, b: f64", src(&u)), "xy"),
                2 => (format!("a: f64, b: f64, c: {}", src(&u)), "xzw"),
                _ => (format!("a: f64, b: {}, c: f64, d: f64", src(&u)), "xxyz"),
            };
            want(format!("{}fn f({}) {{}}\nfn main() {{ f({} g()) }}", g, ps, n), table(&t, &Type::Vec4) && table(&u, &Type::F64), "a swizzled value is a vector and gives numbers");
        }
        12 => {
            let q = match &t { Type::Option(x) | Type::Result(x) => (**x).clone(), x => x.clone() };
            let s = vary(&q, 2);
            want(format!("{}fn f(a: {}) {{}}\nfn main() -> {} {{ f(g()?)\nreturn main() }}", g, src(&s), if let Type::Option(_) = t { "opt[any]" } else { "res[any]" }), table(&s, &q), "`?` gives the type inside");
        }
        13 => {
            let e = match &s { Type::Closure(f) => Some(f.ret.clone()), Type::Any => Some(Type::Any), Type::AdHoc(_, x) => x.closure_ret_ty(), _ => None };
            let n = match &s { Type::Closure(f) => f.tys.len(), _ => 1 };
            let a = vec!["1"; n].join(", ");
            want(format!("{}fn k(a: {}) {{}}\nfn main(f: {}) {{ k(\\f({})) }}", g, src(&t), src(&s), a), matches!(e, Some(ref e) if table(&t, e)), "a closure call has the declared result type");
        }
        14 => {
            let op = ["+=", "-="][any::<usize>() % 2];
            want(format!("{}fn k() -> {} {{ return k() }}\nfn main() {{ x := g()\nx {} k() }}", g, src(&s), op), add_table(&t, &s), "an ad-hoc type keeps apart what is added");
        }
        _ => {
            let b = ["return g()", "for i 2 { return g() }", "if true { return g() }"][any::<usize>() % 3];
            want(format!("{}fn f() {{ {} }}\nfn main() {{}}", g, b), false, "a function without a result returns none");
        }
    }
}
/// Built-in functions accept an argument iff its type is compatible with the registered one.
pub fn nc_script_builtin() {
    let p = crate::Prelude::from_module(&crate::Module::new());
    let mut names: Vec<_> = p.functions.iter().filter(|x| p.list[*x.1].ext.is_empty()).map(|(n, &i)| (n.clone(), p.list[i].tys.clone(), p.list[i].ret.clone())).collect();
    names.sort_by(|a, b| a.0.cmp(&b.0));
    let (name, tys, ret) = names[any::<u64>() as usize % names.len()].clone();
    let name: String = name.to_string();
    require(!tys.is_empty() && !name.contains('('));
    require(name.chars().all(|c| c.is_alphanumeric() || c == '_') && !["go", "return", "in"].contains(&&*name));
    require(tys.iter().all(|t| plain(t)));
    let j = any::<u64>() as usize % tys.len();
    let t = vary(&tys[j], 2);
    let mut decl = String::new();
    let mut args = vec![];
    for i in 0..tys.len() {
        let t = if i == j { &t } else { &tys[i] };
        decl += &format!("fn g{}() -> {} {{ return g{}() }}\n", i, src(t), i);
        args.push(format!("g{}()", i));
    }
    let pre = if ret == Type::Void { "" } else { "x := " };
    want(format!("{}fn main() {{ {}{}({}) }}", decl, pre, name, args.join(", ")), table(&tys[j], &t), "a built-in function accepts an argument iff its type is compatible");
}


/// Types of values that can be written down.
fn gen_data(depth: usize) -> Type {
    match any::<u64>() % if depth == 0 { 8 } else { 11 } {
        0 => Type::Any,
        1 => Type::Bool,
        2 | 3 => Type::F64,
        4 => Type::Vec4,
        5 => Type::Mat4,
        6 => Type::Str,
        7 => Type::Link,
        8 => Type::Array(Box::new(gen_data(depth - 1))),
        9 => Type::Option(Box::new(gen_data(depth - 1))),
        _ => Type::Result(Box::new(gen_data(depth - 1))),
    }
}
/// The extra signatures of a declared function: the first one that the arguments go with gives the
/// type of the result; arguments that may or may not go with it leave the declared type.
pub fn nc_script_refine() {
    let n = 1 + any::<usize>() % 2;
    let args: Vec<Type> = (0..n).map(|_| gen_data(1)).collect();
    let k = any::<usize>() % 4;
    let sigs: Vec<(Vec<Type>, Type)> = (0..k).map(|_| (args.iter().map(|t| if any::<bool>() { vary(t, 1) } else { t.clone() }).collect(), gen_data(1))).collect();
    require(sigs.iter().all(|s| s.0.iter().all(plain)));
    let mut res: Option<Option<Type>> = None;
    'sigs: for (ps, r) in &sigs {
        for (p, a) in ps.iter().zip(&args) {
            if !table(p, a) {
                continue 'sigs;
            }
            if amb(p, a) {
                res = Some(None);
                break 'sigs;
            }
        }
        res = Some(Some(r.clone()));
        break;
    }
    let found = res.is_some() || k == 0;
    let ty = res.unwrap_or(None).unwrap_or(Type::Any);
    let s = vary(&ty, 1);
    let decl: String = args.iter().enumerate().map(|(i, t)| format!("fn g{}() -> {} {{ return g{}() }}\n", i, src(t), i)).collect();
    let sg: String = sigs.iter().map(|(p, r)| format!("    ({}) -> {}\n", p.iter().map(src).collect::<Vec<_>>().join(", "), src(r))).collect();
    let script = format!("{}fn f({}) -> any {{ return 1 }}\n{}fn k(a: {}) {{}}\nfn main() {{ k(f({})) }}", decl, ["a", "a, b"][n - 1], sg, src(&s), ["g0()", "g0(), g1()"][n - 1]);
    want(script, found && table(&s, &ty), "the first extra signature that goes with the arguments gives the type of the result");
}
fn has_type(v: &crate::Variable, t: &Type) -> bool {
    use crate::Variable as V;
    match (v, t) {
        (_, Type::Any) => true,
        (V::Bool(..), Type::Bool) | (V::F64(..), Type::F64) | (V::Vec4(_), Type::Vec4) | (V::Mat4(_), Type::Mat4) | (V::Str(_), Type::Str) | (V::Link(_), Type::Link) | (V::Object(_), Type::Object) => true,
        (v, Type::Secret(t)) => has_type(v, t),
        (V::Array(a), Type::Array(t)) => a.iter().all(|v| has_type(v, t)),
        (V::Option(None), Type::Option(_)) | (V::Result(Err(_)), Type::Result(_)) => true,
        (V::Option(Some(v)), Type::Option(t)) => has_type(v, t),
        (V::Result(Ok(v)), Type::Result(t)) => has_type(v, t),
        (v, Type::AdHoc(_, t)) => has_type(v, t),
        _ => false,
    }
}
fn value(t: &Type) -> crate::Variable {
    use crate::Variable as V;
    match t {
        Type::Bool => V::bool(any()),
        Type::F64 => V::f64(any()),
        Type::Vec4 => V::Vec4(any()),
        Type::Mat4 => V::Mat4(Box::new(any())),
        Type::Str => V::Str(Arc::new(any())),
        Type::Link => V::Link(Box::new(any())),
        Type::Object => V::Object(Arc::new(any())),
        Type::Array(t) => V::Array(Arc::new((0..any::<usize>() % 3).map(|_| value(t)).collect())),
        Type::Option(t) => V::Option(if any() { Some(Box::new(value(t))) } else { None }),
        Type::Result(t) => V::Result(Ok(Box::new(value(t)))),
        Type::Secret(t) => match value(t) {
            V::Bool(b, _) => V::Bool(b, Some(Box::new(vec![V::f64(1.0)]))),
            V::F64(b, _) => V::F64(b, Some(Box::new(vec![V::f64(1.0)]))),
            x => x,
        },
        Type::AdHoc(_, t) => value(t),
        _ => V::f64(any()),
    }
}
/// A value has the type the checker gave to its expression.
pub fn nc_script_sound() {
    let p = crate::Prelude::from_module(&crate::Module::new());
    let mut names: Vec<_> = p.functions.iter().map(|(n, &i)| (n.to_string(), i)).collect();
    names.sort();
    let skip = ["print", "println", "read_line", "read_number", "load", "load_string_url", "load_data", "save", "save_string", "download", "sleep", "exit", "load_meta", "meta", "call", "call_ret", "syntax_", "functions", "now", "random", "explain", "module", "debug", "backtrace", "join", "join_thread", "next", "wait_next", "panic", "in", "go", "eval", "load_", "check", "prompt", "__", "json_from"];
    let ops = ["+", "-", "*", "/", "%", "^", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "x", "*."];
    let tys: Vec<Type>;
    let expr;
    if any::<u64>() % 3 > 0 {
        let a = [Type::F64, Type::Vec4, Type::Mat4, Type::Str, Type::Link, Type::Bool, Type::Secret(Box::new(Type::Bool)), Type::Secret(Box::new(Type::F64)), Type::Array(Box::new(Type::F64)), Type::Object, Type::Option(Box::new(Type::F64))];
        let t = a[any::<usize>() % a.len()].clone();
        let u = if any::<bool>() { t.clone() } else { a[any::<usize>() % a.len()].clone() };
        tys = vec![t, u];
        expr = format!("a0 {} a1", ops[any::<usize>() % ops.len()]);
    } else {
        let (name, i) = names[any::<u64>() as usize % names.len()].clone();
        require(!skip.iter().any(|s| name.starts_with(s)) && name.chars().all(|c| c.is_alphanumeric() || c == '_'));
        tys = p.list[i].tys.clone();
        require(tys.iter().all(plain) && p.list[i].lts.iter().all(|l| matches!(l, crate::Lt::Default)) && p.list[i].ret != Type::Void);
        expr = format!("{}({})", name, (0..tys.len()).map(|i| format!("a{}", i)).collect::<Vec<_>>().join(", "));
    }
    let tys: Vec<Type> = tys.into_iter().map(|t| if let Type::Any = t { gen_data(1) } else { t }).collect();
    let cands = [Type::F64, Type::Bool, Type::Str, Type::Vec4, Type::Mat4, Type::Link, Type::Object, Type::Array(Box::new(Type::Any)), Type::Option(Box::new(Type::Any)), Type::Result(Box::new(Type::Any)), Type::Secret(Box::new(Type::Bool)), Type::Secret(Box::new(Type::F64))];
    let args: Vec<crate::Variable> = tys.iter().map(value).collect();
    require(tys.iter().zip(&args).all(|(t, v)| has_type(v, t)));
    let ps: Vec<String> = tys.iter().enumerate().map(|(i, t)| format!("a{}: {}", i, src(t))).collect();
    // Which of the types the checker lets the expression have, beside `any`.
    let loads = |ret: &Type| load_src(&format!("fn main({}) -> {} {{\nreturn {}\n}}\n", ps.join(", "), src(ret), expr)).is_ok();
    let fits: Vec<&Type> = cands.iter().filter(|t| loads(t)).collect();
    // An expression of type `any` fits everything.
    require(!fits.is_empty() && !(fits.contains(&&Type::Str) && fits.contains(&&Type::F64)));
    cover("typed");
    let body = format!("fn main({}) -> any {{\nr := {}\nreturn clone(r)\n}}\n", ps.join(", "), expr);
    note(body.clone());
    note(format!("{:?}", args));
    if let Ok(v) = run_fn(&body, "main", &args) {
        cover("ran");
        for t in fits {
            if !has_type(&v, t) {
                note(format!("{:?} is not {}", v, src(t)));
                ensure(false, "a value has the type the checker gave to its expression");
            }
        }
    }
}
native! {
    nc_script_types: ();
    nc_script_builtin: ();
    nc_script_refine: ();
    nc_script_sound: ();
    vc_goes_with: (Type, Type);
    vc_ambiguous: (Type, Type);
    vc_add_assign: (Type, Type);
    vc_closure_ret: (Type);
    vc_insert_var: (Type, Arc<String>, Arc<String>);
    vc_insert_none: (Type, Arc<String>);
}
