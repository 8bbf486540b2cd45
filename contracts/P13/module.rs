// P13: a name refers to the function its module, imports and namespaces give it.
use super::*;
use crate::verif::*;

// ------------------------------------------------------------ random modules against an independent lookup
#[derive(Clone, Debug, PartialEq)]
enum Val { F(f64), S(String) }
/// A function of the world: its namespace, full name, and what it gives when it is called as `args` tells.
#[derive(Clone, Debug)]
struct Fun { ns: String, name: String, val: Val }
#[derive(Clone, Debug, PartialEq)]
enum To { Fun(usize), Ext(&'static str) }
#[derive(Clone, Debug)]
struct Use { ns: String, alias: String, fns: Vec<(String, Option<String>)> }
struct World { funs: Vec<Fun>, mods: Vec<Vec<usize>> }

const NAMES: [&str; 5] = ["f", "g", "abs", "p", "p(mut)"];
const EXTS: [&str; 3] = ["abs", "push(mut,_)", "unwrap_or"];
fn pick<T: Clone>(xs: &[T]) -> T { xs[below(xs.len())].clone() }
fn base(n: &str) -> &str { n.split('(').next().unwrap() }
/// The functions behind the aliases; what two uses of the same kind give to different functions is left open.
fn aliases(w: &World, list: &[usize], uses: &[Use]) -> Vec<(String, String, Option<To>)> {
    let mut out: Vec<(String, String, Option<To>)> = vec![];
    for glob in [true, false] {
        let mut here: Vec<(String, String, Option<To>)> = vec![];
        for u in uses.iter().filter(|u| u.fns.is_empty() == glob) {
            let mut all: Vec<(String, To)> = list.iter().filter(|&&i| w.funs[i].ns == u.ns).map(|&i| (w.funs[i].name.clone(), To::Fun(i))).collect();
            if u.ns == "std" { all.extend(EXTS.iter().map(|e| (e.to_string(), To::Ext(e)))); }
            for (n, t) in all {
                let mut keys = vec![];
                if glob { keys.push(n.clone()); }
                for (f, r) in &u.fns {
                    if base(&n) == f { keys.push(format!("{}{}", r.as_ref().unwrap_or(f), &n[f.len()..])); }
                }
                for k in keys {
                    match here.iter_mut().find(|x| x.0 == u.alias && x.1 == k) {
                        Some(x) => if x.2 != Some(t.clone()) { x.2 = None },
                        None => here.push((u.alias.clone(), k, Some(t.clone()))),
                    }
                }
            }
        }
        out.retain(|x| !here.iter().any(|y| x.0 == y.0 && x.1 == y.1));
        out.extend(here);
    }
    out
}
/// Without an alias: the last function with the name, then the external one.
fn plain(w: &World, list: &[usize], name: &str) -> Option<To> {
    list.iter().rev().find(|&&i| w.funs[i].name == name).map(|&i| To::Fun(i)).or_else(|| EXTS.iter().find(|e| **e == name).map(|e| To::Ext(e)))
}
/// The lines before, and the expression with the value, of calling `key` (with its alias) when it refers to `to`.
fn call_text(w: &World, at: &str, key: &str, to: &To) -> (String, String, Val) {
    let c = format!("{}{}", at, base(key));
    match to {
        To::Fun(i) if w.funs[*i].name.contains("(mut)") => {
            let x = match w.funs[*i].val { Val::F(x) => x, _ => unreachable!() };
            (format!("y := 5\n{}(mut y)\n", c), "y".into(), Val::F(x))
        }
        To::Fun(i) => {
            let a = if base(&w.funs[*i].name) == "f" { "" } else { "2" };
            let v = w.funs[*i].val.clone();
            match below(4) {
                0 => (format!("t := go {}({})\n", c, a), "unwrap(join(thread: t))".into(), v),
                1 => (format!("c := \\(k: f64) = {}({})\n", c, if a == "" { "" } else { "k" }), "\\c(2)".into(), v),
                _ => (String::new(), format!("{}({})", c, a), v),
            }
        }
        To::Ext("abs") => (String::new(), format!("{}(-7)", c), Val::F(7.0)),
        To::Ext("unwrap_or") => (String::new(), format!("{}(some(3), unwrap(none()))", c), Val::F(3.0)),
        To::Ext(_) => (format!("y := [1]\n{}(mut y, 4)\n", c), "y[1]".into(), Val::F(4.0)),
    }
}
/// A function of the module under construction.
fn fun_text(name: &str, id: usize, call: Option<(String, String, Val)>) -> (String, Val) {
    let head = |r: &str| format!("fn {}({}){} {{\n", base(name), match name { "f" => "", "p(mut)" => "mut x", _ => "x: f64" }, r);
    if name == "p(mut)" { return (format!("{}x += {}\n}}\n", head(""), id), Val::F(5.0 + id as f64)); }
    let x = if name == "f" { "" } else { " + x" };
    let own = if name == "f" { id as f64 } else { id as f64 + 2.0 };
    match call {
        None if below(3) == 0 => (format!("{}return \"s{}\"\n}}\n", head(" -> str"), id), Val::S(format!("s{}", id))),
        None => (format!("{}return {}{}\n}}\n", head(" -> f64"), id, x), Val::F(own)),
        Some((pre, e, Val::F(v))) => (format!("{}{}return {}{} + {}\n}}\n", head(" -> f64"), pre, id, x, e), Val::F(own + v)),
        Some((pre, e, Val::S(v))) => (format!("{}{}return \"s{}\" + {}\n}}\n", head(" -> str"), pre, id, e), Val::S(format!("s{}{}", id, v))),
    }
}
fn use_text(u: &Use) -> String {
    if u.fns.is_empty() { return format!("use {} as {}\n", u.ns, u.alias); }
    let fs: Vec<String> = u.fns.iter().map(|(f, r)| match r { Some(r) => format!("{} as {}", f, r), None => f.clone() }).collect();
    format!("use {}::{{{}}} as {}\n", u.ns, fs.join(", "), u.alias)
}
thread_local! { static DRIVER: Arc<Module> = {
    let mut m = Module::new();
    let src = "fn mk(name, src, ms) -> any { return module(in: name, string: src, imports: ms) }\n\
               fn mk2(name, src, ms, tr, usetr) -> any { return module(in: name, string: src, imports: ms, tr: tr, usetr: usetr) }\n\
               fn ld(path, ms) -> any { return load(source: path, imports: ms) }\n\
               fn ld2(path, ms, tr, usetr) -> any { return load(source: path, imports: ms, tr: tr, usetr: usetr) }\n\
               fn ld0(path) -> any { return load(path) }\n\
               fn at(m, f, xs) -> any { return call_ret(m, f, xs) }\n";
    crate::load_str("driver.dyon", Arc::new(src.into()), &mut m).unwrap();
    Arc::new(m)
} }
fn txt(s: &str) -> Variable { Variable::Str(Arc::new(s.into())) }
/// Loads a module in one of the ways a script can; None when that is refused.
fn loaded(src: &str, ms: &[Variable], tr: bool) -> Option<Variable> {
    let d = DRIVER.with(|d| d.clone());
    let mut rt = Runtime::new();
    let ms_ = Variable::Array(Arc::new(ms.to_vec()));
    let way = below(8);
    let r = if way < 2 {
        let dir = std::env::temp_dir().join(format!("dyon-verif-p13-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join("m.dyon");
        std::fs::write(&path, src).unwrap();
        let p = txt(path.to_str().unwrap());
        let r = if tr || way == 1 { rt.call_str_ret("ld2", &[p, ms_, Variable::bool(tr), Variable::bool(any())], &d) }
            else if ms.is_empty() { rt.call_str_ret("ld0", &[p], &d) }
            else { rt.call_str_ret("ld", &[p, ms_], &d) };
        let _ = std::fs::remove_dir_all(&dir);
        r
    } else if tr || way < 5 {
        rt.call_str_ret("mk2", &[txt("m.dyon"), txt(src), ms_, Variable::bool(tr), Variable::bool(any())], &d)
    } else {
        rt.call_str_ret("mk", &[txt("m.dyon"), txt(src), ms_], &d)
    };
    match r {
        Ok(Variable::Result(Ok(m))) => Some(*m),
        Ok(Variable::Result(Err(e))) => { note(format!("refused: {:?}", e.message)); None }
        Ok(x) => { note(format!("loading gives {:?}", x)); ensure(false, "loading gives a module or an error"); None }
        Err(e) => { note(format!("error: {}", e)); ensure(false, "loading gives a module or an error"); None }
    }
}
fn is_val(x: &Result<Variable, String>, v: &Val) -> bool {
    match (x, v) {
        (Ok(Variable::F64(x, _)), Val::F(y)) => x == y,
        (Ok(Variable::Str(x)), Val::S(y)) => **x == *y,
        _ => false,
    }
}
fn args_of(name: &str) -> Vec<Variable> { if name == "f" { vec![] } else { vec![Variable::f64(2.0)] } }

fn gen_uses(w: &World, list: &[usize]) -> Vec<Use> {
    let mut ns: Vec<String> = list.iter().map(|&i| w.funs[i].ns.clone()).filter(|n| n != "").collect();
    ns.push("std".into());
    if below(6) == 0 { ns.push("other".into()); }
    (0..below(4)).map(|_| {
        let ns = pick(&ns);
        let fns = if any::<bool>() { vec![] } else {
            let names: &[&str] = if ns == "std" { &["abs", "push", "unwrap_or"] } else { &["f", "g", "abs", "p"] };
            (0..1 + below(2)).map(|_| (pick(names).to_string(), if any() { Some(pick(&["f", "g", "q", "abs", "r"]).to_string()) } else { None })).collect()
        };
        Use { ns, alias: pick(&["a", "b", "ab"]).to_string(), fns }
    }).collect()
}

pub fn nc_modules() {
    let mut w = World { funs: vec![], mods: vec![] };
    let mut objs: Vec<Variable> = vec![];
    let n = 1 + below(4);
    for m in 0..n {
        // imports, in any order
        let mut ms: Vec<usize> = vec![];
        for _ in 0..below(m + 1) { let k = below(m); if !ms.contains(&k) { ms.push(k); } }
        let mut list: Vec<usize> = vec![];
        for &k in &ms { list.extend(w.mods[k].iter().cloned()); }
        let ns = pick(&["", "m", "n", "m::k", "k"]).to_string();
        let uses = gen_uses(&w, &list);
        let al = aliases(&w, &list, &uses);
        // names first, bodies in any order after what they call
        let mut own: Vec<&str> = vec![];
        for k in NAMES.iter() {
            if any::<bool>() && (ns == "" || !w.funs.iter().any(|f| f.ns == ns && f.name == *k)) { own.push(k); }
        }
        for i in (1..own.len()).rev() { own.swap(i, below(i + 1)); }
        let first = w.funs.len();
        let imported = list.clone();
        for (i, k) in own.iter().enumerate() {
            w.funs.push(Fun { ns: ns.clone(), name: k.to_string(), val: Val::F(0.0) });
            list.push(first + i);
        }
        let mut texts: Vec<(usize, String)> = vec![];
        let mut done: Vec<usize> = vec![];
        let mut order: Vec<usize> = (0..own.len()).collect();
        for i in (1..order.len()).rev() { order.swap(i, below(i + 1)); }
        for i in order {
            let id = 1000 * (m + 1) + 100 * (i + 1) + below(100);
            let mut call = None;
            if below(5) > 0 {
                let mut c: Vec<(String, String, To)> = vec![];
                for k in NAMES.iter().chain(EXTS.iter()) {
                    if let Some(t) = plain(&w, &list, k) { c.push((String::new(), k.to_string(), t)); }
                }
                for (a, k, t) in &al { if let Some(t) = t { for _ in 0..3 { c.push((format!("{}::", a), k.clone(), t.clone())); } } }
                c.retain(|x| match x.2 { To::Fun(j) => j < first || done.contains(&j), _ => true });
                if !c.is_empty() {
                    let (at, k, t) = pick(&c);
                    if at != "" { cover("alias"); }
                    call = Some(call_text(&w, &at, &k, &t));
                }
            }
            let (text, val) = fun_text(own[i], id, call);
            w.funs[first + i].val = val;
            texts.push((i, text));
            done.push(first + i);
        }
        texts.sort_by_key(|t| t.0);
        let mut src = String::new();
        if ns != "" { src.push_str(&format!("ns {}\n", ns)); }
        for u in &uses { src.push_str(&use_text(u)); }
        for t in &texts { src.push_str(&t.1); }
        if texts.is_empty() { src.push_str("fn nothing() { println(1) }\n"); }
        note(format!("module {} imports {:?}\n{}", m, ms, src));
        let os: Vec<Variable> = ms.iter().map(|&k| objs[k].clone()).collect();
        let _ = imported;
        let o = loaded(&src, &os, false);
        ensure(o.is_some(), "a module whose names are all known is accepted");
        let o = match o { Some(o) => o, None => return };
        let mm: Arc<Module> = match &o { Variable::RustObject(x) => x.lock().unwrap().downcast_ref::<Arc<Module>>().unwrap().clone(), _ => { ensure(false, "a module is loaded"); return } };
        w.mods.push(list.clone());
        objs.push(o.clone());
        // every name, called from outside
        for k in NAMES.iter().filter(|k| **k != "p(mut)") {
            match plain(&w, &list, k) {
                Some(To::Fun(i)) => {
                    let r = if any() { Runtime::new().call_str_ret(k, &args_of(k), &mm) }
                        else { Runtime::new().call_str_ret("at", &[o.clone(), txt(k), Variable::Array(Arc::new(args_of(k)))], &DRIVER.with(|d| d.clone())) };
                    if !is_val(&r, &w.funs[i].val) { note(format!("{} of module {} gives {:?}, expected {:?}", k, m, r, w.funs[i].val)); ensure(false, "a name refers to the function the module, its imports and namespaces give it"); }
                }
                _ => {}
            }
        }
        // names that are not there, and calls that do not fit
        if below(3) == 0 {
            let mut bad: Vec<(&str, String)> = vec![];
            for k in NAMES.iter().filter(|k| **k != "p(mut)") {
                let a = if *k == "f" { "" } else { "2" };
                if plain(&w, &list, k).is_none() { bad.push(("a name nothing gives is refused", format!("x := {}({})", k, a))); }
                for at in ["a", "b", "ab", "zz"] {
                    if !al.iter().any(|x| x.0 == at && x.1 == *k) { bad.push(("a name nothing gives is refused", format!("x := {}::{}({})", at, k, a))); }
                }
            }
            let mut keys: Vec<(String, String, To)> = al.iter().filter_map(|x| x.2.clone().map(|t| (format!("{}::", x.0), x.1.clone(), t))).collect();
            for k in NAMES.iter() { if let Some(t) = plain(&w, &list, k) { keys.push((String::new(), k.to_string(), t)); } }
            for (at, k, t) in keys {
                let c = format!("{}{}", at, base(&k));
                if let To::Fun(i) = t {
                    let f = w.funs[i].clone();
                    if f.name == "p(mut)" { bad.push(("mutability of an argument is part of the name", format!("x := {}(2, 2)", c))); continue; }
                    bad.push(("a call has the arguments of the function", format!("x := {}({})", c, if f.name == "f" { "2" } else if any() { "" } else { "2, 3" })));
                    if f.name != "f" { bad.push(("an argument has the type the function asks for", format!("x := {}(\"a\")", c))); }
                    bad.push(("a result has the type of the function", format!("x := {}({})\nreturn x {}", c, if f.name == "f" { "" } else { "2" }, if let Val::F(_) = f.val { "+ \"a\"" } else { "+ 1" })));
                } else if t == To::Ext("abs") {
                    bad.push(("a call has the arguments of the function", format!("x := {}({})", c, pick(&["", "1, 2"]))));
                    bad.push(("an argument has the type the function asks for", format!("x := {}(\"a\")", c)));
                }
            }
            if !bad.is_empty() {
                let (why, line) = pick(&bad);
                cover(why);
                let mut s = String::new();
                if ns != "" { s.push_str(&format!("ns {}\n", ns)); }
                for u in &uses { s.push_str(&use_text(u)); }
                for t in &texts { s.push_str(&t.1); }
                s.push_str(&format!("fn last() -> any {{\n{}{}\n}}\n", line, if line.contains("return") { "" } else { "\nreturn 0" }));
                note(format!("refuse: {}", s));
                ensure(loaded(&s, &os, false).is_none(), why);
            }
        }
    }
}
/// Functions of a module are there for the modules it loads only when they were made transitive.
pub fn nc_transitive() {
    let tr: bool = any();
    let lib = format!("fn f() -> f64 {{ return {} }}\nfn g() -> f64 {{ return f() + 1 }}\n\
        fn mk(src: str) -> any {{ return module(in: \"x\", string: src, imports: []) }}\n\
        fn mk2(src: str, u: bool) -> any {{ return module(in: \"x\", string: src, imports: [], tr: false, usetr: u) }}\n\
        fn ap(m: any) -> any {{ return call_ret(m, \"h\", []) }}\n", 10 + below(50));
    note(format!("transitive {} {}", tr, lib));
    let o = match loaded(&lib, &[], tr) { Some(o) => o, None => { ensure(false, "a module whose names are all known is accepted"); return } };
    let m: Arc<Module> = match &o { Variable::RustObject(x) => x.lock().unwrap().downcast_ref::<Arc<Module>>().unwrap().clone(), _ => return };
    let f = Runtime::new().call_str_ret("f", &[], &m);
    let f = match f { Ok(Variable::F64(x, _)) => x, _ => { ensure(false, "a function is called by name"); return } };
    let own: bool = any();
    let src = format!("{}fn h() -> f64 {{ return {} }}\n", if own { "fn f() -> f64 { return 7 }\n" } else { "" }, if own { "f() + 100" } else { "g() + f()" });
    let u: bool = any();
    let two: bool = any();
    note(format!("own {} use {} {}", own, !two || u, src));
    let r = if two { Runtime::new().call_str_ret("mk2", &[txt(&src), Variable::bool(u)], &m) } else { Runtime::new().call_str_ret("mk", &[txt(&src)], &m) };
    note(format!("gives {:?}", r.as_ref().map(|_| ())));
    match r {
        Ok(Variable::Result(Ok(x))) => {
            ensure(own || (tr && (!two || u)), "functions that are not transitive do not reach the modules a module loads");
            let r = Runtime::new().call_str_ret("ap", &[*x], &m);
            ensure(is_val(&r, &Val::F(if own { 107.0 } else { f + 1.0 + f })), "a name refers to the function the module, its imports and namespaces give it");
        }
        Ok(Variable::Result(Err(e))) => { note(format!("{:?}", e)); ensure(!(own || (tr && (!two || u))), "transitive functions reach the modules a module loads"); }
        _ => ensure(false, "loading gives a module or an error"),
    }
}


// ------------------------------------------------------------ lookup and imports
/// What a call of an external function is compiled to.
fn ext_index(f: &FnExternal) -> FnIndex {
    match f.f {
        FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
        FnExt::Return(ff) => if f.p.lazy.is_empty() { FnIndex::Return(FnReturnRef(ff)) } else { FnIndex::Lazy(FnReturnRef(ff), f.p.lazy) },
        FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
        FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
    }
}
/// The last loaded function with the name, as a distance; nothing is found only when nothing has the name.
pub fn vc_find_loaded(m: Module, name: Arc<String>, relative: usize) {
    let n = m.functions.len();
    require(n < (1 << 40) && relative < (1 << 40));
    let r = m.find_function(&name, relative);
    let p = skolem();
    match r {
        FnIndex::Loaded(d) => {
            let i = (d + relative as isize) as usize;
            ensure(i < n && m.functions[i].name == name, "the function found has the name");
            ensure(!(p > i && p < n && m.functions[p].name == name), "no later function has the name");
        }
        _ => ensure(!(p < n && m.functions[p].name == name), "a loaded function with the name is found first"),
    }
    if let FnIndex::None = r {
        ensure(!(p < m.ext_prelude.len() && m.ext_prelude[p].name == name), "an external function with the name is found");
    }
}
pub fn vc_import_tr(m: Module, other: Module) {
    let mut m = m;
    let (a, t) = (m.functions.len(), other.transitive_functions_len);
    require(t <= other.functions.len());
    let pre = snap(&m.functions);
    m.import_tr_prelude(&other);
    ensure(m.functions.len() == a + t, "the transitive functions are added");
    ensure(m.transitive_functions_len == a + t, "what was added is transitive");
    let p = skolem();
    if p < a { ensure(same(&m.functions[p].name, &pre[p].name), "the functions that were there stay in place"); }
    else if p < a + t { ensure(same(&m.functions[p].name, &other.functions[p - a].name), "the functions are added in order"); }
}
/// The last external function with the name, when no loaded function has it.
pub fn vc_find_ext(m: Module, name: Arc<String>, relative: usize) {
    let n = m.ext_prelude.len();
    require(m.functions.is_empty() && n > 0);
    let r = m.find_function(&name, relative);
    let last = &m.ext_prelude[n - 1];
    if last.name == name { cover("last"); ensure(same_index(&r, &ext_index(last)), "the last external function with the name is called as it is declared"); }
    else if n > 1 && m.ext_prelude[n - 2].name == name { cover("before"); ensure(same_index(&r, &ext_index(&m.ext_prelude[n - 2])), "an external function with another name is passed over"); }
    else if n == 1 { ensure(matches!(r, FnIndex::None), "a name nothing gives is not found"); }
}


fn same_index(a: &FnIndex, b: &FnIndex) -> bool { same(a, b) }
pub fn vc_import_ext(m: Module, other: Module) {
    let mut m = m;
    let (a, t) = (m.ext_prelude.len(), other.ext_prelude.len());
    let pre = snap(&m.ext_prelude);
    let fs = m.functions.len();
    m.import_ext_prelude(&other);
    ensure(m.ext_prelude.len() == a + t && m.functions.len() == fs, "the external functions are added, and nothing else");
    let p = skolem();
    if p < a { ensure(same(&m.ext_prelude[p].name, &pre[p].name), "the functions that were there stay in place"); }
    else if p < a + t { ensure(same(&m.ext_prelude[p].name, &other.ext_prelude[p - a].name), "the functions are added in order"); }
}
pub fn vc_import(m: Module, other: Module) {
    let mut m = m;
    let (a, t) = (m.functions.len(), other.functions.len());
    let pre = snap(&m.functions);
    let exts = snap(&m.ext_prelude);
    let tr = m.transitive_functions_len;
    m.import(&other);
    ensure(m.functions.len() == a + t, "all functions of the module are imported");
    ensure(m.transitive_functions_len == tr, "importing makes nothing transitive");
    ensure(m.ext_prelude.len() >= exts.len(), "no external function is lost");
    let p = skolem();
    if p < exts.len() { ensure(same(&m.ext_prelude[p].name, &exts[p].name), "the external functions that were there stay in place"); }
    if p < a { ensure(same(&m.functions[p].name, &pre[p].name), "the functions that were there stay in place"); }
    else if p < a + t { ensure(same(&m.functions[p].name, &other.functions[p - a].name), "the functions are imported in order"); }
}
/// One external function: added exactly when none with its name and namespace is there.
pub fn vc_import_one(m: Module, other: Module) {
    let mut m = m;
    require(m.ext_prelude.len() == 1 && other.ext_prelude.len() == 1 && other.functions.is_empty());
    let (x, y) = (snap(&m.ext_prelude[0]), snap(&other.ext_prelude[0]));
    m.import(&other);
    if x.name == y.name && x.namespace == y.namespace { cover("same"); ensure(m.ext_prelude.len() == 1, "an external function that is there is not added again"); }
    else {
        cover("new");
        ensure(m.ext_prelude.len() == 2 && same(&m.ext_prelude[1].name, &y.name) && same(&m.ext_prelude[1].namespace, &y.namespace), "an external function that is not there is added");
    }
}
pub fn vc_add_binop(m: Module, name: Arc<String>, f: fn(&crate::Variable, &crate::Variable) -> Result<crate::Variable, String>, p: Dfn) {
    let mut m = m;
    let n = m.ext_prelude.len();
    m.add_binop(snap(&name), f, p);
    ensure(m.ext_prelude.len() == n + 1, "a function is added");
    let e = &m.ext_prelude[n];
    ensure(same(&e.name, &name) && same(&e.namespace, &m.register_namespace), "a function is added under its name, in the namespace that is set");
    ensure(same(&e.f, &FnExt::BinOp(f)), "the function itself is added");
}
type Ret = fn(&mut Runtime) -> Result<crate::Variable, String>;
type NoRet = fn(&mut Runtime) -> Result<(), String>;
type Un = fn(&crate::Variable) -> Result<crate::Variable, String>;
fn added(m: &Module, n: usize, name: &Arc<String>, f: FnExt) -> bool {
    if m.ext_prelude.len() != n + 1 { return false; }
    let e = &m.ext_prelude[n];
    same(&e.name, name) && same(&e.namespace, &m.register_namespace) && same(&e.f, &f)
}
pub fn vc_add_ret(m: Module, name: Arc<String>, f: Ret, p: Dfn) {
    let mut m = m;
    let n = m.ext_prelude.len();
    m.add(snap(&name), f, p);
    ensure(added(&m, n, &name, FnExt::Return(f)), "a function is added under its name, in the namespace that is set");
}
pub fn vc_add_void(m: Module, name: Arc<String>, f: NoRet, p: Dfn) {
    let mut m = m;
    let n = m.ext_prelude.len();
    m.add(snap(&name), f, p);
    ensure(added(&m, n, &name, FnExt::Void(f)), "a function is added under its name, in the namespace that is set");
}
pub fn vc_add_unop(m: Module, name: Arc<String>, f: Un, p: Dfn) {
    let mut m = m;
    let n = m.ext_prelude.len();
    m.add_unop(snap(&name), f, p);
    ensure(added(&m, n, &name, FnExt::UnOp(f)), "a function is added under its name, in the namespace that is set");
}
pub fn vc_add_str(m: Module, name: Arc<String>, f: Ret, p: Dfn) {
    let mut m = m;
    let n = m.ext_prelude.len();
    m.add_str(&name, f, p);
    ensure(added(&m, n, &name, FnExt::Return(f)), "a function is added under its name, in the namespace that is set");
}
pub fn vc_transitive(m: Module) {
    let mut m = m;
    let n = m.functions.len();
    m.make_transitive();
    ensure(m.transitive_functions_len == n && m.functions.len() == n, "all functions loaded so far are transitive");
}
native! {
    nc_modules: ();
    nc_transitive: ();
}
