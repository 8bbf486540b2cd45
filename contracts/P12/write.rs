// P12: the text of a value.
//
// The writer is a log whose state is a fold over everything written (bytes of literals, displayed values); the text of an
// item is abstract (an unknown function of the item and of what was written before), so each form is proved for any items.
use super::*;
use crate::verif::*;
use std::fmt;

pub struct Log { pub h: u64 }
impl io::Write for Log {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.h = fmt_bytes(self.h, b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { self.h = fmt_bytes(self.h, b); Ok(()) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> { self.h = fmt_step(self.h, a); Ok(()) }
}
fn json(e: EscapeString) -> bool { matches!(e, EscapeString::Json) }
fn esc(b: bool) -> EscapeString { if b { EscapeString::Json } else { EscapeString::None } }

//@stub * dyon::piston_meta::json::write_string stub_json
pub fn stub_json(w: &mut Log, s: &str) -> Result<(), io::Error> {
    w.h = uf2("json", &w.h, &s);
    Ok(())
}
//@stub vc_w_scalar dyon::write::write_variable stub_item
//@stub vc_w_wrap dyon::write::write_variable stub_item
/// The text of a part, in the form used inside other values.
pub fn stub_item(w: &mut Log, _rt: &Runtime, v: &Variable, e: EscapeString, _tabs: u32) -> Result<(), io::Error> {
    w.h = text(w.h, v, json(e));
    Ok(())
}
fn text(h: u64, v: &Variable, json: bool) -> u64 { uf3("text", &h, v, &json) }

pub fn vc_w_scalar(rt: Runtime, v: Variable, js: bool, tabs: u32, h: u64) {
    if let Variable::Ref(i) = &v { require(*i < rt.stack.len()); }
    let mut w = Log { h };
    let e = match &v {
        Variable::Str(t) => { cover("text"); if js { uf2("json", &h, &(&***t)) } else { fmt_step(h, format_args!("{}", t)) } }
        Variable::F64(x, _) => { cover("number"); fmt_step(h, format_args!("{}", x)) }
        Variable::Bool(x, _) => { cover("bool"); fmt_step(h, format_args!("{}", x)) }
        Variable::Vec4(v) => {
            cover("vec4");
            if v[3] != 0.0 { fmt_step(h, format_args!("({}, {}, {}, {})", v[0], v[1], v[2], v[3])) }
            else if v[2] != 0.0 { fmt_step(h, format_args!("({}, {}, {})", v[0], v[1], v[2])) }
            else { fmt_step(h, format_args!("({}, {})", v[0], v[1])) }
        }
        Variable::Mat4(m) => {
            cover("mat4");
            let mut e = fmt_step(h, format_args!("mat4 {{"));
            for i in 0..4 {
                if i > 0 { e = fmt_step(e, format_args!("; ")); }
                for j in 0..4 {
                    if j > 0 { e = fmt_step(e, format_args!(",")); }
                    e = fmt_step(e, format_args!("{}", m[j][i]));
                }
            }
            fmt_step(e, format_args!("}}"))
        }
        Variable::Ref(i) => { cover("ref"); text(h, &rt.stack[*i], js) }
        Variable::Option(None) => { cover("none"); fmt_step(h, format_args!("none()")) }
        _ => { require(false); h }
    };
    let r = write_variable(&mut w, &rt, &v, esc(js), tabs);
    ensure(r.is_ok(), "writing a value succeeds");
    ensure(w.h == e, "a number, text, bool, vector, matrix or reference is written as its literal");
}
pub fn vc_w_wrap(rt: Runtime, v: Variable, js: bool, tabs: u32, h: u64) {
    let mut w = Log { h };
    let close = |h| fmt_step(h, format_args!(")"));
    let e = match &v {
        Variable::Option(Some(x)) => { cover("some"); close(text(fmt_step(h, format_args!("some(")), x, true)) }
        Variable::Result(Ok(x)) => { cover("ok"); close(text(fmt_step(h, format_args!("ok(")), x, true)) }
        Variable::Result(Err(x)) => { cover("err"); close(text(fmt_step(h, format_args!("err(")), &x.message, true)) }
        _ => { require(false); h }
    };
    let r = write_variable(&mut w, &rt, &v, esc(js), tabs);
    ensure(r.is_ok(), "writing a value succeeds");
    ensure(w.h == e, "an option or result is written as the call that makes it");
}
/// What is written before the item `i`, from what was written up to the item before it. (The same as "spec": the separator may be
/// written after an item or before the next one.)
fn before(i: usize) -> u64 { let h = gget::<u64>("last"); if i > 0 { fmt_step(h, format_args!(", ")) } else { h } }
//@stub vc_w_array dyon::write::write_variable stub_array_item
pub fn stub_array_item(w: &mut Log, _rt: &Runtime, v: &Variable, e: EscapeString, _tabs: u32) -> Result<(), io::Error> {
    let (i, a) = (gget::<usize>("i"), gget::<Arc<Vec<Variable>>>("arr"));
    ensure(i < a.len(), "no item is written that is not there");
    ensure(same(v, &a[i]), "items are written in order");
    ensure(json(e), "texts inside an array are quoted");
    ensure(w.h == gget::<u64>("spec") || w.h == before(i), "items are separated by a comma");
    w.h = text(w.h, v, true);
    gset("i", i + 1);
    gset("last", w.h);
    gset("spec", if i + 1 < a.len() { fmt_step(w.h, format_args!(", ")) } else { w.h });
    Ok(())
}
pub fn vc_w_array(rt: Runtime, a: Arc<Vec<Variable>>, js: bool, tabs: u32, h: u64) {
    let mut w = Log { h };
    let n = a.len();
    gset("i", 0usize);
    gset("spec", fmt_step(h, format_args!("[")));
    gset("last", fmt_step(h, format_args!("[")));
    gset("arr", snap(&a));
    let r = write_variable(&mut w, &rt, &Variable::Array(a), esc(js), tabs);
    ensure(r.is_ok(), "writing a value succeeds");
    ensure(gget::<usize>("i") == n, "every item is written");
    let close = |h: u64| fmt_step(h, format_args!("]"));
    ensure(w.h == close(gget::<u64>("spec")) || w.h == close(gget::<u64>("last")), "an array is closed after its last item");
}
//@stub vc_w_object dyon::write::write_variable stub_object_item
pub fn stub_object_item(w: &mut Log, _rt: &Runtime, v: &Variable, e: EscapeString, _tabs: u32) -> Result<(), io::Error> {
    let (i, o, s) = (gget::<usize>("i"), gget::<Arc<std::collections::HashMap<Arc<String>, Variable>>>("obj"), gget::<u64>("spec"));
    ensure(i < o.len(), "no entry is written that is not there");
    let k = nth_key(&*o, i);
    ensure(match o.get(&k) { Some(x) => same(v, x), None => false }, "each value is written after its key");
    ensure(json(e), "texts inside an object are quoted");
    let raw = fmt_step(s, format_args!("{}: ", k));
    let quoted = fmt_step(uf2("json", &s, &(&**k)), format_args!(": "));
    let s = before(i);
    let raw2 = fmt_step(s, format_args!("{}: ", k));
    let quoted2 = fmt_step(uf2("json", &s, &(&**k)), format_args!(": "));
    ensure(w.h == raw || w.h == quoted || w.h == raw2 || w.h == quoted2, "an entry is its key, plain or quoted, a colon and the value; entries are separated by a comma");
    w.h = text(w.h, v, true);
    gset("i", i + 1);
    gset("last", w.h);
    gset("spec", if i + 1 < o.len() { fmt_step(w.h, format_args!(", ")) } else { w.h });
    Ok(())
}
pub fn vc_w_object(rt: Runtime, o: Arc<std::collections::HashMap<Arc<String>, Variable>>, js: bool, tabs: u32, h: u64) {
    let mut w = Log { h };
    let n = o.len();
    gset("i", 0usize);
    gset("spec", fmt_step(h, format_args!("{{")));
    gset("last", fmt_step(h, format_args!("{{")));
    gset("obj", snap(&o));
    let r = write_variable(&mut w, &rt, &Variable::Object(o), esc(js), tabs);
    ensure(r.is_ok(), "writing a value succeeds");
    ensure(gget::<usize>("i") == n, "every entry is written");
    let close = |h: u64| fmt_step(h, format_args!("}}"));
    ensure(w.h == close(gget::<u64>("spec")) || w.h == close(gget::<u64>("last")), "an object is closed after its last entry");
}

// ---- companion (bounded): values through text and back
fn num_() -> f64 {
    let k = [10, 200, 100000][below(3)];
    let x = below(k) as f64 / [1.0, 2.0, 4.0, 8.0][below(4)];
    if below(3) == 0 && x != 0.0 { -x } else { x }
}
fn str_() -> String {
    let cs = ['a', 'b', 'Z', '0', '9', '_', ' ', '"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{1}', '\u{1f}', '{', '}', '[', ']', ':', ',', '.', ';', '(', ')', '#', '\'', 'é', '→', '𝄞'];
    (0..below(5)).map(|_| cs[below(cs.len())]).collect()
}
fn data_(d: usize) -> Variable {
    match below(if d == 0 { 5 } else { 10 }) {
        0 => Variable::f64(num_()),
        1 => Variable::bool(below(2) == 0),
        2 => Variable::Str(Arc::new(str_())),
        3 => Variable::Vec4([num_() as f32, num_() as f32, [0.0, num_() as f32][below(2)], [0.0, num_() as f32][below(2)]]),
        4 => Variable::Option(None),
        5 => Variable::Option(Some(Box::new(data_(d - 1)))),
        6 => {
            let mut l = crate::Link::new();
            for _ in 0..[below(4), 250 * below(2)][(below(20) == 0) as usize] {
                l.push(&match below(3) { 0 => Variable::f64(num_()), 1 => Variable::bool(below(2) == 0), _ => Variable::Str(Arc::new(str_())) }).unwrap();
            }
            for _ in 0..below(3) * below(2) { if !l.is_empty() { l = l.tail(); } }
            Variable::Link(Box::new(l))
        }
        7 | 8 => Variable::Array(Arc::new((0..below(4)).map(|_| data_(d - 1)).collect())),
        _ => Variable::Object(Arc::new((0..below(4)).map(|_| (Arc::new(str_()), data_(d - 1))).collect())),
    }
}
fn items(l: &crate::Link) -> Vec<Variable> {
    let (mut l, mut v) = (l.clone(), vec![]);
    while let Some(x) = l.head() { v.push(*x); l = l.tail(); }
    v
}
/// The same data (links by their items).
fn eq(a: &Variable, b: &Variable) -> bool {
    match (a, b) {
        (Variable::Array(a), Variable::Array(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| eq(x, y)),
        (Variable::Object(a), Variable::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| eq(x, y))),
        (Variable::Link(a), Variable::Link(b)) => { let (a, b) = (items(a), items(b)); a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| eq(x, y)) }
        (Variable::Option(Some(a)), Variable::Option(Some(b))) => eq(a, b),
        // the reader sums up digits and is not exact in the last place
        (Variable::F64(a, None), Variable::F64(b, None)) => (a - b).abs() <= 1e-12 * b.abs(),
        (Variable::Vec4(a), Variable::Vec4(b)) => a.iter().zip(b.iter()).all(|(a, b)| (a - b).abs() <= 1e-6 * b.abs()),
        _ => same(a, b),
    }
}
/// Space and comments between tokens (outside of texts) change nothing.
fn spaced(t: &str) -> String {
    let (mut o, mut q, mut e) = (String::new(), false, false);
    for c in t.chars() {
        if !q && "{}[],:()".contains(c) && !o.ends_with("none(") && !o.ends_with("none") && !o.ends_with("some") && below(3) == 0 && c != '(' {
            o.push_str([" ", "\n", "// x ] }\n", "/* , ] */", " /* a /* b */ c */\t"][below(if c == ':' { 2 } else { 5 })]);
        }
        o.push(c);
        if q { if e { e = false } else if c == '\\' { e = true } else if c == '"' { q = false } } else if c == '"' { q = true }
        if !q && "{[,:".contains(c) && below(3) == 0 {
            o.push_str([" ", "\n", "// x ] }\n", "/* , ] */", " /** a * / **/\t"][below(5)]);
        }
    }
    o
}
fn text_of(v: &Variable, e: EscapeString) -> String {
    let rt = Runtime::new();
    let mut w: Vec<u8> = vec![];
    write_variable(&mut w, &rt, v, e, 0).unwrap();
    String::from_utf8(w).unwrap()
}
/// An independent rendering of data.
fn spelled(v: &Variable, top: bool) -> Option<String> {
    Some(match v {
        Variable::Str(s) if top => (**s).clone(),
        Variable::Str(s) => quoted(s),
        Variable::F64(x, _) => format!("{}", x),
        Variable::Bool(x, _) => (if *x { "true" } else { "false" }).into(),
        Variable::Vec4(v) => {
            let n = if v[3] != 0.0 { 4 } else if v[2] != 0.0 { 3 } else { 2 };
            format!("({})", v[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
        }
        Variable::Array(a) => format!("[{}]", a.iter().map(|x| spelled(x, false)).collect::<Option<Vec<_>>>()?.join(", ")),
        Variable::Object(o) if o.len() < 2 => format!("{{{}}}", o.iter().map(|(k, x)| {
            let plain = !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_');
            Some(format!("{}: {}", if plain { (**k).clone() } else { quoted(k) }, spelled(x, false)?))
        }).collect::<Option<Vec<_>>>()?.join(", ")),
        Variable::Option(None) => "none()".into(),
        Variable::Option(Some(x)) => format!("some({})", spelled(x, false)?),
        Variable::Link(l) if top => items(l).iter().map(|x| spelled(x, true)).collect::<Option<Vec<_>>>()?.concat(),
        Variable::Link(l) => format!("link {{ {}}}", items(l).iter().map(|x| Some(spelled(x, false)? + " ")).collect::<Option<Vec<_>>>()?.concat()),
        _ => return None,
    })
}
fn show(t: &str, a: &Variable, b: &Variable) { if std::env::var("SHOW").is_ok() && !eq(a, b) { eprintln!("{}\n{:?}\n{:?}", t, a, b); } }
fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn nc_text(_x: u8) {
    let v = data_(3);
    let t = text_of(&v, EscapeString::Json);
    if let Some(s) = spelled(&v, false) { ensure(t == s, "the text of data is its literal"); }
    if let Some(s) = spelled(&v, true) { ensure(text_of(&v, EscapeString::None) == s, "str gives a text itself and other data as its literal"); }
    match crate::dyon_std::verif::load_text(&t) {
        Ok(x) => { show(&t, &x, &v); ensure(eq(&x, &v), "data written as text reads back as the data") }
        Err(e) => { if std::env::var("SHOW").is_ok() { eprintln!("{}\n{}", t, e); } ensure(false, "data written as text reads back") }
    }
    let s = spaced(&t);
    match crate::dyon_std::verif::load_text(&s) {
        Ok(x) => ensure(eq(&x, &v), "space and comments between tokens change nothing"),
        Err(e) => { if std::env::var("SHOW").is_ok() { eprintln!("{}\n{}", s, e); } ensure(false, "space and comments between tokens are skipped") }
    }
}
/// Any text gives a value or an error.
pub fn nc_broken(_x: u8) {
    let mut t: Vec<char> = spaced(&text_of(&data_(3), EscapeString::Json)).chars().collect();
    for _ in 0..below(4) {
        if t.is_empty() { break; }
        let i = below(t.len());
        match below(3) {
            0 => { t.remove(i); }
            1 => t[i] = ['"', '\\', '{', ']', '#', 'u', 'e', '-', '.', '/', '*', 'é', ',', '('][below(14)],
            _ => t.truncate(i),
        }
    }
    let s: String = t.into_iter().collect();
    let _ = crate::dyon_std::verif::load_text(&s);
}
/// In a script, `link { 1 -2 }` is a link of one number.
fn minus_in_link(v: &Variable) -> bool {
    match v {
        Variable::Array(a) => a.iter().any(minus_in_link),
        Variable::Object(o) => o.values().any(minus_in_link),
        Variable::Option(Some(x)) => minus_in_link(x),
        Variable::Link(l) => items(l).iter().any(|x| match x { Variable::F64(x, _) => *x < 0.0, _ => false }),
        _ => false,
    }
}
/// The text of data is also the expression that makes it.
pub fn nc_literal(_x: u8) {
    let v = data_(2);
    require(!minus_in_link(&v));
    let t = text_of(&v, EscapeString::Json);
    let src = format!("fn f() -> {{ return {} }}", t);
    let mut m = Module::new();
    if crate::load_str("t.dyon", Arc::new(src.clone()), &mut m).is_err() {
        if std::env::var("SHOW").is_ok() { eprintln!("{}", src); }
        ensure(false, "the text of data is an expression");
    }
    let mut rt = Runtime::new();
    match rt.call_str_ret("f", &[], &Arc::new(m)) {
        Ok(x) => { show(&t, &x, &v); ensure(eq(&x, &v), "the text of data is the expression that makes it") }
        Err(_) => ensure(false, "the text of data runs"),
    }
}
/// Values as text, and text as values, in scripts and files.
pub fn nc_builtin(_x: u8) {
    thread_local!(static M: Arc<Module> = {
        let mut m = Module::new();
        crate::load_str("t.dyon", Arc::new("fn s(x) -> { return str(x) }\nfn j(x) -> { return json_string(x) }\nfn l(x) -> { return load_data(string: x) }\nfn sv(x, f) -> { return save(data: x, file: f) }\nfn lf(f) -> { return load_data(file: f) }\nfn sr(x) -> { \ny := x\nreturn [str(y), str(y)]\n}".into()), &mut m).unwrap();
        Arc::new(m)
    });
    let v = data_(3);
    let mut rt = Runtime::new();
    let call = |rt: &mut Runtime, f: &str, a: &[Variable]| rt.call_str_ret(f, a, &M.with(|m| m.clone()));
    let t = match call(&mut rt, "s", &[v.clone()]) { Ok(Variable::Str(t)) => t, x => { if std::env::var("SHOW").is_ok() { eprintln!("{:?}", x.is_ok()); } ensure(false, "str gives a text"); return } };
    if let Some(s) = spelled(&v, true) { ensure(*t == s, "str gives a text itself and other data as its literal"); }
    match call(&mut rt, "sr", &[v.clone()]) {
        Ok(Variable::Array(a)) => ensure(a.len() == 2 && a.iter().all(|x| match x { Variable::Str(s) => s.len() == t.len(), _ => false }), "str gives the same text for a variable"),
        _ => ensure(false, "str of a variable gives a text"),
    }
    let read = |x: Result<Variable, String>| match x { Ok(Variable::Result(Ok(x))) => ensure(eq(&x, &v), "load_data gives back what was written"), _ => ensure(false, "load_data reads what was written") };
    let top = matches!(v, Variable::Str(_) | Variable::Link(_));
    if !top { read(call(&mut rt, "l", &[Variable::Str(t)])); }
    if let Ok(Variable::Str(j)) = call(&mut rt, "j", &[v.clone()]) { read(call(&mut rt, "l", &[Variable::Str(j)])); } else { ensure(false, "json_string gives a text"); }
    if below(8) == 0 {
        let dir = std::env::temp_dir().join(format!("verif-p12-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let f = Variable::Str(Arc::new(dir.join("data").to_string_lossy().into_owned()));
        let ok = matches!(call(&mut rt, "sv", &[v.clone(), f.clone()]), Ok(Variable::Result(Ok(_))));
        let x = call(&mut rt, "lf", &[f]);
        let _ = std::fs::remove_dir_all(&dir);
        ensure(ok, "data is saved");
        read(x);
    }
    ensure(rt.stack.is_empty(), "nothing is left on the stack");
}
/// `#rrggbb` and `#rrggbbaa` are colours.
pub fn nc_color(_x: u8) {
    let c: Vec<u8> = (0..4).map(|_| [0, 255, below(256)][below(3)] as u8).collect();
    let a = below(2) == 0;
    let t: String = c[..if a { 4 } else { 3 }].iter().map(|x| format!("{:02x}", x)).collect();
    let t = if below(2) == 0 { t.to_uppercase() } else { t };
    let e = Variable::Vec4([c[0] as f32 / 255.0, c[1] as f32 / 255.0, c[2] as f32 / 255.0, if a { c[3] as f32 / 255.0 } else { 1.0 }]);
    let arr = format!("[{}#{},{} 1]", ["", " "][below(2)], t, [" ", "/**/"][below(2)]);
    match crate::dyon_std::verif::load_text(&format!("#{}", t)) { Ok(x) => ensure(eq(&x, &e), "a colour has its components"), _ => ensure(false, "a colour is data") }
    match crate::dyon_std::verif::load_text(&arr) {
        Ok(Variable::Array(x)) => ensure(x.len() == 2 && eq(&x[0], &e) && eq(&x[1], &Variable::f64(1.0)), "a colour is an item"),
        _ => ensure(false, "a colour is an item of an array"),
    }
}
/// A text that lacks a part is an error.
pub fn nc_missing(_x: u8) {
    let w = || text_of(&data_(1), EscapeString::Json);
    let (a, b) = (w(), w());
    let t = match below(12) {
        0 => format!("[{}, {}", a, b), 1 => format!("[{} {}]", a, b), 2 => format!("[{},, {}]", a, b), 3 => format!("[, {}]", a),
        4 => format!("{{a: {}, b: {}", a, b), 5 => format!("{{a: {} b: {}}}", a, b), 6 => format!("{{a {}}}", a), 7 => format!("{{: {}}}", a),
        8 => format!("some({}", a), 9 => format!("link {{ {}", text_of(&Variable::f64(num_()), EscapeString::Json)), 10 => "(1, 2".into(), _ => format!("{{a:}}"),
    };
    if crate::dyon_std::verif::load_text(&t).is_ok() && std::env::var("SHOW").is_ok() { eprintln!("{}", t); }
    ensure(crate::dyon_std::verif::load_text(&t).is_err(), "a text that lacks a part is an error");
}
use crate::Module;
native! { nc_builtin: (u8); nc_color: (u8); nc_missing: (u8); nc_text: (u8); nc_broken: (u8); nc_literal: (u8); }
