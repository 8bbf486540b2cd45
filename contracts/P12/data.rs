// P12: reading values from text.
//
// The text is abstract: which token stands at a position, where it ends and what it means are unknown functions of the
// position; each form of the grammar is proved against them for any text.
use super::*;
use crate::verif::*;
use read_token::{ParseNumberError, ParseStringError};

type Str_ = Arc<String>;
// ---- the text
fn is_tag(p: usize, t: &str) -> bool { uf2("tag", &p, &t) }
/// The position after optional whitespace and comments.
fn skip(p: usize) -> usize {
    let q: usize = uf1("skip", &p);
    require(uf1::<usize, usize>("skip", &q) == q);
    q
}
//@stub * dyon::read_token::ReadToken::tag stub_tag
pub fn stub_tag(r: &ReadToken, t: &str) -> Option<Range> {
    if is_tag(r.offset, t) { Some(Range { offset: r.offset, length: t.len(), data: () }) } else { None }
}
//@stub * dyon::read_token::ReadToken::consume stub_consume
pub fn stub_consume<'a>(r: ReadToken<'a>, n: usize) -> ReadToken<'a> { ReadToken { src: r.src, offset: r.offset.wrapping_add(n) } }
//@stub * dyon::read_token::ReadToken::start stub_start
pub fn stub_start(r: &ReadToken) -> Range { Range { offset: r.offset, length: 0, data: () } }
//@stub vc_d_* dyon::dyon_std::data::opt_w stub_opt_w
pub fn stub_opt_w(r: &mut ReadToken) { r.offset = skip(r.offset); }
//@stub vc_d_* dyon::dyon_std::data::error stub_error
pub fn stub_error(_r: Range, _m: &str, _d: &str) -> String { any() }
//@stub * dyon::read_token::ReadToken::string stub_string
pub fn stub_string(r: &ReadToken) -> Option<Range> {
    if uf1("is_string", &r.offset) { Some(Range { offset: r.offset, length: uf1("string_len", &r.offset), data: () }) } else { None }
}
//@stub * dyon::read_token::ReadToken::parse_string stub_parse_string
pub fn stub_parse_string(r: &ReadToken, n: usize) -> Result<String, Range<ParseStringError>> {
    ensure(n == uf1::<usize, usize>("string_len", &r.offset), "a text is read up to its closing quote");
    if uf1("string_ok", &r.offset) { Ok(uf1("string", &r.offset)) } else { Err(any_()) }
}
fn any_() -> Range<ParseStringError> { Range { offset: any(), length: any(), data: ParseStringError::ExpectedValidUnicode } }
//@stub * dyon::read_token::ReadToken::number stub_number
pub fn stub_number(r: &ReadToken, _s: &NumberSettings) -> Option<Range> {
    if uf1("is_number", &r.offset) { Some(Range { offset: r.offset, length: uf1("number_len", &r.offset), data: () }) } else { None }
}
//@stub * dyon::read_token::ReadToken::parse_number stub_parse_number
pub fn stub_parse_number(r: &ReadToken, s: &NumberSettings, n: usize) -> Result<f64, ParseNumberError> {
    ensure(n == uf1::<usize, usize>("number_len", &r.offset), "a number is read in full");
    if uf1("number_ok", &r.offset) { Ok(uf1("number", &r.offset)) } else { Err(ParseNumberError::Invalid) }
}
//@stub * dyon::read_token::ReadToken::until_any_or_whitespace stub_word
pub fn stub_word(r: &ReadToken, _a: &str) -> (Range, Option<usize>) {
    (Range { offset: r.offset, length: uf1("word_len", &r.offset), data: () }, None)
}
//@stub * dyon::read_token::ReadToken::raw_string stub_raw
pub fn stub_raw(r: &ReadToken, n: usize) -> String { uf2("raw", &r.offset, &n) }

// ---- values inside values
fn ends(p: usize) -> usize { uf1("end", &p) }
fn value(p: usize) -> Variable { uf1("value", &p) }
fn good(p: usize) -> bool { uf1("good", &p) }

// ---- comma
/// (whether there is a comma, the position after it)
fn after(p: usize) -> (bool, usize) {
    let p = skip(p);
    if is_tag(p, ",") { (true, skip(p.wrapping_add(1))) } else { (false, p) }
}
pub fn vc_d_comma(r: ReadToken<'static>) {
    let p = r.offset;
    let mut r = r;
    let got = comma(&mut r);
    let (c, q) = after(p);
    ensure(got == c, "a comma is reported exactly when there is one");
    ensure(r.offset == q, "a comma is read with the space around it");
}
//@stub vc_d_array dyon::dyon_std::data::comma stub_comma
//@stub vc_d_object dyon::dyon_std::data::comma stub_comma
//@stub vc_d_vec4 dyon::dyon_std::data::comma stub_comma
pub fn stub_comma(r: &mut ReadToken) -> bool {
    let (c, q) = after(r.offset);
    r.offset = q;
    c
}
// ---- arrays
// Ghost state: the position after the items read so far and their commas, whether the last one had a comma, whether an item
// was wrong, and the value so far.
fn start(p: usize) {
    gset("p", p);
    gset("comma", false);
    gset("wrong", false);
}
/// The position of the next item, if there is one.
fn next_item(close: &str, first: bool) -> Option<usize> {
    let q = skip(gget("p"));
    if is_tag(q, close) || !first && !gget::<bool>("comma") { None } else { Some(q) }
}
/// An item ends at `p`.
fn item_done(p: usize) {
    let (c, q) = after(p);
    gset("p", q);
    gset("comma", c);
}
/// Some(end): closed there; None: an error.
fn closed(close: &str, first: bool) -> Option<usize> {
    if gget::<bool>("wrong") { return None; }
    let q = skip(gget("p"));
    if is_tag(q, close) { return Some(q.wrapping_add(1)); }
    ensure(!first && !gget::<bool>("comma"), "items are read up to the closing bracket");
    None
}
//@stub vc_d_array dyon::dyon_std::data::expr stub_d_item
pub fn stub_d_item(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> {
    let p = r.offset;
    ensure(!gget::<bool>("wrong") && next_item("]", gget::<Vec<Variable>>("out").len() == 0) == Some(p), "an item is read where the text has one");
    if good(p) {
        let mut out = gget::<Vec<Variable>>("out");
        out.push(value(p));
        gset("out", out);
        r.offset = ends(p);
        item_done(r.offset);
        Ok(value(p))
    } else {
        gset("wrong", true);
        Err(any())
    }
}
pub fn vc_d_array(r: ReadToken<'static>, mut strings: Strings, data: String) {
    let mut r = r;
    start(r.offset);
    gset("out", Vec::<Variable>::new());
    let got = array(&mut r, &mut strings, &data);
    match closed("]", gget::<Vec<Variable>>("out").len() == 0) {
        Some(p) => {
            cover("closed");
            match &got {
                Ok(Variable::Array(a)) => ensure(same(&**a, &gget::<Vec<Variable>>("out")), "an array has the items of the text in order"),
                _ => ensure(false, "the text of an array is an array"),
            }
            ensure(r.offset == p, "an array ends at its bracket");
        }
        None => { cover("wrong"); ensure(got.is_err(), "a missing comma or a wrong item is an error") }
    }
}
// ---- objects
type Obj = std::collections::HashMap<Arc<String>, Variable>;
/// The key of the entry at `p` and the position of its value.
fn entry(p: usize) -> Option<(Arc<String>, usize)> {
    let (key, q): (String, usize) = if uf1("is_string", &p) {
        if !uf1::<usize, bool>("string_ok", &p) { return None; }
        (uf1("string", &p), p.wrapping_add(uf1("string_len", &p)))
    } else {
        let n: usize = uf1("word_len", &p);
        if n == 0 { return None; }
        (uf2("raw", &p, &n), p.wrapping_add(n))
    };
    let q = skip(q);
    if is_tag(q, ":") { Some((Arc::new(key), skip(q.wrapping_add(1)))) } else { None }
}
//@stub vc_d_object dyon::dyon_std::data::expr stub_d_entry
pub fn stub_d_entry(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> {
    let p = r.offset;
    ensure(!gget::<bool>("wrong"), "nothing is read after an error");
    match next_item("}", gget::<Obj>("out").is_empty()) {
        Some(q) => match entry(q) {
            Some((k, q)) => {
                ensure(p == q, "a value is read after its key and colon");
                if good(p) {
                    let mut out = gget::<Obj>("out");
                    out.insert(k, value(p));
                    gset("out", out);
                    r.offset = ends(p);
                    item_done(r.offset);
                    return Ok(value(p));
                }
            }
            None => ensure(false, "a value has a key and a colon"),
        },
        None => ensure(false, "a value is read where the text has an entry"),
    }
    gset("wrong", true);
    Err(any())
}
pub fn vc_d_object(r: ReadToken<'static>, mut strings: Strings, data: String) {
    let mut r = r;
    start(r.offset);
    gset("out", Obj::new());
    let got = object(&mut r, &mut strings, &data);
    if !gget::<bool>("wrong") {
        if let Some(q) = next_item("}", gget::<Obj>("out").is_empty()) {
            cover("no key");
            ensure(entry(q).is_none() && got.is_err(), "entries are read up to the closing brace; a missing key or colon is an error");
            return;
        }
    }
    match closed("}", gget::<Obj>("out").is_empty()) {
        Some(p) => {
            cover("closed");
            match &got {
                Ok(Variable::Object(o)) => ensure(same(&**o, &gget::<Obj>("out")), "an object has the entries of the text, the last of a key"),
                _ => ensure(false, "the text of an object is an object"),
            }
            ensure(r.offset == p, "an object ends at its brace");
        }
        None => { cover("wrong"); ensure(got.is_err(), "a missing comma or a wrong value is an error") }
    }
}
// ---- links
//@stub vc_d_link dyon::link::Link::push stub_link_push
pub fn stub_link_push(l: &mut crate::Link, v: &Variable) -> Result<(), String> {
    if uf1("pushable", v) { *l = uf2("pushed", &*l, v); Ok(()) } else { Err(any()) }
}
//@stub vc_d_link dyon::link::Link::new stub_link_new
pub fn stub_link_new() -> crate::Link { uf1("no items", &0usize) }
//@stub vc_d_link dyon::dyon_std::data::expr stub_d_link_item
pub fn stub_d_link_item(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> {
    let p = r.offset;
    ensure(!gget::<bool>("wrong") && next_item("}", true) == Some(p), "an item is read where the text has one");
    if good(p) {
        r.offset = ends(p);
        gset("p", r.offset);
        if uf1("pushable", &value(p)) {
            gset("out", uf2::<_, _, crate::Link>("pushed", &gget::<crate::Link>("out"), &value(p)));
        } else {
            gset("wrong", true);
        }
        Ok(value(p))
    } else {
        gset("wrong", true);
        Err(any())
    }
}
pub fn vc_d_link(r: ReadToken<'static>, mut strings: Strings, data: String) {
    let mut r = r;
    let p = skip(r.offset);
    gset("out", uf1::<_, crate::Link>("no items", &0usize));
    start(skip(p.wrapping_add(1)));
    let opened = is_tag(p, "{");
    let got = link(&mut r, &mut strings, &data);
    if !opened { cover("not opened"); ensure(got.is_err(), "a link without its brace is an error"); return; }
    match closed("}", true) {
        Some(p) => {
            cover("closed");
            match &got {
                Ok(Variable::Link(o)) => ensure(same(&**o, &gget::<crate::Link>("out")), "a link has the items of the text in order"),
                _ => ensure(false, "the text of a link is a link"),
            }
            ensure(r.offset == p, "a link ends at its brace");
        }
        None => { cover("wrong"); ensure(got.is_err(), "a wrong item is an error") }
    }
}
// ---- vec4
fn num_at(p: usize) -> Option<(f64, usize)> {
    if uf1("is_number", &p) && uf1("number_ok", &p) { Some((uf1("number", &p), p.wrapping_add(uf1("number_len", &p)))) } else { None }
}
fn is_num(p: usize) -> bool { uf1("is_number", &p) }
/// None: an error
fn vec4_at(p: usize) -> Option<([f64; 4], usize)> {
    let (x, p) = num_at(p)?;
    let p = after(p).1;
    let (y, p) = num_at(p)?;
    let (c, p) = after(p);
    let (mut z, mut w, mut p) = (0.0, 0.0, p);
    if c && is_num(p) {
        let a = num_at(p)?;
        z = a.0;
        p = after(a.1).1;
        if is_num(p) {
            let b = num_at(p)?;
            w = b.0;
            p = b.1;
        }
    }
    let p = skip(p);
    if is_tag(p, ")") { Some(([x, y, z, w], p.wrapping_add(1))) } else { None }
}
pub fn vc_d_vec4(r: ReadToken<'static>, data: String) {
    let mut r = r;
    let e = vec4_at(r.offset);
    let got = vec4(&mut r, &data);
    match e {
        Some((v, p)) => {
            cover("read");
            match &got {
                Ok(Variable::Vec4(g)) => {
                    ensure(same(g, &[v[0] as f32, v[1] as f32, v[2] as f32, v[3] as f32]), "a vector has the components of the text in order, padded with zero");
                    ensure(r.offset == p, "a vector ends at its parenthesis");
                }
                _ => ensure(false, "the text of a vector is a vector"),
            }
        }
        None => { cover("wrong"); ensure(got.is_err(), "a vector without two numbers or its parenthesis is an error") }
    }
}
// ---- any value
//@stub vc_d_expr dyon::dyon_std::data::expr stub_expr
pub fn stub_expr(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> {
    let p = r.offset;
    if good(p) { r.offset = ends(p); Ok(value(p)) } else { Err(any()) }
}
//@stub vc_d_expr dyon::dyon_std::data::object stub_object
pub fn stub_object(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> { form(r, "object") }
//@stub vc_d_expr dyon::dyon_std::data::array stub_array
pub fn stub_array(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> { form(r, "array") }
//@stub vc_d_expr dyon::dyon_std::data::link stub_link
pub fn stub_link(r: &mut ReadToken, _s: &mut Strings, _d: &str) -> Result<Variable, String> { form(r, "link") }
//@stub vc_d_expr dyon::dyon_std::data::vec4 stub_vec4
pub fn stub_vec4(r: &mut ReadToken, _d: &str) -> Result<Variable, String> { form(r, "vec4") }
fn form(r: &mut ReadToken, n: &'static str) -> Result<Variable, String> {
    let p = r.offset;
    match form_at(p, n) { Some((v, q)) => { r.offset = q; Ok(v) } None => Err(any()) }
}
fn form_at(p: usize, n: &'static str) -> Option<(Variable, usize)> {
    if uf2("form_ok", &p, &n) { Some((uf2("form", &p, &n), uf2("form_end", &p, &n))) } else { None }
}
fn expr_at(p: usize) -> Option<(Variable, usize)> {
    if is_tag(p, "{") { cover("object"); return form_at(p.wrapping_add(1), "object"); }
    if is_tag(p, "[") { cover("array"); return form_at(p.wrapping_add(1), "array"); }
    if is_tag(p, "(") { cover("vec4"); return form_at(p.wrapping_add(1), "vec4"); }
    if is_tag(p, "link") { cover("link"); return form_at(p.wrapping_add(4), "link"); }
    if uf1("is_string", &p) {
        cover("text");
        return if uf1("string_ok", &p) { Some((Variable::Str(Arc::new(uf1("string", &p))), p.wrapping_add(uf1("string_len", &p)))) } else { None };
    }
    if is_num(p) { cover("number"); let (x, q) = num_at(p)?; return Some((Variable::f64(x), q)); }
    if is_tag(p, "false") { cover("false"); return Some((Variable::bool(false), p.wrapping_add(5))); }
    if is_tag(p, "true") { cover("true"); return Some((Variable::bool(true), p.wrapping_add(4))); }
    if is_tag(p, "none()") { cover("none"); return Some((Variable::Option(None), p.wrapping_add(6))); }
    if is_tag(p, "some(") {
        cover("some");
        let p = skip(p.wrapping_add(5));
        if !good(p) { return None; }
        let q = skip(ends(p));
        return if is_tag(q, ")") { Some((Variable::Option(Some(Box::new(value(p)))), q.wrapping_add(1))) } else { None };
    }
    None
}
pub fn vc_d_expr(r: ReadToken<'static>, mut strings: Strings, data: String) {
    let mut r = r;
    let p = r.offset;
    require(!is_tag(p, "#"));
    let e = expr_at(p);
    let got = expr(&mut r, &mut strings, &data);
    match e {
        Some((v, q)) => {
            match &got {
                Ok(x) => ensure(same(x, &v), "the value of a text is the one it spells"),
                Err(_) => ensure(false, "the text of a value is read without an error"),
            }
            ensure(r.offset == q, "reading goes on after the value");
        }
        None => { cover("wrong"); ensure(got.is_err(), "a text that spells no value is an error") }
    }
}
