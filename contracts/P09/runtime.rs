// P09: loops.
//
// A loop is verified for any number of iterations with ghost state: the stub for the body of the loop checks that
// it is run in the state the specification is in (same stack, counter one higher, names, condition true), and
// advances the specification by one iteration; when the loop ends, its value is the one of the specification.
use super::*;
use crate::verif::*;
//@include lang.inc.rs
//@include eval.inc.rs

fn num(v: &Variable) -> Option<f64> {
    match v {
        Variable::F64(x, _) => Some(*x),
        _ => None,
    }
}
/// The range of a loop: start and end, evaluated in order.
enum Rg {
    Ok(f64, f64, Vec<Variable>),
    Fails(FlowResult),
    NotNumber,
}
fn range(f: &ast::ForN, s0: &Vec<Variable>) -> Rg {
    let (a, s1) = match &f.start {
        Some(e) => {
            let (a, s1) = eval(e, s0);
            match &a {
                Ok((Some(x), Flow::Continue)) => match num(deref(x, &s1)) {
                    Some(x) => (x, s1),
                    None => return Rg::NotNumber,
                },
                _ => return Rg::Fails(a),
            }
        }
        None => (0.0, snap(s0)),
    };
    let (b, s2) = eval(&f.end, &s1);
    match &b {
        Ok((Some(x), Flow::Continue)) => match num(deref(x, &s2)) {
            Some(x) => Rg::Ok(a, x, s2),
            None => Rg::NotNumber,
        },
        _ => Rg::Fails(b),
    }
}
const RUNNING: u8 = 0;
const BROKEN: u8 = 1;
const RETURNED: u8 = 2;
const FAILED: u8 = 3;
/// The specification before the first iteration.
fn begin(f: &ast::ForN, rt: &Runtime, a: f64, b: f64, mut s: Vec<Variable>) {
    let mut l = snap(&rt.local_stack);
    l.push((snap(&f.name), s.len()));
    s.push(Variable::f64(a));
    gset("st", s.len());
    gset("stack", s);
    gset("locals", l);
    gset("end", b);
    gset("label", snap(&f.label));
    gset("out", RUNNING);
    gset("flow", Flow::Continue);
    gset("last", None::<Variable>);
}
/// One run of the body: checks the state it is run in, gives its outcome.
fn iteration(rt: &Runtime, b: &ast::Block) -> (FlowResult, Vec<Variable>, f64) {
    let (g, end, out) = (gget::<Vec<Variable>>("stack"), gget::<f64>("end"), gget::<u8>("out"));
    ensure(out == RUNNING, "the body is not run again after the loop was left");
    ensure(same(&rt.stack, &g), "an iteration starts from the variables the previous one left, with the counter one higher");
    ensure(same(&rt.local_stack, &gget::<Vec<(Arc<String>, usize)>>("locals")), "the body sees the counter under its name");
    let mut c = 0.0;
    match num(&g[gget::<usize>("st") - 1]) {
        Some(x) => { c = x; ensure(c < end, "the body is run only while the counter is below the end") }
        None => ensure(false, "the counter is a number"),
    }
    let (r, s) = eval_block(b, &g);
    require(valid(&r, &s));
    (r, s, c)
}
/// Ends the specification: return, error, break or continue of another loop.
fn leave(r: &FlowResult) -> bool {
    let label = gget::<Option<Arc<String>>>("label");
    let other = |l: &Option<Arc<String>>| match (l, &label) { (Some(a), Some(b)) => a != b, (Some(_), None) => true, (None, _) => false };
    match r {
        Err(_) => { gset("out", FAILED); true }
        Ok((x, Flow::Return)) => { gset("out", RETURNED); gset("last", snap(x)); true }
        Ok((_, Flow::Break(l))) => {
            gset("out", BROKEN);
            if other(l) { gset("flow", Flow::Break(snap(l))); }
            true
        }
        Ok((_, Flow::ContinueLoop(l))) => {
            if other(l) { gset("out", BROKEN); gset("flow", Flow::ContinueLoop(snap(l))); true } else { false }
        }
        Ok((_, Flow::Continue)) => false,
    }
}
/// The counter goes up by one.
fn advance(s: &Vec<Variable>) {
    let mut s = snap(s);
    match &mut s[gget::<usize>("st") - 1] {
        Variable::F64(c, _) => *c += 1.0,
        _ => gset("out", FAILED),
    }
    gset("stack", s);
}
/// The outcome of the loop is the one of the specification, with the value `v`.
fn finish(got: &FlowResult, rt: &Runtime, pre: &Hs, v: Option<Variable>) {
    let (g, end) = (gget::<Vec<Variable>>("stack"), gget::<f64>("end"));
    match gget::<u8>("out") {
        RUNNING => {
            cover("ran to the end");
            match num(&g[gget::<usize>("st") - 1]) {
                Some(c) => {
                    ensure(!(c < end), "the loop goes on while the counter is below the end");
                    match got {
                        Ok((x, Flow::Continue)) => ensure(same(x, &v), "the value of a loop is that of its iterations"),
                        _ => ensure(false, "a loop that ran to the end goes on with the next expression"),
                    }
                }
                None => { ensure(got.is_err(), "a counter that is no number any more is an error"); return; }
            }
        }
        BROKEN => {
            cover("left by break");
            match got {
                Ok((x, flow)) => {
                    ensure(same(flow, &gget::<Flow>("flow")), "break and continue with the label of another loop leave this one for it");
                    ensure(same(x, &v), "a loop left by break has the value of the iterations before");
                }
                _ => ensure(false, "break is no error"),
            }
        }
        RETURNED => { cover("left by return"); ensure(returns(got, &gget::<Option<Variable>>("last")), "return in the body leaves the function with its value"); }
        _ => { cover("failed"); ensure(got.is_err(), "an error in the body, or a body without the value the loop needs, is an error"); }
    }
    match gget::<u8>("out") {
        RUNNING | BROKEN => {
            ensure(heights(rt) == *pre, "a loop removes its counter and what the body declared");
            let k = skolem();
            require(k < pre.0);
            ensure(same(&rt.stack[k], &g[k]), "a loop leaves the variables as its last iteration left them");
        }
        _ => ensure(keeps(got, rt, pre), "nothing below is removed"),
    }
}
/// What a loop gives when its range has no value; the range otherwise.
fn enter(f: &ast::ForN, rt: &Runtime) -> Rg {
    let r = range(f, &rt.stack);
    require(matches!(r, Rg::Ok(..)) && direct(f, &rt.stack));
    if let Rg::Ok(a, b, s) = &r { begin(f, rt, *a, *b, snap(s)); }
    r
}
fn done(r: &Rg, got: &FlowResult, rt: &Runtime, pre: &Hs, v: Option<Variable>) {
    match r {
        Rg::Ok(..) => finish(got, rt, pre, v),
        _ => {}
    }
}
/// The range is given by values, not by references to variables (`vc_r_*` has all cases).
fn direct(f: &ast::ForN, s0: &Vec<Variable>) -> bool {
    let no = |r: &FlowResult| !matches!(r, Ok((Some(Variable::Ref(_)), _)));
    match &f.start {
        Some(e) => { let (a, s1) = eval(e, s0); no(&a) && no(&eval(&f.end, &s1).0) }
        None => no(&eval(&f.end, s0).0),
    }
}
/// The range of every form of loop, up to the first run of the body.
//@stub vc_r_* dyon::runtime::Runtime::block stub_first
pub fn stub_first(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    iteration(rt, b);
    gset("out", FAILED);
    let r: FlowResult = Err(any());
    others(rt, &r);
    r
}
fn range_in(rt: &Runtime, f: &ast::ForN) -> Rg {
    let r = range(f, &rt.stack);
    if let Rg::Ok(a, b, s) = &r { begin(f, rt, *a, *b, snap(s)); }
    r
}
fn range_out(rt: &Runtime, r: &Rg, got: &FlowResult, pre: &Hs) {
    match r {
        Rg::Ok(..) => if gget::<u8>("out") == FAILED {
            cover("first iteration");
            ensure(got.is_err(), "an error in the body is an error");
        } else {
            cover("empty range");
            match num(&gget::<Vec<Variable>>("stack")[gget::<usize>("st") - 1]) {
                Some(c) => ensure(!(c < gget::<f64>("end")), "the body is run while the counter is below the end"),
                None => ensure(false, "the counter is a number"),
            }
            ensure(heights(rt) == *pre, "a loop removes its counter");
        },
        Rg::Fails(r) => { cover("range fails"); ensure(fails(got, r), "a range without a value returns or is an error"); }
        Rg::NotNumber => { cover("not a number"); ensure(got.is_err(), "a range that is no number is an error"); }
    }
    ensure(keeps(got, rt, pre), "nothing below is removed");
}
/// The number, vec4 or bool an iteration gives, or the end of the specification with an error.
fn given<'a>(r: &'a FlowResult, s: &'a Vec<Variable>) -> Option<&'a Variable> {
    match r {
        Ok((Some(x), Flow::Continue)) => Some(deref(x, s)),
        _ => None,
    }
}
/// After an iteration that did not leave the loop.
fn goes_on(r: &FlowResult, s: &Vec<Variable>, ok: bool) {
    match r {
        Ok((_, Flow::Continue)) if !ok => gset("out", FAILED),
        _ => advance(s),
    }
}
fn after_body(rt: &mut Runtime, r: FlowResult, s: Vec<Variable>) -> FlowResult {
    rt.stack = s;
    if r.is_err() { others(rt, &r); }
    r
}
/// The reason of a value: that of the body, and the counter.
fn reason(sec: &Option<Box<Vec<Variable>>>, c: f64) -> Option<Box<Vec<Variable>>> {
    let mut v = match sec { Some(v) => snap(&**v), None => vec![] };
    v.push(Variable::f64(c));
    Some(Box::new(v))
}
// ---- for
pub fn vc_r_for(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::ForN(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_for dyon::runtime::Runtime::block stub_iter_for
pub fn stub_iter_for(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = true;
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_for(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::ForN(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, None);
}
// ---- sum
pub fn vc_r_sum(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Sum(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_sum dyon::runtime::Runtime::block stub_iter_sum
pub fn stub_iter_sum(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::F64(x, _)) => { gset("acc", gget::<f64>("acc") + *x); true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_sum(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", 0.0f64);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Sum(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::f64(gget::<f64>("acc"))));
}
// ---- prod
pub fn vc_r_prod(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Prod(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_prod dyon::runtime::Runtime::block stub_iter_prod
pub fn stub_iter_prod(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::F64(x, _)) => { gset("acc", gget::<f64>("acc") * *x); true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_prod(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", 1.0f64);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Prod(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::f64(gget::<f64>("acc"))));
}
// ---- min
pub fn vc_r_min(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Min(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_min dyon::runtime::Runtime::block stub_iter_min
pub fn stub_iter_min(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::F64(x, sec)) => { let a = gget::<f64>("acc"); if a.is_nan() || a > *x { gset("acc", *x); gset("sec", reason(sec, c)); } true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_min(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", f64::NAN); gset("sec", None::<Box<Vec<Variable>>>);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Min(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::F64(gget::<f64>("acc"), gget("sec"))));
}
// ---- max
pub fn vc_r_max(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Max(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_max dyon::runtime::Runtime::block stub_iter_max
pub fn stub_iter_max(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::F64(x, sec)) => { let a = gget::<f64>("acc"); if a.is_nan() || a < *x { gset("acc", *x); gset("sec", reason(sec, c)); } true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_max(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", f64::NAN); gset("sec", None::<Box<Vec<Variable>>>);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Max(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::F64(gget::<f64>("acc"), gget("sec"))));
}
// ---- any
pub fn vc_r_any(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Any(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_any dyon::runtime::Runtime::block stub_iter_any
pub fn stub_iter_any(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::Bool(x, sec)) => { if *x { gset("acc", *x); gset("sec", reason(sec, c)); gset("out", BROKEN); } true } _ => false };
        if gget::<u8>("out") == BROKEN { gset("stack", snap(&s)); return after_body(rt, r, s); }
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_any(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", false); gset("sec", None::<Box<Vec<Variable>>>);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Any(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::Bool(gget::<bool>("acc"), gget("sec"))));
}
// ---- all
pub fn vc_r_all(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::All(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_all dyon::runtime::Runtime::block stub_iter_all
pub fn stub_iter_all(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::Bool(x, sec)) => { if !*x { gset("acc", *x); gset("sec", reason(sec, c)); gset("out", BROKEN); } true } _ => false };
        if gget::<u8>("out") == BROKEN { gset("stack", snap(&s)); return after_body(rt, r, s); }
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_all(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", true); gset("sec", None::<Box<Vec<Variable>>>);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::All(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::Bool(gget::<bool>("acc"), gget("sec"))));
}
// ---- sift
pub fn vc_r_sift(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::Sift(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_sift dyon::runtime::Runtime::block stub_iter_sift
pub fn stub_iter_sift(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match &r { Ok((Some(x), Flow::Continue)) => { let mut a = gget::<Vec<Variable>>("acc"); a.push(snap(x)); gset("acc", a); true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_sift(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", Vec::<Variable>::new());
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::Sift(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::Array(Arc::new(gget::<Vec<Variable>>("acc")))));
}
// ---- sum_vec4
pub fn vc_r_sum_vec4(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::SumVec4(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_sum_vec4 dyon::runtime::Runtime::block stub_iter_sum_vec4
pub fn stub_iter_sum_vec4(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::Vec4(x)) => { let a = gget::<[f32; 4]>("acc"); gset("acc", [a[0] + x[0], a[1] + x[1], a[2] + x[2], a[3] + x[3]]); true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_sum_vec4(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", [0.0f32; 4]);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::SumVec4(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::Vec4(gget::<[f32; 4]>("acc"))));
}
// ---- prod_vec4
pub fn vc_r_prod_vec4(mut rt: Runtime, f: ast::ForN) {
    let (pre, r) = (heights(&rt), range_in(&rt, &f));
    let got = rt.expression(&Ex::ProdVec4(Box::new(f)), Side::Right);
    range_out(&rt, &r, &got, &pre);
}
//@stub vc_l_prod_vec4 dyon::runtime::Runtime::block stub_iter_prod_vec4
pub fn stub_iter_prod_vec4(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let (r, s, c) = iteration(rt, b);
    if leave(&r) {
        gset("stack", snap(&s));
    } else {
        let ok = match given(&r, &s) { Some(Variable::Vec4(x)) => { let a = gget::<[f32; 4]>("acc"); gset("acc", [a[0] * x[0], a[1] * x[1], a[2] * x[2], a[3] * x[3]]); true } _ => false };
        goes_on(&r, &s, ok);
    }
    let _ = c;
    after_body(rt, r, s)
}
pub fn vc_l_prod_vec4(mut rt: Runtime, f: ast::ForN) {
    let pre = heights(&rt);
    gset("acc", [1.0f32; 4]);
    let rg = enter(&f, &rt);
    let got = rt.expression(&Ex::ProdVec4(Box::new(f)), Side::Right);
    done(&rg, &got, &rt, &pre, Some(Variable::Vec4(gget::<[f32; 4]>("acc"))));
}
// ---- for init; cond; step
const ENDED: u8 = 4;
const INIT: u8 = 0;
const COND: u8 = 1;
const BODY: u8 = 2;
const STEP: u8 = 3;
fn part_fails(r: &FlowResult) {
    match r {
        Ok((x, Flow::Return)) => { gset("out", RETURNED); gset("last", snap(x)); }
        _ => gset("out", FAILED),
    }
}
fn same_ex(a: &Ex, b: &Ex) -> bool {
    uf1::<Ex, usize>("ex", a) == uf1::<Ex, usize>("ex", b)
}
/// Evaluation of the three parts, in the order the specification is in. The step is assumed to declare nothing.
//@stub vc_c_for dyon::runtime::Runtime::expression stub_for_part
pub fn stub_for_part(rt: &mut Runtime, e: &Ex, _side: Side) -> FlowResult {
    let g = gget::<Vec<Variable>>("stack");
    ensure(gget::<u8>("out") == RUNNING, "nothing is evaluated after the loop was left");
    ensure(same(&rt.stack, &g), "each part is evaluated with the variables the previous one left");
    let (r, s) = eval(e, &g);
    match gget::<u8>("phase") {
        INIT => {
            ensure(same_ex(e, &gget::<Ex>("init")), "a loop starts with its first part");
            match &r { Ok((None, Flow::Continue)) => gset("phase", COND), _ => part_fails(&r) }
            others(rt, &r);
            gset("locals", snap(&rt.local_stack));
        }
        COND => {
            ensure(same_ex(e, &gget::<Ex>("cond")), "the condition is evaluated before each iteration");
            ensure(same(&rt.local_stack, &gget::<Vec<(Arc<String>, usize)>>("locals")), "the condition sees the names of the first part only");
            match value(&r) {
                Some(x) => match deref(x, &s) {
                    Variable::Bool(true, _) => gset("phase", BODY),
                    Variable::Bool(false, _) => gset("out", ENDED),
                    _ => gset("out", FAILED),
                },
                None => part_fails(&r),
            }
            others(rt, &r);
        }
        STEP => {
            ensure(same_ex(e, &gget::<Ex>("step")), "the step is evaluated after each iteration");
            match &r {
                Ok((None, Flow::Continue)) => { require(s.len() == g.len()); gset("phase", COND); }
                _ => { part_fails(&r); others(rt, &r); }
            }
        }
        _ => ensure(false, "the body is run after the condition"),
    }
    gset("stack", snap(&s));
    rt.stack = s;
    r
}
//@stub vc_c_for dyon::runtime::Runtime::block stub_for_body
pub fn stub_for_body(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let g = gget::<Vec<Variable>>("stack");
    ensure(gget::<u8>("out") == RUNNING && gget::<u8>("phase") == BODY, "the body is run after the condition was true");
    ensure(same(&rt.stack, &g), "the body is run with the variables the condition left");
    ensure(same(&rt.local_stack, &gget::<Vec<(Arc<String>, usize)>>("locals")), "the body sees the names of the first part");
    let (r, s) = eval_block(b, &g);
    if !leave(&r) { gset("phase", STEP); }
    gset("stack", snap(&s));
    after_body(rt, r, s)
}
pub fn vc_c_for(mut rt: Runtime, f: ast::For) {
    let pre = heights(&rt);
    gset("stack", snap(&rt.stack));
    gset("init", snap(&f.init));
    gset("cond", snap(&f.cond));
    gset("step", snap(&f.step));
    gset("label", snap(&f.label));
    gset("phase", INIT);
    gset("out", RUNNING);
    gset("flow", Flow::Continue);
    gset("last", None::<Variable>);
    let got = rt.expression(&Ex::For(Box::new(f)), Side::Right);
    match gget::<u8>("out") {
        ENDED => { cover("ran to the end"); ensure(matches!(&got, Ok((None, Flow::Continue))), "a loop ends when its condition is false"); }
        BROKEN => {
            cover("left by break");
            match &got {
                Ok((None, flow)) => ensure(same(flow, &gget::<Flow>("flow")), "break and continue with the label of another loop leave this one for it"),
                _ => ensure(false, "break is no error"),
            }
        }
        RETURNED => { cover("left by return"); ensure(returns(&got, &gget::<Option<Variable>>("last")), "return leaves the function with its value"); }
        FAILED => { cover("failed"); ensure(got.is_err(), "an error, or a part without the value the loop needs, is an error"); }
        _ => ensure(false, "a loop goes on while its condition is true"),
    }
    match gget::<u8>("out") {
        ENDED | BROKEN => {
            ensure(heights(&rt) == pre, "a loop removes what it declared");
            let (k, g) = (skolem(), gget::<Vec<Variable>>("stack"));
            require(k < pre.0);
            ensure(same(&rt.stack[k], &g[k]), "a loop leaves the variables as its last iteration left them");
        }
        _ => ensure(keeps(&got, &rt, &pre), "nothing below is removed"),
    }
}
pub fn nc_script_loops() {
    let mut g = lang::Gn::new();
    g.lw = 4;
    for _ in 0..below(2) { g.func(false, 1 + below(2)); }
    g.func(true, 1 + below(3));
    lang::compare(&g.fs, true);
}
native! {
    nc_script_loops: ();
}
