// P08: what a script computes.
//
// Each form of expression is verified against the contract of `Runtime::expression` on its parts:
// evaluating a part gives an outcome and a next stack that are an arbitrary function of the part and
// the stack it is evaluated in (so the order of evaluation shows in the result), a value
// (`Some`, `Continue`) leaves the heights of all stacks as they were, and nothing below is ever removed.
// The contracts discharge that height condition for each form, so the induction over the expression is closed.
use super::*;
use crate::verif::*;
//@include lang.inc.rs
//@include eval.inc.rs

fn probe_bin(a: &Variable, b: &Variable) -> Result<Variable, String> {
    uf2("bin", a, b)
}
fn probe_un(a: &Variable) -> Result<Variable, String> {
    uf1("un", a)
}
/// An external function: takes its arguments from the stack.
fn probe_ret(rt: &mut Runtime) -> Result<Variable, String> {
    let r = uf1("ext", &rt.stack);
    rt.stack = uf1("ext_after", &rt.stack);
    r
}
fn probe_void(rt: &mut Runtime) -> Result<(), String> {
    let r = uf1("extv", &rt.stack);
    rt.stack = uf1("extv_after", &rt.stack);
    r
}
pub fn vc_binop(mut rt: Runtime, l: Ex, r: Ex, info: ast::CallInfo) {
    let pre = heights(&rt);
    let (a, s1) = eval(&l, &rt.stack);
    let (b, s2) = eval(&r, &s1);
    require(valid(&a, &s2) && valid(&b, &s2));
    let f: fn(&Variable, &Variable) -> Result<Variable, String> = probe_bin;
    let got = rt.expression(&Ex::CallBinOp(Box::new(ast::CallBinOp { left: l, right: r, fun: crate::FnBinOpRef(f), info: Box::new(info) })), Side::Right);
    match (value(&a), value(&b)) {
        (Some(x), Some(y)) => {
            cover("values");
            ensure(same_res(&got, &probe_bin(deref(x, &s2), deref(y, &s2))), "an operator is applied to the values of its left and right operand");
            ensure(same(&rt.stack, &s2), "the operands are evaluated left to right and removed");
        }
        (None, _) => { cover("left"); ensure(fails(&got, &a), "a left operand without a value returns or is an error"); }
        _ => { cover("right"); ensure(fails(&got, &b), "a right operand without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_unop(mut rt: Runtime, e: Ex, info: ast::CallInfo) {
    let pre = heights(&rt);
    let (a, s1) = eval(&e, &rt.stack);
    require(valid(&a, &s1));
    let f: fn(&Variable) -> Result<Variable, String> = probe_un;
    let got = rt.expression(&Ex::CallUnOp(Box::new(ast::CallUnOp { arg: e, fun: crate::FnUnOpRef(f), info: Box::new(info) })), Side::Right);
    match value(&a) {
        Some(x) => {
            cover("value");
            ensure(same_res(&got, &probe_un(deref(x, &s1))), "a unary operator is applied to the value of its operand");
            ensure(same(&rt.stack, &s1), "the operand is removed");
        }
        None => { cover("fails"); ensure(fails(&got, &a), "an operand without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_try_expr(mut rt: Runtime, t: ast::TryExpr) {
    let (pre, st) = (heights(&rt), snap(&rt.stack));
    let (a, _) = eval(&t.expr, &st);
    let got = rt.expression(&Ex::TryExpr(Box::new(t)), Side::Right);
    match a {
        Ok((Some(x), Flow::Continue)) => {
            cover("value");
            match &got {
                Ok((Some(Variable::Result(Ok(y))), Flow::Continue)) => ensure(same(&x, &**y), "`try` of a value is ok of the value"),
                _ => ensure(false, "`try` of a value is ok of the value"),
            }
        }
        Ok((None, Flow::Continue)) => { cover("nothing"); ensure(got.is_err(), "`try` of nothing is an error"); }
        Ok(x) => { cover("leaves"); ensure(same_flow(&got, &Ok(x)), "return, break and continue pass through `try`"); }
        Err(_) => {
            cover("error");
            ensure(matches!(&got, Ok((Some(Variable::Result(Err(_))), Flow::Continue))), "`try` turns an error into err");
        }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_try_msg(v: Variable) {
    let got = Runtime::try_msg(&v);
    match (&v, &got) {
        (Variable::Result(Ok(x)), Some(Ok(y))) => ensure(same(x, y), "`?` on ok gives its value"),
        (Variable::Result(Err(x)), Some(Err(y))) => { cover("err"); ensure(same(&x.message, &y.message) && same(&x.trace, &y.trace), "`?` on err keeps the message and the trace") }
        (Variable::Option(Some(x)), Some(Ok(y))) => ensure(same(x, y), "`?` on some gives its value"),
        (Variable::Option(None), Some(Err(_))) => {}
        (Variable::Bool(b, sec), Some(Ok(y))) => { cover("secret"); ensure(*b && sec.is_some() && same(&v, &**y), "`?` on a bool is ok only for true with a reason") }
        (Variable::Bool(b, sec), Some(Err(_))) => ensure(!*b || sec.is_none(), "`?` on a bool fails for false or without a reason"),
        (Variable::F64(b, sec), Some(Ok(y))) => ensure(!b.is_nan() && sec.is_some() && same(&v, &**y), "`?` on a number is ok only with a reason"),
        (Variable::F64(b, sec), Some(Err(_))) => ensure(b.is_nan() || sec.is_none(), "`?` on a number fails for NaN or without a reason"),
        (x, None) => { cover("other"); ensure(!matches!(x, Variable::Result(_) | Variable::Option(_) | Variable::Bool(..) | Variable::F64(..)), "`?` has a meaning for results, options, bools and numbers") }
        _ => ensure(false, "`?` is ok exactly on values that are a success"),
    }
}
pub fn vc_try(mut rt: Runtime, e: Ex) {
    require(inv(&rt));
    let pre = heights(&rt);
    let (a, s1) = eval(&e, &rt.stack);
    require(valid(&a, &s1));
    let last = rt.call_stack.len() - 1;
    let may = rt.call_stack[last].stack_len != 0 && rt.call_stack[last].returns;
    let got = rt.expression(&Ex::Try(Box::new(e)), Side::Right);
    match value(&a) {
        Some(x) => match Runtime::try_msg(deref(x, &s1)) {
            None => { cover("no meaning"); ensure(got.is_err(), "`?` on another value is an error"); }
            Some(Ok(y)) => {
                cover("ok");
                match &got {
                    Ok((Some(z), Flow::Continue)) => ensure(same(&*y, z), "`?` on a success gives its value"),
                    _ => ensure(false, "`?` on a success gives its value"),
                }
                ensure(same(&rt.stack, &s1), "`?` on a success changes nothing");
            }
            Some(Err(y)) if may => {
                cover("err");
                match &got {
                    Ok((Some(Variable::Result(Err(z))), Flow::Return)) => {
                        ensure(same(&y.message, &z.message), "`?` on a failure returns the error with its message");
                        ensure(z.trace.len() == y.trace.len() + 1, "`?` adds one line to the trace");
                        let k = skolem();
                        require(k < y.trace.len());
                        ensure(same(&y.trace[k], &z.trace[k]), "`?` keeps the trace");
                    }
                    _ => ensure(false, "`?` on a failure returns the error from the function"),
                }
            }
            _ => { cover("no result"); ensure(got.is_err(), "`?` on a failure in a function without a result is an error"); }
        },
        None => { cover("fails"); ensure(fails(&got, &a), "an operand without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_array_fill(mut rt: Runtime, a: ast::ArrayFill) {
    let pre = heights(&rt);
    let (x, s1) = eval(&a.fill, &rt.stack);
    let (n, s2) = eval(&a.n, &s1);
    require(valid(&x, &s2) && valid(&n, &s2));
    let got = rt.expression(&Ex::ArrayFill(Box::new(a)), Side::Right);
    match (value(&x), value(&n)) {
        (Some(x), Some(n)) => match deref(n, &s2) {
            Variable::F64(n, _) => {
                cover("filled");
                match &got {
                    Ok((Some(Variable::Array(arr)), Flow::Continue)) => {
                        ensure(arr.len() == *n as usize, "`[x; n]` has n items");
                        let k = skolem();
                        require(k < arr.len());
                        ensure(same(&arr[k], deref(x, &s2)), "every item of `[x; n]` is the value of x");
                    }
                    _ => ensure(false, "`[x; n]` is an array"),
                }
                ensure(same(&rt.stack, &s2), "value and length are evaluated in order");
            }
            _ => { cover("not a number"); ensure(got.is_err(), "a length that is no number is an error"); }
        },
        (None, _) => { cover("value fails"); ensure(fails(&got, &x), "a part without a value returns or is an error"); }
        _ => { cover("length fails"); ensure(fails(&got, &n), "a part without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_swizzle(mut rt: Runtime, sw: ast::Swizzle) {
    require(sw.sw0 < 4 && sw.sw1 < 4 && sw.sw2.unwrap_or(0) < 4 && sw.sw3.unwrap_or(0) < 4);
    let pre = heights(&rt);
    let (a, s1) = eval(&sw.expr, &rt.stack);
    require(valid(&a, &s1));
    let (i, j, k, l) = (sw.sw0, sw.sw1, sw.sw2, sw.sw3);
    let got = rt.expression(&Ex::Swizzle(Box::new(sw)), Side::Right);
    match value(&a) {
        Some(x) => match deref(x, &s1) {
            Variable::Vec4(v) => {
                cover("vec4");
                ensure(matches!(got, Ok((None, Flow::Continue))), "a swizzle leaves its components on the stack");
                let mut want = snap(&s1);
                want.push(Variable::f64(f64::from(v[i])));
                want.push(Variable::f64(f64::from(v[j])));
                if let Some(i) = k { want.push(Variable::f64(f64::from(v[i]))); }
                if let Some(i) = l { want.push(Variable::f64(f64::from(v[i]))); }
                ensure(same(&rt.stack, &want), "a swizzle gives the named components in order");
            }
            _ => { cover("not a vec4"); ensure(got.is_err(), "a swizzle of another value is an error"); }
        },
        None => { cover("fails"); ensure(fails(&got, &a), "an operand without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_return(mut rt: Runtime, e: Ex) {
    let pre = heights(&rt);
    let (a, _) = eval(&e, &rt.stack);
    let got = rt.expression(&Ex::Return(Box::new(e)), Side::Right);
    match &a {
        Ok((Some(x), Flow::Continue)) => {
            cover("value");
            match &got {
                Ok((Some(y), Flow::Return)) => ensure(same(x, y), "`return x` leaves the function with the value of x"),
                _ => ensure(false, "`return x` leaves the function with the value of x"),
            }
        }
        _ => { cover("fails"); ensure(fails(&got, &a), "an operand without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_leave(mut rt: Runtime, r: Range, l: Option<Arc<String>>, v: Variable) {
    let pre = heights(&rt);
    let got = rt.expression(&Ex::ReturnVoid(Box::new(r)), Side::Right);
    ensure(matches!(got, Ok((None, Flow::Return))), "`return` leaves the function without a value");
    match rt.expression(&Ex::Break(Box::new(ast::Break { label: snap(&l), source_range: r })), Side::Right) {
        Ok((None, Flow::Break(x))) => ensure(same(&x, &l), "`break` names its label"),
        _ => ensure(false, "`break` leaves a loop"),
    }
    match rt.expression(&Ex::Continue(Box::new(ast::Continue { label: snap(&l), source_range: r })), Side::Right) {
        Ok((None, Flow::ContinueLoop(x))) => ensure(same(&x, &l), "`continue` names its label"),
        _ => ensure(false, "`continue` goes on with a loop"),
    }
    match rt.expression(&Ex::Variable(Box::new((r, snap(&v)))), Side::Right) {
        Ok((Some(x), Flow::Continue)) => ensure(same(&x, &v), "a literal gives its value"),
        _ => ensure(false, "a literal gives its value"),
    }
    ensure(heights(&rt) == pre, "they leave the stacks as they were");
}
// ---- if: the first condition that holds selects its block
pub fn vc_b_if(mut rt: Runtime, c: ast::If) {
    require(c.else_if_conds.is_empty() && c.else_if_blocks.is_empty());
    let pre = heights(&rt);
    let (a, s1) = eval(&c.cond, &rt.stack);
    require(valid(&a, &s1));
    let t = eval_block(&c.true_block, &s1);
    let e = match &c.else_block { Some(b) => eval_block(b, &s1), None => (Ok((None, Flow::Continue)), snap(&s1)) };
    let got = rt.expression(&Ex::If(Box::new(c)), Side::Right);
    match value(&a) {
        Some(x) => match deref(x, &s1) {
            Variable::Bool(true, _) => { cover("true"); ensure(same_flow(&got, &t.0) && same(&rt.stack, &t.1), "a condition that holds selects its block"); }
            Variable::Bool(false, _) => { cover("false"); ensure(same_flow(&got, &e.0) && same(&rt.stack, &e.1), "a condition that does not hold selects the else block"); }
            _ => { cover("not a bool"); ensure(got.is_err(), "a condition that is no bool is an error"); }
        },
        None => { cover("fails"); ensure(fails(&got, &a), "a condition without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
/// The bool a condition gave.
fn truth(r: &FlowResult, s: &Vec<Variable>) -> Option<bool> {
    match r {
        Ok((Some(x), Flow::Continue)) => match deref(x, s) { Variable::Bool(y, _) => Some(*y), _ => None },
        _ => None,
    }
}
pub fn vc_b_else_if(mut rt: Runtime, c: ast::If, c1: Ex, b1: ast::Block, c2: Ex, b2: ast::Block) {
    let pre = heights(&rt);
    let (a, s1) = eval(&c.cond, &rt.stack);
    require(truth(&a, &s1) == Some(false));
    let c = ast::If { else_if_conds: vec![c1, c2], else_if_blocks: vec![b1, b2], ..c };
    let got = rt.expression(&Ex::If(Box::new(snap(&c))), Side::Right);
    let (a1, t1) = eval(&c.else_if_conds[0], &s1);
    match truth(&a1, &t1) {
        Some(true) => {
            cover("first");
            let w = eval_block(&c.else_if_blocks[0], &t1);
            ensure(same_flow(&got, &w.0) && same(&rt.stack, &w.1), "the first `else if` condition that holds selects its block");
        }
        Some(false) => {
            let (a2, t2) = eval(&c.else_if_conds[1], &t1);
            match truth(&a2, &t2) {
                Some(true) => {
                    cover("second");
                    let w = eval_block(&c.else_if_blocks[1], &t2);
                    ensure(same_flow(&got, &w.0) && same(&rt.stack, &w.1), "the first `else if` condition that holds selects its block");
                }
                Some(false) => {
                    cover("none");
                    let w = match &c.else_block { Some(b) => eval_block(b, &t2), None => (Ok((None, Flow::Continue)), t2) };
                    ensure(same_flow(&got, &w.0) && same(&rt.stack, &w.1), "when no condition holds the else block is selected");
                }
                None => { cover("second fails"); ensure(fails(&got, &a2), "a condition without a bool returns or is an error"); }
            }
        }
        None => { cover("first fails"); ensure(fails(&got, &a1), "a condition without a bool returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
/// For any number of `else if`s.
pub fn vc_b_if_any(mut rt: Runtime, c: ast::If) {
    require(c.else_if_conds.len() == c.else_if_blocks.len());
    let pre = heights(&rt);
    let got = rt.expression(&Ex::If(Box::new(c)), Side::Right);
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
// ---- vec4 and mat4
//@cfg vc_vec4,vc_mat4,vc_n_* unroll_forks 8
pub fn vc_vec4(mut rt: Runtime, a: Ex, b: Ex, c: Ex, d: Ex, range: Range) {
    let pre = heights(&rt);
    let (x, s1) = eval(&a, &rt.stack);
    require(value(&x).is_some() && valid(&x, &s1));
    let (y, s2) = eval(&b, &push1(&s1, value(&x).unwrap()));
    require(value(&y).is_some() && valid(&y, &s2));
    let (z, s3) = eval(&c, &push1(&s2, value(&y).unwrap()));
    require(value(&z).is_some() && valid(&z, &s3));
    let (w, s4) = eval(&d, &push1(&s3, value(&z).unwrap()));
    let n = pre.0;
    require(value(&w).is_some() && valid(&w, &s4));
    // arguments on the stack keep their values while the others are evaluated
    require(same(&s4[n], value(&x).unwrap()) && same(&s4[n + 1], value(&y).unwrap()) && same(&s4[n + 2], value(&z).unwrap()));
    let below = |v: &FlowResult| match value(v) { Some(Variable::Ref(k)) => *k < n && !matches!(s4[*k], Variable::Ref(_)), _ => true };
    require(below(&x) && below(&y) && below(&z) && below(&w));
    let got = rt.expression(&Ex::Vec4(Box::new(ast::Vec4 { args: vec![a, b, c, d], source_range: range })), Side::Right);
    let num = |v: &FlowResult| match deref(value(v).unwrap(), &s4) { Variable::F64(x, _) => Some(*x), _ => None };
    match (num(&x), num(&y), num(&z), num(&w)) {
        (Some(x), Some(y), Some(z), Some(w)) => {
            cover("numbers");
            match &got {
                Ok((Some(Variable::Vec4(v)), Flow::Continue)) => ensure(same(v, &[x as f32, y as f32, z as f32, w as f32]), "`(x, y, z, w)` has the values of its components in order"),
                _ => ensure(false, "`(x, y, z, w)` is a vec4"),
            }
            let k = skolem();
            ensure(rt.stack.len() == n, "the components are removed");
            require(k < n);
            ensure(same(&rt.stack[k], &s4[k]), "the variables below are left alone");
        }
        _ => { cover("not numbers"); ensure(got.is_err(), "a component that is no number is an error"); }
    }
}
pub fn vc_vec4_leaves(mut rt: Runtime, a: Ex, b: Ex, c: Ex, d: Ex, range: Range) {
    let (x, s1) = eval(&a, &rt.stack);
    let y = match value(&x) { Some(x) => eval(&b, &push1(&s1, x)), None => eval(&b, &s1) };
    let pre = heights(&rt);
    require(matches!(x, Ok((_, Flow::Return))) || (value(&x).is_some() && matches!(y.0, Ok((_, Flow::Return)))));
    let got = rt.expression(&Ex::Vec4(Box::new(ast::Vec4 { args: vec![a, b, c, d], source_range: range })), Side::Right);
    ensure(fails(&got, if value(&x).is_some() { &y.0 } else { &x }), "a return in a component leaves the function");
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_mat4(mut rt: Runtime, a: Ex, b: Ex, c: Ex, d: Ex, range: Range) {
    let pre = heights(&rt);
    let (x, s1) = eval(&a, &rt.stack);
    require(value(&x).is_some() && valid(&x, &s1));
    let (y, s2) = eval(&b, &push1(&s1, value(&x).unwrap()));
    require(value(&y).is_some() && valid(&y, &s2));
    let (z, s3) = eval(&c, &push1(&s2, value(&y).unwrap()));
    require(value(&z).is_some() && valid(&z, &s3));
    let (w, s4) = eval(&d, &push1(&s3, value(&z).unwrap()));
    let n = pre.0;
    require(value(&w).is_some() && valid(&w, &s4));
    require(same(&s4[n], value(&x).unwrap()) && same(&s4[n + 1], value(&y).unwrap()) && same(&s4[n + 2], value(&z).unwrap()));
    let below = |v: &FlowResult| match value(v) { Some(Variable::Ref(k)) => *k < n && !matches!(s4[*k], Variable::Ref(_)), _ => true };
    require(below(&x) && below(&y) && below(&z) && below(&w));
    let got = rt.expression(&Ex::Mat4(Box::new(ast::Mat4 { args: vec![a, b, c, d], source_range: range })), Side::Right);
    let vec = |v: &FlowResult| match deref(value(v).unwrap(), &s4) { Variable::Vec4(x) => Some(*x), _ => None };
    match (vec(&x), vec(&y), vec(&z), vec(&w)) {
        (Some(x), Some(y), Some(z), Some(w)) => {
            cover("vectors");
            match &got {
                Ok((Some(Variable::Mat4(m)), Flow::Continue)) => {
                    ensure(same(&m[0], &[x[0], y[0], z[0], w[0]]) && same(&m[1], &[x[1], y[1], z[1], w[1]]), "the rows of a mat4 are its vectors in order");
                    ensure(same(&m[2], &[x[2], y[2], z[2], w[2]]) && same(&m[3], &[x[3], y[3], z[3], w[3]]), "the rows of a mat4 are its vectors in order");
                }
                _ => ensure(false, "`mat4 {x, y, z, w}` is a mat4"),
            }
            let k = skolem();
            ensure(rt.stack.len() == n, "the rows are removed");
            require(k < n);
            ensure(same(&rt.stack[k], &s4[k]), "the variables below are left alone");
        }
        _ => { cover("not vectors"); ensure(got.is_err(), "a row that is no vec4 is an error"); }
    }
}
// ---- parts evaluated one after another (two parts in full; any number below)
pub fn vc_n_block(mut rt: Runtime, a: Ex, b: Ex, range: Range) {
    let (pre, s0) = (heights(&rt), snap(&rt.stack));
    let blk = ast::Block { expressions: vec![a, b], source_range: range };
    let got = rt.expression(&Ex::Block(Box::new(snap(&blk))), Side::Right);
    let (x, s1) = eval(&blk.expressions[0], &s0);
    match &x {
        Ok((_, Flow::Continue)) => {
            let (y, s2) = eval(&blk.expressions[1], &s1);
            cover("second");
            ensure(same_flow(&got, &y), "a block gives what its last expression gives");
            if y.is_ok() {
                let k = skolem();
                ensure(heights(&rt) == pre, "what a block declares ends with the block");
                require(k < pre.0);
                ensure(same(&rt.stack[k], &s2[k]), "what a block assigned to variables declared before it stays");
            }
        }
        x => { cover("first leaves"); ensure(same_flow(&got, x), "return, break, continue and errors skip the rest of a block"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_u_block(mut rt: Runtime, blk: ast::Block) {
    let pre = heights(&rt);
    let got = rt.expression(&Ex::Block(Box::new(blk)), Side::Right);
    if got.is_ok() {
        cover("ok");
        ensure(heights(&rt) == pre, "what a block declares ends with the block");
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_n_array(mut rt: Runtime, a: Ex, b: Ex, range: Range) {
    let (pre, s0) = (heights(&rt), snap(&rt.stack));
    let arr = ast::Array { items: vec![a, b], source_range: range };
    let got = rt.expression(&Ex::Array(Box::new(snap(&arr))), Side::Right);
    let (x, s1) = eval(&arr.items[0], &s0);
    match value(&x) {
        Some(vx) => {
            let (y, s2) = eval(&arr.items[1], &s1);
            match value(&y) {
                Some(vy) => {
                    cover("values");
                    match &got {
                        Ok((Some(Variable::Array(z)), Flow::Continue)) => ensure(z.len() == 2 && same(&z[0], vx) && same(&z[1], vy), "an array holds the values of its items in order"),
                        _ => ensure(false, "an array of values is an array"),
                    }
                    ensure(same(&rt.stack, &s2), "items are evaluated in order");
                }
                None => { cover("second"); ensure(fails(&got, &y), "an item without a value returns or is an error"); }
            }
        }
        None => { cover("first"); ensure(fails(&got, &x), "an item without a value returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
fn pure(e: &Ex) -> FlowResult {
    uf1("pure", e)
}
//@stub vc_p_* dyon::runtime::Runtime::expression stub_pure
pub fn stub_pure(rt: &mut Runtime, e: &Ex, _side: Side) -> FlowResult {
    let r = pure(e);
    others(rt, &r);
    r
}
/// For any number of items.
pub fn vc_p_array(mut rt: Runtime, a: ast::Array) {
    let pre = heights(&rt);
    let items = snap(&a.items);
    let k = skolem();
    let got = rt.expression(&Ex::Array(Box::new(a)), Side::Right);
    match &got {
        Ok((Some(Variable::Array(z)), Flow::Continue)) => {
            cover("array");
            ensure(z.len() == items.len(), "an array has an item for each expression");
            require(k < items.len());
            match pure(&items[k]) {
                Ok((Some(x), Flow::Continue)) => ensure(same(&z[k], &x), "an array holds the values of its items in order"),
                _ => ensure(false, "every item has a value"),
            }
        }
        Ok((_, Flow::Return)) | Err(_) => {}
        _ => ensure(false, "an array is an array, returns or is an error"),
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_n_object(mut rt: Runtime, ka: Arc<String>, a: Ex, kb: Arc<String>, b: Ex, range: Range) {
    let (pre, s0) = (heights(&rt), snap(&rt.stack));
    let obj = ast::Object { key_values: vec![(snap(&ka), a), (snap(&kb), b)], source_range: range };
    let got = rt.expression(&Ex::Object(Box::new(snap(&obj))), Side::Right);
    let (x, s1) = eval(&obj.key_values[0].1, &s0);
    match value(&x) {
        Some(vx) => {
            let (y, s2) = eval(&obj.key_values[1].1, &s1);
            match value(&y) {
                Some(vy) if ka != kb => {
                    cover("values");
                    match &got {
                        Ok((Some(Variable::Object(z)), Flow::Continue)) => {
                            ensure(match z.get(&ka) { Some(v) => same(v, vx), None => false }, "an object holds the values of its keys");
                            ensure(match z.get(&kb) { Some(v) => same(v, vy), None => false }, "an object holds the values of its keys");
                            let kc: Arc<String> = any();
                            require(kc != ka && kc != kb);
                            ensure(!z.contains_key(&kc), "an object has no other keys");
                        }
                        _ => ensure(false, "an object of values is an object"),
                    }
                    ensure(same(&rt.stack, &s2), "values are evaluated in order");
                }
                Some(_) => { cover("twice"); ensure(got.is_err(), "a key given twice is an error"); }
                None => { cover("second"); ensure(fails(&got, &y), "a value missing returns or is an error"); }
            }
        }
        None => { cover("first"); ensure(fails(&got, &x), "a value missing returns or is an error"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_p_object(mut rt: Runtime, o: ast::Object) {
    let pre = heights(&rt);
    let got = rt.expression(&Ex::Object(Box::new(o)), Side::Right);
    ensure(matches!(&got, Ok((Some(Variable::Object(_)), Flow::Continue)) | Ok((_, Flow::Return)) | Err(_)), "an object is an object, returns or is an error");
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
pub fn vc_n_call_return(mut rt: Runtime, a: Ex, b: Ex, info: ast::CallInfo) {
    let s0 = snap(&rt.stack);
    let args = vec![a, b];
    let f: fn(&mut Runtime) -> Result<Variable, String> = probe_ret;
    require(rt.arg_err_index.get().is_none());
    let got = rt.expression(&Ex::CallReturn(Box::new(ast::CallReturn { args: snap(&args), fun: crate::FnReturnRef(f), info: Box::new(info) })), Side::Right);
    let (x, s1) = eval(&args[0], &s0);
    match value(&x) {
        Some(vx) => {
            let (y, s2) = eval(&args[1], &push1(&s1, vx));
            match value(&y) {
                Some(vy) => {
                    cover("values");
                    let st = push1(&s2, vy);
                    ensure(same_res(&got, &uf1("ext", &st)), "an external function gets its arguments on the stack in order and its result is the value of the call");
                    ensure(same(&rt.stack, &uf1("ext_after", &st)), "an external function is called once, after its arguments");
                }
                None => { cover("second"); ensure(fails(&got, &y), "an argument without a value returns or is an error"); }
            }
        }
        None => { cover("first"); ensure(fails(&got, &x), "an argument without a value returns or is an error"); }
    }
}
pub fn vc_n_call_void(mut rt: Runtime, a: Ex, b: Ex, info: ast::CallInfo) {
    let s0 = snap(&rt.stack);
    let args = vec![a, b];
    let f: fn(&mut Runtime) -> Result<(), String> = probe_void;
    require(rt.arg_err_index.get().is_none());
    let got = rt.expression(&Ex::CallVoid(Box::new(ast::CallVoid { args: snap(&args), fun: crate::FnVoidRef(f), info: Box::new(info) })), Side::Right);
    let (x, s1) = eval(&args[0], &s0);
    match value(&x) {
        Some(vx) => {
            let (y, s2) = eval(&args[1], &push1(&s1, vx));
            match value(&y) {
                Some(vy) => {
                    cover("values");
                    let st = push1(&s2, vy);
                    let r: Result<(), String> = uf1("extv", &st);
                    ensure(match (&got, &r) { (Ok((None, Flow::Continue)), Ok(())) | (Err(_), Err(_)) => true, _ => false }, "an external function gets its arguments on the stack in order and gives nothing");
                    ensure(same(&rt.stack, &uf1("extv_after", &st)), "an external function is called once, after its arguments");
                }
                None => { cover("second"); ensure(fails(&got, &y), "an argument without a value returns or is an error"); }
            }
        }
        None => { cover("first"); ensure(fails(&got, &x), "an argument without a value returns or is an error"); }
    }
}
fn link_next(l: &crate::Link, v: &Variable) -> (Result<(), String>, crate::Link) {
    (uf2("push", l, v), uf2("pushed", l, v))
}
//@stub vc_* dyon::link::Link::push stub_link_push
pub fn stub_link_push(l: &mut crate::Link, v: &Variable) -> Result<(), String> {
    let (r, n) = link_next(l, v);
    *l = n;
    r
}
pub fn vc_n_link(mut rt: Runtime, a: Ex, b: Ex, range: Range) {
    let (pre, s0) = (heights(&rt), snap(&rt.stack));
    let items = vec![a, b];
    let got = rt.expression(&Ex::Link(Box::new(ast::Link { items: snap(&items), source_range: range })), Side::Right);
    let (x, s1) = eval(&items[0], &s0);
    match &x {
        Ok((vx, Flow::Continue)) => {
            let first = match vx { Some(v) => link_next(&crate::Link::new(), deref(v, &s1)), None => (Ok(()), crate::Link::new()) };
            if first.0.is_err() {
                cover("first not accepted");
                ensure(got.is_err(), "an item a link can not hold is an error");
            } else {
                let (y, s2) = eval(&items[1], &s1);
                match &y {
                    Ok((vy, Flow::Continue)) => {
                        let second = match vy { Some(v) => link_next(&first.1, deref(v, &s2)), None => (Ok(()), snap(&first.1)) };
                        if second.0.is_err() {
                            cover("second not accepted");
                            ensure(got.is_err(), "an item a link can not hold is an error");
                        } else {
                            cover("link");
                            match &got {
                                Ok((Some(Variable::Link(l)), Flow::Continue)) => ensure(same(&**l, &second.1), "a link holds the values of its items in order"),
                                _ => ensure(false, "a link of values is a link"),
                            }
                        }
                    }
                    y => { cover("second"); ensure(same_flow(&got, y), "return, break and continue in an item leave the link"); }
                }
            }
        }
        x => { cover("first"); ensure(same_flow(&got, x), "return, break and continue in an item leave the link"); }
    }
    ensure(keeps(&got, &rt, &pre), "a value leaves the stacks as high as they were and nothing below is removed");
}
// ---- lazy external functions: `&&`, `||` and unwrap_or
fn lazy_rest(got: &FlowResult, rt: &Runtime, b: &Ex, x: &Variable, s1: &Vec<Variable>) {
    let (y, s2) = eval(b, &push1(s1, x));
    match value(&y) {
        Some(vy) => {
            cover("both");
            let st = push1(&s2, vy);
            ensure(same_res(got, &uf1("ext", &st)), "the function gets both arguments");
            ensure(same(&rt.stack, &uf1("ext_after", &st)), "the function is called once, after its arguments");
        }
        None => { cover("second"); ensure(fails(got, &y), "an argument without a value returns or is an error"); }
    }
}
pub fn vc_n_lazy_and(mut rt: Runtime, a: Ex, b: Ex, info: ast::CallInfo) {
    let s0 = snap(&rt.stack);
    let args = vec![a, b];
    let f: fn(&mut Runtime) -> Result<Variable, String> = probe_ret;
    require(rt.arg_err_index.get().is_none());
    let got = rt.expression(&Ex::CallLazy(Box::new(ast::CallLazy { args: snap(&args), fun: crate::FnReturnRef(f), lazy_inv: crate::LAZY_AND, info: Box::new(info) })), Side::Right);
    let (x, s1) = eval(&args[0], &s0);
    match value(&x) {
        Some(vx) => match deref(vx, &s1) {
            Variable::Bool(false, _) => {
                cover("short");
                match &got {
                    Ok((Some(z), Flow::Continue)) => ensure(same(z, deref(vx, &s1)), "false && x is the left operand"),
                    _ => ensure(false, "false && x is the left operand"),
                }
                ensure(same(&rt.stack, &s1), "false && x does not evaluate x");
            }
            _ => lazy_rest(&got, &rt, &args[1], vx, &s1),
        },
        None => { cover("first"); ensure(fails(&got, &x), "an argument without a value returns or is an error"); }
    }
}
pub fn vc_n_lazy_or(mut rt: Runtime, a: Ex, b: Ex, info: ast::CallInfo) {
    let s0 = snap(&rt.stack);
    let args = vec![a, b];
    let f: fn(&mut Runtime) -> Result<Variable, String> = probe_ret;
    require(rt.arg_err_index.get().is_none());
    let got = rt.expression(&Ex::CallLazy(Box::new(ast::CallLazy { args: snap(&args), fun: crate::FnReturnRef(f), lazy_inv: crate::LAZY_OR, info: Box::new(info) })), Side::Right);
    let (x, s1) = eval(&args[0], &s0);
    match value(&x) {
        Some(vx) => match deref(vx, &s1) {
            Variable::Bool(true, _) => {
                cover("short");
                match &got {
                    Ok((Some(z), Flow::Continue)) => ensure(same(z, deref(vx, &s1)), "true || x is the left operand"),
                    _ => ensure(false, "true || x is the left operand"),
                }
                ensure(same(&rt.stack, &s1), "true || x does not evaluate x");
            }
            _ => lazy_rest(&got, &rt, &args[1], vx, &s1),
        },
        None => { cover("first"); ensure(fails(&got, &x), "an argument without a value returns or is an error"); }
    }
}
pub fn vc_n_lazy_unwrap_or(mut rt: Runtime, a: Ex, b: Ex, info: ast::CallInfo) {
    let s0 = snap(&rt.stack);
    let args = vec![a, b];
    let f: fn(&mut Runtime) -> Result<Variable, String> = probe_ret;
    require(rt.arg_err_index.get().is_none());
    let got = rt.expression(&Ex::CallLazy(Box::new(ast::CallLazy { args: snap(&args), fun: crate::FnReturnRef(f), lazy_inv: crate::LAZY_UNWRAP_OR, info: Box::new(info) })), Side::Right);
    let (x, s1) = eval(&args[0], &s0);
    match value(&x) {
        Some(vx) => match deref(vx, &s1) {
            Variable::Result(Ok(v)) | Variable::Option(Some(v)) => {
                cover("short");
                match &got {
                    Ok((Some(z), Flow::Continue)) => ensure(same(z, &**v), "unwrap_or of ok or some is the value inside"),
                    _ => ensure(false, "unwrap_or of ok or some is the value inside"),
                }
                ensure(same(&rt.stack, &s1), "unwrap_or of ok or some does not evaluate the other argument");
            }
            _ => lazy_rest(&got, &rt, &args[1], vx, &s1),
        },
        None => { cover("first"); ensure(fails(&got, &x), "an argument without a value returns or is an error"); }
    }
}
// ---- calls of loaded functions
/// The body of a function: its outcome depends on the stack, the names of the frame and the frame itself.
type Frame_ = (Vec<(Arc<String>, usize)>, (usize, usize, bool));
fn body(b: &ast::Block, st: &Vec<Variable>, f: &Frame_) -> (FlowResult, Vec<Variable>) {
    let r: FlowResult = uf3("body", b, st, f);
    let s: Vec<Variable> = uf3("after_body", b, st, f);
    require(match &r { Ok(_) => s.len() == st.len(), _ => s.len() >= st.len() });
    (r, s)
}
//@stub vc_f_* dyon::runtime::Runtime::block stub_body
pub fn stub_body(rt: &mut Runtime, b: &ast::Block) -> FlowResult {
    let n = rt.call_stack.len();
    let c = &rt.call_stack[n - 1];
    let f: Frame_ = (snap(&rt.local_stack), (c.index, c.stack_len, c.returns));
    let (r, s) = body(b, &rt.stack, &f);
    rt.stack = s;
    if r.is_err() { others(rt, &r); }
    r
}
/// Functions observed by an `in` expression are left to the companion.
//@stub vc_f_* std::sync::atomic::Atomic::load stub_load
//@assume the called function has no `in` observers
pub fn stub_load(_x: &std::sync::atomic::AtomicBool, _o: std::sync::atomic::Ordering) -> bool {
    false
}
//@cfg vc_f_* unroll_forks 8
pub fn vc_f_call(mut rt: Runtime, a: Ex, b: Ex, fun: isize, info: ast::CallInfo) {
    require(inv(&rt));
    let (pre, s0, l0) = (heights(&rt), snap(&rt.stack), snap(&rt.local_stack));
    let index = fun.wrapping_add(rt.call_stack[pre.3 - 1].index as isize) as usize;
    require(fun >= 0 && rt.call_stack[pre.3 - 1].index < 1000 && index < rt.module.functions.len());
    let f = snap(&rt.module.functions[index]);
    require(f.args.len() == 2 && f.currents.is_empty() && f.lazy_inv.is_empty());
    let args = vec![a, b];
    let got = rt.expression(&Ex::CallLoaded(Box::new(ast::CallLoaded { args: snap(&args), fun, info: Box::new(info), custom_source: None })), Side::Right);
    let ret = !matches!(f.ret, crate::Type::Void);
    let base = if ret { push1(&s0, &Variable::Return) } else { snap(&s0) };
    let st = base.len();
    let (x, s1) = eval(&args[0], &base);
    match value(&x) {
        Some(vx) => {
            let (y, s2) = eval(&args[1], &push1(&s1, vx));
            match value(&y) {
                Some(vy) => {
                    let s3 = push1(&s2, vy);
                    let mut l = l0;
                    if ret { l.push((RETURN_TYPE.clone(), st - 1)); }
                    l.push((snap(&f.args[0].name), st));
                    l.push((snap(&f.args[1].name), st + 1));
                    let (r, s4) = body(&f.block, &s3, &(l, (index, st, ret)));
                    match r {
                        Err(_) | Ok((_, Flow::Break(_))) | Ok((_, Flow::ContinueLoop(_))) => { cover("error"); ensure(got.is_err(), "break and continue do not leave a function"); }
                        Ok((v, _)) => {
                            let want = match v {
                                Some(v) => if ret && !matches!(v, Variable::Return) { Some(Some(v)) } else { None },
                                None => if !ret { Some(None) } else if matches!(s4[st - 1], Variable::Return) { None } else { Some(Some(snap(&s4[st - 1]))) },
                            };
                            match (&got, &want) {
                                (Ok((v, Flow::Continue)), Some(w)) => { cover("result"); ensure(same(v, w), "a call gives the result of the function's body, run with the arguments bound in order"); }
                                (Err(_), None) => cover("no result"),
                                _ => ensure(false, "a call gives a value exactly when the function has a result"),
                            }
                            if got.is_ok() {
                                let k = skolem();
                                ensure(heights(&rt) == pre, "a call removes its arguments and its frame");
                                require(k < pre.0);
                                ensure(same(&rt.stack[k], &s4[k]), "a call leaves the variables below as the body left them");
                            }
                        }
                    }
                }
                None => { cover("second"); ensure(if matches!(y, Ok((None, Flow::Continue))) { true } else { fails(&got, &y) }, "an argument without a value returns or is an error"); }
            }
        }
        None => { cover("first"); ensure(if matches!(x, Ok((None, Flow::Continue))) { true } else { fails(&got, &x) }, "an argument without a value returns or is an error"); }
    }
}
pub fn vc_f_lazy(mut rt: Runtime, a: Ex, fun: isize, info: ast::CallInfo) {
    require(inv(&rt));
    let (pre, s0) = (heights(&rt), snap(&rt.stack));
    let index = fun.wrapping_add(rt.call_stack[pre.3 - 1].index as isize) as usize;
    require(fun >= 0 && rt.call_stack[pre.3 - 1].index < 1000 && index < rt.module.functions.len());
    let f = snap(&rt.module.functions[index]);
    require(f.args.len() == 1 && f.currents.is_empty() && f.lazy_inv.len() == 1 && f.lazy_inv[0].len() == 1);
    require(!matches!(f.ret, crate::Type::Void));
    let args = vec![a];
    let (x, s1) = eval(&args[0], &push1(&s0, &Variable::Return));
    require(value(&x).is_some());
    let v = snap(deref(value(&x).unwrap(), &s1));
    let inside = match (&f.lazy_inv[0][0], &v) {
        (ast::Lazy::Variable(Variable::Bool(b, _)), Variable::Bool(c, _)) if b == c => Some(snap(&v)),
        (ast::Lazy::UnwrapOk, Variable::Result(Ok(x))) => Some((**x).clone()),
        (ast::Lazy::UnwrapErr, Variable::Result(Err(x))) => Some(snap(&x.message)),
        (ast::Lazy::UnwrapSome, Variable::Option(Some(x))) => Some((**x).clone()),
        _ => None,
    };
    require(inside.is_some());
    let got = rt.expression(&Ex::CallLoaded(Box::new(ast::CallLoaded { args, fun, info: Box::new(info), custom_source: None })), Side::Right);
    match (&got, &inside) {
        (Ok((Some(y), Flow::Continue)), Some(w)) => { cover("short"); ensure(same(y, w), "a lazy invariant that holds is the result of the call"); }
        _ => ensure(false, "a lazy invariant that holds is the result of the call"),
    }
    ensure(heights(&rt) == pre, "a call cut short by a lazy invariant leaves the stacks as they were");
    let k = skolem();
    require(k < pre.0);
    ensure(same(&rt.stack[k], &s1[k]), "the function is not run");
}
//@stub vc_c_* dyon::runtime::Runtime::item stub_item
pub fn stub_item(rt: &mut Runtime, i: &ast::Item, _side: Side) -> FlowResult {
    let e = Ex::Item(Box::new(snap(i)));
    let (r, s) = eval(&e, &rt.stack);
    rt.stack = s;
    others(rt, &r);
    r
}
/// The body of a closure: its outcome depends on the stack, the names and the frame.
fn cbody(b: &Ex, st: &Vec<Variable>, f: &Frame_) -> (FlowResult, Vec<Variable>) {
    let r: FlowResult = uf3("cbody", b, st, f);
    let s: Vec<Variable> = uf3("after_cbody", b, st, f);
    require(match &r { Ok((Some(_), Flow::Continue)) => s.len() == st.len(), _ => s.len() >= st.len() });
    (r, s)
}
//@stub vc_c_* dyon::runtime::Runtime::expression_module stub_expression_module
pub fn stub_expression_module(rt: &mut Runtime, e: &Ex, _side: Side, _m: &Arc<Module>) -> FlowResult {
    let n = rt.call_stack.len();
    let c = &rt.call_stack[n - 1];
    let f: Frame_ = (snap(&rt.local_stack), (c.index, c.stack_len, c.returns));
    let (r, s) = cbody(e, &rt.stack, &f);
    rt.stack = s;
    others(rt, &r);
    r
}
//@cfg vc_c_* unroll_forks 8
pub fn vc_c_call_closure(mut rt: Runtime, item: ast::Item, a: Ex, range: Range) {
    require(!matches!(a, Ex::Swizzle(_)));
    let (pre, s0, l0) = (heights(&rt), snap(&rt.stack), snap(&rt.local_stack));
    let (i, t0) = eval(&Ex::Item(Box::new(snap(&item))), &s0);
    if let Some(x) = value(&i) {
        if let Variable::Closure(f, _) = deref(x, &t0) { require(f.args.len() == 1 && f.currents.is_empty()); }
    }
    let args = vec![a];
    let got = rt.expression(&Ex::CallClosure(Box::new(ast::CallClosure { item, args: snap(&args), source_range: range })), Side::Right);
    match value(&i) {
        Some(x) => match deref(x, &t0) {
            Variable::Closure(f, env) => {
                let ret = !matches!(f.ret, crate::Type::Void);
                let base = if ret { push1(&t0, &Variable::Return) } else { snap(&t0) };
                let st = base.len();
                let (y, s1) = eval(&args[0], &base);
                match value(&y) {
                    Some(vy) => {
                        let s2 = push1(&s1, vy);
                        let mut l = l0;
                        if ret { l.push((RETURN_TYPE.clone(), st - 1)); }
                        l.push((snap(&f.args[0].name), st));
                        let (r, s4) = cbody(&f.expr, &s2, &(l, (env.relative, st, ret)));
                        match r {
                            Err(_) | Ok((_, Flow::Break(_))) | Ok((_, Flow::ContinueLoop(_))) => { cover("error"); ensure(got.is_err(), "break and continue do not leave a closure"); }
                            Ok((v, _)) => {
                                let want = match v {
                                    Some(v) => if ret && !matches!(v, Variable::Return) { Some(Some(v)) } else { None },
                                    None => if !ret { Some(None) } else if matches!(s4[st - 1], Variable::Return) { None } else { Some(Some(snap(&s4[st - 1]))) },
                                };
                                match (&got, &want) {
                                    (Ok((v, Flow::Continue)), Some(w)) => { cover("result"); ensure(same(v, w), "a closure call gives the result of the closure's expression, run with the arguments bound in order"); }
                                    (Err(_), None) => cover("no result"),
                                    _ => ensure(false, "a closure call gives a value exactly when the closure has a result"),
                                }
                                if got.is_ok() {
                                    let k = skolem();
                                    ensure(heights(&rt) == pre, "a closure call removes its arguments and its frame");
                                    require(k < pre.0);
                                    ensure(same(&rt.stack[k], &s4[k]), "a closure call leaves the variables below as the closure left them");
                                }
                            }
                        }
                    }
                    None => { cover("argument"); ensure(if matches!(y, Ok((None, Flow::Continue))) { true } else { fails(&got, &y) }, "an argument without a value returns or is an error"); }
                }
            }
            _ => { cover("not a closure"); ensure(got.is_err(), "calling another value is an error"); }
        },
        None => { cover("no value"); ensure(fails(&got, &i), "a callee without a value returns or is an error"); }
    }
}
/// A closure runs in the module it was made in.
pub fn vc_expression_module(mut rt: Runtime, e: Ex, m: Arc<Module>) {
    let old = snap(&rt.module);
    let (a, s1) = eval(&e, &rt.stack);
    let got = rt.expression_module(&e, Side::Right, &m);
    ensure(same_flow(&got, &a) && same(&rt.stack, &s1), "evaluating in a module gives what the expression gives");
    ensure(uf1::<_, usize>("module", &rt.module) == uf1::<_, usize>("module", &old), "afterwards the module is the one before");
}

pub fn nc_script_eval() {
    let mut g = lang::Gn::new();
    for _ in 0..below(3) { g.func(false, 1 + below(2)); }
    g.func(true, 1 + below(3));
    lang::compare(&g.fs, true);
}
native! {
    nc_script_eval: ();
}
