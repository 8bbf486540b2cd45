// Contract of `Runtime::expression`, shared by the contracts on the forms of expressions.
use crate::ast;
use crate::ast::Expression as Ex;
/// Heights of the value, local, current and call stacks.
type Hs = (usize, usize, usize, usize);
fn heights(rt: &Runtime) -> Hs {
    (rt.stack.len(), rt.local_stack.len(), rt.current_stack.len(), rt.call_stack.len())
}
/// The induction hypothesis on the stacks: nothing below is removed; a value leaves them as high as they
/// were; only an error leaves frames on the call stack.
fn keeps(r: &FlowResult, rt: &Runtime, pre: &Hs) -> bool {
    let h = heights(rt);
    match r {
        Ok((Some(_), Flow::Continue)) => h == *pre,
        Ok(_) => h.0 >= pre.0 && h.1 >= pre.1 && h.2 >= pre.2 && h.3 == pre.3,
        Err(_) => h.0 >= pre.0 && h.1 >= pre.1 && h.2 >= pre.2 && h.3 >= pre.3,
    }
}
/// Outcome of evaluating a part, and the stack afterwards.
fn eval(e: &Ex, st: &Vec<Variable>) -> (FlowResult, Vec<Variable>) {
    let r: FlowResult = uf2("eval", e, st);
    let s: Vec<Variable> = uf2("after", e, st);
    require(match &r { Ok((Some(x), Flow::Continue)) => s.len() == st.len() && wf(x, &s), _ => s.len() >= st.len() });
    (r, s)
}
fn eval_block(e: &ast::Block, st: &Vec<Variable>) -> (FlowResult, Vec<Variable>) {
    let r: FlowResult = uf2("block", e, st);
    let s: Vec<Variable> = uf2("after_block", e, st);
    require(match &r { Ok(_) => s.len() == st.len(), _ => s.len() >= st.len() });
    (r, s)
}
fn others(rt: &mut Runtime, r: &FlowResult) {
    let h = heights(rt);
    match r {
        Ok((Some(_), Flow::Continue)) => {}
        Ok(_) => {
            rt.local_stack = any();
            rt.current_stack = any();
            require(rt.local_stack.len() >= h.1 && rt.current_stack.len() >= h.2);
        }
        Err(_) => {
            rt.local_stack = any();
            rt.current_stack = any();
            rt.call_stack = uf1("calls", &rt.call_stack);
            require(rt.local_stack.len() >= h.1 && rt.current_stack.len() >= h.2 && rt.call_stack.len() >= h.3);
        }
    }
}
//@stub vc_* dyon::runtime::Runtime::expression stub_expression
pub fn stub_expression(rt: &mut Runtime, e: &Ex, _side: Side) -> FlowResult {
    let (r, s) = eval(e, &rt.stack);
    rt.stack = s;
    others(rt, &r);
    r
}
/// A block that gives an outcome leaves all stacks as high as they were.
//@stub vc_b_* dyon::runtime::Runtime::block stub_block
pub fn stub_block(rt: &mut Runtime, e: &ast::Block) -> FlowResult {
    let (r, s) = eval_block(e, &rt.stack);
    rt.stack = s;
    if r.is_err() { others(rt, &r); }
    r
}
/// Error texts are not specified.
//@stub vc_* dyon::runtime::Runtime::err stub_err
pub fn stub_err(_rt: &Runtime, _range: Range, _msg: &str) -> FlowResult {
    Err(any())
}
//@stub vc_* dyon::runtime::Runtime::expected stub_expected
pub fn stub_expected(_rt: &Runtime, _var: &Variable, _ty: &str) -> String {
    any()
}
//@stub vc_* dyon::module::Module::error stub_module_error
pub fn stub_module_error(_m: &Module, _range: Range, _msg: &str, _rt: &Runtime) -> String {
    any()
}
//@stub vc_* dyon::module::Module::error_source stub_module_error_source
pub fn stub_module_error_source(_m: &Module, _range: Range, _msg: &str, _source: &Arc<String>) -> String {
    any()
}
//@stub vc_* dyon::runtime::Runtime::stack_trace stub_stack_trace
pub fn stub_stack_trace(_rt: &Runtime) -> String {
    any()
}
//@stub vc_* dyon::ast::Expression::source_range stub_source_range
pub fn stub_source_range(_e: &Ex) -> Range {
    Range::empty(0)
}
/// The value, when there is one.
fn value(r: &FlowResult) -> Option<&Variable> {
    match r {
        Ok((Some(x), Flow::Continue)) => Some(x),
        _ => None,
    }
}
fn push1(st: &Vec<Variable>, x: &Variable) -> Vec<Variable> {
    let mut s = snap(st);
    s.push(snap(x));
    s
}
/// References point at slots that are not references themselves.
fn wf(v: &Variable, stack: &Vec<Variable>) -> bool {
    match v {
        Variable::Ref(k) => *k < stack.len() && !matches!(stack[*k], Variable::Ref(_)),
        _ => true,
    }
}
/// A value that is a reference points at a live slot.
fn valid(r: &FlowResult, stack: &Vec<Variable>) -> bool {
    match r {
        Ok((Some(x), Flow::Continue)) => wf(x, stack),
        _ => true,
    }
}
fn deref<'a>(v: &'a Variable, stack: &'a Vec<Variable>) -> &'a Variable {
    match v {
        Variable::Ref(k) => &stack[*k],
        x => x,
    }
}
fn same_res(got: &FlowResult, want: &Result<Variable, String>) -> bool {
    match (got, want) {
        (Ok((Some(x), Flow::Continue)), Ok(y)) => same(x, y),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
fn returns(got: &FlowResult, x: &Option<Variable>) -> bool {
    match got {
        Ok((y, Flow::Return)) => same(x, y),
        _ => false,
    }
}
/// What a part without a value does to the whole: return passes through, everything else is an error.
fn fails(got: &FlowResult, part: &FlowResult) -> bool {
    match part {
        Ok((x, Flow::Return)) => returns(got, x),
        _ => got.is_err(),
    }
}
fn same_flow(a: &FlowResult, b: &FlowResult) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same(x, y),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
/// The runtime between two expressions of a function.
fn inv(rt: &Runtime) -> bool {
    !rt.call_stack.is_empty()
}
