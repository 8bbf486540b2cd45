// Shared by the contracts on built-in functions: arguments on the runtime stack.
/// Natively, turns some arguments into references to stack slots (symbolic arguments already range over them).
fn arg(rt: &Runtime, v: Variable) -> Variable {
    let n = rt.stack.len();
    if native() && n > 0 && any::<bool>() {
        return Variable::Ref(any::<usize>() % n);
    }
    v
}
/// Natively, prefers a reference to a slot holding a value of the wanted kind.
fn argk(rt: &mut Runtime, v: Variable, want: Variable) -> Variable {
    if native() {
        if any::<u8>() % 8 == 0 {
            return arg(rt, v);
        }
        rt.stack.push(want);
        let n = rt.stack.len() - 1;
        for _ in 0..any::<u8>() % 2 {
            rt.stack.push(any());
        }
        return Variable::Ref(n);
    }
    v
}
fn argp(rt: &mut Runtime, v: Variable, want: Variable) -> Variable {
    if native() && any::<u8>() % 2 == 0 {
        return want;
    }
    argk(rt, v, want)
}
/// References point at slots below the arguments, and those slots are not references themselves
/// (the invariant of the runtime stack: references are resolved one level when they are pushed).
fn ref_ok(v: &Variable, stack: &Vec<Variable>) -> bool {
    match v {
        Variable::Ref(k) => *k < stack.len() && !matches!(stack[*k], Variable::Ref(_)),
        _ => true,
    }
}
fn deref<'a>(v: &'a Variable, stack: &'a Vec<Variable>) -> &'a Variable {
    match v {
        Variable::Ref(k) => &stack[*k],
        x => x,
    }
}
/// The stack is exactly what it was below the arguments.
fn frame(rt: &Runtime, pre: &Vec<Variable>) -> bool {
    if native() {
        return same(&rt.stack, pre);
    }
    let p = skolem();
    rt.stack.len() == pre.len() && (p >= pre.len() || same(&rt.stack[p], &pre[p]))
}
/// The stack is what it was below the arguments except at slot `k`.
fn frame_except(rt: &Runtime, pre: &Vec<Variable>, k: usize) -> bool {
    if native() {
        return rt.stack.len() == pre.len() && (0..pre.len()).all(|i| i == k || same(&rt.stack[i], &pre[i]));
    }
    let p = skolem();
    rt.stack.len() == pre.len() && (p >= pre.len() || p == k || same(&rt.stack[p], &pre[p]))
}
/// Error texts are not specified.
//@stub * dyon::runtime::Runtime::expected_arg stub_expected_arg
pub fn stub_expected_arg(rt: &Runtime, arg: usize, var: &Variable, ty: &str) -> String {
    if native() {
        return rt.expected_arg(arg, var, ty);
    }
    any()
}
//@stub * dyon::runtime::Runtime::expected stub_expected
pub fn stub_expected(rt: &Runtime, var: &Variable, ty: &str) -> String {
    if native() {
        return rt.expected(var, ty);
    }
    any()
}
/// Natively: what a built-in function gives for the arguments, and the arguments afterwards.
#[allow(dead_code)]
fn direct<T: crate::embed::PushVariable>(f: fn(&mut Runtime) -> Result<T, String>, args: &[Variable]) -> Result<(Variable, Vec<Variable>), String> {
    let mut rt = Runtime::new();
    rt.stack.extend(args.iter().cloned());
    for i in 0..args.len() {
        rt.stack.push(Variable::Ref(i));
    }
    let r = f(&mut rt)?.push_var();
    Ok((r, rt.stack))
}
/// Natively: a script that applies `name` to the arguments gives what the built-in function gives.
#[allow(dead_code)]
fn script_same<T: crate::embed::PushVariable>(name: &str, f: fn(&mut Runtime) -> Result<T, String>, args: &[Variable]) {
    let ps: Vec<String> = (0..args.len()).map(|i| format!("a{}", i)).collect();
    let got = run_body(&format!("r := {}({})\nreturn clone(r)", name, ps.join(", ")), args);
    let want = direct(f, args).map(|x| x.0.deep_clone(args));
    if !(match (&want, &got) { (Ok(x), Ok(y)) => same(x, y), (Err(_), Err(_)) => true, _ => false }) {
        note(format!("{}{:?}: the function gives {:?}, the script gives {:?}", name, args, want, got));
        ensure(false, "a call in a script is the built-in function of that name");
    }
}
/// Natively: the same for a function that changes its first argument.
#[allow(dead_code)]
fn script_same_mut(name: &str, rest: usize, f: fn(&mut Runtime) -> Result<Option<Variable>, String>, args: &[Variable]) {
    let ps: Vec<String> = (1..=rest).map(|i| format!(", a{}", i)).collect();
    let call = format!("{}(mut a{})", name, ps.join(""));
    let want = direct_mut(f, args);
    let void = matches!(want, Ok((None, _)));
    let got = run_body(&format!("a := clone(a0)\n{}{}\nreturn [{}clone(a)]", if void || want.is_err() { "" } else { "r := " }, call, if void || want.is_err() { "" } else { "clone(r), " }), args);
    let want = want.map(|(r, s)| { let mut v: Vec<Variable> = r.map(|r| r.deep_clone(&s)).into_iter().collect(); v.push(s[0].deep_clone(&s)); v });
    if !(match (&want, &got) { (Ok(x), Ok(Variable::Array(y))) => same(x, &**y), (Err(_), Err(_)) => true, _ => false }) {
        note(format!("{}{:?}: the function gives {:?}, the script gives {:?}", name, args, want, got));
        ensure(false, "a mutating call in a script is the built-in function of that name");
    }
}
#[allow(dead_code)]
fn direct_mut(f: fn(&mut Runtime) -> Result<Option<Variable>, String>, args: &[Variable]) -> Result<(Option<Variable>, Vec<Variable>), String> {
    let mut rt = Runtime::new();
    rt.stack.extend(args.iter().cloned());
    for i in 0..args.len() {
        rt.stack.push(Variable::Ref(i));
    }
    let r = f(&mut rt)?;
    Ok((r, rt.stack))
}
