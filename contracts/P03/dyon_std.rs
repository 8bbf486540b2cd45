// P03: collection built-ins.
use super::*;
use crate::verif::*;
//@include rt.inc.rs

fn nums() -> Variable {
    if native() {
        return Variable::Array(Arc::new(any::<Vec<f64>>().into_iter().map(Variable::f64).collect()));
    }
    Variable::Return
}
type R = Result<Variable, String>;

/// The array a reference argument denotes.
fn arr_of<'a>(v: &'a Variable, stack: &'a Vec<Variable>) -> Option<(usize, &'a Vec<Variable>)> {
    match v {
        Variable::Ref(k) => match &stack[*k] {
            Variable::Array(a) => Some((*k, &**a)),
            _ => None,
        },
        _ => None,
    }
}
fn cur<'a>(rt: &'a Runtime, k: usize) -> &'a Vec<Variable> {
    match &rt.stack[k] {
        Variable::Array(a) => &**a,
        _ => {
            ensure(false, "the referenced slot still holds an array");
            require(false);
            loop {}
        }
    }
}
/// `new` is `old` with `item` inserted at `at`.
fn inserted(new: &Vec<Variable>, old: &Vec<Variable>, at: usize, item: &Variable) -> bool {
    if new.len() != old.len() + 1 || !same(&new[at], item) {
        return false;
    }
    if native() {
        return (0..old.len()).all(|q| same(&new[if q < at { q } else { q + 1 }], &old[q]));
    }
    let q = skolem();
    q >= old.len() || if q < at { same(&new[q], &old[q]) } else { same(&new[q + 1], &old[q]) }
}

//@stub vc_push,vc_insert dyon::Variable::deep_clone stub_deep_clone
//@assume deep_clone of an argument is a function of the argument (its references denote slots that do not change while the arguments are popped); deep_clone itself is under contract in P10
pub fn stub_deep_clone(v: &Variable, stack: &[Variable]) -> Variable {
    if native() {
        return v.deep_clone(stack);
    }
    uf1("deep_clone", v)
}
fn removed(new: &Vec<Variable>, old: &Vec<Variable>, at: usize) -> bool {
    if new.len() + 1 != old.len() {
        return false;
    }
    if native() {
        return (0..new.len()).all(|q| same(&new[q], &old[if q < at { q } else { q + 1 }]));
    }
    let q = skolem();
    q >= new.len() || if q < at { same(&new[q], &old[q]) } else { same(&new[q], &old[q + 1]) }
}
fn is_f64(v: &Variable) -> Option<f64> {
    match v {
        Variable::F64(x, _) => Some(*x),
        _ => None,
    }
}

pub fn vc_push_ref(mut rt: Runtime, v: Variable, item: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&item));
    let r = push_ref(&mut rt);
    let item = snap(&item);
    match arr_of(&v, &pre) {
        Some((k, old)) => {
            cover("ok");
            ensure(r.is_ok(), "push_ref of an array succeeds");
            ensure(frame_except(&rt, &pre, k), "push_ref changes no other variable");
            ensure(inserted(cur(&rt, k), old, old.len(), &item), "push_ref appends the item");
        }
        None => {
            cover("err");
            ensure(r.is_err(), "push_ref of a non-array is an error");
            ensure(frame(&rt, &pre), "a failed push_ref changes nothing");
        }
    }
}
pub fn vc_push(mut rt: Runtime, v: Variable, item: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    require(ref_ok(&v, &rt.stack));
    let item = arg(&rt, item);
    require(ref_ok(&item, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&item));
    let r = push(&mut rt);
    let item = stub_deep_clone(deref(&item, &pre), &pre);
    match arr_of(&v, &pre) {
        Some((k, old)) => {
            cover("ok");
            ensure(r.is_ok(), "push of an array succeeds");
            ensure(frame_except(&rt, &pre, k), "push changes no other variable");
            ensure(inserted(cur(&rt, k), old, old.len(), &item), "push appends the item");
        }
        None => {
            cover("err");
            ensure(r.is_err(), "push of a non-array is an error");
            ensure(frame(&rt, &pre), "a failed push changes nothing");
        }
    }
}
pub fn vc_insert_ref(mut rt: Runtime, v: Variable, at: Variable, item: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    let at = argp(&mut rt, at, Variable::f64(any()));
    require(ref_ok(&v, &rt.stack) && ref_ok(&at, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&at));
    rt.stack.push(snap(&item));
    let r = insert_ref(&mut rt);
    let item = snap(&item);
    match (arr_of(&v, &pre), is_f64(deref(&at, &pre))) {
        (Some((k, old)), Some(i)) if i as usize <= old.len() => {
            cover("ok");
            ensure(r.is_ok(), "insert_ref within bounds succeeds");
            ensure(frame_except(&rt, &pre, k), "insert_ref changes no other variable");
            ensure(inserted(cur(&rt, k), old, i as usize, &item), "insert_ref inserts the item at the index and keeps the others in order");
        }
        (_, i) => {
            cover("err");
            ensure(r.is_err(), "insert_ref with a bad array or index is an error");
            ensure(i.is_none() || frame(&rt, &pre), "a failed insert_ref changes nothing");
        }
    }
}
pub fn vc_insert(mut rt: Runtime, v: Variable, at: Variable, item: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    let at = argp(&mut rt, at, Variable::f64(any()));
    require(ref_ok(&v, &rt.stack) && ref_ok(&at, &rt.stack));
    let item = arg(&rt, item);
    require(ref_ok(&item, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&at));
    rt.stack.push(snap(&item));
    let r = insert(&mut rt);
    let item = stub_deep_clone(deref(&item, &pre), &pre);
    match (arr_of(&v, &pre), is_f64(deref(&at, &pre))) {
        (Some((k, old)), Some(i)) if i as usize <= old.len() => {
            cover("ok");
            ensure(r.is_ok(), "insert within bounds succeeds");
            ensure(frame_except(&rt, &pre, k), "insert changes no other variable");
            ensure(inserted(cur(&rt, k), old, i as usize, &item), "insert inserts the item at the index and keeps the others in order");
        }
        (_, i) => {
            cover("err");
            ensure(r.is_err(), "insert with a bad array or index is an error");
            ensure(i.is_none() || frame(&rt, &pre), "a failed insert changes nothing");
        }
    }
}
pub fn vc_pop(mut rt: Runtime, v: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = pop(&mut rt);
    match arr_of(&v, &pre) {
        Some((k, old)) if old.len() > 0 => {
            cover("ok");
            ensure(match &r { Ok(x) => same(x, &old[old.len() - 1]), _ => false }, "pop returns the last item");
            ensure(frame_except(&rt, &pre, k), "pop changes no other variable");
            ensure(removed(cur(&rt, k), old, old.len() - 1), "pop removes the last item only");
        }
        _ => {
            cover("err");
            ensure(r.is_err(), "pop of an empty array or a non-array is an error");
            ensure(frame(&rt, &pre), "a failed pop changes nothing");
        }
    }
}
pub fn vc_remove(mut rt: Runtime, v: Variable, at: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    let at = argp(&mut rt, at, Variable::f64(any()));
    require(ref_ok(&v, &rt.stack) && ref_ok(&at, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&at));
    let r = remove(&mut rt);
    match (arr_of(&v, &pre), is_f64(deref(&at, &pre))) {
        (Some((k, old)), Some(i)) if (i as usize) < old.len() => {
            cover("ok");
            ensure(match &r { Ok(x) => same(x, &old[i as usize]), _ => false }, "remove returns the item at the index");
            ensure(frame_except(&rt, &pre, k), "remove changes no other variable");
            ensure(removed(cur(&rt, k), old, i as usize), "remove drops that item only and keeps the others in order");
        }
        (_, i) => {
            cover("err");
            ensure(r.is_err(), "remove with a bad array or index is an error");
            ensure(i.is_none() || frame(&rt, &pre), "a failed remove changes nothing");
        }
    }
}
pub fn vc_reverse(mut rt: Runtime, v: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = reverse(&mut rt);
    match arr_of(&v, &pre) {
        Some((k, old)) => {
            cover("ok");
            ensure(r.is_ok(), "reverse of an array succeeds");
            ensure(frame_except(&rt, &pre, k), "reverse changes no other variable");
            let new = cur(&rt, k);
            ensure(new.len() == old.len(), "reverse keeps the length");
            let q = skolem();
            if q < old.len() {
                ensure(same(&new[q], &old[old.len() - 1 - q]), "reverse mirrors the items");
            }
        }
        None => {
            cover("err");
            ensure(r.is_err(), "reverse of a non-array is an error");
            ensure(frame(&rt, &pre), "a failed reverse changes nothing");
        }
    }
}
pub fn vc_clear(mut rt: Runtime, v: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = clear(&mut rt);
    match arr_of(&v, &pre) {
        Some((k, _)) => {
            cover("ok");
            ensure(r.is_ok(), "clear of an array succeeds");
            ensure(frame_except(&rt, &pre, k), "clear changes no other variable");
            ensure(cur(&rt, k).len() == 0, "clear leaves the array empty");
        }
        None => {
            cover("err");
            ensure(r.is_err(), "clear of a non-array is an error");
            ensure(frame(&rt, &pre), "a failed clear changes nothing");
        }
    }
}
pub fn vc_swap(mut rt: Runtime, v: Variable, i: Variable, j: Variable) {
    let v = argk(&mut rt, v, Variable::Array(any()));
    let i = argp(&mut rt, i, Variable::f64(any()));
    let j = argp(&mut rt, j, Variable::f64(any()));
    require(ref_ok(&v, &rt.stack) && ref_ok(&i, &rt.stack) && ref_ok(&j, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&i));
    rt.stack.push(snap(&j));
    let r = swap(&mut rt);
    match (arr_of(&v, &pre), is_f64(deref(&i, &pre)), is_f64(deref(&j, &pre))) {
        (Some((k, old)), Some(i), Some(j)) if (i as usize) < old.len() && (j as usize) < old.len() => {
            cover("ok");
            let (i, j) = (i as usize, j as usize);
            ensure(r.is_ok(), "swap within bounds succeeds");
            ensure(frame_except(&rt, &pre, k), "swap changes no other variable");
            let new = cur(&rt, k);
            ensure(new.len() == old.len(), "swap keeps the length");
            ensure(same(&new[i], &old[j]) && same(&new[j], &old[i]), "swap exchanges the two items");
            let q = skolem();
            if q < old.len() && q != i && q != j {
                ensure(same(&new[q], &old[q]), "swap moves no other item");
            }
        }
        (_, i, j) => {
            cover("err");
            ensure(r.is_err(), "swap with a bad array or index is an error");
            ensure(i.is_none() || j.is_none() || frame(&rt, &pre), "a failed swap changes nothing");
        }
    }
}
pub fn vc_len(a: Variable) {
    let r = len(&a);
    match &a {
        Variable::Array(x) => { cover("ok"); ensure(matches!(&r, Ok(Variable::F64(n, None)) if same(n, &(x.len() as f64))), "len is the number of items") }
        _ => { cover("err"); ensure(r.is_err(), "len of a non-array is an error") }
    }
}
fn item<'a>(a: &'a Vec<Variable>, i: usize, stack: &'a Vec<Variable>) -> Option<f64> {
    is_f64(deref(&a[i], stack))
}
fn refs_ok(a: &Vec<Variable>, stack: &Vec<Variable>) -> bool {
    let mut i = 0;
    while i < a.len() {
        if !ref_ok(&a[i], stack) {
            return false;
        }
        i += 1;
    }
    true
}
fn extremum(rt: &Runtime, r: &R, arr: &Vec<Variable>, greatest: bool) {
    let m = match r {
        Ok(Variable::F64(m, None)) => *m,
        _ => {
            ensure(false, "min and max of an array give a number");
            return;
        }
    };
    let q = skolem();
    if q < arr.len() {
        if let Some(x) = item(arr, q, &rt.stack) {
            ensure(if greatest { !(x > m) } else { !(x < m) }, "no item is beyond the extremum");
            ensure(x.is_nan() || !m.is_nan(), "the extremum is a number if some item is");
        }
    }
    if native() {
        ensure(m.is_nan() || (0..arr.len()).any(|i| item(arr, i, &rt.stack) == Some(m)), "the extremum is one of the items");
    }
}
pub fn vc_min(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, nums());
    require(ref_ok(&v, &rt.stack));
    if let Variable::Array(a) = deref(&v, &rt.stack) {
        require(refs_ok(a, &rt.stack));
    }
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = min(&mut rt);
    match deref(&v, &pre) {
        Variable::Array(a) => { cover("ok"); extremum(&rt, &r, a, false) }
        _ => { cover("err"); ensure(r.is_err(), "min of a non-array is an error") }
    }
    ensure(frame(&rt, &pre), "min changes nothing");
}
pub fn vc_max(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, nums());
    require(ref_ok(&v, &rt.stack));
    if let Variable::Array(a) = deref(&v, &rt.stack) {
        require(refs_ok(a, &rt.stack));
    }
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = max(&mut rt);
    match deref(&v, &pre) {
        Variable::Array(a) => { cover("ok"); extremum(&rt, &r, a, true) }
        _ => { cover("err"); ensure(r.is_err(), "max of a non-array is an error") }
    }
    ensure(frame(&rt, &pre), "max changes nothing");
}
pub fn vc_has(mut rt: Runtime, v: Variable, k: Variable) {
    let v = argp(&mut rt, v, Variable::Object(any()));
    let k = argp(&mut rt, k, Variable::Str(Arc::new(if native() && any::<bool>() { "a".into() } else { any() })));
    require(ref_ok(&v, &rt.stack) && ref_ok(&k, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    rt.stack.push(snap(&k));
    let r = has(&mut rt);
    match (deref(&v, &pre), deref(&k, &pre)) {
        (Variable::Object(o), Variable::Str(s)) => {
            cover("ok");
            ensure(matches!(&r, Ok(Variable::Bool(b, None)) if *b == o.get(s).is_some()), "has is true iff the object has the key");
            ensure(frame(&rt, &pre), "has changes nothing");
        }
        _ => { cover("err"); ensure(r.is_err(), "has of a non-object or with a non-str key is an error") }
    }
}
pub fn vc_keys(mut rt: Runtime, v: Variable) {
    let v = argp(&mut rt, v, Variable::Object(any()));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = keys(&mut rt);
    match deref(&v, &pre) {
        Variable::Object(o) => {
            cover("ok");
            match &r {
                Ok(Variable::Array(a)) => {
                    ensure(a.len() == o.len(), "keys lists as many keys as the object has");
                    let q = skolem();
                    if q < a.len() {
                        ensure(match &a[q] { Variable::Str(k) => o.contains_key(k), _ => false }, "keys lists keys of the object");
                    }
                    if native() {
                        for k in o.keys() {
                            ensure(a.iter().any(|x| matches!(x, Variable::Str(s) if s == k)), "keys lists every key");
                        }
                    }
                }
                _ => ensure(false, "keys gives an array"),
            }
        }
        _ => { cover("err"); ensure(r.is_err(), "keys of a non-object is an error") }
    }
    ensure(frame(&rt, &pre), "keys changes nothing");
}
pub fn nc_chars(mut rt: Runtime, s: String) {
    let v = argp(&mut rt, Variable::Return, Variable::Str(Arc::new(s.clone())));
    require(ref_ok(&v, &rt.stack));
    let pre = snap(&rt.stack);
    rt.stack.push(snap(&v));
    let r = chars(&mut rt);
    match deref(&v, &pre) {
        Variable::Str(s) => match &r {
            Ok(Variable::Array(a)) => {
                let mut t = String::new();
                for x in a.iter() {
                    match x {
                        Variable::Str(c) => {
                            ensure(c.chars().count() == 1, "each item of chars is one character");
                            t.push_str(c)
                        }
                        _ => ensure(false, "chars gives strings"),
                    }
                }
                ensure(t == **s, "the items of chars concatenate to the string");
            }
            _ => ensure(false, "chars gives an array"),
        },
        _ => ensure(r.is_err(), "chars of a non-str is an error"),
    }
    ensure(frame(&rt, &pre), "chars changes nothing");
}

fn warr() -> Variable {
    Variable::Array(any())
}
fn wix() -> Variable {
    if any::<u8>() % 8 == 0 { any() } else { Variable::f64((any::<u8>() % 5) as f64) }
}
/// Scripts reach the collection functions by their documented names and argument order.
pub fn nc_script_coll(x: Variable, y: Variable) {
    require(!matches!(x, Variable::Return) && !matches!(y, Variable::Return));
    let a = if any::<u8>() % 6 == 0 { x.clone() } else { warr() };
    require(!matches!(a, Variable::Return));
    let i = wix();
    require(!matches!(i, Variable::Return));
    script_same_mut("push", 1, |rt| push(rt).map(|_| None), &[a.clone(), x.clone()]);
    script_same_mut("insert", 2, |rt| insert(rt).map(|_| None), &[a.clone(), i.clone(), x.clone()]);
    script_same_mut("pop", 0, |rt| pop(rt).map(Some), &[a.clone()]);
    script_same_mut("remove", 1, |rt| remove(rt).map(Some), &[a.clone(), i.clone()]);
    script_same_mut("reverse", 0, |rt| reverse(rt).map(|_| None), &[a.clone()]);
    script_same_mut("clear", 0, |rt| clear(rt).map(|_| None), &[a.clone()]);
    script_same_mut("swap", 2, |rt| swap(rt).map(|_| None), &[a.clone(), i.clone(), wix()]);
    let nums = Variable::Array(Arc::new((0..any::<u8>() % 5).map(|_| Variable::f64(any())).collect()));
    script_same("min", min, &[nums.clone()]);
    script_same("max", max, &[nums.clone()]);
    script_same("len", |rt| { let v = rt.stack.pop().unwrap(); len(rt.get(&v)) }, &[a.clone()]);
    script_same("has", has, &[Variable::Object(any()), Variable::Str(Arc::new(["a", "b", "zz"][any::<usize>() % 3].into()))]);
    script_same("keys", keys, &[Variable::Object(Arc::new(vec![(Arc::new("a".to_string()), y.clone())].into_iter().collect()))]);
    script_same("chars", |rt| chars(rt).map(|x| x), &[Variable::Str(any())]);
}

native! {
    nc_script_coll: (Variable, Variable);
    vc_push_ref: (Runtime, Variable, Variable); vc_push: (Runtime, Variable, Variable);
    vc_insert_ref: (Runtime, Variable, Variable, Variable); vc_insert: (Runtime, Variable, Variable, Variable);
    vc_pop: (Runtime, Variable); vc_remove: (Runtime, Variable, Variable); vc_reverse: (Runtime, Variable);
    vc_clear: (Runtime, Variable); vc_swap: (Runtime, Variable, Variable, Variable); vc_len: (Variable);
    vc_min: (Runtime, Variable); vc_max: (Runtime, Variable); vc_has: (Runtime, Variable, Variable); vc_keys: (Runtime, Variable);
    nc_chars: (Runtime, String);
}
