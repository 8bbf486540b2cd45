// P07: lifetimes.  A lifetime of an argument is the list of the argument and, in turn, the arguments
// it is declared to outlive; `a > b` means that `a` outlives `b`.
use super::lt::{LifetimeError, LifetimeResult, unify};
use super::*;
use crate::verif::*;
use std::cmp::Ordering;

impl Gen for Lifetime {
    fn gen_(g: &mut G) -> Self {
        // Lists that are paths to a few common ends, as arguments produce them.
        fn list(g: &mut G) -> Vec<usize> {
            let mut v = vec![];
            let mut x = 1 + g.below(8);
            loop {
                v.push(x);
                x /= 2;
                if x == 0 || g.chance(6) {
                    return v;
                }
            }
        }
        match g.below(4) {
            0 => if g.chance(4) { Lifetime::Return(vec![]) } else { Lifetime::Return(list(g)) },
            1 => Lifetime::Argument(list(g)),
            2 => Lifetime::Local(g.below(6)),
            _ => Lifetime::Current(g.below(3)),
        }
    }
}
impl Same for Lifetime {
    fn same_(&self, o: &Self) -> bool {
        self == o
    }
}

/// `b` is at the end of `a`.
fn ends(a: &Vec<usize>, b: &Vec<usize>) -> bool {
    if a.len() < b.len() {
        return false;
    }
    let d = a.len() - b.len();
    let mut i = 0;
    while i < b.len() {
        if a[d + i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn by_end(a: &Vec<usize>, b: &Vec<usize>) -> Option<Ordering> {
    if a.len() == b.len() {
        if ends(a, b) { Some(Ordering::Equal) } else { None }
    } else if a.len() > b.len() {
        if ends(a, b) { Some(Ordering::Greater) } else { None }
    } else if ends(b, a) {
        Some(Ordering::Less)
    } else {
        None
    }
}
/// Which of two lifetimes is longer.
fn outlives(a: &Lifetime, b: &Lifetime) -> Option<Ordering> {
    use Lifetime::*;
    match (a, b) {
        // A variable outlives those declared after it.
        (Local(x), Local(y)) => Some(if x < y { Ordering::Greater } else if x > y { Ordering::Less } else { Ordering::Equal }),
        (Local(_), _) => Some(Ordering::Less),
        (_, Local(_)) => Some(Ordering::Greater),
        (Current(x), Current(y)) => if x == y { Some(Ordering::Equal) } else { None },
        (Current(_), _) | (_, Current(_)) => None,
        (Return(_), Argument(_)) | (Argument(_), Return(_)) => None,
        (Argument(x), Argument(y)) => by_end(x, y),
        (Return(x), Return(y)) => {
            if x.is_empty() || y.is_empty() {
                Some(if x.len() == y.len() { Ordering::Equal } else if y.is_empty() { Ordering::Greater } else { Ordering::Less })
            } else {
                by_end(x, y)
            }
        }
    }
}
fn code(o: Option<Ordering>) -> u8 {
    match o {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}
fn nonempty(a: &Lifetime) -> bool {
    match a {
        Lifetime::Argument(x) => !x.is_empty(),
        _ => true,
    }
}
fn listed(a: &Lifetime) -> bool {
    match a {
        Lifetime::Argument(_) => true,
        Lifetime::Return(x) => !x.is_empty(),
        _ => false,
    }
}
pub fn vc_order(a: Lifetime, b: Lifetime) {
    require(!(listed(&a) && listed(&b)) || matches!(a, Lifetime::Argument(_)) != matches!(b, Lifetime::Argument(_)));
    let r = a.partial_cmp(&b);
    let e = outlives(&a, &b);
    match e {
        None => cover("unordered"),
        Some(Ordering::Less) => cover("less"),
        Some(Ordering::Equal) => cover("equal"),
        Some(Ordering::Greater) => cover("greater"),
    }
    ensure(code(r) == code(e), "the order of lifetimes is outliving");
}
fn by_len(a: &Vec<usize>, b: &Vec<usize>) -> Option<Ordering> {
    Some(if a.len() < b.len() { Ordering::Less } else if a.len() == b.len() { Ordering::Equal } else { Ordering::Greater })
}
fn wrap(ret: bool, a: Vec<usize>) -> Lifetime {
    if ret { Lifetime::Return(a) } else { Lifetime::Argument(a) }
}
/// Arguments that are ordered: the shorter list is at the end of the longer one.
pub fn vc_order_sound(ret: bool, a: Vec<usize>, b: Vec<usize>) {
    let (a, b) = if native() { pair(a, b) } else { (a, b) };
    require(!a.is_empty() && !b.is_empty());
    let r = wrap(ret, snap(&a)).partial_cmp(&wrap(ret, snap(&b)));
    let q = skolem();
    match r {
        None => {}
        Some(o) => {
            cover("ordered");
            ensure(code(Some(o)) == code(by_len(&a, &b)), "an argument that outlives another has the longer list");
            if a.len() <= b.len() {
                ensure(q >= a.len() || a[q] == b[b.len() - a.len() + q], "an argument outlives only arguments its own lifetime leads to");
            } else {
                ensure(q >= b.len() || b[q] == a[a.len() - b.len() + q], "an argument outlives only arguments its own lifetime leads to");
            }
        }
    }
}
/// Natively: lists related in the ways arguments are.
fn pair(a: Vec<usize>, b: Vec<usize>) -> (Vec<usize>, Vec<usize>) {
    let mut c = a.clone();
    match any::<u8>() % 4 {
        0 => (a, b),
        1 => { c.extend(b.iter()); (c, b) }
        2 => { c.extend(b.iter()); (b, c) }
        _ => { let mut d = b.clone(); d.push(7); c.push(7); (c, d) }
    }
}
/// Arguments whose list is at the end of another list are ordered.
pub fn vc_order_complete(ret: bool, a: Vec<usize>, b: Vec<usize>) {
    let (a, b) = if native() { pair(a, b) } else { (a, b) };
    require(!a.is_empty() && !b.is_empty());
    let (long, short) = if a.len() >= b.len() { (&a, &b) } else { (&b, &a) };
    require(ends(long, short));
    cover("ends");
    let r = wrap(ret, snap(&a)).partial_cmp(&wrap(ret, snap(&b)));
    ensure(code(r) == code(by_len(&a, &b)), "an argument outlives the arguments its lifetime leads to");
}
/// Whatever a unified lifetime outlives, both lifetimes outlive.
pub fn nc_unify(a: Lifetime, b: Lifetime, t: Lifetime) {
    require(nonempty(&a) && nonempty(&b) && nonempty(&t));
    if let Some(u) = unify(&a, &b) {
        cover("unified");
        if let Some(Ordering::Less) = outlives(&t, &u) {
            cover("outlives");
            ensure(matches!(outlives(&t, &a), Some(Ordering::Less)), "what is outlived by a value of two references is outlived by the first");
            ensure(matches!(outlives(&t, &b), Some(Ordering::Less)), "what is outlived by a value of two references is outlived by the second");
        }
    }
}
//@stub vc_compare dyon::lifetime::node::Node::name stub_name
pub fn stub_name(n: &Node) -> Option<&Arc<String>> {
    if native() {
        return n.name();
    }
    let r: &'static Arc<String> = Box::leak(Box::new(any()));
    Some(r)
}

/// A value may be stored iff it is known to outlive the place (or holds no reference).
//@stub vc_compare <dyon::lifetime::lt::Lifetime as std::cmp::PartialOrd>::partial_cmp stub_order
pub fn stub_order(a: &Lifetime, b: &Lifetime) -> Option<Ordering> {
    if native() {
        return a.partial_cmp(b);
    }
    let r: Option<Ordering> = uf2("order", a, b);
    // From vc_order: what has no order.
    use Lifetime::*;
    if let None = r {
        require(match (a, b) {
            (Local(_), _) | (_, Local(_)) => false,
            (Current(x), Current(y)) => x != y,
            (Return(x), Return(y)) => !x.is_empty() && !y.is_empty(),
            _ => true,
        });
    }
    r
}
fn lists_ok(a: &Lifetime, n: usize) -> bool {
    match a {
        Lifetime::Return(x) => x.is_empty() || (x[0] < n && x[x.len() - 1] < n),
        Lifetime::Argument(x) => !x.is_empty() && x[0] < n && x[x.len() - 1] < n,
        Lifetime::Local(x) | Lifetime::Current(x) => *x < n,
    }
}
pub fn vc_compare(l: Option<Lifetime>, r: Option<Lifetime>, lnone: bool, rnone: bool, nodes: Vec<Node>) {
    let res = |x: &Option<Lifetime>, none: bool| -> LifetimeResult {
        match x {
            Some(x) => Ok(snap(x)),
            None => Err(if none { LifetimeError::None } else { LifetimeError::FailedToUnify }),
        }
    };
    if let Some(x) = &l {
        require(lists_ok(x, nodes.len()));
    }
    if let Some(x) = &r {
        require(lists_ok(x, nodes.len()));
        // The result is a place, never a value (`return` in an expression is the statement).
        require(!matches!(x, Lifetime::Return(v) if v.is_empty()));
    }
    if let (Some(Lifetime::Argument(_)), Some(Lifetime::Argument(v))) = (&l, &r) {
        let p = &nodes[v[0]].parent;
        require(matches!(p, Some(p) if *p < nodes.len()));
    }
    let c = compare_lifetimes(&res(&l, lnone), &res(&r, rnone), &nodes);
    let unknown_l = l.is_none() && !lnone;
    let unknown_r = r.is_none() && !rnone;
    let e = match (&l, &r) {
        (Some(Lifetime::Local(_)), None) => true,
        _ if unknown_l || unknown_r => false,
        (Some(a), Some(b)) => matches!(stub_order(a, b), Some(Ordering::Less)),
        _ => true,
    };
    if e { cover("accepted") } else { cover("rejected") }
    ensure(c.is_ok() == e, "a value may be stored iff it outlives the place");
}

// ---- scripts (native only): what the lifetime checker accepts, and what accepted scripts do
/// Every reference on the stack points at a lower slot, so no value refers to a slot that is gone
/// before it is itself gone.
fn refs_ok(v: &crate::Variable, slot: usize) -> bool {
    use crate::Variable as V;
    match v {
        V::Ref(k) => *k < slot,
        V::Array(a) => a.iter().all(|v| refs_ok(v, slot)),
        V::Object(a) => a.values().all(|v| refs_ok(v, slot)),
        V::Option(Some(v)) | V::Result(Ok(v)) => refs_ok(v, slot),
        _ => true,
    }
}
fn check_refs(rt: &mut crate::Runtime) -> Result<(), String> {
    for i in 0..rt.stack.len() {
        if !refs_ok(&rt.stack[i], i) {
            note(format!("stack: {:?}", rt.stack));
            ensure(false, "a value refers only to values that live longer");
        }
    }
    Ok(())
}
fn below(n: usize) -> usize {
    (any::<u64>() % n as u64) as usize
}
struct V_ {
    name: String,
    lt: Lifetime,
    mutable: bool,
}
/// Known to outlive.
fn longer(x: &Lifetime, y: &Lifetime) -> bool {
    matches!(outlives(x, y), Some(Ordering::Less))
}
pub fn nc_script_life() {
    // Arguments; each may be declared to outlive another one or the result.
    let n = below(5);
    let ret = any::<bool>();
    let mut lts: Vec<Option<usize>> = vec![None; n];
    let mut is_ret = vec![false; n];
    let perm: Vec<usize> = { let mut p: Vec<usize> = (0..n).collect(); for i in 0..n { let j = i + below(n - i); p.swap(i, j); } p };
    for i in 0..n {
        if i > 0 && below(3) > 0 {
            lts[perm[i]] = Some(perm[below(i)]);
        } else if ret && below(3) == 0 {
            is_ret[perm[i]] = true;
        }
    }
    let mut vars: Vec<V_> = vec![];
    let mut ps = vec![];
    for i in 0..n {
        let (mut list, mut k) = (vec![i], i);
        while let Some(x) = lts[k] {
            list.push(x);
            k = x;
        }
        let lt = if is_ret[k] { Lifetime::Return(list) } else { Lifetime::Argument(list) };
        let m = any::<bool>();
        ps.push(format!("{}a{}{}", if m { "mut " } else { "" }, i, if is_ret[i] { ": 'return".into() } else if let Some(j) = lts[i] { format!(": 'a{}", j) } else { String::new() }));
        vars.push(V_ { name: format!("a{}", i), lt, mutable: m });
    }
    // Local variables, some in blocks.
    let (mut pre, mut post) = (String::new(), String::new());
    for i in 0..below(4) {
        if below(3) == 0 {
            pre += ["if true {\n", "for i 2 {\n", "for i [0, 1) {\n"][below(3)].replace("i", &format!("i{}", i)).replacen("i0f", "if", 1).replacen("i1f", "if", 1).replacen("i2f", "if", 1).replacen("i3f", "if", 1).as_str();
            post = format!("check()\n}}\n{}", post);
        }
        pre += &format!("l{} := [[{}], 1]\n", i, i);
        vars.push(V_ { name: format!("l{}", i), lt: Lifetime::Local(i), mutable: true });
    }
    require(!vars.is_empty());
    let (y, z) = (below(vars.len()), below(vars.len()));
    let ms: Vec<usize> = (0..vars.len()).filter(|&i| vars[i].mutable).collect();
    let mut sound_only = false;
    let (stm, ok) = if ret && below(3) == 0 {
        let r = Lifetime::Return(vec![]);
        let v = &vars[y];
        match below(5) {
            0 => (format!("return {}", v.name), longer(&r, &v.lt)),
            1 => (format!("return [{}]", v.name), longer(&r, &v.lt)),
            2 => (format!("return id({})", v.name), longer(&r, &v.lt)),
            3 => (format!("return {{k: [{}]}}", v.name), longer(&r, &v.lt)),
            _ => (format!("return clone({})", v.name), true),
        }
    } else {
        require(!ms.is_empty());
        let x = ms[below(ms.len())];
        let (a, b) = (&vars[x], &vars[y]);
        let (l, n) = (longer(&a.lt, &b.lt), &b.name);
        let place = if any::<bool>() { a.name.clone() } else { format!("{}[0]", a.name) };
        match below(22) {
            0 => (format!("{} = {}", place, n), l),
            1 => (format!("{} = [{}]", place, n), l),
            2 => (format!("{} = [[1], {}]", place, n), l),
            3 => (format!("{} = id({})", place, n), l),
            4 => (format!("{} = first({}, {})", place, n, vars[z].name), l),
            5 => (format!("{} = second({}, {})", place, vars[z].name, n), l),
            19 | 20 => {
                // Only a variable can be referred to.
                let t = [format!("clone({})", n), format!("id({})", n), "[[1], 2]".into(), "1".into(), format!("[{}]", n)][below(5)].clone();
                let e = [format!("push_ref(mut {}, {})", a.name, t), format!("insert_ref(mut {}, 0, {})", a.name, t), format!("put(mut {}, {})", a.name, t), format!("put2({}, mut {})", t, a.name), format!("w := id({})", t), format!("w := second(1, {})", t)][below(6)].clone();
                (e, false)
            }
            14 => {
                // A result made of two arguments.
                let c = &vars[z];
                (format!("{} = both({}, [1], {})", place, n, c.name), l && longer(&a.lt, &c.lt) && longer(&c.lt, &b.lt))
            }
            15 | 16 | 17 | 18 => {
                let block = |e: &str| match below(4) {
                    0 => format!("{{\nq := [[1], 2]\n{}\n}}", e),
                    1 => format!("if true {{\nq := [[1], 2]\n{}\n}} else {{\n[[3], 4]\n}}", e),
                    2 => format!("if false {{\n[[3], 4]\n}} else {{\nq := [[1], 2]\n{}\n}}", e),
                    _ => format!("if false {{\n[[3], 4]\n}} else if true {{\nq := [[1], 2]\n{}\n}} else {{\n[[5], 6]\n}}", e),
                };
                let (e, own) = match below(8) {
                    0 => ("q".to_string(), false),
                    1 => ("[q]".into(), false),
                    2 => ("id(q)".into(), false),
                    3 => (format!("[{}, q]", n), false),
                    4 => ("clone(q)".into(), true),
                    5 => (format!("[{}]", n), l),
                    6 => (format!("id({})", n), l),
                    _ => (n.clone(), l),
                };
                if any::<bool>() && !e.contains(&**n) {
                    (format!("w := {}\ncheck()", block(&e)), own)
                } else {
                    (format!("{} = {}", place, block(&e)), own)
                }
            }
            6 => (format!("push_ref(mut {}, {})", a.name, n), l),
            7 => (format!("insert_ref(mut {}, 0, {})", a.name, n), l),
            8 => (format!("put(mut {}, {})", a.name, n), l),
            9 => (format!("put2({}, mut {})", n, a.name), l),
            10 => (format!("{} = if true {{ clone({}) }} else {{ clone({}) }}", place, n, vars[z].name), true),
            11 => (format!("w := [{}, {}]", n, vars[z].name), true),
            12 => (format!("push(mut {}, {})", a.name, n), true),
            _ => {
                let c = &vars[z];
                let both = l && longer(&a.lt, &c.lt);
                sound_only = outlives(&b.lt, &c.lt).is_none();
                (format!("{} = [{}, {}]", place, n, c.name), both)
            }
        }
    };
    require(!(stm.contains("mut") && ms.is_empty()));
    // The same variable twice in a call that changes it is another matter.
    require(!(stm.contains("(mut") || stm.contains(", mut")) || stm.matches(&*vars[y].name).count() == 1);
    // A call of it, with variables that live as long as declared (or not).
    let m = n + below(3);
    let mut order: Vec<usize> = (0..m).collect();
    let mut call_ok = true;
    if below(4) > 0 {
        // An argument that outlives another is declared before it.
        let mut o: Vec<usize> = perm.iter().rev().cloned().collect();
        o.extend(n..m);
        for (k, &i) in o.iter().enumerate() {
            order[i] = k;
        }
    } else {
        for i in 0..m { let j = i + below(m - i); order.swap(i, j); }
    }
    for i in 0..n {
        if let Some(j) = lts[i] {
            call_ok &= order[i] < order[j];
        }
    }
    let decl: String = (0..m).map(|i| format!("v{} := [[{}], 2]\n", i, i)).collect();
    let args: Vec<String> = (0..n).map(|i| format!("{}v{}", if vars[i].mutable { "mut " } else { "" }, order[i])).collect();
    let void_ret = ret;
    let script = format!("fn id(x: 'return) -> any {{\nreturn x\n}}\nfn first(x: 'return, y) -> any {{\nreturn x\n}}\nfn second(x, y: 'return) -> any {{\nreturn y\n}}\nfn both(x: 'y, z, y: 'return) -> any {{\nreturn [x, y]\n}}\nfn put(mut a, b: 'a) {{\na[0] = b\n}}\nfn put2(b: 'a, mut a) {{\na[1] = b\n}}\nfn f({}){} {{\n{}check()\n{}\ncheck()\n{}{}}}\nfn main() {{\n{}{}f({})\ncheck()\nq := [1]\ncheck()\n}}\n",
        ps.join(", "), if ret { " -> any" } else { "" }, pre, stm, post, if void_ret { "return [1]\n" } else { "" }, decl, if ret { "r := " } else { "" }, args.join(", "));
    let script = script.replace("return clone(", "return clone(");
    note(script.clone());
    let mut md = crate::Module::new();
    md.add_str("check", check_refs, crate::Dfn::nl(vec![], crate::Type::Void));
    let r = crate::load_str("t.dyon", Arc::new(script), &mut md);
    if let Err(e) = &r {
        note(e.to_string());
    }
    let e = ok && call_ok;
    if e { cover("accepted") } else { cover("rejected") }
    if r.is_ok() {
        let mut rt = crate::Runtime::new();
        if rt.run(&Arc::new(md)).is_ok() {
            cover("ran");
        }
    }
    ensure(r.is_err() || e, "a value that is not known to outlive its place is rejected");
    ensure(r.is_ok() || !e || sound_only, "a value that outlives its place is accepted");
}
/// Known finding: a part of a variable is a copy, yet accepted where only a reference to a variable is safe.
pub fn kf_part_argument() {
    let script = "fn id(x: 'return) -> any {\nreturn x\n}\nfn main() -> any {\na := [[1], 2]\nb := id(a[0])\nc := [7]\nreturn clone(b)\n}\n";
    let r = run_fn(script, "main", &[]);
    ensure(r.is_err() || matches!(r, Ok(crate::Variable::Array(ref a)) if a.len() == 1), "a part of a variable passed as an argument that outlives the result");
}
native! {
    vc_order: (Lifetime, Lifetime);
    vc_order_sound: (bool, Vec<usize>, Vec<usize>);
    vc_order_complete: (bool, Vec<usize>, Vec<usize>);
    nc_script_life: ();
    kf_part_argument: ();
    nc_unify: (Lifetime, Lifetime, Lifetime);
}
