// Specification vocabulary shared by all contracts.  `mirver` gives these functions their logical
// meaning; the bodies below are the executable meaning used when a contract is run natively (to
// replay counterexamples and for the bounded companion search).
use crate::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::Arc;

/// Proof obligation.
#[inline(never)]
pub fn ensure(c: bool, label: &'static str) {
    if !c {
        std::panic::panic_any(EnsureFailed(label))
    }
}
/// Precondition of the contract.
#[inline(never)]
pub fn require(c: bool) {
    if !c {
        std::panic::panic_any(Skip)
    }
}
/// Marks a point that must be reachable (vacuity guard).
#[inline(never)]
pub fn cover(label: &'static str) {
    COVERS.with(|g| {
        g.borrow_mut().insert(label);
    })
}
/// Arbitrary value.
#[inline(never)]
pub fn any<T: Gen>() -> T {
    let mut g = G_.with(|g| std::mem::replace(&mut *g.borrow_mut(), G::new(0)));
    let r = T::gen_(&mut g);
    G_.with(|x| *x.borrow_mut() = g);
    r
}
/// Natively: a random number below `n`.
pub fn below(n: usize) -> usize {
    G_.with(|g| g.borrow_mut().below(n))
}
/// Arbitrary but fixed index.
#[inline(never)]
pub fn skolem() -> usize {
    any::<u8>() as usize % 6
}
/// Structural identity (floats by bits).
#[inline(never)]
pub fn same<T: Same>(a: &T, b: &T) -> bool {
    a.same_(b)
}
/// A copy of a value for use in postconditions.
#[inline(never)]
pub fn snap<T: Clone>(a: &T) -> T {
    a.clone()
}
/// Replaces a value by an arbitrary one.
#[inline(never)]
pub fn havoc<T: Gen>(a: &mut T) {
    *a = any();
}

/// False in the logic; true when a contract runs natively.  Lets a stub defer to the real function.
#[inline(never)]
pub fn native() -> bool {
    true
}
/// Ghost state, shared by a contract and the stubs it uses.
#[inline(never)]
pub fn gset<T>(_name: &'static str, _v: T) {
    unimplemented!()
}
#[inline(never)]
pub fn gget<T>(_name: &'static str) -> T {
    unimplemented!()
}
/// Uninterpreted (deterministic, otherwise unknown) function of its arguments.
#[inline(never)]
pub fn uf1<A, T>(_name: &'static str, _a: &A) -> T {
    unimplemented!()
}
#[inline(never)]
pub fn uf2<A, B, T>(_name: &'static str, _a: &A, _b: &B) -> T {
    unimplemented!()
}
#[inline(never)]
pub fn uf3<A, B, C, T>(_name: &'static str, _a: &A, _b: &B, _c: &C) -> T {
    unimplemented!()
}

/// Definitions of `Vec::from_iter` and `Vec::extend` used in place of std's specialised ones.
pub fn model_collect<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn model_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}

pub fn model_ends_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() < b.len() {
        return false;
    }
    let d = a.len() - b.len();
    let mut i = 0;
    while i < b.len() {
        if a[d + i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn model_starts_with<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a.len() < b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn model_contains<T: PartialEq>(a: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < a.len() {
        if a[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}

/// Definitions of the searching methods of slice iterators.
pub fn model_any<T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'_, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn model_all<T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'_, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn model_position<T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'_, T>, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn model_rposition<T, F: FnMut(&T) -> bool>(it: &mut std::slice::Iter<'_, T>, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) {
            return Some(i);
        }
    }
    None
}
pub fn model_or_insert<'a, K, V>(e: std::collections::hash_map::Entry<'a, K, V>, v: V) -> &'a mut V {
    match e {
        std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
        std::collections::hash_map::Entry::Vacant(x) => x.insert(v),
    }
}
pub fn model_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: std::collections::hash_map::Entry<'a, K, V>, f: F) -> &'a mut V {
    match e {
        std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
        std::collections::hash_map::Entry::Vacant(x) => x.insert(f()),
    }
}
pub fn model_or_default<'a, K, V: Default>(e: std::collections::hash_map::Entry<'a, K, V>) -> &'a mut V {
    match e {
        std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
        std::collections::hash_map::Entry::Vacant(x) => x.insert(Default::default()),
    }
}
pub fn model_find<'a, T, F: FnMut(&&T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> Option<&'a T> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

thread_local! { static MODS: RefCell<HashMap<String, Result<Arc<Module>, String>>> = RefCell::new(HashMap::new()); }
/// Natively: the module a script loads to (with the standard library), or the load error.
pub fn load_src(src: &str) -> Result<Arc<Module>, String> {
    if let Some(m) = MODS.with(|x| x.borrow().get(src).cloned()) {
        return m;
    }
    let mut m = Module::new();
    let r = load_str("script.dyon", Arc::new(src.to_string()), &mut m).map(|_| Arc::new(m));
    MODS.with(|x| {
        let mut x = x.borrow_mut();
        if x.len() > 500 {
            x.clear();
        }
        x.insert(src.to_string(), r.clone());
    });
    r
}
/// Natively: loads a script and calls `name` (as mangled by dyon, e.g. `f(mut)`) with the arguments.
pub fn run_fn(src: &str, name: &str, args: &[Variable]) -> Result<Variable, String> {
    let m = load_src(src)?;
    let mut rt = Runtime::new();
    let r = rt.call_str_ret(name, args, &m)?;
    if !rt.stack.is_empty() || !rt.local_stack.is_empty() || !rt.call_stack.is_empty() {
        std::panic::panic_any(EnsureFailed("a call leaves the runtime's stacks as they were"));
    }
    Ok(r)
}
/// Natively: runs `fn main(a0, a1, ..) -> any { BODY }` on the arguments.
pub fn run_body(body: &str, args: &[Variable]) -> Result<Variable, String> {
    let ps: Vec<String> = (0..args.len()).map(|i| format!("a{}", i)).collect();
    let src = format!("fn main({}) -> any {{\n{}\n}}\n", ps.join(", "), body);
    note(src.clone());
    let r = run_fn(&src, "main", args);
    if let Err(e) = &r {
        note(format!("error: {}", e));
    }
    r
}
/// Adds a line to the recorded inputs of this run.
pub fn note(s: String) {
    G_.with(|g| g.borrow_mut().note(s))
}

pub struct EnsureFailed(pub &'static str);
pub struct Skip;

pub struct G {
    pub s: u64,
    pub log: Vec<String>,
    pub depth: u32,
}
thread_local! { pub static G_: RefCell<G> = RefCell::new(G::new(1)); }

impl G {
    pub fn new(seed: u64) -> G {
        G { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, log: vec![], depth: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.below(xs.len());
        xs[i].clone()
    }
    pub fn arg<T: Gen + Debug>(&mut self) -> T {
        let x = T::gen_(self);
        let mut s = format!("{:?}", x);
        if s.len() > 4000 {
            s.truncate(4000)
        }
        self.note(s);
        x
    }
    pub fn note(&mut self, s: String) {
        if SHOW.load(std::sync::atomic::Ordering::Relaxed) {
            println!("input: {}", s);
        }
        self.log.push(s)
    }
}

pub trait Gen {
    fn gen_(g: &mut G) -> Self;
}
pub trait Same {
    fn same_(&self, o: &Self) -> bool;
}

macro_rules! same_dbg { ($($t:ty),*) => { $(impl Same for $t { fn same_(&self, o: &$t) -> bool { format!("{:?}", self) == format!("{:?}", o) } })* } }
same_dbg!(Type, String, Lt, Dfn, ast::AssignOp, Flow_);
macro_rules! same_eq { ($($t:ty),*) => { $(impl Same for $t { fn same_(&self, o: &$t) -> bool { self == o } })* } }
same_eq!(bool, u8, u32, u64, i64, isize, usize, char, ());
impl Same for f64 {
    fn same_(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
}
impl Same for f32 {
    fn same_(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan())
    }
}
pub use runtime::Flow as Flow_;
impl<T: Same> Same for Option<T> {
    fn same_(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same_(b),
            _ => false,
        }
    }
}
impl<T: Same, E: Same> Same for Result<T, E> {
    fn same_(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same_(b),
            (Err(a), Err(b)) => a.same_(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Vec<T> {
    fn same_(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same_(b))
    }
}
impl<T: Same, const N: usize> Same for [T; N] {
    fn same_(&self, o: &Self) -> bool {
        self.iter().zip(o.iter()).all(|(a, b)| a.same_(b))
    }
}
impl<T: Same + ?Sized> Same for Box<T> {
    fn same_(&self, o: &Self) -> bool {
        (**self).same_(&**o)
    }
}
impl<T: Same + ?Sized> Same for Arc<T> {
    fn same_(&self, o: &Self) -> bool {
        (**self).same_(&**o)
    }
}
impl<A: Same, B: Same> Same for (A, B) {
    fn same_(&self, o: &Self) -> bool {
        self.0.same_(&o.0) && self.1.same_(&o.1)
    }
}
impl<A: Same, B: Same, C: Same> Same for (A, B, C) {
    fn same_(&self, o: &Self) -> bool {
        self.0.same_(&o.0) && self.1.same_(&o.1) && self.2.same_(&o.2)
    }
}
impl<T: Same> Same for HashMap<Arc<String>, T> {
    fn same_(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map(|w| v.same_(w)).unwrap_or(false))
    }
}
impl Same for crate::Error {
    fn same_(&self, o: &Self) -> bool {
        self.message.same_(&o.message) && self.trace.same_(&o.trace)
    }
}
impl Same for Link {
    fn same_(&self, o: &Self) -> bool {
        link_items(self).same_(&link_items(o))
    }
}
/// The items of a link, front to back.
pub fn link_items(l: &Link) -> Vec<Variable> {
    let mut out = vec![];
    let mut l = l.clone();
    while let Some(h) = l.head() {
        out.push(*h);
        l = l.tail();
    }
    out
}
impl Same for Variable {
    fn same_(&self, o: &Self) -> bool {
        use Variable as V;
        match (self, o) {
            (V::Ref(a), V::Ref(b)) => a == b,
            (V::Return, V::Return) => true,
            (V::Bool(a, s), V::Bool(b, t)) => a == b && s.same_(t),
            (V::F64(a, s), V::F64(b, t)) => a.same_(b) && s.same_(t),
            (V::Vec4(a), V::Vec4(b)) => a.same_(b),
            (V::Mat4(a), V::Mat4(b)) => a.same_(b),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Array(a), V::Array(b)) => a.same_(b),
            (V::Object(a), V::Object(b)) => a.same_(b),
            (V::Link(a), V::Link(b)) => a.same_(b),
            (V::Option(a), V::Option(b)) => a.same_(b),
            (V::Result(a), V::Result(b)) => a.same_(b),
            (V::UnsafeRef(a), V::UnsafeRef(b)) => a.0 == b.0,
            (V::RustObject(a), V::RustObject(b)) => Arc::ptr_eq(a, b),
            (V::Closure(a, _), V::Closure(b, _)) => Arc::ptr_eq(a, b),
            (V::In(a), V::In(b)) => Arc::ptr_eq(a, b),
            (V::Thread(_), V::Thread(_)) => true,
            _ => false,
        }
    }
}

macro_rules! gen_ints { ($($t:ty),*) => { $(impl Gen for $t { fn gen_(g: &mut G) -> $t { match g.below(4) { 0 => g.below(3) as $t, 1 => g.below(10) as $t, 2 => (g.next() >> g.below(64)) as $t, _ => g.below(200) as $t } } })* } }
gen_ints!(u8, u32, u64, usize, i64, isize, i32);
impl Gen for bool {
    fn gen_(g: &mut G) -> bool {
        g.chance(2)
    }
}
impl Gen for () {
    fn gen_(_: &mut G) {}
}
impl Gen for f64 {
    fn gen_(g: &mut G) -> f64 {
        match g.below(12) {
            0 => g.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.5, -0.5]),
            1 => g.pick(&[1e300, -1e300, 1e-300, 4503599627370496.5, 9007199254740993.0, 1.8446744073709552e19, f64::MIN_POSITIVE, f64::EPSILON]),
            2 => f64::from_bits(g.next()),
            3 => (g.below(2001) as f64 - 1000.0) / 8.0,
            4 | 5 => g.below(4) as f64,
            6 => -(g.below(5) as f64),
            _ => g.below(21) as f64 - 10.0,
        }
    }
}
impl Gen for f32 {
    fn gen_(g: &mut G) -> f32 {
        match g.below(8) {
            0 => g.pick(&[0.0, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.5]),
            1 => f32::from_bits(g.next() as u32),
            _ => (g.below(201) as f32 - 100.0) / 4.0,
        }
    }
}
impl Gen for char {
    fn gen_(g: &mut G) -> char {
        match g.below(6) {
            0 => g.pick(&['\\', '"', '\n', '\t', '\r', ' ', ',', '}', ']', ':', '#', '\u{8}', '\u{c}', '\0', '\'']),
            1 => g.pick(&['é', '\u{7f}', 'λ', '→', '\u{10ffff}', '😀', '\u{300}']),
            _ => (b'a' + g.below(26) as u8) as char,
        }
    }
}
impl Gen for String {
    fn gen_(g: &mut G) -> String {
        let n = match g.below(5) {
            0 => 0,
            1 => g.below(9),
            _ => g.below(3),
        };
        (0..n).map(|_| char::gen_(g)).collect()
    }
}
impl<T: Gen> Gen for Arc<T> {
    fn gen_(g: &mut G) -> Self {
        Arc::new(T::gen_(g))
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen_(g: &mut G) -> Self {
        Box::new(T::gen_(g))
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen_(g: &mut G) -> Self {
        if g.chance(3) {
            None
        } else {
            Some(T::gen_(g))
        }
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen_(g: &mut G) -> Self {
        if g.chance(3) {
            Err(E::gen_(g))
        } else {
            Ok(T::gen_(g))
        }
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen_(g: &mut G) -> Self {
        if g.depth > 3 {
            return vec![];
        }
        g.depth += 1;
        let n = match g.below(6) {
            0 => 0,
            1 => 1,
            5 => g.below(8),
            _ => g.below(4),
        };
        let r = (0..n).map(|_| T::gen_(g)).collect();
        g.depth -= 1;
        r
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen_(g: &mut G) -> Self {
        std::array::from_fn(|_| T::gen_(g))
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen_(g: &mut G) -> Self {
        (A::gen_(g), B::gen_(g))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen_(g: &mut G) -> Self {
        (A::gen_(g), B::gen_(g), C::gen_(g))
    }
}
impl Gen for crate::Error {
    fn gen_(g: &mut G) -> Self {
        crate::Error { message: Variable::gen_(g), trace: vec![] }
    }
}
impl Gen for Link {
    fn gen_(g: &mut G) -> Self {
        let mut l = Link::new();
        let n = match g.below(8) {
            0 => g.below(300),
            1 => 122 + g.below(5),
            _ => g.below(4),
        };
        for _ in 0..n {
            let v = match g.below(3) {
                0 => Variable::bool(g.chance(2)),
                1 => Variable::f64(f64::gen_(g)),
                _ => Variable::Str(Arc::new(String::gen_(g))),
            };
            l.push(&v).unwrap();
        }
        for _ in 0..g.below(3) * g.below(3) {
            l = if g.chance(2) { l.tail() } else { l.neck() };
        }
        l
    }
}
pub fn gen_secret(g: &mut G) -> Option<Box<Vec<Variable>>> {
    if g.chance(4) {
        Some(Box::new((0..g.below(3)).map(|_| Variable::f64(g.below(5) as f64)).collect()))
    } else {
        None
    }
}
impl Gen for Variable {
    fn gen_(g: &mut G) -> Self {
        use Variable as V;
        let n = if g.depth > 2 { 6 } else { 13 };
        g.depth += 1;
        let r = match g.below(n) {
            0 | 7 => V::F64(f64::gen_(g), gen_secret(g)),
            1 => V::Bool(bool::gen_(g), gen_secret(g)),
            2 => V::Str(Arc::new(String::gen_(g))),
            3 => V::Vec4(Gen::gen_(g)),
            4 => V::F64(g.below(3) as f64, None),
            5 => V::Option(None),
            6 => V::Mat4(Box::new(Gen::gen_(g))),
            8 => V::Array(Arc::new(Gen::gen_(g))),
            9 => {
                let mut m = HashMap::new();
                for _ in 0..g.below(3) {
                    m.insert(Arc::new(g.pick(&["a", "b", "c d", "x"]).to_string()), V::gen_(g));
                }
                V::Object(Arc::new(m))
            }
            10 => V::Link(Box::new(Link::gen_(g))),
            11 => V::Option(Some(Box::new(V::gen_(g)))),
            _ => V::Result(Gen::gen_(g)),
        };
        g.depth -= 1;
        r
    }
}
impl<T: Gen> Gen for HashMap<Arc<String>, T> {
    fn gen_(g: &mut G) -> Self {
        let n = g.below(4);
        (0..n).map(|_| (Arc::new(g.pick(&["a", "b", "c d", "x"]).to_string()), T::gen_(g))).collect()
    }
}
impl Gen for Runtime {
    /// A runtime with a random stack; arrays and objects may hold references to earlier slots.
    fn gen_(g: &mut G) -> Self {
        let mut rt = Runtime::new();
        for _ in 0..g.below(5) {
            let mut v = Variable::gen_(g);
            let n = rt.stack.len();
            if n > 0 {
                match &mut v {
                    Variable::Array(a) => {
                        for x in Arc::make_mut(a) {
                            if g.chance(3) {
                                *x = Variable::Ref(g.below(n))
                            }
                        }
                    }
                    Variable::Object(a) => {
                        for x in Arc::make_mut(a).values_mut() {
                            if g.chance(3) {
                                *x = Variable::Ref(g.below(n))
                            }
                        }
                    }
                    _ => {}
                }
            }
            rt.stack.push(v);
        }
        rt
    }
}
impl Debug for Runtime {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "stack {:?}", self.stack)
    }
}
impl Gen for Type {
    fn gen_(g: &mut G) -> Self {
        let n = if g.depth > 2 { 11 } else { 20 };
        g.depth += 1;
        let r = match g.below(n) {
            0 => Type::Unreachable,
            1 => Type::Void,
            2 => Type::Any,
            3 => Type::Bool,
            4 => Type::F64,
            5 => Type::Vec4,
            6 => Type::Mat4,
            7 => Type::Str,
            8 => Type::Link,
            9 => Type::Object,
            10 => Type::F64,
            11 => Type::Array(Gen::gen_(g)),
            12 => Type::Option(Gen::gen_(g)),
            13 => Type::Result(Gen::gen_(g)),
            14 => Type::Secret(Gen::gen_(g)),
            15 => Type::Thread(Gen::gen_(g)),
            16 => Type::In(Gen::gen_(g)),
            17 => Type::AdHoc(Arc::new(g.pick(&["A", "B"]).into()), Gen::gen_(g)),
            18 => Type::Closure(Box::new(Dfn { lts: vec![], tys: Gen::gen_(g), ret: Gen::gen_(g), ext: vec![], lazy: LAZY_NO_ })),
            _ => Type::all_ext_probe(g),
        };
        g.depth -= 1;
        r
    }
}
pub const LAZY_NO_: crate::LazyInvariant = crate::LAZY_NO;
trait TyProbe {
    fn all_ext_probe(g: &mut G) -> Type;
}
impl TyProbe for Type {
    fn all_ext_probe(g: &mut G) -> Type {
        Type::Array(Gen::gen_(g))
    }
}

pub type NativeFn = fn(&mut G);
pub static SHOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! { static COVERS: RefCell<std::collections::BTreeSet<&'static str>> = RefCell::new(Default::default()); }

/// Runs one contract natively on the input generated from `seed`.
/// Ok(None): held; Ok(Some(..)): skipped by a precondition; Err: violated (label, inputs).
pub fn run_one(f: NativeFn, seed: u64) -> Result<bool, (String, Vec<String>)> {
    let r = std::panic::catch_unwind(move || {
        let mut g = G::new(seed);
        G_.with(|x| x.borrow_mut().log.clear());
        f(&mut g);
    });
    let log = G_.with(|x| x.try_borrow().map(|x| x.log.clone()).unwrap_or_default());
    match r {
        Ok(()) => Ok(true),
        Err(p) => {
            if p.is::<Skip>() {
                return Ok(false);
            }
            if let Some(e) = p.downcast_ref::<EnsureFailed>() {
                return Err((format!("ensure: {}", e.0), log));
            }
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            Err((format!("panic: {}", m), log))
        }
    }
}

pub fn covers() -> Vec<String> {
    COVERS.with(|x| x.borrow().iter().map(|s| s.to_string()).collect())
}

/// What was written so far, extended by formatted text (logic only).
#[inline(never)]
pub fn fmt_step(_h: u64, _a: std::fmt::Arguments<'_>) -> u64 {
    unimplemented!()
}
#[inline(never)]
pub fn fmt_bytes(_h: u64, _b: &[u8]) -> u64 {
    unimplemented!()
}
/// The key at a position of the order of iteration.
#[inline(never)]
pub fn nth_key<K: Clone, T>(m: &HashMap<K, T>, i: usize) -> K {
    m.keys().nth(i).unwrap().clone()
}
impl Same for FnIndex { fn same_(&self, o: &FnIndex) -> bool { format!("{:?}", self) == format!("{:?}", o) } }
impl Same for FnExt { fn same_(&self, _o: &FnExt) -> bool { true } }
