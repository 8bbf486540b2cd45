// Native only: random scripts, and what they mean according to an interpreter written from the
// language's documentation (environments of named variables, no stack offsets).  The interpreter
// shares no code with the runtime except the operators and the collection of a link, which are
// proved in P01 and P02.
#[allow(dead_code)]
mod lang {
    use crate::verif::*;
    use crate::{Dfn, Link, Module, Runtime, Type, Variable};
    use std::cell::RefCell;
    use std::sync::Arc;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum K { N, B, S, A, V, O, R, C, L }
    #[derive(Clone, Debug)]
    pub enum Id { I(usize), K(&'static str), E(Box<X>) }
    #[derive(Clone, Debug)]
    pub struct Rng { pub name: String, pub lo: Option<Box<X>>, pub hi: Option<Box<X>> }
    #[derive(Clone, Debug)]
    pub enum X {
        Lit(Variable),
        Var(String),
        Own(String),
        Bin(&'static str, Box<X>, Box<X>),
        Un(&'static str, Box<X>),
        If(Vec<(X, Vec<S>)>, Option<Vec<S>>),
        Blk(Vec<S>),
        Call(usize, Vec<(bool, X)>),
        Built(&'static str, Vec<X>),
        Arr(Vec<X>),
        Fill(Box<X>, Box<X>),
        Obj(Vec<(&'static str, X)>),
        V4(Vec<X>),
        Sw(&'static str, Box<X>),
        Mat(Vec<X>),
        Item(String, Vec<(Id, bool)>),
        ItemOwn(String, Vec<(Id, bool)>),
        Try(Box<X>),
        TryE(Box<X>),
        Clos(Vec<String>, Box<X>),
        CallC(String, Vec<X>),
        Grab(Box<X>),
        /// sum, prod, min, max, any, all, sift, sum_vec4, prod_vec4
        Fold(&'static str, Option<String>, Vec<Rng>, Vec<S>),
        LinkFor(Option<String>, Vec<Rng>, Vec<X>),
        LinkX(Vec<X>),
    }
    #[derive(Clone, Debug)]
    pub enum S {
        Decl(bool, String, X),
        Set(X, &'static str, X),
        Ex(X),
        For(Option<String>, Vec<Rng>, Vec<S>),
        ForC(Option<String>, String, X, X, Box<S>, Vec<S>),
        Loop(Option<String>, Vec<S>),
        Brk(Option<String>),
        Cont(Option<String>),
        Ret(X),
        RetSet(X),
        RetVoid,
    }
    #[derive(Clone, Debug)]
    pub struct F { pub name: String, pub params: Vec<(bool, String, K)>, pub cur: Vec<(bool, String)>, pub ret: Option<K>, pub body: Vec<S> }

    // ------------------------------------------------------------ text
    fn lit(v: &Variable) -> String {
        match v {
            Variable::F64(x, _) => format!("{}", x),
            Variable::Bool(b, _) => format!("{}", b),
            Variable::Str(s) => format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")),
            _ => panic!("literal"),
        }
    }
    fn lab(l: &Option<String>) -> String {
        l.as_ref().map(|l| format!("'{}: ", l)).unwrap_or_default()
    }
    fn rngs(r: &[Rng], fs: &[F]) -> String {
        let v: Vec<String> = r.iter().map(|r| match (&r.lo, &r.hi) {
            (None, None) => r.name.clone(),
            (None, Some(h)) => format!("{} {}", r.name, tp(h, 1, fs)),
            (l, h) => format!("{} [{}, {})", r.name, tx(l.as_ref().unwrap(), fs), tx(h.as_ref().unwrap(), fs)),
        }).collect();
        v.join(", ")
    }
    fn item_txt(n: &str, ids: &[(Id, bool)], fs: &[F]) -> String {
        let mut s = n.to_string();
        for (i, t) in ids {
            match i {
                Id::I(i) => s += &format!("[{}]", i),
                Id::K(k) => s += &format!(".{}", k),
                // an index that starts with a literal is that literal
                Id::E(x) => { let t = tx(x, fs); s += &if t.starts_with(|c: char| c.is_ascii_digit() || c == '"' || c == '-') { format!("[({})]", t) } else { format!("[{}]", t) } }
            }
            if *t { s += "?" }
        }
        s
    }
    fn labelled_first(b: &[S], fs: &[F]) -> bool {
        b.first().map_or(false, |s| ts(s, fs).starts_with('\''))
    }
    pub fn blk(b: &[S], fs: &[F]) -> String {
        if b.is_empty() { return "{ tv(0) }".into(); }
        let v: Vec<String> = b.iter().map(|s| ts(s, fs)).collect();
        // `{ 'name: …` would read as an object
        format!("{{\n{}{}\n}}", if labelled_first(b, fs) { "tv(0)\n" } else { "" }, v.join("\n"))
    }
    fn level(o: &str) -> usize {
        match o { "+" | "-" | "||" => 0, "*" | "/" | "%" | "*." | "&&" => 1, "^" => 2, _ => 9 }
    }
    /// The whole expression where nothing else can be added to it.
    pub fn tx(x: &X, fs: &[F]) -> String { tp(x, 0, fs) }
    /// `p`: 0 an expression, 1 a term of a sum, 2 a factor of a product, 3 an operand.
    /// Parentheses only where the grammar needs them, so the text also tells whether operators
    /// bind as they should.
    pub fn tp(x: &X, p: usize, fs: &[F]) -> String {
        let t = |x: &X| tp(x, 0, fs);
        let l = |v: &[X]| v.iter().map(|x| tp(x, 0, fs)).collect::<Vec<_>>().join(", ");
        let par = |q: usize, s: String| if p > q { format!("({})", s) } else { s };
        match x {
            X::Lit(Variable::F64(n, _)) if n.is_sign_negative() => par(1, lit(&Variable::f64(*n))),
            X::Lit(v) => lit(v),
            X::Var(n) => n.clone(),
            X::Own(n) => format!("clone({})", n),
            X::Bin(o, a, b) => {
                let q = level(o);
                match q {
                    0 | 1 => {
                        let flat = matches!(&**a, X::Bin(o2, ..) if level(o2) == q);
                        let s = format!("{} {} {}", tp(a, if flat { q } else { q + 1 }, fs), o, tp(b, q + 1, fs));
                        par(q, s)
                    }
                    2 => par(2, format!("{} ^ {}", tp(a, 3, fs), tp(b, 3, fs))),
                    _ => par(0, format!("{} {} {}", tp(a, 3, fs), o, t(b))),
                }
            }
            X::Un("-", a) => par(1, format!("-{}", tp(a, 1, fs))),
            X::Un(o, a) => format!("{}{}", o, tp(a, 3, fs)),
            X::If(cs, e) => {
                let mut s = String::new();
                for (i, (c, b)) in cs.iter().enumerate() {
                    s += &format!("{}if {} {} ", if i > 0 { "else " } else { "" }, t(c), blk(b, fs));
                }
                if let Some(e) = e { s += &format!("else {}", blk(e, fs)) }
                par(0, s)
            }
            X::Blk(b) => par(0, blk(b, fs)),
            X::Call(i, a) => {
                let v: Vec<String> = a.iter().map(|(m, x)| format!("{}{}", if *m { "mut " } else { "" }, t(x))).collect();
                format!("{}({})", fs[*i].name.split('(').next().unwrap(), v.join(", "))
            }
            X::Built(n, a) => format!("{}({})", n, l(a)),
            X::Arr(a) => format!("[{}]", l(a)),
            X::Fill(a, n) => format!("[{}; {}]", t(a), t(n)),
            X::Obj(kv) => { let v: Vec<String> = kv.iter().map(|(k, x)| format!("{}: {}", k, t(x))).collect(); format!("{{{}}}", v.join(", ")) }
            X::V4(a) => format!("({}{})", l(a), if a.len() == 1 { "," } else { "" }),
            X::Sw(s, e) => format!("{} {}", s, t(e)),
            X::Mat(a) => { let v: Vec<String> = a.iter().map(|x| t(x)).collect(); format!("mat4 {{{}}}", v.join("; ")) }
            X::Item(n, ids) => item_txt(n, ids, fs),
            X::ItemOwn(n, ids) => format!("clone({})", item_txt(n, ids, fs)),
            X::Try(e) => format!("{}?", tp(e, 3, fs)),
            X::TryE(e) => par(0, format!("try {}", t(e))),
            X::Clos(ps, e) => par(0, format!("\\({}) = {}", ps.join(", "), t(e))),
            X::CallC(n, a) => format!("\\{}({})", n, l(a)),
            X::Grab(e) => par(0, format!("grab {}", t(e))),
            X::Fold(n, lb, r, b) => format!("{}{} {} {}", lab(lb), n, rngs(r, fs), blk(b, fs)),
            X::LinkFor(lb, r, b) => { let v: Vec<String> = b.iter().map(|x| tp(x, 3, fs)).collect(); format!("{}link {} {{ {} }}", lab(lb), rngs(r, fs), v.join("\n")) }
            X::LinkX(b) => { let v: Vec<String> = b.iter().map(|x| tp(x, 3, fs)).collect(); format!("link {{ {} }}", v.join("\n")) }
        }
    }
    pub fn ts(s: &S, fs: &[F]) -> String {
        match s {
            S::Decl(c, n, x) => format!("{}{} := {}", if *c { "~ " } else { "" }, n, tx(x, fs)),
            S::Set(l, o, x) => format!("{} {} {}", tx(l, fs), o, tx(x, fs)),
            S::Ex(x) => tx(x, fs),
            S::For(lb, r, b) => format!("{}for {} {}", lab(lb), rngs(r, fs), blk(b, fs)),
            S::ForC(lb, n, i, c, st, b) => format!("{}for {} := {}; {}; {} {}", lab(lb), n, tx(i, fs), tx(c, fs), ts(st, fs), blk(b, fs)),
            S::Loop(lb, b) => format!("{}loop {}", lab(lb), blk(b, fs)),
            S::Brk(l) => format!("break{}", l.as_ref().map(|l| format!(" '{}", l)).unwrap_or_default()),
            S::Cont(l) => format!("continue{}", l.as_ref().map(|l| format!(" '{}", l)).unwrap_or_default()),
            // `return (a) < b` would read as a call
            S::Ret(x) => { let s = tx(x, fs); if s.starts_with('(') && matches!(x, X::Bin(o, ..) if level(o) == 9) { format!("return clone({})", s) } else { format!("return {}", s) } }
            S::RetSet(x) => format!("return = {}", tx(x, fs)),
            S::RetVoid => "return".into(),
        }
    }
    pub fn program(fs: &[F]) -> String {
        let mut s = String::new();
        for f in fs {
            let ps: Vec<String> = f.params.iter().map(|(m, n, _)| format!("{}{}", if *m { "mut " } else { "" }, n)).collect();
            let cs: Vec<String> = f.cur.iter().map(|(m, n)| format!("{}{}", if *m { "mut " } else { "" }, n)).collect();
            s += &format!("fn {}({}){}{} {}\n", f.name.split('(').next().unwrap(), ps.join(", "), if cs.is_empty() { "".into() } else { format!(" ~ {}", cs.join(", ")) }, match f.ret { None => "", Some(K::R) => " -> res", Some(_) => " -> any" }, blk(&f.body, fs));
        }
        s
    }

    // ------------------------------------------------------------ meaning
    pub enum Fl { V(Option<Variable>), Ret(Option<Variable>), Brk(Option<String>), Cont(Option<String>) }
    type R = Result<Fl, String>;
    #[derive(Clone)]
    struct Cl { params: Vec<String>, body: X }
    pub struct I<'a> {
        pub fs: &'a [F],
        pub mem: Vec<Variable>,
        clos: Vec<Cl>,
        /// which closure a memory cell holds
        cl_of: std::collections::HashMap<usize, usize>,
        env: Vec<(String, usize)>,
        base: usize,
        cur: Vec<(String, usize)>,
        ret: Option<Variable>,
        pub trace: Vec<Variable>,
        pub fuel: usize,
    }
    macro_rules! val {
        ($e:expr) => { match $e? { Fl::V(Some(x)) => x, Fl::Ret(x) => return Ok(Fl::Ret(x)), _ => return Err("expected something".into()) } };
    }
    fn some(v: Variable) -> R { Ok(Fl::V(Some(v))) }
    pub fn mark(n: usize) -> Variable { Variable::Str(Arc::new(format!("closure {}", n))) }
    impl<'a> I<'a> {
        pub fn new(fs: &'a [F]) -> I<'a> {
            I { fs, mem: vec![], clos: vec![], cl_of: Default::default(), env: vec![], base: 0, cur: vec![], ret: None, trace: vec![], fuel: 3000 }
        }
        fn get(&self, v: &Variable) -> Variable {
            match v { Variable::Ref(i) => self.mem[*i].clone(), x => x.clone() }
        }
        pub fn deep(&self, v: &Variable) -> Variable {
            match v {
                Variable::Ref(i) => self.deep(&self.mem[*i]),
                Variable::Array(a) => Variable::Array(Arc::new(a.iter().map(|x| self.deep(x)).collect())),
                Variable::Object(a) => Variable::Object(Arc::new(a.iter().map(|(k, x)| (k.clone(), self.deep(x))).collect())),
                Variable::Option(Some(x)) => Variable::Option(Some(Box::new(self.deep(x)))),
                x => x.clone(),
            }
        }
        fn cell(&self, n: &str) -> usize {
            self.env[self.base..].iter().rev().find(|x| x.0 == n).map(|x| x.1).unwrap_or_else(|| panic!("unknown variable {}", n))
        }
        fn bind(&mut self, n: &str, v: Variable) -> usize {
            self.mem.push(v);
            self.env.push((n.to_string(), self.mem.len() - 1));
            self.mem.len() - 1
        }
        fn num(&self, v: &Variable) -> Result<f64, String> {
            match self.get(v) { Variable::F64(x, _) => Ok(x), _ => Err("number".into()) }
        }
        fn bool_(&self, v: &Variable) -> Result<bool, String> {
            match self.get(v) { Variable::Bool(x, _) => Ok(x), _ => Err("bool".into()) }
        }
        pub fn block(&mut self, b: &[S]) -> R {
            let (e, c) = (self.env.len(), self.cur.len());
            let mut r = Fl::V(None);
            if b.is_empty() || labelled_first(b, self.fs) { self.trace.push(Variable::f64(0.0)); }
            for s in b {
                r = self.stm(s)?;
                if !matches!(r, Fl::V(_)) { break; }
            }
            self.env.truncate(e);
            self.cur.truncate(c);
            Ok(r)
        }
        pub fn call(&mut self, i: usize, args: Vec<Variable>) -> R {
            let f = &self.fs[i];
            let mut env = vec![];
            for (n, v) in f.params.iter().map(|p| &p.1).zip(args) {
                let cell = match v { Variable::Ref(c) => c, v => { self.mem.push(v); self.mem.len() - 1 } };
                env.push((n.clone(), cell));
            }
            for (_, n) in &f.cur {
                match self.cur.iter().rev().find(|x| x.0 == *n) {
                    Some(x) => env.push(x.clone()),
                    None => return Err("no current".into()),
                }
            }
            let (b, e, c) = (self.base, self.env.len(), self.cur.len());
            let old = self.ret.take();
            self.base = self.env.len();
            self.env.extend(env);
            let r = self.block(&f.body);
            self.base = b;
            self.env.truncate(e);
            self.cur.truncate(c);
            let set = std::mem::replace(&mut self.ret, old);
            let x = match r? { Fl::V(x) | Fl::Ret(x) => x, _ => return Err("break".into()) };
            match (f.ret.is_some(), x.or(if f.ret.is_some() { set } else { None })) {
                (true, None) => Err("no value".into()),
                (false, Some(_)) => Err("value".into()),
                (_, x) => Ok(Fl::V(x)),
            }
        }
        fn labelled(l: &Option<String>, mine: &Option<String>) -> bool { l.is_none() || l == mine }
        /// Runs `body` for each value of the (nested) ranges; Ok(None) when the loop is done.
        fn ranges(&mut self, lb: &Option<String>, r: &[Rng], body: &mut dyn FnMut(&mut Self, &[f64]) -> R, idx: &mut Vec<f64>) -> R {
            let lo = match &r[0].lo { None => 0.0, Some(x) => { let v = val!(self.eval(x)); self.num(&v)? } };
            let hi = match &r[0].hi { None => panic!("inferred"), Some(x) => { let v = val!(self.eval(x)); self.num(&v)? } };
            let e = self.env.len();
            let cell = self.bind(&r[0].name, Variable::f64(lo));
            let mut out = Fl::V(None);
            loop {
                self.burn();
                let i = self.num(&self.mem[cell].clone())?;
                if !(i < hi) { break; }
                idx.push(i);
                // a label belongs to the outermost loop of a nested range
                let res = if r.len() > 1 { self.ranges(&None, &r[1..], body, idx) } else { body(self, idx) };
                idx.pop();
                match res? {
                    Fl::V(_) => {}
                    Fl::Ret(x) => return Ok(Fl::Ret(x)),
                    Fl::Brk(l) => { if !Self::labelled(&l, lb) { out = Fl::Brk(l) } break; }
                    Fl::Cont(l) => if !Self::labelled(&l, lb) { out = Fl::Cont(l); break; }
                }
                let i = self.num(&self.mem[cell].clone())?;
                self.mem[cell] = Variable::F64(i + 1.0, match &self.mem[cell] { Variable::F64(_, s) => s.clone(), _ => None });
            }
            self.env.truncate(e);
            Ok(out)
        }
        fn burn(&mut self) {
            if self.fuel == 0 { require(false); }
            self.fuel -= 1;
        }
        fn tried(&self, v: &Variable) -> Result<Result<Variable, String>, String> {
            Ok(match self.get(v) {
                Variable::Result(Ok(x)) | Variable::Option(Some(x)) => Ok(*x),
                Variable::Result(Err(e)) => Err(match &e.message { Variable::Str(s) => (**s).clone(), _ => "?".into() }),
                Variable::Option(None) => Err("none".into()),
                Variable::Bool(true, Some(s)) => Ok(Variable::Bool(true, Some(s))),
                Variable::Bool(..) => Err("bool".into()),
                Variable::F64(x, Some(s)) if !x.is_nan() => Ok(Variable::F64(x, Some(s))),
                Variable::F64(..) => Err("f64".into()),
                _ => return Err("try".into()),
            })
        }
        fn failed(&self, m: String) -> R {
            // only in a function with a result that is not set yet
            Ok(Fl::Ret(Some(Variable::Result(Err(Box::new(crate::Error { message: Variable::Str(Arc::new(m)), trace: vec![] }))))))
        }
        /// The place an item denotes, as a path of memory cell and keys.
        fn place(&mut self, n: &str, ids: &[(Id, bool)], insert: bool) -> Result<Result<(usize, Vec<Variable>), Fl>, String> {
            let cell = self.cell(n);
            let mut keys = vec![];
            for (i, _) in ids {
                keys.push(match i {
                    Id::I(i) => Variable::f64(*i as f64),
                    Id::K(k) => Variable::Str(Arc::new(k.to_string())),
                    Id::E(x) => match self.eval(x)? { Fl::V(Some(v)) => v, Fl::Ret(x) => return Ok(Err(Fl::Ret(x))), _ => return Err("index".into()) },
                });
            }
            let keys: Vec<Variable> = keys.iter().map(|k| self.get(k)).collect();
            let mut at = cell;
            let mut path = vec![];
            // (kind of the id, key, is last id, `?`)
            let mut steps: Vec<(usize, Variable, bool, bool)> = vec![];
            for (j, k) in keys.iter().enumerate() {
                let last = j + 1 == keys.len();
                match (k, &ids[j].0) {
                    (Variable::Array(ix), Id::E(_)) => {
                        if ix.is_empty() { return Err("indices".into()); }
                        for (m, x) in ix.iter().enumerate() {
                            match self.get(x) { Variable::F64(..) => {}, _ => return Err("indices".into()) }
                            let l = m + 1 == ix.len();
                            steps.push((if l { 1 } else { 2 }, self.get(x), l && last, l && ids[j].1));
                        }
                    }
                    _ => steps.push((0, k.clone(), last, ids[j].1)),
                }
            }
            for (kind, k, last, tr) in steps {
                let here = self.at(at, &path).clone();
                match (&here, &k) {
                    (Variable::Object(o), Variable::Str(s)) if kind == 0 => {
                        if !o.contains_key(s) {
                            if insert && last { self.set_at(at, &path, s, Variable::Return) } else { return Err("no key".into()) }
                        }
                    }
                    (Variable::Array(a), Variable::F64(i, _)) => if *i as usize >= a.len() { return Err("bounds".into()) },
                    _ => return Err("lookup".into()),
                }
                path.push(k);
                if let Variable::Ref(c) = self.at(at, &path) {
                    if !last || tr { at = *c; path = vec![]; }
                }
                if tr {
                    let v = self.at(at, &path).clone();
                    match self.tried(&v)? {
                        Ok(_) => if matches!(v, Variable::Option(_) | Variable::Result(_)) { path.push(Variable::Return) },
                        Err(m) => return Ok(Err(match self.failed(m)? { Fl::Ret(x) => Fl::Ret(x), _ => unreachable!() })),
                    }
                }
            }
            Ok(Ok((at, path)))
        }
        fn at(&self, cell: usize, path: &[Variable]) -> &Variable {
            let mut v = &self.mem[cell];
            for k in path {
                v = match (v, k) {
                    (Variable::Array(a), Variable::F64(i, _)) => &a[*i as usize],
                    (Variable::Object(o), Variable::Str(s)) => &o[s],
                    (Variable::Option(Some(x)), Variable::Return) | (Variable::Result(Ok(x)), Variable::Return) => x,
                    _ => panic!("path"),
                };
            }
            v
        }
        fn at_mut(&mut self, cell: usize, path: &[Variable]) -> &mut Variable {
            let mut v = &mut self.mem[cell];
            for k in path {
                v = match (v, k) {
                    (Variable::Array(a), Variable::F64(i, _)) => &mut Arc::make_mut(a)[*i as usize],
                    (Variable::Object(o), Variable::Str(s)) => Arc::make_mut(o).get_mut(s).unwrap(),
                    (Variable::Option(Some(x)), Variable::Return) => x,
                    (Variable::Result(Ok(x)), Variable::Return) => x,
                    _ => panic!("path"),
                };
            }
            v
        }
        fn set_at(&mut self, cell: usize, path: &[Variable], key: &Arc<String>, v: Variable) {
            if let Variable::Object(o) = self.at_mut(cell, path) { Arc::make_mut(o).insert(key.clone(), v); }
        }
        pub fn stm(&mut self, s: &S) -> R {
            self.burn();
            match s {
                S::Decl(c, n, x) => {
                    if let X::Clos(ps, b) = x {
                        let b = self.grab(b)?;
                        self.clos.push(Cl { params: ps.clone(), body: b });
                        let cell = self.bind(n, mark(0));
                        self.cl_of.insert(cell, self.clos.len() - 1);
                        return Ok(Fl::V(None));
                    }
                    if let X::Var(m) = x {
                        if let Some(k) = self.cl_of.get(&self.cell(m)).cloned() {
                            let cell = self.bind(n, mark(0));
                            self.cl_of.insert(cell, k);
                            return Ok(Fl::V(None));
                        }
                    }
                    let v = val!(self.eval(x));
                    let v = self.get(&v);
                    let cell = self.bind(n, v);
                    if *c { self.cur.push((n.clone(), cell)) }
                    Ok(Fl::V(None))
                }
                S::Set(l, op, x) => {
                    let b = val!(self.eval(x));
                    let b = if *op == ":=" { self.get(&b) } else { b };
                    let (cell, path) = match l {
                        X::Var(n) => (self.cell(n), vec![]),
                        X::Item(n, ids) => match self.place(n, ids, *op == ":=")? { Ok(p) => p, Err(f) => return Ok(f) },
                        _ => panic!("left"),
                    };
                    if *op == ":=" {
                        *self.at_mut(cell, &path) = b;
                        return Ok(Fl::V(None));
                    }
                    if let Variable::Ref(c) = self.at(cell, &path) {
                        let c = self.mem[*c].clone();
                        *self.at_mut(cell, &path) = c;
                    }
                    let b = self.get(&b);
                    let a = self.at(cell, &path).clone();
                    let r = assign(op, &a, &b)?;
                    *self.at_mut(cell, &path) = r;
                    Ok(Fl::V(None))
                }
                S::Ex(x) => match self.eval(x)? { f => Ok(f) },
                S::For(lb, r, b) => self.ranges(lb, r, &mut |s, _| s.block(b), &mut vec![]),
                S::ForC(lb, n, i, c, st, b) => {
                    let e = self.env.len();
                    let v = val!(self.eval(i));
                    let v = self.get(&v);
                    self.bind(n, v);
                    let mut out = Fl::V(None);
                    loop {
                        self.burn();
                        let c = val!(self.eval(c));
                        if !self.bool_(&c)? { break; }
                        match self.block(b)? {
                            Fl::V(_) => {}
                            Fl::Ret(x) => return Ok(Fl::Ret(x)),
                            Fl::Brk(l) => { if !Self::labelled(&l, lb) { out = Fl::Brk(l) } break; }
                            Fl::Cont(l) => if !Self::labelled(&l, lb) { out = Fl::Cont(l); break; }
                        }
                        match self.stm(st)? { Fl::V(None) => {} Fl::Ret(x) => return Ok(Fl::Ret(x)), _ => return Err("step".into()) }
                    }
                    self.env.truncate(e);
                    Ok(out)
                }
                S::Loop(lb, b) => loop {
                    self.burn();
                    match self.block(b)? {
                        Fl::V(_) => {}
                        Fl::Ret(x) => return Ok(Fl::Ret(x)),
                        Fl::Brk(l) => return Ok(if Self::labelled(&l, lb) { Fl::V(None) } else { Fl::Brk(l) }),
                        Fl::Cont(l) => if !Self::labelled(&l, lb) { return Ok(Fl::Cont(l)) },
                    }
                },
                S::Brk(l) => Ok(Fl::Brk(l.clone())),
                S::Cont(l) => Ok(Fl::Cont(l.clone())),
                S::Ret(x) => { let v = val!(self.eval(x)); Ok(Fl::Ret(Some(v))) }
                S::RetSet(x) => {
                    let v = val!(self.eval(x));
                    let v = self.get(&v);
                    self.ret = Some(match &self.ret { None => v, Some(o) => assign("=", o, &v)? });
                    Ok(Fl::V(None))
                }
                S::RetVoid => Ok(Fl::Ret(None)),
            }
        }
        /// Evaluates the `grab` expressions of a closure where it is made.
        fn grab(&mut self, x: &X) -> Result<X, String> {
            let mut b = |s: &mut Self, x: &X| s.grab(x).map(Box::new);
            Ok(match x {
                X::Grab(e) => match self.eval(e)? { Fl::V(Some(v)) => { let v = self.get(&v); X::Lit(v) } _ => return Err("grab".into()) },
                X::Bin(o, l, r) => X::Bin(o, b(self, l)?, b(self, r)?),
                X::Un(o, l) => X::Un(o, b(self, l)?),
                X::Built(n, a) => X::Built(n, a.iter().map(|x| self.grab(x)).collect::<Result<_, _>>()?),
                X::If(cs, e) => {
                    let mut v = vec![];
                    for (c, bl) in cs {
                        v.push((self.grab(c)?, self.grabs(bl)?));
                    }
                    X::If(v, match e { None => None, Some(e) => Some(self.grabs(e)?) })
                }
                X::Blk(bl) => X::Blk(self.grabs(bl)?),
                X::Fold(n, l, r, bl) => {
                    let mut v = vec![];
                    for r in r {
                        v.push(Rng { name: r.name.clone(), lo: match &r.lo { None => None, Some(x) => Some(Box::new(self.grab(x)?)) }, hi: match &r.hi { None => None, Some(x) => Some(Box::new(self.grab(x)?)) } });
                    }
                    X::Fold(n, l.clone(), v, self.grabs(bl)?)
                }
                X::Call(i, a) => { let mut v = vec![]; for (m, x) in a { v.push((*m, self.grab(x)?)) } X::Call(*i, v) }
                X::Arr(a) => X::Arr(a.iter().map(|x| self.grab(x)).collect::<Result<_, _>>()?),
                X::V4(a) => X::V4(a.iter().map(|x| self.grab(x)).collect::<Result<_, _>>()?),
                X::Sw(n, x) => X::Sw(n, b(self, x)?),
                X::Fill(a, n) => X::Fill(b(self, a)?, b(self, n)?),
                X::TryE(a) => X::TryE(b(self, a)?),
                x => x.clone(),
            })
        }
        fn grabs(&mut self, bl: &[S]) -> Result<Vec<S>, String> {
            bl.iter().map(|s| Ok(match s {
                S::Ex(x) => S::Ex(self.grab(x)?),
                S::Decl(c, n, x) => S::Decl(*c, n.clone(), self.grab(x)?),
                s => s.clone(),
            })).collect()
        }
        pub fn eval(&mut self, x: &X) -> R {
            self.burn();
            match x {
                X::Lit(v) => some(v.clone()),
                X::Var(n) => some(Variable::Ref(self.cell(n))),
                X::Own(n) => { let v = self.mem[self.cell(n)].clone(); some(self.deep(&v)) }
                X::Bin(o, a, b) if *o == "&&" || *o == "||" => {
                    let l = val!(self.eval(a));
                    if self.bool_(&l)? == (*o == "||") { return some(self.get(&l)); }
                    let r = val!(self.eval(b));
                    // the secret of `a && b` is the one of `a`
                    let sec = match self.get(&l) { Variable::Bool(_, s) => s, _ => None };
                    some(Variable::Bool(self.bool_(&r)?, sec))
                }
                X::Bin(o, a, b) => {
                    let l = val!(self.eval(a));
                    let r = val!(self.eval(b));
                    let (l, r) = (self.get(&l), self.get(&r));
                    some(self.binop(o, &l, &r)?)
                }
                X::Un(o, a) => {
                    let l = val!(self.eval(a));
                    let l = self.get(&l);
                    some(match *o { "!" => crate::dyon_std::not(&l), _ => crate::dyon_std::neg(&l) }?)
                }
                X::If(cs, e) => {
                    for (c, b) in cs {
                        let c = val!(self.eval(c));
                        if self.bool_(&c)? { return self.block(b); }
                    }
                    match e { Some(b) => self.block(b), None => Ok(Fl::V(None)) }
                }
                X::Blk(b) => self.block(b),
                X::Call(i, a) => {
                    let mut args = vec![];
                    for (_, x) in a { args.push(val!(self.eval(x))); }
                    self.call(*i, args)
                }
                X::Built(n, a) => {
                    let mut args = vec![];
                    for (i, x) in a.iter().enumerate() {
                        let v = val!(self.eval(x));
                        if i == 0 && *n == "unwrap_or" {
                            if let Variable::Option(Some(x)) | Variable::Result(Ok(x)) = self.get(&v) { return some(*x); }
                        }
                        args.push(v);
                    }
                    let args: Vec<Variable> = args.iter().map(|v| { let v = self.get(v); self.deep(&v) }).collect();
                    match (*n, &args[..]) {
                        ("tr", [v]) => { self.trace.push(v.clone()); some(v.clone()) }
                        ("tv", [v]) => { self.trace.push(v.clone()); Ok(Fl::V(None)) }
                        ("some", [v]) => some(Variable::Option(Some(Box::new(v.clone())))),
                        ("none", []) => some(Variable::Option(None)),
                        ("ok", [v]) => some(Variable::Result(Ok(Box::new(v.clone())))),
                        ("err", [v]) => some(Variable::Result(Err(Box::new(crate::Error { message: v.clone(), trace: vec![] })))),
                        ("is_ok", [Variable::Result(r)]) => some(Variable::bool(r.is_ok())),
                        ("is_ok", _) => Err("is_ok".into()),
                        ("unwrap_or", [_, v]) => some(v.clone()),
                        ("unwrap", [Variable::Option(Some(v))]) | ("unwrap", [Variable::Result(Ok(v))]) => some((**v).clone()),
                        ("unwrap", _) => Err("unwrap".into()),
                        ("clone", [v]) => some(v.clone()),
                        ("len", [Variable::Array(a)]) => some(Variable::f64(a.len() as f64)),
                        ("x", [Variable::Vec4(v)]) => some(Variable::f64(v[0] as f64)),
                        ("y", [Variable::Vec4(v)]) => some(Variable::f64(v[1] as f64)),
                        ("z", [Variable::Vec4(v)]) => some(Variable::f64(v[2] as f64)),
                        ("w", [Variable::Vec4(v)]) => some(Variable::f64(v[3] as f64)),
                        ("head", [Variable::Link(l)]) => some(Variable::Option(l.head())),
                        ("is_empty", [Variable::Link(l)]) => some(Variable::bool(l.is_empty())),
                        _ => panic!("built-in {} {:?}", n, args),
                    }
                }
                X::Arr(a) => {
                    let mut v = vec![];
                    for x in a { v.push(val!(self.eval(x))) }
                    some(Variable::Array(Arc::new(v)))
                }
                X::Obj(a) => {
                    let mut m = std::collections::HashMap::new();
                    for (k, x) in a { let v = val!(self.eval(x)); m.insert(Arc::new(k.to_string()), v); }
                    some(Variable::Object(Arc::new(m)))
                }
                X::Fill(a, n) => {
                    let a = val!(self.eval(a));
                    let n = val!(self.eval(n));
                    let n = self.num(&n)? as usize;
                    require(n < 1000);
                    some(Variable::Array(Arc::new(vec![self.get(&a); n])))
                }
                X::V4(a) => {
                    let mut v = vec![];
                    for x in a {
                        if v.len() > 3 { break; }
                        if let X::Sw(s, e) = x {
                            let e = val!(self.eval(e));
                            match self.get(&e) {
                                Variable::Vec4(c) => for ch in s.chars() { v.push(Variable::f64(c["xyzw".find(ch).unwrap()] as f64)) },
                                _ => return Err("swizzle".into()),
                            }
                        } else { v.push(val!(self.eval(x))); }
                    }
                    let mut r = [0.0; 4];
                    for (i, x) in v.iter().enumerate().take(4) { r[i] = self.num(x)? as f32; }
                    some(Variable::Vec4(r))
                }
                X::Sw(..) => panic!("swizzle"),
                X::Mat(a) => {
                    let mut v = vec![];
                    for x in a { v.push(val!(self.eval(x))); }
                    let mut m = [[0.0; 4]; 4];
                    for i in 0..4 {
                        match self.get(&v[i]) { Variable::Vec4(r) => for j in 0..4 { m[j][i] = r[j] }, _ => return Err("mat4".into()) }
                    }
                    some(Variable::Mat4(Box::new(m)))
                }
                X::Item(n, ids) => match self.place(n, ids, false)? {
                    Ok((c, p)) => some(self.at(c, &p).clone()),
                    Err(f) => Ok(f),
                },
                X::ItemOwn(n, ids) => match self.place(n, ids, false)? {
                    Ok((c, p)) => { let v = self.at(c, &p).clone(); some(self.deep(&v)) }
                    Err(f) => Ok(f),
                },
                X::Try(e) => {
                    let v = val!(self.eval(e));
                    match self.tried(&v)? { Ok(v) => some(v), Err(m) => self.failed(m) }
                }
                X::TryE(e) => {
                    let (en, b, c, old) = (self.env.len(), self.base, self.cur.len(), self.ret.clone());
                    match self.eval(e) {
                        Ok(Fl::V(Some(v))) => some(Variable::Result(Ok(Box::new(v)))),
                        Ok(Fl::V(None)) => Err("expected something".into()),
                        Ok(f) => Ok(f),
                        Err(m) => {
                            self.env.truncate(en);
                            self.base = b;
                            self.cur.truncate(c);
                            self.ret = old;
                            some(Variable::Result(Err(Box::new(crate::Error { message: Variable::Str(Arc::new(m)), trace: vec![] }))))
                        }
                    }
                }
                X::Clos(..) => panic!("closure"),
                X::CallC(n, a) => {
                    let k = self.cl_of[&self.cell(n)];
                    let mut args = vec![];
                    for x in a { args.push(val!(self.eval(x))); }
                    let cl = self.clos[k].clone();
                    let (b, e, c) = (self.base, self.env.len(), self.cur.len());
                    let mut env = vec![];
                    for (n, v) in cl.params.iter().zip(args) {
                        let cell = match v { Variable::Ref(c) => c, v => { self.mem.push(v); self.mem.len() - 1 } };
                        env.push((n.clone(), cell));
                    }
                    self.base = e;
                    self.env.extend(env);
                    let old = self.ret.take();
                    let r = self.eval(&cl.body);
                    self.ret = old;
                    self.base = b;
                    self.env.truncate(e);
                    self.cur.truncate(c);
                    match r? { Fl::V(Some(x)) | Fl::Ret(Some(x)) => some(x), _ => Err("closure".into()) }
                }
                X::Grab(_) => panic!("grab"),
                X::Fold(n, lb, r, b) => self.fold(n, lb, r, b),
                X::LinkFor(lb, r, b) => {
                    let mut out = Link::new();
                    let f = self.ranges(lb, r, &mut |s, _| {
                        for x in b {
                            match s.eval(x)? {
                                Fl::V(None) => {}
                                Fl::V(Some(v)) => { let v = s.get(&v); push(&mut out, &v)? }
                                Fl::Cont(None) => break,
                                f => return Ok(f),
                            }
                        }
                        Ok(Fl::V(None))
                    }, &mut vec![])?;
                    match f { Fl::V(_) => some(Variable::Link(Box::new(out))), f => Ok(f) }
                }
                X::LinkX(b) => {
                    let mut out = Link::new();
                    for x in b {
                        match self.eval(x)? {
                            Fl::V(None) => {}
                            Fl::V(Some(v)) => { let v = self.get(&v); push(&mut out, &v)? }
                            f => return Ok(f),
                        }
                    }
                    some(Variable::Link(Box::new(out)))
                }
            }
        }
        fn binop(&self, o: &str, l: &Variable, r: &Variable) -> Result<Variable, String> {
            use crate::dyon_std as d;
            match o {
                "+" => d::add(l, r), "-" => d::sub(l, r), "*" => d::mul(l, r), "/" => d::div(l, r), "%" => d::rem(l, r), "^" => d::pow(l, r),
                "<" => d::less(l, r), "<=" => d::less_or_equal(l, r), ">" => d::greater(l, r), ">=" => d::greater_or_equal(l, r),
                "==" => d::equal(l, r), "!=" => d::not_equal(l, r), "*." => d::dot(l, r),
                _ => panic!("operator"),
            }
        }
        fn fold(&mut self, n: &str, lb: &Option<String>, r: &[Rng], b: &[S]) -> R {
            // one level of a fold; the body of an outer range is the fold over the inner ones
            let sec = |s: &Option<Box<Vec<Variable>>>, i: f64| { let mut v = s.as_ref().map(|s| (**s).clone()).unwrap_or_default(); v.push(Variable::f64(i)); Some(Box::new(v)) };
            let mut acc = match n {
                "sum" => Variable::f64(0.0), "prod" => Variable::f64(1.0), "min" | "max" => Variable::f64(f64::NAN),
                "any" => Variable::bool(false), "all" => Variable::bool(true),
                "sift" => Variable::Array(Arc::new(vec![])), "sum_vec4" => Variable::Vec4([0.0; 4]), _ => Variable::Vec4([1.0; 4]),
            };
            let rest: Vec<Rng> = r[1..].to_vec();
            let f = self.ranges(lb, &r[..1], &mut |s, idx| {
                let i = idx[0];
                let x = match if rest.is_empty() { s.block(b)? } else { s.fold(n, &None, &rest, b)? } {
                    Fl::V(Some(x)) => x,
                    Fl::V(None) => return Err("expected value".into()),
                    f => return Ok(f),
                };
                let y = s.get(&x);
                match (n, &mut acc, &y) {
                    ("sum", Variable::F64(a, _), Variable::F64(y, _)) => *a += y,
                    ("prod", Variable::F64(a, _), Variable::F64(y, _)) => *a *= y,
                    ("min", Variable::F64(a, s), Variable::F64(y, t)) => if a.is_nan() || *y < *a { *a = *y; *s = sec(t, i) },
                    ("max", Variable::F64(a, s), Variable::F64(y, t)) => if a.is_nan() || *y > *a { *a = *y; *s = sec(t, i) },
                    ("any", Variable::Bool(a, s), Variable::Bool(y, t)) => if *y { *a = true; *s = sec(t, i); return Ok(Fl::Brk(None)) },
                    ("all", Variable::Bool(a, s), Variable::Bool(y, t)) => if !*y { *a = false; *s = sec(t, i); return Ok(Fl::Brk(None)) },
                    ("sift", Variable::Array(a), _) => Arc::make_mut(a).push(x),
                    ("sum_vec4", Variable::Vec4(a), Variable::Vec4(y)) => for i in 0..4 { a[i] += y[i] },
                    ("prod_vec4", Variable::Vec4(a), Variable::Vec4(y)) => for i in 0..4 { a[i] *= y[i] },
                    _ => return Err("fold".into()),
                }
                Ok(Fl::V(None))
            }, &mut vec![])?;
            match f { Fl::V(_) => some(acc), f => Ok(f) }
        }
    }
    fn push(l: &mut Link, v: &Variable) -> Result<(), String> {
        match v {
            Variable::Link(o) => { *l = l.add(o); Ok(()) }
            v => l.push(v),
        }
    }
    /// The meaning of an assignment operator on values.
    pub fn assign(op: &str, a: &Variable, b: &Variable) -> Result<Variable, String> {
        use std::mem::discriminant as d;
        use Variable as V;
        let bad = || Err("assign".to_string());
        if op == "=" {
            return match (a, b) {
                (V::Return, V::Thread(_) | V::In(_)) | (V::Thread(_) | V::In(_), _) => bad(),
                (V::Return, b) => Ok(b.clone()),
                (a, b) if d(a) == d(b) => Ok(b.clone()),
                _ => bad(),
            };
        }
        let f = |a: f64, b: f64| match op { "+=" => a + b, "-=" => a - b, "*=" => a * b, "/=" => a / b, "%=" => a % b, _ => a.powf(b) };
        let g = |a: f32, b: f32| match op { "+=" => a + b, "-=" => a - b, "*=" => a * b, "/=" => a / b, "%=" => a % b, _ => a.powf(b) };
        Ok(match (a, b) {
            (V::F64(a, _), V::F64(b, s)) => V::F64(f(*a, *b), s.clone()),
            (V::Vec4(a), V::F64(b, _)) => V::Vec4([g(a[0], *b as f32), g(a[1], *b as f32), g(a[2], *b as f32), g(a[3], *b as f32)]),
            (V::Vec4(a), V::Vec4(b)) => V::Vec4([g(a[0], b[0]), g(a[1], b[1]), g(a[2], b[2]), g(a[3], b[3])]),
            (V::Mat4(_), V::Mat4(_)) => match op { "+=" => crate::dyon_std::add(a, b)?, "-=" => crate::dyon_std::sub(a, b)?, "*=" => crate::dyon_std::mul(a, b)?, _ => return bad() },
            (V::Str(a), V::Str(b)) if op == "+=" => V::Str(Arc::new(format!("{}{}", a, b))),
            (V::Link(a), V::Link(b)) if op == "+=" => V::Link(Box::new(a.add(b))),
            (V::Link(a), V::Link(b)) if op == "-=" => V::Link(Box::new(b.add(a))),
            (V::Link(a), b) if op == "+=" && matches!(b, V::Bool(..) | V::F64(..) | V::Str(_)) => { let mut a = a.clone(); a.push(&plain(b))?; V::Link(a) }
            _ => return bad(),
        })
    }
    fn plain(v: &Variable) -> Variable {
        match v { Variable::Bool(b, _) => Variable::bool(*b), Variable::F64(b, _) => Variable::f64(*b), x => x.clone() }
    }

    // ------------------------------------------------------------ running the script
    thread_local! { static TRACE: RefCell<Vec<Variable>> = RefCell::new(vec![]); }
    fn ext_tr(rt: &mut Runtime) -> Result<Variable, String> {
        let v = rt.stack.pop().unwrap();
        let v = v.deep_clone(&rt.stack);
        TRACE.with(|t| t.borrow_mut().push(v.clone()));
        Ok(v)
    }
    fn ext_tv(rt: &mut Runtime) -> Result<(), String> {
        ext_tr(rt).map(|_| ())
    }
    /// Error texts and traces are not compared.
    pub fn canon(v: &Variable) -> Variable {
        match v {
            Variable::Result(Err(_)) => Variable::Result(Err(Box::new(crate::Error { message: Variable::f64(0.0), trace: vec![] }))),
            Variable::Result(Ok(x)) => Variable::Result(Ok(Box::new(canon(x)))),
            Variable::Option(Some(x)) => Variable::Option(Some(Box::new(canon(x)))),
            Variable::Array(a) => Variable::Array(Arc::new(a.iter().map(canon).collect())),
            Variable::Object(a) => Variable::Object(Arc::new(a.iter().map(|(k, x)| (k.clone(), canon(x))).collect())),
            x => x.clone(),
        }
    }
    /// Runs the program and compares the result and the trace with the meaning.
    fn nesting(src: &str) -> usize {
        let (mut d, mut m) = (0usize, 0);
        for c in src.chars() {
            match c { '(' | '[' | '{' => { d += 1; m = m.max(d) } ')' | ']' | '}' => d = d.saturating_sub(1), _ => {} }
        }
        m
    }
    pub fn compare(fs: &[F], strict: bool) {
        let src = program(fs);
        note(src.clone());
        // the parser needs time exponential in the nesting
        require(nesting(&src) <= 6);
        let mut m = Module::new();
        m.add_str("tr", ext_tr, Dfn::nl(vec![Type::Any], Type::Any));
        m.add_str("tv", ext_tv, Dfn::nl(vec![Type::Any], Type::Void));
        if let Err(e) = crate::load_str("script.dyon", Arc::new(src), &mut m) {
            // branches of an `if` may differ in `sec[..]` in one order only; the programs do not keep track of it
            let secret = e.contains("sec[") || e.contains("is a current object, use `clone(_)`")
                // `x?` as the value of a block whose `x` is declared in it
                || e.contains("does not live long enough") && e.contains("?\n");
            note(e);
            if strict && !secret { ensure(false, "a well-formed script is accepted"); }
            require(false);
        }
        let mut i = I::new(fs);
        let want = i.call(fs.len() - 1, vec![]);
        let want = want.map(|f| match f { Fl::V(Some(v)) => canon(&i.deep(&v)), _ => panic!("no value") });
        let trace: Vec<Variable> = i.trace.iter().map(canon).collect();
        TRACE.with(|t| t.borrow_mut().clear());
        let m = Arc::new(m);
        let mut rt = Runtime::new();
        let got = rt.call_str_ret("main", &[], &m).map(|v| canon(&v.deep_clone(&rt.stack)));
        let got_trace: Vec<Variable> = TRACE.with(|t| t.borrow().iter().map(canon).collect());
        let ok = match (&want, &got) { (Ok(a), Ok(b)) => same(a, b), (Err(_), Err(_)) => true, _ => false };
        if !ok || !same(&trace, &got_trace) {
            note(format!("want {:?} trace {:?}", want, trace));
            note(format!("got {:?} trace {:?}", got, got_trace));
        }
        ensure(same(&trace, &got_trace), "the script evaluates its expressions in order, each as often as the language says");
        ensure(ok, "the script computes the value the language gives it");
        cover(if want.is_ok() { "value" } else { "error" });
        if got.is_ok() {
            ensure(rt.stack.is_empty() && rt.local_stack.is_empty() && rt.call_stack.is_empty() && rt.current_stack.is_empty(), "a finished call leaves the runtime's stacks empty");
        }
    }

    // ------------------------------------------------------------ random scripts
    pub struct Gn {
        pub fs: Vec<F>,
        pub vars: Vec<(String, K)>,
        /// variables that may be assigned to
        pub lock: Vec<String>,
        pub n: usize,
        pub loops: Vec<Option<String>>,
        pub curs: Vec<String>,
        pub ret: Option<K>,
        pub clos: bool,
        pub inval: usize,
        pub lw: usize,
        /// the type of an `if` is the type of its first block, which then is no `return`
        pub noret: bool,
    }
    fn b(n: usize) -> usize { below(n) }
    /// may have a secret type to the type checker
    fn secret(x: &X) -> bool {
        match x {
            X::Fold(n, ..) => matches!(*n, "min" | "max" | "any" | "all"),
            X::Bin(_, a, b) => secret(a) || secret(b),
            X::Un(_, a) => secret(a),
            X::Var(_) | X::Own(_) | X::Item(..) | X::Lit(_) | X::Arr(_) | X::V4(_) | X::LinkX(_) | X::LinkFor(..) => false,
            X::Built(n, a) => *n != "tr" && a.iter().any(secret),
            X::If(cs, e) => cs.iter().map(|c| &c.1).chain(e.iter()).filter_map(|b| b.last()).any(|s| match s { S::Ex(x) => secret(x), _ => false }),
            X::Blk(b) => match b.last() { Some(S::Ex(x)) => secret(x), _ => false },
            _ => false,
        }
    }
    /// variables the value of an expression refers to
    fn bare(x: &X) -> Vec<String> {
        match x {
            X::Var(n) => vec![n.clone()],
            X::Item(n, _) => vec![n.clone()],
            X::If(cs, e) => cs.iter().map(|c| &c.1).chain(e.iter()).filter_map(|b| b.last()).flat_map(|s| match s { S::Ex(x) => bare(x), _ => vec![] }).collect(),
            X::Blk(b) => match b.last() { Some(S::Ex(x)) => bare(x), _ => vec![] },
            _ => vec![],
        }
    }
    impl Gn {
        pub fn new() -> Gn { Gn { fs: vec![], vars: vec![], lock: vec![], n: 0, loops: vec![], curs: vec![], ret: None, clos: false, inval: 0, lw: 1, noret: false } }
        pub fn fresh(&mut self) -> String {
            // names are reused so that declarations shadow each other
            self.n += 1;
            if b(4) == 0 && self.n > 1 { format!("v{}", b(self.n)) } else { format!("v{}", self.n) }
        }
        fn var(&self, k: K) -> Option<String> {
            // only the innermost declaration of a name is visible
            let mut c: Vec<&String> = vec![];
            for (i, (n, kk)) in self.vars.iter().enumerate() {
                if *kk == k && !self.vars[i + 1..].iter().any(|x| x.0 == *n) { c.push(n); }
            }
            if c.is_empty() { None } else { Some(c[b(c.len())].clone()) }
        }
        fn num(&self) -> X { X::Lit(Variable::f64(match b(6) { 0 => 0.0, 1 => 1.0, 2 => b(50) as f64 / 2.0, _ => b(5) as f64 })) }
        fn strl(&self) -> X { X::Lit(Variable::Str(Arc::new(["", "a", "b\"", "xy", "é", "\\", "\n"][b(7)].to_string()))) }
        pub fn blockx(&mut self, k: K, own: bool, d: usize) -> Vec<S> {
            let (v, c) = (self.vars.len(), self.curs.len());
            self.inval += 1;
            let noret = std::mem::replace(&mut self.noret, false);
            let mut out = vec![];
            for _ in 0..[0, 0, 0, 1, 2][b(5)] { self.st(&mut out, d.saturating_sub(1)); }
            if self.ret.is_some() && !self.clos && !noret && b(12) == 0 { let r = self.retx(d); out.push(S::Ret(r)); }
            else {
                // a variable of the block does not outlive it
                let x = self.x(k, own, d);
                let x = if secret(&x) || bare(&x).iter().any(|n| self.vars[v..].iter().any(|y| y.0 == *n)) { X::Built("tr", vec![x]) } else { x };
                out.push(S::Ex(x));
            }
            self.inval -= 1;
            self.vars.truncate(v);
            self.curs.truncate(c);
            out
        }
        fn retx(&mut self, d: usize) -> X {
            match self.ret { Some(K::R) => { if b(6) == 0 { X::Built("err", vec![self.strl()]) } else { X::Built("ok", vec![self.x(K::N, false, d)]) } } Some(k) => self.x(k, true, d), None => panic!() }
        }
        fn rng(&mut self, d: usize) -> Rng {
            let name = self.fresh();
            let lo = if b(3) == 0 { Some(Box::new(if b(2) == 0 { self.num() } else { X::Bin("-", Box::new(X::Lit(Variable::f64(b(3) as f64))), Box::new(X::Lit(Variable::f64(b(3) as f64)))) })) } else { None };
            let hi = match b(4) { 0 if d > 0 => self.x(K::N, false, d - 1), _ => X::Lit(Variable::f64(b(5) as f64)) };
            // a range that starts where it ends; computed ends stay small
            let hi = if matches!(hi, X::Lit(_)) { hi } else { X::Bin("%", Box::new(hi), Box::new(X::Lit(Variable::f64(4.0)))) };
            Rng { name, lo, hi: Some(Box::new(hi)) }
        }
        fn label(&mut self) -> Option<String> { if b(2) == 0 { self.n += 1; Some(format!("l{}", self.n)) } else { None } }
        fn rngs(&mut self, d: usize) -> Vec<Rng> {
            let n = [1, 1, 1, 2, 3][b(5)];
            let mut v = vec![];
            for _ in 0..n { let r = self.rng(d); self.vars.push((r.name.clone(), K::N)); self.lock.push(r.name.clone()); v.push(r); }
            v
        }
        fn foldx(&mut self, n: &'static str, k: K, own: bool, d: usize) -> X {
            let (v, l) = (self.vars.len(), self.lock.len());
            let lb = self.label();
            let r = self.rngs(d);
            let saved = std::mem::take(&mut self.inval);
            let lps = self.loops.len();
            // a break out of a loop that computes a value leaves outer loops only at statement level
            let mut out = vec![];
            self.loops.push(lb.clone());
            let base = self.loops.split_off(lps);
            let outer = std::mem::replace(&mut self.loops, base);
            let w = self.vars.len();
            for _ in 0..[0, 0, 1, 2][b(4)] { self.st(&mut out, d.saturating_sub(1)); }
            self.inval = 1;
            let x = self.x(k, own, d);
            let x = if bare(&x).iter().any(|n| self.vars[w..].iter().any(|y| y.0 == *n)) { X::Built("tr", vec![x]) } else { x };
            out.push(S::Ex(x));
            self.inval = saved;
            self.loops = outer;
            self.vars.truncate(v);
            self.lock.truncate(l);
            X::Fold(n, lb, r, out)
        }
        /// An expression of kind `k`; `own`: its value holds no reference.
        pub fn x(&mut self, k: K, own: bool, d: usize) -> X {
            if d == 0 || b(6) == 0 {
                if b(3) > 0 {
                    if self.clos && b(2) == 0 {
                        // outer variables are out of reach
                    } else if let Some(n) = self.var(k) { return if own { X::Own(n) } else { X::Var(n) }; }
                }
                return match k {
                    K::N => self.num(),
                    K::B => X::Lit(Variable::bool(b(2) == 0)),
                    K::S => self.strl(),
                    K::A => X::Arr((0..b(4)).map(|_| self.num()).collect()),
                    K::V => X::V4((0..4).map(|_| self.num()).collect()),
                    K::O => if b(3) == 0 { X::Built("none", vec![]) } else { X::Built("some", vec![self.num()]) },
                    K::R => if b(3) == 0 { X::Built("err", vec![self.strl()]) } else { X::Built("ok", vec![self.num()]) },
                    K::L => X::LinkX((0..b(3)).map(|_| self.num()).collect()),
                    K::C => panic!("closure"),
                };
            }
            let e = d - 1;
            let bx = |x: X| Box::new(x);
            match b(8) {
                0 => { let mut cs = vec![]; for j in 0..1 + b(4) / 2 { let c = self.x(K::B, false, e); self.noret = j == 0; let bl = self.blockx(k, own, e); cs.push((c, bl)); } let el = self.blockx(k, own, e); return X::If(cs, Some(el)); }
                1 => if b(2) == 0 { let bl = self.blockx(k, own, e); if !matches!(bl.last(), Some(S::Ret(_))) { return X::Blk(bl) } },
                2 => return X::Built("tr", vec![self.x(k, false, e)]),
                3 => {
                    let c: Vec<usize> = (0..self.fs.len()).filter(|i| self.fs[*i].ret == Some(k) && self.fs[*i].params.iter().all(|p| !p.0) && self.fs[*i].cur.iter().all(|c| self.curs.contains(&c.1))).collect();
                    if !c.is_empty() {
                        let i = c[b(c.len())];
                        let ps: Vec<K> = self.fs[i].params.iter().map(|p| p.2).collect();
                        return X::Call(i, ps.iter().map(|k| (false, self.x(*k, false, e))).collect());
                    }
                }
                4 if self.clos && b(2) == 0 => {}
                _ => {}
            }
            match k {
                K::N => match b(14 + self.lw * 5) {
                    0 => X::Un("-", bx(self.x(K::N, false, e))),
                    1 => X::Built("len", vec![self.x(K::A, false, e)]),
                    2 => X::Built(["x", "y", "z", "w"][b(4)], vec![self.x(K::V, false, e)]),
                    3 => match self.var(K::A) {
                        Some(a) => { let i = if b(2) == 0 { Id::I(b(3)) } else { Id::E(bx(self.x(K::N, false, e))) }; if own || b(2) == 0 { X::ItemOwn(a, vec![(i, false)]) } else { X::Item(a, vec![(i, false)]) } }
                        None => self.num(),
                    },
                    4 => match self.var(K::C) { Some(c) => X::CallC(c, vec![self.x(K::N, false, e), self.x(K::N, false, e)]), None => self.num() },
                    5 => { let o = if b(2) == 0 { K::O } else { K::R }; X::Built("unwrap_or", vec![self.x(o, false, e), self.x(K::N, false, e)]) }
                    6 | 7 if self.ret == Some(K::R) && !self.clos => { let o = if b(2) == 0 { K::O } else { K::R }; match self.var(o) { Some(v) if b(2) == 0 => X::Try(bx(X::Var(v))), _ => X::Try(bx(X::Built("tr", vec![self.x(o, false, e)]))) } }
                    8 => X::Bin("*.", bx(self.x(K::V, false, e)), bx(self.x(K::V, false, e))),
                    n if n >= 14 => self.foldx(["sum", "prod", "min", "max"][b(4)], K::N, false, e),
                    _ => X::Bin(["+", "-", "*", "/", "%", "^"][b(6)], bx(self.x(K::N, false, e)), bx(self.x(K::N, false, e))),
                },
                K::B => match b(9 + self.lw) {
                    0 | 1 => X::Bin(["&&", "||"][b(2)], bx(self.x(K::B, false, e)), bx(self.x(K::B, false, e))),
                    2 => X::Un("!", bx(self.x(K::B, false, e))),
                    3 => X::Bin(["==", "!="][b(2)], bx(self.x(K::S, false, e)), bx(self.x(K::S, false, e))),
                    4 => X::Built("is_ok", vec![self.x(K::R, false, e)]),
                    n if n >= 8 => self.foldx(["any", "all"][b(2)], K::B, false, e),
                    _ => X::Bin(["<", "<=", ">", ">=", "==", "!="][b(6)], bx(self.x(K::N, false, e)), bx(self.x(K::N, false, e))),
                },
                K::S => X::Bin("+", bx(self.x(K::S, false, e)), bx(self.x(K::S, false, e))),
                K::A => match b(3 + self.lw) {
                    0 => X::Fill(bx(self.x(K::N, true, e)), bx(X::Lit(Variable::f64(b(4) as f64)))),
                    n if n > 2 => self.foldx_sift(e),
                    _ => X::Arr((0..b(4)).map(|_| self.x(K::N, true, e)).collect()),
                },
                K::V => match b(4 + self.lw) {
                    0 => X::Bin(["+", "-", "*"][b(3)], bx(self.x(K::V, false, e)), bx(self.x(K::V, false, e))),
                    1 => X::V4(vec![X::Sw(["xy", "yx", "ww", "zy"][b(4)], bx(self.x(K::V, false, e))), self.comp(e), self.comp(e)]),
                    2 => X::V4(vec![self.comp(e), X::Sw(["xyz", "zyx", "wwx"][b(3)], bx(self.x(K::V, false, e)))]),
                    n if n > 3 => self.foldx(["sum_vec4", "prod_vec4"][b(2)], K::V, false, e),
                    _ => X::V4((0..4).map(|_| self.comp(e)).collect()),
                },
                K::O => X::Built("some", vec![self.x(K::N, false, e)]),
                K::R => if b(3) == 0 { X::TryE(bx(self.x(K::N, true, e))) } else { X::Built("ok", vec![self.x(K::N, false, e)]) },
                K::L => {
                    if self.lw > 0 && b(2) == 0 {
                        let (v, l) = (self.vars.len(), self.lock.len());
                        let lb = self.label();
                        let r = self.rngs(e);
                        let outer = std::mem::replace(&mut self.loops, vec![lb.clone()]);
                        let mut items = vec![];
                        for _ in 0..1 + b(3) {
                            items.push(match b(6) {
                                0 => { let c = self.x(K::B, false, e); let l = if b(2) == 0 { lb.clone() } else { None }; let s = if b(2) == 0 { S::Brk(l) } else { S::Cont(l) }; X::If(vec![(c, vec![s])], None) }
                                1 => self.x(K::S, false, e),
                                2 => self.x(K::L, false, e.min(1)),
                                _ => self.x(K::N, false, e),
                            });
                        }
                        self.loops = outer;
                        self.vars.truncate(v);
                        self.lock.truncate(l);
                        X::LinkFor(lb, r, items)
                    } else { X::LinkX((0..b(4)).map(|_| { let k = [K::N, K::S, K::B, K::L][b(4)]; self.x(k, false, e) }).collect()) }
                }
                K::C => panic!("closure"),
            }
        }
        /// A component of a vector; the values of `min` and `max` are no components to the type checker.
        fn comp(&mut self, e: usize) -> X {
            match self.x(K::N, false, e) {
                x @ (X::Lit(_) | X::Bin(..) | X::Var(_)) if !secret(&x) => x,
                x => X::Built("tr", vec![x]),
            }
        }
        fn foldx_sift(&mut self, d: usize) -> X { 
            // sift over several ranges gives nested arrays, which other functions do not expect
            let mut x = self.foldx("sift", K::N, true, d);
            for _ in 0..20 { if let X::Fold(_, _, r, _) = &x { if r.len() == 1 { return x; } } x = self.foldx("sift", K::N, true, d); }
            X::Arr(vec![])
        }
        pub fn block(&mut self, n: usize, d: usize) -> Vec<S> {
            let (v, c) = (self.vars.len(), self.curs.len());
            let mut out = vec![];
            for _ in 0..n { self.st(&mut out, d); }
            self.vars.truncate(v);
            self.curs.truncate(c);
            out
        }
        fn kind(&self) -> K { [K::N, K::N, K::N, K::B, K::S, K::A, K::V, K::O, K::R, K::L][b(10)] }
        pub fn st(&mut self, out: &mut Vec<S>, d: usize) {
            let e = d.saturating_sub(1);
            let s = match b(15 + 3 * self.lw) {
                0..=2 => {
                    let k = self.kind();
                    let x = X::Built("tr", vec![self.x(k, false, d)]);
                    let n = self.fresh();
                    if self.lock.contains(&n) { return; }
                    self.vars.push((n.clone(), k));
                    S::Decl(false, n, x)
                }
                3 => {
                    // copy of a variable
                    let k = self.kind();
                    match self.var(k) { Some(v) => { let n = self.fresh(); if self.lock.contains(&n) { return; } self.vars.push((n.clone(), k)); S::Decl(false, n, X::Var(v)) } None => return }
                }
                4 | 5 => {
                    let k = self.kind();
                    match self.var(k) { Some(v) if !self.lock.contains(&v) && !self.clos => S::Set(X::Var(v), "=", self.x(k, true, d)), _ => return }
                }
                6 => match self.var(K::N) { Some(v) if !self.lock.contains(&v) && !self.clos => S::Set(X::Var(v), ["+=", "-=", "*=", "/=", "%=", "^="][b(6)], self.x(K::N, false, d)), _ => return },
                7 => match self.var(K::A) { Some(v) if !self.lock.contains(&v) && !self.clos => S::Set(X::Item(v, vec![(if b(2) == 0 { Id::I(b(3)) } else { Id::E(Box::new(self.x(K::N, false, e))) }, false)]), ["=", "+=", "*="][b(3)], self.x(K::N, true, d)), _ => return },
                8 => S::Ex(X::Built("tv", vec![{ let k = self.kind(); self.x(k, false, d) }])),
                9 | 10 => {
                    if d == 0 { return; }
                    let mut cs = vec![];
                    for _ in 0..1 + b(4) / 2 { let c = self.x(K::B, false, e); let n = 1 + b(2); let bl = self.block(n, e); cs.push((c, bl)); }
                    let el = if b(2) == 0 { Some(self.block(1, e)) } else { None };
                    S::Ex(X::If(cs, el))
                }
                11 => {
                    // a closure of two numbers; it sees its arguments and what it grabs
                    if self.clos { return; }
                    let n = self.fresh();
                    if self.lock.contains(&n) { return; }
                    let ps = vec![format!("p{}", self.n), format!("q{}", self.n)];
                    let outer = std::mem::take(&mut self.vars);
                    let (lk, ls, rt, cu) = (std::mem::take(&mut self.lock), std::mem::take(&mut self.loops), self.ret, std::mem::take(&mut self.curs));
                    self.ret = None;
                    for p in &ps { self.vars.push((p.clone(), K::N)); self.lock.push(p.clone()); }
                    self.clos = true;
                    let mut body = X::Bin("+", Box::new(X::Var(ps[0].clone())), Box::new(self.x(K::N, false, e)));
                    self.clos = false;
                    self.vars = outer;
                    self.lock = lk;
                    self.loops = ls;
                    self.ret = rt;
                    self.curs = cu;
                    let (rt, ls) = (self.ret.take(), std::mem::take(&mut self.loops));
                    for _ in 0..b(3) { let g = X::Grab(Box::new(match self.var(K::N) { Some(v) if b(3) > 0 => X::Var(v), _ => X::Built("tr", vec![self.x(K::N, false, 1)]) })); body = X::Bin(["-", "*", "+"][b(3)], Box::new(g), Box::new(body)); }
                    self.ret = rt;
                    self.loops = ls;
                    self.vars.push((n.clone(), K::C));
                    S::Decl(false, n, X::Clos(ps, Box::new(body)))
                }
                12 => {
                    // void call; distinct variables for mutable arguments
                    let c: Vec<usize> = (0..self.fs.len()).filter(|i| self.fs[*i].ret.is_none() && self.fs[*i].cur.iter().all(|c| self.curs.contains(&c.1))).collect();
                    if c.is_empty() || self.clos { return; }
                    let i = c[b(c.len())];
                    let ps = self.fs[i].params.clone();
                    let mut used: Vec<String> = vec![];
                    let mut args = vec![];
                    for (m, _, k) in &ps {
                        if *m {
                            match self.var(*k) { Some(v) if !used.contains(&v) && !self.lock.contains(&v) => { used.push(v.clone()); args.push((true, X::Var(v))) } _ => return }
                        } else { args.push((false, X::Built("tr", vec![self.x(*k, false, e)]))) }
                    }
                    S::Ex(X::Call(i, args))
                }
                13 => {
                    if self.loops.is_empty() || self.inval > 0 || self.clos { return; }
                    let l = if b(2) == 0 { self.loops[b(self.loops.len())].clone() } else { None };
                    let c = self.x(K::B, false, e);
                    let s = match b(5) { 0 if self.ret.is_some() => { let r = self.retx(e); S::Ret(r) } 1 | 2 => S::Cont(l), _ => S::Brk(l) };
                    S::Ex(X::If(vec![(c, vec![s])], None))
                }
                14 => match b(3) {
                    0 if self.ret.is_some() && !self.clos => { let r = self.retx(e); S::RetSet(r) }
                    1 if !self.clos && self.inval == 0 => {
                        let n = ["c0", "c1"][b(2)].to_string();
                        let x = X::Built("tr", vec![self.x(K::N, false, e)]);
                        self.curs.push(n.clone());
                        self.vars.push((n.clone(), K::N));
                        S::Decl(true, n, x)
                    }
                    _ => return,
                },
                _ => {
                    if d == 0 { return; }
                    let (v, l) = (self.vars.len(), self.lock.len());
                    let lb = self.label();
                    let s = match b(4) {
                        0 => {
                            let n = self.fresh();
                            if self.lock.contains(&n) { return; }
                            let i = X::Built("tr", vec![self.num()]);
                            self.vars.push((n.clone(), K::N));
                            let lim = X::Bin("<", Box::new(X::Var(n.clone())), Box::new(X::Lit(Variable::f64(b(6) as f64))));
                            let c = if b(3) == 0 { let y = self.x(K::B, false, 0); X::Bin("&&", Box::new(lim), Box::new(y)) } else { lim };
                            let st = Box::new(S::Set(X::Var(n.clone()), "+=", X::Lit(Variable::f64(1.0 + b(2) as f64))));
                            self.lock.push(n.clone());
                            let sv = std::mem::take(&mut self.inval);
                            self.loops.push(lb.clone());
                            let k = 1 + b(3);
                            let bl = self.block(k, e);
                            self.loops.pop();
                            self.inval = sv;
                            S::ForC(lb, n, i, c, st, bl)
                        }
                        1 => {
                            // a loop that leaves after some rounds
                            let n = self.fresh();
                            if self.lock.contains(&n) { return; }
                            self.vars.push((n.clone(), K::N));
                            self.lock.push(n.clone());
                            out.push(S::Decl(false, n.clone(), X::Built("tr", vec![X::Lit(Variable::f64(0.0))])));
                            let sv = std::mem::take(&mut self.inval);
                            self.loops.push(lb.clone());
                            let k = 1 + b(2);
                            let mut bl = vec![S::Set(X::Var(n.clone()), "+=", X::Lit(Variable::f64(1.0))), S::Ex(X::If(vec![(X::Bin(">", Box::new(X::Var(n.clone())), Box::new(X::Lit(Variable::f64(b(4) as f64)))), vec![S::Brk(if b(2) == 0 { lb.clone() } else { None })])], None))];
                            bl.extend(self.block(k, e));
                            self.loops.pop();
                            self.inval = sv;
                            self.lock.truncate(l);
                            out.push(S::Loop(lb, bl));
                            return;
                        }
                        _ => {
                            let r = self.rngs(e);
                            let sv = std::mem::take(&mut self.inval);
                            self.loops.push(lb.clone());
                            let k = 1 + b(3);
                            let bl = self.block(k, e);
                            self.loops.pop();
                            self.inval = sv;
                            S::For(lb, r, bl)
                        }
                    };
                    self.vars.truncate(v);
                    self.lock.truncate(l);
                    s
                }
            };
            out.push(s);
        }
        /// Adds a function; `main` last.
        pub fn func(&mut self, main: bool, d: usize) {
            self.vars.clear();
            self.lock.clear();
            self.loops.clear();
            self.curs.clear();
            let mut params = vec![];
            let mut cur = vec![];
            self.ret = if main { Some(if b(3) == 0 { K::R } else { self.kind() }) } else if b(3) == 0 { None } else { Some(if b(3) == 0 { K::R } else { self.kind() }) };
            if !main {
                for i in 0..b(4) {
                    let m = self.ret.is_none() && b(2) == 0;
                    params.push((m, format!("a{}", i), self.kind()));
                }
                if b(3) == 0 { cur.push((b(2) == 0, ["c0", "c1"][b(2)].to_string())); }
            }
            for (m, n, k) in &params { self.vars.push((n.clone(), *k)); if !*m { self.lock.push(n.clone()) } }
            for (m, n) in &cur { self.vars.push((n.clone(), K::N)); self.curs.push(n.clone()); if !*m { self.lock.push(n.clone()) } }
            self.n += 1;
            let ret = self.ret;
            let mut body = vec![];
            for _ in 0..1 + b(5) { self.st(&mut body, d); }
            if ret.is_some() { let r = self.retx(d); body.push(S::Ret(r)); } else { body.push(S::Ex(X::Built("tv", vec![self.num()]))); }
            let name = if main { "main".to_string() } else { format!("f{}", self.fs.len()) };
            self.fs.push(F { name, params, cur, ret, body });
        }
    }

    // ------------------------------------------------------------ random scripts about parts of values
    /// A value as an expression; `outer`: variables it may refer to.
    fn part(outer: &[String], d: usize) -> X {
        match b(if d == 0 { 5 } else { 10 }) {
            0 if !outer.is_empty() => X::Var(outer[b(outer.len())].clone()),
            1 if !outer.is_empty() => X::Own(outer[b(outer.len())].clone()),
            2 => X::Lit(Variable::Str(Arc::new(["a", "xy", ""][b(3)].to_string()))),
            3 => X::Lit(Variable::bool(b(2) == 0)),
            0..=4 => X::Lit(Variable::f64(b(9) as f64)),
            5 | 6 => X::Arr((0..b(4)).map(|_| part(outer, d - 1)).collect()),
            7 | 8 => { let ks = ["k", "l", "m"]; X::Obj((0..b(4)).map(|j| (ks[j], part(outer, d - 1))).collect()) }
            _ => match b(4) { 0 => X::Built("none", vec![]), 1 => X::Built("ok", vec![part(&[], d - 1)]), 2 => X::Built("err", vec![X::Lit(Variable::Str(Arc::new("e".into())))]), _ => X::Built("some", vec![part(&[], d - 1)]) },
        }
    }
    /// A path into the value, mostly one that exists.
    fn walk(i: &I, n: &str, tries: bool) -> (Vec<(Id, bool)>, Variable) {
        let mut v = i.mem[i.cell(n)].clone();
        let mut ids = vec![];
        loop {
            while let Variable::Ref(c) = v { v = i.mem[c].clone(); }
            if b(4) == 0 { break; }
            let mut next = match &v {
                Variable::Array(a) if !a.is_empty() => {
                    let j = if b(20) == 0 { a.len() + b(2) } else { b(a.len()) };
                    let two = match a.get(j).map(|x| i.get(x)) { Some(Variable::Array(y)) if !y.is_empty() && b(3) == 0 => { let l = b(y.len()); Some((l, y[l].clone())) } _ => None };
                    let num = |j: usize| X::Lit(Variable::f64(j as f64));
                    match two {
                        Some((l, x)) => { ids.push((Id::E(Box::new(X::Arr(vec![num(j), num(l)]))), false)); x }
                        None => {
                            ids.push((match b(3) { 0 => Id::E(Box::new(X::Built("tr", vec![num(j)]))), 1 => Id::E(Box::new(X::Bin("+", Box::new(X::Built("tr", vec![num(0)])), Box::new(num(j))))), _ => Id::I(j) }, false));
                            match a.get(j) { Some(x) => x.clone(), None => break }
                        }
                    }
                }
                Variable::Object(o) if !o.is_empty() => {
                    let k = ["k", "l", "m"][b(3)];
                    match o.get(&Arc::new(k.to_string())) { Some(x) => { ids.push((Id::K(k), false)); x.clone() } None if b(9) == 0 => { ids.push((Id::K(k), false)); break } None => continue }
                }
                _ => break,
            };
            while let Variable::Ref(c) = next { next = i.mem[c].clone(); }
            if tries && b(6) > 0 {
                match &next {
                    Variable::Option(Some(x)) | Variable::Result(Ok(x)) => { ids.last_mut().unwrap().1 = true; next = (**x).clone(); }
                    Variable::Option(None) | Variable::Result(Err(_)) if b(4) == 0 => { ids.last_mut().unwrap().1 = true; return (ids, next); }
                    _ => {}
                }
            }
            v = next;
        }
        while let Variable::Ref(c) = v { v = i.mem[c].clone(); }
        (ids, v)
    }
    fn at_path(n: &str, ids: Vec<(Id, bool)>) -> X { if ids.is_empty() { X::Var(n.to_string()) } else { X::Item(n.to_string(), ids) } }
    pub fn items_program() -> Vec<F> {
        let v = |n: &str| n.to_string();
        let num = |x: f64| X::Lit(Variable::f64(x));
        let helpers = vec![
            F { name: v("h0(mut,_)"), params: vec![(true, v("a"), K::A), (false, v("x"), K::N)], cur: vec![], ret: None, body: vec![S::Set(X::Var(v("a")), "=", X::Own(v("x")))] },
            F { name: v("h1(mut)"), params: vec![(true, v("a"), K::A)], cur: vec![], ret: None, body: vec![S::Set(X::Item(v("a"), vec![(Id::I(0), false)]), "=", num(77.0)), S::Ex(X::Built("tv", vec![X::Var(v("a"))]))] },
            F { name: v("h2"), params: vec![(false, v("a"), K::A)], cur: vec![], ret: Some(K::A), body: vec![S::Decl(false, v("c"), X::Var(v("a"))), S::Set(X::Item(v("c"), vec![(Id::I(0), false)]), "=", num(78.0)), S::Ret(X::Own(v("c")))] },
            F { name: v("h3(mut)"), params: vec![(true, v("a"), K::A)], cur: vec![], ret: None, body: vec![S::Set(X::Item(v("a"), vec![(Id::K("k"), false)]), ":=", num(79.0))] },
        ];
        let fs: &'static Vec<F> = Box::leak(Box::new(helpers.clone()));
        let mut i = I::new(fs);
        let mut body: Vec<S> = vec![];
        let mut vars: Vec<String> = vec![];
        for _ in 0..2 + b(8) {
            let k = if vars.is_empty() { 0 } else { b(vars.len()) };
            let s = match if vars.is_empty() { 0 } else { b(13) } {
                0 | 1 => { let x = part(&vars, 2); let n = format!("v{}", vars.len()); vars.push(n.clone()); S::Decl(false, n, x) }
                2 => { let (p, _) = walk(&i, &vars[k], true); let x = at_path(&vars[k], p); let n = format!("v{}", vars.len()); vars.push(n.clone()); S::Decl(false, n, x) }
                3 | 4 => {
                    let (p, old) = walk(&i, &vars[k], b(4) == 0);
                    let x = match &old { Variable::F64(..) => num(b(9) as f64), Variable::Str(_) => X::Lit(Variable::Str(Arc::new("n".into()))), Variable::Bool(..) => X::Lit(Variable::bool(b(2) == 0)), Variable::Array(_) => X::Arr((0..b(3)).map(|_| part(&vars[..k], 1)).collect()), _ => part(&vars[..k], 1) };
                    S::Set(at_path(&vars[k], p), "=", if b(8) == 0 { part(&vars[..k], 1) } else { x })
                }
                5 => {
                    let (p, old) = walk(&i, &vars[k], b(4) == 0);
                    let x = match &old { Variable::Str(_) => X::Lit(Variable::Str(Arc::new("n".into()))), _ => num(b(5) as f64) };
                    S::Set(at_path(&vars[k], p), ["+=", "-=", "*=", "/=", "%=", "^="][if matches!(old, Variable::Str(_)) { 0 } else { b(6) }], x)
                }
                6 => {
                    let (mut p, old) = walk(&i, &vars[k], false);
                    if !matches!(old, Variable::Object(_)) { continue; }
                    p.push((Id::K(["k", "l", "m"][b(3)]), false));
                    S::Set(at_path(&vars[k], p), ":=", part(&[], 1))
                }
                7 | 8 => { let (p, _) = walk(&i, &vars[k], true); S::Ex(X::Built("tv", vec![at_path(&vars[k], p)])) }
                9 => S::Ex(X::Call([0, 1, 3][b(3)], vec![(true, X::Var(vars[k].clone())), (false, part(&vars, 1))])),
                10 => { let n = format!("v{}", vars.len()); vars.push(n.clone()); S::Decl(false, n, X::Built("tr", vec![X::Call(2, vec![(false, X::Var(vars[k].clone()))])])) }
                _ => { let (p, _) = walk(&i, &vars[k], true); S::Ex(X::Built("tv", vec![if p.is_empty() { X::Own(vars[k].clone()) } else { X::ItemOwn(vars[k].clone(), p) }])) }
            };
            let s = match s { S::Ex(X::Call(h, mut a)) => { a.truncate(fs[h].params.len()); S::Ex(X::Call(h, a)) } s => s };
            body.push(s);
            match i.stm(body.last().unwrap()) { Ok(Fl::V(_)) => {} _ => break }
        }
        for n in &vars { body.push(S::Ex(X::Built("tv", vec![X::Own(n.clone())]))); }
        body.push(S::Ret(X::Built("ok", vec![num(1.0)])));
        let mut out = helpers;
        out.push(F { name: v("main"), params: vec![], cur: vec![], ret: Some(K::R), body });
        out
    }
}
