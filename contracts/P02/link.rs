// P02: a link is an immutable-looking sequence of bool, f64 and str items.
// Representation invariant: every slice is non-empty (start < end <= 124) and every item of its
// block before `end` has a type tag.
use super::*;
use crate::verif::*;
use crate::Variable;

fn tag(b: &Block, k: usize) -> u64 {
    (b.tys[k / 32] >> ((k % 32) * 2)) & 3
}
fn scalar(v: &Variable) -> bool {
    matches!(v, Variable::Bool(..) | Variable::F64(..) | Variable::Str(_))
}
/// `x` is the item stored for `v` (items carry no secrets).
fn stored(x: &Variable, v: &Variable) -> bool {
    match (x, v) {
        (Variable::Bool(a, None), Variable::Bool(b, _)) => a == b,
        (Variable::F64(a, None), Variable::F64(b, _)) => same(&a.to_bits(), &b.to_bits()),
        (Variable::Str(a), Variable::Str(b)) => same(a, b),
        _ => false,
    }
}

// ---- Block
pub fn vc_block_push(b: Block, v: Variable, pos: usize) {
    require(scalar(&v) && pos < BLOCK_SIZE);
    let j = skolem();
    require(j < BLOCK_SIZE && j != pos && tag(&b, j) != EMPTY);
    let old = b.var(j as u8);
    let mut b = b;
    b.push(&v, pos);
    cover("push");
    ensure(stored(&b.var(pos as u8), &v), "an item reads back as it was pushed");
    ensure(same(&b.var(j as u8), &old), "pushing an item leaves every other item of the block as it was");
}
pub fn vc_block_push_tags(b: Block, v: Variable, pos: usize) {
    require(scalar(&v) && pos < BLOCK_SIZE);
    let j = skolem();
    require(j < BLOCK_SIZE && j != pos);
    let t = tag(&b, j);
    let mut b = b;
    b.push(&v, pos);
    ensure(tag(&b, pos) != EMPTY, "a pushed item is tagged");
    ensure(tag(&b, j) == t, "the tags of other items are kept");
}
pub fn vc_block_clone(b: Block) {
    let j = skolem();
    require(j < BLOCK_SIZE);
    let c = b.clone();
    ensure(tag(&c, j) == tag(&b, j), "a cloned block has the same tags");
    if tag(&b, j) != EMPTY {
        cover("item");
        ensure(same(&c.var(j as u8), &b.var(j as u8)), "a cloned block has the same items");
    }
}
// ---- Link.  Item (k, i) of a link is item i of its k-th slice.  The postconditions below say which
// item every position of the result holds; natively the same is checked over the whole sequence.
fn wf_slice(s: &Slice) -> bool {
    s.start < s.end && (s.end as usize) <= BLOCK_SIZE
}
fn wf_item(s: &Slice, i: u8) -> bool {
    !(s.start <= i && i < s.end) || tag(&s.block, i as usize) != EMPTY
}
/// The representation invariant at the slices and items a contract looks at.
fn wf_at(l: &Link, k: usize, i: u8) -> bool {
    k >= l.slices.len() || (wf_slice(&l.slices[k]) && wf_item(&l.slices[k], i))
}
fn wf_ends(l: &Link) -> bool {
    let n = l.slices.len();
    n == 0 || (wf_slice(&l.slices[0]) && wf_slice(&l.slices[n - 1]))
}
fn seq(l: &Link) -> Vec<Variable> {
    let mut out = vec![];
    for s in &l.slices {
        for i in s.start..s.end {
            out.push(s.block.var(i))
        }
    }
    out
}
/// `out` is `l` without the secrets.
fn bare(v: &Variable) -> Variable {
    match v {
        Variable::Bool(a, _) => Variable::bool(*a),
        Variable::F64(a, _) => Variable::f64(*a),
        x => x.clone(),
    }
}
fn same_slice(a: &Slice, b: &Slice) -> bool {
    a.start == b.start && a.end == b.end && same(&a.block, &b.block)
}
impl Same for Block {
    fn same_(&self, o: &Block) -> bool {
        (0..BLOCK_SIZE).all(|k| tag(self, k) == tag(o, k) && (tag(self, k) == EMPTY || self.var(k as u8).same_(&o.var(k as u8))))
    }
}

pub fn vc_push_scalar(l: Link, v: Variable) {
    require(scalar(&v));
    let mut m = snap(&l);
    if native() {
        let mut want = seq(&l);
        want.push(bare(&v));
        ensure(m.push(&v).is_ok(), "a scalar can be pushed");
        ensure(same(&seq(&m), &want), "pushing appends one item");
        return;
    }
    require(wf_ends(&l));
    let n = l.slices.len();
    let k = skolem();
    let i = any::<u8>();
    require(k < n && wf_at(&l, k, i) && wf_item(&l.slices[n - 1], i));
    let r = m.push(&v);
    ensure(r.is_ok(), "a scalar can be pushed");
    let last = m.slices.len() - 1;
    ensure(stored(&m.slices[last].block.var(m.slices[last].end - 1), &v), "the last item is the pushed one");
    ensure(wf_slice(&m.slices[last]), "the last slice is well formed");
    if m.slices.len() == n {
        cover("in place");
        ensure(m.slices[n - 1].end == l.slices[n - 1].end + 1, "one item is appended");
    } else {
        cover("new block");
        ensure(m.slices.len() == n + 1 && m.slices[n].end == m.slices[n].start + 1, "one item is appended");
        ensure(m.slices[n - 1].end == l.slices[n - 1].end, "earlier blocks keep their items");
    }
    ensure(m.slices[k].start == l.slices[k].start && (k == n - 1 || m.slices[k].end == l.slices[k].end), "earlier slices keep their bounds");
    if l.slices[k].start <= i && i < l.slices[k].end {
        cover("old item");
        ensure(same(&m.slices[k].block.var(i), &l.slices[k].block.var(i)), "pushing keeps every earlier item");
    }
}
pub fn vc_push_empty(v: Variable) {
    require(scalar(&v));
    let mut m = Link::new();
    ensure(m.is_empty(), "a new link is empty");
    ensure(m.head().is_none() && m.tip().is_none(), "an empty link has no head and no tip");
    ensure(m.tail().is_empty() && m.neck().is_empty(), "tail and neck of an empty link are empty");
    ensure(m.push(&v).is_ok(), "a scalar can be pushed");
    ensure(!m.is_empty(), "a link with an item is not empty");
    match (m.head(), m.tip()) {
        (Some(h), Some(t)) => ensure(stored(&h, &v) && stored(&t, &v), "the only item is head and tip"),
        _ => ensure(false, "the only item is head and tip"),
    }
    ensure(m.tail().is_empty() && m.neck().is_empty(), "tail and neck of a one item link are empty");
}
pub fn vc_push_other(l: Link, v: Variable) {
    require(!scalar(&v) && !matches!(v, Variable::Link(_)));
    let mut m = snap(&l);
    cover("rejected");
    ensure(m.push(&v).is_err(), "only bool, f64, str and links can be pushed");
    ensure(same(&m, &l), "a rejected item leaves the link as it was");
}
pub fn vc_head_tip(l: Link) {
    if native() {
        let s = seq(&l);
        ensure(l.is_empty() == s.is_empty(), "is_empty");
        ensure(same(&l.head().map(|x| *x), &s.first().cloned()), "head is the first item");
        ensure(same(&l.tip().map(|x| *x), &s.last().cloned()), "tip is the last item");
        return;
    }
    require(wf_ends(&l));
    let n = l.slices.len();
    ensure(l.is_empty() == (n == 0), "is_empty");
    if n == 0 {
        cover("empty");
        ensure(l.head().is_none() && l.tip().is_none(), "an empty link has no head and no tip");
        return;
    }
    let (a, b) = (&l.slices[0], &l.slices[n - 1]);
    require(wf_item(a, a.start) && wf_item(b, b.end - 1));
    cover("items");
    match l.head() {
        Some(h) => ensure(same(&*h, &a.block.var(a.start)), "head is the first item"),
        None => ensure(false, "a link with items has a head"),
    }
    match l.tip() {
        Some(t) => ensure(same(&*t, &b.block.var(b.end - 1)), "tip is the last item"),
        None => ensure(false, "a link with items has a tip"),
    }
}
pub fn vc_tail(l: Link) {
    if native() {
        let s = seq(&l);
        ensure(same(&seq(&l.tail()), &s.iter().skip(1).cloned().collect::<Vec<_>>()), "tail drops the first item");
        ensure(same(&seq(&l), &s), "tail leaves the link as it was");
        return;
    }
    require(wf_ends(&l));
    let n = l.slices.len();
    let k = skolem();
    let t = l.tail();
    if n == 0 {
        ensure(t.is_empty(), "tail of an empty link is empty");
        return;
    }
    let one = l.slices[0].end - l.slices[0].start == 1;
    if one {
        cover("block used up");
        ensure(t.slices.len() == n - 1, "tail drops the first item");
        require(k < n - 1);
        ensure(same_slice(&t.slices[k], &l.slices[k + 1]), "tail keeps the other items");
    } else {
        cover("block kept");
        ensure(t.slices.len() == n, "tail drops one item only");
        let (a, b) = (&t.slices[0], &l.slices[0]);
        ensure(a.start == b.start + 1 && a.end == b.end && same(&a.block, &b.block), "tail drops the first item");
        require(k > 0 && k < n);
        ensure(same_slice(&t.slices[k], &l.slices[k]), "tail keeps the other items");
    }
}
pub fn vc_neck(l: Link) {
    if native() {
        let s = seq(&l);
        ensure(same(&seq(&l.neck()), &s.iter().take(s.len().max(1) - 1).cloned().collect::<Vec<_>>()), "neck drops the last item");
        ensure(same(&seq(&l), &s), "neck leaves the link as it was");
        return;
    }
    require(wf_ends(&l));
    let n = l.slices.len();
    let k = skolem();
    let t = l.neck();
    if n == 0 {
        ensure(t.is_empty(), "neck of an empty link is empty");
        return;
    }
    let b = &l.slices[n - 1];
    if b.end - b.start == 1 {
        cover("block used up");
        ensure(t.slices.len() == n - 1, "neck drops the last item");
    } else {
        cover("block kept");
        ensure(t.slices.len() == n, "neck drops one item only");
        let a = &t.slices[n - 1];
        ensure(a.start == b.start && a.end == b.end - 1 && same(&a.block, &b.block), "neck drops the last item");
    }
    require(k < n - 1);
    ensure(same_slice(&t.slices[k], &l.slices[k]), "neck keeps the other items");
}
pub fn vc_add(l: Link, o: Link) {
    if native() {
        let mut s = seq(&l);
        let so = seq(&o);
        s.extend(so);
        ensure(same(&seq(&l.add(&o)), &s), "adding links concatenates their items");
        return;
    }
    let (n, m) = (l.slices.len(), o.slices.len());
    let r = l.add(&o);
    let k = skolem();
    ensure(r.slices.len() == n + m, "adding links concatenates their items");
    if k < n {
        cover("left");
        ensure(same_slice(&r.slices[k], &l.slices[k]), "the items of the left link come first");
    } else if k < n + m {
        cover("right");
        ensure(same_slice(&r.slices[k], &o.slices[k - n]), "the items of the right link follow");
    }
}
// Pushing a link pushes each of its items in order: the recursive call is replaced by a stub that
// records the pushed item.
native! {
    vc_push_scalar: (Link, Variable);
    vc_push_empty: (Variable);
    vc_push_other: (Link, Variable);
    vc_head_tip: (Link);
    vc_tail: (Link);
    vc_neck: (Link);
    vc_add: (Link, Link);
    nc_history: (History);
    nc_push_link: (Link, Link);
    vc_block_push: (Block, Variable, usize);
    vc_block_push_tags: (Block, Variable, usize);
    vc_block_clone: (Block);
}
impl Gen for Block {
    fn gen_(g: &mut G) -> Block {
        let mut b = Block::new();
        for k in 0..g.below(BLOCK_SIZE + 1) {
            b.push(&gen_scalar(g), k)
        }
        b
    }
}
fn gen_scalar(g: &mut G) -> Variable {
    match g.below(3) {
        0 => Variable::Bool(Gen::gen_(g), gen_secret(g)),
        1 => Variable::F64(Gen::gen_(g), gen_secret(g)),
        _ => Variable::Str(Gen::gen_(g)),
    }
}

pub fn nc_push_link(l: Link, o: Link) {
    let mut s = seq(&l);
    s.extend(seq(&o));
    let mut m = l.clone();
    ensure(m.push(&Variable::Link(Box::new(o.clone()))).is_ok(), "a link can be pushed");
    ensure(same(&seq(&m), &s), "pushing a link appends its items");
}
/// A history of link operations on a pool of links that share blocks.
#[derive(Debug, Clone)]
pub struct History(Vec<(u8, u8, u8, u64)>);
impl Gen for History {
    fn gen_(g: &mut G) -> History {
        let n = 20 + g.below(60);
        History((0..n).map(|_| (g.below(9) as u8, g.below(5) as u8, g.below(5) as u8, g.next())).collect())
    }
}
pub fn nc_history(h: History) {
    use std::sync::Arc;
    // every str item is one of these; the reference counts tell how many links hold it
    let strs: Vec<Arc<String>> = (0..4).map(|i| Arc::new(format!("s{}", i))).collect();
    {
        let mut pool: Vec<(Link, Vec<Variable>)> = (0..5).map(|_| (Link::new(), vec![])).collect();
        for (op, a, b, x) in h.0 {
            let (a, b) = (a as usize, b as usize);
            let (l, m) = pool[a].clone();
            let mut g = G::new(x);
            let item = |g: &mut G| match g.below(3) {
                0 => Variable::bool(g.chance(2)),
                1 => Variable::f64(g.below(9) as f64),
                _ => Variable::Str(strs[g.below(4)].clone()),
            };
            let (nl, nm) = match op {
                0 | 1 | 2 => {
                    let (mut l, mut m) = if op == 0 { std::mem::replace(&mut pool[a], (Link::new(), vec![])) } else { (l, m) };
                    let n = if g.chance(4) { g.below(260) } else { g.below(4) };
                    for _ in 0..n {
                        let v = item(&mut g);
                        ensure(l.push(&v).is_ok(), "a scalar can be pushed");
                        m.push(v);
                    }
                    (l, m)
                }
                3 => (l.tail(), m.into_iter().skip(1).collect()),
                4 => {
                    let k = m.len().max(1) - 1;
                    (l.neck(), m.into_iter().take(k).collect())
                }
                5 => {
                    let mut m = m;
                    m.extend(pool[b].1.iter().cloned());
                    (l.add(&pool[b].0), m)
                }
                6 => {
                    let (mut l, mut m) = (l, m);
                    let o = pool[b].clone();
                    ensure(l.push(&Variable::Link(Box::new(o.0))).is_ok(), "a link can be pushed");
                    m.extend(o.1);
                    (l, m)
                }
                7 => {
                    let mut l = l;
                    let mut m = m;
                    for _ in 0..g.below(130) {
                        l = l.tail();
                        if !m.is_empty() { m.remove(0); }
                    }
                    (l, m)
                }
                _ => {
                    let mut l = l;
                    let mut m = m;
                    for _ in 0..g.below(130) {
                        l = l.neck();
                        m.pop();
                    }
                    (l, m)
                }
            };
            if nm.len() < 2000 {
                pool[b] = (nl, nm);
            }
            for (l, m) in &pool {
                ensure(same(&seq(l), m), "every link of the history holds its own items");
                ensure(same(&l.head().map(|x| *x), &m.first().cloned()) && same(&l.tip().map(|x| *x), &m.last().cloned()) && l.is_empty() == m.is_empty(), "head, tip and is_empty agree with the items");
            }
        }
        for (i, s) in strs.iter().enumerate() {
            let held: usize = pool.iter().map(|(_, m)| m.iter().filter(|v| matches!(v, Variable::Str(t) if Arc::ptr_eq(s, t))).count()).sum();
            let _ = i;
            ensure(Arc::strong_count(s) >= 1 + held, "str items of live links stay alive");
        }
    }
}
