"""Assumed contracts of the standard library (and a few dependency) functions, as symbolic models.
Every model that is used by a check is listed in that check's evidence as an assumption."""
import re
import z3
from .engine import *
from .engine import DIVERT


def build(eng):
    return Models(eng)


def lst(v):
    return list(v)


class Models:
    def __init__(self, eng):
        self.eng = eng
        self.exact = dict(EXACT)
        self.rx = [(re.compile(r), f) for r, f in REGEX]

    def lookup(self, I):
        b = I['base']
        f = self.exact.get(b)
        if f:
            return f
        if I['crate'] == 'dyon' and b.endswith('as std::clone::Clone>::clone') and not derived(self.eng, I) and I['kind'] != 'shim':
            return None         # a hand-written Clone is executed, not assumed
        if I['crate'] not in ('dyon',) or '::verif' in b or 'as std::clone::Clone>' in b or 'as std::cmp::PartialEq>' in b or I['kind'] == 'shim':
            for r, f in self.rx:
                if r.search(b):
                    return f
        if I['kind'] == 'intrinsic':
            nm = b.rsplit('::', 1)[-1]
            return INTR.get(nm)
        return None


EXACT = {}
REGEX = []
INTR = {}


def m(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(*names):
    def d(f):
        for n in names:
            REGEX.append((n, f))
        return f
    return d


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def opt_ty(eng, t):
    return t['dt']


def some(t, v):
    return En(t['dt'], 1, (v,))


def none(t):
    return En(t['dt'], 0, ())


def unit(eng, t):
    return Ag(t['dt'], ())


def rd(eng, st, a):
    if not isinstance(a, Pt):
        raise Unsupported('expected pointer, got %r' % (a,))
    return eng.read(st, a.c, a.p)


def wr(eng, st, a, v):
    eng.write(st, a.c, a.p, v)


def rdsq(eng, st, a):
    v = rd(eng, st, a)
    if isinstance(v, Sq):
        eng.len_fact(st, v)
        return v
    if isinstance(v, (Ag, Lz)) and eng.T[v.ty]['k'] == 'array':
        return eng.arr_to_sq(v)
    raise Unsupported('expected sequence, got %r' % (v,))


def strip_refs(eng, st, v):
    while isinstance(v, Pt):
        v = rd(eng, st, v)
    while isinstance(v, Bx):
        v = v.v
        while isinstance(v, Pt):
            v = rd(eng, st, v)
    return v


def strterm(eng, st, v):
    v = strip_refs(eng, st, v)
    if isinstance(v, St):
        return v.t
    if isinstance(v, Lz) or isinstance(v, Op):
        return v.t
    if isinstance(v, (En, Ag)) and eng.T[v.ty].get('bname') == 'std::borrow::Cow':
        return strterm(eng, st, v.f[0])
    raise Unsupported('expected string, got %r' % (v,))


def litval(eng, t):
    for s, c in eng.lits.items():
        if c.eq(t):
            return s
    return None


# ------------------------------------------------------------------ verif intrinsics
@rx(r'::verif(::\w+)*::ensure$')
def v_ensure(eng, st, fr, I, args, t):
    lbl = litval(eng, strterm(eng, st, args[1]))
    eng.obligation(st, 'ensure', lbl or '?', args[0].t)
    return unit(eng, t)


@rx(r'::verif(::\w+)*::require$')
def v_require(eng, st, fr, I, args, t):
    eng.assume(st, args[0].t)
    if eng.check(st) == z3.unsat:
        raise PathEnd()
    return unit(eng, t)


@rx(r'::verif(::\w+)*::cover$')
def v_cover(eng, st, fr, I, args, t):
    lbl = litval(eng, strterm(eng, st, args[0]))
    if not eng.quiet:
        eng.covered.add(lbl)
    return unit(eng, t)


@rx(r'::verif(::\w+)*::any$')
def v_any(eng, st, fr, I, args, t):
    return eng.fresh(t['dt'], 'any')


@rx(r'::verif(::\w+)*::skolem$')
def v_skolem(eng, st, fr, I, args, t):
    k = z3.FreshConst(B64, 'k')
    if not hasattr(eng, 'skolems'):
        eng.skolems = []
    eng.skolems.append(k)
    return Sc(k)


@rx(r'::verif(::\w+)*::havoc$')
def v_havoc(eng, st, fr, I, args, t):
    ty = I['targs'][0]
    wr(eng, st, args[0], eng.fresh(ty, 'havoc'))
    return unit(eng, t)


@rx(r'::verif(::\w+)*::same$')
def v_same(eng, st, fr, I, args, t):
    a = rd(eng, st, args[0])
    b = rd(eng, st, args[1])
    return Sc(eng.veq(st, a, b))


@rx(r'::verif(::\w+)*::snap$')
def v_snap(eng, st, fr, I, args, t):
    return rd(eng, st, args[0])


@rx(r'::verif(::\w+)*::native$')
def v_native(eng, st, fr, I, args, t):
    return Sc(z3.BoolVal(False))


# ghost state
@rx(r'::verif(::\w+)*::gset$')
def v_gset(eng, st, fr, I, args, t):
    st.store[('G', 'ghost', litval(eng, strterm(eng, st, args[0])))] = args[1]
    return unit(eng, t)


@rx(r'::verif(::\w+)*::gget$')
def v_gget(eng, st, fr, I, args, t):
    n = litval(eng, strterm(eng, st, args[0]))
    v = st.store.get(('G', 'ghost', n))
    if v is None:
        raise Unsupported('ghost %s is not set' % n)
    return v


# a deterministic but otherwise unknown function of its arguments
@rx(r'::verif(::\w+)*::uf\d?$')
def v_uf(eng, st, fr, I, args, t):
    lbl = litval(eng, strterm(eng, st, args[0]))
    vals = [rd(eng, st, a) if isinstance(a, Pt) else a for a in args[1:]]
    return eng.uf_call(st, lbl, vals, t['dt'])


# ------------------------------------------------------------------ clone / eq


@rx(r'as std::clone::Clone>::clone$', r'<impl std::clone::Clone for .*>::clone$', r'^std::clone::Clone::clone$', r'std::borrow::ToOwned>::to_owned$', r'<impl std::borrow::ToOwned for .*>::to_owned$')
def clone(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    if v is UNDEF:
        raise Unsupported('clone of undef')
    return v


DERIVED = {}


def derived(eng, I):
    """is this PartialEq impl a #[derive]d one?"""
    k = (I['file'], I['line'])
    if k not in DERIVED:
        r = False
        try:
            root = eng.cfg.get('src_root', '')
            import os
            p = I['file'] if os.path.isabs(I['file']) else os.path.join(root, I['file'])
            ls = open(p).read().split('\n')
            r = 'derive' in ls[I['line'] - 1]
        except Exception:
            r = False
        DERIVED[k] = r
    return DERIVED[k]


def float_free(eng, ty, seen=None):
    seen = seen if seen is not None else set()
    if ty in seen:
        return True
    seen.add(ty)
    T = eng.T[ty]
    k = T['k']
    if k == 'float':
        return False
    if k == 'adt':
        if T.get("bname", "").endswith("::Lazy"):
            return True      # invariants in a function signature are named constants, compared structurally
        if T.get('bname', '').startswith('dyon::Variable'):
            return False
        return all(float_free(eng, a, seen) for a in T['args']) and all(float_free(eng, f[1], seen) for v in T['variants'] for f in v['f'])
    if k in ('ref', 'ptr'):
        return float_free(eng, T['t'], seen)
    if k == 'tuple':
        return all(float_free(eng, e, seen) for e in T['e'])
    if k in ('array', 'slice'):
        return float_free(eng, T['e'], seen)
    return True


@rx(r'^<dyon::.* as std::cmp::PartialEq>::eq$')
def derived_eq(eng, st, fr, I, args, t):
    if not derived(eng, I):
        return inline(eng, st, fr, I, args, t)
    return Sc(eng.veq(st, rd(eng, st, args[0]), rd(eng, st, args[1])))


def inline(eng, st, fr, I, args, t):
    eng.inlined.add((I['base'], I['crate'], I['file'], I['line']))
    iid = eng.P.insts.index(I) if 'iid' not in I else I['iid']
    eng.push(st, fr, iid, args, t['dest'], t['t'])
    return DIVERT


def gen_eq(eng, st, a, b, ty=None):
    """PartialEq on std containers: exact when structural equality is the meaning, else uninterpreted"""
    a = strip_refs(eng, st, a)
    b = strip_refs(eng, st, b)
    return a, b


@rx(r'std::cmp::PartialEq(<.*>)?( for .*)?>::(eq|ne)$', r'<impl std::cmp::PartialEq.*>::(eq|ne)$')
def std_eq(eng, st, fr, I, args, t):
    neg = I['base'].endswith('::ne')
    a = strip_refs(eng, st, args[0])
    b = strip_refs(eng, st, args[1])
    if isinstance(a, Sc):
        e = z3.fpEQ(a.t, b.t) if z3.is_fp(a.t) else a.t == b.t
    elif isinstance(a, (Ag, Lz)) and eng.T[a.ty]['k'] == 'array' and eng.T[eng.T[a.ty]['e']]['k'] in ('float', 'int', 'bool'):
        x = a if isinstance(a, Ag) else eng.expand(a)
        y = b if isinstance(b, Ag) else eng.expand(b)
        e = z3.And([z3.fpEQ(p.t, q.t) if z3.is_fp(p.t) else p.t == q.t for p, q in zip(x.f, y.f)])
    elif isinstance(a, St) and isinstance(b, St):
        e = a.t == b.t
    elif 'PartialEq<&B> for &A' in I['base'] and I['body'] is not None and isinstance(a, (En, Lz)) and eng.T[a.ty].get('bname') == 'dyon::Variable':
        return inline(eng, st, fr, I, args, t)
    elif any(not float_free(eng, x) for x in I['targs']) or not I['targs'] and not isinstance(a, St):
        # element type with its own PartialEq (floats, Variable): an unknown reflexive-free relation
        e = eng.fn('peq', [V, V], z3.BoolSort())(eng.reify(Bx(a), st), eng.reify(Bx(b), st))
    else:
        e = eng.veq(st, a, b)
        if isinstance(a, Sq) and isinstance(b, Sq) and not z3.is_true(e) and all(len(s.segs) == 1 and s.segs[0][0] != 'e' for s in (a, b)):
            # unequal sequences differ in length or in some item
            k = eng.fresh_t(z3.BitVecSort(64), 'neq')
            la, lb = eng.seq_len(a), eng.seq_len(b)
            d = eng.veq(st, eng.seg_elem(a, a.segs[0], k), eng.seg_elem(b, b.segs[0], k))
            eng.assume(st, z3.Or(e, la != lb, z3.And(z3.ULT(k, la), z3.Not(d))))
    return Sc(z3.Not(e) if neg else e)


@rx(r'std::cmp::PartialOrd(<.*>)?( for .*)?>::(lt|le|gt|ge)$')
def std_lt(eng, st, fr, I, args, t):
    op = I['base'].rsplit('::', 1)[-1]
    a = strip_refs(eng, st, args[0])
    b = strip_refs(eng, st, args[1])
    if isinstance(a, Sc):
        if z3.is_fp(a.t):
            f = {'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[op]
            return Sc(f(a.t, b.t))
        if z3.is_bv(a.t):
            sg = any(eng.T[x]['k'] == 'int' and eng.T[x]['s'] for x in I['targs']) or re.search(r'for i\d', I['base'])
            f = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y} if sg else {'lt': z3.ULT, 'le': z3.ULE, 'gt': z3.UGT, 'ge': z3.UGE}
            return Sc(f[op](a.t, b.t))
    if isinstance(a, St) and isinstance(b, St):
        lt = eng.fn('str_lt', [V, V], z3.BoolSort())
        e = {'lt': lt(a.t, b.t), 'gt': lt(b.t, a.t), 'le': z3.Not(lt(b.t, a.t)), 'ge': z3.Not(lt(a.t, b.t))}[op]
        # strict total order facts for this pair
        eng.assume(st, z3.Not(z3.And(lt(a.t, b.t), lt(b.t, a.t))))
        eng.assume(st, z3.Implies(a.t == b.t, z3.And(z3.Not(lt(a.t, b.t)), z3.Not(lt(b.t, a.t)))))
        eng.assume(st, z3.Implies(a.t != b.t, z3.Or(lt(a.t, b.t), lt(b.t, a.t))))
        return Sc(e)
    raise Unsupported('ordering of %r' % (a,))


# ------------------------------------------------------------------ Vec
@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(eng, st, fr, I, args, t):
    return Sq(eng.T[t['dt']]['args'][0], ())


@m('std::vec::Vec::len', 'core::slice::<impl [T]>::len', 'std::collections::VecDeque::len')
def vec_len(eng, st, fr, I, args, t):
    return Sc(eng.seq_len(rdsq(eng, st, args[0])))


@m('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(eng, st, fr, I, args, t):
    return Sc(z3.simplify(eng.seq_len(rdsq(eng, st, args[0])) == 0))


@m('std::vec::Vec::push')
def vec_push(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    wr(eng, st, args[0], Sq(s.ety, s.segs + (('e', args[1]),)))
    return unit(eng, t)


def seq_nonempty(eng, st, s):
    return eng.decide(st, eng.seq_len(s) != 0)


def drop_zero(eng, st, segs):
    return tuple(g for g in segs if g[0] == 'e' or not (z3.is_bv_value(z3.simplify(g[3])) and z3.simplify(g[3]).as_long() == 0))


@m('std::vec::Vec::pop')
def vec_pop(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    if not seq_nonempty(eng, st, s):
        return none(t)
    n = eng.seq_len(s)
    segs = list(s.segs)
    while segs:
        g = segs[-1]
        if g[0] == 'e':
            wr(eng, st, args[0], Sq(s.ety, segs[:-1]))
            return some(t, g[1])
        if eng.decide(st, g[3] != 0):
            v = eng.seg_elem(s, g, g[3] - 1)
            if g[0] == 's':
                ng = ('s', g[1], g[2], z3.simplify(g[3] - 1))
            else:
                ng = ('r', g[1], z3.simplify(g[2] + 1), z3.simplify(g[3] - 1))
            wr(eng, st, args[0], Sq(s.ety, drop_zero(eng, st, segs[:-1] + [ng])))
            return some(t, v)
        segs.pop()
    raise PathEnd()


@m('std::vec::Vec::truncate')
def vec_truncate(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    n = args[1].t
    if eng.decide(st, z3.ULT(n, eng.seq_len(s))):
        wr(eng, st, args[0], eng.seq_slice(st, s, bv(0), n))
    return unit(eng, t)


@m('std::vec::Vec::clear')
def vec_clear(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    wr(eng, st, args[0], Sq(s.ety, ()))
    return unit(eng, t)


@m('std::vec::Vec::insert')
def vec_insert(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    i = args[1].t
    n = eng.seq_len(s)
    eng.panic_if(st, z3.UGT(i, n), 'Vec::insert index out of bounds')
    a = eng.seq_slice(st, s, bv(0), i)
    b = eng.seq_slice(st, s, i, n)
    wr(eng, st, args[0], Sq(s.ety, a.segs + (('e', args[2]),) + b.segs))
    return unit(eng, t)


@m('std::vec::Vec::remove')
def vec_remove(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    i = args[1].t
    n = eng.seq_len(s)
    eng.panic_if(st, z3.UGE(i, n), 'Vec::remove index out of bounds')
    x = eng.seq_get(st, s, i)
    a = eng.seq_slice(st, s, bv(0), i)
    b = eng.seq_slice(st, s, z3.simplify(i + 1), n)
    wr(eng, st, args[0], Sq(s.ety, a.segs + b.segs))
    return x


@m('std::vec::Vec::swap_remove')
def vec_swap_remove(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    i = args[1].t
    n = eng.seq_len(s)
    eng.panic_if(st, z3.UGE(i, n), 'Vec::swap_remove index out of bounds')
    x = eng.seq_get(st, s, i)
    last = eng.seq_get(st, s, n - 1)
    s2 = eng.seq_set(st, s, i, last)
    wr(eng, st, args[0], eng.seq_slice(st, s2, bv(0), z3.simplify(n - 1)))
    return x


@m('std::vec::Vec::extend_from_slice', 'std::vec::Vec::append')
def vec_extend(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    b = strip_refs(eng, st, args[1])
    if isinstance(b, St):       # the bytes of a string
        nb = z3.FreshConst(V, 'bytes')
        wr(eng, st, args[0], eng.seq_sym(s.ety, nb))
        return unit(eng, t)
    else:
        o = rdsq(eng, st, args[1])
    wr(eng, st, args[0], Sq(s.ety, s.segs + o.segs))
    if I['base'].endswith('append'):
        wr(eng, st, args[1], Sq(o.ety, ()))
    return unit(eng, t)


@m('std::vec::Vec::reserve')
def vec_reserve(eng, st, fr, I, args, t):
    return unit(eng, t)


@rx(r'^<std::boxed::Box<T, A> as std::ops::Drop>::drop$')
def box_drop(eng, st, fr, I, args, t):
    return unit(eng, t)


@m('std::vec::from_elem')
def vec_from_elem(eng, st, fr, I, args, t):
    n = z3.simplify(args[1].t)
    ety = eng.T[t['dt']]['args'][0]
    if z3.is_bv_value(n) and n.as_long() <= 64:
        return Sq(ety, tuple(('e', args[0]) for _ in range(n.as_long())))
    b = z3.FreshConst(V, 'rep')
    eng.assume(st, eng.len_fn(b) == n)
    k = z3.FreshConst(B64, 'k')
    pat = eng.at(ety, b, k)
    eng.assume(st, z3.ForAll([k], pat == eng.reify(args[0], st), patterns=[pat]))
    return eng.seq_sym(ety, b)


@rx(r'^<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::deref(_mut)?$', r'^std::vec::Vec::as_(mut_)?slice$',
    r'std::convert::AsRef<\[T\]>.*as_ref$', r'^<std::vec::Vec<T, A> as std::borrow::Borrow')
def vec_deref(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    if not isinstance(v, Sq):
        raise Unsupported('deref of %r' % (v,))
    return args[0]


def range_bounds(eng, st, r, n):
    T = eng.T[r.ty]
    b = T['bname']
    if isinstance(r, Lz):
        r = eng.expand(r)
    if b == 'std::ops::Range':
        return r.f[0].t, r.f[1].t
    if b == 'std::ops::RangeFrom':
        return r.f[0].t, n
    if b == 'std::ops::RangeTo':
        return bv(0), r.f[0].t
    if b == 'std::ops::RangeFull':
        return bv(0), n
    if b == 'std::ops::RangeInclusive':
        return r.f[0].t, z3.simplify(r.f[1].t + 1)
    if b == 'std::ops::RangeToInclusive':
        return bv(0), z3.simplify(r.f[0].t + 1)
    raise Unsupported('index by ' + b)


@rx(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$', r'core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def vec_index(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    n = eng.seq_len(s)
    ix = args[1]
    if isinstance(ix, Sc):
        eng.panic_if(st, z3.UGE(ix.t, n), 'index out of bounds')
        return Pt(args[0].c, args[0].p + (('i', z3.simplify(ix.t)),))
    lo, hi = range_bounds(eng, st, ix, n)
    eng.panic_if(st, z3.Or(z3.UGT(lo, hi), z3.UGT(hi, n)), 'slice index out of bounds')
    return Pt(args[0].c, args[0].p + (('sl', z3.simplify(lo), z3.simplify(hi - lo)),))


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    ix = args[1]
    n = eng.seq_len(s)
    if not isinstance(ix, Sc):
        lo, hi = range_bounds(eng, st, ix, n)
        if eng.decide(st, z3.And(z3.ULE(lo, hi), z3.ULE(hi, n))):
            return some(t, Pt(args[0].c, args[0].p + (('sl', z3.simplify(lo), z3.simplify(hi - lo)),)))
        return none(t)
    if eng.decide(st, z3.ULT(ix.t, n)):
        return some(t, Pt(args[0].c, args[0].p + (('i', z3.simplify(ix.t)),)))
    return none(t)


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    if seq_nonempty(eng, st, s):
        return some(t, Pt(args[0].c, args[0].p + (('i', bv(0)),)))
    return none(t)


@m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    if seq_nonempty(eng, st, s):
        return some(t, Pt(args[0].c, args[0].p + (('i', z3.simplify(eng.seq_len(s) - 1)),)))
    return none(t)


@m('core::slice::<impl [T]>::swap')
def slice_swap(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    n = eng.seq_len(s)
    i, j = args[1].t, args[2].t
    eng.panic_if(st, z3.Or(z3.UGE(i, n), z3.UGE(j, n)), 'swap index out of bounds')
    a = eng.seq_get(st, s, i)
    b = eng.seq_get(st, s, j)
    if eng.decide(st, i == j):
        return unit(eng, t)
    s = eng.seq_set(st, s, i, b)
    s = eng.seq_set(st, s, j, a)
    wr(eng, st, args[0], s)
    return unit(eng, t)


@m('core::slice::<impl [T]>::reverse')
def slice_reverse(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    wr(eng, st, args[0], eng.seq_rev(s))
    return unit(eng, t)


@m('core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at')
def slice_split_at(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    n = eng.seq_len(s)
    k = z3.simplify(args[1].t)
    eng.panic_if(st, z3.UGT(k, n), 'split_at out of bounds')
    a = args[0]
    return Ag(t['dt'], (Pt(a.c, a.p + (('sl', bv(0), k),)), Pt(a.c, a.p + (('sl', k, z3.simplify(n - k)),))))


# ------------------------------------------------------------------ iterators
@rx(r'^core::slice::<impl \[T\]>::iter(_mut)?$', r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$", r"array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def slice_iter(eng, st, fr, I, args, t):
    s = rdsq(eng, st, args[0])
    return Ag(t['dt'], (args[0], Sc(bv(0)), Sc(eng.seq_len(s))))


def it_parts(eng, st, a):
    v = rd(eng, st, a)
    if not isinstance(v, Ag) or len(v.f) != 3:
        raise Unsupported('iterator %r' % (v,))
    return v


@rx(r"^<std::slice::Iter(Mut)?<'.*, T> as std::iter::Iterator>::next$")
def iter_next(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    p, lo, hi = v.f
    if eng.decide(st, z3.ULT(lo.t, hi.t)):
        wr(eng, st, args[0], Ag(v.ty, (p, Sc(z3.simplify(lo.t + 1)), hi)))
        return some(t, Pt(p.c, p.p + (('i', lo.t),)))
    return none(t)


@rx(r"^<std::slice::Iter(Mut)?<'.*, T> as std::iter::DoubleEndedIterator>::next_back$")
def iter_next_back(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    p, lo, hi = v.f
    if eng.decide(st, z3.ULT(lo.t, hi.t)):
        nh = z3.simplify(hi.t - 1)
        wr(eng, st, args[0], Ag(v.ty, (p, lo, Sc(nh))))
        return some(t, Pt(p.c, p.p + (('i', nh),)))
    return none(t)


@rx(r"^<std::slice::Iter(Mut)?<'.*, T> as std::iter::Iterator>::nth$")
def iter_nth(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    p, lo, hi = v.f
    k = args[1].t
    if eng.decide(st, z3.ULT(k, hi.t - lo.t)):
        at = z3.simplify(lo.t + k)
        wr(eng, st, args[0], Ag(v.ty, (p, Sc(z3.simplify(at + 1)), hi)))
        return some(t, Pt(p.c, p.p + (('i', at),)))
    wr(eng, st, args[0], Ag(v.ty, (p, hi, hi)))
    return none(t)


@m('std::iter::Iterator::skip')
def iter_skip(eng, st, fr, I, args, t):
    """skipping on a slice iterator has no side effect: do it at once"""
    v = args[0]
    if not (isinstance(v, Ag) and eng.T[v.ty].get('bname') in ('std::slice::Iter', 'std::slice::IterMut') and len(v.f) == 3):
        return NotImplemented
    p, lo, hi = v.f
    k = args[1].t
    lo2 = z3.simplify(lo.t + k) if eng.decide(st, z3.ULE(k, hi.t - lo.t)) else hi.t
    return Ag(t['dt'], (Ag(v.ty, (p, Sc(lo2), hi)), Sc(bv(0))))


@rx(r"^<std::slice::Iter(Mut)?<'.*, T> as std::iter::ExactSizeIterator>::len$")
def iter_len(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    return Sc(z3.simplify(v.f[2].t - v.f[1].t))


@rx(r"^<std::(slice::Iter|slice::IterMut|vec::IntoIter|array::IntoIter)<.*> as std::iter::Iterator>::size_hint$")
def iter_size_hint(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    n = Sc(z3.simplify(v.f[2].t - v.f[1].t))
    oty = eng.T[t['dt']]['e'][1]
    return Ag(t['dt'], (n, En(oty, 1, (n,))))


@rx(r"^<std::slice::Iter(Mut)?<'.*, T> as std::iter::Iterator>::__iterator_get_unchecked$")
def iter_get_unchecked(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    p, lo, hi = v.f
    return Pt(p.c, p.p + (('i', z3.simplify(lo.t + args[1].t)),))


@rx(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$', r'array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$')
def vec_into_iter(eng, st, fr, I, args, t):
    s = args[0]
    if isinstance(s, (Ag, Lz)) and eng.T[s.ty]['k'] == 'array':
        s = eng.arr_to_sq(s)
    eng.len_fact(st, s)
    return Ag(t['dt'], (s, Sc(bv(0)), Sc(eng.seq_len(s))))


@rx(r'^<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$', r'^<std::array::IntoIter<T, N> as std::iter::Iterator>::next$')
def into_iter_next(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    s, lo, hi = v.f
    if eng.decide(st, z3.ULT(lo.t, hi.t)):
        x = eng.seq_get(st, s, lo.t)
        wr(eng, st, args[0], Ag(v.ty, (s, Sc(z3.simplify(lo.t + 1)), hi)))
        return some(t, x)
    return none(t)


@rx(r'^<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back$', r'^<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back$')
def into_iter_next_back(eng, st, fr, I, args, t):
    v = it_parts(eng, st, args[0])
    s, lo, hi = v.f
    if eng.decide(st, z3.ULT(lo.t, hi.t)):
        nh = z3.simplify(hi.t - 1)
        x = eng.seq_get(st, s, nh)
        wr(eng, st, args[0], Ag(v.ty, (s, lo, Sc(nh))))
        return some(t, x)
    return none(t)


# ------------------------------------------------------------------ Box / Arc / Rc
@m('std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new')
def bx_new(eng, st, fr, I, args, t):
    return Bx(args[0])


@rx(r'^<std::(sync::Arc|rc::Rc|boxed::Box)<T, A> as std::ops::(Deref|DerefMut)>::deref(_mut)?$', r'^std::sync::Arc::make_mut$', r'^<std::(sync::Arc|boxed::Box)<T, A> as std::convert::As(Ref|Mut)<T>>::as_(ref|mut)$')
def bx_deref(eng, st, fr, I, args, t):
    a = args[0]
    return Pt(a.c, a.p + (('bx',),))


# raw pointers here come from references, so they are never null
@m('std::ptr::mut_ptr::<impl *mut T>::as_mut', 'std::ptr::mut_ptr::<impl *mut T>::as_ref', 'std::ptr::const_ptr::<impl *const T>::as_ref')
def ptr_as_mut(eng, st, fr, I, args, t):
    return some(t, args[0])


@m('std::boxed::Box::new_uninit')
def box_uninit(eng, st, fr, I, args, t):
    return Bx(UNDEF)


@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(eng, st, fr, I, args, t):
    return eng.arr_to_sq(args[0].v)


@m('std::boxed::box_new_uninit')
def box_new_uninit(eng, st, fr, I, args, t):
    raise Unsupported('box_new_uninit')


@rx(r'as std::convert::From<T>>::from$')
def from_same(eng, st, fr, I, args, t):
    if 'Box' in I['base'] or 'Arc' in I['base'] or 'Rc<' in I['base']:
        return Bx(args[0])
    return args[0]


# ------------------------------------------------------------------ Cell / Mutex
@m('std::cell::Cell::get')
def cell_get(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    if isinstance(v, Ag) and len(v.f) == 1:
        return v.f[0]
    return eng.sym(t['dt'], eng.fn('cell_%s' % eng.sort(t['dt']), [V], eng.sort(t['dt']))(eng.reify(v, st)))


@m('std::cell::Cell::set')
def cell_set(eng, st, fr, I, args, t):
    ty = I['targs'][0]
    wr(eng, st, args[0], Ag(ty, (args[1],)))
    return unit(eng, t)


@m('std::cell::Cell::new')
def cell_new(eng, st, fr, I, args, t):
    return Ag(t['dt'], (args[0],))


@m('std::sync::Mutex::new', 'std::sync::RwLock::new')
def mutex_new(eng, st, fr, I, args, t):
    return Ag(t['dt'], (args[0],))


@m('std::sync::Mutex::lock')
def mutex_lock(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    T = eng.T[t['dt']]
    gty = T['variants'][0]['f'][0][1]
    if not isinstance(v, Ag):
        # contents of a shared mutex: arbitrary
        inner = eng.fresh(I['targs'][0], 'mtx')
        wr(eng, st, args[0], Ag(getattr(v, 'ty', t['dt']), (inner,)))
    if eng.decide(st, z3.FreshConst(z3.BoolSort(), 'poison')):
        return En(t['dt'], 1, (eng.fresh(T['variants'][1]['f'][0][1], 'poison'),))
    return En(t['dt'], 0, (Ag(gty, (args[0],)),))


@rx(r'^<std::sync::MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def guard_deref(eng, st, fr, I, args, t):
    g = rd(eng, st, args[0])
    if isinstance(g, Ag) and isinstance(g.f[0], Pt):
        p = g.f[0]
        return Pt(p.c, p.p + (('f', 0),))
    raise Unsupported('guard')


# ------------------------------------------------------------------ strings
@rx(r'^<std::string::String as std::convert::From<&.*str>>::from$', r'^<T as std::string::ToString>::to_string$',
    r'^<str as std::string::(ToString|SpecToString)>::\w+$', r'^<std::string::String as std::string::ToString>::to_string$', r'alloc::str::<impl std::borrow::ToOwned for str>::to_owned$',
    r'std::str::<impl std::borrow::ToOwned for str>::to_owned$', r'^<str as std::borrow::ToOwned>::to_owned$', r'^alloc::str::<impl str>::to_string$', r'^std::borrow::Cow::into_owned$')
def string_from(eng, st, fr, I, args, t):
    v = strip_refs(eng, st, args[0])
    if isinstance(v, St):
        return v
    # Display of another type: deterministic function of the value
    return St(eng.fn('display_%s' % (I['targs'] and eng.T[I['targs'][0]]['p'] or ''), [V], V)(eng.reify(Bx(v), st)))


@m('std::string::String::new', 'std::string::String::with_capacity')
def string_new(eng, st, fr, I, args, t):
    return St(eng.lit(''))


@rx(r'^<std::string::String as std::ops::Deref>::deref$', r'^std::string::String::as_str$', r'^std::string::String::as_bytes$', r'^<std::string::String as std::convert::AsRef<str>>::as_ref$', r'core::str::<impl str>::as_bytes$', r'^<str as std::convert::AsRef')
def string_deref(eng, st, fr, I, args, t):
    return args[0]


@m('std::string::String::len', 'core::str::<impl str>::len')
def string_len(eng, st, fr, I, args, t):
    x = strterm(eng, st, args[0])
    n = eng.fn('strlen', [V], B64)(x)
    s = litval(eng, x)
    if s is not None:
        return Sc(bv(len(s.encode())))
    eng.assume(st, z3.ULE(n, bv(BIGLEN)))
    return Sc(n)


@m('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def string_is_empty(eng, st, fr, I, args, t):
    x = strterm(eng, st, args[0])
    return Sc(x == eng.lit(''))


def cat(eng, a, b):
    la, lb = litval(eng, a), litval(eng, b)
    if la is not None and lb is not None:
        return eng.lit(la + lb)
    if la == '':
        return b
    if lb == '':
        return a
    return eng.fn('strcat', [V, V], V)(a, b)


@m('std::string::String::push_str')
def string_push_str(eng, st, fr, I, args, t):
    a = strterm(eng, st, args[0])
    b = strterm(eng, st, args[1])
    wr(eng, st, args[0], St(cat(eng, a, b)))
    return unit(eng, t)


@m('std::string::String::push')
def string_push(eng, st, fr, I, args, t):
    a = strterm(eng, st, args[0])
    c = z3.simplify(args[1].t)
    if z3.is_bv_value(c):
        b = eng.lit(chr(c.as_long()))
    else:
        b = eng.fn('chrstr', [z3.BitVecSort(32)], V)(c)
    wr(eng, st, args[0], St(cat(eng, a, b)))
    return unit(eng, t)


@m('std::string::String::from_utf8', 'std::str::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8')
def from_utf8(eng, st, fr, I, args, t):
    T = eng.T[t['dt']]
    if eng.cfg.get('utf8_ok') or eng.decide(st, z3.FreshConst(z3.BoolSort(), 'utf8')):
        return En(t['dt'], 0, (St(z3.FreshConst(V, 'utf8')),))
    return En(t['dt'], 1, (eng.fresh(T['variants'][1]['f'][0][1], 'utf8err'),))


@rx(r'^std::fmt::format$', r'^alloc::fmt::format$', r'std::fmt::format::format_inner$')
def fmt_format(eng, st, fr, I, args, t):
    return St(z3.FreshConst(V, 'fmt'))


@rx(r'^core::fmt::rt::Argument::', r'^std::fmt::Arguments::', r'^core::fmt::rt::Placeholder', r'^std::fmt::rt::')
def fmt_opaque(eng, st, fr, I, args, t):
    r = Op(t['dt'], z3.FreshConst(V, 'fmtarg'))
    try:
        parts = fmt_parts(eng, st, I['base'].rsplit('::', 1)[-1], args)
    except (Unsupported, AttributeError, KeyError, IndexError, TypeError):
        parts = None
    if parts is not None:
        eng.fmtparts[str(r.t)] = parts
        eng.keep.append(r.t)
    return r


def const_bytes(eng, st, v):
    """the bytes of a literal: a string or an array of known bytes"""
    v = strip_refs(eng, st, v)
    if isinstance(v, St):
        s = litval(eng, v.t)
        return None if s is None else list(s.encode())
    if isinstance(v, Lz):
        v = eng.expand(v)
    fs = [x.t for x in v.f] if isinstance(v, Ag) else [s[1].t for s in v.segs]
    fs = [z3.simplify(x) for x in fs]
    return [x.as_long() for x in fs] if all(z3.is_bv_value(x) for x in fs) else None


def fmt_parts(eng, st, op, args):
    """formatted text as a list of bytes and displayed values"""
    if op == 'new_display':
        v = strip_refs(eng, st, args[0])
        if isinstance(v, Bx):
            v = strip_refs(eng, st, v.v)
        x = eng.reify(v, st)
        if isinstance(v, St) and litval(eng, x) is not None:
            return list(litval(eng, x).encode())
        return [x if x.sort() == V else eng.fn('disp_%s' % x.sort(), [x.sort()], V)(x)]
    if op in ('from_str', 'from_str_nonconst'):
        return const_bytes(eng, st, args[0])
    if op == 'new':
        tmpl = const_bytes(eng, st, args[0])
        a = strip_refs(eng, st, args[1])
        vals = [eng.fmtparts.get(str(x.t)) for x in a.f]
        out, i, k = [], 0, 0
        while tmpl[i] != 0:
            b = tmpl[i]
            i += 1
            if b < 0x80:
                out += tmpl[i:i + b]
                i += b
            elif b == 0xC0:
                if vals[k] is None:
                    return None
                out += vals[k]
                k += 1
            else:
                return None      # width, precision or long literal
        return out
    return None


def fmt_fold(eng, h, parts):
    for p in parts:
        if isinstance(p, int):
            h = eng.fn('fmt_b', [B64, z3.BitVecSort(8)], B64)(h, z3.BitVecVal(p, 8))
        else:
            h = eng.fn('fmt_v', [B64, V], B64)(h, p)
    return h


@rx(r'::verif(::\w+)*::fmt_step$')
def v_fmt_step(eng, st, fr, I, args, t):
    parts = eng.fmtparts.get(str(args[1].t))
    if parts is None:
        raise Unsupported('format string')
    return Sc(fmt_fold(eng, args[0].t, parts))


@rx(r'::verif(::\w+)*::fmt_bytes$')
def v_fmt_bytes(eng, st, fr, I, args, t):
    parts = const_bytes(eng, st, args[1])
    if parts is None:
        raise Unsupported('bytes written')
    return Sc(fmt_fold(eng, args[0].t, parts))


@rx(r'::verif(::\w+)*::nth_key$')
def v_nth_key(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    K, n = map_keys(eng, st, mp)
    key = eng.fn('at', [V, B64], V)(K, z3.simplify(args[1].t))
    return eng.sym_pointee(mp.kty, key)


@rx(r'^core::str::<impl str>::(starts_with|ends_with|contains)$')
def str_pred(eng, st, fr, I, args, t):
    a = strterm(eng, st, args[0])
    if isinstance(args[1], Sc):
        b = eng.fn('chrstr', [z3.BitVecSort(32)], V)(args[1].t)
    else:
        b = strterm(eng, st, args[1])
    return Sc(eng.fn('str_' + I['base'].rsplit('::', 1)[-1], [V, V], z3.BoolSort())(a, b))


# ------------------------------------------------------------------ HashMap
def keyterm(eng, st, v):
    v = strip_refs(eng, st, v)
    return eng.reify(v if not isinstance(v, Sc) else Bx(v), st)


@rx(r'^std::collections::HashMap::(new|with_capacity)$', r'^<std::collections::HashMap<.*> as std::default::Default>::default$')
def map_new(eng, st, fr, I, args, t):
    T = eng.T[t['dt']]
    return Mp(T['args'][0], T['args'][1], z3.Const('map_empty', V), (('EMPTY', None),)) if False else Mp(T['args'][0], T['args'][1], empty_map(eng, st))


def empty_map(eng, st):
    e = z3.Const('map_empty', V)
    k = ('mapempty',)
    if k not in st.known:
        st.known[k] = (e, True)
        x = z3.Const('mk', V)
        st.pc.append(z3.ForAll([x], z3.Not(eng.fn('mhas', [V, V], z3.BoolSort())(e, x)), patterns=[eng.fn('mhas', [V, V], z3.BoolSort())(e, x)]))
    return e


def rdmap(eng, st, a):
    v = rd(eng, st, a)
    if not isinstance(v, Mp):
        raise Unsupported('expected map, got %r' % (v,))
    return v


@m('std::collections::HashMap::get', 'std::collections::HashMap::get_mut')
def map_get(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    k = keyterm(eng, st, args[1])
    r = eng.map_find(st, mp, k)
    if r[0] == 'none':
        return none(t)
    return some(t, Pt(args[0].c, args[0].p + (('mv', k),)))


@m('std::collections::HashMap::contains_key')
def map_contains(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    k = keyterm(eng, st, args[1])
    return Sc(z3.BoolVal(eng.map_find(st, mp, k)[0] == 'val'))


@m('std::collections::HashMap::insert')
def map_insert(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    k = keyterm(eng, st, args[1])
    r = eng.map_find(st, mp, k)
    wr(eng, st, args[0], Mp(mp.kty, mp.vty, mp.base, tuple((a, b) for a, b in mp.ups if not a.eq(k)) + ((k, args[2]),)))
    return none(t) if r[0] == 'none' else some(t, r[1])


@m('std::collections::HashMap::remove')
def map_remove(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    k = keyterm(eng, st, args[1])
    r = eng.map_find(st, mp, k)
    if r[0] == 'none':
        return none(t)
    wr(eng, st, args[0], Mp(mp.kty, mp.vty, mp.base, tuple((a, b) for a, b in mp.ups if not a.eq(k)) + ((k, None),)))
    return some(t, r[1])


@m('std::collections::HashMap::entry')
def map_entry(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    k = keyterm(eng, st, args[1])
    r = eng.map_find(st, mp, k)
    # both entries are represented by (map pointer, key)
    e = Ag(t['dt'], (args[0], Op(t['dt'], k)))
    return En(t['dt'], 1 if r[0] == 'none' else 0, (e,))


@m('std::collections::hash_map::OccupiedEntry::into_mut', 'std::collections::hash_map::OccupiedEntry::get', 'std::collections::hash_map::OccupiedEntry::get_mut')
def occ_into(eng, st, fr, I, args, t):
    a = args[0]
    if isinstance(a, Pt):
        a = rd(eng, st, a)
    p, k = a.f
    return Pt(p.c, p.p + (('mv', k.t),))


@m('std::collections::hash_map::OccupiedEntry::insert')
def occ_insert(eng, st, fr, I, args, t):
    a = rd(eng, st, args[0])
    p, k = a.f
    old = eng.read(st, p.c, p.p + (('mv', k.t),))
    eng.write(st, p.c, p.p + (('mv', k.t),), args[1])
    return old


@m('std::collections::hash_map::VacantEntry::insert')
def vac_insert(eng, st, fr, I, args, t):
    p, k = args[0].f
    eng.write(st, p.c, p.p + (('mv', k.t),), args[1])
    return Pt(p.c, p.p + (('mv', k.t),))


@m('std::collections::HashMap::len')
def map_len(eng, st, fr, I, args, t):
    return Sc(map_keys(eng, st, rdmap(eng, st, args[0]))[1])


@m('std::collections::HashMap::is_empty')
def map_is_empty(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    if mp.ups:
        if mp.ups[-1][1] is not None:
            return Sc(z3.BoolVal(False))
    elif mp.base.eq(z3.Const('map_empty', V)):
        return Sc(z3.BoolVal(True))
    return Sc(map_keys(eng, st, mp)[1] == 0)


def map_keys(eng, st, mp):
    """the (duplicate free, complete) key sequence of a map in iteration order"""
    b = eng.reify(mp, st)
    K = eng.fn('mkeys', [V], V)(b)
    n = eng.fn('mlen', [V], B64)(b)
    k = ('mkeys', K.get_id())
    if k not in st.known:
        st.known[k] = (K, True)
        eng.assume(st, z3.ULE(n, bv(BIGLEN)))
        kidx = eng.fn('kidx', [V, V], B64)
        x = z3.Const('kx', V)
        if not mp.ups:
            mh = eng.fn('mhas', [V, V], z3.BoolSort())(b, x)
            at = eng.fn('at', [V, B64], V)
            st.pc.append(z3.ForAll([x], z3.Implies(mh, z3.And(z3.ULT(kidx(K, x), n), at(K, kidx(K, x)) == x)), patterns=[mh]))
    return K, n


@rx(r'^std::collections::HashMap::(iter|iter_mut|keys|values|values_mut)$', r"^<&'a (mut )?std::collections::HashMap<.*> as std::iter::IntoIterator>::into_iter$")
def map_iter(eng, st, fr, I, args, t):
    mp = rdmap(eng, st, args[0])
    K, n = map_keys(eng, st, mp)
    return Ag(t['dt'], (args[0], Op(t['dt'], K), Sc(bv(0)), Sc(n)))


@rx(r"^<std::collections::hash_map::(Iter|IterMut|Keys|Values|ValuesMut)<.*> as std::iter::Iterator>::next$")
def map_iter_next(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    if not isinstance(v, Ag) or len(v.f) != 4:
        raise Unsupported('map iterator %r' % (v,))
    p, K, lo, hi = v.f
    if not eng.decide(st, z3.ULT(lo.t, hi.t)):
        return none(t)
    key = eng.fn('at', [V, B64], V)(K.t, z3.simplify(lo.t))
    mp = rdmap(eng, st, p)
    if not mp.ups:
        eng.assume(st, eng.fn('mhas', [V, V], z3.BoolSort())(mp.base, key))
        eng.assume(st, eng.fn('kidx', [V, V], B64)(K.t, key) == lo.t)
    elif eng.map_find(st, mp, key)[0] != 'val':
        raise PathEnd()
    wr(eng, st, args[0], Ag(v.ty, (p, K, Sc(z3.simplify(lo.t + 1)), hi)))
    kind = re.search(r'hash_map::(\w+)<', I['base']).group(1)
    kc = ('S', key.get_id(), 'key')
    eng.keep.append(key)
    eng.symcells[kc] = eng.sym_pointee(mp.kty, key)
    kp = Pt(kc, ())
    vp = Pt(p.c, p.p + (('mv', key),))
    if kind == 'Keys':
        return some(t, kp)
    if kind in ('Values', 'ValuesMut'):
        return some(t, vp)
    ity = eng.T[t['dt']]['variants'][1]['f'][0][1]
    return some(t, Ag(ity, (kp, vp)))


# ------------------------------------------------------------------ lazy statics
@rx(r'lazy_static::lazy::Lazy::get$')
def lazy_get(eng, st, fr, I, args, t):
    # args: (&Lazy, init fn)
    f = args[1]
    if not isinstance(f, Fv):
        raise Unsupported('lazy init')
    c = ('G', 'lazy', f.inst)
    p = Pt(c, ())
    if c in st.store or c in eng.symcells:
        return p
    J = eng.P.insts[f.inst]
    # result first, then run the initialiser into the global cell
    dc, dp = eng.place(st, fr, t['dest'])
    eng.write(st, dc, dp, p)
    d = t['dest']
    nf_args = []
    eng.push(st, fr, f.inst, nf_args, None, t['t'])
    st.frames[-1].dest = (c, ())
    return DIVERT


# ------------------------------------------------------------------ panics
@rx(r'^core::panicking::', r'^std::panicking::', r'^std::rt::panic_fmt$', r'^std::option::(expect_failed|unwrap_failed)$', r'^std::result::unwrap_failed', r'begin_panic', r'^core::slice::index::slice_', r'^std::process::abort$')
def panics(eng, st, fr, I, args, t):
    nm = I['base'].rsplit('::', 1)[-1]
    eng.panic_if(st, z3.BoolVal(True), nm)
    raise PathEnd()


@rx(r'::precondition_check$', r'^std::mem::drop$', r'^std::mem::forget$', r'^std::ptr::drop_in_place$')
def nop(eng, st, fr, I, args, t):
    return unit(eng, t)


# ------------------------------------------------------------------ floats
def fuf(name):
    def f(eng, st, fr, I, args, t):
        ts = [a.t for a in args]
        s = eng.sort(t['dt'])
        return Sc(eng.fn('%s_%s' % (name, 64 if s == F64S else 32), [x.sort() for x in ts], s)(*ts))
    return f


for _n in ('powf', 'powi', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'ln', 'log2', 'log10', 'sqrt', 'cbrt', 'signum', 'hypot', 'to_radians', 'to_degrees', 'rem_euclid'):
    REGEX.append((r'<impl f(32|64)>::%s$' % _n, fuf(_n)))
for _n, _k in (('powf', 'powf'), ('powf64', 'powf'), ('powf32', 'powf'), ('sqrtf64', 'sqrt'), ('sinf64', 'sin'), ('cosf64', 'cos'), ('expf64', 'exp'), ('logf64', 'ln'), ('log10f64', 'log10'), ('log2f64', 'log2'), ('powif64', 'powi')):
    INTR[_n] = fuf(_k)


def fround(mode):
    def f(eng, st, fr, I, args, t):
        return Sc(z3.fpRoundToIntegral(mode, args[0].t))
    return f


for _n, _m in (('floor', z3.RTN()), ('ceil', z3.RTP()), ('trunc', z3.RTZ()), ('round', z3.RNA())):
    REGEX.append((r'<impl f(32|64)>::%s$' % _n, fround(_m)))
    INTR[_n + 'f64'] = fround(_m)


@rx(r'<impl f(32|64)>::abs$')
def fabs(eng, st, fr, I, args, t):
    return Sc(z3.fpAbs(args[0].t))


@rx(r'<impl f(32|64)>::is_nan$')
def fisnan(eng, st, fr, I, args, t):
    return Sc(z3.fpIsNaN(args[0].t))


@rx(r'<impl f(32|64)>::to_bits$')
def ftobits(eng, st, fr, I, args, t):
    return Sc(z3.fpToIEEEBV(args[0].t))


@rx(r'<impl f(32|64)>::from_bits$')
def ffrombits(eng, st, fr, I, args, t):
    return Sc(z3.fpBVToFP(args[0].t, eng.sort(t['dt'])))


@intr('size_of_val', 'align_of_val', 'size_of', 'min_align_of')
def i_size(eng, st, fr, I, args, t):
    n = z3.FreshConst(B64, 'size')
    return Sc(n)


@intr('assume', 'assert_inhabited', 'cold_path')
def i_nop(eng, st, fr, I, args, t):
    if args and I['base'].endswith('assume'):
        eng.assume(st, args[0].t)
    return unit(eng, t)


@intr('integer_min')
def i_min(eng, st, fr, I, args, t):
    return Sc(z3.simplify(z3.If(z3.ULT(args[0].t, args[1].t), args[0].t, args[1].t)))


@intr('likely', 'unlikely')
def i_id(eng, st, fr, I, args, t):
    return args[0]


@intr('discriminant_value')
def i_disc(eng, st, fr, I, args, t):
    return eng.discriminant(st, rd(eng, st, args[0]), t['dt'])


@intr('ctpop')
def i_ctpop(eng, st, fr, I, args, t):
    raise Unsupported('ctpop')


@rx(r'^std::mem::discriminant$')
def mem_disc(eng, st, fr, I, args, t):
    raise Unsupported('mem::discriminant')


@rx(r'^std::mem::swap$')
def mem_swap(eng, st, fr, I, args, t):
    a = rd(eng, st, args[0])
    b = rd(eng, st, args[1])
    wr(eng, st, args[0], b)
    wr(eng, st, args[1], a)
    return unit(eng, t)


@rx(r'^std::mem::replace$')
def mem_replace(eng, st, fr, I, args, t):
    a = rd(eng, st, args[0])
    wr(eng, st, args[0], args[1])
    return a


@rx(r'^std::mem::take$')
def mem_take(eng, st, fr, I, args, t):
    a = rd(eng, st, args[0])
    if isinstance(a, Sq):
        wr(eng, st, args[0], Sq(a.ety, ()))
    elif isinstance(a, St):
        wr(eng, st, args[0], St(eng.lit('')))
    else:
        raise Unsupported('mem::take')
    return a


@rx(r'^std::thread::', r'^std::sync::mpsc::', r'^std::sync::atomic::', r'^std::io::', r'^std::fs::', r'^rand::', r'^std::time::', r'^std::env::', r'^std::alloc::')
def opaque(eng, st, fr, I, args, t):
    if t['dt'] is None:
        raise Unsupported('opaque ' + I['base'])
    st.counts['abs'] = 1
    return eng.fresh(t['dt'], 'ext')


# characters of a text are opaque: whether all (any) of them satisfy a closure is an unknown function of text and closure
@rx(r'^core::str::<impl str>::chars$')
def str_chars(eng, st, fr, I, args, t):
    return Op(t['dt'], eng.fn('chars', [V], V)(strterm(eng, st, args[0])))


@rx(r"^<std::str::Chars<.*> as std::iter::Iterator>::(all|any)$", r'^std::iter::Iterator::(all|any)$')
def chars_all(eng, st, fr, I, args, t):
    v = rd(eng, st, args[0])
    if not (isinstance(v, Op) and 'Chars' in eng.tname(v.ty)):
        return inline(eng, st, fr, I, args, t)
    return Sc(eng.fn('chars_%s_%s' % (I['base'].rsplit('::', 1)[-1], re.sub(r'\W', '_', eng.tname(I['targs'][-1]))[-60:]), [V], z3.BoolSort())(v.t))


# a set only ever gives back an equal value
@m('std::collections::HashSet::get')
def set_get(eng, st, fr, I, args, t):
    if not eng.decide(st, eng.fn('set_has', [V, V], z3.BoolSort())(keyterm(eng, st, args[0]), keyterm(eng, st, args[1]))):
        return none(t)
    key = keyterm(eng, st, args[1])
    ety = eng.T[eng.T[t['dt']]['variants'][1]['f'][0][1]]['t']
    kc = ('S', key.get_id(), 'key')
    eng.keep.append(key)
    eng.symcells[kc] = eng.sym_pointee(ety, key)
    return some(t, Pt(kc, ()))
