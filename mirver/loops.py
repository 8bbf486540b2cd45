"""Loop cutting: replace a loop with an arbitrary number of iterations by an inductive invariant.

The shape part of the invariant (which memory the loop may change) is found by joining the entry
state with the states at the back edges; the logical part is found by Houdini over templates."""
import os
import z3
from .engine import *

MAXV = 40


class Dead:
    """value that differs between iterations in an unsupported way; must not be read"""
    def __repr__(self):
        return 'Dead'


DEAD = Dead()


def same(eng, a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Sc, St)):
        return a.t.eq(b.t)
    if isinstance(a, (Lz, Op)):
        return a.t.eq(b.t)
    if isinstance(a, Bx):
        return same(eng, a.v, b.v)
    if isinstance(a, Pt):
        return a.c == b.c and len(a.p) == len(b.p) and all(eng.pe_same(x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, En):
        return a.vi == b.vi and len(a.f) == len(b.f) and all(same(eng, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ag):
        return len(a.f) == len(b.f) and all(same(eng, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Sq):
        return len(a.segs) == len(b.segs) and all(seg_same(eng, x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Mp):
        return a.base.eq(b.base) and len(a.ups) == len(b.ups) and all(
            k.eq(l) and (x is y or (x is not None and y is not None and same(eng, x, y))) for (k, x), (l, y) in zip(a.ups, b.ups))
    if isinstance(a, Fv):
        return a.inst == b.inst
    if isinstance(a, BoxAlias):
        return a.c == b.c and len(a.p) == len(b.p) and all(eng.pe_same(x, y) for x, y in zip(a.p, b.p))
    return False


def seg_same(eng, x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'e':
        return same(eng, x[1], y[1])
    return all(p.eq(q) for p, q in zip(x[1:], y[1:]))


def fresh_tail(g):
    """does the sequence end in a segment invented by generalisation?"""
    return bool(g.segs) and g.segs[-1][0] == 's' and z3.is_const(g.segs[-1][1]) and g.segs[-1][1].decl().name().startswith('sq!')


def prefix(eng, g, b):
    n = len(g.segs) - (1 if fresh_tail(g) else 0)
    k = 0
    while k < n and k < len(b.segs) and seg_same(eng, g.segs[k], b.segs[k]):
        k += 1
    return k


class Gen:
    def __init__(self, eng):
        self.eng = eng
        self.vars = []          # fresh terms introduced

    def fresh(self, sort, hint):
        t = z3.FreshConst(sort, hint)
        self.vars.append(t)
        return t

    def join(self, a, b, ty=None):
        e = self.eng
        if same(e, a, b):
            return a
        if a is DEAD or b is DEAD:
            return DEAD
        if isinstance(a, Sc) and isinstance(b, Sc) and a.t.sort() == b.t.sort():
            return Sc(self.fresh(a.t.sort(), 'lv'))
        if isinstance(a, Bx) and isinstance(b, Bx):
            return Bx(self.join(a.v, b.v))
        if isinstance(a, (En, Lz)) and isinstance(b, (En, Lz)) and a.ty == b.ty:
            if isinstance(a, En) and isinstance(b, En) and a.vi == b.vi:
                return En(a.ty, a.vi, [self.join(x, y) for x, y in zip(a.f, b.f)])
            if has_ptr(a) or has_ptr(b):
                return self.enum_ptr(a, b)
            return Lz(a.ty, self.fresh(V, 'lz'))
        if isinstance(a, (Ag, Lz)) and isinstance(b, (Ag, Lz)) and a.ty == b.ty:
            x = a if isinstance(a, Ag) else e.expand(a)
            y = b if isinstance(b, Ag) else e.expand(b)
            return Ag(a.ty, [self.join(p, q) for p, q in zip(x.f, y.f)])
        if isinstance(a, Sq) and isinstance(b, Sq):
            k = prefix(e, a, b)
            if fresh_tail(a) and k == len(a.segs) - 1 and not any(g[0] == 'e' and has_ptr(g[1]) for g in b.segs[k:]):
                return a
            # same length element lists: generalise elementwise
            ra, rb = a.segs[k:], b.segs[k:]
            if len(ra) == len(rb) and all(x[0] == 'e' and y[0] == 'e' for x, y in zip(ra, rb)):
                return Sq(a.ety, a.segs[:k] + tuple(('e', self.join(x[1], y[1])) for x, y in zip(ra, rb)))
            if any(g[0] == 'e' and has_ptr(g[1]) for g in ra + rb):
                return DEAD
            # the fresh tail may start with more elements than the common prefix of later iterations
            t = self.fresh(V, 'sq')
            return Sq(a.ety, a.segs[:k] + (('s', t, bv(0), e.len_fn(t)),))
        if isinstance(a, St) and isinstance(b, St):
            return St(self.fresh(V, 'ls'))
        if isinstance(a, Op) and isinstance(b, Op) and a.ty == b.ty:
            return Op(a.ty, self.fresh(V, 'lo'))
        if isinstance(a, Mp) and isinstance(b, Mp):
            return Mp(a.kty, a.vty, self.fresh(V, 'lm'))
        return DEAD

    def enum_ptr(self, a, b):
        return DEAD


def has_ptr(v):
    if isinstance(v, Pt):
        return True
    if isinstance(v, (En, Ag)):
        return any(has_ptr(x) for x in v.f)
    if isinstance(v, Bx):
        return has_ptr(v.v)
    return False


def match(eng, st, g, b, sub):
    """extend sub with fresh-term := term bindings so that g[sub] == b"""
    if same(eng, g, b) or g is DEAD:
        return True
    if isinstance(g, Sc):
        sub[g.t.get_id()] = (g.t, b.t)
        return True
    if isinstance(g, Bx):
        return match(eng, st, g.v, b.v, sub)
    if isinstance(g, (Lz, St, Op)):
        sub[g.t.get_id()] = (g.t, eng.reify(b, st))
        return True
    if isinstance(g, Mp):
        sub[g.base.get_id()] = (g.base, eng.reify(b, st))
        return True
    if isinstance(g, (En, Ag)):
        if isinstance(b, Lz):
            b = eng.expand(b, g.vi if isinstance(g, En) else 0)
        return all(match(eng, st, x, y, sub) for x, y in zip(g.f, b.f))
    if isinstance(g, Sq):
        k = prefix(eng, g, b)
        rg = g.segs[k:]
        rb = b.segs[k:]
        if len(rg) == 1 and rg[0][0] == 's':
            t = rg[0][1]
            sub[t.get_id()] = (t, eng.reify_seq(Sq(g.ety, rb), st))
            return True
        if len(rg) == len(rb):
            return all(match(eng, st, x[1], y[1], sub) for x, y in zip(rg, rb))
    return False


def walk_terms(v, out, depth=0):
    if isinstance(v, Sc):
        out.append(v.t)
    elif isinstance(v, (Ag, En)) and depth < 4:
        for x in v.f:
            walk_terms(x, out, depth + 1)
    elif isinstance(v, Bx):
        walk_terms(v.v, out, depth + 1)


def cut(eng, st, fr, blocks, stop):
    header = fr.bb
    uid = fr.uid
    hk = ('L', uid, header)
    depth = len(st.frames)
    entry = st.copy()
    live = {f.uid for f in st.frames}
    gen = Gen(eng)
    G = st.copy()
    G.counts[hk] = 'explore'
    cands = None
    gen_cells = set()
    rounds = 0
    gv_entry = {}

    def run_body(g, cs):
        backs = []

        def stp(s, f):
            if f.uid == uid:
                if f.bb == header:
                    backs.append(s.copy())
                    return True
                if f.bb not in blocks:
                    return True
            elif len(s.frames) < depth:
                return True
            return False
        s = g.copy()
        s.counts[hk] = 'explore'
        for c in cs:
            s.pc.append(c)
        s.frames[-1].fresh = False
        eng.quiet += 1
        p0 = eng.paths
        try:
            eng.explore(s, stp)
        finally:
            eng.quiet -= 1
        eng.paths = p0
        return backs

    def joinin(g, b):
        changed = False
        for c, bval in b.store.items():
            if c[0] in live or c[0] in ('S', 'C', 'G', 'H'):
                if c in g.store:
                    gval = g.store[c]
                elif c in eng.symcells:
                    gval = eng.symcells[c]
                else:
                    continue           # first assigned inside the loop
                if same(eng, gval, bval):
                    continue
                sub = {}
                if c in gen_cells and matches_shape(eng, gval, bval):
                    continue
                nv = gen.join(gval, bval)
                if not same(eng, nv, gval):
                    g.store[c] = nv
                    gen_cells.add(c)
                    changed = True
        return changed

    def matches_shape(eng_, g, b):
        """is b an instance of the already generalised g?"""
        fresh_ids = {t.get_id() for t in gen.vars}

        def inst(g, b):
            if same(eng_, g, b) or g is DEAD:
                return True
            if isinstance(g, Sc):
                return isinstance(b, Sc) and g.t.get_id() in fresh_ids
            if isinstance(g, Bx):
                return isinstance(b, Bx) and inst(g.v, b.v)
            if isinstance(g, (Lz, St, Op)):
                if g.t.get_id() in fresh_ids:
                    return not has_ptr(b) and b is not DEAD
                return False
            if isinstance(g, Mp):
                return g.base.get_id() in fresh_ids
            if isinstance(g, En):
                return isinstance(b, En) and b.vi == g.vi and all(inst(x, y) for x, y in zip(g.f, b.f))
            if isinstance(g, Ag):
                if isinstance(b, Lz):
                    b = eng_.expand(b)
                return isinstance(b, Ag) and all(inst(x, y) for x, y in zip(g.f, b.f))
            if isinstance(g, Sq):
                if not isinstance(b, Sq):
                    return False
                k = prefix(eng_, g, b)
                rg, rb = g.segs[k:], b.segs[k:]
                if len(rg) == 1 and rg[0][0] == 's' and rg[0][1].get_id() in fresh_ids:
                    return all(x[0] != 'e' or not has_ptr(x[1]) for x in rb)
                if len(rg) == len(rb):
                    return all(x[0] == 'e' and y[0] == 'e' and inst(x[1], y[1]) for x, y in zip(rg, rb))
                return False
            return False
        return inst(g, b)

    # 1. shape of the invariant
    while True:
        rounds += 1
        mark = serial(z3.FreshConst(V, 'mark'))
        if rounds > 9 and os.environ.get('MIRVER_DEBUG'):
            for c in gen_cells:
                print('SHAPE', rounds, c, str(G.store[c])[:600])
        if rounds > 12:
            raise Unsupported('loop shape does not stabilise in ' + eng.where(st))
        backs = run_body(G, [])
        ch = False
        for b in backs:
            if joinin(G, b):
                ch = True
        if not ch:
            break
    # 2. logical part by Houdini
    used = set()
    for c in gen_cells:
        collect_used(G.store[c], used)
    vs = [t for t in gen.vars if t.get_id() in used]

    def subst_for(s):
        sub = {}
        eng.qfacts += 1
        try:
            for c in gen_cells:
                bval = s.store.get(c, eng.symcells.get(c))
                if bval is None:
                    continue
                if not match(eng, s, G.store[c], bval, sub):
                    raise Unsupported('loop state mismatch')
        finally:
            eng.qfacts -= 1
        return list(sub.values())
    e2 = entry.copy()
    sub0 = subst_for(e2)
    have = {p[0].get_id() for p in sub0}
    cands = templates(eng, G, fr, vs, {a.get_id(): b for a, b in sub0}, gen_cells)
    e0 = dict((a.get_id(), b) for a, b in sub0)
    cands += quant_templates(eng, G, entry, backs, vs, e0, mark)
    cands += extremum_templates(eng, G, entry, backs, vs, e0, mark, subst_for)
    cands += accum_templates(eng, G, entry, backs, vs, e0, mark, gen_cells, subst_for)
    cands += inplace_templates(eng, G, backs, vs, e0, gen_cells)

    def holds(s, sub, c):
        q = z3.is_quantifier(c)
        return eng.check(s, z3.Not(z3.substitute(c, *sub)), fallback=q, tmo=400 if q else None) == z3.unsat

    def keepers(s, sub, cs):
        """the candidates that hold in s; decided together as far as one query can"""
        res = {}
        todo = []
        for c in cs:
            if z3.is_quantifier(c):
                res[c.get_id()] = holds(s, sub, c)
            else:
                x = z3.simplify(z3.substitute(c, *sub))
                if is_t(x) or is_f(x):
                    res[c.get_id()] = is_t(x)
                else:
                    todo.append((c, x))
        while len(todo) > 2:
            eng.want_model, w = True, eng.want_model
            try:
                r = eng.check(s, z3.Or([z3.Not(x) for c, x in todo]))
            finally:
                eng.want_model = w
            if r == z3.unsat:
                for c, x in todo:
                    res[c.get_id()] = True
                todo = []
                break
            m = eng.last_model
            if m is None:
                break
            bad = [(c, x) for c, x in todo if is_f(m.eval(x, model_completion=True))]
            if not bad:
                break
            for c, x in bad:
                res[c.get_id()] = r != z3.sat and holds(s, sub, c)
            ids = {c.get_id() for c, x in bad}
            todo = [p for p in todo if p[0].get_id() not in ids]
        for c, x in todo:
            res[c.get_id()] = holds(s, sub, c)
        return [c for c in cs if res[c.get_id()]]
    if os.environ.get('MIRVER_DEBUG'):
        for c in cands:
            if z3.is_quantifier(c):
                print('  cand', str(c).replace('\n', ' ')[:600])
    cands = keepers(e2, sub0, cands)
    basic = list(e2.pc[len(entry.pc):])      # facts that define the terms of the entry state
    for t in vs:
        if t.sort() == V:
            basic.append(z3.ULE(eng.len_fn(t), bv(BIGLEN)))
    it = 0
    vids = {t.get_id() for t in vs}

    def merged(cs):
        """variables that are always equal become one"""
        rep = []
        for c in cs:
            if z3.is_eq(c) and not z3.is_bv(c.arg(0)):
                a, b = c.arg(0), c.arg(1)
                if rep:
                    a, b = z3.substitute(a, *rep), z3.substitute(b, *rep)
                if a.get_id() in vids and b.get_id() in vids and not a.eq(b):
                    rep = [(x, z3.substitute(y, (b, a))) for x, y in rep] + [(b, a)]
        return rep
    while True:
        it += 1
        rep = merged(cands)
        g = G
        if rep:
            g = G.copy()
            for c in gen_cells:
                g.store[c] = vsubst(eng, G.store[c], rep)
        backs = run_body(g, [z3.substitute(c, *rep) for c in basic + cands] if rep else basic + cands)
        keep = cands
        for b in backs:
            sb = subst_for(b)
            keep = keepers(b, sb, keep)
        if len(keep) == len(cands):
            break
        cands = keep
        if it > 25:
            raise Unsupported('Houdini does not stabilise')
    key = '%s@bb%d' % (eng.P.insts[fr.inst]['base'], header)
    eng.invloops[key] = len(cands)
    if os.environ.get('MIRVER_DEBUG'):
        print('LOOP', key)
        for c in gen_cells:
            print('   cell', c, str(G.store[c])[:300].replace('\n', ' '))
        for c in cands:
            print('   inv', str(c).replace('\n', ' ')[:300])
    # 3. continue from an arbitrary iteration
    rep = merged(cands)
    for c, v in G.store.items():
        st.store[c] = vsubst(eng, v, rep) if rep and c in gen_cells else v
    for c in basic + cands:
        st.pc.append(z3.substitute(c, *rep) if rep else c)
    st.counts[hk] = 'cut'
    return None


def vsubst(eng, v, rep):
    if isinstance(v, Sc):
        return Sc(z3.substitute(v.t, *rep))
    if isinstance(v, St):
        return St(z3.substitute(v.t, *rep))
    if isinstance(v, Lz):
        return Lz(v.ty, z3.substitute(v.t, *rep))
    if isinstance(v, Op):
        return Op(v.ty, z3.substitute(v.t, *rep))
    if isinstance(v, Bx):
        return Bx(vsubst(eng, v.v, rep))
    if isinstance(v, En):
        return En(v.ty, v.vi, [vsubst(eng, x, rep) for x in v.f])
    if isinstance(v, Ag):
        return Ag(v.ty, [vsubst(eng, x, rep) for x in v.f])
    if isinstance(v, Sq):
        return Sq(v.ety, tuple(('e', vsubst(eng, g[1], rep)) if g[0] == 'e' else (g[0],) + tuple(z3.substitute(x, *rep) for x in g[1:]) for g in v.segs))
    if isinstance(v, Mp):
        return Mp(v.kty, v.vty, z3.substitute(v.base, *rep), tuple((z3.substitute(k, *rep), None if x is None else vsubst(eng, x, rep)) for k, x in v.ups))
    return v


def collect_used(v, out):
    if isinstance(v, (Sc, Lz, St, Op)):
        out.add(v.t.get_id())
    elif isinstance(v, Bx):
        collect_used(v.v, out)
    elif isinstance(v, (En, Ag)):
        for x in v.f:
            collect_used(x, out)
    elif isinstance(v, Sq):
        for g in v.segs:
            if g[0] == 'e':
                collect_used(g[1], out)
            else:
                out.add(g[1].get_id())
    elif isinstance(v, Mp):
        out.add(v.base.get_id())


def templates(eng, G, fr, vs, e0, gen_cells):
    out = []
    bvs = [(t, e0.get(t.get_id())) for t in vs if z3.is_bv(t)]
    bvs = [(t, e) for t, e in bvs if e is not None]
    for t in vs:
        e = e0.get(t.get_id())
        if e is None:
            continue
        if z3.is_bool(t):
            out += [t, z3.Not(t), t == e]
        if t.sort() == V:
            bvs.append((eng.len_fn(t), eng.len_fn(e)))
            out.append(t == e)
    ghost = set()
    for c in gen_cells:
        if c[0] == 'G' and c[1] == 'ghost':
            collect_used(G.store[c], ghost)
    for t in vs:
        if t.get_id() in ghost and not z3.is_bv(t):
            out += [t == u for u in vs if u.get_id() != t.get_id() and u.sort() == t.sort() and (u.get_id() not in ghost or u.get_id() > t.get_id())]
    by = {}
    for t, e in bvs:
        by.setdefault(t.size(), []).append((t, e))
    for w, l in by.items():
        l = l[:MAXV]
        for t, e in l:
            out += [z3.ULE(e, t), z3.ULE(t, e), t == e]
        if w == 64:
            for i, (t, e) in enumerate(l):
                for u, f in l[i + 1:]:
                    df = z3.simplify(e - f)
                    if z3.is_bv_value(df):
                        out.append(z3.simplify(t == u + df) if df.as_signed_long() >= 0 else z3.simplify(u == t - df))
                    else:
                        out.append(t - u == e - f)
                    out.append(z3.simplify(t + u == e + f))
                    out += [z3.ULE(t, u), z3.ULE(u, t)]
    # a flag that tells whether a counter has left its start
    for t in vs:
        e = e0.get(t.get_id())
        if e is not None and z3.is_bool(t) and (z3.is_true(e) or z3.is_false(e)):
            for u, f in by.get(64, [])[:8]:
                out.append(t == (u == f) if z3.is_true(e) else t == (u != f))
    # relation with unmodified sibling scalars (iterator ends, lengths)
    for c in gen_cells:
        sibs(eng, G.store[c], {t.get_id() for t in vs}, out)
    inter = []
    for c, v in G.store.items():
        if c[0] == fr.uid and c not in gen_cells:
            ts = []
            walk_terms(v, ts)
            inter += [t for t in ts if z3.is_bv(t) and t.size() == 64]
    seen = set()
    for t in inter[:20]:
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        for u, e in by.get(64, [])[:MAXV]:
            out += [z3.ULE(u, t), z3.ULE(t, u)]
    return out


def sibs(eng, v, fresh, out):
    if isinstance(v, (Ag, En)):
        ts = []
        for x in v.f:
            if isinstance(x, Sc) and z3.is_bv(x.t):
                ts.append(x.t)
        for a in ts:
            for b in ts:
                if a is not b and a.sort() == b.sort() and (a.get_id() in fresh):
                    out += [z3.ULE(a, b), z3.ULE(b, a)]
        for x in v.f:
            sibs(eng, x, fresh, out)
    elif isinstance(v, Bx):
        sibs(eng, v.v, fresh, out)


def serial(t):
    n = t.decl().name()
    k = n.rfind('!')
    return int(n[k + 1:]) if k >= 0 and n[k + 1:].isdigit() else -1


def consts(e, out, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(x.children() if z3.is_app(x) else [x.body()] if z3.is_quantifier(x) else [])


def quant_templates(eng, G, entry, backs, vs, e0, mark):
    """for all j already visited by the loop: the condition for continuing held at j"""
    out = []
    if not backs:
        return out
    base = len(entry.pc)
    ids = {t.get_id() for t in vs}
    ivars = [t for t in vs if z3.is_bv(t) and t.size() == 64]
    for i in ivars:
        e = e0.get(i.get_id())
        if e is None:
            continue
        flt = []
        for b in backs:
            rel = []
            for c in b.pc[base:]:
                if z3.is_quantifier(c) or not mentions(c, i):
                    continue
                cs = []
                consts(c, cs, set())
                if any((x.get_id() in ids and x.get_id() != i.get_id()) or (serial(x) >= mark and x.get_id() not in ids) for x in cs):
                    continue
                rel.append(c)
            flt.append(z3.And(rel) if rel else None)
        if any(f is None for f in flt):
            continue
        q = z3.Or(flt) if len(flt) > 1 else flt[0]
        j = z3.FreshConst(B64, 'j')
        for cond, at in ((z3.And(z3.ULE(e, j), z3.ULT(j, i)), j), (z3.And(z3.ULE(i, j), z3.ULT(j, e)), j + 1)):
            body = z3.simplify(z3.substitute(q, (i, at)))
            pats = triggers(body, j)
            if pats:
                out.append(z3.ForAll([j], z3.Implies(cond, body), patterns=pats))
    return out


def extremum_templates(eng, G, entry, backs, vs, e0, mark, subst_for):
    """running minimum/maximum: a float accumulator compared with every visited item"""
    out = []
    fps = [t for t in vs if z3.is_fp(t)]
    if not fps or not backs:
        return out
    base = len(entry.pc)
    ids = {t.get_id() for t in vs}
    ivars = [t for t in vs if z3.is_bv(t) and t.size() == 64 and e0.get(t.get_id()) is not None]
    for m in fps:
        for i in ivars:
            groups = {}
            for b in backs:
                rel = rel_conds(b, base, {i.get_id()}, ids, mark, [i])
                terms = []
                for c in b.pc[base:]:
                    if not z3.is_quantifier(c) and mentions(c, m):
                        fp_terms(c, i, terms)
                for e in terms:
                    cs = []
                    consts(e, cs, set())
                    if any((x.get_id() in ids and x.get_id() != i.get_id()) or (serial(x) >= mark and x.get_id() not in ids) for x in cs):
                        continue
                    groups.setdefault(e.get_id(), (e, []))[1].append(z3.And(rel) if rel else z3.BoolVal(True))
            j = z3.FreshConst(B64, 'j')
            for e, gs in groups.values():
                g = z3.Or(gs)
                for f in (z3.Not(z3.fpLT(e, m)), z3.Not(z3.fpGT(e, m)), z3.Or(z3.fpIsNaN(e), z3.Not(z3.fpIsNaN(m)))):
                    for cond, at in ((z3.And(z3.ULE(e0[i.get_id()], j), z3.ULT(j, i)), j),):
                        body = z3.simplify(z3.substitute(z3.Implies(g, f), (i, at)))
                        pats = triggers(body, j)
                        if pats:
                            out.append(z3.ForAll([j], z3.Implies(cond, body), patterns=pats[:1]))
    return out


def fp_terms(c, i, out):
    seen = set()
    stack = [c]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_fp(x) and x.num_args() > 0 and mentions(x, i):
            out.append(x)
        stack.extend(x.children())


def rel_conds(b, base, allowed, ids, mark, need):
    """conjuncts of the path condition of one iteration over counters and loop constants only"""
    rel = []
    for c in b.pc[base:]:
        if z3.is_quantifier(c) or not any(mentions(c, i) for i in need):
            continue
        cs = []
        consts(c, cs, set())
        if any((x.get_id() in ids and x.get_id() not in allowed) or (serial(x) >= mark and x.get_id() not in ids) for x in cs):
            continue
        rel.append(c)
    return rel


def accum_templates(eng, G, entry, backs, vs, e0, mark, gen_cells, subst_for):
    """out.push(f(x_i)) loops: for all positions p of the accumulated part, out[p] = f(x_p)"""
    out = []
    if not backs:
        return out
    ids = {t.get_id() for t in vs}
    # counters: loop variables that move by one in every iteration
    cnt = {}
    for t in vs:
        if not (z3.is_bv(t) and t.size() == 64) or e0.get(t.get_id()) is None:
            continue
        cnt[t.get_id()] = (t, None)
    try:
        for b in backs:
            sb = {x.get_id(): y for x, y in subst_for(b.copy())}
            for k in list(cnt):
                t, d = cnt[k]
                n = sb.get(k)
                dd = None
                if n is not None:
                    df = z3.simplify(n - t)
                    if z3.is_bv_value(df):
                        dd = df.as_signed_long()
                if dd not in (1, -1) or (d is not None and d != dd):
                    del cnt[k]
                else:
                    cnt[k] = (t, dd)
    except Unsupported:
        return out
    if not cnt:
        return out
    allowed = set(cnt)
    base = len(entry.pc)
    for c in gen_cells:
        for path, g in seqs(G.store[c]):
            if not fresh_tail(g):
                continue
            t = g.segs[-1][1]
            l0 = e0.get(t.get_id())
            if l0 is None:
                continue
            l0 = eng.len_fn(l0)
            for kk in (entry,):
                x0 = get_path(entry.store.get(c, eng.symcells.get(c)), path)
                if isinstance(x0, Sq):
                    k = prefix(eng, g, x0)
                    l0 = eng.seq_len(Sq(g.ety, x0.segs[k:]))
            p = z3.FreshConst(B64, 'p')
            d = z3.simplify(p - l0)
            sub = [(v, z3.simplify(e0[v.get_id()] + d if s == 1 else e0[v.get_id()] - d)) for v, s in cnt.values()]
            alts = []
            for b in backs:
                x = get_path(b.store.get(c), path)
                if not isinstance(x, Sq):
                    break
                k = prefix(eng, g, x)
                rb = x.segs[k:]
                if len(rb) != 2 or rb[0][0] != 's' or not rb[0][1].eq(t) or rb[1][0] != 'e':
                    break
                bb = b.copy()
                n0 = len(bb.pc)
                try:
                    q = eng.veq(bb, eng.sym(g.ety, eng.at(g.ety, t, p)), rb[1][1])
                except (Unsupported, ForkOn, PathEnd):
                    break
                conds = rel_conds(bb, base, allowed, ids, mark, [v for v, s in cnt.values()])
                cs = []
                consts(q, cs, set())
                if any((y.get_id() in ids and y.get_id() not in allowed and not y.eq(t)) or (serial(y) >= mark and y.get_id() not in ids and not y.eq(p)) for y in cs):
                    break
                alts.append(z3.And([z3.substitute(z3.And([q] + (conds if len(backs) > 1 else [])), *sub)]))
            else:
                body = z3.simplify(z3.Or(alts)) if len(alts) > 1 else z3.simplify(alts[0])
                pat = eng.at(g.ety, t, p)
                out.append(z3.ForAll([p], z3.Implies(z3.And(z3.ULE(l0, p), z3.ULT(p, eng.len_fn(t))), body), patterns=[pat]))
                # the part present before the loop
                q0 = None
                x0 = get_path(entry.store.get(c, eng.symcells.get(c)), path)
    return out


def inplace_templates(eng, G, backs, vs, e0, gen_cells):
    """for x in &mut v { *x = f(x) }: items before the counter are f of the original, the rest is the original"""
    out = []
    if not backs:
        return out
    ids = {t.get_id() for t in vs}
    for c in gen_cells:
        for path, g in seqs(G.store[c]):
            if len(g.segs) != 1 or g.segs[0][0] != 's' or g.segs[0][1].get_id() not in ids:
                continue
            t = g.segs[0][1]
            o = e0.get(t.get_id())
            if o is None:
                continue
            idx, alts = None, []
            for b in backs:
                x = get_path(b.store.get(c), path)
                if not isinstance(x, Sq):
                    break
                es = [k for k, q in enumerate(x.segs) if q[0] == 'e']
                if len(es) != 1 or any(q[0] != 'e' and not (q[0] == 's' and q[1].eq(t)) for q in x.segs):
                    break
                i = bv(0)
                for q in x.segs[:es[0]]:
                    i = z3.simplify(i + q[3])
                if idx is not None and not idx.eq(i):
                    break
                idx = i
                alts.append(x.segs[es[0]][1])
            else:
                if idx is None or idx.get_id() not in ids or e0.get(idx.get_id()) is None:
                    continue
                p = z3.FreshConst(B64, 'p')
                at = eng.at(g.ety, t, p)
                old = eng.at(g.ety, o, p)
                out.append(z3.ForAll([p], z3.Implies(z3.And(z3.ULE(idx, p), z3.ULT(p, eng.len_fn(t))), at == old), patterns=[at]))
                fs = []
                for b, v in zip(backs, alts):
                    try:
                        q = eng.veq(b.copy(), eng.sym(g.ety, at), v)
                    except (Unsupported, ForkOn, PathEnd):
                        break
                    q = z3.substitute(q, (eng.at(g.ety, t, idx), old))
                    fs.append(z3.substitute(q, (idx, p)))
                else:
                    if not any(mentions(f, t) and mentions(z3.substitute(f, (at, old)), t) for f in fs):
                        out.append(z3.ForAll([p], z3.Implies(z3.And(z3.ULE(e0[idx.get_id()], p), z3.ULT(p, idx)), z3.Or(fs) if len(fs) > 1 else fs[0]), patterns=[at]))
    return out


def seqs(v, path=()):
    if isinstance(v, Sq):
        yield path, v
    elif isinstance(v, (Ag, En)):
        for i, x in enumerate(v.f):
            yield from seqs(x, path + (i,))
    elif isinstance(v, Bx):
        yield from seqs(v.v, path + ('b',))


def get_path(v, path):
    for e in path:
        if e == 'b':
            if not isinstance(v, Bx):
                return None
            v = v.v
        else:
            if not isinstance(v, (Ag, En)) or e >= len(v.f):
                return None
            v = v.f[e]
    return v


def triggers(body, j):
    """terms at(base, j) usable as instantiation patterns"""
    res = []
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('at') and x.num_args() == 2 and x.arg(1).eq(j):
            res.append(x)
        if z3.is_app(x):
            stack.extend(x.children())
    return res[:3]


def mentions(e, t):
    seen = set()
    stack = [e]
    tid = t.get_id()
    while stack:
        x = stack.pop()
        if x.get_id() == tid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False
