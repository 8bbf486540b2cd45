"""mirver: a contract-based deductive verifier working on the MIR of the real dyon crate.

The exporter (mirex) gives the monomorphic MIR reachable from contract functions (`vc_*`).  Each
contract function is executed symbolically for ALL inputs: arguments are unconstrained symbolic
values, calls to in-crate functions without a contract are executed from their own MIR, calls to
functions with a contract are replaced by the contract (`stub`/`uf`), loops whose bound is symbolic
are cut with inductive invariants (inferred by Houdini), and every `ensure` as well as every
reachable panic becomes a proof obligation discharged by z3.
"""
import json, re, sys, time, itertools, os
import os
import z3

sys.setrecursionlimit(20000)
V = z3.DeclareSort('V')
B64 = z3.BitVecSort(64)
F64S = z3.Float64()
F32S = z3.Float32()
RNE = z3.RNE()
BIGLEN = 1 << 56


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, key):
        self.key = key


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values
class Sc:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Sc(%s)' % self.t


class Ag:
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)

    def __repr__(self):
        return 'Ag%s' % (self.f,)


class En:
    __slots__ = ('ty', 'vi', 'f')

    def __init__(self, ty, vi, f):
        self.ty = ty
        self.vi = vi
        self.f = tuple(f)

    def __repr__(self):
        return 'En(%s,%s,%s)' % (self.ty, self.vi, self.f)


class Lz:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return 'Lz(%s)' % self.t


class BoxAlias:
    """a compiler temporary naming the box stored at a place"""
    __slots__ = ('c', 'p')

    def __init__(self, c, p):
        self.c = c
        self.p = tuple(p)


class Bx:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Bx(%r)' % self.v


class Pt:
    __slots__ = ('c', 'p')

    def __init__(self, c, p=()):
        self.c = c
        self.p = tuple(p)

    def __repr__(self):
        return 'Pt(%s,%s)' % (self.c, self.p)


class Sq:
    """A sequence (Vec/slice/VecDeque contents): tuple of segments.
    ('e', val) | ('s', base, off, n) | ('r', base, off, n)"""
    __slots__ = ('ety', 'segs')

    def __init__(self, ety, segs):
        self.ety = ety
        self.segs = tuple(segs)

    def __repr__(self):
        return 'Sq%s' % (self.segs,)


class St:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'St(%s)' % self.t


class Op:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return 'Op(%s)' % self.t


class Mp:
    """map: base V term + updates ((keyterm, val|None), ...) newest last"""
    __slots__ = ('kty', 'vty', 'base', 'ups')

    def __init__(self, kty, vty, base, ups=()):
        self.kty = kty
        self.vty = vty
        self.base = base
        self.ups = tuple(ups)

    def __repr__(self):
        return 'Mp(%s,%s)' % (self.base, self.ups)


class Fv:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return 'Fv(%s)' % self.inst


UNDEF = object()


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def is_t(e):
    return z3.is_true(e)


def is_f(e):
    return z3.is_false(e)


class Frame:
    __slots__ = ('uid', 'inst', 'bb', 'si', 'dest', 'ret', 'fresh', 'tag')

    def __init__(self, uid, inst, bb, dest, ret):
        self.uid = uid
        self.inst = inst
        self.bb = bb
        self.si = 0
        self.dest = dest      # place (cell,path) in caller, or None
        self.ret = ret        # target bb in the caller
        self.fresh = True     # block entry not yet processed
        self.tag = None

    def copy(self):
        f = Frame(self.uid, self.inst, self.bb, self.dest, self.ret)
        f.si = self.si
        f.fresh = self.fresh
        f.tag = self.tag
        return f


class State:
    __slots__ = ('store', 'frames', 'pc', 'known', 'steps', 'counts', 'trace')

    def __init__(self):
        self.store = {}
        self.frames = []
        self.pc = []
        self.known = {}
        self.steps = 0
        self.counts = {}
        self.trace = ()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.steps = self.steps
        s.counts = dict(self.counts)
        s.trace = self.trace
        return s


class Obligation:
    def __init__(self, kind, label, where):
        self.kind = kind
        self.label = label
        self.where = where
        self.instances = 0
        self.failed = []
        self.undecided = []
        self.time = 0.0


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.tys = d['tys']
        self.insts = d['insts']
        self.roots = {k.rsplit('::', 1)[-1]: v for k, v in d['roots'].items()}
        self.fns = d['fns']
        self.loopinfo = {}
        for n, i in enumerate(self.insts):
            i['iid'] = n
            i['base'] = strip_generics(i['name'])
        for t in self.tys:
            if t['k'] == 'adt':
                t['bname'] = strip_generics(t['name'])

    def find_ty(self, pred):
        for i, t in enumerate(self.tys):
            if pred(t):
                return i
        return None

    def loops(self, iid):
        if iid in self.loopinfo:
            return self.loopinfo[iid]
        body = self.insts[iid]['body']
        n = len(body['blocks'])
        succ = [[] for _ in range(n)]
        for i, b in enumerate(body['blocks']):
            t = b['t']
            k = t['k']
            if k == 'goto':
                succ[i] = [t['t']]
            elif k == 'switch':
                succ[i] = [x[1] for x in t['br']] + [t['o']]
            elif k in ('drop', 'assert'):
                succ[i] = [t['t']]
            elif k == 'call' and t['t'] is not None:
                succ[i] = [t['t']]
        # natural loops through dominators
        pred = [[] for _ in range(n)]
        reach = set()
        st = [0]
        order = []
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            for y in succ[x]:
                st.append(y)
        for x in reach:
            for y in succ[x]:
                pred[y].append(x)
        full = set(reach)
        dom = {x: set(full) for x in reach}
        dom[0] = {0}
        ch = True
        rl = sorted(reach)
        while ch:
            ch = False
            for x in rl:
                if x == 0:
                    continue
                s = None
                for p in pred[x]:
                    s = set(dom[p]) if s is None else s & dom[p]
                s = (s or set()) | {x}
                if s != dom[x]:
                    dom[x] = s
                    ch = True
        res = {}
        for x in rl:
            for y in succ[x]:
                if y in dom[x]:
                    # back edge x->y
                    blk = res.setdefault(y, {y})
                    w = [x]
                    while w:
                        z = w.pop()
                        if z in blk:
                            continue
                        blk.add(z)
                        w.extend(pred[z])
        self.loopinfo[iid] = res
        return res


_sg = {}


def strip_generics(s):
    if s in _sg:
        return _sg[s]
    # remove ::<...> groups (turbofish), keep <X as Y> prefix text
    out = []
    i = 0
    while i < len(s):
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < len(s):
                if s[j] == '<':
                    d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    _sg[s] = ''.join(out)
    return _sg[s]


class Engine:
    def __init__(self, prog, cfg=None):
        self.P = prog
        self.T = prog.tys
        self.cfg = cfg or {}
        self.native_fp = self.cfg.get('native_fp', False)
        self.stubs = self.cfg.get('stubs', {})       # callee base name -> ('inst', root name) | ('uf', name) | callable
        self.panics = self.cfg.get('panics', 'forbid')
        self.inv = set()                              # loop keys in invariant mode
        self.obls = {}
        self.uid = itertools.count(1)
        self.fns = {}
        self.solver = z3.Solver()
        self.cur_tmo = None
        self.spc = []
        self.symcells = {}
        self.fmtparts = {}
        self.lits = {}
        self.keep = []
        self.queries = 0
        self.qtime = 0.0
        self.paths = 0
        self.covered = set()
        self.inlined = set()
        self.modeled = set()
        self.stubbed = set()
        self.invloops = {}
        self.backends = {}
        self.deadline = None
        self.max_paths = self.cfg.get('max_paths', 20000)
        self.quiet = 0
        self.cexs = []
        self.calls_exec = {}
        from . import models
        self.models = models.build(self)
        self.model_cache = {}

    # ------------------------------------------------------------- sorts and terms
    def sort(self, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'bool':
            return z3.BoolSort()
        if k == 'int':
            return z3.BitVecSort(t['w'])
        if k == 'char':
            return z3.BitVecSort(32)
        if k == 'float':
            return F64S if t['w'] == 64 else F32S
        if k == 'pat':
            return self.sort(t['t'])
        if k == 'array' and self.zarr(t):
            return z3.ArraySort(B64, self.sort(t['e']))
        return V

    def zarr(self, t):
        """arrays of machine words are SMT arrays"""
        return t['n'] >= 4 and self.T[t['e']]['k'] == 'int' and self.T[t['e']].get('w') == 64

    def fn(self, name, args, ret):
        key = (name, tuple(str(a) for a in args), str(ret))
        f = self.fns.get(key)
        if f is None:
            f = z3.Function(name, *args, ret)
            self.fns[key] = f
        return f

    def fresh(self, ty, hint='v'):
        s = self.sort(ty)
        return self.sym(ty, z3.FreshConst(s, hint))

    def fresh_t(self, sort, hint='v'):
        return z3.FreshConst(sort, hint)

    def lit(self, s):
        if s not in self.lits:
            c = z3.Const('str!%d:%s' % (len(self.lits), re.sub(r'[^A-Za-z0-9_]', '_', s)[:30]), V)
            self.lits[s] = c
        return self.lits[s]

    def lit_axioms(self):
        ls = list(self.lits.values())
        return [z3.Distinct(*ls)] if len(ls) > 1 else []

    def tname(self, ty):
        return self.T[ty]['p']

    def len_fn(self, base):
        if z3.is_const(base) and base.decl().name() == 'seq_empty':
            return bv(0)
        return self.fn('len', [V], B64)(base)

    def at(self, ety, base, i):
        s = self.sort(ety)
        if s == V:
            return self.fn('at', [V, B64], V)(base, z3.simplify(i))
        return self.fn('at_%s' % s, [V, B64], s)(base, z3.simplify(i))

    def seq_sym(self, ety, base):
        return Sq(ety, (('s', base, bv(0), self.len_fn(base)),))

    def sym(self, ty, t):
        T = self.T[ty]
        k = T['k']
        if k in ('bool', 'int', 'char', 'float') or k == 'array' and self.zarr(T):
            return Sc(t)
        if k == 'pat':
            return self.sym(T['t'], t)
        if k in ('ref', 'ptr'):
            c = ('S', t.get_id(), T['t'])
            self.keep.append(t)
            if c not in self.symcells:
                self.symcells[c] = self.sym_pointee(T['t'], t)
            return Pt(c, ())
        if k == 'adt':
            b = T['bname']
            if b == 'std::vec::Vec' or b == 'std::collections::VecDeque':
                return self.seq_sym(T['args'][0], t)
            if b == 'std::string::String':
                return St(t)
            if b in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'):
                return Bx(self.sym_pointee(T['args'][0], t))
            if b == 'std::collections::HashMap':
                return Mp(T['args'][0], T['args'][1], t)
            if T.get('opaque'):
                return Op(ty, t)
            if T['adt'] == 'union':
                return Op(ty, t)
            if T['adt'] == 'struct' and not T['variants'][0]['f']:
                return Ag(ty, ())
            return Lz(ty, t)
        if k == 'tuple':
            if not T['e']:
                return Ag(ty, ())
            return Lz(ty, t)
        if k in ('array', 'closure'):
            return Lz(ty, t)
        if k == 'fndef':
            return Fv(T['inst'])
        return Op(ty, t)

    def sym_pointee(self, ty, t):
        """t: V term standing for a pointee of type ty"""
        T = self.T[ty]
        if T['k'] == 'slice':
            return self.seq_sym(T['e'], t)
        if T['k'] == 'str':
            return St(t)
        s = self.sort(ty)
        if s == V:
            return self.sym(ty, t)
        return Sc(self.fn('unbox_%s' % s, [V], s)(t))

    def variants(self, ty):
        return self.T[ty]['variants']

    def disc_t(self, lz):
        """variant index term (BV8) of a lazy enum"""
        return self.fn('disc_' + self.tname(lz.ty), [V], z3.BitVecSort(8))(lz.t)

    def fields_ty(self, ty, vi=0):
        T = self.T[ty]
        k = T['k']
        if k == 'adt':
            return [f[1] for f in T['variants'][vi]['f']]
        if k == 'tuple':
            return T['e']
        if k == 'closure':
            return T['up']
        if k == 'array':
            return [T['e']] * T['n']
        raise Unsupported('fields of %s' % T['p'])

    def field_of_lz(self, lz, vi, i):
        fts = self.fields_ty(lz.ty, vi)
        if i >= len(fts):
            raise Unsupported('field %d of %s' % (i, self.tname(lz.ty)))
        ft = fts[i]
        s = self.sort(ft)
        f = self.fn('%s.%d.%d' % (self.tname(lz.ty), vi, i), [V], s)
        return self.sym(ft, f(lz.t))

    def expand(self, lz, vi=0):
        T = self.T[lz.ty]
        n = len(self.fields_ty(lz.ty, vi))
        fs = [self.field_of_lz(lz, vi, i) for i in range(n)]
        if T['k'] == 'adt' and T['adt'] == 'enum':
            return En(lz.ty, vi, fs)
        return Ag(lz.ty, fs)

    def is_enum(self, ty):
        T = self.T[ty]
        return T['k'] == 'adt' and T['adt'] == 'enum'

    def reify(self, v, st):
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, (Lz, St, Op)):
            return v.t
        if isinstance(v, Bx):
            r = self.reify(v.v, st)
            if r.sort() != V:
                m = self.fn('box_%s' % r.sort(), [r.sort()], V)(r)
                self.assume(st, self.fn('unbox_%s' % r.sort(), [V], r.sort())(m) == r)
                return m
            return r
        if isinstance(v, Pt):
            return self.reify(Bx(self.read(st, v.c, v.p)), st)
        if isinstance(v, Mp):
            t = v.base
            for k, x in v.ups:
                if x is None:
                    t = self.fn('mrem', [V, V], V)(t, k)
                else:
                    t = self.fn('mput', [V, V, V], V)(t, k, self.reify(Bx(x), st))
            return t
        if isinstance(v, Sq):
            return self.reify_seq(v, st)
        if isinstance(v, (En, Ag)):
            vi = v.vi if isinstance(v, En) else 0
            args = [self.reify(x, st) for x in v.f]
            if not args:
                m = z3.Const('mk_%s.%d' % (self.tname(v.ty), vi), V)
            else:
                m = self.fn('mk_%s.%d' % (self.tname(v.ty), vi), [a.sort() for a in args], V)(*args)
            if isinstance(v, En):
                self.assume(st, self.disc_t(Lz(v.ty, m)) == vi)
            for i, a in enumerate(args):
                if isinstance(v.f[i], Fv):
                    continue
                f = self.fn('%s.%d.%d' % (self.tname(v.ty), vi, i), [V], a.sort())
                self.assume(st, f(m) == a)
            return m
        if isinstance(v, Fv):
            return z3.Const('fn!%s' % v.inst, V)
        raise Unsupported('reify %r' % (v,))

    def reify_seq(self, v, st):
        if len(v.segs) == 1 and v.segs[0][0] == 's':
            _, b, o, n = v.segs[0]
            if z3.is_bv_value(o) and o.as_long() == 0 and n.eq(self.len_fn(b)):
                return b
        if len(v.segs) > 1:
            v = Sq(v.ety, self.drop_empty(st, v.segs))
            if len(v.segs) == 1 and v.segs[0][0] == 's':
                _, b, o, n = v.segs[0]
                if z3.is_bv_value(o) and o.as_long() == 0 and n.eq(self.len_fn(b)):
                    return b
        if not v.segs:
            m = z3.Const('seq_empty', V)
            self.assume(st, self.fn('len', [V], B64)(m) == 0)
            return m
        parts = []
        pos = bv(0)
        for s in v.segs:
            if s[0] == 'e':
                parts.append(self.fn('unit', [V], V)(self.reify(Bx(s[1]), st)))
            else:
                parts.append(self.fn('sub' + s[0], [V, B64, B64], V)(s[1], s[2], s[3]))
        m = parts[0]
        for p in parts[1:]:
            m = self.fn('cat', [V, V], V)(m, p)
        self.assume(st, self.len_fn(m) == self.seq_len(v))
        pos = bv(0)
        for s in v.segs:
            if s[0] == 'e':
                r = self.reify(s[1], st)
                self.assume(st, self.at(v.ety, m, pos) == r)
                pos = pos + 1
            else:
                if self.qfacts:
                    k = z3.FreshConst(B64, 'k')
                    src = s[2] + (k - pos) if s[0] == 's' else s[2] + s[3] - 1 - (k - pos)
                    pat = self.at(v.ety, m, k)
                    self.assume(st, z3.ForAll([k], z3.Implies(z3.And(z3.ULE(pos, k), z3.ULT(k, pos + s[3])), pat == self.at(v.ety, s[1], z3.simplify(src))), patterns=[pat]))
                pos = z3.simplify(pos + s[3])
        return m

    qfacts = 0

    # ------------------------------------------------------------- solver
    def sync(self, st):
        pc = st.pc
        n = 0
        m = min(len(pc), len(self.spc))
        while n < m and pc[n] is self.spc[n]:
            n += 1
        if n < len(self.spc):
            self.solver.pop(len(self.spc) - n)
            del self.spc[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.spc.append(c)

    ftimeout = 1500

    def check(self, st, *extra, tmo=None, fallback=False):
        tmo = tmo or self.ftimeout
        if tmo != self.cur_tmo:
            self.solver.set('rlimit', tmo * 4000)     # deterministic budget, roughly tmo milliseconds
            self.solver.set('smt.mbqi', False)
            self.solver.set('timeout', 60000)
            self.cur_tmo = tmo
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        self.sync(st)
        self.queries += 1
        t = time.time()
        self.solver.push()
        for a in self.lit_axioms():
            self.solver.add(a)
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.last_model = None
        self.reason = self.solver.reason_unknown() if r == z3.unknown else ''
        if self.want_model and (r == z3.sat or (r == z3.unknown and 'incomplete' in self.reason)):
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        if r == z3.unknown and 'incomplete' not in self.reason and fallback:
            f = self.fallback(st, extra)
            if f is not None:
                r = f
                self.reason = ''
        self.qtime += time.time() - t
        return r

    def fallback(self, st, extra):
        """other back ends; only their `unsat` is used"""
        import subprocess, tempfile
        sv = z3.Solver()
        for a in list(st.pc) + self.lit_axioms() + list(extra):
            sv.add(a)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + sv.to_smt2())
            n = f.name
        try:
            for cmd in (['z3-new', 'sat.euf=true', '-T:60', 'rlimit=40000000', n], ['cvc5', '--tlimit=60000', '--rlimit=2000000', n]):
                try:
                    o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=90).stdout
                except (OSError, subprocess.TimeoutExpired):
                    continue
                if o.strip().split('\n')[0] == 'unsat':
                    self.backends[cmd[0]] = self.backends.get(cmd[0], 0) + 1
                    return z3.unsat
        finally:
            os.unlink(n)
        return None

    want_model = False

    def assume(self, st, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if is_t(c):
            return
        st.pc.append(c)

    def must(self, st, c):
        c = z3.simplify(c)
        if is_t(c):
            return True
        if is_f(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k[1]
        r = self.check(st, z3.Not(c)) == z3.unsat
        if r:
            st.known[c.get_id()] = (c, True)
        return r

    def may(self, st, c):
        c = z3.simplify(c)
        if is_t(c):
            return True
        if is_f(c):
            return False
        return self.check(st, c) != z3.unsat

    def decide(self, st, c):
        """True/False if c is determined on this path, else fork."""
        c = z3.simplify(c)
        if is_t(c):
            return True
        if is_f(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k[1]
        a = self.check(st, c) != z3.unsat
        if not a:
            st.known[c.get_id()] = (c, False)
            return False
        b = self.check(st, z3.Not(c)) != z3.unsat
        if not b:
            st.known[c.get_id()] = (c, True)
            return True
        raise ForkOn(c)

    # ------------------------------------------------------------- sequences
    def seq_len(self, s):
        n = bv(0)
        for g in s.segs:
            n = n + (bv(1) if g[0] == 'e' else g[3])
        return z3.simplify(n)

    def len_fact(self, st, s):
        for g in s.segs:
            if g[0] != 'e':
                self.base_fact(st, g[1])
                if not z3.is_bv_value(g[3]):
                    k = ('lenf', g[3].get_id())
                    if k not in st.known:
                        st.known[k] = (g[3], True)
                        self.assume(st, z3.ULE(g[3], bv(BIGLEN)))

    def base_fact(self, st, b):
        k = ('basef', b.get_id())
        if k not in st.known:
            st.known[k] = (b, True)
            self.assume(st, z3.ULE(self.len_fn(b), bv(BIGLEN)))

    def seg_elem(self, s, g, i):
        if g[0] == 's':
            return self.sym(s.ety, self.at(s.ety, g[1], g[2] + i))
        return self.sym(s.ety, self.at(s.ety, g[1], g[2] + g[3] - 1 - i))

    def seq_find(self, st, s, i):
        """(segment index, offset in segment) of element i; caller guarantees i < len"""
        pos = bv(0)
        self.len_fact(st, s)
        last = len(s.segs) - 1
        # fast path from the end for i == len - k
        for k, g in enumerate(s.segs):
            n = bv(1) if g[0] == 'e' else g[3]
            end = z3.simplify(pos + n)
            if k == last or self.decide(st, z3.ULT(i, end)):
                return k, z3.simplify(i - pos)
            pos = end
        raise Unsupported('index into empty sequence')

    def seq_get(self, st, s, i):
        k, o = self.seq_find(st, s, i)
        g = s.segs[k]
        return g[1] if g[0] == 'e' else self.seg_elem(s, g, o)

    def seq_set(self, st, s, i, val):
        k, o = self.seq_find(st, s, i)
        g = s.segs[k]
        if g[0] == 'e':
            return Sq(s.ety, s.segs[:k] + (('e', val),) + s.segs[k + 1:])
        if g[0] == 'r':
            raise Unsupported('write into reversed segment')
        a = ('s', g[1], g[2], o)
        b = ('s', g[1], z3.simplify(g[2] + o + 1), z3.simplify(g[3] - o - 1))
        return Sq(s.ety, s.segs[:k] + (a, ('e', val), b) + s.segs[k + 1:])

    def seq_slice(self, st, s, lo, hi):
        """elements lo..hi (caller guarantees lo<=hi<=len)"""
        lo = z3.simplify(lo)
        hi = z3.simplify(hi)
        self.len_fact(st, s)
        if z3.is_bv_value(lo) and lo.as_long() == 0 and hi.eq(self.seq_len(s)):
            return s
        out = []
        pos = bv(0)
        for g in s.segs:
            n = bv(1) if g[0] == 'e' else g[3]
            end = z3.simplify(pos + n)
            if self.decide(st, z3.ULE(end, lo)):
                pos = end
                continue
            if self.decide(st, z3.ULE(hi, pos)):
                break
            a = z3.simplify(lo - pos) if self.decide(st, z3.UGT(lo, pos)) else bv(0)
            b = z3.simplify(hi - pos) if self.decide(st, z3.ULT(hi, end)) else n
            if g[0] == 'e':
                out.append(g)
            else:
                m = z3.simplify(b - a)
                if g[0] == 's':
                    out.append(('s', g[1], z3.simplify(g[2] + a), m))
                else:
                    out.append(('r', g[1], z3.simplify(g[2] + g[3] - b), m))
            pos = end
        return Sq(s.ety, out)

    def seq_rev(self, s):
        out = []
        for g in reversed(s.segs):
            if g[0] == 'e':
                out.append(g)
            else:
                out.append(('r' if g[0] == 's' else 's',) + g[1:])
        return Sq(s.ety, out)

    # ------------------------------------------------------------- memory
    def cell(self, st, c):
        v = st.store.get(c)
        if v is None:
            v = self.symcells.get(c)
            if v is None:
                raise Unsupported('read of uninitialised cell %s in %s' % (c, self.where(st)))
        return v

    def project(self, st, v, e):
        k = e[0]
        if k == 'f':
            if isinstance(v, Ag):
                return v.f[e[1]]
            if isinstance(v, Lz):
                return self.field_of_lz(v, 0, e[1])
            if isinstance(v, Bx):
                return v
            if isinstance(v, En):
                return v.f[e[1]]
            raise Unsupported('field of %r' % (v,))
        if k == 'vf':
            if isinstance(v, En):
                if v.vi != e[1]:
                    raise Unsupported('wrong variant')
                return v.f[e[2]]
            if isinstance(v, Lz):
                return self.field_of_lz(v, e[1], e[2])
            raise Unsupported('variant field of %r' % (v,))
        if k == 'bx':
            if isinstance(v, Bx):
                return v.v
            raise Unsupported('unbox of %r' % (v,))
        if k == 'i':
            if isinstance(v, Sq):
                return self.seq_get(st, v, e[1])
            if isinstance(v, Sc):
                return Sc(z3.simplify(z3.Select(v.t, e[1])))
            return self.arr_get(st, v, e[1])
        if k == 'sl':
            if isinstance(v, Sq):
                return self.seq_slice(st, v, e[1], z3.simplify(e[1] + e[2]))
            if isinstance(v, (Ag, Lz)):
                s = self.arr_to_sq(v)
                return self.seq_slice(st, s, e[1], z3.simplify(e[1] + e[2]))
            raise Unsupported('slice of %r' % (v,))
        if k == 'w2a':
            return self.word_arc(e[1], v.t)
        if k == 'mv':   # map value
            return self.map_val(st, v, e[1])
        raise Unsupported('projection %s' % (e,))

    def arr_to_sq(self, v):
        ety = self.T[v.ty]['e']
        if isinstance(v, Lz):
            v = self.expand(v)
        return Sq(ety, tuple(('e', x) for x in v.f))

    def arr_get(self, st, v, i):
        if isinstance(v, Lz):
            v = self.expand(v)
        i = z3.simplify(i)
        if z3.is_bv_value(i):
            return v.f[i.as_long()]
        for k in range(len(v.f) - 1):
            if self.decide(st, i == k):
                return v.f[k]
        return v.f[-1]

    def map_find(self, st, m, key):
        """-> ('val', v) | ('none',) | ('base',)"""
        for k, x in reversed(m.ups):
            if self.decide(st, key == k):
                return ('none',) if x is None else ('val', x)
        has = self.fn('mhas', [V, V], z3.BoolSort())(m.base, key)
        if self.decide(st, has):
            t = self.fn('mval', [V, V], V)(m.base, key)
            return ('val', self.sym_pointee(m.vty, t))
        return ('none',)

    def map_val(self, st, m, key):
        r = self.map_find(st, m, key)
        if r[0] != 'val':
            if self.check(st, z3.BoolVal(True)) == z3.unsat:
                raise PathEnd()
            raise Unsupported('map value of absent key')
        return r[1]

    def read(self, st, c, path):
        v = self.cell(st, c)
        for e in path:
            v = self.project(st, v, e)
        return v

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        rest = path[1:]
        k = e[0]
        if k == 'f':
            if isinstance(v, Lz):
                v = self.expand(v)
            if v is UNDEF:
                raise Unsupported('partial init')
            fs = list(v.f)
            fs[e[1]] = self.upd(st, fs[e[1]], rest, val)
            return En(v.ty, v.vi, fs) if isinstance(v, En) else Ag(v.ty, fs)
        if k == 'vf':
            if isinstance(v, Lz):
                v = self.expand(v, e[1])
            fs = list(v.f)
            fs[e[2]] = self.upd(st, fs[e[2]], rest, val)
            return En(v.ty, v.vi, fs)
        if k == 'bx':
            return Bx(self.upd(st, v.v, rest, val))
        if k == 'i':
            if isinstance(v, Sq):
                if not rest:
                    return self.seq_set(st, v, e[1], val)
                x = self.seq_get(st, v, e[1])
                return self.seq_set(st, v, e[1], self.upd(st, x, rest, val))
            if isinstance(v, Sc):
                if rest:
                    raise Unsupported('projection into a word')
                return Sc(z3.simplify(z3.Store(v.t, e[1], val.t)))
            if isinstance(v, Lz):
                v = self.expand(v)
            i = z3.simplify(e[1])
            if not z3.is_bv_value(i):
                for kk in range(len(v.f) - 1):
                    if self.decide(st, i == kk):
                        i = bv(kk)
                        break
                else:
                    i = bv(len(v.f) - 1)
            fs = list(v.f)
            j = i.as_long()
            fs[j] = self.upd(st, fs[j], rest, val)
            return Ag(v.ty, fs)
        if k == 'sl':
            if isinstance(v, Sq):
                s = self.seq_slice(st, v, e[1], z3.simplify(e[1] + e[2]))
                ns = self.upd(st, s, rest, val)
                a = self.seq_slice(st, v, bv(0), e[1])
                b = self.seq_slice(st, v, z3.simplify(e[1] + e[2]), self.seq_len(v))
                return Sq(v.ety, a.segs + ns.segs + b.segs)
            raise Unsupported('write through slice')
        if k == 'mv':
            old = None
            if rest:
                old = self.map_val(st, v, e[1])
            nv = self.upd(st, old, rest, val)
            return Mp(v.kty, v.vty, v.base, v.ups + ((e[1], nv),))
        raise Unsupported('update %s' % (e,))

    def write(self, st, c, path, val):
        if not path:
            st.store[c] = val
            return
        st.store[c] = self.upd(st, self.cell(st, c), path, val)

    # ------------------------------------------------------------- places
    def lc(self, fr, local):
        return (fr.uid, local)

    def place(self, st, fr, pl):
        """-> (cell, path).  Follows derefs."""
        local, proj = pl
        c = (fr.uid, local)
        path = []
        ty = self.P.insts[fr.inst]['body']['locals'][local]
        i = 0
        n = len(proj)
        vi = None
        while i < n:
            e = proj[i]
            k = e[0]
            T = self.T[ty]
            if k == '*':
                if T['k'] == 'adt' and T.get('bname') in ('std::boxed::Box',):
                    v = self.read(st, c, path)
                    if isinstance(v, BoxAlias):
                        c, path = v.c, list(v.p)
                    path.append(('bx',))
                    ty = T['args'][0]
                else:
                    v = self.read(st, c, path)
                    if not isinstance(v, Pt):
                        raise Unsupported('deref of %r' % (v,))
                    c = v.c
                    path = list(v.p)
                    ty = T['t']
            elif k == 'f':
                if T['k'] == 'adt' and T.get('bname') in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull'):
                    # pointer inside a Box: stands for the box place itself
                    v = self.read(st, c, path)
                    if isinstance(v, BoxAlias):
                        c, path = v.c, list(v.p)
                        v = self.read(st, c, path)
                    if isinstance(v, Bx) and e[1] == 0:
                        ty = e[2]
                        path.append(('pp',))
                        # collapse following .0 projections
                        j = i + 1
                        while j < n and proj[j][0] == 'f':
                            ty = proj[j][2]
                            j += 1
                        i = j
                        return c, tuple(path)
                if T['k'] == 'adt' and T.get('bname') == 'std::mem::MaybeUninit':
                    # the contents of a MaybeUninit are represented by the value itself
                    ty = e[2]
                    while i + 1 < n and proj[i + 1][0] == 'f' and self.T[ty].get('bname') in ('std::mem::ManuallyDrop', 'std::mem::MaybeDangling'):
                        i += 1
                        ty = proj[i][2]
                    i += 1
                    continue
                if vi is not None:
                    path.append(('vf', vi, e[1]))
                else:
                    path.append(('f', e[1]))
                ty = e[2]
                vi = None
            elif k == 'd':
                vi = e[1]
            elif k == 'i':
                ix = self.read(st, (fr.uid, e[1]), ())
                path.append(('i', ix.t))
                ty = T['e']
            elif k == 'c':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    base = self.read(st, c, path)
                    ln = self.len_of(base)
                    path.append(('i', z3.simplify(ln - off)))
                else:
                    path.append(('i', bv(off)))
                ty = T['e']
            elif k == 's':
                base = self.read(st, c, path)
                ln = self.len_of(base)
                frm, to, fe = e[1], e[2], e[3]
                hi = ln - to if fe else bv(to)
                path.append(('sl', bv(frm), z3.simplify(hi - frm)))
            else:
                raise Unsupported('projection ' + k)
            i += 1
        return c, tuple(path)

    def len_of(self, v):
        if isinstance(v, Sq):
            return self.seq_len(v)
        if isinstance(v, (Ag, Lz)) and self.T[v.ty]['k'] == 'array':
            return bv(self.T[v.ty]['n'])
        raise Unsupported('len of %r' % (v,))

    def rplace(self, st, fr, pl):
        c, p = self.place(st, fr, pl)
        if p and p[-1] == ('pp',):
            return Pt(c, p[:-1] + (('bx',),))
        return self.read(st, c, p)

    # ------------------------------------------------------------- operands
    def const(self, st, ty, v):
        T = self.T[ty]
        k = T['k']
        if 'z' in v:
            if k == 'fndef':
                return Fv(T['inst'])
            if k in ('tuple', 'closure', 'array'):
                return Ag(ty, ())
            if k == 'adt' and T['adt'] == 'struct':
                return Ag(ty, tuple(self.const(st, f[1], {'z': 1}) for f in T['variants'][0]['f'])) if T['variants'] else Op(ty, z3.Const('zst_' + T['p'], V))
            return Op(ty, z3.Const('zst_' + T['p'], V))
        if 'i' in v:
            n = int(v['i'])
            if k == 'bool':
                return Sc(z3.BoolVal(bool(n)))
            if k == 'int':
                return Sc(bv(n, T['w']))
            if k == 'char':
                return Sc(bv(n, 32))
            if k == 'float':
                s = F64S if T['w'] == 64 else F32S
                return Sc(z3.simplify(z3.fpBVToFP(bv(n, T['w']), s)))
            if k == 'pat':
                return self.const(st, T['t'], v)
            raise Unsupported('const int of ' + T['p'])
        if 's' in v:
            c = ('C', 'str', v['s'])
            self.symcells[c] = St(self.lit(v['s']))
            return Pt(c, ())
        if 'sl' in v:
            e = self.T[T['t']]['e']
            c = ('C', ty, json.dumps(v['sl']))
            if c not in self.symcells:
                self.symcells[c] = Sq(e, tuple(('e', self.const(st, e, x)) for x in v['sl']))
            return Pt(c, ())
        if 'r' in v:
            if 'u' in v['r']:
                c = ('G', v.get('static', 'anon%d' % next(self.uid)), ty)
                if c not in self.symcells:
                    self.symcells[c] = self.sym_pointee(T['t'], z3.Const('static_%s_%s' % (v.get('static'), T['p']), V))
                return Pt(c, ())
            if 'static' in v:
                c = ('G', v['static'], ty)
            else:
                c = ('C', ty, json.dumps(v['r']))
            if c not in self.symcells:
                self.symcells[c] = self.const(st, T['t'], v['r'])
            return Pt(c, ())
        if 't' in v:
            es = self.fields_ty(ty)
            return Ag(ty, tuple(self.const(st, e, x) for e, x in zip(es, v['t'])))
        if 'v' in v:
            if T['k'] == 'adt' and T.get('opaque'):
                return self.opaque_const(st, ty, v)
            es = self.fields_ty(ty, v['v'])
            fs = tuple(self.const(st, e, x) for e, x in zip(es, v['f']))
            if T['adt'] == 'enum':
                return En(ty, v['v'], fs)
            return Ag(ty, fs)
        if 'fn' in v:
            return Fv(v['fn'])
        if 'u' in v:
            if k in ('adt', 'ref', 'tuple', 'array', 'ptr'):
                # unknown constant: an arbitrary but fixed value
                return self.sym(ty, z3.FreshConst(V, 'const'))
            raise Unsupported('undecoded constant of ' + T['p'])
        raise Unsupported('constant %s' % v)

    def opaque_const(self, st, ty, v):
        T = self.T[ty]
        if T['bname'] == 'std::vec::Vec':
            return Sq(T['args'][0], ())      # only the empty Vec can be a constant
        if T['bname'] == 'std::string::String':
            return St(self.lit(''))
        return Op(ty, z3.FreshConst(V, 'const'))

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('cp', 'mv'):
            return self.rplace(st, fr, o[1])
        if k == 'k':
            return self.const(st, o[1], o[2])
        if k == 'rt':
            return Sc(z3.BoolVal(False))
        raise Unsupported('operand ' + k)

    # ------------------------------------------------------------- floats
    def fop(self, name, *args):
        if all(isinstance(a, z3.FPNumRef) or z3.is_bv_value(a) for a in args) or self.native_fp:
            r = self.fop_native(name, *args)
            if r is not None:
                return r
        s = args[0].sort()
        if name in ('add', 'mul') and args[0].get_id() > args[1].get_id():
            args = (args[1], args[0])
        return self.fn('f%s_%s' % (name, 64 if s == F64S else 32), [a.sort() for a in args], s)(*args)

    def fop_native(self, name, *a):
        if name == 'add':
            return z3.fpAdd(RNE, a[0], a[1])
        if name == 'sub':
            return z3.fpSub(RNE, a[0], a[1])
        if name == 'mul':
            return z3.fpMul(RNE, a[0], a[1])
        if name == 'div':
            return z3.fpDiv(RNE, a[0], a[1])
        return None

    def f_to_f(self, x, w):
        s = F64S if w == 64 else F32S
        if x.sort() == s:
            return x
        if self.native_fp or isinstance(x, z3.FPNumRef):
            return z3.simplify(z3.fpFPToFP(RNE, x, s)) if isinstance(x, z3.FPNumRef) else z3.fpFPToFP(RNE, x, s)
        return self.fn('f2f_%d' % w, [x.sort()], s)(x)

    def f_to_i(self, x, w, signed):
        s = z3.BitVecSort(w)
        if isinstance(x, z3.FPNumRef) or self.native_fp:
            lo = -(2 ** (w - 1)) if signed else 0
            hi = (2 ** (w - 1) - 1) if signed else 2 ** w - 1
            z = z3.FPVal
            xs = x.sort()
            conv = z3.fpToSBV(z3.RTZ(), x, s) if signed else z3.fpToUBV(z3.RTZ(), x, s)
            # bounds as floats
            hif = z3.fpToFP(RNE, z3.RealVal(2 ** (w - 1) if signed else 2 ** w), xs)
            lof = z3.fpToFP(RNE, z3.RealVal(lo), xs)
            r = z3.If(z3.fpIsNaN(x), bv(0, w), z3.If(z3.fpGEQ(x, hif), bv(hi, w), z3.If(z3.fpLEQ(x, lof), bv(lo, w), conv)))
            return z3.simplify(r)
        return self.fn('f2i_%s%d_%d' % ('s' if signed else 'u', w, 64 if x.sort() == F64S else 32), [x.sort()], s)(x)

    def i_to_f(self, x, signed, w):
        s = F64S if w == 64 else F32S
        if z3.is_bv_value(x) or self.native_fp:
            r = z3.fpSignedToFP(RNE, x, s) if signed else z3.fpUnsignedToFP(RNE, x, s)
            return z3.simplify(r)
        return self.fn('i2f_%s%d_%d' % ('s' if signed else 'u', x.size(), w), [x.sort()], s)(x)

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, ty):
        k = rv[0]
        if k == 'use':
            T = self.T[ty]
            if rv[1][0] == 'cp' and T['k'] == 'adt' and T.get('bname') == 'std::boxed::Box':
                # a box is never copied by the program: this is the compiler naming a box it is about to look into
                c, p = self.place(st, fr, rv[1][1])
                if not (p and p[-1] == ('pp',)):
                    v = self.read(st, c, p)
                    return v if isinstance(v, BoxAlias) else BoxAlias(c, p)
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'addr':
            c, p = self.place(st, fr, rv[1])
            if p and p[-1] == ('pp',):
                raise Unsupported('address of box pointer')
            return Pt(c, p)
        if k == 'agg':
            kind, vi, ops = rv[1], rv[2], rv[3]
            vals = [self.operand(st, fr, o) for o in ops]
            if kind == 'adt':
                if self.is_enum(ty):
                    return En(ty, vi, vals)
                return Ag(ty, vals)
            if kind == 'arr' and self.zarr(self.T[ty]):
                a = z3.K(B64, bv(0))
                for i, x in enumerate(vals):
                    a = z3.Store(a, bv(i), x.t)
                return Sc(a)
            if kind in ('tup', 'clo', 'arr'):
                return Ag(ty, vals)
            if kind == 'rawptr':
                return vals[0]
            raise Unsupported('aggregate ' + kind)
        if k == 'disc':
            c, p = self.place(st, fr, rv[1])
            if not p and c not in st.store and c not in self.symcells:
                return self.fresh(ty, 'disc')     # zero-sized local whose assignment rustc removed
            v = self.read(st, c, p)
            return self.discriminant(st, v, ty)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.op_ty(fr, rv[2]), ty)
        if k == 'cbin':
            return self.cbinop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.op_ty(fr, rv[2]), ty)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                return Sc(z3.Not(v.t)) if z3.is_bool(v.t) else Sc(~v.t)
            if rv[1] == 'Neg':
                return Sc(z3.fpNeg(v.t)) if z3.is_fp(v.t) else Sc(-v.t)
            if rv[1] == 'PtrMetadata':
                x = self.read(st, v.c, v.p)
                if isinstance(x, Sq):
                    self.len_fact(st, x)
                return Sc(self.len_of(x))
            raise Unsupported('unop ' + rv[1])
        if k == 'len':
            c, p = self.place(st, fr, rv[1])
            v = self.read(st, c, p)
            if isinstance(v, Sq):
                self.len_fact(st, v)
            return Sc(self.len_of(v))
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == 'rep':
            v = self.operand(st, fr, rv[1])
            if rv[2] < 0 or rv[2] > 1024:
                raise Unsupported('repeat')
            if self.zarr(self.T[ty]):
                return Sc(z3.K(B64, v.t))
            return Ag(ty, [v] * rv[2])
        raise Unsupported('rvalue %s' % (rv,))

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[1]
        if o[0] == 'rt':
            return None
        local, proj = o[1]
        ty = self.P.insts[fr.inst]['body']['locals'][local]
        vi = None
        for e in proj:
            T = self.T[ty]
            if e[0] == '*':
                ty = T['args'][0] if T['k'] == 'adt' else T['t']
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = T['e']
        return ty

    def discriminant(self, st, v, ty):
        T = self.T[ty]
        w = T['w'] if T['k'] == 'int' else 64
        if isinstance(v, En):
            vs = self.variants(v.ty)
            return Sc(bv(int(vs[v.vi]['d']) if vs else v.vi, w))
        if isinstance(v, Lz) and self.is_enum(v.ty):
            vs = self.variants(v.ty)
            d = self.disc_t(v)
            self.enum_fact(st, v)
            if all(int(x['d']) == i for i, x in enumerate(vs)):
                return Sc(z3.ZeroExt(w - 8, d) if w > 8 else d)
            r = bv(int(vs[-1]['d']), w)
            for i in range(len(vs) - 1):
                r = z3.If(d == i, bv(int(vs[i]['d']), w), r)
            return Sc(r)
        if isinstance(v, (Ag, Lz)):
            return Sc(bv(0, w))
        if isinstance(v, Op) and str(v.t).startswith('zst_') and self.is_enum(v.ty):
            return Sc(bv(0, w))      # Option<!>: only None
        raise Unsupported('discriminant of %r' % (v,))

    def enum_fact(self, st, v):
        k = ('enumf', v.t.get_id(), v.ty)
        if k not in st.known:
            st.known[k] = (v.t, True)
            self.assume(st, z3.ULT(self.disc_t(v), len(self.variants(v.ty))))

    def variant_of(self, st, v):
        """determined variant index (forks if needed)"""
        if isinstance(v, En):
            return v.vi
        d = self.disc_t(v)
        self.enum_fact(st, v)
        n = len(self.variants(v.ty))
        for i in range(n - 1):
            if self.decide(st, d == i):
                return i
        return n - 1

    def signed(self, ty):
        T = self.T[ty]
        return T['k'] == 'int' and T['s']

    def binop(self, st, op, a, b, aty, ty):
        if isinstance(a, (Pt,)) or isinstance(b, Pt):
            if op in ('Eq', 'Ne'):
                raise Unsupported('pointer comparison')
        if isinstance(a, Fv) or isinstance(b, Fv):
            raise Unsupported('function pointer comparison')
        x, y = a.t, b.t
        if z3.is_fp(x):
            m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}
            if op in m:
                return Sc(self.fop(m[op], x, y))
            c = {'Eq': z3.fpEQ, 'Ne': z3.fpNEQ, 'Lt': z3.fpLT, 'Le': z3.fpLEQ, 'Gt': z3.fpGT, 'Ge': z3.fpGEQ}
            return Sc(c[op](x, y))
        if z3.is_bool(x):
            if op == 'Eq':
                return Sc(x == y)
            if op == 'Ne' or op == 'BitXor':
                return Sc(z3.Xor(x, y))
            if op == 'BitAnd':
                return Sc(z3.And(x, y))
            if op == 'BitOr':
                return Sc(z3.Or(x, y))
            xi = z3.If(x, bv(1, 8), bv(0, 8))
            yi = z3.If(y, bv(1, 8), bv(0, 8))
            c = {'Lt': z3.ULT, 'Le': z3.ULE, 'Gt': z3.UGT, 'Ge': z3.UGE}
            return Sc(c[op](xi, yi))
        if x.sort() == V:
            raise Unsupported('binop on opaque')
        s = aty is not None and self.signed(aty)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            w = x.size()
            if y.size() < w:
                y = z3.ZeroExt(w - y.size(), y)
            elif y.size() > w:
                y = z3.Extract(w - 1, 0, y)
            y = y & (w - 1)
            if op.startswith('Shl'):
                return Sc(x << y)
            return Sc(x >> y if s else z3.LShR(x, y))
        if op == 'Cmp':
            lt = a.t < b.t if self.signed(aty) else z3.ULT(a.t, b.t)
            if self.decide(st, lt):
                return En(ty, 0, ())
            return En(ty, 1 if self.decide(st, a.t == b.t) else 2, ())
        f = {
            'Add': lambda: x + y, 'AddUnchecked': lambda: x + y, 'Sub': lambda: x - y, 'SubUnchecked': lambda: x - y,
            'Mul': lambda: x * y, 'MulUnchecked': lambda: x * y,
            'Div': lambda: (x / y if s else z3.UDiv(x, y)), 'Rem': lambda: (z3.SRem(x, y) if s else z3.URem(x, y)),
            'BitXor': lambda: x ^ y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
            'Eq': lambda: x == y, 'Ne': lambda: x != y,
            'Lt': lambda: (x < y if s else z3.ULT(x, y)), 'Le': lambda: (x <= y if s else z3.ULE(x, y)),
            'Gt': lambda: (x > y if s else z3.UGT(x, y)), 'Ge': lambda: (x >= y if s else z3.UGE(x, y)),
        }
        if op not in f:
            raise Unsupported('binop ' + op)
        return Sc(z3.simplify(f[op]()))

    def cbinop(self, st, op, a, b, aty, ty):
        x, y = a.t, b.t
        s = self.signed(aty)
        r = self.binop(st, op, a, b, aty, ty)
        if op == 'Add':
            ok = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y)) if s else z3.BVAddNoOverflow(x, y, False)
        elif op == 'Sub':
            ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if s else z3.UGE(x, y)
        elif op == 'Mul':
            ok = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y)) if s else z3.BVMulNoOverflow(x, y, False)
        else:
            raise Unsupported('checked ' + op)
        return Ag(ty, (r, Sc(z3.simplify(z3.Not(ok)))))

    def cast(self, st, kind, v, fty, tty):
        FT = self.T[fty] if fty is not None else None
        TT = self.T[tty]
        if kind == 'IntToInt':
            x = v.t
            if z3.is_bool(x):
                x = z3.If(x, bv(1, 8), bv(0, 8))
                s = False
            else:
                s = FT['k'] == 'int' and FT['s']
            w = TT['w'] if TT['k'] == 'int' else 32
            if x.size() < w:
                x = z3.SignExt(w - x.size(), x) if s else z3.ZeroExt(w - x.size(), x)
            elif x.size() > w:
                x = z3.Extract(w - 1, 0, x)
            return Sc(z3.simplify(x))
        if kind == 'FloatToFloat':
            return Sc(self.f_to_f(v.t, TT['w']))
        if kind == 'FloatToInt':
            return Sc(self.f_to_i(v.t, TT['w'], TT['s']))
        if kind == 'IntToFloat':
            return Sc(self.i_to_f(v.t, FT['k'] == 'int' and FT['s'], TT['w']))
        if kind in ('PtrToPtr', 'Subtype', 'FnPtrToPtr'):
            return v
        if kind.startswith('PointerCoercion('):
            if 'Unsize' in kind:
                if isinstance(v, Pt):
                    x = self.read(st, v.c, v.p)
                    if isinstance(x, (Ag, Lz)) and self.T[x.ty]['k'] == 'array' and TT['k'] in ('ref', 'ptr') and self.T[TT['t']]['k'] == 'slice':
                        n = self.T[x.ty]['n']
                        return Pt(v.c, v.p + (('sl', bv(0), bv(n)),))
                    return v
                if isinstance(v, Bx) and isinstance(v.v, Ag) and self.T[v.v.ty]['k'] == 'array':
                    return Bx(self.arr_to_sq(v.v))
                return v
            return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            if FT and FT['k'] == 'ref' and TT['k'] == 'ref' and self.T[FT['t']]['k'] == 'int' and self.arc_string(self.T[TT['t']]):
                return Pt(v.c, v.p + (('w2a', TT['t']),))
            if FT and TT['k'] == 'int' and self.arc_string(FT):
                return Sc(self.arc_word(st, self.reify(v, st)))
            if FT and FT['k'] == 'int' and self.arc_string(TT):
                return self.word_arc(tty, v.t)
            if isinstance(v, Pt) and TT['k'] in ('ptr', 'ref', 'adt'):
                return v
            if isinstance(v, Sc):
                if z3.is_fp(v.t) and TT['k'] == 'int':
                    return Sc(z3.fpToIEEEBV(v.t))
                if z3.is_bv(v.t) and TT['k'] == 'float':
                    return Sc(z3.fpBVToFP(v.t, F64S if TT['w'] == 64 else F32S))
                if z3.is_bv(v.t) and TT['k'] in ('int', 'char') and v.t.size() == (TT.get('w') or 32):
                    return v
            raise Unsupported("transmute %s -> %s in %s" % (FT and FT["p"], TT["p"], self.where(st)))
        raise Unsupported('cast ' + kind)

    # an Arc<String> stored as a machine word: the word determines the string
    def arc_string(self, T):
        return T['k'] == 'adt' and T.get('bname') == 'std::sync::Arc' and self.T[T['args'][0]].get('bname') == 'std::string::String'

    def word_arc(self, ty, w):
        return self.sym(ty, self.fn('w2arc', [B64], V)(w))

    def arc_word(self, st, t):
        if z3.is_app(t) and t.decl().name() == 'w2arc':
            return t.arg(0)
        w = self.fn('arc2w', [V], B64)(t)
        self.assume(st, self.fn('w2arc', [B64], V)(w) == t)
        return w

    # ------------------------------------------------------------- equality
    def veq(self, st, a, b):
        """structural (bit-level for floats) equality as a formula"""
        if isinstance(a, Sc) and isinstance(b, Sc):
            return a.t == b.t
        if isinstance(a, Bx) and isinstance(b, Bx):
            return self.veq(st, a.v, b.v)
        if isinstance(a, Pt) and isinstance(b, Pt):
            if a.c == b.c and len(a.p) == len(b.p) and all(self.pe_same(x, y) for x, y in zip(a.p, b.p)):
                return z3.BoolVal(True)
            return self.veq(st, self.read(st, a.c, a.p), self.read(st, b.c, b.p))
        if isinstance(a, St) and isinstance(b, St):
            return a.t == b.t
        if isinstance(a, Lz) and isinstance(b, Lz):
            if a.t.eq(b.t):
                return z3.BoolVal(True)
            if a.ty == b.ty and self.is_enum(a.ty):
                # variants without fields have one value
                vs = self.variants(a.ty)
                ks = [i for i in range(len(vs)) if not self.fields_ty(a.ty, i)]
                if ks:
                    da, db = self.disc_t(a), self.disc_t(b)
                    self.assume(st, z3.Implies(z3.And(da == db, z3.Or([da == i for i in ks])), a.t == b.t))
            return a.t == b.t
        if isinstance(a, En) and isinstance(b, En):
            if a.vi != b.vi:
                return z3.BoolVal(False)
            return z3.And([z3.BoolVal(True)] + [self.veq(st, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Ag) and isinstance(b, Ag):
            return z3.And([z3.BoolVal(True)] + [self.veq(st, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Lz) and isinstance(b, (En, Ag)):
            a, b = b, a
        if isinstance(a, En) and isinstance(b, Lz):
            self.enum_fact(st, b)
            e = self.expand(b, a.vi)
            return z3.And(self.disc_t(b) == a.vi, *[self.veq(st, x, y) for x, y in zip(a.f, e.f)])
        if isinstance(a, Ag) and isinstance(b, Lz):
            e = self.expand(b)
            return self.veq(st, a, e)
        if isinstance(a, Sq) and isinstance(b, Sq):
            return self.seq_eq(st, a, b)
        if isinstance(a, Op) and isinstance(b, Op):
            return a.t == b.t
        if isinstance(a, Fv) and isinstance(b, Fv):
            return z3.BoolVal(a.inst == b.inst)
        if isinstance(a, Mp) and isinstance(b, Mp):
            if a.ups and a.base.eq(b.base) and len(a.ups) == len(b.ups):
                cs = []
                for (k, x), (l, y) in zip(a.ups, b.ups):
                    cs.append(k == l)
                    if (x is None) != (y is None):
                        break
                    if x is not None:
                        cs.append(self.veq(st, x, y))
                else:
                    return z3.And(cs)
            return self.reify(a, st) == self.reify(b, st)
        return self.reify(a, st) == self.reify(b, st)

    def pe_same(self, x, y):
        if x[0] != y[0] or len(x) != len(y):
            return False
        for p, q in zip(x[1:], y[1:]):
            if isinstance(p, int) or isinstance(q, int):
                if p != q:
                    return False
            elif not p.eq(q):
                return False
        return True

    def seq_eq(self, st, a, b):
        sa = [g for g in a.segs if not (g[0] != 'e' and z3.is_bv_value(z3.simplify(g[3])) and z3.simplify(g[3]).as_long() == 0)]
        sb = [g for g in b.segs if not (g[0] != 'e' and z3.is_bv_value(z3.simplify(g[3])) and z3.simplify(g[3]).as_long() == 0)]
        # merge adjacent symbolic segments that continue each other
        sa = self.seq_norm(st, sa, a.ety)
        sb = self.seq_norm(st, sb, b.ety)
        if len(sa) != len(sb):
            sa, sb = self.drop_empty(st, sa), self.drop_empty(st, sb)
        if len(sa) == len(sb) and all(x[0] == y[0] for x, y in zip(sa, sb)):
            cs = []
            for x, y in zip(sa, sb):
                if x[0] == 'e':
                    cs.append(self.veq(st, x[1], y[1]))
                else:
                    cs.append(z3.Or(z3.And(x[1] == y[1], x[2] == y[2], x[3] == y[3]), z3.And(x[3] == 0, y[3] == 0)))
            return z3.And([z3.BoolVal(True)] + cs)
        # one side concrete elements, other symbolic: elementwise when the length is concrete
        la, lb = self.seq_len(a), self.seq_len(b)
        for u, v, lu in ((a, b, la), (b, a, lb)):
            if all(g[0] == 'e' for g in u.segs) and len(v.segs) == 1 and v.segs[0][0] in 'sr':
                n = len(u.segs)
                cs = [self.seq_len(v) == n]
                for i in range(n):
                    cs.append(self.veq(st, u.segs[i][1], self.seg_elem(v, v.segs[0], bv(i))))
                return z3.And(cs)
        return self.reify_seq(a, st) == self.reify_seq(b, st)

    def drop_empty(self, st, segs):
        """without the parts that are empty under the path condition"""
        if not any(g[0] == 'e' for g in segs):
            return tuple(segs)
        out = []
        for g in segs:
            if g[0] != 'e':
                n = z3.simplify(g[3])
                if z3.is_bv_value(n):
                    if n.as_long() == 0:
                        continue
                elif z3.is_app(n) and n.decl().kind() == z3.Z3_OP_BADD and self.check(st, n != 0) == z3.unsat:
                    continue
            out.append(g)
        return tuple(out)

    def seq_norm(self, st, segs, ety):
        out = []
        for g in segs:
            if g[0] == 's' and z3.is_bv_value(z3.simplify(g[3])) and z3.simplify(g[3]).as_long() == 1:
                pass
            if out and g[0] == 's' and out[-1][0] == 's' and out[-1][1].eq(g[1]):
                p = out[-1]
                if z3.simplify(p[2] + p[3] - g[2]).eq(bv(0)):
                    out[-1] = ('s', p[1], p[2], z3.simplify(p[3] + g[3]))
                    continue
            # an element equal to the next element of the previous segment
            if out and g[0] == 'e' and out[-1][0] == 's':
                p = out[-1]
                try:
                    el = self.sym(ety, self.at(ety, p[1], p[2] + p[3]))
                    same = self.shallow_same(el, g[1])
                except Unsupported:
                    same = False
                if same:
                    out[-1] = ('s', p[1], p[2], z3.simplify(p[3] + 1))
                    continue
            out.append(g)
        return out

    def shallow_same(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, (Lz, Sc, St, Op)):
            return a.t.eq(b.t)
        if isinstance(a, Bx):
            return self.shallow_same(a.v, b.v)
        return False

    # ------------------------------------------------------------- obligations
    def where(self, st):
        fr = st.frames[-1]
        i = self.P.insts[fr.inst]
        return i['base']

    def obligation(self, st, kind, label, cond):
        """prove cond under the path condition; returns nothing (path continues assuming cond)"""
        if self.quiet:
            self.assume(st, cond)
            return
        key = (kind, label)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(kind, label, self.where(st))
        o.instances += 1
        c = z3.simplify(cond)
        if is_t(c) or (o.failed and self.cfg.get('native_fp')):
            return
        t0 = time.time()
        self.want_model = True
        try:
            r = None
            if self.cfg.get('native_fp'):      # confirming a failure: only a failing path matters
                r = self.sample_fp(st, z3.Not(c))
            if r not in (z3.sat, z3.unknown) or (r == z3.unknown and 'incomplete' not in self.reason):
                r = self.check(st, z3.Not(c), tmo=3000 if r is not None else self.cfg.get('timeout_ms', 10000), fallback=r is None)
        finally:
            self.want_model = False
        o.time += time.time() - t0
        if r == z3.unsat:
            pass
        elif r == z3.sat or 'incomplete' in self.reason:
            o.failed.append(dict(self.make_cex(st, self.last_model, kind, label, c), result=str(r)))
        else:
            o.undecided.append('solver returned unknown (%s)' % self.reason)
        if r == z3.unknown and self.cfg.get('native_fp'):
            return
        self.assume(st, c)
        if r != z3.unsat:
            if self.check(st) == z3.unsat:
                raise PathEnd()

    def sample_fp(self, st, neg):
        """looks for a failing input with concrete numbers where IEEE arithmetic on unknown ones is too hard"""
        import random
        seen, leaves, todo = set(), [], list(st.pc) + [neg]
        while todo:
            e = todo.pop()
            if e.get_id() in seen or z3.is_quantifier(e) or z3.is_var(e):
                continue
            seen.add(e.get_id())
            if z3.is_fp(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                leaves.append(e)
            todo.extend(e.children())
        if not leaves:
            return None
        rnd = random.Random(7)
        for k in range(3):
            eqs = [e == z3.FPVal(rnd.randint(1, 9) if k else rnd.randint(1, 40) / 4, e.sort()) for e in leaves]
            r = self.check(st, neg, *eqs, tmo=3000)
            if r == z3.unsat:
                continue
            if r == z3.sat or (r == z3.unknown and 'incomplete' in self.reason):
                return r
        return z3.unknown

    def make_cex(self, st, model, kind, label, cond):
        tr = [self.P.insts[f.inst]['base'] for f in st.frames]
        cex = {'kind': kind, 'label': label, 'stack': tr, 'abs': bool(st.counts.get('abs'))}
        try:
            from . import concretize
            cex['args'] = concretize.harness_args(self, st, model)
        except Exception as e:     # the violation stands without a concrete input
            cex['args'] = None
            cex['args_error'] = '%s: %s' % (type(e).__name__, e)
        try:
            ds = []
            for d in model.decls()[:60]:
                s = str(model[d])
                if len(s) < 300:
                    ds.append('%s = %s' % (d.name(), s))
            cex['model'] = ds
        except Exception:
            pass
        return cex

    # ------------------------------------------------------------- running
    def run(self, root, budget=600):
        iid = self.P.roots[root]
        self.deadline = time.time() + budget
        while True:
            self.obls = {}
            self.paths = 0
            self.spc = []
            self.solver.reset()
            self.cur_tmo = None
            self.quiet = 0
            self.ended = []
            try:
                st = State()
                body = self.P.insts[iid]['body']
                fr = Frame(next(self.uid), iid, 0, None, None)
                fr.tag = 'root'
                st.frames.append(fr)
                self.harness_syms = []
                for a in range(1, body['argc'] + 1):
                    ty = body['locals'][a]
                    t = z3.Const('arg%d' % a, self.sort(ty))
                    v = self.sym(ty, t)
                    st.store[(fr.uid, a)] = v
                    self.harness_syms.append((ty, t))
                self.explore(st, None)
                return self.obls
            except NeedInvariant as e:
                self.inv.add(e.key)
                continue

    def explore(self, st, stop):
        """DFS.  `stop(st)` -> True ends a path (used for loop bodies)."""
        work = [st]
        while work:
            s = work.pop()
            while True:
                c = s
                try:
                    si = s.frames[-1].si
                    if self.at_call(s):
                        c = s.copy()
                    r = self.step(c, stop)
                    s = c
                    if r == 'end':
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Unsupported('path limit')
                        break
                except ForkOn as f:
                    s.frames[-1].si = si
                    a = s.copy()
                    a.pc.append(f.cond)
                    a.known[f.cond.get_id()] = (f.cond, True)
                    b = s
                    n = z3.simplify(z3.Not(f.cond))
                    b.pc.append(n)
                    b.known[f.cond.get_id()] = (f.cond, False)
                    b.known[n.get_id()] = (n, True)
                    a.known[n.get_id()] = (n, False)
                    work.append(b)
                    s = a
                except PathEnd:
                    self.paths += 1
                    break

    def at_call(self, s):
        fr = s.frames[-1]
        b = self.P.insts[fr.inst]['body']['blocks'][fr.bb]
        return not fr.fresh and fr.si >= len(b['s']) and b['t']['k'] in ('call', 'return')

    def step(self, st, stop):
        st.steps += 1
        if st.steps > 200000:
            raise Unsupported('step limit')
        if self.deadline and (st.steps & 63) == 0 and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        fr = st.frames[-1]
        body = self.P.insts[fr.inst]['body']
        if fr.si == 0 and fr.fresh:
            fr.fresh = False
            return self.at_block(st, fr, stop)
        blk = body['blocks'][fr.bb]
        ss = blk['s']
        if fr.si < len(ss):
            s = ss[fr.si]
            fr.si += 1
            k = s[0]
            if k == 'a':
                v = self.rvalue(st, fr, s[2], s[3])
                c, p = self.place(st, fr, s[1])
                self.write(st, c, p, v)
            elif k == 'sd':
                c, p = self.place(st, fr, s[1])
                v = self.read(st, c, p)
                if isinstance(v, En):
                    self.write(st, c, p, En(v.ty, s[2], v.f))
                else:
                    raise Unsupported('set discriminant')
            else:
                raise Unsupported('statement %s' % s)
            return None
        return self.term(st, fr, blk['t'])

    # block entry: loop handling -------------------------------------------------
    def at_block(self, st, fr, stop):
        if stop is not None:
            r = stop(st, fr)
            if r:
                return 'end'
        lp = self.P.loops(fr.inst)
        if fr.bb not in lp:
            return None
        key = (fr.inst, fr.bb)
        hk = ('L', fr.uid, fr.bb)
        if key in self.inv:
            if st.counts.get(hk) == 'cut':
                return 'end'        # back edge: the invariant was shown to be preserved
            from . import loops
            return loops.cut(self, st, fr, lp[fr.bb], stop)
        n = st.counts.get(hk, 0)
        pcs = len(st.pc)
        n0, forks, lastpc = n if isinstance(n, tuple) else (0, 0, pcs)
        n0 += 1
        if pcs > lastpc:
            forks += 1
        st.counts[hk] = (n0, forks, pcs)
        if forks > self.cfg.get('unroll_forks', 3) or n0 > self.cfg.get('unroll_max', 300):
            if self.cfg.get('unroll_only'):
                self.pruned = True
                raise PathEnd()
            raise NeedInvariant(key)
        return None

    def goto(self, st, fr, bb):
        lp = self.P.loops(fr.inst)
        if lp:
            for h, blocks in lp.items():
                if bb not in blocks and fr.bb in blocks:
                    st.counts.pop(('L', fr.uid, h), None)   # leaving a loop resets its counters
        fr.bb = bb
        fr.si = 0
        fr.fresh = True

    def term(self, st, fr, t):
        k = t['k']
        if k == 'goto':
            self.goto(st, fr, t['t'])
            return None
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'return':
            return self.do_return(st, fr)
        if k == 'drop':
            self.goto(st, fr, t['t'])
            return None
        if k == 'assert':
            c = self.operand(st, fr, t['c']).t
            if not t['e']:
                c = z3.Not(c)
            self.panic_if(st, z3.Not(c), t['m'])
            self.goto(st, fr, t['t'])
            return None
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'unreachable':
            # rustc proves these unreachable from type invariants
            raise PathEnd()
        if k == 'resume':
            raise PathEnd()
        raise Unsupported('terminator ' + k)

    def panic_if(self, st, c, msg):
        """panic when c holds; continue otherwise"""
        c = z3.simplify(c)
        if is_f(c):
            return
        if self.panics == 'forbid':
            self.obligation(st, 'no-panic', '%s in %s' % (msg, self.where(st)), z3.Not(c))
            if is_t(c):
                raise PathEnd()
        else:
            if is_t(c):
                raise PathEnd()
            self.assume(st, z3.Not(c))
            if self.check(st) == z3.unsat:
                raise PathEnd()

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['d'])
        x = v.t
        isb = z3.is_bool(x)
        if not isb:
            x = z3.simplify(x)
            if z3.is_bv_value(x):
                n = x.as_long()
                for val, bb in t['br']:
                    if int(val) % (1 << x.size()) == n:
                        self.goto(st, fr, bb)
                        return None
                self.goto(st, fr, t['o'])
                return None
        rest_ok = True
        for val, bb in t['br']:
            n = int(val)
            c = (x if n else z3.Not(x)) if isb else (x == (n % (1 << x.size())))
            if self.decide(st, c):
                self.goto(st, fr, bb)
                return None
        self.goto(st, fr, t['o'])
        return None

    def do_return(self, st, fr):
        v = self.read(st, (fr.uid, 0), ()) if (fr.uid, 0) in st.store else Ag(self.P.insts[fr.inst]['body']['locals'][0], ())
        if len(st.frames) == 1:
            return 'end'
        st.frames.pop()
        u = fr.uid
        for c in [c for c in st.store if c[0] == u]:
            del st.store[c]
        for c in [c for c in st.counts if isinstance(c, tuple) and c[0] == 'L' and c[1] == u]:
            del st.counts[c]
        cal = st.frames[-1]
        if fr.dest is not None:
            self.write(st, fr.dest[0], fr.dest[1], v)
        if fr.ret is None:
            raise PathEnd()
        self.goto(st, cal, fr.ret)
        return None

    # calls ------------------------------------------------------------------
    def call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t['args']]
        iid = t['f']
        if iid is None:
            f = self.operand(st, fr, t['fop'])
            if not isinstance(f, Fv) or f.inst is None:
                return self.call_unknown(st, fr, t, args, f)
            iid = f.inst
        return self.call_inst(st, fr, iid, args, t['dest'], t['t'], t)

    def call_unknown(self, st, fr, t, args, f):
        h = self.cfg.get('fnptr_model')
        if h is not None:
            return h(self, st, fr, t, args, f)
        raise Unsupported('call through function pointer')

    def call_inst(self, st, fr, iid, args, dest, ret, t):
        I = self.P.insts[iid]
        base = I['base']
        stub = self.stubs.get(base)
        if stub is not None and not self.P.insts[fr.inst]['base'].rsplit('::', 1)[-1].startswith('vc_'):
            self.stubbed.add(base)
            if stub[0] == 'inst':
                rid = self.P.roots[stub[1]]
                return self.push(st, fr, rid, args, dest, ret, tag=base)
            if stub[0] == 'uf':
                v = self.uf_call(st, stub[1], args, t['dt'])
                return self.finish(st, fr, v, dest, ret)
            if stub[0] == 'py':
                v = stub[1](self, st, fr, I, args, t)
                return self.finish(st, fr, v, dest, ret)
        key = iid
        m = self.model_cache.get(key, 0)
        if m == 0:
            m = self.models.lookup(I)
            self.model_cache[key] = m
        if m is not None:
            self.modeled.add(base)
            r = m(self, st, fr, I, args, t)
            if r is DIVERT:
                return None
            if r is not NotImplemented:
                return self.finish(st, fr, r, dest, ret)
        if I['body'] is None and re.search(r'::Fn(Once|Mut|)::call(_once|_mut|)$', base) and len(args) == 2:
            ty = t['at'][0]
            if self.T[ty]['k'] == 'ref':
                ty = self.T[ty]['t']
            f = self.T[ty]
            if f['k'] == 'fndef' and f['inst'] is not None and isinstance(args[1], Ag):
                J = self.P.insts[f['inst']]
                if J['body'] is not None or self.models.lookup(J) is not None:
                    return self.call_inst(st, fr, f['inst'], list(args[1].f), dest, ret, t)
                # the constructor of a variant or struct as a function
                R = self.T[t['dt']]
                for vi, v in enumerate(R.get('variants', ())) if R['k'] == 'adt' else ():
                    if v['name'] == f['name'].rsplit('::', 1)[-1] and len(v['f']) == len(args[1].f) and R['adt'] in ('enum', 'struct'):
                        r = En(t['dt'], vi, args[1].f) if R['adt'] == 'enum' else Ag(t['dt'], args[1].f)
                        return self.finish(st, fr, r, dest, ret)
        if I['body'] is None:
            raise Unsupported('no model for %s (%s)' % (base, I['full']))
        self.inlined.add((base, I['crate'], I['file'], I['line']))
        return self.push(st, fr, iid, args, dest, ret)

    def uf_call(self, st, name, args, dt):
        ts = [self.reify(a, st) for a in args]
        s = self.sort(dt)
        if not ts:
            return self.sym(dt, z3.Const('uf_' + name, s))
        return self.sym(dt, self.fn('uf_' + name, [x.sort() for x in ts], s)(*ts))

    def finish(self, st, fr, v, dest, ret):
        if dest is not None and v is not None:
            c, p = self.place(st, fr, dest)
            self.write(st, c, p, v)
        if ret is None:
            raise PathEnd()
        self.goto(st, fr, ret)
        return None

    def push(self, st, fr, iid, args, dest, ret, tag=None):
        I = self.P.insts[iid]
        body = I['body']
        if body is None:
            raise Unsupported('no body for ' + I['full'])
        depth = sum(1 for f in st.frames if f.inst == iid)
        if depth > self.cfg.get('max_rec', 2):
            raise Unsupported('recursion without contract: ' + I['base'])
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        nf = Frame(next(self.uid), iid, 0, self.place(st, fr, dest) if dest is not None else None, ret)
        nf.tag = tag
        n = body['argc']
        if re.search(r'\{closure#\d+\}$', I['base']) and len(args) == 2 and isinstance(args[1], (Ag, Lz)) and self.T[args[1].ty]['k'] == 'tuple':
            tup = args[1] if isinstance(args[1], Ag) else self.expand(args[1])
            args = [args[0]] + list(tup.f)
        elif len(args) != n or body['spread']:
            # rust-call ABI: closure called through Fn* with a tuple
            if len(args) == 2 and isinstance(args[1], (Ag, Lz)):
                tup = args[1]
                if isinstance(tup, Lz):
                    tup = self.expand(tup)
                if body['spread'] and body['spread'] == 2 and n == 2:
                    pass
                elif 1 + len(tup.f) == n:
                    args = [args[0]] + list(tup.f)
                elif len(tup.f) == n:
                    args = list(tup.f)
        if len(args) != n:
            raise Unsupported('arity of %s: %d vs %d' % (I['base'], len(args), n))
        for i, a in enumerate(args):
            st.store[(nf.uid, i + 1)] = a
        st.frames.append(nf)
        return None


DIVERT = object()
