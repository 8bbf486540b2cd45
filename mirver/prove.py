"""Discharges the obligations of one contract: prove.py MIR.json VC OUT.json BUDGET [confirm]

`confirm` re-examines a contract whose proof failed with loops unrolled instead of cut at an
inferred invariant, so that a failure found this way lies on a path of the real code."""
import sys, os, re, json, time, fnmatch, glob, resource
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mirver.engine import Program, Engine, Unsupported
import z3
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cfg_for(prop, vc, confirm=False):
    src = ''.join(open(f).read() for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', prop, '*.rs'))))
    src = re.sub(r'^//@include (\S+)$', lambda m: open(os.path.join(VERIF, 'contracts', m.group(1))).read(), src, flags=re.M)
    c = {'src_root': os.environ.get('DYON_REPO', '/repo'), 'stubs': {}}
    for g, callee, st in re.findall(r'^//@stub (\S+) (.+) (\S+)$', src, re.M):
        if any(fnmatch.fnmatch(vc, x) for x in g.split(',')):
            c['stubs'][callee] = ('inst', st)
    for g, k, v in re.findall(r'^//@cfg (\S+) (\S+) (\S+)$', src, re.M):
        if any(fnmatch.fnmatch(vc, x) for x in g.split(',')):
            c[k] = int(v)
    if confirm:
        c['unroll_only'] = True
        c['native_fp'] = True     # IEEE arithmetic instead of uninterpreted functions
        c['unroll_forks'] = max(4, c.get('unroll_forks', 0))
    return c


def prove(P, prop, vc, budget, confirm=False):
    t0 = time.time()
    e = Engine(P, cfg_for(prop, vc, confirm))
    r = {'vc': vc, 'status': 'ok', 'obligations': [], 'confirm': confirm}
    try:
        obls = e.run(vc, budget)
    except Unsupported as x:
        r['status'] = 'unsupported'
        r['reason'] = str(x)
        obls = e.obls
    except RecursionError as x:
        r['status'] = 'unsupported'
        r['reason'] = 'recursion limit'
        obls = e.obls
    except z3.Z3Exception as x:
        r['status'] = 'unsupported'
        r['reason'] = 'z3: %s' % x
        obls = e.obls
    except Exception as x:      # an engine limit, never a verdict
        import traceback
        r['status'] = 'unsupported'
        r['reason'] = 'engine: %s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()[-1500:])
        obls = e.obls
    for (kind, label), o in obls.items():
        r['obligations'].append({'kind': kind, 'label': label, 'where': o.where, 'instances': o.instances, 'time': round(o.time, 3),
                                 'failed': o.failed[:3], 'nfailed': len(o.failed), 'undecided': o.undecided[:2], 'nundecided': len(o.undecided)})
    r.update(paths=e.paths, queries=e.queries, solver_s=round(e.qtime, 3), wall=round(time.time() - t0, 2), loops=len(e.invloops) if hasattr(e, 'invloops') else 0,
             covered=sorted(e.covered), inlined=sorted(map(list, e.inlined), key=str), modeled=sorted(map(str, e.modeled)), stubbed=sorted(map(str, e.stubbed)),
             backends=dict(e.backends, z3=e.queries), pruned=getattr(e, 'pruned', False))
    return r


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    mir, vc, out, budget = sys.argv[1:5]
    prop = os.path.basename(mir).split('.')[0]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    r = prove(Program(mir), prop, vc, float(budget), 'confirm' in sys.argv[5:])
    json.dump(r, open(out, 'w'), default=str)
    if '-v' in sys.argv:
        print(vc, r['status'], r.get('reason', ''), 'paths', r['paths'], 'queries', r['queries'], 'solver %.1f' % r['solver_s'], 'wall', r['wall'])
        for o in r['obligations']:
            print('   ', o['kind'], o['label'], o['instances'], 'FAILED %d' % o['nfailed'] if o['nfailed'] else 'ok', o['undecided'][:1])
