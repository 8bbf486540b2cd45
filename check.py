#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

1. exports the MIR of /repo's crate together with the property's contracts and discharges every
   obligation of every contract (one prover process per contract);
2. builds the same contracts natively and runs them on generated inputs: this replays failures on
   the real code and is the bounded companion where an obligation cannot be decided;
3. writes evidence/PROPERTY.json and prints VIOLATION / KNOWN-FINDING lines."""
import os, sys, json, time, re, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from mirver import build
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = 'python3-vt'

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
TOTAL = 780 if TIER == 'quick' else 5400
VCB = 240 if TIER == 'quick' else 1500             # prover budget per contract (s)
NB = 25 if TIER == 'quick' else 400                # native budget per contract (s)
NN = 3000 if TIER == 'quick' else 200000           # native inputs per contract
OUT = os.path.join(build.BUILD, 'out-' + PROP)
os.makedirs(OUT, exist_ok=True)
REPLAY = os.path.join(VERIF, 'evidence', 'replay')
os.makedirs(REPLAY, exist_ok=True)


def left():
    return TOTAL - (time.time() - T0)


def findings():
    """known-findings.txt: `known: property=P vc=NAME what` lines"""
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) vc=(\S+) (.*)', l)
            if m and m.group(1) == PROP:
                known[m.group(2)] = m.group(3).strip()
    return known


# ---------------------------------------------------------------- proof
def prove_all(res):
    try:
        mir = build.export(PROP)
    except build.BuildError as e:
        res['proof_error'] = str(e)
        return
    d = json.load(open(mir))
    vcs = sorted(n.rsplit('::', 1)[-1] for n in d['roots'] if n.rsplit('::', 1)[-1].startswith('vc_'))
    del d
    res['vcs'] = vcs
    res['proofs'] = {n: {'vc': n, 'status': 'unsupported', 'reason': 'the contract does not compile against this tree (function renamed, re-typed or removed)', 'obligations': []}
                     for h, n in build.DROPPED.get(PROP, ()) if n.startswith('vc_')}

    def one(vc, *extra):
        out = os.path.join(OUT, vc + '.json')
        if os.path.exists(out):
            os.remove(out)
        b = min(VCB, left() - 60)
        if b < 5:
            return {'vc': vc, 'status': 'unsupported', 'reason': 'no time left', 'obligations': []}
        try:
            p = subprocess.run([PY, os.path.join(VERIF, 'mirver', 'prove.py'), mir, vc, out, str(b)] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=b + 40)
        except subprocess.TimeoutExpired:
            return {'vc': vc, 'status': 'unsupported', 'reason': 'prover timed out', 'obligations': []}
        if not os.path.exists(out):
            return {'vc': vc, 'status': 'unsupported', 'reason': 'prover crashed: ' + p.stdout[-800:], 'obligations': []}
        return json.load(open(out))

    with ThreadPoolExecutor(6) as ex:
        for vc, r in zip(vcs, ex.map(one, vcs)):
            res['proofs'][vc] = r
        # failures on abstracted paths are confirmed on unrolled paths of the real code
        # (those the companion already fails on have a concrete input and need no confirmation)
        nt = res['native_thread']
        if nt is not None and any(any(o['nfailed'] for o in r['obligations']) for r in res['proofs'].values()):
            nt.join()
        failing = {n for n, r in res.get('native', {}).items() if r['fails']}
        bad = [vc for vc in vcs if vc not in failing and any(o['nfailed'] for o in res['proofs'][vc]['obligations'])]
        res['confirm'] = dict(zip(bad, ex.map(lambda v: one(v, 'confirm'), bad)))


# ---------------------------------------------------------------- native
def native_all(res):
    try:
        exe = build.native(PROP)
    except build.BuildError as e:
        res['native_error'] = str(e)
        return
    names = subprocess.run([exe, 'list'], stdout=subprocess.PIPE, text=True).stdout.split()

    def one(task):
        name, shard = task
        r = {'fails': [], 'ran': 0, 'skipped': 0, 'distinct': 0}
        err = os.path.join(OUT, '%s.%d.err' % (name, shard))
        seed = SEED + 7919 * shard
        nb = NB * (2 if 'script' in name else 1)
        cmd = [exe, 'run', name, str(seed), str(NN), str(nb)]
        with open(err, 'w') as ef:
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=ef, text=True, errors='replace', timeout=nb + 90)
                out, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as x:
                out, rc = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
        done = False
        for l in out.split('\n'):
            f = l.split('\t')
            if f[0] == 'FAIL':
                r['fails'].append({'vc': name, 'seed': int(f[2]), 'label': f[3], 'inputs': f[4]})
            elif f[0] == 'DONE':
                done = True
                r.update(ran=int(f[2]), skipped=int(f[3]), distinct=int(f[4]), covers=[c for c in f[6].split('|') if c] if len(f) > 6 else [])
        if not done:      # crashed or hung: replay the last input alone
            last = [l for l in open(err, errors='replace').read().split('\n') if l.startswith('@ ')]
            if last:
                s = last[-1].split()[1]
                try:
                    q = subprocess.run([exe, 'one', name, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
                    bad = None if q.returncode == 0 and 'HELD' in q.stdout else ('crash (exit %s)' % q.returncode if q.returncode else 'fails')
                    o = q.stdout
                except subprocess.TimeoutExpired as x:
                    bad, o = 'does not terminate within 120 s', str(x.stdout)
                if bad:
                    r['fails'].append({'vc': name, 'seed': int(s), 'label': bad, 'inputs': o[-3000:]})
            r['incomplete'] = str(rc)
        return r

    tasks = [(n, k) for n in names for k in range(3 if 'script' in n else 1)]
    got = {}
    with ThreadPoolExecutor(3) as ex:
        for (n, k), r in zip(tasks, ex.map(one, tasks)):
            g = got.setdefault(n, r)
            if g is not r:
                g['fails'] += [f for f in r['fails'] if f['label'] not in [x['label'] for x in g['fails']]]
                for c in ('ran', 'skipped', 'distinct'):
                    g[c] += r[c]
                g['covers'] = sorted(set(g.get('covers', [])) | set(r.get('covers', [])))
                if 'incomplete' in r:
                    g['incomplete'] = r['incomplete']
    res['native'] = got
    res['exe'] = exe


def main():
    res = {}
    nt = threading.Thread(target=native_all, args=(res,))
    res['native_thread'] = nt
    nt.start()
    prove_all(res)
    nt.join()
    known = findings()
    viol = []       # (line, replay dict)
    native = res.get('native', {})
    proofs = res.get('proofs', {})
    confirm = res.get('confirm', {})

    for name, r in sorted(native.items()):
        if name.startswith('kf_'):
            continue
        for f in r['fails']:
            ob = None
            for o in proofs.get(name, {}).get('obligations', []):
                if o['nfailed'] and o['label'] in f['label']:
                    ob = o
            viol.append((name, f['label'], {'property': PROP, 'contract': name, 'what': f['label'], 'seed': f['seed'], 'inputs': f['inputs'], 'failed_obligation': ob and {k: ob[k] for k in ('kind', 'label', 'where', 'failed')},
                         'replay': 'cd /verif && python3 mirver/build.py native %s && .build/t-native/debug/n-%s one %s %d' % (PROP, PROP.lower(), name, f['seed'])}, True))
    for vc, r in sorted(confirm.items()):
        if any(v[0] == vc for v in viol):
            continue
        for o in r['obligations']:
            if o['nfailed']:
                viol.append((vc, o['label'], {'property': PROP, 'contract': vc, 'failed_obligation': '%s: %s' % (o['kind'], o['label']), 'function': o['where'],
                             'verifier_output': o['failed'], 'discharged_otherwise': [x['label'] for x in r['obligations'] if not x['nfailed']],
                             'rerun': 'cd /verif && python3-vt mirver/build.py export %s && python3-vt mirver/prove.py .build/%s.mir.json %s /dev/stdout 300 confirm' % (PROP, PROP, vc)}, False))

    # --------------------------------------------------------- evidence
    obl = dis = queries = 0
    solver = 0.0
    functions, models, stubs, undec, uncovered = set(), set(), set(), [], []
    src = contract_text()
    per = {}
    for vc, r in proofs.items():
        ok = 0
        for o in r['obligations']:
            obl += 1
            if not o['nfailed'] and not o['nundecided'] and r['status'] == 'ok':
                dis += 1
                ok += 1
            elif o['nundecided'] or r['status'] != 'ok':
                undec.append('%s: %s' % (vc, o['label']))
            elif not any(x['nfailed'] for x in confirm.get(vc, {}).get('obligations', []) if x['label'] == o['label']):
                undec.append('%s: %s (not discharged; no failing path on the unrolled code)' % (vc, o['label']))
        if r['status'] != 'ok':
            undec.append('%s: %s' % (vc, r.get('reason', '')[:300]))
            obl += 1
        elif not r['obligations']:
            undec.append('%s: generated no obligation' % vc)
            obl += 1
        for c in covers_of(src, vc):
            if c not in r.get('covered', []):
                uncovered.append('%s: %s' % (vc, c))
        queries += r.get('queries', 0)
        solver += r.get('solver_s', 0)
        for b, cr, f, ln in r.get('inlined', []):
            if cr == 'dyon' and '::verif::' not in b:
                functions.add('%s (%s:%s)' % (b, f, ln))
        models.update(r.get('modeled', []))
        stubs.update(r.get('stubbed', []))
        per[vc] = {'obligations': len(r['obligations']), 'discharged': ok, 'paths': r.get('paths'), 'loops_with_inferred_invariant': r.get('loops'), 'solver_s': r.get('solver_s'), 'status': r['status']}
    ran = sum(r['ran'] for n, r in native.items() if not n.startswith('kf_'))
    distinct = sum(r['distinct'] for n, r in native.items() if not n.startswith('kf_'))
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'wall_s': round(time.time() - T0, 1), 'violations': len(viol),
          'coverage': {
              'obligations': obl, 'discharged': dis,
              'checker_cmd': 'python3-vt mirver/prove.py (z3 %s) on MIR exported from /repo by mirex' % z3v(),
              'trusted_base': ['rustc nightly MIR construction and the exporter mirex/mirex.rs', 'the VC generator mirver/engine.py + loops.py', 'z3 4.x/python bindings',
                               'models of std items (mirver/models.py) listed in assumed_models', 'contracts assumed at calls listed in stubbed_callees (each discharged by its own contract unless noted in assumptions)'],
              'contracts': per, 'functions_under_contract': sorted(functions), 'stubbed_callees': sorted(stubs), 'assumed_models': sorted(models),
              'solver_queries': queries, 'solver_s': round(solver, 1), 'undischarged': undec, 'unreached_covers': uncovered,
              'bounded_companion': {'what': 'the same contracts executed natively on generated inputs (never counted as proved)', 'evaluations': ran, 'distinct_nontrivial': distinct,
                                    'per_contract': {n: {'ran': r['ran'], 'skipped_by_precondition': r['skipped'], 'distinct': r['distinct'], 'covers': r.get('covers', [])} for n, r in native.items()}},
          },
          'assumptions': assumptions(src)}
    if 'proof_error' in res:
        ev['coverage']['proof_error'] = res['proof_error'][-1500:]
    if 'native_error' in res:
        ev['coverage']['native_error'] = res['native_error'][-1500:]
    if obl == 0 or dis == 0:
        ev['level'] = 'exploration'
        ev['coverage'].update(evaluations=ran, distinct_nontrivial=distinct, rule='contracts run natively on generated inputs; non-trivial: precondition met and inputs distinct', samples=sorted(native)[:3])
        ev['coverage']['note'] = 'the proof could not be redone on this tree: bounded companion only'
    json.dump(ev, open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w'), indent=1)

    for name, r in sorted(native.items()):
        if name.startswith('kf_') and r['fails']:
            if name in known:
                print('KNOWN-FINDING: property=%s %s' % (PROP, known[name]))
            else:
                f = r['fails'][0]
                viol.append((name, f['label'], {'property': PROP, 'contract': name, 'what': f['label'], 'seed': f['seed'], 'inputs': f['inputs']}, True))
    print('%s %s: %d/%d obligations discharged over %d contracts, %d queries, %.0f s solver; companion %d runs (%d distinct); %.0f s' % (PROP, TIER, dis, obl, len(proofs), queries, solver, ran, distinct, time.time() - T0))
    for u in undec:
        print('  undecided: ' + u.split('\n')[0][:200])
    for u in uncovered:
        print('  cover not reached: ' + u)
    if 'proof_error' in res:
        print('  proof not redone: ' + res['proof_error'][-1500:])
    if 'native_error' in res:
        print('  companion not built: ' + res['native_error'][-1500:])
    n = 0
    for name, label, rep, concrete in viol[:12]:
        n += 1
        p = os.path.join(REPLAY, '%s-%d.json' % (PROP, n))
        json.dump(rep, open(p, 'w'), indent=1, default=str)
        print('  %s: %s' % (name, label))
        print('VIOLATION property=%s replay=%s%s' % (PROP, p, '' if concrete else ' no-failing-input-found'))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def contract_text():
    d = os.path.join(VERIF, 'contracts', PROP)
    return ''.join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith('.rs'))


def covers_of(src, vc):
    m = re.search(r'\bfn %s\(.*?\n}' % re.escape(vc), src, re.S)
    return re.findall(r'\bcover\("([^"]*)"\)', m.group(0)) if m else []


def assumptions(src):
    base = ['memory allocation succeeds and recursion does not exhaust the stack (partial correctness; termination is not proved)',
            'std containers, strings, Arc/Box/Mutex behave as modelled (assumed_models)',
            'f32/f64 arithmetic is IEEE-754; transcendental functions are uninterpreted but deterministic']
    return base + re.findall(r'^//@assume (.*)$', src, re.M)


def z3v():
    try:
        return subprocess.run([PY, '-c', 'import z3; print(z3.get_version_string())'], stdout=subprocess.PIPE, text=True).stdout.strip()
    except OSError:
        return '?'


main()
