#!/usr/bin/env python3
"""dev helper: mutate.py SEED N FILE[:FROM-TO]=PROP[,PROP] ...   random one-line changes in a copy of /repo, run through the stable
tests and the checks; prints the ones that pass the tests and that no check reports.  Works in /tmp/t/mut only."""
import sys, os, re, random, subprocess, json, time
M = '/tmp/t/mut'
R, V = M + '/repo', M + '/verif'
OPS = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.rev\(\)', ''), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'),
    (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\.0\b', '.1'), (r'\.1\b', '.0'),
    (r'^(\s*)([a-z_.]+\.(?:truncate|push|insert|set|pop|extend)\(.*\);)$', r'\1'), (r'\bcontinue;', ''), (r'\bbreak;', ''),
    (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'\.clone\(\)\)', '.clone())'), (r'\bSome\((\w+)\)$', 'None'),
    (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'\bst\b', 'lc'), (r'\bst\b', 'prev_st'), (r'\bmin\b', 'max'), (r'Side::Right', 'Side::Left'),
]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    rnd = random.Random(seed)
    os.makedirs(M, exist_ok=True)
    if not os.path.exists(R): sh('cp -a /repo %s' % R)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo; git -C %s reset -q --hard FETCH_HEAD' % (R, R, R))
    sh('mkdir -p %s && rsync -a --delete --exclude .build --exclude .git --exclude evidence /verif/ %s/ 2>/dev/null || (rm -rf %s/contracts %s/mirver; cp -a /verif/check.py /verif/contracts /verif/mirver /verif/mirex /verif/native /verif/tools /verif/known-findings.txt %s/)' % (V, V, V, V, V))
    sites = []
    for a in sys.argv[3:]:
        f, ps = a.split('=')
        f, _, rg = f.partition(':')
        L = open(R + '/' + f).read().split('\n')
        lo, hi = map(int, rg.split('-')) if rg else (1, len(L))
        for i in range(lo - 1, min(hi, len(L))):
            t = L[i]
            if 'dyon_verif' in t: break
            s = t.strip()
            if not s or s.startswith(('//', 'use ', '#', '///', 'pub use')) or 'panic!' in s or '->' in s or 'assert' in s: continue
            for k, (o, w) in enumerate(OPS):
                for m in re.finditer(o, t):
                    nt = t[:m.start()] + m.expand(w) + t[m.end():]
                    if nt != t and '"' not in t[m.start():m.end()] and t[:m.start()].count('"') % 2 == 0: sites.append((f, i, nt, ps))
    rnd.shuffle(sites)
    done = 0
    for f, i, nt, ps in sites:
        if done >= n: break
        p = R + '/' + f
        src = open(p).read()
        L = src.split('\n')
        old = L[i]
        L[i] = nt
        open(p, 'w').write('\n'.join(L))
        tag = '%s:%d\n    - %s\n    + %s' % (f, i + 1, old.strip(), nt.strip())
        try:
            b = sh('. /opt/vp/env.sh; cd %s && cargo build --offline --lib 2>&1 | grep -c "^error"' % R)
            if b.stdout.strip() != '0': continue
            t = sh('. /opt/vp/env.sh; cd %s && timeout 200 cargo test --workspace --offline -- --test-threads 8' % R)
            if t.returncode != 0: print('TESTS', tag, flush=True); continue
            done += 1
            res = []
            for q in ps.split(','):
                t0 = time.time()
                try:
                    c = sh('cd %s && DYON_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 800 python3-vt check.py %s quick' % (V, R, q))
                except Exception as e:
                    res.append('%s:%s' % (q, e)); continue
                res.append('%s rc%d %ds' % (q, c.returncode, time.time() - t0))
                if c.returncode == 1:
                    res[-1] += ' ' + ' / '.join(x.strip()[:90] for x in c.stdout.split('\n') if x.startswith('  ') and 'undec' not in x)[:180]
                    break
            else:
                res[-1] += ' '.join(x for x in c.stdout.split('\n') if 'undecided' in x)[:200]
            print('CAUGHT' if 'rc1' in ' '.join(res) else 'SURVIVES', tag, '\n    ', ' ; '.join(res), flush=True)
        finally:
            open(p, 'w').write(src)
main()
