import sys, time
sys.path.insert(0, '/verif')
from mirver.engine import *
P = Program(sys.argv[1])
import re, fnmatch, glob
src = ''.join(open(f).read() for f in glob.glob('/verif/contracts/%s/*.rs' % sys.argv[1].split('/')[-1].split('.')[0]))
def cfg_for(vc):
    c = {'src_root': '/repo', 'stubs': {}}
    for g, callee, st in re.findall(r'^//@stub (\S+) (.+) (\S+)$', src, re.M):
        if any(fnmatch.fnmatch(vc, x) for x in g.split(',')):
            c['stubs'][callee] = ('inst', st)
    return c
names = sys.argv[2:] or [n for n in P.roots if n.startswith('vc_')]
for r in names:
    t = time.time()
    e = Engine(P, cfg_for(r))
    try:
        o = e.run(r, 120)
        print(r, 'paths', e.paths, 'queries', e.queries, 'qt %.1f' % e.qtime, 'total %.1f' % (time.time() - t))
        for k, v in o.items():
            print('  ', k, v.instances, 'FAILED %d' % len(v.failed) if v.failed else 'ok', v.undecided[:1])
    except Unsupported as x:
        print(r, 'UNSUPPORTED', x, 'paths', e.paths, '%.1f' % (time.time() - t))
