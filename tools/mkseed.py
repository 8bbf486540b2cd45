#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  (stdin: JSON {old, new, needs, breaks, dyon, expect} or with demo_rs): writes seeded/ID.
old/new: text replaced once in /repo/FILE (lists allowed for several sites: [[file, old, new], ...])"""
import sys, json, os, subprocess
id, prop = sys.argv[1:3]
j = json.load(sys.stdin)
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
for f, o, n in j['edits']:
    p = '/repo/' + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': j['needs'], 'what_it_breaks': j['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if 'dyon' in j:
    open(d + '/demo.dyon', 'w').write(j['dyon'])
    open(d + '/expected.txt', 'w').write(j['expect'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# runs demo.dyon with the freshly built interpreter and compares its output
D=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 60 ./target/debug/examples/dyonrun "$D/demo.dyon" 2>&1)
if [ "$out" = "$(cat "$D/expected.txt")" ]; then exit 0; fi
echo "unexpected output:"; echo "$out"; exit 1
''')
