#!/usr/bin/env python3
"""Development: runs the property's own check (or all given) on each planted bug.  runseeds.py [seed...] [--all-checks]"""
import json, os, subprocess, sys, time
args = [a for a in sys.argv[1:] if a[0] != '-']
allc = '--all-checks' in sys.argv
S = '/verif/seeded'
for d in sorted(os.listdir(S)):
    if args and d not in args:
        continue
    m = json.load(open('%s/%s/meta.json' % (S, d)))
    ids = ['C%02d' % i for i in range(1, 28) if i != 4] if allc else [m['property']]
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/%s/patch.diff' % (S, d)], check=True)
    try:
        for i in ids:
            t = time.time()
            r = subprocess.run(['python3', '/verif/check.py', i], capture_output=True, text=True)
            ls = r.stdout.splitlines()
            j = next((k for k, l in enumerate(ls) if l.startswith('  load_') or l.startswith('  type') or '    ' in l[:4] and 'rule' not in l), None)
            print(d, i, 'CAUGHT' if r.returncode == 1 else 'rc %d' % r.returncode, '%.0fs' % (time.time() - t), '|', (' '.join(x.strip() for x in ls[j:j + 3]) if r.returncode == 1 and j is not None else '; '.join(ls[:1] + [l for l in ls if 'undecided:' in l][:3]) + r.stderr[-200:])[:330], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
