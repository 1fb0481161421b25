"""From violating and conforming families to the constructs involved: for every basic block of the crate the
analysis went through, how strongly it is tied to the violating families (Ochiai coefficient)."""
import re
import math


def block_line(f, b):
    t = b['t']
    for x in reversed(t):
        if isinstance(x, str):
            m = re.search(r'(src/[\w/]+\.rs):(\d+)', x)
            if m:
                return '%s:%s' % m.groups()
    return None


def own(p, k):
    f = p.F.get(k)
    return f is not None and f['crate'] == p.d['crate']


def rank(p, bad, good, n=6):
    """bad, good: lists of sets of (fn key, block)"""
    nb = len(bad)
    if not nb:
        return []
    cb, cg = {}, {}
    for s in bad:
        for x in s:
            cb[x] = cb.get(x, 0) + 1
    for s in good:
        for x in s:
            if x in cb:
                cg[x] = cg.get(x, 0) + 1
    out = {}
    for x, k in cb.items():
        if not own(p, x[0]):
            continue
        f = p.F[x[0]]
        line = block_line(f, f['body']['blocks'][x[1]]) or f.get('span', '')
        sc = k / math.sqrt(nb * (k + cg.get(x, 0)))
        key = (f['path'], line)
        if sc > out.get(key, 0):
            out[key] = sc
    r = sorted(out.items(), key=lambda t: (-t[1], t[0]))
    return [{'function': k[0], 'at': k[1], 'score': round(v, 3)} for k, v in r[:n]]
