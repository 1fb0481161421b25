#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Static analysis of /repo's current source: compiles it with the MIR-dumping driver, interprets the MIR of
load_obj / load_mtl abstractly on the text families of the property (vlib/fam.py) and runs the whole-program
rules of the property (vlib/gen.py).  Nothing of /repo is executed."""
import argparse
import collections
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
REPO = '/repo'
sys.path.insert(0, os.path.join(HERE, 'vlib'))
sys.setrecursionlimit(20000)

import rust  # noqa: E402
import fam  # noqa: E402
import fam2  # noqa: E402
import gen  # noqa: E402
import locate  # noqa: E402
from interp import Prog  # noqa: E402
from scen import Outcome, Runner, narrow  # noqa: E402

# property -> (which family outcomes count, whole-program rules)
ALLK = ('value', 'panic', 'endless')
KINDS = collections.defaultdict(lambda: ALLK, {'C01': ('panic',), 'C02': ('endless',)})
RULES = {
    'C01': [('open text: load_obj', lambda p: gen.open_panics(p, 'load_obj')), ('open text: load_mtl', lambda p: gen.open_panics(p, 'load_mtl'))],
    'C02': [('open text: load_obj', lambda p: gen.open_loops(p, 'load_obj')), ('open text: load_mtl', lambda p: gen.open_loops(p, 'load_mtl'))],
    'C03': [('effects', gen.effects)],
    'C24': [('type-level witness', lambda p: gen.ownership(p, REPO, BUILD))],
    'C25': [('constructors and conversions', gen.constructors)],
    'C27': [('value semantics', gen.value_semantics)],
    'C30': [('call depth', gen.call_depth)],
}
BUDGET = {'quick': 300, 'thorough': 760}
TASK = {'quick': 30, 'thorough': 120}

REFINE = {'quick': 10, 'thorough': 60}

_P = None
_FAVOUR = ()
_TASKS = None
_PROP = None
_TIER = None
_SLOW = multiprocessing.Value('i', 0)


class TaskTimeout(BaseException):
    pass


def _alarm(*a):
    raise TaskTimeout()


def pace(lim):
    """the more families run into their limit, the less time the next ones get"""
    n = _SLOW.value
    return lim if n < 8 else max(1, lim // 4) if n < 24 else max(1, lim // 10) if n < 80 else max(1, lim // 30)


def run_task(n):
    kind, x = _TASKS[n]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(BUDGET[_TIER])
    t0 = time.time()
    r = {'n': n, 'status': 'undecided', 'why': '', 'witness': None, 'kind': 'value', 'site': None, 'cov': set(), 'paths': 0, 'leaves': 0, 'blocks': 0}
    try:
        if kind == 'family':
            run_family(x, r)
        else:
            r['rule'] = x[1](_P)
            r['status'] = 'violation' if r['rule']['violations'] else 'undecided' if r['rule']['undecided'] else 'ok'
    except TaskTimeout:
        r['why'] = LIMIT
    except MemoryError:
        r['why'] = 'memory'
    except Exception as e:
        r['why'] = 'analysis stopped: %r' % (e,)
        r['trace'] = traceback.format_exc()[-400:]
    finally:
        signal.alarm(0)
    r['t'] = time.time() - t0
    return r


LIMIT = 'time limit of this family'


def bounded(entry, shape, exp, lim):
    """one analysis, within lim seconds"""
    try:
        signal.alarm(lim)
        return Runner(_P).check(entry, shape, exp)
    except TaskTimeout:
        with _SLOW.get_lock():
            _SLOW.value += 1
        return Outcome('undecided', LIMIT)
    finally:
        signal.alarm(BUDGET[_TIER])


def run_family(f, r):
    o = bounded(f.entry, *f.build(), pace(TASK[_TIER]))
    if o.status == 'undecided':
        # refine the partition: sub-families with one member per character class
        why = o.why
        for i in range(pace(REFINE[_TIER]) if _SLOW.value < 80 else 2):
            o2 = bounded(f.entry, *narrow(*f.build(), random.Random('%s-%d' % (f.name, i)), _FAVOUR), pace(10))
            if o2.status == 'violation':
                o = o2
                o.why += ' (family undecided as a whole: %s)' % why[:120]
                break
            if o2.why == LIMIT:
                break
    if _PROP == 'C03' and o.status == 'violation':
        # only a difference between two orders of the same map is this property's
        a = Runner(_P, order='fwd').check(f.entry, *f.build())
        b = Runner(_P, order='rev').check(f.entry, *f.build())
        if (a.status, a.why) == (b.status, b.why) or 'undecided' in (a.status, b.status):
            o.status, o.why = 'ok', ''
        else:
            o.why = 'the result depends on the iteration order of a map: ' + o.why
    if o.status == 'violation' and o.kind not in KINDS[_PROP]:
        o.status, o.why = ('ok', '') if _PROP in ('C01', 'C02') else ('undecided', o.why)
    r.update(status=o.status, why=o.why, witness=o.witness, kind=o.kind, site=o.site, cov=o.cov, paths=o.paths, leaves=o.leaves, blocks=o.blocks)


def known_findings():
    out = []
    with open(os.path.join(HERE, 'known-findings.jsonl')) as fh:
        for line in fh:
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main():
    global _P, _TASKS, _PROP, _TIER, _FAVOUR
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--dump', help='development: use this dump instead of building /repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    dump = a.dump
    if not dump:
        rust.build_driver(HERE, BUILD)
        dump = rust.dump(HERE, BUILD, REPO, prop)
    _P = Prog(json.load(open(dump)))
    if not a.dump:
        os.remove(dump)
    _PROP, _TIER = prop, tier
    C = fam2.Consts(_P)
    _FAVOUR = sorted(C.chars | {ch for x in C.strs for ch in x} | {x for x in C.strs | C.texts if len(x) < 40})
    fams = fam.FAMS[prop](tier) + fam2.extra(prop, tier, _P) if prop in fam.FAMS else []
    random.Random(seed).shuffle(fams)
    _TASKS = [('rule', x) for x in RULES.get(prop, [])] + [('family', f) for f in fams]
    known = {(k['property'], k['family']): k for k in known_findings() if k.get('status') == 'known'}

    deadline = t0 + BUDGET[tier]
    results, vio, lines = [], [], []
    bad_cov, good_cov = [], []
    pool = multiprocessing.Pool(min(8, os.cpu_count() or 1))
    it = pool.imap_unordered(run_task, range(len(_TASKS)))
    left = len(_TASKS)
    stop_at = None
    seen_known = []
    while left:
        try:
            r = it.next(timeout=max(0.1, (min(deadline, stop_at) if stop_at else deadline) - time.time()))
        except StopIteration:
            break
        except Exception as e:
            if e.__class__.__name__ != 'TimeoutError':
                raise
            break
        left -= 1
        results.append(r)
        kind, x = _TASKS[r['n']]
        if kind == 'rule':
            if r['status'] == 'violation':
                for v in r['rule']['violations']:
                    vio.append(dict(v, family=x[0]))
        elif r['status'] == 'violation':
            k = known.get((prop, x.name))
            if k and k['what'] in r['why']:
                seen_known.append((x.name, r))
            else:
                vio.append({'what': r['why'], 'family': x.entry + ': ' + x.name, 'witness': r['witness'], 'site': r['site'] and r['site'][0],
                            'fn': r['site'] and r['site'][1], 'kind': r['kind']})
                bad_cov.append(r['cov'])
        elif r['status'] == 'ok' and len(good_cov) < 600:
            good_cov.append(r['cov'])
        if vio and stop_at is None:
            stop_at = time.time() + (20 if tier == 'quick' else 60)
    pool.terminate()
    pool.join()

    done = {r['n'] for r in results}
    und = []
    for r in results:
        kind, x = _TASKS[r['n']]
        if kind == 'rule':
            und += ['%s: %s' % (x[0], u) for u in (r['rule']['undecided'] if 'rule' in r else [r['why']])]
        elif r['status'] == 'undecided':
            und.append('%s: %s' % (x.name, r['why']))
    skipped = [(_TASKS[n][1].name if _TASKS[n][0] == 'family' else _TASKS[n][1][0]) for n in range(len(_TASKS)) if n not in done]
    suspects = locate.rank(_P, bad_cov, good_cov)
    fns = set()
    for r in results:
        fns |= {c[0] for c in r['cov'] if locate.own(_P, c[0])}
        if 'rule' in r:
            fns |= set(r['rule'].get('fns', ()))
    fns = sorted({_P.F[k]['path'] if k in _P.F else k for k in fns})
    rules = {}
    for r in results:
        kind, x = _TASKS[r['n']]
        if kind == 'rule' and 'rule' in r:
            d = r['rule']
            rules[x[0]] = {k: (len(v) if isinstance(v, (list, set, tuple)) and k != 'rules' else v) for k, v in d.items() if k not in ('violations', 'undecided')}
            rules[x[0]]['violations'] = len(d['violations'])
            rules[x[0]]['undecided'] = len(d['undecided'])
            if isinstance(d.get('obligations'), list):
                rules[x[0]]['first obligations'] = [str(o) for o in d['obligations'][:8]]
    nf = sum(1 for r in results if _TASKS[r['n']][0] == 'family')
    cov = {
        'explanation': 'MIR of the current tree, interpreted abstractly from the public entry points. Each family is a set of texts (shape of literals and '
                       'character classes with lengths); the result on every abstract path is compared field by field with the result the property '
                       'prescribes, as terms over the text. Rule: a family is a violation when a path of it provably yields something else; it is '
                       'undecided (and raises no alarm) when the abstraction cannot tell.',
        'families': len(fams), 'families_analysed': nf,
        'families_conforming': sum(1 for r in results if _TASKS[r['n']][0] == 'family' and r['status'] == 'ok'),
        'families_undecided': sum(1 for r in results if _TASKS[r['n']][0] == 'family' and r['status'] == 'undecided'),
        'families_known_finding': len(seen_known),
        'families_not_reached': len(skipped),
        'abstract_paths': sum(r['paths'] for r in results),
        'compared_leaves': sum(r['leaves'] for r in results),
        'blocks_interpreted': sum(r['blocks'] for r in results),
        'functions': len(fns), 'function_names': fns[:120],
        'rules': rules,
        'undecided': und[:60], 'not_reached': skipped[:40],
        'sample_families': [f.entry + ': ' + f.name for f in fams[:12]],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['models of core/alloc/std and nom 8 functions in vlib/models_std.py and vlib/models_nom.py',
                          'rustc lowers the source to the MIR that is compiled'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(vio)}
    if vio:
        ev['coverage']['violation_reports'] = vio[:20]
        ev['coverage']['suspects'] = suspects
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)

    print('%s %s: %d families (%d conforming, %d undecided, %d not reached), %d paths, %d functions, %d rules, %.0f s' % (
        prop, tier, nf, cov['families_conforming'], cov['families_undecided'], len(skipped), cov['abstract_paths'], len(fns), len(rules), time.time() - t0))
    for k, r in sorted(rules.items()):
        print('  rule %s: %s' % (k, {a: b for a, b in r.items() if isinstance(b, (int, float))}))
    for u in und[:60 if a.v else 12]:
        print('  undecided:', u[:220])
    if len(und) > 12 and not a.v:
        print('  ... %d undecided in all' % len(und))
    for name, r in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, name, r['why'][:160]))
    if vio:
        rp = os.path.join(BUILD, 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + '.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'violations': vio, 'suspects': suspects}, fh, indent=1, default=str)
        for v in vio[:8]:
            print('  %s' % v['family'])
            print('    %s' % v['what'][:300])
            if v.get('site'):
                print('    at %s in %s' % (v['site'], v.get('fn')))
            if v.get('witness') is not None:
                print('    text: %r' % (v['witness'][:200],))
            for q in (v.get('path') or [])[:8]:
                print('    via %s' % str(q)[:200])
        for s in suspects:
            print('  construct: %s at %s (%.2f)' % (s['function'], s['at'], s['score']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
