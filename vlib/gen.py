"""Whole-program checks: termination evidence, effects, ownership witnesses, plain-data impls."""
import json
import os
import re
import shutil
import subprocess
import rust
import charset as CS
from core import *
from interp import Interp
from scen import Runner, Shape
from teval import Env

ENTRIES = ('load_obj', 'load_mtl')


# ------------------------------------------------------------------ open-input analysis
def open_run(p, entry):
    """interpret an entry point on a completely unconstrained text"""
    it = Interp(p)
    st = State()
    st, Sn = it.new_stream(st, [(CS.ALL, 0, None)])
    r = p.roots.get('crate::' + entry)
    if r is None:
        raise Undecided('entry point %s not found' % entry)
    outs = it.call_f(st, p.F[r['key']], [kref(('str', Sn, 'B'))])
    return it, outs


def local_texts(it, states, limit=12):
    """sample texts of the streams a state talks about"""
    seen = []
    for st in states:
        strs = [k[1] for k in st.facts if k[0] == 'segs']
        for seed in range(20):
            e = Env(it, st, seed)
            try:
                if e.consistent() is False:
                    continue
            except Exception:
                continue
            for S_ in strs:
                try:
                    t = e.text(S_)
                except Exception:
                    continue
                if t and t not in seen:
                    seen.append(t)
                    if len(seen) >= limit:
                        return seen
    return seen


def confirm(p, entry, texts, table):
    """does one of the concrete texts provably lead there? -> (text, key)"""
    pre = {'load_obj': ['', 'v ', 'g ', 'f '], 'load_mtl': ['', 'newmtl m\n', 'newmtl m\nNs ', 'newmtl m\nmap_Kd ']}[entry]
    for t in texts:
        for q in pre:
            sh = Shape().t(q + t)
            try:
                it, Sn, ids, outs = Runner(p).analyse(entry, sh)
            except Undecided:
                continue
            for k, x in getattr(it, table).items():
                if Runner.witness(it, x['states'], Sn, 2) is not None:
                    return q + t, k
    return None


def open_panics(p, entry):
    """-> dict(obligations, proved, undecided, violations)"""
    it, outs = open_run(p, entry)
    und, vio = [], []
    for k in sorted(it.panics):
        c = confirm(p, entry, local_texts(it, it.panics[k]['states']), 'panics')
        what = '%s at %s in %s' % (k[2], k[1], k[0])
        if c:
            vio.append({'entry': entry, 'what': 'panic reachable: ' + what, 'witness': c[0], 'site': k[1], 'fn': k[0]})
        else:
            und.append('%s: %s (feasibility not decided)' % (entry, what))
    return {'fns': sorted({it.F[k]['path'] for k in it.executed if it.F[k]['crate'] == p.d['crate']}),
            'proved': sum(it.discharged.values()) if it.discharged else 0, 'paths': len(outs), 'blocks': it.blocks_run,
            'callsites': it.callsites, 'opaque': dict(it.opaque_calls), 'undecided': und, 'violations': vio,
            'sites': len(it.discharged)}


def open_loops(p, entry):
    it, outs = open_run(p, entry)
    und, vio = [], []
    for k in sorted(it.hangs):
        c = confirm(p, entry, local_texts(it, it.hangs[k]['states']), 'hangs')
        what = '%s at %s in %s' % (k[2], k[1], k[0])
        if c:
            vio.append({'entry': entry, 'what': 'endless: ' + what, 'witness': c[0], 'site': k[1], 'fn': k[0]})
        else:
            und.append('%s: %s (feasibility not decided)' % (entry, what))
    ok = sum(1 for L in it.LOOPS.values() if L['terminates'])
    for n, s in it.unbounded:
        und.append('%s: loop %s at %s: no variant found' % (entry, n, s))
    for r in it.recursion:
        und.append('%s: recursion through %s' % (entry, r))
    return {'loops': len(it.LOOPS), 'loops_with_variant': ok, 'repetitions': len(it.REP),
            'repetitions_guarded': len(it.REP), 'nullable': len(it.nullable_reps), 'undecided': und, 'violations': vio,
            'fns': sorted({it.F[k]['path'] for k in it.executed if it.F[k]['crate'] == p.d['crate']}), 'blocks': it.blocks_run}


# ------------------------------------------------------------------ effects
DENY = [
    (r'^std::(fs|net|process|os)::', 'touches files, the network or processes'),
    (r'^std::path::Path::(exists|is_file|is_dir|canonicalize|metadata|read_dir|read_link|symlink_metadata|try_exists)', 'touches the file system'),
    (r'^std::env::', 'reads the environment'),
    (r'^(std|core)::time::(Instant|SystemTime)', 'reads the clock'),
    (r'^std::thread::(?!LocalKey|local)', 'uses threads'),
    (r'^std::thread::(LocalKey|local)', 'keeps thread-local state'),
    (r'^std::io::(_print|_eprint|stdin|stdout|stderr|stdio)', 'does terminal I/O'),
    (r'^std::io::(Read|Write|Stdin|Stdout|Stderr)', 'does I/O'),
    (r'^(std|core)::sync::atomic::Atomic\w*(::<[^>]*>)?::(store|swap|compare|fetch|load)', 'uses shared atomics'),
    (r'^std::sync::(Mutex|RwLock|mpsc|Condvar|Barrier|nonpoison|poison|reentrant)', 'uses shared state'),
    (r'RandomState(::<[^>]*>)?::(new|default|hash_one|build_hasher)', 'depends on a random hash seed'),
    (r'BuildHasher.*::(hash_one|build_hasher)', 'depends on a random hash seed'),
    (r'^(rand|getrandom|fastrand)::', 'draws random numbers'),
]
DENY = [(re.compile(a), b) for a, b in DENY]


def callgraph(p):
    """crate functions reachable from the entry points (over-approximation: every function or
    closure mentioned by a reachable body or by the type of one of its locals)"""
    T = p.T
    memo = {}

    def tyfns(t, seen):
        if t in seen or not isinstance(t, int):
            return
        seen.add(t)
        ty = T[t]
        if ty.get('fn'):
            yield ty['fn']
        for k in ('args', 'upvars'):
            for a in ty.get(k) or []:
                yield from tyfns(a, seen)
        for k in ('elem',):
            if isinstance(ty.get(k), int):
                yield from tyfns(ty[k], seen)

    def consts(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], dict):
                yield x[1]
            for y in x:
                yield from consts(y)

    def callees(k):
        if k in memo:
            return memo[k]
        f = p.F[k]
        out, stat = {}, set()
        b = f.get('body')
        if b:
            ts = set()
            for l in b['locals']:
                ts.add(l)
            for i, blk in enumerate(b['blocks']):
                if blk is None:
                    continue
                for c in consts([blk['s'], blk['t']]):
                    if 'fn' in c and isinstance(c['fn'], int):
                        for g in tyfns(c['fn'], set()):
                            out.setdefault(g, str(blk['t'][-1]) if blk['t'] else f['span'])
                    if 'static' in c:
                        stat.add(c['static'])
            for t in ts:
                for g in tyfns(t, set()):
                    out.setdefault(g, f['span'])
        for a in f.get('args') or []:
            for g in tyfns(a, set()):
                out.setdefault(g, f.get('span', ''))
        memo[k] = (out, stat)
        return memo[k]
    reach = {}
    work = []
    for e in ENTRIES:
        r = p.roots.get('crate::' + e)
        if r:
            reach[r['key']] = None
            work.append(r['key'])
    edges = 0
    statics = {}
    while work:
        k = work.pop()
        out, stat = callees(k)
        for s in stat:
            statics.setdefault(s, p.F[k]['path'])
        for g, span in out.items():
            edges += 1
            if g not in reach and g in p.F:
                reach[g] = (k, span)
                work.append(g)
    return reach, statics, edges


def path_to(p, reach, k):
    out = []
    while k is not None:
        f = p.F[k]
        nxt = reach[k]
        out.append('%s (%s)' % (f['path'], f.get('span', '')))
        k = nxt[0] if nxt else None
    return out[::-1]


def effects(p):
    reach, statics, edges = callgraph(p)
    und, vio = [], []
    own = [k for k in reach if p.F[k]['crate'] == p.d['crate']]
    ext = [k for k in reach if p.F[k]['crate'] != p.d['crate']]
    for k in ext:
        f = p.F[k]
        par = reach[k]
        # a denied call counts when the crate itself makes it
        if par is None or p.F[par[0]]['crate'] != p.d['crate']:
            continue
        for rx, why in DENY:
            if rx.search(f['path']) or rx.search(f.get('inst', '')[:80]) and f['path'].startswith('<'):
                vio.append({'what': '%s calls %s, which %s' % (p.F[par[0]]['path'], f['path'], why), 'site': par[1],
                            'fn': p.F[par[0]]['path'], 'path': path_to(p, reach, k)})
    S = {s['path']: s for s in p.d['statics']}
    for s, user in statics.items():
        d = S.get(s) or S.get('crate::' + s)
        if d is None:
            continue
        if d['mut']:
            vio.append({'what': '%s uses the mutable static %s' % (user, s), 'site': d['span'], 'fn': user, 'path': []})
        elif not d['freeze']:
            und.append('%s uses the static %s, which has interior mutability' % (user, s))
    return {'functions': len(own), 'external': len(ext), 'edges': edges, 'statics': len(p.d['statics']), 'undecided': und, 'violations': vio,
            'rules': [a.pattern for a, _ in DENY], 'fns': sorted(p.F[k]['path'] for k in own)}


# ------------------------------------------------------------------ call depth
GROWING = [('load_obj', x) for x in (
    lambda n: 'v 1 2 3\n' * n, lambda n: 'f 1 2 3\n' * n, lambda n: 'l 1 2\n' * n, lambda n: 'p 1\n' * n, lambda n: 'vt 1 2\nvn 1 2 3\n' * n, lambda n: 'g a b\nf 1 2 3\n' * n,
    lambda n: 'usemtl a\nusemap b\nlod 1\nbevel on\nc_interp off\nd_interp on\ns 1\no x\n' * n, lambda n: 'mtllib a\nmaplib b\nshadow_obj c\ntrace_obj d\n' * n,
    lambda n: 'f' + ' 1/2/3' * (3 + n) + '\n', lambda n: 'l' + ' 1/2' * (2 + n) + '\n', lambda n: 'p' + ' 1' * n + '\n', lambda n: ''.join('g' + ' a' * n + '\n'),
    lambda n: 'f 1 2 3\n' + 'g' + ''.join(' a%d' % i for i in range(n)) + '\nf 1 2 3\n', lambda n: 'o ' + 'a' * n + '\n', lambda n: 'v ' + '1' * n + ' 2.' + '3' * n + ' 3\n',
    lambda n: 'v' + ' ' * n + '1 2 3\n', lambda n: '\n' * n + 'v 1 2 3\n', lambda n: '# c\n' * n, lambda n: '#' + 'x' * n + '\n', lambda n: '\t' * n + '# c\r\n' + ' \r\n' * n,
    lambda n: 'v 1 2 3 # ' + 'c' * n + '\n', lambda n: 'usemtl a.' + 'b.' * n + '\n', lambda n: 'v 1 2 3\n' * n + 'zzz\n', lambda n: 'mtllib "' + 'a ' * n + '"\n', lambda n: '/' * n, lambda n: '(' * n)]
GROWING += [('load_mtl', x) for x in (
    lambda n: 'newmtl a\n' * n, lambda n: 'newmtl a\nKa 1 2 3\nKd 1 1 1\nKs spectral f 1\nKe xyz 1 2 3\nTf 1 1 1\n' * n, lambda n: 'newmtl a\n' + 'Ns 1\nNi 2\nTr 1\nd 1\nillum 1\nsharpness 3\nmap_aat on\n' * n,
    lambda n: 'newmtl a\n' + 'map_Ka a\nmap_Kd b\nmap_Ks c\nmap_Ns d\nmap_d e\ndisp f\ndecal g\nbump h\nrefl -type sphere i\n' * n,
    lambda n: 'newmtl a\nmap_Kd' + ' -clamp on' * n + ' a\n', lambda n: 'newmtl a\nmap_Kd' + ' -o 1 2 3' * n + ' a\n', lambda n: 'newmtl a\nbump' + ' -s 1 2 3' * n + ' a\n',
    lambda n: 'newmtl ' + 'a' * n + '\n', lambda n: 'newmtl a\nNs ' + '1' * n + '\n', lambda n: '# c\n' * n + 'newmtl a\n', lambda n: 'newmtl a\n' + '\n \t' * n, lambda n: '#' + 'x' * n,
    lambda n: 'newmtl a\n' + 'Kd 1 1 1\n' * n + 'zzz\n', lambda n: '/' * n, lambda n: '(' * n)]


def call_depth(p):
    """no cycle in the calls reachable from the entry points, and no type of the crate which owns itself"""
    T = p.T

    def tyfns(t, seen):
        if t in seen or not isinstance(t, int):
            return
        seen.add(t)
        ty = T[t]
        if ty.get('fn'):
            yield ty['fn']
        for k in ('args', 'upvars'):
            for a in ty.get(k) or []:
                yield from tyfns(a, seen)
        if isinstance(ty.get('elem'), int):
            yield from tyfns(ty['elem'], seen)

    def consts(x):
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], dict):
                yield x[1]
            for y in x:
                yield from consts(y)
    work = [r['key'] for e, r in p.roots.items() if e in ['crate::' + x for x in ENTRIES]]
    adj, used = {}, set()
    while work:
        k = work.pop()
        if k in adj:
            continue
        f = p.F[k]
        b, out = f.get('body'), set()
        if b:
            for l in b['locals']:
                out |= set(tyfns(l, set()))
                used.add(l)
            out.discard(k)      # a closure sees its own type
            for blk in b['blocks']:
                for c in consts([blk['s'], blk['t']] if blk is not None else []):
                    if isinstance(c.get('fn'), int):
                        out |= set(tyfns(c['fn'], set()))
        else:
            for a in f.get('args') or []:
                out |= set(tyfns(a, set()))
        adj[k] = [g for g in out if g in p.F]
        work += adj[k]
    # strongly connected components (iterative Tarjan)
    idx, low, on, stk, comps, n = {}, {}, set(), [], [], 0
    for root in adj:
        if root in idx:
            continue
        todo = [(root, iter(adj[root]))]
        idx[root] = low[root] = n = n + 1
        stk.append(root)
        on.add(root)
        while todo:
            v, it = todo[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n = n + 1
                    stk.append(w)
                    on.add(w)
                    todo.append((w, iter(adj[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                todo.pop()
                if todo:
                    low[todo[-1][0]] = min(low[todo[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while not c or c[-1] != v:
                        c.append(stk.pop())
                        on.discard(c[-1])
                    if len(c) > 1 or v in adj[v]:
                        comps.append(c)
    und, vio = [], []
    for c in comps:
        own = [k for k in c if p.F[k]['crate'] == p.d['crate']]
        if not own:
            continue
        names = sorted({p.F[k]['path'] for k in own})
        grown = depth_grows(p, frozenset(own))
        site = p.F[own[0]].get('span', '')
        if grown:
            entry, t1, d1, t2, d2 = grown
            vio.append({'what': '%s calls itself once per piece of the text: %d activations at one time for %r, %d for %r (%s)' % (
                ' and '.join(names[:3]), d1, t1[:60], d2, t2[:90], entry), 'site': site, 'fn': names[0], 'path': names})
        else:
            und.append('%s can call itself; how deep does not follow from the length of the texts tried' % ' and '.join(names[:3]))
    # types which own themselves
    nadt = 0

    def owns(t, seen, via):
        ty = T[t]
        if ty['k'] == 'ref' or t in seen:
            return
        seen.add(t)
        yield t, via
        if ty['k'] == 'adt':
            if ty.get('path', '').split('::')[0] == 'crate':
                for vr in ty.get('variants') or []:
                    for fd in vr.get('fields') or []:
                        ft = fd.get('ty') if isinstance(fd, dict) else fd[1] if isinstance(fd, (list, tuple)) else None
                        if isinstance(ft, int):
                            yield from owns(ft, seen, via)
            else:
                for a in ty.get('args') or []:
                    if isinstance(a, int):
                        yield from owns(a, seen, via | {ty.get('path', '').split('::')[-1]})
        else:
            for a in list(ty.get('args') or []) + [ty.get('elem')]:
                if isinstance(a, int):
                    yield from owns(a, seen, via)
    for t, ty in enumerate(T):
        if not ty or ty.get('k') != 'adt' or ty.get('path', '').split('::')[0] != 'crate' or not ty.get('variants'):
            continue
        nadt += 1
        for vr in ty['variants']:
            for fd in vr.get('fields') or []:
                ft = fd.get('ty') if isinstance(fd, dict) else None
                if not isinstance(ft, int):
                    continue
                for u, via in owns(ft, set(), frozenset()):
                    if u == t:
                        if t in used and via & {'Box', 'Rc', 'Arc'} and not via & {'Vec', 'HashMap', 'BTreeMap', 'VecDeque'}:
                            vio.append({'what': '%s owns another %s through %s: a chain of them is dropped by recursion' % (ty['path'], ty['path'], '/'.join(sorted(via))),
                                        'site': ty['path'], 'fn': ty['path'], 'path': []})
                        else:
                            und.append('%s can hold another value of its type' % ty['path'])
    return {'functions': sum(1 for k in adj if p.F[k]['crate'] == p.d['crate']), 'external': sum(1 for k in adj if p.F[k]['crate'] != p.d['crate']),
            'edges': sum(len(x) for x in adj.values()), 'cycles': len(comps), 'types': nadt, 'undecided': sorted(set(und)), 'violations': vio,
            'fns': sorted(p.F[k]['path'] for k in adj if p.F[k]['crate'] == p.d['crate'])}


def depth_grows(p, keys):
    """two texts of one form, a short and a longer one, for which the functions are active at one time more often with the longer"""
    import scen
    from interp import Interp
    for entry, form in GROWING:
        got = []
        for n in (3, 6, 12):
            Interp.WATCH, Interp.DEEPEST = keys, 0
            try:
                scen.Runner(p).check(entry, scen.Shape().t(form(n)), ('anyres',))
            except Exception:
                pass
            finally:
                Interp.WATCH = frozenset()
            got.append(Interp.DEEPEST)
            if n == 3 and not got[0]:
                break
        if len(got) == 3 and got[2] - got[1] >= 5 and got[1] - got[0] >= 2:
            return entry, form(3), got[0], form(12), got[2]
    return None


# ------------------------------------------------------------------ type-level witness
WITNESS = r'''
//! Fails to build when a result borrows from the text, or cannot be shared between threads.
use nobject_rs::*;
fn owned<T: 'static>() {}
fn sendable<T: Send>() {}
fn shareable<T: Sync>() {}
fn duplicable<T: Clone + std::fmt::Debug>() {}
fn boxable<E: std::error::Error + Send + Sync + 'static>() {}

pub fn model_is_owned() { owned::<Model>(); owned::<ObjError>(); owned::<Material>(); }
pub fn model_is_sendable() { sendable::<Model>(); sendable::<ObjError>(); sendable::<Material>(); }
pub fn model_is_shareable() { shareable::<Model>(); shareable::<ObjError>(); shareable::<Material>(); }
pub fn data_is_duplicable() { duplicable::<Model>(); duplicable::<Material>(); }
pub fn errors_can_be_boxed() { boxable::<ObjError>(); }

// the text may go away before the result is used, and need not be 'static
pub fn model_outlives_the_text() -> Result<Model, Box<dyn std::error::Error + Send + Sync>> {
    let text = String::from("v 1 2 3");
    let r = load_obj(&text);
    drop(text);
    Ok(r?)
}
pub fn materials_outlive_the_text() -> Result<Vec<Material>, Box<dyn std::error::Error + Send + Sync>> {
    let text = String::from("newmtl a");
    let r = load_mtl(&text);
    drop(text);
    Ok(r?)
}
pub fn any_thread() {
    let h = std::thread::spawn(|| { let t = String::from("v 1 2 3"); load_obj(t.as_str()) });
    let _: Result<Model, ObjError> = h.join().unwrap();
    let h = std::thread::spawn(|| { let t = String::from("newmtl a"); load_mtl(t.as_str()) });
    let _: Result<Vec<Material>, ObjError> = h.join().unwrap();
}
pub fn plain_functions() {
    let _: fn(&str) -> Result<Model, ObjError> = load_obj;
    let _: fn(&str) -> Result<Vec<Material>, ObjError> = load_mtl;
}
'''


def witness(root, build):
    d = os.path.join(build, 'witness')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nnobject-rs = { path = "%s" }\n[workspace]\n' % root)
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(WITNESS)
    lock = os.path.join(root, 'Cargo.lock')
    dst = os.path.join(d, 'Cargo.lock')
    if os.path.exists(dst):
        os.remove(dst)
    rust.forget(os.path.join(build, 'witness-target'))
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(build, 'witness-target'), RUSTUP_TOOLCHAIN='nightly', RUSTC_WRAPPER='', RUSTFLAGS='')
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--manifest-path', os.path.join(d, 'Cargo.toml')],
                       env=env, capture_output=True, text=True)
    errs, depbroken = [], False
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        if m['target']['name'] != 'witness':
            depbroken = True
            continue
        sp = m['message']['spans']
        errs.append({'msg': m['message']['message'], 'code': (m['message'].get('code') or {}).get('code'),
                     'line': sp[0]['line_start'] if sp else 0, 'text': m['message']['rendered'][:1500]})
    return r.returncode, errs, depbroken, r.stderr[-400:]


def ownership(p, root, build):
    rc, errs, dep, tail = witness(root, build)
    obligations = [l.split('(')[0].replace('pub fn ', '').strip() for l in WITNESS.splitlines() if l.startswith('pub fn')]
    if rc == 0:
        return {'obligations': obligations, 'violations': [], 'undecided': []}
    errs = [e for e in errs if not e['msg'].startswith('aborting')]
    lines = WITNESS.splitlines()
    vio = []
    # only errors which say that a bound or a lifetime does not hold are violations
    for e in errs:
        fn = next((l.split('(')[0].replace('pub fn ', '').strip() for l in reversed(lines[:e['line']]) if l.startswith('pub fn')), '?')
        if e['code'] in ('E0277', 'E0310', 'E0505', 'E0597', 'E0515', 'E0308', 'E0716', 'E0521', 'E0499', 'E0502'):
            vio.append({'what': 'witness %s does not build: %s' % (fn, e['msg']), 'site': 'witness line %d' % e['line'], 'fn': fn, 'path': [e['text']]})
    if vio:
        return {'obligations': obligations, 'violations': vio, 'undecided': []}
    return {'obligations': obligations, 'violations': [], 'undecided': ['witness crate not built: ' + (errs[0]['msg'] if errs else tail)]}


# ------------------------------------------------------------------ plain data types
POSITIONAL = {
    'Vertex': ['x', 'y', 'z', 'w'], 'Normal': ['x', 'y', 'z'], 'Texture': ['u', 'v', 'w'],
    'Group': ['material_name', 'bevel', 'c_interp', 'd_interp', 'lod', 'texture_map'],
    'FaceElement': ['vertex_index', 'texture_index', 'normal_index'], 'Face': ['elements', 'smoothing_group'],
    'LineElement': ['vertex_index', 'texture_index'], 'Line': ['elements'], 'Point': ['elements'],
}
DATA = list(POSITIONAL) + ['Model', 'Material', 'ColorType', 'DisolveType', 'ColorCorrectedMap', 'NonColorCorrectedMap', 'BumpMap', 'ReflectionMap']


def adt_path(p, name):
    for a in p.d['adts']:
        if a['name'] == name and a['path'].split('::')[1] in ('model', 'material') or a['path'] == 'crate::' + name:
            return a['path']
    raise Undecided('type %s not found' % name)


def field_names(p, path, vi=0):
    return [f['name'] for f in p.variants(path)[vi]['fields']]


def find_root(p, pred):
    return [r for r in p.d['roots'] if pred(r) and r.get('key') in p.F]


def run1(p, key, args, pre=None):
    it = Interp(p)
    it.scenario = True
    st = State()
    if pre:
        args = pre(it, st, args)
    outs = it.call_f(st, p.F[key], args)
    return it, outs


def same(it, st, a, b):
    return it.deep(st, a) == it.deep(st, b) or norm(it, st, a) == norm(it, st, b)


def norm(it, st, v):
    v = it.deep(st, v) if v[0] == 'ref' else v
    if v[0] == 'A':
        return ('A', v[1], v[2], tuple(norm(it, st, x) for x in v[3]))
    if v[0] == 'T':
        return ('T', tuple(norm(it, st, x) for x in v[1]))
    if v[0] == 'L':
        return ('L', tuple(norm(it, st, x) for x in v[1]))
    return v


def constructors(p):
    done, vio, und = [], [], []
    for name, order in POSITIONAL.items():
        try:
            path = adt_path(p, name)
        except Undecided as e:
            und.append(str(e))
            continue
        have = field_names(p, path)
        if sorted(have) != sorted(order):
            und.append('%s: fields %s' % (name, have))
            continue
        short = path.replace('crate::', '')

        def look(kind, rs, arg, check):
            if not rs:
                und.append('%s: no %s' % (name, kind))
                return
            r = rs[0]
            f = p.F[r['key']]
            syms = [('sym', 'arg%d' % i, None) for i in range(len(order))]
            try:
                it, outs = run1(p, r['key'], arg(syms, f))
                for st, v in outs:
                    bad = check(it, st, v, syms)
                    if bad:
                        vio.append({'what': '%s: %s' % (kind, bad), 'site': r['span'], 'fn': r['path'], 'path': []})
                        return
                done.append('%s %s' % (name, kind))
            except Undecided as e:
                und.append('%s %s: %s' % (name, kind, e))

        def st_check(it, st, v, syms):
            if v[0] != 'A':
                raise Undecided('value ' + str(v)[:40])
            for i, fn in enumerate(order):
                if it.deep(st, v[3][have.index(fn)]) != syms[i]:
                    return 'component %d is not stored in `%s`' % (i, fn)
            return None
        look('%s::new' % name, find_root(p, lambda r: r['path'] == path + '::new'), lambda s, f: s, st_check)
        frm = find_root(p, lambda r: r['name'] == 'from' and r['impl'] and r['impl']['self'] == short and r['impl']['trait'] == 'std::convert::From')
        one = len(order) == 1
        look('%s::from(tuple)' % name, frm, lambda s, f: [s[0] if one and p.T[f['sig_in'][0]]['k'] != 'tuple' else ('T', tuple(s))], st_check)
        into = find_root(p, lambda r: r['name'] == 'from' and r['impl'] and r['impl']['trait'] == 'std::convert::From' and
                         r['impl']['traitref'].endswith('std::convert::From<%s>>' % short))

        def tup_check(it, st, v, syms):
            comps = list(v[1]) if v[0] == 'T' else [v]
            for i, fn in enumerate(order):
                if i >= len(comps) or it.deep(st, comps[i]) != syms[i]:
                    return 'component %d is not `%s`' % (i, fn)
            return None
        look('%s into tuple' % name, into,
             lambda s, f: [('A', path, 0, tuple(s[order.index(h)] for h in have))], tup_check)
    return {'obligations': done, 'violations': vio, 'undecided': und, 'rule': 'positional component i is the i-th documented field'}


def sample(p, ty, k, depth=0):
    """two different values of a type (k = 0, 1)"""
    t = p.T[ty]
    s = t['s']
    if s in ('f32', 'f64'):
        return ('fl', repr(float(k + 1)))
    if s == 'bool':
        return B(bool(k))
    if t['k'] == 'prim':
        return I(k)
    if t.get('path', '').endswith('string::String') or s == 'String':
        return S('ab'[k])
    if t['k'] == 'adt':
        path = t['path']
        if path.endswith('option::Option'):
            return ('A', path, 1, (sample(p, t['args'][0], 0, depth + 1),)) if k else ('A', path, 0, ())
        if path.endswith('vec::Vec'):
            return ('L', (sample(p, t['args'][0], 0, depth + 1),)) if k else ('L', ())
        if path.endswith('HashMap'):
            m = ('mnew',)
            return ('mset', m, S('k'), sample(p, t['args'][1], 0, depth + 1)) if k else m
        if path.endswith('boxed::Box'):
            return ('box', sample(p, t['args'][0], k, depth + 1))
        vs = p.variants(path)
        if vs:
            if len(vs) > 1:
                return ('A', path, k, tuple(sample(p, f['ty'], 0, depth + 1) for f in vs[k]['fields']))
            return ('A', path, 0, tuple(sample(p, f['ty'], k if i == 0 else 0, depth + 1) for i, f in enumerate(vs[0]['fields'])))
    if t['k'] == 'tuple':
        return ('T', tuple(sample(p, a, k if i == 0 else 0, depth + 1) for i, a in enumerate(t['args'])))
    raise Undecided('no sample for type ' + s)


def unlike(p, ty, depth=0):
    """pairs of values of a type which are not alike"""
    t = p.T[ty]
    s = t['s']
    if s in ('f32', 'f64'):
        prs = [('0.0', '1.0'), ('1.0', '1.0000001192092896'), ('0.0', '1e-08'), ('-1.0', '1.0'), ('0.5', '0.25'), ('1000000.0', '1000000.0625'),
               ('1.25', '1.5'), ('1.0', '3e+38'), ('-0.5', '-0.75')]
        return [(('fl', a), ('fl', b)) for a, b in (prs if depth < 3 else prs[:3])]
    if s == 'bool':
        return [(B(False), B(True))]
    if t['k'] == 'prim':
        prs = [(0, 1), (1, 2), (7, 8), (1, 257), (255, 256), (65536, 0), (4294967296, 0)]
        if s.startswith('i'):
            prs += [(-1, 1), (-1, 0), (-2, -1)]
        w = int(''.join(ch for ch in s if ch.isdigit()) or 64) - (1 if s.startswith('i') else 0)
        return [(I(a), I(b)) for a, b in prs if max(a, b) < 2 ** w]
    if t['k'] == 'adt':
        path = t['path']
        if path.endswith('string::String'):
            return [(S(a), S(b)) for a, b in [('', 'a'), ('a', 'b'), ('a', 'A'), ('a', ' a'), ('a', 'a '), ('a', 'aa'), ('ab', 'ba'), ('a.png', 'b.png'),
                                              ('d/a', 'a'), ('a\\b', 'a/b'), ('é', 'e')]]
        if path.endswith('option::Option'):
            e = t['args'][0]
            some = lambda x: ('A', path, 1, (x,))
            none = ('A', path, 0, ())
            sub = unlike(p, e, depth + 1)
            out = [(none, some(x)) for x in uniq([q for pr in sub[:3] for q in pr] + zeros(p, e))]
            return out + [(some(a), some(b)) for a, b in sub]
        if path.endswith('vec::Vec'):
            e = t['args'][0]
            sub = unlike(p, e, depth + 1)
            a, b = sub[0]
            out = [(('L', ()), ('L', (a,))), (('L', ()), ('L', (b,))), (('L', (a,)), ('L', (a, a))), (('L', (a, b)), ('L', (b, a))),
                   (('L', (a, a)), ('L', (a, b))), (('L', (b, a)), ('L', (a, a))), (('L', (a, b, a)), ('L', (a, a, a))), (('L', (a, b)), ('L', (a, b, b)))]
            return out + [(('L', (x,)), ('L', (y,))) for x, y in sub]
        if path.endswith('HashMap'):
            e = t['args'][1]
            sub = unlike(p, e, depth + 1)
            m = ('mnew',)
            ent = lambda base, k, v: ('mset', base, S(k), v)
            a, b = sub[0]
            out = [(m, ent(m, 'k', a)), (ent(m, 'k', a), ent(m, 'K', a)), (ent(m, 'k', a), ent(ent(m, 'k', a), 'j', b)),
                   (ent(ent(m, 'k', a), 'j', b), ent(ent(m, 'k', b), 'j', a))]
            return out + [(ent(m, 'k', x), ent(m, 'k', y)) for x, y in sub]
        if path.endswith('boxed::Box'):
            return [(('box', a), ('box', b)) for a, b in unlike(p, t['args'][0], depth)]
        vs = p.variants(path)
        if vs:
            out = []
            mk = lambda vi, k: ('A', path, vi, tuple(sample(p, f['ty'], k) for f in vs[vi]['fields']))
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    out += [(mk(i, 0), mk(j, 0)), (mk(i, 1), mk(j, 1))]
            for vi, var in enumerate(vs):
                base = mk(vi, 0)[3]
                for i, f in enumerate(var['fields']):
                    sub = unlike(p, f['ty'], depth + 1)
                    for x, y in (sub if depth < 2 else sub[:2]):
                        out.append((('A', path, vi, base[:i] + (x,) + base[i + 1:]), ('A', path, vi, base[:i] + (y,) + base[i + 1:])))
            return out
    if t['k'] == 'tuple':
        out = []
        base = [sample(p, a, 0) for a in t['args']]
        for i, a in enumerate(t['args']):
            for x, y in unlike(p, a, depth + 1):
                out.append((('T', tuple(base[:i] + [x] + base[i + 1:])), ('T', tuple(base[:i] + [y] + base[i + 1:]))))
        return out
    raise Undecided('no samples for type ' + s)


def zeros(p, ty):
    try:
        return [zero(p, ty)]
    except Undecided:
        return []


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def like_pairs(p, var):
    """(values a, values b, alike?, field) for the fields of a variant: one field differs, or two swap their values"""
    base = [sample(p, f['ty'], 0) for f in var['fields']]
    alt = [sample(p, f['ty'], 1) for f in var['fields']]
    out = [(base, base, True, None), (alt, alt, True, None)]
    for i, f in enumerate(var['fields']):
        for n, (x, y) in enumerate(unlike(p, f['ty'])):
            for ctx in ([base, alt] if n < 12 else [base]):
                a, b = ctx[:i] + [x] + ctx[i + 1:], ctx[:i] + [y] + ctx[i + 1:]
                out.append((a, b, False, i))
                if n < 12:
                    out += [(b, a, False, i), (a, a, True, None), (b, b, True, None)]
    for i in range(len(base)):
        for j in range(i + 1, len(base)):
            if var['fields'][i]['ty'] == var['fields'][j]['ty'] and base[i] != alt[i]:
                a, b = list(base), list(base)
                a[i], b[j] = alt[i], alt[j]
                out.append((a, b, False, i))
    return out


def zero(p, ty):
    t = p.T[ty]
    s = t['s']
    if s in ('f32', 'f64'):
        return ('fl', '0.0')
    if s == 'bool':
        return B(False)
    if t['k'] == 'prim':
        return I(0)
    if t['k'] == 'adt':
        path = t['path']
        if path.endswith('string::String'):
            return S('')
        if path.endswith('option::Option'):
            return ('A', path, 0, ())
        if path.endswith('vec::Vec'):
            return ('L', ())
        if path.endswith('HashMap'):
            return ('mnew',)
        vs = p.variants(path)
        if vs and len(vs) == 1:
            return ('A', path, 0, tuple(zero(p, f['ty']) for f in vs[0]['fields']))
    raise Undecided('no zero for ' + s)


def same_zero(a, b):
    if a[0] == b[0] == 'fl':
        return float(a[1]) == float(b[1])
    if a[0] == b[0] == 'A' and a[1:3] == b[1:3]:
        return len(a[3]) == len(b[3]) and all(same_zero(x, y) for x, y in zip(a[3], b[3]))
    return a == b


def value_semantics(p):
    done, vio, und = [], [], []
    for name in DATA:
        try:
            path = adt_path(p, name)
            vs = p.variants(path)
        except Undecided as e:
            und.append(str(e))
            continue
        short = path.replace('crate::', '')

        def method(tr, m):
            return find_root(p, lambda r: r['name'] == m and r['impl'] and r['impl']['self'] == short and r['impl']['trait'] == tr)

        def bad(r, what):
            vio.append({'what': what, 'site': r['span'], 'fn': r['path'], 'path': []})
        for vi, var in enumerate(vs):
            label = name if len(vs) == 1 else '%s::%s' % (name, var['name'])
            try:
                base = [sample(p, f['ty'], 0) for f in var['fields']]
                alt = [sample(p, f['ty'], 1) for f in var['fields']]
            except Undecided as e:
                und.append('%s: %s' % (label, e))
                continue
            mk = lambda xs: ('A', path, vi, tuple(xs))
            # clone
            for r in method('std::clone::Clone', 'clone')[:1]:
                try:
                    for xs in uniq([q for pr in like_pairs(p, var) for q in pr[:2]]):
                        f = dict(p.F[r['key']])
                        it = Interp(p)
                        it.scenario = True
                        if f.get('derived') or (r['impl'] or {}).get('derived'):
                            break
                        for st, v in it.exec_fn(State(), p.F[r['key']], [kref(mk(xs))]):
                            g = norm(it, st, v)
                            if g != norm(it, st, mk(xs)):
                                if g[0] == 'A' and all(concrete(x) for x in g[3]):
                                    i = [j for j, (x, y) in enumerate(zip(g[3], mk(xs)[3])) if x != y] or [0]
                                    bad(r, 'a clone of %s differs in `%s`' % (label, var['fields'][i[0]]['name']))
                                else:
                                    raise Undecided('clone value')
                    done.append(label + ' clone')
                except Undecided as e:
                    und.append('%s clone: %s' % (label, e))
            # equality
            for r in method('std::cmp::PartialEq', 'eq')[:1]:
                pairs = like_pairs(p, var)
                try:
                    for a, b, want, i in pairs:
                        it, outs = run1(p, r['key'], [kref(mk(a)), kref(mk(b))])
                        for st, v in outs:
                            if v[0] != 'b':
                                raise Undecided('equality result ' + str(v)[:60])
                            if v[1] != want:
                                bad(r, '%s: two values which %s are %s' % (label, 'are alike' if want else 'differ in `%s` (%s, %s)' % (
                                    var['fields'][i]['name'], brief(a[i]), brief(b[i])), 'equal' if v[1] else 'unequal'))
                    done.append(label + ' equality (%d pairs)' % len(pairs))
                except Undecided as e:
                    und.append('%s equality: %s' % (label, e))
        for r in method('std::default::Default', 'default')[:1]:
            try:
                if name == 'Model':
                    want = list(zero(p, f['ty']) for f in vs[0]['fields'])
                    fn = field_names(p, path)
                    g = p.T[vs[0]['fields'][fn.index('groups')]['ty']]['args'][1]
                    want[fn.index('groups')] = ('mset', ('mnew',), S('default'), zero(p, g))
                    pub = [i for i, f in enumerate(fn) if not f.startswith('current')]
                else:
                    want = [zero(p, f['ty']) for f in vs[0]['fields']]
                    pub = range(len(want))
                it, outs = run1(p, r['key'], [])
                for st, v in outs:
                    g = norm(it, st, v)
                    if g[0] != 'A':
                        raise Undecided('default value')
                    for i in pub:
                        x = g[3][i]
                        if not same_zero(x, want[i]) and not same_map(x, want[i]):
                            if not concrete(x):
                                raise Undecided('default value ' + str(x)[:60])
                            bad(r, 'the default %s has `%s` = %s' % (name, vs[0]['fields'][i]['name'], str(x)[:60]))
                done.append(name + ' default')
            except Undecided as e:
                und.append('%s default: %s' % (name, e))
    return {'obligations': done, 'violations': vio, 'undecided': und, 'rule': 'field-wise clone, equality and zero default'}


def same_map(a, b):
    if a[0] == b[0] == 'mset':
        return same_map(a[1], b[1]) and a[2] == b[2] and same_zero(a[3], b[3])
    return a == b


def brief(v):
    return str(v).replace("'", '')[:60]


def concrete(v):
    if isinstance(v, tuple) and v:
        if v[0] in ('s', 'i', 'b', 'c', 'fl', 'mnew'):
            return True
        if v[0] == 'A':
            return all(concrete(x) for x in v[3])
        if v[0] in ('T', 'L'):
            return all(concrete(x) for x in v[1])
        if v[0] == 'mset':
            return concrete(v[1]) and concrete(v[2]) and concrete(v[3])
    return False
