"""Models of the std/alloc items the code may call: sequences, maps, strings, iterators."""
import functools
import re
import charset as CS
from core import *

LESS, EQUAL, GREATER = 0, 1, 2
DIVERGE = []

PANICKY = re.compile(r'(^core::panicking|^std::rt::|panic|unwrap_failed|expect_failed|_fail$|slice_index_fail|process::abort|process::exit|handle_alloc_error|unreachable_unchecked)')


@functools.lru_cache(maxsize=None)
def strip_generics(p):
    """drop '::<...>' groups that follow a path segment, keep leading '<impl X>' groups"""
    out = []
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def self_group(s):
    """classify an impl self type string"""
    s = s.strip()
    while s.startswith('&'):
        s = s[1:].lstrip()
        s = re.sub(r"^'\w+ ", '', s)
        if s.startswith('mut '):
            s = s[4:]
    if s == 'str':
        return 'str'
    if s.startswith('['):
        return 'slice'
    m = re.match(r'([\w:]+)', s)
    base = m.group(1).split('::')[-1] if m else s
    return base


class StdModels:
    # ---------------------------------------------------------------- dispatch
    def do_call(self, st, fr, t):
        self.callsites += 1
        fv = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        if fv[0] == 'fn':
            ft = self.T[fv[1]]
            k = ft.get('fn')
            if k is None:
                return self.unknown_call(st, ft.get('path', '?'), args, t[3][2])
            return self.call_f(st, self.F[k], args, t[3][2])
        return self.call_value(st, fv, args)

    def call_f(self, st, f, args, outty=None):
        path = f['path']
        if outty is None:
            outty = f.get('sig_out')
        tr = f.get('trait')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and f.get('name', '').startswith('call'):
            return self.call_value(st, args[0], list(self.untuple(args[1])))
        if f['defkind'].startswith('Closure') or f['kind'] in ('closureonce', 'fnptrshim'):
            a = args
            if len(args) == 2:
                a = [args[0]] + list(self.untuple(args[1]))
            return self.call_value(st, a[0], a[1:])
        if 'ctor_variant' in f:
            return [(st, self.ctor(st, f, args))]
        r = self.model(st, f, args, outty)
        if r is not None:
            return r
        if f.get('derived') and f.get('trait') == 'std::clone::Clone':
            return [(st, self.deep(st, args[0]))]
        if f.get('body'):
            if f['body'].get('spread') is not None and args:
                args = args[:-1] + list(self.untuple(args[-1])) if False else args
            return self.exec_fn(st, f, args)
        return self.unknown_call(st, path, args, outty, f)

    def untuple(self, v):
        if v[0] == 'T':
            return v[1]
        ex = self.expand(v)
        return ex[1] if ex else (v,)

    def ctor(self, st, f, args):
        t = self.T[f['ctor_ty']]
        if t['path'] == COW:
            v = self.deep(st, args[0])
            self.cow_seen(v, f['ctor_variant'])
            return v
        return ('A', t['path'], f['ctor_variant'], tuple(args))

    def call_value(self, st, c, args):
        """call a function value; returns [(st, value)]"""
        loc = None
        while c[0] == 'ref':
            loc = c
            c = self.read(st, c[1], c[2])
        if c[0] == 'box':
            c = c[1]
        if c[0] == 'fn':
            k = self.T[c[1]].get('fn')
            if k is None:
                return self.unknown_call(st, self.T[c[1]].get('path', '?'), args, None)
            return self.call_f(st, self.F[k], args)
        if c[0] == 'fnk':
            return self.call_f(st, self.F[c[1]], args)
        if c[0] == 'clo':
            f = self.F[self.T[c[1]]['fn']]
            body = f.get('body')
            if not body:
                return self.unknown_call(st, f['path'], args, None)
            t1 = self.T[body['locals'][1]]
            if t1['k'] == 'ref':
                if loc is None:
                    if t1.get('mut'):
                        loc = ('ref', self.new_cell(st, c), ())
                    else:
                        loc = kref(c)
                self_arg = loc
            else:
                self_arg = c
            return self.exec_fn(st, f, [self_arg] + list(args))
        if c[0] == 'P':
            return self.parser_call(st, c, args)
        if c[0] == 'A' and c[1].endswith('::Discriminant'):
            pass
        return self.unknown_call(st, 'indirect:' + c[0], args, None)

    def unknown_call(self, st, path, args, outty, f=None):
        self.opaque_calls.setdefault(path, 0)
        self.opaque_calls[path] += 1
        if PANICKY.search(path):
            self.panic_here(st, path)
            return []
        t = self.tyk(outty)
        if t is not None and t['s'] == '!':
            self.panic_here(st, path)
            return []
        # havoc through mutable references
        st = st.copy()
        for a in args:
            if a[0] == 'ref' and not (isinstance(a[1], tuple) and a[1] and a[1][0] == 'K'):
                try:
                    v = self.read(st, a[1], a[2])
                    if v[0] not in ('fn', 'fnk', 'P'):
                        self.write(st, a[1], a[2], ('sym', self.fresh('havoc:' + path), self.ty_of(v)))
                except Undecided:
                    pass
        if t is not None and t['k'] == 'tuple' and not t['args']:
            return [(st, UNIT)]
        vargs = tuple(self.deep(st, a) if a[0] == 'ref' else a for a in args)
        if t is not None and t['k'] == 'ref':
            return [(st, kref(op('ext:' + path, *vargs, ty=t['elem'])))]
        return [(st, op('ext:' + path, *vargs, ty=outty))]

    def panic_here(self, st, what, site=None):
        for k in reversed(self.stack):
            f = self.F[k]
            if f['crate'] == self.p.d['crate']:
                self.panic(f['path'], f['span'], what, st)
                return
        self.panic('?', '?', what, st)

    # ---------------------------------------------------------------- model lookup
    def model(self, st, f, args, outty):
        path = f['path']
        name = f.get('name')
        crate = f['crate']
        if crate == self.p.d['crate']:
            return None
        if PANICKY.search(path) and not (crate == 'core' and f.get('body') and 'Result' in path):
            if f.get('sig_out') is not None and self.T[f['sig_out']]['s'] == '!':
                self.panic_here(st, path)
                return []
        if crate == 'nom':
            return self.nom_call(st, f, args, outty)
        if crate == 'log':
            return self.log_call(st, f, args, outty)
        tr = f.get('trait')
        if tr:
            m = getattr(self, 'tr_' + tr.split('::')[-1] + '_' + name, None)
            if m:
                return m(st, f, args, outty)
            return None
        sp = strip_generics(path)
        im = f.get('implself')
        if im:
            m = getattr(self, 'in_%s_%s' % (self_group(im), name), None)
            if m:
                return m(st, f, args, outty)
        m = self.FREE.get(sp)
        if m:
            return getattr(self, m)(st, f, args, outty)
        return None

    FREE = {
        'std::fmt::format': 'fr_format', 'std::hint::must_use': 'fr_id', 'std::convert::identity': 'fr_id',
        'std::mem::take': 'fr_mem_take', 'std::mem::replace': 'fr_mem_replace', 'std::mem::swap': 'fr_mem_swap',
        'std::mem::drop': 'fr_unit', 'std::mem::forget': 'fr_unit',
        'std::boxed::box_assume_init_into_vec_unsafe': 'fr_box_vec',
        'std::iter::once': 'fr_once', 'std::iter::empty': 'fr_empty', 'std::iter::repeat': 'fr_none',
        'std::intrinsics::discriminant_value': 'fr_discr', 'core::intrinsics::discriminant_value': 'fr_discr',
        'std::mem::discriminant': 'fr_discriminant', 'std::cmp::min': 'fr_min', 'std::cmp::max': 'fr_max',
        'std::slice::from_ref': 'fr_from_ref', 'std::intrinsics::unreachable': 'fr_unreach',
        'std::intrinsics::cold_path': 'fr_unit', 'core::intrinsics::cold_path': 'fr_unit',
    }

    def fr_id(self, st, f, a, o):
        return [(st, a[0])]

    def fr_unit(self, st, f, a, o):
        return [(st, UNIT)]

    def fr_none(self, st, f, a, o):
        return None

    def fr_unreach(self, st, f, a, o):
        return []

    def fr_from_ref(self, st, f, a, o):
        return [(st, kref(('L', (self.deep(st, a[0]),))))]

    def fr_format(self, st, f, a, o):
        v = a[0]
        if v[0] == 'fmtargs' and v[1] is not None:
            return [(st, v[1])]
        return [(st, op('fmt', ('t', self.fresh('')), ty=o))]

    def fr_mem_take(self, st, f, a, o):
        st = st.copy()
        r = a[0]
        old = self.read(st, r[1], r[2])
        d = self.default_of(st, f['args'][0])
        self.write(st, r[1], r[2], d)
        return [(st, old)]

    def fr_mem_replace(self, st, f, a, o):
        st = st.copy()
        r = a[0]
        old = self.read(st, r[1], r[2])
        self.write(st, r[1], r[2], a[1])
        return [(st, old)]

    def fr_mem_swap(self, st, f, a, o):
        st = st.copy()
        x, y = self.read(st, a[0][1], a[0][2]), self.read(st, a[1][1], a[1][2])
        self.write(st, a[0][1], a[0][2], y)
        self.write(st, a[1][1], a[1][2], x)
        return [(st, UNIT)]

    def fr_box_vec(self, st, f, a, o):
        v = self.deep(st, a[0])
        return [(st, v)]

    def fr_once(self, st, f, a, o):
        return [(st, ('iter', 'val', ('L', (a[0],)), 0, None))]

    def fr_empty(self, st, f, a, o):
        return [(st, ('iter', 'val', ('L', ()), 0, None))]

    def fr_discr(self, st, f, a, o):
        v = self.deep(st, a[0])
        return [(st, self.discr(st, v, f['args'][0]))]

    def fr_discriminant(self, st, f, a, o):
        v = self.deep(st, a[0])
        return [(st, self.discr(st, v, f['args'][0]))]

    def tr_PartialEq_eq_discr(self, *a):
        return None

    def minmax(self, st, which, x, y, o):
        out = []
        c = self.truth_cmp(st, 'Le', x, y)
        if c is None:
            return [(st, op(which, x, y, ty=o))]
        for s, b in c:
            out.append((s, (x if b else y) if which == 'min' else (y if b else x)))
        return out

    def fr_min(self, st, f, a, o):
        return self.minmax(st, 'min', a[0], a[1], o)

    def fr_max(self, st, f, a, o):
        return self.minmax(st, 'max', a[0], a[1], o)

    # ---------------------------------------------------------------- defaults
    def default_of(self, st, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'prim':
            s = t['s']
            if s == 'bool':
                return B(False)
            if s in self.INTBITS:
                return I(0)
            if s in ('f32', 'f64'):
                return ('fl', '0.0')
            if s == 'char':
                return ('c', 0)
        if k == 'tuple':
            return ('T', tuple(self.default_of(st, x) for x in t['args'])) if t['args'] else UNIT
        if k == 'adt':
            p = t['path']
            if p == OPT:
                return NONE
            if p.endswith('string::String') or p == COW:
                return S('')
            if p.endswith('vec::Vec'):
                return ('L', ())
            if p.endswith('HashMap') or p.endswith('BTreeMap'):
                return ('mnew',)
            want = '<%s as std::default::Default>::default' % t['s']
            for f in self.F.values():
                if f.get('trait') == 'std::default::Default' and f['inst'] == want:
                    r = self.call_f(st, f, [])
                    if len(r) == 1:
                        return r[0][1]
            return ('sym', 'default:' + t['s'], ty)
        if k == 'ref':
            e = self.T[t['elem']]
            if e['s'] == 'str':
                return kref(S(''))
            if e['k'] == 'slice':
                return kref(('L', ()))
        return ('sym', 'default:' + t['s'], ty)

    def tr_Default_default(self, st, f, a, o):
        if o is None:
            return None
        t = self.T[o]
        if t['k'] == 'adt' and not (t['path'] == OPT or t['path'] == COW or t['path'].split('::')[-1] in ('String', 'Vec', 'HashMap', 'BTreeMap')):
            return None
        return [(st, self.default_of(st, o))]

    # ---------------------------------------------------------------- log
    def log_call(self, st, f, a, o):
        n = f.get('name')
        if n == 'partial_cmp':
            return [(st, some(('A', 'std::cmp::Ordering', 0, ())))]
        if n in ('log', 'loc', 'max_level', 'le', 'lt', 'enabled'):
            t = self.tyk(o)
            if t and t['k'] == 'tuple':
                return [(st, UNIT)]
            return [(st, ('sym', 'log:' + n, o))]
        if f['defkind'].startswith('Fn') or f['defkind'].startswith('AssocFn'):
            t = self.tyk(o)
            if t and t['k'] == 'tuple':
                return [(st, UNIT)]
            return [(st, ('sym', 'log:' + str(n), o))]
        return None

    # ---------------------------------------------------------------- sequences
    def elem_ty(self, st, v):
        t = self.tyk(self.ty_of(v)) if self.is_sym(v) else None
        if t is None:
            return None
        if t['k'] == 'adt' and t.get('args'):
            return t['args'][0]
        if t['k'] in ('slice', 'array'):
            return t['elem']
        return None

    def token_ty(self):
        if not hasattr(self, '_tokty'):
            self._tokty = None
            for i, t in enumerate(self.T):
                if t and t['k'] == 'adt' and t.get('path', '').endswith('::Token') and t.get('variants') and t.get('enum'):
                    self._tokty = i
        return self._tokty

    def seq_nth(self, st, v, ix, ety):
        if ix[0] == 'i' and v[0] == 'L':
            if ix[1] < len(v[1]):
                return v[1][ix[1]]
            return ('uninit', 'oob', ety)
        if v[0] == 'sfx' and ix[0] == 'i':
            return ('tok', v[1], v[2] + ix[1], self.token_ty())
        if v[0] == 'cat' and ix[0] == 'i' and v[1] and v[1][0][0] == 'L':
            n = len(v[1][0][1])
            if ix[1] < n:
                return v[1][0][1][ix[1]]
        if v[0] == 'sset' and v[2] == ix:
            return v[3]
        if v[0] == 'sub' and ix[0] == 'i' and v[2][0] == 'i':
            return self.seq_nth(st, v[1], I(v[2][1] + ix[1]), ety)
        if v[0] == 'op' and v[1] == 'take':
            return self.seq_nth(st, v[2][0], ix, ety)
        if ety is None:
            ety = self.elem_ty(st, v)
        return ('nth', v, ix, ety)

    def seq_set(self, st, v, ix, fn, ety):
        if ix[0] == 'i' and v[0] == 'L' and ix[1] < len(v[1]):
            l = list(v[1])
            l[ix[1]] = fn(l[ix[1]])
            return ('L', tuple(l))
        return ('sset', v, ix, fn(self.seq_nth(st, v, ix, ety)))

    def seq_last_val(self, st, v, ety=None):
        if v[0] == 'L' and v[1]:
            return v[1][-1]
        if v[0] == 'cat' and v[1][-1][0] == 'L' and v[1][-1][1]:
            return v[1][-1][1][-1]
        if v[0] == 'setlast':
            return v[2]
        if ety is None:
            ety = self.elem_ty(st, v)
        return ('last', v, ety)

    def seq_set_last(self, st, v, fn, ety=None):
        old = self.seq_last_val(st, v, ety)
        nv = fn(old)
        if v[0] == 'L' and v[1]:
            return ('L', v[1][:-1] + (nv,))
        if v[0] == 'cat' and v[1][-1][0] == 'L' and v[1][-1][1]:
            return ('cat', v[1][:-1] + (('L', v[1][-1][1][:-1] + (nv,)),))
        if v[0] == 'setlast':
            return ('setlast', v[1], nv)
        return ('setlast', v, nv)

    def seq_cat(self, a, b):
        if b == ('L', ()):
            return a
        if a == ('L', ()):
            return b
        pa = list(a[1]) if a[0] == 'cat' else [a]
        pb = list(b[1]) if b[0] == 'cat' else [b]
        while pa and pb and pa[-1][0] == 'L' and pb[0][0] == 'L':
            pa[-1] = ('L', pa[-1][1] + pb.pop(0)[1])
        r = pa + pb
        return r[0] if len(r) == 1 else ('cat', tuple(r))

    def seq_len(self, st, v):
        if self.is_strlike(v):
            if v[0] == 's':
                return I(len(v[1].encode()))
            lo, hi = self.str_len_rng(st, v)
            if lo == hi:
                return I(lo)
            return op('len', v, ty=self.usize())
        if v[0] == 'L':
            return I(len(v[1]))
        if v[0] == 'setlast' or v[0] == 'sset':
            return self.seq_len(st, v[1])
        return op('len', v, ty=self.usize())

    def is_strlike(self, v):
        if v[0] in ('s', 'span', 'str', 'seg'):
            return True
        if v[0] == 'cat':
            return all(self.is_strlike(x) for x in v[1])
        if v[0] == 'op' and v[1] in ('lower', 'upper', 'alower', 'aupper', 'trim', 'tostr', 'fmt', 'replace',
                                         'replacen', 'cfilter', 'cmap', 'stake', 'sskip', 'stw', 'srev', 'truncate', 'join', 'repeat'):
            return True
        t = self.tyk(self.ty_of(v)) if self.is_sym(v) else None
        return bool(t and (t['s'] == 'str' or t.get('path', '').endswith('string::String') or t.get('path') == COW))

    def seq_len_rng(self, st, v):
        if self.is_strlike(v):
            lo, hi = self.str_len_rng(st, v)
            return lo, hi
        if v[0] == 'L':
            return len(v[1]), len(v[1])
        if v[0] == 'sfx':
            lo, hi = st.facts.get(('slen', v[1]), (0, None))
            return max(0, lo - v[2]), None if hi is None else hi - v[2]
        if v[0] == 'rep':
            return self.REP[v[1]]['min'], None
        if v[0] == 'cat':
            lo, hi = 0, 0
            for x in v[1]:
                a, b = self.seq_len_rng(st, x)
                lo += a or 0
                hi = None if hi is None or b is None else hi + b
            return lo, hi
        if v[0] in ('setlast', 'sset'):
            return self.seq_len_rng(st, v[1])
        if v[0] == 'mget' and v[3] is not None and v[3][0] == 'L':
            return 0, None
        return 0, None

    def refine_len(self, st, v, lo, hi):
        a, b = self.rng(st, op('len', v, ty=self.usize())) if not (v[0] in ('L',)) else (len(v[1]), len(v[1]))
        na = a if lo is None else lo if a is None else max(a, lo)
        nb = b if hi is None else hi if b is None else min(b, hi)
        if na is not None and nb is not None and na > nb:
            return None
        if v[0] == 'sfx':
            return st.fact(('slen', v[1]), ((na or 0) + v[2], None if nb is None else nb + v[2]))
        if self.is_strlike(v) and hi == 0 and v[0] in ('str', 'span'):
            return self.force_empty(st, v)
        if self.is_strlike(v) and lo == 1 and v[0] in ('str', 'span') and a == 0:
            return self.force_nonempty(st, v)
        return st.fact(('rng', op('len', v, ty=self.usize())), (na, nb))

    def span_idx(self, st, v):
        i = self.seg_index(st, v[1], v[2])
        j = self.seg_index(st, v[1], v[3]) if v[0] == 'span' else len(self.segs(st, v[1]))
        return i, j

    def force_empty(self, st, v):
        i, j = self.span_idx(st, v)
        segs = list(self.segs(st, v[1]))
        for k in range(i, j):
            g, cs, mn, mx = segs[k]
            if mn > 0:
                return None
            segs[k] = (g, cs, 0, 0)
        return self.put_segs(st, v[1], segs)

    def force_nonempty(self, st, v):
        i, j = self.span_idx(st, v)
        segs = list(self.segs(st, v[1]))
        live = [k for k in range(i, j) if segs[k][3] != 0]
        if len(live) == 1:
            g, cs, mn, mx = segs[live[0]]
            segs[live[0]] = (g, cs, max(1, mn), mx)
            return self.put_segs(st, v[1], segs)
        return st.fact(('rng', op('len', v, ty=self.usize())), (1, None))

    def seq_sub(self, st, v, a, b):
        """v[a..b]; a,b: python int / ('end',n) / None / term"""
        ai = a if isinstance(a, int) else a[1] if isinstance(a, tuple) and a[0] == 'i' else None
        bi = b if isinstance(b, int) else (b[1] if isinstance(b, tuple) and b[0] == 'i' else None)
        if v[0] == 'L' and ai is not None and b is None:
            return ('L', v[1][ai:])
        if v[0] == 'L' and ai is not None and isinstance(b, tuple) and b[0] == 'end':
            return ('L', v[1][ai:len(v[1]) - b[1]])
        if v[0] == 'L' and ai is not None and bi is not None:
            return ('L', v[1][ai:bi])
        if v[0] == 'sfx' and ai is not None and b is None:
            return ('sfx', v[1], v[2] + ai)
        if v[0] == 'sfx' and ai is not None and bi is not None and bi - ai <= 8:
            return ('L', tuple(self.seq_nth(st, v, I(k), None) for k in range(ai, bi)))
        if ai == 0 and b is None:
            return v
        at = I(a) if isinstance(a, int) else a
        bt = I(b) if isinstance(b, int) else b
        return ('sub', v, at, bt)

    def nonempty_fork(self, st, v):
        """[(state, bool nonempty)]"""
        if v[0] in ('str', 'span'):
            out = []
            res = self.split_first(st, v[1], v[2]) if v[0] == 'str' else self.split_within(st, v[1], v[2], v[3])
            # keep runs unsplit: only refine emptiness
            s = self.force_nonempty(st, v)
            if any(g is not None for _, g in res) and s is not None:
                out.append((s, True))
            if any(g is None for _, g in res):
                e = self.force_empty(st, v)
                if e is not None:
                    out.append((e, False))
            return out
        n = self.seq_len(st, v)
        if n[0] == 'i':
            return [(st, n[1] > 0)]
        out = []
        lo, hi = self.rng(st, n)
        if hi is None or hi > 0:
            s = self.refine_len(st, v, 1, None) if (lo or 0) < 1 else st
            if s is not None:
                out.append((s, True))
        if (lo or 0) == 0:
            s = self.refine_len(st, v, None, 0)
            if s is not None:
                out.append((s, False))
        return out

    def fork_opt(self, st, v, mk):
        out = []
        for s, b in self.nonempty_fork(st, v):
            out.append((s, some(mk(s)) if b else NONE))
        return out

    # -------- Vec / slice inherent methods
    def rd(self, st, r):
        return self.deep(st, r)

    def in_Vec_new(self, st, f, a, o):
        return [(st, ('L', ()))]

    def in_Vec_with_capacity(self, st, f, a, o):
        return [(st, ('L', ()))]

    def in_Vec_push(self, st, f, a, o):
        st = st.copy()
        r = a[0]
        v = self.read(st, r[1], r[2])
        self.write(st, r[1], r[2], self.seq_cat(v, ('L', (a[1],))))
        return [(st, UNIT)]

    def in_Vec_clear(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], ('L', ()))
        return [(st, UNIT)]

    def in_Vec_len(self, st, f, a, o):
        return [(st, self.seq_len(st, self.rd(st, a[0])))]

    in_slice_len = in_String_len = in_str_len = in_Vec_len

    def in_Vec_is_empty(self, st, f, a, o):
        return [(s, B(not b)) for s, b in self.nonempty_fork(st, self.rd(st, a[0]))]

    in_slice_is_empty = in_String_is_empty = in_str_is_empty = in_Vec_is_empty

    def in_Vec_as_slice(self, st, f, a, o):
        return [(st, a[0])]

    in_Vec_as_mut_slice = in_String_as_str = in_String_as_mut_str = in_str_as_str = in_Vec_as_slice
    in_slice_as_slice = in_Vec_as_slice

    def in_Vec_reserve(self, st, f, a, o):
        return [(st, UNIT)]

    in_Vec_shrink_to_fit = in_String_reserve = in_HashMap_reserve = in_Vec_reserve

    def in_Vec_append(self, st, f, a, o):
        st = st.copy()
        v, w = self.read(st, a[0][1], a[0][2]), self.read(st, a[1][1], a[1][2])
        self.write(st, a[0][1], a[0][2], self.seq_cat(v, w))
        self.write(st, a[1][1], a[1][2], ('L', ()))
        return [(st, UNIT)]

    def in_Vec_extend_from_slice(self, st, f, a, o):
        st = st.copy()
        v, w = self.read(st, a[0][1], a[0][2]), self.rd(st, a[1])
        self.write(st, a[0][1], a[0][2], self.seq_cat(v, w))
        return [(st, UNIT)]

    def in_Vec_pop(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        if v[0] == 'L' and v[1]:
            self.write(st, a[0][1], a[0][2], ('L', v[1][:-1]))
            return [(st, some(v[1][-1]))]
        if v == ('L', ()):
            return [(st, NONE)]
        return None

    def in_Vec_insert(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        if a[1][0] == 'i' and a[1][1] == 0:
            self.write(st, a[0][1], a[0][2], self.seq_cat(('L', (a[2],)), v))
            return [(st, UNIT)]
        return None

    def in_Vec_truncate(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        nv = op('take', v, a[1])
        if a[1] == I(0):
            nv = ('L', ())
        self.write(st, a[0][1], a[0][2], nv)
        return [(st, UNIT)]

    def in_Vec_drain(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        if a[1][0] == 'A' and a[1][1].endswith('RangeFull'):
            self.write(st, a[0][1], a[0][2], ('L', ()))
            return [(st, ('iter', 'val', v, 0, None))]
        return None

    def in_slice_first(self, st, f, a, o):
        v = self.rd(st, a[0])
        return self.fork_opt(st, v, lambda s: kref(self.seq_nth(s, v, I(0), None)))

    def in_slice_last(self, st, f, a, o):
        v = self.rd(st, a[0])
        return self.fork_opt(st, v, lambda s: kref(self.seq_last_val(s, v)))

    def in_slice_first_mut(self, st, f, a, o):
        v = self.rd(st, a[0])
        return self.fork_opt(st, v, lambda s: ('ref', a[0][1], a[0][2] + (('idx', I(0), None),)))

    def in_slice_last_mut(self, st, f, a, o):
        v = self.rd(st, a[0])
        ty = self.slice_elem_of(f)
        return self.fork_opt(st, v, lambda s: ('ref', a[0][1], a[0][2] + (('last', ty),)))

    def slice_elem_of(self, f):
        a = f.get('args') or []
        return a[0] if a else None

    def in_slice_get(self, st, f, a, o):
        v = self.rd(st, a[0])
        if a[1][0] == 'A':
            return None
        out = []
        for s, b in self.truth(st, self.cmp(st, 'Lt', a[1], self.seq_len(st, v))):
            out.append((s, some(kref(self.seq_nth(s, v, a[1], self.slice_elem_of(f)))) if b else NONE))
        return out

    def in_slice_get_mut(self, st, f, a, o):
        v = self.rd(st, a[0])
        out = []
        for s, b in self.truth(st, self.cmp(st, 'Lt', a[1], self.seq_len(st, v))):
            out.append((s, some(('ref', a[0][1], a[0][2] + (('idx', a[1], None),))) if b else NONE))
        return out

    def in_slice_to_vec(self, st, f, a, o):
        return [(st, self.rd(st, a[0]))]

    in_slice_to_owned = in_slice_into_vec = in_slice_to_vec

    def check_le(self, st, x, y, what):
        """continue on x<=y, record panic otherwise"""
        out = []
        ok_ = True
        for s, b in self.truth(st, self.cmp(st, 'Le', x, y)):
            if b:
                out.append(s)
            else:
                ok_ = False
                self.panic_here(s, what)
        if ok_:
            site = (self.cur_fn(), '', what)
            self.discharged[site] = self.discharged.get(site, 0) + 1
        return out

    WIDTHS = [(1, ((0, 0x7f),)), (2, ((0x80, 0x7ff),)), (3, ((0x800, 0xffff),)), (4, ((0x10000, 0x10ffff),))]

    def byte_cut(self, st, v, n):
        """where the byte offset n of a part of the input is: [(state, 'at', position) | (state, 'short'|'mid', None)]"""
        Sn = v[1]
        out, cur = [], [(st, v[2], n)]
        while cur:
            s, p, k = cur.pop()
            if k == 0:
                out.append((s, 'at', p))
                continue
            for s2, g in self.split_first(s, Sn, p):
                if g is None or v[0] == 'span' and self.seg_index(s2, Sn, g) > self.seg_index(s2, Sn, v[3]):
                    out.append((s2, 'short', None))
                    continue
                cs = self.seg_of(s2, Sn, g)[1]
                for w, c in self.WIDTHS:
                    yes = CS.inter(cs, c)
                    if not yes:
                        continue
                    s3 = s2 if CS.subset(cs, c) else self.refine_char(s2, ('chr', Sn, g, self.char_ty()), yes)
                    if w > k:
                        out.append((s3, 'mid', None))
                    else:
                        cur.append((s3, g, k - w))
        return out

    def stream_part(self, v):
        return v[0] in ('str', 'span') and isinstance(v[1], str)

    def cut_range(self, st, v, x, y):
        """v[x..y] of a part of the input, constant offsets: [(state, 'at', part) | (state, 'short'|'mid', None)]; or None"""
        if not self.scenario and not CS.subset(self.str_charset(st, v) or CS.ALL, CS.ASCII):
            return None
        if not self.stream_part(v) or x[0] != 'i' or x[1] > 48 or y is not None and (y[0] != 'i' or y[1] > 48 or y[1] < x[1]) or x[1] < 0:
            return None
        if x == I(0) and y is None:
            return None
        Sn = v[1]
        out = []
        for s, how, p in self.byte_cut(st, v, x[1]):
            if how != 'at':
                out.append((s, how, None))
            elif y is None:
                out.append((s, 'at', ('str', Sn, p) if v[0] == 'str' else ('span', Sn, p, v[3])))
            else:
                for s2, how2, q in self.byte_cut(s, (v[0], Sn, p) + v[3:], y[1] - x[1]):
                    out.append((s2, how2, ('span', Sn, p, q)) if how2 == 'at' else (s2, how2, None))
        return out

    def at_boundary(self, st, v, x):
        """the byte offset x certainly lies between two characters of the text v (or past its end)"""
        if x == I(0) or x == self.seq_len(st, v):
            return True
        cs = self.str_charset(st, v) if self.is_strterm(v) else None
        if cs is not None and CS.subset(cs, CS.ASCII):
            return True
        n = 0
        if x[0] == 'op' and x[1] == 'Add':
            for i, j in ((0, 1), (1, 0)):
                if x[2][i][0] == 'i':
                    n, x = x[2][i][1], x[2][j]
                    break
        if x[0] == 'fld' and x[1][0] == 'op' and x[1][1] in ('find', 'rfind') and x[1][2][0] == v:
            p = x[1][2][1]
            if n == 0:
                return True
            if p[0] == 's':
                return n <= len(p[1]) and p[1].isascii()
            if p[0] == 'c':
                return n == len(chr(p[1]).encode())
            return n == 1 and CS.subset(p[1], CS.ASCII)
        return False

    def check_boundary(self, st, v, x):
        """continue when the byte offset lies between two characters, record a panic otherwise"""
        site = (self.cur_fn(), '', 'character boundary')
        if v[0] != 's' and not self.at_boundary(st, v, x):
            v = self.concrete(st, v)
        if v[0] == 's' and x[0] == 'i':
            b = v[1].encode()
            good = x[1] >= len(b) or b[x[1]] & 0xc0 != 0x80
        else:
            good = self.at_boundary(st, v, x)
        if good:
            self.discharged[site] = self.discharged.get(site, 0) + 1
            return [st]
        if v[0] == 's' and x[0] == 'i':
            self.panic_here(st, 'text cut inside a character')
            return []
        out = []
        for s, b in self.truth_atom(st, op('is_char_boundary', v, x)):
            if b:
                out.append(s)
            else:
                self.panic_here(s, 'text cut inside a character')
        return out

    def str_cut(self, st, v, x, what):
        """states in which x is a valid place to cut v at"""
        return [s2 for s in self.check_le(st, x, self.seq_len(st, v), what) for s2 in self.check_boundary(s, v, x)]

    def in_str_split_at(self, st, f, a, o):
        v = self.sv(st, a[0])
        if self.scenario and self.stream_part(v) and a[1][0] == 'i' and 0 < a[1][1] <= 48:
            out = []
            for s, how, p in self.byte_cut(st, v, a[1][1]):
                if how == 'at':
                    out.append((s, ('T', (kref(('span', v[1], v[2], p)), kref(('str', v[1], p) if v[0] == 'str' else ('span', v[1], p, v[3]))))))
                else:
                    self.panic_here(s, 'split_at out of bounds' if how == 'short' else 'text cut inside a character')
            return out
        return [(s, ('T', (kref(self.str_slice(s, v, I(0), a[1])), kref(self.str_slice(s, v, a[1], None)))))
                for s in self.str_cut(st, v, a[1], 'split_at out of bounds')]

    def in_str_is_char_boundary(self, st, f, a, o):
        v = self.concrete(st, self.sv(st, a[0]))
        if a[1] == I(0):
            return [(st, B(True))]
        if v[0] == 's' and a[1][0] == 'i':
            b = v[1].encode()
            return [(st, B(a[1][1] == len(b) or a[1][1] < len(b) and b[a[1][1]] & 0xc0 != 0x80))]
        return [(s, B(b)) for s, b in self.truth_atom(st, op('is_char_boundary', v, a[1]))]

    def in_str_get(self, st, f, a, o):
        v = self.sv(st, a[0])
        rp = self.range_parts(st, a[1])
        if rp is None or not self.is_strlike(v):
            return None
        x, y = rp
        v = self.concrete(st, v)
        cuts = self.cut_range(st, v, x, y)
        if cuts is not None:
            return [(s, some(kref(part)) if how == 'at' else NONE) for s, how, part in cuts]
        ln = self.seq_len(st, v)
        if y is None:
            y = ln
        todo = [('Le', x, y), ('Le', y, ln), ('cb', x), ('cb', y)]
        out, sts = [], [st]
        for c in todo:
            nxt = []
            for s in sts:
                if c[0] == 'Le':
                    rs = self.truth(s, self.cmp(s, 'Le', c[1], c[2]))
                elif v[0] == 's' and c[1][0] == 'i':
                    b = v[1].encode()
                    rs = [(s, c[1][1] >= len(b) or b[c[1][1]] & 0xc0 != 0x80)]
                elif self.at_boundary(s, v, c[1]):
                    rs = [(s, True)]
                else:
                    rs = self.truth_atom(s, op('is_char_boundary', v, c[1]))
                for s2, b in rs:
                    if b:
                        nxt.append(s2)
                    else:
                        out.append((s2, NONE))
            sts = nxt
        return out + [(s, some(kref(self.str_slice(s, v, x, None if y == ln else y)))) for s in sts]

    def in_slice_split_at(self, st, f, a, o):
        v = self.rd(st, a[0])
        n = a[1]
        out = []
        for s in self.check_le(st, n, self.seq_len(st, v), 'split_at out of bounds'):
            out.append((s, ('T', (kref(self.seq_sub(s, v, 0, n)), kref(self.seq_sub(s, v, n, None))))))
        return out

    def in_slice_split_first(self, st, f, a, o):
        v = self.rd(st, a[0])
        return self.fork_opt(st, v, lambda s: ('T', (kref(self.seq_nth(s, v, I(0), self.slice_elem_of(f))),
                                                     kref(self.seq_sub(s, v, 1, None)))))

    def in_slice_contains(self, st, f, a, o):
        v = self.rd(st, a[0])
        x = self.rd(st, a[1])
        if v[0] == 'L':
            cur = [(st, False)]
            for e in v[1]:
                nxt = []
                for s, b in cur:
                    if b:
                        nxt.append((s, b))
                    else:
                        nxt += self.eq_fork(s, self.rd(s, e), x)
                cur = nxt
            return [(s, B(b)) for s, b in cur]
        return None

    def eq_fork(self, st, a, b):
        if self.is_strlike(a) and self.is_strlike(b):
            r = self.truth_streq(st, a, b, None)
            if r is not None:
                return r
        if self.char_cs(st, a) is not None or a[0] in ('i', 'b', 'c'):
            return self.truth(st, self.cmp(st, 'Eq', a, b))
        if a == b:
            return [(st, True)]
        return self.truth_atom(st, op('eqv', a, b))

    def in_slice_join(self, st, f, a, o):
        v = self.rd(st, a[0])
        sep = self.rd(st, a[1])
        if v[0] == 'L' and self.is_strlike(sep):
            parts = []
            for i, x in enumerate(v[1]):
                if i:
                    parts.append(sep)
                parts.append(self.rd(st, x))
            return [(st, self.scat(st, parts))]
        return [(st, op('join', v, sep, ty=o))]

    def in_slice_concat(self, st, f, a, o):
        v = self.rd(st, a[0])
        if v[0] == 'L' and all(self.is_strlike(self.rd(st, x)) for x in v[1]):
            return [(st, self.scat(st, [self.rd(st, x) for x in v[1]]))]
        return [(st, op('join', v, S(''), ty=o))]

    def in_slice_copy_from_slice(self, st, f, a, o):
        return None

    # indexing ---------------------------------------------------------
    def range_parts(self, st, r):
        if r[0] != 'A':
            return None
        n = r[1].split('::')[-1]
        if n == 'RangeFull':
            return I(0), None
        if n == 'Range':
            return r[3][0], r[3][1]
        if n == 'RangeFrom':
            return r[3][0], None
        if n == 'RangeTo':
            return I(0), r[3][0]
        return None

    def index_common(self, st, f, a, o, mut):
        v = self.rd(st, a[0])
        if v[0] in ('mnew', 'mset') or (self.is_sym(v) and 'HashMap' in str((self.tyk(self.ty_of(v)) or {}).get('path'))):
            k = self.rd(st, a[1])
            self.panic_here(st, 'HashMap index')
            return [(st, kref(self.map_get_val(st, v, k, None, None)))]
        rp = self.range_parts(st, a[1])
        if rp is not None:
            x, y = rp
            cuts = self.cut_range(st, v, x, y) if self.is_strlike(v) else None
            if cuts is not None:
                out = []
                for s, how, part in cuts:
                    if how == 'at':
                        out.append((s, kref(part)))
                    else:
                        self.panic_here(s, 'range index' if how == 'short' else 'text cut inside a character')
                return out
            ln = self.seq_len(st, v)
            sts = self.check_le(st, x, y if y is not None else ln, 'range index')
            if y is not None:
                sts = [s2 for s in sts for s2 in self.check_le(s, y, ln, 'range index')]
            if self.is_strlike(v):
                for i in (x, y):
                    if i is not None:
                        sts = [s2 for s in sts for s2 in self.check_boundary(s, v, i)]
                return [(s, kref(self.str_slice(s, v, x, y))) for s in sts]
            if mut:
                return [(s, ('ref', a[0][1], a[0][2] + (('sub', x, y),))) for s in sts]
            return [(s, kref(self.seq_sub(s, v, x, y))) for s in sts]
        if a[1][0] == 'A':
            return None
        out = []
        okk = True
        ety = (f.get('args') or [None])[0]
        for s, b in self.truth(st, self.cmp(st, 'Lt', a[1], self.seq_len(st, v))):
            if b:
                if mut:
                    out.append((s, ('ref', a[0][1], a[0][2] + (('idx', a[1], ety),))))
                else:
                    out.append((s, kref(self.seq_nth(s, v, a[1], ety))))
            else:
                okk = False
                self.panic_here(s, 'index out of bounds')
        if okk:
            site = (self.cur_fn(), '', 'index')
            self.discharged[site] = self.discharged.get(site, 0) + 1
        return out

    def str_slice(self, st, v, x, y):
        if x[0] == 'i' and x != I(0) or y is not None and y[0] == 'i':
            v = self.concrete(st, v)
        if v[0] == 's' and x[0] == 'i' and (y is None or y[0] == 'i'):
            return S(v[1].encode()[x[1]:None if y is None else y[1]].decode('utf8', 'replace'))
        if x == I(0) and y is None:
            return v
        if x == I(0) and y is not None and y[0] == 'op' and y[1] == 'offset' and v[0] == 'str' and y[2][0] == ('t', v[1]):
            return ('span', v[1], v[2], y[2][1][1])
        if y is None and x[0] == 'op' and x[1] == 'offset' and v[0] == 'str' and x[2][0] == ('t', v[1]):
            return ('str', v[1], x[2][1][1])
        return op('slice', v, x, y if y is not None else ('t', 'end'), ty=self.str_ty())

    def str_ty(self):
        if not hasattr(self, '_sty'):
            self._sty = None
            for i, t in enumerate(self.T):
                if t and t['s'] == 'str':
                    self._sty = i
        return self._sty

    def tr_Index_index(self, st, f, a, o):
        return self.index_common(st, f, a, o, False)

    def tr_IndexMut_index_mut(self, st, f, a, o):
        return self.index_common(st, f, a, o, True)

    # ---------------------------------------------------------------- clone / convert / eq
    def tr_Clone_clone(self, st, f, a, o):
        im = f.get('implself', '')
        if f['crate'] == self.p.d['crate'] and not f.get('derived'):
            return None
        return [(st, self.deep(st, a[0]) if a[0][0] == 'ref' and self.T[o]['k'] != 'ref' else self.deref(st, a[0]))]

    def tr_Clone_clone_from(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], self.deep(st, a[1]))
        return [(st, UNIT)]

    def tr_ToOwned_to_owned(self, st, f, a, o):
        return [(st, self.deep(st, a[0]))]

    def tr_Deref_deref(self, st, f, a, o):
        return [(st, self.deref_adapt(st, a[0]))]

    tr_Borrow_borrow = tr_Deref_deref

    def deref_adapt(self, st, r):
        v = self.deref(st, r)
        if v[0] == 'ref':  # Box / &T
            return v
        return r

    def tr_DerefMut_deref_mut(self, st, f, a, o):
        return [(st, self.deref_adapt(st, a[0]))]

    def tr_AsRef_as_ref(self, st, f, a, o):
        g = self_group(f.get('implself', ''))
        if g in ('String', 'str', 'Vec', 'slice', 'Cow', 'Box') and f['crate'] != self.p.d['crate']:
            v = self.deref(st, a[0])
            return [(st, v if v[0] == 'ref' else a[0])]
        return None

    tr_AsMut_as_mut = tr_AsRef_as_ref

    def tr_From_from(self, st, f, a, o):
        if f['crate'] in ('core',) and f.get('body'):
            return None
        t = self.T[o] if o is not None else {}
        src = f['args'][-1] if f.get('args') else None
        p = t.get('path', '')
        s = self.T[f['sig_in'][0]]
        v = a[0]
        if p.endswith('string::String') or p == COW:
            if s['s'] == 'char':
                return [(st, self.char_string(st, v))]
            v = self.deep(st, v)
            if p == COW:
                self.cow_seen(v, 1 if s.get('path', '').endswith('string::String') else 0)
            return [(st, v)]
        if p.endswith('vec::Vec'):
            return [(st, self.deep(st, v))]
        if p.endswith('boxed::Box'):
            return [(st, v)]
        if p == OPT:
            return [(st, some(v))]
        if p.endswith('HashMap') and v[0] == 'L':
            m = ('mnew',)
            for e in v[1]:
                m = self.map_set(m, e[1][0], e[1][1])
            return [(st, m)]
        return None

    def char_string(self, st, v):
        if v[0] == 'c':
            return S(chr(v[1]))
        if v[0] == 'chr':
            return ('seg', v[1], v[2])
        return op('tostr', v)

    def tr_TryFrom_try_from(self, st, f, a, o):
        return None

    def tr_FromStr_from_str(self, st, f, a, o):
        if f['crate'] == self.p.d['crate']:
            return None
        res = self.T[o]
        return self.do_parse(st, res['args'][0], a[0], o)

    def tr_PartialEq_eq(self, st, f, a, o):
        if f['crate'] == self.p.d['crate']:
            return None
        if f.get('body') and f['crate'] == 'core':
            x = self.deep(st, a[0])
            if not self.is_strlike(x) and not (x[0] in ('L', 'sfx', 'rep', 'cat')):
                return None
        x, y = self.deep(st, a[0]), self.deep(st, a[1])
        if self.is_strlike(x) or self.is_strlike(y):
            return [(st, self.streq(x, y, None))]
        if x[0] == 'L' and y[0] == 'L':
            if len(x[1]) != len(y[1]):
                return [(st, B(False))]
            r = self.list_eq(st, x[1], y[1])
            if r is not None:
                return r
            if x == y:
                return [(st, B(True))]
        return [(st, op('eqv', x, y))]

    def list_eq(self, st, xs, ys):
        """element by element, with the element type's own equality"""
        cur, out = [st], []
        for a, b in zip(xs, ys):
            nxt = []
            for s in cur:
                if a[0] == b[0] and a[0] in ('i', 'c', 's', 'b', 'fl'):
                    v = (float(a[1]) == float(b[1])) if a[0] == 'fl' else a == b
                    (nxt if v else out).append(s if v else (s, B(False)))
                    continue
                if a[0] == b[0] == 'A' and a[1] == b[1] and a[1].startswith('crate::'):
                    key = self.impl_key('std::cmp::PartialEq', 'eq', a[1].replace('crate::', ''))
                    if key is None:
                        return None
                    for s2, v in self.exec_fn(s, self.p.F[key], [kref(a), kref(b)]):
                        if v[0] == 'b':
                            (nxt if v[1] else out).append(s2 if v[1] else (s2, v))
                        else:
                            for s3, t in self.truth(s2, v):
                                (nxt if t else out).append(s3 if t else (s3, B(False)))
                    continue
                return None
            cur = nxt
        return [(s, B(True)) for s in cur] + out

    def impl_key(self, tr, m, short):
        for r in self.p.d['roots']:
            if r["name"] == m and r["impl"] and r["impl"]["self"] == short and r["impl"]["trait"] == tr and r.get("key") in self.p.F:
                return r['key']
        return None

    def tr_PartialEq_ne(self, st, f, a, o):
        x, y = self.deep(st, a[0]), self.deep(st, a[1])
        if f['crate'] != self.p.d['crate'] and (self.is_strlike(x) and self.is_strlike(y)):
            r = self.streq(x, y, None)
            return [(st, B(not r[1]) if r[0] == 'b' else op('Not', r))]
        return None

    def streq(self, a, b, mode):
        if a[0] == 's' and b[0] == 's':
            x, y = a[1], b[1]
            if mode == 'ci':
                return B(len(x) == len(y) and all((p.lower() if p.isascii() else p) == (q.lower() if q.isascii() else q) for p, q in zip(x, y)))
            return B(x == y)
        return op('streq', a, b, ('m', mode))

    # ---------------------------------------------------------------- strings
    def sv(self, st, v):
        return self.deep(st, v)

    def in_str_eq_ignore_ascii_case(self, st, f, a, o):
        return [(st, self.streq(self.sv(st, a[0]), self.sv(st, a[1]), 'ci'))]

    def in_str_to_lowercase(self, st, f, a, o):
        return [(st, self.case_op(st, 'lower', self.sv(st, a[0])))]

    def in_str_to_uppercase(self, st, f, a, o):
        return [(st, self.case_op(st, 'upper', self.sv(st, a[0])))]

    def in_str_to_ascii_lowercase(self, st, f, a, o):
        return [(st, self.case_op(st, 'alower', self.sv(st, a[0])))]

    def in_str_to_ascii_uppercase(self, st, f, a, o):
        return [(st, self.case_op(st, 'aupper', self.sv(st, a[0])))]

    def in_str_make_ascii_lowercase(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        self.write(st, a[0][1], a[0][2], self.case_op(st, 'alower', v))
        return [(st, UNIT)]

    def in_str_to_string(self, st, f, a, o):
        return [(st, self.sv(st, a[0]))]

    in_str_to_owned = in_str_into_string = in_String_into_string = in_Cow_into_owned = in_Cow_to_mut_x = in_str_to_string
    in_str_into_boxed_str = in_String_into_boxed_str = in_str_to_string

    def in_Cow_into_owned(self, st, f, a, o):
        return [(st, self.sv(st, a[0]))]

    def in_str_is_ascii(self, st, f, a, o):
        v = self.sv(st, a[0])
        cs = self.str_charset(st, v)
        if cs is not None and CS.subset(cs, CS.ASCII):
            return [(st, B(True))]
        return [(st, op('isascii', v))]

    def in_str_parse(self, st, f, a, o):
        return self.do_parse(st, f['args'][0], a[0], o)

    def do_parse(self, st, ty, v, o):
        t = self.deep(st, v)
        r = self.parse_num(st, ty, t)
        if r is None:
            want = self.T[ty]
            return None
        errty = self.T[o]['args'][1] if self.T[o].get('args') and len(self.T[o]['args']) > 1 else None
        return [(s, ok(x) if x is not None else err(('sym', 'parse-error', errty))) for s, x in r]

    def in_String_new(self, st, f, a, o):
        return [(st, S(''))]

    def in_String_with_capacity(self, st, f, a, o):
        return [(st, S(''))]

    def in_String_push_str(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        self.write(st, a[0][1], a[0][2], self.scat(st, [v, self.sv(st, a[1])]))
        return [(st, UNIT)]

    def in_String_push(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        self.write(st, a[0][1], a[0][2], self.scat(st, [v, self.char_string(st, a[1])]))
        return [(st, UNIT)]

    def in_String_insert_str(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        if a[1] != I(0):
            return None
        self.write(st, a[0][1], a[0][2], self.scat(st, [self.sv(st, a[2]), v]))
        return [(st, UNIT)]

    def in_String_insert(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        if a[1] != I(0):
            return None
        self.write(st, a[0][1], a[0][2], self.scat(st, [self.char_string(st, a[2]), v]))
        return [(st, UNIT)]

    def in_String_clear(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], S(''))
        return [(st, UNIT)]

    def tr_Add_add(self, st, f, a, o):
        if self_group(f.get('implself', '')) == 'String':
            return [(st, self.scat(st, [self.sv(st, a[0]), self.sv(st, a[1])]))]
        return None

    def tr_AddAssign_add_assign(self, st, f, a, o):
        if self_group(f.get('implself', '')) in ('String', 'Cow'):
            return self.in_String_push_str(st, f, a, o)
        return None

    def tr_ToString_to_string(self, st, f, a, o):
        if f['crate'] == self.p.d['crate']:
            return None
        v = self.deep(st, a[0])
        if self.is_strlike(v):
            return [(st, v)]
        t = self.T[f['args'][0]] if f.get('args') else None
        if v[0] == 'c' or v[0] == 'chr':
            return [(st, self.char_string(st, v))]
        if v[0] == 'i':
            return [(st, S(str(v[1])))]
        if t and t['k'] == 'prim':
            return [(st, op('tostr', v))]
        return [(st, ('sym', self.fresh('tostring'), o))]

    WS = CS.UWS

    def in_str_trim(self, st, f, a, o):
        return [(s, kref(t)) for s, t in self.trim(st, self.sv(st, a[0]), 'both', self.WS)]

    def in_str_trim_start(self, st, f, a, o):
        return [(s, kref(t)) for s, t in self.trim(st, self.sv(st, a[0]), 'start', self.WS)]

    def in_str_trim_end(self, st, f, a, o):
        return [(s, kref(t)) for s, t in self.trim(st, self.sv(st, a[0]), 'end', self.WS)]

    def trim_pat(self, st, a, what):
        cs = self.pred_set(st, a[1])
        if cs is None:
            return None
        return [(s, kref(t)) for s, t in self.trim(st, self.sv(st, a[0]), what, cs)]

    def in_str_trim_matches(self, st, f, a, o):
        return self.trim_pat(st, a, 'both')

    def in_str_trim_start_matches(self, st, f, a, o):
        if self.deep(st, a[1])[0] == 's' and len(self.deep(st, a[1])[1]) != 1:
            return None
        return self.trim_pat(st, a, 'start')

    def in_str_trim_end_matches(self, st, f, a, o):
        if self.deep(st, a[1])[0] == 's' and len(self.deep(st, a[1])[1]) != 1:
            return None
        return self.trim_pat(st, a, 'end')

    def prefix_common(self, st, a):
        """[(state, bool, rest term)]"""
        v = self.sv(st, a[0])
        p = self.deep(st, a[1])
        if v[0] == 's' and p[0] == 's':
            b = v[1].startswith(p[1])
            return [(st, b, S(v[1][len(p[1]):]) if b else None)]
        if v[0] == 'str' or v[0] == 'span':
            mk = (lambda e: ('str', v[1], e)) if v[0] == 'str' else (lambda e: ('span', v[1], e, v[3]))
            if p[0] == 's' and v[0] == 'str':
                return [(s, e is not None, mk(e) if e is not None else None)
                        for s, e, _ in self.match_prefix(st, v[1], v[2], p[1])]
            cs = self.pred_set(st, a[1]) if p[0] != 's' else (CS.of(p[1]) if len(p[1]) == 1 else None)
            if cs is None:
                return None
            out = []
            fs = self.split_first(st, v[1], v[2]) if v[0] == 'str' else self.split_within(st, v[1], v[2], v[3])
            for s, g in fs:
                if g is None:
                    out.append((s, False, None))
                    continue
                x = self.seg_of(s, v[1], g)
                t = ('chr', v[1], g, self.char_ty())
                y, n = CS.inter(x[1], cs), CS.diff(x[1], cs)
                if y:
                    out.append((self.refine_char(s, t, y), True, mk(g)))
                if n:
                    out.append((self.refine_char(s, t, n), False, None))
            return out
        return None

    def in_str_starts_with(self, st, f, a, o):
        r = self.prefix_common(st, a)
        if r is None:
            return [(st, op('starts_with', self.sv(st, a[0]), self.deep(st, a[1])))]
        return [(s, B(b)) for s, b, _ in r]

    def in_str_strip_prefix(self, st, f, a, o):
        r = self.prefix_common(st, a)
        if r is None:
            return None
        return [(s, some(kref(t)) if b else NONE) for s, b, t in r]

    def in_str_contains(self, st, f, a, o):
        v = self.sv(st, a[0])
        p = self.deep(st, a[1])
        if v[0] == 's' and p[0] == 's':
            return [(st, B(p[1] in v[1]))]
        cs = self.str_charset(st, v)
        if cs is not None:
            pc = self.pred_set(st, a[1]) if p[0] != 's' else (CS.of(p[1][0]) if p[1] else None)
            if pc is not None and not CS.inter(cs, pc):
                return [(st, B(False))]
            if p[0] != 's' or len(p[1]) == 1:
                for q in self.pieces(st, v):
                    if q[0] == 'seg' and q[4] >= 1 and CS.subset(q[3], pc):
                        return [(st, B(True))]
                    if q[0] == 'lit' and any(CS.inter(CS.of(c), pc) for c in q[1]):
                        return [(st, B(True))]
        return [(st, op('contains', v, p))]

    def split_parts(self, st, v, cs, ws):
        """term of the sequence of parts of v between characters of cs (ws: only non-empty parts)"""
        r = self.split_parts1(st, v, cs, ws)
        if r[0] == 'op':
            w = self.concrete(st, v)
            if w[0] == 's':
                return self.split_parts1(st, w, cs, ws)
        return r

    def split_parts1(self, st, v, cs, ws):
        if v[0] == 's':
            parts, cur = [], ''
            for ch in v[1]:
                if CS.inter(cs, CS.of(ch)):
                    parts.append(cur)
                    cur = ''
                else:
                    cur += ch
            parts.append(cur)
            return ('L', tuple(kref(S(x)) for x in parts if x or not ws))
        opq = op('splitws' if ws else 'split', v, ('cs', cs))
        if v[0] == 'str':
            Sn, a0 = v[1], v[2]
            gs = self.rest_segs(st, Sn, a0)
        elif v[0] == 'span':
            Sn, a0 = v[1], v[2]
            gs = self.segs(st, Sn)[self.seg_index(st, Sn, a0):self.seg_index(st, Sn, v[3])]
        else:
            return opq
        parts, pos, cur, empty = [], a0, a0, True
        for g, c, mn, mx in gs:
            if mx == 0:
                pos = g
                continue
            if not CS.inter(c, cs):
                if mn == 0 and ws:
                    if empty:
                        return opq
                empty = False
            elif CS.subset(c, cs):
                if not ws and mn != mx:
                    return opq
                if mn == 0:
                    return opq
                if not (ws and empty):
                    parts.append(S('') if cur == pos else ('span', Sn, cur, pos))
                if not ws:
                    parts += [S('')] * (mn - 1)
                cur, empty = g, True
            else:
                return opq
            pos = g
        if not (ws and empty):
            parts.append(S('') if cur == pos else ('span', Sn, cur, pos))
        return ('L', tuple(kref(x) for x in parts))

    def in_str_split(self, st, f, a, o):
        cs = self.pred_set(st, a[1])
        p = self.deep(st, a[1])
        if cs is None or (p[0] == 's' and len(p[1]) != 1):
            return self.split_str(st, f, a, o)
        return [(st, ('iter', 'val', self.split_parts(st, self.sv(st, a[0]), cs, False), 0, self.str_ref_ty()))]

    def in_str_split_whitespace(self, st, f, a, o):
        return [(st, ('iter', 'val', self.split_parts(st, self.sv(st, a[0]), CS.UWS, True), 0, self.str_ref_ty()))]

    def in_str_split_ascii_whitespace(self, st, f, a, o):
        return [(st, ('iter', 'val', self.split_parts(st, self.sv(st, a[0]), CS.of(' \t\n\r\x0c'), True), 0, self.str_ref_ty()))]

    def str_ref_ty(self):
        if not hasattr(self, '_strref'):
            self._strref = next((i for i, t in enumerate(self.T) if t and t['s'] in ('&str', "&'{erased} str") or
                                 t and t['k'] == 'ref' and self.T[t.get('inner', t.get('elem', 0))]['s'] == 'str'), None)
        return self._strref

    def in_str_chars(self, st, f, a, o):
        return [(st, ('ichars', self.sv(st, a[0])))]

    def in_str_bytes(self, st, f, a, o):
        return None

    def in_str_as_bytes(self, st, f, a, o):
        return None

    def in_str_replace(self, st, f, a, o):
        v = self.sv(st, a[0])
        p = self.deep(st, a[1])
        cs = self.str_charset(st, v)
        pc = self.pred_set(st, a[1]) if p[0] != 's' else (CS.of(p[1][0]) if p[1] else None)
        if cs is not None and pc is not None and not CS.inter(cs, pc):
            return [(st, v)]
        return [(st, op('replace', v, p, self.deep(st, a[2])))]

    # chars -------------------------------------------------------------
    def char_pred(name):
        def m(self, st, f, a, o):
            v = self.deep(st, a[0])
            cs = CS.cls(name)
            if cs is None:
                return None
            if v[0] == 'c':
                return [(st, B(bool(CS.inter(cs, ((v[1], v[1]),)))))]
            if self.char_cs(st, v) is None:
                return None
            return [(st, op('inset', v, ('cs', cs)))]
        return m

    for _n in ['is_ascii_digit', 'is_whitespace', 'is_ascii_whitespace', 'is_ascii_alphabetic', 'is_ascii_alphanumeric',
               'is_ascii', 'is_control', 'is_ascii_control', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_graphic',
               'is_ascii_punctuation', 'is_ascii_hexdigit', 'is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_uppercase',
               'is_lowercase']:
        locals()['in_char_' + _n] = char_pred(_n)

    def in_char_is_digit(self, st, f, a, o):
        v = self.deep(st, a[0])
        if a[1] == I(10):
            if v[0] == 'c':
                return [(st, B(48 <= v[1] <= 57))]
            return [(st, op('inset', v, ('cs', CS.DIGIT)))]
        return None

    def char_case(o_):
        def m(self, st, f, a, o):
            v = self.deep(st, a[0])
            if v[0] == 'c' and v[1] < 128:
                return [(st, ('c', ord(chr(v[1]).lower() if 'lower' in o_ else chr(v[1]).upper())))]
            return [(st, op(o_, v, ty=self.char_ty()))]
        return m
    in_char_to_ascii_lowercase = char_case('calower')
    in_char_to_ascii_uppercase = char_case('caupper')

    def in_char_eq_ignore_ascii_case(self, st, f, a, o):
        x, y = self.deep(st, a[0]), self.deep(st, a[1])
        if y[0] == 'c' and y[1] < 128:
            cs = CS.of(chr(y[1]).lower() + chr(y[1]).upper())
            if x[0] == 'c':
                return [(st, B(bool(CS.inter(cs, ((x[1], x[1]),)))))]
            return [(st, op('inset', x, ('cs', cs)))]
        return None

    def in_char_len_utf8(self, st, f, a, o):
        v = self.deep(st, a[0])
        cs = self.char_cs(st, v)
        if cs and u8len(cs) == u8len(cs, False):
            return [(st, I(u8len(cs)))]
        return None

    # ---------------------------------------------------------------- maps
    def keycmp(self, st, a, b):
        """'eq' | 'ne' | None for two map keys"""
        if a == b:
            return 'eq'
        if a[0] in ('s', 'span', 'str', 'cat', 'seg') and b[0] in ('s', 'span', 'str', 'cat', 'seg'):
            try:
                p, q = self.pieces(st, a), self.pieces(st, b)
            except Undecided:
                return None
            if p == q:
                return 'eq'
            if all(x[0] == 'lit' for x in p + q):
                return 'ne'

            def first(ps):
                cs = ()
                for x in ps:
                    if x[0] == 'lit':
                        return CS.union(cs, CS.of(x[1][0]))
                    if x[0] != 'seg':
                        return None
                    cs = CS.union(cs, x[3])
                    if x[4] >= 1:
                        return cs
                return None
            f, g = first(p), first(q)
            if f is not None and g is not None and not CS.inter(f, g):
                return 'ne'
            if self.str_disjoint(st, a, b):
                return 'ne'
        if a[0] == b[0] and a[0] in ('i', 'b', 'c') and a != b:
            return 'ne'
        for t in (op('eqv', a, b), op('eqv', b, a), op('streq', a, b, ('m', None)), op('streq', b, a, ('m', None))):
            f = st.facts.get(('atom', t))
            if f is not None:
                return 'eq' if f else 'ne'
        return None

    def map_cases(self, st, v, key):
        """in a scenario: decide whether `key` equals each key of the map (one state per case)"""
        if not self.scenario:
            return [st]
        cur = [st]
        while v[0] == 'mset':
            nxt = []
            for s in cur:
                if self.keycmp(s, v[2], key) is not None:
                    nxt.append(s)
                    continue
                nxt += [s2 for s2, b in self.eq_fork(s, v[2], key)]
            cur = nxt
            v = v[1]
        return cur

    def map_entries(self, st, v):
        """[(key, value)] of a fully resolved map in insertion order, or None"""
        ch = []
        while v[0] == 'mset':
            for k, _ in ch:
                c = self.keycmp(st, k, v[2])
                if c == 'eq':
                    break
                if c is None:
                    return None
            else:
                ch.append((v[2], v[3]))
            v = v[1]
        return ch[::-1] if v[0] == 'mnew' else None

    def map_get_val(self, st, v, key, default, ty):
        if v[0] == 'mnew':
            return default if default is not None else ('uninit', 'absent', ty)
        if v[0] == 'mset':
            c = self.keycmp(st, v[2], key)
            if c == 'eq':
                return v[3]
            if c == 'ne':
                return self.map_get_val(st, v[1], key, default, ty)
        return ('mget', v, key, default, ty)

    def map_set(self, v, key, val, st=None):
        if v[0] == 'mset':
            if v[2] == key:
                return ('mset', v[1], key, val)
            c = self.keycmp(st, v[2], key) if st is not None else None
            if c == 'eq':
                return ('mset', v[1], v[2], val)
            if c == 'ne':
                return ('mset', self.map_set(v[1], key, val, st), v[2], v[3])
        return ('mset', v, key, val)

    def in_HashMap_new(self, st, f, a, o):
        return [(st, ('mnew',))]

    in_HashMap_with_capacity = in_BTreeMap_new = in_HashMap_new

    def map_vty(self, f, k=1):
        a = f.get('args') or []
        return a[k] if len(a) > k else None

    def in_HashMap_entry(self, st, f, a, o):
        key = self.deep(st, a[1])
        v = self.read(st, a[0][1], a[0][2])
        return [(s, ('entry', a[0][1], a[0][2], key)) for s in self.map_cases(st, v, key)]

    in_BTreeMap_entry = in_HashMap_entry

    def entry_get(self, st, e, default, ty):
        st = st.copy()
        _, cell, path, key = e
        v = self.read(st, cell, path)
        cur = self.map_get_val(st, v, key, default, ty)
        self.write(st, cell, path, self.map_set(v, key, cur, st))
        return [(st, ('ref', cell, path + (('ent', key, default, ty),)))]

    def in_Entry_or_default(self, st, f, a, o):
        ty = self.map_vty(f)
        return self.entry_get(st, a[0], self.default_of(st, ty), ty)

    def in_Entry_or_insert(self, st, f, a, o):
        return self.entry_get(st, a[0], a[1], self.map_vty(f))

    def in_Entry_or_insert_with(self, st, f, a, o):
        out = []
        for s, v in self.call_value(st, a[1], []):
            out += self.entry_get(s, a[0], v, self.map_vty(f))
        return out

    def in_Entry_or_insert_with_key(self, st, f, a, o):
        out = []
        for s, v in self.call_value(st, a[1], [kref(a[0][3])]):
            out += self.entry_get(s, a[0], v, self.map_vty(f))
        return out

    def in_Entry_and_modify(self, st, f, a, o):
        e = a[0]
        ty = self.map_vty(f)
        out = []
        for s, b in self.has_key(st, self.read(st, e[1], e[2]), e[3]):
            if b:
                r = ('ref', e[1], e[2] + (('ent', e[3], None, ty),))
                out += [(s2, e) for s2, _ in self.call_value(s, a[1], [r])]
            else:
                out.append((s, e))
        return out

    def in_Entry_key(self, st, f, a, o):
        e = self.rd(st, a[0])
        return [(st, kref(e[3]))]

    in_OccupiedEntry_key = in_VacantEntry_key = in_Entry_key

    def in_VacantEntry_into_key(self, st, f, a, o):
        return [(st, a[0][3])]

    def in_OccupiedEntry_get(self, st, f, a, o):
        e = self.rd(st, a[0])
        return [(st, ('ref', e[1], e[2] + (('ent', e[3], None, self.map_vty(f)),)))]

    in_OccupiedEntry_get_mut = in_OccupiedEntry_get

    def in_OccupiedEntry_into_mut(self, st, f, a, o):
        e = a[0]
        return [(st, ('ref', e[1], e[2] + (('ent', e[3], None, self.map_vty(f)),)))]

    def in_VacantEntry_insert(self, st, f, a, o):
        e = a[0]
        return self.entry_get(st, e, a[1], self.map_vty(f))

    def in_VacantEntry_insert_entry(self, st, f, a, o):
        return [(s, a[0]) for s, _ in self.entry_get(st, a[0], a[1], self.map_vty(f))]

    def in_Entry_insert_entry(self, st, f, a, o):
        e = a[0]
        st = st.copy()
        self.write(st, e[1], e[2], self.map_set(self.read(st, e[1], e[2]), e[3], a[1], st))
        return [(st, e)]

    def in_OccupiedEntry_insert(self, st, f, a, o):
        e = self.rd(st, a[0])
        st = st.copy()
        v = self.read(st, e[1], e[2])
        old = self.map_get_val(st, v, e[3], None, self.map_vty(f))
        self.write(st, e[1], e[2], self.map_set(v, e[3], a[1], st))
        return [(st, old)]

    def in_OccupiedEntry_remove(self, st, f, a, o):
        e = a[0]
        st = st.copy()
        v = self.read(st, e[1], e[2])
        old = self.map_get_val(st, v, e[3], None, self.map_vty(f))
        self.write(st, e[1], e[2], self.map_del(st, v, e[3]))
        return [(st, old)]

    def map_del(self, st, v, key):
        es = self.map_entries(st, v)
        if es is None or any(self.keycmp(st, k, key) is None for k, _ in es):
            return op('mdel', v, key, ty=self.ty_of(v))
        m = ('mnew',)
        for k, x in es:
            if self.keycmp(st, k, key) == 'ne':
                m = ('mset', m, k, x)
        return m

    def map_iter(self, st, f, a, o, what, mode):
        v = self.read(st, a[0][1], a[0][2]) if a[0][0] == 'ref' else a[0]
        es = self.map_entries(st, v) if self.scenario else None
        if es is None:
            return None
        ty = self.map_vty(f)
        out = []
        for k, x in es:
            if mode == 'mut':
                r = ('ref', a[0][1], a[0][2] + (('ent', k, None, ty),))
            else:
                r = x if mode == 'val' else kref(x)
            kk = k if mode == 'val' else kref(k)
            out.append({'items': ('T', (kk, r)), 'keys': kk, 'values': r}[what])
        # the order is unspecified: the insertion order and its reverse stand for all orders
        rs = [(st, ('iter', 'val', ('L', tuple(out)), 0, None))]
        if len(out) > 1 and self.map_order == 'rev':
            rs = []
        if len(out) > 1 and self.map_order != 'fwd':
            rs.append((st.copy(), ('iter', 'val', ('L', tuple(out[::-1])), 0, None)))
        return rs

    def in_HashMap_iter(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'items', 'ref')

    def in_HashMap_iter_mut(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'items', 'mut')

    def in_HashMap_keys(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'keys', 'ref')

    def in_HashMap_values(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'values', 'ref')

    def in_HashMap_values_mut(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'values', 'mut')

    def in_HashMap_into_iter(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'items', 'val')

    def in_HashMap_into_values(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'values', 'val')

    def in_HashMap_into_keys(self, st, f, a, o):
        return self.map_iter(st, f, a, o, 'keys', 'val')

    in_HashMap_drain = in_HashMap_into_iter

    def in_HashMap_len(self, st, f, a, o):
        es = self.map_entries(st, self.rd(st, a[0]))
        return None if es is None else [(st, I(len(es)))]

    def in_HashMap_is_empty(self, st, f, a, o):
        v = self.rd(st, a[0])
        if v[0] in ('mnew', 'mset'):
            return [(st, B(v[0] == 'mnew'))]
        return None

    def in_HashMap_insert(self, st, f, a, o):
        v = self.read(st, a[0][1], a[0][2])
        key = self.deep(st, a[1])
        out = []
        for s in self.map_cases(st, v, key):
            out += self.map_insert(s, f, a, o)
        return out

    def map_insert(self, st, f, a, o):
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        key = self.deep(st, a[1])
        self.write(st, a[0][1], a[0][2], self.map_set(v, key, a[2], st))
        h = self.has_key(st, v, key)
        if len(h) == 1:
            return [(st, some(self.map_get_val(st, v, key, None, self.map_vty(f))) if h[0][1] else NONE)]
        return [(st, ('sym', self.fresh('old'), o))]

    in_BTreeMap_insert = in_HashMap_insert

    def has_key(self, st, v, key):
        if v[0] == 'mnew':
            return [(st, False)]
        if v[0] == 'mset':
            c = self.keycmp(st, v[2], key)
            if c == 'eq':
                return [(st, True)]
            if c == 'ne':
                return self.has_key(st, v[1], key)
            if self.scenario:
                out = []
                for s in self.map_cases(st, v, key):
                    out += self.has_key(s, v, key)
                return out
        return self.truth_atom(st, op('haskey', v, key))

    def in_HashMap_contains_key(self, st, f, a, o):
        v, key = self.rd(st, a[0]), self.deep(st, a[1])
        return [(s, B(b)) for s, b in self.has_key(st, v, key)]

    def in_HashMap_get(self, st, f, a, o):
        v, key = self.rd(st, a[0]), self.deep(st, a[1])
        ty = self.map_vty(f)
        return [(s, some(kref(self.map_get_val(s, v, key, None, ty))) if b else NONE) for s, b in self.has_key(st, v, key)]

    def in_HashMap_get_mut(self, st, f, a, o):
        v, key = self.rd(st, a[0]), self.deep(st, a[1])
        ty = self.map_vty(f)
        return [(s, some(('ref', a[0][1], a[0][2] + (('ent', key, None, ty),))) if b else NONE)
                for s, b in self.has_key(st, v, key)]

    in_BTreeMap_get = in_HashMap_get
    in_BTreeMap_get_mut = in_HashMap_get_mut
    in_BTreeMap_contains_key = in_HashMap_contains_key

    def in_HashMap_remove(self, st, f, a, o):
        if self.scenario:
            out = []
            v, key = self.read(st, a[0][1], a[0][2]), self.deep(st, a[1])
            for s, b in self.has_key(st, v, key):
                old = some(self.map_get_val(s, v, key, None, self.map_vty(f))) if b else NONE
                s = s.copy()
                self.write(s, a[0][1], a[0][2], self.map_del(s, v, key))
                out.append((s, old))
            return out
        st = st.copy()
        v = self.read(st, a[0][1], a[0][2])
        self.write(st, a[0][1], a[0][2], op('mdel', v, self.deep(st, a[1]), ty=self.ty_of(v)))
        return [(st, ('sym', self.fresh('old'), o))]

    def in_HashMap_clear(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], ('mnew',))
        return [(st, UNIT)]

    # ---------------------------------------------------------------- Box
    def in_Box_new_uninit(self, st, f, a, o):
        st = st.copy()
        c = self.new_cell(st, ('uninit', 'box', None))
        return [(st, ('ref', c, ()))]

    def in_Box_new(self, st, f, a, o):
        st = st.copy()
        c = self.new_cell(st, a[0])
        return [(st, ('ref', c, ()))]

    def in_Box_write(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], a[1])
        return [(st, a[0])]

    in_Rc_new = in_Arc_new = in_Box_new

    # ---------------------------------------------------------------- fmt
    def in_Arguments_from_str(self, st, f, a, o):
        v = self.deep(st, a[0])
        return [(st, ('fmtargs', v if self.is_strlike(v) else None))]

    def in_Arguments_new(self, st, f, a, o):
        """format_args!: the template byte string (literal pieces and placeholders, see
        core::fmt::Arguments) applied to the displayed arguments"""
        try:
            tpl = self.deep(st, a[0])
            args = self.deep(st, a[1])
            if tpl[0] != 'L' or args[0] != 'L' or not all(x[0] == 'i' for x in tpl[1]):
                return [(st, ('fmtargs', None))]
            bs = bytes(x[1] for x in tpl[1])
            i, out, nxt = 0, [], 0
            while i < len(bs):
                c = bs[i]
                i += 1
                if c == 0:
                    break
                if c < 0x80:
                    out.append(S(bs[i:i + c].decode()))
                    i += c
                elif c == 0x80:
                    n = bs[i] | bs[i + 1] << 8
                    out.append(S(bs[i + 2:i + 2 + n].decode()))
                    i += 2 + n
                elif c in (0xC0, 0xC8):
                    k = nxt
                    if c == 0xC8:
                        k = bs[i] | bs[i + 1] << 8
                        i += 2
                    nxt = k + 1
                    v = args[1][k]
                    if v[0] != 'fmtarg' or v[1] is None:
                        return [(st, ('fmtargs', None))]
                    out.append(v[1])
                else:
                    return [(st, ('fmtargs', None))]
            return [(st, ('fmtargs', self.scat(st, out)))]
        except (IndexError, UnicodeDecodeError, KeyError):
            return [(st, ('fmtargs', None))]

    def in_Arguments_new_v1(self, st, f, a, o):
        return [(st, ('fmtargs', None))]

    in_Arguments_new_v1_formatted = in_Arguments_new_v1

    def in_Arguments_new_const(self, st, f, a, o):
        return [(st, ('fmtargs', None))]

    def in_Argument_new_display(self, st, f, a, o):
        v = self.deep(st, a[0])
        if self.is_strlike(v):
            return [(st, ('fmtarg', v))]
        if v[0] == 'i':
            return [(st, ('fmtarg', S(str(v[1]))))]
        return [(st, ('fmtarg', None))]

    def in_Argument_new_debug(self, st, f, a, o):
        return [(st, ('fmtarg', None))]

    in_Argument_new_lower_exp = in_Argument_new_debug


    def in_Formatter_write_fmt(self, st, f, a, o):
        return [(st, ('sym', self.fresh('fmtres'), o))]

    in_Formatter_write_str = in_Formatter_write_fmt
    in_Formatter_pad = in_Formatter_write_fmt
    in_Formatter_debug_struct_field1_finish = in_Formatter_debug_struct_field2_finish = in_Formatter_write_fmt
    in_Formatter_debug_struct_field3_finish = in_Formatter_debug_struct_field4_finish = in_Formatter_write_fmt
    in_Formatter_debug_struct_field5_finish = in_Formatter_debug_struct_fields_finish = in_Formatter_write_fmt
    in_Formatter_debug_tuple_field1_finish = in_Formatter_debug_tuple_field2_finish = in_Formatter_write_fmt
    in_Formatter_debug_tuple_field3_finish = in_Formatter_debug_tuple_fields_finish = in_Formatter_write_fmt

    def tr_Display_fmt(self, st, f, a, o):
        return [(st, ('sym', self.fresh('fmtres'), o))] if f['crate'] != self.p.d['crate'] else None

    tr_Debug_fmt = tr_Display_fmt

    def tr_AsDisplay_as_display(self, st, f, a, o):
        return [(st, a[0])]

    def tr_AsDynError_as_dyn_error(self, st, f, a, o):
        return [(st, a[0])]

    # numbers -----------------------------------------------------------
    def num1(name):
        def m(self, st, f, a, o):
            v = self.deep(st, a[0])
            return [(st, op(name, v, ty=o))]
        return m
    for _n in ['abs', 'floor', 'ceil', 'round', 'trunc', 'sqrt', 'fract', 'signum', 'recip']:
        locals()['in_f32_' + _n] = num1(_n)
    in_i32_unsigned_abs = num1('abs')
    in_i32_abs = num1('abs')

    def clampm(self, st, f, a, o):
        v, lo, hi = a
        if v[0] == 'fl' or (self.T[o]['s'] in ('f32', 'f64')):
            return [(st, op('clamp', v, lo, hi, ty=o))]
        out = []
        c = self.truth_cmp(st, 'Lt', v, lo)
        if c is None:
            return [(st, op('clamp', v, lo, hi, ty=o))]
        for s, b in c:
            if b:
                out.append((s, lo))
                continue
            d = self.truth_cmp(s, 'Gt', v, hi)
            for s2, b2 in d:
                out.append((s2, hi if b2 else v))
        return out

    def in_f32_clamp(self, st, f, a, o):
        return self.clampm(st, f, a, o)

    def tr_Ord_clamp(self, st, f, a, o):
        return self.clampm(st, f, a, o)

    in_i32_clamp = in_f32_clamp

    def tr_Ord_min(self, st, f, a, o):
        return self.minmax(st, 'min', a[0], a[1], o)

    def tr_Ord_max(self, st, f, a, o):
        return self.minmax(st, 'max', a[0], a[1], o)

    def in_f32_min(self, st, f, a, o):
        return [(st, op('min', a[0], a[1], ty=o))]

    def in_f32_max(self, st, f, a, o):
        return [(st, op('max', a[0], a[1], ty=o))]

    def in_f32_copysign(self, st, f, a, o):
        return [(st, op('copysign', a[0], a[1], ty=o))]

    def checked(opn):
        def m(self, st, f, a, o):
            ity = self.T[o]['args'][0]
            x = a[0]
            y = a[1] if len(a) > 1 else None
            if opn == 'neg':
                r = self.neg(x, ity)
            else:
                r = self.binop(st, opn, x, y, ity)
            lo, hi = self.rng(st, r)
            l2, h2 = self.int_bounds(ity)
            if lo is not None and hi is not None and l2 <= lo and hi <= h2:
                return [(st, some(r))]
            t = op('overflow', r)
            return [(s, NONE if b else some(r)) for s, b in self.truth_atom(st, t)]
        return m
    for _t in ['i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'i128', 'u128']:
        for _o, _b in [('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('neg', 'neg')]:
            locals()['in_%s_checked_%s' % (_t, _o)] = checked(_b)

    def wrapping(opn):
        def m(self, st, f, a, o):
            r = self.neg(a[0], o) if opn == 'neg' else self.binop(st, opn, a[0], a[1], o)
            lo, hi = self.rng(st, r)
            l2, h2 = self.int_bounds(o)
            if lo is not None and hi is not None and l2 is not None and l2 <= lo and hi <= h2:
                return [(st, r)]
            return [(st, op('wrap', r, ty=o))]
        return m

    def saturating(opn):
        def m(self, st, f, a, o):
            r = self.binop(st, opn, a[0], a[1], o)
            lo, hi = self.rng(st, r)
            l2, h2 = self.int_bounds(o)
            if lo is not None and hi is not None and l2 is not None and l2 <= lo and hi <= h2:
                return [(st, r)]
            return [(st, op('sat', r, ty=o))]
        return m
    for _t in ['i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'i128', 'u128']:
        for _o, _b in [('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')]:
            locals()['in_%s_wrapping_%s' % (_t, _o)] = wrapping(_b)
            locals()['in_%s_saturating_%s' % (_t, _o)] = saturating(_b)
        locals()['in_%s_wrapping_neg' % _t] = wrapping('neg')

    def tr_Neg_neg(self, st, f, a, o):
        return [(st, self.neg(self.deep(st, a[0]), o))]

    def tr_Mul_mul(self, st, f, a, o):
        return [(st, self.binop(st, 'Mul', self.deep(st, a[0]), self.deep(st, a[1]), o))]

    # ---------------------------------------------------------------- iterators
    def in_slice_iter(self, st, f, a, o):
        v = self.rd(st, a[0])
        return [(st, ('iter', 'ref', v, 0, self.slice_elem_of(f)))]

    in_Vec_iter = in_slice_iter

    def in_slice_iter_mut(self, st, f, a, o):
        return [(st, ('iter', 'mut', ('at', a[0][1], a[0][2]), 0, self.slice_elem_of(f)))]

    def tr_IntoIterator_into_iter(self, st, f, a, o):
        v = a[0]
        if v[0] in ('iter', 'ichars') or v[0] in self.ITERTAGS:
            return [(st, v)]
        t = self.T[f['sig_in'][0]]
        if t['k'] == 'ref':
            if t.get('mut'):
                iv = self.read(st, v[1], v[2])
                if iv[0] in ('iter', 'ichars') or iv[0] in self.ITERTAGS:
                    return [(st, v)]
                if self.T[t['elem']].get('path', '').endswith('HashMap'):
                    r = self.map_iter(st, {'args': self.T[t['elem']].get('args')}, a, o, 'items', 'mut')
                    if r is not None:
                        return r
                return [(st, ('iter', 'mut', ('at', v[1], v[2]), 0, None))]
            e = self.T[t['elem']]
            if e.get('path', '') == OPT:
                return None
            if e.get('path', '').endswith('HashMap'):
                r = self.map_iter(st, f, a, o, 'items', 'ref')
                return r if r is not None else [(st, ('iter', 'ref', op('mapitems', self.rd(st, v)), 0, None))]
            ety = e['args'][0] if e['k'] == 'adt' and e.get('args') else e.get('elem')
            return [(st, ('iter', 'ref', self.rd(st, v), 0, ety))]
        if t['k'] == 'adt' and t['path'] == OPT:
            out = []
            for s, x in self.split_variant(st, v) or []:
                out.append((s, ('iter', 'val', ('L', tuple(x[3])), 0, None)))
            return out or None
        if t['k'] == 'adt' and t['path'].endswith('vec::Vec'):
            return [(st, ('iter', 'val', v, 0, t['args'][0]))]
        if t['k'] == 'array':
            return [(st, ('iter', 'val', v, 0, t['elem']))]
        if t['k'] == 'adt' and t['path'].endswith('HashMap'):
            r = self.map_iter(st, f, a, o, 'items', 'val')
            return r if r is not None else [(st, ('iter', 'val', op('mapitems', v), 0, None))]
        return [(st, v)]

    def in_Option_iter(self, st, f, a, o):
        v = self.rd(st, a[0])
        return [(s, ('iter', 'ref', ('L', tuple(x[3])), 0, None)) for s, x in self.split_variant(st, v)]

    def iter_at(self, st, seq):
        return self.read(st, seq[1], seq[2])

    def iter_next(self, st, it):
        """[(state, value|None, iterator')]"""
        k = it[0]
        if k == 'ref':
            v = self.read(st, it[1], it[2])
            out = []
            for s, x, it2 in self.iter_next(st, v):
                s = s.copy()
                self.write(s, it[1], it[2], it2)
                out.append((s, x, it))
            return out
        if k == 'iter':
            _, mode, seq, cur, ety = it
            sv_ = self.iter_at(st, seq) if mode == 'mut' else seq

            def elem(s, ix, v=None):
                if mode == 'mut':
                    return ('ref', seq[1], seq[2] + (('idx', ix, ety),))
                x = v if v is not None else self.seq_nth(s, sv_, ix, ety)
                return kref(x) if mode == 'ref' else x
            if isinstance(cur, int):
                if sv_[0] == 'L':
                    if cur < len(sv_[1]):
                        return [(st, elem(st, I(cur)), ('iter', mode, seq, cur + 1, ety))]
                    return [(st, None, it)]
                out = []
                for s, b in self.truth(st, self.cmp(st, 'Lt', I(cur), self.seq_len(st, sv_))):
                    if b:
                        out.append((s, elem(s, I(cur)), ('iter', mode, seq, cur + 1, ety)))
                    else:
                        out.append((s, None, it))
                return out
            _, lid, n = cur
            out = []
            key = ('exh', cur, seq)
            f = st.facts.get(key)
            if f is not True:
                s = st.fact(key, False)
                nit = ('iter', mode, seq, ('k', lid, n + 1), ety)
                if sv_[0] == 'rep' and mode != 'mut' and self.REP[sv_[1]]['elems'] is not None:
                    for s2, v in self.materialise(s, sv_[1]):
                        out.append((s2, elem(s2, None, v), nit))
                else:
                    out.append((s, elem(s, ('k', lid, n)), nit))
            if f is not False:
                out.append((st.fact(key, True), None, it))
            return out
        if k == 'imap':
            out = []
            for s, x, i2 in self.iter_next(st, it[1]):
                if x is None:
                    out.append((s, None, ('imap', i2, it[2])))
                else:
                    for s2, y in self.call_value(s, it[2], [x]):
                        out.append((s2, y, ('imap', i2, it[2])))
            return out
        if k == 'icloned':
            return [(s, None if x is None else self.deref(s, x), ('icloned', i2)) for s, x, i2 in self.iter_next(st, it[1])]
        if k == 'iinsp':
            out = []
            for s, x, i2 in self.iter_next(st, it[1]):
                if x is None:
                    out.append((s, None, ('iinsp', i2, it[2])))
                else:
                    for s2, _ in self.call_value(s, it[2], [kref(x)]):
                        out.append((s2, x, ('iinsp', i2, it[2])))
            return out
        if k in ('ifilter', 'ifmap', 'itw', 'imw'):
            return self.filter_next(st, it)
        if k == 'ienum':
            out = []
            for s, x, i2 in self.iter_next(st, it[1]):
                c = self.cursor_of(it[1])
                if c is None:
                    raise Undecided('enumerate over adapter')
                ix = I(c) if isinstance(c, int) else op('kidx', c, ty=self.usize())
                out.append((s, None if x is None else ('T', (ix, x)), ('ienum', i2)))
            return out
        if k == 'ichain':
            out = []
            for s, x, i2 in self.iter_next(st, it[1]):
                if x is not None:
                    out.append((s, x, ('ichain', i2, it[2])))
                else:
                    for s2, y, j2 in self.iter_next(s, it[2]):
                        out.append((s2, y, ('ichain', i2, j2)))
            return out
        if k == 'izip':
            out = []
            for s, x, i2 in self.iter_next(st, it[1]):
                if x is None:
                    out.append((s, None, ('izip', i2, it[2])))
                    continue
                for s2, y, j2 in self.iter_next(s, it[2]):
                    out.append((s2, None if y is None else ('T', (x, y)), ('izip', i2, j2)))
            return out
        if k == 'ipeek':
            if it[2] is not None:
                return [(st, it[2] if it[2] != 'end' else None, ('ipeek', it[1], None if it[2] != 'end' else 'end'))]
            return [(s, x, ('ipeek', i2, None)) for s, x, i2 in self.iter_next(st, it[1])]
        if k == 'ichars':
            v = it[1]
            if v[0] == 's':
                if not v[1]:
                    return [(st, None, it)]
                return [(st, ('c', ord(v[1][0])), ('ichars', S(v[1][1:])))]
            if v[0] == 'str':
                out = []
                for s, g in self.split_first(st, v[1], v[2]):
                    if g is None:
                        out.append((s, None, it))
                    else:
                        out.append((s, ('chr', v[1], g, self.char_ty()), ('ichars', ('str', v[1], g))))
                return out
            if v[0] == 'span':
                out = []
                for s, g in self.split_within(st, v[1], v[2], v[3]):
                    if g is None:
                        out.append((s, None, it))
                    else:
                        out.append((s, ('chr', v[1], g, self.char_ty()), ('ichars', ('span', v[1], g, v[3]))))
                return out
            raise Undecided('chars of opaque string')
        if k == 'A' and k and it[1].endswith('ops::Range'):
            return self.range_next(st, it)
        if k == 'A':
            # user iterator: call its next
            f = self.find_impl('std::iter::Iterator', 'next', it[1])
            if f:
                st = st.copy()
                c = self.new_cell(st, it)
                out = []
                for s, v in self.call_f(st, f, [('ref', c, ())]):
                    for s2, o in self.split_variant(s, v):
                        out.append((s2, o[3][0] if o[2] == 1 else None, s2.cells[c]))
                return out
        raise Undecided('iterator ' + str(k))

    def range_next(self, st, it):
        lo, hi = it[3]
        out = []
        for s, b in self.truth(st, self.cmp(st, 'Lt', lo, hi)):
            if b:
                out.append((s, lo, ('A', it[1], it[2], (self.binop(s, 'Add', lo, I(1), self.usize()), hi))))
            else:
                out.append((s, None, it))
        return out

    def find_impl(self, trait, name, path):
        for f in self.F.values():
            if f.get('trait') == trait and f.get('name') == name and f.get('body') and f.get('sig_in'):
                t = self.T[f['sig_in'][0]]
                while t['k'] == 'ref':
                    t = self.T[t['elem']]
                if t.get('path') == path:
                    return f
        return None

    def cursor_of(self, it):
        while it[0] in ('icloned', 'imap', 'iinsp', 'ipeek'):
            it = it[1]
        if it[0] == 'iter':
            return it[3]
        return None

    def filter_next(self, st, it):
        """advance until the predicate accepts; summarised as one generic step when called from a loop"""
        k = it[0]
        out = []

        def test(s, x, i2):
            """[(state, 'yes'/'no'/'end', value)]"""
            r = []
            if k == 'ifilter':
                for s2, v in self.call_value(s, it[2], [kref(x)]):
                    for s3, b in self.truth(s2, v):
                        r.append((s3, 'yes' if b else 'no', x))
            elif k == 'itw':
                for s2, v in self.call_value(s, it[2], [kref(x)]):
                    for s3, b in self.truth(s2, v):
                        r.append((s3, 'yes' if b else 'end', x))
            else:
                for s2, v in self.call_value(s, it[2], [x]):
                    for s3, ov in self.split_variant(s2, v) or [(None, None)]:
                        if s3 is None:
                            raise Undecided('filter_map result')
                        r.append((s3, 'yes' if ov[2] == 1 else ('no' if k == 'ifmap' else 'end'), ov[3][0] if ov[2] == 1 else None))
            return r
        work = [(st, it[1], 0)]
        while work:
            s, inner, n = work.pop()
            for s2, x, i2 in self.iter_next(s, inner):
                if x is None:
                    out.append((s2, None, (k, i2, it[2])))
                    continue
                for s3, w, v in test(s2, x, i2):
                    if w == 'yes':
                        out.append((s3, v, (k, i2, it[2])))
                    elif w == 'end':
                        out.append((s3, None, (k, ('iter', 'val', ('L', ()), 0, None), it[2])))
                    else:
                        c = self.cursor_of(i2)
                        if isinstance(c, int) and n < 80:
                            work.append((s3, i2, n + 1))
                        else:
                            out.append((s3, 'skip', (k, i2, it[2])))
        return out

    def tr_Iterator_next(self, st, f, a, o):
        if f['crate'] == self.p.d['crate']:
            return None
        r = a[0]
        v = self.read(st, r[1], r[2])
        if v[0] == 'A' and not v[1].endswith('ops::Range'):
            return None
        if not (v[0] in ('iter', 'ichars', 'ref', 'A') or v[0] in self.ITERTAGS):
            return None
        c = self.cursor_of(v)
        out = []
        work = [(st, 0)]
        while work:
            s0, n = work.pop()
            for s, x, it in self.iter_next(s0, self.read(s0, r[1], r[2])):
                s = s.copy()
                self.write(s, r[1], r[2], it)
                if isinstance(x, str):      # 'skip': element rejected by a filter in a generic iteration
                    raise Undecided('filtered iterator advanced by hand')
                out.append((s, NONE if x is None else some(x)))
        return out

    def tr_DoubleEndedIterator_next_back(self, st, f, a, o):
        r = a[0]
        v = self.read(st, r[1], r[2])
        if v[0] == 'iter' and v[1] != 'mut' and v[2][0] == 'L' and isinstance(v[3], int):
            l = v[2][1]
            st = st.copy()
            if len(l) > v[3]:
                self.write(st, r[1], r[2], ('iter', v[1], ('L', l[:-1]), v[3], v[4]))
                return [(st, some(kref(l[-1]) if v[1] == 'ref' else l[-1]))]
            return [(st, NONE)]
        if v[0] == 'iter' and v[3] == 0:
            seq = v[2] if v[1] != 'mut' else self.iter_at(st, v[2])
            out = []
            for s, b in self.nonempty_fork(st, seq):
                if not b:
                    out.append((s, NONE))
                elif v[1] == 'mut':
                    out.append((s, some(('ref', v[2][1], v[2][2] + (('last', v[4]),)))))
                else:
                    x = self.seq_last_val(s, seq, v[4])
                    out.append((s, some(kref(x) if v[1] == 'ref' else x)))
                s2 = out[-1][0].copy()
                self.write(s2, r[1], r[2], ('iter', 'val', ('sub', seq, I(0), ('end', 1)), 0, v[4]))
                out[-1] = (s2, out[-1][1])
            return out
        return None

    def adapter(tag):
        def m(self, st, f, a, o):
            return [(st, (tag,) + tuple(a))]
        return m
    tr_Iterator_map = adapter('imap')
    tr_Iterator_filter = adapter('ifilter')
    tr_Iterator_filter_map = adapter('ifmap')
    tr_Iterator_cloned = adapter('icloned')
    tr_Iterator_copied = adapter('icloned')
    tr_Iterator_enumerate = adapter('ienum')
    tr_Iterator_inspect = adapter('iinsp')
    tr_Iterator_take_while = adapter('itw')
    tr_Iterator_map_while = adapter('imw')

    def tr_Iterator_peekable(self, st, f, a, o):
        return [(st, ('ipeek', a[0], None))]

    def in_Peekable_peek(self, st, f, a, o):
        r = a[0]
        v = self.read(st, r[1], r[2])
        if v[2] is not None:
            return [(st, NONE if v[2] == 'end' else some(kref(v[2])))]
        out = []
        for s, x, i2 in self.iter_next(st, v[1]):
            s = s.copy()
            self.write(s, r[1], r[2], ('ipeek', i2, 'end' if x is None else x))
            out.append((s, NONE if x is None else some(kref(x))))
        return out

    def tr_Iterator_by_ref(self, st, f, a, o):
        return [(st, a[0])]

    def tr_Iterator_fuse(self, st, f, a, o):
        return [(st, a[0])]

    def tr_Iterator_rev(self, st, f, a, o):
        it = a[0]

        def rv(it):
            if it[0] in ('icloned',):
                return ('icloned', rv(it[1]))
            if it[0] in ('imap',):
                return ('imap', rv(it[1]), it[2])
            if it[0] == 'iter' and it[3] == 0 and it[1] != 'mut':
                if it[2][0] == 'L':
                    return ('iter', it[1], ('L', it[2][1][::-1]), 0, it[4])
                if it[2][0] == 'op' and it[2][1] == 'rev':
                    return ('iter', it[1], it[2][2][0], 0, it[4])
                return ('iter', it[1], op('rev', it[2]), 0, it[4])
            raise Undecided('rev of ' + it[0])
        return [(st, rv(it))]

    def tr_Iterator_chain(self, st, f, a, o):
        b = a[1]
        r = self.as_iter(st, b, f['args'][-1] if f.get('args') else None)
        return [(s, ('ichain', a[0], x)) for s, x in r]

    def tr_Iterator_zip(self, st, f, a, o):
        r = self.as_iter(st, a[1], f['args'][-1] if f.get('args') else None)
        return [(s, ('izip', a[0], x)) for s, x in r]

    def as_iter(self, st, v, ty):
        if v[0] in ('iter', 'ichars') or v[0] in self.ITERTAGS:
            return [(st, v)]
        if v[0] == 'ref':
            w = self.read(st, v[1], v[2])
            if w[0] in ('iter', 'ichars') or w[0] in self.ITERTAGS:
                return [(st, v)]
            return [(st, ('iter', 'ref', self.deep(st, v), 0, None))]
        if v[0] == 'A' and v[1] == OPT:
            return [(st, ('iter', 'val', ('L', tuple(v[3])), 0, None))]
        t = self.tyk(self.ty_of(v)) if self.is_sym(v) else None
        if t and t.get('path') == OPT:
            return [(s, ('iter', 'val', ('L', tuple(x[3])), 0, None)) for s, x in self.split_variant(st, v)]
        return [(st, ('iter', 'val', v, 0, self.elem_ty(st, v)))]

    def tr_Iterator_take(self, st, f, a, o):
        it, n = a
        if it[0] == 'iter' and it[3] == 0 and it[1] != 'mut':
            if it[2][0] == 'L' and n[0] == 'i':
                return [(st, ('iter', it[1], ('L', it[2][1][:n[1]]), 0, it[4]))]
            return [(st, ('iter', it[1], op('take', it[2], n), 0, it[4]))]
        if it[0] in ('icloned', 'imap'):
            r = self.tr_Iterator_take(st, f, [it[1], n], o)
            if r:
                return [(s, (it[0], x) + it[2:]) for s, x in r]
        return None

    def tr_Iterator_skip(self, st, f, a, o):
        it, n = a
        if it[0] == 'iter' and it[3] == 0 and it[1] != 'mut':
            return [(st, ('iter', it[1], self.seq_sub(st, it[2], n if n[0] != 'i' else n[1], None), 0, it[4]))]
        if it[0] in ('icloned', 'imap'):
            r = self.tr_Iterator_skip(st, f, [it[1], n], o)
            if r:
                return [(s, (it[0], x) + it[2:]) for s, x in r]
        return None

    # consumers ---------------------------------------------------------
    def consume(self, st, it, init, body, name):
        """generic driver: body(state, acc, item) -> [(state, 'back'|'exit', acc/result)];
        returns [(state, 'done'|'exit', value)]"""
        st = st.copy()
        ci = self.new_cell(st, it)
        ca = self.new_cell(st, init)

        def step(s):
            out = []
            for s2, x, it2 in self.iter_next(s, s.cells[ci]):
                s2 = s2.copy()
                s2.cells[ci] = it2
                if x is None:
                    out.append(('exit', s2, ('done',)))
                    continue
                if isinstance(x, str):
                    out.append(('back', s2, None))
                    continue
                for s3, w, v in body(s2, s2.cells[ca], x):
                    s3 = s3.copy()
                    if w == 'back':
                        s3.cells[ca] = v
                        out.append(('back', s3, None))
                    else:
                        out.append(('exit', s3, ('exit', v)))
            return out
        res = []
        for s, tag in self.iterate(st, step, name):
            s = s.copy()
            acc = s.cells.pop(ca)
            s.cells.pop(ci, None)
            if tag[0] == 'done':
                res.append((s, 'done', acc))
            else:
                res.append((s, 'exit', tag[1]))
        return res

    def tr_Iterator_for_each(self, st, f, a, o):
        def body(s, acc, x):
            return [(s2, 'back', UNIT) for s2, _ in self.call_value(s, clo(s), [x])]
        st = st.copy()
        cc = self.new_cell(st, a[1])
        clo = lambda s: ('ref', cc, ())
        return [(s, UNIT) for s, _, _ in self.consume(st, a[0], UNIT, body, self.cur_fn() + '::for_each')]

    def tr_Iterator_fold(self, st, f, a, o):
        st = st.copy()
        cc = self.new_cell(st, a[2])

        def body(s, acc, x):
            return [(s2, 'back', v) for s2, v in self.call_value(s, ('ref', cc, ()), [acc, x])]
        return [(s, v) for s, _, v in self.consume(st, a[0], a[1], body, self.cur_fn() + '::fold')]

    def tr_Iterator_try_fold(self, st, f, a, o):
        return None

    def tr_Iterator_collect(self, st, f, a, o):
        t = self.T[o]
        return self.collect_into(st, a[0], t, o)

    def collect_into(self, st, it, t, o):
        p = t.get('path', '')
        if p.endswith('vec::Vec'):
            if it[0] == 'iter' and it[1] == 'val' and it[3] == 0 and it[2][0] == 'op' and it[2][1] in self.PARTOPS:
                return [(st, it[2])]
            return [(s, v) for s, _, v in self.consume(
                st, it, ('L', ()), lambda s, acc, x: [(s, 'back', self.seq_cat(acc, ('L', (x,))))], self.cur_fn() + '::collect')]
        if p.endswith('string::String'):
            v = self.collect_string(st, it)
            return v
        if p == RES or p == OPT:
            inner = self.T[t['args'][0]]
            if inner.get('path', '').endswith('vec::Vec'):
                def body(s, acc, x):
                    r = []
                    for s2, ov in self.split_variant(s, x) or [(None, None)]:
                        if s2 is None:
                            raise Undecided('collect result')
                        good = ov[2] == (0 if p == RES else 1)
                        if good:
                            r.append((s2, 'back', self.seq_cat(acc, ('L', (ov[3][0],)))))
                        else:
                            r.append((s2, 'exit', ('A', p, ov[2], ov[3])))
                    return r
                return [(s, v if w == 'exit' else (ok(v) if p == RES else some(v)))
                        for s, w, v in self.consume(st, it, ('L', ()), body, self.cur_fn() + '::collect')]
            return None
        if p.endswith('HashMap') or p.endswith('BTreeMap'):
            def body(s, acc, x):
                k, v = self.untuple(x)
                return [(s, 'back', self.map_set(acc, self.deep(s, k), v, s))]
            return [(s, v) for s, _, v in self.consume(st, it, ('mnew',), body, self.cur_fn() + '::collect')]
        return None

    PARTOPS = {'split', 'splitws', 'splitn', 'rsplit', 'rsplitn', 'lines', 'split_inclusive'}

    def collect_string(self, st, it):
        if it[0] == 'ichars':
            return [(st, it[1])]
        def body(s, acc, x):
            y = self.deep(s, x)
            return [(s, 'back', self.scat(s, [acc, y if self.is_strlike(y) else self.char_string(s, y)]))]
        return [(s, v) for s, _, v in self.consume(st, it, S(''), body, self.cur_fn() + '::collect')]

    def tr_FromIterator_from_iter(self, st, f, a, o):
        out = []
        for s, it in self.as_iter(st, a[0], None):
            r = self.collect_into(s, it, self.T[o], o)
            if r is None:
                return None
            out += r
        return out

    def tr_Extend_extend(self, st, f, a, o):
        r = a[0]
        v = self.read(st, r[1], r[2])
        out = []
        for s, it in self.as_iter(st, a[1], None):
            if it[0] == 'iter' and it[3] == 0 and it[1] in ('val',):
                s = s.copy()
                cur = self.read(s, r[1], r[2])
                if self.is_strlike(cur) and it[2][0] == 'L':
                    self.write(s, r[1], r[2], self.scat(s, [cur] + [self.deep(s, x) for x in it[2][1]]))
                elif cur[0] in ('mnew', 'mset', 'mget') :
                    return None
                else:
                    self.write(s, r[1], r[2], self.seq_cat(cur, it[2]))
                out.append((s, UNIT))
                continue
            cur = self.read(s, r[1], r[2])
            if self.is_strlike(cur):
                for s2, x in self.collect_string(s, it):
                    s2 = s2.copy()
                    self.write(s2, r[1], r[2], self.scat(s2, [cur, x]))
                    out.append((s2, UNIT))
                continue
            if cur[0] in ('mnew', 'mset'):
                return None

            def body(s, acc, x):
                s = s.copy()
                c = self.read(s, r[1], r[2])
                self.write(s, r[1], r[2], self.seq_cat(c, ('L', (x if it[0] != 'iter' or it[1] == 'val' else self.deref(s, x),))))
                return [(s, 'back', UNIT)]
            out += [(s2, UNIT) for s2, _, _ in self.consume(s, it, UNIT, body, self.cur_fn() + '::extend')]
        return out

    def pred_consumer(kind):
        def m(self, st, f, a, o):
            st = st.copy()
            it = a[0]
            cc = self.new_cell(st, a[1]) if len(a) > 1 else None
            byref = kind in ('find',)

            def body(s, acc, x):
                r = []
                if kind == 'find_map':
                    for s2, v in self.call_value(s, ('ref', cc, ()), [x]):
                        for s3, ov in self.split_variant(s2, v):
                            r.append((s3, 'exit', ov) if ov[2] == 1 else (s3, 'back', acc))
                    return r
                arg = kref(x) if byref else x
                for s2, v in self.call_value(s, ('ref', cc, ()), [arg]):
                    for s3, b in self.truth(s2, v):
                        if kind == 'any':
                            r.append((s3, 'exit', B(True)) if b else (s3, 'back', acc))
                        elif kind == 'all':
                            r.append((s3, 'back', acc) if b else (s3, 'exit', B(False)))
                        elif kind == 'find':
                            r.append((s3, 'exit', some(x)) if b else (s3, 'back', acc))
                return r
            dflt = {'any': B(False), 'all': B(True), 'find': NONE, 'find_map': NONE}[kind]
            # charset shortcut for chars().all/any
            res = self.chars_quant(st, it, a[1], kind) if kind in ('any', 'all') else None
            if res is not None:
                return res
            wb = None
            if it[0] == 'ref':
                wb = it
            out = []
            for s, w, v in self.consume(st, it, UNIT, body, self.cur_fn() + '::' + kind):
                out.append((s, v if w == 'exit' else dflt))
            return out
        return m

    def chars_quant(self, st, it, clo, kind):
        v = it
        if v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        if v[0] != 'ichars' or v[1][0] not in ('span', 'str', 'cat', 'seg'):
            return None
        cs = self.pred_set(st, clo)
        if cs is None:
            return None
        w = self.word(st, v[1])
        if w is None:
            return None
        if kind == 'all':
            if all(mx == 0 or CS.subset(c, cs) for c, mn, mx in w):
                return [(st, B(True))]
            if any(mn > 0 and not CS.inter(c, cs) for c, mn, mx in w):
                return [(st, B(False))]
        else:
            if all(mx == 0 or not CS.inter(c, cs) for c, mn, mx in w):
                return [(st, B(False))]
            if any(mn > 0 and CS.subset(c, cs) for c, mn, mx in w):
                return [(st, B(True))]
        # fork on single-character segments, otherwise opaque
        t = op('chars_' + kind, v[1], ('cs', cs))
        return [(s, B(b)) for s, b in self.truth_atom(st, t)]

    tr_Iterator_any = pred_consumer('any')
    tr_Iterator_all = pred_consumer('all')
    tr_Iterator_find = pred_consumer('find')
    tr_Iterator_find_map = pred_consumer('find_map')

    def succ(self, v):
        return I(v[1] + 1) if v[0] == 'i' else op('Add', v, I(1), ty=self.usize())

    def tr_Iterator_position(self, st, f, a, o):
        st = st.copy()
        cc = self.new_cell(st, a[1])

        def body(s, acc, x):
            r = []
            for s2, v in self.call_value(s, ('ref', cc, ()), [x]):
                for s3, b in self.truth(s2, v):
                    r.append((s3, 'exit', some(acc)) if b else (s3, 'back', self.succ(acc)))
            return r
        return [(s, v if w == 'exit' else NONE) for s, w, v in self.consume(st, a[0], I(0), body, self.cur_fn() + '::position')]

    def tr_Iterator_last(self, st, f, a, o):
        it = a[0]
        if it[0] == 'iter' and it[3] == 0 and it[1] != 'mut':
            return self.fork_opt(st, it[2], lambda s: kref(self.seq_last_val(s, it[2], it[4])) if it[1] == 'ref' else self.seq_last_val(s, it[2], it[4]))
        return [(s, v) for s, _, v in self.consume(st, it, NONE, lambda s, acc, x: [(s, 'back', some(x))], self.cur_fn() + '::last')]

    def tr_Iterator_count(self, st, f, a, o):
        it = a[0]
        if it[0] == 'iter' and it[3] == 0 and it[1] != 'mut':
            return [(st, self.seq_len(st, it[2]))]
        return [(s, v) for s, _, v in self.consume(
            st, it, I(0), lambda s, acc, x: [(s, 'back', self.succ(acc))], self.cur_fn() + '::count')]

    def tr_Iterator_nth(self, st, f, a, o):
        return None

    def in_slice_chunks(self, st, f, a, o):
        return None

    def in_Option_iter_x(self):
        pass


def u8len(cs, lo=True):
    def w(c):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    return w(cs[0][0]) if lo else w(cs[-1][1])
