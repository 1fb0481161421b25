"""Interpreter core: see core.py for the value representation."""
from collections import defaultdict
import charset as CS
from core import *

class Prog:
    def __init__(self, d):
        self.d = d
        self.T = d['types']
        self.F = d['fns']
        for k, f in self.F.items():
            f['key'] = k
        self.by_path_ty = {}
        for i, t in enumerate(self.T):
            if t and t.get('k') == 'adt':
                if t.get('variants') is not None:
                    self.by_path_ty.setdefault(t['path'], i)
        self.roots = {r['path']: r for r in d['roots']}
        self._loops = {}

    def ty(self, i):
        return self.T[i] if i is not None else None

    def variants(self, path):
        i = self.by_path_ty.get(path)
        return self.T[i]['variants'] if i is not None else None

    def variant_index(self, path, name):
        for i, v in enumerate(self.variants(path)):
            if v['name'] == name:
                return i
        raise KeyError(name)

    def is_enum_ty(self, tyid):
        t = self.ty(tyid)
        return bool(t and t.get('k') == 'adt' and t.get('enum'))

    # ---- CFG
    def loops(self, f):
        k = f['key']
        if k in self._loops:
            return self._loops[k]
        blocks = f['body']['blocks']
        succ = {}
        for i, b in enumerate(blocks):
            if b is None:
                continue
            succ[i] = [s for s in self.succs(b['t']) if blocks[s] is not None]
        # reachable + rpo
        order = []
        seen = set()

        stack = [(0, iter(succ.get(0, [])))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ.get(s, []))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        preds = defaultdict(list)
        for n in rpo:
            for s in succ[n]:
                preds[s].append(n)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for n in rpo[1:]:
                ps = [p for p in preds[n] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, b = new, p
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                    new = a
                if idom.get(n) != new:
                    idom[n] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        irreducible = False
        for n in rpo:
            for s in succ[n]:
                if idx[s] <= idx[n]:
                    if dom(s, n):
                        body = loops.setdefault(s, {s})
                        st = [n]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(preds[x])
                    else:
                        irreducible = True
        self._loops[k] = (loops, irreducible)
        return self._loops[k]

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    def live_at(self, f, bb):
        """locals possibly used (read) from the start of bb before being fully overwritten"""
        if 'live' not in f:
            blocks = f['body']['blocks']
            use = {}
            dfn = {}

            def pl_use(p, u, d):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def op_use(o, u, d):
                if o[0] in ('c', 'm'):
                    pl_use(o[1], u, d)

            def rv_use(r, u, d):
                for x in r[1:]:
                    if isinstance(x, list) and x:
                        if x[0] in ('c', 'm') and len(x) == 2 and isinstance(x[1], list):
                            op_use(x, u, d)
                        elif isinstance(x[0], int) and len(x) == 3:
                            pl_use(x, u, d)
                        elif isinstance(x[0], list):
                            for y in x:
                                if isinstance(y, list) and y and y[0] in ('c', 'm'):
                                    op_use(y, u, d)

            for i, b in enumerate(blocks):
                if b is None:
                    continue
                u, d = set(), set()
                for s in b['s']:
                    if s[0] == '=':
                        rv_use(s[2], u, d)
                        if not s[1][1]:
                            d.add(s[1][0])
                        else:
                            pl_use(s[1], u, d)
                    elif s[0] == 'sd':
                        pl_use(s[1], u, d)
                    elif s[0] == 'dead':
                        d.add(s[1])
                t = b['t']
                if t[0] == 'switch':
                    op_use(t[1], u, d)
                elif t[0] == 'call':
                    op_use(t[1], u, d)
                    for a in t[2]:
                        op_use(a, u, d)
                    if not t[3][1]:
                        d.add(t[3][0])
                    else:
                        pl_use(t[3], u, d)
                elif t[0] == 'assert':
                    op_use(t[1], u, d)
                    for a in t[4]:
                        op_use(a, u, d)
                elif t[0] == 'ret':
                    if 0 not in d:
                        u.add(0)
                use[i], dfn[i] = u, d
            live = {i: set() for i in use}
            ch = True
            while ch:
                ch = False
                for i in live:
                    out = set()
                    for s in self.succs(blocks[i]['t']):
                        if s in live:
                            out |= live[s]
                    n = use[i] | (out - dfn[i])
                    if n != live[i]:
                        live[i] = n
                        ch = True
            f['live'] = live
        return f['live'][bb]


from models_std import StdModels
from models_nom import NomModels
from strings import StringDomain
from models_text import TextModels
from models_seq import SeqModels
from models_sets import SetModels


class Interp(SetModels, TextModels, SeqModels, StdModels, NomModels, StringDomain):
    def __init__(self, prog):
        self.p = prog
        self.T = prog.T
        self.F = prog.F
        self.n = 0
        self.panics = {}       # (fnpath, span, kind) -> detail
        self.opaque_calls = {}
        self.executed = {}     # fn key -> count
        self.blocks_run = 0
        self.cov = set()       # (fn key, block)
        self.map_order = 'both'   # which orders of a map's entries are followed
        self.REP = {}
        self.LOOPS = {}
        self.recursion = set()
        self.stack = []
        self.callsites = 0
        self.notes = []
        self.purity = {}
        self.unbounded = {}
        self.hangs = {}
        self.celltype = {}
        self.top_streams = []
        self.nullable_reps = []
        self.repcache = {}
        self.discharged = {}
        self.maxdepth = 0

    def fresh(self, pre='$'):
        self.n += 1
        return '%s%d' % (pre, self.n)

    # ---------------------------------------------------------------- types
    def tyk(self, i):
        t = self.T[i] if i is not None else None
        return t

    def ty_of(self, v):
        if v[0] in SYMTAGS:
            return v[-1]
        if v[0] == 'A':
            return self.p.by_path_ty.get(v[1])
        return None

    def is_sym(self, v):
        return v[0] in SYMTAGS

    def expand(self, v, variant=None):
        """symbolic struct/tuple/enum-variant -> aggregate of projections"""
        ty = self.ty_of(v)
        t = self.tyk(ty)
        if t is None:
            return None
        if t['k'] == 'adt' and t.get('variants'):
            if t['enum']:
                if variant is None:
                    return None
                vi = variant
            else:
                vi = 0
            if t['path'] == COW:
                return None
            fs = t['variants'][vi]['fields']
            return ('A', t['path'], vi, tuple(self.proj(v, vi, i, f['ty']) for i, f in enumerate(fs)))
        if t['k'] == 'tuple':
            return ('T', tuple(self.proj(v, 0, i, a) for i, a in enumerate(t['args'])))
        return None

    def proj(self, base, variant, i, ty):
        t = self.tyk(ty)
        if t is not None and t['k'] == 'tuple' and not t['args']:
            return UNIT
        v = ('fld', base, variant, i, ty)
        # references inside symbolic values: a shared ref to a symbolic pointee
        if t is not None and t['k'] == 'ref':
            return kref(('fld', base, variant, i, t['elem']))
        return v

    # ---------------------------------------------------------------- places
    def read(self, st, cell, path):
        if isinstance(cell, tuple) and cell and cell[0] == 'K':
            v = cell[1]
        else:
            v = st.cells.get(cell)
            if v is None:
                ty = self.celltype.get(cell)
                v = ('uninit', str(cell), ty)
        return self.getp(st, v, path)

    def getp(self, st, v, path):
        for e in path:
            v = self.get1(st, v, e)
        return v

    def get1(self, st, v, e):
        k = e[0]
        if k == 'f':
            _, vi, i, ty = e
            if v[0] == 'A':
                if v[1] == COW:
                    return v
                if i < len(v[3]):
                    return v[3][i]
                return ('uninit', 'badfield', ty)
            if v[0] == 'T':
                return v[1][i]
            if v[0] == 'clo':
                return v[2][i]
            if v[0] == 'ref':
                return v  # Box/Unique/NonNull internals
            if v[0] in ('box', 'entry'):
                return v
            t = self.tyk(self.ty_of(v))
            if t is not None and t.get('path') == COW:
                # Cow<str> content is normalised: Borrowed(&str)/Owned(String)
                return kref(('fld', v[1], v[2], v[3], v[4])) if False else (kref(v) if vi == 0 else v)
            if v[0] in ('s', 'span', 'cat', 'str'):
                return kref(v) if vi == 0 else v
            if self.is_sym(v):
                return self.proj(v, vi or 0, i, ty)
            return ('uninit', 'field', ty)
        if k == 'idx':
            return self.seq_nth(st, v, e[1], e[2] if len(e) > 2 else None)
        if k == 'last':
            return self.seq_last_val(st, v, e[1] if len(e) > 1 else None)
        if k == 'ent':
            return self.map_get_val(st, v, e[1], e[2], e[3])
        if k == 'sub':
            return self.seq_sub(st, v, e[1], e[2])
        if k == 'box':
            return v[1] if v[0] == 'box' else v
        raise Undecided('get ' + str(e))

    def setp(self, st, v, path, nv):
        if not path:
            return nv
        e = path[0]
        k = e[0]
        if k == 'f':
            _, vi, i, ty = e
            if v[0] in ('A', 'T', 'clo'):
                fs = list(v[3] if v[0] == 'A' else v[1] if v[0] == 'T' else v[2])
                if i >= len(fs):
                    return ('uninit', 'badset', None)
                fs[i] = self.setp(st, fs[i], path[1:], nv)
                fs = tuple(fs)
                return ('A', v[1], v[2], fs) if v[0] == 'A' else ('T', fs) if v[0] == 'T' else ('clo', v[1], fs)
            if v[0] == 'ref' or v[0] == 'box':
                return self.setp(st, v, path[1:], nv)
            ex = self.expand(v, vi)
            if ex is not None:
                return self.setp(st, ex, path, nv)
            if v[0] in ('s', 'span', 'cat', 'str') or self.is_sym(v):
                return self.setp(st, v, path[1:], nv)
            raise Undecided('set field of %r' % (v[0],))
        if k == 'idx':
            return self.seq_set(st, v, e[1], lambda old: self.setp(st, old, path[1:], nv), e[2] if len(e) > 2 else None)
        if k == 'last':
            return self.seq_set_last(st, v, lambda old: self.setp(st, old, path[1:], nv), e[1] if len(e) > 1 else None)
        if k == 'ent':
            old = self.map_get_val(st, v, e[1], e[2], e[3])
            return self.map_set(v, e[1], self.setp(st, old, path[1:], nv), st)
        if k == 'box':
            return ('box', self.setp(st, v[1] if v[0] == 'box' else v, path[1:], nv))
        raise Undecided('set ' + str(e))

    def write(self, st, cell, path, v):
        if isinstance(cell, tuple) and cell and cell[0] == 'K':
            raise Undecided('write through shared reference')
        if not path:
            st.cells[cell] = v
            return
        old = st.cells.get(cell)
        if old is None:
            old = ('uninit', str(cell), self.celltype.get(cell))
        st.cells[cell] = self.setp(st, old, path, v)

    def new_cell(self, st, v, ty=None):
        c = ('h', self.fresh(''))
        st.cells[c] = v
        if ty is not None:
            self.celltype[c] = ty
        return c

    def deref(self, st, v):
        """read through a reference value"""
        if v[0] == 'ref':
            return self.read(st, v[1], v[2])
        if v[0] == 'box':
            return v[1]
        t = self.tyk(self.ty_of(v)) if self.is_sym(v) else None
        if t is not None and t['k'] in ('ref', 'rawptr'):
            return ('sym', '*' + repr(v), t['elem'])
        return v

    def deep(self, st, v):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        return v

    def place(self, st, fr, p):
        """-> (cell, path)"""
        cell = (fr['id'], p[0])
        path = ()
        vi = 0
        for e in p[1]:
            if e == '*':
                v = self.read(st, cell, path)
                if v[0] == 'ref':
                    cell, path = v[1], v[2]
                elif v[0] == 'box':
                    path = path + (('box',),)
                else:
                    dv = self.deref(st, v)
                    cell, path = ('K', dv), ()
                vi = 0
            elif e[0] == 'f':
                path = path + (('f', vi, e[1], e[2]),)
                vi = 0
            elif e[0] == 'd':
                vi = e[1]
            elif e[0] == 'i':
                ix = self.read(st, (fr['id'], e[1]), ())
                path = path + (('idx', ix, None),)
            elif e[0] == 'ci':
                _, off, minl, fe = e
                if fe:
                    path = path + (('last', None),) if off == 1 else path + (('idx', op('fromend', I(off)), None),)
                else:
                    path = path + (('idx', I(off), None),)
            elif e[0] == 'ss':
                _, a, b, fe = e
                path = path + (('sub', a, (('end', b) if fe else b)),)
            else:
                raise Undecided('proj')
        return cell, path

    # ---------------------------------------------------------------- operands
    def const(self, v, ty):
        if 'fn' in v:
            return ('fn', v['fn'])  # type id
        if 'int' in v:
            return I(int(v['int']))
        if 'bool' in v:
            return B(v['bool'])
        if 'char' in v:
            return ('c', int(v['char']))
        if 'float' in v:
            return self.flt(float(v['float']), ty)
        if 'str' in v:
            return sref(v['str'])
        if 'ref' in v:
            return kref(self.const(v['ref'], None))
        if 'slice' in v:
            return kref(('L', tuple(self.const(x, None) for x in v['slice'])))
        if 'fnaddr' in v:
            return ('fnk', v['fnaddr'])
        if 'zst' in v:
            t = self.T[v['zst']]
            return self.zst(v['zst'])
        if 'agg' in v:
            t = self.T[v['ty']]
            fs = tuple(self.const(x, None) for x in v['agg'])
            if t['k'] == 'tuple':
                return ('T', fs)
            if t['k'] == 'array':
                return ('L', fs)
            if t.get('path') == COW:
                return self.deep(State(), fs[0])
            if t.get('path') in ('std::string::String', 'alloc::string::String'):
                return S('')
            if t.get('path', '').endswith('vec::Vec'):
                return ('L', ())
            return ('A', t['path'], v['variant'] or 0, fs)
        return ('sym', 'const:' + str(v.get('opaque') or v.get('static') or v.get('err')), ty)

    def zst(self, tyid):
        t = self.T[tyid]
        if t['k'] == 'tuple':
            return UNIT
        if t['k'] == 'fndef':
            return ('fn', tyid)
        if t['k'] == 'closure':
            return ('clo', tyid, ())
        if t['k'] == 'adt' and t.get('variants') is not None and not t['enum']:
            return ('A', t['path'], 0, tuple(self.zst(f['ty']) for f in t['variants'][0]['fields']))
        if t['k'] == 'array':
            return ('L', ())
        return ('sym', 'zst:' + t['s'], tyid)

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            c, p = self.place(st, fr, o[1])
            return self.read(st, c, p)
        if o[0] == 'k':
            return self.const(o[1], o[2])
        return ('b', False) if o[0] == 'rc' else ('sym', 'opnd', None)

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'reborrow':
            c, p = self.place(st, fr, r[2])
            if r[1]:
                return ('ref', c, p)
            if isinstance(c, tuple) and c[0] == 'K':
                return kref(self.getp(st, c[1], p))
            return kref(self.read(st, c, p))
        if k == 'rawptr':
            c, p = self.place(st, fr, r[1])
            return ('ref', c, p)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3])
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, dty)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            return self.unop(st, r[1], a, dty)
        if k == 'discr':
            c, p = self.place(st, fr, r[1])
            v = self.read(st, c, p)
            return self.discr(st, v, r[1][2])
        if k == 'agg':
            vs = tuple(self.operand(st, fr, x) for x in r[2])
            ak = r[1]
            if ak[0] == 'tuple':
                return ('T', vs)
            if ak[0] == 'array':
                return ('L', vs)
            if ak[0] == 'adt':
                t = self.T[ak[1]]
                if t['path'] == COW:
                    v = self.deep(st, vs[0])
                    self.cow_seen(v, ak[2])
                    return v
                if t['path'] == 'std::boxed::Box' and vs:
                    return vs[0]
                if ak[3] is not None:
                    return vs[0]
                return ('A', t['path'], ak[2], vs)
            if ak[0] == 'closure':
                return ('clo', ak[1], vs)
            if ak[0] == 'rawptr':
                return vs[0]
            return ('sym', self.fresh('agg'), dty)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 256:
                return ('L', (v,) * n)
            return ('sym', self.fresh('repeat'), dty)
        if k == 'tls':
            self.purity[('thread_local', r[1])] = fr['f']['path']
            return ('sym', 'tls:' + r[1], dty)
        return ('sym', self.fresh('rv'), dty)

    def cow_seen(self, v, variant):
        """Cow values are their content; remember which variant was made of this content"""
        try:
            self.__dict__.setdefault('_cow', {}).setdefault(v, set()).add(variant)
        except TypeError:
            pass

    def cow_disc(self, v):
        seen = self.__dict__.get('_cow', {}).get(v, ())
        if len(seen) == 1:
            return I(next(iter(seen)))
        return ('sym', self.fresh('cowdisc'), None)

    def discr(self, st, v, ty):
        if v[0] == 'A':
            vs = self.p.variants(v[1])
            if vs is None:
                return I(v[2])
            return I(self.sdiscr(v[1], v[2]))
        if v[0] in ('s', 'span', 'cat', 'str') or v in self.__dict__.get('_cow', {}):
            return self.cow_disc(v)
        if self.is_sym(v):
            t = self.tyk(self.ty_of(v))
            if t is not None and t.get('path') == COW:
                return ('sym', self.fresh('cowdisc'), None)
            tid = self.ty_of(v)
            if tid is None:
                tid = ty
            return ('disc', v, tid)
        if v[0] == 'entry':
            return ('disc', v, ty)
        return ('sym', self.fresh('disc'), None)

    def sdiscr(self, path, vi):
        d = self.p.variants(path)[vi]['discr']
        # enum discriminants with explicit negative values are dumped unsigned; treat as i64
        return d

    def disc_set(self, st, term, tid):
        f = st.facts.get(('disc', term))
        if f is not None:
            return f
        t = self.T[tid]
        return frozenset(range(len(t['variants'])))

    INTBITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64,
               'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}

    def int_bounds(self, tyid):
        t = self.tyk(tyid)
        if t is None or t['k'] != 'prim':
            return (None, None)
        s = t['s']
        b = self.INTBITS.get(s)
        if b is None:
            return (None, None)
        if s[0] == 'i':
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)

    def wrap(self, n, tyid):
        lo, hi = self.int_bounds(tyid)
        if lo is None or lo <= n <= hi:
            return n
        m = hi - lo + 1
        return (n - lo) % m + lo

    def cast(self, st, kind, v, ty):
        t = self.T[ty]
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute', 'FnPtrToPtr', 'Subtype', 'BoxDerefTransmute'):
            if kind.startswith('PointerCoercion') and v[0] in ('fn', 'clo', 'fnk'):
                return v
            if kind == 'Transmute' and t['k'] == 'prim' and v[0] == 'ref':
                return ('sym', self.fresh('addr'), ty)
            if kind == 'Transmute' and t['k'] == 'prim':
                sty = self.ty_of(v)
                ss = self.T[sty]['s'] if sty is not None else 'f32' if v[0] == 'fl' else None
                for o, inv, a, b in (('to_bits', 'from_bits', ('f32', 'f64'), ('u32', 'u64', 'i32', 'i64')),
                                     ('from_bits', 'to_bits', ('u32', 'u64', 'i32', 'i64'), ('f32', 'f64'))):
                    if ss in a and t['s'] in b:
                        if v[0] == 'op' and v[1] == inv:
                            return v[2][0]
                        return op(o, v, ty=ty)
                if v[0] == 'i' and t['s'] in ('f32', 'f64'):
                    import struct
                    n = 4 if t['s'] == 'f32' else 8
                    return ('fl', repr(struct.unpack('<f' if n == 4 else '<d', (v[1] % (1 << 8 * n)).to_bytes(n, 'little'))[0]))
            return v
        if kind in ('IntToInt',):
            if v[0] == 'i':
                return I(self.wrap(v[1], ty))
            if v[0] == 'b':
                return I(1 if v[1] else 0)
            if v[0] == 'c':
                return I(self.wrap(v[1], ty)) if t['s'] != 'char' else v
            if v[0] == 'disc':
                return v
            sty = self.ty_of(v)
            if sty == ty:
                return v
            # value preserving?
            lo, hi = self.rng(st, v)
            l2, h2 = self.int_bounds(ty)
            if lo is not None and hi is not None and l2 is not None and l2 <= lo and hi <= h2:
                return op('cast', v, ('t', t['s']), ty=ty)
            return op('castwrap', v, ('t', t['s']), ty=ty)
        if kind == 'IntToFloat':
            if v[0] == 'i':
                return self.flt(float(v[1]), ty)
            return op('cast', v, ('t', t['s']), ty=ty)
        if kind in ('FloatToInt',):
            return op('f2i', v, ('t', t['s']), ty=ty)
        if kind == 'FloatToFloat':
            if v[0] == 'fl':
                return v
            return op('f2f', v, ('t', t['s']), ty=ty)
        return op('cast:' + kind, v, ty=ty)

    CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

    def binop(self, st, o, a, b, dty):
        ov = o.endswith('WithOverflow')
        base = o.replace('WithOverflow', '').replace('Unchecked', '')
        if base in self.CMP:
            return self.cmp(st, base, a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor') and (a[0] == 'b' or b[0] == 'b'):
            if a[0] == 'b' and b[0] == 'b':
                x = {'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1]}[base]
                return B(x)
            c, s = (a, b) if a[0] == 'b' else (b, a)
            if base == 'BitAnd':
                return s if c[1] else B(False)
            if base == 'BitOr':
                return B(True) if c[1] else s
            return op('Not', s) if c[1] else s
        ity = dty
        if ov and dty is not None:
            t = self.tyk(dty)
            if t and t['k'] == 'tuple':
                ity = t['args'][0]
        if base in ('Offset', 'Cmp'):
            if base == 'Cmp':
                return op('Cmp', a, b, ty=dty)
            return a
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                n = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
                     'Div': lambda: int(abs(x) // abs(y)) * (1 if (x >= 0) == (y >= 0) else -1),
                     'Rem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1),
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]()
            except Exception:
                n = None
            if n is not None:
                w = self.wrap(n, ity)
                if ov:
                    return ('T', (I(w), B(w != n)))
                return I(w)
        r = self.arith(st, base, a, b, ity)
        if ov:
            lo, hi = self.rng(st, r)
            l2, h2 = self.int_bounds(ity)
            okk = lo is not None and hi is not None and l2 is not None and l2 <= lo and hi <= h2
            # rng() of a symbolic arithmetic term is the mathematical range
            return ('T', (r, B(False) if okk else op('overflow', r, ty=None)))
        return r

    def arith(self, st, base, a, b, ty):
        if base == 'Mul':
            for x, y in ((a, b), (b, a)):
                if y == ('i', -1) or y in (('fl', '-1.0'),):
                    return self.neg(x, ty)
                if y == ('i', 1) or y == ('fl', '1.0'):
                    return x
        if base == 'Sub' and (a == ('i', 0) or a in (('fl', '0.0'), ('fl', '-0.0'))):
            if a[0] == 'i' or a == ('fl', '-0.0'):
                return self.neg(b, ty)
        if base == 'Add' and b == ('i', 0):
            return a
        if base == 'Add' and a == ('i', 0):
            return b
        if base == 'Sub' and b == ('i', 0):
            return a
        # fold (x + c1) + c2
        if base in ('Add', 'Sub') and b[0] == 'i' and a[0] == 'op' and a[1] == 'Add' and a[2][1][0] == 'i':
            c = a[2][1][1] + (b[1] if base == 'Add' else -b[1])
            if c == 0:
                return a[2][0]
            return op('Add', a[2][0], I(c), ty=ty)
        if base == 'Sub' and b[0] == 'i':
            return op('Add', a, I(-b[1]), ty=ty)
        if base == 'Div' and b in (('fl', '1.0'), ('i', 1)):
            return a
        if base == 'Div' and b in (('fl', '-1.0'),):
            return self.neg(a, ty)
        return op(base, a, b, ty=ty)

    def flt(self, x, ty):
        """the constant x as a value of the type"""
        if ty is not None and self.T[ty]['s'] == 'f32':
            from teval import f32
            x = f32(x)
        return ('fl', repr(x))

    def neg(self, x, ty):
        if x[0] == 'i':
            return I(-x[1])
        if x[0] == 'fl':
            return ('fl', repr(-float(x[1])))
        if x[0] == 'op' and x[1] == 'neg':
            return x[2][0]
        return op('neg', x, ty=ty)

    def unop(self, st, o, a, dty):
        if o == 'Not':
            if a[0] == 'b':
                return B(not a[1])
            if a[0] == 'op' and a[1] == 'Not':
                return a[2][0]
            return op('Not', a)
        if o == 'Neg':
            return self.neg(a, dty)
        if o == 'PtrMetadata':
            v = self.deep(st, a)
            return self.seq_len(st, v)
        return op(o, a, ty=dty)

    # ---------------------------------------------------------------- ranges
    def rng(self, st, t):
        if t[0] == 'i':
            return (t[1], t[1])
        if t[0] == 'op':
            f = st.facts.get(('rng', t))
            lo, hi = self.rng0(st, t)
            if f is not None:
                lo = f[0] if lo is None else lo if f[0] is None else max(lo, f[0])
                hi = f[1] if hi is None else hi if f[1] is None else min(hi, f[1])
            return (lo, hi)
        f = st.facts.get(('rng', t))
        ty = self.ty_of(t) if self.is_sym(t) else None
        lo, hi = self.int_bounds(ty)
        if f is not None:
            lo = f[0] if lo is None else lo if f[0] is None else max(lo, f[0])
            hi = f[1] if hi is None else hi if f[1] is None else min(hi, f[1])
        return (lo, hi)

    def rng0(self, st, t):
        n, args = t[1], t[2]
        if n == 'len':
            s = args[0]
            return self.seq_len_rng(st, s)
        if n in ('Add', 'Mul', 'neg', 'Sub'):
            rs = [self.rng(st, a) for a in args]
            if any(r[0] is None and r[1] is None for r in rs):
                pass
            if n == 'neg':
                lo, hi = rs[0]
                return (None if hi is None else -hi, None if lo is None else -lo)
            (a, b), (c, d) = rs
            if n == 'Add':
                return (None if a is None or c is None else a + c, None if b is None or d is None else b + d)
            if n == 'Sub':
                return (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
            if None not in (a, b, c, d):
                ps = [a * c, a * d, b * c, b * d]
                return (min(ps), max(ps))
            return (None, None)
        if n == 'cast':
            return self.rng(st, args[0])
        if n == 'parse':
            what = args[0][1]
            lo, hi = self.INTB(what)
            if lo is None:
                return (lo, hi)
            w = self.word(st, args[1])
            if w is not None:
                n, neg = 0, False
                for cs, a, b in w:
                    neg = neg or bool(CS.inter(cs, CS.of('-')))
                    if CS.inter(cs, CS.DIGIT):
                        n = None if n is None or b is None else n + b
                if not neg:
                    lo = 0
                if n is not None:
                    hi = min(hi, 10 ** n - 1)
                    lo = max(lo, 1 - 10 ** n)
            return (lo, hi)
        if n == 'Rem' and args[1][0] == 'i' and args[1][1] > 0:
            m = args[1][1] - 1
            lo, hi = self.rng(st, args[0])
            if lo is not None and lo >= 0:
                return (0, m)
            return (-m, m)
        if n == 'clamp':
            return (args[1][1] if args[1][0] == 'i' else None, args[2][1] if args[2][0] == 'i' else None)
        if n in ('min', 'max'):
            (a, b), (c, d) = self.rng(st, args[0]), self.rng(st, args[1])
            if n == 'min':
                his = [x for x in (b, d) if x is not None]
                return (None if a is None or c is None else min(a, c), min(his) if his else None)
            los = [x for x in (a, c) if x is not None]
            return (max(los) if los else None, None if b is None or d is None else max(b, d))
        return self.int_bounds(t[-1])

    def INTB(self, name):
        b = self.INTBITS.get(name)
        if b is None:
            return (None, None)
        if name[0] == 'i':
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)

    def refine_rng(self, st, t, lo, hi):
        """-> state or None if infeasible"""
        if t[0] == 'i':
            if (lo is not None and t[1] < lo) or (hi is not None and t[1] > hi):
                return None
            return st
        if t[0] == 'op' and t[1] == 'Add' and t[2][1][0] == 'i':
            c = t[2][1][1]
            return self.refine_rng(st, t[2][0], None if lo is None else lo - c, None if hi is None else hi - c)
        if t[0] == 'op' and t[1] == 'len':
            return self.refine_len(st, t[2][0], lo, hi)
        a, b = self.rng(st, t)
        na = a if lo is None else lo if a is None else max(a, lo)
        nb = b if hi is None else hi if b is None else min(b, hi)
        if na is not None and nb is not None and na > nb:
            return None
        return st.fact(('rng', t), (na, nb))

    # ---------------------------------------------------------------- comparisons
    def cmp(self, st, o, a, b):
        if a[0] in ('i', 'c', 'b') and b[0] == a[0]:
            x, y = a[1], b[1]
            return B({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
        if a[0] == 'fl' and b[0] == 'fl':
            x, y = float(a[1]), float(b[1])
            return B({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
        if a[0] == 'b':
            a, b = b, a
            o = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[o]
        if b[0] == 'b' and o in ('Eq', 'Ne'):
            return a if (o == 'Eq') == b[1] else op('Not', a)
        return op(o, a, b)

    def truth(self, st, t):
        """list of (state, bool) partitions"""
        if t[0] == 'b':
            return [(st, t[1])]
        f = st.facts.get(('atom', t))
        if f is not None:
            return [(st, f)]
        if t[0] == 'op':
            n, args = t[1], t[2]
            if n == 'Not':
                return [(s, not b) for s, b in self.truth(st, args[0])]
            if n == 'and':
                out = []
                for s, b in self.truth(st, args[0]):
                    if not b:
                        out.append((s, False))
                    else:
                        out.extend(self.truth(s, args[1]))
                return out
            if n == 'inset':
                out = []
                cs = self.char_cs(st, args[0])
                if cs is not None:
                    yes = CS.inter(cs, args[1][1])
                    no = CS.diff(cs, args[1][1])
                    if yes:
                        out.append((self.refine_char(st, args[0], yes), True))
                    if no:
                        out.append((self.refine_char(st, args[0], no), False))
                    return out
            if n in self.CMP or n in ('overflow', 'parseok'):
                r = self.settled(st, t)
                if r is not None:
                    return [(st, r)]
            if n in self.CMP:
                r = self.truth_cmp(st, n, args[0], args[1])
                if r is not None:
                    return r
            if n == 'streq':
                r = self.truth_streq(st, args[0], args[1], args[2][1])
                if r is not None:
                    return r
        return [(st.fact(('atom', t), True), True), (st.fact(('atom', t), False), False)]

    def settled(self, st, t):
        """the truth of a condition over numbers whose texts the family fixes; None otherwise"""
        def walk(x):
            if x[0] in ('fl', 'i', 'b', 's'):
                return True
            if x[0] in ('str', 'span', 'seg', 'cat'):
                return self.is_strterm(x) and self.concrete(st, x)[0] == 's'
            if x[0] == 'op':
                return not (x[1].startswith('ext:') and not x[1].rsplit('::', 1)[-1].endswith(('fabs', 'f32', 'f64'))) and all(isinstance(y, tuple) and y and (y[0] == 't' or walk(y)) for y in x[2])
            return False
        if not walk(t):
            return None
        from teval import Env, Unknown
        try:
            r = Env(self, st, 0).ev(t)
        except (Unknown, Undecided, ArithmeticError):
            return None
        return r if isinstance(r, bool) else None

    def notnan(self, st, t):
        """a number read from a text which cannot spell NaN"""
        if t[0] == 'fl':
            return t[1].lower() != 'nan'
        if t[0] == 'op' and t[1] in ('cast', 'f2f', 'neg', 'abs'):
            ty = self.ty_of(t[2][0])
            if ty is not None and self.int_bounds(ty)[0] is not None:
                return True
            return self.notnan(st, t[2][0])
        if t[0] == 'op' and t[1] == 'parse':
            cs = self.str_charset(st, t[2][1])
            return cs is not None and not CS.inter(cs, CS.of('nN'))
        return False

    def truth_cmp(self, st, n, a, b):
        if a == b and a[0] in ('op', 'fld', 'sym'):
            ty = self.ty_of(a)
            if ty is not None and (self.int_bounds(ty)[0] is not None or (self.T[ty]['s'] in ('f32', 'f64') and self.notnan(st, a))):
                return [(st, n in ('Eq', 'Le', 'Ge'))]
        # characters
        ca, cb = self.char_cs(st, a), self.char_cs(st, b)
        if ca is not None and cb is not None:
            if a[0] == 'c' and b[0] != 'c':
                a, b, ca, cb = b, a, cb, ca
                n = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[n]
            if b[0] == 'c':
                c = b[1]
                y = {'Eq': ((c, c),), 'Ne': CS.compl(((c, c),)), 'Lt': CS.rng(0, c - 1), 'Le': CS.rng(0, c),
                     'Gt': CS.rng(c + 1, CS.MAXCP), 'Ge': CS.rng(c, CS.MAXCP)}[n]
                return self.truth(st, op('inset', a, ('cs', y)))
            return None
        # discriminants
        if a[0] == 'disc' and b[0] == 'disc' and n in ('Eq', 'Ne'):
            da, db = self.disc_set(st, a[1], a[2]), self.disc_set(st, b[1], b[2])
            out = []
            if len(da) == 1 or len(db) == 1:
                if len(da) == 1:
                    a, b, da, db = b, a, db, da
                (v,) = db
                eq = n == 'Eq'
                if v in da:
                    out.append((st.fact(('disc', a[1]), frozenset([v])), eq))
                if da - {v}:
                    out.append((st.fact(('disc', a[1]), da - {v}), not eq))
                return out
            return None
        if b[0] == 'disc' and a[0] == 'i':
            a, b = b, a
        if a[0] == 'disc' and b[0] == 'i' and n in ('Eq', 'Ne'):
            out = []
            for s, hit in self.split_disc(st, a, [b[1]]):
                out.append((s, (hit is not None) == (n == 'Eq')))
            return out
        # integers
        ra, rb = self.rng(st, a), self.rng(st, b)
        if ra == (None, None) or rb == (None, None):
            return None
        out = []

        def bound(x):
            return x

        if n in ('Gt', 'Ge'):
            a, b, ra, rb = b, a, rb, ra
            n = {'Gt': 'Lt', 'Ge': 'Le'}[n]
        if n in ('Lt', 'Le'):
            k = 1 if n == 'Lt' else 0
            # true: a <= b-k
            s = self.refine_rng(st, a, None, None if rb[1] is None else rb[1] - k)
            if s is not None:
                s = self.refine_rng(s, b, None if ra[0] is None else ra[0] + k, None)
            if s is not None:
                s = s.fact(('atom', op(n, a, b)), True)
                out.append((s, True))
            # false: a >= b + (1-k)  i.e. b <= a-(1-k)
            m = 1 - k
            s = self.refine_rng(st, a, None if rb[0] is None else rb[0] + m, None)
            if s is not None:
                s = self.refine_rng(s, b, None, None if ra[1] is None else ra[1] - m)
            if s is not None:
                s = s.fact(('atom', op(n, a, b)), False)
                out.append((s, False))
            if len(out) == 1:
                return out
            # transitivity with induction-variable facts
            return out
        if n in ('Eq', 'Ne'):
            lo = max([x for x in (ra[0], rb[0]) if x is not None], default=None)
            hi = min([x for x in (ra[1], rb[1]) if x is not None], default=None)
            eqs = None
            if not (lo is not None and hi is not None and lo > hi):
                eqs = self.refine_rng(st, a, lo, hi)
                if eqs is not None:
                    eqs = self.refine_rng(eqs, b, lo, hi)
                if eqs is not None:
                    eqs = eqs.fact(('atom', op('Eq', a, b)), True)
            nes = st
            if ra[0] is not None and ra[0] == ra[1] and ra == rb:
                nes = None
            elif rb[0] is not None and rb[0] == rb[1]:
                c = rb[0]
                if ra[0] == c:
                    nes = self.refine_rng(st, a, c + 1, None)
                elif ra[1] == c:
                    nes = self.refine_rng(st, a, None, c - 1)
            if nes is not None:
                nes = nes.fact(('atom', op('Eq', a, b)), False)
            if eqs is not None:
                out.append((eqs, n == 'Eq'))
            if nes is not None:
                out.append((nes, n != 'Eq'))
            return out
        return None

    def split_disc(self, st, d, vals):
        """d=('disc',term,ty). vals: discriminant values. yields (state, val or None(otherwise))"""
        _, term, ty = d
        cur = self.disc_set(st, term, ty)
        path = self.T[ty]['path']
        vs = self.T[ty]['variants']
        out = []
        left = set(cur)
        for v in vals:
            m = [i for i in cur if vs[i]['discr'] == v]
            if m:
                out.append((st.fact(('disc', term), frozenset(m)), v))
                left -= set(m)
        if left:
            out.append((st.fact(('disc', term), frozenset(left)), None))
        return out

    def split_variant(self, st, v, path=None):
        """concretise a (possibly symbolic) enum value: list of (state, aggregate)"""
        if v[0] == 'A':
            return [(st, v)]
        if self.is_sym(v):
            ty = self.ty_of(v)
            t = self.tyk(ty)
            if t and t['k'] == 'adt' and t.get('enum'):
                out = []
                for vi in sorted(self.disc_set(st, v, ty)):
                    out.append((st.fact(('disc', v), frozenset([vi])), self.expand(v, vi)))
                return out
        return None

    # ---------------------------------------------------------------- execution
    def switch(self, st, v, targets, other):
        """-> list of (state, bb)"""
        if v[0] == 'b':
            v = I(1 if v[1] else 0)
        if v[0] in ('i', 'c'):
            for val, bb in targets:
                if int(val) == v[1]:
                    return [(st, bb)]
            return [(st, other)]
        if v[0] == 'disc':
            _, term, ty = v
            if term[0] == 'entry':
                out = []
                for s, b in self.has_key(st, self.read(st, term[1], term[2]), term[3]):
                    want = 0 if b else 1
                    out.append((s, next((bb for val, bb in targets if int(val) == want), other)))
                return out
            t = self.tyk(ty)
            if t and t.get('variants'):
                cur = self.disc_set(st, term, ty)
                vs = t['variants']
                groups = {}
                left = set(cur)
                for val, bb in targets:
                    m = [i for i in cur if vs[i]['discr'] == int(val)]
                    for i in m:
                        groups.setdefault(bb, set()).add(i)
                        left.discard(i)
                if left:
                    groups.setdefault(other, set()).update(left)
                if len(groups) == 1:
                    return [(st, next(iter(groups)))]
                return [(st.fact(('disc', term), frozenset(g)), bb) for bb, g in groups.items()]
        cs = self.char_cs(st, v)
        if cs is not None:
            out = []
            groups = {}
            left = cs
            for val, bb in targets:
                c = ((int(val), int(val)),)
                if CS.inter(cs, c):
                    groups[bb] = CS.union(groups.get(bb, ()), c)
                    left = CS.diff(left, c)
            if left:
                groups[other] = CS.union(groups.get(other, ()), left)
            for bb, g in groups.items():
                out.append((self.refine_char(st, v, g), bb))
            return out
        # boolean-like?
        isbool = self.is_boolterm(v)
        if isbool:
            out = []
            for s, b in self.truth(st, v):
                n = 1 if b else 0
                for val, bb in targets:
                    if int(val) == n:
                        out.append((s, bb))
                        break
                else:
                    out.append((s, other))
            return out
        # integer term
        lo, hi = self.rng(st, v)
        out = []
        nes = st
        for val, bb in targets:
            val = int(val)
            r = self.truth(nes, op('Eq', v, I(val)))
            nes = None
            for s, b in r:
                if b:
                    out.append((s, bb))
                else:
                    nes = s
            if nes is None:
                break
        if nes is not None:
            out.append((nes, other))
        return out

    BOOLOPS = {'Not', 'and', 'inset', 'streq', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'overflow', 'eqv', 'ieq', 'isempty',
               'contains', 'starts_with', 'ends_with', 'isascii', 'is_nan', 'is_infinite', 'is_finite', 'is_sign_negative',
               'is_sign_positive', 'is_normal', 'is_subnormal', 'is_negative', 'is_positive', 'is_power_of_two', 'is_char_boundary'}

    def is_boolterm(self, v):
        if v[0] == 'op' and v[1] in self.BOOLOPS:
            return True
        t = self.tyk(self.ty_of(v)) if self.is_sym(v) else None
        return bool(t and t['s'] == 'bool')

    WATCH, DEEPEST = frozenset(), 0     # gen.call_depth: activations of the functions of a call cycle at one time

    def exec_fn(self, st, f, args):
        key = f['key']
        if key in self.stack:
            self.recursion.add(f['path'])
            if not self.scenario:
                return [(st, ('sym', self.fresh('rec'), f.get('sig_out')))]
            if self.stack.count(key) > 180:
                # a text of a few dozen tokens does not need this depth
                self.hang(f['path'], f['span'], 'recursion without end', st)
                return []
        if len(self.stack) > (800 if self.scenario else 150):
            raise Undecided('call depth')
        self.stack.append(key)
        if key in self.WATCH:
            n = sum(1 for k in self.stack if k in self.WATCH)
            Interp.DEEPEST = max(Interp.DEEPEST, n)
        self.executed[key] = self.executed.get(key, 0) + 1
        try:
            body = f['body']
            fid = self.fresh('fr')
            fr = {'id': fid, 'f': f, 'body': body}
            st = st.copy()
            if body['spread'] is not None:
                # rust-call ABI with spread: last arg is tuple
                pass
            for i, a in enumerate(args):
                st.cells[(fid, i + 1)] = a
            for i, ty in enumerate(body['locals']):
                self.celltype[(fid, i)] = ty
            res = []
            self.run_region(st, fr, 0, None, None, res)
            out = []
            for kind, s, x in res:
                assert kind == 'ret', kind
                v = s.cells.get((fid, 0), UNIT)
                for c in [c for c in s.cells if c[0] == fid]:
                    del s.cells[c]
                out.append((s, v))
            return self.dedupe(out)
        finally:
            self.stack.pop()

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for s, v in outs:
            k = (v, frozenset(s.cells.items()), frozenset(s.facts.items()))
            if k in seen:
                continue
            seen[k] = True
            res.append((s, v))
        return res

    def run_region(self, st, fr, start, region, header, res):
        """explores from `start`; outcomes appended to res as
        ('ret',st,None) | ('exit',st,bb) | ('back',st,None)"""
        f = fr['f']
        blocks = fr['body']['blocks']
        loops, irr = self.p.loops(f)
        if irr:
            raise Undecided('irreducible control flow in ' + f['path'])
        work = [(start, st, True)]
        steps = 0
        while work:
            bb, st, first = work.pop()
            if not first:
                if header is not None and bb == header:
                    res.append(('back', st, None))
                    continue
                if region is not None and bb not in region:
                    res.append(('exit', st, bb))
                    continue
            if bb in loops and not (first and bb == header):
                outs = self.run_loop(st, fr, bb, loops[bb])
                for k, s, x in outs:
                    if k == 'ret':
                        res.append((k, s, x))
                    else:
                        work.append((x, s, False))
                continue
            self.blocks_run += 1
            self.cov.add((f['key'], bb))
            steps += 1
            if steps > 60000:
                raise Undecided('too many steps in ' + f['path'])
            b = blocks[bb]
            for s in b['s']:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2], s[1][2])
                    c, p = self.place(st, fr, s[1])
                    self.write(st, c, p, v)
                elif s[0] == 'dead':
                    st.cells.pop((fr['id'], s[1]), None)
                elif s[0] == 'sd':
                    c, p = self.place(st, fr, s[1])
                    v = self.read(st, c, p)
                    t = self.tyk(s[1][2])
                    ex = self.expand(('sym', self.fresh('sd'), s[1][2]), s[2])
                    self.write(st, c, p, ex)
            t = b['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], st, False))
            elif k == 'drop':
                work.append((t[2], st, False))
            elif k == 'ret':
                res.append(('ret', st, None))
            elif k == 'switch':
                v = self.operand(st, fr, t[1])
                outs = self.switch(st, v, t[2], t[3])
                for s, nb in outs:
                    work.append((nb, s.copy() if len(outs) > 1 else s, False))
            elif k == 'call':
                outs = self.do_call(st, fr, t)
                if t[4] is None:
                    continue
                for s, v in outs:
                    s = s.copy() if len(outs) > 1 else s
                    c, p = self.place(s, fr, t[3])
                    self.write(s, c, p, v)
                    work.append((t[4], s, False))
            elif k == 'assert':
                cond = self.operand(st, fr, t[1])
                if t[3] == 'other':
                    work.append((t[5], st, False))
                    continue
                site = (f['path'], t[6], t[3])
                cond = self.assert_cond(st, fr, t, cond)
                outs = self.truth(st, cond)
                bad = False
                for s, bv in outs:
                    if bv == t[2]:
                        work.append((t[5], s.copy(), False))
                    else:
                        bad = True
                        self.panic(site[0], site[1], site[2], s)
                if not bad:
                    self.discharged[site] = self.discharged.get(site, 0) + 1
            elif k == 'unreachable' or k == 'resume':
                pass
            else:
                raise Undecided('terminator ' + str(t[:2]))

    def assert_cond(self, st, fr, t, cond):
        return cond

    def panic(self, path, span, kind, st=None, detail=''):
        k = (path, span, kind)
        if k not in self.panics:
            self.panics[k] = {'detail': detail, 'stack': [self.F[x]['path'] for x in self.stack[-6:]], 'states': []}
        if st is not None and len(self.panics[k]['states']) < 40:
            self.panics[k]['states'].append(st.copy())

    def hang(self, path, span, kind, st):
        k = (path, span, kind)
        h = self.hangs.setdefault(k, {'stack': [self.F[x]['path'] for x in self.stack[-6:]], 'states': []})
        if len(h['states']) < 40:
            h['states'].append(st.copy())

    def cur_fn(self):
        return self.F[self.stack[-1]]['path'] if self.stack else '?'

    # ---------------------------------------------------------------- loops
    def run_loop(self, st, fr, hdr, blocks):
        f = fr['f']
        live = self.p.live_at(f, hdr)
        fid = fr['id']
        st = st.copy()
        self.prune(st, fid, live)

        def step(s):
            res = []
            self.run_region(s, fr, hdr, blocks, hdr, res)
            out = []
            for k, s2, x in res:
                if k == 'back':
                    self.prune(s2, fid, live)
                    out.append(('back', s2, None))
                else:
                    out.append(('exit', s2, (k, x)))
            return out
        outs = self.iterate(st, step, '%s@bb%d' % (f['path'], hdr), span=self.span_of(f, hdr))
        return [(tag[0], s, tag[1]) for s, tag in outs]

    def span_of(self, f, bb):
        t = f['body']['blocks'][bb]['t']
        for x in reversed(t):
            if isinstance(x, str) and ':' in x:
                return x
        return f['span']

    def prune(self, st, fid, live):
        keep = set()
        work = [(fid, l) for l in live]
        # cells of this frame referenced (mutably) from live cells or from other frames stay
        allowed = {c for c in st.cells if c[0] != fid}
        work += list(allowed)
        seen = set()
        while work:
            c = work.pop()
            if c in seen or c not in st.cells:
                continue
            seen.add(c)
            for r in refs_in(st.cells[c]):
                if r not in seen:
                    work.append(r)
        for c in list(st.cells):
            if c[0] == fid and c not in seen:
                del st.cells[c]

    def literal_iter(self, st):
        """is there a live iterator over a literal sequence (then unroll)"""
        for c, v in st.cells.items():
            if contains(v, lambda t: isinstance(t, tuple) and t and t[0] == 'iter' and self.iter_literal(st, t)):
                return True
            if v[0] == 'A' and v[1].endswith('ops::Range') and v[3][0][0] == 'i' and v[3][1][0] == 'i':
                return True
        return False

    def iter_literal(self, st, t):
        return t[2][0] == 'L' and isinstance(t[3], int) and len(t[2][1]) <= (6000 if self.scenario else 64)

    def iterate(self, st, step, name, span=''):
        """run a loop given its one-iteration function; returns exit states [(st, tag)]"""
        if self.literal_iter(st):
            r = self.try_unroll(st, step, name, span)
            if r is not None:
                return r
        elif self.scenario:
            r = self.try_unroll(st, step, name, span, 500, 96)
            if r is not None:
                return r
        if self.scenario:
            # the summary of a loop over-approximates: nothing may be alarmed on it
            st = st.fact(('approx', name), True)
        lid = self.fresh('L')
        M = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 14:
                raise Undecided('loop does not stabilise: ' + name)
            g = st.copy()
            for (cell, path), lv in M.items():
                if path and path[-1] == ('cur',):
                    old = self.read_it(g, cell, path[:-1])
                    self.write_it(g, cell, path[:-1], ('iter', old[1], old[2], ('k', lid, 0), old[4]))
                else:
                    self.write_it(g, cell, path, lv)
            gsnap = g.copy()
            outs = step(g)
            new = set()
            for k, s, x in outs:
                if k != 'back':
                    continue
                if rounds == 1 and s.cells == gsnap.cells:
                    self.hang(name, span, 'loop without progress', s)
                for c, v in gsnap.cells.items():
                    if c in s.cells and s.cells[c] != v:
                        self.diffp(v, s.cells[c], c, (), new)
            add = []
            for cp in new:
                if not any(covers(m, cp) for m in M):
                    add.append(cp)
            if not add:
                break
            for cp in add:
                for m in [m for m in M if covers(cp, m)]:
                    del M[m]
                M[cp] = ('lv', lid, self.placename(cp), self.ty_at(st, cp))
        backs = [(s, x) for k, s, x in outs if k == 'back']
        trans = []
        for s, _ in backs:
            ch = {}
            for cp, lv in M.items():
                if cp[1] and cp[1][-1] == ('cur',):
                    continue
                nv = self.read_it(s, cp[0], cp[1])
                if not self.same(nv, lv):
                    ch[cp] = nv
            delta = {k: v for k, v in s.facts.items() if gsnap.facts.get(k) != v}
            trans.append({'facts': delta, 'changes': ch, 'all': s.facts})
        L = {'id': lid, 'name': name, 'span': span, 'lvs': {}, 'trans': trans, 'iters': [], 'nbacks': len(backs)}
        for cp, lv in M.items():
            if cp[1] and cp[1][-1] == ('cur',):
                it = self.read_it(st, cp[0], cp[1][:-1])
                L['iters'].append(it)
            else:
                L['lvs'][lv] = {'place': cp, 'init': self.read_it(st, cp[0], cp[1])}
        # termination evidence: an iterator cursor that advances on every back edge, or
        # an integer place that strictly increases under a bound
        adv = True
        for s, _ in backs:
            if not self.advances(s, gsnap, M, lid):
                adv = False
        L['terminates'] = adv and (bool(backs) or True)
        if not adv:
            self.unbounded[(name, span)] = lid
        self.LOOPS[lid] = L
        result = []
        for k, s, x in outs:
            if k != 'exit':
                continue
            delta = {kk: v for kk, v in s.facts.items() if gsnap.facts.get(kk) != v}
            early = not any(kk[0] == 'exh' and kk[1][1:2] == (lid,) and vv is True for kk, vv in delta.items() if isinstance(kk[1], tuple))
            L.setdefault('exits', []).append({'facts': delta, 'early': early})
            s = s.fact(('loop', lid), 'early' if early else 'done')
            m = {}
            for cp, lv in M.items():
                if cp[1] and cp[1][-1] == ('cur',):
                    continue
                cf = self.closed_form(L, lv, cp, early)
                if cf is not None:
                    m[lv] = cf
            if m:
                s = State({c: subst(v, m) for c, v in s.cells.items()}, {subst(a, m): b for a, b in s.facts.items()})
                x = subst(x, m) if isinstance(x, tuple) else x
            s = self.after_loop(s, L)
            result.append((s, x))
        return result

    def after_loop(self, s, L):
        return s

    def advances(self, s, g, M, lid):
        for cp, lv in M.items():
            if cp[1] and cp[1][-1] == ('cur',):
                try:
                    it = self.read_it(s, cp[0], cp[1][:-1])
                except Undecided:
                    continue
                if it[0] == 'iter' and isinstance(it[3], tuple) and it[3][2] >= 1:
                    return True
            else:
                try:
                    nv = self.read_it(s, cp[0], cp[1])
                except Undecided:
                    continue
                # strictly increasing int under a bound known on this path
                if nv[0] == 'op' and nv[1] == 'Add' and nv[2][0] == lv and nv[2][1][0] == 'i' and nv[2][1][1] > 0:
                    for k, v in s.facts.items():
                        if k[0] == 'atom' and v is True and k[1][0] == 'op' and k[1][1] in ('Lt', 'Le') and k[1][2][0] == lv:
                            return True
                        if k[0] == 'atom' and v is False and k[1][0] == 'op' and k[1][1] == 'Le' and k[1][2][1] == lv:
                            return True
                # stream progress
                if self.stream_progress(s, lv, nv):
                    return True
        return False

    def stream_progress(self, s, lv, nv):
        return False

    def try_unroll(self, st, step, name='', span='', rounds=None, width=None):
        cur = [st]
        result = []
        for n in range(rounds or (6010 if self.scenario else 70)):
            nxt = []
            for s in cur:
                for k, s2, x in step(s.copy()):
                    if k == 'back':
                        if s2.cells == s.cells:
                            # nothing the loop can see has changed: it goes round for ever
                            self.hang(name, span, 'loop without progress', s2)
                            continue
                        nxt.append(s2)
                    else:
                        result.append((s2, x))
            if not nxt:
                return result
            if len(nxt) > (width or (3000 if self.scenario else 200)):
                return None
            cur = nxt
        return None

    def read_it(self, st, cell, path):
        if path and path[0][0] == 'ia':
            v = st.cells[cell]
            for e in path:
                v = v[e[1]]
            return v
        v = st.cells.get(cell)
        if v is None:
            v = ('uninit', str(cell), None)
        for i, e in enumerate(path):
            if e[0] == 'ia':
                v = v[e[1]]
            else:
                v = self.get1(st, v, e)
        return v

    def write_it(self, st, cell, path, nv):
        def setv(v, path):
            if not path:
                return nv
            e = path[0]
            if e[0] == 'ia':
                l = list(v)
                l[e[1]] = setv(v[e[1]], path[1:])
                return tuple(l)
            if any(x[0] == 'ia' for x in path[1:]):
                sub = self.get1(st, v, e)
                return self.setp(st, v, (e,), setv(sub, path[1:]))
            return self.setp(st, v, path, nv) if not any(x[0] == 'ia' for x in path) else None
        st.cells[cell] = setv(st.cells.get(cell, ('uninit', str(cell), self.celltype.get(cell))), path)

    ITERTAGS = {'imap': 1, 'ifilter': 1, 'ienum': 1, 'icloned': 1, 'irev': 1, 'itake': 1, 'iskip': 1, 'ifmap': 1,
                'ichain': 2, 'izip': 2, 'itw': 1, 'iflat': 2, 'ipeek': 1, 'ichunks': 1, 'iinsp': 1}

    def diffp(self, a, b, cell, path, out):
        if a == b:
            return
        if a[0] == 'A' and b[0] == 'A' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            vs = self.p.variants(a[1])
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                if x != y:
                    ty = None
                    if vs:
                        ty = vs[a[2]]['fields'][i]['ty']
                    self.diffp(x, y, cell, path + (('f', a[2], i, ty),), out)
            return
        if a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                if x != y:
                    self.diffp(x, y, cell, path + (('f', 0, i, None),), out)
            return
        if a[0] == 'clo' and b[0] == 'clo' and a[1] == b[1]:
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                if x != y:
                    self.diffp(x, y, cell, path + (('f', 0, i, None),), out)
            return
        if a[0] == 'iter' and b[0] == 'iter' and a[1:3] == b[1:3]:
            out.add((cell, path + (('cur',),)))
            return
        if a[0] in self.ITERTAGS and b[0] == a[0] and len(a) == len(b):
            for i in range(1, len(a)):
                if a[i] != b[i]:
                    if isinstance(a[i], tuple) and isinstance(b[i], tuple):
                        self.diffp(a[i], b[i], cell, path + (('ia', i),), out)
                    else:
                        out.add((cell, path))
            return
        # symbolic struct against its expansion
        if self.is_sym(a) and b[0] in ('A', 'T'):
            ex = self.expand(a, b[2] if b[0] == 'A' else None)
            t = self.tyk(self.ty_of(a))
            if ex is not None and not (t and t.get('enum')):
                return self.diffp(ex, b, cell, path, out)
        if self.is_sym(b) and a[0] in ('A', 'T'):
            ex = self.expand(b, a[2] if a[0] == 'A' else None)
            t = self.tyk(self.ty_of(b))
            if ex is not None and not (t and t.get('enum')):
                return self.diffp(a, ex, cell, path, out)
        out.add((cell, path))

    def same(self, a, b):
        if a == b:
            return True
        d = set()
        self.diffp(a, b, None, (), d)
        return not d

    def placename(self, cp):
        return repr(cp)

    def ty_at(self, st, cp):
        cell, path = cp
        if path and path[-1][0] == 'f' and path[-1][3] is not None:
            return path[-1][3]
        if path and path[-1] == ('cur',):
            return None
        if not path and self.celltype.get(cell) is not None:
            return self.celltype[cell]
        try:
            v = self.read_it(st, cell, path)
            return self.ty_of(v)
        except Exception:
            return None

    def closed_form(self, L, lv, cp, early):
        """sequence accumulators: every transition keeps the place or appends to it"""
        init = L['lvs'][lv]['init']
        if not self.seqlike(init, lv):
            return None
        elems = []
        skips = 0
        for tr in L['trans']:
            nv = tr['changes'].get(cp)
            if nv is None:
                skips += 1
                continue
            app = self.appended(nv, lv)
            if app is None:
                return None
            if len(app) != 1:
                elems.append({'facts': tr['facts'], 'value': None, 'many': app})
            else:
                elems.append({'facts': tr['facts'], 'value': app[0], 'many': None})
        if any(e['many'] for e in elems):
            if all(e['many'] for e in elems) and len(elems) == 1 and len(elems[0]['many']) == 1:
                pass
            return None
        rid = self.fresh('R')
        self.REP[rid] = {'id': rid, 'elems': elems, 'min': 0, 'skips': skips, 'loop': L['id'], 'early': early,
                         'kind': 'loop', 'src': L['iters']}
        # many over-approximation of the non-empty source
        if skips == 0 and not early and len(L['iters']) == 1:
            lo = self.iter_min(L['iters'][0])
            self.REP[rid]['min'] = lo
        rep = ('rep', rid)
        if init == ('L', ()):
            return rep
        return ('cat', (init, rep)) if init[0] != 'cat' else ('cat', init[1] + (rep,))

    def iter_min(self, it):
        if it[0] == 'iter' and it[3] == 0:
            s = it[2]
            if s[0] == 'rep':
                return self.REP[s[1]]['min']
            if s[0] == 'L':
                return len(s[1])
        return 0

    def seqlike(self, v, lv):
        if v[0] in ('L', 'rep', 'cat', 'sfx'):
            return True
        t = self.tyk(lv[-1])
        if t and t.get('k') == 'adt' and t['path'].endswith('vec::Vec'):
            return True
        return False

    def appended(self, nv, lv):
        """nv == lv ++ xs -> list xs"""
        if nv[0] == 'cat' and nv[1][0] == lv:
            out = []
            for part in nv[1][1:]:
                if part[0] == 'L':
                    out.extend(part[1])
                else:
                    return None
            return out
        return None

    # element of an abstract sequence given by alternatives
    def materialise(self, st, rid):
        R = self.REP[rid]
        out = []
        names = R.get('names')
        if names is None:
            names = set()
            for e in R['elems']:
                collect_names(e['value'], names)
                for k, v in e['facts'].items():
                    collect_names(k, names)
            names = {n for n in names if n[0] == '$'}
            R['names'] = names
        m = {n: self.fresh('$') for n in names}
        for i, e in enumerate(R['elems']):
            s = st.copy()
            okk = True
            for k, v in e['facts'].items():
                k2 = subst(k, m)
                v2 = subst(v, m) if isinstance(v, tuple) else v
                if k2 in s.facts and s.facts[k2] != v2:
                    if k2[0] == 'disc':
                        v2 = s.facts[k2] & v2
                        if not v2:
                            okk = False
                    elif k2[0] == 'atom':
                        okk = False
                s.facts[k2] = v2
            if not okk:
                continue
            s.facts[('mat', rid, m.get(R.get('stream'), R.get('stream')))] = i
            out.append((s, subst(e['value'], m)))
        return out


def collect_names(t, out):
    if isinstance(t, tuple):
        for x in t:
            collect_names(x, out)
    elif isinstance(t, str) and t.startswith('$'):
        out.add(t)


def refs_in(v):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == 'ref':
                if not (isinstance(t[1], tuple) and t[1] and t[1][0] == 'K'):
                    out.append(t[1])
                    return
            for x in t:
                go(x)
    go(v)
    return out


def covers(m, cp):
    """place m is cp or a prefix of it"""
    return m[0] == cp[0] and cp[1][:len(m[1])] == m[1]
