"""Sets and ordered maps.  A set is a map to (): the terms are those of maps, so membership forks on the equality of
elements as keys do.  A hash set or map is read in insertion order and in reverse (its order is unspecified: what depends
on it is found by following both); an ordered one in the order of its elements, when they are known."""
from core import *


def ordered(t):
    return (t.get('path') or '').split('::')[-1] in ('BTreeMap', 'BTreeSet')


def mapkind(t):
    """'map', 'set' or None for a type"""
    n = (t.get('path') or '').split('::')[-1]
    return {'HashMap': 'map', 'BTreeMap': 'map', 'HashSet': 'set', 'BTreeSet': 'set'}.get(n)


class SetModels:
    def keyed_iter(self, st, v, loc, t, what, mode):
        """the iterators over a map or set value v of type t; loc: its place, for mutable values.  None: not resolved"""
        es = self.map_entries(st, v) if self.scenario else None
        if es is None:
            return None
        args = t.get('args') or []
        kt = self.T[args[0]] if args else {}
        srt = ordered(t)
        if srt and len(es) > 1:
            ks = [self.concrete(st, k) if self.is_strterm(k) else k for k, _ in es]
            if all(k[0] == 's' for k in ks):
                key = [k[1].encode('utf-8', 'surrogatepass') for k in ks]
            elif all(k[0] == 'i' for k in ks) or all(k[0] == 'c' for k in ks):
                key = [k[1] for k in ks]
            else:
                return None
            es = [es[i] for i in sorted(range(len(es)), key=lambda i: key[i])]
        out = []
        for k, x in es:
            if mode == 'mut':
                r = ('ref', loc[0], loc[1] + (('ent', k, None, args[1] if len(args) > 1 else None),))
            else:
                r = x if mode == 'val' else kref(x)
            kk = kref(k) if kt.get('k') == 'ref' else k
            if mode != 'val':
                kk = kref(kk)
            out.append({'items': ('T', (kk, r)), 'keys': kk, 'values': r}[what])
        if srt or len(out) < 2:
            return [(st, ('iter', 'val', ('L', tuple(out)), 0, None))]
        rs = []
        if self.map_order != 'rev':
            rs.append((st, ('iter', 'val', ('L', tuple(out)), 0, None)))
        if self.map_order != 'fwd':
            rs.append((st.copy(), ('iter', 'val', ('L', tuple(out[::-1])), 0, None)))
        return rs

    def self_type(self, f):
        t = self.T[f['sig_in'][0]]
        while t['k'] == 'ref':
            t = self.T[t['elem']]
        return t

    def _it(what, mode):
        def m(self, st, f, a, o):
            t = self.self_type(f)
            if not mapkind(t):
                return None
            v = self.read(st, a[0][1], a[0][2]) if a[0][0] == 'ref' else self.rd(st, a[0]) if mode != 'val' else a[0]
            return self.keyed_iter(st, v, a[0][1:3] if a[0][0] == 'ref' else None, t, what, mode)
        return m

    in_HashSet_iter = in_BTreeSet_iter = _it('keys', 'ref')
    in_HashSet_into_iter = in_BTreeSet_into_iter = _it('keys', 'val')
    in_BTreeMap_iter = _it('items', 'ref')
    in_BTreeMap_iter_mut = _it('items', 'mut')
    in_BTreeMap_keys = _it('keys', 'ref')
    in_BTreeMap_values = _it('values', 'ref')
    in_BTreeMap_values_mut = _it('values', 'mut')
    in_BTreeMap_into_iter = _it('items', 'val')
    in_BTreeMap_into_keys = _it('keys', 'val')
    in_BTreeMap_into_values = _it('values', 'val')

    def _drain(what):
        def m(self, st, f, a, o):
            v = self.read(st, a[0][1], a[0][2])
            r = self.keyed_iter(st, v, None, self.self_type(f), what, 'val')
            if r is None:
                return None
            out = []
            for s, it in r:
                s = s.copy()
                self.write(s, a[0][1], a[0][2], ('mnew',))
                out.append((s, it))
            return out
        return m

    in_HashMap_drain = _drain('items')
    in_HashSet_drain = _drain('keys')

    def in_HashSet_new(self, st, f, a, o):
        return [(st, ('mnew',))]

    in_HashSet_with_capacity = in_BTreeSet_new = in_HashSet_new

    def in_HashSet_insert(self, st, f, a, o):
        v, key = self.read(st, a[0][1], a[0][2]), self.deep(st, a[1])
        out = []
        for s, b in self.has_key(st, v, key):
            s = s.copy()
            if not b:
                self.write(s, a[0][1], a[0][2], self.map_set(v, key, UNIT, s))
            out.append((s, B(not b)))
        return out

    in_BTreeSet_insert = in_HashSet_insert

    def in_HashSet_contains(self, st, f, a, o):
        return [(s, B(b)) for s, b in self.has_key(st, self.rd(st, a[0]), self.deep(st, a[1]))]

    in_BTreeSet_contains = in_HashSet_contains

    def in_HashSet_get(self, st, f, a, o):
        key = self.deep(st, a[1])
        return [(s, some(kref(key)) if b else NONE) for s, b in self.has_key(st, self.rd(st, a[0]), key)]

    in_BTreeSet_get = in_HashSet_get

    def in_HashSet_remove(self, st, f, a, o):
        if not self.scenario:
            return None
        v, key = self.read(st, a[0][1], a[0][2]), self.deep(st, a[1])
        out = []
        for s, b in self.has_key(st, v, key):
            s = s.copy()
            if b:
                self.write(s, a[0][1], a[0][2], self.map_del(s, v, key))
            out.append((s, B(b)))
        return out

    in_BTreeSet_remove = in_HashSet_remove

    def _len(self, st, f, a, o):
        es = self.map_entries(st, self.rd(st, a[0]))
        return None if es is None else [(st, I(len(es)))]

    in_HashSet_len = in_BTreeSet_len = in_BTreeMap_len = _len

    def _empty(self, st, f, a, o):
        v = self.rd(st, a[0])
        return [(st, B(v[0] == 'mnew'))] if v[0] in ('mnew', 'mset') else None

    in_HashSet_is_empty = in_BTreeSet_is_empty = in_BTreeMap_is_empty = _empty

    def _clear(self, st, f, a, o):
        st = st.copy()
        self.write(st, a[0][1], a[0][2], ('mnew',))
        return [(st, UNIT)]

    in_HashSet_clear = in_BTreeSet_clear = in_BTreeMap_clear = _clear

    def in_HashSet_reserve(self, st, f, a, o):
        return [(st, UNIT)]

    in_HashSet_shrink_to_fit = in_HashSet_reserve

    def in_BTreeMap_remove(self, st, f, a, o):
        return self.in_HashMap_remove(st, f, a, o)

    def _end(i, pair):
        def m(self, st, f, a, o):
            r = self.keyed_iter(st, self.rd(st, a[0]), None, self.self_type(f), 'items' if pair else 'keys', 'ref')
            return None if r is None else [(s, some(it[2][1][i]) if it[2][1] else NONE) for s, it in r]
        return m

    in_BTreeSet_first, in_BTreeSet_last = _end(0, False), _end(-1, False)
    in_BTreeMap_first_key_value, in_BTreeMap_last_key_value = _end(0, True), _end(-1, True)

    # ------------------------------------------------------------ conversions
    def tr_IntoIterator_into_iter(self, st, f, a, o):
        t = self.T[f['sig_in'][0]]
        mut = ref = False
        if t['k'] == 'ref':
            mut, ref, t = t.get('mut'), True, self.T[t['elem']]
        k = mapkind(t) if t['k'] == 'adt' else None
        if k == 'set' or k and ordered(t):
            what = 'keys' if k == 'set' else 'items'
            v = self.rd(st, a[0]) if ref else a[0]
            return self.keyed_iter(st, v, a[0][1:3] if ref and mut else None, t, what, 'mut' if mut else 'ref' if ref else 'val')
        return super().tr_IntoIterator_into_iter(st, f, a, o)

    def put_all(self, st, it, acc, kind):
        def body(s, acc, x):
            k, v = (x, UNIT) if kind == 'set' else self.untuple(x)
            k = self.deep(s, k)
            out = []
            for s2 in self.map_cases(s, acc, k):
                out.append((s2, 'back', acc if kind == 'set' and self.has_key(s2, acc, k)[0][1] else self.map_set(acc, k, v, s2)))
            return out
        return [(s, v) for s, _, v in self.consume(st, it, acc, body, self.cur_fn() + '::collect')]

    def collect_into(self, st, it, t, o):
        k = mapkind(t)
        if k == 'set':
            return self.put_all(st, it, ('mnew',), k)
        return super().collect_into(st, it, t, o)

    def _with_arg(name, i):
        """the operation with its argument i, where that is a map or set, turned into an iterator first"""
        def m(self, st, f, a, o):
            t = self.T[f['sig_in'][i]] if len(f.get('sig_in') or []) > i else {}
            ref = t.get('k') == 'ref'
            if ref:
                t = self.T[t['elem']]
            if t.get('k') != 'adt' or not mapkind(t):
                return getattr(self, name)(st, f, a, o)
            rs = self.keyed_iter(st, self.rd(st, a[i]) if ref else a[i], None, t, 'keys' if mapkind(t) == 'set' else 'items', 'ref' if ref else 'val')
            out = []
            for s, it in rs or []:
                r = getattr(self, name)(s, f, a[:i] + [it] + a[i + 1:], o)
                if r is None:
                    return None
                out += r
            return out if rs is not None else None
        return m

    tr_Extend_extend = _with_arg('extend1', 1)
    tr_FromIterator_from_iter = _with_arg('from_iter1', 0)
    tr_Iterator_chain = _with_arg('chain1', 1)

    def from_iter1(self, st, f, a, o):
        return super().tr_FromIterator_from_iter(st, f, a, o)

    def chain1(self, st, f, a, o):
        return super().tr_Iterator_chain(st, f, a, o)

    def extend1(self, st, f, a, o):
        r = a[0]
        t = self.self_type(f)
        k = mapkind(t) if t['k'] == 'adt' else None
        if not k:
            return super().tr_Extend_extend(st, f, a, o)
        out = []
        for s, it in self.as_iter(st, a[1], None):
            for s2, v in self.put_all(s, it, self.read(s, r[1], r[2]), k):
                s2 = s2.copy()
                self.write(s2, r[1], r[2], v)
                out.append((s2, UNIT))
        return out

    def tr_From_from(self, st, f, a, o):
        t = self.T[o] if o is not None else {}
        if mapkind(t) and a[0][0] == 'L' and self.scenario:
            cur = [(st, ('mnew',))]
            for e in a[0][1]:
                nxt = []
                for s, m in cur:
                    k, v = (e, UNIT) if mapkind(t) == 'set' else (e[1][0], e[1][1])
                    k = self.deep(s, k)
                    nxt += [(s2, self.map_set(m, k, v, s2)) for s2 in self.map_cases(s, m, k)]
                cur = nxt
            return cur
        return super().tr_From_from(st, f, a, o)

    def default_of(self, st, ty):
        t = self.T[ty]
        if t['k'] == 'adt' and mapkind(t):
            return ('mnew',)
        return super().default_of(st, ty)

    def tr_Default_default(self, st, f, a, o):
        if o is not None and self.T[o]['k'] == 'adt' and mapkind(self.T[o]):
            return [(st, ('mnew',))]
        return super().tr_Default_default(st, f, a, o)
