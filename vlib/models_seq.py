"""Sequences whose elements are known (most token lists of a scenario): the rest of the iterator, slice and Vec
operations.  Everything here either gives the exact result or returns None, which leaves the call to the more
general models (or to an opaque value, that is: undecided)."""
from core import *

OPT = 'std::option::Option'


def _none(self, *a):
    return None


class SeqModels:
    # ------------------------------------------------------------ reading iterators from the back
    def known_items(self, st, it):
        """[(state, [elements])] for a finite iterator over known elements, None otherwise"""
        out, cur, n = [], [(st, it, [])], 0
        while cur:
            s, i, acc = cur.pop()
            n += 1
            if n > 4000 or not self.exact_source(s, i):
                return None
            for s2, x, i2 in self.iter_next(s, i):
                if x is None:
                    out.append((s2, acc))
                elif isinstance(x, str):
                    return None
                else:
                    cur.append((s2, i2, acc + [x]))
        return out

    def exact_source(self, st, it):
        k = it[0]
        if k == 'ref':
            return self.exact_source(st, self.read(st, it[1], it[2]))
        if k == 'iter':
            seq = self.iter_at(st, it[2]) if it[1] == 'mut' else it[2]
            return seq[0] == 'L' and isinstance(it[3], int)
        if k in ('imap', 'icloned', 'iinsp', 'ifilter', 'ifmap', 'itw', 'imw', 'ienum'):
            return self.exact_source(st, it[1])
        if k in ('ichain',):
            return self.exact_source(st, it[1]) and self.exact_source(st, it[2])
        if k == 'izip':
            return self.exact_source(st, it[1]) or self.exact_source(st, it[2])
        if k == 'ipeek':
            return self.exact_source(st, it[1])
        if k == 'ichars':
            return it[1][0] == 's'
        if k == 'A' and it[1].endswith('ops::Range'):
            return it[3][0][0] == 'i' and it[3][1][0] == 'i'
        return False

    def reverse_iter(self, st, it):
        """the iterator that yields the remaining elements of `it` last to first: [(state, iterator)] or None"""
        k = it[0]
        if k == 'iter' and isinstance(it[3], int):
            if it[1] == 'mut':
                seq = self.iter_at(st, it[2])
                if seq[0] != 'L':
                    return None
                refs = tuple(('ref', it[2][1], it[2][2] + (('idx', I(i), it[4]),)) for i in range(it[3], len(seq[1])))
                return [(st, ('iter', 'val', ('L', refs[::-1]), 0, None))]
            if it[2][0] != 'L':
                return None
            return [(st, ('iter', it[1], ('L', it[2][1][it[3]:][::-1]), 0, it[4]))]
        if k in ('imap', 'icloned', 'iinsp', 'ifilter', 'ifmap'):
            r = self.reverse_iter(st, it[1])
            return None if r is None else [(s, (k, x) + it[2:]) for s, x in r]
        if k == 'ichain':
            a, b = self.reverse_iter(st, it[1]), self.reverse_iter(st, it[2])
            if a is None or b is None:
                return None
            return [(st, ('ichain', b[0][1], a[0][1]))] if len(a) == len(b) == 1 else None
        if k in ('ienum', 'izip', 'A', 'ichars') and self.exact_source(st, it):
            r = self.known_items(st, it)
            return None if r is None else [(s, ('iter', 'val', ('L', tuple(x[::-1])), 0, None)) for s, x in r]
        return None

    def tr_DoubleEndedIterator_next_back(self, st, f, a, o):
        if f['crate'] == self.p.d['crate']:
            return None
        r = a[0]
        v = self.read(st, r[1], r[2])
        at = r
        while v[0] == 'ref':
            at, v = v, self.read(st, v[1], v[2])
        if v[0] == 'ichars' and v[1][0] == 's':
            t = v[1][1]
            if not t:
                return [(st, NONE)]
            s = st.copy()
            self.write(s, at[1], at[2], ('ichars', S(t[:-1])))
            return [(s, some(('c', ord(t[-1]))))]
        if v[0] in self.ITERTAGS or v[0] == 'iter' and v[1] == 'mut' or v[0] == 'A' and v[1].endswith('ops::Range'):
            out = self.back_step(st, at, v)
            if out is not None:
                return [(s, NONE if x is None else some(x)) for s, x in out]
        return super().tr_DoubleEndedIterator_next_back(st, f, [at] + a[1:], o)

    def back_step(self, st, at, v):
        rv = self.reverse_iter(st, v)
        if rv is None:
            return None
        out = []
        for s, r in rv:
            for s2, x, r2 in self.iter_next(s, r):
                if isinstance(x, str):
                    return None
                b = self.reverse_iter(s2, r2)
                if b is None:
                    return None
                for s3, v3 in b:
                    s3 = s3.copy()
                    self.write(s3, at[1], at[2], v3)
                    out.append((s3, x))
        return out

    def tr_Iterator_rev(self, st, f, a, o):
        if not (a[0][0] == 'iter' and a[0][3] == 0 and a[0][1] != 'mut'):
            r = self.reverse_iter(st, a[0])
            if r is not None:
                return r
        return super().tr_Iterator_rev(st, f, a, o)

    def is_iter(self, v):
        return v[0] in ('iter', 'ichars') or v[0] in self.ITERTAGS or v[0] == 'A' and v[1].endswith('ops::Range')

    def under(self, st, v):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        return v

    def tr_Iterator_nth(self, st, f, a, o):
        if f['crate'] == self.p.d['crate'] or a[0][0] != 'ref' or a[1][0] != 'i' or a[1][1] > 200 \
                or not self.is_iter(self.under(st, a[0])):
            return super().tr_Iterator_nth(st, f, a, o)
        cur, out = [(st, 0)], []
        while cur:
            s, n = cur.pop()
            for s2, x, _ in self.iter_next(s, a[0]):
                if isinstance(x, str):
                    raise Undecided('filtered iterator advanced by hand')
                if x is None:
                    out.append((s2, NONE))
                elif n == a[1][1]:
                    out.append((s2, some(x)))
                else:
                    cur.append((s2, n + 1))
        return out

    def tr_DoubleEndedIterator_nth_back(self, st, f, a, o):
        if a[1][0] != 'i' or a[1][1] > 200:
            return None
        cur, out = [(st, 0)], []
        while cur:
            s, n = cur.pop()
            r = self.tr_DoubleEndedIterator_next_back(s, f, a[:1], o)
            if r is None:
                return None
            for s2, x in r:
                if x == NONE or n == a[1][1]:
                    out.append((s2, x))
                else:
                    cur.append((s2, n + 1))
        return out

    def back_consumer(front):
        def m(self, st, f, a, o):
            r = a[0]
            at = None
            v = r
            while v[0] == 'ref':
                at, v = v, self.read(st, v[1], v[2])
            rv = self.reverse_iter(st, v)
            if rv is None:
                return None
            out = []
            for s, it in rv:
                g = getattr(self, 'tr_Iterator_' + front)(s, f, [it] + list(a[1:]), o)
                if g is None:
                    return None
                out += g
            return out
        return m
    tr_DoubleEndedIterator_rfind = back_consumer('find')
    tr_DoubleEndedIterator_rfold = back_consumer('fold')

    def tr_Iterator_rposition(self, st, f, a, o):
        v = self.under(st, a[0])
        k = self.known_items(st, v)
        rv = self.reverse_iter(st, v)
        if k is None or rv is None or len(k) != 1 or len(rv) != 1:
            return None
        n = len(k[0][1])
        r = self.tr_Iterator_position(rv[0][0], f, [rv[0][1]] + list(a[1:]), o)
        out = []
        for s, x in r:
            if x == NONE:
                out.append((s, x))
            elif x[0] == 'A' and x[3][0][0] == 'i':
                out.append((s, some(I(n - 1 - x[3][0][1]))))
            else:
                return None
        return out

    # the remaining consumers, over known elements
    def over_items(fn):
        def m(self, st, f, a, o):
            r = self.known_items(st, a[0])
            if r is None:
                return None
            out = []
            for s, xs in r:
                g = fn(self, s, f, a, o, xs)
                if g is None:
                    return None
                out += g
            return out
        return m

    def tr_Iterator_step_by(self, st, f, a, o):
        if a[1][0] != 'i' or a[1][1] <= 0:
            return None
        r = self.known_items(st, a[0])
        return None if r is None else [(s, ('iter', 'val', ('L', tuple(x[::a[1][1]])), 0, None)) for s, x in r]

    def tr_Iterator_skip(self, st, f, a, o):
        r = super().tr_Iterator_skip(st, f, a, o)
        if r is not None or a[1][0] != 'i':
            return r
        if a[0][0] == 'ref':
            return None
        k = self.known_items(st, a[0])
        return None if k is None else [(s, ('iter', 'val', ('L', tuple(x[a[1][1]:])), 0, None)) for s, x in k]

    def tr_Iterator_take(self, st, f, a, o):
        it, n = a
        r = super().tr_Iterator_take(st, f, a, o)
        if r is not None or n[0] != 'i':
            return r
        if it[0] == 'ref':
            if not self.is_iter(self.under(st, it)) or n[1] > 200:
                return None
            out, cur = [], [(st, [])]
            while cur:
                s, acc = cur.pop()
                if len(acc) == n[1]:
                    out.append((s, ('iter', 'val', ('L', tuple(acc)), 0, None)))
                    continue
                for s2, x, _ in self.iter_next(s, it):
                    if isinstance(x, str):
                        return None
                    if x is None:
                        out.append((s2, ('iter', 'val', ('L', tuple(acc)), 0, None)))
                    else:
                        cur.append((s2, acc + [x]))
            return out
        k = self.known_items(st, it)
        return None if k is None else [(s, ('iter', 'val', ('L', tuple(x[:n[1]])), 0, None)) for s, x in k]

    def tr_Iterator_skip_while(self, st, f, a, o):
        k = self.known_items(st, a[0])
        if k is None:
            return None
        out = []
        for s, xs in k:
            s = s.copy()
            cc = self.new_cell(s, a[1])
            cur = [(s, 0)]
            while cur:
                s1, i = cur.pop()
                if i == len(xs):
                    out.append((s1, ('iter', 'val', ('L', ()), 0, None)))
                    continue
                for s2, v in self.call_value(s1, ('ref', cc, ()), [kref(xs[i])]):
                    for s3, b in self.truth(s2, v):
                        if b:
                            cur.append((s3, i + 1))
                        else:
                            out.append((s3, ('iter', 'val', ('L', tuple(xs[i:])), 0, None)))
        return out

    def tr_Iterator_flat_map(self, st, f, a, o):
        k = self.known_items(st, a[0])
        if k is None:
            return None
        out = []
        for s, xs in k:
            s = s.copy()
            cc = self.new_cell(s, a[1])
            cur = [(s, 0, [])]
            while cur:
                s1, i, acc = cur.pop()
                if i == len(xs):
                    out.append((s1, ('iter', 'val', ('L', tuple(acc)), 0, None)))
                    continue
                for s2, v in self.call_value(s1, ('ref', cc, ()), [xs[i]]):
                    g = self.items_of(s2, v)
                    if g is None:
                        return None
                    cur += [(s3, i + 1, acc + y) for s3, y in g]
        return out

    def items_of(self, st, v):
        if v[0] == 'L':
            return [(st, list(v[1]))]
        if v[0] == 'A' and v[1] == OPT:
            return [(st, list(v[3]))]
        if v[0] == 'A' and v[1] == 'std::result::Result':
            return [(st, list(v[3]) if v[2] == 0 else [])]
        if v[0] == 'ref':
            w = self.read(st, v[1], v[2])
            if w[0] == 'L':
                return [(st, [kref(x) for x in w[1]])]
        if self.is_iter(v):
            return self.known_items(st, v)
        if self.is_sym(v):
            t = self.tyk(self.ty_of(v)) or {}
            if t.get('path') == OPT:
                return [(s, list(x[3])) for s, x in self.split_variant(st, v) or []] or None
        return None

    @over_items
    def tr_Iterator_flatten(self, st, f, a, o, xs):
        cur = [(st, [])]
        for x in xs:
            nxt = []
            for s, acc in cur:
                g = self.items_of(s, x)
                if g is None:
                    return None
                nxt += [(s2, acc + y) for s2, y in g]
            cur = nxt
        return [(s, ('iter', 'val', ('L', tuple(acc)), 0, None)) for s, acc in cur]

    def tr_Iterator_try_fold(self, st, f, a, o):
        src = a[0]
        if not self.exact_source(st, src):
            return super().tr_Iterator_try_fold(st, f, a, o)
        t = self.T[o]
        p = t.get('path', '')
        good = {'std::result::Result': 0, OPT: 1, 'std::ops::ControlFlow': 0}.get(p)
        if good is None:
            return None
        st = st.copy()
        cc = self.new_cell(st, a[2])
        out, cur = [], [(st, src, a[1])]
        while cur:
            s, it, acc = cur.pop()
            for s2, x, it2 in self.iter_next(s, it):
                if isinstance(x, str):
                    return None
                if x is None:
                    if good == 0 and p.endswith('Result'):
                        out.append((s2, ok(acc)))
                    elif p == OPT:
                        out.append((s2, some(acc)))
                    else:
                        out.append((s2, ('A', p, 0, (acc,))))
                    continue
                for s3, v in self.call_value(s2, ('ref', cc, ()), [acc, x]):
                    for s4, w in self.split_variant(s3, v) or [(None, None)]:
                        if s4 is None:
                            return None
                        if w[2] == good:
                            cur.append((s4, it2, w[3][0]))
                        else:
                            out.append((s4, w))
        return out

    def tr_Iterator_try_for_each(self, st, f, a, o):
        src = a[0]
        if not self.exact_source(st, src):
            return None
        p = self.T[o].get('path', '')
        good = {'std::result::Result': 0, OPT: 1, 'std::ops::ControlFlow': 0}.get(p)
        if good is None:
            return None
        st = st.copy()
        cc = self.new_cell(st, a[1])
        out, cur = [], [(st, src)]
        while cur:
            s, it = cur.pop()
            for s2, x, it2 in self.iter_next(s, it):
                if isinstance(x, str):
                    return None
                if x is None:
                    out.append((s2, ok(UNIT) if p.endswith('Result') else some(UNIT) if p == OPT else ('A', p, 0, (UNIT,))))
                    continue
                for s3, v in self.call_value(s2, ('ref', cc, ()), [x]):
                    for s4, w in self.split_variant(s3, v) or [(None, None)]:
                        if s4 is None:
                            return None
                        if w[2] == good:
                            cur.append((s4, it2))
                        else:
                            out.append((s4, w))
        return out

    def tr_Iterator_reduce(self, st, f, a, o):
        k = self.known_items(st, a[0])
        if k is None:
            return None
        out = []
        for s, xs in k:
            if not xs:
                out.append((s, NONE))
                continue
            s = s.copy()
            cc = self.new_cell(s, a[1])
            cur = [(s, xs[0])]
            for x in xs[1:]:
                cur = [r for s1, acc in cur for r in self.call_value(s1, ('ref', cc, ()), [acc, x])]
            out += [(s1, some(acc)) for s1, acc in cur]
        return out

    def tr_Iterator_partition(self, st, f, a, o):
        k = self.known_items(st, a[0])
        if k is None:
            return None
        out = []
        for s, xs in k:
            s = s.copy()
            cc = self.new_cell(s, a[1])
            cur = [(s, (), ())]
            for x in xs:
                nxt = []
                for s1, l, r in cur:
                    for s2, v in self.call_value(s1, ('ref', cc, ()), [kref(x)]):
                        for s3, b in self.truth(s2, v):
                            nxt.append((s3, l + (x,), r) if b else (s3, l, r + (x,)))
                cur = nxt
            t = self.T[o]
            if t['k'] != 'tuple':
                return None
            out += [(s1, ('T', (('L', l), ('L', r)))) for s1, l, r in cur]
        return out

    @over_items
    def tr_Iterator_unzip(self, st, f, a, o, xs):
        if not all(x[0] == 'T' for x in xs):
            return None
        return [(st, ('T', (('L', tuple(x[1][0] for x in xs)), ('L', tuple(x[1][1] for x in xs)))))]

    # ------------------------------------------------------------ Vec and slice
    def plist(self, st, r):
        if r[0] != 'ref':
            return None
        v = self.read(st, r[1], r[2])
        return v[1] if v[0] == 'L' else None

    def put(self, st, r, items, res):
        s = st.copy()
        self.write(s, r[1], r[2], ('L', tuple(items)))
        return [(s, res)]

    def in_Vec_remove(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None or a[1][0] != 'i':
            return None
        i = a[1][1]
        if i >= len(l):
            self.panic_here(st, 'remove out of bounds')
            return []
        return self.put(st, a[0], l[:i] + l[i + 1:], l[i])

    def in_Vec_swap_remove(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None or a[1][0] != 'i':
            return None
        i = a[1][1]
        if i >= len(l):
            self.panic_here(st, 'swap_remove out of bounds')
            return []
        n = list(l)
        x = n[i]
        n[i] = n[-1]
        return self.put(st, a[0], n[:-1], x)

    def in_Vec_insert(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is not None and a[1][0] == 'i':
            i = a[1][1]
            if i > len(l):
                self.panic_here(st, 'insert out of bounds')
                return []
            return self.put(st, a[0], l[:i] + (a[2],) + l[i:], UNIT)
        return super().in_Vec_insert(st, f, a, o)

    def in_Vec_truncate(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is not None and a[1][0] == 'i':
            return self.put(st, a[0], l[:a[1][1]], UNIT)
        return super().in_Vec_truncate(st, f, a, o)

    def in_Vec_drain(self, st, f, a, o):
        l = self.plist(st, a[0])
        rp = self.range_parts(st, a[1])
        if l is not None and rp is not None and rp[0][0] == 'i' and (rp[1] is None or rp[1][0] == 'i'):
            x, y = rp[0][1], len(l) if rp[1] is None else rp[1][1]
            if x > y or y > len(l):
                self.panic_here(st, 'drain out of bounds')
                return []
            return self.put(st, a[0], l[:x] + l[y:], ('iter', 'val', ('L', l[x:y]), 0, None))
        return super().in_Vec_drain(st, f, a, o)

    def in_Vec_split_off(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None or a[1][0] != 'i':
            return None
        if a[1][1] > len(l):
            self.panic_here(st, 'split_off out of bounds')
            return []
        return self.put(st, a[0], l[:a[1][1]], ('L', l[a[1][1]:]))

    def in_Vec_resize(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None or a[1][0] != 'i' or a[1][1] > 500:
            return None
        return self.put(st, a[0], (l + (a[2],) * max(0, a[1][1] - len(l)))[:a[1][1]], UNIT)

    def in_slice_reverse(self, st, f, a, o):
        l = self.plist(st, a[0])
        return None if l is None else self.put(st, a[0], l[::-1], UNIT)

    def in_slice_swap(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None or a[1][0] != 'i' or a[2][0] != 'i':
            return None
        i, j = a[1][1], a[2][1]
        if max(i, j) >= len(l):
            self.panic_here(st, 'swap out of bounds')
            return []
        n = list(l)
        n[i], n[j] = n[j], n[i]
        return self.put(st, a[0], n, UNIT)

    def keep_each(self, st, r, l, clo, dd=False):
        st = st.copy()
        cc = self.new_cell(st, clo)
        cur = [(st, ())]
        for x in l:
            nxt = []
            for s, acc in cur:
                for s2, v in self.call_value(s, ('ref', cc, ()), [kref(x)]):
                    for s3, b in self.truth(s2, v):
                        nxt.append((s3, acc + (x,) if b else acc))
            cur = nxt
        return [q for s, acc in cur for q in self.put(s, r, acc, UNIT)]

    def in_Vec_retain(self, st, f, a, o):
        l = self.plist(st, a[0])
        return None if l is None else self.keep_each(st, a[0], l, a[1])

    def in_Vec_dedup(self, st, f, a, o):
        l = self.plist(st, a[0])
        if l is None:
            return None
        cur = [(st, ())]
        for x in l:
            nxt = []
            for s, acc in cur:
                if not acc:
                    nxt.append((s, (x,)))
                    continue
                for s2, b in self.eq_fork(s, self.deep(s, acc[-1]), self.deep(s, x)):
                    nxt.append((s2, acc if b else acc + (x,)))
            cur = nxt
        return [q for s, acc in cur for q in self.put(s, a[0], acc, UNIT)]

    def klist(self, st, r):
        v = self.rd(st, r)
        return v[1] if v[0] == 'L' else None

    def in_slice_windows(self, st, f, a, o):
        l = self.klist(st, a[0])
        if l is None or a[1][0] != 'i':
            return None
        n = a[1][1]
        if n == 0:
            self.panic_here(st, 'window size zero')
            return []
        return [(st, ('iter', 'val', ('L', tuple(kref(('L', l[i:i + n])) for i in range(len(l) - n + 1))), 0, None))]

    def in_slice_chunks(self, st, f, a, o):
        l = self.klist(st, a[0])
        if l is None or a[1][0] != 'i':
            return super().in_slice_chunks(st, f, a, o)
        n = a[1][1]
        if n == 0:
            self.panic_here(st, 'chunk size zero')
            return []
        return [(st, ('iter', 'val', ('L', tuple(kref(('L', l[i:i + n])) for i in range(0, len(l), n))), 0, None))]

    def in_slice_chunks_exact(self, st, f, a, o):
        l = self.klist(st, a[0])
        if l is None or a[1][0] != 'i' or not a[1][1]:
            return None
        n = a[1][1]
        return [(st, ('iter', 'val', ('L', tuple(kref(('L', l[i:i + n])) for i in range(0, len(l) - n + 1, n))), 0, None))]

    def in_slice_split_last(self, st, f, a, o):
        l = self.klist(st, a[0])
        if l is None:
            return None
        return [(st, some(('T', (kref(l[-1]), kref(('L', l[:-1]))))) if l else NONE)]

    def in_slice_split_at_checked(self, st, f, a, o):
        l = self.klist(st, a[0])
        if l is None or a[1][0] != 'i':
            return None
        n = a[1][1]
        return [(st, some(('T', (kref(('L', l[:n])), kref(('L', l[n:]))))) if n <= len(l) else NONE)]

    def in_slice_get(self, st, f, a, o):
        if a[1][0] == 'A':
            l, rp = self.klist(st, a[0]), self.range_parts(st, a[1])
            if l is not None and rp is not None and rp[0][0] == 'i' and (rp[1] is None or rp[1][0] == 'i'):
                x, y = rp[0][1], len(l) if rp[1] is None else rp[1][1]
                return [(st, some(kref(('L', l[x:y]))) if x <= y <= len(l) else NONE)]
        return super().in_slice_get(st, f, a, o)

    def affix(self, st, xs, ys):
        cur = [(st, True)]
        for x, y in zip(xs, ys):
            nxt = []
            for s, b in cur:
                nxt += [(s, False)] if not b else self.eq_fork(s, self.deep(s, x), self.deep(s, y))
            cur = nxt
        return [(s, B(b)) for s, b in cur]

    def in_slice_starts_with(self, st, f, a, o):
        l, n = self.klist(st, a[0]), self.klist(st, a[1])
        if l is None or n is None:
            return None
        return [(st, B(False))] if len(n) > len(l) else self.affix(st, l[:len(n)], n)

    def in_slice_ends_with(self, st, f, a, o):
        l, n = self.klist(st, a[0]), self.klist(st, a[1])
        if l is None or n is None:
            return None
        return [(st, B(False))] if len(n) > len(l) else self.affix(st, l[len(l) - len(n):], n)

    # ------------------------------------------------------------ inclusive ranges
    def in_RangeInclusive_new(self, st, f, a, o):
        return [(st, ('A', 'std::ops::RangeInclusive', 0, (a[0], a[1], B(False))))]

    def range_parts(self, st, r):
        p = super().range_parts(st, r)
        if p is None and r[0] == 'A':
            n = r[1].split('::')[-1]
            if n == 'RangeToInclusive' and r[3][0][0] == 'i':
                return I(0), I(r[3][0][1] + 1)
            if n == 'RangeInclusive' and r[3][1][0] == 'i' and len(r[3]) > 2 and r[3][2] == B(False):
                return r[3][0], I(r[3][1][1] + 1)
        return p

    def tr_IntoIterator_into_iter(self, st, f, a, o):
        v = a[0]
        if v[0] == 'A' and v[1].endswith('ops::RangeInclusive') and v[3][0][0] == 'i' and v[3][1][0] == 'i':
            lo, hi = v[3][0][1], v[3][1][1]
            if hi - lo < 500:
                return [(st, ('iter', 'val', ('L', tuple(I(i) for i in range(lo, hi + 1))), 0, None))]
        return super().tr_IntoIterator_into_iter(st, f, a, o)
