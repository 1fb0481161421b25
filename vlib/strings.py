"""Abstract strings: a character stream is a list of segments (id, charset, min, max);
string values are spans between two positions of a stream, literals, or opaque terms.
All operations partition on character classes only."""
import charset as CS
from core import *

TRUE, FALSE = ('b', True), ('b', False)

FLOAT_NFA = {
    'start': 0, 'accept': {2, 3, 5, 8},
    'trans': {0: [(CS.of('+-'), 1), (CS.DIGIT, 2), (CS.of('.'), 4)],
              1: [(CS.DIGIT, 2), (CS.of('.'), 4)],
              2: [(CS.DIGIT, 2), (CS.of('.'), 3), (CS.of('eE'), 6)],
              3: [(CS.DIGIT, 5), (CS.of('eE'), 6)],
              4: [(CS.DIGIT, 5)],
              5: [(CS.DIGIT, 5), (CS.of('eE'), 6)],
              6: [(CS.of('+-'), 7), (CS.DIGIT, 8)],
              7: [(CS.DIGIT, 8)],
              8: [(CS.DIGIT, 8)]}}
INT_NFA = {'start': 0, 'accept': {2}, 'trans': {0: [(CS.of('+-'), 1), (CS.DIGIT, 2)], 1: [(CS.DIGIT, 2)], 2: [(CS.DIGIT, 2)]}}
UINT_NFA = {'start': 0, 'accept': {2}, 'trans': {0: [(CS.of('+'), 1), (CS.DIGIT, 2)], 1: [(CS.DIGIT, 2)], 2: [(CS.DIGIT, 2)]}}


def nfa_step(nfa, states, cs):
    """image of a set of states (deterministic automaton + dead state) under one char of cs"""
    out = set()
    for q in states:
        left = cs
        if q == 'dead':
            out.add('dead')
            continue
        for c, r in nfa['trans'].get(q, ()):
            if CS.inter(left, c):
                out.add(r)
                left = CS.diff(left, c)
        if left:
            out.add('dead')
    return frozenset(out)


def nfa_word(nfa, word):
    """states reachable after the abstract word [(cs,mn,mx)]"""
    cur = frozenset([nfa['start']])
    for cs, mn, mx in word:
        for _ in range(min(mn, 40)):
            cur = nfa_step(nfa, cur, cs)
        acc = set(cur)
        n = mn
        fr = cur
        while mx is None or n < mx:
            fr = nfa_step(nfa, fr, cs)
            if fr <= acc:
                break
            acc |= fr
            n += 1
        cur = frozenset(acc)
    return cur


def lang(nfa, word):
    fin = nfa_word(nfa, word)
    if fin <= nfa['accept']:
        return 'all'
    if not (fin & nfa['accept']):
        return 'none'
    return 'some'


def u8len(cs, lo=True):
    def w(c):
        return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
    return w(cs[0][0]) if lo else w(cs[-1][1])


class StringDomain:
    # ------------------------------------------------------------ streams
    def new_stream(self, st, shape, name=None):
        """shape: list of (charset,min,max) -> (state, S)"""
        Sn = name or self.fresh('$s')
        segs = tuple((self.fresh('g'), cs, mn, mx) for cs, mn, mx in shape)
        return st.fact(('segs', Sn), segs), Sn

    def segs(self, st, Sn):
        return st.facts.get(('segs', Sn), ())

    def seg_index(self, st, Sn, A):
        if A == 'B':
            return 0
        segs = self.segs(st, Sn)
        hint = self.__dict__.setdefault('_hint', {})
        h = hint.get(A)
        if h is not None and h < len(segs) and segs[h][0] == A:
            return h + 1
        for i, g in enumerate(segs):
            if g[0] == A:
                hint[A] = i
                return i + 1
        raise Undecided('position')

    def rest_segs(self, st, Sn, A):
        return self.segs(st, Sn)[self.seg_index(st, Sn, A):]

    def same_pos(self, st, Sn, A, B):
        i, j = self.seg_index(st, Sn, A), self.seg_index(st, Sn, B)
        if i > j:
            i, j = j, i
        return all(g[3] == 0 for g in self.segs(st, Sn)[i:j])

    def put_segs(self, st, Sn, segs):
        return st.fact(('segs', Sn), tuple(segs))

    def split_first(self, st, Sn, A):
        """partition on the next character: [(state, seg id | None at end)]"""
        segs = list(self.segs(st, Sn))
        i = self.seg_index(st, Sn, A)
        out = []
        while i < len(segs):
            g, cs, mn, mx = segs[i]
            if mx == 0:
                i += 1
                continue
            if not cs:
                if mn > 0:
                    return out
                segs[i] = (g, cs, 0, 0)
                i += 1
                continue
            if mn == 1 and mx == 1:
                out.append((self.put_segs(st, Sn, segs), g))
                return out
            # non-empty run: split one character off
            ng = self.fresh('g')
            s2 = segs[:i] + [(ng, cs, 1, 1), (g, cs, max(0, mn - 1), None if mx is None else mx - 1)] + segs[i + 1:]
            out.append((self.put_segs(st, Sn, s2), ng))
            if mn > 0:
                return out
            segs[i] = (g, cs, 0, 0)
            i += 1
        out.append((self.put_segs(st, Sn, segs), None))
        return out

    def take_while(self, st, Sn, A, C):
        """longest prefix of chars in C: [(state, endpos, min consumed, at_end)]"""
        out = []
        work = [(list(self.segs(st, Sn)), self.seg_index(st, Sn, A), A, 0)]
        while work:
            segs, i, pos, n = work.pop()
            if i >= len(segs):
                out.append((self.put_segs(st, Sn, segs), pos, n, True))
                continue
            g, cs, mn, mx = segs[i]
            if mx == 0:
                work.append((segs, i + 1, pos, n))
                continue
            yes = CS.inter(cs, C)
            no = CS.diff(cs, C)
            if not no:
                if not yes:
                    if mn == 0:
                        work.append((segs[:i] + [(g, cs, 0, 0)] + segs[i + 1:], i + 1, pos, n))
                    continue
                work.append((segs, i + 1, g, n + mn))
                continue
            if mn == 1 and mx == 1:
                if yes:
                    work.append((segs[:i] + [(g, yes, 1, 1)] + segs[i + 1:], i + 1, g, n + 1))
                out.append((self.put_segs(st, Sn, segs[:i] + [(g, no, 1, 1)] + segs[i + 1:]), pos, n, False))
                continue
            if not yes:
                if mn == 0:
                    work.append((segs[:i] + [(g, cs, 0, 0)] + segs[i + 1:], i + 1, pos, n))
                s2 = segs[:i] + [(g, cs, max(mn, 1), mx)] + segs[i + 1:]
                out.append((self.put_segs(st, Sn, s2), pos, n, False))
                continue
            # mixed run: prefix in `yes`, then either the run is over or a char outside C follows
            pg = self.fresh('g')
            for k in (0, 1):
                # k=0 nothing matched, k=1 at least one matched
                pmax = 0 if k == 0 else mx
                pre = [(pg, yes, k, pmax)]
                # (a) whole run consumed
                if k == 1:
                    a = segs[:i] + [(pg, yes, max(mn, 1), mx), (g, cs, 0, 0)] + segs[i + 1:]
                    work.append((a, i + 2, pg, n + max(mn, 1)))
                elif mn == 0:
                    work.append((segs[:i] + [(g, cs, 0, 0)] + segs[i + 1:], i + 1, pos, n))
                # (b) stopped by a char outside C
                if mx is not None and mx < k + 1:
                    continue
                xg = self.fresh('g')
                tail = (g, cs, max(0, mn - 1 - (0 if k == 0 else (mx or 10 ** 6))), None if mx is None else mx - 1 - k)
                if k == 1:
                    b = segs[:i] + [(pg, yes, 1, None if mx is None else mx - 1), (xg, no, 1, 1), tail] + segs[i + 1:]
                    out.append((self.put_segs(st, Sn, b), pg, n + 1, False))
                else:
                    b = segs[:i] + [(xg, no, 1, 1), (g, cs, max(0, mn - 1), None if mx is None else mx - 1)] + segs[i + 1:]
                    out.append((self.put_segs(st, Sn, b), pos, n, False))
        return out

    def take_n(self, st, Sn, A, k):
        """[(state, endpos | None if too short)]"""
        cur = [(st, A)]
        out = []
        for _ in range(k):
            nxt = []
            for s, p in cur:
                for s2, g in self.split_first(s, Sn, p):
                    if g is None:
                        out.append((s2, None))
                    else:
                        nxt.append((s2, g))
            cur = nxt
        return out + cur

    # ------------------------------------------------------------ chars
    def seg_of(self, st, Sn, g):
        for x in self.segs(st, Sn):
            if x[0] == g:
                return x
        return None

    def char_cs(self, st, t):
        if t[0] == 'c':
            return ((t[1], t[1]),)
        if t[0] == 'chr':
            x = self.seg_of(st, t[1], t[2])
            return x[1] if x else None
        if t[0] == 'op' and t[1] in ('clower', 'cupper', 'calower', 'caupper'):
            b = self.char_cs(st, t[2][0])
            if b is None:
                return None
            return self.char_image(t[1], b)
        if t[0] == 'op' and t[1] == 'cast' and t[2][0][0] in ('chr',):
            return self.char_cs(st, t[2][0])
        return None

    def char_image(self, o, cs):
        f = {'clower': CS.lower_set, 'cupper': CS.upper_set, 'calower': CS.ascii_lower_set, 'caupper': CS.ascii_upper_set}[o]
        r = f(cs)
        return r

    def refine_char(self, st, t, cs):
        if t[0] == 'chr':
            segs = self.segs(st, t[1])
            i = self.seg_index(st, t[1], t[2]) - 1
            g, c, mn, mx = segs[i]
            if c == cs:
                return st
            return self.put_segs(st, t[1], segs[:i] + ((g, cs, mn, mx),) + segs[i + 1:])
        if t[0] == 'op' and t[1] in ('clower', 'cupper', 'calower', 'caupper'):
            base = t[2][0]
            b = self.char_cs(st, base)
            keep = ()
            if CS.size(b) > 4000:
                return st
            for c in CS.members(b, 4000):
                im = self.char_image(t[1], ((c, c),))
                if im and CS.subset(im, cs):
                    keep = CS.union(keep, ((c, c),))
            return self.refine_char(st, base, keep)
        if t[0] == 'op' and t[1] == 'cast':
            return self.refine_char(st, t[2][0], cs)
        return st

    def char_ty(self):
        if not hasattr(self, '_cty'):
            self._cty = None
            for i, t in enumerate(self.T):
                if t and t['k'] == 'prim' and t['s'] == 'char':
                    self._cty = i
        return self._cty

    def pred_set(self, st, clo, asbyte=False):
        """charset on which a char predicate (closure / fn item / literal pattern) holds, or None"""
        c = self.deep(st, clo)
        if c[0] == 'c':
            return ((c[1], c[1]),)
        if c[0] == 's':
            return CS.of(c[1])
        if c[0] == 'L':
            out = ()
            for x in c[1]:
                if x[0] != 'c':
                    return None
                out = CS.union(out, ((x[1], x[1]),))
            return out
        key = ('pred', clo)
        try:
            s, Sn = self.new_stream(st.copy(), [(CS.ALL, 1, 1)])
            g = self.segs(s, Sn)[0][0]
            res = ()
            for s2, v in self.call_value(s, clo, [('chr', Sn, g, self.char_ty())]):
                for s3, b in self.truth(s2, v):
                    if b:
                        res = CS.union(res, self.seg_of(s3, Sn, g)[1])
            return res
        except Undecided:
            return None

    # ------------------------------------------------------------ string terms
    STRTAGS = ('s', 'span', 'str', 'seg', 'cat')

    def is_strterm(self, t):
        return t[0] in self.STRTAGS

    def pieces(self, st, t):
        """flat list of ('lit',str) | ('seg',S,id,cs,mn,mx) | ('x',term)"""
        out = []

        def add(p):
            if p[0] == 'lit':
                if not p[1]:
                    return
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                    return
            out.append(p)

        def go(t):
            if t[0] == 's':
                add(('lit', t[1]))
            elif t[0] == 'cat':
                for x in t[1]:
                    go(x)
            elif t[0] in ('span', 'str', 'seg'):
                Sn = t[1]
                if t[0] == 'seg':
                    gs = [self.seg_of(st, Sn, t[2])]
                elif t[0] == 'str':
                    gs = self.rest_segs(st, Sn, t[2])
                else:
                    i, j = self.seg_index(st, Sn, t[2]), self.seg_index(st, Sn, t[3])
                    gs = self.segs(st, Sn)[i:j]
                for g, cs, mn, mx in gs:
                    if mx == 0:
                        continue
                    c = CS.single(cs)
                    if c is not None and mn == mx == 1:
                        add(('lit', chr(c)))
                    else:
                        add(('seg', Sn, g, cs, mn, mx))
            else:
                add(('x', t))
        go(t)
        return out

    def word(self, st, t):
        out = []
        for p in self.pieces(st, t):
            if p[0] == 'lit':
                out += [(CS.of(c), 1, 1) for c in p[1]]
            elif p[0] == 'seg':
                out.append((p[3], p[4], p[5]))
            else:
                return None
        return out

    def str_charset(self, st, t):
        w = self.word(st, t)
        if w is None:
            return None
        r = ()
        for cs, _, _ in w:
            r = CS.union(r, cs)
        return r

    def str_len_rng(self, st, t):
        lo, hi = 0, 0
        for p in self.pieces(st, t):
            if p[0] == 'lit':
                n = len(p[1].encode())
                lo += n
                hi = None if hi is None else hi + n
            elif p[0] == 'seg':
                _, _, _, cs, mn, mx = p
                lo += mn * u8len(cs)
                hi = None if hi is None or mx is None else hi + mx * u8len(cs, False)
            else:
                f = st.facts.get(('rng', op('len', p[1], ty=self.usize())))
                a, b = f if f else (0, None)
                lo += a or 0
                hi = None if hi is None or b is None else hi + b
        return lo, hi

    def usize(self):
        if not hasattr(self, '_usz'):
            self._usz = None
            for i, t in enumerate(self.T):
                if t and t['k'] == 'prim' and t['s'] == 'usize':
                    self._usz = i
        return self._usz

    def scat(self, st, parts):
        """concatenate string terms, merging adjacent spans and literals"""
        out = []
        for p in parts:
            for q in (p[1] if p[0] == 'cat' else (p,)):
                if q == S(''):
                    continue
                if out:
                    l = out[-1]
                    if l[0] == 's' and q[0] == 's':
                        out[-1] = S(l[1] + q[1])
                        continue
                    if l[0] == 'span' and q[0] == 'span' and l[1] == q[1] and self.same_pos(st, l[1], l[3], q[2]):
                        out[-1] = ('span', l[1], l[2], q[3])
                        continue
                out.append(q)
        if not out:
            return S('')
        if len(out) == 1:
            return out[0]
        return ('cat', tuple(out))

    # case transforms -------------------------------------------------
    def case_op(self, st, o, t):
        """o in lower/upper/alower/aupper"""
        if t[0] == 's' and t[1].isascii():
            return S(t[1].lower() if 'lower' in o else t[1].upper())
        if t[0] == 'op' and t[1] in ('lower', 'upper', 'alower', 'aupper'):
            t = t[2][0]
        return op(o, t)

    def strip_case(self, t):
        if t[0] == 'op' and t[1] in ('lower', 'upper', 'alower', 'aupper'):
            return t[2][0], t[1]
        return t, None

    def char_maps_to(self, c, lit, mode):
        """does source char c, after case mapping `mode`, equal literal char"""
        ch = chr(c)
        if mode is None:
            return ch == lit
        if mode == 'ci':
            return (ch.lower() if ch.isascii() else ch) == (lit.lower() if lit.isascii() else lit)
        if mode == 'lower':
            return ch.lower() == lit
        if mode == 'upper':
            return ch.upper() == lit
        if mode == 'alower':
            return (ch.lower() if ch.isascii() else ch) == lit
        if mode == 'aupper':
            return (ch.upper() if ch.isascii() else ch) == lit

    def match_cs(self, cs, lit, mode):
        cand = CS.inter(cs, self.match_cands(lit, mode))
        return cand

    _mc = {}

    def match_cands(self, lit, mode):
        k = (lit, mode)
        if k not in self._mc:
            c = {lit, lit.lower()[:1], lit.upper()[:1]} | set('\u212a\u212b\u2126\u0130\u017f')
            self._mc[k] = CS.of(''.join(x for x in c if self.char_maps_to(ord(x), lit, mode)))
        return self._mc[k]

    def truth_streq(self, st, a, b, mode):
        """mode None exact, 'ci' eq_ignore_ascii_case"""
        if b[0] != 's' and a[0] == 's':
            a, b = b, a
        a, ca = self.strip_case(a)
        if b[0] != 's':
            b2, cb = self.strip_case(b)
            if a == b2 and (ca == cb):
                return [(st, True)]
            if self.pieces(st, a) == self.pieces(st, b2) and ca == cb:
                return [(st, True)]
            if not ca and not cb and mode is None and self.str_disjoint(st, a, b2):
                return [(st, False)]
            return None
        if a[0] == 's':
            x, y = a[1], b[1]
            if ca:
                x = {'lower': x.lower(), 'upper': x.upper()}.get(ca, x.lower() if ca == 'alower' else x.upper())
            if mode == 'ci':
                x, y = x.lower() if x.isascii() else x, y.lower() if y.isascii() else y
            return [(st, x == y)]
        m = mode if mode == 'ci' else ca
        if not any(p[0] == 'x' for p in self.pieces(st, a)):
            return self.match_literal(st, a, b[1], m)
        # symbolic string: keep exclusive atoms
        t = op('streq', a, b, ('m', m))
        f = st.facts.get(('atom', t))
        if f is not None:
            return [(st, f)]
        for k, v in st.facts.items():
            if k[0] == 'atom' and v is True and k[1][0] == 'op' and k[1][1] == 'streq' and k[1][2][0] == a:
                o, om = k[1][2][1], k[1][2][2][1]
                if o[0] == 's' and (om in (None, m)):
                    if om is None and m is not None:
                        okv = len(o[1]) == len(b[1]) and all(self.char_maps_to(ord(x), y, m) for x, y in zip(o[1], b[1]))
                        return [(st, okv)]
                    same = o[1].lower() == b[1].lower() if m == 'ci' else o[1] == b[1]
                    return [(st, same)]
        return [(st.fact(('atom', t), True), True), (st.fact(('atom', t), False), False)]

    def str_disjoint(self, st, a, b):
        """can the two strings never be equal? (sound, incomplete)"""
        def flat(v):
            out = []
            for p in self.pieces(st, v):
                if p[0] == 'lit':
                    out += [(None, CS.of(c), 1, 1) for c in p[1]]
                elif p[0] == 'seg':
                    out.append((p[1:3],) + tuple(p[3:6]))
                else:
                    out.append(None)
            return out
        x, y = flat(a), flat(b)
        if None not in x and None not in y:
            for u, v in ((x, y), (y, x)):
                if all(e[3] is not None for e in u) and sum(e[3] for e in u) < sum(e[2] for e in v):
                    return True
        while x and y:
            p, q = x[0], y[0]
            if p is None or q is None:
                return False
            if p[2] >= 1 and q[2] >= 1 and not CS.inter(p[1], q[1]):
                return True
            if (p[0] is not None and p[0] == q[0]) or (p[2] == p[3] == q[2] == q[3] == 1):
                x.pop(0)
                y.pop(0)
                continue
            return False
        return any(p is not None and p[2] >= 1 for p in x + y) and not (x and y)

    def match_literal(self, st, a, lit, mode):
        """compare a concrete-stream string with a literal, forking on classes"""
        parts = list(a[1]) if a[0] == 'cat' else [a]
        # cursor over parts
        results = []

        def go(s, parts, i):
            parts = list(parts)
            while parts:
                p = parts[0]
                if p[0] == 's':
                    if not p[1]:
                        parts.pop(0)
                        continue
                    if i < len(lit) and self.char_maps_to(ord(p[1][0]), lit[i], mode):
                        parts[0] = S(p[1][1:])
                        i += 1
                        continue
                    results.append((s, False))
                    return
                if p[0] == 'seg':
                    x = self.seg_of(s, p[1], p[2])
                    ids = [x[0]]
                    if x[2:] != (1, 1):
                        raise Undecided('seg')
                    one(s, p[1], x[0], parts[1:], i, parts[1:])
                    return
                Sn = p[1]
                A = p[2]
                if p[0] == 'span' and self.same_pos(s, Sn, A, p[3]):
                    parts.pop(0)
                    continue
                end = p[3] if p[0] == 'span' else None
                for s2, g in self.split_within(s, Sn, A, end):
                    if g is None:
                        go(s2, parts[1:], i)
                    else:
                        nxt = [('span', Sn, g, end)] if end is not None else [('str', Sn, g)]
                        one(s2, Sn, g, nxt + parts[1:], i, None)
                return
            results.append((s, i == len(lit)))

        def one(s, Sn, g, restparts, i, _):
            x = self.seg_of(s, Sn, g)
            t = ('chr', Sn, g, self.char_ty())
            if i >= len(lit):
                results.append((s, False))
                return
            yes = self.match_cs(x[1], lit[i], mode)
            no = CS.diff(x[1], yes)
            if no:
                results.append((self.refine_char(s, t, no), False))
            if yes:
                go(self.refine_char(s, t, yes), restparts, i + 1)
        go(st, parts, 0)
        if len(results) > 400:
            raise Undecided('string comparison blow-up')
        return results

    def split_within(self, st, Sn, A, end):
        """like split_first but bounded by position end"""
        if end is None:
            return self.split_first(st, Sn, A)
        out = []
        segs = list(self.segs(st, Sn))
        i, j = self.seg_index(st, Sn, A), self.seg_index(st, Sn, end)
        while i < j:
            g, cs, mn, mx = segs[i]
            if mx == 0:
                i += 1
                continue
            if mn == 1 and mx == 1:
                out.append((self.put_segs(st, Sn, segs), g))
                return out
            ng = self.fresh('g')
            s2 = segs[:i] + [(ng, cs, 1, 1), (g, cs, max(0, mn - 1), None if mx is None else mx - 1)] + segs[i + 1:]
            out.append((self.put_segs(st, Sn, s2), ng))
            if mn > 0:
                return out
            segs[i] = (g, cs, 0, 0)
            i += 1
        out.append((self.put_segs(st, Sn, segs), None))
        return out

    # prefixes ---------------------------------------------------------
    def match_prefix(self, st, Sn, A, lit, mode=None, cand=None):
        """[(state, endpos|None mismatch, eof)] ; cand(ch)->charset overrides"""
        out = []
        cur = [(st, A)]
        for ch in lit:
            want = cand(ch) if cand else self.match_cands(ch, mode)
            nxt = []
            for s, p in cur:
                for s2, g in self.split_first(s, Sn, p):
                    if g is None:
                        out.append((s2, None, True))
                        continue
                    x = self.seg_of(s2, Sn, g)
                    t = ('chr', Sn, g, self.char_ty())
                    yes = CS.inter(x[1], want)
                    no = CS.diff(x[1], want)
                    if yes:
                        nxt.append((self.refine_char(s2, t, yes) if no else s2, g))
                    if no:
                        out.append((self.refine_char(s2, t, no) if yes else s2, None, False))
            cur = nxt
        for s, p in cur:
            out.append((s, p, False))
        return out

    # ------------------------------------------------------------ parse::<T>()
    def parse_num(self, st, ty, t):
        """[(state, Ok-value | None on Err)] for str::parse::<ty>()"""
        tn = self.T[ty]['s']
        if tn == 'bool':
            out = []
            r = self.truth_streq(st, t, S('true'), None)
            for s, b in r or []:
                if b:
                    out.append((s, TRUE))
                else:
                    for s2, b2 in self.truth_streq(s, t, S('false'), None):
                        out.append((s2, FALSE if b2 else None))
            return out
        if tn == 'char' or (tn not in self.INTBITS and tn not in ('f32', 'f64')):
            return None
        if t[0] == 's':
            try:
                if tn in self.INTBITS:
                    n = int(t[1])
                    lo, hi = self.INTB(tn)
                    if lo <= n <= hi and not t[1].strip() != t[1] and '_' not in t[1]:
                        return [(st, I(n))]
                    return [(st, None)]
                return [(st, self.flt(float(t[1]), ty))]
            except ValueError:
                return [(st, None)]
        ps = self.pieces(st, t)
        if all(x[0] == 'lit' for x in ps):
            return self.parse_num(st, ty, S(''.join(x[1] for x in ps)))
        w = self.word(st, t)
        val = op('parse', ('t', tn), t, ty=ty)
        atom = op('parseok', ('t', tn), t)
        if w is not None:
            if tn in ('f32', 'f64'):
                r = lang(FLOAT_NFA, w)
                if r == 'all':
                    return [(st, val)]
                if r == 'none' and not any(CS.inter(cs, CS.of('infatyINFATY')) for cs, _, _ in w):
                    return [(st, None)]
            else:
                r = lang(UINT_NFA if tn[0] == 'u' else INT_NFA, w)
                if r == 'none':
                    return [(st, None)]
                if r == 'all':
                    mx = 0
                    for cs, a, b in w:
                        if not CS.inter(cs, CS.DIGIT):
                            continue
                        mx = None if mx is None or b is None else mx + b
                    lo, hi = self.INTB(tn)
                    if mx is not None and 10 ** mx - 1 <= hi:
                        return [(st, val)]
                    # a nonzero leading digit and too many digits: out of range
                    dg = [x for x in w if CS.inter(x[0], CS.DIGIT)]
                    if dg and dg[0][1] >= 1 and not CS.inter(dg[0][0], CS.of('0')) and not CS.diff(dg[0][0], CS.DIGIT):
                        if 10 ** (sum(x[1] for x in dg if not CS.diff(x[0], CS.DIGIT)) - 1) > hi + 1:
                            return [(st, None)]
        out = []
        for s, b in self.truth_atom(st, atom):
            out.append((s, val if b else None))
        return out

    def truth_atom(self, st, t):
        f = st.facts.get(('atom', t))
        if f is not None:
            return [(st, f)]
        return [(st.fact(('atom', t), True), True), (st.fact(('atom', t), False), False)]

    # ------------------------------------------------------------ trimming
    @staticmethod
    def trim_scan(gs, C):
        """(number of leading segments which go, whether that is certain)"""
        k, pend = 0, False
        for _, cs, mn, mx in gs:
            if not CS.inter(cs, C):
                pend = True
                if mn:
                    break
            elif CS.subset(cs, C) and not pend:
                k += 1
            else:
                return k, False
        return k, True

    def trim(self, st, t, what, C):
        """[(state, term)]"""
        if t[0] == 's':
            s = t[1]
            inC = lambda ch: bool(CS.inter(C, CS.of(ch)))
            a, b = 0, len(s)
            if what in ('both', 'start'):
                while a < b and inC(s[a]):
                    a += 1
            if what in ('both', 'end'):
                while b > a and inC(s[b - 1]):
                    b -= 1
            return [(st, S(s[a:b]))]
        cs = self.str_charset(st, t)
        if cs is not None and not CS.inter(cs, C):
            return [(st, t)]
        if what in ('both', 'end') and t[0] in ('str', 'span'):
            A = t[2]
            gs = self.rest_segs(st, t[1], A)
            if t[0] == 'span':
                gs = gs[:self.seg_index(st, t[1], t[3]) - self.seg_index(st, t[1], A)]
            k, done = self.trim_scan(gs[::-1], C)
            if done:
                k = len(gs) - k
                if not k:
                    return [(st, S(''))]
                t = ('span', t[1], A, gs[k - 1][0])
                if what == 'end':
                    return [(st, t)]
                what = 'start'
        if what == 'start' and t[0] == 'span':
            i = self.seg_index(st, t[1], t[2])
            gs = self.segs(st, t[1])[i:self.seg_index(st, t[1], t[3])]
            k, done = self.trim_scan(gs, C)
            if done:
                return [(st, S('') if k == len(gs) else ('span', t[1], gs[k - 1][0], t[3]) if k else t)]
        if what == 'start' and t[0] == 'str':
            return [(s, ('str', t[1], p)) for s, p, _, _ in self.take_while(st, t[1], t[2], C)]
        if what == 'start' and t[0] == 'span':
            return [(st, op('trim', t, ('m', what), ('cs', C)))]
        return [(st, op('trim', t, ('m', what), ('cs', C)))]
