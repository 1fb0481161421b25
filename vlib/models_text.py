"""Models of text functions whose result is not a slice of the input: the result stays an
operator term over the text (decided later, by normalisation or by a witness), with constant
folding, and is simplified where the classes of the characters settle it."""
import charset as CS
from core import *

OPT = 'std::option::Option'
CHARMAPS = ('calower', 'caupper')


class TextModels:
    # ---- helpers
    def text_pat(self, st, p):
        v = self.deep(st, p)
        if v[0] in ('c', 's'):
            return v
        cs = self.pred_set(st, p)
        return ('cs', cs) if cs is not None else None

    @staticmethod
    def pat_sets(p):
        """per position of the pattern: the characters which match there"""
        if p[0] == 's':
            return [CS.of(c) for c in p[1]]
        if p[0] == 'c':
            return [((p[1], p[1]),)]
        return [p[1]]

    def never(self, st, v, p):
        """the pattern cannot occur in the text"""
        v = self.concrete(st, v)
        cs = self.str_charset(st, v) if self.is_strterm(v) else None
        if cs is None:
            return False
        if v[0] == 's' and p[0] == 's':
            return p[1] not in v[1]
        ps = self.pat_sets(p)
        return bool(ps) and any(not CS.inter(cs, x) for x in ps)

    def to_term(self, x, ty):
        t = self.T[ty] if ty is not None else {}
        if t.get('k') == 'ref':
            return kref(self.to_term(x, t.get('elem')))
        if isinstance(x, bool):
            return B(x)
        if isinstance(x, int):
            return I(x)
        if isinstance(x, float):
            return self.flt(x, ty)
        if isinstance(x, str):
            return S(x)
        if x[0] == 'c':
            return x
        if x[0] == 'A' and x[1] == OPT:
            return NONE if x[2] == 0 else some(self.to_term(x[3][0], (t.get('args') or [None])[0]))
        if x[0] == 'T':
            a = t.get('args') or [None] * len(x[1])
            return ('T', tuple(self.to_term(y, b) for y, b in zip(x[1], a)))
        raise Undecided('constant ' + str(x)[:40])

    def concrete(self, st, v):
        """the text itself when the family leaves no choice of it"""
        if v[0] in ('span', 'str', 'cat', 'seg') and self.is_strterm(v):
            w = self.word(st, v)
            if w is not None and all(mn == mx and cs[0][0] == cs[-1][1] for cs, mn, mx in w if cs):
                return S(''.join(chr(cs[0][0]) * mn for cs, mn, mx in w if cs))
        return v

    def text_op(self, st, name, args, ty):
        """operator term, folded when every operand is constant"""
        args = tuple(self.concrete(st, x) for x in args)
        t = op(name, *args, ty=ty)
        if all(x[0] in ('s', 'c', 'i', 'b', 'fl', 'cs') for x in args):
            from teval import Env, Unknown
            try:
                return self.to_term(Env(self, st, 0).ev(t), ty)
            except (Unknown, Undecided, ArithmeticError):
                pass
        rt = self.T[ty] if ty is not None else {}
        if rt.get('k') == 'ref':
            return kref(op(name, *args, ty=rt.get('elem')))
        return t

    def finder(name, absent):
        def m(self, st, f, a, o):
            v, p = self.sv(st, a[0]), self.text_pat(st, a[1])
            if p is None or not self.is_strlike(v):
                return None
            if self.never(st, v, p):
                return [(st, NONE if absent == 'none' else B(False))]
            return [(st, self.text_op(st, name, (v, p), o))]
        return m
    in_str_find = finder('find', 'none')
    in_str_rfind = finder('rfind', 'none')
    in_str_split_once = finder('split_once', 'none')
    in_str_rsplit_once = finder('rsplit_once', 'none')

    def suffix(self, st, v, p):
        """True | False | None: does the text end in the pattern"""
        if not self.is_strterm(v):
            return None
        ps = self.pat_sets(p)
        w = self.word(st, v)
        if w is None:
            return None
        for want in reversed(ps):
            while w and w[-1][2] == 0:
                w = w[:-1]
            if not w:
                return False
            cs, mn, mx = w[-1]
            if mn == mx == 1:
                if not CS.inter(cs, want):
                    return False
                if not CS.subset(cs, want):
                    return None
                w = w[:-1]
                continue
            if mn >= 1 and not CS.inter(cs, want):
                return False
            return None
        return True

    def in_str_ends_with(self, st, f, a, o):
        v, p = self.sv(st, a[0]), self.text_pat(st, a[1])
        if p is None or not self.is_strlike(v):
            return None
        if self.never(st, v, p):
            return [(st, B(False))]
        if v[0] != 's':
            r = self.suffix(st, v, p)
            if r is not None:
                return [(st, B(r))]
        return [(st, self.text_op(st, 'ends_with', (v, p), o))]

    def in_str_strip_suffix(self, st, f, a, o):
        v, p = self.sv(st, a[0]), self.text_pat(st, a[1])
        if p is None or not self.is_strlike(v):
            return None
        if self.never(st, v, p) or (v[0] != 's' and self.suffix(st, v, p) is False):
            return [(st, NONE)]
        return [(st, self.text_op(st, 'strip_suffix', (v, p), o))]

    def in_str_replacen(self, st, f, a, o):
        v, p = self.sv(st, a[0]), self.text_pat(st, a[1])
        if p is None or not self.is_strlike(v):
            return None
        if self.never(st, v, p):
            return [(st, v)]
        return [(st, self.text_op(st, 'replacen', (v, p, self.sv(st, a[2]), a[3]), o))]

    def in_str_replace(self, st, f, a, o):
        v, p = self.sv(st, a[0]), self.text_pat(st, a[1])
        if p is None or not self.is_strlike(v):
            return None
        if self.never(st, v, p):
            return [(st, v)]
        return [(st, self.text_op(st, 'replace', (v, p, self.sv(st, a[2])), o))]

    def in_str_repeat(self, st, f, a, o):
        return [(st, self.text_op(st, 'repeat', (self.sv(st, a[0]), a[1]), o))]

    def trim_str(name):
        def m(self, st, f, a, o):
            p = self.deep(st, a[1])
            if p[0] == 's' and len(p[1]) != 1:
                v = self.sv(st, a[0])
                if self.never(st, v, p):
                    return [(st, a[0] if a[0][0] == 'ref' else kref(v))]
                if name == 'trim_end_matches' and v[0] != 's' and self.suffix(st, v, p) is False:
                    return [(st, kref(v))]
                return [(st, self.text_op(st, name, (v, p), o))]
            return self.trim_pat(st, a, {'trim_matches': 'both', 'trim_start_matches': 'start', 'trim_end_matches': 'end'}[name])
        return m
    in_str_trim_start_matches = trim_str('trim_start_matches')
    in_str_trim_end_matches = trim_str('trim_end_matches')

    def parts(self, st, seq):
        return [(st, ('iter', 'val', seq, 0, self.str_ref_ty()))]

    def splitter(name, pi):
        def m(self, st, f, a, o):
            v, p = self.sv(st, a[0]), self.text_pat(st, a[pi])
            if p is None or not self.is_strlike(v):
                return None
            if self.never(st, v, p):
                return self.parts(st, ('L', (kref(v),)))
            v = self.concrete(st, v)
            args = (v, p) if pi == 1 else (v, a[1], p)
            if all(x[0] in ('s', 'c', 'i', 'cs') for x in args):
                from teval import Env, Unknown
                try:
                    r = Env(self, st, 0).ev(op(name, *args))
                    return self.parts(st, ('L', tuple(kref(S(x)) for x in r[1])))
                except Unknown:
                    pass
            return self.parts(st, op(name, *args))
        return m
    in_str_splitn = splitter('splitn', 2)
    in_str_rsplitn = splitter('rsplitn', 2)
    in_str_rsplit = splitter('rsplit', 1)
    in_str_split_inclusive = splitter('split_inclusive', 1)
    split_str = splitter('split', 1)

    def in_str_lines(self, st, f, a, o):
        v = self.concrete(st, self.sv(st, a[0]))
        if v[0] == 's':
            xs = [x[:-1] if x.endswith('\r') else x for x in (v[1][:-1] if v[1].endswith('\n') else v[1]).split('\n')] if v[1] else []
            return self.parts(st, ('L', tuple(kref(S(x)) for x in xs)))
        if self.is_strlike(v) and self.never(st, v, ('c', 10)):
            lo, hi = self.str_len_rng(st, v)
            if lo:
                return self.parts(st, ('L', (kref(v),)))
        return self.parts(st, op('lines', v))

    def in_str_as_bytes(self, st, f, a, o):
        return None

    # ---- a String changed in place
    def inplace(self, st, r, v):
        st = st.copy()
        self.write(st, r[1], r[2], v)
        return st

    def in_String_retain(self, st, f, a, o):
        cs = self.pred_set(st, a[1])
        if cs is None or a[0][0] != 'ref':
            return None
        return [(self.inplace(st, a[0], self.cfilter(st, self.read(st, a[0][1], a[0][2]), cs)), UNIT)]

    def in_String_truncate(self, st, f, a, o):
        if a[0][0] != 'ref':
            return None
        v = self.read(st, a[0][1], a[0][2])
        if not self.is_strlike(v):
            return None
        lo, hi = self.str_len_rng(st, v)
        if a[1][0] == 'i' and hi is not None and hi <= a[1][1]:
            return [(st, UNIT)]
        sts = self.check_boundary(st, v, a[1])
        return [(self.inplace(x, a[0], self.text_op(x, 'truncate', (v, a[1]), self.str_ty())), UNIT) for x in sts]

    # ---- sequences of characters
    def cfilter(self, st, v, cs):
        c = self.str_charset(st, v) if self.is_strterm(v) else None
        if c is not None and CS.subset(c, cs):
            return v
        if c is not None and not CS.inter(c, cs):
            return S('')
        return self.text_op(st, 'cfilter', (v, ('cs', cs)), self.str_ty())

    def char_table(self, st, clo, cs):
        """((class, image)...) of a function on characters, or None"""
        try:
            s, Sn = self.new_stream(st.copy(), [(cs, 1, 1)])
            g = self.segs(s, Sn)[0][0]
            x = ('chr', Sn, g, self.char_ty())
            tab = []
            for s2, v in self.call_value(s, clo, [x]):
                c = self.seg_of(s2, Sn, g)[1]
                v = self.deep(s2, v)
                if v == x:
                    tab.append((c, ('id',)))
                elif v[0] == 'c':
                    tab.append((c, ('c', v[1])))
                elif v[0] == 'op' and v[1] in CHARMAPS and v[2][0] == x:
                    tab.append((c, (v[1],)))
                else:
                    return None
            return tuple(tab)
        except Undecided:
            return None

    def chars_of(self, it):
        return it[1] if it[0] == 'ichars' and self.is_strlike(it[1]) else None

    def over(name):
        def m(self, st, f, a, o):
            v = self.chars_of(a[0])
            if v is not None:
                r = getattr(self, 'ch_' + name)(st, v, a, o)
                if r is not None:
                    return r
            up = getattr(super(TextModels, self), 'tr_Iterator_' + name, None)
            return up(st, f, a, o) if up else None
        return m
    for _n in ('filter', 'map', 'take', 'skip', 'take_while', 'skip_while', 'rev', 'count', 'last'):
        locals()['tr_Iterator_' + _n] = over(_n)

    def ch_filter(self, st, v, a, o):
        cs = self.pred_set(st, a[1])
        return None if cs is None else [(st, ('ichars', self.cfilter(st, v, cs)))]

    def ch_map(self, st, v, a, o):
        c = self.str_charset(st, v) if self.is_strterm(v) else None
        tab = self.char_table(st, a[1], c or CS.ALL)
        if tab is None:
            return None
        if c is not None and all(x[1] == ('id',) for x in tab):
            return [(st, ('ichars', v))]
        return [(st, ('ichars', self.text_op(st, 'cmap', (v, ('cs', tab)), self.str_ty())))]

    def char_count(self, st, v):
        w = self.word(st, v) if self.is_strterm(v) else None
        if w is None:
            return 0, None
        lo, hi = 0, 0
        for cs, mn, mx in w:
            lo += mn
            hi = None if hi is None or mx is None else hi + mx
        return lo, hi

    def ch_take(self, st, v, a, o):
        if a[1][0] != 'i':
            return None
        lo, hi = self.char_count(st, v)
        if hi is not None and hi <= a[1][1]:
            return [(st, ('ichars', v))]
        return [(st, ('ichars', self.text_op(st, 'stake', (v, a[1]), self.str_ty())))]

    def ch_skip(self, st, v, a, o):
        if a[1][0] != 'i' or v[0] in ('str', 'span'):
            return None if a[1] != I(0) else [(st, ('ichars', v))]
        return [(st, ('ichars', self.text_op(st, 'sskip', (v, a[1]), self.str_ty())))]

    def ch_take_while(self, st, v, a, o):
        cs = self.pred_set(st, a[1])
        if cs is None:
            return None
        c = self.str_charset(st, v) if self.is_strterm(v) else None
        if c is not None and CS.subset(c, cs):
            return [(st, ('ichars', v))]
        return [(st, ('ichars', self.text_op(st, 'stw', (v, ('cs', cs)), self.str_ty())))]

    def ch_skip_while(self, st, v, a, o):
        cs = self.pred_set(st, a[1])
        if cs is None:
            return None
        return [(s, ('ichars', t)) for s, t in self.trim(st, v, 'start', cs)]

    def ch_rev(self, st, v, a, o):
        return [(st, ('ichars', self.text_op(st, 'srev', (v,), self.str_ty())))]

    def ch_count(self, st, v, a, o):
        lo, hi = self.char_count(st, v)
        if lo == hi:
            return [(st, I(lo))]
        t = op('nchars', v, ty=self.usize())
        return [(self.refine_rng(st, t, lo, hi) or st, t)]

    def ch_last(self, st, v, a, o):
        return None
