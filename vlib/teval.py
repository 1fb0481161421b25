"""Witness evaluation of provenance terms.

A structural difference between what the code computes (a provenance term) and what the
specification expects is only reported when some assignment of the operands makes the two
terms denote different values; the assignment is printed as the witness.  Terms with an
operator that is not modelled here have no value and can never be the ground for an alarm."""
import math
import random
import struct
import charset as CS

POOL = [ord(c) for c in 'aZqK79.-+_/ \t\n\r#"$eEbx(@:,'] + [0xe9, 0x212a, 0x130, 0x6f22, 0x1f600, 0xa0, 0xb]
SURR = CS.rng(0xd800, 0xdfff)


class Unknown(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def feq(a, b):
    if a == b or (a != a and b != b):
        return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return False
    return abs(a - b) <= max(1e-6 * max(abs(a), abs(b)), 3e-45)


def pick(rnd, cs):
    cs = CS.diff(cs, SURR) or cs
    c = [x for x in POOL if CS.inter(cs, ((x, x),))] if CS.size(cs) > 40 else None
    if c and rnd.random() < .6:
        return rnd.choice(c)
    letters = CS.inter(cs, CS.rng(ord('a'), ord('z')))
    if CS.size(cs) > 40 and letters:
        cs = letters
    n = rnd.randrange(CS.size(cs))
    for a, b in cs:
        if n <= b - a:
            return a + n
        n -= b - a + 1
    raise Unknown('empty class')


class Env:
    """one sample assignment consistent with the facts of a state"""

    def __init__(self, it, st, seed):
        self.it, self.st = it, st
        self.rnd = random.Random(seed)
        self.seg = {}
        self.leafs = {}
        self.long = self.rnd.random() < .25
        for k, v in st.facts.items():
            if v is True and k[0] == 'atom' and k[1][0] == 'op' and k[1][1] in ('eqv', 'streq'):
                self.unify(k[1][2][0], k[1][2][1])
            elif k[0] == 'rng' and isinstance(k[1], tuple) and k[1][0] == 'op':
                self.solve(k[1], v)

    def solve(self, t, rng):
        """pick a literal for an integer operand known to lie in a range"""
        sign = 1
        while t[0] == 'op' and t[1] in ('neg', 'cast'):
            if t[1] == 'neg':
                sign = -sign
            t = t[2][0]
        if t[0] != 'op' or t[1] != 'parse' or t[2][0][1][0] not in 'iu':
            return
        lo, hi = rng
        c = [x for x in (lo, hi) if x is not None]
        if lo is not None and hi is not None and lo <= hi:
            c += [self.rnd.randint(lo, hi)]
        if not c or self.rnd.random() < .3:
            return
        n = sign * self.rnd.choice(c)
        try:
            ps = list(self.it.pieces(self.st, t[2][1]))
        except Exception:
            return
        neg = bool(ps) and ps[0][0] == 'lit' and ps[0][1] == '-'
        if ps and ps[0][0] == 'lit' and ps[0][1] in '+-':
            ps.pop(0)
        if neg:
            n = -n
        if len(ps) != 1 or ps[0][0] != 'seg' or n < 0 or CS.diff(ps[0][3], CS.DIGIT):
            return
        txt = str(n).zfill(ps[0][4])
        if ps[0][5] is None or len(txt) <= ps[0][5]:
            self.seg.setdefault((ps[0][1], ps[0][2]), txt)

    def unify(self, a, b):
        """two operands known to be equal: sample them alike, segment by segment"""
        try:
            p, q = self.it.pieces(self.st, a), self.it.pieces(self.st, b)
        except Exception:
            return
        if len(p) != len(q):
            return
        for x, y in zip(p, q):
            if x[0] == 'seg' and y[0] == 'seg':
                cs = CS.inter(x[3], y[3])
                mxs = [m for m in (x[5], y[5]) if m is not None]
                mn, mx = max(x[4], y[4]), min(mxs) if mxs else None
                if not cs or (mx is not None and mn > mx):
                    continue
                s = self.segstr(x[1], x[2], cs, mn, mx)
                self.seg.setdefault((y[1], y[2]), s)

    def segstr(self, S, g, cs, mn, mx):
        k = (S, g)
        if k not in self.seg:
            hi = mx if mx is not None else mn + (14 if self.long else 3)
            hi = min(hi, mn + (14 if self.long else 3))
            n = hi if (self.long and self.rnd.random() < .5) else self.rnd.randint(mn, hi)
            self.seg[k] = ''.join(chr(pick(self.rnd, cs)) for _ in range(n))
        return self.seg[k]

    def text(self, S):
        return ''.join(self.segstr(S, *g) for g in self.it.segs(self.st, S))

    def strv(self, t):
        r = self.ev(t)
        if not isinstance(r, str):
            raise Unknown('not a string')
        return r

    def ev(self, t):
        it = self.it
        k = t[0]
        if k in ('i', 'b', 's'):
            return t[1]
        if k == 'c':
            return t
        if k == 'fl':
            return float(t[1])
        if k == 'ref':
            return self.ev(it.deep(self.st, t))
        if k in ('span', 'str', 'seg'):
            out = ''
            for p in it.pieces(self.st, t):
                if p[0] == 'lit':
                    out += p[1]
                elif p[0] == 'seg':
                    out += self.segstr(*p[1:])
                else:
                    raise Unknown('piece')
            return out
        if k == 'cat':
            vs = [self.ev(x) for x in t[1]]
            if all(isinstance(v, str) for v in vs):
                return ''.join(vs)
            if all(isinstance(v, tuple) and v[:1] == ('SEQ',) for v in vs):
                return ('SEQ', tuple(y for v in vs for y in v[1]))
            raise Unknown('cat')
        if k == 'L':
            return ('SEQ', tuple(self.ev(x) for x in t[1]))
        if k == 'T':
            return ('T', tuple(self.ev(x) for x in t[1]))
        if k == 'A':
            return ('A', t[1], t[2], tuple(self.ev(x) for x in t[3]))
        if k == 'chr':
            x = it.seg_of(self.st, t[1], t[2])
            if x is None:
                raise Unknown('chr')
            return ('c', ord(self.segstr(t[1], *x)))
        if k == 'fld':
            return self.field(self.ev(t[1]), t[2], t[3])
        if k == 'box':
            return self.ev(t[1])
        if k == 'op':
            f = getattr(self, 'o_' + t[1].replace(':', '_'), None)
            if f is not None:
                return f(t)
            n = t[1][4:].rsplit('::', 1)[-1] if t[1].startswith('ext:') else t[1]
            f = PURE.get(n)
            if f is None:
                raise Unknown('operator ' + t[1])
            try:
                r = f(self, t, *[self.arg(x) for x in t[2]])
            except (ValueError, IndexError, TypeError, OverflowError, ZeroDivisionError, AttributeError) as e:
                raise Unknown('%s: %s' % (t[1], e))
            return self.fit(t[3], r)
        return self.leaf(t)

    def leaf(self, t):
        raise Unknown('symbol ' + str(t)[:60])

    def arg(self, t):
        if t[0] in ('t', 'm', 'cs'):
            return t
        if t[0] in ('clo', 'fn', 'fnk'):
            cs = self.it.pred_set(self.st, t)
            if cs is None:
                raise Unknown('closure')
            return ('cs', cs)
        return self.ev(t)

    def fit(self, ty, r):
        """a value as the result type has it (f32 rounding, no overflow)"""
        if isinstance(r, bool) or ty is None:
            return r
        if isinstance(r, int):
            if self.isfloat(ty):
                return self.rnd_ty(ty, float(r))
            lo, hi = self.it.int_bounds(ty)
            if lo is not None and not lo <= r <= hi:
                raise Unknown('overflow')
            return r
        if isinstance(r, float):
            return self.rnd_ty(ty, r)
        return r

    def field(self, v, variant, i):
        if isinstance(v, tuple) and v[0] == 'A' and v[2] == variant:
            return v[3][i]
        if isinstance(v, tuple) and v[0] == 'T':
            return v[1][i]
        raise Unknown('projection')

    # ---- operators
    def tname(self, t):
        return t[1] if t[0] == 't' else None

    def isfloat(self, ty):
        t = self.it.T[ty] if ty is not None else None
        return bool(t and t.get('s') in ('f32', 'f64'))

    def rnd_ty(self, ty, v):
        t = self.it.T[ty] if ty is not None else None
        s = t.get('s') if t else None
        if s == 'f32':
            return f32(float(v))
        if s == 'f64':
            return float(v)
        return v

    def o_parse(self, t):
        s = self.strv(t[2][1])
        ty = t[2][0][1]
        v = rust_parse(ty, s)
        if v is None:
            raise Unknown('parse fails')
        return v

    def o_parseok(self, t):
        return rust_parse(t[2][0][1], self.strv(t[2][1])) is not None

    def o_cast(self, t):
        v, ty = self.ev(t[2][0]), t[2][1][1]
        if ty == 'f32':
            return f32(float(v))
        if ty == 'f64':
            return float(v)
        return int(v)

    def o_castwrap(self, t):
        v, ty = self.ev(t[2][0]), t[2][1][1]
        lo, hi = self.it.INTB(ty)
        return (int(v) - lo) % (hi - lo + 1) + lo

    def o_f2i(self, t):
        v, ty = self.ev(t[2][0]), t[2][1][1]
        lo, hi = self.it.INTB(ty)
        if v != v:
            return 0
        if math.isinf(v):
            return hi if v > 0 else lo
        return max(lo, min(hi, int(v)))

    def o_f2f(self, t):
        v = self.ev(t[2][0])
        return f32(v) if self.it.T[t[3]]['s'] == 'f32' else v

    def o_neg(self, t):
        return -self.ev(t[2][0])

    def arith(self, t, f):
        a, b = self.ev(t[2][0]), self.ev(t[2][1])
        if isinstance(a, bool) or isinstance(b, bool):
            raise Unknown('bool')
        try:
            r = f(a, b)
        except (ZeroDivisionError, OverflowError):
            raise Unknown('arith')
        if isinstance(r, int) and t[3] is not None:
            lo, hi = self.it.int_bounds(t[3])
            if lo is not None and not lo <= r <= hi:
                raise Unknown('overflow')
        return self.rnd_ty(t[3], r)

    def o_Add(self, t):
        return self.arith(t, lambda a, b: a + b)

    def o_Sub(self, t):
        return self.arith(t, lambda a, b: a - b)

    def o_Mul(self, t):
        return self.arith(t, lambda a, b: a * b)

    def o_Div(self, t):
        return self.arith(t, lambda a, b: a / b if isinstance(a, float) else tdiv(a, b))

    def o_min(self, t):
        return min(self.ev(t[2][0]), self.ev(t[2][1]))

    def o_max(self, t):
        return max(self.ev(t[2][0]), self.ev(t[2][1]))

    def o_clamp(self, t):
        v, lo, hi = (self.ev(x) for x in t[2])
        return max(lo, min(hi, v))

    def o_lower(self, t):
        return self.strv(t[2][0]).lower()

    def o_upper(self, t):
        return self.strv(t[2][0]).upper()

    def o_alower(self, t):
        return ''.join(c.lower() if c < '\x80' else c for c in self.strv(t[2][0]))

    def o_aupper(self, t):
        return ''.join(c.upper() if c < '\x80' else c for c in self.strv(t[2][0]))

    def o_trim(self, t):
        s = self.strv(t[2][0])
        what, C = t[2][1][1], t[2][2][1]
        inC = lambda ch: bool(CS.inter(C, ((ord(ch), ord(ch)),)))
        a, b = 0, len(s)
        if what in ('both', 'start'):
            while a < b and inC(s[a]):
                a += 1
        if what in ('both', 'end'):
            while b > a and inC(s[b - 1]):
                b -= 1
        return s[a:b]

    def o_tostr(self, t):
        v = self.ev(t[2][0])
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, (int, str)):
            return str(v)
        if isinstance(v, tuple) and v[0] == 'c':
            return chr(v[1])
        if isinstance(v, float):
            ty = self.it.ty_of(t[2][0])
            return fltstr(v, ty is not None and self.it.T[ty]['s'] == 'f32')
        raise Unknown('tostr')

    def o_Not(self, t):
        v = self.ev(t[2][0])
        if isinstance(v, int) and not isinstance(v, bool):
            lo, hi = self.it.int_bounds(t[3]) if t[3] is not None else (None, None)
            if lo is None:
                raise Unknown('bitwise not')
            return ~v if lo < 0 else hi - v
        if not isinstance(v, bool):
            raise Unknown('not')
        return not v

    def o_Eq(self, t):
        return self.ev(t[2][0]) == self.ev(t[2][1])

    def o_eqv(self, t):
        return self.ev(t[2][0]) == self.ev(t[2][1])

    def o_Ne(self, t):
        return self.ev(t[2][0]) != self.ev(t[2][1])

    def o_Lt(self, t):
        return self.ev(t[2][0]) < self.ev(t[2][1])

    def o_Le(self, t):
        return self.ev(t[2][0]) <= self.ev(t[2][1])

    def o_Gt(self, t):
        return self.ev(t[2][0]) > self.ev(t[2][1])

    def o_Ge(self, t):
        return self.ev(t[2][0]) >= self.ev(t[2][1])

    def o_len(self, t):
        v = self.ev(t[2][0])
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, tuple) and v[:1] == ('SEQ',):
            return len(v[1])
        raise Unknown('len')

    def o_streq(self, t):
        a, b = self.strv(t[2][0]), self.strv(t[2][1])
        m = t[2][2][1] if len(t[2]) > 2 else None
        al = lambda s: ''.join(c.lower() if c < '\x80' else c for c in s)
        au = lambda s: ''.join(c.upper() if c < '\x80' else c for c in s)
        if m == 'ci':
            return al(a) == al(b)
        f = {None: lambda s: s, 'lower': str.lower, 'upper': str.upper, 'alower': al, 'aupper': au}.get(m)
        if f is None:
            raise Unknown('streq mode ' + str(m))
        return f(a) == b

    def o_wrap(self, t):
        v = self.raw(t[2][0])
        lo, hi = self.it.int_bounds(t[3])
        return (v - lo) % (hi - lo + 1) + lo

    def o_sat(self, t):
        v = self.raw(t[2][0])
        lo, hi = self.it.int_bounds(t[3])
        return max(lo, min(hi, v))

    def o_overflow(self, t):
        v = self.raw(t[2][0])
        lo, hi = self.it.int_bounds(t[2][0][3])
        return not lo <= v <= hi

    def raw(self, t):
        """mathematical value of an arithmetic term (its own result type not applied)"""
        f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b}.get(t[1]) if t[0] == 'op' else None
        if f:
            a, b = self.ev(t[2][0]), self.ev(t[2][1])
            if isinstance(a, int) and isinstance(b, int):
                return f(a, b)
        if t[0] == 'op' and t[1] == 'neg':
            return -self.ev(t[2][0])
        v = self.ev(t)
        if not isinstance(v, int):
            raise Unknown('not an integer')
        return v

    # ---- facts
    def holds(self, k, v):
        """does a fact hold of the sample? (True | False | None unknown)"""
        try:
            if k[0] == 'atom':
                return bool(self.ev(k[1])) == v
            if k[0] == 'rng':
                x = self.ev(k[1])
                return not ((v[0] is not None and x < v[0]) or (v[1] is not None and x > v[1]))
            if k[0] == 'disc':
                x = self.ev(k[1])
                if isinstance(x, tuple) and x[0] == 'A':
                    return x[2] in v
                return None
        except Unknown:
            return None
        except (TypeError, ValueError, ArithmeticError, IndexError):
            return None
        return True

    def failing(self, goal):
        bad, unk = [], 0
        for k, v in self.st.facts.items():
            h = self.holds(k, v)
            if h is False:
                bad.append((k, v))
            elif h is None:
                unk += 1
        if goal is not None:
            try:
                if not goal[0](self):
                    bad.append((('goal',) + tuple(goal[1:]), True))
            except (Unknown, TypeError, ValueError, ArithmeticError, IndexError):
                unk += 1
        return bad, unk

    def search(self, goal=None, rounds=40):
        """adjust the sample towards the facts (and the goal); returns (failing, unknown)"""
        bad, unk = self.failing(goal)
        stuck = 0
        for _ in range(rounds):
            if not bad:
                break
            k, v = self.rnd.choice(bad)
            edits = self.edits(k, v)
            if not edits:
                break
            old = dict(self.seg)
            self.rnd.shuffle(edits)
            side = None
            for ed in edits[:120]:
                self.seg = {**old, **ed}
                b2, u2 = self.failing(goal)
                if len(b2) < len(bad):
                    bad, unk = b2, u2
                    break
                if len(b2) == len(bad) and side is None and self.rnd.random() < .3:
                    side = (self.seg, b2, u2)
            else:
                if side is None:
                    self.seg = old
                else:
                    self.seg, bad, unk = side
                    stuck += 1
                    if stuck > 6:
                        break
        return bad, unk

    def consistent(self, goal=None):
        """do the sampled operands satisfy the facts? (True | False | None unknown)"""
        bad, unk = self.search(goal)
        return False if bad else None if unk else True

    # ---- edits which may make a failing fact hold
    def edits(self, k, v):
        leaves, strs, nums = [], [], []
        ck = k
        if ck not in EDITC:
            for t in k[1:]:
                collect(t, leaves, strs, nums)
            if len(EDITC) > 5000:
                EDITC.clear()
            EDITC[ck] = (leaves, strs, nums)
        leaves, strs, nums = EDITC[ck]
        if k[0] == 'rng':
            nums = nums + [x for x in v if x is not None]
        out = []
        cur = []
        for l in leaves:
            try:
                cur.append((l, list(self.it.pieces(self.st, l)), self.ev(l)))
            except Exception:
                pass
        rnd = self.rnd
        for l, ps, s in cur:
            if not any(p[0] == 'seg' for p in ps):
                continue
            cand = set()
            for c in strs:
                cand |= {c, s + c, c + s, c + s + c, c + c, c.swapcase(), c.upper(), c.lower(), c.title(), s[:1] + c + s[1:], c[:-1], c + 'x', 'a' + c, 'a' + c + 'b', c + ' ' + c}
            for n in nums[:12]:
                cand |= set(numtexts(n))
                if isinstance(n, int) and 0 < n <= 400 and len(s) > 0:
                    for j in (n - 1, n, n + 1):
                        cand.add((s * (j // len(s) + 1))[:j])
            for l2, _, s2 in cur:
                if l2 is not l:
                    cand |= {s2, s2.swapcase(), s2 + s, s2[:-1]}
                    cand |= set(numtexts_near(s2))
            cand |= {s.swapcase(), s.upper(), s.lower(), s + s, s[:-1], s[1:], ''}
            for c in cand:
                r = assign(ps, c)
                if r:
                    out.append(r)
            # or a fresh sample of one segment
            for p in ps:
                if p[0] == 'seg':
                    hi = p[5] if p[5] is not None else p[4] + 6
                    n = rnd.randint(p[4], min(hi, p[4] + 6))
                    try:
                        out.append({(p[1], p[2]): ''.join(chr(pick(rnd, p[3])) for _ in range(n))})
                    except Unknown:
                        pass
        return out


# ---- the pure functions of std which may occur as operators of a term
def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fltstr(v, single):
    if v != v:
        return 'NaN'
    if math.isinf(v):
        return 'inf' if v > 0 else '-inf'
    from decimal import Decimal
    s = repr(v)
    if single:
        for n in range(1, 10):
            s = '%.*g' % (n, v)
            if f32(float(s)) == v:
                break
    d = format(Decimal(s), 'f')
    if '.' in d:
        d = d.rstrip('0').rstrip('.')
    return d


def opt(v=None):
    return ('A', 'std::option::Option', 0, ()) if v is None else ('A', 'std::option::Option', 1, (v,))


def chk(e, t, r):
    args = e.it.T[t[3]].get('args') if t[3] is not None else None
    lo, hi = e.it.int_bounds(args[0]) if args else (None, None)
    if lo is None:
        raise Unknown('checked')
    return opt(r) if lo <= r <= hi else opt()


def bits(e, ty):
    lo, hi = e.it.int_bounds(ty)
    return (hi - lo + 1).bit_length() - 1, lo


def unsigned(e, t, v):
    n, lo = bits(e, e.it.ty_of(t[2][0]))
    return v % (1 << n), n, lo


def resign(v, n, lo):
    return (v - lo) % (1 << n) + lo


def rround(v):
    return v if math.isinf(v) or v != v else math.copysign(math.floor(abs(v) + .5), v)


def keepinf(f):
    return lambda e, t, v: v if isinstance(v, float) and (math.isinf(v) or v != v) else f(v)


def euclid(a, b):
    r = math.fmod(a, b) if isinstance(a, float) else a - tdiv(a, b) * b
    return r + abs(b) if r < 0 else r


def tobits(e, t, v):
    sty = e.it.ty_of(t[2][0])
    ty = e.it.T[sty]['s'] if sty is not None else 'f32'
    return struct.unpack('<I', struct.pack('<f', v))[0] if ty == 'f32' else struct.unpack('<Q', struct.pack('<d', v))[0]


def strpat(p):
    """pattern -> function(text, position) -> end of the match or None"""
    if isinstance(p, str):
        return lambda s, i: i + len(p) if s.startswith(p, i) else None
    if p[0] == 'c':
        return lambda s, i: i + 1 if i < len(s) and ord(s[i]) == p[1] else None
    if p[0] == 'SEQ':
        cs = {x[1] for x in p[1]}
        return lambda s, i: i + 1 if i < len(s) and ord(s[i]) in cs else None
    if p[0] == 'cs':
        return lambda s, i: i + 1 if i < len(s) and CS.inter(p[1], ((ord(s[i]), ord(s[i])),)) else None
    raise Unknown('pattern')


def splits(s, p, n=None, keep=False):
    m = strpat(p)
    out, st, i = [], 0, 0
    if p == '':
        raise Unknown('empty pattern')
    while i < len(s):
        e = m(s, i)
        if e is not None and (n is None or len(out) < n - 1):
            out.append(s[st:e if keep else i])
            st = i = e
        else:
            i += 1
    out.append(s[st:])
    return out


def rsplits(s, p, n=None):
    m = strpat(p)
    out, end, i = [], len(s), len(s) - 1
    while i >= 0:
        e = m(s, i)
        if e is not None and e <= end and (n is None or len(out) < n - 1):
            out.append(s[e:end])
            end = i
        i -= 1
    out.append(s[:end])
    return out


def seq(xs):
    return ('SEQ', tuple(xs))


def blen(s):
    return len(s.encode())


def bslice(s, a, b=None):
    d = s.encode()
    n = len(d) if b is None else b
    if a > n or n > len(d):
        raise Unknown('slice out of bounds')
    try:
        d[:a].decode()
        d[n:].decode()
        return d[a:n].decode()
    except UnicodeDecodeError:
        raise Unknown('slice inside a character')


def bfind(s, p, r=False):
    m = strpat(p)
    for i in (range(len(s), -1, -1) if r else range(len(s) + 1)):
        e = m(s, i)
        if e is not None:
            return i, e
    return None


def once(s, p, r=False):
    x = bfind(s, p, r)
    return opt() if x is None else opt(('T', (s[:x[0]], s[x[1]:])))


def trimm(s, p, a, b):
    m = strpat(p)
    i, j = 0, len(s)
    while a:
        e = m(s, i)
        if e is None or e == i or e > j:
            break
        i = e
    while b:
        for k in range(j - 1, i - 1, -1):
            if m(s, k) == j:
                j = k
                break
        else:
            break
    return s[i:j]


def rng_slice(s, r):
    if isinstance(r, tuple) and r[0] == 'A':
        n = r[1].rsplit('::', 1)[-1]
        a = r[3]
        try:
            if n == 'Range':
                return opt(bslice(s, a[0], a[1]))
            if n == 'RangeTo':
                return opt(bslice(s, 0, a[0]))
            if n == 'RangeFrom':
                return opt(bslice(s, a[0]))
            if n == 'RangeFull':
                return opt(s)
        except Unknown:
            return opt()
    raise Unknown('range')


def allin(s, cs):
    return all(CS.inter(cs, ((ord(c), ord(c)),)) for c in s)


def chmap(s, tab):
    out = ''
    for c in s:
        for cs, w in tab:
            if CS.inter(cs, ((ord(c), ord(c)),)):
                out += c if w[0] == 'id' else chr(w[1]) if w[0] == 'c' else \
                    {'calower': lambda c: c.lower() if c < '\x80' else c, 'caupper': lambda c: c.upper() if c < '\x80' else c}[w[0]](c)
                break
        else:
            raise Unknown('char map')
    return out


def isorted(v, r=False):
    return seq(sorted(v[1], reverse=r))


def fmtval(e, t, spec, v):
    sp = spec[1]
    if isinstance(v, float):
        if sp.get('p') is not None:
            s = '%.*f' % (sp['p'], v)
        else:
            raise Unknown('fmt')
        return s
    raise Unknown('fmt')


def uni1(s):
    for c in s:
        if c >= '\x80':
            return False
    return True


WSU = CS.UWS
PURE = {
    'abs': lambda e, t, v: abs(v), 'unsigned_abs': lambda e, t, v: abs(v), 'wrapping_abs': lambda e, t, v: abs(v),
    'floor': keepinf(lambda v: float(math.floor(v))), 'ceil': keepinf(lambda v: float(math.ceil(v))),
    'trunc': keepinf(lambda v: float(math.trunc(v))), 'round': lambda e, t, v: rround(v),
    'round_ties_even': keepinf(lambda v: float(round(v))),
    'fract': keepinf(lambda v: v - math.trunc(v)), 'sqrt': lambda e, t, v: math.sqrt(v) if v >= 0 else math.nan,
    'signum': lambda e, t, v: math.copysign(1.0, v) if isinstance(v, float) else (v > 0) - (v < 0),
    'recip': lambda e, t, v: 1 / v, 'exp': lambda e, t, v: math.exp(v), 'ln': lambda e, t, v: math.log(v),
    'sin': lambda e, t, v: math.sin(v), 'cos': lambda e, t, v: math.cos(v), 'cbrt': lambda e, t, v: math.copysign(abs(v) ** (1 / 3), v),
    'powi': lambda e, t, a, b: a ** b, 'powf': lambda e, t, a, b: a ** b, 'pow': lambda e, t, a, b: a ** b,
    'mul_add': lambda e, t, a, b, c: a * b + c, 'copysign': lambda e, t, a, b: math.copysign(a, b),
    'to_degrees': lambda e, t, v: math.degrees(v), 'to_radians': lambda e, t, v: math.radians(v),
    'hypot': lambda e, t, a, b: math.hypot(a, b), 'atan2': lambda e, t, a, b: math.atan2(a, b),
    'Rem': lambda e, t, a, b: math.fmod(a, b) if isinstance(a, float) else a - tdiv(a, b) * b,
    'rem_euclid': lambda e, t, a, b: euclid(a, b),
    'div_euclid': lambda e, t, a, b: float((a - euclid(a, b)) / b) if isinstance(a, float) else tdiv(a - euclid(a, b), b),
    'BitAnd': lambda e, t, a, b: a & b, 'BitOr': lambda e, t, a, b: a | b, 'BitXor': lambda e, t, a, b: a ^ b,
    'Shl': lambda e, t, a, b: resign(a << b, *bits(e, t[3])), 'Shr': lambda e, t, a, b: a >> b,
    'and': lambda e, t, *a: all(a), 'ieq': lambda e, t, a, b: a == b,
    'is_nan': lambda e, t, v: v != v, 'is_infinite': lambda e, t, v: math.isinf(v),
    'is_finite': lambda e, t, v: math.isfinite(v), 'is_normal': lambda e, t, v: math.isfinite(v) and abs(v) >= 1.1754944e-38,
    'is_subnormal': lambda e, t, v: v != 0 and abs(v) < 1.1754944e-38,
    'is_sign_negative': lambda e, t, v: math.copysign(1, v) < 0, 'is_sign_positive': lambda e, t, v: math.copysign(1, v) > 0,
    'is_negative': lambda e, t, v: v < 0, 'is_positive': lambda e, t, v: v > 0,
    'to_bits': tobits, 'from_bits': lambda e, t, v: struct.unpack('<f', struct.pack('<I', v))[0] if e.it.T[t[3]]['s'] == 'f32' else struct.unpack('<d', struct.pack('<Q', v))[0],
    'Transmute': lambda e, t, v: v,
    'count_ones': lambda e, t, v: bin(unsigned(e, t, v)[0]).count('1'), 'ctpop': lambda e, t, v: bin(unsigned(e, t, v)[0]).count('1'),
    'leading_zeros': lambda e, t, v: unsigned(e, t, v)[1] - unsigned(e, t, v)[0].bit_length(),
    'ctlz': lambda e, t, v: unsigned(e, t, v)[1] - unsigned(e, t, v)[0].bit_length(),
    'is_power_of_two': lambda e, t, v: v > 0 and v & (v - 1) == 0,
    'swap_bytes': lambda e, t, v: resign(int.from_bytes(unsigned(e, t, v)[0].to_bytes(bits(e, e.it.ty_of(t[2][0]))[0] // 8, 'big'), 'little'), *bits(e, t[3])),
    'bswap': lambda e, t, v: resign(int.from_bytes(unsigned(e, t, v)[0].to_bytes(bits(e, e.it.ty_of(t[2][0]))[0] // 8, 'big'), 'little'), *bits(e, t[3])),
    'rotate_left': lambda e, t, v, k: resign(unsigned(e, t, v)[0] << k | unsigned(e, t, v)[0] >> unsigned(e, t, v)[1] - k, *bits(e, t[3])),
    'abs_diff': lambda e, t, a, b: abs(a - b), 'isqrt': lambda e, t, v: math.isqrt(v),
    'checked_abs': lambda e, t, v: chk(e, t, abs(v)), 'checked_add': lambda e, t, a, b: chk(e, t, a + b),
    'checked_sub': lambda e, t, a, b: chk(e, t, a - b), 'checked_mul': lambda e, t, a, b: chk(e, t, a * b),
    'checked_pow': lambda e, t, a, b: chk(e, t, a ** b), 'checked_div': lambda e, t, a, b: opt(tdiv(a, b)) if b else opt(),
    'checked_rem': lambda e, t, a, b: opt(a - tdiv(a, b) * b) if b else opt(),
    'total_cmp': lambda e, t, a, b: ('A', 'std::cmp::Ordering', (a > b) - (a < b) + 1, ()),
    'cmp': lambda e, t, a, b: ('A', 'std::cmp::Ordering', (a > b) - (a < b) + 1, ()),
    'Cmp': lambda e, t, a, b: ('A', 'std::cmp::Ordering', (a > b) - (a < b) + 1, ()),
    'partial_cmp': lambda e, t, a, b: opt() if a != a or b != b else opt(('A', 'std::cmp::Ordering', (a > b) - (a < b) + 1, ())),
    # text
    'replace': lambda e, t, s, p, r: r.join(splits(s, p)),
    'replacen': lambda e, t, s, p, r, n: r.join(splits(s, p, n + 1)),
    'contains': lambda e, t, s, p: bfind(s, p) is not None if isinstance(s, str) else p in s[1],
    'starts_with': lambda e, t, s, p: strpat(p)(s, 0) is not None,
    'ends_with': lambda e, t, s, p: bool(trimm(s, p, 0, 1) != s) if p != '' else True,
    'strip_prefix': lambda e, t, s, p: opt(s[strpat(p)(s, 0):]) if strpat(p)(s, 0) is not None else opt(),
    'strip_suffix': lambda e, t, s, p: (opt(s[:-len(p)] if p else s) if s.endswith(p) else opt()) if isinstance(p, str) else (opt(s[:-1]) if s and strpat(p)(s, len(s) - 1) is not None else opt()),
    'find': lambda e, t, s, p: opt(blen(s[:bfind(s, p)[0]])) if bfind(s, p) else opt(),
    'rfind': lambda e, t, s, p: opt(blen(s[:bfind(s, p, True)[0]])) if bfind(s, p, True) else opt(),
    'split_once': lambda e, t, s, p: once(s, p), 'rsplit_once': lambda e, t, s, p: once(s, p, True),
    'split': lambda e, t, s, p: seq(splits(s, p)), 'splitn': lambda e, t, s, n, p: seq(splits(s, p, n)),
    'rsplit': lambda e, t, s, p: seq(rsplits(s, p)), 'rsplitn': lambda e, t, s, n, p: seq(rsplits(s, p, n)),
    'split_inclusive': lambda e, t, s, p: seq([x for x in splits(s, p, None, True) if x]),
    'split_terminator': lambda e, t, s, p: seq(splits(s, p)[:-1] if splits(s, p)[-1] == '' else splits(s, p)),
    'splitws': lambda e, t, s, cs: seq([x for x in splits(s, cs) if x]),
    'split_whitespace': lambda e, t, s: seq([x for x in splits(s, ('cs', WSU)) if x]),
    'lines': lambda e, t, s: seq([x[:-1] if x.endswith('\r') else x for x in (s[:-1] if s.endswith('\n') else s).split('\n')] if s else []),
    'trim_matches': lambda e, t, s, p: trimm(s, p, 1, 1), 'trim_start_matches': lambda e, t, s, p: trimm(s, p, 1, 0),
    'trim_end_matches': lambda e, t, s, p: trimm(s, p, 0, 1),
    'join': lambda e, t, xs, sep: sep.join(xs[1]), 'concat': lambda e, t, xs: ''.join(xs[1]),
    'repeat': lambda e, t, s, n: s * n if len(s) * n < 10000 else s[1 << 60],
    'isascii': lambda e, t, s: uni1(s), 'is_ascii': lambda e, t, s: uni1(s),
    'from_utf8_lossy': lambda e, t, s: s, 'as_bytes': lambda e, t, s: s, 'into_bytes': lambda e, t, s: s,
    'from_utf8': lambda e, t, s: ('A', 'std::result::Result', 0, (s,)),
    'is_char_boundary': lambda e, t, s, i: i == 0 or i == blen(s) or (i < blen(s) and s.encode()[i] & 0xc0 != 0x80),
    'get': lambda e, t, s, r: rng_slice(s, r) if isinstance(s, str) else opt(s[1][r]) if r < len(s[1]) else opt(),
    'slice': lambda e, t, s, a, b: bslice(s, a, None if isinstance(b, tuple) else b),
    'split_at': lambda e, t, s, i: ('T', (bslice(s, 0, i), bslice(s, i))),
    'truncate': lambda e, t, s, n: bslice(s, 0, min(n, blen(s))),
    'isempty': lambda e, t, s: not s if isinstance(s, str) else not s[1],
    'cfilter': lambda e, t, s, cs: ''.join(c for c in s if allin(c, cs[1])), 'cmap': lambda e, t, s, tab: chmap(s, tab[1]),
    'stake': lambda e, t, s, n: s[:n], 'sskip': lambda e, t, s, n: s[n:], 'srev': lambda e, t, s: s[::-1],
    'stw': lambda e, t, s, cs: s[:len(s) - len(trimm(s, cs, 1, 0))], 'nchars': lambda e, t, s: len(s),
    'chars_any': lambda e, t, s, cs: any(allin(c, cs[1]) for c in s), 'chars_all': lambda e, t, s, cs: allin(s, cs[1]),
    'inset': lambda e, t, c, cs: bool(CS.inter(cs[1], ((c[1], c[1]),))) if isinstance(c, tuple) else bool(CS.inter(cs[1], ((c, c),))),
    'calower': lambda e, t, c: ('c', ord(chr(c[1]).lower()) if c[1] < 128 else c[1]), 'caupper': lambda e, t, c: ('c', ord(chr(c[1]).upper()) if c[1] < 128 else c[1]),
    'rev': lambda e, t, s: seq(s[1][::-1]), 'take': lambda e, t, s, n: seq(s[1][:n]),
    'fmtv': fmtval, 'to_owned': lambda e, t, s: s, 'into_owned': lambda e, t, s: s, 'to_string': lambda e, t, s: s,
    'escape_default': lambda e, t, s: s if all(' ' <= c <= '~' and c not in '\\\'"' for c in s) else s[1 << 60],
    'seq_first': lambda e, t, s: opt(s[1][0]) if s[1] else opt(), 'seq_last': lambda e, t, s: opt(s[1][-1]) if s[1] else opt(),
}
for _n, _m in (('fabs', 'abs'), ('sqrt', 'sqrt'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('round', 'round'), ('round_ties_even', 'round_ties_even'),
               ('powi', 'powi'), ('pow', 'powf'), ('exp', 'exp'), ('log', 'ln'), ('sin', 'sin'), ('cos', 'cos'), ('copysign', 'copysign'), ('fma', 'mul_add')):
    for _t in ('f32', 'f64') + (('',) if _n == 'fabs' else ()):
        PURE[_n + _t] = PURE[_m]

EDITC = {}


def collect(t, leaves, strs, nums, depth=0):
    """string leaves and constants of a term"""
    if not isinstance(t, tuple) or not t or depth > 40:
        return
    k = t[0]
    if k in ('span', 'str', 'seg'):
        if t not in leaves:
            leaves.append(t)
        return
    if k == 'cat' and t not in leaves and any(x[0] in ('span', 'str', 'seg') for x in t[1]):
        leaves.append(t)
    if k == 's':
        if t[1] not in strs and len(t[1]) <= 60:
            strs.append(t[1])
        return
    if k == 'c' and isinstance(t[1], int):
        if not 0xd800 <= t[1] < 0xe000 and chr(t[1]) not in strs:
            strs.append(chr(t[1]))
        return
    if k == 'cs':
        for a, b in t[1][:6]:
            for x in {a, b}:
                if not 0xd800 <= x < 0xe000:
                    strs.append(chr(x))
        return
    if k == 'i' and isinstance(t[1], int):
        nums.append(t[1])
        return
    if k == 'fl':
        try:
            nums.append(float(t[1]))
        except ValueError:
            pass
        return
    for x in (t if isinstance(k, tuple) else t[1:]):
        if isinstance(x, tuple):
            collect(x, leaves, strs, nums, depth + 1)


def numtexts(n):
    from decimal import Decimal
    out = []
    if isinstance(n, float) and (n != n or math.isinf(n)):
        return ['99999999999999999999999999999999999999999', '-99999999999999999999999999999999999999999', '1e39']
    vs = [n, -n, n + 1, n - 1, 0]
    if isinstance(n, float) or abs(n) < 1 << 24:
        f = float(n)
        vs += [f, f * .5, f * 2, f * 1.001, f * .999, f + .5, f - .5, f / 1000]
        if f == int(f):
            vs.append(int(f))
    for v in vs:
        if isinstance(v, int):
            t = [str(v), '%d.0' % v, '+%d' % v, '%02d' % v, '%de0' % v, '%d.' % v, '%d.0e0' % v]
        else:
            d = format(Decimal(repr(v)), 'f')
            t = [d, d.lstrip('0') if d.startswith('0.') else d, d if '.' in d else d + '.0', '+' + d, repr(v), '%e' % v, '%.12e' % v]
            m, e = ('%.8e' % v).split('e')
            t += ['%se%d' % (m, int(e)), '%sE%d' % (m.rstrip('0'), int(e)), '%se%+d' % (m.split('.')[0], int(e))]
        out += t
    return out


def numtexts_near(s):
    try:
        return numtexts(float(s))[:24] if not s.lstrip('+-').isdigit() else numtexts(int(s))[:20]
    except (ValueError, OverflowError):
        return []


def assign(ps, text):
    """values of the segments which make the pieces spell the text, or None"""
    need = [0] * (len(ps) + 1)
    for i in range(len(ps) - 1, -1, -1):
        need[i] = need[i + 1] + (len(ps[i][1]) if ps[i][0] == 'lit' else ps[i][4])
    if need[0] > len(text):
        return None

    def go(i, pos):
        if i == len(ps):
            return {} if pos == len(text) else None
        p = ps[i]
        if p[0] == 'lit':
            return go(i + 1, pos + len(p[1])) if text.startswith(p[1], pos) else None
        if p[0] != 'seg':
            return None
        hi = len(text) - need[i + 1] - pos
        if p[5] is not None:
            hi = min(hi, p[5])
        n = 0
        while n < hi and CS.inter(p[3], ((ord(text[pos + n]), ord(text[pos + n])),)):
            n += 1
        while n >= p[4]:
            r = go(i + 1, pos + n)
            if r is not None:
                k = (p[1], p[2])
                if k in r and r[k] != text[pos:pos + n]:
                    return None
                r[k] = text[pos:pos + n]
                return r
            n -= 1
        return None
    return go(0, 0)


def rust_parse(ty, s):
    import re
    if ty in ('f32', 'f64'):
        if not re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)', s, re.I | re.A):
            return None
        v = float(s)
        return f32(v) if ty == 'f32' else v
    if ty == 'bool':
        return {'true': True, 'false': False}.get(s)
    signed = ty[0] == 'i'
    if not re.fullmatch(r'[+-]?[0-9]+' if signed else r'\+?[0-9]+', s):
        return None
    n = int(s)
    bits = 64 if ty.endswith('size') else int(ty[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return n if lo <= n <= hi else None
