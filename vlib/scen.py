"""Shape-level analysis: the library's entry points are interpreted abstractly on *families*
of texts.  A family is a sequence of character-class segments (keyword in any case, a run of
digits of any length, a name over a class ...); operands are spans of the family, so one
analysis covers every text of the family.  The result is a set of partitions, each with the
provenance term of every field of the returned value, compared with an expected value built
from the same spans by the specification."""
import os
import time
import math
import re
import charset as CS
from core import *
from interp import Interp
from teval import Env, Unknown, feq, f32

DIG = CS.DIGIT
WSB = CS.of(' \t')


class H:
    """operand handle: segments [a,b) of the family"""
    def __init__(self, a, b, note=''):
        self.a, self.b, self.note = a, b, note


def CR(a, b):
    return CS.rng(ord(a), ord(b))


class Shape:
    def __init__(self):
        self.segs = []
        self.desc = ''

    def t(self, s):
        for c in s:
            self.segs.append((CS.of(c), 1, 1))
        self.desc += s.replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r')
        return self

    def ci(self, s):
        for c in s:
            self.segs.append((CS.of(c.lower() + c.upper()), 1, 1))
        self.desc += '<%s:any case>' % s
        return self

    def c(self, cs, mn=1, mx=1, note=None):
        self.segs.append((cs, mn, mx))
        self.desc += '<%s>' % (note or '%s{%s,%s}' % (CS.show(cs)[:24], mn, '' if mx is None else mx))
        return self

    def begin(self):
        return len(self.segs)

    def end(self, a, note=''):
        return H(a, len(self.segs), note)

    # operands
    def num(self, k):
        """k: I int, F float, sign prefix + or - ; E float with exponent; D '.5' ; P '5.'"""
        a = self.begin()
        if k[0] in '+-':
            self.t(k[0])
            k = k[1:]
        d = self.desc
        names = {'I': 'int', 'F': 'float', 'E': 'float e', 'D': '.digits', 'P': 'digits.', 'L': 'long int', 'X': 'digits e',
                 'e': 'float e-', 'g': 'float E', 'x': 'digits E+', 'h': '.digits e-', 'k': 'digits. e+', 'G': 'float e unsigned', 'H': '.digits e', 'K': 'digits. e', '1': 'digit'}
        if k == 'I':
            self.c(DIG, 1, 9)
        elif k == '1':
            self.c(DIG, 1, 1)
        elif k == 'L':
            self.c(CR('1', '9')).c(DIG, 10, 24)
        elif k == 'F':
            self.c(DIG, 1, None).t('.').c(DIG, 1, None)
        elif k == 'E':
            self.c(DIG, 1, None).t('.').c(DIG, 1, None).c(CS.of('eE')).c(CS.of('+-')).c(DIG, 1, 2)
        elif k == 'e':
            self.c(DIG, 1, None).t('.').c(DIG, 1, None).t('e-').c(DIG, 1, 2)
        elif k == 'g':
            self.c(DIG, 1, None).t('.').c(DIG, 1, None).t('E').c(DIG, 1, 2)
        elif k == 'x':
            self.c(DIG, 1, None).t('E+').c(DIG, 1, 2)
        elif k == 'h':
            self.t('.').c(DIG, 1, None).t('e-').c(DIG, 1, 2)
        elif k == 'k':
            self.c(DIG, 1, None).t('.e+').c(DIG, 1, 2)
        elif k == 'G':
            self.c(DIG, 1, None).t('.').c(DIG, 1, None).c(CS.of('eE')).c(DIG, 1, 2)
        elif k == 'X':
            self.c(DIG, 1, None).c(CS.of('eE')).c(CS.of('+-'), 0, 1).c(DIG, 1, 2)
        elif k == 'H':
            self.t('.').c(DIG, 1, None).c(CS.of('eE')).c(CS.of('+-'), 0, 1).c(DIG, 1, 2)
        elif k == 'K':
            self.c(DIG, 1, None).t('.').c(CS.of('eE')).c(CS.of('+-'), 0, 1).c(DIG, 1, 2)
        elif k == 'D':
            self.t('.').c(DIG, 1, None)
        elif k == 'P':
            self.c(DIG, 1, None).t('.')
        elif k[0] in 'DF' and k[1:].isdigit():
            n = int(k[1:])
            if n > 9:
                self.c(CR('1', '9')).c(DIG, n - 1, n - 1)
            else:
                self.c(DIG, n, n)
            if k[0] == 'F':
                self.t('.').c(DIG, n, n)
            self.desc = d + '<%s digits>' % k[1:]
            return self.end(a, k)
        elif k[0] == '=':
            self.t(k[1:])
            self.desc = d + k[1:]
            return self.end(a, k)
        else:
            raise ValueError(k)
        self.desc = d + '<%s>' % names[k]
        return self.end(a, k)

    # first character, then any number of others
    NAMES = {
        'Q': (CS.of('Q'), CR('A', 'M')), 'Z': (CS.of('Z'), CR('N', 'Y')), 'q': (CS.of('q'), CR('a', 'm')),
        'z': (CS.of('z'), CR('n', 'y')),
        # a letter no keyword starts with, then anything but whitespace
        'J': (CS.of('jJ'), CS.compl(CS.of(' \t\r\n'))),
        # any character outside ASCII, then anything but whitespace
        'U': (CS.compl(CS.rng(0, 0x7f)), CS.compl(CS.of(' \t\r\n'))),
        # a letter no keyword starts with, then anything on the line up to a character which is no blank
        'W': (CS.of('jJ'), CS.compl(CS.of('\r\n')), CS.compl(CS.of(' \t\r\n'))),
        # punctuation which starts no number, comment or index
        'V': (CS.of('_!$%&()*,:;<=>?@[]^{|}~\'"\\'), CS.compl(CS.of(' \t\r\n'))),
    }

    def name(self, k='Q'):
        a = self.begin()
        d = self.desc
        f, r = self.NAMES[k][:2]
        self.c(f).c(r, 0, 12 if k in 'QZqz' else None)
        if len(self.NAMES[k]) > 2:
            self.c(self.NAMES[k][2])
        self.desc = d + '<name %s>' % k
        return self.end(a, 'name')

    def lit(self, s):
        a = self.begin()
        self.t(s)
        return self.end(a, s)


def narrow(shape, exp, rnd, favour=()):
    """a sub-family: every character class narrowed to one member, every repetition to one length"""
    segs, at, note = [], [0], []
    for cs, mn, mx in shape.segs:
        n = mn
        if mx is None or mx > mn:
            n = min(rnd.choice([mn, mn + 1, mn + 1, mn + 2, mn + 4]), mx if mx is not None else 99)
        if not cs:
            n = 0
        if mx != mn and rnd.random() < .5:
            # a constant of the program, or a part of it, in this place
            fit = [y for f in favour if len(f) > 1 for y in (f, f[1:], f[:-1], f.strip(), f[len(f) // 2:]) if y and mn <= len(y) <= (mx or 999) and
                   all(CS.inter(cs, CS.of(c)) for c in y)]
            if fit:
                for c in rnd.choice(fit):
                    segs.append((((ord(c), ord(c)),), 1, 1))
                    note.append(c)
                n = 0
        for _ in range(n):
            lo, hi = rnd.choice(cs)
            pool = [c for c in favour if len(c) == 1 and CS.inter(cs, CS.of(c))]
            x = rnd.random()
            if pool and x < .45:
                ch = ord(rnd.choice(pool))
            elif x < .8:
                c2 = CS.inter(cs, CS.rng(0x21, 0x7e)) or cs
                lo, hi = rnd.choice(c2)
                ch = rnd.randint(lo, hi)
            else:
                ch = rnd.randint(lo, hi)
            segs.append((((ch, ch),), 1, 1))
            note.append(chr(ch))
        at.append(len(segs))
    seen = set()

    def go(x):
        if isinstance(x, H):
            if id(x) not in seen:
                seen.add(id(x))
                x.a, x.b = at[x.a], at[x.b]
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(exp)
    sh = Shape()
    sh.segs = segs
    sh.desc = ''.join(note)
    return sh, exp


# ---------------------------------------------------------------- expected values
ANY = ('any',)
ENONE = ('none',)


def N32(h):
    return ('num', h, 'f32')


def NI(h):
    return ('num', h, 'i32')


def esome(x):
    return ('some', x)


class Outcome:
    def __init__(self, status='ok', why=''):
        self.status = status    # ok | violation | undecided
        self.why = why
        self.kind = 'value'
        self.site = None
        self.witness = None
        self.paths = 0
        self.fns = ()
        self.cov = set()
        self.blocks = 0
        self.leaves = 0


class Runner:
    def __init__(self, prog, max_seeds=24, order='both'):
        self.p = prog
        self.order = order
        self.max_seeds = max_seeds
        self.base = {}
        self.stats = {'families': 0, 'paths': 0, 'leaves': 0, 'blocks': 0, 'undecided': 0, 'fns': set()}
        self.undecided = []

    def analyse(self, entry, shape, hook=None):
        it = Interp(self.p)
        it.scenario = True
        it.map_order = self.order
        it.token_hook = hook
        st = State()
        st, Sn = it.new_stream(st, shape.segs)
        ids = [g[0] for g in it.segs(st, Sn)]
        r = self.p.roots.get('crate::' + entry)
        if r is None or r.get('key') not in self.p.F:
            raise Undecided('entry point %s not found' % entry)
        outs = it.call_f(st, self.p.F[r['key']], [kref(('str', Sn, 'B'))])
        self.stats['families'] += 1
        self.stats['paths'] += len(outs)
        self.stats['fns'] |= set(it.executed)
        self.stats['blocks'] += it.blocks_run
        return it, Sn, ids, outs

    def check(self, entry, shape, exp):
        """exp: expected tree, ('err',) , or a function(it, st) -> tree"""
        o = Outcome()
        try:
            it, Sn, ids, outs = self.analyse(entry, shape)
        except Undecided as e:
            o.status, o.why = 'undecided', str(e)
            self.stats['undecided'] += 1
            self.undecided.append((shape.desc, o.why))
            return o
        o.paths = len(outs)
        o.cov = it.cov
        o.blocks = it.blocks_run
        worst = 'ok'
        for kind, tab in (('panic', it.panics), ('endless', it.hangs)):
            for k in sorted(tab):
                w = self.witness(it, tab[k]['states'], Sn)
                what = '%s reachable: %s at %s in %s' % (kind, k[2], k[1], k[0])
                if w is not None:
                    o.status, o.why, o.witness, o.kind = 'violation', what, w, kind
                    o.fns = [f for f in self.p.F.values() if f['path'] in tab[k]['stack']]
                    o.site = (k[1], k[0])
                    return o
                worst, o.why = 'undecided', what + ' (no witness)'
        if not outs and worst == 'ok':
            o.status, o.why = 'undecided', 'no outcome'
            self.stats['undecided'] += 1
            self.undecided.append((shape.desc, o.why))
            return o
        for st, v in outs:
            c = Cmp(self, it, st, Sn, ids)
            try:
                c.top(v, exp)
            except Undecided as e:
                c.unk.append(str(e))
            o.leaves += c.leaves
            if c.bad:
                o.status = 'violation'
                path, why = c.bad[0]
                o.why = '%s: %s' % (path, why)
                o.witness = c.witness
                o.fns = [self.p.F[k] for k in it.executed if self.p.F[k].get('body')]
                return o
            if c.unk:
                worst = 'undecided'
                o.why = c.unk[0]
        self.stats['leaves'] += o.leaves
        o.status = worst
        if worst != 'ok':
            self.stats['undecided'] += 1
            self.undecided.append((shape.desc, o.why))
        return o


    @staticmethod
    def witness(it, states, Sn, seeds=160):
        """a text of the family which leads to one of the states, or None"""
        for st in states:
            if any(k[0] == 'approx' for k in st.facts):
                continue
            t0 = time.time()
            for seed in range(seeds):
                try:
                    e = Env(it, st, seed)
                    if e.consistent() is True:
                        return e.text(Sn)
                except Exception:
                    continue
                if time.time() - t0 > 4:
                    break
        return None


DEBUG = bool(os.environ.get('VDEBUG'))


class Cmp:
    def __init__(self, R, it, st, Sn, ids):
        self.R, self.it, self.st, self.Sn, self.ids = R, it, st, Sn, ids
        self.bad, self.unk = [], []
        self.leaves = 0
        self.witness = None
        self._envs = None

    # ---- samples
    def envs(self):
        if self._envs is None:
            self._envs = []
            n = 0
            t0 = time.time()
            for seed in range(self.R.max_seeds * 8):
                if time.time() - t0 > (6 if n else 4):
                    break
                e = Env(self.it, self.st, seed)
                try:
                    if e.consistent() is True:
                        self._envs.append(e)
                        n += 1
                except Exception:
                    pass
                if n >= self.R.max_seeds:
                    break
        return self._envs

    def span(self, h):
        if h.a == h.b:
            return S('')
        return ('span', self.Sn, 'B' if h.a == 0 else self.ids[h.a - 1], self.ids[h.b - 1])

    def fail(self, path, why, env=None):
        if any(k[0] == 'approx' for k in self.st.facts):
            self.unk.append('%s: %s (after a loop whose effect is only approximated)' % (path, why))
            return
        env = env or (self.envs()[0] if self.envs() else None)
        if env is None:
            self.unk.append('%s: %s (no witness)' % (path, why))
            return
        if self.witness is None:
            self.witness = env.text(self.Sn)
        self.bad.append((path, why))

    # ---- concrete expectation of a leaf under a sample
    def cexp(self, exp, env):
        k = exp[0]
        if k == 'num':
            s = env.ev(self.span(exp[1]))
            if exp[2][0] in 'iu':
                return int(s)
            return f32(float(s))
        if k == 'str':
            return env.ev(self.span(exp[1]))
        if k in ('s', 'i', 'b'):
            return exp[1]
        if k == 'fl':
            return f32(float(exp[1]))
        if k == 'fn':
            return exp[1](env, self)
        raise Unknown(k)

    @staticmethod
    def vdiff(a, e):
        if isinstance(e, float) and isinstance(a, float):
            return not feq(a, e)
        if type(a) is not type(e):
            raise Unknown('type')
        return a != e

    # ---- structural equality of leaves
    def norm_num(self, t):
        """(ty, pieces of the literal text with sign) or None"""
        if t[0] == 'op':
            if t[1] == 'parse':
                ps = [numseg(x) for x in self.it.pieces(self.st, t[2][1])]
                return t[2][0][1], strip_plus(ps)
            if t[1] == 'cast':
                r = self.norm_num(t[2][0])
                if r and r[0][0] in 'iu' and t[2][1][1] in ('f32', 'f64'):
                    return t[2][1][1], r[1]
                if r and r[0] == t[2][1][1]:
                    return r
                if r and r[0][0] in 'iu' and t[2][1][1][0] in 'iu':
                    return t[2][1][1], r[1]
            if t[1] == 'neg':
                r = self.norm_num(t[2][0])
                if r:
                    return r[0], flip(r[1])
            if t[1] == 'f2f' and t[3] is not None and self.it.T[t[3]]['s'] == 'f64':
                return self.norm_num(t[2][0])       # widening keeps the value
            if t[1] == 'f2f':
                x = t[2][0]
                while x[0] == 'op' and x[1] == 'f2f':
                    x = x[2][0]
                r = self.norm_num(x)
                if r and r[0] == 'f32':
                    return r
            if t[1] == 'castwrap':
                x = t[2][0]
                while x[0] == 'op' and x[1] == 'castwrap':
                    if self.bitw(x[2][1][1]) < self.bitw(t[2][1][1]):
                        return None
                    x = x[2][0]
                r = self.norm_num(x)
                if r and r[0] == t[2][1][1]:
                    return r
            if len(t[2]) == 2:
                a, b = t[2]
                for x, c, left in ((a, b, 0), (b, a, 1)):
                    if c[0] in ('i', 'fl') and (
                            (t[1] in ('Add', 'BitXor', 'BitOr', 'copysign+') and float(c[1]) == 0) or
                            (t[1] == 'Mul' and float(c[1]) == 1) or
                            (not left and t[1] in ('Sub', 'Shl', 'Shr') and float(c[1]) == 0) or
                            (not left and t[1] == 'Div' and float(c[1]) == 1)):
                        return self.norm_num(x)
            if len(t[2]) == 3 and t[1].endswith('::mul_add') and t[2][1][0] == t[2][2][0] == 'fl' and float(t[2][1][1]) == 1 and float(t[2][2][1]) == 0:
                return self.norm_num(t[2][0])
        return None

    @staticmethod
    def bitw(s):
        return 64 if s.endswith('size') else int(s[1:])

    def leaf_eq(self, act, exp):
        k = exp[0]
        it = self.it
        if k == 'num':
            ps = strip_plus([numseg(x) for x in it.pieces(self.st, self.span(exp[1]))])
            if all(x[0] == 'lit' for x in ps):
                txt = ''.join(x[1] for x in ps)
                if act[0] == 'i' and exp[2] != 'f32':
                    return act[1] == int(txt)
                if act[0] == 'fl' and exp[2] == 'f32':
                    return feq(f32(float(act[1])), f32(float(txt)))
                return False
            r = self.norm_num(act)
            return r is not None and r[0] == exp[2] and num_pieces(r[1]) == num_pieces(ps)
        if k == 'str':
            if not it.is_strlike(act):
                return False
            a = [x[:3] if x[0] == 'seg' else x for x in it.pieces(self.st, act)]
            return a == [x[:3] if x[0] == 'seg' else x for x in it.pieces(self.st, self.span(exp[1]))]
        if k == 's':
            return act == S(exp[1]) or (it.is_strlike(act) and [x for x in it.pieces(self.st, act)] == ([('lit', exp[1])] if exp[1] else []))
        if k == 'i':
            return act == I(exp[1])
        if k == 'b':
            return act == B(exp[1])
        if k == 'fl':
            return act[0] == 'fl' and feq(float(act[1]), exp[1])
        return False

    LEAVES = ('num', 'str', 's', 'i', 'b', 'fl', 'fn')

    def leaf(self, act, exp, path):
        self.leaves += 1
        try:
            if self.leaf_eq(act, exp):
                return
        except (Undecided, ValueError):
            pass
        agree = 0
        for env in self.envs():
            try:
                a, e = env.ev(act), self.cexp(exp, env)
                if self.vdiff(a, e):
                    self.fail(path, 'is %s, expected %s' % (show(a), show(e)), env)
                    return
                agree += 1
            except Unknown:
                continue
        # the terms differ: look for an operand which tells them apart
        hint = [self.span(exp[1])] if exp[0] in ('num', 'str') else []
        goal = (lambda e: self.vdiff(e.ev(act), self.cexp(exp, e)), act, *hint)
        t0 = time.time()
        for seed in range(1000, 1030):
            env = Env(self.it, self.st, seed)
            r = env.consistent(goal)
            if DEBUG:
                print('search', seed, r, [str(x)[:300] for x in env.search(goal)], {k: v for k, v in env.seg.items()})
                for k in self.st.facts:
                    try:
                        if env.holds(k, self.st.facts[k]) is None:
                            print('  unknown', str(k)[:400])
                            env.ev(k[1])
                    except Exception as e:
                        print('   ', repr(e)[:200])
            if r is True:
                self.fail(path, 'is %s, expected %s' % (show(env.ev(act)), show(self.cexp(exp, env))), env)
                return
            if r is None or time.time() - t0 > 4:
                break
        self.unk.append('%s: %s' % (path, str(act)[:80]))

    # ---- trees
    def top(self, v, exp):
        if callable(exp):
            exp = exp(self)
        vs = self.it.split_variant(self.st, v) if v[0] != 'A' else [(self.st, v)]
        if vs is None:
            self.unk.append('result value')
            return
        for s, x in vs:
            isok = x[2] == 0
            if exp[0] == 'err':
                if isok:
                    self.fail('result', 'Ok is returned, an error is expected')
                elif len(exp) > 1:
                    self.errvar(x[3][0], exp[1])
                continue
            if exp[0] == 'anyres':
                continue
            if not isok:
                self.fail('result', 'an error is returned, Ok is expected')
                continue
            self.cmp(x[3][0], exp, 'result')

    def errvar(self, v, names):
        """names: expected variants, outermost first"""
        for n in names:
            v = self.deepv(v)
            if v[0] != 'A':
                self.unk.append('error value')
                return
            var = self.it.p.variants(v[1])[v[2]]
            self.leaves += 1
            if var['name'] != n:
                self.fail('result', 'the error is %s, expected %s' % (var['name'], n))
                return
            v = v[3][0] if v[3] else v

    def deepv(self, v):
        if v[0] == 'ref':
            v = self.it.deep(self.st, v)
        if v[0] == 'box':
            v = v[1]
        if self.it.is_sym(v) and v[0] != 'op':
            e = self.it.expand(v)
            if e is not None:
                v = e
        return v

    def cmp(self, act, exp, path):
        k = exp[0]
        if k == 'any':
            return
        act = self.deepv(act)
        if k in self.LEAVES:
            return self.leaf(act, exp, path)
        if k == 'oneof':
            subs = []
            for e in exp[1]:
                c = Cmp(self.R, self.it, self.st, self.Sn, self.ids)
                c._envs = self._envs
                c.cmp(act, e, path)
                if not c.bad and not c.unk:
                    self.leaves += c.leaves
                    return
                subs.append(c)
            for c in subs:
                if not c.bad:
                    self.unk.append(path + ': ' + (c.unk or ['?'])[0])
                    return
            self.bad += subs[0].bad
            self.witness = self.witness or subs[0].witness
            return
        if k in ('none', 'some'):
            if act[0] != 'A' or not act[1].endswith('option::Option'):
                self.unk.append(path + ': ' + str(act)[:60])
                return
            if (act[2] == 1) != (k == 'some'):
                self.fail(path, 'is %s, expected %s' % (('None', 'Some')[act[2]], ('None', 'Some')[k == 'some']))
                return
            if k == 'some':
                self.cmp(act[3][0], exp[1], path)
            return
        if k == 'tup':
            if act[0] != 'T' or len(act[1]) != len(exp[1]):
                self.unk.append(path + ': tuple')
                return
            for i, (a, e) in enumerate(zip(act[1], exp[1])):
                self.cmp(a, e, '%s.%d' % (path, i))
            return
        if k in ('rec', 'enum'):
            if act[0] != 'A':
                self.unk.append(path + ': ' + str(act)[:60])
                return
            var = self.it.p.variants(act[1])[act[2]]
            if k == 'enum':
                if var['name'] != exp[1]:
                    self.fail(path, 'is variant %s, expected %s' % (var['name'], exp[1]))
                    return
                for i, (a, e) in enumerate(zip(act[3], exp[2])):
                    self.cmp(a, e, '%s.%s.%d' % (path, var['name'], i))
                return
            names = [f['name'] for f in var['fields']]
            for f, e in exp[1].items():
                if f not in names:
                    raise Undecided('field %s.%s not found' % (act[1], f))
                self.cmp(act[3][names.index(f)], e, path + '.' + f if path != 'result' else f)
            return
        if k == 'list':
            es = self.elems(act)
            if es is None:
                self.unk.append(path + ': sequence ' + str(act)[:60])
                return
            if len(es) != len(exp[1]):
                self.fail(path, 'has %d entries, expected %d' % (len(es), len(exp[1])))
                return
            for i, (a, e) in enumerate(zip(es, exp[1])):
                self.cmp(a, e, '%s[%d]' % (path, i))
            return
        if k == 'map':
            return self.cmap(act, exp, path)
        raise Undecided('expectation ' + k)

    def elems(self, act):
        if act[0] == 'L':
            return list(act[1])
        if act[0] == 'cat':
            out = []
            for p in act[1]:
                e = self.elems(p)
                if e is None:
                    return None
                out += e
            return out
        return None

    def cmap(self, act, exp, path):
        chain = []
        m = act
        while m[0] == 'mset':
            chain.append((m[2], m[3]))
            m = m[1]
        if m[0] != 'mnew':
            self.unk.append(path + ': map ' + str(m)[:50])
            return
        if not self.envs():
            self.unk.append(path + ': no sample')
            if DEBUG:
                env = Env(self.it, self.st, 1)
                print('no sample', env.search()[0])
                for k, v in self.st.facts.items():
                    try:
                        if env.holds(k, v) is None:
                            print('  unknown', str(k)[:400])
                            env.ev(k[1])
                    except Exception as e:
                        print('   ', repr(e)[:200])
            return
        env = self.envs()[0]
        try:
            got = {}
            for kk, vv in chain:
                s = env.strv(kk)
                if s not in got:
                    got[s] = (kk, vv)
            want = {}
            for ke, ve in exp[1]:
                want[self.cexp(ke, env)] = (ke, ve)
        except Unknown as e:
            self.unk.append(path + ': key ' + str(e))
            return
        for s, (ke, ve) in want.items():
            if s not in got:
                # is the key provably absent (all keys evaluated): yes
                self.fail(path, 'has no entry %r' % s, env)
                return
            self.cmp(got[s][0], ke, path + ' key')
            self.cmp(got[s][1], ve, '%s[%r]' % (path, s))
        for s in got:
            if s not in want:
                self.fail(path, 'has an unexpected entry %r' % s, env)
                return


def strip_plus(ps):
    if ps and ps[0][0] == 'lit' and ps[0][1].startswith('+'):
        r = ps[0][1][1:]
        return ([('lit', r)] if r else []) + list(ps[1:])
    return list(ps)


def flip(ps):
    if ps and ps[0][0] == 'lit' and ps[0][1].startswith('-'):
        r = ps[0][1][1:]
        return ([('lit', r)] if r else []) + list(ps[1:])
    if ps and ps[0][0] == 'lit':
        return [('lit', '-' + ps[0][1])] + list(ps[1:])
    return [('lit', '-')] + list(ps)


def numseg(x):
    if x[0] != 'seg':
        return x
    if x[4] == x[5] == 1 and not CS.diff(x[3], CS.of('eE')):
        return ('lit', 'e')
    return x[:3]


def num_pieces(ps):
    """canonical form of the text of a number: no '.' before an exponent or at the end, a digit
    before a leading '.', a lower-case exponent mark without '+'"""
    xs = []
    for p in ps:
        xs += list(p[1]) if p[0] == 'lit' else [tuple(p)]
    out = []
    isx = lambda p: isinstance(p, str) and p in 'eE'
    for i, p in enumerate(xs):
        if p == '.':
            nx = xs[i + 1] if i + 1 < len(xs) else 'e'
            if isx(nx):
                continue
            if not out or out == ['-']:
                out.append('0')
        if p == '+' and out and isx(out[-1]):
            continue
        out.append('e' if isx(p) else p)
    return out


def show(v):
    if isinstance(v, float):
        return repr(v)
    return repr(v)[:80]
