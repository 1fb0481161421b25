"""Mixed and constant-directed text families.

mixed(pid, tier)      long statement sequences, chosen deterministically from the property id and VERIF_SEED: every
                      statement kind, operand form, layout and letter case in varying combination.
consts(pid, tier, C)  families aimed at the constants of the analysed program: a threshold c in a loop bound or a
                      comparison is met by c-1, c and c+1 repetitions of everything a text can repeat, a string
                      constant by names and words equal to it."""
import os
import random
from fam import *

# the kinds with a fixed exponent sign: the others make the paths multiply
REALS = ['I', 'F', '-F', '-I', '+F', '+I', 'D', 'P', 'e', 'g', 'x', 'h', 'k', 'L', '-D', '-P', '-e', '-x', '-h', '-k', '-L', 'F', 'F', '-F']
REAL_LITS = ['=0', '=1', '=-1', '=1.0', '=-0.0', '=0.5', '=2', '=1e5', '=1e-7', '=100000', '=16777217', '=0.0000001', '=3.4e38', '=.5', '=5.', '=-.25',
             '=123.456', '=255', '=256', '=1e10', '=-1e-10', '=0.1', '=99.99', '=1000']
INTS = ['I', '-I', '+I', 'I', 'I', '-I']
INT_LITS = ['=0', '=1', '=-1', '=2', '=7', '=99', '=255', '=256', '=65536', '=2147483647', '=-2147483648', '=007']
GNAMES = ['=abc', '=xyz', '=default', '=Material.001', '=abcd', '=ABC', '=x', '=left-arm', '=gr\u00f6up', '=Abc', '=xyz_1', '=default2']
NAMELITS = ['=a.png', '=Material.001', '=my_mat', '=UPPER', '=MiXeD', '=with-dash', '=2k', '=wood_1k.png', '=tex-01_d.png', '=./rel/a.png', '=../up.png',
            '=\u00fcn\u00ef', '=C:\\t.png', '=a#b', '=x=y', '=(none)', '=none', '=null', '=default', '=on', '=off', '="quoted"', "='single'", '=a//b', '=a.b.c',
            '=\u6750\u8cea', '=mat,1', '=\U0001f600', '=_', '=__', '=a_b', '=100%', '=~tmp', '=a+b', '=[x]', '={y}', '=Default', '=NONE', '=True', '=untitled']
NAMECLS = list('QZqzJUV')


class Mix:
    """random statements; r is the generator of this family"""

    def __init__(self, r, o, layout, case, C=None):
        self.r, self.o, self.layout = r, o, layout
        self.used = set()
        self.case = case
        o.kwcase = case == 'any'
        self.C = C or Consts()
        self.cnames = sorted({v for s in self.C.strs | self.C.chars for v in around(s) if isname(v)})
        self.cgaps = sorted(s for s in self.C.texts if s.strip(' \t\r\n') == '' and ('\n' in s or '\r\n' in s))
        self.ctext = sorted(s for s in self.C.strs | self.C.chars | self.C.texts if s.strip(' \t') and '\n' not in s and '\r' not in s)
        self.cints = sorted(x for c in self.C.ints for x in {c, c + 1, c - 1, -c} if -2 ** 31 <= x < 2 ** 31)
        self.creals = sorted({l for x in self.C.floats for v in (x, -x, x * 2, x / 2, x + 1, x - 1) for l in [fl(v)] if l} | {'=%d' % x for x in self.cints})

    def real(self):
        r = self.r
        if self.creals and r.random() < .3:
            return r.choice(self.creals)
        return r.choice(REALS) if r.random() < .6 else r.choice(REAL_LITS)

    def reals(self, n):
        return [self.real() for _ in range(n)]

    def int(self):
        r = self.r
        if self.cints and r.random() < .3:
            return '=%d' % r.choice(self.cints)
        return r.choice(INTS) if r.random() < .7 else r.choice(INT_LITS)

    def form(self, form):
        return '/'.join(self.int() if x else '' for x in form.split('/'))

    def name(self, wide=False):
        r = self.r
        if self.cnames and r.random() < .35:
            return '=' + r.choice(self.cnames)
        if r.random() < .5:
            return r.choice(NAMECLS)
        return r.choice(NAMELITS + (['=two words', '=a  b c', '=tab\there'] if wide else []))

    def gname(self):
        r = self.r
        if self.cnames and r.random() < .35:
            return '=' + r.choice(self.cnames)
        if r.random() < .25:
            c = r.choice('QZqz')
            if c not in self.used:
                self.used.add(c)
                return c
        return r.choice(GNAMES)

    def ends(self, named, word=False):
        """layout of the next statement"""
        r, o = self.r, self.o
        o.sp = r.choice([' ', ' ', '\t', '  ', ' \t '])
        nls = ['\n', '\n', ' \n', '\t\r\n', '\r\n', '\n\n', '\r\n\r\n', '\n \t', '\n# note v 1 2 3\n', '\n#\n', '\n  # x\r\n\n', nl_comment_line]
        if not named:
            nls += [' \n', '\t\r\n', ' # c 1 2\n', nl_comment, ' \t \n\n']
        if self.cgaps or self.ctext:
            for c in self.cgaps[:4]:
                nls += ['\n' + c, c if c[:1] in '\r\n' else '\n' + c + '\n'] * 2
            for c in (r.sample(self.ctext, min(3, len(self.ctext)))):
                nls += ['\n# %s\n' % c, '\n%s%s\n' % ('' if c[0] == '#' else '#', c), '\n# a%sb\n' % c]
                if not named:
                    nls += [' %s%s\n' % ('' if c[0] == '#' else '# ', c), ' # a %s b\n' % c]
        o.nl = r.choice(nls) if self.layout else '\n'
        if not self.layout:
            o.sp = ' '


def around(s):
    """words with the constant s in them"""
    s = s.strip()
    return [s, 'x' + s, s + 'x', 'x' + s + 'y', 'obj_' + s, s + '.x', s.upper(), s.lower(), s * 2] if s and not set(s) & set(' \t\r\n') else []


class MixO(Mix):
    def stmt(self, k):
        r, o = self.r, self.o
        self.ends(k in ('g', 'usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj'))
        if k == 'v':
            o.v(self.reals(r.choice([3, 3, 4])))
        elif k == 'vn':
            o.vn(self.reals(3))
        elif k == 'vt':
            o.vt(self.reals(r.choice([1, 2, 2, 3])))
        elif k == 'f':
            n = r.choice([3, 3, 3, 4, 4, 5, 6, 9])
            fm = r.choice(FFORMS)
            o.f([self.form(fm if r.random() < .85 else r.choice(FFORMS)) for _ in range(n)])
        elif k == 'l':
            o.l([self.form(r.choice(['I', 'I/I'])) for _ in range(r.choice([2, 2, 3, 5]))])
        elif k == 'p':
            o.p([self.form('I') for _ in range(r.choice([1, 1, 2, 4]))])
        elif k == 'g':
            o.g(*[self.gname() for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4]))])
        elif k in ('usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj'):
            n = self.name(True)
            getattr(o, k)(n)
        elif k in ('bevel', 'c_interp', 'd_interp'):
            self.ends(True)
            getattr(o, k)(r.choice(['on', 'off']))
        elif k == 'lod':
            if r.random() < .5:
                o.lod()
            else:
                olod(o, r.choice(['=0', '=1', '=7', '=100', '=255', '=99']))
        elif k == 's':
            x = r.choice(['off', 'on', 'I', 'I', '=1', '=2', '=0', '=33', '=100'])
            self.ends(x in ('off', 'on'))
            o.s(x)
        elif k == '#':
            o.comment()
        else:
            raise ValueError(k)

    ALL = ['v', 'vn', 'vt', 'f', 'l', 'p', 'g', 'usemtl', 'usemap', 'bevel', 'c_interp', 'd_interp', 'lod', 's', 'o', 'mtllib', 'maplib', 'shadow_obj',
           'trace_obj', '#']


MOPTS = ['-blendu', '-blendv', '-cc', '-clamp', '-mm', '-o', '-s', '-t', '-texres', '-imfchan', '-bm', '-type']


class MixM(Mix):
    def opt(self, o):
        r = self.r
        if o in ('-blendu', '-blendv', '-cc', '-clamp'):
            return (o, r.choice(['on', 'off']))
        if o == '-mm':
            return (o, self.reals(2))
        if o in ('-o', '-s', '-t'):
            return (o, self.reals(r.choice([1, 2, 3])))
        if o == '-texres':
            return (o, [self.int()])
        if o == '-bm':
            return (o, [self.real()])
        if o == '-imfchan':
            return (o, r.choice(['=r', '=g', '=b', '=m', '=l', '=z', 'q', 'Q']))
        return (o, r.choice(['=sphere', '=cube_top', '=cube_bottom', 'q', 'J']))

    def stmt(self, k):
        r, m = self.r, self.o
        self.ends(k in MAPS or k == 'newmtl')
        if k == 'newmtl':
            m.newmtl(self.name())
        elif k in COLOURS:
            x = r.random()
            if x < .5:
                m.colour(k, self.reals(3))
            elif x < .75:
                m.xyz(k, self.reals(r.choice([1, 2, 3])))
            else:
                m.spectral(k, self.name(), r.choice([None, [self.real()]]))
        elif k in SCALARS:
            m.scalar(k, [self.real()])
        elif k == 'd':
            m.d([self.real()], r.random() < .5)
        elif k == 'illum':
            m.illum([r.choice(['I', '=0', '=1', '=2', '=10', '=11', '=99'])])
        elif k == 'map_aat':
            m.map_aat(r.choice(['on', 'off']))
        elif k == '#':
            m.comment()
        else:
            os_ = opts_for(k)
            pick = r.sample(os_, min(len(os_), r.choice([0, 0, 1, 2, 3, len(os_)])))
            cut = r.choice([len(pick), len(pick), r.randint(0, len(pick))])
            m.map(k, [self.opt(x) for x in pick[:cut]], [self.opt(x) for x in pick[cut:]], name=self.name())

    ALL = list(COLOURS) + list(SCALARS) + ['d', 'illum', 'map_aat'] + MAPS + ['newmtl', '#']


# which statements a property's sequences favour
FOCUS_O = {
    'C03': ['g', 'usemtl', 'usemap', 'bevel', 'c_interp', 'd_interp', 'lod', 's', 'o', 'f', 'l', 'p'],
    'C05': None, 'C06': None, 'C08': ['v', 'vn', 'vt', 'f', 'l', 'p', 's', 'lod'], 'C09': ['v', 'vn', 'vt'], 'C10': ['f', 'l', 'p'],
    'C11': ['g', 'g', 'f', 'l', 'p'], 'C12': ['g', 'usemtl', 'usemap', 'bevel', 'c_interp', 'd_interp', 'lod', 'f'], 'C13': ['s', 'f', 'g', 's', 'f'],
    'C14': ['mtllib', 'maplib', 'shadow_obj', 'trace_obj'], 'C15': None, 'C21': ['g', 'usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj'],
    'C22': None, 'C23': None,
}
FOCUS_M = {
    'C03': None, 'C05': None, 'C07': None, 'C08': list(COLOURS) + list(SCALARS) + ['d', 'illum'] + MAPS[:1], 'C16': ['newmtl', 'newmtl', 'newmtl', 'Kd', 'map_Kd'],
    'C17': list(COLOURS), 'C18': list(SCALARS) + ['d', 'illum', 'map_aat'], 'C19': MAPS, 'C20': MAPS, 'C21': ['newmtl'] + MAPS + ['Ka'], 'C22': None, 'C23': None,
    'C26': None,
}
BAD_O = ['v', 'v 1', 'v 1 2', 'v a 2 3', 'v 1 2 3 4 5', 'v 1/2 3 4', 'vn 1 2', 'vn 1 2 3 4', 'vt a', 'vt 1 2 3 4', 'f', 'f a', 'f 1.5 2 3', 'f /1 2 3',
         'f 1/2/3/4 1 2', 'f 1 2 3 4.0', 'f 1/x 2 3', 'f 1 2 x', 'l', 'l 1 x', 'l 1.5 2', 'l /1', 'p', 'p a', 'p 1/2', 'p 1.5', 'g', 'usemtl', 'usemap', 'mtllib',
         'maplib', 'shadow_obj', 'trace_obj', 'o', 'bevel', 'bevel 1', 'c_interp', 'c_interp 0', 'd_interp', 'd_interp 1', 'lod', 'lod a', 'lod -1', 'lod 256',
         'lod 1.5', 's 1.5', 's 1 2', 's', 'foo', 'foo 1 2 3', 'vv 1 2 3', 'vertex 1 2 3', 'vtx 1 2', 'fo 1 2 3', 'usemtlx a', 'cstype bezier', '}', ']',
         '= 1 2', '/ 1 2', '1 2 3', '*', 'v 1,2,3', 'v 1 2 3 x', 'vn 1 0 0 x', 'f 1 2 99999999999', 'p 2147483648', 'v 1e 2 3', 'v 1.2.3 0 0', 'v --1 0 0',
         '\u00e9', 'gg abc', 'og x', 'end', '\\', 'v 1 2 3 \\', 'f 1//  2//3 x', 'lod 300', 'f 1 2 -']
BAD_M = ['Ka', 'Ka 1', 'Kd 1 2', 'Ks a', 'Ka 1 2 b', 'Kd 1 2 3 4', 'Ka spectral', 'Kd spectral 1', 'Ks xyz', 'Ke xyz a', 'Tf 1', 'Ns', 'Ns a', 'Ns 1 2', 'Tr', 'Tr x',
         'Ni 1 2', 'sharpness', 'sharpness a', 'd', 'd a', 'd 1 2', 'd -halo', 'd -halo a', 'illum', 'illum a', 'illum 1.5', 'illum -1', 'illum 1 2', 'map_aat',
         'map_aat 1', 'newmtl', 'refl', 'refl -type', 'refl -type sphere', 'bump -bm a f.png', 'bump -bm f.png', 'bump', 'map_Kd', 'map_Kd -mm 1 f.png',
         'map_Ka -o f.png', 'map_Ks -s f.png', 'disp -t f.png', 'map_Kd -texres f.png', 'map_Kd -blendu', 'decal -clamp 1 f.png', 'map_Kd -mm 0 1',
         'map_Kd 1', 'map_Kd a.png b.png', 'map_Ns', 'map_d a.png b.png', 'foo', 'foo 1 2 3', 'map_Ke a.png', 'norm a.png', 'Kx 1 1 1', 'Ka 1 2 99x', 'Kd 1,2,3',
         'Ns 1e', 'Ns 1.2.3', 'Tr --1', '}', '=', '1 2 3', '/', '\u00e9', 'Kdd 1 1 1', 'map_Kdx a.png', 'dd 1', 'illum 99999999999', 'map_Kd -foo 1 a.png',
         'spectral a', 'xyz 1 2 3']


def _rng(pid, i, what):
    return random.Random('%s-%s-%s-%d' % (pid, os.environ.get('VERIF_SEED') or '1', what, i))


def mixed_o(pid, i, n, bad=False, anyres=False, focus=None, C=None):
    def b():
        r = _rng(pid, i, 'o')
        o = Obj()
        x = MixO(r, o, r.random() < (.95 if pid == 'C22' else .5), 'any' if pid == 'C06' or r.random() < .2 else 'low', C)
        k = r.randint(4, n)
        at = r.randint(0, k) if bad else None
        fs = focus or MixO.ALL
        for j in range(k):
            if j == at:
                o.sh.t(r.choice(BAD_O) + r.choice(['\n', '\r\n', '\n\n']))
            x.stmt(r.choice(fs) if r.random() < .7 else r.choice(MixO.ALL))
        if at == k:
            o.sh.t(r.choice(BAD_O) + r.choice(['', '\n', '\r\n']))
        return o.sh, ('anyres',) if anyres else ('err', ['ModelParse']) if bad else o.exp()
    return Family('mixed obj %d%s' % (i, ' with a malformed statement' if bad else ''), 'load_obj', b)


def mixed_m(pid, i, n, bad=False, anyres=False, focus=None, C=None):
    def b():
        r = _rng(pid, i, 'm')
        m = Mtl()
        x = MixM(r, m, r.random() < (.95 if pid == 'C22' else .5), 'any' if pid == 'C07' or r.random() < .2 else 'low', C)
        k = r.randint(4, n)
        at = r.randint(1, k) if bad else None
        fs = focus or MixM.ALL
        x.stmt('newmtl')
        for j in range(1, k):
            if j == at:
                m.sh.t(r.choice(BAD_M) + r.choice(['\n', '\r\n', '\n\n']))
            x.stmt(r.choice(fs) if r.random() < .7 else r.choice(MixM.ALL))
        if at == k:
            m.sh.t(r.choice(BAD_M) + r.choice(['', '\n', '\r\n']))
        return m.sh, ('anyres',) if anyres else ('err', ['MaterialParse']) if bad else m.exp()
    return Family('mixed mtl %d%s' % (i, ' with a malformed statement' if bad else ''), 'load_mtl', b)


SOUP_O = ['v', 'vn', 'vt', 'f', 'l', 'p', 'g', 'usemtl', 'usemap', 'bevel', 'c_interp', 'd_interp', 'lod', 's', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj',
          'on', 'off', 'default', 'vp']
SOUP_M = MTL_KW + ['-halo', 'spectral', 'xyz', 'on', 'off'] + list(OPTS)
SOUP_ARG = ['1', '-1', '0', '1.5', '-.5', '5.', '1e5', '1e', '99999999999', '-99999999999', '2147483648', '-2147483649', '1/2/3', '1//3', '1/', '/', '//', '1/2/3/4',
            '-1/-2', 'abc', '"', '"a b"', "'", '\\', '\\n', '#', '# x', '-', '+', '--', '.', '..', '=', '(', ')', '{', '}', '\u00e9', '\u00df', '\u0130', '\ufb01', '\u212a',
            '\u017f', '\U0001f600', '\u00a0', '\u2003', '\x00', '\x1b', '\x7f', '\ufeff', '"a', 'a"', '""', 'a/b', '/a', 'a#', '#a', '%s', '{}', '$x', '-x', '-o', '-clamp',
            '1e999', '-1e999', 'nan', 'inf', '1_0', '0x1', '256', '-0', '\u0663', '1,2', 'a:b', 'a;b', 'a\\b', ':', ';', '@', '*', '~', '^', '&', '|', '<', '>', '?', '!']


def soup(pid, i, mtl):
    """anything: keywords, operands and characters in any order"""
    def b():
        r = _rng(pid, i, 'soup%d' % mtl)
        sh = Shape()
        kws = SOUP_M if mtl else SOUP_O
        if mtl and r.random() < .8:
            sh.t('newmtl m\n')
        for _ in range(r.randint(1, 6)):
            kw = r.choice(kws)
            sh.t(r.choice([kw, kw, kw.upper(), kw.capitalize(), kw + 'x']) if r.random() < .85 else r.choice(SOUP_ARG))
            for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4, 6])):
                sh.t(r.choice([' ', ' ', ' ', '\t', '  ', '\n', '']))
                x = r.random()
                if x < .8:
                    sh.t(r.choice(SOUP_ARG))
                elif x < .86:
                    sh.t(r.choice(kws))
                elif x < .9:
                    sh.num(r.choice(REALS))
                elif x < .94:
                    sh.c(r.choice([NOWS, ANYC, CS.compl(CS.rng(0, 0x7f)), CS.rng(0x21, 0x7e)]), 1, 1)
                else:
                    sh.name(r.choice(NAMECLS))
            sh.t(r.choice(['\n', '\n', '\n', '\r\n', '\r', ' ', '\n\n']))
        return sh, ('anyres',)
    return Family('soup %s %d' % ('mtl' if mtl else 'obj', i), 'load_mtl' if mtl else 'load_obj', b)


MIXN = {'C01': 0, 'C02': 0}


def mixed(pid, tier, C=None):
    n = (110 if C is None or C.empty() else 200) if quick(tier) else 900
    ln = 12 if quick(tier) else 24
    out = []
    if pid in ('C01', 'C02'):
        for i in range(n * 2):
            out.append(soup(pid, i, i % 2 == 1))
        for i in range(n // 4):
            out.append(mixed_o(pid, i, ln, i % 2 == 1, True, C=C))
            out.append(mixed_m(pid, i, ln, i % 2 == 1, True, C=C))
        return out
    both = pid in FOCUS_O and pid in FOCUS_M
    k = n // 2 + 10 if both else n
    bad = pid in ('C05', 'C23')
    if pid in FOCUS_O:
        for i in range(k):
            out.append(mixed_o(pid, i, ln, bad, focus=FOCUS_O[pid], C=C))
    if pid in FOCUS_M:
        for i in range(k):
            out.append(mixed_m(pid, i, ln, bad, focus=FOCUS_M[pid], C=C))
    return out


# ------------------------------------------------------------------ constants of the program
BASE_INTS = {0, 1, 8, 16, 24, 255, 256, 2147483647, -2147483648, -1}
WORDS = {w.lower() for w in list(OBJ_KW.values()) + MTL_KW + ['on', 'off', 'vp', 'spectral', 'xyz', 'default', '-halo', '-boost', 'sphere', 'cube_top']} | set(OPTS)


class Consts:
    def __init__(self, prog=None):
        self.ints, self.strs, self.floats, self.chars, self.texts = set(), set(), set(), set(), set()
        if prog is None:
            return
        d = prog.d
        for f in prog.F.values():
            if f['crate'] != d['crate'] or f.get('derived'):
                continue
            self.walk(f.get('body'))
            for b in (f.get('body') or {}).get('blocks', ()):
                t = b and b.get('t')
                if t and t[0] == 'switch':
                    dis = {json_key(s[1]) for s in b['s'] if s[0] == '=' and s[2][0] == 'discr'}
                    if json_key(t[1][1]) not in dis:
                        for v, _ in t[2]:
                            self.int(v)
        self.ints -= BASE_INTS
        self.floats -= {1.0, -1.0}
        self.fake()
        self.strs = {s for s in self.strs if s.lower() not in WORDS}
        self.chars -= set(' \t\r\n#+-./Ee0123456789')

    def fake(self):
        """development: constants to try the families with"""
        if os.environ.get('FAKE_CONSTS'):
            self.ints, self.strs, self.floats, self.chars = [set(x) for x in eval(os.environ['FAKE_CONSTS'])]

    def int(self, v):
        if isinstance(v, str):
            v = int(v)
        self.ints.add(v)
        if 33 <= v < 0xd800 and v != 127:
            self.chars.add(chr(v))

    def walk(self, x):  # noqa
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], dict):
                return self.const(x[1])
            for y in x:
                self.walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                self.walk(y)

    def const(self, c):
        if 'int' in c:
            self.int(c['int'])
        elif 'char' in c:
            if 33 <= c['char'] < 0x110000:
                self.chars.add(chr(c['char']))
        elif 'str' in c:
            s = c['str']
            if s.lower() in WORDS or '::' in s or s in '#+-./eE':
                return
            if s and len(s) <= 40 and not any(ch.isspace() for ch in s):
                self.strs.add(s)
                if len(s) == 1:
                    self.chars.add(s)
            elif len(s) <= 24 and s not in (' ', '\t', '\n', '\r\n', '\r', ' \t', ' \t\r\n'):
                self.texts.add(s)
                self.chars |= {ch for ch in s if not ch.isspace()} if len(s) <= 12 else set()
        elif 'float' in c:
            try:
                self.floats.add(float(c['float']))
            except ValueError:
                pass
        elif 'ref' in c and isinstance(c['ref'], dict):
            self.const(c['ref'])
        elif 'agg' in c:
            a = c['agg']
            if any(isinstance(y, dict) and y.get('int') in (192, '192') for y in a) or len(a) > 5 and all('int' in y for y in a if isinstance(y, dict)):
                return
            for y in a:
                if isinstance(y, dict):
                    self.const(y)

    def empty(self):
        return not (self.ints or self.strs or self.floats or self.chars or self.texts)


def json_key(x):
    return repr(x)


def isname(s):
    """a word which may stand as a name in both formats"""
    import re
    return bool(re.match(r'[^\s#/+\-.\d][^\s]*$', s)) and s.lower() not in WORDS - {'default', 'sphere', 'cube_top', 'on', 'off'}


def fl(x):
    """the literal of a float constant"""
    import struct
    x = struct.unpack('f', struct.pack('f', x))[0] if abs(x) < 3.4e38 else x
    if x != x or abs(x) > 3.4e38:
        return None
    s = repr(x)
    return '=' + s


SETTING = ['usemtl', 'usemap', 'bevel', 'c_interp', 'd_interp', 'lod']
FILES = ['mtllib', 'maplib', 'shadow_obj', 'trace_obj']
NAMEDK_O = ['g', 'usemtl', 'usemap', 'o'] + FILES
NAMEDK_M = ['newmtl', 'map_Kd', 'bump', 'refl', 'Ka spectral', 'disp', '-type', '-imfchan']


def simple_o(o, k, i=0):
    """statement k with fixed short operands; i makes repeated ones differ"""
    if k == 'v':
        o.v(['=%d' % i, '=0', '=1'])
    elif k == 'vn':
        o.vn(['=%d' % i, '=0', '=1'])
    elif k == 'vt':
        o.vt(['=%d' % i, '=1'])
    elif k == 'f':
        o.f(('=1', '=2', '=%d' % (i + 3)))
    elif k == 'l':
        o.l(('=1', '=%d' % (i + 2)))
    elif k == 'p':
        o.p(('=%d' % (i + 1),))
    elif k == 'g':
        o.g('=j%d' % i)
    elif k in ('usemtl', 'usemap', 'o') or k in FILES:
        getattr(o, k)('=j%d' % i)
    elif k in ('bevel', 'c_interp', 'd_interp'):
        getattr(o, k)('on' if i % 2 else 'off')
    elif k == 'lod':
        olod(o, '=%d' % (i % 100))
    elif k == 's':
        o.s('=%d' % (i + 1))
    elif k == '#':
        o.sh.t('# c\n')


def simple_m(m, k, i=0):
    if k == 'newmtl':
        m.newmtl('=j%d' % i)
    elif k in COLOURS:
        m.colour(k, ['=%d' % i, '=0', '=1'])
    elif k in SCALARS:
        m.scalar(k, ['=%d' % i])
    elif k == 'd':
        m.d(['=%d' % i], i % 2 == 1)
    elif k == 'illum':
        m.illum(['=%d' % i])
    elif k == 'map_aat':
        m.map_aat('on' if i % 2 else 'off')
    elif k == '#':
        m.sh.t('# c\n')
    else:
        m.map(k, name='=j%d' % i)


def many_o(pid, n):
    """families with n of everything; n >= 1"""
    out = []

    def add(name, fn):
        out.append(OF('%d x %s' % (n, name), fn))
    rep = lambda k: (lambda o: [simple_o(o, k, i) for i in range(n)] and None)
    if pid in ('C09', 'C15', 'C03'):
        for k in ('v', 'vn', 'vt'):
            add(k, rep(k))
            add(k + ' f', lambda o, k=k: [(simple_o(o, k, i), simple_o(o, 'f', i)) for i in range(n)] and None)
    if pid in ('C10', 'C15', 'C03'):
        for fm in FFORMS:
            add('f ' + fm, lambda o, fm=fm: o.f(tuple('/'.join('=%d' % (i + 1) if x else '' for x in fm.split('/')) for i in range(n))))
        for fm in ('I', 'I/I'):
            add('l ' + fm, lambda o, fm=fm: o.l(tuple('/'.join('=%d' % (i + 1) for x in fm.split('/')) for i in range(n))))
        add('p', lambda o: o.p(tuple('=%d' % (i + 1) for i in range(n))))
    if pid in ('C10', 'C11', 'C15', 'C03', 'C13'):
        for k in ('f', 'l', 'p'):
            add('%s statements' % k, rep(k))
            add('g %s' % k, lambda o, k=k: ([simple_o(o, k, i) for i in range(n)], o.g('=j'), [simple_o(o, k, i) for i in range(n)], o.g('=default'), simple_o(o, k, 5)) and None)
    if pid in ('C11', 'C12', 'C15', 'C03'):
        add('names in g', lambda o: (o.g(*['=j%d' % i for i in range(n)]), o.f(), o.l(), o.p(), simple_o(o, 'usemtl'), o.bevel('on')) and None)
        add('same name in g', lambda o: (o.g(*['=j'] * n), o.f(), o.l(), o.p()) and None)
        add('groups', lambda o: ([(o.g('=j%d' % i), simple_o(o, 'f', i)) for i in range(n)], o.g('=j0'), simple_o(o, 'f', 7), o.g('=default'), o.p()) and None)
        add('groups without elements', lambda o: ([o.g('=j%d' % i) for i in range(n)], o.f(), o.usemtl()) and None)
        add('same group', lambda o: ([(o.g('=j'), simple_o(o, 'f', i)) for i in range(n)], o.g('=k'), o.f()) and None)
    if pid in ('C12', 'C15', 'C03'):
        for k in SETTING:
            add(k, lambda o, k=k: (o.g('=j'), [simple_o(o, k, i) for i in range(n)], o.f()) and None)
            add('groups and ' + k, lambda o, k=k: [(o.g('=j%d' % i), simple_o(o, k, i)) for i in range(n)] and None)
            add('f then ' + k, lambda o, k=k: ([simple_o(o, 'f', i) for i in range(n)], simple_o(o, k, 1), o.f()) and None)
    if pid in ('C13',):
        add('s', lambda o: [(simple_o(o, 's', i), o.f()) for i in range(n)] and None)
        add('s without face', lambda o: ([simple_o(o, 's', i) for i in range(n)], o.f()) and None)
        add('faces after s', lambda o: (o.s('=5'), [simple_o(o, 'f', i) for i in range(n)], o.s('off'), o.f()) and None)
    if pid in ('C14', 'C15', 'C03'):
        for k in FILES:
            add(k, rep(k))
            add('v then ' + k, lambda o, k=k: ([simple_o(o, 'v', i) for i in range(n)], simple_o(o, k)) and None)
    if pid in ('C15', 'C03', 'C06'):
        for k in ('o', '#', 's', 'g', 'usemtl'):
            add(k + ' then all', lambda o, k=k: ([simple_o(o, k, i) for i in range(n)], [simple_o(o, q) for q in MixO.ALL]) and None)
    if pid in ('C03',):
        add('groups with settings', lambda o: ([(o.g('=j%d' % i), simple_o(o, 'usemtl', i), simple_o(o, 'lod', i), simple_o(o, 'f', i)) for i in range(n)], o.o(), o.g('=k'), o.f()) and None)
    if pid in ('C22', 'C15'):
        add('blank lines', lambda o: (o.v(), o.sh.t('\n' * n), o.f(), o.sh.t('\r\n' * n), o.g('=j'), o.p()) and None)
        add('blanks', lambda o: (setattr(o, 'sp', ' ' * n), o.v(), o.g('=j'), o.f(), setattr(o, 'sp', '\t' * n), o.vn(), o.usemtl()) and None)
        add('leading blanks', lambda o: (o.v(), o.sh.t(' ' * n), o.f(), o.sh.t('\t' * n), o.usemtl()) and None)
        add('comments', lambda o: (o.v(), o.sh.t('# v 1 2 3\n' * n), o.f(), o.usemtl()) and None)
        add('comment length', lambda o: (o.v(), o.sh.t('#').c(NONL, n, n).t('\n'), o.f(), o.sh.t('#' * n).t('\n'), o.usemtl()) and None)
        add('trailing blanks', lambda o: (setattr(o, 'nl', ' ' * n + '\n'), o.v(), o.f(), o.usemtl(), o.g('=j'), o.bevel('on')) and None)
    if pid in ('C23', 'C05'):
        def bad(o, k, j):
            [simple_o(o, k, i) for i in range(n)]
            o.sh.t(j + '\n')
            return ('err', ['ModelParse'])
        for k in ('v', 'f', 'g', 'usemtl', '#', 's'):
            for j in ('foo 1 2', 'v 1 2', 'f a'):
                add('%s then %s' % (k, j), lambda o, k=k, j=j: bad(o, k, j))
        if n > 4:
            out.append(OE('v with %d numbers' % n, 'v' + ' 1' * n + '\n'))
        if n > 3:
            out.append(OE('vn with %d numbers' % n, 'vn' + ' 1' * n + '\n'))
            out.append(OE('vt with %d numbers' % n, 'vt' + ' 1' * n + '\n'))
        if n > 1:
            out.append(OE('s with %d numbers' % n, 's' + ' 1' * n + '\n'))
            out.append(OE('lod with %d numbers' % n, 'lod' + ' 1' * n + '\n'))
        out.append(OE('f with a name at %d' % n, 'f' + ' 1' * n + ' a\n'))
        out.append(OE('l with a name at %d' % n, 'l' + ' 1' * n + ' a\n'))
        out.append(OE('p with a name at %d' % n, 'p' + ' 1' * n + ' a\n'))
        out.append(OE('unknown word of %d letters' % n, 'j' * n + ' 1 2 3\n'))
    if pid == 'C21':
        for k in NAMEDK_O:
            add('letters in the name of ' + k, lambda o, k=k: pname2(o, k, n))
    if pid == 'C08':
        add('digits', lambda o: (o.v(['D%d' % n, '=0', 'F%d' % n]),) and None)
        if n <= 9:
            add('digit index', lambda o: (o.f(('D%d' % n, '-D%d' % n, '=1')), o.s('D%d' % n)) and None)
    if pid in ('C01', 'C02'):
        for nm, t in (('open bracket', '(' * n), ('letters', 'a' * n), ('digits', '1' * n), ('slashes', '1' + '/' * n), ('minus', '-' * n), ('quotes', '"' * n),
                      ('indices', 'f' + ' 1/2/3' * n), ('v', 'v' + ' 1' * n), ('names', 'g' + ' a' * n), ('keywords', 'v ' * n), ('lines', 'l' + ' 1' * n),
                      ('points', 'p' + ' 1' * n), ('hash', '#' * n), ('cr', '\r' * n), ('nl', '\n' * n), ('wide', '\u00e9' * n), ('wide name', 'usemtl ' + '\u6750' * n),
                      ('backslashes', '\\' * n), ('dots', '.' * n), ('faces', 'f 1 2 3\n' * n), ('groups', 'g a\n' * n), ('s', 's 1\n' * n), ('float', 'v 0.' + '1' * n + ' 0 0')):
            out.append(OE('%d x %s' % (n, nm), t, ' 1\n'))
    return out


def pname2(o, k, n):
    o.kw(k)
    o.gap()
    a = o.sh.begin()
    o.sh.c(CS.of('jJ')).c(LET, n - 1, n - 1)
    h = ('str', o.sh.end(a))
    put_name(o, k, h)
    o.eol()


def put_name(o, k, h):
    if k == 'usemtl':
        o.gset('material_name', h)
    elif k == 'usemap':
        o.gset('texture_map', esome(h))
    elif k == 'mtllib':
        o.M['material_libs'].append(h)
    elif k == 'maplib':
        o.M['texture_libs'].append(h)
    elif k == 'shadow_obj':
        o.shadow = esome(h)
    elif k == 'trace_obj':
        o.trace = esome(h)
    elif k == 'g':
        o.cur = [h]
        o.getg(h)


def many_m(pid, n):
    out = []

    def add(name, fn):
        out.append(MF('%d x %s' % (n, name), fn))
    if pid in ('C16', 'C26', 'C03'):
        add('newmtl', lambda m: [simple_m(m, 'newmtl', i) for i in range(n)] and None)
        add('newmtl same name', lambda m: [(m.newmtl('=j'), simple_m(m, 'Kd', i)) for i in range(n)] and None)
        add('newmtl with content', lambda m: [(simple_m(m, 'newmtl', i), simple_m(m, 'Kd', i), simple_m(m, 'map_Kd', i)) for i in range(n)] and None)
        add('newmtl then all', lambda m: ([simple_m(m, 'newmtl', i) for i in range(n)], [simple_m(m, k, 3) for k in MTL_KW if k != 'newmtl']) and None)
        add('statements', lambda m: (m.newmtl('=j'), [simple_m(m, 'Ns', i) for i in range(n)], simple_m(m, 'Kd', 1), m.newmtl('=k'), simple_m(m, 'Ns', 1)) and None)
    if pid in ('C17', 'C18', 'C19', 'C26', 'C03'):
        ks = {'C17': list(COLOURS), 'C18': list(SCALARS) + ['d', 'illum', 'map_aat'], 'C19': MAPS}.get(pid) or MTL_KW[:-1]
        for k in ks:
            add(k, lambda m, k=k: (m.newmtl('=j'), [simple_m(m, k, i) for i in range(n)]) and None)
            add('materials with ' + k, lambda m, k=k: [(simple_m(m, 'newmtl', i), simple_m(m, k, i)) for i in range(n)] and None)
    if pid == 'C20' and n <= 20:
        for k in MAPS:
            for o in opts_for(k) if k in ('map_Kd', 'bump', 'refl') else opts_for(k)[:2]:
                if o in ('-bm', '-type'):
                    continue    # which of several wins is not laid down
                add('%s %s' % (k, o), lambda m, k=k, o=o: m.newmtl('=j').map(k, [o] * n))
            add('materials with %s options' % k, lambda m, k=k: [(simple_m(m, 'newmtl', i), m.map(k, opts_for(k))) for i in range(min(n, 3))] and None)
    if pid in ('C22',):
        add('blank lines', lambda m: (m.newmtl(), m.sh.t('\n' * n), m.colour('Kd'), m.sh.t('\r\n' * n), m.map('map_Kd')) and None)
        add('blanks', lambda m: (setattr(m, 'sp', ' ' * n), m.newmtl(), m.colour('Kd'), m.map('map_Kd', ['-s']), setattr(m, 'sp', '\t' * n), m.d('F', True)) and None)
        add('leading blanks', lambda m: (m.newmtl(), m.sh.t(' ' * n), m.colour('Kd'), m.sh.t('\t' * n), m.map('map_Kd')) and None)
        add('comments', lambda m: (m.newmtl(), m.sh.t('# Kd 1 2 3\n' * n), m.colour('Kd'), m.map('bump')) and None)
        add('comment length', lambda m: (m.newmtl(), m.sh.t('#').c(NONL, n, n).t('\n'), m.colour('Kd'), m.sh.t('#' * n).t('\n'), m.map('refl')) and None)
    if pid in ('C23', 'C05'):
        def bad(m, k, j):
            m.newmtl('=j')
            [simple_m(m, k, i) for i in range(n)]
            m.sh.t(j + '\n')
            return ('err', ['MaterialParse'])
        for k in ('newmtl', 'Kd', 'map_Kd', '#', 'Ns'):
            for j in ('foo 1 2', 'Kd 1 2', 'Ns a'):
                add('%s then %s' % (k, j), lambda m, k=k, j=j: bad(m, k, j))
        for k in ('Ka', 'Ns', 'd', 'illum', 'Tr'):
            if n > 3:
                out.append(ME('%s with %d numbers' % (k, n), 'newmtl m\n' + k + ' 1' * n + '\n'))
        if n > 1:
            out.append(ME('map_Kd with %d names' % n, 'newmtl m\nmap_Kd' + ' a.png' * n + '\n'))
        out.append(ME('unknown word of %d letters' % n, 'newmtl m\n' + 'j' * n + ' 1 2 3\n'))
    if pid == 'C21':
        def nm(m, k):
            fn = NAMED_M[k]
            fn(m, '=j' + 'x' * (n - 1))
        for k in NAMEDK_M:
            add('letters in the name of ' + k, lambda m, k=k: nm(m, k))
    if pid == 'C08':
        add('digits', lambda m: (m.newmtl('=j'), m.colour('Kd', ['D%d' % n, 'F%d' % n, '=0']), m.scalar('Ns', ['F%d' % n]), m.d(['-F%d' % n])) and None)
    if pid in ('C01', 'C02'):
        for nm_, t in (('letters', 'a' * n), ('digits', '1' * n), ('names', 'newmtl' + ' a' * n), ('newmtl', 'newmtl a\n' * n), ('Kd', 'newmtl a\nKd' + ' 1' * n),
                       ('map names', 'newmtl m\nmap_Kd' + ' a' * n), ('options', 'newmtl m\nmap_Kd' + ' -clamp on' * n), ('wide', 'newmtl ' + '\u6750' * n),
                       ('minus', 'newmtl m\nmap_Kd ' + '-' * n), ('hash', '#' * n), ('quotes', 'newmtl ' + '"' * n), ('Ns', 'newmtl a\n' + 'Ns 1\n' * n)):
            out.append(ME('%d x %s' % (n, nm_), t, ' 1\n'))
    return out


def free(f):
    def b():
        sh, _ = f.build()
        return sh, ('anyres',)
    return Family(f.name, f.entry, b)


def values(pid, lit, isint):
    """families with one number everywhere a number may stand"""
    out = []
    if pid in ('C08', 'C09'):
        for i in range(4):
            out.append(OF('v with %s at %d' % (lit, i), lambda o, i=i: o.v(['=2.5'] * i + [lit] + ['=2.5'] * (3 - i))))
        for i in range(3):
            out.append(OF('vn with %s at %d' % (lit, i), lambda o, i=i: o.vn(['=2.5'] * i + [lit] + ['=2.5'] * (2 - i))))
            out.append(OF('vt with %s at %d' % (lit, i), lambda o, i=i: o.vt(['=2.5'] * i + [lit])))
        out.append(OF('vertices of %s' % lit, lambda o: (o.v([lit] * 3), o.v([lit] * 4), o.vn([lit] * 3), o.vt([lit]), o.vt([lit] * 2), o.vt([lit] * 3)) and None))
    if pid in ('C08', 'C17', 'C26'):
        for k in COLOURS:
            for i in range(3):
                out.append(MF('%s with %s at %d' % (k, lit, i), lambda m, k=k, i=i: m.newmtl('=j').colour(k, ['=2.5'] * i + [lit] + ['=2.5'] * (2 - i))))
                out.append(MF('%s xyz with %s at %d' % (k, lit, i), lambda m, k=k, i=i: m.newmtl('=j').xyz(k, ['=2.5'] * i + [lit])))
            out.append(MF('%s all %s' % (k, lit), lambda m, k=k: m.newmtl('=j').colour(k, [lit] * 3)))
            out.append(MF('%s xyz all %s' % (k, lit), lambda m, k=k: m.newmtl('=j').xyz(k, [lit] * 3)))
            out.append(MF('%s spectral %s' % (k, lit), lambda m, k=k: m.newmtl('=j').spectral(k, 'z', [lit])))
    if pid in ('C08', 'C18', 'C26'):
        for k in SCALARS:
            out.append(MF('%s %s' % (k, lit), lambda m, k=k: m.newmtl('=j').scalar(k, [lit])))
            out.append(MF('%s 2.5 ; %s' % (k, lit), lambda m, k=k: m.newmtl('=j').scalar(k, ['=2.5']).scalar(k, [lit])))
        for h in (False, True):
            out.append(MF('d %s %s' % (h, lit), lambda m, h=h: m.newmtl('=j').d([lit], h)))
        if isint and lit[1] != '-':
            out.append(MF('illum %s' % lit, lambda m: m.newmtl('=j').illum([lit])))
    if pid in ('C08', 'C20'):
        for k, o in [(k, o) for k in ('map_Kd', 'bump', 'disp', 'refl') for o in opts_for(k)]:
            if o in ('-o', '-s', '-t', '-mm'):
                for i in range(2 if o == '-mm' else 3):
                    for n in range(i + 1, 4) if o != '-mm' else (2,):
                        out.append(MF('%s %s %s at %d of %d' % (k, o, lit, i, n), lambda m, k=k, o=o, i=i, n=n: m.newmtl('=j').map(
                            k, [(o, ['=2.5'] * i + [lit] + ['=2.5'] * (n - i - 1))])))
                out.append(MF('%s %s all %s' % (k, o, lit), lambda m, k=k, o=o: m.newmtl('=j').map(k, [(o, [lit] * (2 if o == '-mm' else 3))])))
            elif o == '-bm' or (o == '-texres' and isint):
                out.append(MF('%s %s %s' % (k, o, lit), lambda m, k=k, o=o: m.newmtl('=j').map(k, [(o, [lit])])))
    if isint:
        if pid in ('C08', 'C10'):
            for form in FFORMS:
                for i in range(3):
                    out.append(OF('f %s with %s at %d' % (form, lit, i), lambda o, form=form, i=i: o.f(
                        ['/'.join((lit if j == i else '=5') if x else '' for x in form.split('/')) for j in range(3)])))
                if form.count('I') > 1:
                    for q in range(len(form.split('/'))):
                        out.append(OF('f %s with %s in part %d' % (form, lit, q), lambda o, form=form, q=q: o.f(
                            ['/'.join((lit if j == q else '=5') if x else '' for j, x in enumerate(form.split('/')))] * 3)))
            out.append(OF('l %s' % lit, lambda o: (o.l((lit, '=5')), o.l(('=5', lit)), o.l((lit + '/=5', '=5/' + lit))) and None))
            out.append(OF('p %s' % lit, lambda o: (o.p((lit,)), o.p(('=5', lit))) and None))
        if pid in ('C08', 'C13'):
            out.append(OF('s %s' % lit, lambda o: (o.s(lit), o.f(), o.s('=3'), o.f(), o.s(lit), o.f()) and None))
        if pid in ('C08', 'C12') and 0 <= int(lit[1:]) <= 255:
            out.append(OF('lod %s' % lit, lambda o: (olod(o, lit), o.g('=j'), olod(o, '=3'), olod(o, lit)) and None))
    return out


def words(pid, s):
    """families with the word s as a name and as an unknown keyword"""
    out = []
    vs = sorted({s, s.upper(), s.lower(), s.capitalize(), s + 'x', 'x' + s, s + '1', s + '_' + s, s * 2, 'x' + s + 'y', 'x.' + s, s + '.x'})
    if pid in ('C21', 'C11', 'C12', 'C14', 'C19', 'C15', 'C16', 'C22', 'C03', 'C20', 'C17', 'C26'):
        for v in vs:
            if not isname(v):
                continue
            if pid in FOCUS_O:
                for k in NAMEDK_O if pid in ('C21', 'C15', 'C22') else {'C11': ['g'], 'C12': ['usemtl', 'usemap', 'g'], 'C14': FILES, 'C03': ['usemtl']}.get(pid, []):
                    out.append(OF('%s %s' % (k, v), lambda o, k=k, v=v: NAMED_O[k](o, '=' + v) and None))
                    out.append(OF('%s a ; %s' % (k, v), lambda o, k=k, v=v: (NAMED_O[k](o, '=a'), NAMED_O[k](o, '=' + v), o.f()) and None))
                    if k in ('usemtl', 'usemap'):
                        out.append(OF('g ; %s a ; %s' % (k, v), lambda o, k=k, v=v: (o.g('=j', '=k'), NAMED_O[k](o, '=a'), NAMED_O[k](o, '=' + v), o.f()) and None))
                if pid in ('C11', 'C12', 'C15', 'C21'):
                    out.append(OF('g %s with content' % v, lambda o, v=v: (o.f(), o.g('=' + v), o.f(), o.l(), o.p(), o.usemtl(), o.bevel('on'), o.g('=a'), o.f(),
                                                                          o.g('=' + v, '=a'), o.f()) and None))
            if pid in FOCUS_M:
                ks = {'C21': NAMEDK_M, 'C16': ['newmtl'], 'C19': MAPS, 'C20': ['-type', '-imfchan', 'map_Kd'], 'C17': ['Ka spectral'], 'C22': ['newmtl', 'map_Kd'],
                      'C26': ['newmtl', 'map_Kd'], 'C03': ['newmtl']}.get(pid, [])
                for k in ks:
                    fn = NAMED_M.get(k) or (lambda m, n, k=k: m.newmtl('=j').map(k, name=n))
                    out.append(MF('%s %s' % (k, v), lambda m, fn=fn, v=v: fn(m, '=' + v)))
                    out.append(MF('%s a ; %s' % (k, v), lambda m, fn=fn, v=v: (fn(m, '=a'), fn(m, '=' + v)) and None))
                    if k == 'newmtl':
                        out.append(MF('newmtl %s with content' % v, lambda m, v=v: m.newmtl('=a').colour('Kd').newmtl('=' + v).colour('Kd').newmtl('=b')))
    w = s.lower()
    import re
    if re.match(r'^[a-z_][a-z_0-9]*$', w):
        for a in ('', ' 1', ' 1 2 3', ' abc', ' on', ' 1.5', ' 1/2/3 1/2/3 1/2/3'):
            for v in (s, s.upper()):
                if pid in ('C06', 'C05', 'C23') and w not in [x.lower() for x in OBJ_KW.values()]:
                    out.append(OE('word %s%s' % (v, a), v + a + '\n'))
                    out.append(OE('v ; word %s%s' % (v, a), 'v 1 2 3\ng abc\n' + v + a + '\nf 1 2 3\n'))
                if pid in ('C07', 'C05', 'C23') and w not in [x.lower() for x in MTL_KW]:
                    out.append(ME('word %s%s' % (v, a), 'newmtl m\n' + v + a + '\n'))
                    if a not in ('', ' abc'):
                        out.append(ME('Kd ; word %s%s' % (v, a), 'newmtl m\nKd 1 1 1\n' + v + a + '\nNs 1\n'))
    if re.match(r'^-?[a-z_]+$', w) and pid in ('C07', 'C20', 'C23') and w.lstrip('-') not in [x[1:] for x in OPTS]:
        for a in ('', ' 1', ' on', ' abc'):
            out.append(ME('option %s%s' % (s, a), 'newmtl m\nmap_Kd -' + s.lstrip('-') + a + ' file.png\n'))
    return out


def consts(pid, tier, prog):
    """families aimed at the constants of this program"""
    C = Consts(prog)
    out = []
    ns = set()
    for c in sorted(C.ints):
        if 2 <= c <= 300:
            ns |= {c - 1, c, c + 1}
    if not quick(tier):
        ns |= set(range(2, 13)) | {31, 32, 33, 63, 64, 65, 100, 128, 257}
    else:
        ns |= {2, 7, 20}
    if len(ns) > 40:
        ns = set(sorted(ns)[:40])
    base = set(ns) if not C.empty() else ns
    for n in sorted(base):
        if pid in FOCUS_O or pid in ('C01', 'C02'):
            out += many_o(pid, n)
        if pid in FOCUS_M or pid in ('C01', 'C02'):
            out += many_m(pid, n)
    for c in sorted(C.ints)[:30]:
        for x in sorted({c - 1, c, c + 1, -c}):
            if -2 ** 31 <= x < 2 ** 31:
                out += values(pid, '=%d' % x, True)
            out += values(pid, '=%d.0' % x, False) if c in (x, -x) else []
    for x in sorted(C.floats)[:20]:
        for v in (x, -x, x + 1, x - 1, x / 2, x * 2, x * 1.01 + 1e-6, x * .99 - 1e-6):
            l = fl(v)
            if l:
                out += values(pid, l, False)
    for s in sorted(C.strs)[:20]:
        out += words(pid, s)
    for ch in sorted(C.chars)[:30]:
        if ch.isspace() or ord(ch) < 33:
            continue
        for v in ('a%sb' % ch, 'j' + ch, ch + 'j', ch + 'j' + ch, ch * 2, 'a%sb%sc' % (ch, ch)):
            if isname(v):
                out += [f for f in words(pid, v) if pid == 'C21' or ch in f.name][:60] if pid in ('C21', 'C11', 'C12', 'C14', 'C19', 'C16', 'C22') else []
    if pid in ('C01', 'C02'):
        for s in sorted(C.strs | C.chars)[:30]:
            for k in list(OBJ_KW.values()):
                for a in (s, 'a' + s, s + 'a', s + s, s + 'a' + s):
                    out.append(OE('%s %s' % (k, a), k + ' ' + a + '\n'))
            for k in MTL_KW[:9] + ['map_Kd', 'bump', 'refl', 'newmtl']:
                for a in (s, 'a' + s, s + 'a', s + s, s + 'a' + s):
                    out.append(ME('%s %s' % (k, a), 'newmtl m\n' + k + ' ' + a + '\n'))
        for c in sorted(C.ints)[:20]:
            for x in (c - 1, c, c + 1, -c):
                for k in list(OBJ_KW.values()):
                    out.append(OE('%s %d' % (k, x), '%s %d %d %d\n' % (k, x, x, x)))
                for k in MTL_KW:
                    out.append(ME('%s %d' % (k, x), 'newmtl m\n%s %d %d %d\n' % (k, x, x, x)))
        return [free(f) for f in out]
    return out


def slots(pid, tier):
    """every kind of number in every place a number may stand"""
    out = []
    ks = ['I', '-I', 'F', '-F', '+F', 'D', 'P', 'e', 'g', 'x', 'h', 'k', 'L', '-L'] if pid == 'C08' or not quick(tier) else ['I', '-F', 'h', 'L']
    if pid in ('C08', 'C09', 'C17', 'C18', 'C20'):
        for k in ks:
            out += values(pid, k, False)
        for l in ['=0', '=1', '=-1', '=1.0', '=0.0', '=-0.0', '=1e-40', '=1e-10', '=3.4028235e38', '=0.5', '=100', '=255'] if pid == 'C08' or not quick(tier) else ['=0', '=1', '=-1', '=0.5']:
            out += values(pid, l, False)
    if pid in ('C08', 'C10', 'C13', 'C12'):
        for l in ['=0', '=1', '=-1', '=2', '=32', '=100', '=255', '=65535', '=65536', '=2147483647', '=-2147483648', '=1000000']:
            out += [f for f in values(pid, l, True) if f.entry == 'load_obj' and f.name[:2] in ('f ', 'l ', 'p ', 's ', 'lo')]
    return thin(out, 1500) if quick(tier) else out


JUNK_O = ['vp 1 2', 'vp 0.5', 'vp', 'vpx 1 2', 'call a.obj', 'parm u 1 2', 'end', 'deg 3', 'con 1 2 3', 'cstype bezier', 'usemtlx a', 'vertex 1 2 3', 'fo 1 2 3',
          'on', 'e 1 2', 'mg 1 2', 'stech curv 1', 'hole 1', '}', '=1', '"a"', '\\', 'x', '\u00e9 1', 'bsp 1 2 3', 'g', 'usemtl', 'lod', 'bevel', 'v a', 'f a', 'l a', 'p a', 'vn', 'vt']
JUNK_M = ['norm a.png', 'Pr 0.5', 'map_Ke a.png', 'map_refl a.png', 'aniso 1', 'Kx 1 1 1', '-boost 2', 'spectral f.rfl', 'xyz 1 1 1', '-halo 1', 'on', '}', '=1', '"a"', '\\', 'x 1',
          '\u00e9 1', 'Ka', 'Kd a', 'Ns', 'd -halo', 'illum a', 'newmtl', 'map_Kd', 'map_aat', 'v 1 2 3', 'usemtl a', 'd', 'Tr a']


def afters(pid, tier):
    """an unusable line after each kind of statement"""
    out = []
    if pid not in ('C05', 'C23'):
        return out
    for k in OBJ_KINDS + ['s off', 'fvtn', 'lt']:
        for j in JUNK_O:
            for more in (True, False) if not quick(tier) else ((JUNK_O.index(j) + len(k)) % 2 == 0,):
                def fn(o, k=k, j=j, more=more):
                    OBJ[k](o)
                    o.sh.t(j + '\n')
                    if more:
                        OBJ['v'](o)
                    return ('err', ['ModelParse'])
                out.append(OF('%s ; %s%s' % (k, j, ' ; v' if more else ''), fn))
    for k in MTL_KINDS:
        for j in JUNK_M:
            for more in (True, False) if not quick(tier) else ((JUNK_M.index(j) + len(k)) % 2 == 0,):
                def fn(m, k=k, j=j, more=more):
                    m.newmtl('=j')
                    MTL[k](m)
                    m.sh.t(j + '\n')
                    if more:
                        m.newmtl('=z')
                    return ('err', ['MaterialParse'])
                out.append(MF('%s ; %s%s' % (k, j, ' ; newmtl' if more else ''), fn))
    return out


SWITCH_WORDS = ['only', 'once', 'onx', 'ONE', 'on1', 'on-', 'on,', 'on!', 'onon', 'on_off', 'onn', 'oon', 'xon', 'no', 'offf', 'offon', 'of', 'true', 'yes', 'enable',
                't', 'y', 'x', 'Onto', 'non', 'o.n', '"on"', 'on;', 'on/off']


def switches(pid, tier):
    """a switch word other than on or off counts as off (documented leniency): words which merely begin with on are not on"""
    out = []
    ws = SWITCH_WORDS if not quick(tier) or pid in ('C06', 'C07') else SWITCH_WORDS[:8]
    if pid in ('C06', 'C12'):
        for w in ws:
            for k in ('bevel', 'c_interp', 'd_interp'):
                out.append(OF('%s on ; %s %s' % (k, k, w), lambda o, k=k, w=w: (getattr(o, k)('on'), o.g('=j'), getattr(o, k)('on'), getattr(o, k)(w), o.f()) and None))
    if pid in ('C07', 'C18'):
        for w in ws:
            out.append(MF('map_aat on ; map_aat %s' % w, lambda m, w=w: m.newmtl('=j').map_aat('on').newmtl('=k').map_aat('on').map_aat(w)))
    if pid in ('C07', 'C20'):
        for w in ws:
            for n, k in enumerate(MAPS):
                o = [x for x in opts_for(k) if x in ('-blendu', '-blendv', '-cc', '-clamp')]
                out.append(MF('%s %s %s' % (k, o[n % len(o)], w), lambda m, k=k, a=o[n % len(o)], w=w: m.newmtl('=j').map(k, [(a, w)], name='=z')))
                out.append(MF('%s all switches %s' % (k, w), lambda m, k=k, o=o, w=w: m.newmtl('=j').map(k, [(a, w) for a in o], name='=z')))
    return out


# ------------------------------------------------------------------ characters of several bytes at every offset
def wide(pid, tier):
    """texts in which every byte offset past a short head falls inside a character in one of the families"""
    if pid not in ('C01', 'C02'):
        return []
    out = []
    chars = {2: 'é', 3: '語', 4: '😀'}
    heads = {'load_obj': ['', 'g ', '# ', 'v 1 2 3\no ', 'v 1 2 ', 'usemtl ', 'xyz '], 'load_mtl': ['', 'newmtl ', '# ', 'newmtl m\nNs ', 'newmtl m\nmap_Kd ', 'xyz ']}
    for entry, hs in heads.items():
        for h in hs:
            for w in (2, 3, 4) if not quick(tier) else (3,):
                for k in range(w):
                    for tail in ('', '\nzzz\n'):
                        def b(h=h, w=w, k=k, tail=tail):
                            sh = Shape().t(h + 'x' * k + chars[w] * 45 + tail)
                            return sh, ('anyres',)
                        out.append(Family('%s: characters of %d bytes after %r, shift %d%s' % (entry, w, h, k, ', junk after' if tail else ''), entry, b))
    return out


# ------------------------------------------------------------------ ordinary but particular statements between the others
PNAMES = ['default', 'off', 'on', 'none', 'null', '0', '-', '_', 'a', 'A', '.', '*', 'Default', 'DEFAULT', 'group1', 'g', 'v', 'f', 'usemtl', '(null)', 'unnamed', 'all', 'model.mtl', '1']


def particular_o():
    out = []
    for n in filter(isname, PNAMES):
        out.append(('g', 'g ' + n, lambda o, n=n: o.g('=' + n)))
    for ns in (('default', 'default'), ('a', 'default'), ('default', 'a'), ('a', 'a'), ('b', 'a'), ('a', 'b', 'c', 'd'), ('a', 'A'), ('a', 'b', 'a'), ('j', 'default'), ('default', 'j', 'a')):
        out.append(('g', 'g ' + ' '.join(ns), lambda o, ns=ns: o.g(*['=' + n for n in ns])))
    for k in ('usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj'):
        for n in filter(isname, PNAMES[:8] + ['j', 'model.mtl', 'a b']):
            out.append((k, '%s %s' % (k, n), lambda o, k=k, n=n: getattr(o, k)('=' + n)))
    for x in ('=0', '=1', '=2', '=-1', 'off', 'on', '=8', '=32'):
        out.append(('s', 's ' + x, lambda o, x=x: o.s(x)))
    for k in ('bevel', 'c_interp', 'd_interp'):
        for w in ('on', 'off'):
            out.append((k, '%s %s' % (k, w), lambda o, k=k, w=w: getattr(o, k)(w)))
    out.append(('lod', 'lod', lambda o: o.lod()))
    for k, xs in (('v', ['0 0 0', '1 1 1', '0 0 0 1', '1 2 3 0', '1 2 3 1', '-1 -1 -1', '9 8 7']), ('vn', ['0 0 0', '0 0 1', '9 8 7', '2 0 0']),
                  ('vt', ['0', '1', '0 0', '1 1', '0.5 0.5 0', '0 0 0', '-1 2', '9 8 7'])):
        for x in xs:
            out.append((k, k + ' ' + x, lambda o, k=k, x=x: getattr(o, k)(['=' + y for y in x.split()])))
    for k, xs in (('f', ['1 1 1', '1 2 3', '3 2 1', '1 2 3 4', '1 2 3 1', '0 0 0', '-1 -2 -3', '1/1 2/2 3/3', '1//1 2//2 3//3', '1/1/1 2/2/2 3/3/3', '1/2/3 1/2/3 1/2/3']),
                  ('l', ['1 1', '1 2', '1 2 3', '1/1 2/2', '-1 -2', '2 1 2']), ('p', ['1', '1 1', '1 2 3', '-1', '0'])):
        for x in xs:
            out.append((k, k + ' ' + x, lambda o, k=k, x=x: getattr(o, k)(tuple('/'.join('=' + z if z else '' for z in y.split('/')) for y in x.split()))))
    for t in ('#', '# default', '#off', '# 0', '#!', '\t', ' ', ''):
        out.append(('#', 'line %r' % t, lambda o, t=t: o.raw(t + '\n')))
    return out


def const_nums(C):
    ints = sorted(C.ints, key=abs)[:6]
    xs = sorted({y for c in ints for y in (c - 1, c, c + 1, -c) if -2 ** 31 <= y < 2 ** 31})
    fs = [l for l in (fl(v) for c in sorted(C.floats)[:5] for v in (c, c + 1, c - 1, c * 2)) if l and 'e' not in l]
    return xs, fs


def const_o(C):
    """statements with the constants of the program as operands"""
    out = []
    xs, fs = const_nums(C)
    for x in xs:
        l = '=%d' % x
        out.append(('s', 's %d' % x, lambda o, l=l: o.s(l)))
        if 0 <= x <= 255:
            out.append(('lod', 'lod %d' % x, lambda o, l=l: olod(o, l)))
        out.append(('f', 'f %d' % x, lambda o, l=l: o.f((l, '=1', '=2'))))
        out.append(('f', 'f %d/%d/%d' % (x, x, x), lambda o, l=l: o.f(('=5/%s/=6' % l, '=7/=8/%s' % l, '%s/=3/=4' % l))))
        out.append(('l', 'l %d' % x, lambda o, l=l: o.l(('=1', l))))
        out.append(('p', 'p %d' % x, lambda o, l=l: o.p((l,))))
    for l in ['=%d' % x for x in xs] + fs:
        for k, n in (('v', 3), ('vn', 3), ('vt', 2)):
            out.append((k, '%s %s' % (k, l[1:]), lambda o, k=k, n=n, l=l: getattr(o, k)([l] * n)))
            out.append((k, '%s %s 2' % (k, l[1:]), lambda o, k=k, n=n, l=l: getattr(o, k)([l] + ['=2'] * (n - 1))))
    for w in sorted(C.strs)[:12]:
        for n in sorted({w, w.lower(), w.upper(), w + 'x', 'x' + w}):
            if isname(n):
                for k in ('g', 'usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj'):
                    out.append((k, '%s %s' % (k, n), lambda o, k=k, n=n: getattr(o, k)('=' + n)))
    return out


def const_m(C):
    out = []
    xs, fs = const_nums(C)
    for l in ['=%d' % x for x in xs] + fs:
        for k in SCALARS:
            out.append((k, '%s %s' % (k, l[1:]), lambda m, k=k, l=l: m.scalar(k, [l])))
        for c in COLOURS:
            out.append((c, '%s %s' % (c, l[1:]), lambda m, c=c, l=l: m.colour(c, [l, '=2', '=3'])))
            out.append((c, '%s all %s' % (c, l[1:]), lambda m, c=c, l=l: m.colour(c, [l] * 3)))
        for h in (False, True):
            out.append(('d', 'd %s%s' % ('-halo ' if h else '', l[1:]), lambda m, l=l, h=h: m.d([l], h)))
        for o in ('-o', '-s', '-t', '-mm'):
            out.append(('map_Kd', 'map_Kd %s %s' % (o, l[1:]), lambda m, o=o, l=l: m.map('map_Kd', [(o, [l, '=2'])], name='=j')))
    for x in xs:
        if 0 <= x <= 255:
            out.append(('illum', 'illum %d' % x, lambda m, x=x: m.illum(['=%d' % x])))
    for w in sorted(C.strs)[:12]:
        for n in sorted({w, w.lower(), w.upper(), w + 'x', 'x' + w}):
            if isname(n):
                out.append(('newmtl', 'newmtl ' + n, lambda m, n=n: m.newmtl('=' + n)))
                for k in MAPS:
                    out.append((k, '%s %s' % (k, n), lambda m, k=k, n=n: m.map(k, name='=' + n)))
    return out


FULL_O = [lambda o: o.v(['=9', '=8', '=7']), lambda o: o.vt(['=9', '=8']), lambda o: o.vn(['=9', '=8', '=7']), lambda o: o.mtllib('=j'), lambda o: o.g('=j'), lambda o: o.usemtl('=j'),
          lambda o: o.usemap('=j'), lambda o: o.bevel('on'), lambda o: o.c_interp('on'), lambda o: o.d_interp('on'), lambda o: o.lod(), lambda o: o.s('=3'),
          lambda o: o.maplib('=j'), lambda o: o.shadow_obj('=j'), lambda o: o.trace_obj('=j'), lambda o: o.f(('=1', '=2', '=3')), lambda o: o.l(('=1', '=2')), lambda o: o.p(('=1',))]
POST_O = [lambda o: o.f(('=3', '=2', '=1')), lambda o: o.v(['=6', '=5', '=4']), lambda o: o.vt(['=6', '=5']), lambda o: o.vn(['=6', '=5', '=4']), lambda o: o.l(('=4', '=5')), lambda o: o.p(('=6',)),
          lambda o: o.g('=z'), lambda o: o.f(('=7', '=8', '=9')), lambda o: o.l(('=7', '=8')), lambda o: o.p(('=7',)), lambda o: o.usemtl('=z'), lambda o: o.bevel('on'), lambda o: o.g('=j'),
          lambda o: o.f(('=4', '=4', '=4')), lambda o: o.mtllib('=j'), lambda o: o.s('=4'), lambda o: o.f(('=5', '=5', '=5'))]


def particular_m():
    out = []
    for n in filter(isname, PNAMES + ['j', 'a b']):
        out.append(('newmtl', 'newmtl ' + n, lambda m, n=n: m.newmtl('=' + n)))
    for c in COLOURS:
        for x in ('0 0 0', '1 1 1', '1 0 0', '0.8 0.8 0.8', '9 9 9', '-1 0 2'):
            out.append((c, '%s %s' % (c, x), lambda m, c=c, x=x: m.colour(c, ['=' + y for y in x.split()])))
        for x in ('0 0 0', '1 1 1', '9', '9 8 7'):
            out.append((c, '%s xyz %s' % (c, x), lambda m, c=c, x=x: m.xyz(c, ['=' + y for y in x.split()])))
        for n, x in (('j', None), ('j', '=1'), ('j', '=0'), ('none', '=2'), ('default', None), ('off', '=1')):
            out.append((c, '%s spectral %s %s' % (c, n, x or ''), lambda m, c=c, n=n, x=x: m.spectral(c, '=' + n, [x] if x else None)))
    for k in SCALARS:
        for x in ('=0', '=1', '=0.0', '=1.0', '=-1', '=60', '=1000', '=1001', '=0.5', '=9'):
            out.append((k, k + ' ' + x[1:], lambda m, k=k, x=x: m.scalar(k, [x])))
    for x in ('=0', '=1', '=1.0', '=0.5', '=-1', '=2', '=9'):
        for h in (False, True):
            out.append(('d', 'd %s%s' % ('-halo ' if h else '', x[1:]), lambda m, x=x, h=h: m.d([x], h)))
    for x in range(0, 13):
        out.append(('illum', 'illum %d' % x, lambda m, x=x: m.illum(['=%d' % x])))
    for w in ('on', 'off'):
        out.append(('map_aat', 'map_aat ' + w, lambda m, w=w: m.map_aat(w)))
    for k in MAPS:
        for n in ('off', 'none', 'j', 'default', '-', '1', '.png', 'a b'):
            if n[0] not in '-1' and ' ' not in n:
                out.append((k, '%s %s' % (k, n), lambda m, k=k, n=n: m.map(k, name='=' + n)))
        for o in opts_for(k):
            for a in {'-mm': ['0 1', '0 0', '1 0', '9 8'], '-o': ['0 0 0', '0', '1 1', '9 8 7'], '-s': ['1 1 1', '1', '0 0', '9 8 7'], '-t': ['0 0 0', '0', '1 1', '9 8 7'], '-texres': ['0', '1', '512'],
                      '-bm': ['0', '1', '9'], '-imfchan': ['l', 'r', 'z', 'j'], '-type': ['sphere', 'cube_top', 'j']}.get(o, ['on', 'off']):
                arg = ['=' + y for y in a.split()] if a[0].isdigit() else a if a in ('on', 'off') else '=' + a
                bef = [(o, arg)]
                if k == 'refl' and o != '-type' and 0:
                    bef = [('-type', '=sphere')] + bef
                out.append((k, '%s %s %s' % (k, o, a), lambda m, k=k, bef=bef: m.map(k, bef, name='=j')))
    for t in ('#', '# default', '#off', '# newmtl z', '\t', ''):
        out.append(('#', 'line %r' % t, lambda m, t=t: m.raw(t + '\n')))
    return out


def full_m(m, k, n):
    """a statement of the kind, values which differ with n"""
    v = ['=%d' % (n + i) for i in range(3)]
    if k in COLOURS:
        m.colour(k, v)
    elif k in SCALARS:
        m.scalar(k, v[:1])
    elif k == 'd':
        m.d(v[:1])
    elif k == 'illum':
        m.illum(['=%d' % (n % 10)])
    elif k == 'map_aat':
        m.map_aat('on')
    elif k in MAPS:
        m.map(k, [('-mm', v[:2]), ('-clamp', 'on')], name='=f%d' % n)


def particular(pid, tier, C):
    """each ordinary statement with a particular operand, alone and with everything else set before and after it"""
    out, special = [], []
    if pid in FOCUS_O and pid not in ('C05', 'C23', 'C26'):
        own = set(FOCUS_O[pid] or ())
        po, co = particular_o(), const_o(C)
        for n, (k, nm, fn) in enumerate(po + co):
            for pre in (0, 1, 2) if n < len(po) else (1, 2):
                if quick(tier) and own and k not in own and pre == 0 and n < len(po):
                    continue
                if quick(tier) and not own and pre != n % 3 and n < len(po):
                    continue

                def b(o, fn=fn, pre=pre, n=n):
                    if pre:
                        for x in (FULL_O if pre == 1 else FULL_O[:4] + FULL_O[5:][::-1]):
                            x(o)
                    fn(o)
                    for x in POST_O:
                        x(o)
                (out if n < len(po) else special).append(OF('particular: %s, %s' % (nm, ('first', 'after everything', 'after everything, no group')[pre]), b))
    if pid in FOCUS_M and pid not in ('C05', 'C23', 'C26'):
        own = set(FOCUS_M[pid] or ())
        ks = list(COLOURS) + list(SCALARS) + ['d', 'illum', 'map_aat'] + MAPS
        pm, cm = particular_m(), const_m(C)
        for n, (k, nm, fn) in enumerate(pm + cm):
            for pre in (0, 1):
                if n >= len(pm):
                    if pre == 0:
                        continue
                elif quick(tier) and own and k not in own and (pre == 0 or n % 3 and k != 'newmtl'):
                    continue
                elif quick(tier) and not own and (pre != n % 2 or n % 3):
                    continue

                def b(m, fn=fn, pre=pre, n=n, k=k):
                    m.newmtl('=j')
                    if pre:
                        for i, x in enumerate(ks):
                            if (i + n) % 2 == 0 or x == k:
                                full_m(m, x, 11 + i)
                    fn(m)
                    for i, x in enumerate(ks):
                        if (i + n) % 5 == 0 and x != k:
                            full_m(m, x, 51 + i)
                    m.newmtl('=z')
                    for i, x in enumerate(ks):
                        if (i + n) % 7 == 0:
                            full_m(m, x, 71 + i)
                (out if n < len(pm) else special).append(MF('particular: %s, %s' % (nm, ('first', 'after everything')[pre]), b))
    return (thin(out, 400) if quick(tier) else out) + thin(special, 300)


def extra(pid, tier, prog):
    if pid not in FAMS or pid in ('C24', 'C25', 'C27'):
        return []
    C = Consts(prog)
    return consts(pid, tier, prog) + mixed(pid, tier, C) + afters(pid, tier) + switches(pid, tier) + slots(pid, tier) + wide(pid, tier) + particular(pid, tier, C)
