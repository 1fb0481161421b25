"""The text families each property is decided on.  PROPS[id](tier) -> [Family]"""
import itertools
import os
from scen import *
from spec_obj import Obj
from spec_mtl import *

LET = CS.union(CR('a', 'z'), CR('A', 'Z'))
ANYC = CS.ALL
NONL = CS.compl(CS.of('\r\n'))
NOWS = CS.compl(CS.of(' \t\r\n'))
WSALL = CS.of(' \t\r\n')


class Family:
    __slots__ = ('name', 'entry', 'build', 'known')

    def __init__(self, name, entry, build, known=None):
        self.name, self.entry, self.build, self.known = name, entry, build, known


def OF(name, fn, known=None, **kw):
    """OBJ family: fn(Obj) builds text and expectation"""
    def b():
        o = Obj()
        for k, v in kw.items():
            setattr(o, k, v)
        r = fn(o)
        return o.sh, r if isinstance(r, tuple) else o.exp()
    return Family(name, 'load_obj', b, known)


def MF(name, fn, known=None, **kw):
    def b():
        o = Mtl()
        for k, v in kw.items():
            setattr(o, k, v)
        r = fn(o)
        return o.sh, r if isinstance(r, tuple) else o.exp()
    return Family(name, 'load_mtl', b, known)


def OE(name, *parts, variant=('ModelParse',)):
    """OBJ text which must be rejected; parts: text or (charset,min,max) or 'num:K' / 'name:K'"""
    def b():
        sh = Shape()
        put(sh, parts)
        return sh, ('err', list(variant))
    return Family(name, 'load_obj', b)


def ME(name, *parts, variant=('MaterialParse',)):
    def b():
        sh = Shape()
        put(sh, parts)
        return sh, ('err', list(variant))
    return Family(name, 'load_mtl', b)


def put(sh, parts):
    for p in parts:
        if isinstance(p, str):
            if p.startswith('num:'):
                sh.num(p[4:])
            elif p.startswith('name:'):
                sh.name(p[5:])
            else:
                sh.t(p)
        else:
            sh.c(*p)


# ------------------------------------------------------------------ OBJ statements
OBJ = {
    'v': lambda o: o.v(), 'v4': lambda o: o.v('FFFF'), 'vn': lambda o: o.vn(), 'vt': lambda o: o.vt(), 'vt3': lambda o: o.vt('FFF'),
    'f': lambda o: o.f(), 'fvtn': lambda o: o.f(('I/I/I',) * 3), 'l': lambda o: o.l(), 'lt': lambda o: o.l(('I/I', 'I/I')),
    'p': lambda o: o.p(),
    'g': lambda o: o.g('Q'), 'g abc': lambda o: o.g('=abc'), 'g xyz': lambda o: o.g('=xyz'), 'g default': lambda o: o.g('=default'),
    'g abc xyz': lambda o: o.g('=abc', '=xyz'), 'g xyz xyz': lambda o: o.g('=xyz', '=xyz'),
    'usemtl': lambda o: o.usemtl('z'), 'usemap': lambda o: o.usemap('z'),
    'bevel on': lambda o: o.bevel('on'), 'bevel off': lambda o: o.bevel('off'),
    'c_interp on': lambda o: o.c_interp('on'), 'c_interp off': lambda o: o.c_interp('off'),
    'd_interp on': lambda o: o.d_interp('on'), 'd_interp off': lambda o: o.d_interp('off'), 'lod': lambda o: o.lod(),
    's': lambda o: o.s(), 's off': lambda o: o.s('off'), 's on': lambda o: o.s('on'), 'o': lambda o: o.o('z'),
    'mtllib': lambda o: o.mtllib('z'), 'maplib': lambda o: o.maplib('z'),
    'shadow_obj': lambda o: o.shadow_obj('z'), 'trace_obj': lambda o: o.trace_obj('z'), '#': lambda o: o.comment(),
}
OBJ_KINDS = ['v', 'vn', 'vt', 'f', 'l', 'p', 'g', 'usemtl', 'usemap', 'bevel on', 'c_interp on', 'd_interp on', 'lod', 's', 'o',
             'mtllib', 'maplib', 'shadow_obj', 'trace_obj']
OBJ_KW = {'v': 'v', 'vn': 'vn', 'vt': 'vt', 'f': 'f', 'l': 'l', 'p': 'p', 'g': 'g', 'usemtl': 'usemtl', 'usemap': 'usemap',
          'bevel on': 'bevel', 'c_interp on': 'c_interp', 'd_interp on': 'd_interp', 'lod': 'lod', 's': 's', 'o': 'o',
          'mtllib': 'mtllib', 'maplib': 'maplib', 'shadow_obj': 'shadow_obj', 'trace_obj': 'trace_obj'}
OBJ_NUMERIC = ['v', 'v4', 'vn', 'vt', 'vt3', 'f', 'fvtn', 'l', 'lt', 'p', 'lod', 's']
OBJ_NAMED = ['g', 'usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj']


def oseq(names):
    def fn(o):
        for n in names:
            OBJ[n](o)
    return fn


def OS(*names, **kw):
    return OF(' ; '.join(names), oseq(names), **kw)


# ------------------------------------------------------------------ MTL statements
MTL = {}
for _k in COLOURS:
    MTL[_k] = lambda m, k=_k: m.colour(k)
    MTL[_k + ' spectral'] = lambda m, k=_k: m.spectral(k, 'z', 'F')
    MTL[_k + ' xyz'] = lambda m, k=_k: m.xyz(k)
for _k in SCALARS:
    MTL[_k] = lambda m, k=_k: m.scalar(k)
MTL['d'] = lambda m: m.d()
MTL['d -halo'] = lambda m: m.d('F', True)
MTL['illum'] = lambda m: m.illum('1')
MTL['map_aat on'] = lambda m: m.map_aat('on')
MTL['map_aat off'] = lambda m: m.map_aat('off')
for _k in MAPS:
    MTL[_k] = lambda m, k=_k: m.map(k)
    MTL[_k + ' opts'] = lambda m, k=_k: m.map(k, opts_for(k))
MTL['newmtl'] = lambda m: m.newmtl('Z')
MTL['newmtl abc'] = lambda m: m.newmtl('=abc')
MTL_KINDS = list(COLOURS) + list(SCALARS) + ['d', 'illum', 'map_aat on'] + MAPS


def mseq(names, first=True):
    def fn(m):
        if first:
            m.newmtl('Q')
        for n in names:
            MTL[n](m)
    return fn


def MS(*names, **kw):
    return MF('newmtl ; ' + ' ; '.join(names), mseq(names), **kw)


def pairs(xs):
    return list(itertools.product(xs, xs))


def quick(tier):
    return tier == 'quick'


def thin(xs, n, keep=()):
    """a deterministic sample of about n items (all of keep stay)"""
    xs = list(xs)
    if len(xs) <= n:
        return xs
    step = len(xs) / n
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return [xs[(int(i * step) + (seed - 1) * 7 * (i % 3)) % len(xs)] for i in range(n)]


# ------------------------------------------------------------------ properties
def c09(tier):
    out = []
    kinds = ['F', 'I', '-F', '-I'] if quick(tier) else ['F', 'I', '-F', '-I', '+F', '+I', 'D', 'P', 'E', 'L']
    for n in (3, 4):
        ks = [''.join(k) for k in itertools.product(['F', '-I'], repeat=n)] if quick(tier) else \
             [''.join(k) for k in thin(itertools.product(kinds, repeat=n), 160)]
        for k in ks:
            out.append(OF('v ' + k, lambda o, k=k: o.v(k)))
    for k in itertools.product(['F', '-I', 'E'] if quick(tier) else kinds, repeat=3):
        k = ''.join(k)
        out.append(OF('vn ' + k, lambda o, k=k: o.vn(k)))
    for n in (1, 2, 3):
        for k in itertools.product(['F', '-I'] if quick(tier) else kinds, repeat=n):
            k = ''.join(k)
            out.append(OF('vt ' + k, lambda o, k=k: o.vt(k)))
    st = ['v', 'v4', 'vn', 'vt', 'vt3']
    for n in (2, 3):
        for k in itertools.product(st, repeat=n):
            if n == 3 and quick(tier) and len(set(k)) == 3:
                continue
            out.append(OS(*k))
    if not quick(tier):
        for k in itertools.product(['v', 'vn', 'vt'], repeat=5):
            out.append(OS(*k))
    for k in st:
        out.append(OS(*[k] * 12))
        for other in ('f', 'g', 's', 'usemtl', 'o', 'mtllib'):
            out.append(OS(other, k))
            out.append(OS(k, other, k))
    return out


FFORMS = ['I', 'I/I', 'I//I', 'I/I/I']


def c10(tier):
    out = []
    for fm in FFORMS:
        for n in (1, 2, 3, 4, 5) if quick(tier) else range(1, 13):
            out.append(OF('f %s x%d' % (fm, n), lambda o, fm=fm, n=n: o.f((fm,) * n)))
    for k in itertools.product(FFORMS, repeat=3):
        out.append(OF('f ' + ' '.join(k), lambda o, k=k: o.f(k)))
    sg = lambda fm, signs: '/'.join((signs[i % len(signs)] + p if p else p) for i, p in enumerate(fm.split('/')))
    for fm in FFORMS:
        for signs in itertools.product(['', '-'], repeat=fm.count('I')):
            it = iter(signs)
            f2 = '/'.join(next(it) + p if p else p for p in fm.split('/'))
            out.append(OF('f %s' % f2, lambda o, f2=f2: o.f((f2,) * 3)))
            out.append(OF('f I %s I/I/I' % f2, lambda o, f2=f2: o.f(('I', f2, 'I/I/I'))))
    for fm in ('I', 'I/I'):
        for n in (1, 2, 3, 4) if quick(tier) else range(1, 11):
            out.append(OF('l %s x%d' % (fm, n), lambda o, fm=fm, n=n: o.l((fm,) * n)))
    for k in itertools.product(['I', 'I/I', '-I', '-I/-I', 'I/-I'], repeat=2):
        out.append(OF('l ' + ' '.join(k), lambda o, k=k: o.l(k)))
    for n in (1, 2, 3, 4) if quick(tier) else range(1, 16):
        out.append(OF('p x%d' % n, lambda o, n=n: o.p(('I',) * n)))
    for k in itertools.product(['I', '-I', '+I'], repeat=2):
        out.append(OF('p ' + ' '.join(k), lambda o, k=k: o.p(k)))
    for a, b in pairs(['f', 'fvtn', 'l', 'lt', 'p']):
        out.append(OS(a, b))
        out.append(OS('v', a, 'vt', b, 'vn'))
    for k in itertools.product(['f', 'l', 'p'], repeat=3):
        out.append(OS(*k))
    for fm in ('=2147483647', '=-2147483648', '=0', '=-1', '=1', '=007', '=+5'):
        out.append(OF('f extreme ' + fm, lambda o, fm=fm: o.f((fm, fm + '/' + fm[0:], fm)) if False else o.f((fm, 'I', fm))))
        out.append(OF('l extreme ' + fm, lambda o, fm=fm: o.l((fm, 'I'))))
        out.append(OF('p extreme ' + fm, lambda o, fm=fm: o.p((fm, fm))))
    # indices are not resolved against what has been read so far
    out.append(OF('v v v ; f -1 -2 -3', lambda o: o.v().v().v().f(('=-1', '=-2', '=-3'))))
    out.append(OF('v vt vn ; f -1/-1/-1', lambda o: o.v().vt().vn().f(('=-1/=-1/=-1',) * 3)))
    out.append(OF('v ; l -1 1 ; p -1', lambda o: o.v().l(('=-1', '=1')).p(('=-1',))))
    return out


def c11(tier):
    al = ['g abc', 'g xyz', 'g default', 'g abc xyz', 'f', 'l', 'p']
    out = []
    for n in (1, 2, 3):
        for k in itertools.product(al, repeat=n):
            if k[-1][0] == 'g':
                continue
            out.append(OS(*k))
    gs = ['g abc', 'g xyz', 'g default', 'g abc xyz', 'g xyz xyz', 'g']
    for a, b in pairs(gs):
        out.append(OS('f', 'l', 'p', a, 'f', 'l', 'p', b, 'f', 'l', 'p'))
    for a in al:
        for b in ['usemtl', 's', 's off', 'o', 'bevel on', 'lod', 'mtllib', 'v', '#', 'usemap', 'shadow_obj']:
            if a[0] == 'g':
                out.append(OS(a, b, 'f', 'l', 'p'))
                out.append(OS(b, a, 'f', b, 'l', b, 'p'))
    out.append(OF('g Q z ; f', lambda o: o.g('Q', 'z').f().l().p()))
    out.append(OF('g Q z q ; f ; g Z ; f ; g Q', lambda o: o.g('=a', '=bb', '=ccc').f().g('Z').f().l().p().g('=bb').f().p()))
    out.append(OF('g a b spaces', lambda o: (setattr(o, 'sp', ' \t '), o.g('=a', '=bb').f())[1] and None))
    if not quick(tier):
        for k in itertools.product(gs, repeat=3):
            out.append(OS(k[0], 'f', k[1], 'p', k[2], 'l', 'f'))
        for k in itertools.product(['g abc', 'g xyz', 'f', 'l'], repeat=5):
            out.append(OS(*k))
    return out


def c12(tier):
    attrs = ['usemtl', 'usemap', 'bevel on', 'bevel off', 'c_interp on', 'c_interp off', 'd_interp on', 'd_interp off', 'lod']
    gs = ['g abc', 'g xyz', 'g default', 'g abc xyz']
    out = [OS(a) for a in attrs]
    for a, b in pairs(attrs):
        out.append(OS(a, b))
        out.append(OS('g abc', a, 'g xyz', b))
    for a in attrs:
        for g1, g2 in pairs(gs):
            out.append(OS(g1, a, g2))
            out.append(OS(g1, a, g2, a if a[-1] != 'n' else a[:-2] + 'off'))
        for b in ['f', 'l', 'p', 's', 'o', 'v', 'mtllib', '#', 'maplib', 'trace_obj']:
            out.append(OS('g abc', a, b))
            out.append(OS('g abc', b, a, b))
    on = [a for a in attrs if 'off' not in a]
    out.append(OS('g abc', *on))
    out.append(OS('g abc', *on, 'g xyz', 'g abc'))
    out.append(OS(*on, 'g abc', 'f', 'g default'))
    for v in ('=0', '=1', '=10', '=99', '=100', '=255'):
        out.append(OF('lod ' + v, lambda o, v=v: olod(o, v)))
    if not quick(tier):
        for k in itertools.product(['g abc', 'g xyz', 'g abc xyz'] + on, repeat=3):
            out.append(OS(*k))
        for k in thin(itertools.product(['g abc', 'g xyz', 'f'] + on, repeat=4), 500):
            out.append(OS(*k))
    return out


def olod(o, v):
    o.kw('lod')
    o.gap()
    o.gset('lod', ('num', o.sh.num(v), 'u8'))
    o.eol()


def c13(tier):
    ss = ['s', 's off', 's on']
    out = []
    for a in ss:
        out.append(OS(a, 'f'))
        out.append(OS('f', a, 'f', 'fvtn'))
        out.append(OS(a, 'l', 'p', 'f'))
        for b in ss:
            out.append(OS(a, 'f', b, 'f'))
            for c in ss:
                out.append(OS(a, 'f', b, 'f', c, 'f'))
        for b in ['g abc', 'g abc xyz', 'usemtl', 'o', 'bevel on', 'lod', 'v', 'mtllib', '#', 'usemap', 'c_interp off']:
            out.append(OS(a, b, 'f'))
            out.append(OS(a, 'f', b, 'f'))
            out.append(OS(b, a, 'f', b, 'f'))
    for v in ('I', '-I', '=0', '=1', '=2147483647', '=2', '=4294', '=-1'):
        out.append(OF('s %s ; f' % v, lambda o, v=v: o.s(v).f().f()))
    out.append(OF('s <off any case>', lambda o: o.s('I').f().s('off').f(), kwcase=True))
    out.append(OF('s <on any case>', lambda o: o.s('I').f().s('on').f(), kwcase=True))
    if not quick(tier):
        for k in itertools.product(['s', 's off', 'f', 'g abc', 'g xyz'], repeat=4):
            out.append(OS(*k, 'f'))
    return out


def c14(tier):
    fs = ['mtllib', 'maplib', 'shadow_obj', 'trace_obj']
    out = []
    kinds = {'mtllib': Obj.mtllib, 'maplib': Obj.maplib, 'shadow_obj': Obj.shadow_obj, 'trace_obj': Obj.trace_obj}
    for f in fs:
        for n in ('Q', 'J', 'U', 'W', 'V', '=file.mtl', '=./dir/file 2.mtl', '=../a.b', '=c:\\dir\\f.mtl', '=2k.mtl', '=a#b.mtl'):
            out.append(OF('%s %s' % (f, n), lambda o, f=f, n=n: kinds[f](o, n)))
        for g in fs:
            out.append(OF('%s ; %s' % (f, g), lambda o, f=f, g=g: kinds[g](kinds[f](o, 'Q'), 'z')))
            for h in fs:
                out.append(OF('%s ; %s ; %s' % (f, g, h), lambda o, f=f, g=g, h=h: kinds[h](kinds[g](kinds[f](o, 'Q'), 'z'), 'q')))
        for b in ['v', 'vn', 'vt', 'f', 'l', 'p', 'g abc', 'usemtl', 'usemap', 's', 'o', '#', 'lod', 'bevel on']:
            out.append(OS(b, f))
            out.append(OS(f, b, f))
        out.append(OF('%s x5' % f, lambda o, f=f: [kinds[f](o, '=f%d' % i) for i in range(5)] and None))
    # the same library named twice is listed twice
    out.append(OF('mtllib a ; mtllib a', lambda o: o.mtllib('=a.mtl').mtllib('=a.mtl')))
    out.append(OF('maplib a ; maplib a', lambda o: o.maplib('=a.map').maplib('=a.map')))
    return out


def c15(tier):
    """frame: every ordered pair (triple) of statements"""
    out = []
    k2 = list(OBJ)
    for a, b in pairs(OBJ_KINDS):
        out.append(OS(a, b))
    ev = ['v', 'vn', 'vt', 'f', 'l', 'p', 'g abc', 'usemtl', 'usemap', 'bevel on', 'c_interp on', 'd_interp on', 'lod', 's', 'o',
          'mtllib', 'maplib', 'shadow_obj', 'trace_obj']
    out.append(OS(*ev))
    out.append(OS(*reversed(ev)))
    out.append(OS(*(ev + ev)))
    out.append(OF('empty file', lambda o: o.raw('')))
    out.append(OF('blank file', lambda o: o.sh.c(WSALL, 0, 5, 'blanks') and None))
    out.append(OF('comment only', lambda o: o.comment()))
    if not quick(tier):
        for a, b in pairs(k2):
            out.append(OS(a, b, a))
        for k in thin(itertools.product(OBJ_KINDS, repeat=3), 1500):
            out.append(OS(*k))
        out.append(OS(*(ev * 6)))
    return out


def c16(tier):
    out = [MF('newmtl ' + n, lambda m, n=n: m.newmtl(n)) for n in ('Q', 'J', 'U', 'V', '=abc', '=2k.001', '=a#b')]
    for n in (2, 3, 4, 6):
        out.append(MF('newmtl x%d' % n, lambda m, n=n: [m.newmtl(('Q', 'z', 'q', 'Z')[i % 4]) for i in range(n)] and None))
    out.append(MF('newmtl abc ; newmtl abc', lambda m: m.newmtl('=abc').newmtl('=abc')))
    out.append(MF('newmtl abc ; Kd ; newmtl abc', lambda m: m.newmtl('=abc').colour('Kd').newmtl('=abc')))
    kinds = MTL_KINDS
    for a in kinds:
        out.append(MF('newmtl ; %s ; newmtl' % a, lambda m, a=a: MTL[a](m.newmtl('Q')).newmtl('z')))
        out.append(MF('newmtl ; newmtl ; %s' % a, lambda m, a=a: MTL[a](m.newmtl('Q').newmtl('z'))))

        def early(m, a=a):
            m.mats.append({})
            MTL[a](m)
            return ('err', ['MaterialParse', 'NewMaterial'])
        out.append(MF('%s without newmtl' % a, early))

        def early2(m, a=a):
            m.mats.append({})
            MTL[a](m)
            m.newmtl()
            return ('err', ['MaterialParse', 'NewMaterial'])
        out.append(MF('%s before newmtl' % a, early2))
    ps = pairs(kinds) if not quick(tier) else thin(pairs(kinds), 60)
    for a, b in ps:
        out.append(MF('newmtl ; %s ; newmtl ; %s ; newmtl' % (a, b),
                      lambda m, a=a, b=b: MTL[b](MTL[a](m.newmtl('Q')).newmtl('z')).newmtl('q')))
    return out


def c17(tier):
    out = []
    ks = ['FFF', 'III', '-F-F-F', '-IF+I', 'DPE', 'F-II'] if quick(tier) else \
        [''.join(k) for k in itertools.product(['F', 'I', '-F', '-I', 'E', 'D'], repeat=3)]
    for k in COLOURS:
        for n in ks if not quick(tier) or k in ('Ka', 'Tf') else ks[:2]:
            out.append(MF('%s %s' % (k, n), lambda m, k=k, n=n: m.newmtl().colour(k, n)))
        for n in ['F', 'I', 'FF', 'F-I', 'FFF', '-IF-F'] if quick(tier) else ['F', 'I', '-F', 'E'] + [
                ''.join(x) for r in (2, 3) for x in itertools.product(['F', '-I', 'D'], repeat=r)]:
            out.append(MF('%s xyz %s' % (k, n), lambda m, k=k, n=n: m.newmtl().xyz(k, n)))
        for f in [None, 'F', '-F', 'I', 'E']:
            out.append(MF('%s spectral %s' % (k, f), lambda m, k=k, f=f: m.newmtl().spectral(k, 'J', f)))
        for k2 in COLOURS:
            if k2 != k:
                out.append(MF('%s ; %s' % (k, k2), lambda m, k=k, k2=k2: m.newmtl().colour(k).colour(k2)))
        out.append(MF('%s ; %s again' % (k, k), lambda m, k=k: m.newmtl().colour(k).colour(k, '-FIF')))
        out.append(MF('%s ; %s spectral' % (k, k), lambda m, k=k: m.newmtl().colour(k).spectral(k)))
        out.append(MF('%s spectral ; %s xyz' % (k, k), lambda m, k=k: m.newmtl().spectral(k).xyz(k, 'F')))
        out.append(MF('%s xyz ; %s' % (k, k), lambda m, k=k: m.newmtl().xyz(k, 'FF').colour(k)))
    return out


def c18(tier):
    out = []
    for k in SCALARS:
        for n in ['F', 'I', '-F', '-I', 'E', 'D', 'P', 'L', '+F', 'X']:
            out.append(MF('%s %s' % (k, n), lambda m, k=k, n=n: m.newmtl().scalar(k, n)))
        for k2 in SCALARS:
            out.append(MF('%s ; %s' % (k, k2), lambda m, k=k, k2=k2: m.newmtl().scalar(k).scalar(k2, '-I')))
    for n in ['F', 'I', '-F', '-I', 'E', 'D', 'P']:
        out.append(MF('d ' + n, lambda m, n=n: m.newmtl().d(n)))
        out.append(MF('d -halo ' + n, lambda m, n=n: m.newmtl().d(n, True)))
    out.append(MF('d ; d -halo', lambda m: m.newmtl().d().d('F', True)))
    out.append(MF('d -halo ; d', lambda m: m.newmtl().d('F', True).d('I')))
    for n in ['1', 'I', '=0', '=10', '=2147483647', '=11', '=+2']:
        out.append(MF('illum ' + n, lambda m, n=n: m.newmtl().illum(n)))
    out.append(MF('illum ; illum', lambda m: m.newmtl().illum('=1').illum('=7')))
    for v in ('on', 'off'):
        out.append(MF('map_aat ' + v, lambda m, v=v: m.newmtl().map_aat(v)))
        out.append(MF('map_aat %s any case' % v, lambda m, v=v: m.newmtl().map_aat(v), kwcase=True))
        out.append(MF('map_aat on ; map_aat ' + v, lambda m, v=v: m.newmtl().map_aat('on').map_aat(v)))
    xs = list(SCALARS) + ['d', 'd -halo', 'illum', 'map_aat on', 'map_aat off']
    for a, b in pairs(xs):
        out.append(MS(a, b))
    return out


def c19(tier):
    out = []
    for k in MAPS:
        for n in ('Q', 'J', 'U', 'V', '=a/b.png', '=2k.png', '=./x.png', '=tex-01_d.png'):
            out.append(MF('%s %s' % (k, n), lambda m, k=k, n=n: m.newmtl().map(k, name=n)))
        out.append(MF('%s ; again' % k, lambda m, k=k: m.newmtl().map(k, ['-clamp']).map(k, ['-mm'], name='q')))
        for k2 in MAPS:
            if k2 != k:
                out.append(MF('%s ; %s' % (k, k2), lambda m, k=k, k2=k2: m.newmtl().map(k, name='q').map(k2)))
        for other in ['Ka', 'Kd', 'Ks', 'Ns', 'd', 'illum', 'map_aat on'] if quick(tier) else list(COLOURS) + list(SCALARS) + ['d', 'illum', 'map_aat on']:
            out.append(MS(k, other))
            out.append(MS(other, k))
    out.append(MF('all maps', lambda m: [m.map(k, name='z') for k in MAPS if k != 'map_disp'] and None if m.newmtl() else None))
    out.append(MF('all maps reversed', lambda m: [m.map(k, name='z') for k in reversed(MAPS) if k != 'disp'] and None if m.newmtl() else None))
    return out


OPTARGS = {'-blendu': ['on', 'off'], '-blendv': ['on', 'off'], '-cc': ['on', 'off'], '-clamp': ['on', 'off'],
           '-mm': ['FF', '-I-F', 'IE'], '-o': ['F', 'FF', 'FFF', '-IF-F'], '-s': ['F', 'FF', 'FFF', '-IF-F'],
           '-t': ['F', 'FF', 'FFF', '-IF-F'], '-texres': ['I', '=1024', '-I'], '-imfchan': ['=r', '=g', '=b', '=m', '=l', '=z', 'q'],
           '-bm': ['F', 'I', '-F'], '-type': ['q', '=sphere', '=cube_top']}


def c20(tier):
    out = []
    for k in MAPS:
        os_ = opts_for(k)
        for o in os_:
            args = OPTARGS[o] if not quick(tier) or k in ('map_Kd', 'bump', 'refl') else OPTARGS[o][:2]
            for a in args:
                out.append(MF('%s %s %s file' % (k, o, a), lambda m, k=k, o=o, a=a: m.newmtl().map(k, [(o, a)])))
            out.append(MF('%s file %s' % (k, o), lambda m, k=k, o=o: m.newmtl().map(k, [], [o])))
        out.append(MF('%s all options' % k, lambda m, k=k, os_=os_: m.newmtl().map(k, os_)))
        out.append(MF('%s all options reversed' % k, lambda m, k=k, os_=os_: m.newmtl().map(k, os_[::-1])))
        out.append(MF('%s file all options' % k, lambda m, k=k, os_=os_: m.newmtl().map(k, [], os_)))
        prs = [(a, b) for a, b in pairs(os_) if a != b]
        for a, b in prs if not quick(tier) or k in ('map_Ks',) else thin(prs, 12):
            out.append(MF('%s %s %s' % (k, a, b), lambda m, k=k, a=a, b=b: m.newmtl().map(k, [a, b])))
        # the options of one map do not leak into the next one
        k2 = MAPS[(MAPS.index(k) + 3) % len(MAPS)]
        out.append(MF('%s all ; %s none' % (k, k2), lambda m, k=k, k2=k2, os_=os_: m.newmtl().map(k, os_).map(k2, name='q')))
        out.append(MF('%s none ; %s all' % (k2, k), lambda m, k=k, k2=k2, os_=os_: m.newmtl().map(k2, name='q').map(k, os_)))
    return out


def suffixed(sh, kw):
    sh.t(kw).c(CS.of('xyzqXYZQ_'), 1, 6)


def c06(tier):
    out = []
    for k in OBJ_KINDS + ['s off', 's on', 'bevel off', 'fvtn', 'lt', 'v4', 'vt3']:
        out.append(OF('%s, any case' % k, OBJ[k], kwcase=True))
        out.append(OF('blank %s, any case' % k, lambda o, k=k: (o.sh.c(WSALL, 0, None), OBJ[k](o))[1] and None, kwcase=True))
    for k, kw in OBJ_KW.items():
        args = ['1 2 3', 'on', 'abc']
        for a in args:
            out.append(OE('%s<letters> %s is no %s statement' % (kw, a, kw), kw, (CS.of('xyzqXYZQ_'), 1, 6), ' ' + a + '\n'))
            out.append(OE('<letters>%s %s' % (kw, a), (CS.of('xyzqXYZQ'), 1, 6), kw, ' ' + a + '\n'))
        if len(kw) > 2:
            out.append(OE('%s cut short' % kw, kw[:-1] + ' 1 2 3\n'))
        out.append(OE('%s without a gap' % kw, kw, (CS.DIGIT, 1, 3), ' 1 2 3\n'))
        for c in '-+.,;:=_"*(@%$!':
            for t in ('1\n', '1 2 3\n', 'on\n') if not quick(tier) or c in '-.:=' else ('1 2 3\n',):
                out.append(OE('%s%s%s' % (kw, c, t.strip()), kw, c, t))
        # the keyword is recognised after any other statement
        for pre in (['v', 'f', 'g abc', 'usemtl', 's off'] if quick(tier) else OBJ_KINDS):
            out.append(OS(pre, k, kwcase=True))
        for i, c in enumerate(kw):
            if c in 'ks':
                uc = {'k': '\u212a', 's': '\u017f'}[c]
                out.append(OE('%s with U+%04X' % (kw, ord(uc)), kw[:i] + uc + kw[i + 1:] + ' 1 2 3\n'))
    for bad in ('vv', 'ff', 'vtn', 'vp2', 'x', 'usem', 'groups', 'fo', 'object', 'smooth', 'mtl', 'map', 'cstype', 'end', 'curv'):
        out.append(OE('unknown keyword ' + bad, bad + ' 1 2 3\n'))
    return out


MTL_KW = list(COLOURS) + list(SCALARS) + ['d', 'illum', 'map_aat'] + MAPS + ['newmtl']


def c07(tier):
    out = []
    st = [k for k in MTL if ' opts' not in k and k != 'newmtl abc']
    for k in st:
        out.append(MF('newmtl ; %s, any case' % k, lambda m, k=k: MTL[k](m.newmtl()), kwcase=True))
    for k in MAPS:
        for o in opts_for(k) if k in ('map_Kd', 'bump', 'refl') or not quick(tier) else []:
            out.append(MF('%s %s, any case' % (k, o), lambda m, k=k, o=o: m.newmtl().map(k, [o]), kwcase=True))
            out.append(MF('%s file %s, any case' % (k, o), lambda m, k=k, o=o: m.newmtl().map(k, [], [o]), kwcase=True))
    for kw in MTL_KW:
        for a in ('1 2 3', 'on', 'abc') if not quick(tier) else ('1 2 3', 'abc'):
            out.append(ME('%s<letters> %s is no %s statement' % (kw, a, kw), 'newmtl m\n', kw, (CS.of('xyzqXYZQ_'), 1, 6), ' ' + a + '\n'))
        for c in '-+.,;:=_"*(@%$!/':
            for t in ('1\n', '1 2 3\n', 'a.png\n') if not quick(tier) or c in '-.:=' else ('1 2 3\n',):
                out.append(ME('%s%s%s' % (kw, c, t.strip()), 'newmtl m\n', kw, c, t))
        out.append(ME('<letters>%s' % kw, 'newmtl m\n', (CS.of('xyzqXYZQ'), 1, 6), kw, ' 1 1 1\n'))
        if len(kw) > 2 and kw != 'map_disp':
            out.append(ME('%s cut short' % kw, 'newmtl m\n', kw[:-1] + 'q 1 2 3\n'))
        out.append(ME('%s without a gap' % kw, 'newmtl m\n', kw, (CS.DIGIT, 1, 3), ' 1 2 3\n'))
        for i, c in enumerate(kw.lower()):
            if c in 'ks':
                uc = {'k': '\u212a', 's': '\u017f'}[c]
                out.append(ME('%s with U+%04X' % (kw, ord(uc)), 'newmtl m\n' + kw[:i] + uc + kw[i + 1:] + ' 1 2 3\n'))
    for o in OPTS:
        out.append(ME('unknown option %sx' % o, 'newmtl m\nmap_Kd ' + o, (CS.of('xyzqXYZQ_'), 1, 4), ' 1 file.png\n'))
    for bad in ('map_Ke', 'map_bump', 'norm', 'map_Pr', 'Kx', 'Pr', 'aniso', 'dis', 'illumination', 'new'):
        out.append(ME('unknown keyword ' + bad, 'newmtl m\n' + bad + ' a.png\n'))
        out.append(ME('unknown keyword %s after a map' % bad, 'newmtl m\nmap_Kd a.png\n' + bad + ' b.png\n'))
    return out


NUMK = ['I', 'F', 'D', 'P', 'E', 'G', 'X', 'H', 'K', 'L']


def c08(tier):
    out = []
    for s in ('', '-', '+'):
        for k in NUMK:
            out.append(OF('v %s%s' % (s, k), lambda o, s=s, k=k: o.v(s + k + 'FF')))
            out.append(OF('vt %s%s' % (s, k), lambda o, s=s, k=k: o.vt(s + k)))
            out.append(OF('vn F F %s%s' % (s, k), lambda o, s=s, k=k: o.vn('FF' + s + k)))
            out.append(MF('Ns %s%s' % (s, k), lambda m, s=s, k=k: m.newmtl().scalar('Ns', s + k)))
            if k != 'I':
                out.append(OE('f %s%s is no index' % (s, k), 'f 1 2 ', 'num:' + s + k, '\n'))
                out.append(OE('p %s%s is no index' % (s, k), 'p ', 'num:' + s + k, '\n'))
        out.append(OF('f %sI' % s, lambda o, s=s: o.f((s + 'I',) * 3)))
        out.append(OF('s %sI' % s, lambda o, s=s: o.s(s + 'I').f()))
    lits = ['0', '-0', '1', '007', '2147483647', '-2147483648', '2147483648', '-2147483649', '4294967296', '3000000000', '99999999999',
            '16777216', '16777217', '0.1', '0.30000001', '123456789.123456789', '1e5', '1E5', '1e-5', '1.5e+10', '-1.5e-10', '.5', '-.5',
            '5.', '1e39', '1e-46', '3.4028235e38', '1.17549435e-38', '0.000001', '1000000', '1.0', '100', '-1', '+1', '0e0']
    for l in lits:
        out.append(OF('v %s' % l, lambda o, l=l: onum(o, l)))
        out.append(MF('Tr %s' % l, lambda m, l=l: mnum(m, l)))
        if '.' not in l and 'e' not in l.lower():
            n = int(l)
            if -2 ** 31 <= n < 2 ** 31:
                out.append(OF('p %s' % l, lambda o, l=l: o.p(('=' + l,))))
            else:
                out.append(OE('p %s is out of range' % l, 'p ' + l + '\n'))
                out.append(OE('f %s is out of range' % l, 'f 1 2 ' + l + '\n'))
                out.append(OE('f n/%s is out of range' % l, 'f 1/1 2/2 3/' + l + '\n'))
                out.append(OE('s %s is out of range' % l, 's ' + l + '\n'))
    for bad in ('1.2.3', '1e', '1e+', '--1', '+-1', '1-2', '1,5', '0x10', '1_000', '1f', '.', '-', '+', 'e5', 'nan', 'inf', '1.e', '٣'):
        out.append(OE('v %s is no number' % bad, 'v ' + bad + ' 0 0\n'))
        out.append(OE('v 0 0 %s is no number' % bad, 'v 0 0 ' + bad + '\n'))
        out.append(ME('Ns %s is no number' % bad, 'newmtl m\nNs ' + bad + '\n'))
    return out


def onum(o, l):
    o.kw('v')
    hs = []
    for x in (l, '0', '0'):
        o.gap()
        hs.append(o.sh.num('=' + x))
    o.M['vertices'].append(('rec', {'x': N32(hs[0]), 'y': N32(hs[1]), 'z': N32(hs[2]), 'w': ENONE}))
    o.eol()


def mnum(m, l):
    m.newmtl()
    m.kw('Tr').gap()
    m.set('transparancy', esome(N32(m.sh.num('=' + l))))
    m.eol()


NAMED_O = {'g': lambda o, n: o.g(n).f(), 'usemtl': Obj.usemtl, 'usemap': Obj.usemap, 'o': Obj.o, 'mtllib': Obj.mtllib, 'maplib': Obj.maplib,
           'shadow_obj': Obj.shadow_obj, 'trace_obj': Obj.trace_obj}
NAMED_M = {'newmtl': lambda m, n: m.newmtl(n), 'map_Kd': lambda m, n: m.newmtl().map('map_Kd', name=n),
           'bump': lambda m, n: m.newmtl().map('bump', name=n), 'refl': lambda m, n: m.newmtl().map('refl', name=n),
           'disp': lambda m, n: m.newmtl().map('disp', name=n),
           'Ka spectral': lambda m, n: m.newmtl().spectral('Ka', n), '-type': lambda m, n: m.newmtl().map('refl', [('-type', n)]),
           '-imfchan': lambda m, n: m.newmtl().map('bump', [('-imfchan', n)])}
NAME_LITS = ['=a', '=Material.001', '=my_mat', '=UPPER', '=MiXeD', '=with-dash', '=2k', '=1k_wood.png', '=4x', '=1.5x', '=1e', '=1e5x', '=.hidden',
             '=..', '=./rel/a.png', '=../up.png', '=a.b.c', '=vtable', '=floor', '=lodging', '=grass', '=usemtlx', '=object', '=on', '=off',
             '=a#b', '=ünï', '=材質', '=a\u00a0b', '=\u212aelvin', '=\U0001f600', '=-', '=-1a', '=+', '=+x', '=e5', '=nan', '=x=y', '="q"', '=C:\\t.png']
OBJ_NAME_LITS = ['=two words', '=three word name', '=a  b', '=tab\there', '=name # not a comment', '=v 1 2 3'[:2] + 'w 1', '=a / b']
KEYWORDS_O = sorted(set(OBJ_KW.values()))


def c21(tier):
    out = []
    for k, fn in NAMED_O.items():
        for n in ('Q', 'J', 'U', 'V') + (('W',) if k != 'g' else ()):
            out.append(OF('%s <%s>' % (k, n), lambda o, fn=fn, n=n: fn(o, n)))
        for n in NAME_LITS + (OBJ_NAME_LITS if k != 'g' else []):
            if quick(tier) and k not in ('usemtl', 'mtllib') and NAME_LITS.index(n) % 3 if n in NAME_LITS else False:
                continue
            out.append(OF('%s %s' % (k, n[1:]), lambda o, fn=fn, n=n: fn(o, n)))
        for kw in KEYWORDS_O if k in ('usemtl', 'o') or not quick(tier) else ():
            out.append(OF('%s %s<letters>' % (k, kw), lambda o, k=k, kw=kw: pname(o, k, kw)))
        out.append(OF('%s <11..20 letters>' % k, lambda o, k=k: pname(o, k, None)))
    for k, fn in NAMED_M.items():
        for n in ('Q', 'J', 'U', 'V'):
            out.append(MF('%s <%s>' % (k, n), lambda m, fn=fn, n=n: fn(m, n)))
        for i, n in enumerate(NAME_LITS):
            if quick(tier) and k not in ('newmtl', 'map_Kd') and i % 4:
                continue
            out.append(MF('%s %s' % (k, n[1:]), lambda m, fn=fn, n=n: fn(m, n)))
        for kw in ('d', 'ka', 'map_kd', 'bump', 'disp', 'refl', 'decal', 'tr', 'ns', 'illum', 'xyz', 'spectral'):
            out.append(MF('%s %s<letters>' % (k, kw), lambda m, fn=fn, kw=kw: fn(m, '=' + kw + 'qx')))
    # names the lexer cannot represent
    for k in ('usemtl', 'g', 'mtllib', 'o', 'usemap', 'maplib', 'shadow_obj', 'trace_obj'):
        fn = NAMED_O[k]
        for kind, n in (('keyword', '=s'), ('number', '=12'), ('slash', '=/abs/file')):
            if k == 'o' and kind == 'number':
                out.append(OF('o 12', lambda o: o.o('=12')))
                continue
            out.append(OF('%s name is a %s' % (k, kind), lambda o, fn=fn, n=n: fn(o, n), known='name-' + kind))
    for k in ('newmtl', 'map_Kd'):
        fn = NAMED_M[k]
        for kind, n in (('keyword', '=d'), ('number', '=12')):
            out.append(MF('%s name is a %s' % (k, kind), lambda m, fn=fn, n=n: fn(m, n), known='name-' + kind))
    return out


def pname(o, k, kw):
    o.kw(k)
    o.gap()
    a = o.sh.begin()
    if kw:
        o.sh.t(kw).c(CS.of('xyzqXYZQ_'), 1, 6)
    else:
        o.sh.c(LET, 11, 20)
    h = ('str', o.sh.end(a))
    if k == 'usemtl':
        o.gset('material_name', h)
    elif k == 'usemap':
        o.gset('texture_map', esome(h))
    elif k == 'mtllib':
        o.M['material_libs'].append(h)
    elif k == 'maplib':
        o.M['texture_libs'].append(h)
    elif k == 'shadow_obj':
        o.shadow = esome(h)
    elif k == 'trace_obj':
        o.trace = esome(h)
    elif k == 'g':
        o.cur = [h]
        o.getg(h)
    o.eol()


def gap_any(sh):
    sh.c(CS.of(' \t'), 1, None, 'blanks')


def nl_num(sh):
    """end of a numeric statement: blanks, line end, blank lines, indentation"""
    sh.c(CS.of(' \t'), 0, None, 'blanks').t('\n').c(WSALL, 0, None, 'blank lines')


def nl_crlf(sh):
    sh.t('\r\n')


def nl_name(sh):
    sh.c(CS.of('\r\n'), 1, 1, 'CR or LF').c(WSALL, 0, None, 'blank lines')


def nl_comment(sh):
    sh.t(' #').c(NONL, 0, None, 'comment').t('\n')


def nl_comment_line(sh):
    sh.t('\n#').c(NONL, 0, None, 'comment').t('\n')


def nl_comment_line_indent(sh):
    sh.t('\n\n \t#').c(NONL, 0, None, 'comment').t('\r\n\t')


def c22(tier):
    out = []
    names = set(OBJ_NAMED)
    for k in OBJ:
        if k == '#':
            continue
        named = k.split()[0] in ('g', 'usemtl', 'usemap', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj')
        word = k in ('s off', 's on') or k.split()[0] in ('bevel', 'c_interp', 'd_interp')
        out.append(OF('%s, any blanks' % k, OBJ[k], sp=gap_any if len(k.split()) < 3 else '\t  '))
        out.append(OF('%s, tab' % k, OBJ[k], sp='\t'))
        for nm, nl in (('any line end', nl_name), ('crlf', nl_crlf), ('comment line', nl_comment_line), ('indented comment line', nl_comment_line_indent)) + (
                (('trailing blanks', nl_num), ('blank crlf', ' \r\n')) + (() if named or word else (('trailing comment', nl_comment),))):
            out.append(OF('%s x2, %s' % (k, nm), lambda o, k=k: (OBJ[k](o), setattr(o, 'nl', '\n'), OBJ['v'](o)) and None, nl=nl))
        out.append(OF('indented %s' % k, lambda o, k=k: (o.sh.c(WSALL, 0, None, 'blanks'), OBJ[k](o)) and None))
        out.append(OF('%s ; blanks at the end' % k, lambda o, k=k: (OBJ[k](o), o.sh.c(WSALL, 0, 3, 'blanks')) and None))
        out.append(OF('%s at the end of the file' % k, lambda o, k=k: (setattr(o, 'nl', ''), OBJ[k](o)) and None))
        out.append(OF('v ; comment ; %s ; comment' % k, lambda o, k=k: (OBJ['v'](o), o.comment(), OBJ[k](o), o.comment()) and None))
        out.append(OF('%s ; comment at the end' % k, lambda o, k=k: (OBJ[k](o), o.sh.t('#').c(NONL, 0, None)) and None))
    for k in MTL:
        if quick(tier) and (' xyz' in k or ' spectral' in k) and not k.startswith('Kd'):
            continue
        out.append(MF('%s, any blanks' % k, mseq([k]), sp=gap_any))
        numeric = k in COLOURS or k in SCALARS or k in ('d', 'd -halo', 'illum') or ' xyz' in k
        for nm, nl in (('any line end', nl_name), ('comment line', nl_comment_line), ('trailing blanks', nl_num)) + (
                () if quick(tier) else (('crlf', nl_crlf), ('indented comment line', nl_comment_line_indent))):
            out.append(MF('newmtl ; %s, %s' % (k, nm), lambda m, k=k: (m.newmtl(), MTL[k](m), setattr(m, 'nl', '\n'), m.newmtl('z')) and None, nl=nl))
        out.append(MF('newmtl ; %s, trailing comment' % k, lambda m, k=k: (m.newmtl(), MTL[k](m), setattr(m, 'nl', '\n'), m.newmtl('z')) and None, nl=nl_comment))
        out.append(MF('newmtl ; %s ; blanks at the end' % k, lambda m, k=k: (m.newmtl(), MTL[k](m), m.sh.c(WSALL, 0, 3, 'blanks')) and None))
        out.append(MF('newmtl ; %s at the end of the file' % k, lambda m, k=k: (m.newmtl(), setattr(m, 'nl', ''), MTL[k](m)) and None))
        out.append(MF('comment ; newmtl ; comment ; %s ; comment' % k, lambda m, k=k: (m.comment(), m.newmtl(), m.comment(), MTL[k](m), m.comment()) and None))
    return out


def c23(tier):
    out = []
    bad_o = {
        'v': ['', '1', '1 2', 'a 2 3', '1 b 3', '1 2 c', '1 2 3 4 5', '1 2 3 d', '1/2 3 4', '1 2 3 / 4'],
        'vn': ['', '1', '1 2', '1 2 3 4', 'x 0 0', '0 x 0', '0 0 x'],
        'vt': ['', 'a', '1 2 3 4', '1 a', '1 2 a'],
        'f': ['', 'a', '1 2 x', '1.5 2 3', '/1 2 3', '1/ 2/ 3/x', '1/2/3/4 1 2', '1 2 3 4.0', '1/x 2 3'],
        'l': ['', 'a', '1 x', '1.5 2', '/1', '1/x'],
        'p': ['', 'a', '1 x', '1.5', '1/2'],
        'g': [''], 'usemtl': [''], 'usemap': [''], 'mtllib': [''], 'maplib': [''], 'shadow_obj': [''], 'trace_obj': [''], 'o': [''],
        'bevel': ['', '1', '0'], 'c_interp': ['', '1'], 'd_interp': ['', '0'],
        'lod': ['', 'a', '-1', '256', '1000', '1.5'],
        's': ['', '1.5', '1 2'],
    }
    for k, l in bad_o.items():
        for a in l:
            for tail in ('\n', '', '\nv 1 2 3\n') if not quick(tier) else ('\n', '\nv 1 2 3\n'):
                if a == '' and tail == '':
                    out.append(OE('%s alone' % k, k))
                    continue
                out.append(OE('%s %s%s' % (k, a, tail.strip() and ' ; v'), '%s %s%s' % (k, a, tail)))
        out.append(OE('v ; %s without operands' % k, 'v 1 2 3\n' + k + '\n'))
    # ... wherever it stands
    for k in (OBJ_KINDS if not quick(tier) else ['v', 'f', 'g', 's', 'usemtl', 'mtllib', 'p']):
        def fn(o, k=k):
            OBJ[k](o)
            o.sh.t('unknown 1 2\n')
            OBJ['v'](o)
            return ('err', ['ModelParse'])
        out.append(OF('%s ; unknown statement ; v' % k, fn))

        def fn2(o, k=k):
            OBJ[k](o)
            o.sh.c(CS.union(CS.of('jkqwxyzJKQWXYZ_'), CS.compl(CS.rng(0, 0x7f))), 1, 1).c(NONL, 0, None).t('\n')
            return ('err', ['ModelParse'])
        out.append(OF('%s ; any other line' % k, fn2))
    # a bare word on a line of its own
    bad_m = {
        'Ka': ['', '1', '1 2', 'a', '1 2 b', '1 2 3 4', 'spectral', 'spectral 1', 'xyz', 'xyz a'],
        'Kd': ['', '1 2'], 'Ks': ['', '1 2'], 'Ke': ['', '1 2'], 'Tf': ['', '1 2'],
        'Ns': ['', 'a', '1 2'], 'Tr': ['', 'a', '1 2'], 'Ni': ['', 'a', '1 2'], 'sharpness': ['', 'a', '1 2'],
        'd': ['', 'a', '1 2', '-halo', '-halo a'], 'illum': ['', 'a', '1.5', '-1', '1 2'], 'map_aat': ['', '1'],
        'newmtl': [''], 'refl': ['', '-type', '-type sphere'], 'bump': ['', '-bm a f.png', '-bm f.png', '-bm 1'],
    }
    for k in MAPS:
        bad_m.setdefault(k, ['']).extend(['-mm 1 f.png', '-mm f.png', '-o f.png', '-s f.png', '-t f.png', '-texres f.png', '-texres 1.5 f.png',
                                          '-blendu', '-clamp 1 f.png', '-mm 0 1', '1', 'a.png b.png'] if k in ('map_Kd', 'map_d') or not quick(tier) else
                                         ['-clamp on', 'a.png b.png'])
    for k, l in bad_m.items():
        for a in l:
            for tail in ('\n', '\nKd 1 1 1\n'):
                out.append(ME('%s %s%s' % (k, a, tail.strip() and ' ; Kd'), 'newmtl m\n%s %s%s' % (k, a, tail)))
    for k in MTL_KINDS if not quick(tier) else ['Ka', 'Ns', 'd', 'illum', 'map_Kd', 'bump', 'refl', 'map_aat on']:
        def fn(m, k=k):
            MTL[k](m.newmtl())
            m.sh.t('unknown 1 2\n')
            return ('err', ['MaterialParse'])
        out.append(MF('%s ; unknown statement' % k, fn))

        def fn2(m, k=k):
            MTL[k](m.newmtl())
            m.sh.c(CS.union(CS.of('gjoqyzGJOQYZ_'), CS.compl(CS.rng(0, 0x7f))), 1, 1).c(NOWS, 0, None).t(' zz.png\n')
            return ('err', ['MaterialParse'])
        out.append(MF('%s ; any other line' % k, fn2))
    out.append(ME('empty file', ''))
    out.append(ME('comment only', '# hello\n'))
    out.append(ME('no statement', (WSALL, 0, 5)))
    out.append(ME('unknown text', 'hello world\n'))
    return out


def c26(tier):
    out = [MF('newmtl', lambda m: m.newmtl())]
    ps = pairs(MTL_KINDS)
    for a, b in (thin(ps, 200) if quick(tier) else ps):
        out.append(MS(a, b))
    for a in MTL_KINDS:
        out.append(MS(a))
        out.append(MS(a, a))
    al = [k for k in MTL_KINDS if k != 'map_disp']
    out.append(MS(*al))
    out.append(MS(*reversed(al)))
    if not quick(tier):
        for a, b in thin(ps, 120):
            out.append(MS(a, b, a))
    return out


def c05(tier):
    """content after any statement which is not a statement itself"""
    out = []
    for k in OBJ_KINDS + ['s off', 'fvtn', 'lt']:
        for junk, cs in (('closing brace', CS.of('}])')), ('letter', CS.of('xyzXYZ')), ('non-ASCII', CS.compl(CS.rng(0, 0x7f))), ('slash', CS.of('/')),
                         ('control', CS.rng(0, 8)), ('number', CS.of('='))):
            if junk == 'slash' and k in ('f', 'l', 'fvtn', 'lt', 'fv', 'lv'):
                continue
            def fn(o, k=k, cs=cs):
                OBJ[k](o)
                o.sh.c(cs).t('\n')
                OBJ['v'](o)
                return ('err',)
            out.append(OF('%s ; %s' % (k, junk), fn))

        def fn2(o, k=k):
            o.sh.c(CS.of('}])$'), 1, None).t('\n')
            OBJ[k](o)
            return ('err',)
        out.append(OF('junk ; %s' % k, fn2))
    for k in MTL_KINDS:
        for junk, cs in (('punctuation', CS.of('}])=/')), ('non-ASCII', CS.compl(CS.rng(0, 0x7f)))) + (
                () if quick(tier) else (('letter', CS.of('yYzZ')), ('control', CS.rng(0, 8)))):
            def fn(m, k=k, cs=cs):
                m.newmtl()
                MTL[k](m)
                m.sh.c(cs).t('\n')
                m.newmtl('z')
                return ('err',)
            out.append(MF('%s ; %s' % (k, junk), fn))
    return out


def c01(tier):
    """texts made to provoke a panic: any result will do"""
    out = []

    def free(name, entry, *parts):
        def b():
            sh = Shape()
            put(sh, parts)
            return sh, ('anyres',)
        out.append(Family(name, entry, b))
    for k in list(OBJ_KW.values()) + ['vp']:
        free(k + ' alone', 'load_obj', k)
        free(k + ' newline', 'load_obj', k + '\n')
        for a in ('1', '1 2', '1 2 3 4 5 6', '-1', '0', '99999999999', '-99999999999', '2147483648', '-2147483648', '1/', '1//', '1/1/1/1', '/', '//1', 'a', 'é',
                  '.', '-', '1e999', '1.5', '"', 'on', 'off', '1/2 3', '-1/-1/-1 0/0/0', '\u212a', 'ſ', '# x'):
            free('%s %s' % (k, a), 'load_obj', k + ' ' + a + '\n')
        free(k + ' <non-ASCII>', 'load_obj', k + ' ', (CS.compl(CS.rng(0, 0x7f)), 1, 3))
        free(k + '<non-ASCII>', 'load_obj', k, (CS.compl(CS.rng(0, 0x7f)), 1, 3), ' 1 2 3\n')
        free('g abc ; %s <num>' % k, 'load_obj', 'g abc\n' + k + ' ', 'num:-L', '\n')
    for k in MTL_KW + ['-halo', 'spectral', 'xyz'] + list(OPTS) + ['-boost']:
        free(k + ' alone', 'load_mtl', 'newmtl m\n' + k)
        free(k + ' first', 'load_mtl', k + ' 1 2 3\n')
        for a in ('1', '1 2', '-1', '99999999999', '-99999999999', 'a', 'é', '.', '-', 'on', '-clamp', '-o', '1 2 3 4', 'a.png b.png', '-mm 1'):
            if quick(tier) and len(a) == 1 and a not in '1é':
                continue
            free('%s %s' % (k, a), 'load_mtl', 'newmtl m\n' + k + ' ' + a + '\n')
            if k[0] == '-':
                free('map_Kd %s %s' % (k, a), 'load_mtl', 'newmtl m\nmap_Kd ' + k + ' ' + a + '\n')
        free(k + ' <non-ASCII>', 'load_mtl', 'newmtl m\n' + k + ' ', (CS.compl(CS.rng(0, 0x7f)), 1, 3))
        free(k + '<non-ASCII>', 'load_mtl', 'newmtl m\n' + k, (CS.compl(CS.rng(0, 0x7f)), 1, 3), ' 1\n')
    for e in ('load_obj', 'load_mtl'):
        free('empty', e, '')
        free('one character', e, (ANYC, 1, 1))
        free('two characters', e, (ANYC, 1, 1), (ANYC, 1, 1))
        free('any blanks', e, (WSALL, 0, 6))
        free('bom', e, '\ufeff')
    # indices beyond what has been read
    free('f 5 6 7 with three vertices', 'load_obj', 'v 0 0 0\nv 0 0 0\nv 0 0 0\nf 5 6 7\n')
    free('f -5 -6 -7 with three vertices', 'load_obj', 'v 0 0 0\nv 0 0 0\nv 0 0 0\nf -5 -6 -7\n')
    free('f 0 0 0', 'load_obj', 'f 0 0 0\nl 0 0\np 0\n')
    free('usemtl before g', 'load_obj', 'usemtl a\nusemap b\nbevel on\nlod 5\nf 1 2 3\ng x\nusemtl b\n')
    return out + sample(tier, 12 if quick(tier) else 60)


def sample(tier, n, skip=()):
    """every k-th family of every other property"""
    out = []
    for i in sorted(FAMS):
        if i in ('C01', 'C02', 'C03') or i in skip:
            continue
        xs = [f for f in FAMS[i](tier)]
        k = max(1, len(xs) // n)
        for f in xs[::k]:
            out.append(Family(i + ' ' + f.name, f.entry, f.build))
    return out


def c02(tier):
    """texts made to provoke a loop without progress: any result will do"""
    out = []

    def free(name, entry, *parts):
        def b():
            sh = Shape()
            put(sh, parts)
            return sh, ('anyres',)
        out.append(Family(name, entry, b))
    for k in list(OBJ_KW.values()):
        for tail, d in (('', 'end'), (' ', 'blank'), ('\n', 'newline'), ('\r', 'cr'), (' 1', 'number'), (' a', 'name'), (' 1/', 'slash'), (' #', 'comment'),
                        (' # x\n', 'comment line'), (' 1 1/1 1/1/1', 'mixed'), ('\n\n\n', 'newlines'), (' 1\\\n2', 'continuation')):
            free('%s %s' % (k, d), 'load_obj', k + tail)
        free(k + ' any', 'load_obj', k + ' ', (ANYC, 1, 1))
        free(k + ' blanks', 'load_obj', k, (WSALL, 0, None))
        free(k + ' comment', 'load_obj', k + ' #', (NONL, 0, None))
        free(k + ' word', 'load_obj', k + ' ', (NOWS, 1, 2))
    for k in MTL_KW:
        for tail, d in (('', 'end'), (' ', 'blank'), ('\n', 'newline'), (' 1', 'number'), (' a', 'name'), (' -', 'dash'), (' #', 'comment'), (' # x\n', 'comment line'),
                        (' -clamp', 'option'), (' -clamp on', 'option value'), (' -o 1', 'option numbers'), (' -bm', 'option end')):
            free('%s %s' % (k, d), 'load_mtl', 'newmtl m\n' + k + tail)
        free(k + ' any', 'load_mtl', 'newmtl m\n' + k + ' ', (ANYC, 1, 1))
        free(k + ' blanks', 'load_mtl', 'newmtl m\n' + k, (WSALL, 0, None))
        free(k + ' word', 'load_mtl', 'newmtl m\n' + k + ' ', (NOWS, 1, 2))
    for e in ('load_obj', 'load_mtl'):
        free('blanks', e, (WSALL, 0, None))
        free('comment', e, '#', (NONL, 0, None))
        free('comment line', e, '#', (NONL, 0, None), '\n')
        free('word', e, (NOWS, 1, 3))
        free('one character', e, (ANYC, 1, 1))
        free('word and blanks', e, (NOWS, 1, 2), (WSALL, 1, None))
    return out + sample(tier, 12 if quick(tier) else 60)


def c03(tier):
    """texts with several groups: nothing may depend on the order a map's entries come in"""
    out = []
    ev = ['usemtl', 'usemap', 'bevel on', 'c_interp on', 'd_interp on', 'lod', 's', 'f', 'l', 'p', 'o', 'mtllib', 'maplib', 'shadow_obj', 'trace_obj', 'v', '#']
    for a in ev:
        out.append(OS('g abc', a, 'f', 'g xyz', 'f', a, 'g default', 'f'))
        out.append(OS('f', a, 'g abc xyz', a, 'f', 'l', 'p'))
        out.append(OS('g abc xyz', a, 'f', 'g xyz', 'f'))
    for a, b in pairs(ev[:10]):
        out.append(OS('f', 'g abc', a, 'f', 'g xyz', b, 'f', 'p', 'l'))
        if not quick(tier):
            out.append(OS('g abc xyz', a, 'f', b, 'l', 'g abc', 'p'))
            out.append(OS('f', 'g abc xyz', a, 'f', 'g default', b, 'l', 'g abc', 'p'))
    for k in MTL_KINDS:
        out.append(MS(k, k))
    return out


FAMS = {'C01': c01, 'C02': c02, 'C03': c03, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14,
        'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C26': c26}
