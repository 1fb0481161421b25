"""The specification of OBJ statements: builds a text family and the model it must produce."""
from scen import *


class Obj:
    def __init__(self):
        self.sh = Shape()
        self.M = {'vertices': [], 'normals': [], 'textures': [], 'material_libs': [], 'texture_libs': []}
        self.maps = {'faces': [], 'lines': [], 'points': []}     # [(key exp, [entries])]
        self.groups = [(('s', 'default'), self.newgroup())]
        self.cur = [('s', 'default')]
        self.smooth = ('i', 0)
        self.shadow, self.trace = ENONE, ENONE
        self.kwcase = False
        self.nl = '\n'
        self.sp = ' '

    @staticmethod
    def newgroup():
        return {'material_name': ('s', ''), 'bevel': ('b', False), 'c_interp': ('b', False), 'd_interp': ('b', False),
                'lod': ('i', 0), 'texture_map': ENONE}

    # ---- text
    def kw(self, s):
        (self.sh.ci if self.kwcase else self.sh.t)(s)
        return self

    def gap(self):
        if callable(self.sp):
            self.sp(self.sh)
        else:
            self.sh.t(self.sp)

    def eol(self):
        if callable(self.nl):
            self.nl(self.sh)
        else:
            self.sh.t(self.nl)
        return self

    def nums(self, kinds):
        out = []
        for k in kinds:
            self.gap()
            out.append(self.sh.num(k))
        return out

    def names(self, ks):
        out = []
        for k in ks:
            self.gap()
            out.append(self.sh.name(k) if len(k) == 1 else self.sh.lit(k[1:]) if k[0] == '=' else self.sh.lit(k))
        return out

    @staticmethod
    def key(h):
        return ('str', h)

    # ---- statements
    def v(self, kinds='FFF'):
        self.kw('v')
        n = self.nums(split(kinds))
        self.M['vertices'].append(('rec', {'x': N32(n[0]), 'y': N32(n[1]), 'z': N32(n[2]),
                                           'w': esome(N32(n[3])) if len(n) > 3 else ENONE}))
        return self.eol()

    def vn(self, kinds='FFF'):
        self.kw('vn')
        n = self.nums(split(kinds))
        self.M['normals'].append(('rec', {'x': N32(n[0]), 'y': N32(n[1]), 'z': N32(n[2])}))
        return self.eol()

    def vt(self, kinds='FF'):
        self.kw('vt')
        n = self.nums(split(kinds))
        o = [esome(N32(x)) for x in n] + [ENONE, ENONE]
        self.M['textures'].append(('rec', {'u': N32(n[0]), 'v': o[1], 'w': o[2]}))
        return self.eol()

    def elem(self, form):
        """form like 'I', 'I/I', 'I//I', 'I/I/I' with I in I,-I"""
        out = []
        for i, part in enumerate(form.split('/')):
            if i:
                self.sh.t('/')
            out.append(self.sh.num(part) if part else None)
        return out

    def place(self, mp, item):
        for k in self.cur:
            for kk, l in self.maps[mp]:
                if samekey(kk, k):
                    l.append(item)
                    break
            else:
                self.maps[mp].append((k, [item]))

    def f(self, forms=('I', 'I', 'I')):
        self.kw('f')
        els = []
        for fm in forms:
            self.gap()
            p = self.elem(fm) + [None, None]
            els.append(('rec', {'vertex_index': NI(p[0]), 'texture_index': esome(NI(p[1])) if p[1] else ENONE,
                                'normal_index': esome(NI(p[2])) if p[2] else ENONE}))
        self.place('faces', ('rec', {'elements': ('list', els), 'smoothing_group': self.smooth}))
        return self.eol()

    def l(self, forms=('I', 'I')):
        self.kw('l')
        els = []
        for fm in forms:
            self.gap()
            p = self.elem(fm) + [None]
            els.append(('rec', {'vertex_index': NI(p[0]), 'texture_index': esome(NI(p[1])) if p[1] else ENONE}))
        self.place('lines', ('rec', {'elements': ('list', els)}))
        return self.eol()

    def p(self, forms=('I',)):
        self.kw('p')
        els = []
        for fm in forms:
            self.gap()
            els.append(NI(self.elem(fm)[0]))
        self.place('points', ('rec', {'elements': ('list', els)}))
        return self.eol()

    def getg(self, k):
        for kk, g in self.groups:
            if samekey(kk, k):
                return g
        g = self.newgroup()
        self.groups.append((k, g))
        return g

    def g(self, *names):
        self.kw('g')
        self.cur = []
        for name in names or ('Q',):
            if name in 'QZqz':
                # two names of one class may or may not be the same word: use another class
                used = self.__dict__.setdefault('gused', [])
                name = next(c for c in [name] + list('QZqz') if c not in used)
                used.append(name)
            h = self.names([name])[0]
            k = ('s', name[1:]) if name[0] == '=' else self.key(h)
            if not any(samekey(k, c) for c in self.cur):
                self.cur.append(k)
            self.getg(k)
        return self.eol()

    def gset(self, field, val):
        for k in self.cur:
            self.getg(k)[field] = val

    def usemtl(self, name='Q'):
        self.kw('usemtl')
        self.gset('material_name', ('str', self.names([name])[0]))
        return self.eol()

    def usemap(self, name='Q'):
        self.kw('usemap')
        self.gset('texture_map', esome(('str', self.names([name])[0])))
        return self.eol()

    def flag(self, kw, field, val):
        self.kw(kw)
        self.gap()
        self.sh.ci(val) if self.kwcase else self.sh.t(val)
        self.gset(field, ('b', val == 'on'))
        return self.eol()

    def bevel(self, val='on'):
        return self.flag('bevel', 'bevel', val)

    def c_interp(self, val='on'):
        return self.flag('c_interp', 'c_interp', val)

    def d_interp(self, val='on'):
        return self.flag('d_interp', 'd_interp', val)

    def lod(self, kind='2'):
        """level 0..99: two digits"""
        self.kw('lod')
        self.gap()
        a = self.sh.begin()
        self.sh.c(DIG, 1, 2)
        self.gset('lod', ('num', self.sh.end(a), 'u8'))
        return self.eol()

    def s(self, val='I'):
        self.kw('s')
        self.gap()
        if val in ('off', 'on'):
            self.sh.ci(val) if self.kwcase else self.sh.t(val)
            self.smooth = ('i', 1 if val == 'on' else 0)
        else:
            self.smooth = NI(self.sh.num(val))
        return self.eol()

    def o(self, name='Q'):
        self.kw('o')
        self.names([name])
        return self.eol()

    def mtllib(self, name='Q'):
        self.kw('mtllib')
        self.M['material_libs'].append(('str', self.names([name])[0]))
        return self.eol()

    def maplib(self, name='Q'):
        self.kw('maplib')
        self.M['texture_libs'].append(('str', self.names([name])[0]))
        return self.eol()

    def shadow_obj(self, name='Q'):
        self.kw('shadow_obj')
        self.shadow = esome(('str', self.names([name])[0]))
        return self.eol()

    def trace_obj(self, name='Q'):
        self.kw('trace_obj')
        self.trace = esome(('str', self.names([name])[0]))
        return self.eol()

    def raw(self, s):
        self.sh.t(s)
        return self

    def comment(self):
        self.sh.t('#').c(CS.compl(CS.of('\r\n')), 0, None, 'comment')
        return self.eol()

    # ---- expectation
    def exp(self):
        d = {k: ('list', v) for k, v in self.M.items()}
        for k, v in self.maps.items():
            d[k] = ('map', [(kk, ('list', l)) for kk, l in v])
        d['groups'] = ('map', [(k, ('rec', g)) for k, g in self.groups])
        d['shadow_obj'], d['trace_obj'] = self.shadow, self.trace
        return ('rec', d)


def samekey(a, b):
    return a == b or (a[0] == b[0] == 'str' and a[1] is b[1])


def split(kinds):
    """'F-FI' -> ['F','-F','I']"""
    if isinstance(kinds, (list, tuple)):
        return list(kinds)
    out, sign = [], ''
    for c in kinds:
        if c in '+-':
            sign = c
        else:
            out.append(sign + c)
            sign = ''
    return out
