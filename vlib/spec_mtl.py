"""The specification of MTL statements: builds a text family and the materials it must produce."""
from scen import *
from spec_obj import split

CC_MAPS = {'map_Ka': 'texture_map_ambient', 'map_Kd': 'texture_map_diffuse', 'map_Ks': 'texture_map_specular'}
NC_MAPS = {'map_Ns': 'shininess_map', 'map_d': 'disolve_map', 'disp': 'displacement_map', 'map_disp': 'displacement_map',
           'decal': 'decal'}
MAPS = list(CC_MAPS) + list(NC_MAPS) + ['bump', 'refl']
COLOURS = {'Ka': 'ambient', 'Kd': 'diffuse', 'Ks': 'specular', 'Ke': 'emissive_coefficient', 'Tf': 'transmission_factor'}
SCALARS = {'Ns': 'specular_exponent', 'Tr': 'transparancy', 'sharpness': 'sharpness', 'Ni': 'index_of_refraction'}
FIELDS = ['ambient', 'diffuse', 'specular', 'emissive_coefficient', 'specular_exponent', 'disolve', 'transparancy',
          'transmission_factor', 'sharpness', 'index_of_refraction', 'illumination_mode', 'texture_map_ambient',
          'texture_map_diffuse', 'texture_map_specular', 'shininess_map', 'disolve_map', 'displacement_map', 'decal',
          'bump_map', 'reflection_map', 'anti_alias_map']
COMMON = ['blend_u', 'blend_v', 'clamp', 'texture_range', 'offset', 'scale', 'turbulance', 'texture_res']
# option -> field
OPTS = {'-blendu': 'blend_u', '-blendv': 'blend_v', '-cc': 'color_correct', '-clamp': 'clamp', '-mm': 'texture_range',
        '-o': 'offset', '-s': 'scale', '-t': 'turbulance', '-texres': 'texture_res', '-imfchan': 'imf_chan',
        '-bm': 'bump_multiplier', '-type': 'reflection_type'}


def opts_for(mp):
    """the options of the format documented for a map statement"""
    o = ['-blendu', '-blendv', '-clamp', '-mm', '-o', '-s', '-t', '-texres']
    if mp in CC_MAPS:
        o.append('-cc')
    elif mp == 'refl':
        o += ['-cc', '-type']
    elif mp == 'bump':
        o += ['-imfchan', '-bm']
    else:
        o.append('-imfchan')
    return o


class Mtl:
    def __init__(self):
        self.sh = Shape()
        self.mats = []
        self.kwcase = False
        self.nl = '\n'
        self.sp = ' '

    # ---- text
    def kw(self, s):
        (self.sh.ci if self.kwcase else self.sh.t)(s)
        return self

    def gap(self):
        if callable(self.sp):
            self.sp(self.sh)
        else:
            self.sh.t(self.sp)
        return self

    def eol(self):
        if callable(self.nl):
            self.nl(self.sh)
        else:
            self.sh.t(self.nl)
        return self

    def nums(self, kinds):
        out = []
        for k in (kinds if isinstance(kinds, (list, tuple)) else [kinds] if kinds.startswith('=') else split(kinds)):
            self.gap()
            out.append(self.sh.num(k))
        return out

    def nm(self, k):
        self.gap()
        return ('str', self.sh.name(k) if len(k) == 1 else self.sh.lit(k[1:]))

    def set(self, field, val):
        self.mats[-1][field] = val

    # ---- statements
    def newmtl(self, name='Q'):
        self.kw('newmtl')
        m = {f: ENONE for f in FIELDS}
        m['name'] = self.nm(name)
        self.mats.append(m)
        return self.eol()

    def colour(self, kw, kinds='FFF'):
        self.kw(kw)
        n = self.nums(kinds)
        self.set(COLOURS[kw], esome(('enum', 'Rgb', [N32(x) for x in n])))
        return self.eol()

    def spectral(self, kw, name='z', factor=None):
        self.kw(kw).gap().kw('spectral')
        f = self.nm(name)
        fac = N32(self.nums(factor)[0]) if factor else ('fl', 1.0)
        self.set(COLOURS[kw], esome(('enum', 'Spectral', [f, fac])))
        return self.eol()

    def xyz(self, kw, kinds='FFF'):
        self.kw(kw).gap().kw('xyz')
        n = self.nums(kinds)
        n += [n[0]] * (3 - len(n))
        self.set(COLOURS[kw], esome(('enum', 'CieXyz', [N32(x) for x in n])))
        return self.eol()

    def scalar(self, kw, kind='F'):
        self.kw(kw)
        self.set(SCALARS[kw], esome(N32(self.nums(kind)[0])))
        return self.eol()

    def d(self, kind='F', halo=False):
        self.kw('d')
        if halo:
            self.gap().kw('-halo')
        self.set('disolve', esome(('enum', 'Halo' if halo else 'Alpha', [N32(self.nums(kind)[0])])))
        return self.eol()

    def illum(self, kind='I'):
        self.kw('illum')
        h = self.nums(kind)[0]
        self.set('illumination_mode', esome(('num', h, 'u32')))
        return self.eol()

    def map_aat(self, val='on'):
        self.kw('map_aat').gap()
        self.sh.ci(val) if self.kwcase else self.sh.t(val)
        self.set('anti_alias_map', esome(('b', val == 'on')))
        return self.eol()

    def option(self, o, arg=None):
        """text of one option; returns (field, expected value)"""
        self.gap().kw(o)
        f = OPTS[o]
        if o in ('-blendu', '-blendv', '-cc', '-clamp'):
            val = arg or 'on'
            self.gap()
            self.sh.ci(val) if self.kwcase else self.sh.t(val)
            return f, esome(('b', val == 'on'))
        if o == '-mm':
            n = self.nums(arg or 'FF')
            return f, esome(('tup', [N32(n[0]), N32(n[1])]))
        if o in ('-o', '-s', '-t'):
            n = self.nums(arg or 'FFF')
            return f, esome(('tup', [N32(n[0])] + [esome(N32(x)) for x in n[1:]] + [ENONE] * (3 - len(n))))
        if o == '-texres':
            return f, esome(NI(self.nums(arg or 'I')[0]))
        if o == '-bm':
            return f, esome(N32(self.nums(arg or 'F')[0]))
        if o == '-imfchan':
            return f, esome(self.nm(arg or 'q'))
        if o == '-type':
            return f, self.nm(arg or 'q')
        raise ValueError(o)

    def map(self, kw, before=(), after=(), name='z'):
        """options are names or (name, argument) pairs; before / after the file name"""
        self.kw(kw)
        got = {}

        def opts(l):
            for o in l:
                f, v = self.option(*(o if isinstance(o, tuple) else (o,)))
                got[f] = v
        opts(before)
        got['file_name'] = self.nm(name)
        opts(after)
        rec = {f: got.get(f, ENONE) for f in COMMON}
        rec['file_name'] = got['file_name']
        if kw in CC_MAPS or kw == 'refl':
            rec['color_correct'] = got.get('color_correct', ENONE)
        else:
            rec['imf_chan'] = got.get('imf_chan', ENONE)
        if kw == 'bump':
            self.set('bump_map', esome(('rec', {'bump_multiplier': got.get('bump_multiplier', ENONE),
                                                'map_settings': esome(('rec', rec))})))
        elif kw == 'refl':
            self.set('reflection_map', esome(('rec', {'reflection_type': got.get('reflection_type', ('s', '')),
                                                      'map_settings': esome(('rec', rec))})))
        else:
            self.set(CC_MAPS.get(kw) or NC_MAPS[kw], esome(('rec', rec)))
        return self.eol()

    def raw(self, s):
        self.sh.t(s)
        return self

    def comment(self):
        self.sh.t('#').c(CS.compl(CS.of('\r\n')), 0, None, 'comment')
        return self.eol()

    def exp(self):
        return ('list', [('rec', dict(m)) for m in self.mats])
