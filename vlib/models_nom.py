"""Models of the nom 8 parser combinators over abstract character and token streams."""
import charset as CS
from core import *
from models_std import strip_generics

NE = 'nom::error::Error'

CHARSETS = {
    'digit': CS.DIGIT,
    'alpha': CS.of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'),
    'hex_digit': CS.of('0123456789abcdefABCDEF'),
    'oct_digit': CS.of('01234567'),
    'bin_digit': CS.of('01'),
    'space': CS.of(' \t'),
    'multispace': CS.of(' \t\r\n'),
}
CHARSETS['alphanumeric'] = CS.union(CHARSETS['alpha'], CS.DIGIT)

# parser functions that take the input itself (as opposed to builders)
DIRECT = {a + b for a in CHARSETS for b in '01'} | {
    'line_ending', 'not_line_ending', 'newline', 'tab', 'crlf', 'anychar', 'eof', 'rest', 'rest_len',
    'float', 'double', 'recognize_float', 'recognize_float_or_exceptions',
    'i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'isize'}
LEAVES = {'tag', 'tag_no_case', 'is_not', 'is_a', 'take_while', 'take_while1', 'take_till', 'take_till1', 'take', 'take_until',
          'take_while_m_n', 'char', 'one_of', 'none_of', 'satisfy'}
STALE = {a + '0' for a in CHARSETS}
BUILD_ALWAYS = {
    'tag', 'tag_no_case', 'is_not', 'is_a', 'take_while', 'take_while1', 'take_till', 'take_till1', 'take', 'take_until',
    'take_until1', 'take_while_m_n', 'char', 'one_of', 'none_of', 'satisfy', 'escaped',
    'map', 'map_opt', 'map_res', 'opt', 'value', 'verify', 'peek', 'not', 'recognize', 'consumed', 'all_consuming',
    'complete', 'cut', 'cond', 'success', 'fail', 'into', 'flat_map', 'map_parser', 'and_then', 'preceded', 'terminated',
    'delimited', 'pair', 'separated_pair', 'tuple', 'alt', 'permutation', 'many0', 'many1', 'many', 'fold', 'fold_many0',
    'fold_many1', 'many_m_n', 'fold_many_m_n', 'many_till', 'separated_list0', 'separated_list1', 'count', 'many0_count',
    'many1_count', 'and', 'or', 'dbg_dmp', 'context'}


class NomModels:
    limit_concrete = 4
    rep_depth = 0
    scenario = False
    token_hook = None
    token_hook_depth = 99

    def nom_call(self, st, f, args, outty):
        path = strip_generics(f['path'])
        name = f.get('name')
        tr = f.get('trait')
        segs = path.split('::')
        if tr == 'nom::Parser':
            return self.parser_method(st, f, name, args)
        if tr:
            return self.nom_trait(st, f, name, args, outty)
        if name is None:
            return None
        if segs[:3] == ['nom', 'error', 'Error'] and name == 'new':
            return [(st, ('A', NE, 0, (args[0], args[1])))]
        if path.endswith('error::make_error'):
            return [(st, ('A', NE, 0, (args[0], args[1])))]
        if name == 'new' and 'Needed' in path:
            return [(st, ('sym', 'needed', outty))]
        always = 'complete' in segs or 'streaming' in segs
        if always and name in DIRECT and len(args) == 1:
            mode = 'C' if 'complete' in segs else 'S'
            return self.to_iresult(self.run_parser(st, ('P', name, (), mode), args[0], mode))
        if name in ('eof', 'rest', 'rest_len') and len(args) == 1:
            return self.to_iresult(self.run_parser(st, ('P', name, (), 'C'), args[0], 'C'))
        if name in DIRECT and len(args) == 0:
            return [(st, ('P', name, (), None))]
        if name in BUILD_ALWAYS:
            mode = 'C' if 'complete' in segs else 'S' if 'streaming' in segs else None
            if name == 'success' and mode is None:
                pass
            return [(st, ('P', name, tuple(args), mode))]
        return None

    def nom_trait(self, st, f, name, args, outty):
        if name == 'from_error_kind':
            return [(st, ('A', NE, 0, (args[0], args[1])))]
        if name in ('append', 'or') and 'ParseError' in f['trait']:
            return [(st, args[-1])]
        if name == 'input_len' and f['crate'] == 'nom':
            return [(st, self.seq_len(st, self.deep(st, args[0])))]
        if name == 'take_split' and f['crate'] == 'nom':
            return None
        return None

    def parser_method(self, st, f, name, args):
        if name in ('parse', 'parse_complete', 'process'):
            mode = 'C' if name == 'parse_complete' else 'S'
            if name == 'process':
                return None
            return self.to_iresult(self.run_parser(st, args[0], args[1], mode))
        p = args[0]
        if name in ('map', 'map_res', 'map_opt', 'flat_map', 'and_then', 'and', 'or', 'into'):
            return [(st, ('P', name, tuple(args), None))]
        return None

    def parser_call(self, st, c, args):
        """a nom parser object invoked as a function"""
        return self.to_iresult(self.run_parser(st, c, args[0], c[3] or 'S'))

    def to_iresult(self, outs):
        res = []
        for r in outs:
            if r[1] == 'ok':
                res.append((r[0], ok(('T', (r[2], r[3])))))
            else:
                res.append((r[0], err(r[2])))
        return res

    # ------------------------------------------------------------ results
    def nerr(self, st, inp, kind='Tag', variant=1):
        return (st, 'err', ('A', NERR, variant, (('A', NE, 0, (inp, ('sym', 'kind:' + kind, None))),)))

    def nincomplete(self, st):
        return (st, 'err', ('A', NERR, 0, (('sym', 'needed', None),)))

    @staticmethod
    def evar(r):
        return r[2][2]

    # ------------------------------------------------------------ inputs
    def norm_input(self, st, inp):
        """-> (state, kind, S, pos, rebuild) kind 'str' | 'tok' """
        v = inp
        if v[0] == 'ref':
            w = self.deep(st, v)
            if self.is_strlike(w):
                if w[0] == 'str':
                    return st, 'str', w[1], w[2], lambda p, S=w[1]: kref(('str', S, p))
                st, Sn = self.bind_string(st, w)
                return st, 'str', Sn, 'B', lambda p, S=Sn: kref(('str', S, p))
            if self.is_tokseq(w):
                st, Sn, i = self.bind_tokens(st, w)
                return st, 'tok', Sn, i, lambda p: kref(self.seqv(p))
            if w[0] == 'A':
                r = self.find_seq(w)
                if r is not None:
                    st, Sn, i = self.bind_tokens(st, r[0])
                    return st, 'tok', Sn, i, lambda p: kref(r[1](self.seqv(p)))
        r = self.find_seq(v)
        if r is not None:
            st, Sn, i = self.bind_tokens(st, r[0])
            return st, 'tok', Sn, i, lambda p: r[1](self.seqv(p))
        if self.is_sym(v):
            ex = self.expand(v)
            if ex is not None:
                return self.norm_input(st, ex)
        raise Undecided('parser input ' + str(v)[:80])

    def is_tokseq(self, v):
        return v[0] in ('sfx', 'rep', 'L', 'cat', 'sub', 'lv') or (self.is_sym(v) and self.seqty(v))

    def seqty(self, v):
        t = self.tyk(self.ty_of(v))
        return bool(t and (t['k'] == 'slice' or t.get('path', '').endswith('vec::Vec')))

    def find_seq(self, v):
        """the token sequence inside an input aggregate: (seq, rebuild)"""
        if v[0] in ('A', 'T'):
            fs = v[3] if v[0] == 'A' else v[1]
            for i, x in enumerate(fs):
                y = x
                isref = x[0] == 'ref' and isinstance(x[1], tuple) and x[1][0] == 'K'
                if isref:
                    y = x[1][1]
                if self.is_tokseq(y):
                    def rb(n, i=i, isref=isref):
                        l = list(fs)
                        l[i] = kref(n) if isref else n
                        return ('A', v[1], v[2], tuple(l)) if v[0] == 'A' else ('T', tuple(l))
                    return y, rb
        return None

    @staticmethod
    def seqv(p):
        """the token sequence at position p = (stream, index)"""
        if isinstance(p[0], tuple):
            return ('L', p[0][1][p[1]:])
        return ('sfx',) + p

    def bind_tokens(self, st, seq):
        if seq[0] == 'sfx':
            return st, seq[1], seq[2]
        if seq[0] == 'L':
            if self.token_hook is not None and len(self.stack) <= self.token_hook_depth:
                self.token_hook(st, seq)
            return st, ('lit', seq[1]), 0
        if not hasattr(self, 'bind'):
            self.bind = {}
        Sn = self.fresh('$t')
        self.bind[Sn] = seq
        lo, hi = self.seq_len_rng(st, seq)
        return st.fact(('slen', Sn), (lo or 0, hi)), Sn, 0

    def bind_string(self, st, w):
        if w[0] == 'cat':
            w = self.concrete(st, w)
        if w[0] == 's':
            st, Sn = self.new_stream(st, [(CS.of(c), 1, 1) for c in w[1]])
            return st, Sn
        if w[0] == 'span':
            i, j = self.seg_index(st, w[1], w[2]), self.seg_index(st, w[1], w[3])
            Sn = self.fresh('$s')
            return st.fact(('segs', Sn), self.segs(st, w[1])[i:j]), Sn
        if self.scenario:
            raise Undecided('parsed text which is not a part of the input: ' + str(w)[:60])
        if not hasattr(self, 'bind'):
            self.bind = {}
        st, Sn = self.new_stream(st, [(CS.ALL, 0, None)])
        self.bind[Sn] = w
        return st, Sn

    # ------------------------------------------------------------ the interpreter
    def run_parser(self, st, p, inp, mode):
        while p[0] == 'ref':
            p = self.read(st, p[1], p[2])
        if p[0] == 'box':
            p = p[1]
        if p[0] == 'P':
            m = getattr(self, 'np_' + p[1], None)
            mode = p[3] or mode
            if m is None:
                if p[1] in DIRECT:
                    return self.mark_rest(self.leaf_direct(st, p, inp, mode), p[1], p[3], inp)
                raise Undecided('nom combinator ' + p[1])
            if p[1] in LEAVES:
                return self.mark_rest(m(st, p[2], inp, mode), p[1], mode, inp)
            return m(st, p[2], inp, mode)
        if p[0] == 'T':
            return self.seq_parsers(st, p[1], inp, mode, lambda vs: ('T', tuple(vs)))
        # function / closure parser
        if p[0] == 's':
            return self.np_tag(st, (kref(p),), inp, mode)
        out = []
        for s, v in self.call_value(st, p, [inp]):
            out += self.split_iresult(s, v)
        return out

    def split_iresult(self, st, v):
        out = []
        r = self.split_variant(st, v)
        if r is None:
            raise Undecided('IResult value ' + str(v)[:60])
        for s, x in r:
            if x[2] == 0:
                t = x[3][0]
                if t[0] != 'T':
                    t = self.expand(t)
                    if t is None:
                        raise Undecided('IResult tuple')
                out.append((s, 'ok', t[1][0], t[1][1]))
            else:
                e = x[3][0]
                ev = self.split_variant(s, e)
                if ev is None:
                    out.append((s, 'err', ('A', NERR, 1, (e,))))
                else:
                    for s2, y in ev:
                        out.append((s2, 'err', y))
        return out

    def seq_parsers(self, st, ps, inp, mode, fin):
        cur = [(st, inp, [])]
        out = []
        for p in ps:
            nxt = []
            for s, i, vs in cur:
                for r in self.run_parser(s, p, i, mode):
                    if r[1] == 'ok':
                        nxt.append((r[0], r[2], vs + [r[3]]))
                    else:
                        out.append(r)
            cur = nxt
        for s, i, vs in cur:
            out.append((s, 'ok', i, fin(vs)))
        return out

    # -- sequence combinators
    def np_pair(self, st, a, inp, mode):
        return self.seq_parsers(st, a, inp, mode, lambda v: ('T', tuple(v)))

    np_and = np_pair

    def np_tuple(self, st, a, inp, mode):
        return self.seq_parsers(st, self.untuple(a[0]), inp, mode, lambda v: ('T', tuple(v)))

    def np_preceded(self, st, a, inp, mode):
        return self.seq_parsers(st, a, inp, mode, lambda v: v[1])

    def np_terminated(self, st, a, inp, mode):
        return self.seq_parsers(st, a, inp, mode, lambda v: v[0])

    def np_delimited(self, st, a, inp, mode):
        return self.seq_parsers(st, a, inp, mode, lambda v: v[1])

    def np_separated_pair(self, st, a, inp, mode):
        return self.seq_parsers(st, a, inp, mode, lambda v: ('T', (v[0], v[2])))

    # -- value combinators
    def on_ok(self, outs, fn):
        res = []
        for r in outs:
            if r[1] == 'ok':
                res += fn(r[0], r[2], r[3])
            else:
                res.append(r)
        return res

    def np_map(self, st, a, inp, mode):
        return self.on_ok(self.run_parser(st, a[0], inp, mode),
                          lambda s, rest, v: [(s2, 'ok', rest, y) for s2, y in self.call_value(s, a[1], [v])])

    def np_map_opt(self, st, a, inp, mode):
        def fn(s, rest, v):
            out = []
            for s2, y in self.call_value(s, a[1], [v]):
                sv = self.split_variant(s2, y)
                if sv is None:
                    raise Undecided('map_opt result')
                for s3, z in sv:
                    out.append((s3, 'ok', rest, z[3][0]) if z[2] == 1 else self.nerr(s3, inp, 'MapOpt'))
            return out
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    def np_map_res(self, st, a, inp, mode):
        def fn(s, rest, v):
            out = []
            for s2, y in self.call_value(s, a[1], [v]):
                sv = self.split_variant(s2, y)
                if sv is None:
                    raise Undecided('map_res result')
                for s3, z in sv:
                    out.append((s3, 'ok', rest, z[3][0]) if z[2] == 0 else self.nerr(s3, inp, 'MapRes'))
            return out
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    def np_verify(self, st, a, inp, mode):
        def fn(s, rest, v):
            arg = v if (v[0] == 'ref') else kref(v)
            if v[0] == 'ref' and self.closure_param_refref(s, a[1]):
                arg = kref(v)
            out = []
            for s2, y in self.call_value(s, a[1], [arg]):
                for s3, b in self.truth(s2, y):
                    out.append((s3, 'ok', rest, v) if b else self.nerr(s3, inp, 'Verify'))
            return out
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    def closure_param_refref(self, st, c):
        while c[0] == 'ref':
            c = self.read(st, c[1], c[2])
        f = None
        ix = 1
        if c[0] == 'clo':
            f = self.F[self.T[c[1]]['fn']]
            ix = 2
        elif c[0] == 'fn' and self.T[c[1]].get('fn'):
            f = self.F[self.T[c[1]]['fn']]
        if f and f.get('body'):
            ls = f['body']['locals']
            if ix < len(ls):
                t = self.T[ls[ix]]
                return t['k'] == 'ref' and self.T[t['elem']]['k'] == 'ref'
        return False

    def np_value(self, st, a, inp, mode):
        return self.on_ok(self.run_parser(st, a[1], inp, mode), lambda s, rest, v: [(s, 'ok', rest, a[0])])

    def np_opt(self, st, a, inp, mode):
        out = []
        for r in self.run_parser(st, a[0], inp, mode):
            if r[1] == 'ok':
                out.append((r[0], 'ok', r[2], some(r[3])))
            elif self.evar(r) == 1:
                out.append((r[0], 'ok', inp, NONE))
            else:
                out.append(r)
        return out

    def np_peek(self, st, a, inp, mode):
        return self.on_ok(self.run_parser(st, a[0], inp, mode), lambda s, rest, v: [(s, 'ok', inp, v)])

    def np_not(self, st, a, inp, mode):
        out = []
        for r in self.run_parser(st, a[0], inp, mode):
            if r[1] == 'ok':
                out.append(self.nerr(r[0], inp, 'Not'))
            elif self.evar(r) == 1:
                out.append((r[0], 'ok', inp, UNIT))
            else:
                out.append(r)
        return out

    def mark_rest(self, res, name, mode, inp):
        """nom's complete digit0, space0 ... (str::split_at_position_complete) return, when they reach the end of the
        text, an empty remainder which points to where they began: recognize and consumed, which compute with the
        pointers, then leave out what was matched.  ('stale', stream) = that place"""
        out = []
        for r in res:
            if r[1] == 'ok':
                a, b = self.deep(r[0], inp), self.deep(r[0], r[2])
                if b[0] == 'str' and a[0] == 'str' and a[1] == b[1]:
                    key = ('stale', b[1])
                    if name in STALE and mode == 'C':
                        if a[2] != b[2] and not self.rest_segs(r[0], b[1], b[2]):
                            r = (r[0].fact(key, a[2]),) + tuple(r[1:])
                    elif r[0].facts.get(key) is not None and a[2] != b[2]:
                        r = (r[0].fact(key, None),) + tuple(r[1:])
            out.append(r)
        return out

    def consumed_term(self, st, inp, rest):
        a, b = self.deep(st, inp), self.deep(st, rest)
        if a[0] == 'str' and b[0] == 'str' and a[1] == b[1]:
            k = st.facts.get(('stale', a[1]))
            if k is not None and not self.rest_segs(st, b[1], b[2]):
                return kref(('span', a[1], a[2], k))
            return kref(('span', a[1], a[2], b[2]))
        if a[0] == 'str':
            return kref(('sym', self.fresh('consumed'), self.str_ty()))
        raise Undecided('recognize on tokens')

    def np_recognize(self, st, a, inp, mode):
        st, k, Sn, pos, rb = self.norm_input(st, inp)
        i0 = rb(pos) if k == 'str' else inp
        return self.on_ok(self.run_parser(st, a[0], i0, mode),
                          lambda s, rest, v: [(s, 'ok', rest, self.consumed_term(s, i0, rest))])

    def np_consumed(self, st, a, inp, mode):
        return self.on_ok(self.run_parser(st, a[0], inp, mode),
                          lambda s, rest, v: [(s, 'ok', rest, ('T', (self.consumed_term(s, inp, rest), v)))])

    def np_all_consuming(self, st, a, inp, mode):
        def fn(s, rest, v):
            s, k, Sn, pos, rb = self.norm_input(s, rest)
            out = []
            for s2, e in self.at_end(s, k, Sn, pos):
                out.append((s2, 'ok', rb(pos if k == 'str' else (Sn, pos)), v) if e else self.nerr(s2, rest, 'Eof'))
            return out
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    def at_end(self, st, k, Sn, pos):
        if k == 'str':
            return [(s, g is None) for s, g in self.split_first(st, Sn, pos)]
        out = []
        for s, b in self.nonempty_fork(st, self.seqv((Sn, pos))):
            out.append((s, not b))
        return out

    def np_complete(self, st, a, inp, mode):
        out = []
        for r in self.run_parser(st, a[0], inp, 'C'):
            if r[1] == 'err' and self.evar(r) == 0:
                out.append(self.nerr(r[0], inp, 'Complete'))
            else:
                out.append(r)
        return out

    def np_cut(self, st, a, inp, mode):
        out = []
        for r in self.run_parser(st, a[0], inp, mode):
            if r[1] == 'err' and self.evar(r) == 1:
                out.append((r[0], 'err', ('A', NERR, 2, r[2][3])))
            else:
                out.append(r)
        return out

    def np_cond(self, st, a, inp, mode):
        out = []
        for s, b in self.truth(st, a[0]):
            if b:
                out += self.on_ok(self.run_parser(s, a[1], inp, mode), lambda s2, rest, v: [(s2, 'ok', rest, some(v))])
            else:
                out.append((s, 'ok', inp, NONE))
        return out

    def np_success(self, st, a, inp, mode):
        return [(st, 'ok', inp, a[0])]

    def np_fail(self, st, a, inp, mode):
        return [self.nerr(st, inp, 'Fail')]

    def np_into(self, st, a, inp, mode):
        raise Undecided('nom into')

    def np_context(self, st, a, inp, mode):
        return self.run_parser(st, a[1], inp, mode)

    def np_flat_map(self, st, a, inp, mode):
        def fn(s, rest, v):
            out = []
            for s2, p in self.call_value(s, a[1], [v]):
                out += self.run_parser(s2, p, rest, mode)
            return out
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    def np_and_then(self, st, a, inp, mode):
        def fn(s, rest, v):
            return self.on_ok(self.run_parser(s, a[1], v, mode), lambda s2, _, w: [(s2, 'ok', rest, w)])
        return self.on_ok(self.run_parser(st, a[0], inp, mode), fn)

    np_map_parser = np_and_then

    def np_alt(self, st, a, inp, mode):
        ch = a[0]
        while ch[0] == 'ref':
            ch = self.deref(st, ch)
        alts = ch[1] if ch[0] in ('T', 'L') else self.untuple(ch)
        cur = [(st, None)]
        out = []
        for p in alts:
            nxt = []
            for s, _ in cur:
                rs = self.run_parser(s, p, inp, mode)
                if len(rs) > 1 and all(r[1] != 'ok' and self.evar(r) == 1 and r[0].cells == s.cells for r in rs):
                    # the alternative fails on every split of this state: forget the splits
                    nxt.append((s, self.nerr(s, inp, 'Alt')))
                    continue
                for r in rs:
                    if r[1] == 'ok' or self.evar(r) != 1:
                        out.append(r)
                    else:
                        nxt.append((r[0], r))
            cur = self.dedupe_states(nxt)
            if len(cur) > 300 and not getattr(self, 'scenario', False):
                cur = self.coarsen_all(st, cur, inp, mode)
            if len(cur) > 6000:
                raise Undecided('alt blow-up')
        out += [r for _, r in cur]
        return out

    def coarsen_all(self, parent, sts, inp, mode):
        """over-approximate the states in which every alternative so far has failed: of the
        text ahead only the first character is remembered"""
        try:
            k, Sn, pos = self.norm_input(parent, inp)[1:4]
        except Undecided:
            return sts
        if k != 'str':
            return sts
        ps = self.segs(parent, Sn)
        i0 = self.seg_index(parent, Sn, pos)
        ids = {g[0] for g in ps}
        out = []
        for s, r in sts:
            if s.cells != parent.cells:
                out.append((s, r))
                continue
            cs = self.segs(s, Sn)
            facts = {f: v for f, v in s.facts.items() if f[0] in ('segs', 'slen')}
            facts.update({f: v for f, v in parent.facts.items() if f[0] not in ('segs', 'slen')})
            new, grp, first = list(ps[:i0]), [], True
            for g in cs[self.seg_index(s, Sn, pos):]:
                grp.append(g)
                if g[0] not in ids:
                    continue
                pg = next(x for x in ps if x[0] == g[0])
                if first:
                    if len(grp) == 1:
                        new.append(grp[0])
                    elif all(x[3] == 0 for x in grp[1:]):
                        new += grp
                    else:
                        new += [grp[0], (pg[0], pg[1], 0, None if pg[3] is None else pg[3])]
                    first = grp[0][3] == 0
                else:
                    new.append(pg)
                grp = []
            s2 = s.copy()
            s2.facts = facts
            s2 = self.put_segs(s2, Sn, new)
            out.append((s2, self.nerr(s2, inp, 'Alt')))
        return self.dedupe_states(out)

    def dedupe_states(self, sts):
        if len(sts) < 2:
            return sts
        seen = set()
        res = []
        for s, r in sts:
            k = (frozenset(s.facts.items()), frozenset(s.cells.items()))
            if k not in seen:
                seen.add(k)
                res.append((s, r))
        return res

    def np_or(self, st, a, inp, mode):
        return self.np_alt(st, (('T', tuple(a)),), inp, mode)

    # ------------------------------------------------------------ character leaves
    def str_input(self, st, inp):
        st, k, Sn, pos, rb = self.norm_input(st, inp)
        if k != 'str':
            raise Undecided('character parser on tokens')
        return st, Sn, pos

    def leaf_class(self, st, inp, mode, C, lo, hi=None, incomplete_at_end=True):
        st, Sn, A = self.str_input(st, inp)
        if hi is not None:
            cur = [(st, A, 0)]
            out = []
            while cur:
                nxt = []
                for s, p, n in cur:
                    if n == hi:
                        out.append((s, 'ok', kref(('str', Sn, p)), kref(('span', Sn, A, p))))
                        continue
                    for s2, g in self.split_first(s, Sn, p):
                        if g is None:
                            if mode == 'S':
                                out.append(self.nincomplete(s2))
                            elif n >= lo:
                                out.append((s2, 'ok', kref(('str', Sn, p)), kref(('span', Sn, A, p))))
                            else:
                                out.append(self.nerr(s2, inp))
                            continue
                        x = self.seg_of(s2, Sn, g)
                        yes, no = CS.inter(x[1], C), CS.diff(x[1], C)
                        t = ('chr', Sn, g, self.char_ty())
                        if yes:
                            nxt.append((self.refine_char(s2, t, yes) if no else s2, g, n + 1))
                        if no:
                            s3 = self.refine_char(s2, t, no) if yes else s2
                            if n >= lo:
                                out.append((s3, 'ok', kref(('str', Sn, p)), kref(('span', Sn, A, p))))
                            else:
                                out.append(self.nerr(s3, inp))
                cur = nxt
            return out
        out = []
        if lo > 1:
            raise Undecided('class minimum')
        for s, end, mn, atend in self.take_while(st, Sn, A, C):
            if atend and mode == 'S':
                out.append(self.nincomplete(s))
                continue
            if lo == 1 and mn == 0:
                # min==0 does not exclude a non-empty match: decide by position
                for s2, empty in self.span_empty(s, Sn, A, end):
                    out.append(self.nerr(s2, inp) if empty else
                               (s2, 'ok', kref(('str', Sn, end)), kref(('span', Sn, A, end))))
                continue
            out.append((s, 'ok', kref(('str', Sn, end)), kref(('span', Sn, A, end))))
        return out

    def span_empty(self, st, Sn, A, end):
        if self.same_pos(st, Sn, A, end):
            return [(st, True)]
        i, j = self.seg_index(st, Sn, A), self.seg_index(st, Sn, end)
        if any(g[2] > 0 for g in self.segs(st, Sn)[i:j]):
            return [(st, False)]
        out = []
        for s, b in self.nonempty_fork(st, ('span', Sn, A, end)):
            out.append((s, not b))
        return out

    def leaf_direct(self, st, p, inp, mode):
        name = p[1]
        base, n = name[:-1], name[-1:]
        if base in CHARSETS and n in '01':
            return self.leaf_class(st, inp, mode, CHARSETS[base], int(n))
        if name == 'anychar':
            return self.one_char(st, inp, mode, CS.ALL)
        if name == 'newline':
            return self.one_char(st, inp, mode, CS.of('\n'))
        if name == 'tab':
            return self.one_char(st, inp, mode, CS.of('\t'))
        if name == 'crlf':
            return self.np_tag(st, (sref('\r\n'),), inp, mode)
        if name == 'line_ending':
            return self.np_alt(st, (('T', (('P', 'tag', (sref('\n'),), mode), ('P', 'tag', (sref('\r\n'),), mode))),), inp, mode)
        if name == 'not_line_ending':
            out = []
            for r in self.leaf_class(st, inp, mode, CS.compl(CS.of('\r\n')), 0):
                if r[1] != 'ok':
                    out.append(r)
                    continue
                w = self.deep(r[0], r[2])
                for s, g in self.split_first(r[0], w[1], w[2]):
                    if g is None:
                        out.append((s, 'ok', r[2], r[3]))
                        continue
                    x = self.seg_of(s, w[1], g)
                    if not CS.inter(x[1], CS.of('\r')):
                        out.append((s, 'ok', r[2], r[3]))
                        continue
                    t = ('chr', w[1], g, self.char_ty())
                    no = CS.diff(x[1], CS.of('\r'))
                    if no:
                        out.append((self.refine_char(s, t, no), 'ok', r[2], r[3]))
                    s2 = self.refine_char(s, t, CS.of('\r'))
                    for s3, e, eof in self.match_prefix(s2, w[1], g, '\n'):
                        out.append((s3, 'ok', r[2], r[3]) if e is not None else self.nerr(s3, inp))
            return out
        if name == 'eof':
            st, k, Sn, pos, rb = self.norm_input(st, inp)
            out = []
            for s, e in self.at_end(st, k, Sn, pos):
                here = rb(pos if k == 'str' else (Sn, pos))
                out.append((s, 'ok', here, here) if e else self.nerr(s, inp, 'Eof'))
            return out
        if name == 'rest':
            st, Sn, A = self.str_input(st, inp)
            segs = self.segs(st, Sn)
            end = segs[-1][0] if segs and A != segs[-1][0] else A
            return [(st, 'ok', kref(('str', Sn, end)), kref(('span', Sn, A, end)))]
        if name in ('recognize_float', 'recognize_float_or_exceptions', 'float', 'double'):
            return self.np_float(st, name, inp, mode)
        if name in self.INTBITS:
            return self.np_int(st, name, inp, mode)
        raise Undecided('nom parser ' + name)

    def np_float(self, st, name, inp, mode):
        def P(n, *a):
            return ('P', n, tuple(a), 'C')
        sign = P('opt', P('one_of', sref('+-')))
        d1 = P('digit1')
        mant = P('alt', ('T', (('T', (d1, P('opt', P('pair', P('char', ('c', 46)), P('opt', d1))))),
                               ('T', (P('char', ('c', 46)), d1)))))
        exp = P('opt', ('T', (P('one_of', sref('eE')), sign, P('cut', d1))))
        rec = P('recognize', ('T', (sign, mant, exp)))
        outs = self.run_parser(st, rec, inp, mode)
        if name.startswith('recognize'):
            return outs
        tn = 'f32' if name == 'float' else 'f64'
        ty = self.prim_ty(tn)

        def fn(s, rest, v):
            r = self.parse_num(s, ty, self.deep(s, v))
            return [(s2, 'ok', rest, x) if x is not None else self.nerr(s2, inp) for s2, x in r]
        return self.on_ok(outs, fn)

    def prim_ty(self, n):
        for i, t in enumerate(self.T):
            if t and t['k'] == 'prim' and t['s'] == n:
                return i
        raise Undecided('type ' + n)

    def np_int(self, st, name, inp, mode):
        def P(n, *a):
            return ('P', n, tuple(a), 'C')
        ps = (P('opt', P('one_of', sref('+-'))), P('digit1')) if name[0] == 'i' else (P('digit1'),)
        outs = self.run_parser(st, P('recognize', ('T', ps)), inp, mode)
        ty = self.prim_ty(name)

        def fn(s, rest, v):
            r = self.parse_num(s, ty, self.deep(s, v))
            return [(s2, 'ok', rest, x) if x is not None else self.nerr(s2, inp) for s2, x in r]
        return self.on_ok(outs, fn)

    def one_char(self, st, inp, mode, C, asstr=False):
        out = []
        for r in self.leaf_class(st, inp, mode, C, 1, 1):
            if r[1] == 'ok':
                w = self.deep(r[0], r[3])
                v = r[3] if asstr else ('chr', w[1], w[3], self.char_ty())
                x = self.seg_of(r[0], w[1], w[3])
                c = CS.single(x[1])
                if not asstr and c is not None:
                    v = ('c', c)
                out.append((r[0], 'ok', r[2], v))
            else:
                out.append(r)
        return out

    def np_char(self, st, a, inp, mode):
        if a[0][0] != 'c':
            raise Undecided('char()')
        return self.one_char(st, inp, mode, ((a[0][1], a[0][1]),))

    def list_set(self, st, v):
        cs = self.pred_set(st, v)
        if cs is None:
            raise Undecided('character set')
        return cs

    def np_one_of(self, st, a, inp, mode):
        return self.one_char(st, inp, mode, self.list_set(st, a[0]))

    def np_none_of(self, st, a, inp, mode):
        return self.one_char(st, inp, mode, CS.compl(self.list_set(st, a[0])))

    def np_satisfy(self, st, a, inp, mode):
        return self.one_char(st, inp, mode, self.list_set(st, a[0]))

    def np_is_not(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, CS.compl(self.list_set(st, a[0])), 1)

    def np_is_a(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, self.list_set(st, a[0]), 1)

    def np_take_while(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, self.list_set(st, a[0]), 0)

    def np_take_while1(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, self.list_set(st, a[0]), 1)

    def np_take_till(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, CS.compl(self.list_set(st, a[0])), 0)

    def np_take_till1(self, st, a, inp, mode):
        return self.leaf_class(st, inp, mode, CS.compl(self.list_set(st, a[0])), 1)

    def np_take_while_m_n(self, st, a, inp, mode):
        if a[0][0] != 'i' or a[1][0] != 'i' or a[1][1] > 40:
            raise Undecided('take_while_m_n')
        return self.leaf_class(st, inp, mode, self.list_set(st, a[2]), a[0][1], a[1][1])

    def np_take(self, st, a, inp, mode):
        st, k, Sn, pos, rb = self.norm_input(st, inp)
        n = self.deep(st, a[0])
        if n[0] != 'i' or n[1] > 64:
            raise Undecided('take(n)')
        n = n[1]
        if k == 'str':
            out = []
            for s, e in self.take_n(st, Sn, pos, n):
                if e is None:
                    out.append(self.nincomplete(s) if mode == 'S' else self.nerr(s, inp, 'Eof'))
                else:
                    out.append((s, 'ok', kref(('str', Sn, e)), kref(('span', Sn, pos, e))))
            return out
        out = []
        for s, b in self.truth(st, self.cmp(st, 'Le', I(n), self.seq_len(st, self.seqv((Sn, pos))))):
            if b:
                v = self.find_seq(inp)
                vals = ('L', Sn[1][pos:pos + n] if isinstance(Sn, tuple) else
                        tuple(('tok', Sn, pos + q, self.token_ty()) for q in range(n)))
                out.append((s, 'ok', rb((Sn, pos + n)), v[1](vals) if v else kref(vals)))
            else:
                out.append(self.nincomplete(s) if mode == 'S' else self.nerr(s, inp, 'Eof'))
        return out

    def np_tag(self, st, a, inp, mode):
        return self.tag_common(st, a, inp, mode, False)

    def np_tag_no_case(self, st, a, inp, mode):
        return self.tag_common(st, a, inp, mode, True)

    def tag_common(self, st, a, inp, mode, nocase):
        st, Sn, A = self.str_input(st, inp)
        lit = self.deep(st, a[0])
        if lit[0] != 's':
            raise Undecided('tag of non literal')
        lit = lit[1]
        cand = None
        if nocase:
            def cand(ch):
                # nom compares ch.to_lowercase() sequences of whole characters
                lo = ch.lower()
                c = {ch, ch.lower(), ch.upper()} | set('\u212a\u212b\u2126\u0130\u017f')
                return CS.of(''.join(x for x in c if len(x) == 1 and x.lower() == lo))
        out = []
        for s, e, eof in self.match_prefix(st, Sn, A, lit, None, cand):
            if e is None:
                if eof and mode == 'S':
                    out.append(self.nincomplete(s))
                else:
                    out.append(self.nerr(s, inp, 'Tag'))
                continue
            if nocase:
                # the match is cut after lit.len() *bytes*
                i, j = self.seg_index(s, Sn, A), self.seg_index(s, Sn, e)
                want = [x for x in self.segs(s, Sn)[i:j] if x[3] != 0]
                wide = [x for x in want if any(c > 0x7f for c in (x[1][-1][1],))]
                if wide and lit.isascii():
                    self.panic_here(s, 'tag_no_case("%s") splits a multi-byte character' % lit)
                    # continue with the ASCII spellings only
                    okk = True
                    for x in wide:
                        asc = CS.inter(x[1], CS.rng(0, 0x7f))
                        if not asc:
                            okk = False
                            break
                        s = self.refine_char(s, ('chr', Sn, x[0], self.char_ty()), asc)
                    if not okk:
                        continue
            out.append((s, 'ok', kref(('str', Sn, e)), kref(('span', Sn, A, e))))
        return out

    def np_take_until(self, st, a, inp, mode):
        lit = self.deep(st, a[0])
        if lit[0] == 's' and len(lit[1]) == 1:
            out = []
            for r in self.leaf_class(st, inp, mode, CS.compl(CS.of(lit[1])), 0):
                if r[1] != 'ok':
                    out.append(r)
                    continue
                w = self.deep(r[0], r[2])
                for s, g in self.split_first(r[0], w[1], w[2]):
                    if g is None:
                        out.append(self.nincomplete(s) if mode == 'S' else self.nerr(s, inp))
                    else:
                        out.append((s, 'ok', r[2], r[3]))
            return out
        raise Undecided('take_until')

    # ------------------------------------------------------------ repetition
    def np_many0(self, st, a, inp, mode):
        return self.repeat(st, a[0], inp, mode, 0, None)

    def np_many1(self, st, a, inp, mode):
        return self.repeat(st, a[0], inp, mode, 1, None)

    def range_bounds(self, r):
        if r[0] == 'i':
            return r[1], r[1]
        if r[0] == 'A':
            n = r[1].split('::')[-1]
            v = [x[1] if x[0] == 'i' else None for x in r[3]]
            if n == 'RangeFull':
                return 0, None
            if n == 'RangeFrom' and v[0] is not None:
                return v[0], None
            if n == 'Range' and None not in v[:2]:
                return v[0], v[1] - 1
            if n == 'RangeInclusive' and None not in v[:2]:
                return v[0], v[1]
            if n == 'RangeTo' and v[0] is not None:
                return 0, v[0] - 1
            if n == 'RangeToInclusive' and v[0] is not None:
                return 0, v[0]
        raise Undecided('repetition range')

    def np_many(self, st, a, inp, mode):
        lo, hi = self.range_bounds(a[0])
        return self.repeat(st, a[1], inp, mode, lo, hi)

    def np_many_m_n(self, st, a, inp, mode):
        if a[0][0] != 'i' or a[1][0] != 'i':
            raise Undecided('many_m_n')
        return self.repeat(st, a[2], inp, mode, a[0][1], a[1][1])

    def np_count(self, st, a, inp, mode):
        n = self.deep(st, a[1])
        if n[0] != 'i' or n[1] > 16:
            raise Undecided('count')
        return self.seq_parsers(st, [a[0]] * n[1], inp, mode, lambda v: ('L', tuple(v)))

    def np_many0_count(self, st, a, inp, mode):
        return self.on_ok(self.repeat(st, a[0], inp, mode, 0, None),
                          lambda s, rest, v: [(s, 'ok', rest, self.seq_len(s, v))])

    def np_many1_count(self, st, a, inp, mode):
        return self.on_ok(self.repeat(st, a[0], inp, mode, 1, None),
                          lambda s, rest, v: [(s, 'ok', rest, self.seq_len(s, v))])

    def fold_result(self, outs, init, fold):
        def fn(s, rest, seq):
            s = s.copy()
            cc = self.new_cell(s, fold)
            out = []
            for s2, acc0 in self.call_value(s, init, []):
                def body(s3, acc, x):
                    return [(s4, 'back', v) for s4, v in self.call_value(s3, ('ref', cc, ()), [acc, x])]
                it = ('iter', 'val', seq, 0, None)
                for s3, w, v in self.consume(s2, it, acc0, body, self.cur_fn() + '::fold_many'):
                    s3 = s3.copy()
                    s3.cells.pop(cc, None)
                    out.append((s3, 'ok', rest, v))
            return out
        return self.on_ok(outs, fn)

    def np_fold_many0(self, st, a, inp, mode):
        return self.fold_result(self.repeat(st, a[0], inp, mode, 0, None), a[1], a[2])

    def np_fold_many1(self, st, a, inp, mode):
        return self.fold_result(self.repeat(st, a[0], inp, mode, 1, None), a[1], a[2])

    def np_fold_many_m_n(self, st, a, inp, mode):
        return self.fold_result(self.repeat(st, a[2], inp, mode, a[0][1], a[1][1]), a[3], a[4])

    def np_fold(self, st, a, inp, mode):
        lo, hi = self.range_bounds(a[0])
        return self.fold_result(self.repeat(st, a[1], inp, mode, lo, hi), a[2], a[3])

    def np_separated_list1(self, st, a, inp, mode):
        def fn(s, rest, v):
            nxt = self.repeat(s, ('P', 'preceded', (a[0], a[1]), None), rest, mode, 0, None)
            return self.on_ok(nxt, lambda s2, r2, seq: [(s2, 'ok', r2, self.seq_cat(('L', (v,)), seq))])
        return self.on_ok(self.run_parser(st, a[1], inp, mode), fn)

    def np_separated_list0(self, st, a, inp, mode):
        out = []
        for r in self.np_separated_list1(st, a, inp, mode):
            if r[1] == 'err' and self.evar(r) == 1:
                out.append((r[0], 'ok', inp, ('L', ())))
            else:
                out.append(r)
        return out

    def np_many_till(self, st, a, inp, mode):
        # f* g : f repeated while g fails
        body = ('P', 'preceded', (('P', 'not', (a[1],), None), a[0]), None)
        outs = self.repeat(st, body, inp, mode, 0, None)
        return self.on_ok(outs, lambda s, rest, seq: self.on_ok(
            self.run_parser(s, a[1], rest, mode), lambda s2, r2, v: [(s2, 'ok', r2, ('T', (seq, v)))]))

    def progressed(self, st, k, a, b):
        """does position b differ from a (same stream), given as normalised inputs"""
        if k == 'str':
            if a[0] != b[0]:
                return True
            return not self.same_pos(st, a[0], a[1], b[1])
        return a != b

    def repeat(self, st, p, inp, mode, lo, hi):
        st, k, Sn, pos, rb = self.norm_input(st, inp)
        inp = rb(pos) if k == 'str' else rb((Sn, pos))
        if hi is not None:
            if hi > 16:
                raise Undecided('bounded repetition')
            r = self.repeat_concrete(st, p, inp, mode, lo, hi, hi)
            if r is None:
                raise Undecided('bounded repetition')
            return r
        if k == 'str':
            segs = self.rest_segs(st, Sn, pos)
            openall = len(segs) == 1 and segs[0][1] == CS.ALL and segs[0][3] is None
            if not openall or self.scenario or self.rep_depth:
                r = self.repeat_concrete(st, p, inp, mode, lo, None, 4000 if self.scenario else self.limit_concrete)
                if r is not None:
                    return r
                if self.scenario:
                    raise Undecided('repetition not resolved by the input shape')
        elif isinstance(Sn, tuple):
            r = self.repeat_concrete(st, p, inp, mode, lo, None, 5000)
            if r is None:
                raise Undecided('repetition over tokens')
            return r
        return self.repeat_generic(st, p, inp, mode, lo, k, Sn, pos, rb)

    def repeat_concrete(self, st, p, inp, mode, lo, hi, limit):
        cur = [(st, inp, ())]
        out = []
        n = 0
        while cur:
            if n > limit or len(cur) > (4000 if self.scenario else 64):
                return None
            nxt = []
            for s, i, vs in cur:
                if hi is not None and n == hi:
                    out.append((s, 'ok', i, ('L', vs)))
                    continue
                for r in self.run_parser(s, p, i, mode):
                    if r[1] == 'ok':
                        s2, k, S1, p1, _ = self.norm_input(r[0], i)
                        s2, k, S2, p2, _ = self.norm_input(s2, r[2])
                        if not self.progressed(s2, k, (S1, p1), (S2, p2)):
                            if not (n == 0 and lo >= 1):
                                out.append(self.nerr(s2, i, 'Many'))
                                continue
                        nxt.append((s2, r[2], vs + (r[3],)))
                    elif self.evar(r) == 1:
                        if n < lo:
                            out.append(r)
                        else:
                            out.append((r[0], 'ok', i, ('L', vs)))
                    else:
                        out.append(r)
            cur = nxt
            n += 1
        return out

    def elem_summary(self, st, p, mode, k, rb, Sn0):
        """one generic repetition step on a fresh stream"""
        base = st.copy()
        if k == 'str':
            base, Sn = self.new_stream(base, [(CS.ALL, 0, None)])
            i0 = kref(('str', Sn, 'B'))
        else:
            Sn = self.fresh('$t')
            base.facts[('slen', Sn)] = (0, None)
            i0 = rb((Sn, 0))
        self.rep_depth += 1
        try:
            outs = self.run_parser(base.copy(), p, i0, mode)
        finally:
            self.rep_depth -= 1
        elems, errs, others, nullable = [], [], [], []
        for r in outs:
            s = r[0]
            for c, v in base.cells.items():
                if s.cells.get(c) != v:
                    raise Undecided('parser with side effects')
            delta = {kk: v for kk, v in s.facts.items() if base.facts.get(kk) != v or kk in (('segs', Sn), ('slen', Sn))}
            if r[1] == 'ok':
                s2, k2, S2, p2, _ = self.norm_input(s, r[2])
                if not self.progressed(s2, k, (Sn, 'B' if k == 'str' else 0), (S2, p2)):
                    nullable.append({'facts': delta})
                    continue
                elems.append({'facts': delta, 'value': r[3], 'rest': (S2, p2), 'new': frozenset(s.cells) - frozenset(base.cells),
                              'state': s})
            elif self.evar(r) == 1:
                errs.append({'facts': delta, 'state': s})
            else:
                others.append({'facts': delta, 'err': r[2], 'state': s})
        return Sn, elems, errs, others, nullable

    def repeat_generic(self, st, p, inp, mode, lo, k, Sn, pos, rb):
        if self.scenario:
            raise Undecided('repetition not resolved by the input shape')
        key = (p, mode, k)
        cached = self.repcache.get(key) if not self.scenario else None
        if cached is None:
            cached = self.elem_summary(st, p, mode, k, rb, Sn)
            self.repcache[key] = cached
        S1, elems, errs, others, nullable = cached
        rid = self.fresh('R')
        self.REP[rid] = {'id': rid, 'elems': elems, 'errs': errs, 'others': others, 'min': lo, 'stream': S1, 'kind': k,
                         'P': p, 'mode': mode, 'nullable': len(nullable), 'fn': self.cur_fn(), 'span': self.F[self.stack[-1]]['span'] if self.stack else '',
                         'src': (Sn, pos), 'depth': len(self.stack)}
        if nullable:
            self.nullable_reps.append((self.cur_fn(), rid))
        out = []
        starts = [st]
        if k == 'tok':
            first = ('tok', Sn, pos, self.token_ty())
            if lo >= 1:
                oks, starts = [], []
                for r in self.run_parser(st, p, inp, mode):
                    if r[1] == 'ok':
                        oks.append(r[0])
                    else:
                        out.append(r)
                if oks:
                    starts = [self.merge_on_first(st, oks, first, Sn, pos)]
            else:
                oks, zero = [], []
                for r in self.run_parser(st, p, inp, mode):
                    if r[1] == 'ok':
                        oks.append(r[0])
                    elif self.evar(r) == 1:
                        zero.append(r[0])
                    else:
                        out.append(r)
                starts = [self.merge_on_first(st, oks, first, Sn, pos)] if oks else []
                if zero:
                    out.append((self.merge_on_first(st, zero, first, Sn, pos), 'ok', inp, ('L', ())))
                if oks:
                    R2 = self.fresh('R')
                    self.REP[R2] = dict(self.REP[rid], id=R2, min=1)
                    rid = R2
        else:
            for r in ([] if lo == 0 else self.run_parser(st, p, inp, mode)):
                if r[1] != 'ok':
                    out.append(r)
        # where it stops
        for s in starts:
            if nullable:
                out.append(self.nerr(s, inp, 'Many'))
            for o in others:
                out.append((s, 'err', o['err']))
            out += self.stop_states(s, k, S1, errs, rb, rid, Sn, pos)
        return out

    def merge_on_first(self, st, states, first, Sn, pos):
        sets = frozenset()
        full = self.disc_set(st, first, first[-1])
        for s in states:
            sets |= self.disc_set(s, first, first[-1])
        r = st
        if sets and sets != full:
            r = r.fact(('disc', first), sets)
        los = [s.facts.get(('slen', Sn), (0, None)) for s in states]
        lo = min(x[0] for x in los)
        his = [x[1] for x in los]
        hi = None if None in his else max(his)
        r = r.fact(('slen', Sn), (lo, hi))
        return r

    def stop_states(self, st, k, S1, errs, rb, rid, Sn, pos):
        out = []
        if k == 'str':
            eof, first = False, ()
            for e in errs:
                for s2, g in self.split_first(e['state'], S1, 'B'):
                    if g is None:
                        eof = True
                    else:
                        first = CS.union(first, self.seg_of(s2, S1, g)[1])
            if eof:
                s, S2 = self.new_stream(st, [])
                out.append((s, 'ok', kref(('str', S2, 'B')), ('rep', rid)))
            if first:
                s, S2 = self.new_stream(st, [(first, 1, 1), (CS.ALL, 0, None)])
                out.append((s, 'ok', kref(('str', S2, 'B')), ('rep', rid)))
            return out
        S2 = self.fresh('$t')
        t0 = ('tok', S1, 0, self.token_ty())
        sets = frozenset()
        for e in errs:
            s = e['state']
            sl = s.facts.get(('slen', S1), (0, None))
            if sl[1] == 0:
                continue
            sets |= self.disc_set(s, t0, t0[-1])
        s = st.fact(('slen', S2), (0, None) if sets else (0, 0))
        if sets:
            s = s.fact(('disc', ('tok', S2, 0, t0[-1])), sets)
        if not hasattr(self, 'restof'):
            self.restof = {}
        self.restof[S2] = (rid, Sn, pos)
        out.append((s, 'ok', rb((S2, 0)), ('rep', rid)))
        return out
