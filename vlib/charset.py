"""Sets of Unicode scalar values as sorted tuples of inclusive ranges."""
MAXCP = 0x10FFFF


def norm(rs):
    rs = sorted((a, b) for a, b in rs if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def of(s):
    return norm([(ord(c), ord(c)) for c in s])


def rng(a, b):
    return norm([(a, b)])


ALL = ((0, MAXCP),)
EMPTY = ()


def union(x, y):
    return norm(list(x) + list(y))


def compl(x):
    out = []
    p = 0
    for a, b in x:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def inter(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi))
    return norm(out)


def diff(x, y):
    return inter(x, compl(y))


def subset(x, y):
    return not diff(x, y)


def single(x):
    """The only member, or None."""
    if len(x) == 1 and x[0][0] == x[0][1]:
        return x[0][0]
    return None


def size(x):
    return sum(b - a + 1 for a, b in x)


def members(x, limit=64):
    out = []
    for a, b in x:
        for c in range(a, b + 1):
            out.append(c)
            if len(out) >= limit:
                return out
    return out


def show(x):
    def c(v):
        ch = chr(v)
        return repr(ch)[1:-1] if 0x20 <= v < 0x7F else 'U+%04X' % v
    if x == ALL:
        return '<any>'
    if size(compl(x)) < size(x) and size(compl(x)) < 64:
        return '<any but %s>' % show(compl(x))
    return '[' + ','.join(c(a) if a == b else c(a) + '-' + c(b) for a, b in x) + ']'


DIGIT = rng(48, 57)
ALPHA = union(rng(65, 90), rng(97, 122))
ASCII = rng(0, 127)
NOMWS = of(' \t\r\n')
NOMSPACE = of(' \t')


def _cls(pred):
    out = []
    start = None
    for cp in range(0, MAXCP + 1):
        if 0xD800 <= cp <= 0xDFFF:
            ok = False
        else:
            ok = pred(chr(cp))
        if ok and start is None:
            start = cp
        if not ok and start is not None:
            out.append((start, cp - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return tuple(out)


# Unicode White_Space
UWS = norm([(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
            (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])
ASCIIWS = of(' \t\n\r\x0c')
CONTROL = norm([(0, 0x1F), (0x7F, 0x9F)])
_cache = {}


def cls(name):
    """charset of a char predicate method"""
    if name in _cache:
        return _cache[name]
    fixed = {
        'is_ascii_digit': DIGIT, 'is_whitespace': UWS, 'is_ascii_whitespace': ASCIIWS, 'is_ascii_alphabetic': ALPHA,
        'is_ascii_alphanumeric': union(ALPHA, DIGIT), 'is_ascii': ASCII, 'is_control': CONTROL,
        'is_ascii_control': norm([(0, 0x1F), (0x7F, 0x7F)]), 'is_ascii_uppercase': rng(65, 90),
        'is_ascii_lowercase': rng(97, 122), 'is_ascii_graphic': rng(0x21, 0x7E),
        'is_ascii_punctuation': norm([(0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)]),
        'is_ascii_hexdigit': norm([(48, 57), (65, 70), (97, 102)]),
    }
    if name in fixed:
        v = fixed[name]
    elif name == 'is_alphabetic':
        v = _cls(str.isalpha)
    elif name == 'is_numeric':
        v = _cls(str.isnumeric)
    elif name == 'is_alphanumeric':
        v = _cls(lambda c: c.isalpha() or c.isnumeric())
    elif name == 'is_uppercase':
        v = _cls(str.isupper)
    elif name == 'is_lowercase':
        v = _cls(str.islower)
    else:
        v = None
    _cache[name] = v
    return v


def lower_cp(cp):
    return chr(cp).lower()


def lower_set(x):
    """image under char::to_lowercase as set of chars, or None if multi-char / too big"""
    if size(x) > 200:
        return None
    out = []
    for c in members(x, 300):
        s = lower_cp(c)
        if len(s) != 1:
            return None
        out.append((ord(s), ord(s)))
    return norm(out)


def upper_set(x):
    if size(x) > 200:
        return None
    out = []
    for c in members(x, 300):
        s = chr(c).upper()
        if len(s) != 1:
            return None
        out.append((ord(s), ord(s)))
    return norm(out)


def ascii_lower_set(x):
    out = list(inter(x, compl(rng(65, 90))))
    for a, b in inter(x, rng(65, 90)):
        out.append((a + 32, b + 32))
    return norm(out)


def ascii_upper_set(x):
    out = list(inter(x, compl(rng(97, 122))))
    for a, b in inter(x, rng(97, 122)):
        out.append((a - 32, b - 32))
    return norm(out)


def nocase_match(ch):
    """chars nom's tag_no_case accepts for the (ASCII) tag char `ch`:
    those whose full Unicode lowercase equals that of ch."""
    low = ch.lower()
    s = {ch, ch.lower(), ch.upper()} if len(ch.upper()) == 1 else {ch, ch.lower()}
    out = set(c for c in s if c.lower() == low)
    if low == 'k':
        out.add('\u212a')
    if low == '\u00e5':
        out.add('\u212b')
    if low == '\u03c9':
        out.add('\u2126')
    return of(''.join(out))
