"""Strings of known and unknown characters.  An unknown character is ('in', 'χ…'), a number whose
interval is narrowed by the tests the code performs; a string containing some is
('str+', ('s', text) | ('chr', character) …), as the models of `String` build it.  This module has the
semantics of nom's string parsers and of the methods of `str`, `char` and `String` on such strings."""
from .engine import *  # noqa
from .engine import RES, OPT, some, NONE, ok, err, tup, boolv, UNIT, is_sym, Unsupported, in_range
from . import models
from .models import m, MODELS, catstr
from . import nomodel
from .nomodel import res_ok, mkerr, callf

MAXCHAR = 0x10ffff
UTF8 = {'u8': 255, 'i8': 127, 'u16': 65535, 'i16': 32767, 'u32': 2 ** 32 - 1, 'i32': 2 ** 31 - 1, 'u64': 2 ** 64 - 1, 'i64': 2 ** 63 - 1, 'usize': 2 ** 64 - 1,
        'isize': 2 ** 63 - 1, 'u128': 2 ** 128 - 1, 'i128': 2 ** 127 - 1}


def sym(name):
    return ('in', 'χ' + name)


def ischar(t):
    """A number made from unknown characters."""
    if t[0] == 'in':
        return isinstance(t[1], str) and t[1].startswith('χ')
    if t[0] == 'op':
        return all(x[0] == 'i' or ischar(x) for x in t[2:4]) and any(x[0] != 'i' for x in t[2:4])
    return False


def start(st, chars):
    """Adds the range of the unknown characters to a state."""
    for c in chars:
        if c[0] == 'in' and ('N', c) not in st.facts:
            st.facts[('N', c)] = (0, MAXCHAR, frozenset())


def make(chars):
    v = ('s', '')
    for c in chars:
        v = catstr(v, ('s', chr(c[1])) if c[0] == 'i' else c if c[0] in ('u8c', 'u16c') else ('chr', c))
    return v


def chars(v):
    """[characters] of a string, or None"""
    if v[0] == 's':
        return [('i', ord(c)) for c in v[1]]
    if v[0] == 'chr':
        return [v[1]]
    if v[0] == 'str+':
        out = []
        for x in v[1:]:
            if x[0] == 's':
                out += [('i', ord(c)) for c in x[1]]
            elif x[0] == 'chr' and (x[1][0] == 'i' or ischar(x[1])):
                out.append(x[1])
            elif x[0] == 'i':
                out.append(x)
            else:
                return None
        return out
    return None


def text(E, st, v):
    v = E.rd(st, v)
    n = 0
    while v[0] == 'R' and n < 4:
        v = E.rd(st, v)
        n += 1
    if v[0] == 'b':
        return None
    return chars(v)


def prefix(E, st, a, b):
    x, y = text(E, st, a), text(E, st, b)
    if x is None or y is None or x[len(x) - len(y):] != y:
        return None
    return make(x[:len(x) - len(y)])


# ------------------------------------------------------------------ tests of characters

def fork(E, st, op, a, b):
    v = E.mkcmp(st, op, a, ('i', b))
    return E.fork_bool(st, v)


def inranges(E, st, ch, ranges):
    """[(state, whether the character is in one of the ranges)]"""
    if ch[0] == 'i':
        return [(st, any(a <= ch[1] <= b for a, b in ranges))]
    out = []
    rest = [st]
    if ch[0] == 'in':
        # a `char` is no surrogate
        ranges = [(a, b) for a, b in ranges if not (a >= 0xd800 and b <= 0xdfff)]
    for a, b in sorted(ranges):
        nxt = []
        for s in rest:
            if a == b:
                for s2, y in fork(E, s, 'Eq', ch, a):
                    if y:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
                continue
            for s2, y in fork(E, s, 'Lt', ch, a):
                if y:
                    nxt.append(s2)
                    continue
                for s3, z in fork(E, s2, 'Le', ch, b):
                    if z:
                        out.append((s3, True))
                    else:
                        nxt.append(s3)
        rest = nxt
    return out + [(s, False) for s in rest]


DIGIT = [(48, 57)]
HEX = [(48, 57), (65, 70), (97, 102)]
OCT = [(48, 55)]
BIN = [(48, 49)]
ALPHA = [(65, 90), (97, 122)]
ALNUM = DIGIT + ALPHA
SPACE = [(32, 32), (9, 9)]
MSPACE = [(32, 32), (9, 10), (13, 13)]
START = ALPHA
CONT = DIGIT + ALPHA + [(95, 95)]


def xid(E, st, ch, name):
    """unicode_ident: decided for ASCII, an unknown property of the character otherwise"""
    if ch[0] == 'i':
        if ch[1] < 128:
            return [(st, any(a <= ch[1] <= b for a, b in (START if name == 'is_xid_start' else CONT)))]
        x = chr(ch[1])
        return [(st, x.isidentifier() if name == 'is_xid_start' else ('a' + x).isidentifier())]
    out = []
    for s, asc in fork(E, st, 'Le', ch, 127):
        if asc:
            out += inranges(E, s, ch, START if name == 'is_xid_start' else CONT)
            continue
        known = s.facts.get(('B', (name, ch)))
        if known is None and name == 'is_xid_continue' and s.facts.get(('B', ('is_xid_start', ch))) is True:
            out.append((s, True))
            continue
        if known is None and name == 'is_xid_start' and s.facts.get(('B', ('is_xid_continue', ch))) is False:
            out.append((s, False))
            continue
        out += E.fork_bool(s, (name, ch))
    return out


def nocase(c):
    """code points tag_no_case accepts for an ASCII or other character"""
    x = chr(c)
    return {ord(y) for y in (x.lower(), x.upper()) if len(y) == 1} | {c}


def charset(E, st, v):
    """the characters a set of them (a string or an array) names"""
    v = E.rd(st, v)
    if v[0] == 's':
        return [(ord(c), ord(c)) for c in v[1]]
    if v[0] == 'L' and all(x[0] == 'i' for x in v[1]):
        return [(x[1], x[1]) for x in v[1]]
    if v[0] == 'b':
        return [(x, x) for x in v[1]]
    if v[0] == 'i':
        return [(v[1], v[1])]
    return None


def run1(E, st, inp, ranges, lo, kind, cap=None, neg=False):
    """As many characters of a class as possible."""
    cs = text(E, st, inp)
    if cs is None:
        return None
    out, cur = [], [st]
    for i in range(len(cs) + 1):
        nxt = []
        for s in cur:
            if i == len(cs):
                got = [(s, False)]
            else:
                got = [(s2, y != neg) for s2, y in inranges(E, s, cs[i], ranges)]
            for s2, y in got:
                if y:
                    nxt.append(s2)
                elif i < lo:
                    out.append((s2, mkerr(E, inp, kind)))
                else:
                    out.append((s2, res_ok(make(cs[i:]), make(cs[:i]))))
        cur = nxt
    return out


RUNS = {'digit': (DIGIT, 'Digit'), 'hex_digit': (HEX, 'HexDigit'), 'oct_digit': (OCT, 'OctDigit'), 'alpha': (ALPHA, 'Alpha'), 'alphanumeric': (ALNUM, 'AlphaNumeric'),
        'space': (SPACE, 'Space'), 'multispace': (MSPACE, 'MultiSpace')}


def runmodel(ranges, lo, kind):
    def h(E, st, args, ci):
        return run1(E, st, args[0], ranges, lo, kind)
    return h


for _n, (_r, _k) in RUNS.items():
    for _i in (0, 1):
        MODELS['nom::character::complete::%s%d' % (_n, _i)] = runmodel(_r, _i, _k)

for _n, _k in {'nom::bytes::complete::tag': 'tag', 'nom::bytes::complete::tag_no_case': 'tagnc', 'nom::bytes::complete::is_a': 'is_a', 'nom::bytes::complete::is_not': 'is_not',
               'nom::bytes::complete::take_until': 'until', 'nom::bytes::complete::take_until1': 'until1', 'nom::bytes::complete::take': 'take', 'nom::character::complete::char': 'char', 'nom::character::complete::one_of': 'one_of',
               'nom::character::complete::none_of': 'none_of', 'nom::character::complete::satisfy': 'satisfy', 'nom::bytes::complete::take_while': 'while', 'nom::bytes::complete::take_while1': 'while1',
               'nom::bytes::complete::take_till': 'tillc', 'nom::bytes::complete::take_till1': 'tillc1'}.items():
    MODELS[_n] = nomodel.builder(_k)


@m('nom::character::complete::anychar')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if cs is None:
        return None
    if not cs:
        return [(st, mkerr(E, args[0], 'Eof'))]
    return [(st, res_ok(make(cs[1:]), cs[0]))]


def one(E, st, p, inp, ranges, neg, kind):
    cs = text(E, st, inp)
    if cs is None or ranges is None:
        return None
    if not cs:
        return [(st, mkerr(E, inp, kind))]
    return [(s, res_ok(make(cs[1:]), cs[0]) if y != neg else mkerr(E, inp, kind)) for s, y in inranges(E, st, cs[0], ranges)]


def apply(E, st, p, inp, ci):
    k, a = p[1], p[2:]
    cs = text(E, st, inp)
    if cs is None:
        return None
    if k in ('tag', 'tagnc'):
        want = text(E, st, a[0])
        if want is None or any(c[0] != 'i' for c in want):
            return None
        cur, out = [st], []
        for i, c in enumerate(want):
            nxt = []
            for s in cur:
                if i >= len(cs):
                    out.append((s, mkerr(E, inp, 'Tag')))
                    continue
                for s2, y in inranges(E, s, cs[i], [(x, x) for x in (nocase(c[1]) if k == 'tagnc' else {c[1]})]):
                    if y:
                        nxt.append(s2)
                    else:
                        out.append((s2, mkerr(E, inp, 'Tag')))
            cur = nxt
        return out + [(s, res_ok(make(cs[len(want):]), make(cs[:len(want)]))) for s in cur]
    if k == 'char':
        c = E.rd(st, a[0])
        return one(E, st, p, inp, [(c[1], c[1])], False, 'Char') if c[0] == 'i' else None
    if k in ('one_of', 'none_of'):
        return one(E, st, p, inp, charset(E, st, a[0]), k == 'none_of', 'OneOf' if k == 'one_of' else 'NoneOf')
    if k in ('is_a', 'is_not'):
        r = charset(E, st, a[0])
        return None if r is None else run1(E, st, inp, r, 1, 'IsA' if k == 'is_a' else 'IsNot', neg=k == 'is_not')
    if k == 'satisfy':
        if not cs:
            return [(st, mkerr(E, inp, 'Satisfy'))]
        out = []
        for s, r in callf(E, st, a[0], [cs[0]], ci):
            for s2, y in E.fork_bool(s, r):
                out.append((s2, res_ok(make(cs[1:]), cs[0]) if y else mkerr(E, inp, 'Satisfy')))
        return out
    if k in ('while', 'while1', 'tillc', 'tillc1'):
        cur, out = [st], []
        for i in range(len(cs) + 1):
            nxt = []
            for s in cur:
                got = [(s, False)]
                if i < len(cs):
                    got = [(s3, y == k.startswith('while')) for s2, r in callf(E, s, a[0], [cs[i]], ci) for s3, y in E.fork_bool(s2, r)]
                for s2, y in got:
                    if y:
                        nxt.append(s2)
                    elif i == 0 and k.endswith('1'):
                        out.append((s2, mkerr(E, inp, 'TakeWhile1')))
                    else:
                        out.append((s2, res_ok(make(cs[i:]), make(cs[:i]))))
            cur = nxt
        return out
    if k in ('until', 'until1'):
        want = text(E, st, a[0])
        if want is None or any(c[0] != 'i' for c in want):
            return None
        out = []
        for s, i in find(E, st, cs, [c[1] for c in want]):
            if i is None or i == 0 and k == 'until1':
                out.append((s, mkerr(E, inp, 'TakeUntil')))
            else:
                out.append((s, res_ok(make(cs[i:]), make(cs[:i]))))
        return out
    if k == 'take':
        n = E.rd(st, a[0])
        if n[0] != 'i':
            return None
        return [(st, res_ok(make(cs[n[1]:]), make(cs[:n[1]])) if len(cs) >= n[1] else mkerr(E, inp, 'Eof'))]
    return None


def matches(E, st, cs, i, want):
    """[(state, whether the text occurs at position i)]"""
    cur, out = [st], []
    for j, c in enumerate(want):
        nxt = []
        for s in cur:
            if i + j >= len(cs):
                out.append((s, False))
                continue
            for s2, y in inranges(E, s, cs[i + j], [(c, c)]):
                if y:
                    nxt.append(s2)
                else:
                    out.append((s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


def find(E, st, cs, want):
    """[(state, first position | None)]"""
    cur, out = [st], []
    for i in range(len(cs) + 1):
        nxt = []
        for s in cur:
            for s2, y in matches(E, s, cs, i, want):
                if y:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, None) for s in cur]


# ------------------------------------------------------------------ std on such strings

def on(*names):
    """Replaces a model where the first argument is a string with unknown characters, or a character."""
    def deco(f):
        for n in names:
            old = MODELS.get(n)

            def h(E, st, args, ci, old=old):
                r = f(E, st, args, ci)
                if r is not None:
                    return r
                return old(E, st, args, ci) if old else None
            MODELS[n] = h
        return f
    return deco


def unknown(cs):
    return cs is not None and any(c[0] != 'i' for c in cs)


@on('core::str::chars', 'nom::traits::InputIter::iter_elements')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if cs is None:
        return None
    return [(st, ('IT', 'seq', tuple(cs), 0, None))]


@on('core::str::is_empty', 'alloc::string::String::is_empty')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if cs is None:
        return None
    return [(st, boolv(not cs))]


@on('core::str::len', 'alloc::string::String::len')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if not unknown(cs):
        return None
    out = [(st, 0)]
    for c in cs:
        nxt = []
        for s, n in out:
            nxt += [(s2, n + w) for s2, w in width(E, s, c)]
        out = nxt
    return [(s, ('i', n)) for s, n in out]


def width(E, st, c):
    """[(state, bytes in UTF-8)]"""
    out, cur = [], [st]
    for w, hi in ((1, 0x7f), (2, 0x7ff), (3, 0xffff), (4, MAXCHAR)):
        nxt = []
        for s in cur:
            if c[0] == 'i':
                got = [(s, c[1] <= hi)]
            else:
                got = fork(E, s, 'Le', c, hi)
            for s2, y in got:
                if y:
                    out.append((s2, w))
                else:
                    nxt.append(s2)
        cur = nxt
    return out


def strpred(name):
    @on('core::str::' + name)
    def _(E, st, args, ci):
        cs = text(E, st, args[0])
        if not unknown(cs):
            return None
        b = E.rd(st, args[1])
        if b[0] == 'i':
            want = [b[1]]
        elif b[0] == 's':
            want = [ord(c) for c in b[1]]
        else:
            # a predicate on characters
            if b[0] not in ('C', 'F', 'R') or name == 'contains' and not cs:
                return None
            out, cur = [], [st]
            idx = {'starts_with': cs[:1], 'ends_with': cs[-1:], 'contains': cs}[name]
            for c in idx:
                nxt = []
                for s in cur:
                    for s2, r in callf(E, s, args[1], [c], ci):
                        for s3, y in E.fork_bool(s2, r):
                            (out.append((s3, boolv(True))) if y else nxt.append(s3))
                cur = nxt
            return out + [(s, boolv(False)) for s in cur]
        if name == 'starts_with':
            return [(s, boolv(y)) for s, y in matches(E, st, cs, 0, want)]
        if name == 'ends_with':
            return [(s, boolv(y)) for s, y in matches(E, st, cs, len(cs) - len(want), want)] if len(cs) >= len(want) else [(st, boolv(False))]
        return [(s, boolv(i is not None)) for s, i in find(E, st, cs, want)]


for _n in ('starts_with', 'ends_with', 'contains'):
    strpred(_n)


def stripmodel(pre):
    @on('core::str::strip_' + ('prefix' if pre else 'suffix'))
    def _(E, st, args, ci):
        cs = text(E, st, args[0])
        b = E.rd(st, args[1])
        if not unknown(cs) or b[0] not in ('i', 's'):
            return None
        return strip(E, st, cs, [b[1]] if b[0] == 'i' else [ord(c) for c in b[1]], pre)


stripmodel(True)
stripmodel(False)


def strip(E, st, cs, want, pre):
    if len(want) > len(cs):
        return [(st, NONE)]
    if pre:
        return [(s, some(make(cs[len(want):])) if y else NONE) for s, y in matches(E, st, cs, 0, want)]
    return [(s, some(make(cs[:len(cs) - len(want)])) if y else NONE) for s, y in matches(E, st, cs, len(cs) - len(want), want)]


def trimmodel(name):
    @on('core::str::' + name)
    def _(E, st, args, ci):
        cs = text(E, st, args[0])
        return None if cs is None else trim(E, st, cs, name)


for _n in ('trim', 'trim_start', 'trim_end'):
    trimmodel(_n)


def charpred(E, st, pat, c, ci):
    """[(state, whether the character matches the pattern)], None for other patterns"""
    b = E.rd(st, pat)
    if b[0] == 'i':
        return inranges(E, st, c, [(b[1], b[1])])
    if b[0] == 'L' and all(x[0] == 'i' for x in b[1]):
        return inranges(E, st, c, [(x[1], x[1]) for x in b[1]])
    if b[0] in ('C', 'F'):
        return [(s3, y) for s2, r in callf(E, st, pat, [c], ci) for s3, y in E.fork_bool(s2, r)]
    return None


def trimmatches(name):
    @on('core::str::' + name)
    def _(E, st, args, ci):
        cs = text(E, st, args[0])
        b = E.rd(st, args[1])
        if cs is None or b[0] == 's':
            return None
        out, work = [], [(st, 0, len(cs), name != 'trim_end_matches')]
        while work:
            s, i, j, front = work.pop()
            if i == j or not front and name == 'trim_start_matches':
                out.append((s, make(cs[i:j])))
                continue
            r = charpred(E, s, args[1], cs[i] if front else cs[j - 1], ci)
            if r is None:
                return None
            for s2, y in r:
                if y:
                    work.append((s2, i + 1, j, True) if front else (s2, i, j - 1, False))
                elif front:
                    work.append((s2, i, j, False))
                else:
                    out.append((s2, make(cs[i:j])))
        return out


for _n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
    trimmatches(_n)


def trim(E, st, cs, name):
    ws = [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
    out = []
    work = [(st, 0, len(cs), name != 'trim_end')]
    while work:
        s, i, j, front = work.pop()
        if i == j or not front and name == 'trim_start':
            out.append((s, make(cs[i:j])))
            continue
        for s2, y in inranges(E, s, cs[i] if front else cs[j - 1], ws):
            if y:
                work.append((s2, i + 1, j, True) if front else (s2, i, j - 1, False))
            elif front:
                work.append((s2, i, j, False))
            else:
                out.append((s2, make(cs[i:j])))
    return out


def offset(E, st, cs):
    """[(state, bytes)]"""
    cur = [(st, 0)]
    for c in cs:
        cur = [(s2, n + w) for s, n in cur for s2, w in width(E, s, c)]
    return cur


def pattern(E, st, v):
    b = E.rd(st, v)
    return [b[1]] if b[0] == 'i' else [ord(c) for c in b[1]] if b[0] == 's' and b[1] else None


@on('core::str::find')
def _(E, st, args, ci):
    cs, want = text(E, st, args[0]), pattern(E, st, args[1])
    if cs is None or want is None:
        return None
    out = []
    for s, i in find(E, st, cs, want):
        out += [(s, NONE)] if i is None else [(s2, some(('i', n))) for s2, n in offset(E, s, cs[:i])]
    return out


@on('core::str::split_once')
def _(E, st, args, ci):
    cs, want = text(E, st, args[0]), pattern(E, st, args[1])
    if cs is None or want is None:
        return None
    return [(s, NONE if i is None else some(tup(make(cs[:i]), make(cs[i + len(want):])))) for s, i in find(E, st, cs, want)]


@on('core::str::split_at')
def _(E, st, args, ci):
    cs, n = text(E, st, args[0]), E.rd(st, args[1])
    if cs is None or n[0] != 'i':
        return None
    out = []
    for i in range(len(cs) + 1):
        for s, k in offset(E, st, cs[:i]):
            if k == n[1]:
                out.append((s, tup(make(cs[:i]), make(cs[i:]))))
    return out or None


@on('core::ops::index::Index::index')
def _(E, st, args, ci):
    idx = args[1]
    t = E.p.tyname(ci.arg_ty(0)).lstrip('&')
    if idx[0] != 'A' or not idx[1].startswith('core::ops::range::') or t not in ('str', 'String'):
        return None
    cs = text(E, st, args[0])
    n = idx[1].split('::')[-1]
    if cs is None or n not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'):
        return None
    lo = idx[3][0] if n in ('Range', 'RangeFrom', 'RangeInclusive') else ('i', 0)
    hi = idx[3][1] if n in ('Range', 'RangeInclusive') else idx[3][0] if n in ('RangeTo', 'RangeToInclusive') else None
    if lo[0] != 'i' or hi is not None and hi[0] != 'i':
        return None
    if hi is not None and 'Inclusive' in n:
        hi = ('i', hi[1] + 1)
    # the byte offset of every character
    cur = [(st, (0,))]
    for ch in cs:
        cur = [(s2, o + (o[-1] + w,)) for s, o in cur for s2, w in width(E, s, ch)]
    out = []
    for s, o in cur:
        a, b = lo[1], o[-1] if hi is None else hi[1]
        if a <= b and a in o and b in o:
            out.append((s, make(cs[o.index(a):o.index(b)])))
        else:
            E.panic(s, ci.fr, ci.b, 'slice', [('i', a), ('i', b), ('i', o[-1])], ci.sp)
    return out


@on('core::str::split')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    b = E.rd(st, args[1])
    if cs is None or b[0] not in ('i', 's') or b == ('s', ''):
        return None
    want = [b[1]] if b[0] == 'i' else [ord(c) for c in b[1]]
    out, work = [], [(st, 0, 0, ())]
    while work:
        s, a, i, got = work.pop()
        if i + len(want) > len(cs):
            out.append((s, ('IT', 'seq', got + (make(cs[a:]),), 0, None)))
            continue
        for s2, y in matches(E, s, cs, i, want):
            if y:
                work.append((s2, i + len(want), i + len(want), got + (make(cs[a:i]),)))
            else:
                work.append((s2, a, i + 1, got))
    return out


def classof(name, ranges, *names):
    @on(*names)
    def _(E, st, args, ci):
        c = E.rd(st, args[0])
        if c[0] == 'as' and c[1] == 'char' and ischar(c[3]):
            # the low byte of a character
            out = []
            for s, y in fork(E, st, 'Le', c[3], 255):
                out += [(s2, boolv(z)) for s2, z in inranges(E, s, c[3], ranges)] if y else [(s2, boolv(z)) for s2, z in E.fork_bool(s, ('lowbyte', name, c[3]))]
            return out
        if c[0] == 'i' or ischar(c):
            return [(s, boolv(y)) for s, y in inranges(E, st, c, ranges)]
        return None


classof('digit', DIGIT, 'nom::character::is_digit', 'char::is_ascii_digit', 'core::num::is_ascii_digit')
classof('hex', HEX, 'nom::character::is_hex_digit', 'char::is_ascii_hexdigit', 'core::num::is_ascii_hexdigit')
classof('oct', OCT, 'nom::character::is_oct_digit')
classof('alpha', ALPHA, 'nom::character::is_alphabetic', 'char::is_ascii_alphabetic', 'core::num::is_ascii_alphabetic')
classof('alnum', ALNUM, 'nom::character::is_alphanumeric', 'char::is_ascii_alphanumeric', 'core::num::is_ascii_alphanumeric')
classof('lower', [(97, 122)], 'char::is_ascii_lowercase', 'core::num::is_ascii_lowercase')
classof('upper', [(65, 90)], 'char::is_ascii_uppercase', 'core::num::is_ascii_uppercase')
classof('ascii', [(0, 127)], 'char::is_ascii', 'core::num::is_ascii')
classof('space', [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)], 'char::is_whitespace')
classof('control', [(0, 31), (127, 159)], 'char::is_control')
classof('punct', [(33, 47), (58, 64), (91, 96), (123, 126)], 'char::is_ascii_punctuation', 'core::num::is_ascii_punctuation')
classof('graphic', [(33, 126)], 'char::is_ascii_graphic', 'core::num::is_ascii_graphic')
classof('aspace', [(9, 10), (12, 13), (32, 32)], 'char::is_ascii_whitespace', 'core::num::is_ascii_whitespace')


def unimodel(name, ranges, py):
    """a Unicode property: known for ASCII"""
    @on('char::' + name)
    def _(E, st, args, ci):
        c = E.rd(st, args[0])
        if c[0] == 'i':
            return [(st, boolv(any(a <= c[1] <= b for a, b in ranges) if c[1] < 128 else py(chr(c[1]))))]
        if not ischar(c):
            return None
        out = []
        for s, asc in fork(E, st, 'Le', c, 127):
            out += [(s2, boolv(y)) for s2, y in (inranges(E, s, c, ranges) if asc else E.fork_bool(s, (name, c)))]
        return out


unimodel('is_alphabetic', ALPHA, str.isalpha)
unimodel('is_alphanumeric', ALNUM, str.isalnum)
unimodel('is_numeric', DIGIT, str.isnumeric)
unimodel('is_uppercase', [(65, 90)], str.isupper)
unimodel('is_lowercase', [(97, 122)], str.islower)


def xidmodel(name):
    @on('unicode_ident::' + name)
    def _(E, st, args, ci):
        c = E.rd(st, args[0])
        if c[0] == 'i' or ischar(c):
            return [(s, boolv(y)) for s, y in xid(E, st, c, name)]


xidmodel('is_xid_start')
xidmodel('is_xid_continue')


@on('nom::traits::AsChar::as_char')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    return [(st, c)] if c[0] == 'i' or ischar(c) else None


def digit(E, st, c, base):
    """[(state, digit value | None)]"""
    rs = [(48, min(57, 47 + base), 48)]
    if base > 10:
        rs += [(65, 54 + base, 55), (97, 86 + base, 87)]
    out, rest = [], [st]
    for a, b, off in rs:
        nxt = []
        for s in rest:
            for s2, y in inranges(E, s, c, [(a, b)]):
                if y:
                    out.append((s2, E.arith('Sub', c, ('i', off), None)))
                else:
                    nxt.append(s2)
        rest = nxt
    return out + [(s, None) for s in rest]


def digitmodel(name, res):
    @on(name)
    def _(E, st, args, ci):
        c, b = E.rd(st, args[0]), E.rd(st, args[1])
        if b[0] != 'i' or not (c[0] == 'i' or ischar(c)):
            return None
        return [(s, res(d)) for s, d in digit(E, st, c, b[1])]


digitmodel('char::to_digit', lambda d: NONE if d is None else some(d))
digitmodel('char::is_digit', lambda d: boolv(d is not None))


SURR = [(0xd800, 0xdfff)]


def scalar(E, st, c):
    """[(state, whether a number is a character)]"""
    return [(s2, y and not z) for s, y in fork2(E, st, c, 0, MAXCHAR) for s2, z in (inrange(E, s, c, 0xd800, 0xdfff) if y else [(s, False)])]


def linear(t):
    """(constant, {symbol: coefficient}) of a sum, or None"""
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'in':
        return 0, {t: 1}
    if t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mul'):
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        if t[1] == 'Mul':
            if a[1] and b[1]:
                return None
            if a[1]:
                a, b = b, a
            return a[0] * b[0], {k: a[0] * v for k, v in b[1].items() if a[0]}
        f = 1 if t[1] == 'Add' else -1
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + f * v
        return a[0] + f * b[0], {k: v for k, v in d.items() if v}
    return None


def norm(t):
    """the same sum in one form"""
    l = linear(t)
    if l is None:
        return t
    r = None
    for x, k in sorted(l[1].items(), key=lambda e: (-e[1], e[0])):
        y = x if k == 1 else ('op', 'Mul', x, ('i', k))
        r = y if r is None else ('op', 'Add', r, y)
    if r is None:
        return ('i', l[0])
    if l[0]:
        r = ('op', 'Add', r, ('i', l[0])) if l[0] > 0 else ('op', 'Sub', r, ('i', -l[0]))
    return r


def shown(E, st, v, ty):
    """the text of a character or of a number of one digit"""
    if ty == 'char':
        return ('chr', v)
    if ty in UTF8 and inrange(E, st, v, 0, 9) == [(st, True)]:
        return ('chr', norm(('op', 'Add', v, ('i', 48))))
    return None


def fork2(E, st, t, lo, hi):
    """[(state, lo <= t <= hi)]"""
    return inrange(E, st, t, lo, hi)


def inrange(E, st, t, lo, hi):
    """[(state, lo <= t <= hi)], a sum of unknown characters is bounded as such"""
    if t[0] == 'i':
        return [(st, lo <= t[1] <= hi)]
    l = linear(t)
    if l is None:
        return E.fork_bool(st, ('within', t, lo, hi))
    a, b = bounds(E, st, l)
    if a is not None and b is not None:
        if lo <= a and b <= hi:
            return [(st, True)]
        if b < lo or a > hi:
            return [(st, False)]
    if len(l[1]) == 1:
        (x, k), = l[1].items()
        if k > 0:
            # lo <= l0 + k*x <= hi
            x0, x1 = -((l[0] - lo) // k), (hi - l[0]) // k
            return inranges(E, st, x, [(x0, x1)]) if x0 <= x1 else [(st, False)]
    return inranges(E, st, t, [(lo, hi)])


def canon(l):
    return (l[0],) + tuple(sorted(l[1].items()))


def bounds(E, st, l):
    a = b = l[0]
    for x, k in l[1].items():
        lo, hi = E.rng(st, x)
        if lo is None or hi is None:
            return None, None
        a += k * (lo if k > 0 else hi)
        b += k * (hi if k > 0 else lo)
    return a, b


@on('core::char::convert::from_u32', 'core::char::from_u32', 'char::from_u32')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    if not (c[0] == 'i' or ischar(c)):
        return None
    return [(s, some(c) if y else NONE) for s, y in scalar(E, st, c)]


def fits(E, st, t, tn):
    """whether a sum of unknown characters always / never fits the type, or None"""
    l = linear(t)
    if l is None or tn not in UTF8:
        return None
    a, b = bounds(E, st, l)
    lo, hi = limits(tn)
    if a is None:
        return None
    return True if lo <= a and b <= hi else False if b < lo or a > hi else None


def arithmetic(op, n):
    @on('core::num::checked_' + n)
    def _(E, st, args, ci):
        a, b = E.rd(st, args[0]), E.rd(st, args[1])
        if not (ischar(a) or ischar(b)) or not all(x[0] == 'i' or ischar(x) for x in (a, b)):
            return None
        tn = E.p.tyname(ci.arg_ty(0))
        v = E.arith(op, a, b, None)
        lo, hi = limits(tn)
        return [(s, some(v) if y else NONE) for s, y in inrange(E, st, v, lo, hi)]


def limits(tn):
    hi = UTF8[tn]
    return (0 if tn[0] == 'u' else -hi - 1), hi


for _op, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
    arithmetic(_op, _n)


@on('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    if not (ischar(c) or c[0] == 'i'):
        return None
    n = E.p.tyname(ci.ret_ty)
    import re
    k = re.match(r'Result<(\w+)', n)
    t = k and k.group(1)
    if t == 'char':
        got = scalar(E, st, c)
    elif t in UTF8:
        got = inrange(E, st, c, *limits(t))
    else:
        return None
    return [(s, ok(c) if y else err(('in', 'out of range'))) for s, y in got]


@on('core::convert::From::from', 'core::convert::Into::into')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    if ischar(c):
        n = E.p.tyname(ci.ret_ty)
        if n in UTF8 or n == 'char':
            return [(st, c)]
        if n == 'String':
            return [(st, make([c]))]
    return None


# bytes: an unknown ASCII character is a byte, another one a group of them, ('u8c', character)
@on('core::str::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'core::str::into_bytes')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if not unknown(cs):
        return None
    return bytesof(E, st, cs)


def bytesof(E, st, cs):
    out = [(st, ())]
    for c in cs:
        nxt = []
        for s, bs in out:
            if c[0] == 'i':
                nxt.append((s, bs + tuple(('i', b) for b in chr(c[1]).encode('utf-8', 'surrogatepass'))))
                continue
            for s2, y in fork(E, s, 'Le', c, 127):
                nxt.append((s2, bs + ((c,) if y else (('u8c', c),))))
        out = nxt
    return [(s, ('L', b)) for s, b in out]


def frombytes(v):
    """characters of a list of bytes as far as they are known: [characters] | False (not UTF-8) | None (unknown)"""
    if v[0] == 's':
        return chars(v)
    if v[0] == 'b':
        try:
            return [('i', ord(c)) for c in bytes(v[1]).decode('utf-8')]
        except UnicodeDecodeError:
            return False
    if v[0] != 'L':
        return None
    out, run = [], []

    def flush():
        try:
            out.extend(('i', ord(c)) for c in bytes(run).decode('utf-8'))
        except UnicodeDecodeError:
            return False
        run.clear()
        return True
    for x in v[1]:
        if x[0] == 'i':
            run.append(x[1])
            continue
        if not flush():
            return False
        if x[0] == 'u8c':
            out.append(x[1])
        elif ischar(x):
            out.append(('byte', x))
        else:
            return None
    if not flush():
        return False
    return out


@on('core::str::converts::from_utf8', 'alloc::string::String::from_utf8')
def _(E, st, args, ci):
    v = E.snap(st, E.rd(st, args[0]))
    cs = frombytes(v)
    if cs is None:
        return None
    if cs is False:
        return [(st, err(('in', 'not UTF-8')))]
    cur, out = [st], []
    for c in cs:
        if c[0] != 'byte':
            continue
        nxt = []
        for s in cur:
            for s2, y in inrange(E, s, c[1], 0, 127):
                if y:
                    nxt.append(s2)
                else:
                    # one byte above 127 between characters is no character; next to another one it may be
                    out.append((s2, None))
        cur = nxt
    val = make([c[1] if c[0] == 'byte' else c for c in cs])
    res = [(s, ok(val)) for s in cur]
    for s, _ in out:
        high = [i for i, x in enumerate(v[1]) if x[0] != 'u8c' and (x[0] != 'i' or x[1] > 127)]
        alone = len(high) == 1
        if alone:
            res.append((s, err(('in', 'not UTF-8'))))
        else:
            t = ('utf8?', v)
            res += [(s2, ok(('decoded', v)) if y else err(('in', 'not UTF-8'))) for s2, y in E.fork_bool(s, t)]
    return res


@on('char::encode_utf8')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    return [(st, make([c]))] if c[0] == 'i' or ischar(c) else None


def units(E, st, cs):
    """UTF-16 code units: an unknown character above 0xffff is ('u16c', character)"""
    out = [(st, ())]
    for c in cs:
        nxt = []
        for s, us in out:
            if c[0] == 'i':
                b = chr(c[1]).encode('utf-16-le', 'surrogatepass')
                nxt.append((s, us + tuple(('i', b[i] | b[i + 1] << 8) for i in range(0, len(b), 2))))
                continue
            for s2, y in fork(E, s, 'Le', c, 0xffff):
                nxt.append((s2, us + ((c,) if y else (('u16c', c),))))
        out = nxt
    return out


@on('char::encode_utf16')
def _(E, st, args, ci):
    c = E.rd(st, args[0])
    return [(s, ('L', us)) for s, us in units(E, st, [c])] if c[0] == 'i' or ischar(c) else None


@on('core::str::encode_utf16')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if cs is None:
        return None
    return [(s, ('IT', 'seq', us, 0, None)) for s, us in units(E, st, cs)]


@on('alloc::string::String::from_utf16')
def _(E, st, args, ci):
    v = E.snap(st, E.rd(st, args[0]))
    if v[0] != 'L':
        return None
    cur, out = [(st, ())], []
    for x in v[1]:
        nxt = []
        for s, got in cur:
            if x[0] == 'u16c':
                nxt.append((s, got + (x[1],)))
            elif x[0] == 'i' or ischar(x):
                for s2, y in inrange(E, s, x, 0xd800, 0xdfff):
                    nxt.append((s2, got + ((x,) if not y else ('?',))))
            else:
                return None
        cur = nxt
    for s, got in cur:
        n = got.count('?')
        if n == 0:
            out.append((s, ok(make(got))))
        elif n == 1:
            out.append((s, err(('in', 'not UTF-16'))))
        else:
            out += [(s2, ok(('decoded', v)) if y else err(('in', 'not UTF-16'))) for s2, y in E.fork_bool(s, ('utf16?', v))]
    return out


@on('nom::traits::ParseTo::parse_to')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    if cs is None:
        return None
    return parsed(E, st, cs, E.p.tyname(ci.ret_ty), lambda v: some(v), NONE)


@on('core::str::parse', 'core::str::traits::FromStr::from_str')
def _(E, st, args, ci):
    cs = text(E, st, args[0])
    n = E.p.tyname(ci.ret_ty)
    if cs is None or not n.startswith('Result<') or n.startswith('Result<TokenStream'):
        return None
    return parsed(E, st, cs, n, ok, err(('in', 'no number')))


def parsed(E, st, cs, n, good, bad):
    import re
    k = re.search(r'<(\w+)', n)
    t = k.group(1) if k else ''
    if t in ('f32', 'f64'):
        out = []
        for s, y in floaty(E, st, cs):
            out.append((s, good(('float', t, make(cs))) if y else bad))
        return out
    if t in UTF8:
        cur, out = [(st, ('i', 0))], []
        if not cs:
            return [(st, bad)]
        neg = False
        for i, c in enumerate(cs):
            nxt = []
            for s, v in cur:
                if i == 0 and len(cs) > 1:
                    plus = inranges(E, s, c, [(43, 43)])
                else:
                    plus = [(s, False)]
                for s0, p in plus:
                    if p:
                        nxt.append((s0, v))
                        continue
                    if i == 0 and t[0] == 'i' and c == ('i', 45):
                        return None
                    for s2, d in digit(E, s0, c, 10):
                        if d is None:
                            out.append((s2, bad))
                        else:
                            nxt.append((s2, E.arith('Add', E.arith('Mul', v, ('i', 10), None) if v != ('i', 0) else v, d, None)))
            cur = nxt
        for s, v in cur:
            out += [(s2, good(v) if y else bad) for s2, y in inrange(E, s, v, *limits(t))]
        return out
    return None


def floaty(E, st, cs):
    """[(state, whether the text is a decimal floating-point number for Rust)]"""
    # digits [. digits] [e [sign] digits]; at least one digit in front of the exponent
    out = []
    work = [(st, 0, 'i', False)]
    while work:
        s, i, phase, digits = work.pop()
        if i == len(cs):
            out.append((s, digits and phase in 'ifx'))
            continue
        c = cs[i]
        for s2, d in inranges(E, s, c, DIGIT):
            if d:
                work.append((s2, i + 1, {'i': 'i', 'f': 'f', 'e': 'x', 's': 'x', 'x': 'x'}[phase], digits or phase in 'if'))
                continue
            for s3, dot in (inranges(E, s2, c, [(46, 46)]) if phase == 'i' else [(s2, False)]):
                if dot:
                    work.append((s3, i + 1, 'f', digits))
                    continue
                for s4, ex in (inranges(E, s3, c, [(69, 69), (101, 101)]) if phase in 'if' and digits else [(s3, False)]):
                    if ex:
                        work.append((s4, i + 1, 'e', digits))
                        continue
                    for s5, sg in (inranges(E, s4, c, [(43, 43), (45, 45)]) if phase == 'e' else [(s4, False)]):
                        if sg:
                            work.append((s5, i + 1, 's', digits))
                        else:
                            out.append((s5, False))
    return out
