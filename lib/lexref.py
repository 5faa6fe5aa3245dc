"""Reference for the spelling of preprocessing tokens: decides for a string of known and unknown
characters which literal (value and type), identifier, comment or punctuator it is."""
from . import lexstr
from .engine import ok, NONE, some
from .finspec import W
from .spec import Fork, Impossible
from .lexstr import DIGIT, HEX, OCT, BIN, inranges, inrange

ESC = {'a': 7, 'b': 8, 'e': 27, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}
PUNCTS = ('[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ## <: :> <% %> %: %:%:').split()


class Reject(Exception):
    """Not a token of this kind."""


class Lex(W):
    def __init__(self, c, E, st, chars):
        W.__init__(self, c, E, st, set())
        self.cs = chars
        self.soft = False     # need not be accepted
        self.vague = False    # the value is not fixed by C

    def pick(self, fs):
        if len(fs) == 1:
            self.st = fs[0][0]
            return fs[0][1]
        if not fs:
            raise Impossible()
        raise Fork([s for s, _ in fs])

    def has(self, i, ranges):
        return i < len(self.cs) and self.pick(inranges(self.E, self.st, self.cs[i], ranges))

    def is_(self, i, s):
        return self.has(i, [(ord(x), ord(x)) for x in s])

    def digit(self, i, base):
        if i >= len(self.cs):
            return None
        return self.pick(lexstr.digit(self.E, self.st, self.cs[i], base))

    def within(self, t, lo, hi):
        return self.pick(inrange(self.E, self.st, t, lo, hi))

    def acc(self, v, base, d):
        return self.E.arith('Add', self.E.arith('Mul', v, ('i', base), None), d, None)

    # ---- integers
    def int(self):
        n = len(self.cs)
        if self.is_(0, '0') and self.is_(1, 'xX'):
            i, base, need = 2, 16, 1
        elif self.is_(0, '0') and self.is_(1, 'bB'):
            i, base, need = 2, 2, 1
        elif self.is_(0, '0'):
            i, base, need = 1, 8, 0
        else:
            i, base, need = 0, 10, 1
        v, k = ('i', 0), 0
        while True:
            d = self.digit(i, base)
            if d is None:
                break
            v, k, i = self.acc(v, base, d), k + 1, i + 1
        if k < need:
            raise Reject
        unsigned = size = False
        if self.is_(i, 'uU'):
            unsigned, i = True, i + 1
            size, i = self.size(i)
        else:
            size, i = self.size(i)
            if size and self.is_(i, 'uU'):
                unsigned, i = True, i + 1
        if i < n:
            raise Reject
        if not self.within(v, 0, 2 ** 64 - 1):
            # larger than every C type
            self.soft = True
            if not self.within(v, 0, 2 ** 127 - 1):
                raise Reject
        ty = {(False, False): None, (True, False): 'UInt', (False, 'l'): 'Long', (True, 'l'): 'ULong', (False, 'll'): 'LongLong', (True, 'll'): 'ULongLong',
              (False, 'z'): 'SSizeT', (True, 'z'): 'SizeT'}[unsigned, size]
        return self.mk('Lit', 'Int', _0=self.mk('LitInt', value=v, suffix=NONE if ty is None else some(self.mk('BuiltInType', ty))))

    def size(self, i):
        for x in 'lL':
            if self.is_(i, x):
                return ('ll', i + 2) if self.is_(i + 1, x) else ('l', i + 1)
        if self.is_(i, 'zZ'):
            return 'z', i + 1
        return False, i

    # ---- floating-point numbers
    def float(self):
        i = 0
        while self.has(i, DIGIT):
            i += 1
        whole, frac, dot, exp = i, 0, False, False
        if self.is_(i, '.'):
            dot, i = True, i + 1
            while self.has(i, DIGIT):
                frac, i = frac + 1, i + 1
        if whole + frac == 0:
            raise Reject
        if self.is_(i, 'eE'):
            j = i + 1
            if self.is_(j, '+-'):
                j += 1
            k = j
            while self.has(k, DIGIT):
                k += 1
            if k == j:
                raise Reject
            exp, i = True, k
        if not (dot or exp):
            raise Reject
        text = lexstr.make(self.cs[:i])
        kind, t = ('Float', 'f32') if self.is_(i, 'fF') else ('LongDouble', 'f64') if self.is_(i, 'lL') else ('Double', 'f64')
        if kind != 'Double':
            i += 1
        if i < len(self.cs):
            raise Reject
        return self.mk('Lit', 'Float', _0=self.mk('LitFloat', kind, _0=('float', t, text)))

    # ---- escapes
    def item(self, i, quote):
        """one character or escape: (kind, code, next)"""
        if i >= len(self.cs) or self.is_(i, '\n' + quote):
            raise Reject
        if not self.is_(i, '\\'):
            return 'plain', self.cs[i], i + 1
        i += 1
        for x, code in ESC.items():
            if self.is_(i, x):
                return 'simple', ('i', code), i + 1
        if self.digit(i, 8) is not None:
            v, k = ('i', 0), 0
            while k < 3:
                d = self.digit(i, 8)
                if d is None:
                    break
                v, k, i = self.acc(v, 8, d), k + 1, i + 1
            return 'numeric', v, i
        if self.is_(i, 'x'):
            i, v, k = i + 1, ('i', 0), 0
            while True:
                d = self.digit(i, 16)
                if d is None:
                    break
                v, k, i = self.acc(v, 16, d), k + 1, i + 1
            if k == 0:
                raise Reject
            return 'numeric', v, i
        for x, n in (('u', 4), ('U', 8)):
            if self.is_(i, x):
                i, v = i + 1, ('i', 0)
                for _ in range(n):
                    d = self.digit(i, 16)
                    if d is None:
                        raise Reject
                    v, i = self.acc(v, 16, d), i + 1
                return 'universal', v, i
        raise Reject

    PREFIX = (('u8', 'Utf8'), ('u', 'Utf16'), ('U', 'Utf32'), ('L', 'Wide'))

    def prefix(self, quote):
        for p, kind in self.PREFIX:
            if all(self.is_(j, x) for j, x in enumerate(p)) and self.is_(len(p), quote):
                return len(p), kind
        return 0, 'Ordinary'

    def valid(self, kind, v):
        """a universal character name has to denote a character"""
        if kind == 'universal' and (not self.within(v, 0, 0x10ffff) or self.within(v, 0xd800, 0xdfff)):
            self.vague = True

    def char(self):
        i, kind = self.prefix("'")
        if not self.is_(i, "'"):
            raise Reject
        how, v, i = self.item(i + 1, "'")
        if not self.is_(i, "'") or i + 1 < len(self.cs):
            raise Reject
        self.valid(how, v)
        hi = {'Ordinary': 0xff, 'Utf8': 0x7f, 'Utf16': 0xffff, 'Utf32': 2 ** 32 - 1, 'Wide': 2 ** 32 - 1}[kind]
        if kind == 'Utf8' and how == 'numeric' and not self.within(v, 0, hi) and self.within(v, 0, 255):
            self.vague = True
        if not self.within(v, 0, hi):
            raise Reject
        return self.mk('Lit', 'Char', _0=self.mk('LitChar', kind, _0=v))

    # ---- strings
    def items(self):
        """encoding and characters of a string"""
        i, kind = self.prefix('"')
        if not self.is_(i, '"'):
            raise Reject
        i += 1
        items = []
        while not self.is_(i, '"'):
            how, v, i = self.item(i, '"')
            self.valid(how, v)
            items.append((how, v))
        if i + 1 < len(self.cs):
            raise Reject
        return kind, items

    def string(self):
        kind, items = self.items()
        return None if self.vague else self.build(kind, items)

    def build(self, kind, items):
        if kind == 'Wide':
            return self.lit(kind, ('L', tuple(v for _, v in items)))
        chars = []
        bs = ()
        for how, v in items:
            if kind in ('Ordinary', 'Utf8'):
                if how == 'numeric':
                    if not self.within(v, 0, 255):
                        raise Reject
                    if kind == 'Utf8' and not self.within(v, 0, 127):
                        # bytes that may form a character with others
                        self.vague = True
                        return None
                    bs += (v,)
                    chars.append(v)
                    continue
                bs += self.utf8(v)
                chars.append(v)
                continue
            if how == 'numeric' and not self.within(v, 0, 0xffff if kind == 'Utf16' else 0x10ffff):
                self.vague = True
                return None
            if how == 'numeric' and self.within(v, 0xd800, 0xdfff):
                self.vague = True
                return None
            chars.append(v)
        return self.lit(kind, ('L', bs) if kind == 'Ordinary' else lexstr.make(chars))

    def joined(self, texts):
        """adjacent strings -> (reference values of the tokens, value of the joined string or None if they stay apart)"""
        toks, kinds, every = [], [], []
        for cs in texts:
            self.cs = cs
            kind, items = self.items()
            toks.append(self.build(kind, items))
            kinds.append(kind)
            if self.vague:
                raise Impossible()
            every.append(items)
        kind = kinds[0]
        n = 0
        while n < len(texts) and kinds[n] in (kind, 'Ordinary'):
            n += 1
        if kind != 'Ordinary':
            for k, items in zip(kinds[:n], every):
                if k == 'Ordinary' and any(how == 'numeric' and not self.within(v, 0, 127) for how, v in items):
                    # bytes of an unknown encoding
                    self.vague = True
        return toks, n, self.build(kind, [x for its in every[:n] for x in its])

    def utf8(self, c):
        if c[0] == 'i':
            return tuple(('i', b) for b in chr(c[1]).encode('utf-8'))
        return (c,) if self.within(c, 0, 127) else (('u8c', c),)

    def lit(self, kind, v):
        return self.mk('Lit', 'String', _0=self.mk('LitString', kind, _0=v))

    # ---- identifiers
    def idchars(self, first):
        out = []
        i = 0
        while i < len(self.cs):
            c = self.cs[i]
            if self.is_(i, '\\'):
                how, c, i = self.item(i, '')
                if how != 'universal':
                    raise Reject
                if not self.within(c, 0, 0x10ffff) or self.within(c, 0xd800, 0xdfff):
                    raise Reject
            else:
                i += 1
            start = first and not out
            if start and self.within(c, 95, 95):
                out.append(c)
                continue
            if not self.pick(lexstr.xid(self.E, self.st, c, 'is_xid_start' if start else 'is_xid_continue')):
                raise Reject
            out.append(c)
        if not out:
            raise Reject
        return lexstr.make(out)

    def identifier(self):
        return self.mk('Identifier', id=self.idchars(True))

    def continuation(self):
        return self.mk('IdentifierContinue', id_cont=self.idchars(False))

    # ---- others
    def comment(self):
        n = len(self.cs)
        if n < 4 or not (self.is_(0, '/') and self.is_(1, '*')):
            raise Reject
        for i in range(2, n - 1):
            if self.is_(i, '*') and self.is_(i + 1, '/'):
                if i + 2 < n:
                    raise Reject
                return self.mk('Comment', comment=lexstr.make(self.cs[2:i]))
        raise Reject

    def punctuation(self):
        j = 0
        # a line continuation in front of it
        while self.is_(j, '\\') and (self.is_(j + 1, '\n') or self.is_(j + 1, '\r') and self.is_(j + 2, '\n')):
            j += 2 if self.is_(j + 1, '\n') else 3
        for p in PUNCTS:
            if len(p) == len(self.cs) - j and all(self.is_(j + i, x) for i, x in enumerate(p)):
                return self.mk('Punctuation', punctuation=('s', p))
        raise Reject

    def literal(self):
        """the kinds of literals exclude each other"""
        for f in (self.char, self.string, self.float, self.int):
            try:
                return f()
            except Reject:
                if self.vague:
                    return None
                self.soft = False
        raise Reject

    # ---- comparison
    def same(self, a, b):
        """values up to the form in which sums and strings are written"""
        if a == b:
            return True
        if a[0] == 'A' and b[0] == 'A':
            return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.same(x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'float' and b[0] == 'float':
            return a[1] == b[1] and self.same(a[2], b[2])
        if a[0] in ('L', 'b', 's', 'str+') and b[0] in ('L', 'b', 's', 'str+'):
            x, y = self.seq(a, b), self.seq(b, a)
            return x is not None and y is not None and len(x) == len(y) and all(self.same(p, q) for p, q in zip(x, y))
        if a[0] == 'u8c' and b[0] == 'u8c':
            return self.same(a[1], b[1])
        if self.num(a) and self.num(b):
            la, lb = lexstr.linear(a), lexstr.linear(b)
            if la == lb:
                return True
            if la is None or lb is None:
                return False
            # equal where the unknown characters are fixed
            d = la[0] - lb[0]
            co = dict(la[1])
            for k, v in lb[1].items():
                co[k] = co.get(k, 0) - v
            lo, hi = lexstr.bounds(self.E, self.st, (d, {k: v for k, v in co.items() if v}))
            return lo == hi == 0
        return False

    def num(self, x):
        return x[0] == 'i' or lexstr.ischar(x)

    def seq(self, v, other):
        if v[0] == 'L':
            return list(v[1])
        if v[0] == 'b':
            return [('i', x) for x in v[1]]
        cs = lexstr.chars(v)
        if cs is not None and other[0] in ('L', 'b'):
            out = []
            for c in cs:
                out += self.utf8(c)
            return out
        return cs


# ------------------------------------------------------------------ comparison with the code

def parse(spec):
    """a text; χa … are unknown characters"""
    out = []
    i = 0
    while i < len(spec):
        if spec[i] == 'χ':
            out.append(lexstr.sym(spec[i + 1]))
            i += 2
        else:
            out.append(('i', ord(spec[i])))
            i += 1
    return out


def target(c, name):
    """<name as TryFrom<&str>>::try_from"""
    for (trait, meth), fs in c.p.impls.items():
        if meth == 'try_from' and trait.split('::')[-1] == 'TryFrom':
            for f in fs:
                if c.p.tyname(f['self_ty']).split('<')[0] == name and c.p.tyname(f['locals'][1][0]) == '&str':
                    return f
    raise KeyError('TryFrom<&str> for %s' % name)


def compare(c, name, ref, spec, f=None):
    from .engine import Engine, State, RES
    from . import term
    f = f or target(c, name)
    chars = parse(spec)
    st = State()
    lexstr.start(st, chars)
    E = Engine(c.p)
    E.maxdepth = 600
    E.reclimit = lambda fn: 8
    try:
        outs = E.run(f, [lexstr.make(chars)], st)
    finally:
        c.functions |= E.inlined
        c.steps += E.steps
        for k, n in E.unmodelled.items():
            c.all_strange[k] = c.all_strange.get(k, 0) + n
    c.outcomes += len(outs)
    R = term.Renderer(c.p, E)
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        if v[0] == 'A' and v[1] == RES:
            both = [(s, v[2], v[3][0])]
        else:
            both = [(s2, k, ('fld', v, 'Ok', '0') if k == 0 else None) for s2, k in E.fork_variant(s, v, RES)]
        for s1, k, val in both:
            stack = [s1.copy()]
            while stack:
                s2 = stack.pop()
                w = Lex(c, E, s2, chars)
                m = None
                try:
                    try:
                        exp = getattr(w, ref)()
                        if not w.vague:
                            if k != 0:
                                m = None if w.soft else 'is rejected instead of read as %s' % R.v(exp)
                            elif not w.same(val, exp):
                                m = 'is read as %s instead of %s' % (R.v(val), R.v(exp))
                    except Reject:
                        if k == 0 and not w.vague:
                            m = 'is read as %s although it is none' % R.v(val)
                except Fork as fk:
                    stack += fk.states
                    continue
                except Impossible:
                    continue
                res.append((m, R.facts(w.st)))
    pan = [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    return dict(spec=spec, res=res, panics=pan, where=c.where(f), strange=dict(E.unmodelled), outcomes=len(outs))


def compare_joined(c, spec):
    """LitString::parse on the tokens of adjacent strings (separated by ␣)"""
    from .engine import Engine, State, RES
    from . import term
    f = c.fn('LitString::parse')
    texts = [parse(t) for t in spec.split('␣')]
    MT = c.adt('MacroToken')
    res = []
    outcomes = 0
    strange = {}
    pan = []
    st = State()
    for cs in texts:
        lexstr.start(st, cs)
    E0 = Engine(c.p)
    stack = [st]
    while stack:
        s0 = stack.pop()
        w = Lex(c, E0, s0, texts[0])
        try:
            toks, n, exp = w.joined(texts)
        except Fork as fk:
            stack += fk.states
            continue
        except (Impossible, Reject):
            continue
        if w.vague:
            continue
        E = Engine(c.p)
        E.maxdepth = 600
        args = [('L', tuple(('A', MT, c.p.vidx(MT, 'Lit'), (t,)) for t in toks))]
        outs = E.run(f, args, w.st.copy())
        outcomes += len(outs)
        R = term.Renderer(c.p, E)
        for k, x in E.unmodelled.items():
            strange[k] = strange.get(k, 0) + x
        c.functions |= E.inlined
        c.steps += E.steps
        for s, v in outs:
            v = E.snap(s, v)
            if v[0] != 'A' or v[1] != RES:
                raise Exception('unknown outcome %s' % R.v(v))
            w2 = Lex(c, E, s, texts[0])
            m = None
            if v[2] != 0:
                m = 'is rejected'
            else:
                rest, val = v[3][0][3]
                val = ('A', c.adt('Lit'), c.p.vidx(c.adt('Lit'), 'String'), (val,))
                if not w2.same(val, exp):
                    m = 'is read as %s instead of %s' % (R.v(val), R.v(exp))
                elif len(E.snap(s, rest)[1]) != len(toks) - n:
                    m = 'leaves %s instead of %d tokens' % (R.v(E.snap(s, rest)), len(toks) - n)
            res.append((m, R.facts(s)))
        pan += [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    c.outcomes += outcomes
    return dict(spec=spec, res=res, panics=pan, where=c.where(f), strange=strange, outcomes=outcomes)


_JOB = {}


def _work(item):
    c = _JOB['c']
    i, (name, ref, spec) = item
    c.functions, c.steps, c.outcomes, c.all_strange = set(), 0, 0, {}
    r = e = None
    try:
        r = compare_joined(c, spec) if name is None else compare(c, name, ref, spec)
    except Exception as x:  # noqa
        e = '%s: %s' % (type(x).__name__, str(x)[:200])
    return i, r, e, (c.functions, c.steps, c.outcomes, c.all_strange)


def check(c, jobs, what, floor):
    """jobs: [(type, reference, text)]; adds the obligations"""
    import multiprocessing
    import os
    for n in {n for n, _, _ in jobs if n}:
        target(c, n)
    _JOB['c'] = c
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        got = sorted(pool.imap_unordered(_work, list(enumerate(jobs)), chunksize=1))
    n = 0
    for i, r, e, (fns, steps, outs, strange) in got:
        c.functions |= fns
        c.steps += steps
        c.outcomes += outs
        for k, x in strange.items():
            c.all_strange[k] = c.all_strange.get(k, 0) + x
        name, ref, spec = jobs[i]
        if e is not None:
            c.undecided.append(('%s: %s' % (what, spec), e))
            continue
        if r['strange']:
            c.strange = dict(r['strange'])
            c.fresh = True
        else:
            c.strange = {}
        for m, facts in r['res']:
            n += 1
            c.ob('%s: `%s`' % (what, spec), m is None, '`%s` %s\n    when %s' % (spec, m, facts), r['where'])
    c.strange = {}
    c.floor('cases of ' + what, n, floor)
    return n
