"""Reference for inline assembly statements: how the tokens are read and which code is generated."""
import re
from . import cparse, lexstr, term
from .engine import State, tup
from .cparse import Ref, Tokens
from .spec import Fork, Impossible

CLASSES = (('r', 'Reg'), ('Q', 'RegAbcd'), ('q', 'RegByte'), ('f', 'Freg'), ('ig', 'Reg'))
KEYWORDS = ('__asm__', '__asm', 'asm')
WHITE = (32, 9, 10, 11, 12, 13)


class AsmTokens(Tokens):
    """Strings are given by their characters; χ stands for an unknown ASCII character."""

    def __init__(self, c, st):
        Tokens.__init__(self, c)
        self.st = st
        self.texts = {}

    def parse(self, spec):
        out = []
        for x in spec:
            if isinstance(x, str) and re.match(r'(u8|[uUL])?"', x):
                k = {'': 'Ordinary', 'u8': 'Utf8', 'u': 'Utf16', 'U': 'Utf32', 'L': 'Wide'}[x[:x.index('"')]]
                cs = []
                text = x[x.index('"') + 1:-1]
                i = 0
                while i < len(text):
                    if text[i] == 'χ':
                        ch = lexstr.sym(text[i + 1])
                        self.st.facts[('N', ch)] = (0, 127, frozenset())
                        cs.append(ch)
                        i += 2
                    elif text[i] == '\udcff':
                        cs.append(None)     # a byte that is not UTF-8
                        i += 1
                    else:
                        cs.append(('i', ord(text[i])))
                        i += 1
                bs = []
                for ch in cs:
                    bs += [('i', 0xff)] if ch is None else [ch] if ch[0] != 'i' else [('i', b) for b in chr(ch[1]).encode('utf-8')]
                L = self.c.adt('LitString')
                v = ('L', tuple(bs if k != 'Wide' else cs)) if k in ('Ordinary', 'Wide') else lexstr.make(cs)
                t = self.lit('String', ('A', L, self.p.vidx(L, k), (v,)))
                self.texts[len(out)] = (k, cs)
                out.append(t)
            else:
                out += Tokens.parse(self, [x])
        return out


class AsmRef(Ref):
    def __init__(self, c, E, st, toks, texts):
        Ref.__init__(self, c, E, st, toks)
        self.texts = texts

    # ---- characters
    def pick(self, fs):
        if len(fs) == 1:
            self.st = fs[0][0]
            return fs[0][1]
        if not fs:
            raise Impossible()
        raise Fork([s for s, _ in fs])

    def among(self, ch, ranges):
        return self.pick(lexstr.inranges(self.E, self.st, ch, ranges))

    def eq(self, ch, s):
        return self.among(ch, [(ord(x), ord(x)) for x in s])

    def alpha(self, ch):
        return self.among(ch, lexstr.ALPHA)

    def digit(self, ch):
        return self.among(ch, lexstr.DIGIT)

    def strip(self, cs):
        ws = [(x, x) for x in WHITE]
        while cs and self.among(cs[0], ws):
            cs = cs[1:]
        while cs and self.among(cs[-1], ws):
            cs = cs[:-1]
        return cs

    # ---- strings
    def text_of(self, i):
        """characters of adjacent strings -> (next, characters or None)"""
        if i not in self.texts:
            return None
        kind, cs = self.texts[i]
        j = i + 1
        while j in self.texts and self.texts[j][0] in (kind, 'Ordinary'):
            cs = cs + self.texts[j][1]
            j += 1
        if None in cs or kind == 'Wide':
            return j, None
        if kind != 'Ordinary':
            self.vague = True
        return j, cs

    def template(self, cs):
        lines, cur, i = [], [], 0
        while i < len(cs):
            ch = cs[i]
            if self.eq(ch, '%'):
                j = i + 1
                if j < len(cs) and self.digit(cs[j]):
                    while j < len(cs) and self.digit(cs[j]):
                        j += 1
                    ds = cs[i + 1:j]
                    if any(d[0] != 'i' for d in ds):
                        if len(ds) > 1:
                            self.vague = True
                    else:
                        n = int(''.join(chr(d[1]) for d in ds))
                        if n > 99:
                            self.vague = True
                        ds = [('i', ord(x)) for x in str(n)]
                    cur += [('i', ord('{'))] + ds + [('i', ord('}'))]
                    i = j
                elif j < len(cs) and self.alpha(cs[j]):
                    # a register; an operand with a modifier need not be understood
                    cur.append(ch)
                    i = j
                    while i < len(cs) and self.alpha(cs[i]):
                        cur.append(cs[i])
                        i += 1
                    if i == j + 1 and i < len(cs) and self.digit(cs[i]):
                        self.vague = True
                else:
                    # other escapes need not be understood
                    self.soft = True
                    self.vague = True
                    i = j
            elif self.eq(ch, '{}'):
                cur += [ch, ch]
                i += 1
            elif self.eq(ch, '\n'):
                lines.append(cur)
                cur = []
                i += 1
            else:
                cur.append(ch)
                i += 1
        lines.append(cur)
        return ('L', tuple(lexstr.make(self.strip(l)) for l in lines))

    def constraint(self, cs):
        if not cs:
            return None
        if all(self.digit(x) for x in cs):
            if any(x[0] != 'i' for x in cs):
                if len(cs) > 1:
                    self.vague = True
                return self.mk('RegConstraint', 'Digit', _0=self.E.arith('Sub', cs[0], ('i', 48), None))
            n = int(''.join(chr(x[1]) for x in cs))
            return self.mk('RegConstraint', 'Digit', _0=('i', n)) if n < 256 else None
        if not all(self.alpha(x) for x in cs):
            return None
        for letters, name in CLASSES:
            for x in cs:
                if self.eq(x, letters):
                    return self.mk('RegConstraint', name)
        return None

    # ---- statement
    def items(self, i, f):
        """a possibly empty list behind a colon -> (next, values)"""
        out = []
        r = f(i)
        if r is None:
            return i, out
        while True:
            out.append(r[1])
            i = r[0]
            j = self.skip(i)
            if not self.at(j, ','):
                return i, out
            r = f(self.skip(j + 1))
            if r is None:
                return i, out

    def output(self, i):
        r = self.text_of(i)
        if r is None or r[1] is None:
            return None
        cs = r[1]
        if not cs or not self.eq(cs[0], '=+'):
            return None
        d = self.mk('Dir', 'Out' if self.eq(cs[0], '=') else 'InOut')
        k = self.constraint(cs[1:])
        if k is None:
            return None
        e = self.paren(r[0], self.expr)
        return None if e is None else (e[0], tup(d, k, e[1]))

    def input(self, i):
        r = self.text_of(i)
        if r is None or r[1] is None:
            return None
        k = self.constraint(r[1])
        if k is None:
            return None
        e = self.paren(r[0], self.expr)
        return None if e is None else (e[0], tup(k, e[1]))

    def clobber(self, i):
        r = self.text_of(i)
        return None if r is None or r[1] is None else (r[0], lexstr.make(r[1]))

    def inner(self, i):
        i = self.skip(i)
        r = self.text_of(i)
        if r is None or r[1] is None:
            return None
        t = self.template(r[1])
        i = r[0]
        got = []
        for f in (self.output, self.input, self.clobber):
            j = self.skip(i)
            if not self.at(j, ':'):
                got += [[] for _ in range(3 - len(got))]
                break
            i, xs = self.items(self.skip(j + 1), f)
            got.append(xs)
        return i, self.mk('Asm', template=t, outputs=('L', tuple(got[0])), inputs=('L', tuple(got[1])), clobbers=('L', tuple(got[2])))

    def asm(self, i):
        if not any(self.kw(i, k) for k in KEYWORDS):
            return None
        i += 1
        if any(self.kw(i, k) for k in ('volatile', 'inline', 'goto')):
            i += 1
        return self.paren(i, self.inner)

    def single(self, i):
        r = self.semi(self.asm(i))
        if r is not None:
            return r[0], self.mk('Statement', 'Asm', _0=r[1])
        return Ref.single(self, i)

    def asm_body(self, i):
        r = self.asm(i)
        if r is None or r[0] < len(self.toks):
            r = self.semi(r)
        if r is None or r[0] < len(self.toks):
            self.vague = True
            return None
        return r[0], self.mk('MacroBody', 'Statement', _0=self.mk('Statement', 'Asm', _0=r[1]))


def compare(c, key, ref, spec):
    """the parser on the tokens -> as cparse.compare; in strings ~ is a space, \\n and \\t are white space, ¤ is a byte 255"""
    st = State()
    T = AsmTokens(c, st)
    toks = T.parse([x.replace('~', ' ').replace('\\n', '\n').replace('\\t', '\t').replace('¤', '\udcff') for x in spec.split()])
    f, E, R, outs = cparse.run(c, key, toks, st)
    res = []
    for s, v in outs:
        for s1, rest, val in cparse.outcome(E, s, v):
            stack = [s1.copy()]
            while stack:
                s2 = stack.pop()
                w = AsmRef(c, E, s2, toks, T.texts)
                try:
                    exp = getattr(w, ref)(0)
                    fx = lambda v: fixed(E, w.st, v)  # noqa
                    m = cparse.judge(w, R, exp and (exp[0], fx(exp[1])), rest, fx(val), len(toks))
                except Fork as fk:
                    stack += fk.states
                    continue
                except Impossible:
                    continue
                res.append((m, R.facts(w.st)))
    pan = [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    return dict(spec=spec, res=res, panics=pan, where=c.where(f), strange=dict(E.unmodelled), outcomes=len(outs))


# ------------------------------------------------------------------ generated code

DIRS = {'=': 'Out', '+': 'InOut'}


def value(c, lines, outs, ins, clobbers):
    """Asm with the template lines, outputs [(direction, class, operand)], inputs [(class, operand)] and clobbers"""
    T = Tokens(c)

    def k(x):
        a = c.adt('RegConstraint')
        return ('A', a, c.p.vidx(a, 'Digit'), (('i', x),)) if isinstance(x, int) else ('A', a, c.p.vidx(a, x), ())

    def d(x):
        a = c.adt('Dir')
        return ('A', a, c.p.vidx(a, DIRS[x]), ())
    f = dict(template=('L', tuple(lines)), outputs=('L', tuple(tup(d(a), k(b), ('in', e)) for a, b, e in outs)),
             inputs=('L', tuple(tup(k(b), ('in', e)) for b, e in ins)), clobbers=('L', tuple(('s', x) for x in clobbers)))
    a = c.adt('Asm')
    return ('A', a, 0, tuple(f[x['name']] for x in c.p.variants(a)[0]['fields']))


SPELL = {'Reg': 'reg', 'RegAbcd': 'reg_abcd', 'RegByte': 'reg_byte', 'Freg': 'freg'}


def generated(c, lines, outs, ins, clobbers, tp=True):
    """code of the statement -> (function, engine, renderer, characters of the lines, [(state, tokens)])"""
    from . import lexref
    from .gen import gen_handlers, CTX
    chars = [lexref.parse(l) for l in lines]
    v = value(c, [lexstr.make(cs) for cs in chars], outs, ins, clobbers)
    f = c.fn('Asm::to_tokens')
    st = State()
    for cs in chars:
        for ch in cs:
            if ch[0] == 'in':
                # the parser doubles braces and leaves no other ones
                st.facts[('N', ch)] = (0, 127, frozenset((ord('{'), ord('}'))))
    st.cells['@asm'] = v
    st.cells[('in', '@ts')] = ('TS', ())
    sink = ('R', ('in', '@ts'), ())
    E, R, res = c.run(f, [('R', '@asm', ()), CTX, sink], st, gen_handlers(tp, True, roots=(v,)))
    return f, E, R, chars, [(s, E.snap(s, E.rd(s, sink))) for s, _ in res]


class Code(AsmRef):
    """The expected code."""

    def __init__(self, c, E, st, R):
        AsmRef.__init__(self, c, E, st, [], {})
        self.R = R

    def str(self, cs):
        return ('tk', 'lit', 'string', fixed(self.E, self.st, lexstr.make(cs)))

    def has(self, cs, text):
        want = [ord(x) for x in text]
        return self.pick([(s, i is not None) for s, i in lexstr.find(self.E, self.st, cs, want)])

    def starts(self, cs, text):
        return self.pick(lexstr.matches(self.E, self.st, cs, 0, [ord(x) for x in text]))

    def same_operand(self, a, b):
        if a == b:
            return True
        return self.pick([(s, y) for s1, v in self.E.eq(self.st, ('in', a), ('in', b)) for s, y in self.E.fork_bool(s1, v)])

    def renumber(self, cs, numbers):
        out, i = [], 0
        t = lambda j: chr(cs[j][1]) if j < len(cs) and cs[j][0] == 'i' else ' '  # noqa
        while i < len(cs):
            if t(i) + t(i + 1) in ('{{', '}}'):
                out += cs[i:i + 2]
                i += 2
            elif t(i) == '{':
                j = i + 1
                while t(j).isdigit():
                    j += 1
                n = int(''.join(t(k) for k in range(i + 1, j)))
                out += [('i', ord(x)) for x in '{%d}' % numbers[n]]
                i = j + 1
            else:
                out.append(cs[i])
                i += 1
        return out

    def code(self, chars, outs, ins, clobbers, tp):
        """-> (path, explicit operands in order, others, options)"""
        tied, numbers, rest = {}, list(range(len(outs))), []
        for k, e in ins:
            if isinstance(k, int):
                tied[k] = e
                numbers.append(k)
            else:
                numbers.append(len(outs) + len(rest))
                rest.append((k, e))
        par = lambda *x: ('tk', 'g', 'Parenthesis', tuple(x))  # noqa
        word = lambda x: ('tk', 'id', ('s', x))  # noqa
        args = [[self.str(self.renumber(cs, numbers))] for cs in chars]
        for i, (d, k, e) in enumerate(outs):
            hole = ('hole', ('tok', ('in', e)))
            op = word('out' if d == '=' and i not in tied else 'inout')
            if i in tied and not self.same_operand(tied[i], e):
                args.append([op, par(word(SPELL[k])), ('hole', ('tok', ('in', tied[i]))), ('tk', 'p', '=>'), hole])
            else:
                args.append([op, par(word(SPELL[k])), hole])
        for k, e in rest:
            args.append([word('in'), par(word(SPELL[k])), ('hole', ('tok', ('in', e)))])
        att = any(self.has(cs, x) for cs in chars for x in ('({', '%', '$'))
        glob = any(self.starts(cs, x) for cs in chars for x in ('.globl', '.global', '.section'))
        others, options = [], set()
        if att:
            options.add('att_syntax')
        if not glob:
            options |= {o for o, x in (('nomem', 'memory'), ('preserves_flags', 'cc')) if x not in clobbers}
            others = [[word('out'), par(('tk', 'lit', 'string', ('s', x))), ('tk', 'p', '_')] for x in sorted(set(clobbers) - {'memory', 'cc'})]
        elif clobbers:
            raise Impossible()
        path = ([('hole', ('in', 'TP')), ('tk', 'p', '::')] if tp else []) + [word('arch'), ('tk', 'p', '::'), word('global_asm' if glob else 'asm'), ('tk', 'p', '!')]
        return path, args, others, options


def fixed(E, st, v):
    """unknown characters whose value is known by now"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('str+', 'chr'):
        cs = lexstr.chars(v)
        if cs is not None:
            out = []
            for ch in cs:
                lo, hi = E.rng(st, ch) if ch[0] == 'in' else (None, None)
                out.append(('i', lo) if lo is not None and lo == hi else ch)
            return lexstr.make(out)
    return tuple(fixed(E, st, x) for x in v)


def plain(items):
    """one spelling of string literals and punctuators"""
    out = []
    for x in items:
        if x[0] == 'tk' and x[1] == 'raw' and x[2][0] == 's' and x[2][1][:1] == '"':
            x = ('tk', 'lit', 'string', ('s', x[2][1][1:-1]))
        elif x[0] == 'tk' and x[1] == 'g':
            x = ('tk', 'g', x[2], plain(x[3]))
        elif x[0] == 'tk' and x[1] == 'p':
            x = ('tk', 'p', x[2])
        out.append(x)
    return tuple(out)


def commas(items):
    out = [[]]
    for x in items:
        if x == ('tk', 'p', ','):
            out.append([])
        else:
            out[-1].append(x)
    if not out[-1]:
        out.pop()
    return out


def match(w, items, want):
    path, args, others, options = want
    items = plain(fixed(w.E, w.st, items))
    show = lambda t: w.R.ts(tuple(t)) or 'nothing'  # noqa
    if not items or items[-1][:3] != ('tk', 'g', 'Parenthesis') and items[-1] != ('tk', 'p', ';'):
        return 'is generated as %s' % show(items)
    items = items[:-1] if items[-1] == ('tk', 'p', ';') else items
    if [x for x in items[:-1] if x != ('tk', 'p', '::')] != [x for x in path if x != ('tk', 'p', '::')]:
        return 'is generated as %s instead of %s' % (show(items[:-1]), show(path))
    got = commas(items[-1][3])
    n = len(args)
    for i, a in enumerate(args):
        if i >= len(got) or got[i] != a:
            return 'gets the operand %s instead of %s' % (show(got[i]) if i < len(got) else 'nothing', show(a))
    rest = got[n:]
    opts = set()
    other = []
    explicit = any(a[0] in (('tk', 'id', ('s', 'out')), ('tk', 'id', ('s', 'inout'))) for a in args)
    for a in rest:
        if a[0] == ('tk', 'id', ('s', 'options')) and a[1:] and a[1][:2] == ('tk', 'g'):
            opts |= {w.R.ts(tuple(x)) for x in commas(a[1][3])}
        elif a[0] == ('tk', 'id', ('s', 'clobber_abi')):
            if not others:
                return 'declares registers clobbered although the source names none'
            if explicit:
                return 'combines %s with outputs in registers the compiler chooses, which is an error' % show(a)
        else:
            other.append(a)
    key = lambda t: repr(t)  # noqa
    if sorted(map(key, other)) != sorted(map(key, others)):
        return 'clobbers %s instead of %s' % ('; '.join(map(show, other)) or 'nothing', '; '.join(map(show, others)) or 'nothing')
    if opts != options:
        return 'has the options %s instead of %s' % (', '.join(sorted(opts)) or 'none', ', '.join(sorted(options)) or 'none')
    return None


def compare_code(c, lines, outs, ins, clobbers, tp=True):
    c.strange, c.fresh = {}, False
    f, E, R, chars, got = generated(c, lines, outs, ins, clobbers, tp)
    res = []
    for s, v in got:
        items = v[1] if v[0] == 'TS' else (('hole', v),)
        stack = [s.copy()]
        while stack:
            s2 = stack.pop()
            w = Code(c, E, s2, R)
            try:
                m = match(w, items, w.code(chars, outs, ins, clobbers, tp))
            except Fork as fk:
                stack += fk.states
                continue
            except Impossible:
                continue
            res.append((m, R.facts(w.st)))
    pan = [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    shown = '%s : %s : %s : %s' % (' \\n '.join(lines), ', '.join('%s%s(%s)' % x for x in outs), ', '.join('%s(%s)' % x for x in ins), ', '.join(clobbers))
    return dict(spec=shown, res=res, panics=pan, where=c.where(f), strange=dict(E.unmodelled), outcomes=len(got))
