"""Reference grammar for the parsers of macro bodies, over lists of tokens whose punctuators and
identifiers may be unknown.  `Ref` is a World that parses the same tokens by the C grammar (the part of
it the library supports); the result of the library's parser is compared with it in every case the
path condition leaves open."""
import multiprocessing, os, re
from . import term
from .engine import Engine, State, RES, OPT, NONE, some, tup, is_sym
from .finspec import W, Mismatch
from .spec import Fork, Impossible, worlds

PUNCTS = ('[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ##').split()

LEVELS = [
    {'*': 'Mul', '/': 'Div', '%': 'Rem'},
    {'+': 'Add', '-': 'Sub'},
    {'<<': 'Shl', '>>': 'Shr'},
    {'<': 'Lt', '<=': 'Lte', '>': 'Gt', '>=': 'Gte'},
    {'==': 'Eq', '!=': 'Neq'},
    {'&': 'BitAnd'},
    {'^': 'BitXor'},
    {'|': 'BitOr'},
]
ASSIGN = {'=': 'Assign', '+=': 'AddAssign', '-=': 'SubAssign', '*=': 'MulAssign', '/=': 'DivAssign', '%=': 'RemAssign', '<<=': 'ShlAssign',
          '>>=': 'ShrAssign', '&=': 'BitAndAssign', '^=': 'BitXorAssign', '|=': 'BitOrAssign'}
PREFIX = {'*': 'Deref', '&': 'AddrOf', '++': 'Inc', '--': 'Dec', '+': 'Plus', '-': 'Minus', '!': 'Not', '~': 'Comp'}
POSTFIX = {'++': 'PostInc', '--': 'PostDec'}
ASM = ('__asm__', '__asm', 'asm')
SPECIFIERS = ('void', 'bool', 'char', 'short', 'int', 'long', 'float', 'double', 'signed', 'unsigned')
QUALIFIERS = ('const', 'volatile')

# multiset of specifiers -> type (C17 6.7.2)
CTYPES = {}
CANONICAL = set()
for _t, _forms in {
    'Void': ['void'], 'Bool': ['bool'], 'Char': ['char'], 'SChar': ['signed char'], 'UChar': ['unsigned char'],
    'Short': ['short', 'signed short', 'short int', 'signed short int'], 'UShort': ['unsigned short', 'unsigned short int'],
    'Int': ['int', 'signed', 'signed int'], 'UInt': ['unsigned', 'unsigned int'],
    'Long': ['long', 'signed long', 'long int', 'signed long int'], 'ULong': ['unsigned long', 'unsigned long int'],
    'LongLong': ['long long', 'signed long long', 'long long int', 'signed long long int'], 'ULongLong': ['unsigned long long', 'unsigned long long int'],
    'Float': ['float'], 'Double': ['double'], 'LongDouble': ['long double'],
}.items():
    for _f in _forms:
        CTYPES[tuple(sorted(_f.split()))] = _t
        CANONICAL.add(tuple(_f.split()))


class Tokens:
    """Builds token values."""

    def __init__(self, c):
        self.c, self.p = c, c.p
        self.MT = c.adt('MacroToken')

    def t(self, variant, *f):
        return ('A', self.MT, self.p.vidx(self.MT, variant), tuple(f))

    def struct(self, name, *f):
        return ('A', self.c.adt(name), 0, tuple(f))

    def punct(self, text):
        return self.t('Punctuation', self.struct('Punctuation', text if isinstance(text, tuple) else ('s', text)))

    def ident(self, text):
        return self.t('Identifier', self.struct('Identifier', text if isinstance(text, tuple) else ('s', text)))

    def comment(self):
        return self.t('Comment', ('in', 'comment'))

    def arg(self, i):
        return self.t('Arg', self.struct('MacroArg', ('i', i)))

    def lit(self, variant, v):
        L = self.c.adt('Lit')
        return self.t('Lit', ('A', L, self.p.vidx(L, variant), (v,)))

    def parse(self, spec):
        """Token specifications: a name is an identifier, a number $n a macro argument, "…" a string, '…' a character,
        ¶n an unknown identifier continuation, 0n an integer literal, 0f a floating-point literal, /**/ a comment, ⊙n an unknown punctuator, ?n an unknown identifier,
        anything else a punctuator."""
        out = []
        for x in spec.split() if isinstance(spec, str) else spec:
            if isinstance(x, tuple):
                out.append(x)
            elif x.startswith('⊙'):
                out.append(self.punct(('in', x)))
            elif x.startswith('?') and len(x) > 1:
                out.append(self.ident(('in', x)))
            elif x.startswith('$'):
                out.append(self.arg(int(x[1:])))
            elif x.startswith('¶'):
                out.append(self.t('IdentifierContinue', self.struct('IdentifierContinue', ('in', x))))
            elif re.match(r'(u8|[uUL])?"', x):
                L = self.c.adt('LitString')
                kind = {'': 'Ordinary', 'u8': 'Utf8', 'u': 'Utf16', 'U': 'Utf32', 'L': 'Wide'}[x[:x.index('"')]]
                out.append(self.lit('String', ('A', L, self.p.vidx(L, kind), (('in', x),))))
            elif x.startswith("'"):
                out.append(self.lit('Char', ('in', x)))
            elif x.startswith('0f'):
                out.append(self.lit('Float', ('in', x)))
            elif x[0].isdigit():
                out.append(self.lit('Int', ('in', x)))
            elif x == '/**/':
                out.append(self.comment())
            elif re.match(r'[A-Za-z_]\w*$', x):
                out.append(self.ident(x))
            else:
                out.append(self.punct(x))
        return out


class Ref(W):
    def __init__(self, c, E, st, toks):
        W.__init__(self, c, E, st, set())
        self.toks = toks
        self.soft = False    # C, but need not be supported
        self.vague = False   # the library may read keywords as names here
        MT = c.adt('MacroToken')
        self.kinds = [c.p.variants(MT)[t[2]]['name'] for t in toks]

    # ---- tokens
    def kind(self, i):
        return self.kinds[i] if i < len(self.toks) else None

    def text(self, i):
        return self.toks[i][3][0][3][0]

    def at(self, i, s):
        """token i is the punctuator s"""
        if self.kind(i) != 'Punctuation':
            return False
        t = self.text(i)
        return t[1] == s if t[0] == 's' else self.streq(t, s)

    def kw(self, i, s):
        if self.kind(i) != 'Identifier':
            return False
        t = self.text(i)
        return t[1] == s if t[0] == 's' else self.streq(t, s)

    def oneof(self, i, table, test=None):
        test = test or self.at
        for s in table:
            if test(i, s):
                return s
        return None

    def skip(self, i):
        while self.kind(i) == 'Comment':
            i += 1
        return i

    # ---- building
    def bx(self, v, **f):
        return self.mk('Expr', v, **f)

    def binary(self, op, a, b):
        return self.bx('Binary', _0=self.mk('BinaryExpr', lhs=a, op=self.mk('BinaryOp', op), rhs=b))

    def unary(self, op, a):
        return self.bx('Unary', _0=self.mk('UnaryExpr', op=self.mk('UnaryOp', op), expr=a))

    def var(self, n):
        return self.bx('Var', _0=self.mk('Var', name=n))

    # ---- identifiers
    def name(self, i):
        """identifier, argument or their ## concatenation -> (i, IdentifierExpr)"""
        def part(j):
            k = self.kind(j)
            if k == 'Arg':
                return 'Arg', self.toks[j][3][0]
            if k == 'Identifier':
                return 'Plain', self.toks[j][3][0]
            return None
        x = part(i)
        if x is None:
            return None
        parts = [x]
        i += 1
        while True:
            j = self.skip(i)
            if not self.at(j, '##'):
                break
            y = part(self.skip(j + 1))
            if y is None:
                break
            parts.append(y)
            i = self.skip(j + 1) + 1
        if len(parts) == 1:
            return i, self.mk('IdentifierExpr', x[0], _0=x[1])
        return i, self.mk('IdentifierExpr', 'Concat', _0=('L', tuple(self.mk('IdentifierContinuationExpr', k, _0=v) for k, v in parts)))

    def stringify(self, i):
        if not self.at(i, '#'):
            return None
        j = self.skip(i + 1)
        k = self.kind(j)
        if k not in ('Arg', 'Identifier'):
            return None
        return j + 1, self.mk('Stringify', arg=self.var(self.mk('IdentifierExpr', 'Arg' if k == 'Arg' else 'Plain', _0=self.toks[j][3][0])))

    # ---- types
    def qualifiers(self, i):
        q = set()
        while True:
            x = self.oneof(i, QUALIFIERS, self.kw)
            if x is None or x in q:
                return i, q
            q.add(x)
            i += 1

    def qualified(self, t, q):
        if not q:
            return t
        n = 'ConstVolatile' if len(q) == 2 else q.copy().pop().capitalize()
        return self.qual(t, n)

    def base_type(self, i):
        """-> (i, type, qualifiers)"""
        spec, q, seen = [], set(), []
        j = i
        while True:
            x = self.oneof(j, SPECIFIERS, self.kw)
            if x is not None:
                spec.append(x)
                seen.append('s')
                j += 1
                continue
            x = self.oneof(j, QUALIFIERS, self.kw)
            if x is not None:
                if x in q:
                    self.vague = True
                q.add(x)
                seen.append('q')
                j += 1
                continue
            break
        if spec:
            t = CTYPES.get(tuple(sorted(spec)))
            if t is None:
                return None
            if tuple(spec) not in CANONICAL or not re.match('q*s+$|s+q*$', ''.join(seen)):
                # other orders mean the same, but need not be supported
                self.soft = True
            return j, self.T(t), q
        struct = False
        if self.kw(j, 'struct'):
            struct = True
            j += 1
        n = self.name(j)
        if n is None:
            return None
        j, n = n
        j2, q2 = self.qualifiers(j)
        return j2, self.mk('Type', 'Identifier', name=n, is_struct=('i', 1 if struct else 0)), q | q2

    def type(self, i):
        r = self.base_type(i)
        if r is None:
            return None
        i, t, q = r
        t = self.qualified(t, q)
        while self.at(i, '*'):
            t = self.ptr(t)
            i = self.skip(i + 1)
            i, q = self.qualifiers(i)
            t = self.qualified(t, q)
        return i, t

    # ---- expressions
    def paren(self, i, f):
        if not self.at(i, '('):
            return None
        r = f(self.skip(i + 1))
        if r is None:
            return None
        j = self.skip(r[0])
        if not self.at(j, ')'):
            return None
        return j + 1, r[1]

    def strlit(self, i):
        """kind of string i"""
        if self.kind(i) != 'Lit' or self.c.p.variants(self.c.adt('Lit'))[self.toks[i][3][0][2]]['name'] != 'String':
            return None
        s = self.toks[i][3][0][3][0]
        return self.c.p.variants(self.c.adt('LitString'))[s[2]]['name'] if s[0] == 'A' else '?'

    def adjacent(self, i):
        """string literals directly behind each other -> (next, Lit)"""
        kind, parts, lit = self.strlit(i), [], self.toks[i][3][0]
        while self.strlit(i) in (kind, 'Ordinary'):
            parts.append((self.strlit(i), self.toks[i][3][0][3][0][3][0]))
            i += 1
        if len(parts) > 1:
            if kind != 'Ordinary' and any(k == 'Ordinary' for k, _ in parts):
                self.vague = True
            v = ('L', tuple(('splat', x) for _, x in parts)) if kind in ('Ordinary', 'Wide') else ('str+',) + tuple(x for _, x in parts)
            lit = ('A', lit[1], lit[2], (self.mk('LitString', kind, _0=v),))
        return i, lit

    def strings(self, i):
        parts = []
        j = i
        while True:
            k = self.kind(j)
            if self.strlit(j):
                r = self.adjacent(j)
                parts.append(self.bx('Literal', _0=r[1]))
                i = j = r[0]
            else:
                r = self.stringify(j)
                if r is not None:
                    parts.append(self.bx('Stringify', _0=r[1]))
                else:
                    r = self.name(j)
                    if r is None:
                        break
                    parts.append(self.var(r[1]))
                i = j = r[0]
            j = self.skip(j)
        if not parts:
            return None
        return i, parts[0] if len(parts) == 1 else self.bx('ConcatString', _0=('L', tuple(parts)))

    def primary(self, i):
        if self.kw(i, 'sizeof'):
            r = self.paren(i + 1, self.type)
            if r is not None:
                return r[0], self.bx('SizeOf', _0=r[1])
        r = self.strings(i)
        if r is not None:
            return r
        if self.kind(i) == 'Lit':
            return i + 1, self.bx('Literal', _0=self.toks[i][3][0])
        return self.paren(i, self.expr)

    def args(self, i):
        out = []
        r = self.expr(i)
        if r is None:
            return i, out
        i, v = r
        out.append(v)
        while True:
            j = self.skip(i)
            if not self.at(j, ','):
                return i, out
            r = self.expr(self.skip(j + 1))
            if r is None:
                return i, out
            i, v = r
            out.append(v)

    def postfix(self, i):
        r = self.primary(i)
        if r is None:
            return None
        i, x = r
        inc = False
        while True:
            j = self.skip(i)
            s = self.oneof(j, POSTFIX)
            if s is not None:
                if inc:
                    self.soft = True
                x, i, inc = self.unary(POSTFIX[s], x), j + 1, True
                continue
            r = self.paren(j, self.args)
            if r is not None:
                if x[0] != 'A' or self.c.p.variants(x[1])[x[2]]['name'] != 'Var':
                    return None
                x, i = self.bx('FunctionCall', _0=self.mk('FunctionCall', name=x[3][0][3][0], args=('L', tuple(r[1])))), r[0]
                inc = False
                continue
            s = self.oneof(j, ('.', '->'))
            if s is not None:
                r = self.name(self.skip(j + 1))
                if r is not None:
                    if inc and s == '.':
                        self.soft = True
                    i = r[0]
                    x = self.binary('MemberAccess', self.unary('Deref', x) if s == '->' else x, self.var(r[1]))
                    inc = False
                    continue
            if self.at(j, '['):
                r = self.expr(self.skip(j + 1))
                if r is not None and self.at(self.skip(r[0]), ']'):
                    if inc:
                        self.soft = True
                    i = self.skip(r[0]) + 1
                    x = self.unary('Deref', self.binary('Add', x, r[1]))
                    inc = False
                    continue
            return i, x

    def prefix(self, i):
        r = self.paren(i, self.type)
        if r is not None:
            x = self.prefix(r[0])
            if x is not None:
                return x[0], self.bx('Cast', _0=self.mk('Cast', ty=r[1], expr=x[1]))
        s = self.oneof(i, PREFIX)
        if s is not None:
            x = self.prefix(self.skip(i + 1))
            if x is not None:
                return x[0], self.unary(PREFIX[s], x[1])
        return self.postfix(i)

    def level(self, i, n):
        if n < 0:
            return self.prefix(i)
        r = self.level(i, n - 1)
        if r is None:
            return None
        i, x = r
        while True:
            j = self.skip(i)
            s = self.oneof(j, LEVELS[n])
            if s is None:
                return i, x
            r = self.level(self.skip(j + 1), n - 1)
            if r is None:
                return i, x
            i, x = r[0], self.binary(LEVELS[n][s], x, r[1])

    def conditional(self, i):
        r = self.level(i, len(LEVELS) - 1)
        if r is None:
            return None
        i, x = r
        j = self.skip(i)
        if not self.at(j, '?'):
            return i, x
        a = self.expr(self.skip(j + 1))
        if a is None or not self.at(self.skip(a[0]), ':'):
            return None
        b = self.conditional(self.skip(self.skip(a[0]) + 1))
        if b is None:
            return None
        return b[0], self.bx('Ternary', _0=self.mk('TernaryExpr', condition=x, if_branch=a[1], else_branch=b[1]))

    def expr(self, i):
        r = self.conditional(i)
        if r is None:
            return None
        i, x = r
        j = self.skip(i)
        s = self.oneof(j, ASSIGN)
        if s is None:
            return i, x
        r = self.expr(self.skip(j + 1))
        if r is None:
            return i, x
        return r[0], self.binary(ASSIGN[s], x, r[1])


    # ---- declarations and statements
    def static(self, i):
        return (i + 1, True) if self.kw(i, 'static') else (i, False)

    def declarator(self, i):
        """[static] type name, static also after the type -> (i, type, name, static)"""
        i, st = self.static(i)
        t = self.type(i)
        if t is None:
            return None
        i, t = t
        if not st:
            i, st = self.static(i)
            if st:
                self.soft = True
        n = self.name(i)
        if n is None:
            return None
        return n[0], t, n[1], st

    def fn_decl(self, i):
        d = self.declarator(i)
        if d is None:
            return None
        i, t, n, _ = d
        if not self.at(i, '('):
            return None
        i = self.skip(i + 1)
        out = []
        j = i
        while True:
            a = self.type(j)
            b = self.name(a[0]) if a is not None else None
            if b is None:
                break
            i = b[0]
            out.append(tup(a[1], b[1]))
            j = self.skip(i)
            if not self.at(j, ','):
                break
            j = j + 1
        i = self.skip(i)
        if not self.at(i, ')'):
            return None
        return i + 1, self.mk('Statement', 'FunctionDecl', _0=self.mk('FunctionDecl', ret_ty=t, name=n, args=('L', tuple(out))))

    def var_decl(self, i):
        d = self.declarator(i)
        if d is None:
            return None
        i, t, n, st = d
        if not self.at(i, '='):
            return None
        x = self.expr(i + 1)
        if x is None:
            return None
        return x[0], self.mk('Statement', 'VarDecl', _0=self.mk('VarDecl', ty=t, name=n, rhs=x[1], is_static=('i', 1 if st else 0)))

    def semi(self, r):
        if r is None:
            return None
        i, v = r
        j = self.skip(i)
        if j != i and (self.at(j, ';') or j == len(self.toks)):
            self.soft = True
        if self.at(j, ';'):
            return j + 1, v
        return (j, v) if j == len(self.toks) else None

    def parameters(self, i):
        out = []
        n = len(self.toks)
        i = self.skip(i)
        while self.kind(i) == 'Identifier':
            out.append(self.text(i))
            i = self.skip(i + 1)
        if self.at(i, '...'):
            out.append(('s', '...'))
            i = self.skip(i + 1)
        return (i, ('L', tuple(out))) if i == n else None

    def block(self, i):
        r = self.single(i)
        if r is None:
            return None
        if self.c.p.variants(r[1][1])[r[1][2]]['name'] == 'Block':
            return r[0], r[1][3][0]
        return r[0], ('L', (r[1],))

    def single(self, i):
        st = lambda v, **f: self.mk('Statement', v, **f)
        if self.kw(i, 'if'):
            r = self.paren(self.skip(i + 1), self.expr)
            b = self.block(r[0]) if r is not None else None
            if b is not None:
                j = self.skip(b[0])
                e = None
                if self.kw(j, 'else'):
                    e = self.block(self.skip(j + 1))
                if e is not None:
                    return e[0], st('If', condition=r[1], if_branch=b[1], else_branch=e[1])
                return b[0], st('If', condition=r[1], if_branch=b[1], else_branch=('L', ()))
            self.soft = True
        if self.kw(i, 'do'):
            b = self.block(self.skip(i + 1))
            r = self.paren(b[0] + 1, self.expr) if b is not None and self.kw(b[0], 'while') else None
            if r is not None:
                j = r[0]
                if self.at(j, ';'):
                    self.soft = True
                    j += 1
                return j, st('DoWhile', block=b[1], condition=r[1])
            self.soft = True
        if self.at(i, '{'):
            j, out = self.skip(i + 1), []
            while True:
                r = self.single(j)
                if r is None:
                    break
                out.append(r[1])
                j = self.skip(r[0])
            if self.at(j, '}'):
                j += 1
                if self.at(j, ';'):
                    j += 1
                return j, st('Block', _0=('L', tuple(out)))
        r = self.semi(self.fn_decl(i)) or self.semi(self.var_decl(i))
        if r is not None:
            return r
        r = self.semi(self.expr(i))
        return None if r is None else (r[0], st('Expr', _0=r[1]))

    def statement(self, i):
        out = []
        i = self.skip(i)
        while i < len(self.toks):
            r = self.single(i)
            if r is None:
                break
            out.append(r[1])
            i = self.skip(r[0])
        return i, out[0] if len(out) == 1 else self.mk('Statement', 'Block', _0=('L', tuple(out)))

    def asm_body(self, i):
        # an assembly statement, see asmspec
        self.vague = True

    def body(self, i):
        i = self.skip(i)
        n = len(self.toks)
        if i == n:
            return n, self.mk('MacroBody', 'Statement', _0=self.mk('Statement', 'Block', _0=('L', ())))
        if self.kind(i + 1) == 'Punctuation' and any(self.kw(i, k) for k in ASM) and self.at(i + 1, '('):
            return self.asm_body(i)
        r = self.expr(i)
        if r is not None and r[0] == n:
            return n, self.mk('MacroBody', 'Expr', _0=r[1])
        if r is not None and self.skip(r[0]) == n:
            self.vague = True    # an expression with a comment behind it
        r = self.statement(i)
        if r is not None and r[0] == n:
            return n, self.mk('MacroBody', 'Statement', _0=r[1])
        return None


def run(c, key, toks, st=None, handlers=None, rec=12, args=None):
    """The outcomes of a parser on the tokens."""
    f = c.fn(key)
    st = st or State()
    st.cells['@toks'] = ('L', tuple(toks))
    E = Engine(c.p, handlers=handlers or {})
    E.maxdepth = 900
    E.reclimit = lambda fn: rec
    try:
        outs = E.run(f, args or [('R', '@toks', ())], st)
    finally:
        c.functions |= E.inlined
        c.steps += E.steps
        for k, n in E.unmodelled.items():
            c.all_strange[k] = c.all_strange.get(k, 0) + n
    c.outcomes += len(outs)
    return f, E, term.Renderer(c.p, E), outs


def outcome(E, s, v):
    """-> [(state, rest, value) | (state, None, None)]"""
    v = E.snap(s, v)
    if v[0] == 'A' and v[1] == RES:
        if v[2] != 0:
            return [(s, None, None)]
        x = v[3][0]
        return [(s, E.snap(s, x[3][0]), E.snap(s, x[3][1]))]
    out = []
    for s2, k in E.fork_variant(s, v, RES):
        out.append((s2, ('fld', ('fld', v, 'Ok', '0'), None, '0'), ('fld', ('fld', v, 'Ok', '0'), None, '1')) if k == 0 else (s2, None, None))
    return out


def compare(c, key, ref, spec, handlers=None, prefix=False):
    """Runs the parser `key` on the tokens and compares each outcome with Ref.<ref>.
    -> list of (message or None, facts text)"""
    toks = Tokens(c).parse(spec)
    f, E, R, outs = run(c, key, toks, handlers=handlers)
    res = []
    shown = ' '.join(show(R, t) for t in toks)
    strange = {k: n for k, n in E.unmodelled.items()}
    for s, v in outs:
        for s1, rest, val in outcome(E, s, v):
            stack = [s1.copy()]
            while stack:
                s2 = stack.pop()
                w = Ref(c, E, s2, toks)
                try:
                    exp = getattr(w, ref)(0)
                    m = judge(w, R, exp, rest, val, len(toks))
                except Fork as fk:
                    stack += fk.states
                    continue
                except Impossible:
                    continue
                res.append((m, R.facts(w.st)))
    pan = [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    return dict(spec=shown, res=res, panics=pan, where=c.where(f), strange=strange, outcomes=len(outs))


def show(R, t):
    x = t[3][0]
    if x[0] == 'A' and len(x[3]) == 1 and x[3][0][0] in ('s', 'in'):
        return x[3][0][1]
    if x[0] == 'in':
        return '/**/'
    return R.v(x)


def judge(w, R, exp, rest, val, n):
    whole = rest is not None and rest == ('L', ())
    if w.vague:
        return None
    if rest is not None and rest[0] != 'L':
        return 'leaves %s' % R.v(rest)
    want = exp is not None and w.skip(exp[0]) == n
    if want and exp[0] != n:
        # only comments are left
        want = whole
    if not whole:
        if want and not w.soft:
            return 'is not understood, instead of %s' % R.v(exp[1])
        return None
    if not want:
        return 'is understood as %s although it is not C' % R.v(val)
    if not w.eqv(val, exp[1]):
        return 'is understood as\n      %s\n    instead of\n      %s' % (R.v(val), R.v(exp[1]))
    return None


# ------------------------------------------------------------------ many templates in parallel

_JOB = {}


def _work(job):
    i, (key, ref, spec) = job
    c = _JOB['c']
    before = (set(c.functions), c.steps, c.outcomes, dict(c.all_strange))
    c.functions, c.steps, c.outcomes, c.all_strange = set(), 0, 0, {}
    import sys, threading
    box = {}

    def go():
        try:
            if key.startswith('asm '):
                from . import asmspec
                box['r'] = asmspec.compare(c, key[4:], ref, spec)
            else:
                box['r'] = compare(c, key, ref, spec)
        except Exception as e:  # noqa
            box['e'] = '%s: %s' % (type(e).__name__, e)
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return i, box.get('r'), box.get('e'), (c.functions, c.steps, c.outcomes, c.all_strange)


KINDS = ('⊙%s', '?%s', '$0', '/**/', '"%s"', '¶%s')


def expand(spec):
    """Splits a template by its unknown tokens (@n) and by the first of several unknown punctuators, so that the cases can be analysed in parallel."""
    xs = spec.split()
    for i, x in enumerate(xs):
        if x.startswith('@'):
            return [y for k in KINDS for y in expand(' '.join(xs[:i] + [k % x[1:] if '%' in k else k] + xs[i + 1:]))]
    for i, x in enumerate(xs):
        if x.startswith('⊙'):
            if sum(y.startswith('⊙') for y in xs) < 2:
                return [spec]
            return [' '.join(xs[:i] + [p] + xs[i + 1:]) for p in PUNCTS]
    return [spec]


def check(c, jobs, what, floor, judge_panics=False):
    """jobs: [(key, ref, template)]; adds the obligations"""
    todo = []
    for key, ref, spec in jobs:
        for s in expand(spec):
            todo.append((key, ref, s))
    for key in {k for k, _, _ in jobs}:
        c.fn(key.split(' ')[-1])
    _JOB['c'] = c
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        got = sorted(pool.imap_unordered(_work, list(enumerate(todo)), chunksize=1))
    n = 0
    for i, r, e, (fns, steps, outs, strange) in got:
        c.functions |= fns
        c.steps += steps
        c.outcomes += outs
        for k, x in strange.items():
            c.all_strange[k] = c.all_strange.get(k, 0) + x
        key, ref, spec = todo[i]
        if e is not None:
            c.undecided.append(('%s: %s' % (what, spec), e))
            continue
        if r['strange']:
            c.strange = {k: v for k, v in r['strange'].items()}
            c.fresh = True
        else:
            c.strange = {}
        for m, facts in r['res']:
            n += 1
            c.ob('%s: `%s`' % (what, r['spec']), m is None, '`%s` %s\n    when %s' % (r['spec'], m, facts), r['where'])
    c.strange = {}
    c.floor('cases of ' + what, n, floor)
    return n
