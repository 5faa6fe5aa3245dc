"""Specification of the generated code of every node except the operators (see checks/c09, c10): which
parts appear, in which order and in which Rust construct.  Compared with the token template the
abstract interpreter computes for `to_tokens` / `to_token_stream` in every case."""
from .gen import *
from .spec import World, Fork, Impossible
from .engine import is_sym, State, OPT
from .finspec import canon, subterms

CX = ('in', '@ctx')
LIMITS = dict(__SCHAR_MAX__='c_schar', __SHRT_MAX__='c_short', __INT_MAX__='c_int', __LONG_MAX__='c_long', __LONG_LONG_MAX__='c_longlong')


class Each:
    def __init__(self, coll, fn, sep=',', skip=None):
        self.coll, self.fn, self.sep, self.skip = coll, fn, sep, skip


class Mismatch(Exception):
    pass


class Msg(str):
    """A mismatch; kind is 'prefix' (only a path prefix differs), 'version' (only a `'static`),
    'parts' (the parts or their order differ) or 'form'."""
    kind = 'form'


def unprefixed(t):
    """`t` without path prefixes, configured or written out"""
    return ' '.join(re.sub(r'(⟨(TP|FFI)⟩|(:: )?\b(core|std|alloc|libc)) ::', ' ', t).split())


def mismatch(got, exp):
    m = Msg('is\n      %s\n    instead of\n      %s' % (got, exp))
    z = unprefixed
    holes = lambda t: re.findall(r'⟨[^⟩]*⟩', z(t))
    m.kind = 'prefix' if z(got) == z(exp) else 'version' if z(got).replace("'static ", '') == z(exp).replace("'static ", '') else 'parts' if holes(got) != holes(exp) else 'form'
    return m


class G(World):
    def __init__(self, c, E, st, tp, ffi):
        World.__init__(self, E, st)
        self.c = c
        self.TP = '⟨TP⟩ ::' if tp else ''
        self.FFI = '⟨FFI⟩ ::' if ffi else ''

    def t(self, x):
        return '⟨%s⟩' % self.c.R.v(canon(('tok', x)))

    def is_(self, v, adt, variant):
        return self.tag(v, self.c.adt(adt)) == variant

    def as_(self, v, adt, variant):
        return self.fld(v, variant, '0') if self.is_(v, adt, variant) else None

    def ask(self, q, *args):
        return ('call', 'context::CodegenContext::' + q, ('fld', CX, None, 'global_context')) + args

    def static(self):
        return '' if self.truth(('fld', CX, None, 'static_lifetime_elision')) else "'static"

    def cstr(self, *body):
        return ['{ const BYTES : &', self.static(), '[ u8 ] =', self.TP, 'concat ! (', *body, ", '\\0' ) . as_bytes ( ) ; BYTES . as_ptr ( ) as * const", self.FFI, 'c_char }']

    def arg_name(self, i):
        return ('at', ('fld', CX, None, 'arg_names'), i)

    def id(self, x):
        return '⟨id %s⟩' % self.c.R.v(canon(x))


def g_call(w):
    off = False
    n = w.as_(F(S, 'name'), 'IdentifierExpr', 'Plain')
    if n is not None and w.streq(F(n, 'id'), '__builtin_offsetof'):
        off = w.cmp('Eq', ('len', F(S, 'args')), ('i', 2))
    return [w.TP + ' mem :: offsetof !' if off else w.t(F(S, 'name')), '(', Each(F(S, 'args'), lambda w, e: g_arg(w, e, off)), ')']


def g_arg(w, e, off):
    """Arguments may be converted (`.into()`), which is not part of this rule."""
    return [w.t(e)]


def g_fndecl(w):
    return ['extern "C" { pub fn', w.t(F(S, 'name')), '(', Each(F(S, 'args'), lambda w, e: [w.t(F(e, '1')), ':', w.t(F(e, '0'))]), ') ->', w.t(F(S, 'ret_ty')), '; }']


def g_vardecl(w):
    return ['static mut' if w.truth(F(S, 'is_static')) else 'let mut', w.t(F(S, 'name')), ':', w.t(F(S, 'ty')), '=', w.t(F(S, 'rhs'))]


def stringify_inner(w, x):
    v = w.as_(F(x, 'arg'), 'Expr', 'Var')
    inner = ''
    if v is not None:
        n = F(v, 'name')
        k = w.tag(n, w.c.adt('IdentifierExpr'))
        if k == 'Arg':
            inner = '$ ' + w.id(w.arg_name(F(n, 'Arg.0', 'index')))
        elif k == 'Plain':
            i = F(n, 'Plain.0', 'id')
            if w.streq(i, '__LINE__'):
                inner = w.TP + ' line ! ( )'
            elif w.streq(i, '__FILE__'):
                return [w.TP, 'format ! ( "{:?}" ,', w.TP, 'file ! ( ) )']
    return [w.TP, 'stringify ! (', inner, ')']


def g_stringify(w):
    return w.cstr(*stringify_inner(w, S))


def g_var(w):
    n = F(S, 'name')
    p = w.as_(n, 'IdentifierExpr', 'Plain')
    if p is None:
        return [w.t(n)]
    i = F(p, 'id')
    if w.streq(i, '__LINE__'):
        return [w.TP, 'line ! ( ) as', w.FFI, 'c_uint']
    if w.streq(i, '__FILE__'):
        return w.cstr(w.TP, 'file ! ( )')
    for name, t in LIMITS.items():
        if w.streq(i, name):
            return [w.FFI, t, ':: MAX']
    r = w.opt(w.ask('resolve_enum_variant', i))
    if r is not None:
        return ['⟨%s⟩' % w.c.R.v(canon(F(r, '1')))]
    return [w.t(n)]


def g_macroarg(w):
    n = w.arg_name(F(S, 'index'))
    if w.streq(n, '...'):
        return ['$ ( $ __VA_ARGS__ ) , *']
    return ['$' if w.truth(F(CX, 'export_as_macro')) else '', w.id(n)]


def g_ternary(w):
    return ['if', w.t(F(S, 'condition')), '{', w.t(F(S, 'if_branch')), '} else {', w.t(F(S, 'else_branch')), '}']


def g_identexpr(w):
    k = w.tag(S, w.c.adt('IdentifierExpr'))
    if k == 'Arg':
        return [w.t(F(S, 'Arg.0'))]
    if k == 'Plain':
        return [w.id(F(S, 'Plain.0', 'id'))]

    def part(w, e):
        k = w.tag(e, w.c.adt('IdentifierContinuationExpr'))
        return [w.id(F(e, 'Plain.0', 'id')) if k == 'Plain' else w.t(F(e, k + '.0'))]
    return [w.TP, 'concat_idents ! (', Each(F(S, 'Concat.0'), part), ')']


INTS = [('i8', -2**7, -1), ('i16', -2**15, -1), ('i32', -2**31, -1), ('i64', -2**63, -1), ('u8', 0, 2**8 - 1), ('u16', 0, 2**16 - 1), ('u32', 0, 2**32 - 1), ('u64', 0, 2**64 - 1)]


def g_cast(w):
    ty, e = F(S, 'ty'), F(S, 'expr')
    T = w.c.adt('Type')
    l = w.as_(e, 'Expr', 'Literal')
    i = None if l is None else w.as_(l, 'Lit', 'Int')
    tk = w.tag(ty, T)
    if i is not None and w.cmp('Eq', F(i, 'value'), ('i', 0)):
        if tk == 'Ptr':
            return [w.TP, 'ptr :: null_mut ( )']
        if tk == 'Qualified' and w.tag(F(ty, 'Qualified.ty'), T) == 'Ptr' and w.tag(F(ty, 'Qualified.qualifier'), w.c.adt('TypeQualifier')) in ('Const', 'ConstVolatile'):
            return [w.TP, 'ptr :: null ( )']
    void = False
    if tk == 'BuiltIn':
        void = w.is_(F(ty, 'BuiltIn.0'), 'BuiltInType', 'Void')
    elif tk == 'Qualified' and w.tag(F(ty, 'Qualified.ty'), T) == 'BuiltIn':
        void = w.is_(F(ty, 'Qualified.ty', 'BuiltIn.0'), 'BuiltInType', 'Void') and False
    if void:
        return ['{ let _0 =', w.t(e), '; }']
    if i is not None:
        return ['INTLIT', F(i, 'value'), 'as', w.t(ty)]
    return [w.t(e), 'as', w.t(ty)]


def g_expr(w):
    X = w.c.adt('Expr')
    k = w.tag(S, X)
    if k == 'SizeOf':
        B = w.c.adt('BuiltInType')
        return [w.TP, 'mem :: size_of :: <', w.t(F(S, 'SizeOf.0')), '> ( ) as', w.t(('A', B, w.p.vidx(B, 'SizeT'), ()))]
    if k == 'ConcatString':
        def part(w, e):
            k = w.tag(e, X)
            if k == 'Var':
                n = w.as_(F(e, 'Var.0', 'name'), 'IdentifierExpr', 'Plain')
                if n is not None and w.streq(F(n, 'id'), '__FILE__'):
                    return [w.TP, 'file ! ( )']
            elif k == 'Stringify':
                return stringify_inner(w, F(e, 'Stringify.0'))
            elif k == 'Literal':
                s = w.as_(F(e, 'Literal.0'), 'Lit', 'String')
                if s is not None:
                    # strings that are not valid UTF-8 have been rejected (C22)
                    k = w.tag(s, w.c.adt('LitString'))
                    x = F(s, k + '.0')
                    if k == 'Ordinary':
                        x = ('from_utf8', x)
                        if not w.is_ok(x):
                            raise Impossible()
                        x = w.fld(x, 'Ok', '0')
                    elif k == 'Wide':
                        raise Impossible()
                    return ['⟨%s⟩' % w.c.R.v(canon(x))]
            return [w.t(e)]
        return w.cstr(Each(F(S, 'ConcatString.0'), part))
    return [w.t(F(S, k + '.0'))]


def each_stmt(coll, sep=''):
    return Each(coll, lambda w, e: [w.t(e)], sep)


def g_stmt(w):
    k = w.tag(S, w.c.adt('Statement'))
    if k == 'FunctionDecl':
        return [w.t(F(S, k + '.0'))]
    if k in ('Asm', 'Expr', 'VarDecl'):
        return [w.t(F(S, k + '.0')), ';']
    if k == 'Block':
        return ['{', each_stmt(F(S, 'Block.0')), '}']
    if k == 'If':
        r = ['if', w.t(F(S, 'If.condition')), '{', each_stmt(F(S, 'If.if_branch')), '}']
        els = F(S, 'If.else_branch')
        if not w.empty(els):
            r += ['else {', each_stmt(els, ';'), '}']
        return r
    assert k == 'DoWhile', 'no rule for statement ' + k
    return ['loop {', each_stmt(F(S, 'DoWhile.block')), 'if', w.t(F(S, 'DoWhile.condition')), '{ continue } break }']


def g_type(w):
    T = w.c.adt('Type')
    k = w.tag(S, T)
    if k == 'BuiltIn':
        return [w.t(F(S, 'BuiltIn.0'))]
    if k == 'Identifier':
        return [w.t(F(S, 'Identifier.name'))]
    if k == 'Path':
        return ['::' if w.truth(F(S, 'Path.leading_colon')) else '', Each(F(S, 'Path.segments'), lambda w, e: [w.id(F(e, 'id'))], '::')]
    if k == 'Ptr':
        return ['* mut', w.t(F(S, 'Ptr.ty'))]
    assert k == 'Qualified', 'no rule for type ' + k
    q = w.tag(F(S, 'Qualified.qualifier'), w.c.adt('TypeQualifier'))
    if w.tag(F(S, 'Qualified.ty'), T) == 'Ptr' and q in ('Const', 'ConstVolatile'):
        return ['* const', w.t(F(S, 'Qualified.ty', 'Ptr.ty'))]
    return [w.t(F(S, 'Qualified.ty'))]


BUILTIN = dict(Float='f32', Double='f64', LongDouble='f64', Bool='bool', Char8T='u8', Char16T='u16', Char32T='u32')
C_NAMES = dict(Char='c_char', SChar='c_schar', UChar='c_uchar', Short='c_short', UShort='c_ushort', Int='c_int', UInt='c_uint', Long='c_long', ULong='c_ulong',
               LongLong='c_longlong', ULongLong='c_ulonglong', SSizeT='c_ssize_t', Void='c_void')


def g_builtin(w):
    k = w.tag(S, w.c.adt('BuiltInType'))
    if k in BUILTIN:
        return [BUILTIN[k]]
    if k in C_NAMES:
        return [w.FFI, C_NAMES[k]]
    assert k == 'SizeT', 'no rule for type ' + k
    return None


def g_lit(w):
    k = w.tag(S, w.c.adt('Lit'))
    if k == 'String':
        return ['⟨%s⟩' % w.c.R.v(('fld', ('tok', F(S, 'String.0')), None, '1'))]
    return [w.t(F(S, k + '.0'))]


def g_float(w):
    k = w.tag(S, w.c.adt('LitFloat'))
    r = 'f32' if k == 'Float' else 'f64'
    x = F(S, k + '.0')
    return ('float', r, x)


def g_int(w):
    return ['⟨i128_unsuffixed %s⟩' % w.c.R.v(F(S, 'value'))]


SPECS = {
    'FunctionCall': g_call, 'FunctionDecl': g_fndecl, 'VarDecl': g_vardecl, 'Stringify': g_stringify, 'Var': g_var, 'MacroArg': g_macroarg,
    'TernaryExpr': g_ternary, 'IdentifierExpr': g_identexpr, 'Cast': g_cast, 'Expr': g_expr, 'Statement': g_stmt, 'Type': g_type,
    'BuiltInType': g_builtin, 'Lit': g_lit, 'LitInt': g_int,
}


def norm_text(s):
    return ' '.join(s.split())


def text(R, items, reps):
    """Token text with repetitions replaced by numbered marks (appended to reps)."""
    def sub(its):
        out = []
        for x in its:
            if x[0] == 'rep':
                reps.append(x)
                out.append(('hole', ('in', 'EACH%d' % len(reps))))
            elif x[0] == 'tk' and x[1] == 'g':
                out.append(('tk', 'g', x[2], tuple(sub(x[3]))) + tuple(x[4:]))
            else:
                out.append(x)
        return out
    return norm_text(alpha(R.ts(canon(tuple(sub(strip_parens(items)))))))


def loop_elems(terms):
    el = []
    subterms(terms, el)
    return el


def compare(c, E, R, st, items, spec, tp, ffi, extra=None):
    """Mismatch text or None for every case of the outcome."""
    reps = []
    got = text(R, items, reps)

    def body(w):
        w.items = items
        w.empty = lambda coll: is_empty(c, E, w, coll)
        want = spec(w)
        if want is None:
            return None
        if isinstance(want, tuple):
            return SPECIAL[want[0]](w, got, *want[1:])
        return match(c, E, R, w, got, reps, want, tp, ffi)
    stack = [st.copy()]
    n = 0
    while stack:
        s = stack.pop()
        n += 1
        if n > 20000:
            raise RuntimeError('too many cases')
        w = G(c, E, s, tp, ffi)
        try:
            r = body(w)
        except Fork as fk:
            stack += fk.states
            continue
        except Impossible:
            continue
        yield w, r


def int_text(w, got, x):
    """The text of the smallest suffixed literal for the value x in this case."""
    for name in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'i128', 'u128'):
        for y in (('as', 'i128', name, x), x):
            yield name, '⟨%s_suffixed %s⟩' % (name, w.c.R.v(canon(y)))
    yield None, '⟨i128_unsuffixed %s⟩' % w.c.R.v(canon(x))


RANGE = {n: (-2**(int(n[1:]) - 1), 2**(int(n[1:]) - 1) - 1) if n[0] == 'i' else (0, 2**int(n[1:]) - 1) for n in ('i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128')}


def match(c, E, R, w, got, reps, want, tp, ffi):
    parts, eachs = [], []
    i = 0
    while i < len(want):
        x = want[i]
        if isinstance(x, Each):
            eachs.append(x)
            parts.append('⟨EACH%d⟩' % len(eachs))
        elif x == 'INTLIT':
            i += 1
            v = want[i]
            found = [(n, t) for n, t in int_text(w, got, v) if t in got]
            if not found:
                return 'the value %s is not generated as a literal: %s' % (R.v(v), got)
            n, t = found[0]
            if n is not None:
                lo, hi, _ = E.interval(w.st, v) if hasattr(E, 'interval') else w.st.facts.get(('N', v), (None, None, ()))
                a, b = RANGE[n]
                if lo is None and n != 'i128' or hi is None and n != 'i128' or lo is not None and lo < a or hi is not None and hi > b:
                    return 'the value %s between %s and %s is generated as a literal of type %s' % (R.v(v), lo, hi, n)
            parts.append(t)
        else:
            parts.append(x)
        i += 1
    exp = norm_text(alpha(norm_text(' '.join(p for p in parts if p))))
    if exp != got and exp != norm_text(got.replace('. into ( )', '')):
        return mismatch(got, exp)
    for rep, each in zip(reps, eachs):
        m = check_each(c, E, R, rep, each, tp, ffi)
        if m:
            return m
    return None


def strip_sep(items, sep):
    items = list(items)
    if not sep:
        return items
    if items and items[0] == ('tk', 'p', sep):
        items = items[1:]
    if items and items[-1] == ('tk', 'p', sep):
        items = items[:-1]
    return items


def check_each(c, E, R, rep, each, tp, ffi):
    """Every element of the collection contributes exactly its code, in order."""
    seen = 0
    for b, items in E.suffixes(rep[1], rep[2]):
        seen += 1
        items = strip_sep(items, each.sep)
        if len(items) == 1 and items[0][0] == 'hole' and items[0][1][0] == 'elem' and items[0][1][1][0] == 'L':
            inner = items[0][1][1][1]
            if len(inner) == 1 and inner[0][0] == 'rep':
                m = check_each(c, E, R, inner[0], Each(each.coll, each.fn, ''), tp, ffi)
                if m:
                    return m
                continue
        if len(items) == 1 and items[0][0] == 'TS':
            items = list(items[0][1])
        items = [x if x[0] in ('tk', 'hole', 'rep', 'splat') else ('hole', x) for x in items]
        el = [e for e in loop_elems((tuple(items), tuple(b.facts))) if canon(e[1]) == canon(each.coll)]
        if not el:
            return 'a repetition emits "%s", which is not the code of an element of %s' % (R.ts(canon(tuple(items))), R.v(canon(each.coll)))
        e = el[0]
        for w, m in compare(c, E, R, b, tuple(items), lambda w: each.fn(w, e), tp, ffi):
            if m:
                r = Msg('for an element of %s when %s: %s' % (R.v(canon(each.coll)), R.facts(w.st), m))
                r.kind = getattr(m, 'kind', 'parts')
                return r
    if not seen:
        return 'the repetition over %s emits nothing' % R.v(canon(each.coll))
    return None


def is_empty(c, E, w, coll):
    """Is the collection (or a list made of one item per element of it) empty?"""
    if ('N', ('len', coll)) in w.st.facts or any(k[0] == 'B' and canon(('len', coll)) in canon(k) for k in w.st.facts):
        return w.cmp('Eq', ('len', coll), ('i', 0))
    for k in list(w.st.facts):
        if k[0] == 'N' and k[1][0] == 'len' and k[1][1][0] == 'L' and len(k[1][1][1]) == 1 and k[1][1][1][0][0] == 'rep':
            rep = k[1][1][1][0]
            for b, items in E.suffixes(rep[1], rep[2]):
                if any(canon(e[1]) == canon(coll) for e in loop_elems((tuple(items), tuple(b.facts)))):
                    return w.cmp('Eq', k[1], ('i', 0))
    return w.cmp('Eq', ('len', coll), ('i', 0))


def special_float(w, got, r, x):
    R = w.c.R
    v = R.v(x)
    lit = '⟨%s_unsuffixed %s⟩' % (r, v)
    f = w.st.facts.get(('V', ('classify', x)))
    sign = w.st.facts.get(('B', ('is_sign_positive', x)))
    if got == norm_text('%s %s :: NAN' % (w.TP, r)):
        ok = f == frozenset([0])
    elif got == norm_text('%s %s :: INFINITY' % (w.TP, r)):
        ok = f == frozenset([1]) and sign is True
    elif got == norm_text('%s %s :: NEG_INFINITY' % (w.TP, r)):
        ok = f == frozenset([1]) and sign is False
    elif got == lit:
        ok = f is not None and not (f & {0, 1})
    else:
        ok = False
    return None if ok else 'a floating-point number is generated as %s' % got


def special_char(w, got, size, x):
    # the code as a character, or as a number of at least its own size
    R = w.c.R
    src = 'u%d' % size
    code = [x] if size == 32 else [('as', src, 'u32', x)]
    ok = []
    for y in code:
        if w.st.facts.get(('V', ('from_u32', y))) == frozenset([1]):
            ok.append('⟨character %s⟩' % R.v(('fld', ('from_u32', y), 'Some', '0')))
    if size == 8:
        ok += ['⟨character %s⟩' % R.v(('as', 'u8', 'char', x)), '⟨byte_character %s⟩' % R.v(x)]
    for n in (8, 16, 32, 64, 128):
        for s in 'u', 'i':
            if n > size or n == size and s == 'u':
                y = x if n == size else ('as', src, '%s%d' % (s, n), x)
                ok += ['⟨%s%d_%s %s⟩' % (s, n, k, R.v(y)) for k in ('suffixed', 'unsuffixed')]
    if got in ok:
        return None
    return 'a character is generated as %s' % got


def g_char(w):
    k = w.tag(S, w.c.adt('LitChar'))
    return ('char', dict(Ordinary=8, Utf8=8, Utf16=16, Utf32=32, Wide=32)[k], F(S, k + '.0'))


SPECIAL = {'float': special_float, 'char': special_char}
SPECS['LitFloat'] = g_float
SPECS['LitChar'] = g_char


def outcomes(c, node, tp=True, ffi=True, st=None):
    """[(state, token items)] of the node's code generation."""
    name = node + ('::to_tokens' if c.has(node + '::to_tokens') and node != 'Stringify' else '::to_token_stream')
    f = c.fn(name)
    s0 = st or State()
    H = gen_handlers(tp, ffi)
    sink = ('R', ('in', '@ts'), ())
    if f['argc'] == 3:
        s0.cells[('in', '@ts')] = ('TS', ())
        E, R, outs = c.run(f, [S, CTX, sink], s0, H)
        res = [(s, E.snap(s, E.rd(s, sink))) for s, _ in outs]
    else:
        E, R, outs = c.run(f, [S, CTX], s0, H)
        res = [(s, E.snap(s, v)) for s, v in outs]
    return f, E, R, [(s, v[1] if v[0] == 'TS' else (('hole', v),)) for s, v in res]


def analyse(c, node, tp=True, ffi=True):
    """-> f, [(mismatch or None, facts)]"""
    f, E, R, outs = outcomes(c, node, tp, ffi)
    res = []
    for s, items in outs:
        for w, m in compare(c, E, R, s, items, SPECS[node], tp, ffi):
            res.append((m, R.facts(w.st)))
    return f, E, res
