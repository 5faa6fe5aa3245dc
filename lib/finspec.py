"""Specification of the checking phase (`finish`): for every node kind which parts are checked, which
type results, what is recorded about parameters, when the code has to become a macro, and how constant
expressions are rewritten.  Compared outcome by outcome with the abstract semantics of the code.

Aspects of a mismatch:
  visit   a part is not checked, or something else is            (C19)
  error   a failure is not propagated, or an unknown one raised  (C22)
  const   a non-constant is accepted / treated as constant       (C17)
  type    the resulting type                                     (C31)
  frag    what is recorded about a macro parameter               (C29)
  macro   when the code must be exported as a macro              (C18)
  fold    the rewritten expression                               (C23)
"""
from .gen import *
from .spec import World, Fork, Impossible
from .engine import OPT, RES, is_sym, State, mkfcmp

CTXC = ('in', '@ctx')
CX = ('in', '@ctx')
GC = ('fld', CX, None, 'global_context')


def canon(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'elem':
        return ('elem', canon(t[1]))
    if t and t[0] == 'sub' and len(t) > 2:
        pass
    return tuple(canon(x) for x in t)


def subterms(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'elem':
            out.append(t)
        for x in t:
            subterms(x, out)


class Mismatch(Exception):
    def __init__(self, aspect, msg):
        self.aspect, self.msg = aspect, msg


class Rejected(Exception):
    """The specification demands an error here."""
    def __init__(self, aspect, why):
        self.aspect, self.why = aspect, why


class W(World):
    """World with the specification's vocabulary."""

    def __init__(self, c, E, st, visited):
        World.__init__(self, E, st)
        self.c = c
        self.visited = visited
        self.visits = []
        self.sets = {}
        self.regs = []
        self.over = {}

    # -- vocabulary
    def A(self, name):
        return self.c.adt(name)

    def T(self, name):
        T, B = self.A('Type'), self.A('BuiltInType')
        return ('A', T, self.p.vidx(T, 'BuiltIn'), (('A', B, self.p.vidx(B, name), ()),))

    def mk(self, adt, variant=None, **f):
        a = self.A(adt)
        i = self.p.vidx(a, variant) if variant else 0
        return ('A', a, i, tuple(f[x['name']] if x['name'] in f else f['_' + x['name']] for x in self.p.variants(a)[i]['fields']))

    def const_char_ptr(self):
        return self.qual(self.ptr(self.T('Char')), 'Const')

    def ptr(self, t):
        return self.mk('Type', 'Ptr', ty=t)

    def qual(self, t, q):
        return self.mk('Type', 'Qualified', ty=t, qualifier=self.mk('TypeQualifier', q))

    def is_(self, v, adt, variant):
        return self.tag(v, self.A(adt)) == variant

    def as_(self, v, adt, variant):
        """payload field `0` of the variant or None"""
        return self.fld(v, variant, '0') if self.is_(v, adt, variant) else None

    def _see(self, x, what):
        if canon(x) not in self.visited:
            raise Mismatch('visit', '%s is not checked' % self.c.R.v(canon(x)))
        if self.idx((what, x), RES) == 1:
            raise Mismatch('error', 'the failure of checking %s is ignored' % self.c.R.v(canon(x)))

    def visit(self, x, what='finr'):
        """x has to be checked; -> its type"""
        self.visits.append(x)
        self._see(x, what)
        self.over[x] = ('done', x)
        return ('fld', (what, x), 'Ok', '0')

    def visit_condition(self, x):
        return self.visit(x, 'finc')

    def conv(self, ty):
        """The C type of a Rust type."""
        f = self.opt(('call', 'context::CodegenContext::ffi_prefix', GC)) if False else ('in', 'FFI')
        t = ('conv', ty, ('A', OPT, 1, (f,)))
        if self.idx(t, RES) == 1:
            raise Mismatch('error', 'the failure of converting %s is ignored' % self.c.R.v(ty))
        return ('fld', t, 'Ok', '0')

    def ask(self, query, *args):
        return ('call', 'context::CodegenContext::' + query, GC) + args

    def set(self, path, v):
        self.sets[path] = v

    def macro(self):
        self.sets[('export_as_macro',)] = ('i', 1)

    def arg_type(self, i):
        k = ('arg_types', i)
        return self.sets.get(k, ('at', ('fld', CX, None, 'arg_types'), i))

    def cur_arg_type(self, i):
        """the recorded kind of parameter i, after what has been recorded so far"""
        base = ('fld', CX, None, 'arg_types')
        plain = ('at', base, i)
        T = self.A('MacroArgType')
        # what the code found out about the list as it was after the first change
        later = [(k[1], x) for k, x in self.st.facts.items() if k[0] == 'V' and k[1][0] == 'at' and k[1][1][0] == 'U' and k[1][1][1] == base and k[1][2] == i]
        for k, v in reversed(list(self.sets.items())):
            if k[0] == 'arg_types' and self.same(k[1], i):
                if v[0] == 'A' and any(v[2] not in x for _, x in later):
                    raise Impossible()
                return v
        for _, x in later:
            have = self.st.facts.get(('V', plain))
            new = x if have is None else have & x
            if not new:
                raise Impossible()
            self.st.facts[('V', plain)] = new
        return plain

    def frag(self, i, v):
        self.sets[('arg_types', i)] = v if v[0] == 'A' else v

    def plain_arg(self, e):
        """index if e is an expression consisting of one macro parameter"""
        v = self.as_(e, 'Expr', 'Var')
        if v is None:
            return None
        n = self.fld(v, None, 'name')
        a = self.as_(n, 'IdentifierExpr', 'Arg')
        return None if a is None else self.fld(a, None, 'index')

    def each(self, coll, fn, aspect='visit'):
        self.regs.append((coll, fn, aspect))

    def same(self, a, b):
        r = self.E.eq(self.st, a, b)
        if len(r) > 1:
            raise Fork([s for s, _ in r])
        if not r:
            raise Impossible()
        self.st = r[0][0]
        return self.truth(r[0][1])

    def agree(self, l, r):
        if self.same(l, r):
            return l
        lo, ro = self.opt(l), self.opt(r)
        if lo is not None and ro is None:
            return ('A', OPT, 1, (lo,))
        if ro is not None and lo is None:
            return ('A', OPT, 1, (ro,))
        return NONE

    # -- comparison of values
    def eqv(self, a, b):
        if a == b or canon(a) == canon(b):
            return True
        if a[0] != 'A' and b[0] == 'A':
            a, b = b, a
        if a[0] == 'A':
            if b[0] == 'A':
                return (a[1] == b[1] or '()' in (a[1], b[1])) and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.eqv(x, y) for x, y in zip(a[3], b[3]))
            if is_sym(b) and a[1] in self.p.adts:
                if b[0] != 'U' and self.idx(b, a[1]) != a[2]:
                    return False
                v = self.p.variants(a[1])[a[2]]
                st = self.p.adts[a[1]].get('kind') == 'struct'
                return all(self.eqv(x, self.E.proj1(self.st, b, ('f', None if st else v['name'], i, f['name']))) for i, (x, f) in enumerate(zip(a[3], v['fields'])))
        if a[0] in ('i', 's', 'b') and b[0] == a[0]:
            return False
        try:
            r = self.E.eq(self.st, a, b)
        except Exception:
            return False
        return bool(r) and all(self.E.eval_bool(s, t) is True for s, t in r)


# ------------------------------------------------------------------ node specifications
# each returns (type value, new self value or None)

def f(x, *p):
    return F(x, *p)


def s_cast(w):
    w.visit(f(S, 'ty'))
    w.visit(f(S, 'expr'))
    return some(('done', f(S, 'ty'))), None


def s_ternary(w):
    w.visit_condition(f(S, 'condition'))
    l = w.visit(f(S, 'if_branch'))
    r = w.visit(f(S, 'else_branch'))
    return w.agree(l, r), None


def ident_arg(w, name):
    a = w.as_(name, 'IdentifierExpr', 'Arg')
    if a is not None:
        w.frag(w.fld(a, None, 'index'), w.mk('MacroArgType', 'Ident'))


def s_vardecl(w):
    w.visit(f(S, 'ty'))
    w.visit(f(S, 'name'))
    w.visit(f(S, 'rhs'))
    ident_arg(w, ('done', f(S, 'name')))
    return NONE, None


def s_fndecl(w):
    w.visit(f(S, 'ret_ty'))
    w.visit(f(S, 'name'))
    ident_arg(w, ('done', f(S, 'name')))

    def arg(w, e):
        w.visit(f(e, '0'))
        w.visit(f(e, '1'))
        ident_arg(w, ('done', f(e, '1')))
    w.each(f(S, 'args'), arg)
    return NONE, None


def s_ident(w):
    if w.is_(S, 'IdentifierExpr', 'Concat'):
        def part(w, e):
            k = w.tag(e, w.A('IdentifierContinuationExpr'))
            if k == 'Arg':
                w.frag(f(e, 'Arg.0', 'index'), w.mk('MacroArgType', 'Ident'))
            elif k == 'Int':
                raise Rejected('error', 'a number in a concatenated identifier')
        w.each(f(S, 'Concat.0'), part, 'frag')
    return NONE, None


LIMITS = dict(__SCHAR_MAX__='SChar', __SHRT_MAX__='Short', __INT_MAX__='Int', __LONG_MAX__='Long', __LONG_LONG_MAX__='LongLong')


def s_var(w):
    w.visit(f(S, 'name'))
    n = ('done', f(S, 'name'))
    k = w.tag(n, w.A('IdentifierExpr'))
    if k == 'Arg':
        t = w.arg_type(f(n, 'Arg.0', 'index'))
        if w.is_(t, 'MacroArgType', 'Known'):
            return some(w.fld(t, 'Known', '0')), None
        return NONE, None
    if k == 'Concat':
        return NONE, None
    i = f(n, 'Plain.0', 'id')
    if w.streq(i, '__LINE__'):
        w.macro()
        return some(w.T('UInt')), None
    if w.streq(i, '__FILE__'):
        w.macro()
        return some(w.const_char_ptr()), None
    for name, t in LIMITS.items():
        if w.streq(i, name):
            return some(w.T(t)), None
    r = w.opt(w.ask('resolve_enum_variant', i))
    if r is not None:
        return some(w.conv(f(r, '0'))), None
    w.macro()
    return NONE, None


def s_call(w):
    if w.truth(f(CX, 'is_variable_macro')):
        raise Rejected('const', 'a function call in a variable-like macro')
    w.visit(f(S, 'name'))
    w.each(f(S, 'args'), lambda w, e: w.visit(e))
    n = w.as_(('done', f(S, 'name')), 'IdentifierExpr', 'Plain')
    ty = NONE
    if n is not None:
        n = w.fld(n, None, 'id')
        fn = w.opt(w.ask('function', n))
        if fn is not None:
            known, ret = f(fn, '0'), f(fn, '1')
            if w.cmp('Eq', ('len', known), ('len', f(S, 'args'))):
                ty = some(w.conv(ret))

                def infer(w, e):
                    # the element of the other collection the loop runs over in step
                    k = w.partner(known)
                    i = w.plain_arg(e)
                    if i is not None and w.is_(w.arg_type(i), 'MacroArgType', 'Unknown'):
                        w.frag(i, w.mk('MacroArgType', 'Known', _0=w.conv(k)))
                w.each(f(S, 'args'), infer, 'frag')
        else:
            w.macro()
            if w.streq(n, '__builtin_offsetof') and w.cmp('Eq', ('len', f(S, 'args')), ('i', 2)):
                for j, k in ((0, 'Ty'), (1, 'Tt')):
                    i = w.plain_arg(('at', f(S, 'args'), ('i', j)))
                    if i is not None and w.is_(w.cur_arg_type(i), 'MacroArgType', 'Unknown'):
                        w.frag(i, w.mk('MacroArgType', k))
    return ty, None


def s_stringify(w):
    i = w.plain_arg(f(S, 'arg'))
    if i is not None:
        if w.streq(('at', f(CX, 'arg_names'), i), '...'):
            raise Rejected('error', 'stringification of variable arguments')
        if not w.is_(w.arg_type(i), 'MacroArgType', 'Ident'):
            w.frag(i, w.mk('MacroArgType', 'Expr'))
        return some(w.const_char_ptr()), None
    v = w.as_(f(S, 'arg'), 'Expr', 'Var')
    if v is not None:
        n = w.as_(w.fld(v, None, 'name'), 'IdentifierExpr', 'Plain')
        if n is not None:
            n = w.fld(n, None, 'id')
            if w.streq(n, '__LINE__') or w.streq(n, '__FILE__'):
                w.macro()
                return some(w.const_char_ptr()), None
    raise Rejected('error', 'stringification of something else')


def s_unary(w):
    t = w.visit(f(S, 'expr'))
    op = w.tag(f(S, 'op'), w.A('UnaryOp'))
    if op == 'Deref':
        if w.truth(f(CX, 'is_variable_macro')):
            raise Rejected('const', 'a dereference in a variable-like macro')
        p = w.opt(t)
        if p is None:
            return NONE, None
        if w.is_(p, 'Type', 'Qualified'):
            p = w.fld(p, 'Qualified', 'ty')
        if not w.is_(p, 'Type', 'Ptr'):
            raise Rejected('type', 'dereference of a non-pointer')
        return some(w.fld(p, 'Ptr', 'ty')), None
    if op == 'AddrOf':
        p = w.opt(t)
        return (NONE if p is None else some(w.ptr(p))), None
    return t, None


UNSIGNED = dict(__SCHAR_MAX__='UChar', __SHRT_MAX__='UShort', __INT_MAX__='UInt', __LONG_MAX__='ULong', __LONG_LONG_MAX__='ULongLong')


def lit(w, e, kind):
    l = w.as_(e, 'Expr', 'Literal')
    return None if l is None else w.as_(l, 'Lit', kind)


def var_name(w, e):
    v = w.as_(e, 'Expr', 'Var')
    if v is None:
        return None
    n = w.as_(w.fld(v, None, 'name'), 'IdentifierExpr', 'Plain')
    return None if n is None else w.fld(n, None, 'id')


def fval(w, kind, int_term):
    return w.mk('Expr', 'Literal', _0=w.mk('Lit', 'Float', _0=w.mk('LitFloat', kind, _0=('as', 'i128', 'f32' if kind == 'Float' else 'f64', int_term))))


def s_binary(w):
    L, R = f(S, 'lhs'), f(S, 'rhs')
    lt, rt = w.visit(L), w.visit(R)
    l, r = ('done', L), ('done', R)
    op = w.tag(f(S, 'op'), w.A('BinaryOp'))
    if op == 'MemberAccess':
        i = w.plain_arg(r)
        if i is not None:
            w.frag(i, w.mk('MacroArgType', 'Ident'))
    if op.endswith('Assign'):
        if w.plain_arg(l) is not None:
            w.macro()
    # an unsuffixed integer combined with a floating-point literal is converted to its type
    for x, y, X in ((l, r, L), (r, l, R)):
        i = lit(w, x, 'Int')
        if i is None:
            continue
        fl = lit(w, y, 'Float')
        if fl is None:
            continue
        if w.opt(w.fld(i, None, 'suffix')) is None:
            k = w.tag(fl, w.A('LitFloat'))
            new = fval(w, k, w.fld(i, None, 'value'))
            w.visits.append(new)
            w._see(new, 'finr')
            w.over[X] = ('done', new)
            t = ('fld', ('finr', new), 'Ok', '0')
            if X == L:
                lt, l = t, ('done', new)
            else:
                rt, r = t, ('done', new)
    if op in ('Mul', 'Add'):
        # limits times or plus an integer stand for the limit of the unsigned type
        done = False
        for x, y, X in ((l, r, L), (r, l, R)):
            if done or lit(w, y, 'Int') is None:
                continue
            if X == L and lit(w, x, 'Float') is not None and False:
                continue
            n = var_name(w, x)
            if n is None:
                continue
            for name, t in UNSIGNED.items():
                if w.streq(n, name):
                    done = True
                    w.over[X] = w.mk('Expr', 'Cast', _0=w.mk('Cast', ty=w.T(t), expr=x))
                    if X == L:
                        lt = some(w.T(t))
                    else:
                        rt = some(w.T(t))
                    break
    if op == 'MemberAccess':
        t = w.opt(lt)
        if t is not None and w.is_(t, 'Type', 'Identifier'):
            tn = w.as_(w.fld(t, 'Identifier', 'name'), 'IdentifierExpr', 'Plain')
            if tn is not None:
                fn = var_name(w, r)
                if fn is not None:
                    a = w.opt(w.ask('resolve_field_ty', w.fld(tn, None, 'id'), fn))
                    if a is not None:
                        return some(w.conv(a)), None
        return NONE, None
    return w.agree(lt, rt), None


def s_type(w):
    k = w.tag(S, w.A('Type'))
    if k in ('Ptr', 'Qualified'):
        w.visit(f(S, k + '.ty'))
        return 'any', None
    if k == 'Identifier':
        n = f(S, 'Identifier.name')
        w.visit(n)
        i = w.as_(('done', n), 'IdentifierExpr', 'Plain')
        if i is not None:
            a = w.opt(w.ask('resolve_ty', w.fld(i, None, 'id')))
            if a is None:
                raise Rejected('error', 'a type that is not known')
            return 'any', w.conv(a)
    return 'any', None


def s_stmt(w):
    k = w.tag(S, w.A('Statement'))
    if k in ('Asm', 'Expr', 'FunctionDecl', 'VarDecl'):
        w.visit(f(S, k + '.0'))
    elif k == 'Block':
        w.each(f(S, 'Block.0'), lambda w, e: w.visit(e))
    elif k == 'If':
        w.visit_condition(f(S, 'If.condition'))
        w.each(f(S, 'If.if_branch'), lambda w, e: w.visit(e))
        w.each(f(S, 'If.else_branch'), lambda w, e: w.visit(e))
    else:
        assert k == 'DoWhile', 'no rule for statement ' + k
        w.each(f(S, 'DoWhile.block'), lambda w, e: w.visit(e))
        w.visit_condition(f(S, 'DoWhile.condition'))
    return some(w.T('Void')), None


def s_asm(w):
    w.each(f(S, 'outputs'), lambda w, e: w.visit(f(e, '2')))
    w.each(f(S, 'inputs'), lambda w, e: w.visit(f(e, '1')))
    # code that defines symbols must not be instantiated in a function of its own
    t = f(S, 'template')
    for k, v in w.st.facts.items():
        if k[0] == 'B' and v is True and k[1][0] == 'strp' and k[1][1] == 'starts_with' and canon(k[1][2]) == ('elem', t) \
                and k[1][3] in (('s', '.globl'), ('s', '.global'), ('s', '.section')):
            w.macro()
            break
    return NONE, None


CHARS = dict(Ordinary='Char', Utf8='Char8T', Utf16='Char16T', Utf32='Char32T')


def wchar(w):
    t = w.mk('Type', 'Identifier', name=w.mk('IdentifierExpr', 'Plain', _0=w.mk('Identifier', id=('s', 'wchar_t'))), is_struct=('i', 0))
    w.visits.append(t)
    w._see(t, 'finr')
    return ('done', t)


def s_char(w):
    k = w.tag(S, w.A('LitChar'))
    return some(w.T(CHARS[k]) if k in CHARS else wchar(w)), None


def s_string(w):
    k = w.tag(S, w.A('LitString'))
    return some(w.qual(w.ptr(w.T(CHARS[k]) if k in CHARS else wchar(w)), 'Const')), None


def s_float(w):
    return some(w.T(w.tag(S, w.A('LitFloat')))), None


def s_int(w):
    return NONE, None


def s_lit(w):
    return w.visit(f(S, w.tag(S, w.A('Lit')) + '.0')), None


def s_body(w):
    return w.visit(f(S, w.tag(S, w.A('MacroBody')) + '.0')), None


AMBIG = dict(Plus='Add', Minus='Sub', Deref='Mul', AddrOf='BitAnd')
FOLD = dict(Mul='mul', Div='div', Rem='rem', Add='add', Sub='sub', Shl='shl', Shr='shr', BitAnd='bitand', BitOr='bitor', BitXor='bitxor')
COMPARE = ('Eq', 'Neq', 'And', 'Or', 'Lt', 'Lte', 'Gt', 'Gte')


def again(w, new):
    """self becomes `new` and is checked in turn"""
    w.visits.append(new)
    w._see(new, 'finr')
    return ('fld', ('finr', new), 'Ok', '0'), ('done', new)


def s_expr(w):
    k = w.tag(S, w.A('Expr'))
    if k in ('Var', 'FunctionCall', 'Stringify', 'Ternary'):
        return w.visit(f(S, k + '.0')), None
    if k == 'SizeOf':
        w.visit(f(S, 'SizeOf.0'))
        return some(w.T('SizeT')), None
    if k == 'Literal':
        x = f(S, 'Literal.0')
        t = w.visit(x)
        if w.is_(x, 'Lit', 'Char'):
            p = w.opt(t)
            if p is None:
                raise Impossible()      # every character literal has a type (see LitChar)
            return t, w.mk('Expr', 'Cast', _0=w.mk('Cast', ty=p, expr=w.mk('Expr', 'Literal', _0=('done', x))))
        return t, None
    if k == 'Cast':
        x = f(S, 'Cast.0')
        w.visits.append(x)
        if canon(x) not in w.visited:
            raise Mismatch('visit', 'the cast is not checked')
        d = ('done', x)
        w.over[x] = d
        if w.idx(('finr', x), RES) == 1:
            err = ('fld', ('finr', x), 'Err', '0')
            if w.is_(err, 'CodegenError', 'UnsupportedExpression'):
                # (my_t)(var) * (my_t)y
                inner = w.as_(w.fld(d, None, 'expr'), 'Expr', 'Cast')
                if inner is not None:
                    ity = w.fld(inner, None, 'ty')
                    if w.is_(ity, 'Type', 'Identifier') and not w.truth(w.fld(ity, 'Identifier', 'is_struct')):
                        u = w.as_(w.fld(inner, None, 'expr'), 'Expr', 'Unary')
                        if u is not None and w.is_(w.fld(u, None, 'op'), 'UnaryOp', 'Deref'):
                            c3 = w.as_(w.fld(u, None, 'expr'), 'Expr', 'Cast')
                            if c3 is not None and w.same(w.fld(d, None, 'ty'), w.fld(c3, None, 'ty')):
                                new = w.mk('Expr', 'Binary', _0=w.mk(
                                    'BinaryExpr',
                                    lhs=w.mk('Expr', 'Cast', _0=w.mk('Cast', ty=w.fld(d, None, 'ty'), expr=w.mk('Expr', 'Var', _0=w.mk('Var', name=w.fld(ity, 'Identifier', 'name'))))),
                                    op=w.mk('BinaryOp', 'Mul'),
                                    rhs=w.mk('Expr', 'Cast', _0=w.mk('Cast', ty=w.fld(c3, None, 'ty'), expr=w.fld(c3, None, 'expr')))))
                                return again(w, new)
            raise Mismatch('error', 'the failure of checking a cast is ignored')
        ty, e = w.fld(d, None, 'ty'), w.fld(d, None, 'expr')
        u = w.as_(e, 'Expr', 'Unary')
        if u is not None and w.is_(ty, 'Type', 'Identifier') and not w.truth(w.fld(ty, 'Identifier', 'is_struct')):
            n = w.fld(ty, 'Identifier', 'name')
            nk = w.tag(n, w.A('IdentifierExpr'))
            binop = nk != 'Plain' or w.opt(w.ask('resolve_ty', f(n, 'Plain.0', 'id'))) is None
            if binop:
                op = AMBIG.get(w.tag(w.fld(u, None, 'op'), w.A('UnaryOp')))
                if op:
                    return again(w, w.mk('Expr', 'Binary', _0=w.mk('BinaryExpr', lhs=w.mk('Expr', 'Var', _0=w.mk('Var', name=n)),
                                                                 op=w.mk('BinaryOp', op), rhs=w.fld(u, None, 'expr'))))
        s = lit(w, e, 'String')
        if s is not None and w.is_(s, 'LitString', 'Ordinary') and w.is_(ty, 'Type', 'Qualified'):
            p = w.fld(ty, 'Qualified', 'ty')
            if w.tag(w.fld(ty, 'Qualified', 'qualifier'), w.A('TypeQualifier')) in ('Const', 'ConstVolatile') and w.is_(p, 'Type', 'Ptr'):
                b = w.as_(w.fld(p, 'Ptr', 'ty'), 'Type', 'BuiltIn')
                if b is not None and w.is_(b, 'BuiltInType', 'Char'):
                    return again(w, e)
        return ('fld', ('finr', x), 'Ok', '0'), None
    if k == 'Unary':
        x = f(S, 'Unary.0')
        t = w.visit(x)
        d = ('done', x)
        op = w.tag(w.fld(d, None, 'op'), w.A('UnaryOp'))
        e = w.fld(d, None, 'expr')
        i, fl = lit(w, e, 'Int'), lit(w, e, 'Float')
        if op == 'Plus' and (i is not None or fl is not None):
            return t, e
        if op == 'Minus' and i is not None:
            s = w.opt(w.fld(i, None, 'suffix'))
            ns = NONE
            if s is not None:
                sk = w.tag(s, w.A('BuiltInType'))
                m = {'UChar': 'SChar', 'SChar': 'SChar', 'UInt': 'Int', 'Int': 'Int', 'ULong': 'Long', 'Long': 'Long', 'ULongLong': 'LongLong', 'LongLong': 'LongLong'}
                if sk in m:
                    ns = some(w.mk('BuiltInType', m[sk]))
            return t, ('neg', e, w.fld(i, None, 'value'), ns)
        if op == 'Minus' and fl is not None:
            return t, ('negf', fl, w.tag(fl, w.A('LitFloat')))
        if op == 'Not':
            B = some(w.T('Bool'))
            if i is not None and w.opt(w.fld(i, None, 'suffix')) is None:
                return 'again-any', ('notzero', w.fld(i, None, 'value'))
            if fl is not None:
                return 'again-any', ('notzerof', fl, w.tag(fl, w.A('LitFloat')))
            p = w.opt(t)
            bk = None
            if p is not None:
                bk = w.as_(p, 'Type', 'BuiltIn')
                bk = None if bk is None else w.tag(bk, w.A('BuiltInType'))
            if bk == 'Bool':
                return B, None
            if bk in ('Float', 'Double', 'LongDouble'):
                z = w.mk('Lit', 'Float', _0=w.mk('LitFloat', bk, _0=('fl', 0.0)))
            else:
                z = w.mk('Lit', 'Int', _0=w.mk('LitInt', value=('i', 0), suffix=NONE))
            return B, w.mk('Expr', 'Binary', _0=w.mk('BinaryExpr', lhs=e, op=w.mk('BinaryOp', 'Eq'), rhs=w.mk('Expr', 'Literal', _0=z)))
        if op == 'Comp' and (fl is not None or lit(w, e, 'String') is not None):
            raise Rejected('type', 'complement of a float or string')
        return t, None
    if k == 'Binary':
        x = f(S, 'Binary.0')
        t = w.visit(x)
        d = ('done', x)
        op = w.tag(w.fld(d, None, 'op'), w.A('BinaryOp'))
        l, r = w.fld(d, None, 'lhs'), w.fld(d, None, 'rhs')
        if op in FOLD:
            li, ri = lit(w, l, 'Int'), lit(w, r, 'Int')
            if li is not None and ri is not None:
                if op in ('Div', 'Rem') and w.cmp('Eq', w.fld(ri, None, 'value'), ('i', 0)):
                    raise Rejected('fold', 'division by zero')
                return again_op(w, op, li, ri, 'LitInt', 'Int')
            lf, rf = lit(w, l, 'Float'), lit(w, r, 'Float')
            if lf is not None and rf is not None and op in ('Mul', 'Div', 'Add', 'Sub'):
                return again_op(w, op, lf, rf, 'LitFloat', 'Float')
        if op in COMPARE:
            return some(w.T('Bool')), None
        return t, None
    assert k == 'ConcatString', 'no rule for expression ' + k

    def part(w, e):
        w.visit(e)
        d = ('done', e)
        l = w.as_(d, 'Expr', 'Literal')
        if l is not None:
            x = w.as_(l, 'Lit', 'String')
            if x is not None and w.is_(x, 'LitString', 'Wide'):
                raise Rejected('error', 'concatenation of a string whose character size is not known')
        n = var_name(w, d)
        if n is not None and not w.streq(n, '__FILE__'):
            raise Rejected('error', 'concatenation of a variable')
    w.each(f(S, 'ConcatString.0'), part)
    return 'any', 'concat'


def again_op(w, op, a, b, adt, kind):
    return again(w, w.mk('Expr', 'Literal', _0=w.mk('Lit', kind, _0=('fold', FOLD[op], a, b))))


SPECS = {
    'Cast': s_cast, 'TernaryExpr': s_ternary, 'VarDecl': s_vardecl, 'FunctionDecl': s_fndecl, 'IdentifierExpr': s_ident, 'Var': s_var,
    'FunctionCall': s_call, 'Stringify': s_stringify, 'UnaryExpr': s_unary, 'BinaryExpr': s_binary, 'Type': s_type, 'Statement': s_stmt,
    'Asm': s_asm, 'LitChar': s_char, 'LitString': s_string, 'LitFloat': s_float, 'LitInt': s_int, 'Lit': s_lit, 'MacroBody': s_body,
    'Expr': s_expr,
}


def fold_handlers():
    """`a * b` on literals is the symbol fold(mul, a, b)."""
    H = {}

    def mk(name):
        def h(E, st, args, ci, fn, fr):
            a = [E.snap(st, E.rd(st, x)) for x in args]
            return [(st, ('fold', name) + tuple(a))]
        return h
    for n in FOLD.values():
        for t in ('LitInt', 'LitFloat'):
            H['%s::%s' % (t, n)] = mk(n)
            H['ast::literal::%s::%s::%s' % (t[3:].lower(), t, n)] = mk(n)
    return H


def flatten(v, term, out):
    if v[0] == 'U' and v[1] == term:
        for q, x in v[2]:
            t = ('fld', term, q[1], q[3]) if q[0] == 'f' else ('at', term, q[1])
            flatten(x, t, out)
    else:
        out[term] = v


def iter_effects(items):
    vis, sets = [], {}
    for e in items:
        if e[0] in ('finish', 'finish_condition'):
            vis.append(e[1])
        elif e[0] == 'set':
            sets[e[1]] = e[2]
    return vis, sets


def compare_sets(w, got, want, where=''):
    for k in set(map(canon, got)) | set(map(canon, want)):
        g = [v for p, v in got.items() if canon(p) == k]
        x = [v for p, v in want.items() if canon(p) == k]
        asp = 'macro' if k == ('export_as_macro',) else 'frag'
        path = '.'.join(w.c.R.v(y) if isinstance(y, tuple) else str(y) for y in k)
        if not g:
            raise Mismatch(asp, '%s%s is not set to %s' % (where, path, w.c.R.v(canon(x[-1]))))
        if not x:
            raise Mismatch(asp, '%s%s is set to %s' % (where, path, w.c.R.v(canon(g[-1]))))
        if not w.eqv(g[-1], x[-1]):
            raise Mismatch(asp, '%s%s is set to %s instead of %s' % (where, path, w.c.R.v(canon(g[-1])), w.c.R.v(canon(x[-1]))))


def run_worlds(c, E, st, visited, body, limit=40000):
    """Runs body(w) in every case the state leaves open; yields (w, mismatch or None)."""
    stack = [st.copy()]
    n = 0
    while stack:
        s = stack.pop()
        n += 1
        if n > limit:
            raise RuntimeError('too many cases')
        w = W(c, E, s, visited)
        try:
            body(w)
        except Fork as fk:
            stack += fk.states
            continue
        except Impossible:
            continue
        except Mismatch as m:
            yield w, m
            continue
        yield w, None


def loop_matches(c, E, lid, regs):
    """Does every iteration of the loop do exactly what the rules in regs demand? -> None or Mismatch"""
    bad = None
    found = [False] * len(regs)
    for b, items in E.suffixes(lid, 'eff'):
        vis, sets = iter_effects(items)
        elems = []
        subterms(items, elems)
        for k in b.facts:
            subterms(k, elems)
        els = {}
        for e in elems:
            els[canon(e[1])] = e
        vset = {canon(x) for x in vis}

        def body(w):
            w.partner = lambda coll: els.get(canon(coll), ('elem', coll, None))
            for j, (coll, fn, asp) in enumerate(regs):
                e = els.get(canon(coll))
                if e is None:
                    raise Mismatch(asp, 'the elements of %s are not looked at' % c.R.v(canon(coll)))
                found[j] = True
                try:
                    fn(w, e)
                except Rejected as r:
                    raise Mismatch(r.aspect, '%s is accepted' % r.why)
            extra = vset - {canon(x) for x in w.visits}
            if extra:
                raise Mismatch('visit', 'also checks %s' % c.R.v(sorted(extra, key=str)[0]))
            compare_sets(w, sets, w.sets, 'for an element ')
        for w, m in run_worlds(c, E, b, vset, body):
            if m is not None:
                bad = bad or m
    return bad


def check_loops(c, E, w, eff):
    """Every rule for elements is carried out by a loop, and no loop does anything else."""
    lids = [e[1] for e in eff if e[0] == 'rep']
    todo = list(w.regs)
    why = None
    import itertools
    for lid in lids:
        got = why = None
        order = sorted((s for n in range(len(todo) + 1) for s in itertools.combinations(range(len(todo)), n)), key=len)
        best = None
        for sub in order:
            m = loop_matches(c, E, lid, [todo[j] for j in sub])
            if m is None:
                got = sub
                # prefer the largest rule set a loop satisfies
                best = sub
            elif sub:
                why = m
        if best is None:
            raise why or Mismatch('visit', 'a loop does something that is not specified')
        todo = [r for j, r in enumerate(todo) if j not in best]
    if todo:
        if why is not None:
            raise why
        raise Mismatch(todo[0][2], 'the elements of %s are not checked' % c.R.v(canon(todo[0][0])))


def pending_rules(c, E, w, eff):
    check_loops(c, E, w, eff)


def analyse(c, node, st=None, args=None):
    """-> [(aspect or None, message, facts text)] for every outcome case of <node>::finish"""
    fn = c.fn(node + '::finish')
    H = {**gen_handlers(), **finish_handlers(), **ty_handlers(), **fold_handlers()}
    E, R, outs = c.run(fn, args or [S, CTX], st or State(), H, watch=[CTXC])
    spec = SPECS[node]
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        vis, sets = iter_effects(s.eff)
        vset = {canon(x) for x in vis}
        if v[0] == 'A' and v[1] == RES:
            isok, payload = v[2] == 0, v[3][0]
        else:
            # the result of a checked part, returned as it is
            isok = None
            payload = v
        for s1, kind in ([(s, isok)] if isok is not None else [(x, k == 0) for x, k in E.fork_variant(s, v, RES)]):
            val = payload if isok is not None else ('fld', v, 'Ok' if kind else 'Err', '0')
            if not kind and val[0] == 'fld' and val[2] == 'Err' and val[1][0] in ('finr', 'finc', 'conv'):
                res.append((None, 'propagated', None))
                continue

            def body(w):
                want = None
                try:
                    want = spec(w)
                except Rejected as r:
                    if kind:
                        raise Mismatch(r.aspect, '%s is accepted' % r.why)
                    return
                if not kind:
                    if any(_loop_reject(c, E, w, reg) for reg in w.regs):
                        return
                    if want[1] == 'concat' and concat_reject(c, E, w):
                        return
                    raise Mismatch('error', 'fails with %s' % R.v(val))
                ty, new = want
                check_loops(c, E, w, s.eff)
                extra = vset - {canon(x) for x in w.visits}
                if extra and new not in ('any', 'concat') and ty != 'again-any':
                    raise Mismatch('visit', 'also checks %s' % R.v(sorted(extra, key=str)[0]))
                compare_sets(w, sets, w.sets)
                cell = s1.cells.get(('S', S))
                got = {}
                if cell is not None:
                    flatten(E_snap(E, s1, cell), S, got)
                compare_self(w, got, new)
                if isinstance(ty, tuple) and not w.eqv(val, ty):
                    raise Mismatch('type', 'the type is %s instead of %s' % (R.v(canon(val)), R.v(canon(ty))))
            for w, m in run_worlds(c, E, s1, vset, body):
                res.append((m.aspect if m else None, m.msg if m else '', R.facts(w.st)))
    return fn, E, res


def E_snap(E, st, cell):
    if cell[0] == 'U':
        return ('U', cell[1], tuple((q, E_snap(E, st, x)) for q, x in cell[2]))
    return E.snap(st, cell) if cell[0] != 'in' else cell


def _loop_reject(c, E, w, reg):
    """Is the generic element of this collection one the rule rejects in this case?"""
    coll, fn, asp = reg
    el = []
    for k in w.st.facts:
        subterms(k, el)
    for e in el:
        if canon(e[1]) == canon(coll):
            w2 = W(c, E, w.st, w.visited)
            w2.partner = lambda x: ('elem', x, None)
            try:
                fn(w2, e)
            except Rejected:
                return True
            except Mismatch:
                return False
    return False


def concat_reject(c, E, w):
    """Is a part of the new list of strings in this case a string that is not valid UTF-8?"""
    el = []
    for k in w.st.facts:
        subterms(k, el)
    for e in el:
        if e[0] != 'elem' or e[1][0] != 'L' or not any(x[0] == 'rep' for x in e[1][1]):
            continue
        l = w.as_(e, 'Expr', 'Literal')
        x = None if l is None else w.as_(l, 'Lit', 'String')
        if x is None:
            continue
        k = w.tag(x, w.A('LitString'))
        if k == 'Wide':
            return 'Wide'
        if k == 'Ordinary' and not w.is_ok(('from_utf8', w.fld(x, k, '0'))):
            return 'Ordinary'
    return None


def lit_expr(w, v, kind):
    l = w.as_(v, 'Expr', 'Literal')
    return None if l is None else w.as_(l, 'Lit', kind)


def compare_self(w, got, new):
    R = w.c.R
    if new == 'any':
        return
    if new == 'concat':
        return compare_concat(w, got)
    if new is None:
        for t, v in got.items():
            x = w.over.get(t)
            if t == S or x is None and not (v[0] == 'done' and v[1] == t):
                if x is None:
                    raise Mismatch('fold', '%s becomes %s' % (R.v(t), R.v(canon(v))))
            if x is not None and not w.eqv(v, x):
                raise Mismatch('fold', '%s becomes %s instead of %s' % (R.v(t), R.v(canon(v)), R.v(canon(x))))
        for t, x in w.over.items():
            if x != ('done', t) and t not in got:
                raise Mismatch('fold', '%s does not become %s' % (R.v(t), R.v(canon(x))))
        return
    v = got.get(S)
    if v is None:
        raise Mismatch('fold', 'the expression does not become %s' % R.v(canon(new)))
    k = new[0]
    if k == 'neg':
        i = lit_expr(w, v, 'Int')
        want = 'the negated integer'
        if i is not None:
            val = w.fld(i, None, 'value')
            if negated(val, new[2]) and w.eqv(w.fld(i, None, 'suffix'), new[3]):
                return
    elif k == 'negf':
        want = 'the negated floating-point number'
        i = lit_expr(w, v, 'Float')
        if i is not None and w.tag(i, w.A('LitFloat')) == new[2] and negated(w.fld(i, new[2], '0'), ('fld', new[1], new[2], '0')):
            return
    elif k in ('notzero', 'notzerof'):
        want = 'the integer that tells whether the operand is zero'
        if v[0] == 'done':
            v = v[1]
        i = lit_expr(w, v, 'Int')
        if i is not None and w.opt(w.fld(i, None, 'suffix')) is None:
            val = w.fld(i, None, 'value')
            x = new[1] if k == 'notzero' else ('fld', new[1], new[2], '0')
            if is_zero_test(w, val, x, k == 'notzerof'):
                return
    else:
        want = R.v(canon(new))
        if w.eqv(v, new):
            return
    raise Mismatch('fold', 'the expression becomes %s instead of %s' % (R.v(canon(v)), want))


def negated(v, x):
    return v in (('op', 'Sub', ('i', 0), x), ('op', 'Neg', x), ('neg', x), ('call', 'core::num::wrapping_neg', x), ('wneg', x)) or \
        (v[0] in ('op', 'call', 'un', 'unop', 'Neg') and 'neg' in str(v[1]).lower() and v[-1] == x)


def is_zero_test(w, v, x, is_float):
    """Is `v` 1 if `x` is zero, and 0 otherwise?"""
    test = mkfcmp('Eq', x, ('fl', 0.0)) if is_float else ('op', 'Eq', x, ('i', 0))
    if v[0] == 'as':
        v = v[-1]
    if v == test:
        return True
    t = w.truth(test)
    r = w.E.eval_bool(w.st, v)
    return r is not None and r == t and (v[0] != 'i' or v[1] in (0, 1))


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


# ------------------------------------------------------------------ concatenation of strings

def pieces(w, v, literal=False):
    """A value as the sequence of string contents and expressions it consists of."""
    E = w.E
    if v[0] == 'U':
        if v[1][0] == 'loopvar':
            x = [y for q, y in v[2] if q[1] == 'Some']
            if x:
                return pieces(w, x[-1], True)
        return [('?', v)]
    if v[0] == 'A' and v[1] == OPT:
        return [] if v[2] == 0 else pieces(w, v[3][0], True)
    if v[0] == 'loopvar':
        n = w.opt(v)
        return [] if n is None else pieces(w, n, True)
    if v[0] == 'L':
        out = []
        for x in v[1]:
            out += pieces(w, x[1], literal) if x[0] == 'splat' else pieces(w, x, literal)
        return out
    if v[0] == 'rep':
        return [('rep', v[1])]
    if literal:
        return [('B', canon(v))]
    if v[0] == 'A' and v[1] == w.A('Expr') or v[0] == 'done':
        l = w.as_(v, 'Expr', 'Literal')
        x = None if l is None else w.as_(l, 'Lit', 'String')
        if x is not None:
            k = w.tag(x, w.A('LitString'))
            y = w.fld(x, k, '0')
            return pieces(w, y if k == 'Ordinary' else ('bytes_of', y), True)
        return [('X', canon(v))]
    return [('?', v)]


def compare_concat(w, got):
    """Adjacent strings are merged in order, everything else is kept in place."""
    c, E, R = w.c, w.E, w.c.R
    v = got.get(S)
    if v is None:
        v = got.get(('fld', S, 'ConcatString', '0'))
    if v is None:
        return
    if v[0] == 'done':
        v = v[1]
    if v[0] == 'at' and v[2] == ('i', 0):
        v = v[1]
    x = w.as_(v, 'Expr', 'ConcatString') if v[0] == 'A' else v
    if x is None or x[0] != 'L':
        raise Mismatch('fold', 'the expression becomes %s instead of its parts in order' % R.v(canon(v)))
    reps = [y for y in x[1] if y[0] == 'rep']
    if len(reps) != 1 or x[1][0] != reps[0]:
        raise Mismatch('fold', 'the parts are not kept in order: %s' % R.v(canon(x)))
    lid, path = reps[0][1], reps[0][2]
    W0 = E.loops[lid]['W']
    pend = [k for k, y in W0.cells.items() if y[0] == 'loopvar' and k != ('S', S) and k[0] != 'S']
    tail = pieces(w, ('L', x[1][1:]))
    want = [p for k in pend for p in pieces(w, W0.cells[k])]
    if tail != want:
        raise Mismatch('fold', 'after the last part %s is appended instead of %s' % (tail, want))
    bad = []
    for b, items in E.suffixes(lid, path):
        el = []
        subterms(b.eff, el)
        el = [e for e in el if e[0] == 'elem']
        if not el:
            continue

        def body(w):
            have = pieces(w, ('L', tuple(items))) + [p for k in pend for p in pieces(w, E.snap(w.st, w.st.cells[k]))]
            want = [p for k in pend for p in pieces(w, W0.cells[k])] + pieces(w, ('done', el[-1]))
            if have != want:
                raise Mismatch('fold', 'a part of a concatenation yields %s instead of %s' % (have, want))
        for _, m in run_worlds(c, E, b, set(), body):
            if m is not None:
                raise m
