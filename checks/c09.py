"""C09: operators are generated as the Rust operator with the same meaning."""
from lib import genspec
from lib.gen import *
from lib.spec import worlds

EXPLANATION = ('For every operator the code template produced by BinaryExpr::to_token_stream / UnaryExpr::to_token_stream is computed '
               'from the MIR by abstract interpretation (sub-expressions are holes, every branch on their shape is followed) and compared '
               'with the Rust form that has the meaning of the C operator; parentheses around a sub-expression are ignored here (see C10).')
ASSUMPTIONS = ('types built by the parser or converted from Rust types never nest a qualifier directly in a qualifier',)

BIN = dict(Mul='*', Div='/', Rem='%', Add='+', Sub='-', Shl='<<', Shr='>>', Lt='<', Lte='<=', Gt='>', Gte='>=', Eq='==', Neq='!=',
           BitAnd='&', BitXor='^', BitOr='|', And='&&', Or='||', MemberAccess='.')
ASSIGN = dict(Assign=None, AddAssign='+', SubAssign='-', MulAssign='*', DivAssign='/', RemAssign='%', ShlAssign='<<', ShrAssign='>>',
              BitAndAssign='&', BitXorAssign='^', BitOrAssign='|')
TPP = '⟨TP⟩ :: '


def tok(c, t):
    return '⟨tok(%s)⟩' % c.R.v(t)


def binary(c, w, op, TP):
    l, r = tok(c, F(S, 'lhs')), tok(c, F(S, 'rhs'))
    if op in BIN:
        return '%s %s %s' % (l, BIN[op], r)
    o = ASSIGN[op]
    p = volatile_pointer(c, w, F(S, 'lhs'))
    if p is None:
        return '{ %s %s= %s ; %s }' % (l, o or '', r, l)
    p = tok(c, p)
    return '{ let _0 = %s%s ; %sptr :: write_volatile ( %s , _0 ) ; _0 }' % (
        '%sptr :: read_volatile ( %s ) %s ' % (TP, p, o) if o else '', r, TP, p)


def unary(c, w, op, TP):
    X, U, B = c.adt('Expr'), c.adt('UnaryOp'), c.adt('BinaryOp')
    e = F(S, 'expr')
    t = tok(c, e)
    if op in ('Inc', 'Dec', 'PostInc', 'PostDec'):
        o = '+' if op.endswith('Inc') else '-'
        p = volatile_pointer(c, w, e)
        if p is not None:
            p = tok(c, p)
            if op.startswith('Post'):
                return '{ let _0 = %sptr :: read_volatile ( %s ) ; %sptr :: write_volatile ( %s , _0 %s 1 ) ; _0 }' % (TP, p, TP, p, o)
            return '{ let _0 = %sptr :: read_volatile ( %s ) %s 1 ; %sptr :: write_volatile ( %s , _0 ) ; _0 }' % (TP, p, o, TP, p)
        if op.startswith('Post'):
            return '{ let _0 = %s ; %s %s= 1 ; _0 }' % (t, t, o)
        return '{ %s %s= 1 ; %s }' % (t, o, t)
    if op == 'Plus':
        return t
    if op == 'Minus':
        return '- ' + t
    if op in ('Not', 'Comp'):
        return '! ' + t
    if op == 'AddrOf':
        return '%sptr :: addr_of_mut ! ( %s )' % (TP, t)
    assert op == 'Deref', 'no rule for operator ' + op
    k = w.tag(e, X)
    if k == 'Cast' and volatile_cast(c, w, e):
        return '%sptr :: read_volatile ( %s )' % (TP, t)
    if k == 'Binary':
        b = w.tag(F(e, 'Binary.0', 'op'), B)
        if b in ('Add', 'Sub'):
            return '* %s . %s ( %s )' % (tok(c, F(e, 'Binary.0', 'lhs')), b.lower(), tok(c, F(e, 'Binary.0', 'rhs')))
    if k == 'Unary':
        u = w.tag(F(e, 'Unary.0', 'op'), U)
        i = tok(c, F(e, 'Unary.0', 'expr'))
        if u in ('Inc', 'Dec'):
            return '* { %s = %s . %s ( 1 ) ; %s }' % (i, i, 'add' if u == 'Inc' else 'sub', i)
        if u in ('PostInc', 'PostDec'):
            return '* { let _0 = %s ; %s = %s . %s ( 1 ) ; _0 }' % (i, i, i, 'add' if u == 'PostInc' else 'sub')
    return '* ' + t


def qual_facts(c, st):
    for e in (F(S, 'lhs', 'Unary.0', 'expr'), F(S, 'expr', 'Unary.0', 'expr'), F(S, 'expr')):
        no_nested_qualifier(c, st, F(e, 'Cast.0', 'ty'))


def check(c):
    c.rule('template(op) == specified Rust form, for every outcome and every case of the operand shapes')
    operators(c)


unprefixed = genspec.unprefixed


def operators(c, modes=((True, True),), prefix_only=False):
    n = 0
    for tp, ffi in modes:
        for adt, owner, spec in ((c.adt('BinaryOp'), 'BinaryExpr', binary), (c.adt('UnaryOp'), 'UnaryExpr', unary)):
            f = c.fn(owner + '::to_token_stream')
            for op in c.variants(adt):
                st = State()
                fix_variant(c, st, F(S, 'op'), adt, op)
                qual_facts(c, st)
                E, R, outs = c.run(f, [S, CTX], st, gen_handlers(tp, ffi))
                c.ob('%s %s terminates with code' % (owner, op), outs, 'no outcome', c.where(f))
                for s, v in outs:
                    got = code(R, E.snap(s, v))
                    for w, want in worlds(E, s, lambda w: spec(c, w, op, TPP if tp else '')):
                        n += 1
                        c.ob('%s %s' % (owner, op), got == want or prefix_only and unprefixed(got) != unprefixed(want),
                             'operator %s::%s is generated as\n      %s\n    instead of\n      %s\n    when %s' % (
                                 adt.split('::')[-1], op, got, want, R.facts(w.st)), c.where(f))
    c.floor('operator cases', n, 100)
