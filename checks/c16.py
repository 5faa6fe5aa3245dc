"""C16: volatile pointers are only accessed through volatile operations."""
from lib.gen import *
from lib.spec import worlds
from checks.c09 import TPP, binary, unary, qual_facts, ASSIGN

EXPLANATION = ('For every operator whose operand is a dereferenced cast to a pointer to a volatile type, the generated code (computed from the MIR) '
               'must consist of exactly the specified volatile reads and writes of that pointer; in all other cases no volatile access may appear.')
ASSUMPTIONS = ('types built by the parser or converted from Rust types never nest a qualifier directly in a qualifier',)


def check(c):
    c.rule('volatile operand => exactly the specified read_volatile/write_volatile calls and no plain dereference; otherwise no volatile call')
    X = c.adt('Expr')
    n = nv = 0
    jobs = [(c.adt('BinaryOp'), 'BinaryExpr', binary, op) for op in ASSIGN] + [(c.adt('UnaryOp'), 'UnaryExpr', unary, op) for op in ('Inc', 'Dec', 'PostInc', 'PostDec', 'Deref')]
    for adt, owner, spec, op in jobs:
        f = c.fn(owner + '::to_token_stream')
        st = State()
        fix_variant(c, st, F(S, 'op'), adt, op)
        qual_facts(c, st)
        E, R, outs = c.run(f, [S, CTX], st, gen_handlers())
        c.ob('%s %s terminates with code' % (owner, op), outs, 'no outcome', c.where(f))

        def target(w):
            if op == 'Deref':
                return F(S, 'expr') if volatile_cast(c, w, F(S, 'expr')) else None
            return volatile_pointer(c, w, F(S, 'lhs' if owner == 'BinaryExpr' else 'expr'))
        for s, v in outs:
            got = code(R, E.snap(s, v))
            for w, (p, want) in worlds(E, s, lambda w: (lambda p: (p, spec(c, w, op, TPP) if p is not None else None))(target(w))):
                n += 1
                if p is None:
                    c.ob('%s %s without volatile operand' % (owner, op), '_volatile' not in got, 'volatile access in %s when %s' % (got, R.facts(w.st)), c.where(f))
                else:
                    nv += 1
                    c.ob('%s %s with volatile operand' % (owner, op), got == want, 'a volatile access is generated as\n      %s\n    instead of\n      %s\n    when %s' % (got, want, R.facts(w.st)), c.where(f))
    c.floor('operator cases', n, 60)
    c.floor('volatile cases', nv, 30)
    # the predicates on qualifiers
    Q = c.adt('TypeQualifier')
    for fn, yes in (('TypeQualifier::is_volatile', ('Volatile', 'ConstVolatile')), ('TypeQualifier::is_const', ('Const', 'ConstVolatile'))):
        f = c.fn(fn)
        for q in c.variants(Q):
            E, R, outs = c.run(f, [('A', Q, c.p.vidx(Q, q), ())])
            c.ob('%s(%s)' % (fn, q), [v for _, v in outs] == [('i', int(q in yes))], 'returns %s' % [R.v(v) for _, v in outs], c.where(f))
