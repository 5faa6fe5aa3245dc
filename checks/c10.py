"""C10: operands keep their grouping in the generated code."""
from lib.gen import *
from lib.spec import worlds
from checks.c09 import qual_facts

EXPLANATION = ('For every place where the code of a sub-expression is inserted next to another token, the conditions under which the code '
               'generator leaves it without delimiters are computed from the MIR (with the real precedence functions inlined) and compared, '
               'for every kind of sub-expression and operator, with the binding strength and associativity of the Rust grammar.')
ASSUMPTIONS = ('the code of a conditional expression, call, literal, name, assignment or increment is self-delimiting (a block, call, literal or path)',
               'expressions supplied by the context are self-delimiting')

LEVEL = {}
for i, names in enumerate((('Or',), ('And',), ('Lt', 'Lte', 'Gt', 'Gte', 'Eq', 'Neq'), ('BitOr',), ('BitXor',), ('BitAnd',), ('Shl', 'Shr'), ('Add', 'Sub'), ('Mul', 'Div', 'Rem'))):
    for nm in names:
        LEVEL[nm] = 8 + i
OPLEVEL = {'||': 8, '&&': 9, '<': 10, '<=': 10, '>': 10, '>=': 10, '==': 10, '!=': 10, '|': 11, '^': 12, '&': 13, '<<': 14, '>>': 14, '+': 15, '-': 15, '*': 16, '/': 16, '%': 16}
ASSIGNOPS = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}
CAST, PREFIX, POST, PRIM = 17, 18, 19, 20
DELIM = {',', ';', '=', '=>', ':'}


def level(c, w, x):
    X, U, B, I = c.adt('Expr'), c.adt('UnaryOp'), c.adt('BinaryOp'), c.adt('IdentifierExpr')
    k = w.tag(x, X)
    if k in ('Cast', 'SizeOf'):
        return CAST
    if k == 'Var':
        return CAST if is_line(c, w, x) else PRIM
    if k == 'Binary':
        op = w.tag(F(x, 'Binary.0', 'op'), B)
        if op == 'MemberAccess':
            return POST
        return LEVEL.get(op, PRIM)      # assignments are blocks
    if k == 'Unary':
        op = w.tag(F(x, 'Unary.0', 'op'), U)
        return PREFIX if op in ('Plus', 'Minus', 'Not', 'Comp', 'Deref') else PRIM
    return PRIM


def is_line(c, w, x):
    n = F(x, 'Var.0', 'name')
    return w.tag(n, c.adt('IdentifierExpr')) == 'Plain' and w.streq(F(n, 'Plain.0', 'id'), '__LINE__')


def ends_with_cast(c, w, x, depth=0):
    """True / False / None (left open)"""
    l = level(c, w, x)
    if l == CAST:
        return True
    if 8 <= l <= 16:
        return ends_with_cast(c, w, F(x, 'Binary.0', 'rhs'), depth + 1) if depth < 1 else None
    return False


def sites(E, st, items, ctx=None):
    """(state, sub-expression, left neighbour, right neighbour) for all holes with code of a sub-node.
    A neighbour is None or the list of tokens up to it."""
    items = list(items)
    for i, x in enumerate(items):
        if x[0] == 'tk' and x[1] == 'g':
            yield from sites(E, st, x[3])
        elif x[0] == 'rep':
            for s, its in E.suffixes(x[1], x[2]):
                yield from sites(E, s, its)
        elif x[0] == 'hole' and x[1][0] == 'tok':
            yield st, x[1][1], items[:i], items[i + 1:]


def pt(x):
    return x[2] if x[0] == 'tk' and x[1] == 'p' else None


def idt(x):
    return x[2][1] if x[0] == 'tk' and x[1] == 'id' and x[2][0] == 's' else None


def is_operand_end(x):
    """Can x end an operand (so that a following `-`, `*`, `&` is a binary operator)?"""
    if x[0] in ('hole', 'rep', 'splat'):
        return True
    if x[1] == 'p':
        return False
    if x[1] == 'id':
        return idt(x) not in ('let', 'if', 'while', 'return', 'in', 'as', 'else', 'mut', 'const')
    return True


def required(left, right):
    """(minimal level on the left, on the right, must not end with a cast, note)"""
    lo, note, nocast = 0, [], False
    if left:
        p = pt(left[-1])
        if p is not None and p not in DELIM and p not in ASSIGNOPS:
            prefix = len(left) == 1 or not is_operand_end(left[-2])
            if prefix and p in ('-', '!', '*', '&'):
                lo = max(lo, PREFIX)
                note.append('after prefix `%s`' % p)
            elif p in OPLEVEL:
                lo = max(lo, OPLEVEL[p] + 1)
                note.append('right of `%s`' % p)
            elif p not in ('::', '$', '!', '->'):
                note.append('?' + p)
    if right:
        p = pt(right[0])
        if p == '.':
            lo = max(lo, POST)
            note.append('before `.`')
        elif p in OPLEVEL:
            lo = max(lo, OPLEVEL[p] + (1 if OPLEVEL[p] == 10 else 0))
            nocast = p in ('<', '<<')
            note.append('left of `%s`' % p)
        elif idt(right[0]) == 'as':
            lo = max(lo, CAST)
            note.append('before `as`')
        elif right[0][0] == 'tk' and right[0][1] == 'g' and right[0][2] == 'Parenthesis':
            lo = max(lo, POST)
            note.append('before a call')
        elif p is not None and p not in DELIM and p not in ASSIGNOPS:
            note.append('?' + p)
    return lo, nocast, ' and '.join(note)


def nodes(c):
    """(function, arguments, initial state, name)"""
    for adt, owner in ((c.adt('BinaryOp'), 'BinaryExpr'), (c.adt('UnaryOp'), 'UnaryExpr')):
        f = c.fn(owner + '::to_token_stream')
        for op in c.variants(adt):
            st = State()
            fix_variant(c, st, F(S, 'op'), adt, op)
            qual_facts(c, st)
            yield f, [S, CTX], st, owner + ' ' + op, True
    for owner in ('Cast', 'TernaryExpr', 'FunctionCall'):
        yield c.fn(owner + '::to_tokens'), [S, CTX, ('R', ('in', 'out'), ())], None, owner, False


def classes(c):
    """All kinds of expressions with their precedence as the code computes it: (fields fixed, precedence, associativity)."""
    f = c.fn('Expr::precedence')
    x = ('in', 'x')
    E, R, outs = c.run(f, [x])
    X, U, B = c.adt('Expr'), c.adt('UnaryOp'), c.adt('BinaryOp')
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        for w, kind in worlds(E, s, lambda w: (w.tag(x, X), w.tag(F(x, 'Binary.0', 'op'), B) if w.tag(x, X) == 'Binary' else
                                               w.tag(F(x, 'Unary.0', 'op'), U) if w.tag(x, X) == 'Unary' else
                                               is_line(c, w, x) if w.tag(x, X) == 'Var' else None)):
            c.ob('precedence of %s %s is a constant' % kind, v[3][0][0] == 'i' and v[3][1][0] == 'A', 'it is %s' % R.v(v), c.where(f))
            res.append((kind, v[3][0], v[3][1], dict(w.st.facts)))
    return res


def rebase(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(rebase(y, old, new) for y in t)
    return t


def restrict(c, E, s, x, kind, prec, assoc, facts):
    """The state in which x is of the given kind, or None if that contradicts its facts."""
    s = s.copy()
    for k, v in facts.items():
        k = rebase(k, ('in', 'x'), x)
        o = s.facts.get(k)
        if o is None:
            s.facts[k] = v
        elif k[0] == 'V':
            n = o & v
            if not n:
                return None
            s.facts[k] = n
        elif k[0] == 'T':
            if v[0] == 'in' and (o[0] == 'in' and o[1] != v[1] or o[0] == 'not' and v[1] in o[1]):
                return None
            if v[0] == 'not' and o[0] == 'in' and o[1] in v[1]:
                return None
            if v[0] == 'in':
                s.facts[k] = v
            elif o[0] == 'not':
                s.facts[k] = ('not', o[1] | v[1])
        elif k[0] == 'B' and o != v:
            return None
    if not E.refine_num(s, ('prec', x), 'Eq', prec[1], True):
        return None
    k = ('V', ('assoc', x))
    if k in s.facts and assoc[2] not in s.facts[k]:
        return None
    s.facts[k] = frozenset([assoc[2]])
    return s


def check(c):
    c.rule('a sub-expression is inserted without parentheses only if its Rust binding strength is sufficient for its neighbours')
    X = c.adt('Expr')
    n = 0
    cl = classes(c)
    c.floor('kinds of expressions', len(cl), 40)
    for f, args, st, name, ret in nodes(c):
        st = st or State()
        if not ret:
            st.cells[('in', 'out')] = ('TS', ())
        H = gen_handlers()
        E, R, outs = c.run(f, args, st, H)
        c.ob('%s is generated' % name, outs, 'no outcome', c.where(f))
        for s, v in outs:
            ts = E.snap(s, v) if ret else E.snap(s, s.cells[('in', 'out')])
            for s2, x, left, right in sites(E, s, ts[1]):
                if not is_expr(c, x):
                    continue
                lo, nocast, note = required(left, right)
                if x == F(S, 'rhs') and left and pt(left[-1]) == '.' and not right:
                    continue    # a member name
                c.ob('%s: neighbours of a sub-expression are understood' % name, '?' not in note, 'unknown neighbour %s of %s in %s' % (note, R.v(x), R.ts(ts[1])), c.where(f))
                if lo == 0:
                    continue
                for kind, prec, assoc, facts in cl:
                    s3 = restrict(c, E, s2, x, kind, prec, assoc, facts)
                    if s3 is None:
                        continue
                    for w, (l, e) in worlds(E, s3, lambda w: (level(c, w, x), ends_with_cast(c, w, x) if nocast else False)):
                        n += 1
                        c.ob('%s operand %s %s' % (name, R.v(x), note), l >= lo and not e,
                             'in the code of %s the operand %s is inserted without parentheses %s although it is a %s and %s\n    generated: %s' % (
                                 name, R.v(x), note, ' '.join(map(str, kind)), 'ends with a cast' if l >= lo else 'binds more loosely', R.ts(ts[1])), c.where(f))
    c.floor('operand positions', n, 200)


def is_expr(c, x):
    """Sub-nodes that are expressions (not types)."""
    return x[0] == 'fld' and x[3] in ('lhs', 'rhs', 'expr', 'condition', 'if_branch', 'else_branch') or x[0] == 'elem'
