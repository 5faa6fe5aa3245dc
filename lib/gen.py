"""Helpers for checks that look at code generation: abstract children, prefixes, token text."""
import re
from .engine import norm, is_sym, State, UNIT, NONE, some, tup
from . import models
from .engine import *  # noqa
from .framework import CTX

NODES = ['Expr', 'Type', 'Statement', 'IdentifierExpr', 'Lit', 'LitInt', 'LitFloat', 'LitChar', 'LitString', 'Cast', 'Var',
         'FunctionCall', 'UnaryExpr', 'BinaryExpr', 'TernaryExpr', 'Stringify', 'Asm', 'FunctionDecl', 'VarDecl', 'MacroArg',
         'BuiltInType', 'MacroBody']


def self_term(E, st, v):
    return E.snap(st, v)


def child_handlers(nodes=NODES, roots=(('in', 'self'),), prec=True, finish=False):
    """Sub-nodes are not inlined: their code is the hole ⟨tok(x)⟩, their precedence the symbols
    prec(x), assoc(x), their checked type the symbol fin(x)."""
    H = {}

    def stream(E, st, args, ci, fn, fr):
        x = E.snap(st, args[0])
        if x in roots:
            return None
        return [(st, ('tok', x))]

    def tokens(E, st, args, ci, fn, fr):
        x = E.snap(st, args[0])
        if x in roots:
            return None
        return [(models.ts_append(E, st, args[2] if len(args) > 2 else args[1], [('hole', ('tok', x))]), UNIT)]

    def precedence(E, st, args, ci, fn, fr):
        x = E.snap(st, args[0])
        if x in roots:
            return None
        return [(st, tup(('prec', x), ('assoc', x)))]
    for n in nodes:
        if n == 'MacroBody':
            continue
        H[n + '::to_token_stream'] = stream
        H[n + '::to_tokens'] = tokens
        if prec:
            H[n + '::precedence'] = precedence
    return H


def prefix_handlers(tp=True, ffi=True):
    H = {}

    def mk(v):
        def h(E, st, args, ci, fn, fr):
            return [(st, v)]
        return h
    for own in ('context::CodegenContext', 'LocalContext'):
        H[own + '::trait_prefix'] = mk(some(('in', 'TP')) if tp else NONE)
        H[own + '::ffi_prefix'] = mk(some(('in', 'FFI')) if ffi else NONE)
    return H


def gen_handlers(tp=True, ffi=True, **k):
    H = child_handlers(**k)
    H.update(prefix_handlers(tp, ffi))
    return H


def strip_parens(items):
    """( ⟨x⟩ ) -> ⟨x⟩ for groups that hold exactly one sub-node."""
    out = []
    for x in items:
        if x[0] == 'tk' and x[1] == 'g':
            inner = strip_parens(x[3])
            if x[2] in ('Parenthesis', 'None') and len(inner) == 1 and inner[0][0] == 'hole' and not is_call(out):
                out.append(inner[0])
                continue
            out.append(('tk', 'g', x[2], tuple(inner)) + tuple(x[4:]))
        else:
            out.append(x)
    return out


def is_call(out):
    """Does a parenthesis after these items mean a call or macro call?"""
    if not out:
        return False
    x = out[-1]
    if x[0] == 'tk' and x[1] in ('id', 'rawid'):
        return x[2] not in (('s', 'if'), ('s', 'while'), ('s', 'return'), ('s', 'as'))
    if x[0] == 'tk' and x[1] == 'p' and x[2] == '!':
        return len(out) > 1 and out[-2][0] == 'tk' and out[-2][1] in ('id', 'rawid')
    return False


def flat(items):
    """All token items including those inside groups, in order, with group delimiters."""
    for x in items:
        if x[0] == 'tk' and x[1] == 'g':
            o, c = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]', 'None': '⌊⌋'}[x[2]]
            yield ('open', o)
            yield from flat(x[3])
            yield ('close', c)
        else:
            yield x


def alpha(text):
    """Renames let-bound temporaries in order of appearance."""
    names = []
    for m in re.finditer(r'\blet (?:mut )?(?!mut\b)([a-z_]\w*)\b', text):
        if m.group(1) not in names:
            names.append(m.group(1))
    for i, n in enumerate(names):
        text = re.sub(r'(?<![\w.⟨"])%s\b(?!\()' % n, '_%d' % i, text)
    return text


S = ('in', 'self')


def F(base, *path):
    """F(x, 'Cast.0', 'ty') -> field terms; 'Variant.field' selects a field of an enum variant."""
    for p in path:
        v, _, f = p.rpartition('.')
        base = ('fld', base, v or None, f)
    return base


def fix_variant(c, st, term, adt, *names):
    st.facts[('V', term)] = frozenset(c.p.vidx(adt, n) for n in names)


def no_nested_qualifier(c, st, ty):
    """A type built by the parser or converted from a Rust type never qualifies a qualified type."""
    T = c.adt('Type')
    q = F(ty, 'Qualified.ty')
    st.facts[('V', q)] = frozenset(i for i, v in enumerate(c.p.variants(T)) if v['name'] != 'Qualified')


def volatile_pointer(c, w, e):
    """The pointer operand if `e` is a dereferenced cast to a pointer to a volatile type, else None."""
    X, U, T, Q = c.adt('Expr'), c.adt('UnaryOp'), c.adt('Type'), c.adt('TypeQualifier')
    if w.tag(e, X) != 'Unary' or w.tag(F(e, 'Unary.0', 'op'), U) != 'Deref':
        return None
    p = F(e, 'Unary.0', 'expr')
    return p if volatile_cast(c, w, p) else None


def volatile_cast(c, w, p):
    X, T, Q = c.adt('Expr'), c.adt('Type'), c.adt('TypeQualifier')
    if w.tag(p, X) != 'Cast':
        return False
    ty = F(p, 'Cast.0', 'ty')
    if w.tag(ty, T) == 'Qualified':
        ty = F(ty, 'Qualified.ty')
    if w.tag(ty, T) != 'Ptr':
        return False
    ty = F(ty, 'Ptr.ty')
    return w.tag(ty, T) == 'Qualified' and w.tag(F(ty, 'Qualified.qualifier'), Q) in ('Volatile', 'ConstVolatile')


def code(R, v):
    """Canonical text of generated code without parentheses around single sub-nodes."""
    if v[0] == 'TS':
        return alpha(R.ts(strip_parens(v[1])))
    return R.v(v)


def finish_handlers(nodes=NODES, roots=(S,), methods=('finish', 'finish_condition')):
    """Checking a sub-node x: may fail with finr(x).Err, else has type finr(x).Ok and becomes done(x)."""
    H = {}

    def mk(m):
        def fin(E, st, args, ci, fn, fr):
            x = E.snap(st, args[0])
            if x in roots or x[0] not in ('fld', 'elem', 'at', 'in', 'U', 'done', 'A', 'mut', 'call'):
                return None
            st = st.copy()
            st.add_eff((m, x))
            cell, pr = E.deref(args[0])
            E.write(st, cell, pr, ('done', x))
            return [(st, ('finr' if m == 'finish' else 'finc', x))]
        return fin
    for n in nodes:
        for m in methods:
            H[n + '::' + m] = mk(m)
    return H


def ty_handlers():
    """Conversions between Rust and C types are not inlined."""
    H = {}

    def conv(E, st, args, ci, fn, fr):
        return [(st, ('conv',) + tuple(E.snap(st, a) for a in args))]
    H['Type::from_rust_ty'] = conv
    return H


def queries(v, out=None):
    """All context queries occurring in a term."""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == 'call' and isinstance(v[1], str) and 'CodegenContext::' in v[1]:
            out.add(v)
        for x in v:
            queries(x, out)
    return out


def outcome_queries(E, s, v):
    out = queries(E.snap(s, v))
    for k in s.facts:
        queries(k, out)
    for e in s.eff:
        queries(e, out)
    for x in s.cells.values():
        queries(E.snap(s, x), out)
    return out


def macro_handlers(c):
    """Like finish_handlers, but checking a part also changes the context: afterwards the flag `export_as_macro`
    is mac(x) and the recorded parameter kinds are kinds(x)."""
    base = finish_handlers(roots=())
    ctx = c.adt('LocalContext')
    fields = [f['name'] for f in c.p.variants_raw(ctx)] if hasattr(c.p, 'variants_raw') else [f['name'] for f in c.p.variants(ctx)[0]['fields']]
    H = {}

    def wrap(h):
        def fin(E, st, args, ci, fn, fr):
            r = h(E, st, args, ci, fn, fr)
            if r is None:
                return None
            x = E.snap(st, args[0])
            for s, _ in r:
                cell, pr = E.deref(args[1])
                for name, v in (('export_as_macro', ('mac', x)), ('arg_types', ('kinds', x))):
                    E.write(s, cell, pr + (('f', None, fields.index(name), name),), v)
            return r
        return fin
    for k, h in base.items():
        H[k] = wrap(h)
    return H
