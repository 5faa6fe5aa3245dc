"""Specification of `FnMacro::generate` and `VarMacro::generate` (and of conditions), for parameter
lists of up to MAXARGS parameters with arbitrary names, types and recorded kinds.

Aspects: visit (C19), error (C22), macro (C18), frag (C29), const (C17), context (C20/C21), type (C31)."""
from .gen import *
from .finspec import canon, Mismatch, compare_self, flatten, W, E_snap, iter_effects, run_worlds
from .genspec import text, norm_text
from .spec import Fork, Impossible
from .engine import OPT, RES, is_sym, State, norm

CXT = ('in', 'cx')
FLAGS = ('generate_cstr', 'static_lifetime_elision')
BODY = F(S, 'body')


def ctx_fields(c):
    return [x['name'] for x in c.p.variants(c.adt('LocalContext'))[0]['fields']]


def handlers(c, kinds, roots=()):
    """Checking the body sets the kinds of all parameters and the macro flag to arbitrary values; what the
    context looked like before, and the macro flag whenever code of a part is generated, is recorded."""
    fields = ctx_fields(c)
    H = {**gen_handlers(), **ty_handlers()}
    base = finish_handlers(roots=roots)

    def wrap(h):
        def fin(E, st, args, ci, fn, fr):
            x = E.snap(st, args[0])
            before = E.snap(st, E.rd(st, args[1]))
            r = h(E, st, args, ci, fn, fr)
            if r is None:
                return None
            for s, _ in r:
                s.add_eff(('ctx', before))
                cell, pr = E.deref(args[1])
                for name, v in (('export_as_macro', ('mac', x)), ('arg_types', kinds)):
                    if v is not None:
                        E.write(s, cell, pr + (('f', None, fields.index(name), name),), v)
            return r
        return fin
    for k, h in base.items():
        H[k] = wrap(h)

    def gen(h, ix):
        def g(E, st, args, ci, fn, fr):
            r = h(E, st, args, ci, fn, fr)
            if r is None or len(args) < 2 or args[1][0] != 'R':
                return r
            cx = E.snap(st, E.rd(st, args[1]))
            if cx[0] == 'A' and cx[1] == c.adt('LocalContext'):
                x = E.snap(st, args[0])
                out = []
                for s, v in r:
                    s = s.copy() if s is st else s
                    s.add_eff(('gen', x, cx[3][fields.index('export_as_macro')], tuple(cx[3][fields.index(n)] for n in FLAGS)))
                    out.append((s, v))
                return out
            return r
        return g
    for k in list(H):
        if k.endswith('::to_tokens') or k.endswith('::to_token_stream'):
            H[k] = gen(H[k], 1)
    return H


def fn_macro(c, k, target=False):
    """-> fn, E, R, outcomes of FnMacro::generate for k parameters"""
    FM = c.adt('FnMacro')
    names = [x['name'] for x in c.p.variants(FM)[0]['fields']]
    params = ('L', tuple(('in', 'p%d' % i) for i in range(k)))
    kinds = ('L', tuple(('in', 'k%d' % i) for i in range(k)))
    f = c.fn('FnMacro::generate')
    st = State()
    st.cells[('S', S)] = ('U', S, ((('f', None, names.index('args'), 'args'), params),))
    if not target:
        st.facts[('V', ('call', 'context::CodegenContext::rust_target', CXT))] = frozenset([0])
    H = handlers(c, kinds)
    E, R, outs = c.run(f, [('R', ('S', S), ()), CXT], st, H)
    return f, E, R, outs


def ask(q, *a):
    return ('call', 'context::CodegenContext::' + q, CXT) + a


def split_form(t):
    return 'macro' if 'macro_rules !' in t else 'function' if ' fn ' in t else 'other'


def fn_spec(w, k, got, s, v):
    """Compares one outcome; got is the generated text or None for a failure v."""
    R = w.c.R
    name = F(S, 'name')
    ps = [('in', 'p%d' % i) for i in range(k)]
    ks = [('in', 'k%d' % i) for i in range(k)]
    T, MAT = w.A('Type'), w.A('MacroArgType')
    initial = []
    for p in ps:
        q = ask('macro_arg_ty', name, p)
        if w.opt(q) is None:
            initial.append('Unknown')
            continue
        cv = ('conv', w.opt(q), ('A', OPT, 1, (('in', 'FFI'),)))
        if not w.is_ok(cv):
            if got is not None:
                raise Mismatch('error', 'a parameter type that cannot be converted is accepted')
            if v != ('fld', cv, 'Err', '0'):
                raise Mismatch('error', 'fails with %s instead of %s' % (R.v(v), R.v(('fld', cv, 'Err', '0'))))
            return
        initial.append(w.mk('MacroArgType', 'Known', _0=('fld', cv, 'Ok', '0')))
    fin = ('finr', BODY)
    fins = [e for e in s.eff if e[0] == 'finish']
    if [e[1] for e in fins] != [BODY]:
        raise Mismatch('visit', 'the body is checked %d times before code is generated' % len([e for e in fins if e[1] == BODY]))
    if not w.is_ok(fin):
        if got is not None:
            raise Mismatch('error', 'a body that was rejected is accepted')
        if v != ('fld', fin, 'Err', '0'):
            raise Mismatch('error', 'fails with %s instead of %s' % (R.v(v), R.v(('fld', fin, 'Err', '0'))))
        return
    cx = [e[1] for e in s.eff if e[0] == 'ctx'][0]
    get = dict(zip(ctx_fields(w.c), cx[3]))
    if get['arg_names'] != ('L', tuple(ps)):
        raise Mismatch('macro', 'the body is checked with the parameters %s' % R.v(get['arg_names']))
    at = get['arg_types']
    want = ('L', tuple(w.mk('MacroArgType', 'Unknown') if x == 'Unknown' else x for x in initial))
    if at != want:
        raise Mismatch('frag', 'the body is checked with the parameter kinds %s instead of %s' % (R.v(at), R.v(want)))
    if get['is_variable_macro'] != ('i', 0):
        raise Mismatch('const', 'a function-like macro is checked like a variable-like one')
    ret = ('fld', fin, 'Ok', '0')
    macro = (w.truth(('mac', BODY)) or w.opt(ask('function', name)) is not None or (k > 0 and w.streq(ps[-1], '...'))
             or any(w.tag(x, MAT) != 'Known' for x in ks) or w.opt(ret) is None)
    if got is None:
        raise Mismatch('error', 'fails with %s' % R.v(v))
    body = ('done', BODY)
    b = w.fld(body, w.tag(body, w.A('MacroBody')), '0')
    gens = [e for e in s.eff if e[0] == 'gen']
    if [e[1] for e in gens if e[1] == b] != [b]:
        raise Mismatch('visit', 'the code of the body is generated %d times' % len([e for e in gens if e[1] == b]))
    for e in gens:
        if w.truth(e[2]) != macro:
            raise Mismatch('macro', 'the code of %s is generated as for a %s but becomes part of a %s' % (
                (R.v(canon(e[1])),) + (('function', 'macro') if macro else ('macro', 'function'))))
    btok = '⟨tok(%s)⟩' % R.v(canon(b))
    nm = '⟨id %s⟩' % R.v(name)
    if macro:
        ids = '⟨id str+("__cmacro__", %s)⟩' % R.v(name)
        pats = []
        for p, kd in zip(ps, ks):
            if w.streq(p, '...'):
                pats.append('$ ( $ __VA_ARGS__ : expr ) , *')
            else:
                frag = {'Ident': 'ident', 'Ty': 'ty', 'Tt': 'tt'}.get(w.tag(kd, MAT), 'expr')
                pats.append('$ ⟨id %s⟩ : %s' % (R.v(p), frag))
        exp = ['# [ doc ( hidden ) ] # [ macro_export ] macro_rules !', ids, '{ (', ' , '.join(pats), ') => {', btok, '} ; } pub use', ids, 'as', nm, ';']
        pat = ' , '.join(pats)
    else:
        pat = ' , '.join('mut ⟨id %s⟩ : ⟨tok(%s)⟩' % (R.v(p), R.v(F(kd, 'Known.0'))) for p, kd in zip(ps, ks))
        ty = w.opt(ret)
        void = w.tag(ty, T) == 'BuiltIn' and w.tag(F(ty, 'BuiltIn.0'), w.A('BuiltInType')) == 'Void'
        exp = ['# [ allow ( non_snake_case , unused_mut , unsafe_code ) ] # [ inline ( always ) ] pub unsafe extern "C" fn', nm, '(', pat, ')',
               '' if void else '-> ⟨tok(%s)⟩' % R.v(ty), '{', btok, ';' if void else '', '}']
    exp = norm_text(' '.join(x for x in exp if x))
    if exp == got:
        return
    kind = 'macro' if macro else 'function'
    if split_form(got) != kind:
        raise Mismatch('macro', 'is generated as a %s instead of a %s' % (split_form(got), kind))
    if btok not in got:
        raise Mismatch('visit', 'the code does not contain the code of the body:\n      %s' % got)
    if macro and frag_only(exp, got):
        raise Mismatch('frag', 'is\n      %s\n    instead of\n      %s' % (got, exp))
    raise Mismatch('macro', 'is\n      %s\n    instead of\n      %s' % (got, exp))


def frag_only(a, b):
    import re
    z = lambda t: re.sub(r': (expr|ident|ty|tt|literal|block|path|pat|stmt)\b', ': X', t)
    return z(a) == z(b)


def analyse_fn(c, k, target=False):
    f, E, R, outs = fn_macro(c, k, target)
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        for s1, good, val in result_cases(E, s, v):
            got = None
            if good:
                got = text(R, val[1], []) if val[0] == 'TS' else R.v(val)
            for w, m in run_worlds(c, E, s1, {BODY}, lambda w: fn_spec(w, k, got, s, val)):
                res.append((m.aspect if m else None, m.msg if m else '', R.facts(w.st)))
    return f, E, res


def result_cases(E, s, v):
    if v[0] == 'A' and v[1] == RES:
        return [(s, v[2] == 0, v[3][0])]
    return [(x, i == 0, ('fld', v, 'Ok' if i == 0 else 'Err', '0')) for x, i in E.fork_variant(s, v, RES)]


# ------------------------------------------------------------------ variable-like macros

VALUE = F(S, 'body', 'Expr.0')


def var_spec(w, s, good, val, R):
    p = w.p
    body = BODY
    CE = w.A('CodegenError')

    def fails(name, aspect):
        if good:
            raise Mismatch(aspect, 'code is generated for a macro that has to be rejected (%s)' % name)
        if val[0] != 'A' or p.variants(CE)[val[2]]['name'] != name:
            raise Mismatch('error', 'fails with %s instead of %s' % (R.v(val), name))
    if w.tag(body, w.A('MacroBody')) == 'Statement':
        return fails('NonExpressionVarMacro', 'const')
    fin = ('finr', VALUE)
    fins = [e for e in s.eff if e[0] == 'finish']
    alt = ('finr', BODY)
    if [e[1] for e in fins] not in ([VALUE], [BODY]):
        raise Mismatch('visit', 'the value is checked %d times before code is generated' % len(fins))
    v = fins[0][1]
    fin = ('finr', v)
    if not w.is_ok(fin):
        if good:
            raise Mismatch('error', 'a value that was rejected is accepted')
        if val != ('fld', fin, 'Err', '0'):
            raise Mismatch('error', 'fails with %s instead of %s' % (R.v(val), R.v(('fld', fin, 'Err', '0'))))
        return
    cx = [e[1] for e in s.eff if e[0] == 'ctx'][0]
    get = dict(zip(ctx_fields(w.c), cx[3]))
    if get['is_variable_macro'] != ('i', 1):
        raise Mismatch('const', 'the value is not checked as that of a constant')
    if w.truth(('mac', v)):
        return fails('NonConstantVarMacro', 'const')
    if not good:
        raise Mismatch('error', 'fails with %s' % R.v(val))
    v = ('done', v) if v == VALUE else F(('done', v), 'Expr.0')
    string = w.tag(v, w.A('Expr')) == 'Literal' and w.tag(F(v, 'Literal.0'), w.A('Lit')) == 'String'
    if val[0] != 'A' or len(val[3]) != 2:
        raise Mismatch('visit', 'the result is %s' % R.v(val))
    toks, ty = val[3]
    got = text(R, toks[1], []) if toks[0] == 'TS' else R.v(toks)
    if string:
        lit = F(v, 'Literal.0', 'String.0')
        want = R.v(canon(('fld', ('tok', lit), None, '1')))
        if got not in ('⟨%s⟩' % want, '⟨…%s⟩' % want):
            raise Mismatch('visit', 'the value is generated as %s instead of %s' % (got, want))
        want = ('A', OPT, 1, (('fld', ('tok', lit), None, '0'),))
        if R.v(canon(ty)) != R.v(canon(want)) and norm_hole(R.v(canon(ty))) != R.v(canon(want)):
            raise Mismatch('type', 'the type is generated as %s instead of %s' % (R.v(ty), R.v(want)))
        return
    want = '⟨tok(%s)⟩' % R.v(canon(v))
    if got != want:
        raise Mismatch('visit', 'the value is generated as %s instead of %s' % (got, want))
    t = w.opt(('fld', fin, 'Ok', '0'))
    if t is None:
        if w.opt(ty) is not None:
            raise Mismatch('type', 'a value without a type gets the type %s' % R.v(ty))
        return
    g = w.opt(ty)
    if g is None:
        raise Mismatch('type', 'the type %s of the value is not generated' % R.v(t))
    gt = text(R, g[1], []) if g[0] == 'TS' else '⟨%s⟩' % R.v(canon(g))
    if gt != '⟨tok(%s)⟩' % R.v(canon(t)):
        raise Mismatch('type', 'the type is generated as %s instead of that of %s' % (gt, R.v(t)))


def norm_hole(t):
    return t.replace('«⟨', '').replace('⟩»', '')


def var_macro(c, target=False):
    f = c.fn('VarMacro::generate')
    st = State()
    if not target:
        st.facts[('V', ('call', 'context::CodegenContext::rust_target', CXT))] = frozenset([0])
    E, R, outs = c.run(f, [S, CXT], st, handlers(c, None))
    return f, E, R, outs


def analyse_var(c):
    f, E, R, outs = var_macro(c)
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        for s1, good, val in result_cases(E, s, v):
            for w, m in run_worlds(c, E, s1, {BODY, VALUE}, lambda w: var_spec(w, s, good, val, R)):
                res.append((m.aspect if m else None, m.msg if m else '', R.facts(w.st)))
    return f, E, res


# ------------------------------------------------------------------ conditions

def cond_spec(w, s, s1, good, val, R, E):
    fins = [e for e in s.eff if e[0] == 'finish']
    if [e[1] for e in fins] != [S]:
        raise Mismatch('visit', 'the condition is checked %d times' % len(fins))
    fin = ('finr', S)
    if not w.is_ok(fin):
        if good:
            raise Mismatch('error', 'a condition that was rejected is accepted')
        if val != ('fld', fin, 'Err', '0'):
            raise Mismatch('error', 'fails with %s' % R.v(val))
        return
    if not good:
        raise Mismatch('error', 'fails with %s' % R.v(val))
    boolean = ('A', OPT, 1, (w.T('Bool'),))
    isb = w.same(('fld', fin, 'Ok', '0'), boolean)
    if not w.eqv(val, boolean):
        raise Mismatch('type', 'the type of a condition is %s' % R.v(val))
    cell = s1.cells.get(('S', S))
    new = E.snap(s1, cell) if cell is not None else S
    old = ('done', S)
    if new == S:
        new = old
    if isb:
        if not w.eqv(new, old):
            raise Mismatch('cond', 'a boolean condition becomes %s' % R.v(new))
        return
    want = w.mk('Expr', 'Binary', _0=w.mk('BinaryExpr', lhs=old, op=w.mk('BinaryOp', 'Neq'),
                rhs=w.mk('Expr', 'Literal', _0=w.mk('Lit', 'Int', _0=w.mk('LitInt', value=('i', 0), suffix=NONE)))))
    if not w.eqv(new, want):
        raise Mismatch('cond', 'a condition that is not boolean becomes %s instead of %s' % (R.v(new), R.v(want)))


def analyse_cond(c):
    f = c.fn('Expr::finish_condition')
    H = {**gen_handlers(), **finish_handlers(roots=(), methods=('finish',)), **ty_handlers()}
    E, R, outs = c.run(f, [S, CTX], State(), H)
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        for s1, good, val in result_cases(E, s, v):
            for w, m in run_worlds(c, E, s1, {S}, lambda w: cond_spec(w, s, s1, good, val, R, E)):
                res.append((m.aspect if m else None, m.msg if m else '', R.facts(w.st)))
    return f, E, res
