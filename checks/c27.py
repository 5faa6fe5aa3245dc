"""C27: copies with a longer lifetime are identical to the original."""
from lib import term
from lib.engine import *

TECHNIQUE = 'abstract interpretation of the MIR of the conversions to owned forms on a symbolic value; the result of every path is compared with the input field by field'
EXPLANATION = ('Every conversion (`to_static`, `into_static`) is interpreted on an unknown value; on every path the result has to have the same variant as the input, and every field has to be that field of the input '
               '(nested conversions by induction, collections element by element). A conversion may fail only where its result type allows it.')
ASSUMPTIONS = ('borrowed and owned `Cow`s with the same content are the same',)


class No(Exception):
    pass


def same(c, E, st, v, t, seen):
    """v is the value of the input term t"""
    if v == t:
        return
    if v[0] == 'fld' and v[2] in ('Some', 'Ok') and v[1][0] == 'call' and v[1][1].split('::')[-1] in ('to_static', 'into_static') and v[1][2] == t:
        return
    if v[0] == 'call' and v[1].split('::')[-1] in ('to_static', 'into_static') and v[2] == t:
        return
    if v[0] == 'A':
        var = c.p.variants(v[1])[v[2]]
        if len(c.p.variants(v[1])) > 1:
            fs = st.facts.get(('V', t))
            if fs != frozenset([v[2]]):
                raise No('a value of another kind becomes %s' % var['name'])
        for i, x in enumerate(v[3]):
            n = var['fields'][i]
            n = n['name'] if isinstance(n, dict) else n[0] if isinstance(n, (list, tuple)) else n
            for k in (var['name'], None, ''):
                if x[0] == 'fld' and x == ('fld', t, k, n):
                    break
            else:
                kid = next((y for k in (var['name'], None, '') for y in [('fld', t, k, n)] if mentions(x, y) or mentions(st.facts, y)), None)
                if kid is None and x[0] == 'L':
                    kid = next((y for y in [('fld', t, var['name'], n), ('fld', t, None, n)] if any(mentions(b, y) for b in loop_states(E, x))), None)
                if kid is None:
                    raise No('%s.%s becomes something else' % (var['name'], n))
                same(c, E, st, x, kid, seen)
        return
    if v[0] == 'L' and len(v[1]) == 1 and v[1][0][0] == 'rep':
        n = 0
        for b, items in E.suffixes(v[1][0][1], v[1][0][2]):
            for x in items:
                e = [y for y in elems(x) if y[1] == t]
                if len(items) != 1 or not e:
                    raise No('an element is left out or repeated')
                same(c, E, b, E.snap(b, x), e[0], seen)
                n += 1
        if n:
            return
    raise No('it becomes %s' % term.Renderer(c.p, E).v(v))


def mentions(x, y):
    if x == y:
        return True
    if isinstance(x, dict):
        return any(mentions(k, y) for k in x)
    return isinstance(x, tuple) and any(mentions(z, y) for z in x)


def loop_states(E, v):
    for r in v[1]:
        if r[0] == 'rep':
            for b, items in E.suffixes(r[1], r[2]):
                yield tuple(items)


def elems(x):
    if isinstance(x, tuple):
        if x and x[0] == 'elem':
            yield x
        for y in x:
            yield from elems(y)


def check(c):
    c.rule('conversion(x) == x with the same variant and the same fields')
    n = 0
    for path, f in sorted(c.p.fns.items()):
        if path.split('::')[-1] not in ('to_static', 'into_static') or f.get('kind') == 'closure':
            continue
        E = Engine(c.p)
        st = State()
        inp = ('in', 'self')
        st.cells['@self'] = inp
        outs = E.run(f, [('R', '@self', ()) if c.p.tyname(f['locals'][1][0]).startswith('&') else inp], st)
        R = term.Renderer(c.p, E)
        c.functions |= E.inlined
        c.steps += E.steps
        c.outcomes += len(outs)
        c.strange = dict(E.unmodelled)
        c.fresh = bool(c.strange)
        option = c.p.tyname(f['locals'][0][0]).startswith('Option')
        for s, v in outs:
            v = E.snap(s, v)
            n += 1
            m = None
            if option:
                if v[0] == 'A' and v[1] == OPT and v[2] == 0:
                    IE = c.adt('IdentifierExpr')
                    why = any(k[0] == 'V' and (k[1][0] == 'call' and fs == frozenset([0]) or k[1][0] == 'fld' and k[1][3] == 'name' and c.p.vidx(IE, 'Plain') not in fs)
                              for k, fs in s.facts.items() if isinstance(fs, frozenset))
                    c.ob(path, why, 'conversion of a value fails although nothing in it is generic\n    when %s' % R.facts(s), c.where(f))
                    continue
                v = v[3][0]
            try:
                same(c, E, s, v, inp, set())
            except No as x:
                m = str(x)
            c.ob(path, m is None, 'conversion of a value: %s\n    when %s' % (m, R.facts(s)), c.where(f))
    c.strange = {}
    c.floor('cases of conversions', n, 15)
