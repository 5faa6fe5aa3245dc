"""C23: constant expressions are folded with their own operator."""
from lib import phase
from lib.gen import *
from lib.ceval import ev, holds, Unknown, OPS
from lib.finspec import FOLD

TECHNIQUE = 'abstract interpretation of the MIR of constant folding; the resulting terms are compared with the operator by constant folding'
EXPLANATION = ('`Expr::finish` is compared case by case with the folding rules (which operator implementation is applied to which operands, division by zero, what is left in place); '
               'the operator implementations of integer and floating-point literals are read off the MIR as terms over the two operands and folded for operand values that tell all operators and operand orders apart.')
ASSUMPTIONS = ('shifts by a negative amount or by 128 and more, which C leaves undefined, are not judged',)

INTS = (-9, -4, -1, 0, 1, 2, 3, 5, 7, 12, 100)
FLOATS = (-2.5, -1.0, 0.5, 1.0, 2.0, 6.25)
SYM = dict(mul='Mul', div='Div', rem='Rem', add='Add', sub='Sub', shl='Shl', shr='Shr', bitand='BitAnd', bitor='BitOr', bitxor='BitXor')


def narrows(t):
    return isinstance(t, tuple) and (t[:1] == ('as',) and t[-2] == 'f32' or any(narrows(x) for x in t))


def check(c):
    c.rule('result of folding == operator applied to the operands in source order; division by a constant zero is an error; other operators unchanged')
    phase.finish(c, ('fold',))
    a, b = ('in', 'a'), ('in', 'b')
    n = 0
    for name in FOLD.values():
        f = c.fn('LitInt::' + name)
        w = c.where(f)
        E, R, outs = c.run(f, [a, b], State(), {})
        names = [x['name'] for x in c.p.variants(c.adt('LitInt'))[0]['fields']]
        for x in INTS:
            for y in INTS:
                if name in ('div', 'rem') and y == 0 or name in ('shl', 'shr') and y < 0:
                    continue
                hit = 0
                for s, v in outs:
                    v = E.snap(s, v)

                    def env(t):
                        return {F(a, 'value'): x, F(b, 'value'): y}.get(t)
                    facts = {k: f for k, f in s.facts.items() if mentions(k[1], 'value')}
                    try:
                        if not holds(facts, env):
                            continue
                        hit += 1
                        n += 1
                        got = ev(v[3][names.index('value')], env) if v[0] == 'A' else None
                        want = OPS[SYM[name]](x, y)
                        c.ob('integers: %s' % name, got == want, 'folding %s of the integers %d and %d yields %s instead of %s' % (name, x, y, got, want), w)
                    except Unknown as e:
                        c.ob('integers: %s' % name, False, 'folding %s yields %s' % (name, R.v(e.args[0])[:300]), w)
                c.ob('integers: %s has a result' % name, hit, 'folding %s of %d and %d has no result' % (name, x, y), w)
        for s, v in outs:
            v = E.snap(s, v)
            if v[0] == 'A':
                sf = v[3][names.index('suffix')]
                own = sf == NONE or sf in (F(a, 'suffix'), F(b, 'suffix')) or sf[0] == 'A' and sf[3][0] in (('fld', F(a, 'suffix'), 'Some', '0'), ('fld', F(b, 'suffix'), 'Some', '0'))
                c.ob('integers: type of %s' % name, own, 'folding %s yields the suffix %s' % (name, R.v(sf)), w)
    LF = c.adt('LitFloat')
    for name in ('mul', 'div', 'add', 'sub'):
        f = c.fn('LitFloat::' + name)
        w = c.where(f)
        for ka in c.variants(LF):
            for kb in c.variants(LF):
                st = State()
                fix_variant(c, st, a, LF, ka)
                fix_variant(c, st, b, LF, kb)
                E, R, outs = c.run(f, [a, b], st, {})
                c.ob('floating point: %s has a result' % name, outs, 'folding %s of %s and %s has no result' % (name, ka, kb), w)
                for s, v in outs:
                    v = E.snap(s, v)
                    kind = c.p.variants(LF)[v[2]]['name'] if v[0] == 'A' else None
                    kinds = {ka, kb}
                    ok = ('Float',) if kinds == {'Float'} else ('Double', 'LongDouble') if 'LongDouble' in kinds else ('Double',)
                    c.ob('floating point: type of %s' % name, kind in ok, 'folding %s of %s and %s yields a %s' % (name, ka, kb, kind), w)
                    if v[0] != 'A':
                        continue
                    t = v[3][0]
                    c.ob('floating point: precision of %s' % name, kinds == {'Float'} or not narrows(t), 'folding %s of %s and %s calculates with less than the precision of double' % (name, ka, kb), w)
                    for x in FLOATS:
                        for y in FLOATS:
                            def env(t):
                                return {F(a, ka + '.0'): x, F(b, kb + '.0'): y}.get(t)
                            n += 1
                            try:
                                if not holds(s.facts, lambda t: env(t) if t[0] != 'variant' else {a: c.p.vidx(LF, ka), b: c.p.vidx(LF, kb)}.get(t[1])):
                                    continue
                                got = ev(t, env)
                                want = OPS[SYM[name]](x, y)
                                c.ob('floating point: %s' % name, got == want, 'folding %s of %s %s and %s %s yields %s instead of %s' % (name, ka, x, kb, y, got, want), w)
                            except Unknown as e:
                                c.ob('floating point: %s' % name, False, 'folding %s yields %s' % (name, R.v(e.args[0])[:300]), w)
    c.floor('folded operand pairs', n, 1500)


def mentions(t, field):
    return isinstance(t, tuple) and (t[:1] == ('fld',) and t[3] == field or any(mentions(x, field) for x in t))
