"""C13: generated string constants are NUL-terminated with a matching length."""
from lib import phase, finspec
from lib.gen import *
from lib.engine import State, RES
from lib.finspec import CTXC

TECHNIQUE = 'abstract interpretation of the MIR of the string code generation; unit sequences, lengths and element types compared with a specification'
EXPLANATION = ('For every kind of string literal and every language level the sequence of units written into the generated constant, the array length and the element type are '
               'computed from the MIR as functions of an arbitrary literal and compared with the specification; the same holds for the constants of `#x`, `__FILE__` and concatenated strings.')
ASSUMPTIONS = ('wide string literals contain valid text, which code generation has rejected otherwise (see C22)',)


def check(c):
    c.rule('units of the constant == units of the literal followed by exactly one zero; length == number of units; element type == type of the literal kind; CStr only without interior zero')
    phase.strings(c, ('content', 'length', 'type', 'nul', 'form'))
    phase.generated(c, ('Stringify', 'Var', 'Expr', 'Lit'), ('parts', 'form'))
    representable(c)


def representable(c):
    """A part of a concatenation is generated as a Rust string, so it has to be valid UTF-8."""
    f = c.fn('Expr::finish')
    st = State()
    fix_variant(c, st, S, c.adt('Expr'), 'ConcatString')
    E, R, outs = c.run(f, [S, CTX], st, {**gen_handlers(), **finspec.finish_handlers(), **ty_handlers(), **finspec.fold_handlers()}, watch=[CTXC])
    fn, _, res = finspec.analyse(c, 'Expr', st.copy())
    for aspect, msg, facts in res:
        c.ob('joined strings', aspect != 'fold', '%s\n    when %s' % (msg, facts), c.where(fn))
    c.floor('cases of joined strings', len(res), 10)
    kinds = set()
    for s, v in outs:
        v = E.snap(s, v)
        if v[0] != 'A' or v[1] != RES or v[2] != 1:
            continue
        for w, m in finspec.run_worlds(c, E, s, set(), lambda w: kinds.add(finspec.concat_reject(c, E, w))):
            pass
    c.ob('strings that are not valid UTF-8', 'Ordinary' in kinds, 'a string that is not valid UTF-8 is accepted as a part of a concatenation', c.where(f))
