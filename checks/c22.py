"""C22: no error is swallowed."""
from lib import phase, msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the checking and generation functions; error flow of every failing part compared with a specification'
EXPLANATION = ('Every part a node has may fail (and so may every step of a macro expansion); for every case the result of checking the node must be that failure, and a node whose parts all succeed must not fail '
               'unless the specification names the reason. The same holds for generating whole macros and for converting the types the context supplies.')
ASSUMPTIONS = ('parameter lists of function-like macros are explored up to two parameters (three in the thorough tier)',)


def check(c):
    c.rule('failure of a part => the same failure of the whole; no other failures than the specified ones')
    phase.finish(c, ('error',))
    phase.conditions(c, ('error',))
    phase.functions(c, ('error',))
    phase.variables(c, ('error',))
    r = M.Runner(c, ('error',))
    M.rescanning(r, 3)
    M.invocations(r, 5)
    M.object_like(r, 2, 2)
    M.function_like(r, M.CALLS)
    M.arguments(r, M.ARGS)
    M.check_expand_concat(r, 3)
    M.check_expand(r)
    M.check_detokenize(r)
