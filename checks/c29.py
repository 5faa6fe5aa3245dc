"""C29: macro parameters get the fragment kind their use requires."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of the checking functions; recorded parameter kinds compared case by case with a specification'
EXPLANATION = ('For every node that can mention a parameter the recorded kinds (which parameter, which kind, depending on what was recorded before) are computed from the MIR '
               'and compared with the specification, also for loops over arguments and names; `FnMacro::generate` must start from the types the context supplies and emit exactly the recorded kinds.')
ASSUMPTIONS = ('parameter lists of function-like macros are explored up to two parameters (three in the thorough tier)',)


def check(c):
    c.rule('writes to arg_types[i] by checking a node == specified kind of exactly the parameter that is used there')
    phase.finish(c, ('frag',))
    phase.functions(c, ('frag',))
