"""C17: variable-like macros only become constants if they are constant."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of the checking functions; acceptance conditions compared case by case with a specification'
EXPLANATION = ('The cases in which checking a node of a variable-like macro succeeds are computed from the MIR and compared with the cases in which the node is constant; '
               '`VarMacro::generate` must check in constant mode, reject statements and reject everything whose checking asked for a macro.')
ASSUMPTIONS = ()


def check(c):
    c.rule('a node that is not constant is rejected when it is checked for a variable-like macro, or asks for a macro, which VarMacro::generate rejects')
    phase.finish(c, ('const', 'macro'))
    phase.functions(c, ('const',), top=1)
    phase.variables(c, ('const',))
