"""C31: the inferred type of an expression follows the C rules."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of the checking functions; resulting types compared case by case with a specification'
EXPLANATION = ('The type every `finish` function returns is computed from the MIR as a function of the types of the parts and of the answers of the context, and compared '
               'with the specified rule in every case; variable-like macros get the type of their value.')
ASSUMPTIONS = ()


def check(c):
    c.rule('type returned by finish(node) == specified function of the types of its parts')
    phase.finish(c, ('type',))
    phase.conditions(c, ('type',))
    phase.variables(c, ('type',))
