"""C18: a function is generated only if its complete signature is known."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of FnMacro::generate and of every place that sets the macro flag, compared case by case with a specification'
EXPLANATION = ('For parameter lists of up to two (thorough: three) parameters with arbitrary names, kinds and context answers the form `FnMacro::generate` chooses and the '
               'complete template are compared with the specification; the flag that forces a macro is set by checking exactly the specified nodes; parameters are '
               'referenced as the chosen form requires, and the form is fixed before the code of the body is generated.')
ASSUMPTIONS = ('parameter lists of function-like macros are explored up to two parameters (three in the thorough tier)',)


def check(c):
    c.rule('function form <=> not variadic, all parameter kinds Known, result known, no function of that name, no part asked for a macro')
    phase.functions(c, ('macro',))
    phase.finish(c, ('macro',))
    phase.generated(c, nodes=['MacroArg', 'Var', 'IdentifierExpr', 'Stringify'], kinds=('parts', 'form'))
