"""C19: no part of a macro is skipped when it is checked or generated."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of the checking and generation functions, compared case by case with a specification of the parts each node has'
EXPLANATION = ('For every kind of node the parts that are checked by `finish` and the token template produced by `to_tokens` are computed from the MIR for '
               'every case of the node (loops over arguments, statements and names are summarised for an arbitrary element) and compared with the parts the node '
               'has; `FnMacro::generate`, `VarMacro::generate` and conditions are compared in the same way.')
ASSUMPTIONS = ('parameter lists of function-like macros are explored up to two parameters (three in the thorough tier)',)


def check(c):
    c.rule('parts checked by finish(node) == parts of node; parts in the code of node == parts of node, in source order')
    phase.finish(c, ('visit',))
    phase.conditions(c, ('visit',))
    phase.functions(c, ('visit',))
    phase.variables(c, ('visit',))
    n = phase.generated(c, kinds=('parts',), form=('FunctionCall', 'FunctionDecl', 'VarDecl', 'Var', 'IdentifierExpr', 'Expr', 'Lit'))
    c.floor('cases of generated code', n, 100)
