"""C03: malformed parameter lists and wrong argument counts are reported"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('Reading parameter names and checking an invocation are interpreted for all lists of up to three parameters and four arguments with arbitrary contents; '
               'they must fail exactly in the cases the rules name.')
ASSUMPTIONS = ('token lists are explored up to the lengths named in lib/msetspec.py (bodies of up to four or five tokens, invocations of up to five or six); texts, kinds of tokens and the contents of the macro set are arbitrary',)


def check(c):
    t = c.tier == 'thorough'
    c.rule('an error exactly if the parameter list, the number of arguments or __VA_ARGS__ breaks the rules')
    r = M.Runner(c, ('accepts', 'rejects', 'params'))
    M.parameter_names(r, 5 if t else 4)
    M.parameters_in_body(r, 2, 2)
    M.object_like(r, 2, 1)
    M.function_like(r, M.CALLS + (M.MORE_CALLS if t else []))
    c.floor('cases', r.cases, 2500)
