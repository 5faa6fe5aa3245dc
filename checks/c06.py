"""C06: redefinition is reported exactly when the definition changed"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('The functions that define and undefine macros are interpreted for all old and new definitions of up to three body tokens and two parameters with arbitrary texts; the answer and both maps '
               'afterwards are compared with the specification.')
ASSUMPTIONS = ('definitions of up to three body tokens and two parameters; texts and the rest of the macro set are arbitrary',)


def check(c):
    t = c.tier == 'thorough'
    c.rule('redefined <=> it existed and differs in a token that is no white space, or was of the other kind; the name denotes only the new macro afterwards')
    r = M.Runner(c)
    M.check_is_whitespace(r)
    n = 4 if t else 3
    for a in range(n):
        for b in range(n):
            M.check_define(r, 'var', a, b)
    for x in [((0, 0), (0, 0)), ((1, 1), (1, 1)), ((0, 2), (1, 2)), ((2, 1), (2, 1)), ((1, 2), (1, 1)), ((2, 0), (1, 0)), ((0, 1), (0, 2))] + ([((2, 2), (2, 2)), ((2, 2), (1, 2))] if t else []):
        M.check_define(r, 'fn', *x)
    M.check_undefine(r, 'var')
    M.check_undefine(r, 'fn')
    c.floor('cases', r.cases, 120)
