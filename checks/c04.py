"""C04: arguments are substituted according to the rules for # and ##"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('Substitution is interpreted for all bodies of up to four tokens in which every position is a given parameter or an arbitrary other token, with arguments of up to three tokens; '
               'stringification for all lists of up to three tokens of each kind. Operands of # must be stringified, operands of ## inserted as they are, everything else must be expanded.')
ASSUMPTIONS = ('token lists are explored up to the lengths named in lib/msetspec.py (bodies of up to four or five tokens, invocations of up to five or six); texts, kinds of tokens and the contents of the macro set are arbitrary',)


def check(c):
    t = c.tier == 'thorough'
    c.rule('the replacement of each parameter is decided by its neighbours in the body that are no comments')
    r = M.Runner(c)
    M.arguments(r, M.ARGS + M.WIDE + (M.MORE_ARGS if t else []))
    M.check_stringify(r, 0, [])
    M.check_stringify(r, 1, M.KINDS)
    M.check_stringify(r, 2, M.KINDS if t else M.KINDS[:6] + ['!Identifier'])
    if t:
        M.check_stringify(r, 3, ['MacroArg', 'Comment', 'Punctuation', 'Identifier'])
    r.aspects = frozenset(['args'])
    M.function_like(r, M.CALLS)
    r.aspects = None
    M.parameters_in_body(r, 2, 2)
    c.floor('cases', r.cases, 10000)
