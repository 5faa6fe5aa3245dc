"""C32: invocations are recognised and replaced as in C"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('Rescanning is interpreted on all lists of up to three arbitrary tokens and on lists of up to five (thorough: six) tokens that start with a name and a parenthesis. '
               'A name must be replaced exactly if the macro set defines it, with the arguments a complete invocation supplies, and the result rescanned together with the tokens after it. '
               'Reading token strings and giving tokens to the user must keep every token.')
ASSUMPTIONS = ('token lists are explored up to the lengths named in lib/msetspec.py (bodies of up to four or five tokens, invocations of up to five or six); texts, kinds of tokens and the contents of the macro set are arbitrary',)


def check(c):
    t = c.tier == 'thorough'
    c.rule('a defined name is replaced, a function-like one only if a complete invocation follows; all other tokens stay as they are')
    r = M.Runner(c, ('rescan',))
    M.rescanning(r, 3)
    M.invocations(r, 5)
    M.brackets(r, 4 if t else 3)
    if t:
        r.maxpaths = 20000
        M.rescanning(r, 4)
        M.invocations(r, 6)
    r.aspects = None
    M.check_expand(r)
    M.check_from_str(r)
    M.check_detokenize(r)
    c.floor('cases', r.cases, 2500)
