"""C05: ## only produces the tokens C defines"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('All pairs of punctuators and all pairs of kinds of tokens are joined; the scan for ## is interpreted on all lists of up to four (thorough: five) arbitrary tokens. '
               'A join must give a token with the spelling of both operands in order, or an error where C defines no token.')
ASSUMPTIONS = ('token lists are explored up to the lengths named in lib/msetspec.py (bodies of up to four or five tokens, invocations of up to five or six); texts, kinds of tokens and the contents of the macro set are arbitrary',
               'which strings are identifiers and literals is decided by their own parsers (C07)')


def check(c):
    t = c.tier == 'thorough'
    c.rule('l ## r is the token spelled like both together, or an error; ## needs two operands')
    r = M.Runner(c)
    M.check_punctuation_concat(r)
    M.check_concat(r)
    for n in range(6 if t else 5):
        M.check_expand_concat(r, n)
    r.aspects = frozenset(['concat'])
    M.object_like(r, 1, 2)
    c.floor('cases', r.cases, 8000)
