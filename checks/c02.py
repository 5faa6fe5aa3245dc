"""C02: a macro is not replaced again inside its own replacement"""
from lib import msetspec as M

TECHNIQUE = 'abstract interpretation of the MIR of the macro set on symbolic token lists, every outcome compared with a specification'
EXPLANATION = ('The functions that rescan and replace are interpreted on lists of arbitrary tokens, with an arbitrary set of names not to be replaced and an arbitrary macro set. A name '
               'in the set must be marked for good and never be looked up; what a macro is replaced by must be rescanned with its name added to the set; the rest of the list must be '
               'rescanned with the set as it was. Every rescan at one level consumes tokens of that level, and the set of names grows from level to level, so that expansion ends.')
ASSUMPTIONS = ('token lists are explored up to the lengths named in lib/msetspec.py (bodies of up to four or five tokens, invocations of up to five or six); texts, kinds of tokens and the contents of the macro set are arbitrary',
               'termination is argued from the checked shape of the recursion, not by a separate termination analysis')


def check(c):
    t = c.tier == 'thorough'
    c.rule('a name in the set is marked and kept; replacement lists are rescanned with the name added; nothing else changes the set')
    r = M.Runner(c, ('names',))
    M.rescanning(r, 3)
    M.invocations(r, 5)
    M.object_like(r, 2, 2)
    M.function_like(r, M.CALLS + (M.MORE_CALLS if t else []))
    if t:
        r.maxpaths = 20000
        M.rescanning(r, 4)
        M.invocations(r, 6)
    M.arguments(r, M.ARGS)
    M.check_expand(r)
    M.check_detokenize(r)
    c.floor('cases', r.cases, 8000)
