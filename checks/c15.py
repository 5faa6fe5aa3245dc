"""C15: integer constants never lose bits when generated."""
from lib import phase

TECHNIQUE = 'abstract interpretation of the MIR of code generation; the range of the value in every case is compared with the range of the literal type that is generated'
EXPLANATION = ('For casts, integer, character and floating-point literals the generated literal and its type are computed from the MIR together with the bounds the path conditions give for the value; '
               'a suffixed literal is accepted only if these bounds lie within the range of the suffix and the conversion on the way to it cannot wrap.')
ASSUMPTIONS = ()


def check(c):
    c.rule('a literal with type T is generated only if the path conditions bound the value by the range of T; otherwise the literal is unsuffixed and complete')
    n = phase.generated(c, ('Cast', 'Lit', 'LitInt', 'LitChar', 'LitFloat'), ('parts', 'form'))
    c.floor('cases of generating constants', n, 60)
    phase.finish(c, ('fold',), ('Expr',), floor=False)
