"""C30: generated paths carry the configured prefixes."""
from lib import phase
from checks import c09

TECHNIQUE = 'abstract interpretation of the MIR of code generation with the prefixes present and absent; path prefixes of the token templates compared with a specification'
EXPLANATION = ('The token template of every node is computed in the four combinations of present and absent FFI and trait prefix. In each the generated paths must carry exactly the configured prefixes.')
ASSUMPTIONS = ()


def check(c):
    c.rule('each C type name is preceded by the FFI prefix and each core library item by the trait prefix, if and only if that prefix is configured')
    phase.generated(c, None, ('prefix',), phase.MODES)
    phase.strings(c, ('prefix',), phase.MODES)
    c09.operators(c, modes=phase.MODES, prefix_only=True)
