"""C11: C type names denote the C type they spell."""
from lib import cparse

TECHNIQUE = 'abstract interpretation of the MIR of the type parser (with models of the nom combinators) on lists of unknown identifiers and stars, compared case by case with a reference grammar and specifier table'
EXPLANATION = ('`Type::parse` is interpreted on lists of up to four unknown identifiers (thorough: five after `unsigned`/`const`), alone, after `struct`, between stars and comments; every keyword '
               'the parser or the C grammar tells apart is a case of its own. Every accepted combination has to be the type C17 6.7.2 gives for that multiset of specifiers with exactly the '
               'qualifiers written and one pointer level per star; combinations in the customary order have to be accepted, and what is not a type rejected.')
ASSUMPTIONS = ('up to four or five specifiers and qualifiers per pointer level', 'orders of specifiers other than the customary one, and qualifiers between specifiers, need not be accepted',
               'repeated qualifiers are left out')

JOBS = ['?1', '?1 ?2', '?1 ?2 ?3', '?1 ?2 ?3 ?4', 'struct ?1 ?2', '?1 struct ?2 ?3', 'T ?1 ?2 *', '?1 ## ?2 * ?3', 'unsigned ?1 ?2 ?3', 'unsigned long long ?1 ?2', 'signed long long ?1 ?2', 'const ?1 ?2 ?3', 'T * ?1 ?2 * ?3', 'volatile ?1 ?2 ?3',
        '?1 ?2 * ?3 ?4', 'const volatile ?1 ?2 * ?3', 'T * /**/ ?1 * /**/ * ?2', '$0 ?1 * ?2', '?1 $0', 'T ⊙1 ?1 ⊙2', '?1 ⊙1', '⊙1 ?1', '$0 ## ?1 ⊙1', 'const unsigned long long ?1 ?2', 'const volatile unsigned ?1 ?2 ?3', 'volatile const ?1 ?2 ?3', 'const T volatile', 'volatile T const * const volatile', 'T * * * volatile *']
DEEP = ['unsigned ?1 ?2 ?3 ?4', 'const ?1 ?2 ?3 ?4', 'signed ?1 ?2 ?3 ?4', '?1 ?2 ?3 * ?4 ?5', 'volatile ?1 ?2 ?3 ?4']


def check(c):
    c.rule('understood => multiset of specifiers, qualifiers and stars denote exactly that type; customary spellings are understood')
    jobs = [('Type::parse', 'type', t) for t in JOBS + (DEEP if c.tier == 'thorough' else [])]
    cparse.check(c, jobs, 'types', 20000)
