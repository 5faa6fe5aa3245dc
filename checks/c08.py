"""C08: expressions are parsed with the operator precedence and grouping of C."""
from lib import cparse

TECHNIQUE = 'abstract interpretation of the MIR of the expression parser (with models of the nom combinators) on token lists with unknown punctuators, compared case by case with a reference grammar'
EXPLANATION = ('`Expr::parse` is interpreted on expression templates in which punctuators are unknown, so that every spelling the parser tells apart is a case of its own; in every '
               'case the complete syntax tree is compared with the one of the C grammar (operator table, levels, associativity, postfix and prefix operators, casts, calls, '
               'member and array accesses, assignment, the conditional operator, parentheses, comments around operators): what C accepts has to be understood with the C grouping, '
               'and what is not C has to be rejected.')
ASSUMPTIONS = ('templates have up to two unknown punctuators (three in the thorough tier), plus fixed ones', '`(name)` followed by an operand is a cast, as macros cannot tell types from values',
               '`&&`, `||` and the comma operator are not supported by the library')

ONE = ['a ⊙1 b', '⊙1 a', 'a ⊙1', '( a ) ⊙1 b', '( T ) a ⊙1 b', '( T ) ⊙1 a', '⊙1 ( T ) a', '( T * ) a ⊙1 b', 'sizeof ( T ) ⊙1 a', 'a ? b : c ⊙1 d', 'a ⊙1 b ? c : d',
       'a ? b ⊙1 c : d', 'a ? b : c ? d : e', 'a ? b ? c : d : e', 'a [ b ⊙1 c ]', 'f ( b ⊙1 c )', 'f ( b , c ⊙1 d )', 'f ( ) ⊙1 a', 'a . b ⊙1 c', 'a -> b ⊙1 c',
       '⊙1 a . b', '⊙1 a -> b', '⊙1 a [ b ]', '⊙1 f ( b )', '⊙1 a ++', 'a ++ ⊙1', 'a -- ⊙1 b', 'a = b ⊙1 c', 'a ⊙1 b = c', 'a /**/ ⊙1 /**/ b', '⊙1 /**/ a', 'a /**/ ? /**/ b /**/ : /**/ c',
       'a /**/ [ /**/ b /**/ ]', 'f /**/ ( /**/ a /**/ , /**/ b /**/ )', '( /**/ a /**/ )', '"s" a ⊙1 b', '# a ⊙1 b', '0 ⊙1 1', "'c' ⊙1 0f", '$0 ⊙1 $1', '$0 ## a ⊙1 b', 'a ## b ⊙1 c',
       'a /**/ . /**/ b', 'a /**/ -> /**/ b', 'a /**/ ++', 'a /**/ = /**/ b', 'a . b . c', 'a -> b . c', 'a [ b ] [ c ]', 'f ( a ) ( b )', 'a . f ( b )', 'a . b [ c ] -> d', '- ( T ) - a', '( T ) ( U ) a', '( ( a ) )',
       '( ( a ⊙1 b ) )', 'a ⊙1 b )', '( a ⊙1 b', 'a b ⊙1', 'a 0', '0 a', '0 1', '( T ) { a }', '! ! a', '- - a', '* * a ++', '& a [ b ] . c', 'a ? b : c = d', 'a = b ? c : d', 'a = b = c', 'f ( a = b , c )', 'sizeof ( T * ) ⊙1 a',
       'f ( a , )', 'f ( , a )', 'a ?: b', 'a ? : b', 'a [ ]', 'a . 0', 'a ⊙1 0f']
TWO = ['a ⊙1 b ⊙2 c', '⊙1 a ⊙2 b', '⊙1 ⊙2 a', 'a ⊙1 ⊙2 b', 'a ⊙1 b ⊙2', '( a ⊙1 b ) ⊙2 c', 'a ⊙1 ( b ⊙2 c )']
MORE = ['a ⊙1 b ⊙2 c - d', 'a ⊙1 b * c ⊙2 d', '( T ) a ⊙1 b ⊙2 c', '( T ) ⊙1 a ⊙2 b', 'a ? b ⊙1 c : d ⊙2 e', 'a ⊙1 b ? c : d ⊙2 e', 'a [ b ⊙1 c ] ⊙2 d', 'f ( a ⊙1 b ) ⊙2 c', 'f ( a ⊙1 b , c ⊙2 d )',
        'a . b ⊙1 c ⊙2 d', '⊙1 a . b ⊙2 c', '⊙1 a [ b ] ⊙2 c', '⊙1 f ( a ) ⊙2 b', 'a ++ ⊙1 b ⊙2 c', 'a ⊙1 b ++ ⊙2 c', 'a ⊙1 - b ⊙2 c', 'a ⊙1 ( T ) b ⊙2 c', 'a /**/ ⊙1 /**/ b /**/ ⊙2 /**/ c',
        'a = b ⊙1 c ⊙2 d', 'a ⊙1 b = c ⊙2 d', '$0 ⊙1 $1 ⊙2 $2', '0 ⊙1 1 ⊙2 2', '"s" ⊙1 a ⊙2 b', 'sizeof ( T ) ⊙1 a ⊙2 b']
THREE = ['a ⊙1 b ⊙2 c ⊙3 d']
CHAINS = ['a %s b %s c %s d' % (o, o, o) for o in sorted({x for l in cparse.LEVELS for x in l} | set(cparse.ASSIGN))]


def check(c):
    c.rule('for every template and every spelling of its punctuators: understood <=> C expression of the supported grammar, with the C syntax tree')
    deep = c.tier == 'thorough'
    jobs = [('Expr::parse', 'expr', t) for t in ONE + TWO + CHAINS + (MORE + THREE if deep else [])]
    cparse.check(c, jobs, 'expressions', 2500)
