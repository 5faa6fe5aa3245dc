"""C24: statements keep their control structure."""
from lib import cparse, phase

TECHNIQUE = 'abstract interpretation of the MIR of parsing (token lists with unknown punctuators, against a reference grammar of statements), checking and code generation (token templates compared with the control structure of the statement)'
EXPLANATION = ('The token template generated for every statement and for the conditional operator is computed from the MIR and compared with the Rust control structure of the C statement; '
               'a condition must be compared with zero exactly if it is not boolean.')
ASSUMPTIONS = ('the parse of statements is compared for the listed shapes, each with at most one unknown punctuator',)

# Every position between two tokens of a statement where the parser has to decide.
BODIES = ['/**/', '/**/ a + b', 'a ; b', 'if ( a ) { b ; }', 'if ( a ) { b ; } else { d ; }', 'if ( a ) b ; else d ;', 'do { a ; } while ( b )', 'do a ; while ( b )', '{ a ; b ; }', '{ }', '{ { a ; } b ; }',
          '{ if ( a ) { b ; } else { } d ; }', '{ if ( a ) { b ; } d ; }', '{ do { a ; } while ( b ) ; d ; }', 'if ( a ) if ( b ) d ; else e ;', 'if ( a ) { } else if ( b ) { } else { }',
          'T a = b ;', 'static T a = b ;', 'T f ( U a , V * b ) ;', '{ T a = b ; d ; }', 'a ( b ) ; d', 'a = b ;', 'if ( a == b ) { d = e ; }',
          'a ⊙1 b', '{ a ; } ⊙1', '{ a ⊙1 }', 'if ( a ) b ⊙1 else d', 'if ( a ) { } else b ⊙1', 'do a ⊙1 while ( b )', 'a ; b ⊙1', 'static T a = b ⊙1', 'T a ⊙1 b ;']



def check(c):
    c.rule('template(statement) == Rust control structure with the same parts in the same order; condition becomes `condition != 0` iff its type is not bool')
    phase.generated(c, ('Statement', 'TernaryExpr'), form=('Statement', 'TernaryExpr'))
    phase.conditions(c, ('cond', 'visit'))
    phase.finish(c, ('visit', 'fold'), ('Statement', 'TernaryExpr'))
    cparse.check(c, [('MacroBody::parse', 'body', t) for t in BODIES], 'statements', 60)
