"""C07: input is accepted only as a whole."""
from lib import lexref, cparse
from checks import c25

TECHNIQUE = 'abstract interpretation of the MIR of the token classifiers on texts with unknown characters and of the macro parsers on unknown tokens, every path compared with a reference lexer and grammar'
EXPLANATION = ('The `TryFrom<&str>` implementations of the token types are interpreted on texts with unknown characters and compared, on every path, with a reference lexer that accepts a text only if all of it is one token. '
               'Parameter lists and macro bodies with unknown tokens at every position are compared with the reference grammar, which derives only complete token sequences.')
ASSUMPTIONS = ('texts and token sequences of known length',)

IDS = ['χa', 'χaχb', 'χaχbχc', 'abχa', 'aχab', '_χa', '\\χa', '\\u00e9χa', 'a\\u00χaχb', '\\u0χaχb1', 'a\\U0001χaχbχc0', 'a\\u12χaχbχcχd', 'a\\χau00e9', '\\U0010χaχb00', 'χaχbχcχd', 'aχa\\u00e9', '\\u0041χa\\u0042χb', 'a\\', 'a\\uχa', 'a\\udχaχb0', '\\uχa8χb0', 'a\\U00χaχb0000', '\\Uχa000χb800', 'aχa\\ud8χb0', '\\uχaχbχc0', '']
COMMENTS = ['χa', '/χa', '/*χa', '/*χaχb', '/*χaχbχc', '/*χaχbχcχd', '/**/χa', '/**χaχb', 'χa*b*/', '/* χa */', '/*χa*/χb', '/*a*/ χa', 'χaχbχcχd', '/*χa*χb/', '/*/χa', '//χaχb', '']
PUNCTS = ['χa', 'χaχb', 'χaχbχc', 'χaχbχcχd', '<<=χa', '...χa', '%:χaχb', '\\χa+', '\\\n', '\\\r\n-χa', '+χa', '']
LITS = ['1χa', '1.5χa', "'a'χa", '"a"χa', '"a"χa"', '0x1χaχb', '0b1χa', '017χa', '1eχa', '1e5χa', "u8'a'χaχb", 'L"a"χaχb', '10ulχaχb', '1.0fχaχb', '-1χa', 'χa1', ' χa', 'χa"b"', '']

BODIES = ['', '@1', '@1 x', '@1 "s"', 'x @1', 'x + @1', 'x + y @1', '( x ) @1', 'f ( x ) @1', '"s" @1', '@1 0', '{ x ; } @1', 'x ; @1', '( ( x ) @1 )', "'c' @1", '0f @1', 'sizeof ( x ) @1', 'x . y @1', '# @1',
          '$0 @1', '$0 @1 $1', '( @1', '@1 )', 'x [ y ] @1', 'x /**/ @1', '{ } @1', 'if ( x ) y ; @1', 'do x ; while ( y ) @1', 'int @1', 'struct x @1', '( int ) x @1', 'x ++ @1', '& x @1', 'x ? y : z @1']
ARGS = ['@1', '@1 @2', '@1 @2 @3', '?1 @1 @2', '... @1', '?1 ... @1', '?1 ?2 @1', '/**/ @1 /**/', '?1 ?2 ?3 @1']

WHOLE = [('f', '... @1', 'x'), ('f', '?1 ... @1', 'x'), ('f', '?1 @1', 'x'), ('f', '/**/ @1', 'x'), ('f', '?1', 'x @1'), ('f', '', '{ x ; } @1'), ('f', '?1 @1', ''), ('fχa', '?1', 'x'), ('χaf', '?1', 'x'), ('aχa0', '', ''),
         ('f', None, 'x @1'), ('f', None, 'x ; @1'), ('f', None, '{ x ; } @1'), ('f', None, '@1'), ('fχa', None, 'x'), ('aχa0', None, '')]


def check(c):
    c.rule('TryFrom<&str>(text) is Ok iff the complete text is a token; parse_args / MacroBody::parse is Ok iff the complete sequence is derived by the grammar')
    for what, name, ref, ts, floor in (('identifiers', 'Identifier', 'identifier', IDS, 200), ('identifier parts', 'IdentifierContinue', 'continuation', IDS, 200), ('comments', 'Comment', 'comment', COMMENTS, 50),
                                       ('punctuators', 'Punctuation', 'punctuation', PUNCTS, 200), ('literals', 'Lit', 'literal', LITS, 100)):
        lexref.check(c, [(name, ref, t) for t in ts], what, floor)
    cparse.check(c, [('FnMacro::parse_args', 'parameters', t) for t in ARGS], 'parameter lists', 100)
    cparse.check(c, [('MacroBody::parse', 'body', t) for t in BODIES], 'macro bodies', 500)
    c25.macros(c, WHOLE, ('is accepted', 'is rejected'), 100)
