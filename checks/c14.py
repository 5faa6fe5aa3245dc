"""C14: literals have the value and the type C gives them."""
from lib import lexref

TECHNIQUE = 'abstract interpretation of the MIR of `Lit::try_from(&str)` on texts with unknown characters, every path compared with a reference lexer'
EXPLANATION = ('The literal parsers are interpreted from the MIR on texts in which up to nine characters are unknown; the code itself forks on what it tests about them. For every path the reference lexer decides whether the '
               'text is a literal and which value (as a linear form over the unknown characters), type, suffix and encoding it has; the result of the code has to be that value. `LitString::parse` is interpreted on '
               'the tokens of adjacent strings and has to yield the string with the characters of all of them.')
ASSUMPTIONS = ('literals of known length with the given number of unknown characters', 'float values: the text handed to the float parser of the standard library is compared, not the number it yields')

INTS = ['χa', '0χa', '0χaχb', '1χaχb', 'χaχb', 'χaχbχc', '1χa2χbχc', '0xχaχbχc', '0XfχaχbL', '0bχaχbχc', '0χa7χbχc', '1uχaχb', '1lχaχbχc', '1LLχaχb', '1zχaχb', '0x1fχaχb',
        '17014118346046923173168730371588410572χa', '1844674407370955161χaχb', '0xffffffffffffffffχa', '4294967295uχa']
FLOATS = ['.χaχb', 'χa.χb', '1.χaχb', '1.5eχaχb', '1.5e+χaχb', '1eχaχb', '1e-5χaχb', '1.5χaχb', '12.χa', '.5eχa1χb', '1e10χa', 'χa.5f', 'χae3L', '0.χaχbf']
CHARS = ["'χa'", "χa'χb'", "χaχb'c'", "'\\χa'", "'χaχb'", "'\\χaχb'", "'\\0χaχb'", "'\\1χaχb'", "'\\χaχbχc'", "'\\xχa'", "'\\xχaχb'", "'\\xχaχbχc'", "u8'χa'", "u8'\\xχaχb'", "u'\\xχaχbχc'",
         "u'\\uχaχb00'", "L'\\uχa0χb0'", "U'\\U000χaχbχc00'", "u'\\xχaffχb'", "L'\\xχaffffffχb'", "U'χa'", "L'\\χa'", "u'\\u12χaχbχc'", "'\\u00χaχb'", "u8'\\u00χaχb'", "χa", "'χa", "'a'χa", "u'\\udχaχb0'", "U'\\U00χaχb0000'", "'\\uχa8χb0'", "L'\\U000χa8χb0'", "u8'\\udχa0χb'"]
STRINGS = ['"χaχb"', 'χa"χb"', 'χaχb"c"', '"\\χaχb"', '"\\χaχbχc"', '"a\\xχaχb"', '"\\xχaχbχc"', 'u8"χaχb"', 'u8"\\xχa\\χb"', 'u"\\uχaχbe9"', 'u"χa\\xχbχc"', 'U"\\U000χaχb0χc0"', 'L"\\xχaχbz"', 'L"χaχb"',
           'U"\\xχaχb"', '"\\u00χaχb"', '"\\0χa\\χb"', '"a\\"χa"', '"χa', '"a"χa', '"χa\\\\"', 'u"\\xχaχbχcχd"', 'L"\\u1χa2χb"', 'χaχbχc"', 'u"\\udχaχb0"', 'U"\\U00χaχb0000"', '"\\uχa8χb0"', 'L"\\U000χa8χb0"', 'u8"a\\udχa0χb"']
JOINED = ['"χa"␣"χb"', '"\\x1χa"␣"χb"␣"c"', 'u8"χa"␣"χb"', 'u8"χa"␣u8"χb"␣"χc"', 'u"χa"␣"χb"', 'u"χa"␣u"χb"␣"χc"', 'L"χa"␣"χb"', 'L"χa"␣L"χb"', 'L"\\xχa"␣"χb"␣L"χc"', 'U"χa"␣"\\uχa000"', 'U"χa"␣U"χb"', '"χa"␣L"χb"',
          'u8"a"␣"χa"␣L"χb"', 'L"a"␣"\\x1χa"', 'χa"a"␣"b"␣χb"c"', 'u"a"␣U"χa"', '""␣"χa"', 'L""␣"χa"␣""', 'χa"χb"']


def check(c):
    c.rule('Lit::try_from(text) == reference lexer(text): value as linear form over the unknown characters, suffix/encoding, rejected iff no literal')
    for what, ts, floor in (('integers', INTS, 700), ('floating-point numbers', FLOATS, 100), ('characters', CHARS, 300), ('strings', STRINGS, 800)):
        lexref.check(c, [('Lit', 'literal', t) for t in ts], what, floor)
    lexref.check(c, [(None, None, t) for t in JOINED], 'adjacent strings', 50)
