"""C28: inline assembly keeps its operands, directions and clobbers."""
from lib import asmspec, cparse

TECHNIQUE = ('abstract interpretation of the MIR of the parser on token lists whose strings contain unknown characters, and of code generation on assembly statements with unknown '
             'operands; compared case by case with a reference for GNU assembly statements')
EXPLANATION = ('`Asm::parse`, `Statement::parse` and `MacroBody::parse` are analysed on assembly statements with unknown characters in template and constraints, unknown punctuators and '
               'identifiers, comments and any combination of sections; every case that the path condition leaves open must give the statement that the reference reads. '
               '`Asm::to_tokens` is analysed on statements whose operands are unknown expressions: template lines, operands (order, direction, register class, number in the template), '
               'clobbers and options of the generated macro must be those the reference derives. The order of clobbers and options is not judged.')
ASSUMPTIONS = ('unknown characters of templates and constraints are ASCII (others occur as known characters)',
               'which of several register classes in one constraint is chosen, operand modifiers and escapes such as `%%`, which need not be understood, are not judged')

PARSE = [
    '?1 ( "nop" )', 'asm ?1 ( "nop" )', 'asm ?1 ?2 ( "nop" )', '@1 ( "nop" )', 'asm @1 ( "nop" )', '__asm__ ⊙1 "nop" )', '__asm ( "nop" ⊙1', '__asm volatile ( "nop" ) @1', 'asm @1',
    'asm ( "χa" )', 'asm ( "χaχb" )', 'asm ( "%χaχb" )', 'asm ( "%1χa" )', 'asm ( "%01χa,%1" )', 'asm ( "{χa}" )', 'asm ( "%{χa%}" )', 'asm ( "χa{%12}χb" )', 'asm ( "é%1é" )',
    'asm ( "χa\\nχb" )', 'asm ( "a\\n\\tb\\n" "c" )', 'asm ( "\\nχa~" )', 'asm ( "a~%1,~%0\\n\\tb~%2" )', 'asm ( "%eaxχa" )', 'asm ( "χa" "χb" )', 'asm ( "%" "0" )', 'asm ( )', 'asm ( @1 )',
    'asm ( "¤" )', 'asm ( L"x" )', 'asm ( u8"x" )', 'asm ( "x" , "y" )', 'asm ( "" )', 'asm ( "x" ⊙1 )', 'asm ( "x" ⊙1 ⊙2 )', 'asm ( "x" : : : )', 'asm ( "x" : : : : )',
    'asm ( "x" : "χa" ( x ) )', 'asm ( "x" : "χaχb" ( x ) )', 'asm ( "x" : "=χaχb" ( x ) )', 'asm ( "x" : "+χaχb" ( x ) )', 'asm ( "x" : "+r" ( ⊙1 x ) )', 'asm ( "x" : "=r" ( x ) ⊙1 "r" ( y ) )',
    'asm ( "x" : "=r" ( x ) ⊙1 "=r" ( y ) )', 'asm ( "x" : "=r" ( x ) , "+f" ( y ) , "=Q" ( z ) )', 'asm ( "x" : "=r" ( x ) , ⊙1', 'asm ( "x" : "r" ( x ) )', 'asm ( "x" : "=300" ( y ) )', 'asm ( "x" : "" ( y ) )',
    'asm ( "x" : "=r" @1 )', 'asm ( "x" : "=r" ( @1 ) )', 'asm ( "x" : @1 )', 'asm ( "x" : "=" "r" ( x ) )', 'asm ( "x" : [ n ] "=r" ( x ) )',
    'asm ( "x" : : "χa" ( x ) )', 'asm ( "x" : : "χaχb" ( x ) )', 'asm ( "x" : : "rχa" ( x + 1 ) )', 'asm ( "x" : : "256" ( y ) )', 'asm ( "x" : : "255" ( y ) )', 'asm ( "x" : : "00" ( y ) )', 'asm ( "x" : : "1χa" ( y ) )',
    'asm ( "x" : : "" ( y ) )', 'asm ( "x" : : "¤" ( y ) )', 'asm ( "x" : : "r" ( y ⊙1 z ) )', 'asm ( "x" : : "r" ( $0 ) , "0" ( $1 ) )', 'asm ( "x" : : "r" ( y ) ⊙1 "cc" ⊙2', 'asm ( "x" : : "r" ( y ) , "q" ( z ) , "f" ( ( w ) ) )',
    'asm ( "x" : "=r" ( x ) : "0" ( y ) , "r" ( z ) : "cc" )', 'asm ( "x" : "=r" ( x ) : ⊙1 "0" ( y ) )', 'asm ( "x" : : "=r" ( y ) )', 'asm ( "x" : : @1 )',
    'asm ( "x" : : : "χaχb" )', 'asm ( "x" : : : "cc" , "é" , "memory" )', 'asm ( "x" : : : "cc" ⊙1 "memory" )', 'asm ( "x" : : : "¤" )', 'asm ( "x" : : : "a" "b" )', 'asm ( "x" : : : @1 )', 'asm ( "x" : : : cc )',
    'asm ( /**/ "nop" /**/ : /**/ "=r" ( x ) /**/ , /**/ "+r" ( * y ) /**/ : /**/ "r" ( 0 ) /**/ : /**/ "cc" /**/ , /**/ "eax" /**/ )',
    'asm ( "nop" : "=r" ( /**/ x /**/ ) : : /**/ )', 'asm ( "nop" /**/ )', 'asm ( /**/ "nop" )',
]
BODIES = ['__asm ( "nop" )', '?1 ( "nop" )', 'asm ( "nop" ) ;', 'asm ( "χa" ) ;', 'asm volatile ( "a" : "=r" ( $0 ) ) ⊙1', '__asm__ __volatile__ ( "a" )', 'asm volatile ( "a" : : : "memory" ) ;', 'asm ( "a" : : "r" ( x ) )']
STATEMENTS = ['asm ( "a" ) ⊙1', 'asm ( "a" ) ; asm ( "b" )', '{ asm ( "a" ) ; asm ( "b" ) ; }', 'if ( c ) asm ( "a" ) ; else asm ( "b" ) ;', 'do { asm ( "a" ) ; } while ( 0 )', 'asm ( "a" ) ; x = 1 ;', 'asm goto ( "a" : : : "cc" ) ;']

R, F, A, B = 'Reg', 'Freg', 'RegAbcd', 'RegByte'
CODE = [
    # template lines, outputs, inputs, clobbers
    (['nop'], [], [], []),
    ([], [], [], []),
    (['χa'], [], [], []),
    (['χaχb'], [], [], []),
    (['χa', 'χb'], [], [], []),
    (['a', 'b', 'c'], [], [], []),
    (['.globlχa'], [], [], []), (['.globalχa'], [], [], []), (['.sectionχa'], [], [], []), (['χaglobl x'], [], [], []), (['nop', '.globl f', 'f:'], [], [], []), ([' .globl f'], [], [], []), (['x .globl f'], [], [], []),
    (['{{ x }}'], [], [], []),
    (['{0}'], [('=', R, 'x')], [], []), (['{0}'], [('+', R, 'x')], [], []),
    (['{1} {0}'], [('=', F, 'x'), ('+', A, 'y')], [], ['cc']),
    (['{1}', '{0}χa'], [('=', B, 'x'), ('=', R, 'y')], [], ['memory']),
    (['{0}'], [], [(R, 'x')], ['memory', 'cc']),
    (['{0} {1} {2}', '{2}χa'], [], [(A, 'x'), (F, 'y'), (B, 'z')], []),
    (['{2}{{0}}{1}'], [('=', R, 'x')], [(R, 'y'), (R, 'z')], []),
    (['lea ({0},{0},4), {0}'], [('=', R, 'x')], [(0, 'x')], []),
    (['{0} {1}'], [('=', R, 'x')], [(0, 'y')], []),
    (['{0} {1} {2}'], [('=', R, 'x')], [(0, 'y'), (R, 'z')], ['cc']),
    (['{0} {1} {2} {3}'], [('=', R, 'x')], [(R, 'w'), (0, 'y'), (R, 'z')], []),
    (['{0} {1} {2} {3} {4}'], [('=', R, 'x'), ('=', F, 'y')], [(1, 'v'), (R, 'z'), (0, 'w')], []),
    (['{4} {{3}} {3}'], [('=', R, 'x'), ('+', F, 'y')], [(0, 'x'), (R, 'z'), (B, 'w')], ['cc', 'memory']),
    (['{0}', '{1}', '{2}'], [('=', R, 'x'), ('=', R, 'y')], [(1, 'x')], []),
    (['{10} {9} {11}'], [('=', R, 'o%d' % i) for i in range(3)], [(0, 'o0')] + [(R, 'i%d' % i) for i in range(8)], []),
    (['é {1} χa'], [('=', R, 'x')], [(0, 'y'), (R, 'z')], []),
    (['nop'], [], [], ['eax']), (['nop'], [], [], ['eax', 'ebx', 'cc']), (['nop'], [], [], ['ebx', 'memory', 'eax']), (['nop'], [], [], ['r0', 'r1', 'r2', 'r0']), (['nop'], [], [(R, 'x')], ['eax', 'memory', 'cc']),
    (['nop'], [('=', R, 'x')], [], ['eax']), (['nop'], [('+', R, 'x')], [(R, 'y')], ['eax', 'cc']), (['nop'], [('=', R, 'x')], [(0, 'y')], ['eax']),
]


def check(c):
    c.rule('statement read == statement of the reference (template lines trimmed, braces doubled, %N as {N}; directions, register classes, operands, clobbers in order)')
    c.rule('generated operands == template lines, outputs, inputs in order, a tied input being passed with its output; {N} refers to the same operand as %N; clobbers and options')
    jobs = [('asm Asm::parse', 'asm', t) for t in PARSE]
    jobs += [('asm MacroBody::parse', 'body', t) for t in BODIES]
    jobs += [('asm Statement::parse', 'statement', t) for t in STATEMENTS]
    cparse.check(c, jobs, 'parsing assembly', 1000)
    n = 0
    for tp in (True, False):
        for lines, outs, ins, clobbers in CODE:
            r = asmspec.compare_code(c, lines, outs, ins, clobbers, tp)
            for m, facts in r['res']:
                n += 1
                c.ob('code of `%s`' % r['spec'], m is None, '`%s` %s\n    when %s' % (r['spec'], m, facts), r['where'])
    c.floor('cases of generated assembly', n, 100)
