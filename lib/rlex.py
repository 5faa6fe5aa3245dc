"""Lexes Rust source text (of string constants in the crate) into token items."""
import re
PUNCT = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']
TOK = re.compile(r'''\s+|(?P<life>'[A-Za-z_]\w*(?!'))|(?P<id>[A-Za-z_]\w*)|(?P<num>\d[\w.]*)|(?P<str>b?c?"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)')|(?P<p>%s|.)''' % '|'.join(re.escape(p) for p in PUNCT), re.S)
OPEN = {'(': 'Parenthesis', '{': 'Brace', '[': 'Bracket'}
CLOSE = {')': '(', '}': '{', ']': '['}


def lex(parts):
    """parts: list of str | tuple(items); returns items or None if not balanced."""
    stack = [[]]
    opens = []
    for p in parts:
        if not isinstance(p, str):
            stack[-1] += list(p)
            continue
        i = 0
        while i < len(p):
            m = TOK.match(p, i)
            i = m.end()
            k = m.lastgroup
            t = m.group()
            if k is None:
                continue
            if k == 'id':
                stack[-1].append(('tk', 'id', ('s', t)))
            elif k == 'life':
                stack[-1].append(('tk', 'life', ('s', t)))
            elif k in ('num', 'str'):
                stack[-1].append(('tk', 'raw', ('s', t)))
            elif t in OPEN:
                opens.append(t)
                stack.append([])
            elif t in CLOSE:
                if not opens or opens[-1] != CLOSE[t]:
                    return None
                o = opens.pop()
                inner = stack.pop()
                stack[-1].append(('tk', 'g', OPEN[o], tuple(inner)))
            else:
                if t in '"\\':
                    return None
                stack[-1].append(('tk', 'p', t))
    return tuple(stack[0]) if not opens else None
