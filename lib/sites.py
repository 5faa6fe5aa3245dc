"""The places of the crate that can panic."""
import re
from .engine import norm

CALLS = re.compile(r'(Option|Result)::(unwrap|expect|unwrap_err|expect_err)$|index::Index(Mut)?::index(_mut)?$|Vec::(remove|insert|swap_remove|split_off|drain)$'
                   r'|(slice|str)::(split_at|split_at_mut|copy_from_slice|clone_from_slice|swap|chunks|windows|rotate_left|rotate_right|get_unchecked)$'
                   r'|String::(remove|insert|insert_str|split_off|drain|replace_range|truncate)$'
                   r'|proc_macro2::Ident::new(_raw)?$|Literal::f(32|64)_(un)?suffixed$|arith::(Add|Sub|Mul|Div|Rem|Neg|AddAssign|SubAssign|MulAssign|DivAssign|RemAssign)::'
                   r'|::(wrapping_div|wrapping_rem|overflowing_div|div_euclid|rem_euclid|pow|abs|ilog2|isqrt)$|bit::Sh[lr](Assign)?::|RefCell::borrow(_mut)?$|char::to_digit$|from_digit$')
TEST = re.compile(r'(^|::)tests?(::|$)')


def callee(t):
    f = t['f']
    g = f.get('v', f) if isinstance(f, dict) else f
    if isinstance(g, dict):
        for k in ('p',):
            if isinstance(g.get(k), str):
                return norm(g[k])
        for x in g.values():
            if isinstance(x, dict) and isinstance(x.get('p'), str):
                return norm(x['p'])
    return ''


def sites(prog):
    """[(function, block, what, span)]"""
    out = []
    for f in prog.d['fns']:
        if TEST.search(f['path']):
            continue
        for i, b in enumerate(f['blocks']):
            t = b['t']
            if b.get('cl'):
                continue
            if t['k'] == 'assert':
                out.append((f['path'], i, 'assert ' + str(t['m']), t['sp']))
            elif t['k'] == 'call':
                n = callee(t)
                if t.get('t') is None:
                    out.append((f['path'], i, n, t['sp']))
                elif CALLS.search(n):
                    out.append((f['path'], i, n, t['sp']))
    return out
