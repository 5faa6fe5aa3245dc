"""Evaluation of terms and path facts for given values of their symbols (constant folding)."""


class Unknown(Exception):
    pass


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


OPS = {'Div': lambda a, b: a / b if isinstance(a, float) else trunc_div(a, b), 'Rem': lambda a, b: a - b * trunc_div(a, b),
       'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b,
       'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b,
       'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
       'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b}


def ev(t, env):
    """env: function term -> value or None"""
    r = env(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'fl':
        return t[1]
    if k == 's':
        return t[1]
    if k == 'not':
        return not ev(t[1], env)
    if k == 'op' and t[1] in OPS:
        return OPS[t[1]](ev(t[2], env), ev(t[3], env))
    if k == 'A' and t[1] == '()':
        return tuple(ev(x, env) for x in t[3])
    if k == 'as':
        v = ev(t[-1], env)
        to = t[-2]
        if to[0] in 'iu' and to[1:].isdigit() and isinstance(v, int):
            n = int(to[1:])
            v &= 2**n - 1
            if to[0] == 'i' and v >= 2**(n - 1):
                v -= 2**n
        return float(v) if to in ('f32', 'f64') else v
    raise Unknown(t)


def holds(facts, env):
    """Do the path facts hold?  Raises Unknown."""
    for (k, t), f in facts.items():
        if k == 'V':
            r = env(('variant', t))
            if r is None:
                raise Unknown(('variant', t))
            if r not in f:
                return False
        elif k == 'B':
            if bool(ev(t, env)) != f:
                return False
        elif k == 'N':
            lo, hi, no = f
            v = ev(t, env)
            if lo is not None and v < lo or hi is not None and v > hi or v in no:
                return False
        elif k == 'T':
            v = ev(t, env)
            if f[0] == 'in' and v != f[1] or f[0] == 'not' and v in f[1]:
                return False
    return True
