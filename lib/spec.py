"""Comparison of abstract outcomes with specifications.

A specification is a Python function over a World: it asks for the tags, strings and truth values
of the same input terms the code branches on.  Whatever the outcome's path condition leaves open is
split into all remaining cases, so a specification is compared with the code for every case, and
cases the code does not distinguish but the specification does are mismatches."""
from .engine import State, OPT, RES, is_sym


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Impossible(Exception):
    pass


class World:
    def __init__(self, E, st):
        self.E = E
        self.p = E.p
        self.st = st

    # tags
    def idx(self, v, adt):
        if v[0] == 'A':
            return v[2]
        fs = self.E.fork_variant(self.st, v, adt)
        if len(fs) == 1:
            return fs[0][1]
        raise Fork([s for s, _ in fs])

    def tag(self, v, adt):
        return self.p.variants(adt)[self.idx(v, adt)]['name']

    def fld(self, v, variant, field, adt=None):
        if v[0] == 'A':
            a = self.p.variants(v[1])[v[2]]
            for i, f in enumerate(a['fields']):
                if f['name'] == field:
                    return v[3][i]
        return ('fld', v, variant, field)

    def opt(self, v):
        """payload or None"""
        return self.fld(v, 'Some', '0') if self.idx(v, OPT) == 1 else None

    def is_ok(self, v):
        return self.idx(v, RES) == 0

    def truth(self, t):
        fs = self.E.fork_bool(self.st, t)
        if len(fs) == 1:
            return fs[0][1]
        if not fs:
            raise Impossible()
        raise Fork([s for s, _ in fs])

    def streq(self, t, s):
        r = self.E.eq(self.st, t, ('s', s))
        return self.truth(r[0][1])

    def cmp(self, op, a, b):
        return self.truth(self.E.mkcmp(self.st, op, a, b))


def worlds(E, st, fun, limit=20000):
    stack = [st.copy()]
    n = 0
    while stack:
        s = stack.pop()
        n += 1
        if n > limit:
            raise RuntimeError('too many cases')
        w = World(E, s)
        try:
            r = fun(w)
        except Fork as f:
            stack += f.states
            continue
        except Impossible:
            continue
        yield w, r
