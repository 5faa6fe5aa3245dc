"""Panics: every place that can panic, which analyses come by it, and in which states they would panic there."""
import json
import os
import re
from . import engine, term

ID = re.compile(r'[A-Za-z_]\w*\Z')


# ------------------------------------------------------------------ why a state cannot happen

def argument(E, st, ops):
    """`args[i]` where `i` is the number of an argument"""
    if len(ops) != 2 or ops[0][0] != 'fld' or ops[0][3] != 'index' or ops[1][0] != 'len':
        return False
    xs = ops[1][1]
    while isinstance(xs, tuple) and len(xs) > 1 and xs[0] not in ('fld', 'in'):
        xs = xs[1]      # writing elements does not change the length
    return xs[:3] == ('fld', ('in', '@ctx'), None) and xs[3] in ('arg_names', 'arg_types')


def less(E, st, a, b):
    """a < b because of what is known about numbers equal to b"""
    same = [b]
    for (k, t), v in st.facts.items():
        if k == 'B' and v is True and t[:2] == ('op', 'Eq') and b in t[2:]:
            same += [x for x in t[2:] if x != b]
    for m in same:
        if a[0] == 'i':
            lo = E.rng(st, m)[0]
            if lo is not None and a[1] < lo:
                return True
        elif st.facts.get(('B', ('op', 'Lt', a, m))) is True:
            return True
    return False


def counts_up(st, ops):
    """i + 1 where i is less than some number of the same type"""
    return len(ops) == 2 and ops[1] == ('i', 1) and any(k == 'B' and v is True and t[:3] == ('op', 'Lt', ops[0]) for (k, t), v in st.facts.items() if isinstance(t, tuple))


def is_id(E, st, v):
    """v is an identifier whatever the unknowns are"""
    k = v[0]
    if k == 's':
        return bool(ID.match(v[1]))
    if k == 'str+':
        return is_id(E, st, v[1]) and all(is_cont(E, st, x) for x in v[2:])
    if k == 'fld' and v[3] == 'id':
        return True     # the invariant of `Identifier`
    if k == 'fld' and v[1] == ('in', 'self') and v[3] == 'name':
        return True     # checked by `FnMacro::parse`
    if k == 'at' and v[1] == ('fld', ('in', '@ctx'), None, 'arg_names') or k == 'in' and re.match(r'p\d\Z', v[1]):
        # the name of a parameter; only the last one can be `...`
        if k == 'in' and repr(('in', 'p%d' % (int(v[1][1:]) + 1))) in repr(st.cells.get(('S', ('in', 'self')))):
            return True
        return all(b == engine.FALSE for _, b in E.eq(st.copy(), v, ('s', '...')))
    if k == 'strip' and v[1] is True and v[3] == ('s', 'r#'):
        return is_id(E, st, v[2])
    if ('B', ('allxid', ('chars', v))) in st.facts:
        # every character may continue one; the first one was looked at
        e = ('elem', ('chars', v))
        for (q, t), x in st.facts.items():
            if q == 'B' and x is True and t[0] == 'is_xid_start' and t[1][:2] == e or q == 'N' and t[:2] == e and x[:2] == (95, 95):
                return True
    return st.facts.get(('B', ('call', 'ast::identifier::is_identifier', v))) is True or st.facts.get(('B', ('call', 'is_identifier', v))) is True


def is_cont(E, st, v):
    if v[0] == 's':
        return bool(re.match(r'\w*\Z', v[1]))
    if v[0] == 'fld' and v[3] in ('id', 'id_cont'):
        return True
    return is_id(E, st, v) or any(k == 'B' and x is True and t == ('allxid', ('chars', v)) for (k, t), x in st.facts.items() if isinstance(t, tuple))


class Recorder:
    """Writes what the analyses of this process and its children meet to files in a directory."""
    def __init__(self, d, pid):
        self.d, self.prop, self.fd, self.of, self.seen, self.told = d, pid, None, None, set(), set()

    def write(self, x):
        if self.of != os.getpid():
            self.of = os.getpid()
            self.fd = os.open(os.path.join(self.d, '%s.%d' % (self.prop, self.of)), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(self.fd, (json.dumps(x) + '\n').encode())

    def site(self, f, b, root):
        if (f, b) not in self.seen:
            self.seen.add((f, b))
            self.write([f, b])

    def sink(self, E, st, fr, b, kind, ops, sp):
        ops = [E.snap(st, E.rd(st, o) if o[0] == 'R' else o) for o in ops]
        root = E.stack[0].fn['key']
        why = None
        if kind == 'continuation':
            good = ops[0][3][1] == engine.NONE and (ops[0][3][0][0] == 'i' and ops[0][3][0][1] >= 0 or ops[0][3][0][:2] == ('as', 'u64'))
            why = 'good' if good else None
        elif kind in ('ident', 'identifier'):
            if is_id(E, st, ops[0]):
                return
            if ops[0][0] == 'at' and fr.fn['key'].startswith('Stringify::'):
                why = 'stringified'
            elif fr.fn['path'].startswith("ast::identifier::Identifier::<'t>::parse_str"):
                return      # compared with the grammar by C07
        elif kind == 'float':
            for (k, t), v in st.facts.items():
                if k == 'V' and isinstance(t, tuple) and 'classify' in repr(t[:2]) and t[-1] == ops[0] and v <= {2, 3, 4}:
                    return
        elif kind == 'index' and len(ops) == 2 and less(E, st, *ops) or kind.endswith('overflow:Add') and counts_up(st, ops):
            return
        elif kind == 'index' and argument(E, st, ops):
            why = 'argument'
        elif kind == 'divzero' and len(E.stack) == 1:
            why = 'operand'
        elif kind == 'unwrap' and ops[0][0] == 'call' and ops[0][1] == 'Identifier::try_from' and is_id(E, st, ops[0][2]):
            return
        elif kind == 'unwrap' and ops[0][0] == 'fld' and ops[0][1][0] == 'finr' and ops[0][3] == '0':
            x = ops[0][1][1]
            if x[0] == 'fld' and x[2] == 'Literal':
                why = 'literal type'
        elif kind.startswith('diverge') and root == 'IdentifierExpr::finish' and fr.fn['key'] == root:
            for (k, t), x in st.facts.items():
                if isinstance(t, tuple) and t[0] == 'fld' and (k == 'V' and t[3] == 'suffix' and x == frozenset({1}) or k == 'N' and t[3] == 'value' and x[1] is not None and x[1] < 0):
                    why = 'continuation'
        key = (fr.fn['path'], b, kind, root, why)
        n = repr((key, ops))
        if n in self.told:
            return
        self.told.add(n)
        R = term.Renderer(E.p, E)
        self.write(dict(f=fr.fn['path'], key=fr.fn['key'], b=b, kind=kind, root=root, at=E.where(), ops=[R.v(o)[:300] for o in ops], facts=R.facts(st)[:600], sp=sp or fr.fn['span'], why=why))
