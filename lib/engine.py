"""Abstract interpreter over the MIR dump (static analysis; nothing of the crate is executed).

The interpreter computes value-flow summaries: for a function it returns the finite set of
abstract outcomes (facts about the tags of its inputs, abstract return value, abstract final
heap, observable calls).  The abstract domain consists of constants, constructors, token
templates and uninterpreted terms; traces are partitioned by enum tags, string/integer constants
compared against, and boolean tests.  Crate-local callees are inlined through resolved calls,
loops are summarised by a fixpoint with widening.  There is no solver and no concrete input."""
import re, sys, threading

sys.setrecursionlimit(200000)

CONCRETE = {'i', 's', 'b', 'A', 'L', 'TS', 'C', 'F', 'R', 'IT', 'P', 'tk', 'parsed', 'fl', 'undef', 'str+'}
OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
UNIT = ('A', '()', 0, ())
TRUE, FALSE = ('i', 1), ('i', 0)
COW_V = ('Borrowed', 'Owned')


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


def norm(p):
    """Removes generic arguments written `::<..>` and lifetime arguments `<'t>`."""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl ', i):
            j = i + 3
            d = 1
            while d and j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    s = ''.join(out)
    s = re.sub(r"<'[a-z_]+(, *'[a-z_]+)*>", '', s)
    s = re.sub(r"'[a-z_]+ ", '', s)
    s = s.replace('core::char::methods::<impl char>', 'char')
    s = re.sub(r'^(core|alloc)::(str|slice|num|f32|f64)::(?:\w+::)?<impl [^>]*>', r'\1::\2', s)
    return s


def is_sym(v):
    return v[0] not in CONCRETE


def some(v): return ('A', OPT, 1, (v,))


NONE = ('A', OPT, 0, ())


def ok(v): return ('A', RES, 0, (v,))
def err(v): return ('A', RES, 1, (v,))
import os
import sys
PANLOG = os.environ.get('VERIF_PANLOG')
SITES = None     # when set: a function told about every place that is executed
SINK = None      # when set: a function told about every panic


def textlen(v):
    from .lexstr import chars
    cs = chars(v)
    return -1 if cs is None else len(cs)


def tup(*a): return ('A', '()', 0, tuple(a))
def mkfcmp(op, a, b):
    """comparison of floating-point numbers in a canonical form"""
    if a[0] == 'fl' and b[0] == 'fl':
        x, y = a[1], b[1]
        return boolv({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
    if op in ('Gt', 'Ge'):
        return mkfcmp('Lt' if op == 'Gt' else 'Le', b, a)
    if op == 'Ne':
        return ('not', mkfcmp('Eq', a, b))
    if op == 'Eq' and (a[0] == 'fl' or b[0] != 'fl' and repr(b) < repr(a)):
        a, b = b, a
    return ('fcmp', op, a, b)


def boolv(b): return TRUE if b else FALSE


class State:
    __slots__ = ('cells', 'facts', 'eff', 'flags')

    def __init__(s, cells=None, facts=None, eff=(), flags=frozenset()):
        s.cells = cells if cells is not None else {}
        s.facts = facts if facts is not None else {}
        s.eff = eff
        s.flags = flags

    def copy(s):
        return State(dict(s.cells), dict(s.facts), s.eff, s.flags)

    def add_eff(s, e):
        s.eff = s.eff + (e,)


class Frame:
    __slots__ = ('fn', 'fid', 'tenv', 'loops')

    def __init__(s, fn, fid, tenv):
        s.fn = fn
        s.fid = fid
        s.tenv = tenv


class Program:
    """Index over the dump."""

    def __init__(self, dump):
        self.d = dump
        self.types = dump['types']
        self.adts = {norm(k): v for k, v in dump['adts'].items()}
        self.fns = {f['path']: f for f in dump['fns']}
        self.by_key = {}
        self.impls = {}
        for f in dump['fns']:
            f['key'] = self.key_of(f)
            self.by_key.setdefault(f['key'], []).append(f)
            if 'trait' in f:
                self.impls.setdefault((norm(f['trait']), f.get('name')), []).append(f)
        self._loops = {}
        self.by_norm = {}
        for f in dump['fns']:
            self.by_norm.setdefault(norm(f['path']), []).append(f)

    def tyname(self, ti, short=True):
        t = self.types[ti]
        k = t['k']
        if k == 'adt':
            n = norm(t['p'])
            if short:
                n = n.split('::')[-1]
            a = [self.tyname(x, short) for x in t['a']]
            return n + ('<' + ','.join(a) + '>' if a else '')
        if k == 'ref':
            return '&' + ('mut ' if t['m'] else '') + self.tyname(t['t'], short)
        if k == 'num':
            return t['n']
        if k in ('bool', 'char', 'str', 'never'):
            return k
        if k == 'slice':
            return '[' + self.tyname(t['t'], short) + ']'
        if k == 'array':
            return '[' + self.tyname(t['t'], short) + ';%d]' % t['n']
        if k == 'tuple':
            return '(' + ','.join(self.tyname(x, short) for x in t['a']) + ')'
        if k == 'param':
            return t['n']
        if k == 'closure':
            return 'closure:' + norm(t['p'])
        return k

    def adt_of(self, ti):
        """Path of the ADT behind references and boxes, or None."""
        while True:
            t = self.types[ti]
            if t['k'] in ('ref', 'ptr'):
                ti = t['t']
                continue
            if t['k'] == 'adt':
                p = norm(t['p'])
                if p == 'alloc::boxed::Box':
                    ti = t['a'][0]
                    continue
                return p
            return None

    def key_of(self, f):
        if f['kind'] == 'Closure':
            return norm(f['path'])
        if 'self_ty' in f:
            t = self.types[f['self_ty']]
            if t['k'] == 'adt':
                return norm(t['p']).split('::')[-1] + '::' + f['name']
            return self.tyname(f['self_ty']) + '::' + f['name']
        if 'of_trait' in f:
            return norm(f['of_trait']).split('::')[-1] + '::' + f['name']
        return norm(f['path'])

    def find(self, key, trait=None):
        r = [f for f in self.by_key.get(key, []) if trait is None or norm(f.get('trait', '')).split('::')[-1] == trait]
        return r

    def loops(self, f):
        """Natural loops of a body: header -> set of blocks."""
        p = f['path']
        if p in self._loops:
            return self._loops[p]
        bl = f['blocks']
        succ = [self.succ(b) for b in bl]
        # iterative DFS for back edges (reducible graphs: back edge target is on the DFS stack)
        color = [0] * len(bl)
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color[m] == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = [[] for _ in bl]
        for i, ss in enumerate(succ):
            for m in ss:
                pred[m].append(i)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            w = [n]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        self._loops[p] = loops
        return loops

    @staticmethod
    def succ(b):
        t = b['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['v']] + [t['o']]
        if k in ('drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []

    def variants(self, adt):
        return self.adts[adt]['variants']

    def vidx(self, adt, name):
        for i, v in enumerate(self.variants(adt)):
            if v['name'] == name:
                return i
        raise KeyError((adt, name))


def int_bits(tn):
    m = re.match(r'([iu])(\d+|size)$', tn or '')
    if not m:
        return None
    return m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2))


def wrap(n, tn):
    b = int_bits(tn)
    if not b:
        return n
    s, w = b
    n &= (1 << w) - 1
    if s and n >= 1 << (w - 1):
        n -= 1 << w
    return n


def in_range(n, tn):
    return wrap(n, tn) == n


def contains_kind(v, pred):
    if isinstance(v, tuple):
        if pred(v):
            return True
        return any(contains_kind(x, pred) for x in v if isinstance(x, tuple))
    return False


class Engine:
    MAXSTEPS = 3_000_000
    UNROLL = 48
    MAXPATHS = 256
    RECURSE = {}

    def __init__(self, prog, handlers=None, opaque=None, models=None):
        self.known = {}     # terms that stand for given values
        from . import models as M
        self.p = prog
        self.models = M.MODELS
        self.handlers = handlers or {}
        self.opaque = opaque or (lambda f: False)
        self.stack = []
        self.panics = {}
        self.loopids = {}
        self.loops = {}
        self.steps = 0
        self.unmodelled = {}
        self.vadt = {}
        self.queries = set()    # calls that stay opaque: (name, arguments after the first)
        self.inlined = set()
        self.visited = set()
        self.mutfields = None
        self.maxdepth = 60
        self.query_stop = None
        self.watch = frozenset()

    # ---------------------------------------------------------------- places
    def place(self, st, fr, p):
        """-> (cell, projections); dereferences are resolved through the abstract heap."""
        cell, proj = (fr.fid, p[0]), ()
        ty = fr.fn['locals'][p[0]][0]
        types = self.p.types
        for e in p[1:]:
            if e == '*':
                t = types[ty] if ty is not None else {'k': '?'}
                if t['k'] == 'adt' and norm(t['p']) == 'alloc::boxed::Box':
                    ty = t['a'][0]
                    continue
                if t['k'] == 'param':
                    rt = self.subst_ty(ty, fr.tenv)
                    t = types[rt] if isinstance(rt, int) else {'k': '?'}
                v = self.read(st, cell, proj)
                cell, proj = self.deref(v)
                ty = t.get('t') if t['k'] in ('ref', 'ptr') else None
            elif e[0] == 'f':
                vn = None
                if proj and proj[-1][0] == 'd':
                    vn = proj[-1][2]
                    proj = proj[:-1]
                if vn in COW_V and self._is_cow(ty):
                    pass
                elif ty is not None and types[ty]['k'] == 'adt' and norm(types[ty]['p']) in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    pass
                else:
                    proj = proj + (('f', vn, e[1], e[2]),)
                ty = e[3]
            elif e[0] == 'd':
                proj = proj + (('d', e[1], e[2]),)
            elif e[0] == 'i':
                iv = self.read(st, (fr.fid, e[1]), ())
                proj = proj + (('x', iv[1]) if iv[0] == 'i' else ('xs', iv),)
                ty = self._elem_ty(ty)
            elif e[0] == 'c':
                if e[3]:
                    proj = proj + (('xe', e[1]),)
                else:
                    proj = proj + (('x', e[1]),)
                ty = self._elem_ty(ty)
            elif e[0] == 's':
                proj = proj + (('sub', ('i', e[1]), ('end', e[2]) if e[3] else ('i', e[2])),)
            else:
                raise Unsupported('projection %r' % (e,))
        if proj and proj[-1][0] == 'd':
            proj = proj[:-1]
        return cell, proj

    def _is_cow(self, ty):
        if ty is None:
            return True
        t = self.p.types[ty]
        return t['k'] == 'adt' and norm(t['p']) == 'alloc::borrow::Cow'

    def _elem_ty(self, ty):
        if ty is None:
            return None
        t = self.p.types[ty]
        return t.get('t') if t['k'] in ('array', 'slice') else None

    def deref(self, v):
        if v[0] == 'R':
            return v[1], v[2]
        if is_sym(v):
            return ('S', v), ()
        return ('K', v), ()

    def mkref(self, cell, proj):
        if not proj and cell[0] in ('S', 'K'):
            return cell[1]
        return ('R', cell, proj)

    def cellval(self, st, cell):
        v = st.cells.get(cell)
        if v is None:
            if cell[0] == 'S':
                return self.default_deref(cell[1])
            if cell[0] == 'K':
                return cell[1]
            if cell[0] == 'in':
                return cell
            return ('undef',)
        return v

    def default_deref(self, t):
        # references to symbolic data are identified with the data
        return t

    def proj1(self, st, v, pr):
        k = v[0]
        if v == ('undef',):
            return v
        if pr[0] == 'f':
            if k == 'A':
                if pr[2] < len(v[3]):
                    return v[3][pr[2]]
                return ('undef',)
            if k == 'U':
                for q, x in v[2]:
                    if q == pr:
                        return x
                return self.proj1(st, v[1], pr)
            if k == 'C':
                return v[2][pr[2]]
            if k == 'parsed':
                return ('fld', v, pr[1], pr[3])
            if k == 'R':
                return self.proj1(st, self.read(st, v[1], v[2]), pr)
            r = ('fld', v, pr[1], pr[3])
            return self.known.get(r, r) if self.known else r
        if pr[0] == 'x':
            if k == 'L':
                items = v[1]
                if pr[1] < len(items) and not any(self.is_multi(x) for x in items[:pr[1] + 1]):
                    return items[pr[1]]
                return ('at', v, ('i', pr[1]))
            if k == 'sub' and v[2][0] == 'i':
                return self.proj1(st, v[1], ('x', v[2][1] + pr[1]))
            return ('at', v, ('i', pr[1]))
        if pr[0] == 'xe':
            if k == 'L':
                items = v[1]
                if pr[1] <= len(items) and not any(self.is_multi(x) for x in items[len(items) - pr[1]:]):
                    return items[len(items) - pr[1]]
            return ('at', v, ('end', pr[1]))
        if pr[0] == 'xs':
            return ('at', v, pr[1])
        if pr[0] == 'el':
            return pr[1]
        if pr[0] == 'sub':
            return self.subslice(v, pr[1], pr[2])
        if pr[0] == 'd':
            return v
        raise Unsupported('proj %r' % (pr,))

    @staticmethod
    def is_multi(x):
        return x[0] in ('rep', 'splat')

    def subslice(self, v, a, b):
        """v[a..b]; b is ('i',n), ('end',n) or a term."""
        if v[0] == 'L' and a[0] == 'i' and not any(self.is_multi(x) for x in v[1]):
            n = len(v[1])
            e = b[1] if b[0] == 'i' else n - b[1] if b[0] == 'end' else None
            if e is not None and 0 <= a[1] <= e <= n:
                return ('L', v[1][a[1]:e])
        if v[0] == 'sub' and a[0] == 'i' and v[2][0] == 'i' and b == ('end', 0):
            return ('sub', v[1], ('i', v[2][1] + a[1]), v[3])
        if a == ('i', 0) and b == ('end', 0):
            return v
        return ('sub', v, a, b)

    def read(self, st, cell, proj):
        v = self.cellval(st, cell)
        for pr in proj:
            v = self.proj1(st, v, pr)
        return v

    def write(self, st, cell, proj, val):
        if self.watch and proj and cell in self.watch and self.proj_of(st, cell, proj) != val:
            st.add_eff(('set', tuple(q[3] if q[0] == 'f' else self.snap(st, q[1]) if q[0] == 'xs' else q for q in proj), self.snap(st, val)))
        if not proj:
            st.cells[cell] = val
            return
        st.cells[cell] = self.upd(st, self.cellval(st, cell), proj, val)

    def proj_of(self, st, cell, proj):
        v = self.cellval(st, cell)
        for q in proj:
            v = self.proj1(st, v, q)
        return v

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        pr = proj[0]
        if pr[0] == 'sub' and len(proj) > 1 and proj[1][0] == 'x' and pr[1][0] == 'i':
            return self.upd(st, v, (('x', pr[1][1] + proj[1][1]),) + proj[2:], val)
        inner = self.upd(st, self.proj1(st, v, pr), proj[1:], val)
        k = v[0]
        if pr[0] == 'f' and k == 'A':
            f = list(v[3])
            while len(f) <= pr[2]:
                f.append(('undef',))
            f[pr[2]] = inner
            return ('A', v[1], v[2], tuple(f))
        if pr[0] == 'f' and k == 'C':
            f = list(v[2])
            f[pr[2]] = inner
            return ('C', v[1], tuple(f))
        if k == 'undef' and pr[0] == 'f':
            return ('A', '()', 0, tuple([('undef',)] * pr[2] + [inner]))
        if pr[0] == 'x' and k == 'L' and pr[1] < len(v[1]):
            it = list(v[1])
            it[pr[1]] = inner
            return ('L', tuple(it))
        if pr[0] == 'xe' and k == 'L' and pr[1] <= len(v[1]):
            it = list(v[1])
            it[len(it) - pr[1]] = inner
            return ('L', tuple(it))
        # overlay on a symbolic value
        if k == 'U':
            ov = tuple((q, x) for q, x in v[2] if q != pr) + ((pr, inner),)
            return ('U', v[1], ov)
        if inner == self.proj1(st, v, pr):
            return v
        return ('U', v, ((pr, inner),))

    # ---------------------------------------------------------------- snapshots
    def snap(self, st, v, depth=0):
        """Replaces references by the values they point to (for terms and comparison)."""
        k = v[0]
        if k in ('i', 's', 'b', 'F', 'undef', 'fl'):
            return v
        if depth > 40:
            return v
        if k == 'R':
            c = v[1]
            if c[0] == 'in' and c[1].startswith('@'):
                return ('in', c[1]) if not v[2] else ('fld', ('in', c[1]), None, v[2][-1][3] if v[2][-1][0] == 'f' else '?')
            return self.snap(st, self.read(st, v[1], v[2]), depth + 1)
        if k == 'A':
            return ('A', v[1], v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]))
        if k in ('L', 'TS'):
            return (k, tuple(self.snap(st, x, depth + 1) for x in v[1]))
        if k == 'C':
            return ('C', v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if k == 'IT':
            return tuple(self.snap(st, x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('R', 'A', 'L', 'C', 'IT') else x for x in v)
        if is_sym(v):
            cv = st.cells.get(('S', v))
            if cv is not None and cv != v:
                return self.snap(st, cv, depth + 1)
            if k == 'U':
                return ('U', v[1], tuple((q, self.snap(st, x, depth + 1)) for q, x in v[2]))
        return v

    def rd(self, st, v):
        """Follows references to a value (one or more levels)."""
        n = 0
        while v[0] == 'R':
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 50:
                break
        if is_sym(v):
            cv = st.cells.get(('S', v))
            if cv is not None and cv != v:
                return self.rd(st, cv)
        return v

    # ---------------------------------------------------------------- facts
    def variants_of(self, st, term, adt):
        f = st.facts.get(('V', term))
        if f is not None:
            return f
        n = len(self.p.variants(adt))
        return frozenset(range(n))

    def tag(self, st, v, adt=None):
        """Variant index of a value if determined."""
        if v[0] == 'A':
            return v[2]
        f = st.facts.get(('V', v))
        if f is not None and len(f) == 1:
            return next(iter(f))
        return None

    def fork_variant(self, st, v, adt, only=None):
        """-> [(state, variant index)]"""
        if v[0] == 'A':
            return [(st, v[2])]
        if v[0] == 'U':
            v = v[1]
        self.vadt[v] = adt
        vs = sorted(self.variants_of(st, v, adt))
        if len(vs) == 1:
            return [(st, vs[0])]
        out = []
        for i in vs:
            s = st.copy()
            s.facts[('V', v)] = frozenset([i])
            out.append((s, i))
        return out

    def known_as(self, t):
        return self.known.get(t, t) if self.known else t

    def fork_opt(self, st, v):
        """-> [(state, None | payload)] for an Option value"""
        v = self.rd(st, v)
        if v[0] == 'A':
            return [(st, v[3][0] if v[2] == 1 else None)]
        return [(s, self.known_as(('fld', v, 'Some', '0')) if i == 1 else None) for s, i in self.fork_variant(st, v, OPT)]

    def fork_res(self, st, v):
        """-> [(state, 'Ok'|'Err', payload)]"""
        v = self.rd(st, v)
        if v[0] == 'A':
            return [(st, 'Ok' if v[2] == 0 else 'Err', v[3][0] if v[3] else UNIT)]
        return [(s, 'Ok' if i == 0 else 'Err', self.known_as(('fld', v, 'Ok' if i == 0 else 'Err', '0'))) for s, i in self.fork_variant(st, v, RES)]

    def rng(self, st, t):
        if t[0] == 'i':
            return t[1], t[1]
        f = st.facts.get(('N', t))
        lo, hi = (f[0], f[1]) if f else (None, None)
        if t[0] == 'len' and (lo is None or lo < 0):
            lo = 0
        if t[0] == 'op' and t[1] in ('Add', 'Sub'):
            a, b = self.rng(st, t[2]), self.rng(st, t[3])
            if t[1] == 'Add':
                l2 = a[0] + b[0] if a[0] is not None and b[0] is not None else None
                h2 = a[1] + b[1] if a[1] is not None and b[1] is not None else None
            else:
                l2 = a[0] - b[1] if a[0] is not None and b[1] is not None else None
                h2 = a[1] - b[0] if a[1] is not None and b[0] is not None else None
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        if t[0] == 'op' and t[1] == 'Mul' and t[3][0] == 'i' and t[3][1] >= 0:
            a = self.rng(st, t[2])
            l2, h2 = (None if x is None else x * t[3][1] for x in a)
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        return lo, hi

    def canon_cmp(self, op, a, b):
        if op == 'Gt':
            return 'Lt', b, a, True
        if op == 'Ge':
            return 'Le', b, a, True
        if op == 'Ne':
            return 'Eq', a, b, False
        return op, a, b, True

    def mkcmp(self, st, op, a, b):
        """Boolean value of a comparison, decided by constants and intervals where possible."""
        op, a, b, pos = self.canon_cmp(op, a, b)
        r = None
        if a[0] == 'i' and b[0] == 'i':
            r = {'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Eq': a[1] == b[1]}[op]
        elif a == b and a[0] != 'fl':
            r = op != 'Lt'
        else:
            la, ha = self.rng(st, a)
            lb, hb = self.rng(st, b)
            if op == 'Lt':
                if ha is not None and lb is not None and ha < lb:
                    r = True
                elif la is not None and hb is not None and la >= hb:
                    r = False
            elif op == 'Le':
                if ha is not None and lb is not None and ha <= lb:
                    r = True
                elif la is not None and hb is not None and la > hb:
                    r = False
            else:
                if ha is not None and lb is not None and ha < lb or la is not None and hb is not None and la > hb:
                    r = False
                elif la is not None and la == ha and lb == la and hb == lb:
                    r = True
                else:
                    x, c = (a, b) if b[0] == 'i' else (b, a)
                    if c[0] == 'i':
                        f = st.facts.get(('N', x))
                        if f and c[1] in f[2]:
                            r = False
        if r is not None:
            return boolv(r == pos)
        if op == 'Eq' and a[0] == 'i':
            a, b = b, a
        t = ('op', op, a, b)
        return t if pos else ('not', t)

    def refine_num(self, st, x, op, c, val):
        """Adds x op c == val (op in Lt: x<c, Le: x<=c, Gt: x>c, Ge, Eq); False if contradictory."""
        lo, hi = self.rng(st, x)
        f = st.facts.get(('N', x))
        ne = f[2] if f else frozenset()
        if not val:
            op = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne'}[op]
        if op == 'Lt':
            hi = c - 1 if hi is None else min(hi, c - 1)
        elif op == 'Le':
            hi = c if hi is None else min(hi, c)
        elif op == 'Gt':
            lo = c + 1 if lo is None else max(lo, c + 1)
        elif op == 'Ge':
            lo = c if lo is None else max(lo, c)
        elif op == 'Eq':
            if lo is not None and c < lo or hi is not None and c > hi or c in ne:
                return False
            lo = hi = c
        elif op == 'Ne':
            ne = ne | {c}
        while lo is not None and lo in ne and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ne and (lo is None or hi >= lo):
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return False
        st.facts[('N', x)] = (lo, hi, ne)
        return True

    def eval_bool(self, st, t):
        """True/False/None"""
        if t[0] == 'i':
            return t[1] != 0
        if t[0] == 'not':
            r = self.eval_bool(st, t[1])
            return None if r is None else not r
        f = st.facts.get(('B', t))
        if f is not None:
            return f
        if t[0] == 'op' and t[1] in ('Lt', 'Le', 'Eq'):
            v = self.mkcmp(st, t[1], t[2], t[3])
            if v[0] == 'i':
                return v[1] != 0
        if t[0] == 'ovf' and t[1] in ('Add', 'Sub', 'Mul'):
            from . import lexstr
            if all(x[0] == 'i' or lexstr.ischar(x) for x in t[3:5]):
                r = lexstr.fits(self, st, self.arith(t[1], t[3], t[4], None), t[2])
                if r is not None:
                    return not r
        if t[0] == 'seq':
            f = st.facts.get(('T', t[1]))
            if f:
                if f[0] == 'in':
                    return f[1] == t[2]
                if t[2] in f[1]:
                    return False
        if t[0] == 'isv':
            vs = st.facts.get(('V', t[1]))
            if vs is not None:
                if vs <= t[2]:
                    return True
                if not (vs & t[2]):
                    return False
        if t[0] == 'op' and t[1] in ('BitAnd', 'BitOr'):
            a, b = self.eval_bool(st, t[2]), self.eval_bool(st, t[3])
            if t[1] == 'BitAnd':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
        return None

    def assume(self, st, t, val):
        """-> state with the fact t == val added, or None if contradictory (st is consumed)."""
        r = self.eval_bool(st, t)
        if r is not None:
            return st if r == val else None
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        if t[0] == 'op' and t[1] in ('Lt', 'Le', 'Eq'):
            op, a, b = t[1], t[2], t[3]
            okk = True
            if b[0] == 'i':
                okk = self.refine_num(st, a, op, b[1], val)
            elif a[0] == 'i':
                okk = self.refine_num(st, b, {'Lt': 'Gt', 'Le': 'Ge', 'Eq': 'Eq'}[op], a[1], val)
            if not okk:
                return None
        if t[0] == 'seq':
            f = st.facts.get(('T', t[1]))
            if val:
                st.facts[('T', t[1])] = ('in', t[2])
            else:
                ns = f[1] if f and f[0] == 'not' else frozenset()
                st.facts[('T', t[1])] = ('not', ns | {t[2]})
            return st
        if t[0] == 'isv':
            vs = self.variants_of(st, t[1], t[3])
            ns = vs & t[2] if val else vs - t[2]
            if not ns:
                return None
            st.facts[('V', t[1])] = ns
            return st
        st.facts[('B', t)] = val
        return st

    def fork_bool(self, st, v):
        """-> [(state, bool)]"""
        if v[0] == 'R':
            v = self.rd(st, v)
        r = self.eval_bool(st, v)
        if r is not None:
            return [(st, r)]
        out = []
        for val in (True, False):
            s = self.assume(st.copy(), v, val)
            if s is not None:
                out.append((s, val))
        return out

    # ---------------------------------------------------------------- equality
    def eq(self, st, a, b, depth=0):
        """-> [(state, bool value term)] structural equality of two values."""
        a, b = self.rd(st, a), self.rd(st, b)
        if a == b and a[0] != 'fl':
            return [(st, TRUE)]
        if a[0] == 'fld' and b[0] == 'fld':
            fa, fb = st.facts.get(('T', a)), st.facts.get(('T', b))
            if fa and fb and fa[0] == 'in' and fb[0] == 'in':
                return [(st, boolv(fa[1] == fb[1]))]
        ka, kb = a[0], b[0]
        if ka == 'i' and kb == 'i':
            return [(st, boolv(a[1] == b[1]))]
        if ka in ('s', 'b') and kb in ('s', 'b'):
            x = a[1].encode() if ka == 's' else bytes(a[1])
            y = b[1].encode() if kb == 's' else bytes(b[1])
            return [(st, boolv(x == y))]
        if ka == 's' or kb == 's':
            c, x = (a, b) if ka == 's' else (b, a)
            if x[0] in ('str+', 'chr') and ka != kb:
                from . import lexstr
                cs = lexstr.chars(x)
                if cs is not None:
                    if len(cs) != len(c[1]):
                        return [(st, FALSE)]
                    return [(s, boolv(y)) for s, y in lexstr.matches(self, st, cs, 0, [ord(z) for z in c[1]])]
            if is_sym(x) or x[0] in ('str+', 'tk', 'TS'):
                t = ('seq', x, c[1])
                r = self.eval_bool(st, t)
                return [(st, boolv(r) if r is not None else t)]
        if ka == 'A' or kb == 'A':
            x, y = (a, b) if ka == 'A' else (b, a)
            if y[0] == 'A':
                if x[1] != y[1] and '()' not in (x[1], y[1]):
                    return [(st, ('eq', a, b))]
                if x[2] != y[2]:
                    return [(st, FALSE)]
                return self._eq_fields(st, list(zip(x[3], y[3])))
            if is_sym(y):
                if x[1] == '()' or self.p.adts.get(x[1], {}).get('kind') == 'struct':
                    return self._eq_fields(st, [(f, self.proj1(st, y, ('f', None, i, self.fname(x[1], 0, i)))) for i, f in enumerate(x[3])])
                if x[1] in self.p.adts:
                    vname = self.p.variants(x[1])[x[2]]['name']
                    if not x[3]:
                        t = ('isv', y, frozenset([x[2]]), x[1])
                        r = self.eval_bool(st, t)
                        return [(st, boolv(r) if r is not None else t)]
                    out = []
                    for s, i in self.fork_variant(st, y, x[1]):
                        if i != x[2]:
                            out.append((s, FALSE))
                        else:
                            out += self._eq_fields(s, [(f, self.proj1(s, y, ('f', vname, j, self.fname(x[1], x[2], j)))) for j, f in enumerate(x[3])])
                    return out
        if ka == 'i' or kb == 'i':
            return [(st, self.mkcmp(st, 'Eq', a, b))]
        if ka in ('L', 'TS') and kb == ka:
            ma = any(self.is_multi(x) for x in a[1])
            mb = any(self.is_multi(x) for x in b[1])
            if not ma and not mb:
                if len(a[1]) != len(b[1]):
                    return [(st, FALSE)]
                return self._eq_fields(st, list(zip(a[1], b[1])))
        a, b = self.snap(st, a), self.snap(st, b)
        if a == b:
            return [(st, TRUE)]
        if repr(b) < repr(a):
            a, b = b, a
        t = ('eq', a, b)
        r = self.eval_bool(st, t)
        if r is None:
            fa, fb = st.facts.get(('V', a)), st.facts.get(('V', b))
            if fa and fb and not fa & fb:
                return [(st, FALSE)]
            if fa and fa == fb and len(fa) == 1 and self.vadt.get(a) == OPT:
                # two options
                if 0 in fa:
                    return [(st, TRUE)]
                return self.eq(st, ('fld', a, 'Some', '0'), ('fld', b, 'Some', '0'))
            adt = self.vadt.get(a)
            if fa and fa == fb and len(fa) == 1 and adt in self.p.adts and self.p.adts[adt]['local']:
                # two values of the same variant
                return self._eq_variant(st, a, b, adt, min(fa))
        return [(st, boolv(r) if r is not None else t)]

    def fname(self, adt, vi, i):
        if adt == '()' or adt not in self.p.adts:
            return str(i)
        return self.p.variants(adt)[vi]['fields'][i]['name']

    def _eq_variant(self, st, a, b, adt, vi):
        v = self.p.variants(adt)[vi]
        name = None if self.p.adts[adt]['kind'] == 'struct' else v['name']
        cur = [(st, TRUE)]
        for f in v['fields']:
            x, y = ('fld', a, name, f['name']), ('fld', b, name, f['name'])
            sub = self.p.adt_of(f['ty']) if isinstance(f['ty'], int) else None
            nxt = []
            for s, r in cur:
                if r == FALSE:
                    nxt.append((s, r))
                    continue
                for s1, r0 in self.fork_bool(s, r):
                    if not r0:
                        nxt.append((s1, FALSE))
                    elif sub in self.p.adts and self.p.adts[sub]['local'] and self.p.adts[sub]['kind'] == 'struct':
                        nxt += self._eq_variant(s1, x, y, sub, 0)
                    else:
                        nxt += self.eq(s1, x, y)
            cur = nxt
        return cur

    def _eq_fields(self, st, pairs):
        cur = [(st, TRUE)]
        for x, y in pairs:
            nxt = []
            for s, v in cur:
                if v == FALSE:
                    nxt.append((s, v))
                    continue
                for s2, r in self.eq(s, x, y):
                    if v == TRUE:
                        nxt.append((s2, r))
                    elif r == TRUE:
                        nxt.append((s2, v))
                    elif r == FALSE:
                        nxt.append((s2, FALSE))
                    else:
                        for s3, bv in self.fork_bool(s2, v):
                            nxt.append((s3, r if bv else FALSE))
            cur = nxt
        return cur

    # ---------------------------------------------------------------- operands, rvalues
    def const(self, c, fr):
        if 'fn' in c:
            f = c['fn']
            return ('F', FnRef.get(self, f, fr.tenv))
        if 'str' in c:
            return ('s', c['str'])
        t = self.p.types[c['t']]
        if 'bytes' in c:
            return ('b', tuple(c['bytes']))
        if 'int' in c:
            n = int(c['int'])
            if t['k'] == 'num' and t['n'] in ('f32', 'f64'):
                import struct
                w = 4 if t['n'] == 'f32' else 8
                return ('fl', struct.unpack('<f' if w == 4 else '<d', (n & ((1 << (8 * w)) - 1)).to_bytes(w, 'little'))[0])
            if t['k'] == 'adt':
                a = norm(t['p'])
                if a in self.p.adts and self.p.adts[a]['kind'] == 'enum':
                    for i, v in enumerate(self.p.variants(a)):
                        if int(v['discr']) == n and not v['fields']:
                            return ('A', a, i, ())
                return ('const', c.get('s', ''))
            return ('i', n)
        if c.get('zst'):
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return ('C', t['p'], ())
            if t['k'] == 'adt':
                return ('A', norm(t['p']), 0, ())
            return UNIT
        if 'uneval' in c and c.get('ul'):
            f = self.p.fns.get(c['uneval'])
            if f is not None and f['argc'] == 0 and len(self.stack) < 30:
                r = self.run_fn(f, [], State(), {})
                if len(r) == 1:
                    return self.snap(r[0][0], r[0][1])
        if 'raw' in c:
            return ('const', c.get('s', ''), tuple(c['raw']))
        return ('const', c.get('s', c.get('static', '')))

    def operand(self, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            cell, pr = self.place(st, fr, o['p'])
            return self.read(st, cell, pr)
        if k == 'const':
            return self.const(o, fr)
        return ('rtcheck',)

    def len_of(self, st, v):
        v = self.rd(st, v)
        if v[0] in ('L', 'TS') and not any(self.is_multi(x) for x in v[1]):
            return ('i', len(v[1]))
        if v[0] == 's':
            return ('i', len(v[1].encode()))
        if v[0] == 'b':
            return ('i', len(v[1]))
        if v[0] == 'sub' and v[2][0] == 'i' and v[3] == ('end', 0):
            lo, hi = self.rng(st, ('len', v[1]))
            return self.arith('Sub', ('len', v[1]), v[2], None)
        if v[0] in ('L',):
            fixed = sum(1 for x in v[1] if not self.is_multi(x))
            if fixed and not is_sym(v):
                t = ('len', v)
                f = st.facts.get(('N', t))
                if f is None:
                    st.facts[('N', t)] = (fixed, None, frozenset())
                return t
        return ('len', v)

    def arith(self, op, a, b, tn):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     'Rem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[op]()
                return ('i', wrap(r, tn) if tn else r)
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        if op in ('Add', 'Sub') and b == ('i', 0):
            return a
        if op == 'Add' and a == ('i', 0):
            return b
        if op in ('Add', 'Sub', 'Mul'):
            from . import lexstr
            if lexstr.ischar(a) and (b[0] == 'i' or lexstr.ischar(b)) or a[0] == 'i' and lexstr.ischar(b):
                return lexstr.norm(('op', op, a, b))
        if op in ('BitAnd', 'BitOr') and tn == 'bool':
            for p, q in ((a, b), (b, a)):
                if p == TRUE:
                    return q if op == 'BitAnd' else TRUE
                if p == FALSE:
                    return FALSE if op == 'BitAnd' else q
        if op == 'Add' and a[0] == 'i':
            a, b = b, a
        # constant offsets are combined: (t + c) + d, (t - c) + d
        if op in ('Add', 'Sub') and b[0] == 'i' and a[0] == 'op' and a[1] in ('Add', 'Sub') and a[3][0] == 'i':
            c = (a[3][1] if a[1] == 'Add' else -a[3][1]) + (b[1] if op == 'Add' else -b[1])
            if c == 0:
                return a[2]
            return ('op', 'Add', a[2], ('i', c)) if c > 0 else ('op', 'Sub', a[2], ('i', -c))
        return ('op', op, a, b)

    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k == 'ref' or k == 'rawptr':
            cell, pr = self.place(st, fr, r['p'])
            if k == 'ref' and not r['m'] and not pr and st.cells.get(cell) == ('L', ()):
                # `&[]` lives forever
                return self.mkref(('K', ('L', ())), ())
            return self.mkref(cell, pr)
        if k == 'agg':
            fs = tuple(self.operand(st, fr, o) for o in r['f'])
            a = r['a']
            if a == 'tuple':
                return ('A', '()', 0, fs)
            if a == 'array':
                return ('L', fs)
            if a == 'adt':
                p = norm(r['p'])
                if p == 'alloc::borrow::Cow':
                    return fs[0]
                if SINK and p == 'ast::identifier::Identifier':
                    SINK(self, st, fr, -1, 'identifier', fs, None)
                if SINK and p == 'ast::identifier_expr::IdentifierContinuationExpr' and fs and fs[0][0] == 'A' and fs[0][1].endswith('::LitInt'):
                    SINK(self, st, fr, -1, 'continuation', fs, None)
                return ('A', p, r['vi'], fs)
            if a == 'closure':
                return ('C', r['p'], fs)
            return ('A', '()', 0, fs)
        if k == 'discr':
            cell, pr = self.place(st, fr, r['p'])
            v = self.read(st, cell, pr)
            ti = self.subst_ty(r['t'], fr.tenv)
            adt = self.p.adt_of(ti) if isinstance(ti, int) else None
            return self.discr_of(st, v, adt)
        if k == 'bin':
            a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
            op = r['op']
            tn = self.p.tyname(r['t'])
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if a[0] == 'fl' or b[0] == 'fl' or tn in ('f32', 'f64'):
                    return mkfcmp(op, a, b)
                if tn == 'bool' and op in ('Eq', 'Ne'):
                    for p, q in ((a, b), (b, a)):
                        if p[0] == 'i':
                            return q if (p[1] != 0) == (op == 'Eq') else ('not', q) if q[0] != 'i' else boolv(not q[1])
                return self.mkcmp(st, op, a, b)
            if op.endswith('WithOverflow'):
                base = op[:-12]
                v = self.arith(base, a, b, None)
                if v[0] == 'i':
                    return tup(('i', wrap(v[1], tn)), boolv(not in_range(v[1], tn)))
                return tup(v, ('ovf', base, tn, a, b))
            if op.endswith('Unchecked'):
                op = op[:-9]
            return self.arith(op, a, b, tn)
        if k == 'un':
            a = self.operand(st, fr, r['a'])
            if r['op'] == 'PtrMetadata':
                return self.len_of(st, a)
            if r['op'] == 'Not':
                tn = self.p.tyname(r['t'])
                if tn == 'bool':
                    if a[0] == 'i':
                        return boolv(not a[1])
                    return a[1] if a[0] == 'not' else ('not', a)
                if a[0] == 'i':
                    return ('i', wrap(~a[1], tn))
            if r['op'] == 'Neg' and a[0] == 'i':
                return ('i', -a[1])
            if r['op'] == 'Neg' and a[0] == 'fl':
                return ('fl', -a[1])
            return ('un', r['op'], a)
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            c = r['c']
            if 'IntToInt' in c:
                tn = self.p.tyname(r['t'])
                ft = self.p.tyname(r['from'])
                if v[0] == 'i':
                    return ('i', wrap(v[1], tn) if tn not in ('char', 'bool') else v[1])
                if v[0] == 'discr':
                    return ('as', tn, v)
                if v[0] in ('in', 'op'):
                    # unknown characters: a conversion that keeps the value
                    from . import lexstr
                    if lexstr.ischar(v) and (tn == 'char' or tn in lexstr.UTF8):
                        lo, hi = self.rng(st, v)
                        l2, h2 = lexstr.limits(tn) if tn != 'char' else (0, 0x10ffff)
                        if lo is not None and hi is not None and l2 <= lo and hi <= h2:
                            return v
                return ('as', ft, tn, v)
            if 'PointerCoercion' in c or 'PtrToPtr' in c:
                return v
            return ('as', self.p.tyname(r['from']), self.p.tyname(r['t']), v)
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            if 0 <= r['n'] <= 64:
                return ('L', (v,) * r['n'])
            return ('repeat', v, r['n'])
        return ('other', k, r.get('s', ''))

    def discr_of(self, st, v, adt):
        v0 = v
        if v[0] == 'R':
            v = self.rd(st, v)
        if v[0] == 'U':
            v = v[1]
        if v[0] == 'A' and adt and adt in self.p.adts:
            return ('i', int(self.p.variants(adt)[v[2]]['discr']))
        if v[0] == 'A' and v[1] in self.p.adts:
            return ('i', int(self.p.variants(v[1])[v[2]]['discr']))
        if v[0] == 'undef':
            raise Unsupported('discriminant of an undefined value in %s' % self.where())
        if adt is None:
            return ('discr?', v0)
        if not is_sym(v):
            # e.g. Cow transparency or parsed syntax: the tag is unknown
            v = ('tagof', v)
        fs = st.facts.get(('V', v))
        if fs is not None and len(fs) == 1:
            return ('i', int(self.p.variants(adt)[next(iter(fs))]['discr']))
        self.vadt[v] = adt
        return ('discr', v, adt)

    def where(self):
        return ' < '.join(f.fn['key'] for f in reversed(self.stack[-4:]))

    # ---------------------------------------------------------------- types
    def subst_ty(self, ti, tenv):
        """Substitutes type parameters; returns a type id or a synthetic type tuple."""
        t = self.p.types[ti]
        if t['k'] == 'param':
            return tenv.get(t['n'], ti)
        if t['k'] in ('ref', 'ptr'):
            x = self.subst_ty(t['t'], tenv)
            return ti if x == t['t'] else self.intern({'k': t['k'], 'm': t['m'], 't': x})
        if t['k'] == 'adt' and t['a']:
            a = [self.subst_ty(x, tenv) for x in t['a']]
            return ti if a == t['a'] else self.intern({'k': 'adt', 'p': t['p'], 'a': a})
        if t['k'] == 'tuple' and t['a']:
            a = [self.subst_ty(x, tenv) for x in t['a']]
            return ti if a == t['a'] else self.intern({'k': 'tuple', 'a': a})
        if t['k'] in ('slice', 'array'):
            x = self.subst_ty(t['t'], tenv)
            return ti if x == t['t'] else self.intern(dict(t, t=x))
        return ti

    def intern(self, t):
        import json
        key = json.dumps(t, sort_keys=True)
        tab = self.p.__dict__.setdefault('_intern', {})
        if key not in tab:
            self.p.types.append(t)
            tab[key] = len(self.p.types) - 1
        return tab[key]

    # ---------------------------------------------------------------- execution
    def run(self, fn, args, st=None, tenv=None):
        """Summarises a function: [(state, return value)]."""
        st = st or State()
        out = []
        exc = []

        def go():
            try:
                out.extend(self.run_fn(fn, args, st, tenv or {}))
            except BaseException as e:  # noqa
                exc.append(e)
        threading.stack_size(512 * 1024 * 1024)
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if exc:
            raise exc[0]
        return out

    def run_fn(self, fn, args, st, tenv):
        depth = len(self.stack)
        if depth > self.maxdepth:
            raise Budget('call depth in ' + self.where())
        fid = (depth, fn['path'])
        fr = Frame(fn, fid, tenv)
        self.inlined.add(fn['path'])
        self.stack.append(fr)
        try:
            st = st.copy()
            if fn['kind'] == 'Closure':
                args = list(args)
            for i, a in enumerate(args):
                st.cells[(fid, i + 1)] = a
            rets, exits, backs = self.run_region(fr, 0, st, None, None)
            out = []
            for s in rets:
                v = s.cells.get((fid, 0), UNIT)
                v = self.promote(s, v, fid)
                for c in [c for c in s.cells if c[0] == fid]:
                    del s.cells[c]
                out.append((s, v))
            return self.dedup(out)
        finally:
            self.stack.pop()

    def promote(self, st, v, fid):
        if not contains_kind(v, lambda x: len(x) == 3 and x[0] == 'R' and isinstance(x[1], tuple) and x[1] and x[1][0] == fid):
            return v
        if v[0] == 'R' and v[1][0] == fid:
            x = self.promote(st, self.read(st, v[1], v[2]), fid)
            return x if x[0] == 'R' else self.mkref(('K', x), ())
        if v[0] == 'A':
            return ('A', v[1], v[2], tuple(self.promote(st, x, fid) for x in v[3]))
        if v[0] in ('L', 'TS'):
            return (v[0], tuple(self.promote(st, x, fid) for x in v[1]))
        if v[0] == 'C':
            return ('C', v[1], tuple(self.promote(st, x, fid) for x in v[2]))
        return tuple(self.promote(st, x, fid) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v)

    def dedup(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        res = []
        for s, v in outs:
            key = (v, s.eff, tuple(sorted(s.cells.items(), key=lambda kv: hash(kv[0]))))
            try:
                h = hash(key)
            except TypeError:
                res.append((s, v))
                continue
            for o, ov in seen.get(h, []):
                if ov == v and o.cells == s.cells and o.eff == s.eff and o.facts == s.facts:
                    break
            else:
                seen.setdefault(h, []).append((s, v))
                res.append((s, v))
        return res

    def run_region(self, fr, start, st, region, header):
        rets, exits, backs = [], [], []
        loops = self.p.loops(fr.fn)
        work = []

        def goto(b, s):
            if region is not None and b == header:
                backs.append(s)
            elif region is not None and b not in region:
                exits.append((b, s))
            elif b in loops:
                ex, rt = self.run_loop(fr, b, s, loops[b])
                rets.extend(rt)
                for t, s2 in ex:
                    goto(t, s2)
            else:
                work.append((b, s))

        if header is not None or start not in loops:
            work.append((start, st))
        else:
            goto(start, st)
        blocks = fr.fn['blocks']
        while work:
            b, st = work.pop()
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Budget('step budget exhausted in ' + self.where())
            if len(work) > 20000:
                raise Budget('too many abstract states in ' + self.where())
            self.visited.add((fr.fn['path'], b))
            if SITES is not None:
                SITES(fr.fn['path'], b, self.stack[0].fn['key'])
            blk = blocks[b]
            for s in blk['s']:
                k = s['k']
                if k == 'assign':
                    v = self.rvalue(st, fr, s['r'])
                    cell, pr = self.place(st, fr, s['p'])
                    self.write(st, cell, pr, v)
                elif k == 'dead':
                    st.cells.pop((fr.fid, s['l']), None)
                elif k == 'setdiscr':
                    raise Unsupported('setdiscr')
            t = blk['t']
            k = t['k']
            if k == 'goto' or k == 'drop':
                goto(t['t'], st)
            elif k == 'switch':
                for s, b2 in self.switch(st, fr, t):
                    if blocks[b2]['t']['k'] == 'unreachable' and not blocks[b2]['s'] and t['o'] == b2:
                        # exhaustive match: the compiler's impossible default
                        continue
                    goto(b2, s)
            elif k == 'return':
                rets.append(st)
            elif k == 'call':
                f = self.operand(st, fr, t['f'])
                args = [self.operand(st, fr, a) for a in t['args']]
                if t['t'] is None:
                    self.diverge(st, fr, b, t, f, args)
                    continue
                for s, v in self.call(st, f, args, CallInfo(self, fr, b, t)):
                    cell, pr = self.place(s, fr, t['d'])
                    self.write(s, cell, pr, v)
                    goto(t['t'], s)
            elif k == 'assert':
                c = self.operand(st, fr, t['c'])
                for s, val in self.fork_bool(st, c):
                    if val == t['e']:
                        goto(t['t'], s)
                    else:
                        self.panic(s, fr, b, t['m'], [self.operand(s, fr, o) for o in t['ops']], t['sp'])
            elif k == 'unreachable':
                self.panic(st, fr, b, 'unreachable', [], t.get('sp'))
            elif k == 'resume':
                pass
            else:
                raise Unsupported('terminator ' + k)
        return rets, exits, backs

    def panic(self, st, fr, b, kind, ops, sp):
        key = (fr.fn['path'], b, kind)
        self.panics.setdefault(key, []).append((st, tuple(self.snap(st, o) for o in ops), sp, self.where()))
        if SINK:
            SINK(self, st, fr, b, kind, ops, sp)
        if PANLOG:
            from . import term
            open(PANLOG, 'a').write(repr((key, self.where(), term.Renderer(self.p, self).facts(st)[:500], sys.argv[1:2])) + '\n')

    def diverge(self, st, fr, b, t, f, args):
        nm = f[1].name if f[0] == 'F' else '?'
        self.panic(st, fr, b, 'diverge:' + nm, args, t.get('sp'))

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['d'])
        out = []
        if v[0] == 'i':
            for c, b in t['v']:
                if int(c) == v[1] or wrap(int(c), self.p.tyname(t['ty'])) == v[1]:
                    return [(st, b)]
            return [(st, t['o'])]
        if v[0] == 'discr':
            term, adt = v[1], v[2]
            vs = self.variants_of(st, term, adt)
            vl = self.p.variants(adt)
            rest = set(vs)
            for c, b in t['v']:
                idx = frozenset(i for i in vs if int(vl[i]['discr']) == int(c))
                if not idx:
                    continue
                rest -= idx
                s = st.copy()
                s.facts[('V', term)] = idx
                out.append((s, b))
            if rest:
                s = st.copy()
                s.facts[('V', term)] = frozenset(rest)
                out.append((s, t['o']))
            return out
        tn = self.p.tyname(t['ty'])
        if tn == 'bool':
            tgt = {int(c): b for c, b in t['v']}
            for s, val in self.fork_bool(st, v):
                out.append((s, tgt.get(int(val), t['o'])))
            return out
        st0 = st
        for c, b in t['v']:
            c = wrap(int(c), tn)
            s = st0.copy()
            if self.refine_num(s, v, 'Eq', c, True):
                out.append((s, b))
            s2 = st0.copy()
            if not self.refine_num(s2, v, 'Eq', c, False):
                return out
            st0 = s2
        out.append((st0, t['o']))
        return out

    # ---------------------------------------------------------------- loops
    def loop_id(self, key, st):
        k = (key, st.eff, frozenset(st.cells.items()), frozenset(st.facts.items()))
        if k not in self.loopids:
            self.loopids[k] = len(self.loopids)
        return self.loopids[k]

    def run_loop(self, fr, h, st, region):
        rets = []

        def body(s):
            r, e, b = self.run_region(fr, h, s, region, h)
            rets.extend(r)
            return e, b
        n0 = len(rets)
        ex = self.loop_fix(body, st, (fr.fn['path'], h), lambda: rets.__delitem__(slice(n0, None)))
        return ex, [self.reflag(s, st) for s in rets]

    @staticmethod
    def reflag(s, st):
        """What drives a loop does not drive the loop around it."""
        own = frozenset({'concnext', 'absnext'})
        if s.flags & own != st.flags & own:
            s = s.copy()
            s.flags = (s.flags - own) | (st.flags & own)
        return s

    def loop_fix(self, body, st, key, reset):
        return [(x, self.reflag(s, st)) for x, s in self.loop_fix0(body, st, key, reset)]

    def loop_fix0(self, body, st, key, reset):
        """Summarises a loop. body(state) -> (exits, back-edge states)."""
        exits = []
        cur = [st]
        n = 0
        # phase 1: unroll while the iteration is driven by a finite concrete sequence
        while cur:
            nxt = []
            widen = False
            for s in cur:
                s1 = s.copy()
                s1.flags = s1.flags - {'concnext', 'absnext'}
                e, b = body(s1)
                conc = all('absnext' not in x.flags and ('concnext' in x.flags or self.counts(s, x, st)) for x in b)
                if b and not conc and n < 3 and all(self.chases(s, x, st) for x in b):
                    # walks along references (through nested types, say): the facts bound the depth
                    pass
                elif b and not conc and (e or n >= 2):
                    widen = True
                    break
                exits += e
                nxt += b
            n += 1
            if widen or n > self.UNROLL or len(nxt) > self.MAXPATHS:
                break
            cur = nxt
        else:
            return exits
        # phase 2: fixpoint with widening
        reset()
        lid = self.loop_id(key, st)
        W = st.copy()
        W.flags = W.flags - {'concnext', 'absnext'}
        stable = False
        for it in range(12):
            w_in = W.copy()
            exits, backs = body(W.copy())
            W2 = self.widen(st, W, backs, lid)
            if W2.cells == W.cells and W2.eff == W.eff:
                stable = True
                break
            W = W2
            reset()
        if not stable:
            raise Budget('loop did not stabilise: %s' % (key,))
        self.loops[lid] = {'key': key, 'entry': st, 'W': w_in, 'backs': backs, 'where': self.where()}
        if SINK and backs:
            # every iteration that goes on looked at its character: at the end all of them were
            for (k, t), v in list(backs[0].facts.items()):
                if k == 'B' and v is True and t[0] == 'is_xid_continue' and t[1][0] == 'elem' and all(b.facts.get((k, t)) is True for b in backs):
                    exits = [(x, s.copy()) for x, s in exits]
                    for x, s in exits:
                        if 'absnext' not in s.flags:
                            s.facts[('B', ('allxid', t[1][1]))] = True
        return exits

    def counts(self, s, x, st):
        """Does an iteration move a known number (an index, a counter) on, or shorten a known list?"""
        for c, v in s.cells.items():
            w = x.cells.get(c, v)
            if c not in st.cells or w == v:
                continue
            if v[0] == 'i' and w[0] == 'i' or v[0] in ('s', 'str+', 'chr') and textlen(v) > textlen(w) >= 0:
                return True
            if v[0] == w[0] and v[0] in ('R', 'L'):
                a, b = self.rd(s, v), self.rd(x, w)
                if a[0] == b[0] == 'L' and len(b[1]) < len(a[1]) and not any(self.is_multi(y) for y in a[1]):
                    return True
        return False

    @staticmethod
    def chases(s, x, st):
        """Does an iteration only move references on?"""
        ch = [c for c in st.cells if x.cells.get(c) != s.cells.get(c)]
        refs = [c for c in ch if st.cells[c][0] == 'R' and x.cells.get(c, ' ')[0] == 'R']
        return bool(refs) and x.eff == s.eff and len(refs) == len(ch)

    def widen(self, s0, W, backs, lid):
        out = W.copy()
        out.facts = dict(s0.facts)
        if not backs:
            return out
        for c, w in W.cells.items():
            vals = [b.cells.get(c) for b in backs]
            if any(v is None for v in vals):
                if c[0] in ('S', 'K'):
                    vals = [v if v is not None else self.cellval(State(), c) for v in vals]
                else:
                    if all(v is None for v in vals):
                        continue
                    out.cells.pop(c, None)
                    continue
            nv = self.join(w, vals, lid, (c,))
            if nv != w:
                out.cells[c] = nv
        for b in backs:
            for c, v in b.cells.items():
                if c[0] == 'S' and c not in W.cells:
                    base = self.cellval(State(), c)
                    nv = self.join(base, [x.cells.get(c, base) for x in backs], lid, (c,))
                    if nv != base:
                        out.cells[c] = nv
        effs = [b.eff for b in backs]
        if any(e != W.eff for e in effs):
            base = W.eff
            if base and base[-1] == ('rep', lid, 'eff'):
                pass
            else:
                out.eff = base + (('rep', lid, 'eff'),)
        return out

    def join(self, w, vals, lid, path):
        if all(v == w for v in vals):
            return w
        k = w[0]
        if k in ('L', 'TS') and all(v[0] == k and v[1][:len(w[1])] == w[1] for v in vals):
            rep = ('rep', lid, path)
            if w[1] and w[1][-1] == rep:
                return w
            return (k, w[1] + (rep,))
        if k == 'A' and all(v[0] == 'A' and v[1] == w[1] and v[2] == w[2] and len(v[3]) == len(w[3]) for v in vals):
            return ('A', w[1], w[2], tuple(self.join(f, [v[3][i] for v in vals], lid, path + (i,)) for i, f in enumerate(w[3])))
        if k == 'U' and all(v[0] == 'U' and v[1] == w[1] for v in vals):
            keys = []
            for v in [w] + vals:
                for q, _ in v[2]:
                    if q not in keys:
                        keys.append(q)
            st = State()
            return ('U', w[1], tuple((q, self.join(self.proj1(st, w, q), [self.proj1(st, v, q) for v in vals], lid, path + (q,))) for q in keys))
        if is_sym(w) and w[0] not in ('loopvar', 'U') and all(v == w or v[0] == 'U' and v[1] == w for v in vals):
            return self.join(('U', w, ()), [v if v[0] == 'U' else ('U', w, ()) for v in vals], lid, path)
        if k == 'IT' and all(v[0] == 'IT' and v[1] == w[1] and len(v) == len(w) for v in vals):
            if w[1] == 'seq':
                return ('IT', 'sym', ('L', w[2]), w[4])
            parts = []
            for i, x in enumerate(w):
                xs = [v[i] for v in vals]
                if all(y == x for y in xs):
                    parts.append(x)
                elif isinstance(x, tuple) and x and isinstance(x[0], str):
                    parts.append(self.join(x, xs, lid, path + (i,)))
                else:
                    parts.append(('loopvar', lid, path + (i,)))
            return tuple(parts)
        if k == 'IT' and w[1] == 'sym' and all(v[0] == 'IT' for v in vals):
            return w
        if k == 'IT' and w[1] == 'seq' and all(v[0] == 'IT' for v in vals):
            return ('IT', 'sym', ('L', w[2]), w[4])
        if k == 'R' and all(v[0] == 'R' and v[1] == w[1] for v in vals):
            return ('loopvar', lid, path)
        return ('loopvar', lid, path)

    def suffixes(self, lid, path):
        """What each iteration path of a loop appends: [(state, items)]."""
        rec = self.loops[lid]
        out = []

        def get(st):
            v = st.eff if path == 'eff' else self.cellval(st, path[0])
            if path != 'eff':
                for x in path[1:]:
                    if isinstance(x, int):
                        v = v[3][x] if v[0] == 'A' else v[x]
                    else:
                        v = self.proj1(st, v, x)
                v = v[1]
            return v
        wl = len(get(rec['W']))
        for b in rec['backs']:
            items = get(b)[wl:]
            facts = {(k[0], self.count_elems(lid, b, k[1])): v for k, v in b.facts.items()}
            items = self.count_elems(lid, b, items)
            if facts != b.facts:
                b = b.copy()
                b.facts = facts
            out.append((b, items))
        return out

    def is_counter(self, lv):
        """Does this loop variable count 0, 1, 2, … in every iteration?"""
        rec = self.loops.get(lv[1])
        if not rec or lv[2] == 'eff':
            return False

        def get(st):
            v = st.cells.get(lv[2][0])
            for x in lv[2][1:]:
                if not isinstance(x, int) or v is None:
                    return None
                v = v[3] if v[0] == 'A' else v
                v = v[x] if x < len(v) else None
            return v
        return get(rec['entry']) == ('i', 0) and all(
            get(b) in (('op', 'Add', lv, ('i', 1)), ('op', 'Add', ('i', 1), lv)) for b in rec['backs'])

    def count_elems(self, lid, b, t):
        """coll[i] for a counter i < len(coll) is the element of an iteration over coll."""
        def go(t):
            if not isinstance(t, tuple):
                return t
            if len(t) == 3 and t[0] == 'at' and isinstance(t[2], tuple) and t[2][:2] == ('loopvar', lid) and self.is_counter(t[2]) and (
                    b.facts.get(('B', ('op', 'Lt', t[2], ('len', t[1])))) is True):
                return ('elem', t[1], ('count', lid))
            return tuple(go(x) for x in t)
        return go(t)

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, ci):
        if f[0] != 'F':
            return self.call_value(st, f, args, ci)
        return self.call_fn(st, f[1], args, ci)

    def call_value(self, st, f, args, ci):
        """Calls a callable value with an argument list."""
        n = 0
        while f[0] == 'R':
            f = self.read(st, f[1], f[2])
        if f[0] == 'C':
            fn = self.p.fns[f[1]]
            env = self.stack[-1].tenv if self.stack else {}
            first = fn['locals'][1][0]
            selfv = f
            outs = None
            if self.p.types[first]['k'] == 'ref':
                # closure called by reference: give it a cell of its own
                cell = ('clo', f[1], len(self.stack))
                s = st.copy()
                s.cells[cell] = f
                outs = self.run_fn(fn, [('R', cell, ())] + list(args), s, env)
                for s2, _ in outs:
                    s2.cells.pop(cell, None)
                return outs
            return self.run_fn(fn, [f] + list(args), st, env)
        if f[0] == 'F':
            return self.call_fn(st, f[1], args, FnInfo(self, f[1], ci) if f[1].sig else ci)
        if f[0] == 'P':
            from . import nomodel
            return nomodel.apply(self, st, f, args[0], ci)
        return self.opaque_call(st, 'call_value', [f] + list(args), ci)

    def call_place(self, st, ref, args, ci):
        """Calls a callable behind a reference, keeping changes to captured state."""
        f = ref
        if ref[0] == 'R':
            v = self.read(st, ref[1], ref[2])
            if v[0] == 'R':
                return self.call_place(st, v, args, ci)
            if v[0] == 'C':
                fn = self.p.fns[v[1]]
                env = self.stack[-1].tenv if self.stack else {}
                if self.p.types[fn['locals'][1][0]]['k'] == 'ref':
                    return self.run_fn(fn, [ref] + list(args), st, env)
            f = v
        return self.call_value(st, f, args, ci)

    def call_fn(self, st, fr, args, ci):
        """fr: FnRef"""
        if fr.ctor:
            adt, vname = fr.ctor
            if adt == 'alloc::borrow::Cow':
                return [(st, args[0])]
            return [(st, ('A', adt, self.p.vidx(adt, vname), tuple(args)))]
        fn = self.resolve(st, fr, args)
        if fn is not None and fn['kind'] == 'Closure' and len(args) == 2:
            # a closure called through Fn::call: the arguments are in a tuple
            t = args[1]
            if t[0] == 'A' and t[1] == '()' and len(t[3]) == fn['argc'] - 1 and len(t[3]) != 1 or t[0] == 'A' and t[1] == '()' and fn['argc'] == 2 and len(t[3]) == 1:
                args = [args[0]] + list(t[3])
        if fn is not None:
            h = self.handlers.get(fn['key'])
            if h is None and fn['kind'] != 'Closure':
                h = self.handlers.get(norm(fn['path']))
            if h is not None:
                r = h(self, st, args, ci, fn, fr)
                if r is not None:
                    return r
            # instances of a generic function (e.g. one helper for all levels of a grammar) are functions of their own
            tenv = {}
            gens = fn.get('gen', [])
            a = fr.ra if fr.ra is not None and fr.rpath == fn['path'] else fr.a
            if len(gens) == len(a):
                tenv = dict(zip(gens, a))
            if sum(x.fn is fn and (x.tenv == tenv or not x.tenv) for x in self.stack) > self.reclimit(fn) or self.opaque(fn):
                return self.opaque_call(st, fn['key'], args, ci, fn)
            m = self.models.get('local:' + fn['key'])
            if m:
                return m(self, st, args, ci)
            if fn.get('derived') and fn['name'] == 'clone':
                return [(st, self.rd(st, args[0]))]
            if fn.get('derived') and fn['name'] in ('eq', 'ne'):
                return self.models['core::cmp::PartialEq::' + fn['name']](self, st, args, ci)
            return self.run_fn(fn, args, st, tenv)
        name = fr.name
        h = self.handlers.get(name)
        if h is not None:
            r = h(self, st, args, ci, None, fr)
            if r is not None:
                return r
        m = self.models.get(name)
        if m is None and fr.rname:
            m = self.models.get(fr.rname)
        if m is not None:
            r = m(self, st, args, ci)
            if r is not None:
                return r
        if fr.of_ctor_like:
            pass
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        r = self.opaque_call(st, name, args, ci)
        self.queries.update((name, tuple(self.snap(st, x) for x in args[1:])) for _ in r[:1])
        return r

    def reclimit(self, fn):
        """Recursive predicates over types are followed a few levels; other recursion is opaque."""
        if fn['key'] in self.RECURSE:
            return self.RECURSE[fn['key']]
        if fn['argc'] == 1 and fn['kind'] != 'Closure':
            t = self.p.types[fn['locals'][0][0]]
            if t['k'] == 'bool' and (self.p.adt_of(fn['locals'][1][0]) or '').endswith('::Type'):
                return 2
            if t['k'] == 'bool' and (self.p.adt_of(fn['locals'][1][0]) or '').endswith('::Expr'):
                return 1
        return 0

    def resolve(self, st, fr, args):
        if fr.rpath and fr.rpath in self.p.fns:
            return self.p.fns[fr.rpath]
        if fr.trait is None:
            return self.p.fns.get(fr.path)
        # dispatch on the (substituted) self type or on the run-time constructor
        cands = self.p.impls.get((fr.trait, fr.method), [])
        if not cands and fr.path not in self.p.fns:
            return None
        tgt = None
        if fr.a:
            tgt = self.adt_strict(fr.a[0])
        if tgt is None and args:
            v = self.rd(st, args[0])
            if v[0] == 'A' and v[1] in self.p.adts and self.p.adts[v[1]]['local']:
                tgt = v[1]
        if tgt is not None:
            ms = [f for f in cands if self.adt_strict(f['self_ty']) == tgt]
            if len(ms) > 1:
                ms2 = [f for f in ms if all(self.unify(x, y) for x, y in zip(f['targs'], fr.a))]
                ms = ms2 or ms
            if len(ms) == 1:
                return ms[0]
        if cands and fr.a and self.p.types[fr.a[0]]['k'] == 'ref':
            ms = [f for f in cands if f.get('self_ty') is not None and self.p.types[f['self_ty']]['k'] == 'ref']
            if len(ms) == 1 and tgt is None:
                return None
        return None

    def adt_strict(self, ti):
        t = self.p.types[ti]
        return norm(t['p']) if t['k'] == 'adt' else None

    def unify(self, x, y):
        tx, ty = self.p.types[x], self.p.types[y]
        if tx['k'] == 'param' or ty['k'] in ('param', 'alias'):
            return True
        if tx['k'] != ty['k']:
            return False
        if tx['k'] == 'adt':
            return tx['p'] == ty['p'] and all(self.unify(p, q) for p, q in zip(tx['a'], ty['a']))
        if tx['k'] in ('ref', 'slice'):
            return self.unify(tx['t'], ty['t'])
        if tx['k'] == 'num':
            return tx['n'] == ty['n']
        return True

    def opaque_call(self, st, name, args, ci, fn=None):
        """Result is an uninterpreted term over the argument values; &mut arguments are havocked."""
        st = st.copy()
        snaps = tuple(self.snap(st, a) for a in args)
        t = ('call', name) + snaps
        mut = []
        for i, a in enumerate(args):
            if a[0] == 'R' and ci is not None and ci.arg_mut(i) and not (a[1][0] == 'in' and a[1][1].startswith('@')):
                mut.append((i, a))
        if mut:
            st.add_eff(('call', name) + snaps)
            for i, a in mut:
                self.write(st, a[1], a[2], ('mut', name, i, snaps))
        elif ci is not None and any(ci.arg_mut(i) for i in range(len(args))):
            st.add_eff(('call', name) + snaps)
        return [(st, t)]


class CallInfo:
    __slots__ = ('e', 'fr', 'b', 't')

    def __init__(self, e, fr, b, t):
        self.e, self.fr, self.b, self.t = e, fr, b, t

    def arg_mut(self, i):
        at = self.t['at']
        if i >= len(at):
            return False
        t = self.e.p.types[at[i]]
        return t['k'] == 'ref' and t['m']

    @property
    def site(self):
        return (self.fr.fn['path'], self.b)

    def arg_ty(self, i):
        return self.e.subst_ty(self.t['at'][i], self.fr.tenv)

    @property
    def ret_ty(self):
        return self.e.subst_ty(self.t['dt'], self.fr.tenv)

    @property
    def fnd(self):
        return self.t['f'].get('fn')

    @property
    def sp(self):
        return self.t.get('sp')


class FnInfo:
    """Stands for the call site when a function is called through a value."""

    def __init__(self, e, ref, outer):
        self.e, self.ref, self.outer = e, ref, outer
        self.fr = getattr(outer, 'fr', None) or (e.stack[-1] if e.stack else None)
        self.b = getattr(outer, 'b', None)
        self.t = {'at': ref.sig[:-1], 'dt': ref.sig[-1], 'f': {}}
        self.site = (outer.site if outer is not None else (self.fr.fn['path'] if self.fr else '', None)) + (ref.name,)
        self.ret_ty = ref.sig[-1]
        self.fnd = None
        self.sp = getattr(outer, 'sp', None)

    def arg_ty(self, i):
        return self.ref.sig[i]

    def arg_mut(self, i):
        if i >= len(self.ref.sig) - 1:
            return False
        t = self.e.p.types[self.ref.sig[i]]
        return t['k'] == 'ref' and t['m']


class FnRef:
    """A function item (hashable, interned)."""
    _tab = {}

    def __init__(self, path, a, f):
        self.path = path
        self.a = a
        self.name = norm(path)
        self.rpath = f.get('rp') or (path if f.get('rl') else None)
        self.rname = norm(f['rp']) if f.get('rp') else None
        self.trait = norm(f['trait']) if 'trait' in f else None
        self.method = f.get('m')
        self.ra = None
        self.local = f.get('rl') or f.get('l')
        self.ctor = (norm(f['cadt']), f['cvar']) if 'ctor' in f else None
        self.of_ctor_like = False
        self.krate = f.get('kr')
        self.sig = None

    @classmethod
    def get(cls, eng, f, tenv):
        a = tuple(eng.subst_ty(x, tenv) for x in f['a'])
        key = (id(eng.p), f['p'], a, f.get('rp'), f.get('rl'))
        r = cls._tab.get(key)
        if r is None:
            r = cls(f['p'], a, f)
            if 'ra' in f:
                r.ra = tuple(eng.subst_ty(x, tenv) for x in f['ra'])
            elif f.get('rl'):
                r.ra = a
            if 'sig' in f:
                r.sig = tuple(eng.subst_ty(x, tenv) for x in f['sig'])
            cls._tab[key] = r
        return r

    def __repr__(self):
        return 'fn:' + self.name
