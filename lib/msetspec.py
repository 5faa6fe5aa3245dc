"""Specifications of the functions of the macro set.

Every function is interpreted abstractly on lists of symbolic tokens (their kinds, texts and the
macro set are unknown); the functions it calls are symbols.  Each outcome is compared, in every case
its path condition leaves open, with the specification of the function below."""
import itertools
from .engine import State, Engine, OPT, RES, is_sym, NONE, some, tup
from .gen import F
from .spec import World, Fork, Impossible, worlds
from .framework import MissingAnchor

MS = 'macro_set::'
SELF = ('in', 'self')
NAMES = ('in', 'names')
OPAQUE = ('MacroSet::collect_args', 'MacroSet::expand_fn_macro_body', 'MacroSet::expand_var_macro_body', 'MacroSet::expand_macro_body',
          'MacroSet::expand_arguments', 'MacroSet::expand_concat', MS + 'tokenize', MS + 'tokenize_arg_names', MS + 'detokenize', MS + 'stringify',
          'Token::concat', 'Token::from_str')


class Mismatch(Exception):
    def __init__(self, aspect, msg):
        self.aspect, self.msg = aspect, msg


def toks(prefix, n):
    return ('L', tuple(('in', '%s%d' % (prefix, i)) for i in range(n)))


def eta(t):
    """A value rebuilt from all fields of a value is that value."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == 'A' and t[1] not in ('()', OPT, RES) and t[3]:
        fs = tuple(eta(x) for x in t[3])
        x = fs[0]
        if isinstance(x, tuple) and len(x) == 4 and x[0] == 'fld' and all(isinstance(y, tuple) and len(y) == 4 and y[0] == 'fld' and y[1] == x[1] and y[2] == x[2] for y in fs):
            return ('A?', t[1], t[2], fs, x[1])
        return ('A', t[1], t[2], fs)
    return tuple(eta(x) for x in t)


def strip_eta(p, t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 5 and t[0] == 'A?':
        v = p.variants(t[1])[t[2]]
        fs = tuple(strip_eta(p, x) for x in t[3])
        base = strip_eta(p, t[4])
        name = None if p.adts[t[1]].get('kind') == 'struct' else v['name']
        if len(fs) == len(v['fields']) and all(f == ('fld', base, name, d['name']) for f, d in zip(fs, v['fields'])):
            return base
        return ('A', t[1], t[2], fs)
    return tuple(strip_eta(p, x) for x in t)


class MW(World):
    def __init__(self, c, E, st):
        World.__init__(self, E, st)
        self.c = c
        self.T = c.adt('Token')
        self.P = c.adt('Punctuation')

    def norm(self, t):
        return strip_eta(self.p, eta(t))

    # -- vocabulary
    def kind(self, t):
        return self.tag(t, self.T)

    def tok(self, name, *fields):
        return ('A', self.T, self.p.vidx(self.T, name), tuple(fields))

    def sfld(self, t, name, i=0):
        """The field of a structure, possibly one with some fields written."""
        return self.E.proj1(self.st, t, ('f', None, i, name)) if t[0] == 'U' else self.fld(t, None, name)

    def payload(self, t, variant, field='0'):
        return self.fld(t, variant, field)

    def ident(self, t):
        return self.fld(self.fld(t, 'Identifier', '0'), None, 'id')

    def punct_text(self, t):
        return self.fld(self.fld(t, 'Punctuation', '0'), None, 'punctuation')

    def is_punct(self, t, *texts):
        """the text of a punctuation token among `texts`, or None"""
        if self.kind(t) != 'Punctuation':
            return None
        x = self.punct_text(t)
        if x[0] == 's':
            return x[1] if x[1] in texts else None
        for s in texts:
            if self.streq(x, s):
                return s
        return None

    def punct(self, s):
        return self.tok('Punctuation', ('A', self.P, 0, (('s', s),)))

    def call(self, name, *args):
        """The symbol of a call, as the code made it if it did."""
        t = ('call', name) + tuple(args)
        n = self.norm(t)
        if n == t:
            pass
        for k, x in self.st.facts:
            if k == 'V' and isinstance(x, tuple) and x[:2] == t[:2] and self.norm(x) == n:
                return x
        return t

    def ok(self, v):
        return ('A', RES, 0, (v,))

    def err(self, v):
        return ('A', RES, 1, (v,))

    def error(self, name, *fields):
        a = self.c.adt('ExpansionError')
        return self.err(('A', a, self.p.vidx(a, name), tuple(fields)))

    def fail(self, t):
        return self.err(('fld', t, 'Err', '0'))

    def val(self, t):
        return ('fld', t, 'Ok', '0')

    # -- comparison
    def eqv(self, a, b):
        a, b = self.norm(a), self.norm(b)
        return self._eq(a, b)

    def _eq(self, a, b):
        if a == b:
            return True
        if a[0] != 'A' and b[0] == 'A':
            a, b = b, a
        if a[0] == 'A':
            if b[0] == 'A':
                return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self._eq(x, y) for x, y in zip(a[3], b[3]))
            if is_sym(b) and a[1] in self.p.adts:
                if b[0] != 'U' and self.idx(b, a[1]) != a[2]:
                    return False
                v = self.p.variants(a[1])[a[2]]
                st = self.p.adts[a[1]].get('kind') == 'struct'
                return all(self._eq(x, self.E.proj1(self.st, b, ('f', None if st else v['name'], i, f['name']))) for i, (x, f) in enumerate(zip(a[3], v['fields'])))
        if a[0] == 'L' and b[0] == 'L':
            return len(a[1]) == len(b[1]) and all(self._eq(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'call' and b[0] == 'call' and a[1] == b[1] and len(a) == len(b):
            return all(self._eq(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[2:], b[2:]))
        if a[0] == 's' and b[0] == 's' or a[0] == 'i' and b[0] == 'i':
            return False
        if a[0] == 's' or b[0] == 's':
            r = self.E.eq(self.st, a, b)
            return bool(r) and all(self.E.eval_bool(s, t) is True for s, t in r)
        return False


def callee(c, key):
    try:
        return c.fn(key)
    except MissingAnchor:
        return c.fn(key.split('::')[-1])


class Runner:
    """Runs a function of the macro set and compares all outcomes with its specification."""

    def __init__(self, c, aspects=None, maxpaths=4096):
        self.c = c
        self.aspects = None if aspects is None else frozenset(aspects)
        self.cases = 0
        self.panics = []
        self.maxpaths = maxpaths

    def opaque(self, fn, inline, also=None):
        names = set(OPAQUE) - set(inline)

        def opq(f):
            if also is not None and also(f):
                return True
            return f is not fn and f['kind'] != 'Closure' and f['path'].startswith('macro_set') and f['key'] in names
        return opq

    def run(self, key, args, spec, what, inline=(), st=None, handlers=None, known=None, classify=None, limit=200000, also=None):
        c = self.c
        fn = c.fn(key)
        if fn['argc'] != len(args):
            raise MissingAnchor('%s takes %d arguments instead of %d' % (key, fn['argc'], len(args)))
        old, Engine.MAXPATHS, Engine.RECURSE = Engine.MAXPATHS, self.maxpaths, {'Token::stringify': 1, 'Token::concat': 2}
        try:
            E, R, outs = c.run(fn, args, st or State(), handlers or {}, opaque=self.opaque(fn, inline, also), known=known)
        finally:
            Engine.MAXPATHS, Engine.RECURSE = old, {}
        where = c.where(fn)
        c.ob('%s: has outcomes' % what, bool(outs) or self.aspects is not None, 'no outcome', where)
        for s, v in outs:
            v = E.snap(s, v)
            for w, res in worlds(E, s, lambda w0: self.compare(E, w0, v, spec, classify), limit):
                self.cases += 1
                ok, aspects, want = res
                if not ok and (E.loops and "'loopvar'" in repr(v) + repr(w.st.facts) or "'rep'" in repr(v)):
                    c.undecided.append((what, 'the code has a form the analysis cannot follow in %s' % key))
                    continue
                if not ok and 'unclear' in aspects:
                    c.undecided.append((what, 'the result has a form the analysis does not know in %s' % key))
                    continue
                if not ok and self.aspects is not None and aspects and not aspects & self.aspects:
                    continue
                c.ob(what, ok, '' if ok else 'gives %s\n    instead of %s\n    when %s' % (R.v(v), want if isinstance(want, str) else R.v(want), R.facts(w.st)), where)
        for pn in E.panics:
            self.panics.append((key, pn))
        return E, R, outs

    def compare(self, E, w0, v, spec, classify):
        """-> (as specified?, aspects of a difference, what is specified)"""
        w = MW(self.c, E, w0.st)
        try:
            want = spec(w, v)
        except Mismatch as m:
            return False, frozenset([m.aspect] if m.aspect else []), m.msg
        if want is True:
            return True, frozenset(), None
        if want is AnyErr:
            return is_err(v), frozenset(['accepts']), 'an error'
        if w.eqv(v, want):
            return True, frozenset(), None
        asp = set(classify(w, v, want) if classify else ())
        if is_err(want) and want[3][0][0] == 'fld' and want[3][0][2] == 'Err':
            asp.add('error')
        elif is_err(v) and not is_err(want):
            asp |= {'rejects', 'error'}
        return False, frozenset(asp), want


# ------------------------------------------------------------------ collecting arguments

def collect(w, body):
    """(arguments, number of tokens used) of an invocation whose tokens start with `(`, or None."""
    if not body or not w.is_punct(body[0], '('):
        return None
    stack, args, cur = [], [], []
    for i, t in enumerate(body[1:], 1):
        if w.kind(t) == 'Punctuation':
            p = w.is_punct(t, '(', ')', '[', ']', '{', '}', ',')
            if p in ('(', '[', '{'):
                stack.append(p)
            elif p == ')' and not stack:
                return args + [('L', tuple(cur))], i + 1
            elif p in (')', ']', '}'):
                if not stack or stack.pop() != {')': '(', ']': '[', '}': '{'}[p]:
                    return None
            elif p == ',' and not stack:
                args.append(('L', tuple(cur)))
                cur = []
                continue
        cur.append(t)
    return None


# ------------------------------------------------------------------ rescanning

def s_expand_macro_body(body, args_of_call=None):
    body = list(body)

    def spec(w, v):
        out = []
        i = 0
        while i < len(body):
            t = body[i]
            i += 1
            if w.kind(t) != 'Identifier':
                out.append(t)
                continue
            id = w.ident(t)
            if w.truth(('contains', NAMES, id)):
                out.append(w.tok('NonReplacable', t))
                continue
            if i < len(body) and w.is_punct(body[i], '('):
                m = ('mapget', F(SELF, 'fn_macros'), id)
                if w.opt(m) is not None:
                    r = collect(w, body[i:])
                    if r is not None:
                        g = ('fld', m, 'Some', '0')
                        an = w.call(MS + 'tokenize_arg_names', ('fld', g, None, '0'))
                        if not w.is_ok(an):
                            return w.fail(an)
                        b = w.call(MS + 'tokenize', w.val(an), ('fld', g, None, '1'))
                        x = w.call('MacroSet::expand_fn_macro_body', SELF, NAMES, id, w.val(an), some(('L', tuple(r[0]))), b)
                        if not w.is_ok(x):
                            return w.fail(x)
                        return w.call('MacroSet::expand_macro_body', SELF, NAMES, ('L', tuple(out) + (('splat', w.val(x)),) + tuple(body[i + r[1]:])))
            m = ('mapget', F(SELF, 'var_macros'), id)
            if w.opt(m) is not None:
                b = w.call(MS + 'tokenize', ('L', ()), ('fld', m, 'Some', '0'))
                x = w.call('MacroSet::expand_var_macro_body', SELF, NAMES, id, b)
                if not w.is_ok(x):
                    return w.fail(x)
                return w.call('MacroSet::expand_macro_body', SELF, NAMES, ('L', tuple(out) + (('splat', w.val(x)),) + tuple(body[i:])))
            out.append(t)
        return w.ok(('L', tuple(out)))
    return spec


def check_expand_macro_body(r, n):
    for k in range(n + 1):
        b = toks('t', k)
        r.run('MacroSet::expand_macro_body', [SELF, NAMES, b], s_expand_macro_body(b[1]), 'rescanning %d tokens' % k, inline=('MacroSet::collect_args',))


# ------------------------------------------------------------------ replacement lists

class AnyErr:
    """Some error is demanded, whichever."""


def is_err(v):
    return v[0] == 'A' and v[1] == RES and v[2] == 1


def list_handler(key, prefix, n):
    """The callee succeeds with a list of n unknown tokens, or fails."""
    def h(E, st, args, ci, fn, fr):
        t = ('call', key) + tuple(E.snap(st, a) for a in args)
        out = []
        for s, i in E.fork_variant(st, t, RES):
            out.append((s, ('A', RES, 0, (toks(prefix, n),)) if i == 0 else ('A', RES, 1, (('fld', t, 'Err', '0'),))))
        return out
    return h


def filtered(w, items):
    return ('L', tuple(t for t in items if w.kind(t) != 'Placemarker'))


def has_var_args(w, body):
    return any(w.kind(t) == 'VarArgs' for t in body)


def s_expand_var_macro_body(name, body, conc):
    def spec(w, v):
        if has_var_args(w, body):
            return AnyErr
        ec = w.call('MacroSet::expand_concat', ('L', tuple(body)))
        if not w.is_ok(ec):
            return w.fail(ec)
        return w.call('MacroSet::expand_macro_body', SELF, ('setins', NAMES, name), filtered(w, conc))
    return spec


def is_comment(w, t):
    return w.kind(t) == 'Comment'


def is_empty(w, toks):
    return all(is_comment(w, t) for t in toks)


def s_expand_fn_macro_body(name, params, args, body, ea, conc):
    def spec(w, v):
        ps = [p for p in params if not is_comment(w, p)]
        variadic = bool(ps) and w.is_punct(ps[-1], '...') is not None
        if not variadic and has_var_args(w, body):
            return AnyErr
        if args is not None:
            if variadic:
                if len(args) < len(ps) - 1:
                    return AnyErr
            elif len(args) != len(ps) and not (not ps and len(args) == 1 and is_empty(w, args[0][1])):
                return AnyErr
        texts = []
        for p in ps:
            k = w.kind(p)
            x = w.ident(p) if k == 'Identifier' else w.punct_text(p) if k == 'Punctuation' else None
            if x is not None:
                for y in texts:
                    for s, t in [w.E.eq(w.st, y, x)[0]]:
                        if w.truth(t):
                            return AnyErr
                texts.append(x)
        b = ('L', tuple(body))
        if args is not None:
            x = w.call('MacroSet::expand_arguments', SELF, NAMES, ('L', tuple(ps)), ('L', tuple(args)), b)
            if not w.is_ok(x):
                return w.fail(x)
            b = ea
        x = w.call('MacroSet::expand_concat', b)
        if not w.is_ok(x):
            return w.fail(x)
        return w.call('MacroSet::expand_macro_body', SELF, ('setins', NAMES, name), filtered(w, conc))
    return spec


def s_tokenize_arg_names(names):
    def spec(w, v):
        out, variadic = [], False
        for s in names:
            t = ('call', 'Token::from_str', s)
            k = w.kind(t)
            if k == 'Identifier':
                if variadic:
                    return AnyErr
                for o in out:
                    if w.kind(o) == 'Identifier' and w.truth(w.E.eq(w.st, w.ident(o), w.ident(t))[0][1]):
                        return AnyErr
            elif k == 'Punctuation':
                if w.is_punct(t, '...') is None or variadic:
                    return AnyErr
                variadic = True
            elif k != 'Comment':
                return AnyErr
            out.append(t)
        return w.ok(('L', tuple(out)))
    return spec


def s_tokenize(params, strings):
    def spec(w, v):
        ids = [p for p in params if w.kind(p) in ('Identifier', 'Punctuation')]
        out = []
        for s in strings:
            hit = None
            for i, p in enumerate(ids):
                if w.kind(p) == 'Identifier' and w.truth(w.E.eq(w.st, w.ident(p), s)[0][1]):
                    hit = i
                    break
            out.append(('call', 'Token::from_str', s) if hit is None else w.tok('MacroArg', ('i', hit)))
        return ('L', tuple(out))
    return spec


# ------------------------------------------------------------------ arguments

def arg_shapes(c, n, nargs, variadic):
    """All lists of n tokens in which every token is a certain parameter, or no parameter."""
    T = c.adt('Token')
    ma, va = c.p.vidx(T, 'MacroArg'), c.p.vidx(T, 'VarArgs')
    opts = [('t', None)] + [('m', i) for i in range(nargs)] + ([('v', None)] if variadic else [])
    for combo in itertools.product(opts, repeat=n):
        items, st = [], State()
        for i, (k, x) in enumerate(combo):
            if k == 't':
                t = ('in', 't%d' % i)
                st.facts[('V', t)] = frozenset(j for j in range(len(c.p.variants(T))) if j not in (ma, va))
            elif k == 'm':
                t = ('A', T, ma, (('i', x),))
            else:
                t = ('A', T, va, ())
            items.append(t)
        yield combo, items, st


def token_of(t, i):
    return ('call', 'token', t, ('i', i))


def result_list(c, key, n, fallible, bools=(), nocomment=False):
    """The callee gives a list of n unknown tokens, none of which is `##` (or fails)."""
    T = c.adt('Token')

    def h(E, st, args, ci, fn, fr):
        work = [(st, [E.snap(st, a) for a in args])]
        for b in bools:
            work = [(s2, a[:b] + [('i', int(bv))] + a[b + 1:]) for s, a in work for s2, bv in E.fork_bool(s, a[b])]
        out = []
        for s, a in work:
            t = ('call', key) + tuple(a)
            s = s.copy()
            items = []
            for i in range(n):
                x = token_of(t, i)
                items.append(x)
                s.facts[('T', F(x, 'Punctuation.0', 'punctuation'))] = ('not', frozenset(['##']))
                if nocomment:
                    s.facts[('V', x)] = frozenset(j for j, v in enumerate(c.p.variants(T)) if v['name'] != 'Comment')
            if not fallible:
                out.append((s, ('L', tuple(items))))
                continue
            for s2, k in E.fork_variant(s, t, RES):
                out.append((s2, ('A', RES, 0, (('L', tuple(items)),)) if k == 0 else ('A', RES, 1, (('fld', t, 'Err', '0'),))))
        return out
    return h


def is_param(w, t):
    return w.kind(t) in ('MacroArg', 'VarArgs')


def s_expand_arguments(params, args, body, nexp, nstr):
    """Operands of `#` are stringified and operands of `##` inserted as they are (an empty one as a
    placemarker); every other parameter is replaced by its expanded argument; `#` and `##` in
    an argument are not operators."""
    n = len(body)

    def spec(w, v):
        out = []
        i = 0
        prev = None             # the last token of the body that is no comment
        stringified = False
        while i < n:
            t = body[i]
            i += 1
            if w.is_punct(t, '#'):
                while i < n and is_comment(w, body[i]):
                    i += 1
                if i == n or not is_param(w, body[i]):
                    return AnyErr
                stringified = True
                continue
            if not is_param(w, t):
                out.append(t)
                if not is_comment(w, t):
                    prev = t
                continue
            if w.kind(t) == 'MacroArg':
                arg = list(args[w.fld(t, 'MacroArg', '0')[1]])
            else:
                arg = []
                for j, a in enumerate(args[len(params) - 1:]):
                    arg += ([w.punct(',')] if j else []) + list(a)
            arg = [w.tok('NonReplacable', a) if w.is_punct(a, '#', '##') else a for a in arg]
            rest = [x for x in body[i:] if not is_comment(w, x)]
            if stringified:
                x = ('call', MS + 'stringify', ('L', tuple(arg)), ('i', int(w.truth(w.E.mkcmp(w.st, 'Gt', ('len', NAMES), ('i', 1))))))
                out += [token_of(x, j) for j in range(nstr)]
            elif prev is not None and w.is_punct(prev, '##') or rest and w.is_punct(rest[0], '##'):
                out += [w.tok('Placemarker')] if is_empty(w, arg) else arg
            else:
                x = w.call('MacroSet::expand_macro_body', SELF, NAMES, ('L', tuple(arg)))
                if not w.is_ok(x):
                    return w.fail(x)
                out += [token_of(x, j) for j in range(nexp)]
            prev = t
            stringified = False
        return w.ok(('L', tuple(out)))
    return spec


def check_expand_arguments(r, n, arity, argn, nexp, nstr, variadic=False):
    """All bodies of n tokens; argn: the number of tokens in each argument."""
    c = r.c
    h = {'MacroSet::expand_macro_body': result_list(c, 'MacroSet::expand_macro_body', nexp, True),
         MS + 'stringify': result_list(c, MS + 'stringify', nstr, False, (1,), True)}
    args = [toks('a%d_' % i, k) for i, k in enumerate(argn)]
    for combo, items, st in arg_shapes(c, n, arity - variadic, variadic):
        if not any(k != 't' for k, _ in combo) and n > 1:
            continue
        r.run('MacroSet::expand_arguments', [SELF, NAMES, toks('p', arity), ('L', tuple(args)), ('L', tuple(items))],
              s_expand_arguments(['p'] * arity, [a[1] for a in args], items, nexp, nstr), 'substituting arguments', st=st, handlers=h)


# ------------------------------------------------------------------ ##

def concat_handler(c):
    """`Token::concat` gives a token that is neither a parameter, nor a comment, nor `##`, or fails."""
    T = c.adt('Token')
    kinds = frozenset(j for j, v in enumerate(c.p.variants(T)) if v['name'] not in ('Comment', 'MacroArg', 'VarArgs'))

    def h(E, st, args, ci, fn, fr):
        t = ('call', 'Token::concat') + tuple(E.snap(st, a) for a in args)
        out = []
        for s, k in E.fork_variant(st, t, RES):
            if k == 0:
                s = s.copy()
                x = ('fld', t, 'Ok', '0')
                s.facts[('V', x)] = kinds
                s.facts[('T', F(x, 'Punctuation.0', 'punctuation'))] = ('not', frozenset(['##']))
                out.append((s, ('A', RES, 0, (x,))))
            else:
                out.append((s, ('A', RES, 1, (('fld', t, 'Err', '0'),))))
        return out
    return h


def s_expand_concat(body):
    """The operands of `##` (the closest tokens that are no comments) are joined, from left to
    right; joins with a parameter are left for later; `##` needs both operands."""
    def spec(w, v):
        out = []
        i, n = 0, len(body)
        while i < n:
            t = body[i]
            i += 1
            if not w.is_punct(t, '##'):
                out.append(t)
                continue
            while out and is_comment(w, out[-1]):
                out.pop()
            if not out:
                return AnyErr
            lhs = out.pop()
            if i < n and w.is_punct(body[i], '##'):
                rhs = w.tok('Placemarker')          # several ## are one
            else:
                while i < n and is_comment(w, body[i]):
                    i += 1
                if i == n:
                    return AnyErr
                rhs = body[i]
                i += 1
            if is_param(w, lhs) or is_param(w, rhs):
                out += [lhs, t, rhs]
                continue
            x = w.call('Token::concat', lhs, rhs)
            if not w.is_ok(x):
                return AnyErr
            out.append(w.val(x))
        return w.ok(('L', tuple(out)))
    return spec


def check_expand_concat(r, n):
    b = toks('t', n)
    r.run('MacroSet::expand_concat', [b], s_expand_concat(b[1]), 'joining in a body of %d tokens' % n, handlers={'Token::concat': concat_handler(r.c)})


# ------------------------------------------------------------------ #

NESTED = ('in', 'nested')


def s_stringify(body):
    """One string with the spelling of all tokens in order; what only gets its value later (a
    parameter, and in a nested macro `__LINE__` and `__FILE__`) stays an operand of `#` between them."""
    from .models import catstr

    def text(w, t):
        k = w.kind(t)
        if k == 'NonReplacable':
            return text(w, w.payload(t, k))
        if k in ('Comment', 'Placemarker'):
            return None
        if k == 'MacroArg':
            return 'keep'
        if k == 'VarArgs':
            return 'keep' if w.truth(NESTED) else ('s', '__VA_ARGS__')
        if k == 'Identifier':
            x = w.ident(t)
            if any(w.streq(x, s) for s in ('__LINE__', '__FILE__')) and w.truth(NESTED):
                return 'keep'
            return x
        if k == 'IdentifierContinue':
            return w.fld(w.payload(t, k), None, 'id_cont')
        if k == 'Punctuation':
            return w.punct_text(t)
        if k == 'Literal':
            return w.payload(t, k, '1')
        if k == 'Plain':
            return w.payload(t, k)
        raise Mismatch(None, 'unknown kind of token')

    def spec(w, v):
        out, cur, space = [], None, False

        def flush():
            if cur is not None:
                out.append(cur)
        for t in body:
            x = text(w, t)
            if x is None:
                continue
            if x == 'keep':
                if space:
                    cur = catstr(cur or ('s', ''), ('s', ' '))
                flush()
                out.append(('keep', t))
                cur, space = None, True
                continue
            one = {s: w.streq(x, s) for s in '()[]{}.,'}
            if space and not any(one.values()):
                cur = catstr(cur or ('s', ''), ('s', ' '))
            elif space and (one['['] or one['{']):
                cur = catstr(cur or ('s', ''), ('s', ' '))
            space = not any(one[s] for s in '([{.')
            cur = catstr(cur or ('s', ''), x)
        flush()
        return out or [('s', '')]
    return spec


def compare_stringified(w, v, want):
    """None or what is wrong; raises Impossible-free judgement 'unclear' for unknown spellings"""
    if v[0] != 'L':
        return 'unclear'
    items = list(v[1])
    got = []
    L = w.c.adt('Lit')
    for t in items:
        if t[0] == 'A' and t[1] == w.T and t[2] == w.p.vidx(w.T, 'Literal'):
            lit, spelling = t[3]
            if lit[0] != 'A' or lit[2] != w.p.vidx(L, 'String'):
                return 'not a string literal'
            s = lit[3][0]
            if s[0] != 'A' or w.p.variants(s[1])[s[2]]['name'] != 'Ordinary':
                return 'not an ordinary string literal'
            b = s[3][0]
            x = b[1] if b[0] == 'bytes_of' else ('s', bytes(b[1]).decode()) if b[0] == 'b' else ('s', '') if b == ('L', ()) else None
            if x is None:
                return 'unclear'
            if spelling in (x, ('str+', x)):
                return 'the spelling of the literal has no quotes'
            if spelling not in (('str+', ('new_debug', x)), ('new_debug', x)) and not (x == ('s', '') and spelling == ('s', '""')):
                return 'unclear'
            got.append(x)
        else:
            got.append(t)
    i = 0
    for x in want:
        if x[0] == 'keep':
            if i + 1 >= len(got) or w.is_punct(got[i], '#') is None or not w.eqv(got[i + 1], x[1]):
                return 'a token that gets its value later is not an operand of # in its place'
            i += 2
            continue
        if i >= len(got):
            return 'a string is missing'
        norm = lambda y: y[1:] if y[0] == 'str+' else (y,)
        if norm(w.norm(got[i])) != norm(w.norm(x)):
            return 'a string differs'
        i += 1
    return None if i == len(got) else 'there is something more'


def check_stringify(r, n, kinds):
    """n tokens, each of any of `kinds`."""
    c = r.c
    T = c.adt('Token')
    for combo in itertools.product(kinds, repeat=n):
        st = State()
        b = []
        for t, k in zip(toks('t', n)[1], combo):
            st.facts[('V', t)] = frozenset([c.p.vidx(T, k.lstrip('!'))])
            b.append(('A', T, c.p.vidx(T, 'NonReplacable'), (t,)) if k[0] == '!' else t)
        b = ('L', tuple(b))
        spec = s_stringify(b[1])

        def full(w, v):
            want = spec(w, v)
            m = compare_stringified(w, v, want)
            if m == 'unclear':
                raise Mismatch('unclear', 'unclear')
            if m is not None:
                raise Mismatch(None, '%s: %s' % (m, want))
            return True
        r.run(MS + 'stringify', [b, NESTED], full, 'stringifying %d tokens' % n, st=st)


# ------------------------------------------------------------------ joining two tokens

PUNCTUATORS = ('[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... = *= /= %= += -= <<= >>= &= ^= |= , # ## '
               '<: :> <% %> %: %:%:').split()
TEXTUAL = ('Identifier', 'IdentifierContinue', 'Literal', 'Plain')


def token_text(w, t):
    k = w.kind(t)
    if k == 'Identifier':
        return w.ident(t)
    if k == 'IdentifierContinue':
        return w.fld(w.payload(t, k), None, 'id_cont')
    if k == 'Punctuation':
        return w.punct_text(t)
    if k == 'Literal':
        return w.payload(t, k, '1')
    if k == 'Plain':
        return w.payload(t, k)


def parts(t):
    return t[1:] if t[0] == 'str+' else (t,)


def s_concat(l, r):
    """What `l ## r` is: an error, or a token with the spelling of both in order."""
    from .models import catstr

    def spec(w, v):
        a, b = l, r
        while w.kind(a) == 'NonReplacable':
            a = w.payload(a, 'NonReplacable')
        if w.kind(a) == 'Placemarker':
            return same(w, v, r)
        while w.kind(b) == 'NonReplacable':
            b = w.payload(b, 'NonReplacable')
        if w.kind(b) == 'Placemarker':
            return same(w, v, l)
        ka, kb = w.kind(a), w.kind(b)
        if ka == 'Punctuation' and kb == 'Punctuation':
            x = w.call('Punctuation::concat', w.payload(a, ka), w.payload(b, kb))
            if w.opt(x) is None:
                return AnyErr
            return w.ok(w.tok('NonReplacable', w.tok('Punctuation', ('fld', x, 'Some', '0'))))
        S = catstr(token_text(w, a), token_text(w, b))
        lit = lambda t: w.tag(w.payload(t, 'Literal'), w.c.adt('Lit'))
        quoted = lambda t: w.kind(t) == 'Literal' and lit(t) in ('String', 'Char')
        if quoted(a):
            return AnyErr
        if ka == 'Punctuation':
            if kb == 'Literal' and not quoted(b) and w.is_punct(a, '.'):
                return literal(w, v, S)
            return AnyErr
        if kb == 'Punctuation':
            return AnyErr
        if ka == 'Identifier':
            if kb in ('Identifier', 'IdentifierContinue') or kb == 'Literal' and lit(b) == 'Int':
                return identifier(w, v, S, True)
            if kb == 'Literal' and lit(b) == 'Float':
                return identifier(w, v, S, False)
            if kb == 'Literal':
                x = w.payload(b, 'Literal')
                y = w.payload(x, lit(b))
                if w.tag(y, w.c.adt('Lit' + lit(b))) != 'Ordinary' or not any(w.streq(w.ident(a), s) for s in ('u8', 'u', 'U', 'L')):
                    return AnyErr
                return literal(w, v, S)
        return reparsed(w, v, S, quoted(b))

    def same(w, v, t):
        for x in (t, w.payload(t, 'NonReplacable') if w.kind(t) == 'NonReplacable' else t):
            if w.eqv(v, w.ok(x)):
                return True
        return w.ok(t)

    def tried(w, name, S):
        for k, x in w.st.facts:
            if k == 'V' and isinstance(x, tuple) and x[:2] == ('call', name + '::try_from') and parts(w.norm(x[2])) == parts(w.norm(S)):
                return w.is_ok(x), x
        return None, None

    def kind_of(w, v):
        if v[0] != 'A' or v[1] != RES or v[2] != 0:
            return None, None
        t = v[3][0]
        return (w.p.variants(w.T)[t[2]]['name'], t) if t[0] == 'A' and t[1] == w.T else ('?', t)

    def spelled(w, x, S, *names):
        """is x the text S (or what a successful parse of S gives)"""
        x = w.norm(x)
        if parts(x) == parts(w.norm(S)):
            return True
        for n in names:
            ok, t = tried(w, n, S)
            if ok and x[0] == 'fld' and x[1] == ('fld', w.norm(t), 'Ok', '0'):
                return True
        return False

    def need(w, c, msg):
        if not c:
            raise Mismatch(None, msg)
        return True

    def identifier(w, v, S, always):
        k, t = kind_of(w, v)
        if k is None:
            if always or not is_err(v):
                raise Mismatch(None, 'the identifier with the joined text')
            bad = any(q == 'B' and b is False and x[0] == 'call' and 'is_xid' in x[1] or q == 'B' and b is False and 'is_xid' in repr(x)[:60] for (q, x), b in w.st.facts.items())
            return need(w, bad or tried(w, 'Identifier', S)[0] is False, 'the identifier with the joined text')
        return need(w, k == 'Identifier' and spelled(w, w.sfld(w.payload(t, k), 'id'), S, 'Identifier'), 'the identifier with the joined text')

    def literal(w, v, S):
        ok, x = tried(w, 'Lit', S)
        k, t = kind_of(w, v)
        if k is None:
            return need(w, is_err(v) and ok is False, 'the literal with the joined text')
        if not ok:
            return AnyErr
        return need(w, k == 'Literal' and w.eqv(t[3][0], ('fld', x, 'Ok', '0')) and spelled(w, t[3][1], S), 'the literal with the joined text')

    def reparsed(w, v, S, bad):
        k, t = kind_of(w, v)
        if k is None:
            return need(w, is_err(v) and (bad or all(tried(w, n, S)[0] is False for n in ('Identifier', 'Lit', 'IdentifierContinue'))), 'a token with the joined text')
        if k == 'Plain':
            return need(w, spelled(w, t[3][0], S) and all(tried(w, n, S)[0] is False for n in ('Identifier', 'Lit', 'IdentifierContinue')), 'a token with the joined text')
        if k == 'Literal':
            return literal(w, v, S)
        if k in ('Identifier', 'IdentifierContinue'):
            f = 'id' if k == 'Identifier' else 'id_cont'
            return need(w, tried(w, k, S)[0] and spelled(w, w.sfld(w.payload(t, k), f), S, k), 'a token with the joined text')
        raise Mismatch(None, 'a token with the joined text')
    return spec


def check_concat(r, kinds=('Placemarker', 'Punctuation', 'Identifier', 'IdentifierContinue', 'Literal', 'Plain', '!Punctuation', '!Identifier', '!Literal')):
    c = r.c
    T = c.adt('Token')
    pc = c.fn('Punctuation::concat')
    for a, b in itertools.product(kinds, repeat=2):
        st = State()
        ts = []
        for n, k in (('l', a), ('r', b)):
            t = ('in', n)
            st.facts[('V', t)] = frozenset([c.p.vidx(T, k.lstrip('!'))])
            ts.append(('A', T, c.p.vidx(T, 'NonReplacable'), (t,)) if k[0] == '!' else t)
        r.run('Token::concat', ts, s_concat(*ts), 'joining %s and %s' % (a.lstrip('!'), b.lstrip('!')), st=st, also=lambda f: f is pc or f['key'].endswith('::try_from'))


def check_punctuation_concat(r):
    """All pairs of punctuators: the pair is joined exactly if its text is a punctuator."""
    c = r.c
    P = c.adt('Punctuation')
    fn = c.fn('Punctuation::concat')
    for a, b in itertools.product(PUNCTUATORS, repeat=2):
        E, R, outs = c.run(fn, [('A', P, 0, (('s', a),)), ('A', P, 0, (('s', b),))], State(), {})
        got = {repr(v) for s, v in outs}
        want = some(('A', P, 0, (('s', a + b),))) if a + b in PUNCTUATORS else NONE
        if any(v[0] != 'A' or v[2] == 1 and v[3][0][0] != 'A' for s, v in outs):
            c.undecided.append(('joining punctuators', 'the result has a form the analysis does not know'))
            continue
        c.ob('joining punctuators', got == {repr(want)}, '' if got == {repr(want)} else '%s ## %s gives %s' % (a, b, ' or '.join(R.v(v) for s, v in outs)), c.where(fn))


# ------------------------------------------------------------------ definitions

NAME = ('in', 'name')
WS = MS + 'is_whitespace'


def strs(prefix, n):
    return toks(prefix, n)


def canon_map(m):
    if m[0] == 'mapins':
        b = canon_map(m[1])
        while b[0] in ('mapdel', 'mapins') and b[2] == m[2]:
            b = b[1]
        return ('mapins', b, m[2], m[3])
    if m[0] == 'mapdel':
        b = canon_map(m[1])
        while b[0] in ('mapdel', 'mapins') and b[2] == m[2]:
            b = b[1]
        return ('mapdel', b, m[2])
    return m


def maps_after(c, E, s):
    a = c.adt('MacroSet')
    f = [x['name'] for x in c.p.variants(a)[0]['fields']]
    return [canon_map(E.snap(s, E.read(s, SELF, (('f', None, f.index(n), n),)))) for n in ('var_macros', 'fn_macros')]


def ws_handler(E, st, args, ci, fn, fr):
    t = ('call', WS, E.snap(st, E.rd(st, args[0]) if args[0][0] == 'R' else args[0]))
    return [(s, ('i', int(b))) for s, b in E.fork_bool(st, t)]


def same_tokens(w, a, b):
    a = [x for x in a if not w.truth(('call', WS, x))]
    b = [x for x in b if not w.truth(('call', WS, x))]
    return len(a) == len(b) and all(w.truth(w.E.eq(w.st, x, y)[0][1]) for x, y in zip(a, b))


def check_define(r, kind, old, new):
    """kind 'var': old/new are numbers of body tokens; 'fn': pairs (parameters, body tokens)."""
    c = r.c
    c.fn(WS)
    VM, FM = F(SELF, 'var_macros'), F(SELF, 'fn_macros')
    mine, other = (VM, FM) if kind == 'var' else (FM, VM)
    got = ('mapget', mine, NAME)
    if kind == 'var':
        o, n = strs('o', old), strs('n', new)
        known = {('fld', got, 'Some', '0'): o}
        args = [('R', SELF, ()), NAME, n]
        lists = [(o[1], n[1])]
    else:
        o, n = (strs('oa', old[0]), strs('ob', old[1])), (strs('na', new[0]), strs('nb', new[1]))
        known = {('fld', got, 'Some', '0'): ('A', '()', 0, o)}
        args = [('R', SELF, ()), NAME, n[0], n[1]]
        lists = [(o[0][1], n[0][1]), (o[1][1], n[1][1])]
        n = ('A', '()', 0, n)
    key = 'MacroSet::define_%s_macro' % kind
    fn = c.fn(key)
    what = 'defining a %s macro' % kind
    if fn['argc'] != len(args):
        raise MissingAnchor(key)
    E, R, outs = c.run(fn, args, State(), {WS: ws_handler}, known=known)
    for s, v in outs:
        maps = dict(zip(('var', 'fn'), maps_after(c, E, s)))

        def judge(w):
            w.c = c
            if w.opt(got) is not None:
                red = not all(same_tokens(w, a, b) for a, b in lists)
                keep = True
            else:
                red = w.opt(('mapget', other, NAME)) is not None
                keep = not red
            if w.truth(v) != red:
                return 'reports %s instead of %s' % (not red, red)
            om = 'fn' if kind == 'var' else 'var'
            if w.norm(maps[kind]) != w.norm(('mapins', mine, NAME, n)):
                return 'leaves %s' % R.v(maps[kind])
            if maps[om] != ('mapdel', other, NAME) and not (keep and maps[om] == other):
                return 'leaves the macros of the other kind as %s' % R.v(maps[om])
            return None
        for w, m in worlds(E, s, lambda w0: judge(MW(c, E, w0.st)), 100000):
            r.cases += 1
            c.ob(what, m is None, '' if m is None else '%s when %s' % (m, R.facts(w.st)), c.where(fn))


def check_undefine(r, kind):
    c = r.c
    mine, other = [F(SELF, x + '_macros') for x in (('var', 'fn') if kind == 'var' else ('fn', 'var'))]
    key = 'MacroSet::undefine_%s_macro' % kind
    fn = c.fn(key)
    if fn['argc'] != 2:
        raise MissingAnchor(key)
    E, R, outs = c.run(fn, [('R', SELF, ()), NAME], State(), {})
    for s, v in outs:
        maps = dict(zip(('var', 'fn'), maps_after(c, E, s)))

        def judge(w):
            there = w.opt(('mapget', mine, NAME)) is not None
            if w.truth(v) != there:
                return 'reports %s instead of %s' % (not there, there)
            if maps[kind] != ('mapdel', mine, NAME) and not (not there and maps[kind] == mine):
                return 'leaves %s' % R.v(maps[kind])
            if maps['fn' if kind == 'var' else 'var'] != other:
                return 'changes the macros of the other kind'
            return None
        for w, m in worlds(E, s, lambda w0: judge(MW(c, E, w0.st)), 10000):
            r.cases += 1
            c.ob('undefining a %s macro' % kind, m is None, '' if m is None else '%s when %s' % (m, R.facts(w.st)), c.where(fn))


# ------------------------------------------------------------------ tokens in and out

def s_from_str(S):
    """A string becomes a token of the kind whose parser accepts all of it."""
    order = (('Identifier', 'Identifier'), ('Literal', 'Lit'), ('IdentifierContinue', 'IdentifierContinue'), ('Punctuation', 'Punctuation'), ('Comment', 'Comment'))

    def spec(w, v):
        if w.streq(S, '__VA_ARGS__'):
            return w.tok('VarArgs')
        for k, n in order:
            t = ('call', n + '::try_from', S)
            if w.is_ok(t):
                return w.tok(k, w.val(t), S) if k == 'Literal' else w.tok(k, w.val(t))
        return w.tok('Plain', S)
    return spec


def check_from_str(r):
    S = ('in', 's')
    r.run('Token::from_str', [S], s_from_str(S), 'reading a token', also=lambda f: f['key'].endswith('::try_from'))


def s_detokenize(t, arity):
    def spec(w, v):
        k = w.kind(t)
        if k == 'NonReplacable':
            return w.call('Token::detokenize', w.payload(t, k), toks('p', arity))
        if k == 'Placemarker':
            return w.ok(NONE)
        if k == 'Plain':
            return AnyErr
        M = w.c.adt('MacroToken')
        A = w.c.adt('MacroArg')
        if k == 'MacroArg':
            x = ('A', A, 0, (w.payload(t, k),))
        elif k == 'VarArgs':
            x = ('A', A, 0, (('i', arity - 1),))
        else:
            x = w.payload(t, k)
        n = {'MacroArg': 'Arg', 'VarArgs': 'Arg', 'Literal': 'Lit'}.get(k, k)
        return w.ok(some(('A', M, w.p.vidx(M, n), (x,))))
    return spec


def check_detokenize(r):
    c = r.c
    for arity in (1, 2, 3, 5):
        r.run('Token::detokenize', [('in', 't'), toks('p', arity)], s_detokenize(('in', 't'), arity), 'giving a token to the user')
    fn = c.fn('Token::detokenize')
    for n in range(4):
        ts = toks('t', n)

        def spec(w, v):
            out = []
            for t in ts[1]:
                x = w.call('Token::detokenize', t, toks('p', 1))
                if not w.is_ok(x):
                    return w.fail(x)
                y = w.opt(w.val(x))
                if y is not None:
                    out.append(y)
            return w.ok(('L', tuple(out)))
        r.run(MS + 'detokenize', [toks('p', 1), ts], spec, 'giving the tokens to the user', also=lambda f: f is fn)


def check_is_whitespace(r):
    S = ('in', 's')

    def spec(w, v):
        t = ('trim', S)
        start, end = [lambda x, k=k: w.truth(('strp', k, t, ('s', x))) for k in ('starts_with', 'ends_with')]
        want = w.streq(t, '') or start('/*') and end('*/') or start('//')
        if w.truth(v) != want:
            raise Mismatch(None, 'not the same')
        return True
    r.run(WS, [S], spec, 'recognising white space')


def check_expand(r):
    c = r.c
    VM, FM = F(SELF, 'var_macros'), F(SELF, 'fn_macros')
    E0 = ('setnew',)

    def var(w, v):
        m = ('mapget', VM, NAME)
        if w.opt(m) is None:
            return w.error('MacroNotFound')
        x = w.call('MacroSet::expand_var_macro_body', SELF, E0, NAME, w.call(MS + 'tokenize', ('L', ()), ('fld', m, 'Some', '0')))
        if not w.is_ok(x):
            return w.fail(x)
        return w.call(MS + 'detokenize', ('L', ()), w.val(x))
    r.run('MacroSet::expand_var_macro', [SELF, NAME], var, 'expanding a variable-like macro')

    def toplevel(w, v):
        x = w.call('MacroSet::expand_var_macro_body', SELF, E0, ('s', ''), w.call(MS + 'tokenize', ('L', ()), ('in', 'body')))
        if not w.is_ok(x):
            return w.fail(x)
        return w.call(MS + 'detokenize', ('L', ()), w.val(x))
    r.run('MacroSet::expand', [SELF, ('in', 'body')], toplevel, 'expanding tokens')

    for n in range(4):
        ps = toks('p', n)

        def fun(w, v):
            m = ('mapget', FM, NAME)
            if w.opt(m) is None:
                return w.error('MacroNotFound')
            g = ('fld', m, 'Some', '0')
            an = w.call(MS + 'tokenize_arg_names', ('fld', g, None, '0'))
            if not w.is_ok(an):
                return w.fail(an)
            x = w.call('MacroSet::expand_fn_macro_body', SELF, E0, NAME, ps, NONE, w.call(MS + 'tokenize', ps, ('fld', g, None, '1')))
            if not w.is_ok(x):
                return w.fail(x)
            d = w.call(MS + 'detokenize', ('L', tuple(p for p in ps[1] if not is_comment(w, p))), w.val(x))
            if not w.is_ok(d):
                return w.fail(d)
            a = w.call(MS + 'detokenize', ('L', ()), ps)
            if not w.is_ok(a):
                return w.fail(a)
            return w.ok(tup(w.val(a), w.val(d)))
        r.run('MacroSet::expand_fn_macro', [SELF, NAME], fun, 'expanding a function-like macro',
              handlers={MS + 'tokenize_arg_names': list_handler(MS + 'tokenize_arg_names', 'p', n)})


# ------------------------------------------------------------------ suites

def names_of(v):
    return v[3] if v[0] == 'call' and v[1] == 'MacroSet::expand_macro_body' and len(v) > 3 else None


def rescan_aspects(w, v, want):
    a, b = names_of(v), names_of(want)
    banned = any(k == 'B' and x is True and isinstance(t, tuple) and t[0] == 'contains' for (k, t), x in w.st.facts.items())
    return {'names'} if banned or a is not None and b is not None and a != b else {'rescan'}


def body_aspects(w, v, want):
    a, b = names_of(v), names_of(want)
    if a is not None and b is not None and w.norm(a) != w.norm(b):
        return {'names'}
    return {'concat', 'args'}


def rescanning(r, n):
    for k in range(n + 1):
        b = toks('t', k)
        r.run('MacroSet::expand_macro_body', [SELF, NAMES, b], s_expand_macro_body(b[1]), 'rescanning', inline=('MacroSet::collect_args',), classify=rescan_aspects)


def object_like(r, n, m):
    for i in range(n + 1):
        for k in range(m + 1):
            b, cc = toks('t', i), toks('c', k)
            r.run('MacroSet::expand_var_macro_body', [SELF, NAMES, NAME, b], s_expand_var_macro_body(NAME, b[1], cc[1]), 'replacing an object-like macro',
                  handlers={'MacroSet::expand_concat': list_handler('MacroSet::expand_concat', 'c', k)}, classify=body_aspects)


def function_like(r, cases):
    """cases: (parameters, arguments or None, body tokens, tokens after ##, tokens per argument)"""
    for arity, args, n, k, ln in cases:
        ps, b, ea, cc = toks('p', arity), toks('t', n), toks('e', 1), toks('c', k)
        al = None if args is None else tuple(toks('a%d_' % i, ln) for i in range(args))
        r.run('MacroSet::expand_fn_macro_body', [SELF, NAMES, NAME, ps, NONE if al is None else some(('L', al)), b],
              s_expand_fn_macro_body(NAME, ps[1], al, b[1], ea, cc[1]), 'replacing a function-like macro',
              handlers={'MacroSet::expand_concat': list_handler('MacroSet::expand_concat', 'c', k),
                        'MacroSet::expand_arguments': list_handler('MacroSet::expand_arguments', 'e', 1)}, classify=body_aspects)


CALLS = [(a, g, 0, 0, 1) for a in range(3) for g in (None, 0, 1, 2)] + [(1, 1, 1, 0, 1), (1, 1, 1, 1, 1), (2, 2, 1, 0, 0), (1, 2, 1, 0, 0), (0, 1, 1, 1, 2)]
MORE_CALLS = [(3, g, 0, 0, 0) for g in (None, 1, 2, 3, 4)] + [(2, 3, 1, 1, 0), (2, None, 2, 1, 0), (1, None, 2, 2, 0)]


def parameter_names(r, n):
    for i in range(n + 1):
        b = toks('s', i)
        r.run(MS + 'tokenize_arg_names', [b], s_tokenize_arg_names(b[1]), 'reading parameter names')


def parameters_in_body(r, n, m):
    for i in range(n + 1):
        for k in range(m + 1):
            b, ps = toks('s', i), toks('p', k)
            r.run(MS + 'tokenize', [ps, b], s_tokenize(ps[1], b[1]), 'reading a body')


def arguments(r, cases):
    for case in cases:
        check_expand_arguments(r, *case)


ARGS = [(1, 1, [1], 1, 1), (1, 1, [0], 0, 1), (2, 1, [1], 1, 1), (2, 1, [0], 0, 2), (3, 1, [1], 1, 1), (3, 2, [1, 0], 1, 1), (4, 1, [0], 0, 1),
        (2, 2, [0, 1], 1, 1, True), (2, 2, [1], 1, 1, True), (1, 2, [1, 1, 1], 1, 1, True), (1, 1, [1, 1], 1, 1, True), (2, 1, [0, 1], 0, 1, True)]
WIDE = [(2, 1, [3], 1, 1), (1, 2, [1, 1, 1, 1, 1], 1, 1, True)]
MORE_ARGS = [(2, 2, [1, 1, 1], 1, 1, True), (4, 1, [1], 1, 1), (3, 2, [1, 1], 1, 1, True), (3, 3, [1, 0, 1], 1, 1)]


def invocations(r, n):
    """Rescanning tokens that start with a name and a parenthesis."""
    c = r.c
    T = c.adt('Token')
    for k in range(2, n + 1):
        st = State()
        items = [('in', 't0'), punct(c, '(')]
        st.facts[('V', items[0])] = frozenset([c.p.vidx(T, 'Identifier')])
        for i in range(2, k):
            t = ('in', 't%d' % i)
            st.facts[('V', t)] = frozenset([c.p.vidx(T, 'Punctuation'), c.p.vidx(T, 'Literal')])
            items.append(t)
        r.run('MacroSet::expand_macro_body', [SELF, NAMES, ('L', tuple(items))], s_expand_macro_body(items), 'rescanning', inline=('MacroSet::collect_args',), classify=rescan_aspects, st=st)


def punct(c, s):
    T = c.adt('Token')
    return ('A', T, c.p.vidx(T, 'Punctuation'), (('A', c.adt('Punctuation'), 0, (('s', s),)),))


def brackets(r, n):
    """Rescanning name ( x … x ) with n brackets, commas or other tokens x."""
    import itertools
    c = r.c
    T = c.adt('Token')
    for combo in itertools.product(('[', '(', '{', ']', ')', '}', ',', None), repeat=n):
        d = [x for x in combo if x and x != ',']
        if len(d) < 2 or ',' not in combo:
            continue
        st = State()
        items = [('in', 't0'), punct(c, '(')]
        st.facts[('V', items[0])] = frozenset([c.p.vidx(T, 'Identifier')])
        for i, x in enumerate(combo):
            if x is None:
                t = ('in', 't%d' % i)
                st.facts[('V', t)] = frozenset([c.p.vidx(T, 'Literal')])
                items.append(t)
            else:
                items.append(punct(c, x))
        items.append(punct(c, ')'))
        r.run('MacroSet::expand_macro_body', [SELF, NAMES, ('L', tuple(items))], s_expand_macro_body(items), 'rescanning', inline=('MacroSet::collect_args',), classify=rescan_aspects, st=st)


KINDS = ['MacroArg', 'VarArgs', 'Comment', 'Punctuation', 'Identifier', 'Literal', 'Plain', 'Placemarker', 'IdentifierContinue', '!Punctuation', '!Identifier', '!MacroArg']
