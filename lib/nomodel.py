"""Abstract semantics of the nom 7.1.3 combinators: parsers are values ('P', kind, parts…), applied to an
input by `apply`. The input is whatever the crate passes on (a token slice or a string)."""
from .engine import *  # noqa
from .engine import RES, OPT, some, NONE, ok, err, tup, boolv, UNIT, is_sym, Unsupported
from .models import m, MODELS

NERR = 'nom::internal::Err'
NERROR = 'nom::error::Error'
KIND = 'nom::error::ErrorKind'

COMB = {
    'nom::branch::alt': 'alt', 'nom::branch::permutation': 'permutation', 'nom::combinator::all_consuming': 'all',
    'nom::combinator::eof': None, 'nom::combinator::map': 'map', 'nom::combinator::map_opt': 'map_opt', 'nom::combinator::map_res': 'map_res',
    'nom::combinator::opt': 'opt', 'nom::combinator::recognize': 'recognize', 'nom::combinator::value': 'value', 'nom::combinator::verify': 'verify',
    'nom::combinator::cut': 'cut', 'nom::combinator::not': 'not', 'nom::combinator::peek': 'peek', 'nom::combinator::complete': 'complete',
    'nom::combinator::success': 'success', 'nom::combinator::cond': 'cond', 'nom::combinator::into': 'into', 'nom::combinator::flat_map': 'flat_map',
    'nom::combinator::map_parser': 'map_parser', 'nom::combinator::consumed': 'consumed',
    'nom::multi::fold_many0': 'fold0', 'nom::multi::fold_many1': 'fold1', 'nom::multi::fold_many_m_n': 'foldmn', 'nom::multi::many0': 'many0',
    'nom::multi::many1': 'many1', 'nom::multi::many_m_n': 'manymn', 'nom::multi::many0_count': 'count0', 'nom::multi::many1_count': 'count1', 'nom::multi::separated_list0': 'sep0', 'nom::multi::separated_list1': 'sep1', 'nom::multi::many_till': 'till',
    'nom::multi::count': 'count',
    'nom::sequence::delimited': 'delimited', 'nom::sequence::pair': 'pair', 'nom::sequence::preceded': 'preceded', 'nom::sequence::terminated': 'terminated',
    'nom::sequence::tuple': 'tuple', 'nom::sequence::separated_pair': 'seppair',
}
PARSER = 'nom::internal::Parser::'
METHODS = {'map': 'map', 'and': 'pair', 'or': 'or', 'and_then': 'map_parser', 'flat_map': 'flat_map', 'into': 'into'}


def res_ok(rest, v):
    return ('A', RES, 0, (tup(rest, v),))


def kind(E, name):
    return ('A', KIND, E.p.vidx(KIND, name), ())


def mkerr(E, inp, k, variant='Error'):
    return ('A', RES, 1, (('A', NERR, E.p.vidx(NERR, variant), (('A', NERROR, 0, (inp, kind(E, k))),)),))


def unpack(v):
    """components of an (input, output) pair"""
    if v[0] == 'A':
        return v[3][0], v[3][1]
    return ('fld', v, None, '0'), ('fld', v, None, '1')


def step(E, st, p, inp, ci):
    """-> [(state, rest, value, None) | (state, None, None, error result)]"""
    out = []
    for s, r in apply(E, st, p, inp, ci):
        if r[0] == 'R':
            r = E.rd(s, r)
        if r[0] == 'A' and r[1] == RES:
            if r[2] == 0:
                a, b = unpack(r[3][0])
                out.append((s, a, b, None))
            else:
                out.append((s, None, None, r))
            continue
        for s2, k in E.fork_variant(s, r, RES):
            if k == 0:
                a, b = unpack(('fld', r, 'Ok', '0'))
                out.append((s2, a, b, None))
            else:
                out.append((s2, None, None, ('A', RES, 1, (('fld', r, 'Err', '0'),))))
    return out


def soft(E, s, e):
    """Whether an error result lets alternatives be tried: [(state, bool)]"""
    v = e[3][0]
    soft_ix = E.p.vidx(NERR, 'Error')
    if v[0] == 'A':
        return [(s, v[2] == soft_ix)]
    return [(s2, k == soft_ix) for s2, k in E.fork_variant(s, v, NERR)]


def length(E, s, inp):
    v = E.rd(s, inp)
    from . import lexstr
    cs = lexstr.text(E, s, v)
    if cs is not None:
        return ('i', len(cs))
    if v[0] == 'L' and not any(E.is_multi(x) for x in v[1]):
        return ('i', len(v[1]))
    if v[0] == 's':
        return ('i', len(v[1].encode('utf-8')))
    return E.len_of(s, v)


def same_len(E, s, a, b):
    """[(state, whether nothing was consumed)]"""
    x, y = length(E, s, a), length(E, s, b)
    if x == y:
        return [(s, True)]
    if x[0] == 'i' and y[0] == 'i':
        return [(s, False)]
    return E.fork_bool(s, E.mkcmp(s, 'Eq', x, y))


def empty(E, s, inp):
    x = length(E, s, inp)
    if x[0] == 'i':
        return [(s, x[1] == 0)]
    return E.fork_bool(s, E.mkcmp(s, 'Eq', x, ('i', 0)))


def parts(E, st, t):
    t = E.rd(st, t)
    if t[0] == 'A' and t[1] == '()':
        return list(t[3])
    if t[0] == 'L':
        return list(t[1])
    return None


LIMIT = 64


def many(E, st, p, inp, ci, lo, hi, acc, fold, kindname):
    """The loop behind many*/fold_many*: [(state, rest, acc, None) | (state, None, None, error)]"""
    out = []
    work = [(st, inp, acc, 0)]
    while work:
        s, i, a, n = work.pop()
        if hi is not None and n >= hi:
            out.append((s, i, a, None))
            continue
        if n > LIMIT:
            raise Unsupported('parser loop without an end')
        for s2, rest, v, e in step(E, s, p, i, ci):
            if e is not None:
                for s3, sf in soft(E, s2, e):
                    if sf and n >= lo:
                        out.append((s3, i, a, None))
                    elif sf:
                        out.append((s3, None, None, mkerr(E, i, kindname)))
                    else:
                        out.append((s3, None, None, e))
                continue
            for s3, stuck in same_len(E, s2, i, rest):
                if stuck:
                    out.append((s3, None, None, mkerr(E, rest, kindname)))
                    continue
                for s4, a2 in fold(s3, a, v):
                    work.append((s4, rest, a2, n + 1))
    return out


def pushing(s, a, v):
    return [(s, ('L', a[1] + (v,)))]


def finish(r):
    return [(s, res_ok(rest, v) if e is None else e) for s, rest, v, e in r]


def seq(E, st, ps, inp, ci):
    """-> [(state, rest, [values], None) | (state, None, None, error)]"""
    cur = [(st, inp, [], None)]
    for p in ps:
        nxt = []
        for s, i, vs, e in cur:
            if e is not None:
                nxt.append((s, None, None, e))
                continue
            for s2, rest, v, e2 in step(E, s, p, i, ci):
                nxt.append((s2, rest, vs + [v], None) if e2 is None else (s2, None, None, e2))
        cur = nxt
    return cur


def consumed_of(E, s, inp, rest):
    """The part of the input in front of rest."""
    a, b = E.rd(s, inp), E.rd(s, rest)
    if a[0] == 'L' and b[0] == 'L':
        return ('L', a[1][:len(a[1]) - len(b[1])])
    if a[0] == 's' and b[0] == 's' and a[1].endswith(b[1]):
        return ('s', a[1][:len(a[1]) - len(b[1])])
    from . import lexstr
    r = lexstr.prefix(E, s, a, b)
    if r is not None:
        return r
    return ('call', 'consumed', E.snap(s, a), E.snap(s, b))


def apply(E, st, p, inp, ci):
    if p[0] == 'R':
        v = E.read(st, p[1], p[2])
        if v[0] == 'P':
            return apply(E, st, v, inp, ci)
        return E.call_place(st, p, [inp], ci)
    if p[0] != 'P':
        if p[0] == 'A' and p[1] == '()':
            raise Unsupported('a tuple used as a parser')
        if p[0] == 's':
            return lex(E, st, ('P', 'tag', p), inp, ci)
        return E.call_value(st, p, [inp], ci)
    k, a = p[1], p[2:]
    if k == 'map':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, r in callf(E, s, a[1], [v], ci):
                out.append((s2, res_ok(rest, r)))
        return out
    if k == 'map_opt':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, r in callf(E, s, a[1], [v], ci):
                for s3, x in E.fork_opt(s2, r):
                    out.append((s3, res_ok(rest, x) if x is not None else mkerr(E, inp, 'MapOpt')))
        return out
    if k == 'map_res':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, r in callf(E, s, a[1], [v], ci):
                for s3, good, x in E.fork_res(s2, r):
                    out.append((s3, res_ok(rest, x) if good == 'Ok' else mkerr(E, inp, 'MapRes')))
        return out
    if k == 'value':
        return [(s, res_ok(rest, a[0]) if e is None else e) for s, rest, v, e in step(E, st, a[1], inp, ci)]
    if k == 'verify':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, r in callf(E, s, a[1], [v], ci):
                for s3, b in E.fork_bool(s2, r):
                    out.append((s3, res_ok(rest, v) if b else mkerr(E, inp, 'Verify')))
        return out
    if k in ('alt', 'or'):
        ps = parts(E, st, a[0]) if k == 'alt' else list(a)
        out = []
        cur = [(st, None)]
        for q in ps:
            nxt = []
            for s, _ in cur:
                for s2, rest, v, e in step(E, s, q, inp, ci):
                    if e is None:
                        out.append((s2, res_ok(rest, v)))
                        continue
                    for s3, sf in soft(E, s2, e):
                        if sf:
                            nxt.append((s3, e))
                        else:
                            out.append((s3, e))
            cur = nxt
        for s, e in cur:
            out.append((s, mkerr(E, inp, 'Alt')))
        return out
    if k == 'permutation':
        ps = parts(E, st, a[0])
        out = []
        work = [(st, inp, (None,) * len(ps), 0, False)]
        while work:
            s, i, got, j, failed = work.pop()
            while j < len(ps) and got[j] is not None:
                j += 1
            if j == len(ps):
                if failed:
                    out.append((s, mkerr(E, i, 'Permutation')))
                else:
                    out.append((s, res_ok(i, tup(*[x[0] for x in got]))))
                continue
            for s2, rest, v, e in step(E, s, ps[j], i, ci):
                if e is None:
                    work.append((s2, rest, got[:j] + ((v,),) + got[j + 1:], 0, False))
                    continue
                for s3, sf in soft(E, s2, e):
                    if sf:
                        work.append((s3, i, got, j + 1, True))
                    else:
                        out.append((s3, e))
        return out
    if k in ('pair', 'tuple', 'preceded', 'terminated', 'delimited', 'seppair'):
        ps = parts(E, st, a[0]) if k == 'tuple' else list(a)
        pick = {'pair': lambda v: tup(*v), 'tuple': lambda v: tup(*v), 'preceded': lambda v: v[1], 'terminated': lambda v: v[0],
                'delimited': lambda v: v[1], 'seppair': lambda v: tup(v[0], v[2])}[k]
        return [(s, res_ok(rest, pick(v)) if e is None else e) for s, rest, v, e in seq(E, st, ps, inp, ci)]
    if k == 'opt':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is None:
                out.append((s, res_ok(rest, some(v))))
                continue
            for s2, sf in soft(E, s, e):
                out.append((s2, res_ok(inp, NONE) if sf else e))
        return out
    if k in ('many0', 'many1'):
        return finish(many(E, st, a[0], inp, ci, 0 if k == 'many0' else 1, None, ('L', ()), pushing, 'Many0' if k == 'many0' else 'Many1'))
    if k in ('count0', 'count1'):
        return finish(many(E, st, a[0], inp, ci, 0 if k == 'count0' else 1, None, ('i', 0), lambda s, n, v: [(s, ('i', n[1] + 1))], 'Many0Count'))
    if k in ('fold0', 'fold1', 'foldmn', 'manymn'):
        lo, hi = {'fold0': (0, None), 'fold1': (1, None)}.get(k, (None, None))
        if lo is None:
            if a[0][0] != 'i' or a[1][0] != 'i':
                raise Unsupported('repetition with an unknown count')
            lo, hi = a[0][1], a[1][1]
            a = a[2:]
            if lo > hi:
                return [(st, mkerr(E, inp, 'ManyMN', 'Failure'))]
        if k == 'manymn':
            return finish(many(E, st, a[0], inp, ci, lo, hi, ('L', ()), pushing, 'ManyMN'))
        out = []
        for s, acc in callf(E, st, a[1], [], ci):
            out += many(E, s, a[0], inp, ci, lo, hi, acc, lambda s, x, v: callf(E, s, a[2], [x, v], ci), {'fold0': 'Many0', 'fold1': 'Many1'}.get(k, 'ManyMN'))
        return finish(out)
    if k == 'count':
        if a[1][0] != 'i':
            raise Unsupported('repetition with an unknown count')
        return [(s, res_ok(rest, ('L', tuple(v))) if e is None else mkerr(E, inp, 'Count')) for s, rest, v, e in seq(E, st, [a[0]] * a[1][1], inp, ci)]
    if k in ('sep0', 'sep1'):
        sep, f = a
        out = []
        work = []
        for s, rest, v, e in step(E, st, f, inp, ci):
            if e is None:
                work.append((s, rest, ('L', (v,)), 0))
                continue
            for s2, sf in soft(E, s, e):
                out.append((s2, res_ok(inp, ('L', ())) if sf and k == 'sep0' else e))
        while work:
            s, i, acc, n = work.pop()
            if n > LIMIT:
                raise Unsupported('parser loop without an end')
            for s2, r1, _, e in step(E, s, sep, i, ci):
                if e is not None:
                    out += [(s3, res_ok(i, acc) if sf else e) for s3, sf in soft(E, s2, e)]
                    continue
                for s3, stuck in same_len(E, s2, i, r1):
                    if stuck:
                        out.append((s3, mkerr(E, r1, 'SeparatedList')))
                        continue
                    for s4, r2, v, e in step(E, s3, f, r1, ci):
                        if e is not None:
                            out += [(s5, res_ok(i, acc) if sf else e) for s5, sf in soft(E, s4, e)]
                        else:
                            work.append((s4, r2, ('L', acc[1] + (v,)), n + 1))
        return out
    if k == 'till':
        f, g = a
        out, work = [], [(st, inp, ('L', ()), 0)]
        while work:
            s, i, acc, n = work.pop()
            if n > LIMIT:
                raise Unsupported('parser loop without an end')
            for s2, r1, v, e in step(E, s, g, i, ci):
                if e is None:
                    out.append((s2, res_ok(r1, tup(acc, v))))
                    continue
                for s3, sf in soft(E, s2, e):
                    if not sf:
                        out.append((s3, e))
                        continue
                    for s4, r2, v2, e2 in step(E, s3, f, i, ci):
                        if e2 is not None:
                            out.append((s4, e2))
                            continue
                        for s5, stuck in same_len(E, s4, i, r2):
                            if stuck:
                                out.append((s5, mkerr(E, r2, 'ManyTill')))
                            else:
                                work.append((s5, r2, ('L', acc[1] + (v2,)), n + 1))
        return out
    if k == 'all':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, b in empty(E, s, rest):
                out.append((s2, res_ok(rest, v) if b else mkerr(E, rest, 'Eof')))
        return out
    if k == 'recognize':
        return [(s, res_ok(rest, consumed_of(E, s, inp, rest)) if e is None else e) for s, rest, v, e in step(E, st, a[0], inp, ci)]
    if k == 'consumed':
        return [(s, res_ok(rest, tup(consumed_of(E, s, inp, rest), v)) if e is None else e) for s, rest, v, e in step(E, st, a[0], inp, ci)]
    if k == 'peek':
        return [(s, res_ok(inp, v) if e is None else e) for s, rest, v, e in step(E, st, a[0], inp, ci)]
    if k == 'complete':
        return apply(E, st, a[0], inp, ci)
    if k == 'cut':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None and e[3][0][0] == 'A':
                x = e[3][0]
                e = ('A', RES, 1, (('A', NERR, E.p.vidx(NERR, 'Failure'), x[3]),))
            elif e is not None:
                raise Unsupported('cut of an unknown error')
            out.append((s, res_ok(rest, v) if e is None else e))
        return out
    if k == 'not':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is None:
                out.append((s, mkerr(E, inp, 'Not')))
                continue
            for s2, sf in soft(E, s, e):
                out.append((s2, res_ok(inp, UNIT) if sf else e))
        return out
    if k == 'success':
        return [(st, res_ok(inp, a[0]))]
    if k == 'cond':
        out = []
        for s, b in E.fork_bool(st, a[0]):
            if not b:
                out.append((s, res_ok(inp, NONE)))
                continue
            for s2, rest, v, e in step(E, s, a[1], inp, ci):
                out.append((s2, res_ok(rest, some(v)) if e is None else e))
        return out
    if k == 'flat_map':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, q in callf(E, s, a[1], [v], ci):
                out += apply(E, s2, q, rest, ci)
        return out
    if k == 'map_parser':
        out = []
        for s, rest, v, e in step(E, st, a[0], inp, ci):
            if e is not None:
                out.append((s, e))
                continue
            for s2, r2, v2, e2 in step(E, s, a[1], v, ci):
                out.append((s2, res_ok(rest, v2) if e2 is None else e2))
        return out
    return lex(E, st, p, inp, ci)


def lex(E, st, p, inp, ci):
    from . import lexstr
    r = lexstr.apply(E, st, p, inp, ci)
    if r is None:
        E.unmodelled['nom ' + p[1]] = E.unmodelled.get('nom ' + p[1], 0) + 1
        return [(st, ('call', 'nom ' + p[1]) + tuple(E.snap(st, x) for x in p[2:]) + (E.snap(st, inp),))]
    return r


def callf(E, st, f, args, ci):
    if f[0] == 'R':
        return E.call_place(st, f, args, ci)
    return E.call_value(st, f, args, ci)


def builder(kind):
    def h(E, st, args, ci):
        return [(st, ('P', kind) + tuple(args))]
    return h


for _n, _k in COMB.items():
    if _k:
        MODELS[_n] = builder(_k)
for _n, _k in METHODS.items():
    MODELS[PARSER + _n] = builder(_k)


@m(PARSER + 'parse')
def _(E, st, args, ci):
    return apply(E, st, args[0], args[1], ci)


@m('nom::combinator::eof')
def _(E, st, args, ci):
    i = args[0]
    return [(s, res_ok(i, consumed_of(E, s, i, i)) if b else mkerr(E, i, 'Eof')) for s, b in empty(E, st, i)]


@m('nom::combinator::rest')
def _(E, st, args, ci):
    return None


@m('nom::error::Error::new', 'nom::error::make_error', 'nom::error::ParseError::from_error_kind')
def _(E, st, args, ci):
    return [(st, ('A', NERROR, 0, (args[0], args[1])))]
