"""C25: macros keep the name, parameters and body they were given."""
from lib import cparse, lexref, lexstr, term
from lib.engine import *
from lib.spec import Fork, Impossible

TECHNIQUE = 'abstract interpretation of the MIR of FnMacro::parse, VarMacro::parse and the accessors on names with unknown characters and token lists with unknown tokens, every path compared with a reference lexer and grammar'
EXPLANATION = ('`FnMacro::parse` and `VarMacro::parse` are interpreted on names with unknown characters, parameter lists and bodies with unknown tokens. Every path has to be the error of a part that is invalid according to the '
               'reference lexer or grammar, or a macro with exactly the given name, the parameter names in order and the body the grammar derives. Accessors have to return the fields.')
ASSUMPTIONS = ('names of up to three unknown characters, parameter lists of up to four unknown tokens',)

ARGS = ['', '@1', '@1 @2', '@1 @2 @3', '?1 /**/ ?2 ⊙1 /**/', '?1 ?2 ?3 @4', '/**/ /**/ ?1 /**/ /**/ ?2 @1', '?1 @1 ...', '... @1', '@1 ... /**/', '?1 ?2 ?3 ?4 ?5 ⊙1', '/**/', '/**/ ... /**/']
NAMES = ['', 'χa', 'χaχb', 'χaχbχc', 'aχa', '_χa', 'fooχa', 'χabar', 'a\\χa']
# name, parameters (None: variable-like), body
WHOLE = ([(n, p, b) for n in NAMES for p, b in (('', 'x'), ('?1 ?2', 'x'), (None, 'x'))] +
         [('F', p, 'x') for p in ('@1', '?1 @1', '... @1', '/**/ ?1 /**/ ?2 @1', '?1 ?2 ?3 ...')] +
         [('F', p, b) for p in ('?1', '?1 ?2', None) for b in ('@1', '', '{ x ; }', 'a + b', 'a @1', 'f ( x ) ; y ;')] +
         [('F', p, b) for p in ('', '?1', '?1 ?2', '...', '?1 ...', None) for b in ('$0', '$1', '$2', 'x + $1', 'f ( $0 , $2 )', '{ $1 ; $0 ; }', '# $1', 'x ## $2', '$1 ## x', '( $0 ) $1')] +
         [('χa', None, '@1'), ('χaχb', '?1 ⊙1', 'x')])


def check(c):
    c.rule('parse(name, args, body) == Err of an invalid part | {name, parameters, body}; accessors return the fields; parameter list == identifiers in order, then `...`')
    cparse.check(c, [('FnMacro::parse_args', 'parameters', t) for t in ARGS], 'parameter lists', 100)
    macros(c)
    accessors(c)


def name_of(c, spec):
    chars = lexref.parse(spec)
    return chars, lexstr.make(chars)


def compare(c, name, params, body):
    """-> dict as cparse.compare"""
    key = 'FnMacro::parse' if params is not None else 'VarMacro::parse'
    f = c.fn(key)
    chars, nv = name_of(c, name)
    st = State()
    lexstr.start(st, chars)
    pt = cparse.Tokens(c).parse(params) if params is not None else []
    bt = cparse.Tokens(c).parse(body)
    st.cells['@params'] = ('L', tuple(pt))
    st.cells['@body'] = ('L', tuple(bt))
    args = [nv] + ([('R', '@params', ())] if params is not None else []) + [('R', '@body', ())]
    E = Engine(c.p)
    E.maxdepth = 900
    E.reclimit = lambda fn: 12
    outs = E.run(f, args, st)
    R = term.Renderer(c.p, E)
    PE = c.adt('ParserError')
    errs = {v['name']: i for i, v in enumerate(c.p.variants(PE))}
    c.functions |= E.inlined
    c.steps += E.steps
    c.outcomes += len(outs)
    res = []
    for s, v in outs:
        v = E.snap(s, v)
        if v[0] != 'A' or v[1] != RES:
            raise Exception('unknown outcome %s' % R.v(v))
        stack = [s.copy()]
        while stack:
            s2 = stack.pop()
            try:
                res.append(judge(c, E, R, s2, v, chars, pt, bt, params is None, errs))
            except Fork as fk:
                stack += fk.states
            except Impossible:
                pass
    pan = [(k, at[0][3], R.facts(at[0][0]), at[0][2]) for k, at in E.panics.items()]
    return dict(spec='%s(%s) %s' % (name, params, body), res=res, panics=pan, where=c.where(f), strange=dict(E.unmodelled), outcomes=len(outs))


def whole(w, exp, n):
    return exp is not None and w.skip(exp[0]) == n


def judge(c, E, R, st, v, chars, pt, bt, var, errs):
    l = lexref.Lex(c, E, st, chars)
    bad = []
    soft = False
    try:
        if any(x == ('i', 92) for x in chars):
            raise lexref.Reject    # names are not spelled with escapes
        l.identifier()
    except lexref.Reject:
        bad.append('InvalidMacroName')
    s = l.st
    want = {'name': lexstr.make(chars)}
    if not var:
        w = cparse.Ref(c, E, s, pt)
        exp = w.parameters(0)
        if not whole(w, exp, len(pt)):
            bad.append('InvalidMacroArgs')
        else:
            want['args'] = exp[1]
        soft |= w.soft or w.vague
        s = w.st
    w = cparse.Ref(c, E, s, bt)
    exp = w.body(0)
    if not whole(w, exp, len(bt)):
        bad.append('InvalidMacroBody')
    else:
        want['body'] = exp[1]
    loose = w.soft or w.vague
    n = len(want['args'][1]) if 'args' in want else 0
    arg = [t[3][0][3][0] for t in bt if c.p.variants(c.adt('MacroToken'))[t[2]]['name'] == 'Arg']
    if any(i[0] == 'i' and i[1] >= n for i in arg) and (var or 'args' in want):
        # refers to an argument that does not exist
        if v[2] == 0:
            return 'is accepted as %s although it refers to an argument that does not exist' % R.v(v[3][0]), R.facts(w.st)
        if 'InvalidMacroBody' not in bad:
            bad.append('InvalidMacroBody')
    facts = R.facts(w.st)
    if v[2] != 0:
        e = v[3][0]
        k = [n for n, i in errs.items() if e[0] == 'A' and e[2] == i]
        if not bad:
            return (None if soft or loose else 'is rejected with %s although every part is valid' % R.v(e)), facts
        if k and k[0] not in bad and not (soft or loose):
            return 'is rejected with %s although %s' % (R.v(e), ' and '.join('it is an ' + x for x in bad)), facts
        return None, facts
    bad = [x for x in bad if not (x == 'InvalidMacroArgs' and soft or x == 'InvalidMacroBody' and loose)]
    if bad:
        return 'is accepted as %s instead of %s' % (R.v(v[3][0]), ', '.join(bad)), facts
    m = v[3][0]
    names = c.p.adts[m[1]]['variants'][m[2]]['fields']
    for i, fd in enumerate(names):
        n = fd['name'] if isinstance(fd, dict) else fd[0] if isinstance(fd, (list, tuple)) else fd
        if n not in want:
            continue
        if n == 'body' and w.vague:
            continue
        if n == 'name':
            same = lexref.Lex(c, E, w.st, chars).same(m[3][i], want[n])
        else:
            same = w.eqv(m[3][i], want[n])
        if not same:
            return 'is understood as a macro whose %s is %s instead of %s' % (n, R.v(m[3][i]), R.v(want[n])), facts
    return None, facts


_JOB = {}


def _work(item):
    import sys, threading
    i, job = item
    c = _JOB['c']
    c.functions, c.steps, c.outcomes, c.all_strange = set(), 0, 0, {}
    box = {}

    def go():
        try:
            box['r'] = compare(c, *job)
        except Exception as e:  # noqa
            import traceback
            box['e'] = '%s: %s' % (type(e).__name__, e) + (traceback.format_exc()[-300:])
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return i, box.get('r'), box.get('e'), (c.functions, c.steps, c.outcomes, c.all_strange)


def macros(c, whole=None, only=('',), floor=300):
    import multiprocessing
    import os
    jobs = []
    for n, p, b in whole or WHOLE:
        for p2 in ([None] if p is None else cparse.expand(p)):
            for b2 in cparse.expand(b):
                jobs.append((n, p2, b2))
    _JOB['c'] = c
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        got = sorted(pool.imap_unordered(_work, list(enumerate(jobs)), chunksize=1), key=lambda x: x[0])
    n = 0
    for i, r, e, (fns, steps, outs, strange) in got:
        c.functions |= fns
        c.steps += steps
        c.outcomes += outs
        for k, x in strange.items():
            c.all_strange[k] = c.all_strange.get(k, 0) + x
        if e is not None:
            c.undecided.append(('macro %s(%s) %s' % jobs[i], e))
            continue
        c.strange = dict(r['strange'])
        c.fresh = bool(c.strange)
        for m, facts in r['res']:
            n += 1
            if m is not None and not m.startswith(tuple(only)):
                m = None
            c.ob('macros: `%s`' % r['spec'], m is None, '`%s` %s\n    when %s' % (r['spec'], m, facts), r['where'])
    c.strange = {}
    c.floor('cases of macros', n, floor)


def accessors(c):
    """each accessor returns its field"""
    n = 0
    for key in ('FnMacro::name', 'FnMacro::args', 'FnMacro::body', 'VarMacro::name', 'VarMacro::value'):
        f = c.fn(key)
        adt = c.adt(key.split('::')[0])
        fields = [x['name'] if isinstance(x, dict) else x[0] if isinstance(x, (list, tuple)) else x for x in c.p.adts[adt]['variants'][0]['fields']]
        MB = c.adt('MacroBody')
        for kind in (('Statement', 'Expr') if key == 'VarMacro::value' else (None,)):
            body = ('in', 'body') if kind is None else ('A', MB, c.p.vidx(MB, kind), (('in', 'content'),))
            vals = tuple(body if x == 'body' else ('in', x) for x in fields)
            st = State()
            st.cells['@self'] = ('A', adt, 0, vals)
            E = Engine(c.p)
            outs = E.run(f, [('R', '@self', ())], st)
            R = term.Renderer(c.p, E)
            c.functions |= E.inlined
            c.strange = dict(E.unmodelled)
            c.fresh = bool(c.strange)
            want = ('in', key.split('::')[1]) if kind is None else some(('in', 'content')) if kind == 'Expr' else NONE
            for s, v in outs:
                got = E.snap(s, v)
                if got[0] == 'R':
                    got = E.rd(s, got)
                if got[0] == 'A' and got[1] == OPT and got[3] and got[3][0][0] == 'R':
                    got = some(E.rd(s, got[3][0]))
                n += 1
                c.ob('accessor %s' % key, got == want, '%s returns %s instead of the field (%s)' % (key, R.v(got), R.v(want)), c.where(f))
    c.strange = {}
    c.floor('accessors', n, 6)
