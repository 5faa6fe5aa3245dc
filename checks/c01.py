"""C01: nothing panics"""
import concurrent.futures
import importlib
import json
import multiprocessing
import os
import shutil
import tempfile
from lib import cparse, engine, finspec, framework, panics, phase, sites
from lib.engine import *
from checks import c25

TECHNIQUE = 'inventory of every place of the MIR that can panic; abstract interpretation of the whole crate (the analyses of all other checks) recording each state in which such a place panics'
EXPLANATION = ('Every assertion, diverging call, unwrap, index, insertion or removal at a position, and every call of a library function that panics on bad arguments is listed from the MIR. All analyses of the other checks are run; the '
               'interpreter forks at each of these places into the states in which it panics and those in which it does not. No analysed state may panic, except for states excluded by a contract that is itself checked here: '
               'macro arguments are numbered below the number of parameters (bodies that refer to others are rejected), the literal types, the parts of concatenated identifiers. Places no analysis comes by are reported as undecided.')
ASSUMPTIONS = ('code that is interpreted on inputs of bounded length (see the other checks) is covered for these inputs', 'exhaustion of the stack or of memory is not a panic in this sense',
               'text printed from a token stream is a valid token stream', 'the macro arguments of expressions are those of the macro they are generated for')

# longest first
ORDER = 'C08 C07 C04 C22 C24 C25 C02 C18 C19 C28 C11 C14 C20 C17 C23'.split()
# these look at other aspects of runs that others of the checks do as well
SAME = 'C17 C18 C20 C29 C30 C31'.split()
ARGS = [('F', p, b) for p in ('', '?1', '?1 ?2', '...', '?1 ...', None) for b in ('$0', '$1', '$2', 'x + $1', 'f ( $0 , $2 )', '{ $1 ; $0 ; }', '# $1', 'x ## $2', '$1 ## x', '( $0 ) $1')]
_C = {}


def _one(pid):
    c0 = _C['c']
    r = panics.Recorder(_C['dir'], pid)
    engine.SITES, engine.SINK = r.site, r.sink
    c = framework.Check(pid, c0.p, c0.tier)
    bad = None
    try:
        if pid == 'own':
            for t in ('?1 ## ¶1', '# ¶1', '$0 ## ¶1'):
                try:
                    cparse.compare(c, 'Expr::parse', 'expr', t)
                except (engine.Budget, engine.Unsupported):
                    pass
        else:
            importlib.import_module('checks.' + pid.lower()).check(c)
    except Exception as e:  # noqa
        bad = '%s: %s' % (type(e).__name__, e)
    return pid, bad, c.undecided, c.functions, c.steps, c.outcomes, c.all_strange


def check(c):
    c.rule('no state reaches a panic')
    every = sites.sites(c.p)
    here = os.path.dirname(os.path.abspath(__file__))
    ids = sorted(f[:-3].upper() for f in os.listdir(here) if f[0] == 'c' and f[1:3].isdigit() and f != 'c01.py')
    ids = [x for x in ids if c.tier == 'thorough' or x not in SAME]
    ids = [x for x in ORDER if x in ids] + [x for x in ids if x not in ORDER] + ['own']
    d = tempfile.mkdtemp(prefix='c01-')
    _C.update(c=c, dir=d)
    try:
        with concurrent.futures.ProcessPoolExecutor(6, mp_context=multiprocessing.get_context('fork')) as ex:
            for pid, bad, und, fns, steps, outs, strange in ex.map(_one, ids):
                c.functions |= fns
                c.steps += steps
                c.outcomes += outs
                if bad:
                    c.undecided.append(('analysis of ' + pid, bad))
                for n, w in und[:4]:
                    c.undecided.append(('analysis of %s: %s' % (pid, n), w))
        reached, states, built = set(), {}, []
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n)) as f:
                for l in f:
                    x = json.loads(l)
                    if isinstance(x, list):
                        reached.add(tuple(x))
                    elif x['kind'] == 'continuation':
                        built.append(x)
                    else:
                        states.setdefault((x['f'], x['b'], x['kind'], x['why']), []).append(x)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    visited = {f for f, _ in reached}
    need = {why for _, _, _, why in states if why}
    n = 0
    for f, b, what, sp in every:
        if 'intrinsics::unreachable' in what:
            continue    # the comparison of different variants in derived code
        diverges = not what.startswith('assert') and not sites.CALLS.search(what)
        if f not in visited if diverges else (f, b) not in reached:
            c.undecided.append(('not analysed', '%s at %s: no analysis comes by' % (what, sp)))
            continue
        n += 1
        name = '%s in %s' % (what.split('::')[-1], norm(f))
        bad = [x for (g, k, kind, why), xs in states.items() if g == f and k == b and why is None for x in xs]
        c.ob(name, not bad, bad and say(bad[0]), sp)
        for x in bad[1:]:
            c.ob(name, False, say(x), sp)
    done = {s[:2] for s in every}
    for (f, b, kind, why), xs in sorted(states.items(), key=str):
        if why is None and (f, b) not in done:
            for x in xs:
                c.ob('%s in %s' % (kind, norm(f)), False, say(x), x['sp'])
    c.floor('places that can panic', n, 50)
    contracts(c, need, states, built, reached, every)


def say(x):
    what = {'ident': 'an identifier is made of %s, which may not be one', 'identifier': 'the text of an identifier is %s, which may not be one',
            'float': 'the literal %s may not be finite'}.get(x['kind'], x['kind'].replace('%', '%%') + ' (%s)')
    return '%s\n    in %s\n    when %s' % (what % ', '.join(x['ops']), x['at'], x['facts'])


def contracts(c, need, states, built, reached, every):
    if 'argument' in need:
        c25.macros(c, whole=ARGS, floor=50)
        phase.functions(c, ('context',))
    if 'stringified' in need:
        f, E, res = finspec.analyse(c, 'Stringify')
        for aspect, m, facts in res:
            c.ob('variable arguments are not stringified', aspect is None, '%s\n    when %s' % (m, facts), c.where(f))
        c.floor('cases of stringification', len(res), 4)
    if 'literal type' in need:
        f = c.fn('Lit::finish')
        L = c.adt('Lit')
        st = State()
        st.facts[('V', ('in', 'self'))] = frozenset({c.p.vidx(L, 'Char')})
        E, R, r = c.run(f, [('R', ('in', 'self'), ()), ('R', ('in', '@ctx'), ())], st)
        bad = []
        for s, v in r:
            v = E.snap(s, v)
            if not (v[0] == 'A' and v[2] == 1) and not (v[0] == 'A' and v[3][0][0] == 'A' and v[3][0][1] == OPT and v[3][0][2] == 1):
                bad.append('%s when %s' % (R.v(v), R.facts(s)))
        c.ob('characters have a type', r and not bad, '; '.join(bad[:2]), c.where(f))
    if 'continuation' in need:
        bad = [x for x in built if x['why'] != 'good']
        if not built:
            c.undecided.append(('contract', 'no analysis builds a number that is part of an identifier'))
        c.ob('numbers that are part of identifiers have no suffix and are not negative', not bad, bad and say(bad[0]), bad[0]['sp'] if bad else 'src')
    if 'operand' in need:
        fs = {k[0] for k in states if k[3] == 'operand'}
        for f in c.p.d['fns']:
            if sites.TEST.search(f['path']):
                continue
            for i, b in enumerate(f['blocks']):
                t = b['t']
                if t['k'] == 'call' and not b.get('cl') and f['path'] not in fs and any(x in json.dumps(t['f'], ensure_ascii=False) for x in fs):
                    if (f['path'], i) not in reached:
                        c.undecided.append(('not analysed', 'division at %s' % t['sp']))
                    else:
                        c.ob('division by zero is not reached', True, '', t['sp'])
