"""C20: context answers are passed through unchanged."""
import re
from lib.gen import *
from lib import finspec, genspec, genfn, strspec, phase, term

EXPLANATION = ('Every method of the context trait is summarised for the internal wrapper and for references (must be exactly the same query on the wrapped '
               'context with the same arguments, result returned unchanged) and for its default (must answer None).')
ASSUMPTIONS = ()


def check(c):
    c.rule('wrapper method == same-named query of the wrapped context applied to the same arguments; default == None')
    tr = [f for f in c.p.fns.values() if f.get('of_trait') and norm(f['of_trait']).split('::')[-1] == 'CodegenContext']
    c.floor('trait methods with a default', len(tr), 8)
    for m in tr:
        name = m['name']
        args = [('in', 'self')] + [('in', 'a%d' % i) for i in range(1, m['argc'])]
        E, R, outs = c.run(m, args)
        c.ob('default of %s' % name, all(v == NONE for _, v in outs) and outs and all(not s.eff for s, _ in outs), 'answers %s' % [R.v(v) for _, v in outs], c.where(m))
        c.ob('default of %s does not panic' % name, not E.panics, 'may panic', c.where(m))
        impls = c.p.impls.get((norm(m['of_trait']), name), [])
        seen = 0
        for f in impls:
            owner = c.p.tyname(f['self_ty'])
            if owner.startswith('LocalContext'):
                recv = ('fld', ('in', 'self'), None, 'global_context')
            elif owner == '&T':
                recv = ('in', 'self')
            else:
                continue
            seen += 1
            E, R, outs = c.run(f, args)
            want = ('call', norm(m['of_trait']) + '::' + name, recv) + tuple(args[1:])
            for s, v in outs:
                v = E.snap(s, v)
                c.ob('%s for %s' % (name, owner), v == want and not s.eff, 'returns %s instead of %s%s' % (R.v(v), R.v(want), ' when ' + R.facts(s) if s.facts else ''), c.where(f))
            c.ob('%s for %s answers' % (name, owner), outs and not E.panics, 'no answer or panic', c.where(f))
        c.ob('%s is forwarded by the wrapper and by references' % name, seen == 2, '%d implementations forward the query; without one the default answers' % seen, c.where(m))
    # the wrapper keeps the context it was created with
    f = c.fn('LocalContext::new')
    E, R, outs = c.run(f, [('in', 'cx')])
    for s, v in outs:
        v = E.snap(s, v)
        g = E.proj1(s, v, ('f', None, [x['name'] for x in c.p.variants(c.adt('LocalContext'))[0]['fields']].index('global_context'), 'global_context'))
        c.ob('LocalContext::new keeps the context', g == ('in', 'cx'), 'global_context is %s' % R.v(g), c.where(f))
    use_sites(c)


# the queries each part makes: {query: arguments}; (done(x) is x after it was checked, finr(x) the type found for it)
SITES = {
    'checking Var': {'resolve_enum_variant': r'done\(self\.name\)\.Plain\.0\.id'},
    'checking FunctionCall': {'function': r'done\(self\.name\)\.Plain\.0\.id'},
    'checking BinaryExpr': {'resolve_field_ty': r'finr\(self\.lhs\)\.Ok\.Some\.Identifier\.name\.Plain\.0\.id, done\(.*self\.rhs.*\)\.Var\.0\.name\.Plain\.0\.id'},
    'checking Type': {'resolve_ty': r'done\(self\.Identifier\.name\)\.Plain\.0\.id'},
    'checking Expr': {'resolve_ty': r'done\(self\.Cast\.0\)\.ty\.Identifier\.name\.Plain\.0\.id'},
    'code of Var': {'resolve_enum_variant': r'self\.name\.Plain\.0\.id'},
    'code of string literals': {'resolve_ty': '"wchar_t"'},
    'generating a function-like macro': {'macro_arg_ty': r'self\.name, p0', 'function': r'self\.name'},
}


def use_sites(c):
    c.rule('every query made while checking and generating names the item it is about; in the cases in which the context answers, the answer determines type, kind or code as specified')
    runs = [('checking ' + n, lambda n=n: finspec.analyse(c, n)) for n in finspec.SPECS]
    runs += [('code of ' + n, lambda n=n: genspec.analyse(c, n)) for n in genspec.SPECS]
    runs += [('code of string literals', lambda: strspec.analyse(c)), ('generating a function-like macro', lambda: genfn.analyse_fn(c, 1)), ('generating a variable-like macro', lambda: genfn.analyse_var(c))]
    answered = re.compile(r'(?<!¬)call\(context::CodegenContext::(?!rust_target)\w+[^∈;]*\)∈\[1\]')
    sites = n = 0
    for what, run in runs:
        r = run()
        f, E, res = r
        R = term.Renderer(c.p, E)
        w = c.where(f)
        got = {}
        for name, args in E.queries:
            if 'CodegenContext::' in name:
                got.setdefault(name.split('::')[-1], set()).add(', '.join(R.v(a) for a in args))
        got.pop('rust_target', None)
        want = SITES.get(what, {})
        for q in sorted(set(got) | set(want)):
            sites += 1
            c.ob('%s asks for %s' % (what, q), q in got, 'the context is never asked for %s' % q, w)
            for a in got.get(q, ()):
                c.ob('%s asks for %s' % (what, q), q in want and re.fullmatch(want[q], a), 'the context is asked for %s(%s) instead of %s' % (q, a, want.get(q, 'nothing').replace('\\', '')), w)
        if not want:
            continue
        for m in res:
            if len(m) == 3:
                asp, msg, facts = m
            else:
                msg, facts = m
                asp = getattr(msg, 'kind', None) if msg else None
            n += 1
            bad = asp in ('type', 'frag', 'macro', 'const', 'error', 'parts', 'form') and answered.search(facts)
            c.ob('%s: use of the answers' % what, not bad, '%s\n    when %s' % (msg, facts), w)
    c.floor('queries', sites, 9)
    c.floor('cases with queries', n, 500)
