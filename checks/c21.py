"""C21: language features are generated only for targets that have them."""
import re
from lib import phase, genfn
from lib.ceval import ev, holds, Unknown

TECHNIQUE = 'abstract interpretation of the MIR of the generate functions and of code generation; feature flags compared with the required Rust versions by constant folding'
EXPLANATION = ('The feature flags in effect whenever `FnMacro::generate` and `VarMacro::generate` generate code of a part are computed from the MIR as terms over the target the context answers '
               'and folded for targets on both sides of every boundary; the constants generated for every kind of string and by `quote_static_ref`/`quote_c_char_ptr` must use a feature exactly if its flag is set.')
ASSUMPTIONS = ('semver::Version::parse accepts `major.minor.patch` and rejects text that is not a version',
               'pre-release targets of exactly the version that introduced a feature are not judged')

TARGETS = [None, 'nightly', 'stable', '', '1', '1.x', '0.58.0', '0.59.0', '0.100.0', '1.0.0', '1.9.0', '1.16.0', '1.16.99', '1.17.0', '1.17.1', '1.18.0', '1.20.0', '1.58.0', '1.58.59', '1.58.1',
           '1.59.0', '1.59.1', '1.60.0', '1.99.0', '1.100.0', '1.170.0', '2.0.0', '2.16.0', '3.58.1', '10.0.0', '1.16', '1.17', '1.58', '1.59', '1.60', '2.0', '2.17', '2.58', '0.59']
NEED = {'generate_cstr': (1, 59), 'static_lifetime_elision': (1, 17)}
TERM = ('call', 'context::CodegenContext::rust_target', genfn.CXT)
SEMVER = re.compile(r'(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)$')


def env_for(target):
    def parse(t):
        return SEMVER.match(ev(t[1], env))

    def env(t):
        if t[0] == 'variant':
            u = t[1]
            if u == TERM:
                return int(target is not None)
            if u[0] == 'parse':
                return 0 if parse(u) else 1
            return None
        if t == ('fld', TERM, 'Some', '0'):
            return target
        if t[0] == 'str+':
            return ''.join(ev(x, env) for x in t[1:])
        if t[0] == 'parse':
            return None
        if t[0] == 'fld' and t[3] in ('major', 'minor', 'patch') and t[1][0] == 'fld' and t[1][1][0] == 'parse':
            m = parse(t[1][1])
            if m is None:
                raise Unknown(t)
            return int(m.group(('major', 'minor', 'patch').index(t[3]) + 1))
        if t[0] == 'fld' and t[2] == 'Ok' and t[1][0] == 'parse':
            m = parse(t[1])
            if m is None:
                raise Unknown(t)
            return tuple(map(int, m.groups()))
        if t[0] == 'call' and t[1].endswith('Version::new'):
            return tuple(ev(x, env) for x in t[2:])
        return None
    return env


def required(target, need):
    if target is None:
        return True
    m = SEMVER.match(target) or SEMVER.match(target + '.0')
    return not m or tuple(map(int, m.groups()[:2])) >= need


def target_facts(facts):
    def mentions(t):
        return t == TERM or isinstance(t, tuple) and any(mentions(x) for x in t)
    return {k: v for k, v in facts.items() if mentions(k[1])}


def check(c):
    c.rule('flag in effect when code is generated == (target >= version that introduced the feature) for every target of the grid; feature used exactly if its flag is set')
    n = 0
    for what, (f, E, R, outs) in (('function-like macro', genfn.fn_macro(c, 0, True)), ('variable-like macro', genfn.var_macro(c, True))):
        w = c.where(f)
        seen = {}
        for s, v in outs:
            gens = [e for e in s.eff if e[0] == 'gen']
            key = (tuple(sorted(target_facts(s.facts).items(), key=repr)), tuple(sorted({e[3] for e in gens}, key=repr)))
            seen.setdefault(key, target_facts(s.facts))
        hit = set()
        for (_, flags), facts in seen.items():
            for t in TARGETS:
                try:
                    if not holds(facts, env_for(t)):
                        continue
                    for fl in flags:
                        hit.add(t)
                        for name, term in zip(genfn.FLAGS, fl):
                            got = bool(ev(term, env_for(t)))
                            n += 1
                            c.ob('%s: %s for a target' % (what, name), got == required(t, NEED[name]),
                                 'for the target %s the feature %s is taken to be %s' % (t, name, 'available' if got else 'missing'), w)
                except Unknown as e:
                    c.ob('%s: feature flags depend on the version of the target only' % what, False, 'for the target %s the flag depends on %s' % (t, R.v(e.args[0])[:300]), w)
        c.ob('%s: code is generated for every target' % what, hit == set(TARGETS), 'no code for the targets %s' % [t for t in TARGETS if t not in hit], w)
    c.floor('targets and flags', n, 4 * len(TARGETS))
    phase.strings(c, ('version',))
    phase.generated(c, ('Stringify', 'Var', 'Expr', 'Lit'), ('version',))
