"""Shared machinery of the checks: obligations, reports, evidence."""
import json, os, sys, time, traceback
from . import engine, models, term
from .engine import *  # noqa
from .engine import norm, is_sym, State, Engine, Program, UNIT, NONE, some, ok, err, tup, TRUE, FALSE, OPT, RES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTX = ('R', ('in', '@ctx'), ())


EXPECTED_OPAQUE = ('context::CodegenContext::',)


class MissingAnchor(Exception):
    pass


class Check:
    def __init__(self, prop, prog, tier):
        self.prop = prop
        self.p = prog
        self.tier = tier
        self.obls = []          # (name, ok, message, where)
        self.functions = set()
        self.steps = 0
        self.outcomes = 0
        self.rules = []
        self.notes = []
        self.R = term.Renderer(prog)
        self.undecided = []     # (name, why)
        self.strange = {}       # functions without a model met by the runs the next obligations are about
        self.all_strange = {}
        self.fresh = False

    # -- anchors
    def fn(self, key, trait=None, n=1, targs=None):
        r = self.p.find(key, trait)
        if targs is not None:
            r = [f for f in r if targs(self, f)]
        if len(r) < 1:
            raise MissingAnchor('function %s not found in the crate' % key)
        return r[0] if n == 1 else r

    def has(self, key, trait=None):
        return bool(self.p.find(key, trait))

    def variants(self, adt):
        if adt not in self.p.adts:
            raise MissingAnchor('type %s not found in the crate' % adt)
        return [v['name'] for v in self.p.variants(adt)]

    def adt(self, short):
        r = [a for a, v in self.p.adts.items() if v['local'] and a.split('::')[-1] == short]
        if len(r) != 1:
            raise MissingAnchor('type %s: %d candidates' % (short, len(r)))
        return r[0]

    def where(self, f):
        return '%s in %s' % (f['span'], f['key'])

    # -- running the abstract interpreter
    def run(self, f, args, st=None, handlers=None, opaque=None, tenv=None, watch=(), known=None):
        E = Engine(self.p, handlers=handlers, opaque=opaque)
        E.watch = frozenset(watch)
        E.known = known or {}
        try:
            r = E.run(f, args, st, tenv)
        finally:
            self.functions |= E.inlined
            self.steps += E.steps
            if not self.fresh:
                self.strange = {}
                self.fresh = True
            for k, n in E.unmodelled.items():
                self.all_strange[k] = self.all_strange.get(k, 0) + n
                if not k.startswith(EXPECTED_OPAQUE):
                    self.strange[k] = n
        self.outcomes += len(r)
        R = term.Renderer(self.p, E)
        return E, R, r

    # -- obligations
    def ob(self, name, good, msg='', where=''):
        self.fresh = False
        if not good and self.strange:
            # the code calls functions the analysis has no model of, so that nothing is known about this case
            self.undecided.append((name, 'calls %s' % ', '.join(sorted(self.strange))))
            return False
        self.obls.append((name, bool(good), msg, where))
        return good

    def rule(self, text):
        self.rules.append(text)

    def floor(self, what, n, least):
        if n < least:
            self.undecided.append(('coverage: %s' % what, '%d analysed, at least %d expected; the check no longer reaches the code it is about' % (n, least)))
        else:
            self.ob('coverage: %s' % what, True, '', 'src')


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> key=<obligation name> | what fails
                head, _, what = l[7:].partition(' | ')
                pid = head.split(' ')[0].split('=')[1]
                key = head.split('key=', 1)[1].strip()
                out.setdefault(pid, {})[key] = what
    return out


def main(prop, fun, explanation, assumptions=()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.path.insert(0, os.path.join(VERIF, 'driver'))
    import extract
    fatal = None
    c = None
    try:
        dump = os.environ.get('VERIF_DUMP')
        d = json.load(open(dump)) if dump else extract.extract()
        prog = Program(d)
        c = Check(prop, prog, tier)
        try:
            fun(c)
        except MissingAnchor as e:
            c.undecided.append(('anchor', str(e)))
        except (engine.Budget, engine.Unsupported) as e:
            c.undecided.append(('analysis', 'the analysis could not decide the property: %s' % e))
        except RecursionError:
            c.undecided.append(('analysis', 'recursion'))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c.undecided.append(('analysis', 'the code no longer has the shape the analysis understands (%s: %s at %s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
    except extract.ExtractError as e:
        print('the crate could not be analysed: %s' % e)
        fatal = str(e)
    known = load_known().get(prop, {})
    obls = c.obls if c else []
    bad = [o for o in obls if not o[1]]
    new = []
    seen_known = set()
    for o in bad:
        if o[0] in known:
            if o[0] not in seen_known:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[o[0]]))
            seen_known.add(o[0])
        else:
            new.append(o)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    samples = [dict(obligation=o[0], where=o[3]) for o in obls if o[1]][:12]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=explanation, obligations=len(obls), discharged=len([o for o in obls if o[1]]),
                            checker_cmd='python3 check.py %s' % prop,
                            rule=c.rules if c else [],
                            functions_analysed=sorted(norm(f) for f in c.functions)[:400] if c else [],
                            functions=len(c.functions) if c else 0,
                            abstract_steps=c.steps if c else 0, abstract_outcomes=c.outcomes if c else 0,
                            notes=c.notes if c else [],
                            undecided=['%s: %s' % u for u in sorted(set(c.undecided))][:100] if c else [],
                            samples=samples,
                            trusted_base=['rustc nightly MIR construction and callee resolution', 'driver/main.rs', 'lib/engine.py', 'lib/models.py (semantics of std, quote, proc_macro2, nom)', 'specification tables in checks/%s' % prop.lower()]),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(new) if not fatal else 1)
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d discharged, %d functions, %d abstract steps, %d outcomes, %.1f s' % (
        prop, len(obls), len([o for o in obls if o[1]]), ev['coverage']['functions'], ev['coverage']['abstract_steps'], ev['coverage']['abstract_outcomes'], time.time() - t0))
    und = sorted(set(c.undecided)) if c else []
    for u in und[:8]:
        print('UNDECIDED: property=%s %s: %s' % (prop, u[0], u[1]))
    if os.environ.get('VERIF_DEBUG') and c:
        print('unmodelled:', sorted(c.all_strange))
    if fatal or new:
        rp = os.path.join(evdir, prop + '.violation.txt')
        with open(rp, 'w', encoding='utf-8') as f:
            if fatal:
                f.write(fatal)
            for o in new:
                f.write('%s\n  at %s\n  %s\n' % (o[0], o[3], o[2]))
        shown = {}
        for o in new:
            shown.setdefault(o[0], []).append(o)
        for k in list(shown)[:12]:
            o = shown[k][0]
            print('  %s%s\n    at %s\n    %s' % (o[0], ' (%d cases)' % len(shown[k]) if len(shown[k]) > 1 else '', o[3], o[2]))
        if len(shown) > 12:
            print('  ... %d more in %s' % (len(shown) - 12, rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
