"""Obligations from the specifications of checking (finspec), code generation (genspec) and of the
generate functions (genfn), by aspect."""
from . import finspec, genspec, genfn, strspec

FIN_NODES = list(finspec.SPECS)
GEN_NODES = list(genspec.SPECS)


def finish(c, aspects, nodes=None, floor=True):
    n = 0
    for node in nodes or FIN_NODES:
        f, E, res = finspec.analyse(c, node)
        w = c.where(f)
        c.ob('checking %s has an outcome' % node, res, 'no outcome', w)
        for aspect, msg, facts in res:
            n += 1
            c.ob('checking %s: %s' % (node, aspect if aspect in aspects else '/'.join(aspects)), aspect not in aspects,
                 '%s\n    when %s' % (msg, facts), w)
    if floor:
        c.floor('cases of checking', n, 15 * len(nodes or FIN_NODES) if not nodes else 1)
    return n


def conditions(c, aspects):
    f, E, res = genfn.analyse_cond(c)
    for aspect, msg, facts in res:
        c.ob('checking a condition: %s' % (aspect if aspect in aspects else '/'.join(aspects)), aspect not in aspects, '%s\n    when %s' % (msg, facts), c.where(f))
    c.ob('checking a condition has an outcome', res, 'no outcome', c.where(f))


def stuck(c, E, what):
    """A macro that makes generation panic gets no code at all."""
    c.ob(what + ': every path ends with code or an error', True, '')
    for (fn, b, kind), at in E.panics.items():
        c.ob(what + ': every path ends with code or an error', False, '%s in %s\n    when %s' % (kind, at[0][3], c.R.facts(at[0][0])), at[0][2])


def functions(c, aspects, top=None):
    n = 0
    top = top if top is not None else (3 if c.tier == 'thorough' else 2)
    for k in range(top + 1):
        f, E, res = genfn.analyse_fn(c, k)
        for aspect, msg, facts in res:
            n += 1
            c.ob('function-like macro with %d parameters: %s' % (k, aspect if aspect in aspects else '/'.join(aspects)), aspect not in aspects, '%s\n    when %s' % (msg, facts), c.where(f))
        if 'macro' in aspects:
            stuck(c, E, 'function-like macro with %d parameters' % k)
    c.floor('cases of generating function-like macros', n, 200)


def variables(c, aspects):
    f, E, res = genfn.analyse_var(c)
    for aspect, msg, facts in res:
        c.ob('variable-like macro: %s' % (aspect if aspect in aspects else '/'.join(aspects)), aspect not in aspects, '%s\n    when %s' % (msg, facts), c.where(f))
    c.floor('cases of generating variable-like macros', len(res), 8)


def generated(c, nodes=None, kinds=('parts', 'form'), modes=((True, True),), form=()):
    """form: nodes of which every difference counts."""
    n = 0
    for node in nodes or GEN_NODES:
        for tp, ffi in modes:
            f, E, res = genspec.analyse(c, node, tp, ffi)
            w = c.where(f)
            c.ob('code of %s has an outcome' % node, res, 'no outcome', w)
            for m, facts in res:
                n += 1
                k = getattr(m, 'kind', 'form') if m else None
                bad = k is not None and (k in kinds or node in form and k not in ('prefix', 'version'))
                c.ob('code of %s: %s' % (node, k if bad else '/'.join(kinds)), not bad, '%s\n    when %s' % (m, facts), w)
    return n


MODES = ((True, True), (True, False), (False, True), (False, False))


def strings(c, aspects, modes=((True, True),)):
    n = 0
    for tp, ffi in modes:
        f, E, res = strspec.analyse(c, tp, ffi)
        for aspect, msg, facts in res:
            n += 1
            c.ob('string constants: %s' % (aspect if aspect in aspects else '/'.join(aspects)), aspect not in aspects, '%s\n    when %s' % (msg, facts), c.where(f))
    c.floor('cases of generating string constants', n, 12 * len(modes))
    return n
