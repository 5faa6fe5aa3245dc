"""C26: results depend on nothing but the inputs."""
import json

TECHNIQUE = 'effect analysis over the MIR of every function of the crate: resolved callees, casts, statics, field types, receiver types, and the use of unordered collections'
EXPLANATION = ('Every call, function value, cast, static and field type in the MIR of the whole crate is classified. Reported are: calls into files, environment, clock, threads, network or randomness; statics that can be written '
               '(a static initialised by a function without captured inputs is a constant); interior mutability in the fields of a type of the crate; addresses turned into numbers, compared or printed; an expanding '
               'function that takes the macro set mutably; and iterators over hash maps or sets whose order reaches a list, string or token stream (by type: an iterator may be adapted, and consumed by order-independent '
               'functions or by collecting into a set or map).')
ASSUMPTIONS = ('the dependencies (nom, quote, syn, proc_macro2) are deterministic',)

DENY = ('std::fs::', 'std::env::', 'std::time::', 'std::net::', 'std::process::', 'std::thread::', 'std::io::', 'std::os::', 'std::random', 'core::random', 'core::time::', 'std::sys::', 'core::arch::', 'std::arch::', 'std::backtrace::')
QUIET = ('_print', '_eprint')
ADDR = ('core::ptr::eq', 'core::ptr::addr_eq', 'core::ptr::fn_addr_eq', 'ptr_eq', 'expose_provenance', 'core::fmt::Pointer')
CELLS = ('core::cell::', 'std::sync::', 'core::sync::', 'alloc::sync::', 'std::cell::', 'once_cell::')
LAZY = ('LazyLock', 'LazyCell')
ADAPT = ('map', 'filter', 'cloned', 'copied', 'chain', 'filter_map', 'flat_map', 'flatten', 'into_iter', 'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'inspect', 'by_ref', 'union', 'intersection', 'difference',
         'symmetric_difference', 'drain', 'size_hint', 'fuse', 'as_ref', 'borrow')
FREE = ('any', 'all', 'count', 'is_empty', 'len', 'contains', 'contains_key', 'get', 'get_mut', 'insert', 'remove', 'sum', 'product', 'min', 'max', 'is_subset', 'is_superset', 'is_disjoint', 'eq', 'ne', 'clone', 'drop', 'default', 'new', 'with_capacity',
        'entry', 'clear', 'retain', 'reserve', 'take', 'replace', 'get_or_insert_with', 'or_insert', 'or_insert_with', 'or_default', 'with_hasher', 'capacity', 'shrink_to_fit', 'index', 'fmt', 'bitor', 'bitand', 'sub', 'to_owned', 'hash',
        'clone_from', 'deref', 'drop_in_place', 'swap', 'unwrap_or_default', 'unwrap_or_else', 'unwrap_or', 'unwrap', 'expect', 'ok_or', 'is_some', 'is_none', 'and_then', 'or_else', 'branch', 'from_output', 'from_residual', 'into', 'try_into',
        'get_key_value', 'remove_entry', 'get_or_insert', 'partition', 'assert_receiver_is_total_eq', 'is_some_and', 'is_none_or')
LISTS = ('collect', 'from_iter', 'extend', 'from', 'partition')
LOOPS = ('next', 'for_each', 'fold', 'try_for_each', 'try_fold', 'reduce')
SINKS = ('push', 'push_str', 'push_back', 'push_front', 'append', 'append_all', 'append_terminated', 'append_separated', 'extend_from_slice', 'write_str', 'write_fmt', 'to_tokens', 'add', 'add_assign', 'concat', 'join', 'append')
SORTS = ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key')
ORDERED = ('alloc::collections::btree',)


def walk(x, what):
    if isinstance(x, dict):
        if what(x):
            yield x
        for v in x.values():
            yield from walk(v, what)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v, what)


class Types:
    def __init__(self, d):
        self.ts = d['types']
        self.memo = {}

    def paths(self, t):
        """all type constructors in a type"""
        if not isinstance(t, int):
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = frozenset()
        x = self.ts[t]
        out = {x['p']} if x.get('k') in ('adt', 'closure') else set()
        for k in ('a', 't', 'u'):
            for y in x.get(k) if isinstance(x.get(k), list) else [x.get(k)]:
                if x.get('k') == 'closure':
                    continue
                out |= self.paths(y)
        self.memo[t] = frozenset(out)
        return self.memo[t]

    def head(self, t):
        x = self.ts[t]
        while x.get('k') == 'ref':
            x = self.ts[x['t']]
        return x.get('p', '')


def hashed(p):
    return ('::hash' in p or 'hashbrown' in p) and ('::map::' in p or '::set::' in p or 'hash_map' in p or 'hash_set' in p or 'hash::' in p)


def whole(p):
    return p.split('::')[-1] in ('HashMap', 'HashSet')


def order(c, T, f, g, at, where):
    """-> (obligation applies, message)"""
    tys = [t for t in g.get('a', []) if isinstance(t, int)] + [t for t in at if isinstance(t, int)]
    own = g['p']
    iters = any(hashed(p) and not whole(p) for t in tys for p in T.paths(t))
    sets = any(hashed(p) and whole(p) for t in tys for p in T.paths(t)) or hashed(own)
    if not (iters or sets):
        return False, None
    m = own.split('::')[-1]
    if m in LISTS:
        # the collection that is built
        if m == 'collect':
            built = [t for t in g.get('a', [])[1:] if isinstance(t, int)]
        else:
            built = [t for t in g.get('a', [])[:1] if isinstance(t, int)]
        src = [t for t in tys if t not in built]
        if not any(hashed(p) for t in src for p in T.paths(t)):
            return False, None
        h = [T.head(t) for t in built]
        if h and all(hashed(x) or x.startswith(ORDERED) or T.ts[t].get('k') not in ('adt', 'ref') for x, t in zip(h, built)):
            return True, None
        return True, 'the order of an unordered collection reaches the result of `%s`' % m
    if not iters or m in ADAPT or m in FREE:
        return True, None
    if m in LOOPS:
        return True, 'loop'
    if g.get('l') or own.startswith('core::option') or own.startswith('core::result'):
        return True, None
    return True, 'an iterator over an unordered collection is consumed in order by `%s`' % m


def sinks(f, F):
    """names of the functions called in the loop of this function, or the closures it creates, that build something ordered"""
    out = set()
    for g in calls(f['blocks']):
        if g['p'].split('::')[-1] in SINKS and ('alloc::' in g['p'] or 'proc_macro2' in g['p'] or 'quote' in g['p'] or 'core::ops' in g['p'] or 'core::fmt' in g['p'] or g['kr'] in ('alloc', 'quote')):
            out.add(g['p'])
    for a in walk(f['blocks'], lambda x: x.get('k') == 'agg' and x.get('a') == 'closure'):
        if a['p'] in F and a['p'] != f['path']:
            out |= sinks(F[a['p']], F)
    return out


def calls(x):
    for y in walk(x, lambda x: x.get('k') == 'const' and 'fn' in x):
        yield y['fn']


def inloop(f, b0):
    """blocks on a cycle through block b0"""
    succ = {}
    for i, b in enumerate(f['blocks']):
        if b.get('cl'):
            succ[i] = []
            continue
        s = set()
        t = b['t']
        for k, v in t.items():
            if k in ('t', 'g', 'target', 'bb') and isinstance(v, int) and k != 'dt':
                s.add(v)
            if isinstance(v, list):
                for y in v:
                    if isinstance(y, list):
                        s |= {z for z in y[1:] if isinstance(z, int)}
                    elif isinstance(y, int) and k in ('ts', 'targets', 'tg'):
                        s.add(y)
        if isinstance(t.get('o'), int):
            s.add(t['o'])
        if isinstance(t.get('else'), int):
            s.add(t['else'])
        succ[i] = [x for x in s if 0 <= x < len(f['blocks'])]

    def reach(i):
        seen, st = set(), [i]
        while st:
            for y in succ.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    fw = reach(b0)
    if b0 not in fw:
        return set(range(len(f['blocks'])))
    return {i for i in fw if b0 in reach(i)}


def check(c):
    c.rule('no call to the environment, no writable state, no address, no order of an unordered collection in a result; expanding takes the macro set by shared reference')
    d = c.p.d
    F = {f['path']: f for f in d['fns']}
    T = Types(d)
    n = 0
    for f in d['fns']:
        c.functions.add(f['path'])
        for i, b in enumerate(f['blocks']):
            if b.get('cl'):
                continue
            term = b['t']
            where = '%s in %s' % (term.get('sp', f['span']), f['path'])
            at = term.get('at', []) if term.get('k') == 'call' else []
            if term.get('k') in ('asm', 'inlineasm'):
                c.ob('effects', False, 'inline assembly', where)
            head = term.get('f', {}).get('fn') if isinstance(term.get('f'), dict) else None
            for g in calls(b):
                n += 1
                p = g['p']
                bad = None
                if p.startswith(DENY) and p.split('::')[-1] not in QUIET:
                    bad = '`%s` depends on the environment' % p
                elif any(x in p for x in ADDR):
                    bad = '`%s` depends on addresses' % p
                elif 'RandomState' in p and p.split('::')[-1] in ('build_hasher', 'hash_one') or p.split('::')[-1] in ('hash_one', 'build_hasher') and any('RandomState' in q for t in g.get('a', []) for q in T.paths(t)):
                    bad = '`%s` depends on random keys' % p
                elif p.split('::')[-1] in ('get_or_init', 'get_or_try_init', 'set', 'store', 'fetch_add', 'fetch_sub', 'swap', 'lock', 'borrow_mut', 'with_borrow_mut', 'get_or_insert_with') and p.startswith(CELLS):
                    bad = shared(T, F, f, b, g, at)
                if bad is None and 'intrinsics' not in p:
                    applies, m = order(c, T, f, g, at if g is head else [], where)
                    if m == 'loop':
                        blocks = inloop(f, i) if p.split('::')[-1] == 'next' else {i}
                        s = set()
                        for j in blocks:
                            s |= sinks({'blocks': [f['blocks'][j]], 'path': f['path']}, F)
                        m = 'the loop over an unordered collection calls %s in the order of the collection' % ', '.join(sorted(s)) if s else None
                    if m and any(g2['p'].split('::')[-1] in SORTS for g2 in calls(f['blocks'])):
                        c.undecided.append((where, 'an unordered collection is sorted'))
                        m = None
                    bad = m
                c.ob('calls: %s' % f['path'], bad is None, '%s' % bad, where)
        for x in walk(f['blocks'], lambda x: x.get('k') == 'cast'):
            n += 1
            c.ob('casts: %s' % f['path'], 'Expose' not in x['c'] and x['c'] != 'PtrToInt', 'an address becomes a number (%s)' % x['c'], '%s in %s' % (f['span'], f['path']))
    for s in d['statics']:
        n += 1
        ok = not s['mut'] and (s['freeze'] or any(x in s['ty'] for x in LAZY) or 'OnceLock' in s['ty'] or 'OnceCell' in s['ty'])
        c.ob('statics', ok, 'the static `%s` of type %s can be modified' % (s['path'], s['ty']), s['path'])
    for path, a in d['adts'].items() if isinstance(d['adts'], dict) else ((x['path'], x) for x in d['adts']):
        for v in a['variants']:
            for fd in v['fields']:
                t = fd['ty'] if isinstance(fd, dict) else fd[1] if isinstance(fd, (list, tuple)) and len(fd) > 1 else None
                if not isinstance(t, int) or not a.get('local'):
                    continue
                n += 1
                bad = [p for p in T.paths(t) if p.startswith(CELLS) and p.split('::')[-1] not in LAZY + ('Arc', 'Weak')]
                c.ob('fields', not bad, 'a field of `%s` can be modified through a shared reference (%s)' % (path, ', '.join(bad)), path)
    k = 0
    for f in d['fns']:
        if f.get('pub') and f['path'].split('::')[-1].startswith('expand') and f['argc'] and 'MacroSet' in f['path']:
            k += 1
            t = T.ts[f['locals'][1][0]]
            c.ob('receivers', t.get('k') == 'ref' and not t.get('m'), '`%s` can modify the macro set' % f['path'], '%s in %s' % (f['span'], f['path']))
    c.floor('calls', n, 2000)
    c.floor('expanding functions', k, 3)


def shared(T, F, f, b, g, at):
    """a cell that is written: initialising a static from nothing is constant"""
    m = g['p'].split('::')[-1]
    if m in ('get_or_init', 'get_or_try_init'):
        cl = [T.ts[t] for t in g.get('a', []) + at if isinstance(t, int) and T.ts[t].get('k') == 'closure']
        if all(not x.get('u') for x in cl):
            return None
        return '`%s` keeps a value computed from the first inputs' % g['p']
    if any(T.paths(t) and 'core::cell' not in g['p'] for t in at) and ('Atomic' in g['p'] or 'Mutex' in g['p'] or 'thread' in g['p'] or 'RwLock' in g['p']):
        return '`%s` modifies shared state' % g['p']
    return None
