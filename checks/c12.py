"""C12: built-in C types and Rust type names correspond one to one."""
from lib import phase
from lib.gen import *
from lib.genspec import text, C_NAMES, BUILTIN
from lib.finspec import canon

TECHNIQUE = 'abstract interpretation of the MIR of both conversions; the two tables read off are checked to be inverse to each other'
EXPLANATION = ('The Rust type generated for every C type is computed from the MIR with and without an FFI prefix and compared with the table of C type names; every generated path and near misses of it '
               '(other prefix, missing prefix, additional segment, leading colon, qualified path) are given to the MIR of the reverse conversion, whose result must be the original type, or none.')
ASSUMPTIONS = ('FFI prefixes of at most four segments',)

NAMES = dict(BUILTIN, **C_NAMES)
PRIMITIVE = {'f32', 'f64', 'bool', 'u8', 'u16', 'u32'}


def path_state(st, root, names, colon):
    """Makes the syn::Path at `root` the path with these segments."""
    segs = []
    for i, n in enumerate(names):
        s = ('in', '%s_%d' % (root[-1] if root[0] == 'in' else 'seg', i))
        st.facts[('T', ('fld', s, None, 'ident'))] = ('in', n)
        segs.append(s)
    st.facts[('V', F(root, 'leading_colon'))] = frozenset([int(colon)])
    return ('L', tuple(segs))


def seg_index(c):
    return [x['name'] for x in c.p.variants('syn::path::Path')[0]['fields']].index('segments')


def read_back(c, names, colon=False, qself=False, prefix=None, pcolon=False, whole=False):
    """Outcomes of (BuiltIn)Type::from_rust_ty for a path with these segments."""
    f = c.fn('Type::from_rust_ty' if whole else 'BuiltInType::from_rust_ty')
    st = State()
    ty = ('in', 'ty')
    P = ('in', 'P')
    tp = ty
    if whole:
        fix_variant(c, st, ty, 'syn::ty::Type', 'Path')
        tp = F(ty, 'Path.0')
    path = F(tp, 'path')
    st.facts[('V', F(tp, 'qself'))] = frozenset([int(qself)])
    sub = [(F(path, 'segments'), path_state(st, path, names, colon))]
    if prefix is not None:
        sub.append((F(P, 'segments'), path_state(st, P, prefix, pcolon)))
    E, R, outs = c.run(f, [ty, NONE if prefix is None else some(P)], st, {}, known=dict(sub))
    return f, E, R, [(s, E.snap(s, v)) for s, v in outs]


def variant_name(c, v):
    """name of the built-in type of Some(T) / Ok(BuiltIn(T)), 'None' or None"""
    B = c.adt('BuiltInType')
    if v[0] == 'A' and v[1] == OPT:
        if v[2] == 0:
            return 'None'
        v = v[3][0]
    elif v[0] == 'A' and v[1] == RES and v[2] == 0:
        v = v[3][0]
        if v[0] == 'A' and v[1] == c.adt('Type'):
            if c.p.variants(v[1])[v[2]]['name'] != 'BuiltIn':
                return 'None'
            v = v[3][0]
    if v[0] == 'A' and v[1] == B:
        return c.p.variants(B)[v[2]]['name']
    return None


def check(c):
    c.rule('to_rust_ty is the table of Rust names (with the prefix); from_rust_ty inverts it and accepts nothing else; pointers keep mutability and pointee')
    phase.generated(c, ('Type', 'BuiltInType'), ('parts', 'form'))
    B, T = c.adt('BuiltInType'), c.adt('Type')
    n = 0
    # --- C -> Rust
    f = c.fn('BuiltInType::to_rust_ty')
    w = c.where(f)
    for ffi in (True, False):
        for k in c.variants(B):
            st = State()
            fix_variant(c, st, S, B, k)
            E, R, outs = c.run(f, [S, ('in', 'cx')], st, prefix_handlers(True, ffi))
            pre = '⟨FFI⟩ :: ' if ffi else ''
            c.ob('%s has a Rust type' % k, outs, 'no outcome', w)
            for s, v in outs:
                v = E.snap(s, v)
                n += 1
                ask = ('call', 'context::CodegenContext::resolve_ty', ('in', 'cx'), ('s', 'size_t'))
                if k == 'SizeT' and s.facts.get(('V', ask)) == frozenset([1]):
                    got, want = R.v(v), (R.v(('fld', ask, 'Some', '0')),)
                else:
                    got = text(R, v[2], []) if v[0] == 'parsed' else R.v(v)
                    if k == 'SizeT':
                        t = ('call', 'context::CodegenContext::rust_target', ('in', 'cx'))
                        want = (pre + 'c_size_t',) if s.facts.get(('V', t)) == frozenset([0]) else (pre + 'c_size_t', 'usize')
                    else:
                        want = ((pre if k in C_NAMES else '') + NAMES[k],)
                c.ob('Rust type of %s' % k, got in want, 'the type %s is written as %s instead of %s\n    when %s' % (k, got, ' or '.join(want), R.facts(s)), w)
    # --- Rust -> C and back
    inverse = {v: k for k, v in NAMES.items() if k != 'LongDouble'}
    inverse['c_size_t'] = 'SizeT'
    configs = [(None, False), (('P',), False), (('P',), True), (('P', 'Q'), False), (('P', 'Q'), True), (('P', 'Q', 'S'), False), (('P', 'Q', 'S'), True), (('P', 'Q', 'S', 'T'), True)]
    for whole in (False, True):
        for prefix, pc in configs:
            pre = prefix or ()

            def expect(names, colon, want, why, qself=False):
                f, E, R, outs = read_back(c, names, colon, qself, prefix, pc, whole)
                got = sorted({str(variant_name(c, v)) for _, v in outs})
                c.ob('reading %s back' % why, got == [want], 'the type %s%s%s with the prefix %s is read as %s instead of %s' % (
                    '<T>' if qself else '', '::' if colon else '', '::'.join(names), None if prefix is None else ('::' if pc else '') + '::'.join(prefix), ', '.join(got) or 'nothing', want), c.where(f))
            for name, k in inverse.items():
                n += 1
                if name in PRIMITIVE:
                    expect((name,), False, k, 'a primitive type')
                    continue
                expect(pre + (name,), pc if prefix else False, k, 'a C type')
                if name not in ('c_int', 'c_ulong', 'c_void') and c.tier != 'thorough':
                    continue
                expect(pre + (name, name), pc, 'None', 'a path with another segment')
                expect(pre + ('x', name), pc, 'None', 'a path with another segment')
                expect(pre + (name,), pc, 'None', 'a qualified path', qself=True)
                if prefix:
                    expect(pre + (name,), not pc, 'None', 'a path with a leading colon')
                    expect((name,), False, 'None', 'a path without the prefix')
                    expect(pre[:-1] + ('R', name), pc, 'None', 'a path with another prefix')
                    if len(pre) >= 2:
                        expect(('R',) + pre[1:] + (name,), pc, 'None', 'a path with another prefix')
                        expect(pre[1:] + (name,), pc, 'None', 'a path with a part of the prefix')
            for name in ('c_foo', 'int', 'i32', 'C_INT', 'c_'):
                expect(pre + (name,), pc if prefix else False, 'None', 'a type that is not built in')
    types(c)
    c.floor('types converted', n, 150)


def types(c):
    """Types other than built-in ones."""
    T, Q = c.adt('Type'), c.adt('TypeQualifier')
    ty, cx = ('in', 'ty'), ('in', 'cx')
    f = c.fn('Type::from_rust_ty')
    w = c.where(f)
    ok = lambda v: ('A', RES, 0, (v,))
    mk = lambda name, *a: ('A', T, c.p.vidx(T, name), tuple(a))
    qual = lambda q: ('A', Q, c.p.vidx(Q, q), ())
    for k in c.variants('syn::ty::Type'):
        if k == 'Path':
            continue
        st = State()
        fix_variant(c, st, ty, 'syn::ty::Type', k)
        E, R, outs = c.run(f, [ty, ('in', 'P')], st, {})
        c.ob('conversion of %s' % k, outs, 'no outcome', w)
        for s, v in outs:
            v = E.snap(s, v)
            got = R.v(canon(v))
            if k == 'Ptr':
                inner = ('call', 'Type::from_rust_ty', F(ty, 'Ptr.0', 'elem'), ('in', 'P'))
                r = ('fld', inner, 'Ok', '0')
                if s.facts.get(('V', inner)) == frozenset([1]):
                    want = ('A', RES, 1, (('fld', inner, 'Err', '0'),))
                elif s.facts.get(('V', F(ty, 'Ptr.0', 'mutability'))) == frozenset([1]):
                    want = ok(mk('Ptr', r))
                elif s.facts.get(('V', F(ty, 'Ptr.0', 'mutability'))) == frozenset([0]):
                    want = ok(mk('Qualified', mk('Ptr', r), qual('Const')))
                else:
                    want = None
                c.ob('conversion of pointers', want is not None and got == R.v(canon(want)), 'a pointer becomes %s instead of %s\n    when %s' % (got, want and R.v(canon(want)), R.facts(s)), w)
            elif k == 'Tuple':
                void = s.facts.get(('N', ('len', F(ty, 'Tuple.0', 'elems'))))
                empty = void is not None and void[1] == 0
                isv = variant_name(c, v) == 'Void'
                c.ob('conversion of tuples', isv == empty and (isv or v[0] == 'A' and v[2] == 1), 'a tuple becomes %s\n    when %s' % (got, R.facts(s)), w)
            elif k == 'Verbatim':
                c.ob('conversion of verbatim types', 'Verbatim.0' in got, 'becomes %s' % got, w)
            else:
                c.ob('conversion of unsupported types', v[0] == 'A' and v[1] == RES and v[2] == 1, 'the type syn::Type::%s becomes %s instead of an error' % (k, got), w)
    # other paths keep their segments and leading colon
    for names, colon in ((('foo',), False), (('foo',), True), (('a', 'b'), False), (('a', 'b', 'c'), True)):
        f, E, R, outs = read_back(c, names, colon, False, None, False, True)
        c.ob('conversion of paths', outs, 'no outcome', w)
        I = c.adt('Identifier')
        idents = [('A', I, 0, (('s', n),)) for n in names]
        for s, v in outs:
            got = R.v(canon(v))
            if len(names) == 1 and not colon:
                want = ok(mk('Identifier', ('A', c.adt('IdentifierExpr'), c.p.vidx(c.adt('IdentifierExpr'), 'Plain'), (idents[0],)), ('i', 0)))
            else:
                want = ok(mk('Path', ('i', int(colon)), ('L', tuple(idents))))
            want = R.v(canon(want))
            c.ob('conversion of paths', got == want, 'the path %s%s becomes %s instead of %s' % ('::' if colon else '', '::'.join(names), got, want), w)
    # Type -> Rust
    f = c.fn('Type::to_rust_ty')
    w = c.where(f)
    for k in c.variants(T):
        if k == 'BuiltIn':
            continue
        st = State()
        fix_variant(c, st, S, T, k)
        E, R, outs = c.run(f, [S, cx], st, prefix_handlers())
        c.ob('Rust type of %s' % k, outs, 'no outcome', w)
        for s, v in outs:
            v = E.snap(s, v)
            sub = None
            star = None
            if k == 'Ptr':
                sub, star = F(S, 'Ptr.ty'), '* mut'
            elif k == 'Qualified':
                inner = s.facts.get(('V', F(S, 'Qualified.ty')), frozenset(range(9)))
                q = s.facts.get(('V', F(S, 'Qualified.qualifier')))
                const = {c.p.vidx(Q, 'Const'), c.p.vidx(Q, 'ConstVolatile')}
                if inner == frozenset([c.p.vidx(T, 'Ptr')]) and q and q <= const:
                    sub, star = F(S, 'Qualified.ty', 'Ptr.ty'), '* const'
                elif c.p.vidx(T, 'Ptr') not in inner or q and not (q & const):
                    sub = F(S, 'Qualified.ty')
            if sub is not None:
                t = ('call', 'Type::to_rust_ty', sub, cx)
                if star is None:
                    want = {R.v(t)}
                elif s.facts.get(('V', t)) == frozenset([0]):
                    want = {R.v(NONE)}
                else:
                    want = {'%s ⟨%s⟩' % (star, R.v(('fld', t, 'Some', '0')))}
            elif k == 'Identifier':
                n = F(S, 'Identifier.name')
                I = c.adt('IdentifierExpr')
                if s.facts.get(('V', n)) == frozenset([c.p.vidx(I, 'Plain')]):
                    want = {'⟨id %s⟩' % R.v(F(n, 'Plain.0', 'id'))}
                else:
                    want = {R.v(NONE)}
            elif k == 'Path':
                lc = s.facts.get(('B', F(S, 'Path.leading_colon')))
                want = {(':: ' if lc else '') + '⟨EACH1⟩'}
            else:
                want = set()
            reps = []
            if v[0] == 'A' and v[1] == OPT and v[2] == 1 and v[3][0][0] == 'parsed':
                got = text(R, v[3][0][2], reps)
            else:
                got = R.v(v)
            c.ob('Rust type of %s' % k, got in want, 'is written as %s instead of %s\n    when %s' % (got, ' or '.join(want), R.facts(s)), w)
            for r in reps:
                for b, items in E.suffixes(r[1], r[2]):
                    t = R.ts(canon(tuple(x for x in items if x != ('tk', 'p', '::'))))
                    c.ob('segments of a path', t.startswith('⟨id elem(self.Path.segments') and t.endswith('.id⟩'), 'a segment is written as %s' % t, w)
