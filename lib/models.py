"""Abstract semantics of the library functions the crate calls (std, quote, proc_macro2, syn)."""
from . import rlex
from . import engine
from .engine import *  # noqa
from .engine import norm, is_sym, some, NONE, ok, err, tup, boolv, UNIT, TRUE, FALSE, OPT, RES, CF

MODELS = {}


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def pure(*names):
    def deco(f):
        def g(E, st, args, ci):
            r = f(E, st, *args)
            return None if r is None else [(st, r)]
        for n in names:
            MODELS[n] = g
        return f
    return deco


O = 'core::option::Option::'
R = 'core::result::Result::'


def fork_optref(E, st, a):
    """Option behind a reference -> [(state, None | reference to payload)]"""
    if a[0] == 'R':
        v = E.read(st, a[1], a[2])
        if v[0] == 'R':
            return fork_optref(E, st, v)
        if v[0] == 'A':
            return [(st, E.mkref(a[1], a[2] + (('f', 'Some', 0, '0'),)) if v[2] == 1 else None)]
        return [(s, E.mkref(a[1], a[2] + (('f', 'Some', 0, '0'),)) if x is not None else None) for s, x in E.fork_opt(st, v)]
    if is_sym(a):
        cv = st.cells.get(('S', a))
        if cv is not None and cv != a:
            return fork_optref(E, st, ('R', ('S', a), ()))
    return E.fork_opt(st, a)


# ---------------------------------------------------------------- Option
@m(O + 'is_some')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    if v[0] == 'A':
        return [(st, boolv(v[2] == 1))]
    t = ('isv', v, frozenset([1]), OPT)
    r = E.eval_bool(st, t)
    return [(st, boolv(r) if r is not None else t)]


@m(O + 'is_none')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    if v[0] == 'A':
        return [(st, boolv(v[2] == 0))]
    t = ('isv', v, frozenset([0]), OPT)
    r = E.eval_bool(st, t)
    return [(st, boolv(r) if r is not None else t)]


@m(R + 'is_ok', R + 'is_err')
def _(E, st, args, ci):
    want = 0 if ci.fnd['p'].endswith('is_ok') else 1
    v = E.rd(st, args[0])
    if v[0] == 'A':
        return [(st, boolv(v[2] == want))]
    return [(st, ('isv', v, frozenset([want]), RES))]


@m(O + 'as_ref', O + 'as_mut', O + 'as_deref', O + 'as_deref_mut')
def _(E, st, args, ci):
    return [(s, NONE if x is None else some(x)) for s, x in fork_optref(E, st, args[0])]


@m(O + 'cloned', O + 'copied')
def _(E, st, args, ci):
    return [(s, NONE if x is None else some(E.rd(s, x))) for s, x in E.fork_opt(st, args[0])]


@m(O + 'map')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        if x is None:
            out.append((s, NONE))
        else:
            out += [(s2, some(v)) for s2, v in E.call_value(s, args[1], [x], ci)]
    return out


@m(O + 'inspect')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        if x is None:
            out.append((s, NONE))
        else:
            out += [(s2, some(x)) for s2, v in E.call_value(s, args[1], [x], ci)]
    return out


@m(O + 'and_then')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, NONE)] if x is None else E.call_value(s, args[1], [x], ci)
    return out


@m(O + 'filter')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        if x is None:
            out.append((s, NONE))
            continue
        for s2, b in E.call_value(s, args[1], [x], ci):
            for s3, bv in E.fork_bool(s2, b):
                out.append((s3, some(x) if bv else NONE))
    return out


@m(O + 'or_else')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, some(x))] if x is not None else E.call_value(s, args[1], [], ci)
    return out


@m(O + 'or')
def _(E, st, args, ci):
    return [(s, some(x) if x is not None else args[1]) for s, x in E.fork_opt(st, args[0])]


@m(O + 'and')
def _(E, st, args, ci):
    return [(s, args[1] if x is not None else NONE) for s, x in E.fork_opt(st, args[0])]


@m(O + 'xor')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        for s2, y in E.fork_opt(s, args[1]):
            out.append((s2, some(x) if x is not None and y is None else some(y) if y is not None and x is None else NONE))
    return out


@m(O + 'zip')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        for s2, y in E.fork_opt(s, args[1]):
            out.append((s2, some(tup(x, y)) if x is not None and y is not None else NONE))
    return out


@m('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some')
def _(E, st, args, ci):
    out = []
    for s, b in E.fork_bool(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif ci.fnd['p'].endswith('then_some'):
            out.append((s, some(args[1])))
        else:
            out += [(s2, some(x)) for s2, x in E.call_value(s, args[1], [], ci)]
    return out


@m(O + 'unwrap_or')
def _(E, st, args, ci):
    return [(s, x if x is not None else args[1]) for s, x in E.fork_opt(st, args[0])]


@m(O + 'unwrap_or_else')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, x)] if x is not None else E.call_value(s, args[1], [], ci)
    return out


def default_of(E, st, ti, ci):
    n = E.p.tyname(ti)
    if n == 'bool':
        return [(st, FALSE)]
    if n == 'String' or n == '&str' or n == 'str' or n.startswith('Cow<'):
        return [(st, ('s', ''))]
    if n.startswith('Option<'):
        return [(st, NONE)]
    if n.startswith('Vec<'):
        return [(st, ('L', ()))]
    if n == 'TokenStream':
        return [(st, ('TS', ()))]
    if n.startswith('BTreeSet<'):
        return [(st, ('L', ()))]
    if n.startswith('HashSet<'):
        return [(st, ('setnew',))]
    if n.startswith('HashMap<'):
        return [(st, ('mapnew',))]
    from .engine import int_bits
    if int_bits(n):
        return [(st, ('i', 0))]
    a = E.adt_strict(ti)
    for f in E.p.impls.get(('core::default::Default', 'default'), []):
        if E.adt_strict(f['self_ty']) == a:
            return E.run_fn(f, [], st, {})
    return [(st, ('call', 'default', ('s', n)))]


@m(O + 'unwrap_or_default')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, x)] if x is not None else default_of(E, s, ci.ret_ty, ci)
    return out


@m('core::default::Default::default')
def _(E, st, args, ci):
    return default_of(E, st, ci.ret_ty, ci)


@m(O + 'map_or')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, args[1])] if x is None else E.call_value(s, args[2], [x], ci)
    return out


@m(O + 'map_or_else')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += E.call_value(s, args[1], [], ci) if x is None else E.call_value(s, args[2], [x], ci)
    return out


@m(O + 'is_some_and')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, FALSE)] if x is None else E.call_value(s, args[1], [x], ci)
    return out


@m(O + 'is_none_or')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, TRUE)] if x is None else E.call_value(s, args[1], [x], ci)
    return out


@m(O + 'ok_or')
def _(E, st, args, ci):
    return [(s, ok(x) if x is not None else err(args[1])) for s, x in E.fork_opt(st, args[0])]


@m(O + 'ok_or_else')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out += [(s, ok(x))] if x is not None else [(s2, err(v)) for s2, v in E.call_value(s, args[1], [], ci)]
    return out


@m(O + 'unwrap', O + 'expect')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        if x is None:
            E.panic(s, ci.fr, ci.b, 'unwrap', [args[0]], ci.sp)
        else:
            out.append((s, x))
    return out


@m(R + 'unwrap', R + 'expect')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        if k == 'Err':
            E.panic(s, ci.fr, ci.b, 'unwrap', [args[0]], ci.sp)
        else:
            out.append((s, x))
    return out


@m(O + 'take', 'core::mem::take')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    st = st.copy()
    a = args[0]
    while a[0] == 'R' and E.read(st, a[1], a[2])[0] == 'R':
        a = E.read(st, a[1], a[2])
    if ci.fnd['p'].endswith('mem::take'):
        ti = ci.ret_ty
        ds = default_of(E, st, ti, ci)
    else:
        ds = [(st, NONE)]
    out = []
    for s, d in ds:
        c, pr = E.deref(a)
        E.write(s, c, pr, d)
        out.append((s, v))
    return out


@m('core::mem::replace', O + 'replace', O + 'insert')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    st = st.copy()
    c, pr = E.deref(args[0])
    nm = ci.fnd['p']
    new = args[1] if 'mem::replace' in nm else some(args[1])
    E.write(st, c, pr, new)
    if nm.endswith('insert'):
        return [(st, E.mkref(c, pr + (('f', 'Some', 0, '0'),)))]
    return [(st, v)]


@m('core::mem::swap')
def _(E, st, args, ci):
    st = st.copy()
    a, b = E.rd(st, args[0]), E.rd(st, args[1])
    c, pr = E.deref(args[0])
    E.write(st, c, pr, b)
    c, pr = E.deref(args[1])
    E.write(st, c, pr, a)
    return [(st, UNIT)]


@m(O + 'get_or_insert', O + 'get_or_insert_with')
def _(E, st, args, ci):
    out = []
    for s, x in fork_optref(E, st, args[0]):
        if x is not None:
            out.append((s, x))
        else:
            vals = [(s, args[1])] if not ci.fnd['p'].endswith('with') else E.call_value(s, args[1], [], ci)
            for s2, v in vals:
                s2 = s2.copy()
                c, pr = E.deref(args[0])
                E.write(s2, c, pr, some(v))
                out.append((s2, E.mkref(c, pr + (('f', 'Some', 0, '0'),))))
    return out


@m(O + 'transpose')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        if x is None:
            out.append((s, ok(NONE)))
        else:
            out += [(s2, ok(some(y)) if k == 'Ok' else err(y)) for s2, k, y in E.fork_res(s, x)]
    return out


@m(O + 'flatten')
def _(E, st, args, ci):
    out = []
    for s, x in E.fork_opt(st, args[0]):
        out.append((s, NONE if x is None else x))
    return out


# ---------------------------------------------------------------- Result
@m(R + 'map')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, err(x))] if k == 'Err' else [(s2, ok(v)) for s2, v in E.call_value(s, args[1], [x], ci)]
    return out


@m(R + 'map_err')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, ok(x))] if k == 'Ok' else [(s2, err(v)) for s2, v in E.call_value(s, args[1], [x], ci)]
    return out


@m(R + 'and_then')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, err(x))] if k == 'Err' else E.call_value(s, args[1], [x], ci)
    return out


@m(R + 'or_else')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, ok(x))] if k == 'Ok' else E.call_value(s, args[1], [x], ci)
    return out


@m(R + 'ok')
def _(E, st, args, ci):
    return [(s, some(x) if k == 'Ok' else NONE) for s, k, x in E.fork_res(st, args[0])]


@m(R + 'err')
def _(E, st, args, ci):
    return [(s, some(x) if k == 'Err' else NONE) for s, k, x in E.fork_res(st, args[0])]


@m(R + 'unwrap_or')
def _(E, st, args, ci):
    return [(s, x if k == 'Ok' else args[1]) for s, k, x in E.fork_res(st, args[0])]


@m(R + 'unwrap_or_default')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, x)] if k == 'Ok' else default_of(E, s, ci.ret_ty, ci)
    return out


@m(R + 'unwrap_or_else')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, x)] if k == 'Ok' else E.call_value(s, args[1], [x], ci)
    return out


@m(R + 'map_or')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, args[1])] if k == 'Err' else E.call_value(s, args[2], [x], ci)
    return out


@m(R + 'map_or_else')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += E.call_value(s, args[1] if k == 'Err' else args[2], [x], ci)
    return out


@m(R + 'is_ok_and')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        out += [(s, FALSE)] if k == 'Err' else E.call_value(s, args[1], [x], ci)
    return out


@m(R + 'as_ref', R + 'as_mut')
def _(E, st, args, ci):
    a = args[0]
    out = []
    for s, k, x in E.fork_res(st, a):
        if a[0] == 'R':
            x = E.mkref(a[1], a[2] + (('f', k, 0, '0'),))
        out.append((s, ok(x) if k == 'Ok' else err(x)))
    return out


@m(R + 'transpose')
def _(E, st, args, ci):
    out = []
    for s, k, x in E.fork_res(st, args[0]):
        if k == 'Err':
            out.append((s, some(err(x))))
        else:
            out += [(s2, NONE if y is None else some(ok(y))) for s2, y in E.fork_opt(s, x)]
    return out


@m('core::ops::try_trait::Try::branch')
def _(E, st, args, ci):
    n = E.p.tyname(ci.arg_ty(0))
    v = E.rd(st, args[0])
    if n.startswith('Option<') or v[0] == 'A' and v[1] == OPT:
        return [(s, ('A', CF, 0, (x,)) if x is not None else ('A', CF, 1, (NONE,))) for s, x in E.fork_opt(st, v)]
    return [(s, ('A', CF, 0, (x,)) if k == 'Ok' else ('A', CF, 1, (err(x),))) for s, k, x in E.fork_res(st, v)]


@m('core::ops::try_trait::FromResidual::from_residual')
def _(E, st, args, ci):
    v = args[0]
    if v == NONE:
        return [(st, NONE)]
    e = v[3][0] if v[0] == 'A' else ('fld', v, 'Err', '0')
    # the error is converted with From::from when the types differ
    ts, tr = ci.ret_ty, ci.arg_ty(0)
    te = E.p.types[ts]['a'][1] if E.p.types[ts].get('a') and len(E.p.types[ts]['a']) > 1 else None
    tf = E.p.types[tr]['a'][1] if E.p.types[tr].get('a') and len(E.p.types[tr]['a']) > 1 else None
    if te is not None and tf is not None and E.p.tyname(te) != E.p.tyname(tf):
        return [(s, err(x)) for s, x in conv(E, st, e, tf, te, ci)]
    return [(st, err(e))]


@m('core::ops::try_trait::Try::from_output')
def _(E, st, args, ci):
    n = E.p.tyname(ci.ret_ty)
    return [(st, some(args[0]) if n.startswith('Option<') else ok(args[0]))]


def conv(E, st, v, tf, tt, ci):
    """From/Into conversion between types."""
    nf, nt = E.p.tyname(tf), E.p.tyname(tt)
    a = E.adt_strict(tt)
    for f in E.p.impls.get(('core::convert::From', 'from'), []):
        if E.adt_strict(f['self_ty']) == a and a is not None and E.unify(f['targs'][1], tf):
            return E.run_fn(f, [v], st, {})
    strs = ('String', '&str', 'str', 'Cow<str>', '&String', 'Box<str>', '&mut str')
    if nf in strs and nt in strs:
        return [(st, E.rd(st, v) if v[0] == 'R' else v)]
    if nf == nt or nt == 'Box<%s>' % nf or nf == 'Box<%s>' % nt:
        return [(st, v)]
    if nt == 'Option<%s>' % nf:
        return [(st, some(v))]
    from .engine import int_bits
    if int_bits(nt) and (int_bits(nf) or nf in ('bool', 'char')):
        return [(st, v if v[0] == 'i' else ('as', nf, nt, v))]
    if nt == 'TokenStream':
        return [(s, ('TS', it)) for s, it in totokens(E, st, v, ci)]
    if nt.startswith('Vec<') or nt.startswith('Cow<['):
        return [(st, E.rd(st, v))]
    if nf == 'char' and nt == 'String':
        return [(st, ('str+', v))]
    return [(st, ('conv', nf, nt, E.snap(st, v)))]


@m('core::convert::From::from')
def _(E, st, args, ci):
    return conv(E, st, args[0], ci.arg_ty(0), ci.ret_ty, ci)


@m('core::convert::Into::into')
def _(E, st, args, ci):
    return conv(E, st, args[0], ci.arg_ty(0), ci.ret_ty, ci)


@m('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(E, st, args, ci):
    from .engine import int_bits, in_range
    nf, nr = E.p.tyname(ci.arg_ty(0)), ci.ret_ty
    tt = E.p.types[nr]['a'][0] if E.p.types[nr].get('a') else None
    nt = E.p.tyname(tt) if tt is not None else '?'
    a = E.adt_strict(tt) if tt is not None else None
    for f in E.p.impls.get(('core::convert::TryFrom', 'try_from'), []):
        if a is not None and E.adt_strict(f['self_ty']) == a and E.unify(f['targs'][1], ci.arg_ty(0)):
            return E.run_fn(f, [args[0]], st, {})
    b = int_bits(nt)
    v = args[0]
    if b and (int_bits(nf) or nf == 'char'):
        lo, hi = (-(1 << (b[1] - 1)), (1 << (b[1] - 1)) - 1) if b[0] else (0, (1 << b[1]) - 1)
        if v[0] == 'i':
            return [(st, ok(v) if lo <= v[1] <= hi else err(('in', 'TryFromIntError')))]
        out = []
        inr = ('inrange', v, nt)
        for s, bv in E.fork_bool(st, inr):
            if bv:
                if E.refine_num(s, v, 'Ge', lo, True) and E.refine_num(s, v, 'Le', hi, True):
                    out.append((s, ok(('as', nf, nt, v))))
            else:
                out.append((s, err(('in', 'TryFromIntError'))))
        return out
    return None


# ---------------------------------------------------------------- references, clones, strings
@m('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::borrow::Cow::into_owned',
   'alloc::slice::to_vec', 'alloc::slice::into_vec', 'alloc::boxed::Box::new', 'core::hint::must_use', 'core::str::to_owned',
   'alloc::string::String::into_boxed_str', 'core::iter::traits::iterator::Iterator::by_ref__no', 'core::convert::identity',
   'core::hint::black_box')
def _(E, st, args, ci):
    nm = ci.fnd['p'] if ci.fnd else ''
    if 'Box' in nm or 'must_use' in nm or 'identity' in nm:
        return [(st, args[0])]
    ti = ci.arg_ty(0)
    v = args[0]
    if v[0] == 'R':
        # one level of reference is removed; a clone of a reference is the reference
        t = E.p.types[ti]
        if t['k'] == 'ref' and E.p.types[t['t']]['k'] == 'ref':
            return [(st, E.read(st, v[1], v[2]))]
        return [(st, E.rd(st, v))]
    return [(st, E.rd(st, v))]


@m('alloc::string::ToString::to_string')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    n = E.p.tyname(ci.arg_ty(0)).lstrip('&')
    if v[0] == 's':
        return [(st, v)]
    if n in ('str', 'String', 'Cow<str>', 'char'):
        return [(st, v if n != 'char' else ('str+', v))]
    v = E.snap(st, v)
    if n == 'Ident':
        known = st.facts.get(('T', v))
        if known and known[0] == 'in':
            return [(st, ('s', known[1]))]
    if v[0] == 'i' and n in ('usize', 'isize', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128'):
        return [(st, ('s', str(v[1])))]
    return [(st, ('call', 'to_string', v))]


@m('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref',
   'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
   'alloc::string::String::as_str', 'alloc::string::String::as_mut_str', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice',
   'alloc::borrow::Cow::to_mut', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::as_ref')
def _(E, st, args, ci):
    v = args[0]
    t = E.p.tyname(ci.ret_ty)
    if v[0] == 'R':
        x = E.read(st, v[1], v[2])
        if x[0] == 'R':
            return [(st, x)]
        if t in ('&str',):
            return [(st, x)]
        if t == '&[u8]' and x[0] == 's':
            return [(st, ('b', tuple(x[1].encode())))]
    return [(st, v)]


@pure('core::str::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'core::str::into_bytes')
def _(E, st, a):
    v = E.rd(st, a)
    if v[0] == 's':
        return ('b', tuple(v[1].encode()))
    return ('bytes_of', E.snap(st, v))


@pure('core::str::is_empty', 'alloc::string::String::is_empty')
def _(E, st, a):
    v = E.rd(st, a)
    if v[0] == 's':
        return boolv(v[1] == '')
    return ('seq', E.snap(st, v), '')


@pure('alloc::vec::Vec::len', 'core::slice::len', 'core::str::len', 'alloc::string::String::len', 'std::collections::hash::set::HashSet::len',
      'std::collections::hash::map::HashMap::len', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def _(E, st, a):
    v = E.rd(st, a)
    return E.len_of(st, v) if v[0] != 'IT' else ('len', ('seqof', v))


@pure('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'std::collections::hash::set::HashSet::is_empty',
      'std::collections::hash::map::HashMap::is_empty', 'alloc::collections::btree::set::BTreeSet::is_empty', 'syn::punctuated::Punctuated::is_empty')
def _(E, st, a):
    return E.mkcmp(st, 'Eq', E.len_of(st, a), ('i', 0))


@pure('syn::punctuated::Punctuated::len')
def _(E, st, a):
    return E.len_of(st, a)


@pure('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'core::iter::sources::empty::empty')
def _(E, st, *a):
    return ('L', ())


@pure('alloc::string::String::new', 'alloc::string::String::with_capacity')
def _(E, st, *a):
    return ('s', '')


def catstr(a, b):
    pa = a[1:] if a[0] == 'str+' else (a,)
    pb = b[1:] if b[0] == 'str+' else (b,)
    out = []
    for x in pa + pb:
        if x == ('s', ''):
            continue
        if out and out[-1][0] == 's' and x[0] == 's':
            out[-1] = ('s', out[-1][1] + x[1])
        else:
            out.append(x)
    if not out:
        return ('s', '')
    if len(out) == 1 and out[0][0] == 's':
        return out[0]
    if len(out) == 1 and is_sym(out[0]) and out[0] not in pb[-1:]:
        return out[0]
    return ('str+',) + tuple(out)


@m('alloc::string::String::push_str', 'alloc::string::String::push')
def _(E, st, args, ci):
    st = st.copy()
    c, pr = E.deref(args[0])
    v = E.read(st, c, pr)
    x = E.snap(st, E.rd(st, args[1]))
    if ci.fnd['p'].endswith('::push'):
        x = ('s', chr(x[1])) if x[0] == 'i' else ('chr', x)
    E.write(st, c, pr, catstr(v, x))
    return [(st, UNIT)]


def strpred(name, f):
    @pure('core::str::' + name)
    def _(E, st, a, b):
        a, b = E.rd(st, a), E.rd(st, b)
        if b[0] == 'i':
            b = ('s', chr(b[1]))
        if a[0] == 's' and b[0] == 's':
            return boolv(f(a[1], b[1]))
        fs = st.facts.get(('T', a))
        if fs and fs[0] == 'in' and b[0] == 's':
            return boolv(f(fs[1], b[1]))
        return ('strp', name, E.snap(st, a), E.snap(st, b))


strpred('starts_with', lambda a, b: a.startswith(b))
strpred('ends_with', lambda a, b: a.endswith(b))
strpred('contains', lambda a, b: b in a)


@m('core::str::strip_prefix', 'core::str::strip_suffix')
def _(E, st, args, ci):
    pre = ci.fnd['p'].endswith('prefix')
    a, b = E.rd(st, args[0]), E.rd(st, args[1])
    if b[0] == 'i':
        b = ('s', chr(b[1]))
    if a[0] == 's' and b[0] == 's':
        if pre:
            return [(st, some(('s', a[1][len(b[1]):])) if a[1].startswith(b[1]) else NONE)]
        return [(st, some(('s', a[1][:len(a[1]) - len(b[1])])) if a[1].endswith(b[1]) else NONE)]
    return [(s, some(('strip', pre, a, b)) if v else NONE) for s, v in E.fork_bool(st, ('strp', 'starts_with' if pre else 'ends_with', E.snap(st, a), E.snap(st, b)))]


@pure('core::str::trim', 'core::str::trim_start', 'core::str::trim_end', 'core::str::to_lowercase', 'alloc::str::to_lowercase', 'alloc::str::to_uppercase', 'alloc::str::replace',
      'core::str::chars', 'core::str::bytes', 'core::str::char_indices', 'core::str::split', 'core::str::split_whitespace', 'core::str::encode_utf16', 'core::str::lines')
def _(E, st, *a):
    raise NotImplementedError


def strfn(name, *names):
    def g(E, st, args, ci):
        vs = [E.snap(st, E.rd(st, x)) for x in args]
        v = vs[0]
        if name in ('chars', 'bytes', 'encode_utf16', 'char_indices', 'split', 'split_whitespace', 'lines'):
            if name == 'chars' and v[0] == 's':
                return [(st, ('IT', 'seq', tuple(('i', ord(c)) for c in v[1]), 0, None))]
            return [(st, ('IT', 'sym', (name,) + tuple(vs), None))]
        if v[0] == 's' and name == 'trim':
            return [(st, ('s', v[1].strip()))]
        if v[0] == 's' and name in ('trim_start', 'trim_end'):
            return [(st, ('s', v[1].lstrip() if name == 'trim_start' else v[1].rstrip()))]
        if name in ('trim_matches', 'trim_start_matches', 'trim_end_matches') and all(x[0] in ('s', 'i') for x in vs):
            t, y = v[1], vs[1][1] if vs[1][0] == 's' else chr(vs[1][1])
            while y and name != 'trim_end_matches' and t.startswith(y):
                t = t[len(y):]
            while y and name != 'trim_start_matches' and t.endswith(y):
                t = t[:len(t) - len(y)]
            return [(st, ('s', t))]
        if name in ('trim_matches', 'trim_start_matches', 'trim_end_matches') and vs[1][0] not in ('s', 'i', 'L') and not is_sym(vs[1]):
            return None
        if v[0] == 's' and name in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            return [(st, ('s', ''.join((c.lower() if name.endswith('lowercase') else c.upper()) if ord(c) < 128 else c for c in v[1])))]
        if name == 'repeat' and v[0] == 's' and vs[1][0] == 'i':
            return [(st, ('s', v[1] * vs[1][1]))]
        if v[0] == 's' and name == 'to_lowercase':
            return [(st, ('s', v[1].lower()))]
        if v[0] == 's' and name == 'to_uppercase':
            return [(st, ('s', v[1].upper()))]
        if name == 'replace' and all(x[0] in ('s', 'i') for x in vs):
            y = [x[1] if x[0] == 's' else chr(x[1]) for x in vs]
            return [(st, ('s', y[0].replace(y[1], y[2])))]
        return [(st, (name,) + tuple(vs))]
    for n in names:
        MODELS[n] = g


strfn('trim', 'core::str::trim')
for _n in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
    strfn(_n, 'core::str::' + _n)
for _n in ('to_ascii_lowercase', 'to_ascii_uppercase', 'repeat', 'replacen'):
    strfn(_n, 'alloc::str::' + _n)
strfn('trim_start', 'core::str::trim_start')
strfn('trim_end', 'core::str::trim_end')
strfn('to_lowercase', 'alloc::str::to_lowercase')
strfn('to_uppercase', 'alloc::str::to_uppercase')
strfn('replace', 'alloc::str::replace')
for _n in ('chars', 'bytes', 'encode_utf16', 'char_indices', 'split', 'split_whitespace', 'lines'):
    strfn(_n, 'core::str::' + _n)


@m('core::str::parse')
def _(E, st, args, ci):
    n = E.p.tyname(ci.ret_ty)
    v = E.snap(st, E.rd(st, args[0]))
    if n.startswith('Result<TokenStream'):
        parts = []
        for x in (v[1:] if v[0] == 'str+' else (v,)):
            if x[0] == 's':
                parts.append(x[1])
            elif x[0] == 'new_display' and x[1][0] == 'TS':
                parts.append(x[1][1])
            elif x[0] in ('tok',):
                parts.append((('hole', x),))
            else:
                parts = None
                break
        if parts is not None:
            its = rlex.lex(parts)
            if its is not None:
                return [(st, ok(('TS', its)))]
    return [(st, ('parse', n, v))]


def own_eq(E, st, args, ci):
    """Comparison of references to types with a comparison of their own."""
    try:
        a, b = E.p.types[ci.arg_ty(0)], E.p.types[ci.arg_ty(1)]
    except Exception:
        return E.eq(st, args[0], args[1])
    while a['k'] == 'ref' and b['k'] == 'ref':
        a, b = E.p.types[a['t']], E.p.types[b['t']]
        if a['k'] == 'adt':
            for f in E.p.impls.get(('core::cmp::PartialEq', 'eq'), []):
                if f.get('derived') or len(f.get('targs', [])) != 2:
                    continue
                x, y = (E.p.types[t] for t in f['targs'])
                if x['k'] == 'adt' and x['p'] == a['p'] and y['k'] == b['k'] and y.get('p') == b.get('p') and (y['k'] != 'ref' or E.p.types[y['t']]['k'] == E.p.types[b['t']]['k']):
                    return E.run_fn(f, [E.rd(st, args[0]), E.rd(st, args[1])], st, {})
    return E.eq(st, args[0], args[1])


@m('core::cmp::PartialEq::eq')
def _(E, st, args, ci):
    return own_eq(E, st, args, ci)


@m('core::cmp::PartialEq::ne')
def _(E, st, args, ci):
    return [(s, boolv(not v[1]) if v[0] == 'i' else v[1] if v[0] == 'not' else ('not', v)) for s, v in own_eq(E, st, args, ci)]


@m('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _(E, st, args, ci):
    a, b = E.rd(st, args[0]), E.rd(st, args[1])
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[ci.fnd['m']]
    n = E.p.tyname(ci.arg_ty(0)).lstrip('&')
    from .engine import int_bits
    if int_bits(n) or n in ('char', 'bool') or a[0] == 'i' and b[0] == 'i':
        return [(st, E.mkcmp(st, op, a, b))]
    return [(st, ('op', op, E.snap(st, a), E.snap(st, b)))]


@m('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def _(E, st, args, ci):
    a, b = args
    mx = 'max' in ci.fnd['p'].split('::')[-1]
    c = E.mkcmp(st, 'Le', a, b)
    return [(s, (b if v else a) if mx else (a if v else b)) for s, v in E.fork_bool(st, c)]


@m('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    adt = E.p.adt_of(ci.arg_ty(0))
    d = E.discr_of(st, v, adt)
    if d[0] == 'i':
        return [(st, d)]
    # comparisons of tags are structural: fork on the tag
    return [(s, ('i', int(E.p.variants(adt)[i]['discr']))) for s, i in E.fork_variant(st, v if v[0] != 'U' else v[1], adt)]


# ---------------------------------------------------------------- callables
@m('core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call', 'core::ops::function::FnOnce::call_once')
def _(E, st, args, ci):
    a = args[1]
    xs = list(a[3]) if a[0] == 'A' else [('fld', a, None, '0')]
    return E.call_place(st, args[0], xs, ci)


# ---------------------------------------------------------------- vectors and slices
@m('alloc::vec::Vec::push')
def _(E, st, args, ci):
    st = st.copy()
    c, pr = E.deref(args[0])
    v = E.read(st, c, pr)
    if v[0] == 'R':
        c, pr = v[1], v[2]
        v = E.read(st, c, pr)
    x = args[1]
    if v[0] == 'L':
        v = ('L', v[1] + (x,))
    else:
        v = ('L', (('splat', v), x))
    E.write(st, c, pr, v)
    return [(st, UNIT)]


@m('alloc::vec::Vec::pop')
def _(E, st, args, ci):
    st = st.copy()
    c, pr = E.deref(args[0])
    v = E.read(st, c, pr)
    if v[0] == 'L' and not v[1]:
        return [(st, NONE)]
    if v[0] == 'L' and not E.is_multi(v[1][-1]):
        st.flags = st.flags | {'concnext'}
        E.write(st, c, pr, ('L', v[1][:-1]))
        return [(st, some(v[1][-1]))]
    t = ('pop', E.snap(st, v))
    out = []
    for s, x in E.fork_opt(st, t):
        if x is not None:
            E.write(s, c, pr, ('popped', E.snap(s, v)))
        out.append((s, NONE if x is None else some(x)))
    return out


@m('alloc::vec::Vec::insert', 'alloc::vec::Vec::remove', 'alloc::vec::Vec::truncate', 'alloc::vec::Vec::clear', 'alloc::vec::Vec::drain',
   'alloc::vec::Vec::swap_remove', 'core::slice::reverse', 'core::slice::sort', 'alloc::vec::Vec::dedup', 'core::slice::swap', 'alloc::vec::Vec::split_off')
def _(E, st, args, ci):
    nm = ci.fnd['p'].split('::')[-1]
    c, pr = E.deref(args[0])
    v = E.rd(st, args[0])
    if nm in ('remove', 'insert', 'swap_remove'):
        ln = E.len_of(st, v)
        cond = E.mkcmp(st, 'Le' if nm == 'insert' else 'Lt', args[1], ln)
        for s, bv in E.fork_bool(st, cond):
            if not bv:
                E.panic(s, ci.fr, ci.b, 'call:' + nm, [args[1], ln], ci.sp)
            else:
                st = s
    st = st.copy()
    conc = v[0] == 'L' and not any(E.is_multi(x) for x in v[1])
    if nm == 'clear':
        E.write(st, c, pr, ('L', ()))
        return [(st, UNIT)]
    if nm == 'reverse' and conc:
        E.write(st, c, pr, ('L', v[1][::-1]))
        return [(st, UNIT)]
    if nm == 'insert' and v[0] == 'L' and args[1] == ('i', 0):
        E.write(st, c, pr, ('L', (args[2],) + v[1]))
        return [(st, UNIT)]
    if conc and len(args) > 1 and args[1][0] == 'i':
        i = args[1][1]
        if nm == 'insert' and i <= len(v[1]):
            E.write(st, c, pr, ('L', v[1][:i] + (args[2],) + v[1][i:]))
            return [(st, UNIT)]
        if nm == 'remove' and i < len(v[1]):
            st.flags = st.flags | {'concnext'}
            E.write(st, c, pr, ('L', v[1][:i] + v[1][i + 1:]))
            return [(st, v[1][i])]
        if nm == 'swap_remove' and i < len(v[1]):
            st.flags = st.flags | {'concnext'}
            l = v[1][:i] + (v[1][-1:] if i < len(v[1]) - 1 else ()) + v[1][i + 1:-1]
            E.write(st, c, pr, ('L', l))
            return [(st, v[1][i])]
        if nm == 'swap' and args[2][0] == 'i' and max(i, args[2][1]) < len(v[1]):
            l = list(v[1])
            l[i], l[args[2][1]] = l[args[2][1]], l[i]
            E.write(st, c, pr, ('L', tuple(l)))
            return [(st, UNIT)]
    if nm in ('drain', 'split_off', 'truncate') and v[0] == 'L':
        lo, hi = args[1], ('end', 0)
        if nm == 'truncate':
            lo, hi = ('i', 0), args[1]
        elif lo[0] == 'A':
            n = E.p.tyname_of_value(lo) if hasattr(E.p, 'tyname_of_value') else lo[1].split('::')[-1]
            hi = lo[3][1] if n == 'Range' else lo[3][0] if n == 'RangeTo' else ('end', 0)
            lo = lo[3][0] if n in ('Range', 'RangeFrom') else ('i', 0) if n in ('RangeFull', 'RangeTo') else None
        if lo == ('i', 0) and hi == ('end', 0):
            a_, b_ = v[1], ()
            ok_ = True
        else:
            ok_ = conc and lo is not None and lo[0] == 'i' and hi[0] in ('i', 'end')
            if ok_:
                i, j = lo[1], hi[1] if hi[0] == 'i' else len(v[1])
                ok_ = i <= j <= len(v[1]) or nm == 'truncate'
                a_, b_ = v[1][i:j], v[1][:i] + v[1][j:]
        if ok_:
            if nm == 'truncate':
                E.write(st, c, pr, ('L', a_))
                return [(st, UNIT)]
            E.write(st, c, pr, ('L', b_))
            return [(st, mkiter(E, st, ('L', a_), True) if nm == 'drain' else ('L', a_))]
    if nm not in ('insert', 'remove', 'swap_remove', 'reverse'):
        return None
    sn = E.snap(st, v)
    extra = tuple(E.snap(st, x) for x in args[1:])
    st.add_eff(('vec', nm, E.snap(st, v)) + extra)
    E.write(st, c, pr, ('vec', nm, sn) + extra)
    if nm in ('remove', 'swap_remove'):
        return [(st, ('at', sn, args[1]))]
    if nm in ('drain', 'split_off'):
        return [(st, ('call', 'Vec::' + nm, sn) + extra)]
    return [(st, UNIT)]


@m('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut')
def _(E, st, args, ci):
    c, pr = E.deref(args[0])
    v = E.rd(st, args[0])
    it = mkiter(E, st, v, False)
    out = []

    def step(s, acc, x):
        r = []
        for s2, b in E.call_value(s, args[1], [x], ci):
            for s3, bv in E.fork_bool(s2, b):
                r.append((s3, 'cont', ('L', acc[1] + (E.rd(s3, x),)) if bv else acc))
        return r
    for s, k, acc in it_loop(E, st, it, ci.site, ('L', ()), step):
        E.write(s, c, pr, acc)
        out.append((s, UNIT))
    return out


def seqcat(E, st, v, items):
    if v[0] in ('L', 'TS'):
        return (v[0], v[1] + tuple(items))
    return ('L', (('splat', v),) + tuple(items))


def items_of(E, st, v):
    """Items of a sequence value for appending it."""
    v = E.rd(st, v)
    if v[0] in ('L', 'TS'):
        return v[1]
    return (('splat', v),)


@m('alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append')
def _(E, st, args, ci):
    st = st.copy()
    c, pr = E.deref(args[0])
    v = E.read(st, c, pr)
    E.write(st, c, pr, seqcat(E, st, v, items_of(E, st, args[1])))
    if ci.fnd['p'].endswith('append'):
        c2, pr2 = E.deref(args[1])
        E.write(st, c2, pr2, ('L', ()))
    return [(st, UNIT)]


def index_obl(E, st, ci, seq, idx):
    """Bounds obligation of a panicking index; returns states in which it holds."""
    ln = E.len_of(st, seq)
    okst = []
    for s, bv in E.fork_bool(st, E.mkcmp(st, 'Lt', idx, ln)):
        if bv:
            okst.append(s)
        else:
            E.panic(s, ci.fr, ci.b, 'index', [idx, ln], ci.sp)
    return okst


RANGE = 'core::ops::range::'


@m('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _(E, st, args, ci):
    idx = args[1]
    base = args[0]
    while base[0] == 'R' and E.read(st, base[1], base[2])[0] == 'R':
        base = E.read(st, base[1], base[2])
    seq = E.rd(st, base)
    c, pr = E.deref(base)
    if idx[0] == 'A' and idx[1].startswith(RANGE):
        n = idx[1].split('::')[-1]
        lo = idx[3][0] if n in ('Range', 'RangeFrom', 'RangeInclusive') else ('i', 0)
        hi = idx[3][1] if n in ('Range', 'RangeInclusive') else idx[3][0] if n in ('RangeTo', 'RangeToInclusive') else ('end', 0)
        if n in ('RangeInclusive', 'RangeToInclusive'):
            hi = E.arith('Add', hi, ('i', 1), None)
        ln = E.len_of(st, seq)
        cond1 = E.mkcmp(st, 'Le', lo, ln if hi == ('end', 0) else hi)
        cond2 = TRUE if hi == ('end', 0) else E.mkcmp(st, 'Le', hi, ln)
        out = []
        for s, b1 in E.fork_bool(st, cond1):
            if not b1:
                E.panic(s, ci.fr, ci.b, 'slice', [lo, hi, ln], ci.sp)
                continue
            for s2, b2 in E.fork_bool(s, cond2):
                if not b2:
                    E.panic(s2, ci.fr, ci.b, 'slice', [lo, hi, ln], ci.sp)
                else:
                    t = E.p.tyname(ci.arg_ty(0)).lstrip('&')
                    if 'str' in t or 'String' in t:
                        if seq[0] == 's' and lo[0] == 'i' and hi[0] in ('i', 'end'):
                            e = hi[1] if hi[0] == 'i' else len(seq[1]) - hi[1]
                            out.append((s2, ('s', seq[1][lo[1]:e])))
                        else:
                            out.append((s2, ('sub', E.snap(s2, seq), lo, hi)))
                    elif is_sym(seq):
                        out.append((s2, E.subslice(seq, lo, hi)))
                    else:
                        out.append((s2, E.mkref(c, pr + (('sub', lo, hi),))))
        return out
    if idx[0] == 'i' or is_sym(idx):
        t = E.p.tyname(ci.arg_ty(0))
        if 'HashMap' in t:
            return [(st, ('fld', ('mapget', E.snap(st, seq), E.snap(st, idx)), 'Some', '0'))]
        return [(s, E.mkref(c, pr + ((('x', idx[1]) if idx[0] == 'i' else ('xs', idx)),))) for s in index_obl(E, st, ci, seq, idx)]
    return None


def elem_ref(E, base, i):
    c, pr = E.deref(base)
    return E.mkref(c, pr + (('x', i),))


@m('core::slice::first', 'core::slice::first_mut', 'core::slice::last', 'core::slice::last_mut')
def _(E, st, args, ci):
    first = 'first' in ci.fnd['p'].split('::')[-1]
    a = args[0]
    while a[0] == 'R' and E.read(st, a[1], a[2])[0] == 'R':
        a = E.read(st, a[1], a[2])
    seq = E.rd(st, a)
    c, pr = E.deref(a)
    ref = E.mkref(c, pr + (('x', 0) if first else ('xe', 1),))
    if seq[0] == 'L':
        if not seq[1]:
            return [(st, NONE)]
        e = seq[1][0] if first else seq[1][-1]
        if not E.is_multi(e):
            return [(st, some(ref))]
        # the outermost item is repeated zero or more times: unknown element
        out = []
        for s, bv in E.fork_bool(st, E.mkcmp(st, 'Eq', E.len_of(st, seq), ('i', 0))):
            out.append((s, NONE if bv else some(('at', E.snap(s, seq), ('i', 0) if first else ('end', 1)))))
        return out
    out = []
    for s, bv in E.fork_bool(st, E.mkcmp(st, 'Eq', E.len_of(st, seq), ('i', 0))):
        out.append((s, NONE if bv else some(ref)))
    return out


@m('core::slice::get', 'core::slice::get_mut', 'alloc::vec::Vec::get')
def _(E, st, args, ci):
    a = args[0]
    while a[0] == 'R' and E.read(st, a[1], a[2])[0] == 'R':
        a = E.read(st, a[1], a[2])
    seq = E.rd(st, a)
    idx = args[1]
    if idx[0] == 'A' and idx[1].startswith(RANGE):
        n = idx[1].split('::')[-1]
        if n == 'RangeFrom':
            c, pr = E.deref(a)
            return [(s, some(E.mkref(c, pr + (('sub', idx[3][0], ('end', 0)),))) if bv else NONE)
                    for s, bv in E.fork_bool(st, E.mkcmp(st, 'Le', idx[3][0], E.len_of(st, seq)))]
        return None
    c, pr = E.deref(a)
    ref = E.mkref(c, pr + ((('x', idx[1]) if idx[0] == 'i' else ('xs', idx)),))
    return [(s, some(ref) if bv else NONE) for s, bv in E.fork_bool(st, E.mkcmp(st, 'Lt', idx, E.len_of(st, seq)))]


@m('core::slice::split_first', 'core::slice::split_last')
def _(E, st, args, ci):
    a = args[0]
    while a[0] == 'R' and E.read(st, a[1], a[2])[0] == 'R':
        a = E.read(st, a[1], a[2])
    seq = E.rd(st, a)
    c, pr = E.deref(a)
    first = ci.fnd['p'].endswith('first')
    out = []
    for s, bv in E.fork_bool(st, E.mkcmp(st, 'Eq', E.len_of(st, seq), ('i', 0))):
        if bv:
            out.append((s, NONE))
        elif first:
            out.append((s, some(tup(E.mkref(c, pr + (('x', 0),)), E.mkref(c, pr + (('sub', ('i', 1), ('end', 0)),))))))
        else:
            out.append((s, some(tup(E.mkref(c, pr + (('xe', 1),)), E.mkref(c, pr + (('sub', ('i', 0), ('end', 1)),))))))
    return out


@m('core::slice::contains', 'alloc::vec::Vec::contains')
def _(E, st, args, ci):
    seq = E.rd(st, args[0])
    x = E.snap(st, E.rd(st, args[1]))
    if seq[0] == 'L' and not any(E.is_multi(y) for y in seq[1]):
        return any_eq(E, st, seq[1], x)
    return [(st, ('contains', E.snap(st, seq), x))]


def any_eq(E, st, items, x):
    cur = [(st, FALSE)]
    for y in items:
        nxt = []
        for s, v in cur:
            if v == TRUE:
                nxt.append((s, v))
                continue
            for s2, r in E.eq(s, y, x):
                nxt += [(s3, boolv(bv)) for s3, bv in E.fork_bool(s2, r)]
        cur = nxt
    return cur


@m('alloc::boxed::Box::new_uninit')
def _(E, st, args, ci):
    return [(st, ('L', ()))]


@m('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    # the uninitialised box is written through MaybeUninit/ManuallyDrop wrappers
    while v[0] == 'U' or v[0] == 'A' and v[1] == '()' and v[3]:
        if v[0] == 'U':
            v = v[2][-1][1]
        else:
            v = [x for x in v[3] if x != ('undef',)][0]
    return [(st, v)]


@m('alloc::vec::from_elem')
def _(E, st, args, ci):
    n = E.rd(st, args[1])
    if n[0] != 'i' or n[1] > 64:
        return None
    return [(st, ('L', (E.snap(st, args[0]),) * n[1]))]


# ---------------------------------------------------------------- sets and maps
@pure('alloc::collections::btree::set::BTreeSet::new')
def _(E, st, *a):
    return ('L', ())


@pure('std::collections::hash::set::HashSet::new', 'std::collections::hash::set::HashSet::with_capacity')
def _(E, st, *a):
    return ('setnew',)


@pure('std::collections::hash::map::HashMap::new', 'alloc::collections::btree::map::BTreeMap::new', 'std::collections::hash::map::HashMap::with_capacity')
def _(E, st, *a):
    return ('mapnew',)


SETS = ('std::collections::hash::set::HashSet::', 'alloc::collections::btree::set::BTreeSet::')
MAPS = ('std::collections::hash::map::HashMap::', 'alloc::collections::btree::map::BTreeMap::')


def set_contains(E, st, s, k):
    if s[0] == 'L' and k[0] == 's' and all(x[0] == 's' for x in s[1]):
        return boolv(k in s[1])
    if s in (('setnew',), ('L', ())):
        return FALSE
    if s[0] == 'setins':
        if s[2] == k:
            return TRUE
        if s[2][0] == 's' and k[0] == 's':
            return set_contains(E, st, s[1], k)
        inner = set_contains(E, st, s[1], k)
        if inner == TRUE:
            return TRUE
    if s[0] == 'setdel' and s[2] == k:
        return FALSE
    return ('contains', s, k)


def sorted_set(E, s, ci):
    """the elements of an ordered set of known strings"""
    if s[0] == 'L' and all(x[0] == 's' for x in s[1]):
        return s[1]
    return None


@m(*[x + 'contains' for x in SETS])
def _(E, st, args, ci):
    return [(st, set_contains(E, st, E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1]))))]


@m(*[x + 'insert' for x in SETS])
def _(E, st, args, ci):
    s, k = E.snap(st, E.rd(st, args[0])), E.snap(st, args[1])
    els = sorted_set(E, s, ci)
    if els is not None and k[0] == 's':
        st = st.copy()
        c, pr = E.deref(args[0])
        E.write(st, c, pr, ('L', tuple(sorted({k} | set(els), key=lambda x: x[1].encode()))))
        return [(st, boolv(k not in els))]
    st = st.copy()
    st.add_eff(('insert', s, k))
    r = set_contains(E, st, s, k)
    c, pr = E.deref(args[0])
    E.write(st, c, pr, ('setins', s, k))
    return [(st, boolv(not r[1]) if r[0] == 'i' else ('not', r))]


@m(*[x + 'remove' for x in SETS])
def _(E, st, args, ci):
    s, k = E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1]))
    els = sorted_set(E, s, ci)
    if els is not None and k[0] == 's':
        st = st.copy()
        c, pr = E.deref(args[0])
        E.write(st, c, pr, ('L', tuple(x for x in els if x != k)))
        return [(st, boolv(k in els))]
    st = st.copy()
    st.add_eff(('remove', s, k))
    c, pr = E.deref(args[0])
    E.write(st, c, pr, ('setdel', s, k))
    return [(st, set_contains(E, st, s, k))]


def map_get(mp, k):
    if mp == ('mapnew',):
        return NONE
    if mp[0] == 'mapins':
        if mp[2] == k:
            return some(mp[3])
        if mp[2][0] == 's' and k[0] == 's':
            return map_get(mp[1], k)
    if mp[0] == 'mapdel':
        if mp[2] == k:
            return NONE
        if mp[2][0] == 's' and k[0] == 's':
            return map_get(mp[1], k)
    return ('mapget', mp, k)


@m(*[x + y for x in MAPS for y in ('get', 'get_mut')])
def _(E, st, args, ci):
    return [(st, map_get(E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1]))))]


@m(*[x + 'contains_key' for x in MAPS])
def _(E, st, args, ci):
    v = map_get(E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1])))
    if v[0] == 'A':
        return [(st, boolv(v[2] == 1))]
    t = ('isv', v, frozenset([1]), OPT)
    r = E.eval_bool(st, t)
    return [(st, boolv(r) if r is not None else t)]


@m(*[x + 'insert' for x in MAPS])
def _(E, st, args, ci):
    mp, k, v = E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1])), E.snap(st, args[2])
    st = st.copy()
    st.add_eff(('insert', mp, k, v))
    c, pr = E.deref(args[0])
    E.write(st, c, pr, ('mapins', mp, k, v))
    return [(st, map_get(mp, k))]


@m(*[x + 'remove' for x in MAPS])
def _(E, st, args, ci):
    mp, k = E.snap(st, E.rd(st, args[0])), E.snap(st, E.rd(st, args[1]))
    st = st.copy()
    st.add_eff(('remove', mp, k))
    c, pr = E.deref(args[0])
    E.write(st, c, pr, ('mapdel', mp, k))
    return [(st, map_get(mp, k))]


@m(*[x + 'entry' for x in MAPS])
def _(E, st, args, ci):
    return [(st, ('ment', args[0], E.snap(st, args[1])))]


@m(*[x + 'Entry::' + y for x in ('std::collections::hash::map::', 'alloc::collections::btree::map::entry::') for y in ('or_insert', 'or_insert_with')])
def _(E, st, args, ci):
    if args[0][0] != 'ment':
        return None
    _, ref, k = args[0]
    mp = E.snap(st, E.rd(st, ref))
    old = map_get(mp, k)
    out = []
    for s, v in E.fork_opt(st, old):
        if v is not None:
            out.append((s, v))
            continue
        vals = E.call_value(s, args[1], [], ci) if ci.fnd['p'].endswith('with') else [(s, args[1])]
        for s2, v in vals:
            s2 = s2.copy()
            v = E.snap(s2, v)
            s2.add_eff(('insert', mp, k, v))
            c, pr = E.deref(ref)
            E.write(s2, c, pr, ('mapins', mp, k, v))
            out.append((s2, v))
    return out


# ---------------------------------------------------------------- numbers
def int_bits(tn):
    d = ''.join(x for x in tn if x.isdigit())
    return int(d) if d else 64


def div(a, b):
    return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)


def euclid(a, b):
    r = a % abs(b)
    return (a - r) // b, r


BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': div, 'rem': lambda a, b: a - b * div(a, b), 'div_euclid': lambda a, b: euclid(a, b)[0],
       'rem_euclid': lambda a, b: euclid(a, b)[1], 'pow': lambda a, b: a ** b, 'div_floor': lambda a, b: a // b}
UN = {'neg': lambda a: -a, 'abs': abs}


def int_function(name):
    """integer functions that are only evaluated on known numbers; otherwise their result is a term"""
    import re
    mode, op = re.fullmatch(r'(?:(wrapping|checked|saturating|overflowing)_)?(.*)', name).groups()

    def g(E, st, args, ci):
        from .engine import wrap, in_range
        tn = E.p.tyname(ci.arg_ty(0))
        v = [E.rd(st, x) for x in args]
        if not all(x[0] == 'i' for x in v):
            return None if mode in ('checked', 'overflowing') else [(st, ('call', 'core::num::' + name) + tuple(v))]
        x = [y[1] for y in v]
        if op in ('div', 'rem', 'div_euclid', 'rem_euclid', 'div_floor') and x[1] == 0:
            if mode == 'checked':
                return [(st, NONE)]
            E.panic(st, ci.fr, ci.b, 'divzero', [v[1]], ci.sp)
            return []
        r = (BIN.get(op) or UN[op])(*x)
        ok = in_range(r, tn)
        if mode == 'checked':
            return [(st, some(('i', r)) if ok else NONE)]
        if mode == 'wrapping':
            return [(st, ('i', wrap(r, tn)))]
        if mode == 'overflowing':
            return [(st, ('A', '()', 0, (('i', wrap(r, tn)), boolv(not ok))))]
        if mode == 'saturating':
            n = int_bits(tn)
            lo, hi = (0, 2 ** n - 1) if tn.startswith('u') else (-2 ** (n - 1), 2 ** (n - 1) - 1)
            return [(st, ('i', min(max(r, lo), hi)))]
        if not ok:
            E.panic(st, ci.fr, ci.b, 'overflow', v, ci.sp)
            return []
        return [(st, ('i', r))]
    return g


for _mode in ('wrapping_', 'checked_', 'saturating_', 'overflowing_', ''):
    for _op in list(BIN) + list(UN):
        MODELS['core::num::' + _mode + _op] = int_function(_mode + _op)


for _op, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem'), ('Shl', 'shl'), ('Shr', 'shr')):
    def _mk(op, n):
        def w(E, st, args, ci):
            tn = E.p.tyname(ci.arg_ty(0))
            if op in ('Shl', 'Shr') and args[1][0] == 'i':
                args = [args[0], ('i', args[1][1] % int_bits(tn))]
            if op in ('Div', 'Rem') and args[1] == ('i', 0):
                E.panic(st, ci.fr, ci.b, 'divzero', [args[1]], ci.sp)
                return []
            if op in ('Div', 'Rem') and args[1][0] != 'i':
                out = []
                for s, bv in E.fork_bool(st, E.mkcmp(st, 'Eq', args[1], ('i', 0))):
                    if bv:
                        E.panic(s, ci.fr, ci.b, 'divzero', [args[1]], ci.sp)
                    else:
                        out.append((s, E.arith(op, args[0], args[1], tn)))
                return out
            return [(st, E.arith(op, args[0], args[1], tn))]

        def c(E, st, args, ci):
            from .engine import in_range
            tn = E.p.tyname(ci.arg_ty(0))
            if op in ('Shl', 'Shr') and args[1][0] == 'i' and args[0][0] == 'i':
                return [(st, some(E.arith(op, args[0], args[1], tn)) if 0 <= args[1][1] < int_bits(tn) else NONE)]
            v = E.arith(op, args[0], args[1], None)
            if v[0] == 'i':
                return [(st, some(v) if in_range(v[1], tn) else NONE)]
            if op in ('Div', 'Rem'):
                out = []
                for s, bv in E.fork_bool(st, E.mkcmp(st, 'Eq', args[1], ('i', 0))):
                    if bv:
                        out.append((s, NONE))
                    else:
                        out += [(s2, NONE if o else some(v)) for s2, o in E.fork_bool(s, ('ovf', op, tn, args[0], args[1]))]
                return out
            return [(s, NONE if bv else some(v)) for s, bv in E.fork_bool(st, ('ovf', op, tn, args[0], args[1]))]
        MODELS['core::num::wrapping_' + n] = w
        MODELS['core::num::checked_' + n] = c
    _mk(_op, _n)

for _op, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem'), ('Shl', 'shl'), ('Shr', 'shr'), ('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor')):
    def _mk2(op, n):
        def g(E, st, args, ci):
            a, b = args
            if a[0] == 'hasiter' or b[0] == 'hasiter':
                return [(st, UNIT)]
            return [(st, E.arith(op, E.rd(st, a), E.rd(st, b), E.p.tyname(ci.arg_ty(0)).lstrip('&')))]
        for mod in ('arith', 'bit'):
            MODELS['core::ops::%s::%s::%s' % (mod, op, n)] = g
    _mk2(_op, _n)


@pure('core::ops::arith::Neg::neg')
def _(E, st, a):
    a = E.rd(st, a)
    return ('i', -a[1]) if a[0] == 'i' else ('un', 'Neg', a)


@pure('core::ops::bit::Not::not')
def _(E, st, a):
    a = E.rd(st, a)
    return ('un', 'Not', a)


def termfn(*names):
    for n in names:
        def g(E, st, args, ci, n=n):
            return [(st, (n.split('::')[-1],) + tuple(E.snap(st, E.rd(st, x)) for x in args))]
        MODELS[n] = g


termfn('core::f32::classify', 'core::f64::classify', 'core::f32::is_sign_positive', 'core::f64::is_sign_positive', 'core::f64::is_nan', 'core::f64::is_infinite', 'core::f64::is_finite',
       'core::f32::is_nan', 'core::f32::is_infinite', 'core::f32::is_finite', 'core::f32::is_sign_negative', 'core::f64::is_sign_negative',
       'char::from_u32', 'core::char::from_u32', 'char::to_digit', 'core::char::convert::from_u32', 'core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'alloc::string::String::from_utf16',
       'alloc::string::FromUtf8Error::utf8_error', 'semver::Version::parse', 'unicode_ident::is_xid_continue', 'unicode_ident::is_xid_start')


# ---------------------------------------------------------------- formatting
def decode_template(bs):
    """Decodes core::fmt's compact template: list of str | None (next argument)."""
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace'))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out.append(bytes(bs[i + 3:i + 3 + n]).decode('utf8', 'replace'))
            i += 3 + n
        elif b == 0xC0:
            out.append(None)
            i += 1
        elif b == 0xC8:
            out.append(bs[i + 1] | bs[i + 2] << 8)
            i += 3
        else:
            return None
    return out


@m('core::fmt::Arguments::new')
def _(E, st, args, ci):
    tpl, a = E.rd(st, args[0]), E.rd(st, args[1])
    xs = a[1] if a[0] == 'L' else ()
    if tpl[0] == 'b':
        parts = decode_template(tpl[1])
        if parts is not None:
            r = ('s', '')
            i = 0
            for p in parts:
                if p is None or isinstance(p, int):
                    i = i if p is None else p
                    x = xs[i]
                    i += 1
                    r = catstr(r, x)
                else:
                    r = catstr(r, ('s', p))
            return [(st, r)]
    return [(st, ('fmt', E.snap(st, tpl)) + tuple(E.snap(st, x) for x in xs))]


@m('core::fmt::Arguments::from_str')
def _(E, st, args, ci):
    return [(st, args[0])]


@m('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex')
def _(E, st, args, ci):
    v = E.rd(st, args[0])
    if ci.fnd['p'].split('::')[-1].startswith('new_display'):
        from . import lexstr
        if lexstr.ischar(v):
            x = lexstr.shown(E, st, v, E.p.tyname(ci.arg_ty(0)).lstrip('&'))
            if x is not None:
                return [(st, x)]
        if v[0] == 's' or v[0] == 'str+' or is_sym(v):
            return [(st, v)]
        if v[0] == 'i':
            n = E.p.tyname(ci.arg_ty(0)).lstrip('&')
            return [(st, ('s', chr(v[1]) if n == 'char' else str(v[1])))]
    return [(st, (ci.fnd['p'].split('::')[-1], E.snap(st, v)))]


@m('alloc::fmt::format')
def _(E, st, args, ci):
    return [(st, args[0])]


@m('core::fmt::Formatter::write_str', 'core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_str')
def _(E, st, args, ci):
    st = st.copy()
    st.add_eff(('write', E.snap(st, E.rd(st, args[1]))))
    return [(st, ('in', 'fmt::Result'))]


@m('core::fmt::Display::fmt')
def _(E, st, args, ci):
    st = st.copy()
    st.add_eff(('write', E.snap(st, E.rd(st, args[0]))))
    return [(st, ('in', 'fmt::Result'))]


# ---------------------------------------------------------------- iterators
def mkiter(E, st, v, byval):
    """Iterator over a collection value (v may be a reference)."""
    base = v
    while base[0] == 'R' and E.read(st, base[1], base[2])[0] == 'R':
        base = E.read(st, base[1], base[2])
    x = E.rd(st, base)
    if x[0] == 'IT':
        return base if base[0] == 'R' else x
    if x[0] in ('L', 'b') or (x[0] == 'TS'):
        items = x[1] if x[0] != 'b' else tuple(('i', y) for y in x[1])
        if not any(E.is_multi(y) for y in items):
            if byval or base[0] != 'R':
                return ('IT', 'seq', tuple(items), 0, None)
            return ('IT', 'seq', tuple(E.mkref(base[1], base[2] + (('x', i),)) for i in range(len(items))), 0, None)
        # fixed prefix, then an abstract rest
        return ('IT', 'mix', tuple(items), 0, None)
    if x[0] == 'A' and x[1] == OPT:
        return ('IT', 'seq', (x[3][0],) if x[2] == 1 else (), 0, None)
    if x[0] == 'A' and x[1].startswith(RANGE):
        n = x[1].split('::')[-1]
        a, b = x[3][0], x[3][1] if len(x[3]) > 1 else None
        if n == 'Range' and a[0] == 'i' and b[0] == 'i' and b[1] - a[1] <= 64:
            return ('IT', 'seq', tuple(('i', k) for k in range(a[1], b[1])), 0, None)
        return ('IT', 'sym', ('range', a, b), None)
    return ('IT', 'sym', x, None)


def drop_facts(st, term):
    for k in [k for k in st.facts if contains(k, term)]:
        del st.facts[k]


def contains(v, t):
    if v == t:
        return True
    return isinstance(v, tuple) and any(contains(x, t) for x in v if isinstance(x, tuple))


def nextv(E, st, it, site, ci):
    """-> [(state, new iterator, None | item)]"""
    if it[0] == 'R':
        out = []
        for s, it2, x in nextv(E, st, E.read(st, it[1], it[2]), site, ci):
            s = s.copy()
            E.write(s, it[1], it[2], it2)
            out.append((s, it, x))
        return out
    if it[0] != 'IT':
        if it[0] in ('L', 'A'):
            return nextv(E, st, mkiter(E, st, it, True), site, ci)
        it = ('IT', 'sym', it, None)
    k = it[1]
    if k == 'seq':
        if it[3] < len(it[2]):
            s = st.copy()
            s.flags = s.flags | {'concnext'}
            return [(s, ('IT', 'seq', it[2], it[3] + 1, it[4]), it[2][it[3]])]
        return [(st, it, None)]
    if k == 'sym':
        e = ('elem', it[2], site)
        s = st.copy()
        drop_facts(s, e)
        s.cells.pop(('S', e), None)
        s.flags = s.flags | {'absnext'}
        n = st.copy()
        return [(s, it, e), (n, it, None)]
    if k == 'mix':
        # abstract iteration over a partially known sequence: any of its items
        e = ('elem', ('L', it[2]), site)
        s = st.copy()
        drop_facts(s, e)
        s.flags = s.flags | {'absnext'}
        return [(s, it, e), (st.copy(), it, None)]
    if k == 'flat':
        # the sequences of a known sequence one after the other
        out = []
        work = [(st, it)]
        while work:
            s, cur = work.pop()
            if cur[4] is not None:
                for s2, c2, x in nextv(E, s, cur[4], site, ci):
                    if x is not None:
                        out.append((s2, ('IT', 'flat', cur[2], cur[3], c2), x))
                    else:
                        work.append((s2, ('IT', 'flat', cur[2], cur[3], None)))
                continue
            for s2, in2, x in nextv(E, s, cur[2], site, ci):
                if x is None:
                    out.append((s2, ('IT', 'flat', in2, cur[3], None), None))
                    continue
                for s3, y in (E.call_value(s2, cur[3], [x], ci) if cur[3] is not None else [(s2, x)]):
                    if y[0] != 'IT':
                        y = mkiter(E, s3, y, True)
                    work.append((s3, ('IT', 'flat', in2, cur[3], y)))
        return out
    if k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'map_while', 'flat_map'):
        inner, f = it[2], it[3]
        out = []
        for s, in2, x in nextv(E, st, inner, site, ci):
            it2 = ('IT', k, in2, f)
            if x is None:
                out.append((s, it2, None))
                continue
            if k == 'map':
                out += [(s2, it2, v) for s2, v in E.call_value(s, f, [x], ci)]
            elif k == 'inspect':
                out += [(s2, it2, x) for s2, v in E.call_value(s, f, [x], ci)]
            elif k == 'filter':
                for s2, b in E.call_value(s, f, [x], ci):
                    for s3, bv in E.fork_bool(s2, b):
                        if bv:
                            out.append((s3, it2, x))
                        else:
                            out += skip_next(E, s3, it2, site, ci)
            elif k == 'filter_map':
                for s2, o in E.call_value(s, f, [x], ci):
                    for s3, y in E.fork_opt(s2, o):
                        if y is not None:
                            out.append((s3, it2, y))
                        else:
                            out += skip_next(E, s3, it2, site, ci)
            elif k == 'take_while' or k == 'map_while':
                for s2, b in E.call_value(s, f, [x], ci):
                    if k == 'take_while':
                        for s3, bv in E.fork_bool(s2, b):
                            out.append((s3, it2, x if bv else None))
                    else:
                        out += [(s3, it2, y) for s3, y in E.fork_opt(s2, b)]
            elif k == 'skip_while':
                for s2, b in E.call_value(s, f, [x], ci):
                    for s3, bv in E.fork_bool(s2, b):
                        if bv:
                            out += skip_next(E, s3, it2, site, ci)
                        else:
                            out.append((s3, in2, x))
            else:
                return [(s, it2, ('elem', ('flat', E.snap(s, it)), site)), (s.copy(), it2, None)]
        return out
    if k == 'enumerate':
        out = []
        for s, in2, x in nextv(E, st, it[2], site, ci):
            n = it[3]
            if 'absnext' in s.flags and n[0] == 'i' and n[1] > 0 and in2 == it[2]:
                pass
            n2 = E.arith('Add', n, ('i', 1), None)
            if x is not None and it[2][:2] == ('IT', 'sym'):
                # the position of an element is less than their number
                for s2, b in E.fork_bool(s, E.mkcmp(s, 'Lt', n, E.len_of(s, it[2][2]))):
                    if b:
                        out.append((s2, ('IT', 'enumerate', in2, n2), tup(n, x)))
                continue
            out.append((s, ('IT', 'enumerate', in2, n2), None if x is None else tup(n, x)))
        return out
    if k == 'zip':
        out = []
        for s, a2, x in nextv(E, st, it[2], site, ci):
            if x is None:
                out.append((s, ('IT', 'zip', a2, it[3]), None))
                continue
            for s2, b2, y in nextv(E, s, it[3], (site, 'z'), ci):
                out.append((s2, ('IT', 'zip', a2, b2), None if y is None else tup(x, y)))
        return out
    if k == 'chain':
        out = []
        if it[2] is not None and it[2] != ('undef',):
            for s, a2, x in nextv(E, st, it[2], site, ci):
                if x is not None:
                    out.append((s, ('IT', 'chain', a2, it[3]), x))
                else:
                    out += nextv(E, s, ('IT', 'chain', ('undef',), it[3]), (site, 'c'), ci)
            return out
        return [(s, ('IT', 'chain', ('undef',), b2), x) for s, b2, x in nextv(E, st, it[3], (site, 'c'), ci)]
    if k == 'peek':
        if it[3] != ('undef',):
            pk = it[3]
            if pk[2] == 1 and concrete(it[2]):
                s = st.copy()
                s.flags = s.flags | {'concnext'}
                st = s
            return [(st, ('IT', 'peek', it[2], ('undef',)), pk[3][0] if pk[2] == 1 else None)]
        return [(s, ('IT', 'peek', a2, ('undef',)), x) for s, a2, x in nextv(E, st, it[2], site, ci)]
    if k == 'deref':
        return [(s, ('IT', 'deref', a2), None if x is None else E.rd(s, x)) for s, a2, x in nextv(E, st, it[2], site, ci)]
    if k == 'skip':
        n = it[3]
        cur = [(st, it[2])]
        if n[0] == 'i' and n[1] <= 8 and it[2][0] == 'IT' and it[2][1] == 'seq':
            inner = it[2]
            return nextv(E, st, ('IT', 'seq', inner[2], min(len(inner[2]), inner[3] + n[1]), inner[4]), site, ci)
        if n[0] == 'i' and n[1] <= 8 and concrete(it[2]):
            for _ in range(n[1]):
                nxt = []
                for s, i in cur:
                    nxt += [(s2, i2) for s2, i2, _ in nextv(E, s, i, site, ci)]
                cur = nxt
            return [r for s, i in cur for r in nextv(E, s, i, site, ci)]
        e = ('IT', 'sym', ('skip', E.snap(st, it[2]), n), None)
        return nextv(E, st, e, site, ci)
    if k == 'once':
        return [(st, ('IT', 'seq', (), 0, None), it[2])]
    raise Unsupported('iterator ' + k)


def concrete(it):
    while isinstance(it, tuple) and len(it) > 2 and it[0] == 'IT':
        if it[1] == 'seq':
            return True
        it = it[2]
    return False


def skip_next(E, s, it2, site, ci):
    """Continuation after a filtered-out item: abstract iterators re-enter the loop."""
    if 'absnext' in s.flags:
        # skipping an abstract element leaves an abstract iterator: either a later element or the end
        return [(s, it2, ('skipped',))]
    return nextv(E, s, it2, site, ci)


def split_chain(it):
    """Chained iterators are iterated one after the other."""
    if it[0] == 'IT' and it[1] == 'chain':
        return (split_chain(it[2]) if it[2] != ('undef',) else []) + split_chain(it[3])
    if it[0] == 'IT' and it[1] in ('map', 'filter', 'filter_map', 'inspect'):
        r = split_chain(it[2])
        if len(r) > 1:
            return [('IT', it[1], x) + tuple(it[3:]) for x in r]
    return [it]


def it_loop(E, st, it, site, init, step, place=None):
    """Generic iteration; step(state, acc, item) -> [(state, 'cont'|'stop', value)].
    Returns [(state, 'end'|'stop', value)]. What is left of the iterator is written to place (a reference)."""
    parts = split_chain(it)
    if place is not None:
        place = it_place(E, st, place) if place[0] == 'R' else None
    if len(parts) > 1:
        todo, out = [(st, init)], []
        for n, part in enumerate(parts):
            nxt = []
            for s, acc in todo:
                for s2, k, v in it_loop(E, s, part, (site, 'part', n), acc, step):
                    if k == 'end':
                        nxt.append((s2, v))
                    else:
                        out.append((s2, k, v))
            todo = nxt
        return out + [(s, 'end', acc) for s, acc in todo]
    d = len(E.stack)
    ci_, ca, cr = ('itl', d, site, 'it'), ('itl', d, site, 'acc'), ('itl', d, site, 'res')
    st = st.copy()
    st.cells[ci_] = it
    st.cells[ca] = init

    def body(s):
        ex, ba = [], []
        for s2, it2, x in nextv(E, s, s.cells[ci_], site, None):
            s2 = s2.copy()
            s2.cells[ci_] = it2
            if x is None:
                ex.append(('end', s2))
            elif x == ('skipped',):
                ba.append(s2)
            else:
                for s3, k, v in step(s2, s2.cells[ca], x):
                    s3 = s3.copy()
                    if k == 'cont':
                        s3.cells[ca] = v
                        ba.append(s3)
                    else:
                        s3.cells[cr] = v
                        ex.append(('stop', s3))
        return ex, ba
    out = []
    for k, s in E.loop_fix(body, st, ('itl', site), lambda: None):
        s = s.copy()
        v = s.cells[ca] if k == 'end' else s.cells[cr]
        if place is not None:
            E.write(s, *place, s.cells[ci_])
        for c in (ci_, ca, cr):
            s.cells.pop(c, None)
        out.append((s, k, v))
    return out


I = 'core::iter::traits::iterator::Iterator::'


@m(I + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back__no')
def _(E, st, args, ci):
    c, pr = E.deref(args[0])
    out = []
    for s, it2, x in nextv(E, st, E.rd_iter(st, args[0]) if hasattr(E, 'rd_iter') else rd_it(E, st, args[0]), ci.site, ci):
        s = s.copy()
        E.write(s, *it_place(E, s, args[0]), it2)
        if x == ('skipped',):
            # e.g. next() of a filter over an abstract sequence: either another element or the end
            inner = it2
            out.append((s.copy(), NONE))
            e = ('elem', ('filtered', E.snap(s, it2)), ci.site)
            drop_facts(s, e)
            out.append((s, some(e)))
        else:
            out.append((s, NONE if x is None else some(x)))
    return out


def it_place(E, st, a):
    while True:
        c, pr = E.deref(a)
        v = E.read(st, c, pr)
        if v[0] == 'R':
            a = v
            continue
        return c, pr


def rd_it(E, st, a):
    c, pr = it_place(E, st, a)
    return E.read(st, c, pr)


@m('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::iter', 'core::slice::iter_mut', 'syn::punctuated::Punctuated::iter',
   'std::collections::hash::set::HashSet::iter', 'std::collections::hash::map::HashMap::iter', 'alloc::vec::Vec::iter', O + 'iter')
def _(E, st, args, ci):
    nm = ci.fnd['p']
    byval = nm.endswith('into_iter') and E.p.types[ci.arg_ty(0)]['k'] != 'ref'
    return [(st, mkiter(E, st, args[0], byval))]


@m(I + 'by_ref')
def _(E, st, args, ci):
    return [(st, args[0])]


def adapter(kind, *names):
    for n in names:
        def g(E, st, args, ci, kind=kind):
            a = args[0]
            if a[0] not in ('IT', 'R'):
                a = mkiter(E, st, a, True)
            if kind == 'enumerate':
                return [(st, ('IT', 'enumerate', a, ('i', 0)))]
            if kind == 'deref':
                return [(st, ('IT', 'deref', a))]
            if kind in ('zip', 'chain'):
                b = args[1]
                if b[0] not in ('IT',):
                    b = mkiter(E, st, b, True)
                return [(st, ('IT', kind, a, b))]
            if kind == 'peek':
                return [(st, ('IT', 'peek', a, ('undef',)))]
            if kind == 'flat_map' and concrete(a):
                return [(st, ('IT', 'flat', a, args[1], None))]
            return [(st, ('IT', kind, a, args[1]))]
        MODELS[n] = g


for _k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'enumerate', 'zip', 'chain', 'skip', 'map_while', 'flat_map'):
    adapter(_k, I + _k)
adapter('peek', I + 'peekable')
adapter('deref', I + 'cloned', I + 'copied')


@m(I + 'fuse')
def _(E, st, args, ci):
    return [(st, args[0])]


@m(I + 'rev')
def _(E, st, args, ci):
    a = E.rd(st, args[0])
    r = rev_it(a)
    if r is not None:
        return [(st, r)]
    return [(st, ('IT', 'sym', ('rev', E.snap(st, a)), None))]


def rev_it(a):
    """The iterator from the back, over a known sequence."""
    if a[0] != 'IT':
        return None
    if a[1] == 'seq':
        return ('IT', 'seq', a[2][a[3]:][::-1], 0, None)
    if a[1] in ('map', 'filter', 'filter_map', 'inspect', 'deref'):
        i = rev_it(a[2])
        return i and ('IT', a[1], i) + a[3:]
    return None


def drain(E, st, it, site):
    """The items of an iterator over a known sequence."""
    out, work = [], [(st, it, ())]
    while work:
        s, cur, acc = work.pop()
        for s2, it2, x in nextv(E, s, cur, site, None):
            if x is None:
                out.append((s2, acc))
            elif x == ('skipped',):
                work.append((s2, it2, acc))
            else:
                work.append((s2, it2, acc + (x,)))
    return out


DI = 'core::iter::traits::double_ended::DoubleEndedIterator::'


@m(DI + 'rfind', I + 'rposition')
def _(E, st, args, ci):
    it = E.rd(st, args[0])
    if it[0] in ('L', 'A'):
        it = mkiter(E, st, it, True)
    r = rev_it(it)
    nm = ci.fnd['p'].split('::')[-1]
    if r is None or nm == 'rposition' and it[1] != 'seq':
        r = ('IT', 'sym', ('rev', E.snap(st, it)), None)
        n = None
    else:
        n = len(r[2]) if r[1] == 'seq' else None

    def step(s, acc, x):
        out = []
        for s2, b in E.call_value(s, args[1], [x], ci):
            for s3, bv in E.fork_bool(s2, b):
                if bv:
                    if nm == 'rfind':
                        v = x
                    elif n is not None and acc[0] == 'i':
                        v = ('i', n - 1 - acc[1])
                    else:
                        v = ('call', 'Iterator::rposition', E.snap(s3, it))
                    out.append((s3, 'stop', some(v)))
                else:
                    out.append((s3, 'cont', acc if nm == 'rfind' else E.arith('Add', acc, ('i', 1), None)))
        return out
    return [(s, NONE if k == 'end' else v) for s, k, v in it_loop(E, st, r, ci.site, ('i', 0), step)]


@m(DI + 'next_back')
def _(E, st, args, ci):
    c, pr = it_place(E, st, args[0])
    it = E.read(st, c, pr)
    if it[0] == 'IT' and it[1] == 'seq':
        if it[3] >= len(it[2]):
            return [(st, NONE)]
        st = st.copy()
        E.write(st, c, pr, ('IT', 'seq', it[2][:-1], it[3], it[4]))
        return [(st, some(it[2][-1]))]
    raise Unsupported('next_back of an unknown sequence')


@m(I + 'take', I + 'step_by', I + 'flatten', I + 'scan', I + 'cycle')
def _(E, st, args, ci):
    a = E.rd(st, args[0])
    nm = ci.fnd['p'].split('::')[-1]
    if nm == 'flatten' and a[0] == 'IT' and concrete(a):
        return [(st, ('IT', 'flat', a, None, None))]
    if nm == 'take' and a[0] == 'IT' and a[1] == 'seq' and args[1][0] == 'i':
        return [(st, ('IT', 'seq', a[2][a[3]:a[3] + args[1][1]], 0, None))]
    return [(st, ('IT', 'sym', (nm, E.snap(st, a)) + tuple(E.snap(st, x) for x in args[1:]), None))]


@m('core::iter::sources::once::once')
def _(E, st, args, ci):
    return [(st, ('IT', 'seq', (args[0],), 0, None))]


@m('core::iter::adapters::peekable::Peekable::peek', 'core::iter::adapters::peekable::Peekable::peek_mut')
def _(E, st, args, ci):
    c, pr = it_place(E, st, args[0])
    it = E.read(st, c, pr)
    if it[0] != 'IT' or it[1] != 'peek':
        return [(st, ('call', 'peek', E.snap(st, it)))]
    if it[3] != ('undef',):
        return [(st, it[3])]
    out = []
    for s, a2, x in nextv(E, st, it[2], ci.site, ci):
        s = s.copy()
        o = NONE if x is None else some(x)
        E.write(s, c, pr, ('IT', 'peek', a2, o))
        out.append((s, o))
    return out


@m('core::iter::adapters::peekable::Peekable::next_if')
def _(E, st, args, ci):
    c, pr = it_place(E, st, args[0])
    out = []
    for s, it2, x in nextv(E, st, E.read(st, c, pr), ci.site, ci):
        s = s.copy()
        if x is None:
            E.write(s, c, pr, it2)
            out.append((s, NONE))
            continue
        for s2, b in E.call_value(s, args[1], [x], ci):
            for s3, bv in E.fork_bool(s2, b):
                s3 = s3.copy()
                E.write(s3, c, pr, it2 if bv else ('IT', 'peek', it2[2], some(x)))
                out.append((s3, some(x) if bv else NONE))
    return out


def collect_as(E, st, it, tn, ci, ti=None):
    if tn.startswith('Result<') or tn.startswith('Option<'):
        isres = tn.startswith('Result<')

        def step(s, acc, x):
            r = []
            if isres:
                for s2, k, y in E.fork_res(s, x):
                    r.append((s2, 'cont', ('L', acc[1] + (y,))) if k == 'Ok' else (s2, 'stop', err(y)))
            else:
                for s2, y in E.fork_opt(s, x):
                    r.append((s2, 'cont', ('L', acc[1] + (y,))) if y is not None else (s2, 'stop', NONE))
            return r
        return [(s, (ok(v) if isres else some(v)) if k == 'end' else v) for s, k, v in it_loop(E, st, it, ci.site, ('L', ()), step)]
    if tn in ('String', 'Cow<str>'):
        def step(s, acc, x):
            x = E.snap(s, E.rd(s, x))
            return [(s, 'cont', ('L', acc[1] + (x,)))]
        out = []
        for s, k, v in it_loop(E, st, it, ci.site, ('L', ()), step):
            if all(x[0] == 'i' for x in v[1]):
                out.append((s, ('s', ''.join(chr(x[1]) for x in v[1]))))
            elif all(x[0] == 's' for x in v[1]):
                out.append((s, ('s', ''.join(x[1] for x in v[1]))))
            else:
                out.append((s, ('str+', ('collect', v))))
        return out

    def step(s, acc, x):
        return [(s, 'cont', ('L', acc[1] + (x,)))]
    r = it_loop(E, st, it, ci.site, ('L', ()), step)
    if tn.startswith('BTreeSet') and all(E.snap(s, v)[0] == 'L' and all(x[0] == 's' for x in E.snap(s, v)[1]) for s, k, v in r):
        return [(s, ('L', tuple(sorted(set(E.snap(s, v)[1]), key=lambda x: x[1].encode())))) for s, k, v in r]
    if tn.startswith('HashSet') or tn.startswith('BTreeSet'):
        return [(s, ('setof', E.snap(s, v))) for s, k, v in r]
    if tn.startswith('HashMap') or tn.startswith('BTreeMap'):
        return [(s, ('mapof', E.snap(s, v))) for s, k, v in r]
    if tn == 'TokenStream':
        out = []
        for s, k, v in r:
            out.append((s, ('TS', tuple(y for x in v[1] for y in (x[1] if x[0] == 'TS' else (x if x[0] in ('tk', 'rep') else ('hole', x),))))))
        return out
    return [(s, v) for s, k, v in r]


@m(I + 'collect')
def _(E, st, args, ci):
    return collect_as(E, st, args[0], E.p.tyname(ci.ret_ty), ci)


@m('core::iter::traits::collect::FromIterator::from_iter')
def _(E, st, args, ci):
    return collect_as(E, st, mkiter(E, st, args[0], True), E.p.tyname(ci.ret_ty), ci)


@m(I + 'for_each')
def _(E, st, args, ci):
    def step(s, acc, x):
        return [(s2, 'cont', acc) for s2, v in E.call_value(s, args[1], [x], ci)]
    return [(s, UNIT) for s, k, v in it_loop(E, st, args[0], ci.site, UNIT, step)]


@m(I + 'try_for_each')
def _(E, st, args, ci):
    def step(s, acc, x):
        r = []
        for s2, v in E.call_value(s, args[1], [x], ci):
            for s3, k, y in E.fork_res(s2, v):
                r.append((s3, 'cont', acc) if k == 'Ok' else (s3, 'stop', err(y)))
        return r
    return [(s, ok(UNIT) if k == 'end' else v) for s, k, v in it_loop(E, st, E.rd(st, args[0]), ci.site, UNIT, step, args[0])]


@m(I + 'fold')
def _(E, st, args, ci):
    def step(s, acc, x):
        return [(s2, 'cont', v) for s2, v in E.call_value(s, args[2], [acc, x], ci)]
    return [(s, v) for s, k, v in it_loop(E, st, args[0], ci.site, args[1], step)]


@m(I + 'try_fold')
def _(E, st, args, ci):
    isopt = E.p.tyname(ci.ret_ty).startswith('Option')

    def step(s, acc, x):
        r = []
        for s2, v in E.call_value(s, args[2], [acc, x], ci):
            if isopt:
                r += [(s3, 'cont', y) if y is not None else (s3, 'stop', NONE) for s3, y in E.fork_opt(s2, v)]
            else:
                r += [(s3, 'cont', y) if k == 'Ok' else (s3, 'stop', err(y)) for s3, k, y in E.fork_res(s2, v)]
        return r
    return [(s, (some(v) if isopt else ok(v)) if k == 'end' else v) for s, k, v in it_loop(E, st, E.rd(st, args[0]), ci.site, args[1], step, args[0])]


@m(I + 'any', I + 'all')
def _(E, st, args, ci):
    isany = ci.fnd['p'].endswith('any')
    it = E.rd(st, args[0])
    if it[0] == 'IT' and it[1] in ('sym', 'list') and len(it) > 2 and is_sym(it[2]):
        # `iter().any(|x| *x == k)` is `contains(&k)`
        e = ('elem', it[2], ci.site)
        r = E.call_value(st.copy(), args[1], [e], ci)
        if len(r) == 1 and r[0][0].facts == st.facts and r[0][0].eff == st.eff:
            b = r[0][1]
            want = 'Eq' if isany else 'Ne'
            if b[0] == 'op' and b[1] == want and e in (b[2], b[3]):
                k = b[3] if b[2] == e else b[2]
                if k[0] in ('i', 's', 'in', 'fld') and e not in (k,):
                    t = ('contains', it[2], k)
                    return [(st, t if isany else ('not', t))]

    def step(s, acc, x):
        r = []
        for s2, b in E.call_value(s, args[1], [x], ci):
            for s3, bv in E.fork_bool(s2, b):
                r.append((s3, 'stop', boolv(isany)) if bv == isany else (s3, 'cont', acc))
        return r
    out = []
    for s, k, v in it_loop(E, st, E.rd(st, args[0]), ci.site, UNIT, step, args[0]):
        if k == 'end' and not isany and engine.SINK and it[0] == 'IT' and it[1] == 'sym' and 'is_xid_continue' in repr(args[1]):
            s.facts[('B', ('allxid', it[2]))] = True
        out.append((s, boolv(not isany) if k == 'end' else v))
    return out


@m(I + 'find', I + 'position', I + 'find_map')
def _(E, st, args, ci):
    nm = ci.fnd['p'].split('::')[-1]

    def step(s, acc, x):
        r = []
        for s2, b in E.call_value(s, args[1], [x], ci):
            if nm == 'find_map':
                r += [(s3, 'stop', some(y)) if y is not None else (s3, 'cont', acc) for s3, y in E.fork_opt(s2, b)]
                continue
            for s3, bv in E.fork_bool(s2, b):
                if bv:
                    r.append((s3, 'stop', some(x) if nm == 'find' else some(acc)))
                else:
                    r.append((s3, 'cont', acc if nm == 'find' else E.arith('Add', acc, ('i', 1), None)))
        return r
    return [(s, NONE if k == 'end' else v) for s, k, v in it_loop(E, st, E.rd(st, args[0]), ci.site, ('i', 0), step, args[0])]


@m(I + 'count')
def _(E, st, args, ci):
    it = args[0]
    if it[0] == 'IT' and it[1] == 'seq':
        return [(st, ('i', len(it[2]) - it[3]))]
    return [(st, ('count', E.snap(st, it)))]


@m(I + 'last', I + 'nth', I + 'max', I + 'min', I + 'sum', I + 'max_by_key', I + 'min_by_key', I + 'product')
def _(E, st, args, ci):
    it = E.rd(st, args[0])
    nm = ci.fnd['p'].split('::')[-1]
    if it[0] in ('L', 'A'):
        it = mkiter(E, st, it, True)
    if it[0] == 'IT' and concrete(it):
        if nm == 'last':
            return [(s, some(xs[-1]) if xs else NONE) for s, xs in drain(E, st, it, ci.site)]
        if nm == 'nth' and args[1][0] == 'i':
            out, work = [], [(st, it, args[1][1])]
            place = it_place(E, st, args[0]) if args[0][0] == 'R' else None
            while work:
                s, cur, k = work.pop()
                for s2, it2, x in nextv(E, s, cur, ci.site, None):
                    if x == ('skipped',):
                        work.append((s2, it2, k))
                    elif x is None or k == 0:
                        if place is not None:
                            s2 = s2.copy()
                            E.write(s2, *place, it2)
                        out.append((s2, NONE if x is None else some(x)))
                    else:
                        work.append((s2, it2, k - 1))
            return out
    return None


@m('core::num::saturating_sub')
def _(E, st, args, ci):
    if E.p.tyname(ci.arg_ty(0))[:1] != 'u':
        return None
    return [(s, E.arith('Sub', args[0], args[1], E.p.tyname(ci.arg_ty(0))) if bv else ('i', 0))
            for s, bv in E.fork_bool(st, E.mkcmp(st, 'Le', args[1], args[0]))]


@m('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def _(E, st, args, ci):
    if E.p.tyname(ci.arg_ty(0)) not in ('usize', 'u8', 'u32', 'u64', 'i32', 'i64', 'isize', 'u128', 'i128'):
        return None
    big = ci.fnd['p'].endswith('max')
    return [(s, args[1] if bv == big else args[0]) for s, bv in E.fork_bool(st, E.mkcmp(st, 'Le', args[0], args[1]))]


@m(I + 'eq', I + 'ne')
def _(E, st, args, ci):
    """Pairwise comparison: equal iff same length and equal elements."""
    a, b = args[0], mkiter(E, st, args[1], True) if args[1][0] != 'IT' else args[1]
    if concrete(a) and concrete(b):
        out = []
        for s, xs in drain(E, st, a, (ci.site, 'a')):
            for s2, ys in drain(E, s, b, (ci.site, 'b')):
                if len(xs) != len(ys):
                    out.append((s2, FALSE))
                    continue
                cur = [s2]
                for x, y in zip(xs, ys):
                    nxt = []
                    for s3 in cur:
                        for s4, t in E.eq(s3, E.snap(s3, x), E.snap(s3, y)):
                            for s5, bv in E.fork_bool(s4, t):
                                if bv:
                                    nxt.append(s5)
                                else:
                                    out.append((s5, FALSE))
                    cur = nxt
                out += [(s3, TRUE) for s3 in cur]
        if not ci.fnd['p'].endswith('eq'):
            out = [(s, boolv(v == FALSE)) for s, v in out]
        return out
    a, b = E.snap(st, a), E.snap(st, b)
    t = ('itereq', a, b)
    return [(st, t if ci.fnd['p'].endswith('eq') else ('not', t))]


@m('core::iter::traits::collect::Extend::extend')
def _(E, st, args, ci):
    c, pr = it_place(E, st, args[0])
    v = E.read(st, c, pr)
    x = args[1]
    if v[0] == 'b':
        v = ('L', tuple(('i', y) for y in v[1]))
    if x[0] in ('R', 'b') and E.rd(st, x)[0] == 'b':
        x = ('L', tuple(('i', y) for y in E.rd(st, x)[1]))
    if v[0] == 'TS':
        st = st.copy()
        if x[0] == 'TS':
            E.write(st, c, pr, ('TS', v[1] + x[1]))
            return [(st, UNIT)]
        if is_sym(x):
            E.write(st, c, pr, ('TS', v[1] + (('hole', x),)))
            return [(st, UNIT)]

        def step(s, acc, y):
            return [(s2, 'cont', ('TS', acc[1] + it)) for s2, it in totokens(E, s, y, ci)]
        out = []
        for s, k, acc in it_loop(E, st, x, ci.site, v, step):
            E.write(s, c, pr, acc)
            out.append((s, UNIT))
        return out
    if v[0] == 'L' or is_sym(v) and v[0] not in ('setins', 'mapins', 'setnew', 'mapnew'):
        st = st.copy()
        if x[0] != 'IT':
            y = E.rd(st, x)
            if y[0] == 'L' or is_sym(y):
                E.write(st, c, pr, seqcat(E, st, v, items_of(E, st, y)))
                return [(st, UNIT)]
            x = mkiter(E, st, x, True)
        base = v if v[0] == 'L' else ('L', (('splat', v),))

        def step(s, acc, y):
            return [(s, 'cont', ('L', acc[1] + (y,)))]
        out = []
        for s, k, acc in it_loop(E, st, x, ci.site, base, step):
            E.write(s, c, pr, acc)
            out.append((s, UNIT))
        return out
    st = st.copy()
    sn = E.snap(st, v)
    st.add_eff(('extend', sn, E.snap(st, x)))
    E.write(st, c, pr, ('extended', sn, E.snap(st, x)))
    return [(st, UNIT)]


# ---------------------------------------------------------------- token streams
PUSH = {'add': '+', 'add_eq': '+=', 'and': '&', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'bang': '!', 'caret': '^', 'caret_eq': '^=',
        'colon': ':', 'colon2': '::', 'comma': ',', 'div': '/', 'div_eq': '/=', 'dot': '.', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=',
        'eq': '=', 'eq_eq': '==', 'ge': '>=', 'gt': '>', 'le': '<=', 'lt': '<', 'mul_eq': '*=', 'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||',
        'pound': '#', 'question': '?', 'rarrow': '->', 'larrow': '<-', 'rem': '%', 'rem_eq': '%=', 'fat_arrow': '=>', 'semi': ';', 'shl': '<<', 'shl_eq': '<<=',
        'shr': '>>', 'shr_eq': '>>=', 'star': '*', 'sub': '-', 'sub_eq': '-=', 'underscore': '_'}


def ts_append(E, st, ref, items):
    st = st.copy()
    c, pr = it_place(E, st, ref)
    v = E.read(st, c, pr)
    if v[0] == 'TS':
        E.write(st, c, pr, ('TS', v[1] + tuple(items)))
    else:
        E.write(st, c, pr, ('TS', (('splat', v),) + tuple(items)))
    return st


for _n, _p in PUSH.items():
    def _mk3(p):
        def g(E, st, args, ci):
            return [(ts_append(E, st, args[0], [('tk', 'p', p)]), UNIT)]
        return g
    MODELS['quote::__private::push_' + _n] = _mk3(_p)


@m('quote::__private::push_ident')
def _(E, st, args, ci):
    return [(ts_append(E, st, args[0], [('tk', 'id', E.snap(st, args[1]))]), UNIT)]


@m('quote::__private::push_lifetime')
def _(E, st, args, ci):
    return [(ts_append(E, st, args[0], [('tk', 'life', E.snap(st, args[1]))]), UNIT)]


@m('quote::__private::push_group')
def _(E, st, args, ci):
    d = args[1]
    dn = E.p.variants(d[1])[d[2]]['name'] if d[0] == 'A' else '?'
    inner = args[2]
    items = inner[1] if inner[0] == 'TS' else (('hole', inner),)
    return [(ts_append(E, st, args[0], [('tk', 'g', dn, items)]), UNIT)]


@m('quote::__private::parse')
def _(E, st, args, ci):
    return [(ts_append(E, st, args[0], [('tk', 'raw', E.snap(st, args[1]))]), UNIT)]


@pure('proc_macro2::TokenStream::new')
def _(E, st, *a):
    return ('TS', ())


@pure('proc_macro2::TokenStream::is_empty')
def _(E, st, a):
    v = E.rd(st, a)
    if v[0] == 'TS':
        if not v[1]:
            return TRUE
        if any(x[0] == 'tk' for x in v[1]):
            return FALSE
    return ('emptyts', E.snap(st, v))


@pure('proc_macro2::Span::call_site', 'proc_macro2::Span::mixed_site')
def _(E, st, *a):
    return ('in', '@span')


@m('proc_macro2::Ident::new', 'proc_macro2::Ident::new_raw', 'quote::__private::mk_ident')
def _(E, st, args, ci):
    v = E.snap(st, E.rd(st, args[0]))
    nm = ci.fnd['p'].split('::')[-1]
    if engine.SINK:
        engine.SINK(E, st, ci.fr, ci.b, 'ident', [v], ci.sp)
    if nm == 'new_raw' and v[:2] == ('strip', True) and v[3] == ('s', 'r#'):
        # `Ident::new_raw` of what follows `r#`: the identifier with this spelling
        return [(st, ('tk', 'id', v[2]))]
    return [(st, ('tk', 'id' if nm != 'new_raw' else 'rawid', v))]


LITS = ['byte_string', 'character', 'string', 'c_string', 'byte_character'] + [t + s for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'f32', 'f64') for s in ('_suffixed', '_unsuffixed')]
for _n in LITS:
    def _mk4(n):
        def g(E, st, args, ci):
            if engine.SINK and n[0] == 'f':
                engine.SINK(E, st, ci.fr, ci.b, 'float', args, ci.sp)
            return [(st, ('tk', 'lit', n, E.snap(st, E.rd(st, args[0]))))]
        return g
    MODELS['proc_macro2::Literal::' + _n] = _mk4(_n)


def totokens(E, st, v, ci, ti=None):
    """Tokens of a value: [(state, items)]"""
    v = E.rd(st, v)
    k = v[0]
    if k == 'TS':
        return [(st, v[1])]
    if k == 'tk':
        return [(st, (v,))]
    if k == 'parsed':
        return [(st, v[2])]
    if k == 'A' and v[1].endswith('::RepInterp'):
        t2 = E.p.types[ti]['t'] if ti is not None and E.p.types[ti]['k'] == 'ref' else ti
        t3 = E.p.types[t2]['a'][0] if t2 is not None and E.p.types[t2].get('a') else None
        return totokens(E, st, v[3][0], ci, t3)
    if k == 's':
        return [(st, (('tk', 'lit', 'string', v),))]
    if k == 'str+':
        return [(st, (('tk', 'lit', 'string', v),))]
    if k == 'i':
        n = E.p.tyname(ti).lstrip('&') if ti is not None else '?'
        return [(st, (('tk', 'lit', n + '_suffixed', v),) if n != 'bool' else (('tk', 'id', ('s', 'true' if v[1] else 'false')),))]
    if k == 'A' and v[1] == OPT:
        return totokens(E, st, v[3][0], ci) if v[2] == 1 else [(st, ())]
    if k == 'L':
        cur = [(st, ())]
        for x in v[1]:
            nxt = []
            for s, acc in cur:
                if E.is_multi(x):
                    nxt.append((s, acc + (x if x[0] == 'rep' else ('hole', x[1]),)))
                else:
                    nxt += [(s2, acc + it) for s2, it in totokens(E, s, x, ci)]
            cur = nxt
        return cur
    adt = v[1] if k == 'A' else E.p.adt_of(ti) if ti is not None else None
    if adt == OPT and is_sym(v):
        out = []
        for s, x in E.fork_opt(st, v):
            out += [(s, ())] if x is None else totokens(E, s, x, ci)
        return out
    if adt in E.p.adts and E.p.adts[adt]['local']:
        for f in E.p.impls.get(('quote::to_tokens::ToTokens', 'to_tokens'), []):
            if E.adt_strict(f['self_ty']) == adt:
                cell = ('tot', len(E.stack))
                s0 = st.copy()
                s0.cells[cell] = ('TS', ())
                out = []
                for s, _ in E.run_fn(f, [v, ('R', cell, ())], s0, {}):
                    s = s.copy()
                    ts = s.cells.pop(cell)
                    out.append((s, ts[1]))
                return out
    n = E.p.tyname(ti).lstrip('&') if ti is not None else None
    from .engine import int_bits
    if n and (int_bits(n) or n in ('f32', 'f64')):
        return [(st, (('tk', 'lit', n + '_suffixed', E.snap(st, v)),))]
    if n in ('str', 'String', 'Cow<str>'):
        return [(st, (('tk', 'lit', 'string', E.snap(st, v)),))]
    return [(st, (('hole', E.snap(st, v)),))]


@m('quote::to_tokens::ToTokens::to_tokens')
def _(E, st, args, ci):
    return [(ts_append(E, s, args[1], it), UNIT) for s, it in totokens(E, st, args[0], ci, ci.arg_ty(0))]


@m('quote::to_tokens::ToTokens::to_token_stream', 'quote::to_tokens::ToTokens::into_token_stream')
def _(E, st, args, ci):
    return [(s, ('TS', it)) for s, it in totokens(E, st, args[0], ci, ci.arg_ty(0))]


@m('quote::ext::TokenStreamExt::append', 'quote::ext::TokenStreamExt::append_all', 'quote::ext::TokenStreamExt::append_separated', 'quote::ext::TokenStreamExt::append_terminated')
def _(E, st, args, ci):
    nm = ci.fnd['p'].split('::')[-1]
    x = args[1]
    if nm == 'append':
        return [(ts_append(E, s, args[0], it), UNIT) for s, it in totokens(E, st, x, ci, ci.arg_ty(1))]
    v = E.rd(st, x)
    if nm == 'append_all' and (v[0] == 'TS' or E.p.tyname(ci.arg_ty(1)) in ('TokenStream', '&TokenStream')):
        return [(ts_append(E, s, args[0], it), UNIT) for s, it in totokens(E, st, x, ci)]
    it = mkiter(E, st, x, False) if v[0] != 'IT' else x
    sep = args[2] if nm != 'append_all' else None

    def step(s, acc, y):
        r = []
        first = acc[3][0]
        for s2, its in totokens(E, s, y, ci):
            seps = totokens(E, s2, sep, ci)[0][1] if sep is not None else ()
            ts = acc[3][1]
            if nm == 'append_separated' and not (first == ('i', 0)):
                for s3, bv in E.fork_bool(s2, E.mkcmp(s2, 'Lt', ('i', 0), first)):
                    r.append((s3, 'cont', tup(E.arith('Add', first, ('i', 1), None), ('TS', ts[1] + (seps if bv else ()) + its))))
                continue
            r.append((s2, 'cont', tup(E.arith('Add', first, ('i', 1), None), ('TS', ts[1] + its + (seps if nm == 'append_terminated' else ())))))
        return r
    c, pr = it_place(E, st, args[0])
    ts0 = E.read(st, c, pr)
    out = []
    for s, k, acc in it_loop(E, st, it, ci.site, tup(('i', 0), ts0), step):
        E.write(s, c, pr, acc[3][1])
        out.append((s, UNIT))
    return out


@m('quote::__private::ext::RepIteratorExt::quote_into_iter', 'quote::__private::ext::RepAsIteratorExt::quote_into_iter', 'quote::__private::ext::RepToTokensExt::quote_into_iter')
def _(E, st, args, ci):
    nm = ci.fnd['p']
    if 'RepToTokensExt' in nm:
        return [(st, tup(args[0], ('in', '@hasiter')))]
    it = args[0] if args[0][0] == 'IT' else mkiter(E, st, args[0], 'RepIteratorExt' in nm)
    return [(st, tup(it, ('in', '@hasiter')))]


@m('quote::__private::ext::RepToTokensExt::next')
def _(E, st, args, ci):
    return [(st, some(args[0]))]


@m('quote::__private::CheckHasIterator::check')
def _(E, st, args, ci):
    return [(st, UNIT)]


@m('core::ops::bit::BitOr::bitor')
def _(E, st, args, ci):
    n = E.p.tyname(ci.arg_ty(0))
    if 'Iterator' in n:
        return [(st, ('in', '@hasiter'))]
    return [(st, E.arith('BitOr', args[0], args[1], n))]


@m('syn::parse_quote::parse')
def _(E, st, args, ci):
    v = args[0]
    items = v[1] if v[0] == 'TS' else (('hole', v),)
    return [(st, ('parsed', E.p.tyname(ci.ret_ty), items))]


from . import nomodel  # noqa  (registers the parser combinators)
from . import lexstr  # noqa  (strings with unknown characters)
