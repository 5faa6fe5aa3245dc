"""Specification of the code generated for string literals: content, terminator, length, element type.

The content is computed as a sequence of units: an arbitrary element of a collection of the literal
(`each`) or a constant."""
import re
from .gen import *
from .genspec import Msg, norm_text
from .finspec import canon, subterms
from .spec import worlds

ALL = {'Ordinary': 'bytes', 'Utf8': 'bytes', 'Utf16': 'u16', 'Utf32': 'u32', 'Wide': 'wide'}


class Unclear(Exception):
    pass


def units(E, lst):
    """[('each', coll, item) | ('one', item)] of a list value."""
    out = []
    if lst[0] != 'L':
        return [('each', canon(lst), ('elem', canon(lst)))]
    for x in lst[1]:
        if x[0] == 'splat':
            out += [('each', canon(x[1]), ('elem', canon(x[1])))] if x[1][0] != 'L' else units(E, x[1])
        elif x[0] == 'rep':
            alts = {canon(tuple(i)) for _, i in E.suffixes(x[1], x[2])}
            if len(alts) != 1:
                raise Unclear('the elements of a list are not uniform')
            a, = alts
            if len(a) != 1:
                raise Unclear('a list gets %d elements for each element of another' % len(a))
            out.append(each(a[0]))
        else:
            out.append(('one', canon(x)))
    return out


def two(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'elem':
            out.add(t)
            return
        for x in t:
            two(x, out)


def each(item):
    el = set()
    two(item, el)
    if len(el) != 1:
        raise Unclear('an element is not computed from one element of a collection')
    e, = el
    return ('each', e[1], item)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def unit_tokens(E, R, rep):
    """Text of `#(#xs),*` with the units of xs filled in."""
    alts = set()
    for _, items in E.suffixes(rep[1], rep[2]):
        items = [x for x in items]
        if items and items[0] == ('tk', 'p', ','):
            items = items[1:]
        if items and items[-1] == ('tk', 'p', ','):
            items = items[:-1]
        alts.add(canon(tuple(items)))
    if len(alts) != 1:
        raise Unclear('the elements of the array are not uniform')
    items, = alts
    el = set()
    two(items, el)
    if len(el) != 1:
        raise Unclear('an element of the array is not computed from one element of a list')
    e, = el
    out = []
    for u in (units(E, e[1]) if e[1][0] == 'L' else [('each', e[1], e)]):
        it = subst(items, e, u[-1])
        it = tuple(x[1] if x[0] == 'hole' and x[1][0] == 'tk' else x for x in it)
        out.append((u[0], u[1] if u[0] == 'each' else None, R.ts(it)))
    return out


def count(E, v):
    """{collection: factor}, constant of a length term"""
    if v[0] == 'i':
        return {}, v[1]
    if v[0] == 'len':
        if v[1][0] == 'b':
            return {}, len(v[1][1])
        d, k = {}, 0
        for u in units(E, v[1]):
            if u[0] == 'each':
                d[u[1]] = d.get(u[1], 0) + 1
            else:
                k += 1
        return d, k
    if v[0] == 'op' and v[1] in ('Add', 'Sub'):
        a, b = count(E, v[2]), count(E, v[3])
        s = 1 if v[1] == 'Add' else -1
        d = dict(a[0])
        for x, n in b[0].items():
            d[x] = d.get(x, 0) + s * n
        return {x: n for x, n in d.items() if n}, a[1] + s * b[1]
    if v[0] == 'as':
        return count(E, v[-1])
    raise Unclear('length %r' % (v[0],))


class Flat:
    """Renders generated code with arrays and byte strings replaced by their units."""

    def __init__(self, E, R):
        self.E, self.R = E, R
        self.lens, self.data = [], []

    def go(self, items):
        out = []
        items = list(items)
        for n, x in enumerate(items):
            if x[0] == 'tk' and x[1] == 'lit' and x[2] in ('usize_unsuffixed', 'usize_suffixed'):
                self.lens.append(count(self.E, canon(x[3])))
                out.append('LEN')
            elif x[0] == 'tk' and x[1] == 'lit' and x[2] == 'byte_string':
                us = [(u[0], u[1] if u[0] == 'each' else None, self.R.v(u[-1])) for u in units(self.E, canon(x[3]))]
                self.data.append(us)
                out.append('DATA')
            elif x[0] == 'tk' and x[1] == 'g' and x[2] == 'Bracket' and len(x[3]) == 1 and x[3][0][0] == 'rep':
                self.data.append(unit_tokens(self.E, self.R, x[3][0]))
                out.append('[ DATA ]')
            elif x[0] == 'tk' and x[1] == 'g':
                o, c = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]', 'None': ('', '')}[x[2]]
                out.append('%s %s %s' % (o, self.go(x[3]), c))
            else:
                out.append(self.R.ts(canon((x,))))
        return norm_text(' '.join(out))


def suffix_ok(kind, text):
    return re.sub(r'⟨%s_(un)?suffixed ' % kind, '⟨lit ', text)


def analyse(c, tp=True, ffi=True):
    """-> f, [(aspect or None, message, facts)]; aspects: content, length, type, version (C21), prefix, form"""
    f = c.fn('LitString::to_token_stream')
    E, R, outs = c.run(f, [S, CTX, ('in', 'array')], State(), {**gen_handlers(tp, ffi), **ty_handlers()})
    res = []
    L = c.adt('LitString')
    for s, v in outs:
        v = E.snap(s, v)
        if v[0] != 'A' or len(v[3]) != 2 or any(x[0] != 'TS' for x in v[3]):
            res.append(('form', 'the result is %s' % R.v(v), R.facts(s)))
            continue
        for w, m in worlds(E, s, lambda w: judge(c, E, R, w, v, tp, ffi)):
            res.append((m[0] if m else None, m[1] if m else '', R.facts(w.st)))
    return f, E, res


def judge(c, E, R, w, v, tp, ffi):
    ty, code = Flat(E, R), Flat(E, R)
    try:
        tt = ty.go(v[3][0][1])
        ct = code.go(v[3][1][1])
    except Unclear as e:
        return 'content', str(e)
    kind = w.tag(S, c.adt('LitString'))
    x = F(S, kind + '.0')
    TP, FFI = ('⟨TP⟩ :: ' if tp else ''), ('⟨FFI⟩ :: ' if ffi else '')
    array = w.truth(('in', 'array'))
    CX = ('in', '@ctx')
    static = w.truth(('fld', CX, None, 'static_lifetime_elision'))
    # --- content
    terms = {'Ordinary': ('elem', x), 'Utf8': ('elem', ('bytes_of', x)), 'Utf16': ('elem', ('encode_utf16', x)),
             'Utf32': ('as', 'char', 'u32', ('elem', ('chars', x))), 'Wide': ('elem', x)}
    el = terms[kind]
    alt = [el, ('elem', ('bytes_of', x))] if kind == 'Ordinary' else [el]
    if kind in ('Ordinary', 'Utf8'):
        wants = [[('each', a[1], R.v(a)), ('one', None, R.v(('i', 0)))] for a in alt]
        et = 'u8'
    else:
        et = {'Utf16': 'u16', 'Utf32': 'u32', 'Wide': None}[kind]
        if et is None:
            q = ('call', 'context::CodegenContext::resolve_ty', ('fld', CX, None, 'global_context'), ('s', 'wchar_t'))
            r = w.opt(q)
            # a context that gives another answer than before, when it was asked for the type, may not be understood
            cv = r and ('conv', r, ('A', OPT, 1, (('in', 'FFI'),)) if ffi else NONE)
            et = 'wchar_t' if r is None or not w.is_ok(cv) else '⟨tok(%s)⟩' % R.v(('fld', cv, 'Ok', '0'))
            tok = lambda t: '⟨lit %s⟩ as %s' % (R.v(t), et)
        else:
            tok = lambda t: '⟨lit %s⟩' % R.v(t)
        coll = set()
        two(el, coll)
        src, = coll
        wants = [[('each', src[1], tok(el)), ('one', None, tok(('i', 0)))]]
    k = {'Utf16': 'u16', 'Utf32': 'u32', 'Wide': 'u32'}.get(kind)
    data = [[(u[0], u[1], suffix_ok(k, u[2]) if k else u[2]) for u in d] for d in code.data]
    if kind == 'Wide':
        data = [[(u[0], u[1], u[2].replace('⟨u32_suffixed', '⟨lit')) for u in d] for d in data]
    if len(data) != 1 or data[0] not in wants:
        return 'content', 'the units of the constant are %s instead of %s' % (
            ' / '.join(', '.join(('all ' if u[0] == 'each' else '') + u[2] for u in d) for d in data) or 'missing', ', '.join(('all ' if u[0] == 'each' else '') + u[2] for u in wants[0]))
    total = ({data[0][0][1]: 1}, 1)
    for l in ty.lens + code.lens:
        if l != total:
            return 'length', 'the length is %s + %d, but the constant has one unit for each element and the terminator' % (' + '.join('%d * %s' % (n, R.v(y)) for y, n in l[0].items()) or '0', l[1])
    # --- shape
    amp = '& ' if static else "& 'static "
    arr_ty = amp + '[ %s ; LEN ]' % et
    datum = 'DATA' if kind in ('Ordinary', 'Utf8') else '& [ DATA ]'
    if array:
        cstr = kind == 'Ordinary' and w.truth(('fld', CX, None, 'generate_cstr')) and not w.truth(('contains', x, ('i', 0)))
        if cstr:
            want = (amp.replace("'static ", '') + TP + ('ffi :: ' if tp else '') + 'CStr',
                    '{ # [ allow ( unsafe_code ) ] unsafe { ' + TP + ('ffi :: ' if tp else '') + 'CStr :: from_bytes_with_nul_unchecked ( DATA ) } }')
        else:
            want = (arr_ty, datum)
    else:
        p = FFI + 'c_char' if kind == 'Ordinary' else et
        names = re.findall(r'const (\w+) :', ct)
        n = names[0] if names else 'BYTES'
        want = ('* const ' + p, '{ const %s : %s = %s ; %s . as_ptr ( )%s }' % (n, arr_ty, datum, n, ' as * const ' + p if kind == 'Ordinary' else ''))
    want = tuple(norm_text(t) for t in want)
    if (tt, ct) == want:
        return None
    z = lambda t: norm_text(re.sub(r'⟨(TP|FFI)⟩ ::', ' ', t))
    if (z(tt), z(ct)) == (z(want[0]), z(want[1])):
        asp = 'prefix'
    elif ('CStr' in ct or 'CStr' in tt) and kind != 'Ordinary':
        asp = 'type'
    elif ('CStr' in ct or 'CStr' in tt) and not cstr and w.truth(('fld', CX, None, 'generate_cstr')):
        asp = 'nul'
    elif ('CStr' in ct or 'CStr' in tt) != ('CStr' in want[1]) or re.sub("'static ", '', tt + ct) == re.sub("'static ", '', want[0] + want[1]):
        asp = 'version'
    elif tt != want[0]:
        asp = 'type'
    else:
        asp = 'form'
    return asp, 'type and code are\n      %s\n      %s\n    instead of\n      %s\n      %s' % (tt, ct, want[0], want[1])
