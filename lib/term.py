"""Readable, canonical rendering of abstract values, token templates and facts."""
from .engine import is_sym, OPT, RES


def short(p):
    return p.split('::')[-1]


class Renderer:
    def __init__(self, prog, engine=None):
        self.p = prog
        self.e = engine

    def v(self, x):
        k = x[0]
        if k == 'i':
            return str(x[1])
        if k == 's':
            return '"%s"' % x[1]
        if k == 'b':
            return 'b' + repr(bytes(x[1]))
        if k == 'fl':
            return repr(x[1])
        if k == 'A':
            a = x[1]
            if a == '()':
                return '(' + ', '.join(self.v(y) for y in x[3]) + ')'
            ad = self.p.adts.get(a)
            if ad is None:
                return short(a)
            vn = ad['variants'][x[2]]['name']
            if ad['kind'] == 'struct':
                return short(a) + '{' + ', '.join('%s: %s' % (ad['variants'][0]['fields'][i]['name'], self.v(y)) for i, y in enumerate(x[3])) + '}'
            n = vn if a in (OPT, RES) else short(a) + '::' + vn
            return n + ('(' + ', '.join(self.v(y) for y in x[3]) + ')' if x[3] else '')
        if k == 'L':
            return '[' + ', '.join(self.v(y) for y in x[1]) + ']'
        if k == 'TS':
            return '«' + self.ts(x[1]) + '»'
        if k == 'R':
            return '&' + str(x[1]) + str(x[2])
        if k == 'C':
            return 'closure'
        if k == 'F':
            return 'fn ' + short(x[1].name)
        if k == 'in':
            return x[1]
        if k == 'fld':
            b = self.v(x[1])
            if x[2] in ('Some', 'Ok', 'Err') and x[3] == '0':
                return '%s.%s' % (b, x[2])
            return '%s.%s%s' % (b, (x[2] + '.') if x[2] else '', x[3])
        if k == 'op':
            return '(%s %s %s)' % (self.v(x[2]), x[1], self.v(x[3]))
        if k == 'tk':
            return self.ts((x,))
        if k == 'rep':
            return 'rep#%s' % (x[1],)
        if k in ('U',):
            return self.v(x[1]) + '{' + ','.join('%s:=%s' % (q[3] if q[0] == 'f' else q, self.v(y)) for q, y in x[2]) + '}'
        out = []
        for y in x[1:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                out.append(self.v(y))
            elif isinstance(y, frozenset):
                out.append('{' + ','.join(map(str, sorted(y))) + '}')
            else:
                out.append(str(y))
        return '%s(%s)' % (k, ', '.join(out))

    def ts(self, items):
        out = []
        for x in items:
            k = x[0]
            if k == 'tk':
                if x[1] == 'p':
                    out.append(x[2])
                elif x[1] in ('id', 'rawid'):
                    out.append((x[2][1] if x[2][0] == 's' else '⟨id %s⟩' % self.v(x[2])))
                elif x[1] == 'raw':
                    out.append(x[2][1] if x[2][0] == 's' else '⟨raw %s⟩' % self.v(x[2]))
                elif x[1] == 'life':
                    out.append(x[2][1] if x[2][0] == 's' else '⟨life %s⟩' % self.v(x[2]))
                elif x[1] == 'g':
                    o, c = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]', 'None': '⌊⌋'}[x[2]]
                    inner = self.ts(x[3])
                    out.append(o + ' ' + inner + ' ' + c if inner else o + ' ' + c)
                elif x[1] == 'lit':
                    out.append('⟨%s %s⟩' % (x[2], self.v(x[3])))
                else:
                    out.append(str(x))
            elif k == 'hole':
                out.append('⟨%s⟩' % self.v(x[1]))
            elif k == 'splat':
                out.append('⟨…%s⟩' % self.v(x[1]))
            elif k == 'rep':
                if self.e is not None:
                    alts = []
                    for st, its in self.e.suffixes(x[1], x[2]):
                        alts.append(self.ts(its))
                    out.append('⟦' + ' | '.join(sorted(set(alts))) + '⟧*')
                else:
                    out.append('⟦%d⟧*' % x[1])
            else:
                out.append(self.v(x))
        return ' '.join(out)

    def facts(self, st):
        out = []
        for k, v in st.facts.items():
            if k[0] == 'V':
                adt = None
                out.append('%s∈%s' % (self.v(k[1]), sorted(v)))
            elif k[0] == 'B':
                out.append(('' if v else '¬') + self.v(k[1]))
            elif k[0] == 'N':
                out.append('%s∈[%s,%s]%s' % (self.v(k[1]), v[0], v[1], '∖' + str(sorted(v[2])) if v[2] else ''))
            elif k[0] == 'T':
                out.append('%s %s %s' % (self.v(k[1]), v[0], v[1] if v[0] == 'in' else sorted(v[1])))
        return '; '.join(out)
