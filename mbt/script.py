"""Scripts: sequences of calls, written once for the code and once for the spec."""
from fractions import Fraction as F


def dec(q):
    """A decimal spelling of a dyadic (or short decimal) rational."""
    q = F(q)
    s = '-' if q < 0 else ''
    n, d = abs(q.numerator), q.denominator
    if d == 1:
        return s + str(n)
    k, m = 0, d
    while 10 ** k % d and k < 90:
        k += 1
    v = n * 10 ** k // d
    assert F(v, 10 ** k) == abs(q), q
    t = str(v).rjust(k + 1, '0')
    return s + t[:-k] + '.' + t[-k:]


def rat(q):
    q = F(q)
    return [q.numerator, q.denominator]


def esc(s):
    return ''.join('%%%02X' % ord(c) if c in '%\t\n\r' or ord(c) < 32 else c for c in s)


TIMEPARS = set('abcvw')     # parameters that stand for times; all others stand for values


def plain(toks): return [{k: x for k, x in t.items() if k != 'u'} for t in toks]


class Ep:
    """One episode: calls (op, fields for the harness, arguments for the spec).

    The code may be asked in other units than the specification: kt of its time
    units and kv of its value units are one of the specification's, and the
    specification's time 0 is ot of the specification's units after the code's.
    The script interpreter converts the results back."""

    def __init__(self, kt=1, kv=1, ot=0):
        self.calls = []
        self.note = {}
        self.kt, self.kv, self.ot = F(kt), F(kv), F(ot)

    def same(self): return self.kt == self.kv == 1 and self.ot == 0
    def T(self, x): return dec((F(x) + self.ot) * self.kt)      # a time
    def D(self, x): return dec(F(x) * self.kt)                  # a time difference
    def V(self, x): return dec(F(x) * self.kv)                  # a value
    def P(self, n, x): return self.D(x) if n in TIMEPARS else self.V(x)
    def row(self, r): return [self.T(x) if i == 0 else self.V(x) for i, x in enumerate(r)]

    def layout(self, toks):
        from .lang import layout
        if self.same():
            return layout(toks)
        return layout([dict(t, s=(self.D if t.get('u') == 't' else self.V)(F(*t['v']))) if 'v' in t else t for t in toks])

    def raw(self, op, code, spec=None):
        self.calls.append((op, [str(x) for x in code], list(code) if spec is None else spec))
        return self

    def new(self, d): return self.raw('new', [d])

    def parse(self, d, toks, text=None):
        return self.raw('parse', [d, esc(self.layout(toks) if text is None else text)], [d, plain(toks)])

    def add(self, d, row): return self.raw('add', [d] + self.row(row), [d, [rat(x) for x in row]])
    def setp(self, d, n, v): return self.raw('setp', [d, n, self.P(n, v)], [d, n, rat(v)])
    def bigm(self, v): return self.raw('bigm', [self.V(v)], [rat(v)])
    def getbig(self): return self.raw('getbig', [])
    def getp(self, d, n): return self.raw('getp', [d, n])
    def sem(self, d, s): return self.raw('sem', [d, s])
    def itp(self, d, s): return self.raw('itp', [d, s])

    def eval(self, d, f, t=None):
        if t is None and self.ot == 0:
            return self.raw('eval', [d, f], [d, f, rat(0)])
        return self.raw('eval', [d, f, self.T(t or 0)], [d, f, rat(t or 0)])

    def fresh(self, toks, rows, sem, itp, name, t, text=None):
        """The answer of a process that has done nothing else."""
        return self.raw('fresh', [esc(self.layout(toks) if text is None else text),
                                  ';'.join(','.join(self.row(r)) for r in rows), sem, itp, name, self.T(t)],
                        [plain(toks), [[rat(x) for x in r] for r in rows], sem, itp, name, rat(t)])

    def mon(self, m, d, f): return self.raw('mon', [m, d, f])
    def madd(self, m, row): return self.raw('madd', [m] + self.row(row), [m, [rat(x) for x in row]])
    def msetp(self, m, n, v): return self.raw('msetp', [m, n, self.P(n, v)], [m, n, rat(v)])
    def mgetp(self, m, n): return self.raw('mgetp', [m, n])

    def times(self, op, m, t, *more):
        return self.raw(op, [m] + [self.T(x) for x in t] + list(more), [m] + [rat(x) for x in t])

    def meval(self, m, *t): return self.times('meval', m, t)
    def mtime(self, m, a, b, *how): return self.times('mtime', m, (a, b), *how)
    def msig(self, m, *t): return self.times('msig', m, t)
    def mget(self, m, *t): return self.times('mget', m, t)

    def __getattr__(self, op):
        if op.startswith('_'):
            raise AttributeError(op)
        return lambda *a: self.raw(op, a)

    def text(self, n):
        return 'ep\t%d%s\n' % (n, '' if self.same() else '\t%r\t%r\t%r' % (float(self.kt), float(self.kv), float(self.ot))) + \
            ''.join('\t'.join([op] + code) + '\n' for op, code, _ in self.calls)
