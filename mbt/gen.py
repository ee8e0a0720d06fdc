"""Random formulas, traces and scripts (all numbers are dyadic rationals)."""
import random
from fractions import Fraction as F
from . import lang
from .script import Ep

H = F(1, 2)


def has(f, k):
    return isinstance(f, tuple) and (f[0] == k or any(has(x, k) for x in f[1:]))


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def half(self, lo, hi):
        return F(self.r.randint(int(lo * 2), int(hi * 2)), 2)

    def interval(self, maxb=4, point=0.1):
        a = self.half(0, maxb) if self.r.random() < 0.6 else F(0)
        b = a if self.r.random() < point else a + self.half(0, maxb)
        return ('num', a), ('num', b)

    def expr(self, sigs, depth=0, arith=0.0):
        r = self.r
        if depth > 0 and r.random() < arith:
            k = r.choice(['+', '-', '+', '-', '*', 'abs'])
            if k == 'abs':
                return ('abs', self.expr(sigs, depth - 1, arith))
            return (k, self.expr(sigs, depth - 1, arith), self.expr(sigs, depth - 1, arith))
        if r.random() < 0.25:
            return ('num', self.half(-3, 3))
        return ('sig', r.choice(sigs))

    def atom(self, sigs, arith=0.0):
        r = self.r
        op = r.choice(['<', '>', '<=', '>='])
        if arith and r.random() < arith:
            return (op, self.expr(sigs, 2, 0.7), self.expr(sigs, 1, 0.4))
        l = ('sig', r.choice(sigs))
        q = ('num', self.half(-3, 3)) if r.random() < 0.8 else ('sig', r.choice(sigs))
        return (op, l, q) if r.random() < 0.85 else (op, q, l)

    def formula(self, sigs, depth, ops=('not', 'and', 'or', '=>', 'ev', 'alw'), arith=0.0, maxb=4, leaf=0.15):
        r = self.r
        if depth == 0 or r.random() < leaf:
            return self.atom(sigs, arith)
        k = r.choice(ops)
        sub = lambda: self.formula(sigs, depth - 1, ops, arith, maxb, leaf)
        if k == 'not':
            return ('not', sub())
        if k in ('and', 'or', '=>'):
            return (k, sub(), sub())
        a, b = self.interval(maxb)
        if k in ('ev', 'alw'):
            return (k, a, b, sub())
        return ('until', a, b, sub(), sub())

    def rows(self, nsig, n, slope='unit', t0=None, lastmin=None):
        """n samples; slope 'unit': slopes in {-1,0,1} between samples, 'any': free values."""
        r = self.r
        t = self.half(0, 2) if t0 is None else F(t0)
        if t0 is None and r.random() < .3:
            t = F(0)
        rng = r.choice([1, 3, 3, 5])                 # small ranges make ties
        steps = r.choice([[H, H, 1, 1, F(3, 2), 2, 3], [H], [1], [H, 4], [F(1, 4), H, 1]])
        x = [self.half(-rng, rng) for _ in range(nsig)]
        out = []
        while len(out) < n or (lastmin is not None and out[-1][0] < lastmin):
            out.append([t] + list(x))
            if len(out) > 40:
                break
            dt = F(r.choice(steps))
            t = t + dt
            for i in range(nsig):
                if slope == 'unit':
                    d = r.choice([-1, 0, 1])
                    if abs(x[i] + d * dt) > 6:
                        d = -d
                    x[i] = x[i] + d * dt
                elif r.random() < .85:
                    x[i] = self.half(-rng, rng)
        return out

    # the units in which the code is asked
    def unit(self, e, formulas, sems=('SPACE',), p=.3):
        r = self.r
        if r.random() >= p:
            return e
        ks = [F(2) ** k for k in (-30, -20, -14, -10, -7, -3, 0, 0, 4, 8, 16, 24)]
        kt, kv = r.choice(ks), r.choice(ks)
        mul = any(has(f, '*') for f in formulas)
        if any(s != 'SPACE' for s in sems):         # robustness is a time
            kv = kt = F(1) if mul else kt
        elif mul:
            kv = F(1)
        ots = [F(0), F(0), F(5, 2), F(-7), F(1000), F(2) ** 20, F(2) ** 31]
        if r.random() < .3:     # numbers of many digits; slopes stay exact
            odd = F(2 ** 24 + 1)
            kv = kv * odd if kv != 1 or not mul else kv
            if any(s != 'SPACE' for s in sems):
                kt = kv
            elif kv != 1 and r.random() < .5:
                kt = kt * odd
            ots.pop()
        e.kt, e.kv = kt, kv
        e.ot = r.choice(ots)
        return e

    # rewriting by the laws of negation, min and max
    def rewrite(self, f, n=3):
        for _ in range(self.r.randint(1, n)):
            f = self._rw(f)
        return f

    def _rw(self, f):
        r = self.r
        k = f[0]
        subs = [i for i in range(1, len(f)) if isinstance(f[i], tuple) and f[i][0] in
                ('<', '>', '<=', '>=', 'not', 'and', 'or', '=>', 'ev', 'alw', 'until')]
        if subs and r.random() < .5:
            i = r.choice(subs)
            return f[:i] + (self._rw(f[i]),) + f[i + 1:]
        opts = [lambda: ('not', ('not', f))]
        N = lambda p: ('not', p)
        if k == 'not' and f[1][0] == 'not':
            opts.append(lambda: f[1][1])
        if k in ('<', '>', '<=', '>='):
            sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[k]
            opts += [lambda: (sw, f[2], f[1]), lambda: N((sw, f[1], f[2]))]
        if k in ('and', 'or'):
            o = 'or' if k == 'and' else 'and'
            opts += [lambda: (k, f[2], f[1]), lambda: N((o, N(f[1]), N(f[2]))), lambda: (k, f, f[1])]
            if f[1][0] == k:
                opts.append(lambda: (k, f[1][1], (k, f[1][2], f[2])))
            if f[2][0] == k:
                opts.append(lambda: (k, (k, f[1], f[2][1]), f[2][2]))
        if k == 'or':
            opts.append(lambda: ('=>', N(f[1]), f[2]))
        if k == '=>':
            opts += [lambda: ('or', N(f[1]), f[2]), lambda: ('=>', N(f[2]), N(f[1]))]
        if k == 'ev':
            opts.append(lambda: N(('alw', f[1], f[2], N(f[3]))))
        if k == 'alw':
            opts.append(lambda: N(('ev', f[1], f[2], N(f[3]))))
        if k == 'not' and f[1][0] in ('ev', 'alw'):
            p = f[1]
            opts.append(lambda: ('alw' if p[0] == 'ev' else 'ev', p[1], p[2], N(p[3])))
        return r.choice(opts)()
