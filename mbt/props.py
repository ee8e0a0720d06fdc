"""The properties: what is generated for each and which clauses decide it."""
from fractions import Fraction as F
from . import lang
from .core import Prop
from .gen import H, has
from .lang import W, N, S
from .script import Ep, plain

REG = {}


def reg(c):
    REG[c.id] = c
    return c


BOOL = ('not', 'and', 'or', '=>')
TEMP = BOOL + ('ev', 'alw')
import os
FUZZ = float(os.environ.get('FUZZ', '.2'))
ALL = TEMP + ('until', 'until')
FULL = ['rob', 'conv', 'sound', 'between', 'tight']


class Eval(Prop):
    """Formulas on traces, evaluated by a driver and by monitors."""
    ops = TEMP
    depths = (1, 1, 2, 2, 3)
    itps = ('LINEAR', 'LINEAR', 'PREVIOUS')
    sems = ('SPACE',)
    arith = 0.0
    slopes = ('unit', 'any')
    cover = True            # the trace covers all evaluations
    partial = False         # evaluate while samples arrive
    maxb = {0: 4, 1: 4, 2: 3, 3: 2}
    times = (0, 3)
    units = .3
    fuzz = FUZZ
    low = 0.0               # how often values of a covering trace exceed BigM

    def accept(self, f):
        return True

    def episode(self, g):
        r = g.r
        e = Ep()
        sigs = ['x', 'y'][:r.choice([1, 2, 2])]
        depth = r.choice(self.depths)
        while True:
            f = g.formula(sigs, depth, self.ops, self.arith, maxb=self.maxb[depth])
            if self.accept(f):
                break
        itp, sem = r.choice(self.itps), r.choice(self.sems)
        # units in which the numbers are rounded: only for what is continuous in them
        fuzzy = self.cover and itp == 'LINEAR' and sem == 'SPACE' and r.random() < self.fuzz
        if fuzzy:
            e.kt = F(r.choice([1, 3, 7]), r.choice([10, 100, 1000]))
            e.kv = F(1) if has(f, '*') else F(r.choice([1, 1, 3]), 10)
        else:
            g.unit(e, [f], [sem], self.units)
        e.new('d').parse('d', lang.decl(sigs) + lang.define('phi', f))
        if itp != 'LINEAR' or r.random() < .1:
            e.itp('d', itp)
        if sem != 'SPACE' or r.random() < .1:
            e.sem('d', sem)
        ts = [g.half(*self.times) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .5:
            ts[0] = F(0)
        slope = r.choice(self.slopes)
        last = max(ts) + lang.horizon(f) + (H if fuzzy else 0) if self.cover else None
        partial = self.partial and not fuzzy
        if self.cover and sem == 'SPACE' and r.random() < self.low:
            e.bigm(r.choice([F(0), F(1, 2), F(1), F(2)]))
            partial = False
        rows = g.rows(len(sigs), r.randint(1 if partial else 2, 7), slope=slope, lastmin=last)
        who = r.choice(['d', 'm', 'dm'])
        early = r.random() < .5
        if 'm' in who and early:
            e.mon('m', 'd', 'phi')
        for i, row in enumerate(rows):
            end = i + 1 == len(rows)
            if 'd' in who or not early:
                e.add('d', row)
            if 'm' in who and early:
                e.madd('m', row)
            if partial and not end and r.random() < .7:
                t = r.choice(ts)
                if 'd' in who:
                    e.eval('d', 'phi', t)
                if 'm' in who and early:
                    e.meval('m', t)
        if 'm' in who and not early:
            e.mon('m', 'd', 'phi')
        for t in ts:
            if 'd' in who:
                e.eval('d', 'phi', t)
            if 'm' in who:
                if r.random() < .25 and not fuzzy:
                    e.meval('m', t, t + g.half(0, 2))
                else:
                    e.meval('m', t)
        if ts[0] == 0 and 'm' in who and r.random() < .3:
            e.meval('m')
        e.note = dict(f=f)
        return e

    def episodes(self, g, n):
        return [self.episode(g) for _ in range(n)]


@reg
class C01(Eval):
    id = 'C01'
    models = [('MCSem', 'INVARIANTS PointwiseOk', 'robustness against a pointwise reading')]
    quick, thorough = 2500, 60000
    low = .2
    rule = 'random formulas (depth <= 3, not/and/or/=>/ev/alw) on random traces that cover them; non-trivial: at least one evaluation'


@reg
class C02(Eval):
    id = 'C02'
    models = [('MCPL', 'INVARIANTS UntilOk UntimedOk', 'until on piecewise-linear signals against its definition')]
    ops = ALL
    clauses = ['rob', 'conv', 'sound', 'between', 'tight']
    partial = True
    low = .2
    quick, thorough = 2500, 60000

    def accept(self, f): return has(f, 'until')
    rule = 'random formulas with at least one until, evaluated while samples arrive; non-trivial: at least one evaluation'


@reg
class C03(Eval):
    id = 'C03'
    models = [('MCSem', 'INVARIANTS Refine', 'bounds enclose, refine and converge')]
    ops = TEMP + ('until',)
    clauses = ['sound', 'between']
    cover = False
    partial = True
    arith = 0.1
    quick, thorough = 2500, 60000
    rule = 'random formulas on traces that need not cover them, evaluated after most samples'


@reg
class C04(C03):
    id = 'C04'
    clauses = ['conv', 'tight']
    rule = 'as C03; the final trace covers the formula in half of the cases'

    def episode(self, g):
        self.cover = g.r.random() < .5
        return super().episode(g)


@reg
class C05(C03):
    id = 'C05'
    clauses = ['refine']
    quick, thorough = 3000, 60000


@reg
class C06(Eval):
    id = 'C06'
    arith = 0.8
    low = .1
    depths = (0, 0, 1, 1, 2)
    itps = ('LINEAR', 'PREVIOUS')
    quick, thorough = 2500, 60000
    rule = 'random comparisons of arithmetic expressions (+, -, *, abs, parentheses, parameters), alone or under operators'


@reg
class C09(Eval):
    id = 'C09'
    sems = ('LEFT_TIME', 'RIGHT_TIME')
    ops = TEMP + ('until',)
    slopes = ('unit',)
    quick, thorough = 2500, 60000
    rule = 'random formulas with left or right time semantics on traces that cover them'


class Rel(Eval):
    """Evaluations compared with each other (no reference semantics needed)."""
    clauses = ['func']
    ops = TEMP + ('until',)
    quick, thorough = 2000, 40000

    def new(self, g, nsig=None):
        r = g.r
        sigs = ['x', 'y'][:nsig or r.choice([1, 2])]
        return Ep(), sigs

    def settings(self, g, e, d, itp, sem):
        if itp != 'LINEAR' or g.r.random() < .2:
            e.itp(d, itp)
        if sem != 'SPACE' or g.r.random() < .2:
            e.sem(d, sem)


ANYSEM = ('SPACE', 'SPACE', 'LEFT_TIME', 'RIGHT_TIME')
ANYITP = ('LINEAR', 'PREVIOUS')


@reg
class C07(Rel):
    id = 'C07'
    clauses = ['func', 'shift', 'window', 'rob']
    rule = 'one formula on a trace, on the trace shifted in time, and on the trace with other samples outside the window'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        depth = r.choice([0, 1, 1, 2, 2])
        f = g.formula(sigs, depth, self.ops, 0.1, maxb=2)
        text = lang.decl(sigs) + lang.define('phi', f)
        itp, sem = r.choice(ANYITP), r.choice(ANYSEM)
        hz = lang.horizon(f)
        t = g.half(0, 4)
        rows = g.rows(len(sigs), r.randint(1, 7), slope=r.choice(['unit', 'any']),
                      lastmin=t + hz if r.random() < .7 else None)
        dt = r.choice([F(1), F(5, 2), F(7), F(100), F(1, 4)])
        g.unit(e, [f], [sem])
        e.new('d1').parse('d1', text)
        self.settings(g, e, 'd1', itp, sem)
        for x in rows:
            e.add('d1', x)
        u = t + g.half(0, 1) if r.random() < .3 else t
        ev = lambda d, t: (e.eval(d, 'phi', t) if d[0] == 'd' else e.meval(d, t))
        ev('d1', t)
        e.new('d2').parse('d2', text)
        self.settings(g, e, 'd2', itp, sem)
        for x in rows:
            e.add('d2', [x[0] + dt] + x[1:])
        if r.random() < .3:
            e.mon('m2', 'd2', 'phi').meval('m2', t + dt)
        else:
            e.eval('d2', 'phi', t + dt)
        if rows[-1][0] >= t + hz:
            lo = max([i for i, x in enumerate(rows) if x[0] <= t] or [0])
            hi = min(i for i, x in enumerate(rows) if x[0] >= t + hz)
            part = rows[lo:hi + 1]
            pre = []
            if rows[0][0] <= t:     # what comes before a sample at or before t is not looked at
                s = part[0][0]
                for k in range(r.randint(0, 3)):
                    s = s - r.choice([H, F(1), F(2)])
                    pre.insert(0, [s] + [g.half(-5, 5) for _ in sigs])
            post, s = [], part[-1][0]
            for k in range(r.randint(0, 3)):
                s = s + r.choice([H, F(1), F(2)])
                post.append([s] + [g.half(-5, 5) for _ in sigs])
            e.new('d3').parse('d3', text)
            self.settings(g, e, 'd3', itp, sem)
            for x in pre + part + post:
                e.add('d3', x)
            e.eval('d3', 'phi', t)
        return e


@reg
class C08(Rel):
    id = 'C08'
    models = [('MCSem', 'INVARIANTS Laws', 'the laws hold for the specified semantics')]
    clauses = ['func', 'laws']
    rule = 'a formula and formulas equal to it by the laws of negation, min and max, on a growing trace'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        f = g.formula(sigs, r.choice([1, 2, 2, 3]), self.ops, 0.1, maxb=2)
        fs = [f] + [g.rewrite(f, 4) for _ in range(r.randint(1, 3))]
        g.unit(e, fs)
        e.new('d').parse('d', lang.decl(sigs))
        for i, p in enumerate(fs):
            e.parse('d', lang.define('f%d' % i, p))
        self.settings(g, e, 'd', r.choice(ANYITP), 'SPACE')
        t = g.half(0, 2)
        for x in g.rows(len(sigs), r.randint(1, 6), slope=r.choice(['unit', 'any'])):
            e.add('d', x)
            if r.random() < .5:
                for i in range(len(fs)):
                    e.eval('d', 'f%d' % i, t)
        for i in range(len(fs)):
            e.eval('d', 'f%d' % i, t)
        return e


@reg
class C22(Rel):
    id = 'C22'
    models = [('MCSem', 'INVARIANTS Verdict', 'sign against the Boolean semantics')]
    clauses = ['lip', 'sign']
    arith = 0.2
    rule = 'one formula on traces that differ by a little in every value; the sign is the truth value'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        f = g.formula(sigs, r.choice([1, 2, 2, 3]), self.ops, 0.1, maxb=2)
        text = lang.decl(sigs) + lang.define('phi', f)
        itp = r.choice(ANYITP)
        ts = [g.half(0, 3) for _ in range(2)]
        g.unit(e, [f], p=.4)
        rows = g.rows(len(sigs), r.randint(2, 6), slope=r.choice(['unit', 'any']), lastmin=max(ts) + lang.horizon(f))
        for k in range(r.randint(2, 3)):
            d = 'd%d' % k
            e.new(d).parse(d, text)
            self.settings(g, e, d, itp, 'SPACE')
            eps = r.choice([F(1, 8), H, F(1)])
            for x in rows:
                e.add(d, x if k == 0 else [x[0]] + [v + r.choice([-1, 0, 1]) * eps for v in x[1:]])
            for t in ts:
                e.eval(d, 'phi', t)
        return e


@reg
class C21(Rel):
    id = 'C21'
    scenario = 'two'
    clauses = ['func']
    rule = 'the same formula, data, parameters and settings in a driver and in monitors made at different moments'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        f = g.formula(sigs, r.choice([1, 2, 2]), self.ops, 0.1, maxb=2)
        itp, sem = r.choice(ANYITP), r.choice(ANYSEM)
        g.unit(e, [f], [sem])
        e.new('d').parse('d', lang.decl(sigs) + lang.params([('p', g.half(-2, 2))]) +
                         lang.define('phi', ('and', f, ('<', ('sig', 'x'), ('par', 'p')))))
        late = r.random() < .5
        if late:
            e.mon('m', 'd', 'phi')
            e.raw('mitp', ['m', itp]).raw('msem', ['m', sem])
        e.itp('d', itp).sem('d', sem)
        if not late:
            e.mon('m', 'd', 'phi')
        t = g.half(0, 2)
        mons = ['m']
        for i, x in enumerate(g.rows(len(sigs), r.randint(2, 7), slope=r.choice(['unit', 'any']))):
            e.add('d', x)
            for m in mons:
                e.madd(m, x)
            if r.random() < .2:
                v = g.half(-2, 2)
                e.setp('d', 'p', v)
                for m in mons:
                    e.msetp(m, 'p', v)
            if r.random() < .3:
                m = 'm%d' % i
                e.mon(m, 'd', 'phi')
                mons.append(m)
            if r.random() < .6:
                e.eval('d', 'phi', t)
                for m in mons:
                    e.meval(m, t)
        if r.random() < .5:
            e.mtime('m', t, t).meval('m').mobs('m')
        e.eval('d', 'phi', t)
        for m in mons:
            e.meval(m, t)
        return e


@reg
class C13(Rel):
    id = 'C13'
    scenario = 'params'
    clauses = ['func', 'hit']
    rule = 'formulas with parameters in bounds and expressions; every answer is compared with that of a fresh process for the formula with the values written out'

    def inst(self, f, par):
        if isinstance(f, tuple):
            if f[0] == 'par':
                return ('num', par[f[1]])
            if f[0] in ('num', 'sig', 'id'):
                return f
            return (f[0],) + tuple(self.inst(x, par) for x in f[1:])
        return f

    def put(self, g, f, names, bnames):
        r = g.r
        if not isinstance(f, tuple):
            return f
        if f[0] in ('ev', 'alw', 'until'):
            a, b = f[1], f[2]
            if r.random() < .5:
                b = ('par', r.choice(bnames))
                a = ('num', F(0))
            if r.random() < .4 and (b[0] == 'par' or b[1] >= 1):
                a = ('par', 'a')
            return (f[0], a, b) + tuple(self.put(g, x, names, bnames) for x in f[3:])
        if f[0] == 'num':
            return ('par', r.choice(names)) if r.random() < .7 else f
        if f[0] == 'sig':
            return f
        return (f[0],) + tuple(self.put(g, x, names, bnames) for x in f[1:])

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        rng = {'a': (0, 1), 'b': (1, 2), 'c': (1, 3)}
        val = lambda n: g.half(*rng.get(n, (-2, 2)))
        par = {n: val(n) for n in 'pqabc'}
        fs = [self.put(g, g.formula(sigs, r.choice([0, 1, 1, 2]), self.ops, 0.3, maxb=2), ['p', 'q'], ['b', 'c'])
              for _ in range(2)]
        g.unit(e, fs)
        e.new('d').parse('d', lang.decl(sigs) + lang.params(list(par.items())))
        for i, f in enumerate(fs):
            e.parse('d', lang.define('f%d' % i, f))
        itp = r.choice(ANYITP)
        self.settings(g, e, 'd', itp, 'SPACE')
        rows = g.rows(len(sigs), r.randint(3, 7), slope=r.choice(['unit', 'any']))
        k = r.randint(1, len(rows))
        for x in rows[:k]:
            e.add('d', x)
        mpar = None
        cur = rows[:k]
        mrows = None
        for step in range(r.randint(3, 7)):
            c = r.random()
            n = r.choice(list(par) + ['nope'])
            v = val(n)
            if c < .3:
                e.setp('d', n, v)
                if n in par:
                    par[n] = v
                if r.random() < .5:
                    e.getp('d', n)
            elif c < .4:
                n = r.choice(list(par))
                v = val(n)
                e.parse('d', lang.params([(n, v)]))
                par[n] = v
            elif c < .55:
                e.mon('m', 'd', 'f0')
                mpar, mrows = dict(par), list(cur)
            elif c < .75 and mpar is not None:
                e.msetp('m', n, v)
                if n in par:
                    mpar[n] = v
                if r.random() < .5:
                    e.mgetp('m', n)
            elif k < len(rows):
                e.add('d', rows[k])
                cur.append(rows[k])
                k += 1
            t = g.half(0, 2)
            i = r.randrange(2)
            e.eval('d', 'f%d' % i, t)
            e.fresh(lang.decl(sigs) + lang.define('g', self.inst(fs[i], par)), cur, 'SPACE', itp, 'g', t)
            if mpar is not None:
                e.meval('m', t)
                e.fresh(lang.decl(sigs) + lang.define('g', self.inst(fs[0], mpar)), mrows, 'SPACE', itp, 'g', t)
        e.obs('d')
        if mpar is not None:
            e.mobs('m')
        return e


@reg
class C10(Rel):
    id = 'C10'
    scenario = 'settings'
    clauses = ['func', 'hit']
    rule = 'long random histories over several drivers and monitors; answers are compared with those of a fresh process'

    def episode(self, g):
        r = g.r
        e = Ep()
        D = {}
        arith = r.choice([0, .2])
        if not arith:
            g.unit(e, [], ANYSEM)
        for d in ['a', 'b'][:r.choice([1, 2, 2])]:
            sigs = ['x', 'y'][:r.choice([1, 2])]
            fs = [g.formula(sigs, r.choice([0, 1, 2]), self.ops, arith, maxb=2) for _ in range(r.choice([1, 2, 3]))]
            e.new(d).parse(d, lang.decl(sigs))
            for i, f in enumerate(fs):
                e.parse(d, lang.define('f%d' % i, f))
            D[d] = dict(sigs=sigs, fs=fs, sem='SPACE', itp='LINEAR', rows=[],
                        more=g.rows(len(sigs), r.randint(3, 6), slope='any'))
        M = {}
        hist = []
        for step in range(r.randint(6, 16)):
            d = r.choice(list(D))
            x = D[d]
            c = r.random()
            if c < .3 and x['more']:
                row = x['more'].pop(0)
                e.add(d, row)
                x['rows'].append(row)
            elif c < .4:
                x['sem'] = r.choice(ANYSEM)
                e.sem(d, x['sem'])
            elif c < .5:
                x['itp'] = r.choice(ANYITP)
                e.itp(d, x['itp'])
            elif c < .6:
                i = r.randrange(len(x['fs']))
                m = r.choice(['m', 'n'])
                e.mon(m, d, 'f%d' % i)
                M[m] = dict(x, rows=list(x['rows']), f=x['fs'][i])
            elif c < .65:
                e.parse(d, [W('zz'), W(':='), W('(')])      # an error
            elif c < .7 and M:
                m = r.choice(list(M))
                M[m]['sem'] = r.choice(ANYSEM)
                e.msem(m, M[m]['sem'])
            elif c < .75 and M:
                m = r.choice(list(M))
                M[m]['itp'] = r.choice(ANYITP)
                e.mitp(m, M[m]['itp'])
            elif c < .8:
                e.raw('print', [d])
            ts = [g.half(0, 3)]
            if hist and r.random() < .4:
                ts.append(r.choice(hist))
            for t in ts:
                hist.append(t)
                if x['rows'] and r.random() < .7:
                    i = r.randrange(len(x['fs']))
                    e.eval(d, 'f%d' % i, t)
                    if r.random() < .8:
                        e.fresh(lang.decl(x['sigs']) + lang.define('g', x['fs'][i]), x['rows'], x['sem'], x['itp'], 'g', t)
                if M and r.random() < .6:
                    m = r.choice(list(M))
                    y = M[m]
                    if y['rows']:
                        e.meval(m, t)
                        if r.random() < .8:
                            e.fresh(lang.decl(y['sigs']) + lang.define('g', y['f']), y['rows'], y['sem'], y['itp'], 'g', t)
        return e


@reg
class C11(Rel):
    id = 'C11'
    scenario = 'life'
    clauses = ['func']
    rule = 'random copies, assignments, moves and monitors of drivers and monitors, with calls on any of them and their whole observable state read back'

    def episode(self, g):
        r = g.r
        e = Ep()
        sigs = ['x', 'y']
        e.new('a').parse('a', lang.decl(sigs) + lang.params([('p', g.half(-2, 2))]) +
                         lang.define('f0', g.formula(sigs, 1, self.ops, 0.1, maxb=2)) +
                         lang.define('f1', ('<', ('sig', 'x'), ('par', 'p'))))
        if r.random() < .5:
            e.parse('a', TESTS(g, sigs, 'tt', 1))
        D, M = {'a': dict(t=F(0), n=0, k=2)}, {}
        for step in range(r.randint(8, 18)):
            c = r.random()
            d = r.choice(list(D)) if D else None
            o = r.choice('abc')
            if d is None or c < .05:
                e.new(o).parse(o, lang.decl(sigs) + lang.params([('p', F(1))]) +
                               lang.define('f1', ('>', ('sig', 'y'), ('par', 'p'))))
                D[o] = dict(t=F(0), n=0, k=1)
                d = o
            elif c < .25:
                x = D[d]
                x['t'] += r.choice([H, F(1)])
                e.add(d, [x['t'], g.half(-3, 3), g.half(-3, 3)])
                x['n'] += 1
            elif c < .32:
                e.setp(d, 'p', g.half(-3, 3))
            elif c < .37:
                e.sem(d, r.choice(ANYSEM))
            elif c < .42:
                e.itp(d, r.choice(ANYITP))
            elif c < .52:
                m = r.choice('mnk')
                e.mon(m, d, r.choice(['f0', 'f1', 'f1', 'nope']))
                M[m] = dict(D[d])
            elif c < .58:
                e.copy(o, d)
                D[o] = dict(D[d])
            elif c < .64 and o in D:
                e.assign(o, d)
                D[o] = dict(D[d])
            elif c < .68 and o != d:
                if o in D and r.random() < .5:
                    e.massign(o, d)
                else:
                    e.move(o, d)
                D[o] = D.pop(d)
                d = o
            elif c < .71:
                e.raw('del', [d])
                D.pop(d)
                d = None
            elif c < .73:
                e.clear(d)
            elif c < .76:
                e.parse(d, lang.define('g%d' % step, g.formula(sigs, 1, self.ops, maxb=1)))
            elif M:
                m, q = r.choice(list(M)), r.choice('mnk')
                x = M[m]
                c = r.random()
                if c < .3:
                    x['t'] += r.choice([H, F(1)])
                    e.madd(m, [x['t'], g.half(-3, 3), g.half(-3, 3)])
                    x['n'] += 1
                elif c < .4:
                    e.msetp(m, 'p', g.half(-3, 3))
                elif c < .5:
                    e.mitp(m, r.choice(ANYITP))
                elif c < .55:
                    e.msem(m, r.choice(ANYSEM))
                elif c < .6:
                    e.mclear(m)
                    M[m] = dict(t=F(0), n=0, k=0)
                elif c < .75:
                    e.mcopy(q, m)
                    M[q] = dict(x)
                elif c < .85 and q in M:
                    e.mcassign(q, m)
                    M[q] = dict(x)
                elif q != m:
                    if q in M and r.random() < .5:
                        e.mmassign(q, m)
                    else:
                        e.mmove(q, m)
                    M[q] = M.pop(m)
                    m = q
                e.meval(m, g.half(0, 2))
            if d in D and r.random() < .5:
                e.eval(d, r.choice(['f0', 'f1', 'f1', 'nope']), g.half(0, 2))
            for x in D:
                if r.random() < .4:
                    e.obs(x)
            for m in M:
                if r.random() < .4:
                    e.mobs(m)
            if M and r.random() < .4:
                e.meval(r.choice(list(M)), g.half(0, 2))
        for x in D:
            e.obs(x)
        for m in M:
            e.mobs(m)
        return e


@reg
class C12(Rel):
    id = 'C12'
    scenario = 'rows'
    clauses = ['func', 'hit']
    rule = 'samples of right and wrong sizes, with increasing, equal and decreasing times; data read back, answers compared with a fresh process fed the admitted samples'

    def episode(self, g):
        r = g.r
        ns = r.choice([1, 2, 3])
        sigs = ['x', 'y', 'z'][:ns]
        f = g.formula(sigs, r.choice([0, 1]), self.ops, maxb=2)
        text = lang.decl(sigs) + lang.define('phi', f)
        e = Ep().new('d').parse('d', text)
        rows = {'d': []}
        mons = []
        t = {'d': F(r.choice([-2, 0, 0, 1]))}
        for step in range(r.randint(4, 12)):
            o = r.choice(list(rows))
            n = ns + (r.choice([-1, 1, -ns, 2]) if r.random() < .2 else 0)
            dt = r.choice([H, 1, 2]) if r.random() < .65 else r.choice([0, -H, -1, -5, 0])
            row = [t[o] + dt] + [g.half(-3, 3) for _ in range(n)]
            if r.random() < .02:
                row = []
            if row == [] and o != 'd':
                continue
            if o == 'd':
                e.add('d', row)
            else:
                e.madd(o, row)
            if n == ns and row and (not rows[o] or row[0] > rows[o][-1][0]):
                rows[o].append(row)
                t[o] = row[0]
            if r.random() < .15:
                m = 'm%d' % step
                e.mon(m, 'd', 'phi')
                rows[m] = list(rows['d'])
                t[m] = t['d']
            if rows[o] and r.random() < .4:
                tt = g.half(0, 2)
                if o == 'd':
                    e.eval('d', 'phi', tt)
                else:
                    e.meval(o, tt)
                e.fresh(text, rows[o], 'SPACE', 'LINEAR', 'phi', tt)
            if r.random() < .4:
                e.obs('d') if o == 'd' else e.mobs(o)
            if o != 'd' and r.random() < .1:
                e.mclear(o)
                rows[o] = []
        e.obs('d')
        return e


def TESTS(g, sigs, name, n, pre=(), ids=None, locs=(), flat=True):
    """A trace test with n tests."""
    r = g.r
    t = [W('test'), W(name), W(':'), S(r.choice(['env', 'a b', '']))]
    if r.random() < .5:
        t += [W(','), N(F(r.randint(1, 9))), W(','), W(r.choice(['true', 'false']))]
    t += [W('{')]
    for i in range(n):
        tid = '%s_%d' % (name, i)
        if ids and r.random() < .35:
            tid = r.choice(ids)
            t += [W(tid)]
            if locs and r.random() < .5:
                t += LOCALS(g, locs)
            continue
        t += [W(tid)]
        if locs and r.random() < .5:
            t += LOCALS(g, locs)
        f = g.formula(sigs, 1, ('not', 'and', 'or', 'ev', 'alw'), maxb=1)
        if locs and r.random() < .7:
            f = ('and', f, ('<', ('sig', 'x'), ('par', r.choice(locs))))
        t += [W('{')] + lang.ftoks(f) + [W(','), S(r.choice(['bad', '', 'it fails'])), W(','),
                                         S(r.choice(['good', '', 'all well'])), W(','), W(r.choice(['true', 'false'])), W('}')]
        if ids is not None:
            ids.append(tid)
    return t + [W('}')]


def LOCALS(g, locs):
    t = [W('(')]
    ns = g.r.sample(list(locs), g.r.randint(1, len(locs)))
    for i, n in enumerate(ns):
        t += ([W(',')] if i else []) + [W(n), W('='), N(g.half(-3, 3))]
    return t + [W(')')]


@reg
class C17(Rel):
    id = 'C17'
    scenario = 'tests'
    clauses = ['rob']
    rule = 'trace tests with local parameters, reuse of tests and error flags, run group by group'

    def episode(self, g):
        r = g.r
        sigs = ['x', 'y'][:r.choice([1, 2])]
        e = Ep().new('d')
        locs = ['p', 'q']
        e.parse('d', lang.decl(sigs) + lang.params([(n, g.half(-2, 2)) for n in locs]))
        ids = []
        k = r.randint(1, 3)
        texts = [TESTS(g, sigs, 'T%d' % i, r.randint(1, 4), ids=ids, locs=locs) for i in range(k)]
        if r.random() < .5:
            e.parse('d', sum(texts, []))
        else:
            for x in texts:
                e.parse('d', x)
        if r.random() < .3:
            e.parse('d', lang.define('phi', g.formula(sigs, 1, maxb=1)))
        if r.random() < .3:
            e.itp('d', 'PREVIOUS')
        if r.random() < .2:
            e.sem('d', r.choice(ANYSEM))
        e.obs('d')
        for x in g.rows(len(sigs), r.randint(2, 4), slope='unit', lastmin=F(3)):
            e.add('d', x)
        o = 'd'
        for i in range(k + 1):
            if r.random() < .3:
                e.setp(o, r.choice(locs), g.half(-3, 3))
            if r.random() < .4:
                e.tenv(o)
            c = r.random()
            if c < .15:
                e.tpop(o)
            else:
                e.runtests(o)
            if c > .85:
                e.copy('c', o)
                o = r.choice(['c', o])
            if c > .96:
                e.clear(o)
            if r.random() < .4:
                e.obs(o)
        return e


ALT = {'ev_': ['F', 'F_', 'ev', 'ev_', '<>', '<>_'], 'alw_': ['G', 'G_', 'alw', 'alw_', '[]', '[]_'],
       'until_': ['U', 'U_', 'until', 'until_'], 'and': ['and', '&'], 'or': ['or', '|'], 'not': ['not', '!'],
       '=>': ['=>', '->'], '<': ['<', '<='], '>': ['>', '>=']}


def respell(g, toks):
    """Other spellings of the same tokens."""
    r = g.r
    out = []
    for i, t in enumerate(toks):
        t = dict(t)
        if 'v' in t and r.random() < .4:
            s = t['s']
            neg = s.startswith('-')
            b = s[1:] if neg else s
            opts = [b, b + ('0' if '.' in b else '.'), b + ('00' if '.' in b else '.0'), '0' + b]
            if b.startswith('0.'):
                opts.append(b[1:])
            if '.' not in b and len(b) == 1:
                opts.append('00' + b)
            b = r.choice(opts)
            t['s'] = ('-' if neg else r.choice(['', '', '+'])) + b
        elif 'str' not in t:
            k = {'<=': '<', '>=': '>'}.get(t['s'], t['s'])
            if k in ALT:
                t['s'] = r.choice(ALT[k])
        if t['s'] == ',' and r.random() < .3 and i + 2 < len(toks) and toks[i + 2]['s'] == ']':
            continue                # the comma of an interval is optional
        out.append(t)
    return out


def sparse(g, f, keep=.35):
    """Tokens with some of the parentheses left out."""
    r = g.r

    def par(t):
        return [W('(')] + t + [W(')')] if r.random() < keep else t

    def x(e):
        k = e[0]
        if k in ('sig', 'num', 'par'):
            return lang.etoks(e)
        if k == 'abs':
            return [W('abs'), W('(')] + x(e[1]) + [W(')')]
        return par(x(e[1]) + [W(k)] + x(e[2]))

    def p(f):
        k = f[0]
        if k in ('<', '>', '<=', '>='):
            return par(x(f[1]) + [W(k)] + x(f[2]))
        if k == 'id':
            return [W(f[1])]
        if k == 'not':
            return par([W('not')] + p(f[1]))
        if k in ('and', 'or', '=>'):
            return par(p(f[1]) + [W(k)] + p(f[2]))
        if k in ('ev', 'alw'):
            return par([W(k + '_')] + lang.interval(f[1], f[2]) + p(f[3]))
        return par(p(f[3]) + [W('until_')] + lang.interval(f[1], f[2]) + p(f[4]))
    return p(f)


class Text(Rel):
    clauses = ['func', 'hit']
    ops = TEMP + ('until',)

    def compare(self, g, e, d, sigs, names, texts, itp='LINEAR'):
        """Evaluate the named formulas and their canonical forms (tokens) in a fresh process."""
        rows = g.rows(len(sigs), g.r.randint(3, 7), slope='any')
        self.settings(g, e, d, itp, 'SPACE')
        for x in rows:
            e.add(d, x)
        for n, tx in zip(names, texts):
            for t in {F(0), g.half(0, 3)}:
                e.eval(d, n, t)
                if tx is not None:
                    e.fresh(tx, rows, 'SPACE', itp, n, t)


@reg
class C15(Text):
    id = 'C15'
    rule = 'formulas and expressions with parentheses left out; the answer is that of the fully parenthesised formula in a fresh process'

    def episode(self, g):
        from . import mirror
        r = g.r
        e, sigs = self.new(g)
        names, texts = [], []
        e.new('d').parse('d', lang.decl(sigs))
        for i in range(r.choice([1, 2, 3])):
            f = g.formula(sigs, r.choice([1, 2, 2, 3]), self.ops, 0.35, maxb=2)
            toks = sparse(g, f, r.choice([0, .2, .5]))
            e.parse('d', [W('f%d' % i), W(':=')] + toks)
            p = mirror.read(toks, sigs)
            names.append('f%d' % i)
            texts.append(None if p is None else lang.decl(sigs) + lang.define('f%d' % i, p))
        e.obs('d')
        self.compare(g, e, 'd', sigs, names, texts, r.choice(ANYITP))
        return e


@reg
class C16(Text):
    id = 'C16'
    rule = 'texts with random operator spellings, number spellings, blanks, line ends and comments; the answer is that of the plain text in a fresh process'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        e.new('d')
        names, texts = [], []
        toks = lang.decl(sigs)
        pv = g.half(-3, 3)
        base = lang.decl(sigs) + lang.params([('p', pv)])
        if r.random() < .5:
            toks = toks + lang.params([('p', pv)])
        for i in range(r.choice([1, 2, 3])):
            f = g.formula(sigs, r.choice([1, 1, 2, 3]), self.ops, 0.35, maxb=2)
            toks = toks + lang.define('f%d' % i, f)
            names.append('f%d' % i)
            texts.append(base + lang.define('f%d' % i, f))
        toks = respell(g, toks)
        if r.random() < .3:
            toks = toks + lang.params([('q', g.half(0, 9))])
        text = r.choice(['', '', '\n', '# head\n', '  ']) + lang.layout(toks, r) + r.choice(['', '\n', '  \n', ' # end\n'])
        if r.random() < .3:
            fn = 's%09d.stl' % r.randrange(10 ** 9)
            e.raw('writef', [fn, script_esc(text)], [fn])
            e.raw('parsef', ['d', fn], ['d', plain(toks)])
        else:
            e.parse('d', toks, text)
        e.obs('d')
        self.compare(g, e, 'd', sigs, names, texts, r.choice(ANYITP))
        return e


@reg
class C24(Text):
    id = 'C24'
    rule = 'definitions that refer to earlier definitions, several times, also from trace tests; the answer is that of the formula written out in a fresh process'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        e.new('d').parse('d', lang.decl(sigs))
        full, names, texts = {}, [], []
        pars = r.random() < .4
        par = {'v': g.half(0, 1), 'w': g.half(1, 2), 'p': g.half(-2, 2)}
        if pars:
            e.parse('d', lang.params(list(par.items())))

        def withpars(f):
            if not isinstance(f, tuple):
                return f
            if f[0] in ('ev', 'alw', 'until') and r.random() < .6:
                a, b = r.choice([(('par', 'v'), ('par', 'w')), (('num', F(0)), ('par', 'w')),
                                 (('par', 'v'), ('num', F(1) + g.half(0, 1)))])
                return (f[0], a, b) + tuple(withpars(x) for x in f[3:])
            if f[0] == 'num':
                return ('par', 'p') if r.random() < .3 else f
            if f[0] == 'sig':
                return f
            if f[0] in ('ev', 'alw', 'until'):
                return f[:3] + tuple(withpars(x) for x in f[3:])
            return (f[0],) + tuple(withpars(x) for x in f[1:])

        def refs(f, top=True):
            """Replace some subformulas by names."""
            if full and r.random() < (.15 if top else .45):
                n = r.choice(list(full))
                return ('id', n), full[n]
            if f[0] in ('<', '>', '<=', '>='):
                return f, f
            a, b = [f[0]], [f[0]]
            for x in f[1:]:
                if isinstance(x, tuple) and x[0] not in ('num', 'par'):
                    p, q = refs(x, False)
                else:
                    p = q = x
                a.append(p)
                b.append(q)
            return tuple(a), tuple(b)
        batch = []
        for i in range(r.choice([2, 3, 4])):
            f = g.formula(sigs, r.choice([0, 1, 1, 2]), self.ops, 0.2, maxb=2)
            short, long = refs(withpars(f) if pars else f)
            n = 'f%d' % i
            full[n] = long
            batch += lang.define(n, short)
            if r.random() < .6:
                e.parse('d', batch)
                batch = []
            names.append(n)
            texts.append(lang.define(n, long))
        if batch:
            e.parse('d', batch)
        if pars:
            for n in r.sample(list(par), r.randint(0, 3)):
                par[n] = {'v': g.half(0, 1), 'w': g.half(1, 2), 'p': g.half(-2, 2)}[n]
                e.setp('d', n, par[n])
        texts = [lang.decl(sigs) + (lang.params(list(par.items())) if pars else []) + x for x in texts]
        if r.random() < .3:      # a name keeps its meaning
            e.parse('d', lang.define(r.choice(names), g.formula(sigs, 1, maxb=1)))
        e.obs('d')
        order = list(range(len(names)))
        r.shuffle(order)
        order += [r.choice(order)]
        self.compare(g, e, 'd', sigs, [names[i] for i in order], [texts[i] for i in order], r.choice(ANYITP))
        return e


def script_esc(s):
    from .script import esc
    return esc(s)


@reg
class C14(Text):
    id = 'C14'
    scenario = 'texts'
    clauses = ['func']
    rule = 'sequences of texts, many of them with errors (tokens removed, doubled, swapped, replaced, foreign characters); names, parameters, tests and results read back'

    def damage(self, g, toks):
        r = g.r
        toks = list(toks)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(toks))
            c = r.random()
            if c < .25:
                del toks[i]
            elif c < .4:
                toks.insert(i, toks[i])
            elif c < .55:
                j = r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif c < .7:
                toks = toks[:i + 1]
            elif c < .85:
                toks[i] = r.choice([W('('), W(')'), W('['), W(']'), W('and'), W('until_'), W(':='), W(','), W('param'),
                                    W('signal'), W('x'), W('t'), W('not'), N(F(1)), W('f0'), W('p'), W('new'), S('s'),
                                    W('{'), W('}'), W('true'), W('test'), W('abs'), W('='), W('*'), W('-')])
            else:
                toks[i] = {'s': r.choice(['@', '%', '$', '?', ';', '^', '~', '/', '\\']), 'bad': 1}
            if not toks:
                return [W(')')]
        return toks

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        e.new('d')
        decl = lang.decl(sigs)
        odd = r.random() < .3
        if odd:
            e.parse('d', self.damage(g, decl))
        e.parse('d', decl)
        ids = []
        k = 0
        known = []
        for step in range(r.randint(3, 9)):
            toks = []
            for _ in range(r.choice([1, 1, 2, 3])):
                c = r.random()
                if c < .5:
                    n = 'f%d' % k
                    k += 1
                    f = g.formula(sigs, r.choice([0, 1, 1, 2]), self.ops, 0.2, maxb=2)
                    if known and r.random() < .4:
                        f = ('and', f, ('id', r.choice(known)))
                    toks += lang.define(n, f)
                    known.append(n)
                elif c < .75:
                    toks += lang.params([(r.choice('pqr'), g.half(-3, 3)) for _ in range(r.choice([1, 2]))])
                else:
                    toks += TESTS(g, sigs, 'T%d' % step, r.randint(1, 2), ids=ids, locs=['p'])
                    break
            if r.random() < .5:
                toks = self.damage(g, toks)
            e.parse('d', toks)
            if r.random() < .5:
                e.obs('d')
        e.obs('d')
        for x in g.rows(len(sigs), 3, slope='any'):
            e.add('d', x)
        for n in known[:3]:
            e.eval('d', n, 0)
        if not odd and r.random() < .3:
            e.runtests('d')
        if r.random() < .3:
            e.clear('d').obs('d')
            e.parse('d', lang.define('f0', g.formula(sigs, 1, self.ops, maxb=2))).eval('d', 'f0', 0).obs('d')
        return e


@reg
class C18(Prop):
    id = 'C18'
    models = [('MCPL', 'INVARIANTS CombOk WindowOk SimpOk', 'pointwise and windowed operations against their definition')]
    clauses = ['rob']
    quick, thorough = 2500, 60000
    rule = 'random operations on signals built from samples; every resulting signal is compared on its whole domain'

    def episode(self, g, only=None):
        r = g.r
        e = Ep()
        if r.random() < .4:
            e.raw('sitp', ['PREVIOUS'])
        S = {}          # name -> (begin, end)
        exact = {}      # no rounding errors in its values
        plain = set()   # only sampled, negated, copied
        cut = set()     # simplified or resized: the samples are others than those given
        same = r.random() < .5
        g.unit(e, [], ANYSEM if same else ('SPACE',))
        deg = e.kt != 1 or e.kv != 1
        drop = set() if not deg else {'sbool'} if same else {'sbool', 'sleft', 'sright'}

        def op(o, *a):
            nums = [x for x in a if not isinstance(x, str)]
            kinds = dict(sapp=[e.T, e.V, lambda d: lang.dec(d * e.kv / e.kt)], sresize=[e.T, e.T, e.V]).get(o, [e.D] * 3)
            e.raw(o, [x for x in a if isinstance(x, str)] + [k(x) for k, x in zip(kinds, nums)],
                  [x for x in a if isinstance(x, str)] + [lang.rat(x) for x in nums])
        slope = r.choice(['unit', 'unit', 'any'])
        t0 = g.half(-2, 2)
        for k in range(r.choice([1, 2, 2, 3])):
            n = 'x%d' % k
            op('signew', n)
            rows = g.rows(1, r.randint(1, 7), slope=slope, t0=t0 + (g.half(0, 1) if r.random() < .3 else 0), lastmin=t0 + 1)
            if only is None and r.random() < .15:
                e.raw('sarr', [n, ','.join(e.T(t) for t, _ in rows), ','.join(e.V(v) for _, v in rows)],
                      [n, [[lang.rat(t), lang.rat(v)] for t, v in rows]])
                S[n], exact[n] = (rows[0][0], rows[-1][0]), True
                plain.add(n)
                continue
            for i, (t, v) in enumerate(rows):
                if r.random() < .1:
                    op('sapp', n, t, v, g.half(-1, 1))      # the last slope given
                else:
                    op('sapp', n, t, v)
                if r.random() < .05:
                    op('sapp', n, t - g.half(0, 1), g.half(-3, 3))      # ignored
            S[n] = (rows[0][0], rows[-1][0])
            exact[n] = True
            plain.add(n)
        for step in range(r.randint(2, 7)):
            z = 'z%d' % step
            # with steep slopes, rounded times are not used any further
            use = [n for n in S if slope == 'unit' or n in plain]
            x, y = r.choice(use), r.choice(use)
            (b, f), (c, h) = S[x], S[y]
            k = r.choice(['sand', 'sor', 'sand', 'sor', 'simp', 'snot', 'sev', 'salw', 'sev', 'salw', 'sevu', 'salwu',
                          'suntil', 'suntil', 'suntilu', 'sbool', 'sleft', 'sright', 'ssimpl', 'scopy', 'sresize',
                          'sshift', 'sbev', 'sbalw', 'sget', 'slast', 'sappsig', 'smpat', 'smpint'] if only is None else only)
            if k in drop or k in ('sbool', 'sleft', 'sright') and not exact[x]:
                continue            # the sign of a rounding error means nothing
            exact[z] = exact[x] and (k in ('snot', 'scopy', 'sbool') or
                                     (slope == 'unit' and exact[y] and k not in ('sleft', 'sright')))
            if k in ('sand', 'sor', 'simp', 'suntil', 'suntilu'):
                lo, hi = max(b, c), min(f, h)
                if lo > hi:
                    continue
                op('signew', z)
                if k == 'suntil':
                    a = g.half(0, min(F(2), hi - lo))
                    bb = a + g.half(0, hi - max(b, c - a) - a)
                    if bb < 0 or max(b, c - a) + bb > hi:
                        continue
                    op(k, z, x, y, a, bb)
                    continue
                op(k, z, x, y)
                S[z] = (lo, hi)
            elif k in ('snot', 'sbool', 'sleft', 'sright', 'scopy', 'sevu', 'salwu'):
                op('signew', z)
                if r.random() < .2:
                    op('scopy', z, y)       # a target that was used before
                op(k, z, x)
                S[z] = S[x]
                if k in ('snot', 'scopy'):
                    plain.add(z)
            elif k in ('sev', 'salw'):
                op('signew', z)
                a = g.half(0, 2)
                op(k, z, x, a, a + g.half(0, 4))
                S[z] = (b - a, f - a)
            elif k in ('sbev', 'sbalw'):
                op('signew', z)
                op(k, z, x, g.half(0, 4) + F(1, 2))
                S[z] = S[x]
            elif k in ('smpat', 'smpint'):
                p, q = [(g.half(-2, 3), g.half(-3, 3), d) for d in r.sample([F(-2), F(-1), F(-1, 2), F(0), F(1, 2), F(1), F(3)], 2)]
                code = lambda p: ','.join([e.T(p[0]), e.V(p[1]), lang.dec(p[2] * e.kv / e.kt)])
                spec = lambda p: [lang.rat(x) for x in p]
                if k == 'smpat':
                    e.raw(k, [code(p), e.T(q[0])], [spec(p), lang.rat(q[0])])
                else:
                    e.raw(k, [code(p), code(q)], [spec(p), spec(q)])
            elif k == 'sappsig':
                # (of sampled signals: what is between the samples of others may be cut in any way)
                raw = [x for x in S if x[0] == 'x' and x not in cut]
                if not raw:
                    continue
                y = r.choice(raw)
                op('signew', z)
                op('scopy', z, r.choice(raw))
                if r.random() < .7:
                    op('sshift', z, g.half(-3, 0))
                op(k, z, y)
                continue
            elif k == 'sresize':
                s = b + g.half(-1, 1)
                if s > f:
                    continue
                t = max(s, f + g.half(-2, 2))
                if t < b:
                    continue
                op(k, x, s, t, g.half(-2, 2))
                cut.add(x)
                if t > f:
                    del S[x]
                    plain.discard(x)
                    if not [n for n in S if slope == 'unit' or n in plain]:
                        break
                else:
                    S[x] = (s, t)
            elif k == 'sshift':
                a = g.half(-2, 2)
                op(k, x, a)
                S[x] = (b + a, f + a)
            else:
                op(k, x)
                cut |= {x} if k == 'ssimpl' else set()
        return e

    def episodes(self, g, n):
        return [self.episode(g) for _ in range(n)]


@reg
class C23(Eval):
    id = 'C23'
    models = [('MCSem', 'INVARIANTS WindowSig', 'the signal is the robustness at each time')]
    ops = ALL
    clauses = ['rob']
    sems = ('SPACE', 'SPACE', 'SPACE', 'LEFT_TIME', 'RIGHT_TIME')
    quick, thorough = 2500, 60000
    rule = 'the signals of monitors after evaluations of random formulas on windows of random covering traces'

    def episode(self, g):
        r = g.r
        e = Ep()
        sigs = ['x', 'y'][:r.choice([1, 2, 2])]
        depth = r.choice(self.depths)
        sem, itp = r.choice(self.sems), r.choice(self.itps)
        f = g.formula(sigs, depth, self.ops, 0.2, maxb=self.maxb[depth])
        g.unit(e, [f], [sem] * 2 if sem != 'SPACE' else ANYSEM)
        e.new('d').parse('d', lang.decl(sigs) + lang.define('phi', f))
        e.itp('d', itp).sem('d', sem)
        ws = []
        for _ in range(r.choice([1, 2, 3])):
            t = g.half(0, 3)
            ws.append((t, t + g.half(0, 4)))
        slope = r.choice(['unit', 'unit', 'any'])
        if sem != 'SPACE' and any(has(f, k) for k in '+-*'):
            slope = 'unit'      # a comparison that holds with equality is a question of rounding
        rows = g.rows(len(sigs), r.randint(2, 7), slope=slope,
                      lastmin=max(u for _, u in ws) + lang.horizon(f))
        early = r.random() < .5
        if early:
            e.mon('m', 'd', 'phi')
        for row in rows:
            (e.madd if early else e.add)('m' if early else 'd', row)
        if not early:
            e.mon('m', 'd', 'phi')
        k = 0
        for t, u in ws:
            # whether a time robustness that changes at the very end of the
            # window has its old or its new value there is left open
            hi = u if sem == 'SPACE' else max(t, u - F(1, 2))
            c = r.random()
            if c < .4:
                e.msig('m', t, u, hi)
            elif c < .7:
                e.mtime('m', t, u).meval('m')
            else:
                e.meval('m', t, u)
            # what happens in between does not change the signal
            while r.random() < .35:
                c = r.random()
                k += 1
                if c < .25:
                    e.mtime('m', g.half(0, 2), g.half(2, 4))
                elif c < .5:
                    e.mcopy('n%d' % k, 'm').meval('n%d' % k, g.half(0, 1), g.half(1, 3))
                elif c < .7:
                    e.mon('k%d' % k, 'd', 'phi').eval('d', 'phi', g.half(0, 2))
                    if not early:
                        e.meval('k%d' % k, g.half(0, 1), g.half(1, 3)).mget('k%d' % k, F(0), F(0))
                elif c < .8:
                    e.itp('d', r.choice(ANYITP)).sem('d', r.choice(ANYSEM))
                elif c < .9:
                    e.mobs('m')
                else:
                    e.mmove('q', 'm').mmove('m', 'q')
            e.mget('m', t, hi)
        if r.random() < .3:
            c = r.random()
            if c < .3:
                e.mclear('m')
            elif c < .6:
                e.mitp('m', r.choice(ANYITP)).msem('m', r.choice(ANYSEM))
            else:
                e.madd('m', [rows[-1][0] + 1] + [g.half(-3, 3) for _ in sigs])
            e.mget('m', t, hi)
        return e


@reg
class C19(Rel):
    id = 'C19'
    clauses = ['rob', 'conv']
    quick, thorough = 2000, 50000
    rule = 'trace files in many layouts read into drivers, dumped, printed and read back, with evaluations of what was read; dumps of formulas and test logs'

    def number(self, g, v):
        """A spelling of a number that reads as v."""
        r = g.r
        s = lang.dec(v)
        neg, b = s.startswith('-'), s.lstrip('-')
        opts = [b, b, b, b + ('0' if '.' in b else '.0'), '0' + b, b + 'e0', b + 'E+00']
        if b.startswith('0.'):
            opts.append(b[1:])
        if '.' not in b:
            opts.append(b + '.')
            if b != '0':
                opts += ['0.%se%d' % (b, len(b)), b + '00e-2']
        return ('-' if neg else r.choice(['', '', '', '+'])) + r.choice(opts)

    def file(self, g, e, name, rows, plain):
        """Writes rows; unless plain, with lines and words that do not matter."""
        r = g.r
        end = r.choice(['\n', '\n', '\n', '\r\n'])
        text, lines = '', []
        for i, row in enumerate(rows):
            while r.random() < .15:
                text += r.choice(['', ' ', '\t ']) + end
                lines.append([])
            if not plain and r.random() < .15:
                w = r.choice(['# 1 2', 'time x', ', 1', 'nan 2', '- 3'])
                text += w + end
                lines.append([dict(k='word')])
            text += r.choice(['', '', '', ' ', '\t'])
            text += r.choice([' ', ' ', '  ', '\t', ' \t ']).join(self.number(g, v) for v in row)
            line = [dict(k='num', v=lang.rat(v)) for v in row]
            if not plain and r.random() < .2:
                text += r.choice([' # 1', ' end', ', 2', ';3', ' 1;'])[:4]
                if text.endswith(' 1;'):
                    line.append(dict(k='num', v=lang.rat(1)))
                line.append(dict(k='word'))
            text += r.choice(['', '', ' ', '\t', '  '])
            lines.append(line)
            if i + 1 < len(rows) or r.random() < .7:
                text += end
        if r.random() < .1:
            text += r.choice([' ', end, end + end])
        e.raw('wtrace', [name, script_esc(text or ' ')], [name, lines])

    def rows(self, g, n):
        r = g.r
        rows = g.rows(n, r.randint(1, 7), slope='any', lastmin=r.choice([None, F(4)]))
        if r.random() < .3:
            for row in rows:
                for j in range(1, len(row)):
                    if r.random() < .3:
                        row[j] = F(r.randint(-9999, 9999), r.choice([1, 2, 4]))
        return rows

    def episode(self, g):
        r = g.r
        e = Ep()
        sigs = ['x', 'y'][:r.choice([1, 2])]
        fs = [g.formula(sigs, r.choice([0, 1, 1, 2]), TEMP, 0, maxb=2) for _ in range(2)]
        toks = lang.decl(sigs) + lang.define('f0', fs[0]) + lang.define('f1', fs[1])
        tests = r.random() < .25
        if tests:
            toks = toks + TESTS(g, sigs, 'T', r.randint(1, 3), ids=[], locs=[])
        e.new('d').parse('d', toks)
        if r.random() < .3:
            e.itp('d', 'PREVIOUS')
        names, good = [], {}      # files; the drivers whose data fit the signals
        for step in range(r.randint(2, 6)):
            c = r.random()
            fn = r.choice(['a', 'b', 'c.trace'])
            if c < .35:
                plain = r.random() < .7
                rows = self.rows(g, len(sigs) if plain else r.randint(1, 3))
                if not plain:
                    r.shuffle(rows)
                    rows = [x[:r.randint(1, len(x))] for x in rows]
                self.file(g, e, fn, rows, plain)
                good[fn] = plain and len(rows) > 0
                if fn not in names:
                    names.append(fn)
            elif c < .6 and names:
                fn = r.choice(names) if r.random() < .9 else 'none'
                e.readt('d', fn).obs('d')
                good['d'] = good.get(fn, False)
                if r.random() < .4:
                    e.raw('ptrace', ['d'])
                if good['d']:
                    for f in ('f0', 'f1'):
                        e.eval('d', f, g.half(0, 2))
                    if r.random() < .5:
                        e.raw('dumpf', ['d'])
                    if r.random() < .3:
                        e.mon('m', 'd', 'f0').meval('m', g.half(0, 2))
                if r.random() < .3 and (good['d'] or fn == 'none'):
                    e.add('d', [g.half(0, 9)] + [g.half(-3, 3) for _ in sigs]).obs('d')
                    good['d'] = True
            elif c < .75:
                e.dumpt('d', fn)
                good[fn] = good.get('d', False)
                if fn not in names:
                    names.append(fn)
                if r.random() < .6:
                    if r.random() < .5:
                        e.new('k').parse('k', toks).readt('k', fn).obs('k')
                        if good[fn]:
                            e.eval('k', 'f0', g.half(0, 2))
                    else:
                        e.raw('readraw', [fn])
            elif c < .85:
                e.raw('readraw', [r.choice(names + ['none'])])
            elif c < .92 and tests and good.get('d'):
                e.runtests('d')
                e.raw('dumplog', ['d', 'log'])
            else:
                e.raw('dumplog', ['d', 'log'])
        return e


@reg
class C25(Text):
    id = 'C25'
    scenario = 'params'
    clauses = []
    ops = TEMP + ('until',)
    rule = 'drivers and monitors printed after declarations, definitions, errors, parameter changes, copies, moves, evaluations and trace tests; the tokens of what is printed are compared'

    def episode(self, g):
        r = g.r
        e, sigs = self.new(g)
        sigs = r.choice([sigs, ['y', 'x'], ['z', 'x', 'y'], sigs])
        par = C13()
        e.new('d')
        if r.random() < .2:
            e.show('d')
        e.parse('d', lang.decl(sigs) + lang.params([(n, g.half(*lo)) for n, lo in
                                                    r.sample([('a', (0, 1)), ('b', (1, 2)), ('c', (1, 3)), ('p', (-2, 2)), ('q', (-9, 99))], 5)]))
        names = []
        D, M = ['d'], []
        t = F(0)
        for step in range(r.randint(4, 12)):
            d, o, c = r.choice(D), r.choice('de'), r.random()
            if c < .3 or not names:
                f = g.formula(sigs, r.choice([0, 1, 2, 3]), self.ops, .35, maxb=2)
                if r.random() < .6:
                    f = par.put(g, f, ['p', 'q'], ['b', 'c'])
                if names and r.random() < .3:
                    f = (r.choice(['and', 'or', '=>']), ('id', r.choice(names)), f)
                toks = lang.define('f%d' % len(names), f)
                names.append('f%d' % len(names))
                if r.random() < .1:
                    toks = C14.damage(self, g, toks)
                e.parse(d, toks)
            elif c < .45:
                e.setp(d, r.choice('abcpqr'), r.choice([g.half(-9, 9), g.half(0, 1), F(r.randint(-9999, 9999)), F(r.randint(-99, 99), 8)]))
            elif c < .5:
                e.parse(d, lang.params([(r.choice('pqs'), g.half(-3, 3))]))
            elif c < .62:
                m = r.choice('mn')
                e.mon(m, d, r.choice(names + ['nope']))
                M.append(m)
            elif c < .7 and M:
                e.msetp(r.choice(M), r.choice('abcpqr'), g.half(-9, 9))
            elif c < .76 and o not in D:
                (e.copy if r.random() < .5 else e.move)(o, d)
                if e.calls[-1][0] == 'move':
                    D.remove(d)
                D.append(o)
                d = o
            elif c < .8 and M:
                m, n = r.choice(M), r.choice('mnk')
                e.mcopy(n, m)
                M.append(n)
            elif c < .84 and M:
                e.raw('mclear', [r.choice(M)])
            elif c < .88:
                e.eval(d, r.choice(names), g.half(0, 2))
            elif c < .92:
                for x in D:
                    e.add(x, [t] + [F(1)] * len(sigs))
                t += 1
            if r.random() < .5:
                e.show(d)
            if M and r.random() < .5:
                e.mshow(r.choice(M))
        for d in D:
            e.show(d)
        for m in sorted(set(M)):
            e.mshow(m)
        return e


@reg
class C27(Eval):
    id = 'C27'
    scenario = 'bounds'
    clauses = FULL + ['func']
    ops = ALL
    cover = False
    partial = True
    quick, thorough = 2500, 60000
    rule = 'random formulas on growing traces, with BigM set and read between the calls'

    def episode(self, g):
        r = g.r
        self.itps = ('LINEAR', 'PREVIOUS')
        self.cover = r.random() < .4
        self.partial = not self.cover
        few = [F(0), F(1), F(1, 2), F(2)] if self.cover else []      # less than the values of the trace
        e = super().episode(g)
        for _ in range(r.randint(1, 4)):
            i = r.randint(0, len(e.calls))
            k = len(e.calls)
            e.bigm(r.choice([F(200), F(300), F(1000), F(12345), F(20000), F(512) + F(1, 2), F(999) + F(3, 4), F(10000)] + few * 2))
            if r.random() < .5:
                e.getbig()
            new, e.calls = e.calls[k:], e.calls[:k]
            e.calls[i:i] = new
        return e


@reg
class C26(Eval):
    id = 'C26'
    models = [('MCSem', 'INVARIANTS Units TimeUnits', 'the specified semantics does not depend on units and origin')]
    clauses = FULL
    ops = ALL
    units = 1.0
    fuzz = .3
    quick, thorough = 2500, 60000
    rule = ('random formulas on traces whose times, values, bounds and numbers are all in other units '
            '(powers of two from 2^-30 to 2^24, decimal fractions) and from other origins of time')

    def episode(self, g):
        self.partial = g.r.random() < .4
        self.cover = not self.partial or g.r.random() < .5
        self.sems = g.r.choice([('SPACE',), ('SPACE',), ('LEFT_TIME', 'RIGHT_TIME')])
        self.arith = 0.0 if self.sems[0] != 'SPACE' else g.r.choice([0, 0, .2])
        if self.sems[0] != 'SPACE':
            self.partial, self.cover = False, True
        self.slopes = ('unit',) if self.sems[0] != 'SPACE' else ('unit', 'any')
        return super().episode(g)


@reg
class C20(Rel):
    id = 'C20'
    kind = 'py'
    clauses = FULL
    quick, thorough = 2500, 40000
    ops = ALL
    rule = 'histories of calls of the Python module on drivers, monitors, signals, their copies and instances of subclasses'

    def data(self, g, sigs):
        return g.rows(len(sigs), g.r.randint(1, 5), slope='any', t0=F(0), lastmin=g.r.choice([None, F(3)]))

    def rowsop(self, e, op, o, rows):
        e.raw(op, [o, ';'.join(','.join(e.row(r)) for r in rows)], [o, [[lang.rat(x) for x in r] for r in rows]])

    def signals(self, g):
        e = C18().episode(g, ('sand', 'sor', 'snot', 'sbool', 'sleft', 'sright', 'scopy', 'sget', 'smpat', 'smpint'))
        for i, (op, code, spec) in enumerate(e.calls):
            if op == 'scopy':
                e.calls[i] = (op, code + [g.r.choice(['copy', 'copy.copy', 'deepcopy'])], spec)
            if op == 'signew' and g.r.random() < .2:
                e.calls[i] = (op, code + ['sub'], spec)
        return e

    def episode(self, g):
        r = g.r
        if r.random() < .2:
            return self.signals(g)
        e = Ep()
        how = lambda: [r.choice(['copy', 'copy.copy', 'deepcopy'])]
        sub = lambda: ['sub'] if r.random() < .3 else []
        sigs = ['x', 'y'][:r.choice([1, 2])]
        e.raw('new', ['a'] + sub(), ['a'])
        f0 = g.formula(sigs, r.choice([1, 1, 2]), self.ops, r.choice([0, 0.1]), maxb=2)
        g.unit(e, [f0], ANYSEM)
        toks = (lang.decl(sigs) + lang.params([('p', g.half(-2, 2))]) + lang.define('phi', f0) +
                lang.define('f1', ('<', ('sig', 'x'), ('par', 'p'))))
        if r.random() < .2:
            e.raw('writef', ['s.stl', script_esc(e.layout(toks))], ['s.stl'])
            e.raw('parsef', ['a', 's.stl'], ['a', plain(toks)])
        else:
            e.parse('a', toks)
        D, M = {'a': F(0)}, {}
        e.add('a', [F(0)] + [F(1)] * len(sigs))
        for step in range(r.randint(5, 14)):
            c = r.random()
            d, o = r.choice(list(D)), r.choice('abc')
            if c < .25:
                D[d] += r.choice([H, F(1), F(2)]) if r.random() < .9 else -H
                e.add(d, [D[d]] + [g.half(-3, 3) for _ in sigs][:r.choice([2, 2, 2, 1])])
            elif c < .3:
                rows = self.data(g, sigs)
                self.rowsop(e, 'setdata', d, rows)
                D[d] = rows[-1][0]
            elif c < .36:
                e.setp(d, r.choice('ppq'), g.half(-3, 3)).getp(d, r.choice('ppq'))
            elif c < .4:
                e.sem(d, r.choice(ANYSEM + ('BOOLEAN', 'space')))
            elif c < .44:
                e.itp(d, r.choice(ANYITP + ('linear',)))
            elif c < .54:
                m = r.choice('mnk')
                e.mon(m, d, r.choice(['phi', 'phi', 'f1', 'f1', 'nope']))
                M[m] = D[d]
            elif c < .6:
                e.raw('copy', [o, d] + how(), [o, d])
                D[o] = D[d]
            elif c < .63 and o != d:
                e.move(o, d)
                D[o] = D.pop(d)
                d = o
            elif c < .66 and len(D) > 1:
                e.raw('del', [d])
                D.pop(d)
                d = list(D)[0]
            elif c < .67:
                e.bigm(r.choice([F(200), F(1001, 2), F(10000)])).getbig()
            elif c < .7:
                e.raw('pobs', [d]).names(d)
            elif c < .72:
                e.raw('show' if e.same() else 'print', [d])
            elif c < .74:
                e.parse(d, r.choice([lang.define('g', ('par', 'p') and g.formula(sigs, 1, self.ops, maxb=1)), [W('g'), W(':=')]]))
            elif c < .76:
                m = r.choice('mnk')
                e.raw('mnew', [m] + sub(), [m])
                M[m] = F(0)
            elif M:
                m, q = r.choice(list(M)), r.choice('mnk')
                c = r.random()
                if c < .25:
                    M[m] += r.choice([H, F(1)])
                    e.madd(m, [M[m]] + [g.half(-3, 3) for _ in sigs])
                elif c < .3:
                    rows = self.data(g, sigs)
                    self.rowsop(e, 'msetdata', m, rows)
                    M[m] = rows[-1][0]
                elif c < .42:
                    e.msetp(m, r.choice('pppq'), g.half(-3, 3)).mgetp(m, r.choice('pppq'))
                elif c < .5:
                    e.mitp(m, r.choice(ANYITP))
                elif c < .55:
                    e.msem(m, r.choice(ANYSEM + ('x',)))
                elif c < .65:
                    a = g.half(0, 2)
                    b = a + g.half(0, 2)
                    e.mtime(m, a, b, *r.choice([[], ['attr']])).meval(m)
                elif c < .75:
                    e.raw('mcopy', [q, m] + how(), [q, m])
                    M[q] = M[m]
                elif c < .8 and q != m:
                    e.mmove(q, m)
                    M[q] = M.pop(m)
                    m = q
                elif c < .85 and len(M) > 1:
                    e.mdel(m)
                    M.pop(m)
                    m = list(M)[0]
                elif c < .9:
                    e.raw('mshow' if e.same() else 'mprint', [m])
                e.raw('mpobs', [m])
                t = g.half(0, 2)
                if r.random() < .5:
                    e.meval(m, *[t, t + g.half(0, 1)][:r.choice([1, 1, 2])])
                if r.random() < .2:
                    u = t + H
                    e.msig(m, t, u, t).mget(m, t, t)
            if d in D and r.random() < .4:
                n = r.choice(['phi', 'phi', 'f1', 'g'])
                e.eval(d, n) if r.random() < .2 else e.eval(d, n, g.half(0, 2))
        return e
