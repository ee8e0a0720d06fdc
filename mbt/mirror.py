"""A reader of formulas, used only to write down the grouping a text should
have; the specification checks that it is right (clause "hit")."""
from .lang import W

SP = {}
for ks, v in ((('F', 'F_', 'ev', 'ev_', '<>', '<>_'), 'ev'), (('G', 'G_', 'alw', 'alw_', '[]', '[]_'), 'alw'),
              (('U', 'U_', 'until', 'until_'), 'until'), (('and', '&'), 'and'), (('or', '|'), 'or'),
              (('not', '!'), 'not'), (('=>', '->'), '=>'), (('<', '<='), '<'), (('>', '>='), '>')):
    for k in ks:
        SP[k] = v
PULL = {'and': 1, 'or': 2, '=>': 4, 'until': 6}
HOLD = {'and': 1, 'or': 1, '=>': 1, 'not': 3, 'ev': 6, 'alw': 6, 'until': 6}


class Bad(Exception):
    pass


class Reader:
    def __init__(self, toks, sigs, forms=(), pars=()):
        self.t, self.i, self.sigs, self.forms, self.pars = toks, 0, sigs, dict(forms), pars

    def k(self, d=0):
        j = self.i + d
        if j >= len(self.t):
            return 'end'
        x = self.t[j]
        return 'num' if 'v' in x else SP.get(x['s'], x['s'])

    def eat(self, k):
        if self.k() != k:
            raise Bad
        self.i += 1

    def atom(self):
        from fractions import Fraction as F
        x = self.t[self.i] if self.i < len(self.t) else {'s': 'end'}
        if 'v' in x:
            self.i += 1
            return ('num', F(*x['v']))
        if x['s'] in self.pars:
            self.i += 1
            return ('par', x['s'])
        if x['s'] in self.sigs:
            self.i += 1
            self.eat('['), self.eat('t'), self.eat(']')
            return ('sig', x['s'])
        self.eat('(')
        e = self.expr()
        self.eat(')')
        return e

    def expr(self):
        if self.k() == 'abs':
            self.i += 1
            self.eat('(')
            e = ('abs', self.expr())
            self.eat(')')
        else:
            e = self.atom()
        while self.k() in ('+', '-', '*'):
            o = self.k()
            self.i += 1
            e = (o, e, self.atom())
        return e

    def compare(self):
        a = self.expr()
        o = self.k()
        if o not in ('<', '>'):
            raise Bad
        self.i += 1
        return (o, a, self.expr())

    def interval(self):
        self.eat('[')
        a = self.atom()
        if self.k() == ',':
            self.i += 1
        b = self.atom()
        self.eat(']')
        return a, b

    def prim(self):
        k = self.k()
        if k == 'not':
            self.i += 1
            return ('not', self.form(3))
        if k in ('ev', 'alw'):
            self.i += 1
            a, b = self.interval()
            return (k, a, b, self.form(6))
        if k in self.forms:
            self.i += 1
            return self.forms[k]
        if k == '(':
            j = self.i
            try:
                return self.compare()
            except Bad:
                self.i = j
            self.eat('(')
            p = self.form(0)
            self.eat(')')
            return p
        return self.compare()

    def form(self, hold):
        p = self.prim()
        while PULL.get(self.k(), 0) > hold:
            k = self.k()
            self.i += 1
            if k == 'until':
                a, b = self.interval()
                p = (k, a, b, p, self.form(6))
            else:
                p = (k, p, self.form(1))
        return p


def read(toks, sigs, forms=(), pars=()):
    r = Reader(toks, sigs, forms, pars)
    try:
        p = r.form(0)
    except Bad:
        return None
    return p if r.i == len(toks) else None
