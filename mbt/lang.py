"""Formulas as Python tuples, their tokens, and layouts of token sequences."""
from fractions import Fraction as F
from .script import dec, rat, TIMEPARS

# expressions: ('sig', name) ('num', q) ('par', name) ('abs', e) ('+', a, b) ...
# formulas: ('<', e, e) ('>', ..) ('not', p) ('and', p, q) ('or', ..) ('=>', ..)
#           ('ev', a, b, p) ('alw', a, b, p) ('until', a, b, p, q) ('id', name)


def W(s): return {'s': s}
def N(q, u='v'): return {'s': dec(q), 'v': rat(q), 'u': u}      # u: a time or a value
def S(s): return {'s': '"%s"' % s, 'str': s}


def bound(x): return [N(x[1], 't')] if x[0] == 'num' else [W(x[1])]


def interval(a, b): return [W('[')] + bound(a) + [W(',')] + bound(b) + [W(']')]


def etoks(e, right=False):
    k = e[0]
    if k == 'sig':
        return [W(e[1]), W('['), W('t'), W(']')]
    if k == 'num':
        return [N(e[1])]
    if k == 'par':
        return [W(e[1])]
    if k == 'abs':
        t = [W('abs'), W('(')] + etoks(e[1]) + [W(')')]
    else:
        t = etoks(e[1]) + [W(k)] + etoks(e[2], True)
    return [W('(')] + t + [W(')')] if right else t


def ftoks(p, top=True):
    """Fully parenthesised, so that the structure does not depend on precedence."""
    k = p[0]
    if k in '<>' or k in ('<=', '>='):
        t = etoks(p[1]) + [W(k)] + etoks(p[2])
        return t if top else [W('(')] + t + [W(')')]
    if k == 'id':
        return [W(p[1])]
    if k == 'not':
        t = [W('not')] + ftoks(p[1], False)
    elif k in ('and', 'or', '=>'):
        t = ftoks(p[1], False) + [W(k)] + ftoks(p[2], False)
    elif k in ('ev', 'alw'):
        t = [W(k + '_')] + interval(p[1], p[2]) + ftoks(p[3], False)
    elif k == 'until':
        t = ftoks(p[3], False) + [W('until_')] + interval(p[1], p[2]) + ftoks(p[4], False)
    return t if top else [W('(')] + t + [W(')')]


def decl(names):
    t = [W('signal')]
    for i, n in enumerate(names):
        t += ([W(',')] if i else []) + [W(n)]
    return t


def params(pairs):
    t = [W('param')]
    for i, (n, v) in enumerate(pairs):
        t += ([W(',')] if i else []) + [W(n), W('='), N(v, 't' if n in TIMEPARS else 'v')]
    return t


def define(name, p): return [W(name), W(':=')] + ftoks(p)


def layout(toks, rng=None):
    """Text of a token sequence; with rng, random blanks, newlines and comments."""
    out = ''
    for i, t in enumerate(toks):
        s = t['s']
        if rng is None:
            out += (' ' if out else '') + s
            continue
        prev = toks[i - 1]['s'] if i else ''
        need = bool(prev) and (prev[-1].isalnum() or prev[-1] in '_.') and (s[0].isalnum() or s[0] in '_.')
        # operators must not merge
        need = need or (prev and prev[-1] in ':=<>-+*!' and s[0] in '=<>-+*.0123456789')
        need = need or (prev and s[0] in '-+*.' ) or (prev in ('-', '+', '*'))
        need = need or (prev and (prev[-1] == '_' or s == '_'))
        r = rng.random()
        if need or r < 0.6:
            out += rng.choice([' ', ' ', '  ', '\t', '\n', ' \n ', ' # note\n', '\t# and => := \n'])
        out += s
    return out


def num(x, par): return F(x[1]) if x[0] == 'num' else F(par[x[1]])


def horizon(p, par=None):
    k = p[0]
    if k in ('<', '>', '<=', '>='):
        return F(0)
    if k == 'not':
        return horizon(p[1], par)
    if k in ('and', 'or', '=>'):
        return max(horizon(p[1], par), horizon(p[2], par))
    if k in ('ev', 'alw'):
        return num(p[2], par) + horizon(p[3], par)
    if k == 'until':
        return num(p[2], par) + max(horizon(p[3], par), horizon(p[4], par))
    raise ValueError(k)
