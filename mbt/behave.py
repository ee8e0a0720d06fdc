"""Behaviours generated by TLC from the specification (spec/MCSys.tla), as episodes."""
import json, os, random, re, tempfile
from fractions import Fraction as F
from . import tlc, lang
from .script import Ep

DRV = ['new', 'parse', 'add', 'setp', 'sem', 'itp', 'copy', 'assign', 'move', 'massign', 'del', 'clear', 'eval']
MON = ['mon', 'mnew', 'madd', 'msetp', 'mitp', 'mcopy', 'mcassign', 'mmove', 'mmassign', 'mdel', 'mclear', 'meval']

# name: acts, prelude, drivers, monitors, texts, times
SCEN = {
    'life': (DRV + MON, 'LifePrelude', 'ab', 'mn', ['ev'], 'T0'),
    'rows': (['add', 'badrows', 'mon', 'madd', 'mclear', 'copy', 'eval', 'meval'], 'RowsPrelude', 'a', 'mn', [], 'T01'),
    'tests': (['parse', 'add', 'setp', 'runtests', 'tpop', 'copy', 'clear', 'itp'], 'TestPrelude', 'ab', '',
              ['tst1', 'tst2', 'tst3', 'tst4', 'setp'], 'T0'),
    'texts': (['parse', 'copy', 'clear', 'add', 'eval'], 'TextPrelude', 'a', '',
              ['base', 'base2', 'ev', 'alw', 'unt', 'conj', 'other', 'setp', 'setpq', 'sigy', 'late', 'broke', 'broke2',
               'junk', 'empty', 'evp', 'tst1', 'tst3', 'tst4'], 'T0'),
    'params': (['setp', 'nope', 'parse', 'mon', 'msetp', 'eval', 'meval', 'copy', 'clear'], 'ParPrelude', 'a', 'mn',
               ['setp', 'setpq', 'late', 'tst1'], 'T0'),
    'settings': (['sem', 'itp', 'nope', 'msem', 'mitp', 'eval', 'meval', 'mon', 'copy'], 'SetPrelude', 'ab', 'mn', [], 'T01'),
    'two': (['add', 'madd', 'sem', 'itp', 'msem', 'mitp', 'setp', 'msetp', 'mon', 'mcopy', 'eval', 'meval', 'mtime', 'mclear'],
            'TwoPrelude', 'ab', 'mn', [], 'T01'),
    'bounds': (['bigm', 'add', 'madd', 'mon', 'mcopy', 'mclear', 'copy', 'itp', 'eval', 'meval'], 'BigPrelude', 'ab', 'mn', [], 'T01'),
}
CHECKED = ('INVARIANTS Receptive Ordered Widths Counted Bracketed Closed\n'
           'PROPERTIES Independence Reading Growing\n')


def tset(xs):
    return '{' + ', '.join('"%s"' % x for x in xs) + '}'


def run(name, depth, walks=0, seed=1, timeout=300):
    """Behaviours of a scenario: every transition up to a depth, or random walks."""
    acts, prelude, ds, ms, texts, times = SCEN[name]
    cfg = ('SPECIFICATION SysSpec\nCHECK_DEADLOCK FALSE\n%s%sCONSTANTS\n Clauses = {"rob"}\n Acts = %s\n Prelude <- %s\n'
           ' Ds = %s\n Ms = %s\n TextSet = %s\n EvalAt <- %s\n Depth = %d\n') % (
        'INVARIANT EmitEnd\n' if walks else 'CONSTRAINT Bound\nACTION_CONSTRAINT Emit\nVIEW View\n',
        '' if walks else CHECKED, tset(acts), prelude, tset(ds), tset(ms), tset(texts), times, depth)
    fd, path = tempfile.mkstemp(suffix='.cfg')
    with os.fdopen(fd, 'w') as f:
        f.write(cfg)
    n0 = {'LifePrelude': 3, 'RowsPrelude': 2, 'TestPrelude': 4, 'TextPrelude': 1, 'ParPrelude': 6, 'SetPrelude': 7, 'TwoPrelude': 6, 'BigPrelude': 5}
    extra = ['-nowarning', '-seed', str(seed)]
    if walks:
        extra += ['-simulate', 'num=%d' % walks, '-depth', str(depth + n0[prelude] + 1)]
    try:
        rc, out = tlc.run_tlc('MCSys', path, workers=1, timeout=timeout, heap='4g', extra=extra)
    finally:
        os.unlink(path)
    m = re.findall(r'(\d+) states generated.*?(\d+) distinct', out) or re.findall(r'(\d+)( )states checked', out) \
        or re.findall(r'number of states generated: (\d+)()', out)
    if rc != 0 or (not m and not walks):
        lines = [x for x in out.splitlines() if '"BEH"' not in x]
        raise RuntimeError('scenario %s fails:\n%s' % (name, '\n'.join(lines)[-3000:]))
    texts = json.loads(json.loads(re.search(r'<<"TEXTS", (".*")>>', out).group(1)))
    behs = [json.loads(json.loads(x)) for x in re.findall(r'<<"BEH", (".*")>>', out)]
    return behs, texts, (int(m[-1][0]) if m else 0, int(m[-1][1] or 0) if m and m[-1][1].strip() else 0)


def q(x):
    return F(x[0], x[1])


def episode(b, texts, look):
    e = Ep()
    for op, a in b['h']:
        if op == 'parse':
            e.parse(a[0], texts[a[1]] or [])
        elif op in ('add', 'madd'):
            getattr(e, op)(a[0], [q(x) for x in a[1]])
        elif op in ('setp', 'msetp'):
            getattr(e, op)(a[0], a[1], q(a[2]))
        elif op == 'bigm':
            e.bigm(q(a[0]))
        elif op == 'eval':
            e.eval(a[0], a[1], q(a[2]))
        elif op == 'meval':
            e.meval(a[0], q(a[1]))
        elif op == 'mtime':
            e.mtime(a[0], q(a[1]), q(a[2]))
        else:
            e.raw(op, a)
    look(e, b)
    return e


def look(e, b):
    """Read everything back, and ask every formula once."""
    e.getbig()
    for d in sorted(b['d']):
        e.obs(d).show(d)
        for n in ('phi', 'psi'):
            e.eval(d, n, F(0))
    for m in sorted(b['m']):
        e.mobs(m).mshow(m).mget(m, F(0), F(0)).mget(m, F(1), F(1))
        if any(op == 'mon' for op, _ in b['h']):
            e.meval(m, F(0))
            e.mobs(m)


def episodes(name, depth, walks, seed, limit):
    behs, texts, states = run(name, depth, walks, seed)
    n = len(behs)
    if limit and n > limit:
        behs = random.Random('%s/%d' % (name, seed)).sample(behs, limit)
    return [episode(b, texts, look) for b in behs], n, states
