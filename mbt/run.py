"""Runs scripts in the code under test, and the recorded traces through TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import tlc
from .build import build

RUN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')


STATUS = {'new', 'bigm', 'add', 'setp', 'sem', 'itp', 'mon', 'copy', 'assign', 'move', 'massign', 'del', 'clear', 'print',
          'tpop', 'dumpt', 'writef', 'mnew', 'madd', 'msetp', 'msem', 'mitp', 'mtime', 'mcopy', 'mcassign', 'mmove',
          'mmassign', 'mdel', 'mclear', 'signew', 'sitp', 'wtrace', 'setdata', 'msetdata', 'mprint'}
NUMS = {'eval': [], 'meval': [[0, 1, 2]] * 4, 'msig': dict(res=[[0, 1, 2]] * 3, sig=dict(p=[])), 'mgetp': [0, 1, 2], 'getbig': [0, 1, 2]}


def project(op, r):
    """What a call returned, in the specification's terms."""
    if op == 'names':
        return r.split(' ') if r else []
    if op in ('obs', 'mobs', 'pobs') and 'names' in r:
        r = dict(r)
        r['names'] = r['names'].split(' ') if r['names'] else []
        return r
    if op in ('show', 'mshow') and 'text' in r:
        return parse_shown(op, r)
    if op == 'runtests':
        return parse_report(r)
    if op == 'ptrace':
        return [[obsnum(x) for x in line.split()] for line in r.split('\n') if line.split()]
    if op == 'dumpf':       # the breakpoints of each signal: time, value, slope
        return [[n, [[obsnum(x) for x in line.split()] for line in text.split('\n') if line.split()]] for n, text in r]
    if op == 'dumplog':
        m = re.match(r'((?:.*\n)*)Number of positive STL tests: (\d+)/(\d+)\s*$', r['text'])
        if not m:
            return dict(ret=r['ret'], log=[], npos=-1, ntot=-1)
        return dict(ret=r['ret'], log=[[x.split(': ')[0], obsnum(x.split(': ')[1])] for x in m.group(1).split('\n') if ': ' in x],
                    npos=int(m.group(2)), ntot=int(m.group(3)))
    return r


def obsnum(text):
    """A printed number as the triple the script interpreter uses."""
    from fractions import Fraction
    v = float(text)
    if v != v or abs(v) >= 1e6:
        return [0, 1, 2]
    q = Fraction(text)
    if q.denominator <= 2048 and q.denominator & (q.denominator - 1) == 0 and len(text.replace('-', '').replace('.', '')) < 6:
        return [q.numerator, q.denominator, 0]
    return [round(v * 4096), 4096, 1]


def shown(text):
    """The tokens of a printed formula."""
    return [dict(s='', v=obsnum(x)) if x[0].isdigit() else dict(s=x, v=[0, 1, 0])
            for x in re.findall(r'[A-Za-z_]\w*|\d+(?:\.\d+)?(?:e[+-]?\d+)?|=>|\S', text)]


def parse_shown(op, r):
    """A printed driver or monitor as its formulas and parameters."""
    out = dict(same=False, forms=[], par=[], names=[], f=[])
    if op == 'show':
        m = re.match(r'\s*Assigned formulas:\n-+\n(.*)\n\s*Default Parameters:\n-+\n(.*?)\s*$', r['text'], re.S)
        if m:
            lines = m.group(1).split('\n')
            out['forms'] = [[a.rstrip(':'), shown(b)] for a, b in zip(lines[::2], lines[1::2])]
            out['par'] = [[x.split('=')[0], obsnum(x.split('=')[1])] for x in m.group(2).split('\n') if '=' in x]
            out['same'] = r['text'] == r['out']
    else:
        m = re.match(r'Signal Names: (.*)\nParameters: (.*)\nFormula: (.*)\n\s*$', r['text'])
        if m:
            out['names'] = [x for x in m.group(1).split(', ') if x]
            out['par'] = [[x.split(': ')[0], obsnum(x.split(': ')[1])] for x in m.group(2).split(', ') if ': ' in x]
            out['f'] = [] if m.group(3) == 'No formula set.' else shown(m.group(3))
            out['same'] = m.group(3).strip() == r['out'].strip()
    return out


def parse_report(r):
    """The report text as its groups of <<test, rob, problem, message>>."""
    if not isinstance(r, dict) or 'x' in r:
        return r
    groups = []
    for line in r['report'].split('\n'):
        m = re.match(r'stl_test (.*)$', line)
        t = re.match(r'    (\S+): (\S+)  --> (PB|OK)$', line)
        if m:
            groups.append([m.group(1), []])
        elif t and groups:
            groups[-1][1].append([t.group(1), obsnum(t.group(2)), t.group(3) == 'PB', ''])
        elif line.startswith('    ') and groups and groups[-1][1]:
            groups[-1][1][-1][3] += line[4:]
    log = [[x.split(': ')[0], obsnum(x.split(': ')[1])] for x in r['log'].split('\n') if ': ' in x]
    return dict(ret=r['ret'], err=r['err'], npos=r['npos'], ntot=r['ntot'], empty=r['empty'], report=groups, log=log)


def execute(eps, exe=None, workdir=None, jobs=8, kind='cxx'):
    """Results of all episodes: for each, (list of results, ending)."""
    exe = exe or build(kind)
    cmd = [exe] if kind == 'cxx' else ['/usr/bin/python3', os.path.join(tlc.VERIF, 'harness', 'harness.py'), exe]
    n = max(1, min(jobs, len(eps) // 4 or 1))
    parts = [eps[i::n] for i in range(n)]

    def one(part):
        text = ''.join(e.text(i) for i, e in enumerate(part))
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           env=RUN_ENV, cwd=workdir)
        res, cur, end = [], [], None
        for line in p.stdout.splitlines():
            j = json.loads(line)
            if 'done' in j:
                res.append((cur, end or 'crash: no end'))
                cur, end = [], None
            elif 'crash' in j:
                end = 'crash: ' + j['crash']
            elif 'end' in j:
                end = 'end'
            else:
                cur.append(j['r'])
        if len(res) != len(part):
            raise RuntimeError('harness lost episodes: %d of %d (exit %s)' % (len(res), len(part), p.returncode))
        return res
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, parts))
    full = [None] * len(eps)
    for i in range(n):
        full[i::n] = outs[i]
    return full


def events(ep, res, k):
    """The recorded trace of an episode."""
    out = [{'op': 'ep', 'ep': k}]
    rs, end = res
    for (op, _, spec), r in zip(ep.calls, rs):
        exc = r['x'] if isinstance(r, dict) and 'x' in r else ''
        if op in STATUS:        # "ok" or the kind of the exception
            out.append({'op': op, 'a': spec, 'out': exc or r, 'exc': '', 'ep': k})
        else:
            out.append({'op': op, 'a': spec, 'out': NUMS.get(op, '') if exc else project(op, r), 'exc': exc, 'ep': k})
    if end != 'end':
        out.append({'op': 'crash', 'out': end, 'ep': k})
    else:
        out.append({'op': 'end', 'ep': k})
    return out


class SpecError(Exception):
    pass


def validate(traces, clauses, module='Trace', workers=2, jvms=4, timeout=800, keep=None, verbose=False, extra_cfg=''):
    """traces: {k: [events]}.  Returns (accepted ids, unevaluable ids, states)."""
    ids = list(traces)
    jv = max(1, min(jvms, len(ids) // 20 or 1))
    parts = [ids[i::jv] for i in range(jv)]
    work = tempfile.mkdtemp(prefix='trace.')
    cfg = os.path.join(work, 'Trace.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION TraceSpec\nINVARIANT Explain\nCHECK_DEADLOCK FALSE\n'
                'CONSTANT Clauses = {%s}\n%s' % (', '.join('"%s"' % c for c in clauses), extra_cfg))

    def one(i):
        stack, acc, bad, states, logs, runs = [list(parts[i])], set(), set(), 0, '', 0
        while stack:
            todo = [k for k in stack.pop() if k not in acc]
            if not todo:
                continue
            runs += 1
            fn = os.path.join(work, 't%d.%d.ndjson' % (i, runs))
            with open(fn, 'w') as f:
                for k in todo:
                    for e in traces[k]:
                        f.write(json.dumps(e) + '\n')
            env = {'STL_TRACE': fn}
            if verbose:
                env['STL_VERBOSE'] = '1'
            rc, out = tlc.run_tlc(module, cfg, env, workers=workers, timeout=timeout, extra=['-nowarning'])
            os.unlink(fn)
            logs += out
            m = re.findall(r'(\d+) states generated', out)
            states += int(m[-1]) if m else 0
            acc |= {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
            if rc == 0:
                continue
            # TLC's integers are 32 bit: an episode it cannot evaluate is set aside
            # and one with a result the specification has no meaning for is not explained by it
            over = 'Overflow when computing' in out
            if over or 'Error: TLC threw an unexpected exception' in out or 'The error occurred when TLC was evaluating' in out \
                    or re.search(r'Error: (Attempted to|Evaluating|The first argument|In applying|The exception)', out):
                todo = [k for k in todo if k not in acc]
                if len(todo) <= 1:
                    bad |= set(todo) if over else set()
                    if not over and os.environ.get('STL_DEBUG'):
                        print('no meaning: episode %s\n%s' % (todo, out[-3000:]))
                else:
                    stack += [todo[:len(todo) // 2], todo[len(todo) // 2:]]
                continue
            raise SpecError('TLC failed (exit %s):\n%s\n...\n%s' % (
                rc, '\n'.join(re.findall(r'Error: .*(?:\n.+)?', out)[:6]), out[-1500:]))
        return acc, bad, states, logs
    try:
        with ThreadPoolExecutor(jv) as ex:
            rs = list(ex.map(one, range(jv)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    acc, bad, states = set(), set(), 0
    for a, b, s, lg in rs:
        acc |= a
        bad |= b
        states += s
    return acc, bad, states, ''.join(r[3] for r in rs)
