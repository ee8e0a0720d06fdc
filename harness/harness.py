"""Script interpreter over the Python module of STLRom: the calls of
harness.cpp that the module offers, with the same input and output."""
import copy, gc, importlib.util, json, math, os, signal, sys, tempfile


def load(so):
    spec = importlib.util.spec_from_file_location('stlrom', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


M = load(sys.argv[1])


class SubDriver(M.STLDriver):
    pass


class SubMonitor(M.STLMonitor):
    pass


class SubSignal(M.Signal):
    pass


def unesc(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '%' and i + 2 < len(s):
            out += chr(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i]
            i += 1
    return out


def jd(v):
    if not math.isfinite(v) or abs(v) >= 1e6 or (abs(v) >= 1e5 and math.floor(v * 2048) != v * 2048):
        return [1 if v > 0 else -1 if v < 0 else 0, 1, 2]
    d = 1
    while d <= 2048:
        if math.floor(v * d) == v * d:
            return [int(v * d), d, 0]
        d *= 2
    return [math.floor(v * 4096 + .5), 4096, 1]


KT = KV = 1.        # the units the calls of this episode use
OT = 0.
BIGM = 10000.


def jt(t): return jd(t / KT - OT)
def jv(v): return jd(v / KV)
def jp(n, v): return jd(v / KT) if n in ('a', 'b', 'c', 'v', 'w') else jv(v)


def jdata(d):
    return [[jv(x) if i else jt(x) for i, x in enumerate(r)] for r in d]


SNAP = []       # lists of samples handed out, and what they were


def snapshots():
    for q, v in SNAP:
        if [(x.time, x.value, x.derivative) for x in q] != v:
            raise RuntimeError('samples changed')


def jsig(s, lo=-math.inf, hi=math.inf):
    p, q = [], s.get_samples_list()
    if len(SNAP) < 20:
        SNAP.append((q, [(x.time, x.value, x.derivative) for x in q]))
    e = min(hi, s.end_time)
    for i, x in enumerate(q):
        t, n = x.time, q[i + 1].time if i + 1 < len(q) else e
        if t > e or (n <= lo and i + 1 < len(q) and n < e):
            continue
        n, a = min(n, e), max(t, lo)
        p.append([jt(a), jv(x.value_at(a)), jv(x.value_at(n))])
    return dict(b=jt(s.begin_time), e=jt(s.end_time), p=p)


def call(w, f):
    D, Mo, S = w
    op, a = f[0], f[1:]
    num = lambda i: float(a[i])
    nums = lambda i: [float(x) for x in a[i:]]
    if op == 'new':
        D[a[0]] = (SubDriver if len(a) > 1 else M.STLDriver)()
    elif op == 'parse':
        return D[a[0]].parse_string(unesc(a[1]))
    elif op == 'writef':
        with open(a[0], 'w') as o:
            o.write(unesc(a[1]))
    elif op == 'parsef':
        return D[a[0]].parse_file(a[1])
    elif op == 'add':
        D[a[0]].add_sample(nums(1))
    elif op == 'setp':
        D[a[0]].set_param(a[1], num(2))
    elif op == 'getp':
        return jp(a[1], D[a[0]].get_param(a[1]))
    elif op == 'sem':
        D[a[0]].set_semantics(a[1])
    elif op == 'itp':
        D[a[0]].set_interpol(a[1])
    elif op == 'eval':
        d = D[a[0]]
        if len(a) == 2:
            r = d.get_online_rob(a[1]) if a[1] != 'phi' else d.get_online_rob()
        else:
            r = d.get_online_rob(a[1], num(2)) if len(a[2]) % 2 else d.get_online_rob(t0=num(2), phi_in=a[1])
        return [jv(x) for x in r]
    elif op == 'mon':
        Mo[a[0]] = D[a[1]].get_monitor(a[2])
        if OT:
            Mo[a[0]].set_eval_time(OT * KT, OT * KT)
    elif op in ('copy', 'mcopy', 'scopy'):
        W = dict(copy=D, mcopy=Mo, scopy=S)[op]
        x = W[a[1]]
        how = a[2] if len(a) > 2 else 'copy'
        W[a[0]] = x.copy() if how == 'copy' else copy.copy(x) if how == 'copy.copy' else copy.deepcopy(x)
        if op == 'scopy':
            return jsig(S[a[0]])
    elif op in ('del', 'mdel'):
        del (D if op == 'del' else Mo)[a[0]]
        gc.collect()
    elif op == 'move':          # another name for the object
        D[a[0]] = D.pop(a[1])
    elif op == 'mmove':
        Mo[a[0]] = Mo.pop(a[1])
    elif op == 'bigm':
        M.Signal.set_BigM(float(f[1]))
        return 'ok'
    elif op == 'getbig':
        return jv(M.Signal.get_BigM())
    elif op == 'names':
        return D[a[0]].get_signals_names()
    elif op == 'print':
        D[a[0]].disp()
    elif op in ('show', 'mshow'):
        with tempfile.TemporaryFile() as fd:
            sys.stdout.flush()
            old = os.dup(1)
            os.dup2(fd.fileno(), 1)
            if op == 'show':
                D[a[0]].disp()
            else:
                text = repr(Mo[a[0]])
                Mo[a[0]].display_formula()
            os.dup2(old, 1)
            os.close(old)
            fd.seek(0)
            o = fd.read().decode('latin1')
        return dict(text=o if op == 'show' else text, out=o)
    elif op == 'mprint':
        repr(Mo[a[0]])
        Mo[a[0]].display_formula()
    elif op == 'pobs':
        d = D[a[0]]
        return dict(names=d.get_signals_names(), data=jdata(d.data), sem=d.get_semantics(), itp=d.get_interpol())
    elif op == 'setdata':
        D[a[0]].data = [[float(y) for y in x.split(',')] for x in a[1].split(';') if x]
    elif op == 'mnew':
        Mo[a[0]] = (SubMonitor if len(a) > 1 else M.STLMonitor)()
        if OT:
            Mo[a[0]].set_eval_time(OT * KT, OT * KT)
    elif op == 'madd':
        Mo[a[0]].add_sample(nums(1))
    elif op == 'msetp':
        Mo[a[0]].set_param(a[1], num(2))
    elif op == 'mgetp':
        return jp(a[1], Mo[a[0]].get_param(a[1]))
    elif op == 'msem':
        Mo[a[0]].set_semantics(a[1])
    elif op == 'mitp':
        Mo[a[0]].set_interpol(a[1])
    elif op == 'mtime':
        if len(a) > 3:
            Mo[a[0]].start_time, Mo[a[0]].end_time = num(1), num(2)
        else:
            Mo[a[0]].set_eval_time(num(1), num(2))
    elif op == 'meval':
        m = Mo[a[0]]
        r = m.eval_rob(*nums(1))
        return [jv(r), jv(m.get_lower_rob()), jv(m.get_upper_rob()), jv(m.rob)]
    elif op == 'msig':
        m = Mo[a[0]]
        r = m.eval_rob(num(1), num(2))
        return dict(res=[jv(r), jv(m.lower_rob), jv(m.upper_rob)], sig=jsig(m.get_signal(), num(1), num(3)))
    elif op == 'mget':
        return jsig(Mo[a[0]].get_signal(), num(1), num(2))
    elif op == 'mpobs':
        m = Mo[a[0]]
        return dict(data=jdata(m.data), sem=m.get_semantics(), itp=m.get_interpol(),
                    res=[jv(m.rob), jv(m.lower_rob), jv(m.upper_rob)], time=[jt(m.start_time), jt(m.end_time)])
    elif op == 'msetdata':
        Mo[a[0]].data = [[float(y) for y in x.split(',')] for x in a[1].split(';') if x]
    elif op == 'signew':
        S[a[0]] = (SubSignal if len(a) > 1 else M.Signal)()
    elif op == 'sitp':
        M.Signal.set_interpol(a[0])
    elif op == 'smpat':
        return jv(M.Sample(*[float(x) for x in a[0].split(',')]).value_at(num(1)))
    elif op == 'smpint':
        p, q = [M.Sample(*[float(y) for y in x.split(',')]) for x in a]
        return jt(p.time_intersect(q))
    elif op[0] == 's':
        s = S.setdefault(a[0], M.Signal()) if op != 'sget' else S[a[0]]
        if op == 'sapp':
            s.append_sample(*nums(1))
        elif op in ('sand', 'sor'):
            (s.compute_and if op == 'sand' else s.compute_or)(S[a[1]], S[a[2]])
        elif op in ('snot', 'sbool', 'sleft', 'sright'):
            getattr(s, dict(snot='compute_not', sbool='compute_boolean', sleft='compute_left_time_rob',
                            sright='compute_right_time_rob')[op])(S[a[1]])
        elif op != 'sget':
            raise SystemExit('harness: unknown op ' + op)
        return jsig(s)
    else:
        raise SystemExit('harness: unknown op ' + op)
    return 'ok'


def put(out, x):
    os.write(out, (json.dumps(x) + '\n').encode())


def child(ep, out, unit):
    signal.alarm(30)
    global KT, KV, OT
    KT, KV, OT = unit
    if KV != 1:
        M.Signal.set_BigM(BIGM * KV)
    if any(f[0] == 'writef' for f in ep):
        os.mkdir('ep.%d' % os.getpid())
        os.chdir('ep.%d' % os.getpid())
    w = ({}, {}, {})
    for f in ep:
        try:
            r = call(w, f)
            snapshots()
        except ValueError:
            r = {'x': 'invalid_argument'}
        except Exception:
            r = {'x': 'exception'}
        put(out, {'r': r})
    for x in w:
        x.clear()
    gc.collect()
    put(out, {'end': 1})
    os._exit(0)


def run(ep, out, unit):
    pid = os.fork()
    if pid == 0:
        try:
            child(ep, out, unit)
        finally:
            os._exit(95)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        put(out, {'crash': 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)})
    put(out, {'done': 1})


def main():
    out = os.dup(1)
    nul = os.open('/dev/null', os.O_WRONLY)
    os.dup2(nul, 1)
    ep, on, unit = [], False, (1., 1., 0.)
    for line in sys.stdin:
        f = line.rstrip('\n').split('\t')
        if f[0] == 'ep':
            if on:
                run(ep, out, unit)
            ep, on, unit = [], True, tuple(float(x) for x in f[2:5]) if len(f) > 4 else (1., 1., 0.)
        elif f[0]:
            ep.append(f)
    if on:
        run(ep, out, unit)


main()
