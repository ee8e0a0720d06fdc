"""The engine of all checks: generate, run, validate, report."""
import hashlib, json, os, re, shutil, sys, tempfile, time
from . import run, tlc
from .build import build
from .script import Ep

VERIF = tlc.VERIF
ALL = ['rob', 'conv', 'sound', 'between', 'tight', 'stable', 'refine']


class Prop:
    """One property: how its episodes are made and what the specification looks at."""
    id = None
    clauses = ['rob']
    quick, thorough = 1200, 20000       # episodes
    module = 'Trace'
    models = []                         # [(module, properties to check, what)] design-level model checking
    scenario = None                     # of spec/MCSys.tla: its behaviours are replayed first
    kind = 'cxx'
    rule = ''
    files = False

    def episodes(self, g, n):
        raise NotImplementedError

    def trivial(self, ep, res):
        """Cases that exercise nothing."""
        return len(ep.calls) < 3


def known_findings():
    """Entries 'finding: property=<id> key=<key> <what>' of the committed file."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def validate_all(prop, traces, verbose=False):
    return run.validate(traces, prop.clauses, module=prop.module, verbose=verbose)


def model_check(prop, tier, seed, log):
    """Design level: TLC on the specification itself.  A .deep.cfg has the larger bounds."""
    states = trans = 0
    done = []
    for module, invs, what in prop.models:
        c = os.path.join(tlc.SPEC, module + '.cfg')
        if tier == 'thorough':
            c = c.replace('.cfg', '.deep.cfg')
        text = re.sub(r'(?m)^(INVARIANTS|PROPERTIES).*\n', '', open(c).read()) + '\n' + invs + '\n'
        fd, cfg = tempfile.mkstemp(suffix='.cfg')
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        rc, out = tlc.run_tlc(module, cfg, workers=8, timeout=3000 if tier == 'thorough' else 300, heap='6g',
                              extra=['-nowarning', '-seed', str(seed)])
        os.unlink(cfg)
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        if rc != 0 or not m:
            raise run.SpecError('model %s fails:\n%s' % (module, out[-3000:]))
        states += int(m[-1][1])
        trans += int(m[-1][0])
        done.append('%s (%s): %s distinct states' % (module, what, m[-1][1]))
        log('model %s: %s' % (module, m[-1]))
    return states, trans, done


# transitions up to a depth; length, number and how many of the random walks' steps are replayed
SCENARIO = {'quick': (2, 10, 40, 600), 'thorough': (3, 15, 600, 12000)}


def behaviours(prop, tier, seed, log):
    """Episodes TLC generates from the specification."""
    if not prop.scenario:
        return [], 0, 0, []
    from . import behave
    depth, length, walks, limit = SCENARIO[tier]
    a, n, (tr, st) = behave.episodes(prop.scenario, depth, 0, seed, 0)
    b, m, (tr2, _) = behave.episodes(prop.scenario, length, walks, seed, limit)
    log('scenario %s: %d transitions up to depth %d, %d of %d ends of random walks of length %d' % (
        prop.scenario, n, depth, len(b), m, length))
    return a + b, st, tr + tr2, ['MCSys (%s): %d distinct states to depth %d with invariants and action properties; '
                                '%d transitions and %d random walks of length %d replayed into the code' % (
                                    prop.scenario, st, depth, n, len(b), length)]


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    log = lambda *a: (print(*a), sys.stdout.flush())
    from .gen import Gen
    g = Gen('%s/%d/%s' % (prop.id, seed, tier))
    n = prop.quick if tier == 'quick' else prop.thorough
    exe = build(prop.kind)
    log('built %s (%.1fs)' % (os.path.basename(exe), time.time() - t0))
    states, trans, models = model_check(prop, tier, seed, log)
    pending, st, tr, more = behaviours(prop, tier, seed, log)
    states, trans, models = states + st, trans + tr, models + more
    n += len(pending)
    work = tempfile.mkdtemp(prefix='vp.')
    os.chmod(work, 0o777)
    violations = []
    accepted = unev = done = 0
    fps, samples = set(), []
    nontriv = 0
    knownhit = {}
    known = known_findings().get(prop.id, {})
    try:
        budget = 600 if tier == 'quick' else 3000
        chunk = 4000
        while done < n and not violations and time.time() - t0 < budget:
            eps, pending = pending[:chunk], pending[chunk:]
            if not eps:
                eps = prop.episodes(g, min(chunk, n - done))
            if not eps:
                break
            res = run.execute(eps, exe, work, kind=prop.kind)
            traces = {k: run.events(e, r, k) for k, (e, r) in enumerate(zip(eps, res))}
            acc, bad, st, _ = validate_all(prop, traces)
            for k, e in enumerate(eps):
                h = hashlib.sha1(e.text(0).encode()).digest()
                if h not in fps:
                    fps.add(h)
                    nontriv += 0 if prop.trivial(e, res[k]) else 1
            accepted += len(acc)
            unev += len(bad)
            states += st
            trans += st
            done += len(eps)
            if len(samples) < 3:
                samples += [e.text(i).splitlines() for i, e in enumerate(eps[:3])]
            rej = [k for k in traces if k not in acc and k not in bad]
            log('%d episodes, %d accepted, %d not evaluable, %d rejected (%.1fs)' % (
                done, accepted, unev, len(rej), time.time() - t0))
            if rej:
                # a rejection counts only if it repeats
                first = rej[:20]
                res2 = run.execute([eps[k] for k in first], exe, work, kind=prop.kind)
                tr2 = {k: run.events(eps[k], r, k) for k, r in zip(first, res2)}
                acc2, bad2, _, _ = validate_all(prop, tr2)
                for k in first:
                    if k in acc2 or k in bad2:
                        continue
                    if e_key(eps[k]) in known:
                        knownhit[e_key(eps[k])] = known[e_key(eps[k])]
                        continue
                    violations.append(report(prop, seed, eps[k], tr2[k]))
                    if len(violations) >= 3:
                        break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for key, what in knownhit.items():
        log('KNOWN-FINDING: property=%s %s' % (prop.id, what))
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': trans, 'traces_validated_against_impl': accepted,
            'samples': samples, 'evaluations': done, 'distinct_nontrivial': nontriv, 'rule': prop.rule,
            'models': models, 'not_evaluable_in_32_bits': unev, 'clauses': list(prop.clauses),
            'exhaustive': False},
        'assumptions': ['traces, values and interval bounds are small dyadic rationals; reported numbers are compared '
                        'exactly when dyadic and to 1/2048 otherwise'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for path in violations:
        log('VIOLATION property=%s replay=%s' % (prop.id, path))
    if not violations:
        if done == 0 or accepted < done * 0.9:
            log('error: only %d of %d episodes could be decided' % (accepted, done))
            return 2
        log('OK property=%s: %d traces accepted, %d states (%.1fs)' % (prop.id, accepted, states, time.time() - t0))
    return 1 if violations else 0


def e_key(ep):
    return hashlib.sha1(ep.text(0).encode()).hexdigest()[:16]


def report(prop, seed, ep, trace):
    """Write what failed: script, results, the first rejected line."""
    _, _, _, lg = run.validate({0: trace}, prop.clauses, module=prop.module, workers=1, jvms=1, verbose=True)
    ok = [int(x) for x in re.findall(r'<<"LINE", (\d+)>>', lg)]
    at = max(ok) + 1 if ok else 2
    exp = [x for x in re.findall(r'<<"EXPECT".*', lg) if x.startswith('<<"EXPECT", %d,' % at)]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%d-%s.txt' % (prop.id, seed, e_key(ep)))
    with open(path, 'w') as f:
        f.write('property %s, seed %d\nkey %s\n' % (prop.id, seed, e_key(ep)))
        f.write('script (run with the script interpreter):\n' + ep.text(0))
        f.write('\nrecorded:\n')
        for i, e in enumerate(trace):
            f.write('%s %s %s -> %s\n' % ('REJECTED' if i + 1 == at else '        ', e['op'],
                                          json.dumps(e.get('a', '')), json.dumps(e.get('out', '')) + ' ' + e.get('exc', '')))
        f.write('\nexpected by the specification: %s\n' % '\n'.join(exp))
    print('rejected: ' + ' '.join('%s' % x for x in ep.calls[at - 2][1])[:200] if at - 2 < len(ep.calls) else 'rejected: end')
    return path
