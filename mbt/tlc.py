"""Running TLC."""
import json, os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


def run_tlc(module, cfg, env=None, workers=1, extra=(), timeout=600, heap='2g', spec=SPEC):
    meta = tempfile.mkdtemp(prefix='tlc.')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['timeout', str(timeout), 'java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', classpath(),
           'tlc2.TLC', '-config', cfg, '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           *extra, os.path.join(spec, module + '.tla')]
    try:
        p = subprocess.run(cmd, env=e, cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_cp = None


def classpath():
    global _cp
    if _cp is None:
        _cp = ':'.join([JAR] + sorted(os.path.join(r, f) for r, _, fs in os.walk('/opt/veriftools/tla')
                                      for f in fs if f.endswith('.jar') and f != 'tla2tools.jar'))
    return _cp
