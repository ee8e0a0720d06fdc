"""Builds the code under test from /repo's working tree, out of tree."""
import hashlib, os, subprocess, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STL_REPO', '/repo')
CACHE = os.environ.get('STL_CACHE', os.path.join(VERIF, '.cache'))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1']


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _headers():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/include/*')):
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()


def build(kind='cxx'):
    """kind 'cxx': the script interpreter with sanitizers; 'py': the Python module."""
    os.makedirs(CACHE, exist_ok=True)
    hdr = _headers()
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    inc = ['-I' + REPO + '/include']
    if kind == 'cxx':
        srcs.append(VERIF + '/harness/harness.cpp')
        flags = ['-std=c++11', '-O1', '-w'] + SAN
        link = SAN[:1]
    else:
        srcs.append(REPO + '/src/pybind11/main.cpp')
        flags = ['-std=c++11', '-O1', '-w', '-fPIC', '-fvisibility=hidden']
        inc += ['-I' + REPO + '/pybind11/include', '-I/usr/include/python3.12']
        link = ['-shared']

    def one(f):
        body = open(f, 'rb').read()
        o = os.path.join(CACHE, '%s.%s.o' % (os.path.basename(f), _h(body, hdr, ' '.join(flags), kind)))
        if not os.path.exists(o):
            tmp = o + '.%d' % os.getpid()
            p = subprocess.run(['g++'] + flags + inc + ['-c', f, '-o', tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise SystemExit('build failed: %s\n%s' % (f, p.stdout[-3000:]))
            os.replace(tmp, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    out = os.path.join(CACHE, _h(*objs, kind))
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, 'hx' if kind == 'cxx' else 'stlrom.cpython-312-x86_64-linux-gnu.so')
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['g++'] + link + objs + ['-o', tmp], check=True)
        os.replace(tmp, exe)
    return exe
