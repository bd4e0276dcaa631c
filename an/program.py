"""Loads the extractor's facts for /repo's current working tree."""
import json, os, subprocess, sys, glob, hashlib, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
FLAGS = ['-std=c++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-DASIO_HAS_STD_CHRONO',
         '-DASIO_STANDALONE', '-w']


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (anchor vanished, code not parsed)."""


def build_extractor():
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    cmd = ['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def extract_all():
    exe = build_extractor()
    units = sorted(glob.glob(REPO + '/src/*.cxx')) + [os.path.join(VERIF, 'extract', 'driver.cxx')]
    tmp = tempfile.mkdtemp(prefix='csan.')
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/asio/asio/include']

    def one(u):
        out = os.path.join(tmp, os.path.basename(u) + '.json')
        r = subprocess.run([exe, REPO + '/', out, u, '--'] + FLAGS + inc, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken('cannot parse %s: %s' % (u, (r.stderr or r.stdout)[-1500:]))
        with open(out) as f:
            return u, json.load(f)
    try:
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, units))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self):
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.overriders = {}
        for u, d in extract_all():
            self.units.append(u)
            for f in d['functions']:
                if f['fn'] not in self.fns:
                    self.fns[f['fn']] = f
            for c in d['classes']:
                self.classes.setdefault(c['t'], c)
            for e in d['enums']:
                self.enums.setdefault(e['q'], {k: int(v) for k, v in e['v'].items()})
            for g in d['globals']:
                self.globals.setdefault(g['id'], g)
        for f in self.fns.values():
            f['file'] = f['file'].replace(REPO + '/', '') if f['file'].startswith(REPO) else f['file']
            for o in f.get('overrides', []):
                self.overriders.setdefault(o, []).append(f['fn'])
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f['q'], []).append(f)

    def cls(self, t):
        return self.classes.get(t)

    def method(self, cls, name, nparams=None):
        r = [f for f in self.byname.get(cls + '::' + name, [])
             if nparams is None or len(f['params']) == nparams]
        if not r:
            raise AnalysisBroken('no function %s::%s in the source' % (cls, name))
        return r[0]

    def find(self, q, nparams=None):
        return [f for f in self.byname.get(q, []) if nparams is None or len(f['params']) == nparams]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisBroken('no enum ' + q)
        return self.enums[q]

    def field_types(self, t):
        c = self.classes.get(t)
        if not c:
            raise AnalysisBroken('no class ' + t)
        return {f['n']: f['t'] for f in c['fields']}
