"""Runs cxx2json over /repo's current sources and loads the typed AST."""
import json, os, subprocess, sys, hashlib, tempfile, shutil, glob, re
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPI_REPO', '/repo')
CODE = REPO + '/capi/src/implementation/visibility_graphs/code'
BUILD = VERIF + '/build'
CPPLIBS = REPO + '/capi/cpp_libs'
INCS = ['-I' + CODE, '-I' + CPPLIBS + '/fmt/include', '-I' + CPPLIBS + '/mio', '-I' + CPPLIBS + '/indicators/include']
COMPAT = ['-include', '/opt/capi/include/pypy_compat.h'] if os.path.exists('/opt/capi/include/pypy_compat.h') else []


class FrontendError(Exception):
    pass


def tool():
    """Path to cxx2json, building it if missing or out of date."""
    src = VERIF + '/frontend/cxx2json.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = f'{BUILD}/cxx2json-{h}'
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + f'.{os.getpid()}'
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontendError('building cxx2json: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def sources():
    return sorted(glob.glob(CODE + '/**/*.cpp', recursive=True))


class Ty:
    __slots__ = ('c', 'name', 'args', 'bits', 'signed', 'to', 'n', 's', 'lam', 'rv', 'const', 'usr', '_key')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))
        self._key = None

    def key(self):
        if self._key is None:
            c = self.c
            if c in ('int', 'float'):
                self._key = (c, self.bits, self.signed)
            elif c == 'enum':
                self._key = (c, self.name)
            elif c in ('ref', 'ptr'):
                self._key = (c, self.to.key())
            elif c == 'arr':
                self._key = (c, self.n, self.to.key())
            elif c == 'rec':
                self._key = (c, self.name, tuple(a.key() if isinstance(a, Ty) else a for a in self.args))
            else:
                self._key = (c, self.s)
        return self._key

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.s or str(self.key())

    def strip(self):
        return self.to.strip() if self.c == 'ref' else self

    def is_rec(self, name):
        return self.c == 'rec' and self.name == name


INT32 = Ty(c='int', bits=32, signed=True, s='int')
INT64 = Ty(c='int', bits=64, signed=True, s='long')
UINT64 = Ty(c='int', bits=64, signed=False, s='unsigned long')
UINT32 = Ty(c='int', bits=32, signed=False, s='unsigned int')
UINT8 = Ty(c='int', bits=8, signed=False, s='unsigned char')
BOOL = Ty(c='bool', s='bool')
DOUBLE = Ty(c='float', bits=64, s='double')


def norm(n):
    return n.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')


class Program:
    def __init__(self):
        self.funcs = {}      # usr -> func
        self.by_name = {}    # qualified name -> [func]
        self.recs = {}       # usr -> rec
        self.rec_by_name = {}
        self.enums = {}
        self.overrides = {}  # overridden usr -> [overrider usr]
        self.errors = []

    def load(self, path):
        x = json.load(open(path, errors='replace'))
        raw = x['types']
        types = [Ty() for _ in raw]
        for t, r in zip(types, raw):
            if r is None:
                t.c = 'other'
                t.s = '?'
                continue
            t.c = r['c']
            t.s = r['s']
            t.const = r.get('const')
            t.bits = r.get('bits')
            t.signed = r.get('signed')
            t.name = norm(r['name']) if r.get('name') else None
            t.n = r.get('n')
            t.rv = r.get('rv')
            t.lam = r.get('lambda')
            t.usr = r.get('usr')
            if 'to' in r:
                t.to = types[r['to']] if r['to'] >= 0 else None
            if 'args' in r:
                t.args = [types[a] if isinstance(a, int) else (int(a['int']) if a else None) for a in r['args']]
            elif t.c == 'rec':
                t.args = []
            if t.c == 'rec' and t.name == 'mio::basic_mmap':     # a mapped file is a sequence of bytes
                t.name, t.args = 'std::vector', [a for a in t.args if isinstance(a, Ty)]

        def conv(n):
            if isinstance(n, dict):
                for k in ('t', 'ret', 'rect', 'alloc', 'lt', 'rt', 'begint', 'base'):
                    if k in n and isinstance(n[k], int) and not isinstance(n[k], bool):
                        n[k] = types[n[k]] if n[k] >= 0 else None
                if 'params' in n:
                    n['params'] = [types[i] if isinstance(i, int) and i >= 0 else i for i in n['params']]
                if 'targs' in n:
                    n['targs'] = [types[i] if isinstance(i, int) else i for i in n['targs']]
                if 'bases' in n:
                    n['bases'] = [types[i] if isinstance(i, int) else i for i in n['bases']]
                if n.get('k') == 'Const':
                    v = n['v']
                    if v is None:
                        n['k'] = 'Unsupported'
                        n['cls'] = 'Const'
                    elif 'int' in v:
                        n['v'] = int(v['int'])
                    elif v['flt'] in ('inf', '-inf', 'nan'):
                        n['v'] = v['flt']
                    else:
                        n['v'] = Fraction(float.fromhex(v['flt']))
                if 'name' in n and isinstance(n['name'], str):
                    n['name'] = norm(n['name'])
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k not in ('params', 'targs', 'bases'):
                        conv(v)
            elif isinstance(n, list):
                for v in n:
                    conv(v)

        conv(x['funcs'])
        conv(x['recs'])
        for u, f in x['funcs'].items():
            if u not in self.funcs:
                self.funcs[u] = f
                self.by_name.setdefault(f['name'], []).append(f)
        for u, r in x['recs'].items():
            if u not in self.recs:
                self.recs[u] = r
                self.rec_by_name.setdefault(norm(r['name']), []).append(r)
                for o in r['overrides']:
                    self.overrides.setdefault(o['over'], []).append(o['m'])
        self.enums.update(x['enums'])

    def func(self, name, pred=None):
        c = [f for f in self.by_name.get(name, []) if pred is None or pred(f)]
        if len(c) != 1:
            raise FrontendError(f'{len(c)} definitions of {name}')
        return c[0]


def load_program(extra=(), only=None):
    """Parses every translation unit of the core (in parallel) and merges them."""
    exe = tool()
    srcs = [s for s in sources() if only is None or any(o in s for o in only)] + list(extra)
    tmp = tempfile.mkdtemp(prefix='capi-ast-')
    prog = Program()
    try:
        procs = []
        for i, s in enumerate(srcs):
            out = f'{tmp}/{i}.json'
            cmd = [exe, REPO + '/capi/src', out, s, '--', '-std=c++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + COMPAT + INCS + ['-I' + VERIF + '/frontend/stubs']
            procs.append((s, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=tmp)))
        for s, out, p in procs:
            _, err = p.communicate()
            if p.returncode or not os.path.exists(out):
                raise FrontendError(f'parsing {s}: rc={p.returncode} {err[-1500:]}')
            prog.load(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    from . import parallel
    parallel.mark(prog)
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = load_program()
    print(len(p.funcs), 'functions', len(p.recs), 'records', time.time() - t)
    for n in sorted(p.by_name):
        print(n, [(f['line']) for f in p.by_name[n]])
