"""Builds the bounded-search harness from /repo's current sources and runs it."""
import os, subprocess, tempfile, shutil, time, glob
from .frontend import CODE, CPPLIBS, INCS, COMPAT, VERIF, sources

FLAGS = ['-std=c++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']
TRAP = ['-fopenmp', '-fsanitize=signed-integer-overflow,float-cast-overflow,shift-exponent', '-fsanitize-undefined-trap-on-error']
TSAN = ['-fsanitize=thread', '-g']

SUITES = {'geom': ['C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21'], 'graphs': ['C09', 'C10', 'C11', 'C12', 'C13', 'C14'],
          'search': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08']}


class Harness:
    """Compiles in the background; run() waits for it."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='capi-replay-')
        self.error = None
        self.tsan = prop == 'C14'
        unit = next(u for u, ps in SUITES.items() if prop in ps)
        srcs = sources()
        own = ['main', 'scene', unit]
        mode = TSAN if self.tsan else ['-fopenmp'] if prop == 'C10' else TRAP
        if self.tsan:
            srcs = [s for s in srcs if '/visgraph/' not in s and '/shortest_path/' not in s and 'spatial_segment_index' not in s]
        self.procs = []
        self.objs = []
        jobs = [(s, FLAGS + mode) for s in srcs] + [(f'{VERIF}/replay/{o}.cpp', FLAGS + mode) for o in own] + [(CPPLIBS + '/fmt/src/format.cc', ['-std=c++17', '-O0', '-w'])]
        for i, (s, fl) in enumerate(jobs):
            if 'visgraph_generator' in s:  # the third-party progress bar converts 0/0 for an empty scene
                fl = [f.replace('float-cast-overflow,', '') for f in fl]
            o = f'{self.dir}/{i}.o'
            self.objs.append(o)
            cmd = ['g++'] + fl + COMPAT + INCS + ['-I' + VERIF + '/replay', '-c', s, '-o', o]
            self.procs.append((s, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        self.exe = None
        self.mode = mode

    def wait(self):
        if self.exe or self.error:
            return
        for s, p in self.procs:
            _, err = p.communicate()
            if p.returncode and not self.error:
                self.error = f'compiling {s}: {err[-1500:]}'
        if self.error:
            return
        exe = self.dir + '/h'
        r = subprocess.run(['g++'] + self.objs + self.mode + ['-o', exe, '-ls2', '-lpthread'], capture_output=True, text=True)
        if r.returncode:
            self.error = 'linking: ' + r.stderr[-1500:]
            return
        self.exe = exe

    def run(self, seed, secs, case=None, procs=1):
        """(failure or None, stats).  failure: {'case','name','what','input','seed'}"""
        self.wait()
        if self.error:
            return None, {'error': self.error}
        ps = []
        for k in range(procs):
            sd = seed if k == 0 else seed + 7777 * k
            sc = f'{self.dir}/scratch{k}'
            os.makedirs(sc, exist_ok=True)
            cmd = [self.exe, self.prop, str(sd), str(secs), sc] + ([str(case)] if case is not None else [])
            env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_signal_unsafe=0 second_deadlock_stack=1', OMP_WAIT_POLICY='passive')
            ps.append((sd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=sc)))
        fail = None
        st = {'evaluations': 0, 'distinct': 0, 'samples': [], 'seeds': []}
        for sd, p in ps:
            try:
                out, err = p.communicate(timeout=secs + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            st['seeds'].append(sd)
            got = False
            for l in out.splitlines():
                if l.startswith('OK '):
                    a = l.split()
                    st['evaluations'] += int(a[1])
                    st['distinct'] += int(a[2])
                    got = True
                elif l.startswith('SAMPLE ') and len(st['samples']) < 3:
                    st['samples'].append(l[7:])
            if p.returncode == 0 and got:
                continue
            if fail is None and 'FAIL ' in out:
                i = out.index('FAIL ')
                ls = out[i:].splitlines()
                h = ls[0].split()
                fail = {'name': h[1], 'case': int(h[2]), 'seed': sd, 'what': next((x[5:] for x in ls if x.startswith('WHAT ')), ''),
                        'input': next((x[6:] for x in ls if x.startswith('INPUT ')), ''), 'log': err[-3000:]}
            elif fail is None and p.returncode == 66:
                head = next((x for x in err.splitlines() if 'WARNING: ThreadSanitizer' in x), 'ThreadSanitizer report')
                fail = {'name': 'threads', 'case': -1, 'seed': sd, 'what': head.strip(), 'input': 'concurrent history of seed %d' % sd, 'log': err[-6000:]}
            elif fail is None:
                st.setdefault('error', f'harness ended with {p.returncode}: {(out + err)[-500:]}')
        return fail, st

    def close(self):
        for _, p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


if __name__ == '__main__':
    import sys, argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--case', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--secs', type=float, default=5)
    ap.add_argument('--procs', type=int, default=2)
    ap.add_argument('props', nargs='+')
    a = ap.parse_args()
    bad = 0
    for pr in a.props:
        t = time.time()
        h = Harness(pr)
        h.wait()
        t1 = time.time()
        f, st = h.run(a.seed, a.secs, a.case if a.case is None or a.case >= 0 else None, 1 if a.case is not None else a.procs)
        bad |= bool(f)
        print(pr, f'build {t1-t:.1f}s', f and {k: str(v)[:3000] for k, v in f.items()}, {k: str(v)[:500] for k, v in st.items()})
        h.close()
    sys.exit(1 if bad else 0)
