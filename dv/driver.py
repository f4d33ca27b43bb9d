"""Runs the targets of a property: generate, Houdini on invariants, discharge, collect."""
import os, sys, time, json, pickle, traceback
import z3
from .engine import Engine, Unsupported, Oblig, land
from . import solve


class Target:
    def __init__(self, name, fn, funcs=(), budget=20, setup=None):
        self.name, self.fn, self.funcs, self.budget, self.setup = name, fn, list(funcs), budget, setup


def run_target(prog, t, tier):
    """Result dict of one target."""
    t0 = time.time()
    budget = t.budget * (4 if tier == 'thorough' else 1)
    dead = set()
    proved = {}
    res = {'target': t.name, 'obligs': [], 'error': None}
    rounds = 0
    try:
        while True:
            rounds += 1
            E = Engine(prog)
            E.tag = t.name
            E.dead_cands = dead
            E.vac = []
            if t.setup:
                t.setup(E)
            t.fn(E)
            todo = []
            for o in E.cand_obligs:
                k = solve.key_of(o, E.axioms)
                o.core = k
                if k in proved:
                    o.status, o.backend, o.time = proved[k]
                else:
                    todo.append(o)
            solve.solve_all(todo, E.axioms, min(budget, 8 if rounds < 12 and time.time() - t0 < 100 else 3))
            bad = set()
            for o in E.cand_obligs:
                if o.status == 'proved':
                    proved[o.core] = (o.status, o.backend, o.time)
                else:
                    bad.add(o.name)
            if os.environ.get('DV_DEBUG') and bad:
                for o in E.cand_obligs:
                    if o.status != 'proved':
                        print('  drop', o.name, o.status, o.desc, file=sys.stderr)
            if not bad or rounds > 40:
                break
            # generic guesses go first: a specification's own invariant may have failed because of them
            # (and one that is wrong before one that is merely not proved)
            wrong = {o.name for o in E.cand_obligs if o.status == 'refuted'}
            dead |= {b for b in bad if not b[1].startswith('@')} or (wrong if rounds < 20 else bad) or bad
        solve.solve_all(E.obligs, E.axioms, budget)
        # vacuity: the final path conditions must not be contradictory
        vac = solve.pmap(lambda st: vacuous(E, st), E.vac, hard=20)
        res['vacuous'] = sum(1 for v in vac if v)
        res['reach'] = len(E.vac)
        res['obligs'] = [dict(desc=o.desc, kind=o.kind, func=o.func, line=o.line, status=o.status, backend=o.backend, time=o.time, model=o.model,
                              goal=o.goal.sexpr()[:1500] if o.status != 'proved' else None, target=t.name) for o in E.obligs + E.cand_obligs]
        res.update(trivial=E.trivial + E.quick_proved, inlined=sorted(E.inlined), contracts=sorted(E.used_contracts), assumed=sorted(E.assumed), loops=E.loop_log, dropped=len(dead), rounds=rounds)
    except Unsupported as e:
        res['error'] = f'unsupported: {e}'
        if os.environ.get('DV_DEBUG'):
            print(t.name, *traceback.format_exc().splitlines()[-int(os.environ.get("DV_TB", 9)):], sep='\n', file=sys.stderr)
    except Exception as e:
        res['error'] = f'{type(e).__name__}: {e}'
        if os.environ.get('DV_DEBUG'):
            print(t.name, *traceback.format_exc().splitlines()[-int(os.environ.get("DV_TB", 9)):], sep='\n', file=sys.stderr)
    res['wall'] = time.time() - t0
    return res


def vacuous(E, st):
    s = z3.Solver()
    s.set('timeout', 3000)
    for a in E.axioms:
        s.add(a)
    for p in st.pc:
        s.add(p)
    return s.check() == z3.unsat


def run_targets(prog, targets, tier):
    """Each target in its own process (they generate concurrently, solving shares one pool)."""
    import select, signal
    live = {}
    out = []
    pend = list(targets)
    maxlive = 8
    while pend or live:
        while pend and len(live) < maxlive:
            t = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    d = pickle.dumps(run_target(prog, t, tier))
                    with os.fdopen(w, 'wb') as f:
                        f.write(d)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (pid, t, [])
        rd, _, _ = select.select(list(live), [], [], 0.2)
        for fd in rd:
            b = os.read(fd, 1 << 16)
            pid, t, buf = live[fd]
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                out.append(pickle.loads(b''.join(buf)))
            except Exception:
                out.append({'target': t.name, 'obligs': [], 'error': 'worker died'})
    order = {t.name: i for i, t in enumerate(targets)}
    out.sort(key=lambda r: order[r['target']])
    return out


def targets_of(mod):
    """The targets of a property, and those of the contracts it rests on."""
    import importlib
    ts = list(getattr(mod, 'TARGETS', []))
    for m, names in getattr(mod, 'NEEDS', {}).items():
        for t in importlib.import_module('dv.props.' + m).TARGETS:
            if names is None or t.name in names:
                ts.append(Target(f'{m.upper()} {t.name}', t.fn, t.funcs, t.budget, t.setup))
    return ts
