"""Discharging obligations: a pool of forked workers, each trying several back ends on one obligation."""
import os, pickle, select, subprocess, tempfile, time, signal, hashlib, multiprocessing, shutil
import z3
from .engine import has_quant, land, lnot, IntS, RealS, BoolS

NPROC = int(os.environ.get('DV_JOBS', '8'))
SEM = multiprocessing.get_context('fork').Semaphore(NPROC)
Z3CLI = shutil.which('z3-new') or shutil.which('z3')
CVC5 = shutil.which('cvc5')


# ------------------------------------------------------------------ formula tools
def consts(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = {} if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out[d.name() if x.num_args() else x.sexpr()] = x
            stack.extend(x.children())
    return out


def symset(t, cache):
    i = t.get_id()
    if i not in cache:
        cache[i] = (frozenset(consts(t)), t)
    return cache[i][0]


def slice_hyps(hyps, goal, rounds=99, cache=None):
    cache = {} if cache is None else cache
    want = set(symset(goal, cache))
    left = list(hyps)
    keep = []
    for _ in range(rounds):
        n = [h for h in left if symset(h, cache) & want]
        if not n:
            break
        for h in n:
            want |= symset(h, cache)
        ids = {h.get_id() for h in n}
        left = [h for h in left if h.get_id() not in ids]
        keep += n
    ids = {h.get_id() for h in keep}
    return [h for h in hyps if h.get_id() in ids]


OPAQUE = (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_IS_INT, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR)


def to_real(t, memo):
    """The same formula with integer constants read as reals (valid over the reals implies valid over the integers)."""
    i = t.get_id()
    if i in memo:
        return memo[i]
    if z3.is_quantifier(t):
        raise ValueError
    if z3.is_int_value(t):
        r = z3.RealVal(t.as_long())
    elif z3.is_rational_value(t):
        r = t
    else:
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED and not t.num_args():
            r = z3.Real(d.name() + '$r') if t.sort() == IntS else t
            if t.sort() not in (IntS, RealS, BoolS):
                raise ValueError
        elif k in OPAQUE:
            if t.sort() not in (IntS, RealS, BoolS):
                raise ValueError
            r = z3.Bool(f'opq${i}') if t.sort() == BoolS else z3.Real(f'opq${i}')
        elif k == z3.Z3_OP_TO_REAL:
            r = to_real(t.arg(0), memo)
        else:
            cs = [to_real(c, memo) for c in t.children()]
            if k == z3.Z3_OP_ADD:
                r = z3.Sum(cs)
            elif k == z3.Z3_OP_MUL:
                r = cs[0]
                for c in cs[1:]:
                    r = r * c
            elif k == z3.Z3_OP_SUB:
                r = cs[0]
                for c in cs[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -cs[0]
            elif k == z3.Z3_OP_LE:
                r = cs[0] <= cs[1]
            elif k == z3.Z3_OP_LT:
                r = cs[0] < cs[1]
            elif k == z3.Z3_OP_GE:
                r = cs[0] >= cs[1]
            elif k == z3.Z3_OP_GT:
                r = cs[0] > cs[1]
            elif k == z3.Z3_OP_EQ:
                r = cs[0] == cs[1]
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*cs)
            elif k == z3.Z3_OP_ITE:
                r = z3.If(*cs)
            elif k == z3.Z3_OP_AND:
                r = z3.And(*cs)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*cs)
            elif k == z3.Z3_OP_NOT:
                r = z3.Not(cs[0])
            elif k == z3.Z3_OP_IMPLIES:
                r = z3.Implies(*cs)
            elif k == z3.Z3_OP_XOR:
                r = z3.Xor(*cs)
            elif k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                r = t
            elif k == z3.Z3_OP_DIV:
                r = cs[0] / cs[1]
            else:
                raise ValueError
    memo[i] = r
    return r


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def run_cli(cmd, text, tmo):
    fd, p = tempfile.mkstemp(suffix='.smt2', prefix='dv-')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        try:
            r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=tmo + 2)
        except subprocess.TimeoutExpired:
            return 'unknown'
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(p)


def model_of(m, terms):
    out = {}
    for n, t in terms.items():
        try:
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = str(v.as_fraction())
            elif z3.is_true(v) or z3.is_false(v):
                out[n] = z3.is_true(v)
        except Exception:
            pass
    return out


def decide(o, axioms, budget):
    """(status, backend, model) for one obligation; status is proved, refuted or unknown."""
    t0 = time.time()
    hyps = list(o.hyps)
    goal = o.goal
    left = lambda: budget - (time.time() - t0)
    inputs = dict(o.inputs)
    for n, t in consts(goal).items():
        if z3.is_const(t) and t.sort() in (IntS, RealS, BoolS) and n not in inputs:
            inputs[n] = t
    anyq = has_quant(goal) or any(has_quant(h) for h in hyps) or any(has_quant(a) for a in axioms)

    def z(hs, ms, name, mk=z3.Solver, g=goal):
        s = mk()
        s.set('timeout', max(50, int(min(ms, left() * 1000))))
        for h in hs:
            s.add(h)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return ('proved', name, None)
        if r == z3.sat:
            return ('refuted', name, s.model())
        return None

    full = list(axioms) + hyps
    ref = None
    if anyq:
        # E-matching only
        def em():
            q = z3.SimpleSolver()
            q.set('mbqi', False)
            return q
        r = z(full, 1000, 'z3:ematching', em)
        if r and r[0] == 'proved':
            return r[0], r[1], None
    r = z(full, 1500, 'z3')
    if r:
        if r[0] == 'proved' or not anyq:
            return r[0], r[1], (model_of(r[2], inputs) if r[2] is not None else None)
        ref = model_of(r[2], inputs)
        return 'refuted', 'z3', ref
    if anyq:
        for key, val, ms in (('random_seed', 7, 1000), ('smt.arith.solver', 2, 4000), ('random_seed', 23, 1000)):
            def em():
                q = z3.SimpleSolver()
                q.set('mbqi', False)
                q.set(key, val)
                return q
            r = z(full, ms, 'z3:ematching', em)
            if r and r[0] == 'proved':
                return r[0], r[1], None
    cache = {}
    sl = slice_hyps(full, goal, 99, cache)
    attempts = []
    noq = [h for h in sl if not has_quant(h)]
    if not has_quant(goal):
        for rounds in (1, 2, 99):
            hs = slice_hyps(noq, goal, rounds, cache)
            try:
                memo = {}
                hr = []
                for h in hs:
                    try:
                        hr.append(to_real(h, memo))
                    except ValueError:
                        pass
                gr = to_real(goal, memo)
                attempts.append(('nlsat', hr, gr, lambda: z3.Tactic('qfnra-nlsat').solver(), 3000))
                attempts.append(('nra', hr, gr, lambda: z3.SolverFor('QF_NRA'), 3000))
            except ValueError:
                pass
        attempts.append(('z3-noquant', noq, goal, z3.Solver, 3000))
    for rounds in (1, 2):
        attempts.append((f'z3-slice{rounds}', slice_hyps(full, goal, rounds, cache), goal, z3.Solver, 3000))
    scale = 1
    tried_cvc = False
    while left() > 0.2:
        for name, hs, g, mk, ms in attempts:
            if left() < 0.2:
                break
            try:
                r = z(hs, ms * scale, 'z3:' + name if not name.startswith('z3') else name, mk, g)
            except z3.Z3Exception:
                continue
            if r and r[0] == 'proved':
                return r[0], r[1], None
        if CVC5 and left() > 0.5 and not tried_cvc:
            ms = int(min(8000 * scale, left() * 1000))
            try:
                o2 = run_cli([CVC5, f'--tlimit={ms}'], '(set-logic ALL)\n' + smt2(full, goal), ms / 1000)
                if o2 == 'unsat':
                    return 'proved', 'cvc5', None
                if o2 == 'sat' and not anyq:
                    return 'refuted', 'cvc5', None
            except Exception:
                pass
        r = z(full, 8000 * scale, 'z3')
        if r:
            return r[0], r[1], (model_of(r[2], inputs) if r[2] is not None else None)
        scale *= 3
        if scale > 60:
            break
    return 'unknown', None, None


# ------------------------------------------------------------------ fork pool
def pmap(fn, items, deadline=None, hard=None):
    """[fn(x)] computed in forked children under the global semaphore; None where a child failed."""
    res = [None] * len(items)
    live = {}
    nxt = 0
    while nxt < len(items) or live:
        while nxt < len(items) and len(live) < NPROC:
            if not SEM.acquire(block=not live, timeout=None if not live else 0):
                break
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    d = pickle.dumps(fn(items[nxt]))
                    with os.fdopen(w, 'wb') as f:
                        f.write(d)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (pid, nxt, [], time.time())
            nxt += 1
        rd, _, _ = select.select(list(live), [], [], 0.05)
        now = time.time()
        for fd in rd:
            b = os.read(fd, 1 << 16)
            pid, i, buf, t = live[fd]
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            SEM.release()
            del live[fd]
            if buf:
                try:
                    res[i] = pickle.loads(b''.join(buf))
                except Exception:
                    pass
        if hard:
            for fd in list(live):
                pid, i, buf, t = live[fd]
                if now - t > hard:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    SEM.release()
                    del live[fd]
    return res


def key_of(o, axioms):
    h = hashlib.sha256()
    for x in axioms:
        h.update(x.sexpr().encode())
    for x in o.hyps:
        h.update(x.sexpr().encode())
    h.update(o.goal.sexpr().encode())
    return h.hexdigest()


def solve_all(obs, axioms, budget):
    """Fills status/backend/time/model of each obligation."""
    def one(o):
        t = time.time()
        s, b, m = decide(o, axioms, budget)
        return s, b, m, time.time() - t
    rs = pmap(one, obs, hard=budget * 2 + 20)
    for o, r in zip(obs, rs):
        if r is None:
            o.status, o.backend, o.time = 'unknown', None, budget
        else:
            o.status, o.backend, o.model, o.time = r
