"""C14: concurrent edge operations are ordered by locks, without deadlock."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from ..locks import Locks, ROOT
from . import graphspec as gs

DISCIPLINES = {
    'both': (lambda h, r, c: z3.And(h[r] == 2, h[c] == 2), lambda h, r, c: z3.Or(h[r] != 0, h[c] != 0)),
    'row': (lambda h, r, c: h[r] == 2, lambda h, r, c: h[r] != 0),
    'column': (lambda h, r, c: h[c] == 2, lambda h, r, c: h[c] != 0),
}
OPS = [('add_directed_edge', 2, 1), ('remove_directed_edge', 2, 0), ('has_edge', 2, 0), ('is_edge_meridian_crossing', 2, 0), ('get_neighbors', 1, 0), ('add_edge', 2, 1), ('remove_edge', 2, 0)]


def rc(E):
    def f(idx):
        for n in E.dims[::2]:
            r = gs.split(idx, n, E.named)
            if r is not None:
                return r
        raise Unsupported('row and column of an entry')
    return f


def operation(ops):
    def go(E):
        gs.setup(E)
        st0 = new_state()
        loc = gs.fresh_graph(E, st0)
        L = Locks(E, E.graph_roles['locks'], E.graph_roles['cells'], rc(E))
        L.operations = [o[0] for o in OPS]
        for name, nc, nf in OPS:
            if name not in ops:
                continue
            st = st0.clone()
            args = [coord(E, st, k) for k in 'ab'[:nc]] + [z3.Bool(E.fname('crossing')) for _ in range(nf)]
            g0 = E.get(loc, st)
            L.begin(st)
            outs = run(E, 'Graph::' + name, loc, args, st)
            for k, s, _ in outs:
                if k == 'throw':
                    L.leave([q for q, v in s.env.items() if isinstance(v, Rec) and v.name == 'lock'], s)
                h = s.env[ROOT].f['held']
                i = z3.Int('ql')
                ensure(E, s, z3.ForAll([i], h[i] == 0), f'{name}: every lock is released on {"return" if k == "ret" else "an error"}')
                g1 = E.get(loc, s)
                for f in g0.f:
                    if f != E.graph_roles['cells']:
                        ensure(E, s, z3.BoolVal(same_value(g0.f[f], g1.f[f])), f'{name}: only entries of the matrix are written')
                if k == 'ret':
                    E.vac.append(s)
        acc = list(L.accesses)
        E.locks = None
        # one discipline orders every access of every operation
        best = None
        for d, (w, r) in DISCIPLINES.items():
            bad = [a for a in acc if not holds(a, w if a[1] == 'write' else r)]
            if best is None or len(bad) < len(best[1]):
                best = (d, bad)
            if not bad:
                break
        w, r = DISCIPLINES[best[0]]
        E.discipline = best[0]
        for pc, kind, i, j, h, rel, line, fn, val in acc:
            s = State({}, list(pc), {})
            ensure_at(E, s, (w if kind == 'write' else r)(h, i, j), f'{kind} of an entry holds the locks that order it ({best[0]})', fn, line)
            if kind == 'write' and reads_cells(val, g0.f[E.graph_roles['cells']].arr):
                ensure_at(E, s, lnot(rel), 'an update of an entry is one critical section', fn, line)
    return go


def ensure_at(E, s, f, desc, fn, line):
    n = len(E.obligs)
    ensure(E, s, f, desc)
    for o in E.obligs[n:]:
        o.func, o.line = fn, line


def reads_cells(v, arr):
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return False
        seen.add(t.get_id())
        return t.eq(arr) or any(go(c) for c in t.children())
    return isinstance(v, z3.ExprRef) and go(v)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Vec):
        return a.len.eq(b.len) and a.arr.eq(b.arr)
    if isinstance(a, Map):
        return a.dom.eq(b.dom) and (a.val is b.val or a.val.eq(b.val))
    return isinstance(a, z3.ExprRef) and a.eq(b)


def holds(a, d):
    s = z3.Solver()
    s.set('timeout', 2000)
    for p in a[0]:
        if not z3.is_quantifier(p):
            s.add(p)
    s.add(z3.Not(d(a[4], a[2], a[3])))
    return s.check() == z3.unsat


ALL = [o[0] for o in OPS]
TARGETS = [Target('edge operations', operation(ALL))]
