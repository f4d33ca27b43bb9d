"""The contract of IGraph: what a graph promises to code that only sees the interface.

An abstract graph is given by three relations over positions (vertex, edge, crossing) that never change, because
every mutating operation on it is obliged not to happen.  C11 proves that Graph keeps this contract."""
import z3
from ..engine import *
from ..spec import *
from .. import stl


class IndexOf:
    """mem(v, c): c is an element of v (a specification function per vector, with a position of the element)."""

    def __init__(self, E, sort):
        self.E, self.sort, self.tab = E, sort, {}

    def mem(self, v, c):
        E = self.E
        k = (v.arr.get_id(), v.len.get_id())
        if k not in self.tab:
            at = z3.Function(E.fname('at'), self.sort, IntS)
            In = z3.Function(E.fname('in'), self.sort, BoolS)
            x, i = z3.Const('qc', self.sort), z3.Int('qi')
            E.axioms.append(qall([x], z3.Implies(In(x), land(at(x) >= 0, at(x) < v.len, v.arr[at(x)] == x)), [In(x)]))
            if not pattern_ok(v.arr):
                raise Unsupported('members of an unnamed vector')
            E.axioms.append(z3.ForAll([x, i], z3.Implies(land(i >= 0, i < v.len, v.arr[i] == x), In(x)), patterns=[z3.MultiPattern(In(x), v.arr[i])]))
            self.tab[k] = (In, at, v)
        return self.tab[k][0](c)


def distinct(v):
    i, j = z3.Ints('qi qj')
    return z3.ForAll([i, j], z3.Implies(land(i >= 0, j >= 0, i < v.len, j < v.len, v.arr[i] == v.arr[j]), i == j), patterns=[z3.MultiPattern(v.arr[i], v.arr[j])])


def canonical(E):
    """Positions that are equal are the same term: two fields, both compared (C19)."""
    fs = E.rec_fields(rec_ty(E, 'Coordinate'))
    if len(fs) != 2 or any(t.strip().c != 'int' for _, t in fs):
        raise Unsupported('fields of Coordinate')


class Base:
    """An arbitrary graph behind the IGraph interface."""

    def __init__(self, E, st, member=None):
        canonical(E)
        self.E = E
        self.cs = cs = E.sort_of(rec_ty(E, 'Coordinate'))
        self.V = z3.Function(E.fname('base.vertex'), cs, BoolS)
        self.Ed = z3.Function(E.fname('base.edge'), cs, cs, BoolS)
        self.X = z3.Function(E.fname('base.crossing'), cs, cs, BoolS)
        a, b = z3.Consts('qa qb', cs)
        e = self.Ed(a, b)
        E.axioms.append(z3.ForAll([a, b], z3.Implies(e, land(self.V(a), self.V(b), a != b)), patterns=[e]))
        E.axioms.append(z3.ForAll([a, b], z3.Implies(self.X(a, b), e), patterns=[self.X(a, b)]))
        self.M = member or IndexOf(E, cs)
        self.nlen = z3.Function(E.fname('base.nlen'), cs, IntS)
        self.narr = z3.Function(E.fname('base.narr'), cs, z3.ArraySort(IntS, cs))
        vec = self.E.fresh(self.vecty(), 'base.vertices', st)
        self.vlist = vec
        c = z3.Const('qc', cs)
        st.assume(z3.ForAll([c], self.V(c) == self.M.mem(vec, c), patterns=[self.V(c), self.M.mem(vec, c)]))
        st.assume(distinct(vec))
        C = E.contracts
        for m in ('add_edge', 'add_directed_edge', 'remove_edge', 'remove_directed_edge', 'add_vertex'):
            C['IGraph::' + m] = self.mutator(m)
        C['IGraph::has_vertex'] = lambda E, st, this, a, fn: self.V(self.c(a[0], st))
        C['IGraph::has_edge'] = self.pair(self.Ed)
        C['IGraph::is_edge_meridian_crossing'] = self.pair(self.X)
        C['IGraph::get_neighbors'] = self.neighbors
        C['IGraph::get_vertices'] = lambda E, st, this, a, fn: self.vlist
        self.polys = None
        C['IGraph::get_polygons'] = self.polygons

    def vecty(self):
        return self.E.prog.func('ModifiedGraph::get_vertices')['ret'].strip()

    def c(self, a, st):
        E = self.E
        v = E.get(a.loc, st) if isinstance(a, Ref) else a
        return E.pack(v, rec_ty(E, 'Coordinate'), st)

    def mutator(self, m):
        def f(E, st, this, a, fn):
            if this is not None and isinstance(E.get(this, st), Rec) and E.get(this, st).name != 'IGraph':
                return NotImplemented
            E.oblige(st, z3.BoolVal(False), 'frame', f'the base graph is not changed ({m})', E.cur_line, assume=False)
            return VOID
        return f

    def pair(self, R):
        def f(E, st, this, a, fn):
            x, y = self.c(a[0], st), self.c(a[1], st)
            E.throw_if(st, land(lnot(land(self.V(x), self.V(y))), x != y), Opaque('std::runtime_error'))
            return R(x, y)
        return f

    def neighbors(self, E, st, this, a, fn):
        x = self.c(a[0], st)
        E.throw_if(st, lnot(self.V(x)), Opaque('std::runtime_error'))
        v = Vec(self.nlen(x), self.narr(x), self.vecty().args[0])
        y = z3.Const('qc', self.cs)
        st.assume(land(v.len >= 0, v.len <= 1 << 40))
        st.assume(z3.ForAll([y], self.Ed(x, y) == self.M.mem(v, y), patterns=[self.Ed(x, y), self.M.mem(v, y)]))
        st.assume(distinct(v))
        return v

    def polygons(self, E, st, this, a, fn):
        if self.polys is None:
            self.polys = E.fresh(fn['ret'].strip() if fn.get('ret') else E.prog.func('ModifiedGraph::get_polygons')['ret'].strip(), 'base.polygons', st)
        return self.polys
