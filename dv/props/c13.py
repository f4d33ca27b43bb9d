"""C13: merging graphs is their union.  Graphs and polygons are known by their contracts (C11, C19) only."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


class Graphs:
    """Arbitrary input graphs and the contract of Graph: a set of polygons, the vertices of those polygons, edges, and
    which edges were ever added as direct."""

    def __init__(self, E):
        self.E = E
        C = E.contracts
        for n in ('Graph', 'Polygon', 'Coordinate'):
            E.opaque_recs[n] = z3.DeclareSort(n + '#')
        self.G, self.P, self.C = G, P, Cs = [E.opaque_recs[n] for n in ('Graph', 'Polygon', 'Coordinate')]
        F = lambda n, *s: z3.Function(n, *s)
        self.poly, self.pv = F('has_polygon', G, P, BoolS), F('polygon_vertex', P, Cs, BoolS)
        self.vert, self.edge, self.direct = F('vertex', G, Cs, BoolS), F('edge', G, Cs, Cs, BoolS), F('direct', G, Cs, Cs, BoolS)
        self.wit = F('polygon_of', G, Cs, P)
        self.nv, self.va, self.vp = F('vertices.len', G, IntS), F('vertices', G, IntS, Cs), F('vertices.pos', G, Cs, IntS)
        self.np, self.pa, self.pp = F('polygons.len', G, IntS), F('polygons', G, IntS, P), F('polygons.pos', G, P, IntS)
        g, p, c, d, i = z3.Const('qg', G), z3.Const('qp', P), z3.Const('qc', Cs), z3.Const('qd', Cs), z3.Int('qi')
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        # vertices are those of the polygons
        A([g, c], z3.Implies(self.vert(g, c), land(self.poly(g, self.wit(g, c)), self.pv(self.wit(g, c), c))), self.vert(g, c))
        A([g, p, c], z3.Implies(land(self.poly(g, p), self.pv(p, c)), self.vert(g, c)), z3.MultiPattern(self.poly(g, p), self.pv(p, c), self.vert(g, c)))
        # the lists hold exactly the polygons and the vertices
        A([g, i], z3.Implies(land(i >= 0, i < self.nv(g)), self.vert(g, self.va(g, i))), self.va(g, i))
        A([g, c], z3.Implies(self.vert(g, c), land(self.vp(g, c) >= 0, self.vp(g, c) < self.nv(g), self.va(g, self.vp(g, c)) == c)), self.vert(g, c))
        A([g, i], z3.Implies(land(i >= 0, i < self.np(g)), self.poly(g, self.pa(g, i))), self.pa(g, i))
        A([g, p], z3.Implies(self.poly(g, p), land(self.pp(g, p) >= 0, self.pp(g, p) < self.np(g), self.pa(g, self.pp(g, p)) == p)), self.poly(g, p))
        A([g], land(self.nv(g) >= 0, self.np(g) >= 0, self.nv(g) <= 1 << 20, self.np(g) <= 1 << 20), self.nv(g), self.np(g))
        A([g, c, d], z3.Implies(self.edge(g, c, d), land(self.vert(g, c), self.vert(g, d), c != d)), self.edge(g, c, d))
        A([g, c, d], z3.Implies(self.direct(g, c, d), self.edge(g, c, d)), self.direct(g, c, d))
        # so does the list of neighbours
        self.nn, self.na, self.npos = F('neighbours.len', G, Cs, IntS), F('neighbours', G, Cs, IntS, Cs), F('neighbours.pos', G, Cs, Cs, IntS)
        A([g, c, i], z3.Implies(land(i >= 0, i < self.nn(g, c)), self.edge(g, c, self.na(g, c, i))), self.na(g, c, i))
        A([g, c, d], z3.Implies(self.edge(g, c, d), land(self.npos(g, c, d) >= 0, self.npos(g, c, d) < self.nn(g, c), self.na(g, c, self.npos(g, c, d)) == d)), self.edge(g, c, d))
        C['Graph::has_vertex'] = lambda E, st, this, a, fn: self.rel(st, this, 'v', a)
        C['Graph::has_edge'] = lambda E, st, this, a, fn: self.rel(st, this, 'e', a)
        C['Graph::is_edge_meridian_crossing'] = lambda E, st, this, a, fn: self.rel(st, this, 'x', a)
        C['Graph::get_vertices'] = lambda E, st, this, a, fn: self.listed(st, this, 'v')
        C['Graph::get_polygons'] = lambda E, st, this, a, fn: self.listed(st, this, 'p')
        C['Graph::Graph'] = self.construct
        C['Graph::add_edge'] = lambda E, st, this, a, fn: self.add(st, this, a, True)
        C['Graph::add_directed_edge'] = lambda E, st, this, a, fn: self.add(st, this, a, False)
        C['Graph::get_neighbors'] = self.neighbors
        for m in ('remove_edge', 'remove_directed_edge', 'add_vertex'):
            C['Graph::' + m] = self.no(m)
        C['Coordinate::operator=='] = lambda E, st, this, a, fn: E.get(this, st).f['#t'] == self.val(a[0], st)
        C['Coordinate::operator!='] = lambda E, st, this, a, fn: E.get(this, st).f['#t'] != self.val(a[0], st)

    def no(self, m):
        def f(E, st, this, a, fn):
            raise Unsupported(f'Graph::{m} while merging')
        return f

    def val(self, a, st):
        v = self.E.get(a.loc, st) if isinstance(a, Ref) else a
        return v.f['#t']

    def pairset(self):
        return z3.ArraySort(self.C, z3.ArraySort(self.C, BoolS))

    def rel(self, st, this, what, a):
        E = self.E
        g = E.get(this, st)
        cs = [self.val(x, st) for x in a]
        if what == 'v':
            return self.vert(g.f['#t'], cs[0])
        E.throw_if(st, land(cs[0] != cs[1], lnot(land(*[self.vert(g.f['#t'], c) for c in cs]))), Opaque('std::runtime_error'))
        if 'edge' in g.f:
            e, d = g.f['edge'][cs[0]][cs[1]], g.f['direct'][cs[0]][cs[1]]
        else:
            e, d = self.edge(g.f['#t'], *cs), self.direct(g.f['#t'], *cs)
        return e if what == 'e' else land(e, lnot(d))

    def listed(self, st, this, what):
        E = self.E
        t = E.get(this, st).f['#t']
        n, f, sort = (self.nv, self.va, self.C) if what == 'v' else (self.np, self.pa, self.P)
        a = z3.Const(E.fname('list'), z3.ArraySort(IntS, sort))
        i = z3.Int('qi')
        st.assume(land(n(t) >= 0, n(t) <= 1 << 20))
        st.assume(z3.ForAll([i], a[i] == f(t, i), patterns=[a[i], f(t, i)]))
        return Vec(n(t), a, rec_ty(E, 'Coordinate' if what == 'v' else 'Polygon'))

    def neighbors(self, E, st, this, a, fn):
        g, c = E.get(this, st), self.val(a[0], st)
        t = g.f['#t']
        if 'edge' in g.f:
            raise Unsupported('neighbours in the merged graph')
        E.throw_if(st, lnot(self.vert(t, c)), Opaque('std::runtime_error'))
        r = z3.Const(E.fname('list'), z3.ArraySort(IntS, self.C))
        i = z3.Int('qi')
        st.assume(land(self.nn(t, c) >= 0, self.nn(t, c) <= 1 << 20))
        st.assume(z3.ForAll([i], r[i] == self.na(t, c, i), patterns=[r[i], self.na(t, c, i)]))
        return Vec(self.nn(t, c), r, rec_ty(E, 'Coordinate'))

    def construct(self, E, st, this, a, fn):
        if len(a) != 1:
            return NotImplemented
        v = E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0]
        if not isinstance(v, Vec):
            return NotImplemented
        t = z3.Const(E.fname('merged'), self.G)
        p, i = z3.Const('qp', self.P), z3.Int('qi')
        v = E.flat(v, st)
        w = z3.Function(E.fname('listed_at'), self.P, IntS)
        st.assume(z3.ForAll([p], z3.Implies(self.poly(t, p), land(w(p) >= 0, w(p) < v.len, v.arr[w(p)] == p)), patterns=[self.poly(t, p)]))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), self.poly(t, v.arr[i])), patterns=[v.arr[i]]))
        self.built = (t, v)
        E.suppress or self.builds.append((st.clone(), t, v))
        none = z3.K(self.C, z3.K(self.C, z3.BoolVal(False)))
        return Rec('Graph', {'#t': t, 'edge': none, 'direct': none}, rec_ty(E, 'Graph'))

    def add(self, st, this, a, both):
        E = self.E
        g = E.get(this, st)
        x, y = self.val(a[0], st), self.val(a[1], st)
        cr = E.get(a[2].loc, st) if isinstance(a[2], Ref) else a[2]
        if 'edge' not in g.f:
            E.oblige(st, z3.BoolVal(False), 'frame', 'the merged graphs are not changed', E.cur_line, assume=False)
            return VOID
        t = g.f['#t']
        E.throw_if(st, land(x != y, lnot(land(self.vert(t, x), self.vert(t, y)))), Opaque('std::runtime_error'))
        e, d = g.f['edge'], g.f['direct']
        e2, d2 = [z3.Const(E.fname(n), self.pairset()) for n in ('edges', 'directs')]
        c1, c2 = z3.Const('qc', self.C), z3.Const('qd', self.C)
        named = land(c1 == x, c2 == y)
        if both:
            named = lor(named, land(c1 == y, c2 == x))
        named = land(named, x != y)
        st.assume(z3.ForAll([c1, c2], e2[c1][c2] == lor(e[c1][c2], named), patterns=[e2[c1][c2], e[c1][c2]] if pattern_ok(e) else [e2[c1][c2]]))
        st.assume(z3.ForAll([c1, c2], d2[c1][c2] == lor(d[c1][c2], land(named, lnot(cr))), patterns=[d2[c1][c2], d[c1][c2]] if pattern_ok(d) else [d2[c1][c2]]))
        E.set(this, Rec('Graph', dict(g.f, edge=e2, direct=d2), g.ty), st)
        return VOID


class Merge:
    def __init__(self, E, proved=True):
        self.E = E
        self.S = S = Graphs(E)
        S.builds = []
        st = new_state()
        f = E.prog.func('merge_graphs')
        self.f, self.st = f, st
        self.gs = E.fresh(f['params'][0].strip(), 'graphs', st)
        st.assume(self.gs.len <= 1 << 20)
        G, P, C = S.G, S.P, S.C
        # what the first k graphs have (defined by recursion; one step is used at a time)
        self.AP = z3.Function('polygon_before', IntS, P, BoolS)
        self.AE = z3.Function('edge_before', IntS, C, C, BoolS)
        self.AD = z3.Function('direct_before', IntS, C, C, BoolS)
        p, c, d = z3.Const('qp', P), z3.Const('qc', C), z3.Const('qd', C)
        E.axioms.append(z3.ForAll([p], lnot(self.AP(0, p)), patterns=[self.AP(0, p)]))
        for R in (self.AE, self.AD):
            E.axioms.append(z3.ForAll([c, d], lnot(R(0, c, d)), patterns=[R(0, c, d)]))
        i = z3.Int('qi')
        n, R = self.gs.len, S.poly(self.gs.arr[i], p)
        if proved:      # by the lemmas of `meaning`
            E.axioms.append(z3.ForAll([i, p], z3.Implies(land(i >= 0, i < n, R), self.AP(n, p)), patterns=[R]))
        E.loop_defs.append(self.defs)
        E.providers.append(self.provider)

    def sym(self, R, g, c, d):
        return lor(R(g, c, d), R(g, d, c))

    def level(self, E, L):
        """(depth, outer loops) of the loops over the inputs."""
        return len(E.cur_loops), [O for O in E.cur_loops]

    def defs(self, E, L):
        if E.cur_loops:
            return []
        S = self.S
        k = L.k(L.head)
        g = self.gs.arr[k]
        p, c, d = z3.Const('qp', S.P), z3.Const('qc', S.C), z3.Const('qd', S.C)
        out = [z3.ForAll([p], self.AP(k + 1, p) == lor(self.AP(k, p), S.poly(g, p)), patterns=[self.AP(k + 1, p), self.AP(k, p), S.poly(g, p)])]
        for A, R in ((self.AE, S.edge), (self.AD, S.direct)):
            out.append(z3.ForAll([c, d], A(k + 1, c, d) == lor(A(k, c, d), self.sym(R, g, c, d)), patterns=[A(k + 1, c, d), A(k, c, d)]))
        return out

    def provider(self, E, L):
        S = self.S
        out = []
        depth, outer = self.level(E, L)
        ko = outer[0].k(outer[0].head) if outer else None
        g = self.gs.arr[ko] if outer else None
        p, c, d = z3.Const('qp', S.P), z3.Const('qc', S.C), z3.Const('qd', S.C)
        for n, rp in enumerate(L.values(Map, lambda m: m.vty is None and m.dom.sort().domain() == S.P)):
            dom = lambda s, rp=rp: L.at(rp, s).dom
            if depth == 0:
                out.append((f'polygons of the graphs so far#{n}', lambda s, dom=dom: qall([p], dom(s)[p] == self.AP(L.k(s), p), [dom(s)[p], self.AP(L.k(s), p)])))
            elif depth == 1:
                out.append((f'only polygons of the graphs so far#{n}', lambda s, dom=dom: qall([p], z3.Implies(dom(s)[p], lor(self.AP(ko, p), S.poly(g, p))), [dom(s)[p]])))
                out.append((f'all polygons so far#{n}', lambda s, dom=dom: qall([p], z3.Implies(lor(self.AP(ko, p), land(S.poly(g, p), S.pp(g, p) < L.k(s))), dom(s)[p]), [dom(s)[p], self.AP(ko, p), S.poly(g, p)])))
        for n, rp in enumerate(L.values(Rec, lambda r: r.name == 'Graph' and 'edge' in r.f)):
            for nm, A, R in (('edge', self.AE, S.edge), ('direct', self.AD, S.direct)):
                fld = lambda s, rp=rp, nm=nm: L.at(rp, s).f[nm]
                if depth == 0:
                    out.append((f'{nm}s of the graphs so far#{n}', lambda s, fld=fld, A=A: qall([c, d], fld(s)[c][d] == A(L.k(s), c, d), [fld(s)[c][d], A(L.k(s), c, d)])))
                    continue
                out.append((f'only {nm}s so far#{n}', lambda s, fld=fld, A=A, R=R: qall([c, d], z3.Implies(fld(s)[c][d], lor(A(ko, c, d), self.sym(R, g, c, d))), [fld(s)[c][d]])))

                # the inner loop is over the vertices or over the neighbours of one
                def seen(s, a, b, near):
                    if depth == 1:
                        return S.vp(g, a) < L.k(s)
                    k1 = outer[1].k(outer[1].head)
                    return lor(S.vp(g, a) < k1, land(S.vp(g, a) == k1, (S.npos(g, a, b) if near else S.vp(g, b)) < L.k(s)))
                for near in (False, True)[:depth]:
                    out.append((f'all {nm}s so far#{n}' + ' (neighbours)' * near,
                                lambda s, fld=fld, A=A, R=R, near=near: qall([c, d], z3.Implies(lor(A(ko, c, d), land(R(g, c, d), seen(s, c, d, near)), land(R(g, d, c), seen(s, d, c, near))), fld(s)[c][d]),
                                                                             [fld(s)[c][d], A(ko, c, d)])))
        return out


def merge(E):
    M = Merge(E)
    S, st = M.S, M.st
    outs = run(E, M.f, None, [M.gs], st)
    ensure_no_throw(E, outs, 'merging succeeds')
    n = M.gs.len
    for s, r in returns(outs):
        if not isinstance(r, Ptr):
            raise Unsupported('result of merge_graphs')
        g = E.deref_value(r, s)
        if 'edge' not in g.f:
            raise Unsupported('the merged graph')
        t = g.f['#t']
        p, c, d = z3.Const(E.fname('p'), S.P), z3.Const(E.fname('c'), S.C), z3.Const(E.fname('d'), S.C)
        ensure(E, s, S.poly(t, p) == M.AP(n, p), 'the polygons are those of the inputs')
        b = [x for x in S.builds if x[1].eq(t)]
        v = b[-1][2]
        i, j = z3.Ints(f'{E.fname("i")} {E.fname("j")}')
        ensure(E, s, z3.Implies(land(i >= 0, i < j, j < v.len), v.arr[i] != v.arr[j]), 'no polygon is repeated')
        ensure(E, s, g.f['edge'][c][d] == M.AE(n, c, d), 'two vertices are joined exactly when an input joins them in either direction')
        ensure(E, s, g.f['direct'][c][d] == M.AD(n, c, d), 'an edge is direct exactly when an input has it as direct')
        # vertices: some input has it exactly when the merged graph has it
        k = z3.Int(E.fname('k'))
        s1 = s.clone()
        s1.assume(land(k >= 0, k < n))
        E.vac.append(s)


def meaning(E):
    """The recursive relations are 'some of the first n graphs': induction over n, one lemma per step."""
    M = Merge(E, proved=False)
    S = M.S
    st = M.st
    k, i, n = z3.Ints('k i n')
    p, c, d = z3.Const('p', S.P), z3.Const('c', S.C), z3.Const('d', S.C)
    for nm, A, R, vs in (('polygon', M.AP, lambda g: S.poly(g, p), (p,)), ('edge', M.AE, lambda g: M.sym(S.edge, g, c, d), (c, d)), ('direct', M.AD, lambda g: M.sym(S.direct, g, c, d), (c, d))):
        step = A(k + 1, *vs) == lor(A(k, *vs), R(M.gs.arr[k]))
        some = lambda m: z3.Exists([i], land(i >= 0, i < m, R(M.gs.arr[i])))
        real_lemma(E, f'{nm}: nothing before the first graph', [], lnot(A(0, *vs)))
        real_lemma(E, f'{nm}: one more graph', [k >= 0, step, A(k, *vs) == some(k)], A(k + 1, *vs) == some(k + 1))
    below = lambda m: z3.ForAll([i], z3.Implies(land(i >= 0, i < m, S.poly(M.gs.arr[i], p)), M.AP(m, p)))
    real_lemma(E, 'a polygon of one of no graphs', [], below(z3.IntVal(0)))
    real_lemma(E, 'a polygon of one of the first graphs', [k >= 0, M.AP(k + 1, p) == lor(M.AP(k, p), S.poly(M.gs.arr[k], p)), below(k)], below(k + 1))
    # vertices follow from polygons
    t = z3.Const('t', S.G)
    pp = z3.Const('qp', S.P)
    has = z3.Function('some_input_has', S.P, BoolS)
    q = z3.Const('qq', S.P)
    real_lemma(E, 'every vertex of the merged graph is a vertex of an input', [z3.ForAll([q], S.poly(t, q) == has(q)), S.vert(t, c)], z3.Exists([q], land(has(q), S.pv(q, c))))
    g = z3.Const('g', S.G)
    real_lemma(E, 'every vertex of an input is a vertex of the merged graph', [z3.ForAll([q], z3.Implies(S.poly(g, q), S.poly(t, q)), patterns=[S.poly(g, q)]), S.vert(g, c), lnot(S.vert(t, c))], z3.BoolVal(False))


TARGETS = [Target('merge', merge), Target('union of the inputs', meaning)]

ASSUMES = ["OpenMP executes each iteration of a parallel loop once; that every schedule is equivalent to the sequential one follows from the obligations of kind 'parallel' (own slot only, edges only added, nothing thrown), given that adding edges is locked and order independent (C11, C14)"]

from .pylayer import MERGE  # noqa: E402
PY = [MERGE]

# contracts of the functions called, proved of their bodies
NEEDS = {'c11': ['cells of the matrix', 'add directed edge', 'add edge', 'queries', 'neighbors', 'construct'], 'c19': ['polygons', 'coordinates']}
