"""C12: overlay edits never touch the base graph and override it exactly."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from . import graphspec as gs
from .igraph import Base, IndexOf, distinct
from .c11 import added, removed


class Overlay:
    """An arbitrary overlay over an arbitrary base; fields found by their types."""

    def __init__(self, E, st):
        coord_domain(E)
        E.push_named = True
        self.E = E
        t = rec_ty(E, 'ModifiedGraph')
        self.base = self.map = None
        for f, ft in E.rec_fields(t):
            ft = ft.strip()
            if ft.c == 'rec' and ft.name in ('std::unordered_map', 'std::map') and self.map is None:
                self.map, self.mty = f, ft
            elif ft.c in ('rec', 'ptr') and self.base is None:
                self.base = f
            else:
                raise Unsupported('fields of ModifiedGraph')
        inner = self.mty.args[1].strip()
        if not (inner.c == 'rec' and inner.name in ('std::unordered_map', 'std::map')):
            raise Unsupported('overlay representation')
        self.ity = inner
        self.info = inner.args[1].strip()
        k = {}
        for f, ft in E.rec_fields(self.info) or []:
            k[ft.strip().c] = f
        if set(k) != {'bool', 'enum'}:
            raise Unsupported('overlay entries')
        self.fx, self.fr = k['bool'], k['enum']
        self.present, self.removed = enumv(E, 'EDGE_PRESENT'), enumv(E, 'EDGE_REMOVED')
        self.B = Base(E, st)
        g = E.fresh(t, 'g', st)
        self.loc = E.new_cell(st, g)
        for _, f in self.inv(g, st):
            st.assume(f)

    def m(self, g):
        return g.f[self.map]

    def entry(self, m, a, b):
        """(listed, crossing, relationship) of the override of (a, b)."""
        E = self.E
        sm, si = E.sort_of(self.ity), E.sort_of(self.info)
        inner = m.val[a]
        fs = [f for f, _ in E.rec_fields(self.info)]
        e = E.acc(sm, 1, inner)[b]
        return land(m.dom[a], E.acc(sm, 0, inner)[b]), E.acc(si, fs.index(self.fx), e), E.acc(si, fs.index(self.fr), e)

    def inv(self, g, st):
        m = self.m(g)
        a, b = z3.Consts('qa qb', m.dom.sort().domain())
        listed, x, r = self.entry(m, a, b)
        e = self.E.acc(self.E.sort_of(self.ity), 1, m.val[a])[b]
        d = self.E.acc(self.E.sort_of(self.ity), 0, m.val[a])[b]
        return [('entries', qall([a, b], z3.Implies(listed, lor(land(r == self.present, a != b), land(r == self.removed, lnot(x)))), [e, d]))]

    def edge(self, s, a, b):
        s, h = gs.observe(self.E, s, 'ModifiedGraph::has_edge', self.loc, [a, b], what='an edge query about known vertices answers')
        s, x = gs.observe(self.E, s, 'ModifiedGraph::is_edge_meridian_crossing', self.loc, [a, b], what='a crossing query about known vertices answers')
        return s, h, x

    def vertex(self, s, a):
        return gs.observe(self.E, s, 'ModifiedGraph::has_vertex', self.loc, [a], what='a vertex query answers')

    def same_base(self, s, g0, what):
        g1 = self.E.get(self.loc, s)
        b0, b1 = g0.f[self.base], g1.f[self.base]
        ensure(self.E, s, z3.BoolVal(isinstance(b1, type(b0)) and repr(getattr(b0, 'alts', b0)) == repr(getattr(b1, 'alts', b1))), f'{what}: the overlay keeps its base graph')


def edge_op(fname, spec, nflags, undirected):
    def go(E):
        st = new_state()
        O = Overlay(E, st)
        a, b, c, d = [coord(E, st, k) for k in 'abcd']
        flags = [z3.Bool(E.fname('crossing')) for _ in range(nflags)]
        for k in (a, b):
            st, v = O.vertex(st, k)
            st.assume(v)
        st, kc = O.vertex(st, c)
        st, kd = O.vertex(st, d)
        s0 = st.clone()
        s0.assume(land(kc, kd))
        s0, h0, x0 = O.edge(s0, c, d)
        g0 = E.get(O.loc, st)
        for s, known in ((st, False), (s0, True)):
            outs = run(E, fname, O.loc, [a, b] + flags, s)
            ensure_no_throw(E, outs, f'{fname} on known vertices succeeds')
            for s, _ in returns(outs):
                O.same_base(s, g0, fname)
                if not known:
                    for nm, f in O.inv(E.get(O.loc, s), s):
                        ensure(E, s, f, f'{fname}: representation invariant ({nm})')
                    s, k1 = O.vertex(s, c)
                    ensure(E, s, k1 == kc, f'{fname}: the vertices stay the same')
                    continue
                s, h1, x1 = O.edge(s, c, d)
                named = land(veq(E, c, a, s), veq(E, d, b, s))
                if undirected:
                    named = lor(named, land(veq(E, c, b, s), veq(E, d, a, s)))
                named = land(named, lnot(veq(E, a, b, s)))
                h2, x2 = spec(h0, x0, *flags)
                ensure(E, s, z3.Implies(named, land(h1 == h2, x1 == x2)), f'{fname}: the named edge has the new state')
                ensure(E, s, z3.Implies(lnot(named), land(h1 == h0, x1 == x0)), f'{fname}: every other edge is unchanged')
                ensure(E, s, z3.Implies(veq(E, c, d, s), lnot(h1)), f'{fname}: self edges never exist')
                E.vac.append(s)
    return go


def add_vertex(E):
    st = new_state()
    O = Overlay(E, st)
    a, c, d = [coord(E, st, k) for k in 'acd']
    g0 = E.get(O.loc, st)
    st, kc = O.vertex(st, c)
    st, kd = O.vertex(st, d)
    s0 = st.clone()
    s0.assume(land(kc, kd))
    s0, h0, x0 = O.edge(s0, c, d)
    for s, known in ((st, False), (s0, True)):
        outs = run(E, 'ModifiedGraph::add_vertex', O.loc, [a], s)
        ensure_no_throw(E, outs)
        for s, _ in returns(outs):
            O.same_base(s, g0, 'add_vertex')
            if not known:
                for nm, f in O.inv(E.get(O.loc, s), s):
                    ensure(E, s, f, f'add_vertex: representation invariant ({nm})')
                s, k1 = O.vertex(s, c)
                ensure(E, s, k1 == lor(kc, veq(E, c, a, s)), 'adding a vertex adds that vertex only')
            else:
                s, h1, x1 = O.edge(s, c, d)
                ensure(E, s, land(h1 == h0, x1 == x0), 'adding a vertex keeps every edge')
            E.vac.append(s)


def new_overlay(E):
    st = new_state()
    O = Overlay(E, st)
    cc = E.prog.func('ModifiedGraph::ModifiedGraph', lambda f: len(f['params']) == 1 and 'ptr' in f['params'][0].s)
    g0 = E.get(O.loc, st)
    base = g0.f[O.base]
    O.loc = E.new_cell(st, E.default_rec(rec_ty(E, 'ModifiedGraph'), st))
    a, b = coord(E, st, 'a'), coord(E, st, 'b')
    outs = run(E, cc, O.loc, [base], st)
    ensure_no_throw(E, outs)
    P = lambda c, s: E.pack(c, rec_ty(E, 'Coordinate'), s)
    for s, _ in returns(outs):
        O.same_base(s, g0, 'constructor')
        for nm, f in O.inv(E.get(O.loc, s), s):
            ensure(E, s, f, f'constructor: representation invariant ({nm})')
        s, k = O.vertex(s, a)
        ensure(E, s, k == O.B.V(P(a, s)), 'a new overlay has the vertices of the base')
        s2, k2 = O.vertex(s, b)
        s2.assume(land(k, k2))
        s2, h, x = O.edge(s2, a, b)
        ensure(E, s2, land(h == O.B.Ed(P(a, s2), P(b, s2)), x == O.B.X(P(a, s2), P(b, s2))), 'a new overlay has the edges of the base')
        E.vac.append(s2)


def listing(E, O, want, name):
    """Invariant of a loop over the overlay: the list holds exactly the wanted positions, each once."""
    def prov(E, L):
        out = []
        for n, rp in enumerate(L.values(Vec)):
            if L.at(rp, L.entry).arr.sort().range() != O.B.cs:
                continue
            c = z3.Const('qc', O.B.cs)

            def ix(s):
                if L.rng is None:
                    return None
                for g in L.entry.ghost.values():
                    if isinstance(g, tuple) and len(g) == 3 and isinstance(g[0], Vec) and g[0].arr.eq(L.rng.arr):
                        return g
                return None

            def members(s, rp=rp):
                g = ix(s)
                if g is None:
                    return None
                v = E.flat(L.at(rp, s), s)
                w, pats = want(c, lambda x: land(g[2][x], g[1][x] < L.k(s)))
                return qall([c], O.B.M.mem(v, c) == w, pats(g[2], c) + [O.B.M.mem(v, c)])

            out += [(f'{name} members#{n}', members), (f'{name} distinct#{n}', lambda s, rp=rp: distinct(E.flat(L.at(rp, s), s)))]
        return out
    return prov


def neighbors(E):
    st = new_state()
    O = Overlay(E, st)
    a, b = coord(E, st, 'a'), coord(E, st, 'b')
    m = O.m(E.get(O.loc, st))
    pa, pb = [E.pack(k, rec_ty(E, 'Coordinate'), st) for k in (a, b)]
    # every override names known vertices is not needed: a listed target counts as one
    st, ka = O.vertex(st, a)
    st.assume(ka)

    def want(c, done):
        _, _, r = O.entry(m, pa, c)
        return z3.If(done(c), r == O.present, O.B.Ed(pa, c)), lambda dom, c: [O.B.Ed(pa, c), dom[c]]
    E.providers.append(listing(E, O, want, 'neighbours'))
    outs = run(E, 'ModifiedGraph::get_neighbors', O.loc, [a], st)
    ensure_no_throw(E, outs, 'neighbours of a known vertex')
    for s, v in returns(outs):
        v = E.flat(v, s)
        s1 = s.clone()
        i = z3.Int(E.fname('i'))
        s1.assume(land(i >= 0, i < v.len))
        c = E.vec_get(v, i, s1)
        lemma(E, s1, O.B.M.mem(v, v.arr[i]), 'a listed position is listed')
        s1, h, _ = O.edge(s1, a, c)
        ensure(E, s1, h, 'every neighbour is the target of an edge')
        ensure(E, s, distinct(v), 'every neighbour is listed once')
        s, h, _ = O.edge(s, a, b)
        ensure(E, s, z3.Implies(h, O.B.M.mem(v, pb)), 'every target of an edge is a neighbour')
        E.vac.append(s)


def vertices(E):
    st = new_state()
    O = Overlay(E, st)
    b = coord(E, st, 'b')
    m = O.m(E.get(O.loc, st))
    pb = E.pack(b, rec_ty(E, 'Coordinate'), st)
    E.providers.append(listing(E, O, lambda c, done: (lor(O.B.V(c), done(c)), lambda dom, c: [O.B.V(c), dom[c]]), 'vertices'))
    st, kb = O.vertex(st, b)
    outs = run(E, 'ModifiedGraph::get_vertices', O.loc, [], st)
    ensure_no_throw(E, outs, 'the list of vertices')
    for s, v in returns(outs):
        v = E.flat(v, s)
        ensure(E, s, distinct(v), 'every vertex is listed once')
        ensure(E, s, O.B.M.mem(v, pb) == kb, 'exactly the vertices are listed')
        s1 = s.clone()
        i = z3.Int(E.fname('i'))
        s1.assume(land(i >= 0, i < v.len))
        lemma(E, s1, O.B.M.mem(v, v.arr[i]), 'a listed position is listed')
        s1, k = O.vertex(s1, E.vec_get(v, i, s1))
        ensure(E, s1, k, 'every listed vertex is a vertex')
        E.vac.append(s)
    outs = run(E, 'ModifiedGraph::get_polygons', O.loc, [], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, z3.BoolVal(O.B.polys is not None and v.arr.eq(O.B.polys.arr) and v.len.eq(O.B.polys.len)), 'the polygons are those of the base')


TARGETS = [Target('overlay: add directed edge', edge_op('ModifiedGraph::add_directed_edge', added, 1, False)),
           Target('overlay: remove directed edge', edge_op('ModifiedGraph::remove_directed_edge', removed, 0, False)),
           Target('overlay: add edge', edge_op('ModifiedGraph::add_edge', added, 1, True)),
           Target('overlay: remove edge', edge_op('ModifiedGraph::remove_edge', removed, 0, True)),
           Target('overlay: add vertex', add_vertex), Target('overlay: new', new_overlay),
           Target('overlay: neighbors', neighbors), Target('overlay: vertices', vertices)]
