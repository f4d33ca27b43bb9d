"""C11: the graph behaves as a set of flagged directed edges."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from . import graphspec as gs


def start(E):
    gs.setup(E)
    st = new_state()
    loc = gs.fresh_graph(E, st)
    return st, loc


def same_coord(E, a, b, s):
    return veq(E, a, b, s)


def edge_op(fname, spec, nflags, undirected):
    """spec(named, h, x, flag) -> (h', x') for a named pair."""
    def go(E):
        st, loc = start(E)
        a, b, c, d = [coord(E, st, k) for k in 'abcd']
        flags = [z3.Bool(E.fname('crossing')) for _ in range(nflags)]
        for s, _ in returns(run(E, fname, loc, [a, b] + flags, st)):
            gs.ensure_inv(E, s, loc, fname)
        # what every pair answered before
        st = gs.known(E, st, loc, c, d)
        st, h0, x0 = gs.edge(E, st, loc, c, d)
        st, ka = gs.observe(E, st, 'Graph::has_vertex', loc, [a])
        st, kb = gs.observe(E, st, 'Graph::has_vertex', loc, [b])
        g0 = E.get(loc, st)
        outs = run(E, fname, loc, [a, b] + flags, st)
        ab = veq(E, a, b, st)
        for s, x in throws(outs):
            ensure(E, s, lnot(land(ka, kb)), f'{fname}: an error is raised only for an unknown vertex')
            for nm in ('cells', 'n', 'verts', 'index'):
                r = E.graph_roles[nm]
                u, v = E.get(loc, s).f[r], g0.f[r]
                same = (u.arr.eq(v.arr) and u.len.eq(v.len)) if isinstance(u, Vec) else (u.dom.eq(v.dom) and u.val.eq(v.val)) if isinstance(u, Map) else u.eq(v)
                ensure(E, s, z3.BoolVal(bool(same)) if same else z3.BoolVal(False), f'{fname}: a failed operation changes nothing')
        for s, _ in returns(outs):
            ensure(E, s, lor(ab, land(ka, kb)), f'{fname}: unknown vertices raise an error')
            s, vc = gs.observe(E, s, 'Graph::has_vertex', loc, [c])
            ensure(E, s, vc, f'{fname}: vertices stay')
            s, h1, x1 = gs.edge(E, s, loc, c, d)
            named = land(veq(E, c, a, s), veq(E, d, b, s))
            if undirected:
                named = lor(named, land(veq(E, c, b, s), veq(E, d, a, s)))
            named = land(named, lnot(ab))
            h2, x2 = spec(h0, x0, *flags)
            ensure(E, s, z3.Implies(named, land(h1 == h2, x1 == x2)), f'{fname}: the named edge has the new state')
            ensure(E, s, z3.Implies(lnot(named), land(h1 == h0, x1 == x0)), f'{fname}: every other edge is unchanged')
            ensure(E, s, z3.Implies(veq(E, c, d, s), lnot(h1)), f'{fname}: self edges never exist')
            ensure(E, s, z3.Implies(x1, h1), f'{fname}: a crossing edge is an edge')
            E.vac.append(s)
    return go


def added(h, x, crossing):
    return z3.BoolVal(True), land(crossing, lor(lnot(h), x))


def removed(h, x):
    return z3.BoolVal(False), z3.BoolVal(False)


def queries(E):
    st, loc = start(E)
    a, b = coord(E, st, 'a'), coord(E, st, 'b')
    st, ka = gs.observe(E, st, 'Graph::has_vertex', loc, [a])
    st, kb = gs.observe(E, st, 'Graph::has_vertex', loc, [b])
    ab = veq(E, a, b, st)
    for f in ('has_edge', 'is_edge_meridian_crossing'):
        outs = run(E, 'Graph::' + f, loc, [a, b], st)
        for s, v in returns(outs):
            ensure(E, s, lor(ab, land(ka, kb)), f'{f}: unknown vertices raise an error')
        for s, v in throws(outs):
            ensure(E, s, lnot(land(ka, kb)), f'{f}: an error is raised only for an unknown vertex')
    outs = run(E, 'Graph::get_vertices', loc, [], st)
    ensure_no_throw(E, outs)
    V = gs.View(E, E.get(loc, st))
    for s, v in returns(outs):
        i = z3.Int(E.fname('i'))
        s1 = s.clone()
        s1.assume(land(i >= 0, i < v.len))
        s2, k = gs.observe(E, s1, 'Graph::has_vertex', loc, [E.vec_get(v, i, s1)])
        ensure(E, s2, k, 'every listed vertex is a vertex')
        # a vertex is listed at the position its index names
        at = V.index.val[E.pack(a, V.index.kty, s)]
        u, w = lonlat(E, E.vec_get(v, at, s), s)
        x, y = lonlat(E, a, s)
        ensure(E, s, z3.Implies(ka, land(at >= 0, at < v.len, u == x, w == y)), 'every vertex is listed')
        E.vac.append(s)


def neighbors(E):
    st, loc = start(E)
    a, b = coord(E, st, 'a'), coord(E, st, 'b')
    outs = run(E, 'Graph::get_neighbors', loc, [a], st)
    V = gs.View(E, E.get(loc, st))
    cell = gs.layout(E, st, loc)
    st1 = gs.known(E, st, loc, a, b)
    ia, ib = [V.index.val[E.pack(c, V.index.kty, st1)] for c in (a, b)]
    none = gs.valid_states(E, V.cells.ety)[0]
    F = Filter(E, st1, 'targets', lambda t: V.cells.arr[cell(ia, t)] != none, lambda t: V.verts.arr[t], E.sort_of(rec_ty(E, 'Coordinate')))
    st1, h = gs.observe(E, st1, 'Graph::has_edge', loc, [a, b])
    outs = run(E, 'Graph::get_neighbors', loc, [a], st1)
    ensure_no_throw(E, outs, 'neighbours of a known vertex')
    for s, v in returns(outs):
        m, m2 = z3.Int(E.fname('m')), z3.Int(E.fname('m'))
        s1 = s.clone()
        s1.assume(land(m >= 0, m < v.len))
        c = E.vec_get(v, m, s1)
        s2, k = gs.observe(E, s1, 'Graph::has_vertex', loc, [c])
        lemma(E, s2, k, 'every neighbour is a vertex')
        s2, e = gs.observe(E, s2, 'Graph::has_edge', loc, [a, c])
        ensure(E, s2, e, 'every neighbour is the target of an edge')
        s1.assume(land(m2 >= 0, m2 < v.len, m != m2))
        ensure(E, s1, lnot(veq(E, c, E.vec_get(v, m2, s1), s1)), 'every neighbour is listed once')
        r = F.rank(ib)
        ensure(E, s, z3.Implies(h, land(r >= 0, r < v.len, veq(E, E.vec_get(v, r, s), b, s))), 'every target of an edge is a neighbour')
        E.vac.append(s)
    s0 = st.clone()
    s0, ka = gs.observe(E, s0, 'Graph::has_vertex', loc, [a])
    s0.assume(lnot(ka))
    for s, v in returns(run(E, 'Graph::get_neighbors', loc, [a], s0)):
        ensure(E, s, z3.BoolVal(False), 'neighbours of an unknown vertex raise an error')


def copied_cells(E, old, oldn, cell):
    """Invariants of the loops that move the matrix: rows (or columns) done so far are copied, the rest is empty."""
    def prov(E, L):
        out = []
        n1 = oldn + 1
        for c, rp in enumerate(L.values(Vec, lambda v: v.ety.strip().c == 'enum')):
            p = z3.Int('qp')
            gi, gj = gs.GI(n1, p), gs.GJ(n1, p)
            for tr in (False, True):
                if tr and (E.loop_name(L.node), f'@copied#{c}') not in E.dead_cands:
                    continue
                u, v = (gj, gi) if tr else (gi, gj)

                def f(s, rp=rp, u=u, v=v):
                    a = E.flat(L.at(rp, s), s).arr
                    if E.cur_loops:
                        ko = E.cur_loops[-1].k(E.cur_loops[-1].head)
                        done = lor(land(u < ko, v < oldn), land(u == ko, v < L.k(s)))
                    else:
                        done = land(u < L.k(s), v < oldn)
                    return z3.ForAll([p], z3.Implies(land(p >= 0, p < n1 * n1), a[p] == z3.If(done, old[gs.GL(oldn, gi, gj)], I(0))), patterns=[a[p]])
                out.append((f'copied#{c}{"t" if tr else ""}', f))
        return out
    return prov


def add_vertex(E):
    st, loc = start(E)
    a, c, d = [coord(E, st, k) for k in 'acd']
    V = gs.View(E, E.get(loc, st))
    E.providers.append(copied_cells(E, V.cells.arr, V.n, None))
    st.assume(V.n < gs.NMAX)
    st0 = st
    outs = run(E, 'Graph::add_vertex', loc, [a], st)
    ensure_no_throw(E, outs)
    for s, _ in returns(outs):
        E.vac.append(s)
        gs.ensure_inv(E, s.clone(), loc, 'add_vertex')
        # the queries of the old graph, asked on a copy of it
        old = E.new_cell(s, E.get(loc, st0))
        s, ka = gs.observe(E, s, 'Graph::has_vertex', old, [a])
        s, kc = gs.observe(E, s, 'Graph::has_vertex', old, [c])
        s, kd = gs.observe(E, s, 'Graph::has_vertex', old, [d])
        s, k1 = gs.observe(E, s, 'Graph::has_vertex', loc, [c])
        ensure(E, s, k1 == lor(kc, veq(E, c, a, s)), 'adding a vertex adds that vertex only')
        s2 = s.clone()
        s2.assume(land(kc, kd))
        s2, h0, x0 = gs.edge(E, s2, old, c, d)
        s2, h1, x1 = gs.edge(E, s2, loc, c, d)
        ensure(E, s2, land(h1 == h0, x1 == x0), 'adding a vertex keeps every edge')
        s.assume(land(lnot(ka), kc))
        for u, v in ((a, c), (c, a)):
            s2, h1, x1 = gs.edge(E, s.clone(), loc, u, v)
            ensure(E, s2, lnot(h1), 'an added vertex has no edges')


def poly_elems(E, polys, st):
    """inner(p), elem(p, q) of a vector of polygons: their vertices, by the real get_vertices."""
    pt = polys.ety

    def verts(p):
        q = State()
        v = E.call_pure('Polygon::get_vertices', E.unpack(polys.arr[p], pt, q), [], q)
        return v
    return (lambda p: verts(p).len), (lambda p, q: verts(p).arr[q])


def indexed(E):
    """Invariants of the loop that fills the index."""
    def prov(E, L):
        out = []
        for c, rp in enumerate(L.values(Map, lambda m: m.vty is not None)):
            for d, (nm, loc) in enumerate([(rp[0], None)]):
                me = L.at(rp, L.entry)
                vecs = [v for k, v in L.entry.env.items() if isinstance(v, Vec) and v.arr.sort().range() == me.dom.sort().domain()]
                for r in L.entry.env.values():
                    if isinstance(r, Rec):
                        vecs += [v for v in r.f.values() if isinstance(v, Vec) and v.arr.sort().range() == me.dom.sort().domain()]
                for j, v in enumerate({(v.arr.get_id(), v.len.get_id()): v for v in vecs}.values()):
                    i = z3.Int('qi')
                    x = z3.Const('qc', me.dom.sort().domain())
                    out.append((f'listed#{c}.{j}', lambda s, rp=rp, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), L.at(rp, s).dom[v.arr[i]]), patterns=[v.arr[i]])))

                    def back(s, rp=rp, v=v):
                        m = L.at(rp, s)
                        return z3.ForAll([x], z3.Implies(m.dom[x], land(m.val[x] >= 0, m.val[x] < L.k(s), v.arr[m.val[x]] == x)), patterns=[m.dom[x]])
                    out.append((f'back#{c}.{j}', back))
        return out
    return prov


def construct(E):
    gs.setup(E)
    f = E.prog.func('Graph::Graph', lambda f: len(f['params']) == 1 and not f.get('implicit') and 'Polygon' in f['params'][0].s)
    st = new_state()
    polys = E.fresh(f['params'][0].strip(), 'polygons', st)
    inner, elem = poly_elems(E, polys, st)
    ps = E.sort_of(polys.ety)
    F = Flatten(E, st, 'vertices', inner, elem, E.sort_of(rec_ty(E, 'Coordinate')), lambda L: L.rng is not None and L.rng.arr.sort().range() == ps)
    E.providers.append(indexed(E))
    st.assume(F.off(polys.len) <= gs.NMAX)
    loc = E.new_cell(st, E.default_rec(rec_ty(E, 'Graph'), st))
    outs = run(E, f, loc, [polys], st)
    ensure_no_throw(E, outs)
    for s, _ in returns(outs):
        E.vac.append(s)
        V = gs.View(E, E.get(loc, s))
        gs.add_dim(E, V.n)
        gs.ensure_inv(E, s.clone(), loc, 'constructor')
        a, b = coord(E, s, 'a'), coord(E, s, 'b')
        p, q = z3.Int(E.fname('p')), z3.Int(E.fname('q'))
        s1 = s.clone()
        s1.assume(land(p >= 0, p < polys.len, q >= 0, q < inner(p)))
        s1, k = gs.observe(E, s1, 'Graph::has_vertex', loc, [E.unpack(elem(p, q), rec_ty(E, 'Coordinate'), s1)])
        ensure(E, s1, k, 'every vertex of a polygon is a vertex')
        for s1, r in returns(run(E, 'Graph::get_vertices', loc, [], s1)):
            ensure(E, s1, r.len == F.off(polys.len), 'as many vertices as the polygons have together')
            ensure(E, s1, E.flat(r, s1).arr[F.off(p) + q] == elem(p, q), 'the vertices of the polygons are listed one polygon after the other')
        s2, k = gs.observe(E, s.clone(), 'Graph::has_vertex', loc, [a])
        s2.assume(k)
        i = V.index.val[E.pack(a, V.index.kty, s2)]
        wp, wq = F.wp(i), F.wq(i)
        ensure(E, s2, land(wp >= 0, wp < polys.len, wq >= 0, wq < inner(wp), elem(wp, wq) == E.pack(a, V.index.kty, s2)), 'every vertex is a vertex of a polygon')
        s3 = gs.known(E, s.clone(), loc, a, b)
        s3, h, x = gs.edge(E, s3, loc, a, b)
        ensure(E, s3, land(lnot(h), lnot(x)), 'a new graph has no edges')
        s4 = s.clone()
        for s4, r in returns(run(E, 'Graph::get_polygons', loc, [], s4)):
            ensure(E, s4, land(r.len == polys.len, forall_same(r, polys)), 'a graph keeps its polygons')
    st = new_state()
    f = E.prog.func('Graph::Graph', lambda f: len(f['params']) == 0)
    loc = E.new_cell(st, E.default_rec(rec_ty(E, 'Graph'), st))
    outs = run(E, f, loc, [], st)
    for s, _ in returns(outs):
        gs.ensure_inv(E, s.clone(), loc, 'default constructor')
        a = coord(E, s, 'a')
        s, k = gs.observe(E, s, 'Graph::has_vertex', loc, [a])
        ensure(E, s, lnot(k), 'a default graph has no vertices')


def forall_same(u, v):
    if u.arr.eq(v.arr):
        return z3.BoolVal(True)
    i = z3.Int('qi')
    return z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), u.arr[i] == v.arr[i]), patterns=[u.arr[i], v.arr[i]])


TARGETS = [Target('cells of the matrix', gs.cell_lemmas),
           Target('add directed edge', edge_op('Graph::add_directed_edge', added, 1, False)),
           Target('remove directed edge', edge_op('Graph::remove_directed_edge', removed, 0, False)),
           Target('add edge', edge_op('Graph::add_edge', added, 1, True)),
           Target('remove edge', edge_op('Graph::remove_edge', removed, 0, True)),
           Target('queries', queries),
           Target('neighbors', neighbors),
           Target('add vertex', add_vertex), Target('construct', construct)]
