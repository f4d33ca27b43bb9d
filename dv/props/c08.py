"""C08: end points on land.  The index of the obstacles, visibility and the graph searched are known by contracts only."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


class World:
    """An arbitrary graph, index and visibility; ModifiedGraph by the contract C12 proves."""

    def __init__(self, E):
        self.E = E
        for n in ('Coordinate', 'LineSegment', 'SpatialSegmentIndex', 'VistreeGenerator', 'IGraph', 'ModifiedGraph', 'Polygon'):
            E.opaque_recs[n] = z3.DeclareSort(n + '#')
        self.C, self.LS, self.IX, self.VT, self.G = C, LS, IX, VT, G = [E.opaque_recs[n] for n in ('Coordinate', 'LineSegment', 'SpatialSegmentIndex', 'VistreeGenerator', 'IGraph')]
        F = lambda n, *s: z3.Function(n, *s)
        self.inside, self.closest = F('on_land', IX, C, BoolS), F('closest_edge', IX, C, LS)
        self.proj, self.side = F('projection', LS, C, C), F('side', LS, C, IntS)
        self.norm = F('normalised', C, C)
        self.vert, self.edge, self.cross = F('vertex', G, C, BoolS), F('edge', G, C, C, BoolS), F('crossing', G, C, C, BoolS)
        # what is visible: a list, its members, and where a member is listed (as direct)
        self.vsort = E.sort_of(rec_ty(E, 'VisibleVertex'))
        fs = E.rec_fields(rec_ty(E, 'VisibleVertex'))
        self.vi = [i for i, (n, t) in enumerate(fs) if t.strip().name == 'Coordinate'][0]
        self.vb = [i for i, (n, t) in enumerate(fs) if t.strip().c == 'bool'][0]
        if len(fs) != 2:
            raise Unsupported('VisibleVertex')
        self.vn, self.va = F('visible.len', VT, C, IntS), F('visible.list', VT, C, z3.ArraySort(IntS, self.vsort))
        self.vis, self.visd = F('sees', VT, C, C, BoolS), F('sees_directly', VT, C, C, BoolS)
        self.at, self.atd = F('seen_at', VT, C, C, IntS), F('seen_directly_at', VT, C, C, IntS)
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        t, c, d, i = z3.Const('qt', VT), z3.Const('qc', C), z3.Const('qd', C), z3.Int('qi')
        el = lambda j: self.va(t, c)[j]
        crd, flg = (lambda x: self.vsort.accessor(0, self.vi)(x)), (lambda x: self.vsort.accessor(0, self.vb)(x))
        self.crd, self.flg = crd, flg
        A([t, c, d], z3.Implies(self.vis(t, c, d), land(self.at(t, c, d) >= 0, self.at(t, c, d) < self.vn(t, c), crd(el(self.at(t, c, d))) == d)), self.vis(t, c, d))
        A([t, c, d], z3.Implies(self.visd(t, c, d), land(self.atd(t, c, d) >= 0, self.atd(t, c, d) < self.vn(t, c), crd(el(self.atd(t, c, d))) == d, lnot(flg(el(self.atd(t, c, d)))))), self.visd(t, c, d))
        A([t, c, i], z3.Implies(land(i >= 0, i < self.vn(t, c)), land(self.vis(t, c, crd(el(i))), lor(flg(el(i)), self.visd(t, c, crd(el(i)))))), el(i))
        A([t, c, d], z3.Implies(self.visd(t, c, d), self.vis(t, c, d)), self.visd(t, c, d))
        g = z3.Const('qg', G)
        A([g, c, d], z3.Implies(self.edge(g, c, d), land(self.vert(g, c), self.vert(g, d), c != d)), self.edge(g, c, d))
        A([g, c, d], z3.Implies(self.cross(g, c, d), self.edge(g, c, d)), self.cross(g, c, d))
        ct = E.contracts
        t1 = self.term
        ct['SpatialSegmentIndex::is_point_contained'] = lambda E, st, this, a, fn: self.inside(t1(this, st), t1(a[0], st))
        ct['SpatialSegmentIndex::closest_segment_to_point'] = lambda E, st, this, a, fn: self.rec('LineSegment', self.closest(t1(this, st), t1(a[0], st)))
        ct['LineSegment::project'] = self.project
        ct['LineSegment::orientation_of_point_to_segment'] = self.orientation
        ct['VistreeGenerator::get_visible_vertices'] = self.visible
        for n in ('Coordinate', 'LineSegment'):
            ct[n + '::operator=='] = lambda E, st, this, a, fn: t1(this, st) == t1(a[0], st)
            ct[n + '::operator!='] = lambda E, st, this, a, fn: t1(this, st) != t1(a[0], st)
        ct['Coordinate::to_string_representation'] = lambda E, st, this, a, fn: Opaque(E.fname('text'))
        ct['coordinate_from_periodic_coordinate'] = lambda E, st, this, a, fn: self.rec('Coordinate', self.norm(t1(a[0], st)))
        for k in ('IGraph', 'ModifiedGraph'):
            ct[k + '::has_vertex'] = self.guard(k, lambda E, st, this, a, fn: self.rel(this, st)[0](t1(a[0], st)))
            ct[k + '::has_edge'] = self.guard(k, lambda E, st, this, a, fn: self.pair(this, st, a, 1))
            ct[k + '::is_edge_meridian_crossing'] = self.guard(k, lambda E, st, this, a, fn: self.pair(this, st, a, 2))
            ct[k + '::get_neighbors'] = self.guard(k, lambda E, st, this, a, fn: self.neighbors(this, st, a))
            ct[k + '::add_vertex'] = self.guard(k, lambda E, st, this, a, fn: self.add_vertex(this, st, a))
            ct[k + '::add_edge'] = self.guard(k, lambda E, st, this, a, fn: self.add_edge(this, st, a, True))
            ct[k + '::add_directed_edge'] = self.guard(k, lambda E, st, this, a, fn: self.add_edge(this, st, a, False))
            for m in ('remove_edge', 'remove_directed_edge'):
                ct[k + '::' + m] = self.no(m)
        ct['ModifiedGraph::ModifiedGraph'] = self.modified

    def rec(self, n, t):
        return Rec(n, {'#t': t}, rec_ty(self.E, n))

    def term(self, a, st):
        E = self.E
        v = E.get(a.loc if isinstance(a, Ref) else a, st) if isinstance(a, (Ref, Loc)) else a
        return v.f['#t']

    def value(self, a, st):
        return self.E.get(a.loc, st) if isinstance(a, Ref) else a

    def guard(self, k, f):
        def g(E, st, this, a, fn):
            v = E.get(this, st)
            if not isinstance(v, Rec) or v.name not in ('IGraph', 'ModifiedGraph'):
                raise Unsupported('graph behind the interface')
            return f(E, st, this, a, fn)
        return g

    def no(self, m):
        def f(E, st, this, a, fn):
            raise Unsupported(f'{m} in a search')
        return f

    def rel(self, this, st):
        v = self.E.get(this, st) if not isinstance(this, Rec) else this
        if v.name == 'IGraph':
            g = v.f['#t']
            return (lambda c: self.vert(g, c), lambda c, d: self.edge(g, c, d), lambda c, d: self.cross(g, c, d))
        return (lambda c: v.f['vert'][c], lambda c, d: v.f['edge'][c][d], lambda c, d: land(v.f['edge'][c][d], lnot(v.f['direct'][c][d])))

    def pair(self, this, st, a, i):
        E = self.E
        r = self.rel(this, st)
        x, y = [self.term(z, st) for z in a]
        if E.get(this, st).name == 'IGraph':
            E.throw_if(st, land(x != y, lnot(land(r[0](x), r[0](y)))), Opaque('std::runtime_error'))
        return r[i](x, y)

    def neighbors(self, this, st, a):
        raise Unsupported('neighbours')

    def project(self, E, st, this, a, fn):
        if len(a) > 1:
            node = E.cur_call_args if hasattr(E, 'cur_call_args') else None
        return self.rec('Coordinate', self.proj(self.term(this, st), self.term(a[0], st)))

    def orientation(self, E, st, this, a, fn):
        r = self.side(self.term(this, st), self.term(a[0], st))
        E.note_range(r, E.trange(fn['ret'].strip()), st)
        return r

    def visible(self, E, st, this, a, fn):
        half = a[1] if len(a) > 1 else z3.BoolVal(False)
        half = self.value(half, st)
        ensure(E, st, lnot(half), 'all directions are scanned from an end point')
        t, c = self.term(this, st), self.term(a[0], st)
        st.assume(land(self.vn(t, c) >= 0, self.vn(t, c) <= 1 << 20))
        return Vec(self.vn(t, c), self.va(t, c), rec_ty(E, 'VisibleVertex'))

    def modified(self, E, st, this, a, fn):
        v = self.value(a[0], st)
        if not isinstance(v, Ptr):
            return NotImplemented
        g = E.deref_value(v, st)
        if g.name != 'IGraph':
            raise Unsupported('base of the modified graph')
        C = self.C
        V = z3.Const(E.fname('vert'), z3.ArraySort(C, BoolS))
        Ed, D = [z3.Const(E.fname(n), z3.ArraySort(C, z3.ArraySort(C, BoolS))) for n in ('edge', 'direct')]
        c, d = z3.Const('qc', C), z3.Const('qd', C)
        t = g.f['#t']
        st.assume(qall([c], V[c] == self.vert(t, c), [V[c], self.vert(t, c)]))
        st.assume(qall([c, d], Ed[c][d] == self.edge(t, c, d), [Ed[c][d], self.edge(t, c, d)]))
        st.assume(qall([c, d], D[c][d] == land(self.edge(t, c, d), lnot(self.cross(t, c, d))), [D[c][d], self.edge(t, c, d)]))
        return Rec('ModifiedGraph', {'#t': z3.Const(E.fname('modified'), E.opaque_recs['ModifiedGraph']), 'vert': V, 'edge': Ed, 'direct': D}, rec_ty(E, 'ModifiedGraph'))

    def mutable(self, this, st, what):
        E = self.E
        g = E.get(this, st)
        if g.name == 'IGraph':
            E.oblige(st, z3.BoolVal(False), 'frame', f'the graph searched is not changed ({what})', E.cur_line, assume=False)
            return None
        return g

    def add_vertex(self, this, st, a):
        E = self.E
        g = self.mutable(this, st, 'add_vertex')
        if g is None:
            return VOID
        V = z3.Const(E.fname('vert'), g.f['vert'].sort())
        c, x = z3.Const('qc', self.C), self.term(a[0], st)
        st.assume(qall([c], V[c] == lor(g.f['vert'][c], c == x), [V[c], g.f['vert'][c]]))
        E.set(this, Rec('ModifiedGraph', dict(g.f, vert=V), g.ty), st)
        return VOID

    def add_edge(self, this, st, a, both):
        E = self.E
        g = self.mutable(this, st, 'add_edge')
        if g is None:
            return VOID
        x, y = self.term(a[0], st), self.term(a[1], st)
        cr = self.value(a[2], st)
        f = dict(g.f)
        c, d = z3.Const('qc', self.C), z3.Const('qd', self.C)
        named = land(c == x, d == y)
        if both:
            named = lor(named, land(c == y, d == x))
        named = land(named, x != y)
        new = {}
        for k, h in (('edge', named), ('direct', land(named, lnot(cr)))):
            n = z3.Const(E.fname(k), f[k].sort())
            st.assume(qall([c, d], n[c][d] == lor(f[k][c][d], h), [n[c][d], f[k][c][d]]))
            new[k] = n
        V = z3.Const(E.fname('vert'), f['vert'].sort())
        st.assume(qall([c], V[c] == lor(f['vert'][c], land(x != y, lor(c == x, land(z3.BoolVal(both), c == y)))), [V[c], f['vert'][c]]))
        new['vert'] = V
        E.set(this, Rec('ModifiedGraph', dict(f, **new), g.ty), st)
        return VOID

    # -------------------------------------------------- the computer and its corrections
    def computer(self, st):
        E = self.E
        this = E.fresh(rec_ty(E, 'ShortestPathComputer'), 'computer', st)
        got = {}
        for n, v in this.f.items():
            if isinstance(v, Rec) and v.name in ('SpatialSegmentIndex', 'VistreeGenerator'):
                got[v.name] = v.f['#t']
            if isinstance(v, Ptr):
                g = E.deref_value(v, st)
                if g.name == 'IGraph':
                    got['IGraph'] = g.f['#t']
                    got['ptr'] = v
        if len(got) != 4 or len(this.f) != 3:
            raise Unsupported('fields of ShortestPathComputer')
        self.idx, self.tree, self.g, self.gptr = got['SpatialSegmentIndex'], got['VistreeGenerator'], got['IGraph'], got['ptr']
        return this

    def correction(self, r):
        """(source, destination, source edge, destination edge) of a LandCollisionCorrection"""
        def pick(cls, w):
            fs = [v for n, v in r.f.items() if w in n and isinstance(v, cls)]
            if len(fs) != 1:
                raise Unsupported('fields of the land correction')
            return fs[0]
        return pick(Rec, 'source').f['#t'], pick(Rec, 'dest').f['#t'], pick(Opt, 'source'), pick(Opt, 'dest')

    def corrected(self, c):
        i = self.inside(self.idx, c)
        e = self.closest(self.idx, c)
        return i, e, z3.If(i, self.proj(e, c), c)


def land_collisions(E):
    W = World(E)
    st = new_state()
    this = W.computer(st)
    f = E.prog.func('ShortestPathComputer::handle_land_collisions')
    s, d, corr = [E.fresh(p.strip(), n, st) for p, n in zip(f['params'], ('source', 'destination', 'correct'))]
    si, se, sc = W.corrected(s.f['#t'])
    di, de, dc = W.corrected(d.f['#t'])
    outs = run(E, f, this, [s, d, corr], st)
    for x, v in throws(outs):
        ensure(E, x, land(lnot(corr), lor(si, di)), 'a request fails here only when correction is off and an end point is on land')
    for x, r in returns(outs):
        ensure(E, x, lor(corr, lnot(lor(si, di))), 'with correction off, no request with an end point on land passes')
        a, b, ea, eb = W.correction(r)
        for n, i, e, c, got, edge in (('source', si, se, sc, a, ea), ('destination', di, de, dc, b, eb)):
            ensure(E, x, z3.Implies(lnot(i), got == {'source': s, 'destination': d}[n].f['#t']), f'a {n} off land is kept')
            ensure(E, x, z3.Implies(i, got == c), f'a {n} on land becomes its projection on the closest edge')
            ensure(E, x, edge.has == i, f'the {n} has a shore edge exactly when it was on land')
            ensure(E, x, z3.Implies(i, edge.val.f['#t'] == e), f'the shore edge of the {n} is the edge it was projected on')
        E.vac.append(x)


def modified_graph(E):
    W = World(E)
    st = new_state()
    this = W.computer(st)
    f = E.prog.func('ShortestPathComputer::create_modified_graph')
    r0 = E.fresh(f['params'][0].strip(), 'correction', st)
    s, d, es, ed = W.correction(r0)
    ccw = enumv(E, 'COUNTER_CLOCKWISE')
    C = W.C

    def ok(edge, w):
        return lor(lnot(edge.has), W.side(edge.val.f['#t'], w) != ccw)

    def joins(v, edge, R, a, b):
        """an end point not in the graph is joined to what it sees"""
        one = lambda x, y: land(x == v, R(W.tree, v, y), ok(edge, y), x != y)
        return land(lnot(W.vert(W.g, v)), lor(one(a, b), one(b, a)))
    c, e = z3.Const('qc', C), z3.Const('qd', C)

    times = [0]

    def provider(E, L):
        out = []
        times[0] += 1       # the loop over the end points is unrolled: each has a loop of its own
        for n, rp in enumerate(L.values(Rec, lambda r: r.name == 'ModifiedGraph')):
            n = f'{n}.{times[0]}'
            for k, R, at in (('edge', W.vis, W.at), ('direct', W.visd, W.atd)):
                old = L.at(rp, L.entry).f[k]
                new = lambda st, rp=rp, k=k: L.at(rp, st).f[k]
                for nm, v, edge in (('source', s, es), ('destination', d, ed)):
                    out.append((f'{k}s stay#{n}', lambda st, new=new, old=old: qall([c, e], z3.Implies(old[c][e], new(st)[c][e]), [new(st)[c][e], old[c][e]])))
                    out.append((f'only {k}s of the {nm}#{n}', lambda st, new=new, old=old, R=R, v=v, edge=edge: qall([c, e], z3.Implies(new(st)[c][e], lor(old[c][e], joins(v, edge, R, c, e))), [new(st)[c][e]])))
                    out.append((f'{k}s of the {nm} so far#{n}', lambda st, new=new, R=R, at=at, v=v, edge=edge: qall([c], z3.Implies(land(R(W.tree, v, c), at(W.tree, v, c) < L.k(st), ok(edge, c), c != v), land(new(st)[v][c], new(st)[c][v])), [R(W.tree, v, c)])))
            vo = L.at(rp, L.entry).f['vert']
            vn = lambda st, rp=rp: L.at(rp, st).f['vert']
            out.append((f'vertices stay#{n}', lambda st, vn=vn, vo=vo: qall([c], z3.Implies(vo[c], vn(st)[c]), [vn(st)[c], vo[c]])))
        return out
    E.providers.append(provider)
    outs = run(E, f, this, [r0], st)
    ensure_no_throw(E, outs, 'the graph to search is made')
    a, b = z3.Const(E.fname('a'), C), z3.Const(E.fname('b'), C)
    for x, r in returns(outs):
        if not isinstance(r, Ptr):
            raise Unsupported('result of create_modified_graph')
        g = E.deref_value(r, x)
        if not isinstance(g, Rec) or g.name not in ('IGraph', 'ModifiedGraph'):
            raise Unsupported('the graph to search')
        V, Ed, X = W.rel(g, x)
        ensure(E, x, Ed(a, b) == lor(W.edge(W.g, a, b), joins(s, es, W.vis, a, b), joins(d, ed, W.vis, a, b)),
               'the edges are those of the graph and those of the end points to what they see, off the land side of their shore edge')
        ensure(E, x, land(Ed(a, b), lnot(X(a, b))) == lor(land(W.edge(W.g, a, b), lnot(W.cross(W.g, a, b))), joins(s, es, W.visd, a, b), joins(d, ed, W.visd, a, b)),
               'an edge is direct exactly when the graph or an end point has it directly')
        ensure(E, x, land(V(s), V(d), z3.Implies(W.vert(W.g, a), V(a))), 'the end points and the vertices of the graph are vertices')
        E.vac.append(x)


TARGETS = [Target('land collisions', land_collisions), Target('graph to search', modified_graph)]

ASSUMES = ['the S2 index: is_point_contained, closest_segment_to_point and the projection are known by name only (S2 is an external library); the bounded harness checks them on random scenes']

# contracts of the functions called, proved of their bodies
NEEDS = {'c12': None, 'c16': ['normalise'], 'c18': ['orientation']}
