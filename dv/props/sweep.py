"""The angular sweep behind C01 and C02: scenes, sight lines and the contracts of what the sweep calls.

Positions keep their coordinates; geometric tests enter by predicates over positions, whose meaning is given by the
contracts C16 (orientation), C17 (intersection), C20 (angular order) and C21 (corners), and related by lemmas over the
reals proved in the target `geometry`."""
import z3
from ..engine import *
from ..engine import pattern_ok
from ..spec import *
from ..driver import Target


def map_field(E):
    fs = [(f, t) for f, t in E.rec_fields(rec_ty(E, 'VistreeGenerator')) if t.strip().c == 'rec' and t.strip().name in ('std::unordered_map', 'std::map')]
    if len(fs) != 1:
        raise Unsupported('the fields of VistreeGenerator')
    return fs[0]


class Scene:
    """Obstacles: every vertex has one vertex before and one after it on its polygon."""

    def __init__(self, E, st):
        self.E = E
        coord_domain(E)
        self.cty, self.lty = rec_ty(E, 'Coordinate'), rec_ty(E, 'LineSegment')
        C = self.C = E.sort_of(self.cty)
        self.L = E.sort_of(self.lty)
        F = lambda n, *s: z3.Function(n, *s)
        self.key, self.prev, self.next = F('obstacle_vertex', C, BoolS), F('previous', C, C), F('next', C, C)
        self.has, self.val = F('meets', C, C, C, C, BoolS), F('meeting_point', C, C, C, C, C)
        self.on = F('on_segment', C, C, C, BoolS)
        self.ori = F('side', C, C, C, IntS)
        self.bef = F('before', C, C, C, BoolS)
        self.PV = F('corner_sees', C, C, C, C, BoolS)
        self.norm, self.over = F('normalised', C, C), F('over_meridian', C, BoolS)
        self.CCW, self.CW = enumv(E, 'COUNTER_CLOCKWISE'), enumv(E, 'CLOCKWISE')
        self.COL = enumv(E, 'COLLINEAR')
        c, d, e, f = self.q = [z3.Const('q' + n, C) for n in 'cdef']
        self.A([c], z3.Implies(self.key(c), land(self.key(self.prev(c)), self.key(self.next(c)), self.next(self.prev(c)) == c, self.prev(self.next(c)) == c, self.prev(c) != c, self.next(c) != c)), self.key(c), self.prev(c), self.next(c))
        o = self.ori(c, d, e)
        self.A([c, d, e], land(lor(o == self.CCW, o == self.CW, o == self.COL), z3.Implies(o != self.COL, land(c != d, c != e, d != e))), o)
        self.C17()
        self.base_contracts()

    def A(self, vs, f, *pats):
        self.E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))

    def W(self, p, q):
        """p and q are joined by an obstacle edge."""
        return land(self.key(p), lor(q == self.next(p), q == self.prev(p)))

    # ---------------------------------------------------------------- values
    def c(self, a, st):
        v = self.E.get(a.loc, st) if isinstance(a, Ref) else a
        v = self.E.deref_value(v, st) if isinstance(v, Ptr) else v
        if isinstance(v, z3.ExprRef):
            return v
        return self.E.pack(v, self.cty, st)

    def ends(self, g, st=None):
        """Ends of a segment (value or packed)."""
        E = self.E
        st = st or State()
        if isinstance(g, Ref):
            g = E.get(g.loc, st)
        if isinstance(g, Loc):
            g = E.get(g, st)
        if isinstance(g, Ptr):
            g = E.deref_value(g, st)
        if isinstance(g, z3.ExprRef):
            g = E.unpack(g, self.lty, st)
        n = 'LineSegment::get_endpoint_'
        return [E.pack(E.call_pure(n + i, g, [], st), self.cty, st) for i in '12']

    def lst(self, a, st):
        v = self.E.get(a.loc, st) if isinstance(a, Ref) else a
        if isinstance(v, Ptr):
            v = self.E.deref_value(v, st)
        if not isinstance(v, Vec):
            return None
        return self.E.flat(v, st)

    def tree(self, st):
        """A VistreeGenerator over the obstacles."""
        E = self.E
        f, t = map_field(E)
        r = E.fresh(rec_ty(E, 'VistreeGenerator'), 'tree', st)
        m = r.f[f]
        self.m = m
        self.tree_facts(m, st)
        return r

    def tree_facts(self, m, st):
        for x in self.tree_formulas(m):
            st.assume(x)

    def vec_at(self, m, c):
        return self.E.unpack(m.val[c], m.vty, State())

    def tree_formulas(self, m):
        c = self.q[0]
        v = self.vec_at(m, c)
        a, b = self.ends(v.arr[0]), self.ends(v.arr[1])
        return [z3.ForAll([c], m.dom[c] == self.key(c), patterns=[m.dom[c], self.key(c)]),
                z3.ForAll([c], z3.Implies(self.key(c), land(v.len == 2, a[0] == self.prev(c), a[1] == c, b[0] == c, b[1] == self.next(c))), patterns=[m.val[c]])]

    # ---------------------------------------------------------------- contracts of the geometry
    def C17(self):
        """What C17 says of the meeting point: an end of each that the other has is where they meet, when parallel."""

    def base_contracts(self):
        E, ct = self.E, self.E.contracts

        def inter(E, st, this, a, fn):
            p, q = self.ends(this, st)
            u, v = self.ends(a[0], st)
            val = E.unpack(self.val(p, q, u, v), self.cty, st)
            from ..stl import opt_ty
            return Opt(self.has(p, q, u, v), val, opt_ty(self.cty))
        ct['LineSegment::intersection_with_segment'] = inter
        ct['LineSegment::on_segment'] = lambda E, st, this, a, fn: self.on(*self.ends(this, st), self.c(a[0], st))

        def side(E, st, this, a, fn):
            r = self.ori(*self.ends(this, st), self.c(a[0], st))
            E.note_range(r, (0, 2), st)
            return r
        ct['LineSegment::orientation_of_point_to_segment'] = side
        ct['LineSegment::operator=='] = lambda E, st, this, a, fn: self.same_ends(self.ends(this, st), self.ends(a[0], st))
        ct['LineSegment::operator!='] = lambda E, st, this, a, fn: lnot(self.same_ends(self.ends(this, st), self.ends(a[0], st)))
        ct['coordinate_from_periodic_coordinate'] = lambda E, st, this, a, fn: E.unpack(self.norm(self.c(a[0], st)), self.cty, st)
        ct['is_coordinate_over_meridian'] = lambda E, st, this, a, fn: self.over(self.c(a[0], st))

        def magn(E, st, this, a, fn):
            r = z3.Int(E.fname('magnitude'))
            E.note_range(r, (0, 1 << 62), st)
            return r
        ct['Coordinate::magnitude_squared_microdegrees'] = magn

        def sees(E, st, this, a, fn):
            pl = E.get(this, st)
            cs = [pl.f[n] for n, t in E.rec_fields(rec_ty(E, 'ThreeVertexPolyline'))]
            if len(cs) != 3:
                raise Unsupported('the fields of ThreeVertexPolyline')
            return self.PV(*[self.c(x, st) for x in self.corner(pl, st)], self.c(a[0], st))
        ct['ThreeVertexPolyline::point_visible'] = sees

    def corner(self, pl, st):
        """The three vertices a polyline was made from, in their order: found by making one."""
        E = self.E
        s = State()
        vs = [mk_coord(E, I(i), I(i), s) for i in (1, 2, 3)]
        from .c21 import polyline
        p = polyline(E, s, *vs)
        order = {}
        for n, x in p.f.items():
            i = z3.simplify(lonlat(E, x, s)[0])
            order[i.as_long()] = pl.f[n]
        return [order[i] for i in (1, 2, 3)]

    def same_ends(self, a, b):
        return lor(land(a[0] == b[0], a[1] == b[1]), land(a[0] == b[1], a[1] == b[0]))

    # ---------------------------------------------------------------- open edges
    def open_sort(self):
        return z3.ArraySort(self.C, z3.ArraySort(self.C, BoolS))

    def open_contracts(self):
        E, ct = self.E, self.E.contracts
        oty = rec_ty(E, 'OpenEdges')
        none = z3.K(self.C, z3.K(self.C, z3.BoolVal(False)))
        ct['OpenEdges::OpenEdges'] = lambda E, st, this, a, fn: Rec('OpenEdges', {'S': none}, oty) if not a else NotImplemented

        def change(on):
            def go(E, st, this, a, fn):
                seg = [x for x in a if isinstance(self.val_of(x, st), (Rec, Ptr))]
                if len(seg) != 1:
                    raise Unsupported('arguments of OpenEdges')
                p, q = self.ends(seg[0], st)
                self.update(st, this, [(on, lambda x, y: self.same_ends((x, y), (p, q)))])
                return VOID
            return go
        ct['OpenEdges::add_edge'] = change(True)
        ct['OpenEdges::remove_edge'] = change(False)

    def val_of(self, x, st):
        return self.E.get(x.loc, st) if isinstance(x, Ref) else x

    def named(self, S, st):
        E = self.E
        if z3.is_const(S):
            return S
        k = ('open', S.get_id())
        if k not in st.ghost:
            n = z3.Const(E.fname('open'), S.sort())
            st.assume(n == S)
            st.ghost[k] = (n, S)
        return st.ghost[k][0]

    def update(self, st, loc, ch):
        E = self.E
        loc = loc.loc if isinstance(loc, Ref) else loc
        r = E.get(loc, st)
        S = r.f['S']
        none = self.is_none(S)
        S = S if none else self.named(S, st)
        T = z3.Const(E.fname('open'), S.sort())
        x, y = self.q[0], self.q[1]
        m = z3.BoolVal(False) if none else S[x][y]
        for on, hit in ch:
            m = lor(m, hit(x, y)) if on else land(m, lnot(hit(x, y)))
        st.assume(z3.ForAll([x, y], T[x][y] == m, patterns=[T[x][y]] + ([] if none else [S[x][y]])))
        E.set(loc, Rec('OpenEdges', dict(r.f, S=T), r.ty), st)

    def is_none(self, S):
        return z3.is_K(S)


class Sweep(Scene):
    """The scan of one observer."""

    def __init__(self, E, st, which='both'):
        Scene.__init__(self, E, st)
        self.which = which
        C, F = self.C, lambda n, *s: z3.Function(n, *s)
        o = coord(E, st, 'observer')
        self.obs = o
        self.O = O = E.pack(o, self.cty, st)
        self.oy = lonlat(E, o, st)[1]
        self.east = E.pack(mk_coord(E, I(LON), self.oy, st), self.cty, st)
        self.PC = F('crosses_sight_line', C, C, C, BoolS)         # of o to the first: oriented, from right to left
        self.sound, self.clear = F('no_crossing', C, BoolS), F('unobstructed', C, BoolS)
        self.p, self.q_ = F('crossing.right', C, C), F('crossing.left', C, C)
        v, p, q = self.q[:3]
        # definitions
        bad = land(self.W(self.p(v), self.q_(v)), self.PC(v, self.p(v), self.q_(v)), self.val(self.p(v), self.q_(v), O, v) != v, self.val(self.q_(v), self.p(v), O, v) != v)
        self.A([v], z3.Implies(lnot(self.sound(v)), lor(lnot(self.barrier(v)), bad)), self.sound(v))
        self.A([v], z3.Implies(self.clear(v), self.barrier(v)), self.clear(v))
        self.A([v, p, q], z3.Implies(land(self.clear(v), self.W(p, q), p != O, q != O, self.has(p, q, O, v)), self.val(p, q, O, v) == v), z3.MultiPattern(self.clear(v), self.has(p, q, O, v)))
        # lemmas of `geometry`
        B = lambda a, b: self.bef(O, a, b)
        self.A([v, p, q], z3.Implies(self.PC(v, p, q), land(self.ori(O, p, q) == self.CCW, v != p, v != q, v != O, self.has(p, q, O, v), self.has(q, p, O, v))), self.PC(v, p, q))
        self.A([v, p, q], z3.Implies(self.PC(v, p, q), lor(land(B(p, v), lor(B(q, p), B(v, q))), land(B(v, p), B(v, q), self.initial(p, q), self.initial(q, p)))), self.PC(v, p, q))
        self.A([p, q], z3.Implies(land(self.lat(p) < self.oy, self.lat(q) >= self.oy, q != O), B(q, p)), B(q, p))
        self.n, self.V = z3.Int('vertices'), z3.Const('sorted', z3.ArraySort(IntS, C))
        self.pos = F('position', C, IntS)
        self.open_contracts()
        self.loop = None
        self.un, self.ix = F('source', IntS, IntS, IntS), F('target', IntS, IntS, IntS)
        ct = E.contracts
        ct['VistreeGenerator::all_vertices'] = self.all_vertices
        ct['VistreeGenerator::all_line_segments'] = self.all_segments
        ct['AngleSorter::sort_counter_clockwise_around_observer'] = self.sort
        ct['VistreeGenerator::is_vertex_visible'] = self.visible
        ct['VistreeGenerator::orientation_segments'] = self.oriented
        ct['VistreeGenerator::erase_segments_from_open_edges'] = lambda E, st, this, a, fn: self.bulk(st, a, False)
        ct['VistreeGenerator::add_segments_to_open_edges'] = lambda E, st, this, a, fn: self.bulk(st, a, True)
        E.providers.append(self.provider)
        E.loop_defs.append(self.defs)
        self.sorted = 0

    def lat(self, c):
        s = State()
        return lonlat(self.E, self.E.unpack(c, self.cty, s), s)[1]

    def initial(self, p, q):
        O, e = self.O, self.east
        return land(self.has(p, q, O, e), lnot(self.on(O, e, p)), lnot(self.on(O, e, q)), p != O, q != O)

    def barrier(self, v):
        O = self.O
        return z3.Implies(self.key(O), self.PV(self.prev(O), O, self.next(O), v))

    # ---------------------------------------------------------------- contracts
    def all_vertices(self, E, st, this, a, fn):
        l = z3.Const(E.fname('vertices'), z3.ArraySort(IntS, self.C))
        i, c = z3.Int('qi'), self.q[0]
        at = z3.Function(E.fname('listed'), self.C, IntS)
        st.assume(land(self.n >= 0, self.n <= 1 << 40))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < self.n), land(self.key(l[i]), at(l[i]) == i)), patterns=[l[i]]))
        st.assume(z3.ForAll([c], z3.Implies(self.key(c), land(at(c) >= 0, at(c) < self.n, l[at(c)] == c)), patterns=[self.key(c), at(c)]))
        return Vec(self.n, l, self.cty)

    def all_segments(self, E, st, this, a, fn):
        t = fn['ret'].strip() if fn.get('ret') else None
        n = z3.Int(E.fname('segments.len'))
        l = z3.Const(E.fname('segments'), z3.ArraySort(IntS, self.L))
        at = self.seg_at = z3.Function(E.fname('segment.listed'), self.C, IntS)
        i, c = z3.Int('qi'), self.q[0]
        e = self.ends(l[i])
        f = self.ends(l[at(c)])
        st.assume(land(n >= 0, n <= 1 << 40))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(self.key(e[0]), e[1] == self.next(e[0]))), patterns=[l[i]]))
        st.assume(z3.ForAll([c], z3.Implies(self.key(c), land(at(c) >= 0, at(c) < n, f[0] == c, f[1] == self.next(c))), patterns=[self.next(c), at(c)]))
        v = Vec(n, l, self.shared())
        self.cand = v
        return v

    def shared(self):
        return Ty(c='rec', name='std::shared_ptr', args=[self.lty], s='std::shared_ptr<LineSegment>')

    def sort(self, E, st, this, a, fn):
        """C20: a permutation, later ones never before earlier ones; any two of different direction are ordered."""
        if self.c(a[0], st).eq(self.O) is False:
            raise Unsupported('sorted around something else')
        v = self.lst(a[1], st)
        V, n, pos = self.V, self.n, self.pos
        c, d = self.q[:2]
        i, j = z3.Ints('qi qj')
        ensure(E, st, v.len == n, 'every vertex is sorted')
        w = z3.Const(E.fname('given'), self.C)
        # the list sorted holds every obstacle vertex, and each of them once
        g = z3.Int(E.fname('g'))
        h = z3.Int(E.fname('h'))
        ensure(E, st, z3.Implies(land(g >= 0, g < v.len), self.key(v.arr[g])), 'only obstacle vertices are scanned')
        ensure(E, st, z3.Implies(land(g >= 0, g < h, h < v.len), v.arr[g] != v.arr[h]), 'no vertex is scanned twice')
        ensure(E, st, z3.Implies(self.key(w), z3.Exists([i], land(i >= 0, i < v.len, v.arr[i] == w))), 'every obstacle vertex is scanned')
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(self.key(V[i]), pos(V[i]) == i)), patterns=[V[i]]))
        st.assume(z3.ForAll([c], z3.Implies(self.key(c), land(pos(c) >= 0, pos(c) < n, V[pos(c)] == c)), patterns=[pos(c), self.key(c)]))
        st.assume(z3.ForAll([c, d], z3.Implies(land(self.key(c), self.key(d), self.bef(self.O, c, d)), pos(c) < pos(d)), patterns=[self.bef(self.O, c, d)]))
        E.set(a[1].loc, Vec(n, V, self.cty), st)
        return VOID

    def visible(self, E, st, this, a, fn):
        oe = E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0]
        if not self.c(a[1], st).eq(self.O):
            raise Unsupported('the observer asked for')
        v = self.c(a[2], st)
        return self.is_visible(oe, v, st)

    def is_visible(self, oe, v, st):
        E, O = self.E, self.O
        S = self.named(oe.f['S'], st)
        b = z3.Bool(E.fname('blocked'))
        x, y = self.q[:2]
        p, q = z3.Const(E.fname('p'), self.C), z3.Const(E.fname('q'), self.C)
        st.assume(z3.Implies(b, land(S[p][q], self.has(p, q, O, v), self.val(p, q, O, v) != v)))
        st.assume(z3.Implies(lnot(b), z3.ForAll([x, y], lnot(land(S[x][y], self.has(x, y, O, v), self.has(y, x, O, v), self.val(x, y, O, v) != v, self.val(y, x, O, v) != v)), patterns=[S[x][y], self.PC(v, x, y)])))
        return land(v != O, self.barrier(v), lnot(b))

    def oriented(self, E, st, this, a, fn):
        v = self.lst(a[0], st)
        s = self.ends(a[1], st)
        want = self.val_of(a[2], st)
        n = z3.Int(E.fname('kept.len'))
        l = z3.Const(E.fname('kept'), z3.ArraySort(IntS, self.L))
        f, g = z3.Function(E.fname('from'), IntS, IntS), z3.Function(E.fname('kept_at'), IntS, IntS)
        i = z3.Int('qi')
        keep = lambda t: self.ori(s[0], s[1], self.other(t, s[1])) == want
        st.assume(land(n >= 0, n <= 1 << 40))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(f(i) >= 0, f(i) < v.len, l[i] == v.arr[f(i)], keep(l[i]))), patterns=[l[i]]))
        for j in range(2):
            st.assume(z3.Implies(land(v.len > j, keep(v.arr[j])), land(g(j) >= 0, g(j) < n, l[g(j)] == v.arr[j])))
        ensure(E, st, v.len == 2, 'a vertex has two obstacle edges')
        g0 = z3.Int(E.fname('g'))
        ensure(E, st, z3.Implies(land(g0 >= 0, g0 < v.len), lor(self.ends(v.arr[g0])[0] == s[1], self.ends(v.arr[g0])[1] == s[1])), 'the edges looked at end at the vertex')
        return Vec(n, l, v.ety)

    def other(self, t, c):
        e = self.ends(t)
        return ite(e[0] == c, e[1], e[0])

    def bulk(self, st, a, on):
        E = self.E
        segs = [x for x in a if isinstance(self.val_of(x, st), Vec)]
        oes = [x for x in a if isinstance(x, Ref) and isinstance(self.val_of(x, st), Rec) and self.val_of(x, st).name == 'OpenEdges']
        if len(segs) != 1 or len(oes) != 1:
            raise Unsupported('arguments of the open edges')
        v = self.lst(segs[0], st)
        if on:
            # the distance is that of the point where the sight line of the vertex meets the edge: there is one
            cs = [x for x in a if isinstance(self.val_of(x, st), Rec) and self.val_of(x, st).name == 'Coordinate']
            if len(cs) == 2:
                u, w = [self.c(x, st) for x in cs]
                g = z3.Int(E.fname('g'))
                t = v.arr[g]
                ensure(E, st, z3.Implies(land(g >= 0, g < v.len), lor(self.ends(t)[0] == w, self.ends(t)[1] == w)), 'the edges opened end at the vertex')
                ensure(E, st, z3.Implies(land(g >= 0, g < v.len), self.ori(u, w, self.other(t, w)) != self.COL), 'the edges opened are not on the sight line')
        f = z3.Function(E.fname('which'), self.C, self.C, IntS)
        i = z3.Int('qi')
        x, y = self.q[:2]
        r = E.get(oes[0].loc, st)
        none = self.is_none(r.f['S'])
        S = r.f['S'] if none else self.named(r.f['S'], st)
        T = z3.Const(E.fname('open'), S.sort())
        e = self.ends(v.arr[i])
        ef = self.ends(v.arr[f(x, y)])
        old = z3.BoolVal(False) if none else S[x][y]
        one = land(f(x, y) >= 0, f(x, y) < v.len, self.same_ends(ef, (x, y)))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), land(*[T[e[j]][e[1 - j]] == z3.BoolVal(on) for j in (0, 1)])), patterns=[v.arr[i]]))
        if on:
            st.assume(z3.ForAll([x, y], land(z3.Implies(old, T[x][y]), z3.Implies(land(T[x][y], lnot(old)), one)), patterns=[T[x][y]]))
        else:
            st.assume(z3.ForAll([x, y], land(z3.Implies(T[x][y], old), z3.Implies(land(old, lnot(T[x][y])), one)), patterns=[T[x][y]]))
        E.set(oes[0].loc, Rec('OpenEdges', dict(r.f, S=T), r.ty), st)
        return VOID

    # ---------------------------------------------------------------- invariants
    def vv(self, c):
        E = self.E
        t = rec_ty(E, 'VisibleVertex')
        fs = E.rec_fields(t)
        vals = [self.norm(c) if x.strip().name == 'Coordinate' else self.over(c) for n, x in fs]
        return E.sort_of(t).mk(*vals)

    def results(self, L):
        s = self.E.sort_of(rec_ty(self.E, 'VisibleVertex'))
        return [rp for rp in L.values(Vec) if L.at(rp, L.entry).arr.sort().range() == s]

    def defs(self, E, L):
        rs = self.results(L)
        if len(rs) != 1 or E.cur_loops:
            return []
        self.loop = L
        k, n = L.k(L.head), L.at(rs[0], L.head).len
        m, t = z3.Int('qm'), z3.Int('qt')
        return [self.un(k + 1, n) == k, self.ix(k + 1, k) == n,
                z3.ForAll([m], z3.Implies(land(m >= 0, m < n), self.un(k + 1, m) == self.un(k, m)), patterns=[self.un(k + 1, m), self.un(k, m)]),
                z3.ForAll([t], z3.Implies(land(t >= 0, t < k), self.ix(k + 1, t) == self.ix(k, t)), patterns=[self.ix(k + 1, t), self.ix(k, t)])]

    def provider(self, E, L):
        out = []
        x, y = self.q[:2]
        O, pos, V = self.O, self.pos, self.V
        m, m2, t = z3.Int('qm'), z3.Int('qm2'), z3.Int('qt')
        for n, rp in enumerate(L.values(Rec, lambda r: r.name == 'OpenEdges')):
            S = lambda s, rp=rp: L.at(rp, s).f['S']
            z = lambda s, S=S: self.is_none(S(s))
            known = lambda s, S=S: z3.BoolVal(True) if z(s) else qall([x, y], z3.Implies(S(s)[x][y], land(self.W(x, y), x != O, y != O)), [S(s)[x][y]])
            if self.which != 'C01':
                out.append((f'open edges are obstacle edges away from the observer#{n}', known))
            out.append((f'open edges have no direction#{n}', lambda s, S=S: z3.BoolVal(True) if z(s) else qall([x, y], S(s)[x][y] == S(s)[y][x], [S(s)[x][y]])))
            if self.which != 'C02' and L.rng is not None and L.rng.arr.sort().range() == self.L and not E.cur_loops:
                at = getattr(self, 'seg_at', None)
                if at is not None:
                    out.append((f'edges across the first ray so far#{n}', lambda s, S=S, at=at: z3.BoolVal(True) if z(s) and s is not L.head else z3.ForAll([x], z3.Implies(land(self.key(x), at(x) < L.k(s), self.initial(x, self.next(x))), land(S(s)[x][self.next(x)], S(s)[self.next(x)][x])) if not z(s) else lnot(land(self.key(x), at(x) < L.k(s))), patterns=[at(x)])))
            if self.which != 'C02' and self.results(L) and not E.cur_loops:
                k = lambda s: L.k(s)
                P, Q = pos(x), pos(y)
                edge = land(self.W(x, y), self.ori(O, x, y) == self.CCW)
                pats = lambda s, S=S: [S(s)[x][y]] if pattern_ok(S(s)) else [self.ori(O, x, y)]
                out.append((f'edges whose right end was passed#{n}', lambda s, S=S: qall([x, y], z3.Implies(land(edge, P < k(s), lor(Q < P, k(s) <= Q)), S(s)[x][y]), pats(s)) if not z(s) else z3.BoolVal(True)))
                out.append((f'edges across the first ray#{n}', lambda s, S=S: qall([x, y], z3.Implies(land(edge, k(s) <= P, k(s) <= Q, self.initial(x, y), self.initial(y, x)), S(s)[x][y]), pats(s)) if not z(s) else z3.BoolVal(True)))
        rs = self.results(L)
        if len(rs) == 1 and not E.cur_loops:
            R = lambda s: E.flat(L.at(rs[0], s), s)
            k = lambda s: L.k(s)
            un, ix = self.un, self.ix

            def r1(s):
                u = un(k(s), m)
                return z3.ForAll([m], z3.Implies(land(m >= 0, m < R(s).len), land(u >= 0, u < k(s), V[u] != O, R(s).arr[m] == self.vv(V[u]))), patterns=[R(s).arr[m], u])

            def r2(s):
                return z3.ForAll([m], z3.Implies(land(m >= 0, m < R(s).len), self.sound(V[un(k(s), m)])), patterns=[un(k(s), m)])

            def r3(s):
                return z3.ForAll([m, m2], z3.Implies(land(m >= 0, m < m2, m2 < R(s).len), un(k(s), m) < un(k(s), m2)), patterns=[z3.MultiPattern(un(k(s), m), un(k(s), m2))])

            def r4(s):
                j = ix(k(s), t)
                return z3.ForAll([t], z3.Implies(land(t >= 0, t < k(s), V[t] != O, self.clear(V[t])), land(j >= 0, j < R(s).len, un(k(s), j) == t)), patterns=[j])
            out.append(('reported vertices', r1))
            if self.which != 'C02':
                out.append(('reported vertices see no crossing', r2))
            if self.which != 'C01':
                out += [('reported in order', r3), ('unobstructed vertices are reported', r4)]
        return out


def scan(E, which):
    st = new_state()
    S = Sweep(E, st, which)
    tree = S.tree(st)
    c0 = z3.Const('some_vertex', S.C)
    st.assume(S.key(c0))
    half = z3.Bool('half')
    outs = run(E, 'VistreeGenerator::get_visible_vertices', tree, [S.obs, half], st)
    ensure_no_throw(E, outs, 'the scan succeeds')
    L = S.loop
    if L is None:
        raise Unsupported('the loop over the vertices')
    for s, r in returns(outs):
        r = E.flat(r, s)
        k = s.env.get(L.kcell)
        if k is None:
            raise Unsupported('how the scan ended')
        m, m2, t = z3.Int(E.fname('m')), z3.Int(E.fname('m2')), z3.Int(E.fname('t'))
        u = S.un(k, m)
        on = land(m >= 0, m < r.len)
        V, O = S.V, S.O
        if which == 'C01':
            ensure(E, s, z3.Implies(on, land(u >= 0, u < S.n, V[u] != O, r.arr[m] == S.vv(V[u]))), 'everything reported is an obstacle vertex other than the observer, brought back into the world')
            ensure(E, s, z3.Implies(on, S.sound(V[u])), 'no obstacle edge crosses the sight line to a reported vertex, and it does not leave through the polygon of the observer')
        else:
            ensure(E, s, z3.Implies(on, land(u >= 0, u < S.n, V[u] != O, r.arr[m] == S.vv(V[u]))), 'everything reported is an obstacle vertex, normalised and flagged')
            ensure(E, s, z3.Implies(land(on, m < m2, m2 < r.len), V[u] != V[S.un(k, m2)]), 'a vertex is reported once')
            j = S.ix(k, t)
            B = S.bef(O, V[t], V[k])
            s.assume(lor(B, lnot(B)))
            lemma(E, s, z3.Implies(k < S.n, land(half, S.lat(V[k]) < S.oy)), 'the scan stops early only for half a turn, at a vertex of the lower half')
            lemma(E, s, z3.Implies(land(t >= k, t < S.n, V[t] != O), land(half, S.lat(V[t]) < S.oy)), 'what a half scan leaves out is in the lower half turn')
            ensure(E, s, z3.Implies(land(t >= 0, t < S.n, V[t] != O, S.clear(V[t]), z3.Implies(half, S.lat(V[t]) >= S.oy)), land(j >= 0, j < r.len, r.arr[j] == S.vv(V[t]))), 'every unobstructed vertex (of the upper half turn, in a half scan) is reported')
        E.vac.append(s)


# ------------------------------------------------------------------ the set of open edges
class Edges:
    """The representation of OpenEdges: distances by edge, and the edges by distance, agree."""

    def __init__(self, E, S):
        self.E, self.S = E, S
        r = {}
        for f, t in E.rec_fields(rec_ty(E, 'OpenEdges')):
            n = t.strip().name
            k = 'bag' if n == 'std::multimap' else 'map' if n in ('std::unordered_map', 'std::map') else None
            if k is None or k in r:
                raise Unsupported('the fields of OpenEdges')
            r[k] = f
        if len(r) != 2:
            raise Unsupported('the fields of OpenEdges')
        self.roles = r
        E.key_canon['LineSegment'] = self.canon
        s = State()
        a, b = E.unpack(z3.Const('pa', S.C), S.cty, s), E.unpack(z3.Const('pb', S.C), S.cty, s)
        g = E.unpack(E.pack(segment(E, s, 's', a, b), S.lty, s), S.lty, s)
        if len(g.f) != 2:
            raise Unsupported('the fields of LineSegment')
        self.ls = E.sort_of(S.lty)

    def le(self, a, b):
        s = State()
        (x, y), (u, v) = [lonlat(self.E, self.E.unpack(c, self.S.cty, s), s) for c in (a, b)]
        return lor(x < u, land(x == u, y <= v))

    def swap(self, g):
        return self.ls.mk(self.ls.accessor(0, 1)(g), self.ls.accessor(0, 0)(g))

    def cz(self, g):
        a, b = self.ls.accessor(0, 0)(g), self.ls.accessor(0, 1)(g)
        c = self.le(a, b)
        return self.ls.mk(ite(c, a, b), ite(c, b, a))

    def canon(self, E, v, st):
        return E.unpack(self.named(self.cz(E.pack(v, self.S.lty, st)), st), self.S.lty, st)

    def named(self, t, st):
        k = ('canon', t.get_id())
        if k not in st.ghost:
            n = z3.Const(self.E.fname('edge'), t.sort())
            st.assume(n == t)
            st.ghost[k] = (n, t)
        return st.ghost[k][0]

    def parts(self, oe, st):
        return oe.f[self.roles['bag']], oe.f[self.roles['map']]

    def holds(self, oe):
        """The invariant, one formula per clause."""
        E = self.E
        B, M = oe.f[self.roles['bag']], oe.f[self.roles['map']]
        ps = E.sort_of(B.ety)
        t, g = z3.Const('qt', ps), z3.Const('qg', self.ls)
        d, e = ps.accessor(0, 0)(t), ps.accessor(0, 1)(t)
        one = lambda x: B.cnt[ps.mk(M.val[g], x)]
        return [z3.ForAll([t], land(B.cnt[t] >= 0, z3.Implies(B.cnt[t] > 0, land(M.dom[self.cz(e)], M.val[self.cz(e)] == d))), patterns=[B.cnt[t]] if pattern_ok(B.cnt) and not z3.is_K(B.cnt) else []),
                z3.ForAll([g], z3.Implies(M.dom[g], land(self.cz(g) == g, one(g) + ite(self.swap(g) == g, I(0), one(self.swap(g))) == 1)), patterns=[M.dom[g]] if pattern_ok(M.dom) and not z3.is_K(M.dom) else [])]

    def member(self, oe, x, y):
        return oe.f[self.roles['map']].dom[self.cz(self.ls.mk(x, y))]


def open_edges(E):
    st = new_state()
    S = Scene(E, st)
    R = Edges(E, S)
    ty = rec_ty(E, 'OpenEdges')
    e0 = E.default_rec(ty, st)
    x, y = z3.Const('x', S.C), z3.Const('y', S.C)
    s = st.clone()
    for i, f in enumerate(R.holds(e0)):
        ensure(E, s, f, f'no open edges: representation {i}')
    ensure(E, s, lnot(R.member(e0, x, y)), 'no open edges at first')
    g = segment(E, st, 's', coord(E, st, 'a'), coord(E, st, 'b'))
    ends = S.ends(g, st)
    pos = {}

    def provider(E, L):
        out = []
        for l in L.leaves:
            if l.kind != 'pos':
                continue
            it0 = L.get(l, L.entry)
            if it0.kind != 'enum':
                continue
            e = it0.extra[0]
            i = z3.Int('qi')
            ps = e.arr.sort().range()
            if not (z3.is_const(e.arr) and ps.num_constructors() == 1 and ps.constructor(0).arity() == 2 and ps.accessor(0, 1).range() == S.L):
                continue
            el = ps.accessor(0, 1)(e.arr[i])
            out.append((f'edges before are others#{l.name}', lambda s, l=l, el=el, it0=it0, e=e: z3.ForAll([i], z3.Implies(land(i >= it0.pos, i < L.get(l, s).pos), lnot(S.same_ends(S.ends(el), ends))), patterns=[e.arr[i]])))
        return out
    E.providers.append(provider)
    for fn, on in (('remove_edge', False), ('add_edge', True)):
        s0 = st.clone()
        oe = E.fresh(ty, 'open', s0)
        for f in R.holds(oe):
            s0.assume(f)
        loc = E.new_cell(s0, oe)
        f = E.prog.func('OpenEdges::' + fn)
        args = []
        for p in f['params']:
            args.append(g if p.strip().c == 'rec' else E.fresh(p.strip(), 'distance', s0))
        outs = run(E, f, loc, args, s0)
        ensure_no_throw(E, outs)
        for s, _ in returns(outs):
            new = E.get(loc, s)
            for i, h in enumerate(R.holds(new)):
                ensure(E, s, h, f'{fn}: representation {i} is kept')
            ensure(E, s, R.member(new, x, y) == (lor if on else lambda a, b: land(a, lnot(b)))(R.member(oe, x, y), S.same_ends((x, y), ends)), f'{fn}: the edge is {"in" if on else "out of"} the set, the others are as before')
            E.vac.append(s)


COMMON = [Target('open edges', open_edges)]


def visible(E):
    """Whether a vertex is reported, given the open edges."""
    st = new_state()
    S = Scene(E, st)
    R = Edges(E, S)
    E.sym_unroll = 3
    tree = S.tree(st)
    oe = E.fresh(rec_ty(E, 'OpenEdges'), 'open', st)
    for f in R.holds(oe):
        st.assume(f)
    o, v = coord(E, st, 'observer'), coord(E, st, 'vertex')
    O, V = E.pack(o, S.cty, st), E.pack(v, S.cty, st)
    blocks = lambda x, y: land(S.has(x, y, O, V), S.val(x, y, O, V) != V)

    def provider(E, L):
        if L.rng is None:
            return []
        srt = L.rng.arr.sort().range()
        if not (isinstance(srt, z3.DatatypeSortRef) and srt.num_constructors() == 1 and srt.constructor(0).arity() == 2 and srt.accessor(0, 1).range() == S.L):
            return []
        i = z3.Int('qi')
        e = S.ends(srt.accessor(0, 1)(L.rng.arr[i]))
        none = lambda s: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), lnot(blocks(*e))), patterns=[L.rng.arr[i]])
        a, b = S.q[:2]
        some = z3.Exists([a, b], land(R.member(oe, a, b), blocks(a, b)), patterns=[S.has(a, b, O, V)])
        out = []
        for l in L.leaves:        # a flag for what was found so far
            if l.kind == 'val' and L.get(l, L.entry).sort() == BoolS:
                for w in (True, False):
                    f = lambda s, l=l, w=w: L.get(l, s) if w else lnot(L.get(l, s))
                    out.append((f'found {w}#{l.name}', lambda s, f=f: land(z3.Implies(f(s), some), z3.Implies(lnot(f(s)), none(s)))))
        return out + [('edges before do not hide it', lambda s: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), lnot(blocks(*e))), patterns=[L.rng.arr[i]]))]
    E.providers.append(provider)
    barrier = z3.Implies(S.key(O), S.PV(S.prev(O), O, S.next(O), V))
    outs = run(E, 'VistreeGenerator::is_vertex_visible', tree, [oe, o, v], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        x, y = z3.Const(E.fname('x'), S.C), z3.Const(E.fname('y'), S.C)
        a, b = S.q[:2]
        ensure(E, s, z3.Implies(r, land(V != O, barrier)), 'visible: not the observer, not hidden by the corner of the observer')
        ensure(E, s, z3.Implies(land(r, R.member(oe, x, y)), lnot(land(blocks(x, y), blocks(y, x)))), 'visible: no open edge meets the sight line before the vertex')
        ensure(E, s, z3.Implies(lnot(r), lor(V == O, lnot(barrier), z3.Exists([a, b], land(R.member(oe, a, b), blocks(a, b)), patterns=[S.has(a, b, O, V)]))), 'hidden: the observer itself, hidden by the corner, or an open edge meets the sight line')
        E.vac.append(s)


COMMON.append(Target('one vertex', visible))


def fn_of(E, name):
    f = E.prog.func(name)
    if f.get('body') is None:
        raise Unsupported(name)
    return f


def param_values(E, f, st, by):
    """Arguments by parameter type: by(type) -> value or None."""
    out = []
    for p in f['params']:
        v = by(p.strip())
        if v is None:
            raise Unsupported(f'parameter of {f["name"]}')
        out.append(v)
    return out


def is_list(t, of):
    return t.c == 'rec' and t.name == 'std::vector' and t.args[0].strip().c == 'rec' and (t.args[0].strip().name == of or t.args[0].strip().name == 'std::shared_ptr' and t.args[0].strip().args[0].strip().name == of)


def oriented(E):
    """The edges of a vertex on one side of the sight line to it."""
    f = fn_of(E, 'VistreeGenerator::orientation_segments')
    st = new_state()
    S = Scene(E, st)
    o, v = coord(E, st, 'observer'), coord(E, st, 'vertex')
    O, V = E.pack(o, S.cty, st), E.pack(v, S.cty, st)
    sl = segment(E, st, 'sight', o, v)
    segs, want = [], []

    def by(t):
        if is_list(t, 'LineSegment'):
            segs.append(E.fresh(t, 'segments', st))
            return segs[0]
        if t.c == 'rec' and t.name == 'LineSegment':
            return sl
        if t.c == 'enum':
            want.append(E.fresh(t, 'side', st))
            return want[0]
    args = param_values(E, f, st, by)
    L, w = segs[0], want[0]
    ends = lambda i: S.ends(L.arr[i])
    i, j = z3.Ints('qi qj')
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < L.len), lor(ends(i)[0] == V, ends(i)[1] == V)), patterns=[L.arr[i]]))
    other = lambda e: ite(e[0] == V, e[1], e[0])
    keep = lambda t: S.ori(O, V, other(S.ends(t))) == w
    F = Filter(E, st, 'kept', lambda t: keep(L.arr[t]), lambda t: L.arr[t], S.L)
    outs = run(E, f, None, args, st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        r = E.flat(r, s)
        a, b = z3.Int(E.fname('a')), z3.Int(E.fname('b'))
        ensure(E, s, z3.Implies(land(a >= 0, a < r.len), z3.Exists([j], land(j >= 0, j < L.len, r.arr[a] == L.arr[j], keep(r.arr[a])), patterns=[L.arr[j]])), 'only the edges of the vertex on that side')
        ensure(E, s, z3.Implies(land(b >= 0, b < L.len, keep(L.arr[b])), land(F.rank(b) >= 0, F.rank(b) < r.len, r.arr[F.rank(b)] == L.arr[b])), 'every edge of the vertex on that side')
        E.vac.append(s)


def bulk(name, on):
    def go(E):
        f = fn_of(E, name)
        st = new_state()
        S = Scene(E, st)
        S.open_contracts()
        a, b, c = S.q[:3]
        S.A([a, b, c], z3.Implies(S.ori(a, b, c) != S.COL, land(S.has(b, c, a, b), S.has(c, b, a, b))), S.ori(a, b, c))       # `geometry`
        o, v = coord(E, st, 'observer'), coord(E, st, 'vertex')
        O, V = E.pack(o, S.cty, st), E.pack(v, S.cty, st)
        S0 = z3.Const('open0', S.open_sort())
        x, y = S.q[:2]
        st.assume(z3.ForAll([x, y], S0[x][y] == S0[y][x], patterns=[S0[x][y]]))
        segs, locs, cs = [], [], [o, v]

        def by(t):
            if is_list(t, 'LineSegment'):
                segs.append(E.fresh(t, 'segments', st))
                return segs[0]
            if t.c == 'rec' and t.name == 'OpenEdges':
                locs.append(E.new_cell(st, Rec('OpenEdges', {'S': S0}, t)))
                return Ref(locs[0])
            if t.c == 'rec' and t.name == 'Coordinate' and cs:
                return cs.pop(0)
        args = param_values(E, f, st, by)
        L, loc = segs[0], locs[0]
        ends = lambda i: S.ends(L.arr[i])
        i = z3.Int('qi')
        if on:
            other = lambda e: ite(e[0] == V, e[1], e[0])
            st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < L.len), land(lor(ends(i)[0] == V, ends(i)[1] == V), S.ori(O, V, other(ends(i))) != S.COL)), patterns=[L.arr[i]]))

        def facts(T, k):
            e = ends(i)
            some = z3.Exists([i], land(i >= 0, i < k, S.same_ends(e, (x, y))), patterns=[L.arr[i]])
            # stores of S0 stand in no pattern: the goal names both
            more, less = (T, S0) if on else (S0, T)
            return [('kept', qall([x, y], z3.Implies(less[x][y], more[x][y]), [T[x][y], S0[x][y]])),
                    ('done', z3.ForAll([i], z3.Implies(land(i >= 0, i < k), land(*[T[e[j]][e[1 - j]] == z3.BoolVal(on) for j in (0, 1)])), patterns=[L.arr[i]])),
                    ('others', qall([x, y], z3.Implies(land(more[x][y], lnot(less[x][y])), some), [T[x][y], S0[x][y]]))]

        def provider(E, LL):
            out = []
            for n, rp in enumerate(LL.values(Rec, lambda r: r.name == 'OpenEdges')):
                for m in range(3):
                    nm = facts(S0, I(0))[m][0]
                    out.append((f'{nm}#{n}', lambda s, rp=rp, m=m: facts(LL.at(rp, s).f['S'], LL.k(s))[m][1]))
            return out
        E.providers.append(provider)
        outs = run(E, f, None, args, st)
        ensure_no_throw(E, outs)
        for s, _ in returns(outs):
            T = E.get(loc, s).f['S']
            for nm, h in facts(T, L.len):
                ensure(E, s, h, f'{"opened" if on else "closed"}: {nm}')
            E.vac.append(s)
    return go


COMMON += [Target('edges on one side', oriented), Target('closing edges', bulk('VistreeGenerator::erase_segments_from_open_edges', False)),
           Target('opening edges', bulk('VistreeGenerator::add_segments_to_open_edges', True))]


# ------------------------------------------------------------------ what is scanned
def listing(E):
    """The vertices and the edges the scan is given."""
    st = new_state()
    S = Scene(E, st)
    E.unroll_ranges, E.sym_unroll = True, 3
    from ..stl import enum_map
    tree = S.tree(st)
    m = S.m
    e = enum_map(E, m, st)
    ix = [g for k, g in st.ghost.items() if k[0] == 'enum'][0][1]
    c = S.q[0]
    mk = lambda a, b: E.pack(segment(E, State(), 's', E.unpack(a, S.cty, State()), E.unpack(b, S.cty, State())), S.lty, State())
    i, j = z3.Ints('qi qj')
    g = z3.Const('qg', S.L)
    edge = lambda t: land(S.key(S.ends(t)[0]), S.ends(t)[1] == S.next(S.ends(t)[0]))

    def provider(E, L):
        out = []
        if E.cur_loops:
            return out
        for n, rp in enumerate(L.values(Vec)):
            v = lambda s, rp=rp: E.flat(L.at(rp, s), s)
            if v(L.entry).arr.sort().range() == S.C:
                out.append((f'vertices so far: as many#{n}', lambda s, v=v: v(s).len == L.k(s)))
                out.append((f'vertices so far#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), v(s).arr[i] == e.arr[i]), patterns=[v(s).arr[i]])))
            if v(L.entry).arr.sort().range() == S.L:
                out.append((f'only edges so far#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < v(s).len), edge(v(s).arr[i])), patterns=[v(s).arr[i]])))
                # an edge per vertex, at its place: for a list built without a set
                out.append((f'every edge so far, listed per vertex#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), v(s).arr[i] == mk(e.arr[i], S.next(e.arr[i]))), patterns=[e.arr[i]])))
                out.append((f'every edge so far, listed twice per vertex#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), v(s).arr[2 * i + 1] == mk(e.arr[i], S.next(e.arr[i]))), patterns=[e.arr[i]])))
                out.append((f'as many edges#{n}', lambda s, v=v: v(s).len == L.k(s)))
                out.append((f'twice as many edges#{n}', lambda s, v=v: v(s).len == 2 * L.k(s)))
        for n, rp in enumerate(L.values(Map)):
            v = lambda s, rp=rp: L.at(rp, s)
            if v(L.entry).dom.sort().domain() == S.L:
                out.append((f'only edges in the set#{n}', lambda s, v=v: qall([g], z3.Implies(v(s).dom[g], edge(g)), [v(s).dom[g]])))
                out.append((f'every edge so far in the set#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), v(s).dom[mk(e.arr[i], S.next(e.arr[i]))]), patterns=[e.arr[i]])))
        return out
    E.providers.append(provider)
    f = fn_of(E, 'VistreeGenerator::all_vertices')
    outs = run(E, f, tree, [], st.clone())
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        r = E.flat(r, s)
        a, b, x = z3.Int(E.fname('a')), z3.Int(E.fname('b')), z3.Const(E.fname('x'), S.C)
        ensure(E, s, z3.Implies(land(a >= 0, a < r.len), S.key(r.arr[a])), 'only obstacle vertices are listed')
        ensure(E, s, z3.Implies(land(a >= 0, a < b, b < r.len), r.arr[a] != r.arr[b]), 'no vertex is listed twice')
        ensure(E, s, z3.Implies(S.key(x), land(ix[x] >= 0, ix[x] < r.len, r.arr[ix[x]] == x)), 'every obstacle vertex is listed')
        E.vac.append(s)
    f = fn_of(E, 'VistreeGenerator::all_line_segments')
    outs = run(E, f, tree, [], st.clone())
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        r = E.flat(r, s)
        a, x = z3.Int(E.fname('a')), z3.Const(E.fname('x'), S.C)
        ensure(E, s, z3.Implies(land(a >= 0, a < r.len), edge(r.arr[a])), 'only obstacle edges are listed')
        s.assume(S.key(x))
        ensure(E, s, z3.Exists([i], land(i >= 0, i < r.len, r.arr[i] == mk(x, S.next(x))), patterns=[r.arr[i]]), 'the edge that leaves each vertex is listed')
        E.vac.append(s)


COMMON.append(Target('vertices and edges', listing))


def construction(E):
    """What VistreeGenerator holds for polygons with distinct vertices."""
    from .c11 import poly_elems
    st = new_state()
    coord_domain(E)
    f = E.prog.func('VistreeGenerator::VistreeGenerator', lambda f: len(f['params']) == 1 and not f.get('implicit') and 'Polygon' in f['params'][0].s)
    polys = E.fresh(f['params'][0].strip(), 'polygons', st)
    inner, elem = poly_elems(E, polys, st)
    S = Scene(E, st)
    own, at = z3.Function('polygon_of', S.C, IntS), z3.Function('place_of', S.C, IntS)
    p, q = z3.Ints('qp qq')
    c = S.q[0]
    st.assume(z3.ForAll([p, q], z3.Implies(land(p >= 0, p < polys.len, q >= 0, q < inner(p)), land(own(elem(p, q)) == p, at(elem(p, q)) == q)), patterns=[elem(p, q)]))
    st.assume(z3.ForAll([p], inner(p) <= 1 << 20, patterns=[inner(p)]))
    there = lambda c, P: land(own(c) >= 0, P, at(c) >= 0, at(c) < inner(own(c)), elem(own(c), at(c)) == c)
    before = lambda c: elem(own(c), ite(at(c) == 0, inner(own(c)) - 1, at(c) - 1))
    after = lambda c: elem(own(c), ite(at(c) == inner(own(c)) - 1, I(0), at(c) + 1))

    def facts(m, P):
        v = S.vec_at(m, c)
        a, b = S.ends(v.arr[0]), S.ends(v.arr[1])
        return [('keys', qall([c], m.dom[c] == there(c, P(c)), [m.dom[c]])),
                ('edges', qall([c], z3.Implies(there(c, P(c)), land(v.len == 2, a[0] == before(c), a[1] == c, b[0] == c, b[1] == after(c))), [m.val[c], m.dom[c]]))]

    def provider(E, L):
        out = []
        for n, rp in enumerate(L.values(Map)):
            if L.at(rp, L.entry).dom.sort().domain() != S.C or L.at(rp, L.entry).vty is None:
                continue
            for i in range(2):
                if not E.cur_loops:
                    out.append((f'polygons before#{n}.{i}', lambda s, rp=rp, i=i: facts(L.at(rp, s), lambda c: own(c) < L.k(s))[i][1]))
                else:
                    O = E.cur_loops[0]
                    k = O.k(O.head)
                    out.append((f'polygons before, vertices so far#{n}.{i}', lambda s, rp=rp, i=i: facts(L.at(rp, s), lambda c: lor(own(c) < k, land(own(c) == k, at(c) < L.k(s))))[i][1]))
        return out
    E.providers.append(provider)
    loc = E.new_cell(st, E.default_rec(rec_ty(E, 'VistreeGenerator'), st))
    outs = run(E, f, loc, [polys], st)
    ensure_no_throw(E, outs, 'every list of polygons is accepted')
    for s, _ in returns(outs):
        m = E.get(loc, s).f[map_field(E)[0]]
        x = z3.Const(E.fname('x'), S.C)
        v = S.vec_at(m, x)
        a, b = S.ends(v.arr[0]), S.ends(v.arr[1])
        is_in = there(x, own(x) < polys.len)
        ensure(E, s, m.dom[x] == is_in, 'its vertices are those of the polygons')
        ensure(E, s, z3.Implies(is_in, land(v.len == 2, a[0] == before(x), a[1] == x, b[0] == x, b[1] == after(x))), 'each has the edge from the vertex before it and the one to the vertex after it')
        E.vac.append(s)

    # with two vertices or more to a polygon, these are obstacles as the scan takes them
    s = st.clone()
    x = z3.Const(E.fname('x'), S.C)
    is_in = lambda x: there(x, own(x) < polys.len)
    s.assume(land(is_in(x), inner(own(x)) >= 2))
    for nm, t in (('before', before(x)), ('after', after(x))):
        y = z3.Const(E.fname('y'), S.C)
        s.assume(y == t)
        ensure(E, s, land(is_in(y), y != x), f'the vertex {nm} is another vertex')
        ensure(E, s, x == (after(y) if nm == 'before' else before(y)), f'the vertex {nm} has this one on its other side')


COMMON.append(Target('construction', construction))


def empty(E):
    """Without obstacles nothing is reported."""
    st = new_state()
    S = Scene(E, st)
    E.unroll_ranges = True
    t = E.default_rec(rec_ty(E, 'VistreeGenerator'), st)
    outs = run(E, 'VistreeGenerator::get_visible_vertices', t, [coord(E, st, 'observer'), z3.Bool('half')], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        ensure(E, s, E.flat(r, s).len == 0, 'without obstacles nothing is reported')
        E.vac.append(s)


def side_of(E):
    """The side a position lies on."""
    st = new_state()
    coord_domain(E)
    a, b, c = [coord(E, st, n) for n in 'abc']
    A, B, C = [lonlat(E, x, st) for x in (a, b, c)]
    d = cross(sub(B, A), sub(C, A))
    outs = run(E, 'LineSegment::orientation_of_point_to_segment', segment(E, st, 's', a, b), [c], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        n = lambda x: enumv(E, x)
        ensure(E, s, v == ite(d > 0, n('COUNTER_CLOCKWISE'), ite(d < 0, n('CLOCKWISE'), n('COLLINEAR'))), 'the side is the sign of the exact cross product')
        E.vac.append(s)


def same_edge(E):
    """Edges are compared without direction."""
    st = new_state()
    coord_domain(E)
    p = [coord(E, st, n) for n in 'abcd']
    A, B, C, D = [lonlat(E, x, st) for x in p]
    eq = lambda x, y: land(x[0] == y[0], x[1] == y[1])
    same = lor(land(eq(A, C), eq(B, D)), land(eq(A, D), eq(B, C)))
    for op, w in (('==', same), ('!=', lnot(same))):
        f = [g for g in E.prog.by_name.get('LineSegment::operator' + op, []) if g.get('body') is not None]
        if not f:
            continue
        outs = run(E, f[0], segment(E, st, 's', p[0], p[1]), [segment(E, st, 't', p[2], p[3])], st.clone())
        ensure_no_throw(E, outs)
        for s, v in returns(outs):
            ensure(E, s, v == w, f'{op} of edges: the same two ends in either order')
            E.vac.append(s)


# ------------------------------------------------------------------ lemmas over the reals
def inside(P):
    """C17: closed segments that are not parallel share a point."""
    from .c17 import spec_terms
    n, D, Qx, Qy = spec_terms(P)
    return D, Qx, Qy, lor(land(D > 0, Qx >= 0, Qx <= D, Qy >= 0, Qy <= D), land(D < 0, Qx <= 0, Qx >= D, Qy <= 0, Qy >= D))


def geometry(E):
    """What the scan takes for granted of positions around the observer (which is put at the origin)."""
    from .c20 import before
    R = z3.Reals('px py qx qy dx dy w')
    p, q, d, w = R[0:2], R[2:4], R[4:6], R[6]
    o, e = (z3.RealVal(0), z3.RealVal(0)), (w, z3.RealVal(0))
    cr = lambda a, b, c: cross(sub(b, a), sub(c, a))
    PC = [cr(o, d, p) < 0, cr(o, d, q) > 0, lor(land(cr(p, q, o) > 0, cr(p, q, d) < 0), land(cr(p, q, o) < 0, cr(p, q, d) > 0))]
    dom = [w >= 0, p[0] <= w, q[0] <= w, d[0] <= w]
    nz = lambda a: lor(a[0] != 0, a[1] != 0)
    # a proper crossing: the ends of each strictly on different sides of the other
    opp = lambda a, b: lor(land(a > 0, b < 0), land(a < 0, b > 0))
    swap = [z3.substitute(f, *zip(p + q, q + p)) for f in PC]
    real_lemma(E, 'an edge that properly crosses the sight line does so from right to left, or the other way round', [opp(cr(o, d, p), cr(o, d, q)), opp(cr(p, q, o), cr(p, q, d))], lor(land(*PC), land(*swap)))
    # (the cross products under names)
    pq, dp, dq = z3.Reals('pq dp dq')
    id_ = [cr(o, d, p) == dp, cr(o, d, q) == dq, cr(p, q, o) == pq, cr(p, q, d) == pq - dq + dp]
    real_lemma(E, 'the sides in cross products of the directions', [dp == cross(d, p), dq == cross(d, q), pq == cross(p, q)], land(*id_))
    N = [dp < 0, dq > 0, lor(land(pq > 0, pq - dq + dp < 0), land(pq < 0, pq - dq + dp > 0))]
    names = [dp == cross(d, p), dq == cross(d, q), pq == cross(p, q)]
    real_lemma(E, 'crossing: the left end is counter-clockwise of the right one', N, pq > 0)
    real_lemma(E, 'crossing: three positions apart', PC, land(nz(p), nz(q), nz(d), lor(p[0] != d[0], p[1] != d[1]), lor(q[0] != d[0], q[1] != d[1])))
    for nm, (a, b) in (('right', (p, q)), ('left', (q, p))):
        D, Qx, Qy, ins = inside((a, b, o, d))
        s = 1 if nm == 'right' else -1
        real_lemma(E, f'crossing: the terms of the intersection, {nm} end first', names, land(D == s * (dq - dp), Qx == s * (-dp if nm == 'right' else dq), Qy == s * pq))
        D, Qx, Qy = s * (dq - dp), s * (-dp if nm == 'right' else dq), s * pq
        real_lemma(E, f'crossing: the intersection is reported, {nm} end first', N, land(D != 0, lor(land(D > 0, Qx >= 0, Qx <= D, Qy >= 0, Qy <= D), land(D < 0, Qx <= 0, Qx >= D, Qy <= 0, Qy >= D))))
    # the order of the ends
    B = before
    C3 = [cross(d, p) < 0, cross(d, q) > 0, cross(p, q) > 0]
    real_lemma(E, 'passed: the right end comes first, and then the left end is passed too or comes later', C3 + [B(p, d), lnot(B(q, p))], B(d, q))
    real_lemma(E, 'not passed: the left end is later as well, and the edge crosses the first ray', C3 + [lnot(B(p, d))], land(B(d, p), B(d, q), p[1] < 0, q[1] > 0))
    I1 = [pq > 0, pq == cross(p, q), p[1] < 0, q[1] > 0] + dom
    real_lemma(E, 'the first ray has a length', I1, w > 0)
    for a, b in ((p, q), (q, p)):
        D, Qx, Qy, ins = inside((a, b, o, e))
        s = 1 if a is p else -1
        real_lemma(E, 'the first ray: terms of the intersection', names, land(D == s * (q[1] - p[1]) * w, Qx == -a[1] * w, Qy == s * pq))
        D, Qx, Qy = z3.Reals('D Qx Qy')
        pw, qw, u1, u2 = z3.Reals('pw qw u1 u2')
        H = [w > 0, p[1] < 0, q[1] > 0, pw == p[1] * w, qw == q[1] * w]
        real_lemma(E, 'the first ray: below and above', H, land(pw < 0, qw > 0))
        H2 = [pw < 0, qw > 0, pq > 0, D == s * (qw - pw), Qx == (-pw if a is p else -qw), Qy == s * pq, pq <= qw - pw]
        real_lemma(E, 'the first ray: the intersection is reported', H2, land(D != 0, lor(land(D > 0, Qx >= 0, Qx <= D, Qy >= 0, Qy <= D), land(D < 0, Qx <= 0, Qx >= D, Qy <= 0, Qy >= D))))
    real_lemma(E, 'the first ray reaches the edge', [p[1] < 0, q[1] > 0, p[0] <= w, q[0] <= w], cross(p, q) <= (q[1] - p[1]) * w)
    real_lemma(E, 'the ends are off the first ray', [w > 0, p[1] < 0, q[1] > 0], land(cross(e, p) != 0, cross(e, q) != 0, nz(p), nz(q)))
    real_lemma(E, 'the upper half turn comes first', [p[1] < 0, q[1] >= 0, nz(q)], B(q, p))
    # an edge that ends at the vertex and leaves the sight line meets it there
    a, b, c = [z3.Reals(f'{n}x {n}y') for n in 'abc']
    t = z3.Real('t')
    for u, v in ((b, c), (c, b)):
        D, Qx, Qy, ins = inside((u, v, a, b))
        k = cross(sub(b, a), sub(c, a))
        real_lemma(E, 'an edge away from the sight line: terms of the intersection', [t == k], land(D == (t if u is b else -t), Qx == (0 if u is b else -t), Qy == (t if u is b else -t)))
        T = t if u is b else -t
        X = z3.RealVal(0) if u is b else -t
        real_lemma(E, 'an edge away from the sight line meets it at the vertex', [t != 0], lor(land(T > 0, X >= 0, X <= T), land(T < 0, X <= 0, X >= T)))
    real_lemma(E, 'a side other than collinear: three positions apart', [cross(sub(b, a), sub(c, a)) != 0], land(*[lor(x[0] != y[0], x[1] != y[1]) for x, y in ((a, b), (a, c), (b, c))]))


def order(E):
    """A sorted permutation of distinct vertices ranks them by direction."""
    C = z3.DeclareSort('Position')
    st = new_state()
    V, pos, bef = z3.Const('V', z3.ArraySort(IntS, C)), z3.Function('pos', C, IntS), z3.Function('bef', C, C, BoolS)
    c, d = z3.Consts('c d', C)
    i, j = z3.Ints('qi qj')
    n = z3.Int('n')
    st.assume(z3.ForAll([i, j], z3.Implies(land(i >= 0, i < j, j < n), lnot(bef(V[j], V[i]))), patterns=[z3.MultiPattern(V[i], V[j])]))
    for x in (c, d):
        st.assume(land(pos(x) >= 0, pos(x) < n, V[pos(x)] == x))
    st.assume(lnot(bef(c, c)))
    ensure(E, st, z3.Implies(bef(c, d), pos(c) < pos(d)), 'what comes before in direction is scanned before')


def meaning(E):
    """The statement of the property in terms of what the scan ensures."""
    from .c17 import TINY
    # C01: a crossing that the scan lets pass rounds to the vertex itself
    tx, v, r = z3.Real('true'), z3.Int('v'), z3.Int('reported')
    near = lambda r, t: land((z3.ToReal(r) - t) * 2 <= 1 + 2 * TINY, (z3.ToReal(r) - t) * 2 >= -1 - 2 * TINY)
    real_lemma(E, 'a crossing not counted is within the microdegree grid of the vertex', [near(r, tx), r == v], land(tx - z3.ToReal(v) <= z3.RealVal('0.50001'), z3.ToReal(v) - tx <= z3.RealVal('0.50001')))
    # C02: an edge that meets the sight line of an unobstructed vertex meets it in the vertex, and is reported so
    real_lemma(E, 'a meeting point that is the vertex is reported as the vertex', [near(r, tx), tx == z3.ToReal(v)], r == v)
    pt = lambda n: z3.Reals(f'{n}x {n}y')
    a, b, o, d = [pt(n) for n in 'abod']
    n, D, Qx, Qy = __import__('dv.props.c17', fromlist=['spec_terms']).spec_terms((a, b, o, d))
    t, u = z3.Reals('t u')
    DD, X, Y = z3.Reals('D Qx Qy')
    ins = lambda D, X, Y: lor(land(D > 0, X >= 0, X <= D, Y >= 0, Y <= D), land(D < 0, X <= 0, X >= D, Y <= 0, Y >= D))
    real_lemma(E, 'a reported meeting point lies on both closed segments', [DD != 0, ins(DD, X, Y), t * DD == X, u * DD == Y], land(t >= 0, t <= 1, u >= 0, u <= 1))
    nx, ny, mx, my, px, py = z3.Reals('nx ny mx my px py')
    D_, X_, Y_ = nx * my - ny * mx, px * my - py * mx, nx * py - ny * px
    real_lemma(E, 'it is one point of both', [D_ != 0, t * D_ == X_, u * D_ == Y_], land(t * nx + u * mx == px, t * ny + u * my == py))
    # common points are only the ends o and d of the sight line; o is not on the edge (or is an end of it): so it is d
    ex, ey = z3.Reals('ex ey')
    eq = lambda x, y: land(x[0] == y[0], x[1] == y[1])
    on_edge = z3.Bool('observer_on_edge')
    real_lemma(E, 'for an unobstructed vertex it is the vertex', [lor(eq((ex, ey), o), eq((ex, ey), d)), z3.Implies(eq((ex, ey), o), on_edge), lnot(on_edge)], eq((ex, ey), d))
    e1, e2 = lor(eq(a, o), eq(a, d)), lor(eq(b, o), eq(b, d))
    rr = z3.Reals('rx ry')
    real_lemma(E, 'on a common line: the reported point is the vertex', [lor(e1, e2), lor(land(e1, eq(rr, a)), land(e2, eq(rr, b))), lnot(eq(a, o)), lnot(eq(b, o))], eq(rr, d))


# the contracts of the geometry, proved of the functions themselves
NEEDS = {'c17': None, 'c20': None, 'c21': None}


ASSUMES = ['an obstacle vertex lies on one polygon only and a polygon has at least three vertices (polygons simple and pairwise disjoint); at most 2^20 vertices to a polygon',
           'shared pointers to edges are compared by the edge they point at: a set of them lists equal edges once',
           'the relation between the scan and the geometry (sight lines, crossings) is stated over positions known by the predicates the contracts of C17, C20, C21 and the side of a sight line define; the lemmas that relate these are proved over the reals']


COMMON += [Target('no obstacles', empty), Target('side of a sight line', side_of), Target('equal edges', same_edge), Target('geometry', geometry, budget=60),
           Target('order of the vertices', order), Target('meaning', meaning)]
