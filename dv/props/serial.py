"""The graph file: what the writer puts in it, what the reader takes out of it (C09, C10)."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target

FMAX = 1 << 40      # bytes of a file


def by_width(E, bits, signed):
    """The overload of the byte writer for an integer type."""
    return E.prog.func('serialize_to_mmap', lambda f: (f['params'][1].bits, bool(f['params'][1].signed)) == (bits, signed))


READERS = {'W8': ('deserialize_8_bytes_from_mmap', 8, (0, (1 << 64) - 1)), 'W4': ('deserialize_4_signed_bytes_from_mmap', 4, (-(1 << 31), (1 << 31) - 1)),
           'W1': ('deserialize_byte_from_mmap', 1, (0, 255))}
WRITERS = {'W8': (64, False), 'W4': (32, True), 'W1': (8, False)}


def file_of(E, f, st, name='file'):
    v = E.fresh(f['params'][0].strip(), name, st)
    i = z3.Int('qi')
    st.assume(v.len <= FMAX)
    st.assume(z3.ForAll([i], land(v.arr[i] >= -128, v.arr[i] <= 127), patterns=[v.arr[i]]))
    return v


def hints(E, s, loc, off, x, k):
    """The bytes of a number, least significant first if it is written so (used only where it is quickly proved)."""
    if k < 8:
        return s
    for d in range(k):
        q = x / (1 << (8 * d))
        s.assume(q == 256 * (x / (1 << (8 * d + 8))) + q % 256)     # division by a power of 256, step by step
        rs = returns(run(E, READERS['W1'][0], None, [Ref(loc), off + d], s.clone()))
        if len(rs) == 1 and E.quick(rs[0][0], rs[0][1] == q % 256, 2000):
            s = rs[0][0]
            s.assume(rs[0][1] == q % 256)
    return s


def words(E):
    """A number written is the number read back; nothing else changes; a reader looks at its own bytes only, and fails
    exactly when one of them lies outside the file."""
    for w, (rd, k, (lo, hi)) in READERS.items():
        f, g = by_width(E, *WRITERS[w]), E.prog.func(rd)
        st = new_state()
        v = file_of(E, f, st)
        off, x = z3.Int(E.fname('offset')), z3.Int(E.fname('value'))
        E.inputs.update({'offset': off, 'value': x})
        E.note_range(x, (lo, hi), st)
        E.note_range(off, (0, FMAX), st)
        st.assume(off + k <= v.len)
        loc = E.new_cell(st, v)
        outs = run(E, f, None, [Ref(loc), x, off], st)
        ensure_no_throw(E, outs, f'{k} bytes are written')
        for s, _ in returns(outs):
            E.vac.append(s)
            r = E.get(loc, s)
            o = z3.Int(E.fname('o'))
            ensure(E, s, r.len == v.len, f'writing {k} bytes keeps the size of the file')
            ensure(E, s, z3.Implies(lor(o < off, o >= off + k), r.arr[o] == v.arr[o]), f'writing {k} bytes changes only those')
            ensure(E, s, z3.Implies(land(o >= off, o < off + k), land(r.arr[o] >= -128, r.arr[o] <= 127)), f'{k} bytes are bytes')
            s = hints(E, s, loc, off, x, k)
            o2 = run(E, g, None, [Ref(loc), off], s)
            ensure_no_throw(E, o2, f'{k} bytes just written are read')
            for s2, y in returns(o2):
                ensure(E, s2, y == x, f'{k} bytes read back give what was written')
        # the reader on any file at any offset
        st = new_state()
        v = file_of(E, g, st)
        off = z3.Int(E.fname('offset'))
        E.note_range(off, (0, (1 << 64) - 1), st)
        outs = run(E, g, None, [v, off], st)
        for s, _ in throws(outs):
            ensure(E, s, off + k > v.len, f'reading {k} bytes inside the file succeeds')
        for s, y in returns(outs):
            E.vac.append(s)
            ensure(E, s, off + k <= v.len, f'reading {k} bytes beyond the file is an error')
            ensure(E, s, land(y >= lo, y <= hi), f'{k} bytes read are in range')
            u = file_of(E, g, s, 'other')
            s.assume(off + k <= u.len)
            for d in range(k):
                s.assume(u.arr[off + d] == v.arr[off + d])
            for s2, z in returns(run(E, g, None, [u, off], s)):
                ensure(E, s2, z == y, f'what {k} bytes mean depends on them alone')
            s0 = s.clone()
            for d in range(k):
                s0.assume(v.arr[off + d] == 0)
            ensure(E, s0, y == 0, f'{k} zero bytes mean zero')



# ------------------------------------------------------------------ the graph, known by its contract (C11, C15)
class Graph:
    """Any graph over polygons: its vertices are those of its polygons, one polygon after the other; adjacency and crossing
    edges are relations between vertices, symmetric and without loops (C03, C13, C11)."""

    def __init__(self, E, st, pairs=True):
        self.E = E
        coord_domain(E, lon=(-(1 << 31), (1 << 31) - 1), lat=(-(1 << 31), (1 << 31) - 1))
        F = lambda n, *s: z3.Function(n, *s)
        self.G, self.P = [E.opaque_recs.setdefault(n, z3.DeclareSort(n + '#')) for n in ('Graph', 'Polygon')]
        self.cty = rec_ty(E, 'Coordinate')
        self.C = E.sort_of(self.cty)
        self.sz, self.vx = F('polygon.size', self.P, IntS), F('polygon.vertex', self.P, IntS, self.C)
        self.flat = F('vertices_before', IntS, IntS)
        self.adj, self.xm = F('adjacent', self.C, self.C, BoolS), F('crossing', self.C, self.C, BoolS)
        self.isv = F('is_vertex', self.C, BoolS)
        self.polys = Vec(z3.Int(E.fname('polygons.len')), z3.Const(E.fname('polygons'), z3.ArraySort(IntS, self.P)), rec_ty(E, 'Polygon'))
        self.verts = Vec(z3.Int(E.fname('vertices.len')), z3.Const(E.fname('vertices'), z3.ArraySort(IntS, self.C)), self.cty)
        self.np, self.n = self.polys.len, self.verts.len
        for x in (self.np, self.n):
            E.set_rng(x, (0, NMAX))
            st.assume(land(x >= 0, x <= NMAX))
        self.value = Rec('Graph', {'#t': z3.Const(E.fname('graph'), self.G)}, rec_ty(E, 'Graph'))
        p, q, i = z3.Ints('qp qq qi')
        c, d, po = z3.Const('qc', self.C), z3.Const('qd', self.C), z3.Const('qpo', self.P)
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        A([po], land(self.sz(po) >= 0, self.sz(po) <= NMAX), self.sz(po))
        E.axioms.append(land(self.flat(0) == 0, self.flat(self.np) == self.n))
        f, pa = self.flat, self.polys.arr
        # consequences of flat(p + 1) = flat(p) + size of polygon p, proved in `places`
        if pairs:
            A([p, q], z3.Implies(land(p >= 0, p < q, q <= self.np), f(p) + self.sz(pa[p]) <= f(q)), z3.MultiPattern(f(p), f(q)))
        else:
            A([p], z3.Implies(land(p >= 0, p < self.np), f(p) + self.sz(pa[p]) <= f(self.np)), f(p))
        A([p], z3.Implies(land(p >= 0, p <= self.np), land(f(p) >= 0, f(p) <= self.n)), f(p))
        A([p, q], z3.Implies(land(p >= 0, p < self.np, q >= 0, q < self.sz(pa[p])), self.verts.arr[f(p) + q] == self.vx(pa[p], q)), self.vx(pa[p], q))
        A([i], z3.Implies(land(i >= 0, i < self.n), self.isv(self.verts.arr[i])), self.verts.arr[i])
        A([c, d], land(self.adj(c, d) == self.adj(d, c), z3.Implies(self.adj(c, d), c != d)), self.adj(c, d))
        A([c, d], land(self.xm(c, d) == self.xm(d, c), z3.Implies(self.xm(c, d), self.adj(c, d))), self.xm(c, d))
        K = E.contracts
        K['Graph::get_vertices'] = lambda E, st, this, a, fn: self.listed(st, this, 'verts')
        K['Graph::get_polygons'] = lambda E, st, this, a, fn: self.listed(st, this, 'polys')
        K['Graph::has_edge'] = lambda E, st, this, a, fn: self.query(st, this, a, False)
        K['Graph::is_edge_meridian_crossing'] = lambda E, st, this, a, fn: self.query(st, this, a, True)
        K['Graph::has_vertex'] = lambda E, st, this, a, fn: self.isv(self.cval(a[0], st))
        K['Polygon::get_vertices'] = self.vertices_of
        for m in ('remove_edge', 'remove_directed_edge', 'add_vertex', 'get_neighbors', 'add_edge', 'add_directed_edge'):
            K['Graph::' + m] = self.no(m)

    def step(self, k):
        """Definition of the first vertex of a polygon, one step."""
        return land(self.flat(k + 1) == self.flat(k) + self.sz(self.polys.arr[k]))

    def no(self, m):
        def f(E, st, this, a, fn):
            raise Unsupported(f'Graph::{m} in the serializer')
        return f

    def cval(self, a, st):
        v = self.E.get(a.loc, st) if isinstance(a, Ref) else a
        return self.E.pack(v, self.cty, st)

    def listed(self, st, this, what):
        v = self.E.get(this, st)
        return self.lists.get(v.f['#t'].get_id(), {}).get(what) or getattr(self, what)

    lists = {}

    def query(self, st, this, a, cross):
        c, d = [self.cval(x, st) for x in a]
        g = self.E.get(this, st)
        self.E.throw_if(st, land(c != d, lnot(land(self.isv(c), self.isv(d)))), Opaque('std::runtime_error'))
        if 'edge' in g.f:
            e, x = g.f['edge'][c][d], g.f['direct'][c][d]
            return land(e, lnot(x)) if cross else e
        return (self.xm if cross else self.adj)(c, d)

    def vertices_of(self, E, st, this, a, fn):
        t = E.get(this, st).f['#t']
        v = z3.Const(E.fname('corners'), z3.ArraySort(IntS, self.C))
        i = z3.Int('qi')
        st.assume(land(self.sz(t) >= 0, self.sz(t) <= NMAX))
        st.assume(z3.ForAll([i], v[i] == self.vx(t, i), patterns=[v[i], self.vx(t, i)]))
        return Vec(self.sz(t), v, self.cty)


class File:
    """Numbers in a file: W8, W4, W1 (file, position) are what the readers return, and the writers are known by the
    contract proved in `words`."""

    def __init__(self, E, st):
        self.E = E
        self.known = {}         # positions worth recognising: width -> [(position, value)], used where proved
        arr = z3.ArraySort(IntS, IntS)
        self.W = {w: z3.Function(w, arr, IntS, IntS) for w in READERS}
        a, o = z3.Const('qa', arr), z3.Int('qo')
        for w, (rd, k, (lo, hi)) in READERS.items():
            E.axioms.append(z3.ForAll([a, o], land(self.W[w](a, o) >= lo, self.W[w](a, o) <= hi), patterns=[self.W[w](a, o)]))
            E.contracts[rd] = self.reader(w, k, (lo, hi))
        E.contracts['serialize_to_mmap'] = self.write

    def reader(self, w, k, r):
        def f(E, st, this, a, fn):
            v = E.get(a[0].loc, st)
            E.throw_if(st, lnot(a[1] + k <= v.len), Opaque('std::runtime_error'))
            x = self.W[w](v.arr, a[1])
            for at, y in self.known.get(w, []):
                if E.ematch(st, a[1] == at) and E.ematch(st, x == y):
                    return y
            E.note_range(x, r, st, True)
            return x
        return f

    def write(self, E, st, this, a, fn):
        t = fn['params'][1]
        ws = [w for w, b in WRITERS.items() if b == (t.bits, bool(t.signed))]
        if not ws:
            return NotImplemented
        k = READERS[ws[0]][1]
        loc, x, off = a[0].loc, a[1], a[2]
        v = E.flat(E.get(loc, st), st)
        E.oblige(st, land(off >= 0, off + k <= v.len), 'bounds', f'{k} bytes are written inside the file', E.cur_line)
        b = z3.Const(E.fname('file'), v.arr.sort())
        o = z3.Int('qo')
        st.assume(self.W[ws[0]](b, off) == x)
        for w, (_, j, _) in READERS.items():
            W = self.W[w]
            st.assume(z3.ForAll([o], z3.Implies(lor(o + j <= off, o >= off + k), W(b, o) == W(v.arr, o)), patterns=[W(b, o)]))
        E.set(loc, Vec(v.len, b, v.ety), st)
        return VOID


NMAX = 1 << 20


class Layout:
    """Where the format puts things, as functions of the graph."""

    def __init__(self, G):
        self.G = G
        self.row = z3.Function('row_at', IntS, IntS)               # first byte of a row, from the start of the matrix
        self.cnt = z3.Function('crossings_before', IntS, IntS, IntS)   # crossing edges (a, b), b < a, before (i, j)
        self.num = z3.Function('edge_number', IntS, IntS, IntS)
        self.enc = z3.Function('row_byte', IntS, IntS, IntS)
        self.isx = z3.Function('number_of_a_crossing_edge', IntS, BoolS)
        self.M = z3.Int('slots')
        self.sl = z3.Function('slot_at', IntS, IntS)

    def poly(self, p):
        return 8 + 8 * p + 8 * self.G.flat(p)

    def matrix(self):
        return self.poly(self.G.np)

    def at(self, i, j):
        return self.matrix() + self.row(i) + j

    def slots(self):
        return self.matrix() + self.row(self.G.n)

    def slot(self, m):
        return self.sl(m)

    def slot_def(self, m):
        return self.sl(m) == self.slots() + 8 * (m + 1)

    def cross(self, i, j):
        return self.G.xm(self.G.verts.arr[i], self.G.verts.arr[j])

    def adj(self, i, j):
        return self.G.adj(self.G.verts.arr[i], self.G.verts.arr[j])


def ceil8(x):
    return (x + 7) / 8


class Setup:
    """The graph, the file and the layout together, with the facts about the layout that `places` proves."""

    def __init__(self, E, st, counted=True, pairs=True):
        self.E, self.st = E, st
        E.guess, E.sym_unroll, E.unroll_inner = False, 9, True
        self.G, self.F = Graph(E, st, pairs), File(E, st)
        self.L = Layout(self.G)
        L, G = self.L, self.G
        a, b, i, j = z3.Ints('qa qb qi qj')
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        E.axioms.append(land(L.row(0) == 0, L.cnt(0, 0) == 0))
        if pairs:
            A([a, b], z3.Implies(land(a >= 0, a < b, b <= NMAX), L.row(a) + ceil8(a) <= L.row(b)), z3.MultiPattern(L.row(a), L.row(b)))
        else:
            A([a], z3.Implies(land(a >= 0, a < G.n), L.row(a) + ceil8(a) <= L.row(G.n)), L.row(a))
        A([a], z3.Implies(land(a >= 0, a <= NMAX), land(L.row(a) >= 0, L.row(a) <= a * (1 << 17))), L.row(a))
        A([a], L.slot_def(a), L.sl(a))
        n = G.n
        st.assume(land(L.M >= 0, L.M <= NMAX * NMAX))
        E.set_rng(L.M, (0, NMAX * NMAX))
        # proved of the count (`crossing edges`)
        if counted:
            A([i, j], z3.Implies(land(j >= 0, j <= i, lor(i < n, land(i == n, j == 0))), L.cnt(i, j) <= L.M), L.cnt(i, j))
        # a definition, well founded because edge numbers differ (`places`)
        A([i, j], z3.Implies(land(j >= 0, j < i, i < n), land(L.num(i, j) > 0, L.isx(L.num(i, j)) == L.cross(i, j))), L.num(i, j))
        E.loop_defs.append(self.defs)

    def depth(self, E, L):
        return list(E.cur_loops)

    def defs(self, E, L):
        """One step of each definition, at the current iteration."""
        Y, G = self.L, self.G
        O = self.depth(E, L)
        k = L.k(L.head)
        out = [G.step(k), Y.row(k + 1) == Y.row(k) + ceil8(k), z3.Implies(k >= 0, Y.cnt(k + 1, 0) == Y.cnt(k, k))]
        if O:
            i = O[-1].k(O[-1].head)
            x = Y.cross(i, k)
            out += [Y.slot_def(Y.cnt(i, k)), z3.Implies(land(k >= 0, k < i), Y.cnt(i, k + 1) == Y.cnt(i, k) + z3.If(x, I(1), I(0))), self.num_def(i, k), self.enc_def(i, k)]
        return out

    def num_def(self, i, j):
        sq = self.E.mul(i, i, self.st) if self.E.abstract_mul else i * i
        return self.L.num(i, j) == j + (sq + i) / 2

    def enc_def(self, i, j):
        Y = self.L
        bit = lambda b: land(8 * j + b <= i, Y.adj(i, 8 * j + b))
        return Y.enc(i, j) == sum([z3.If(bit(b), I(1 << b), I(0)) for b in range(8)], I(0))


def accumulators(E, L):
    return [l for l in L.leaves if l.kind == 'val' and l.root != L.kcell and l.delta is None and L.get(l, L.entry).sort() == IntS]


def crossings(E):
    """The number of slots: never fewer than the crossing edges written."""
    st = new_state()
    S = Setup(E, st, counted=False)
    Y, G = S.L, S.G
    a, b = z3.Ints('qa qb')

    def prov(E, L):
        out = []
        O = S.depth(E, L)
        for c, l in enumerate(accumulators(E, L)):
            v = lambda s, l=l: L.get(l, s)
            if not O:
                at = lambda s: (L.k(s), I(0))
                most = lambda s: L.k(s) * G.n
            elif len(O) == 1:
                ko = O[0].k(O[0].head)
                at = lambda s: (ko, z3.If(L.k(s) < ko, L.k(s), ko))
                most = lambda s: ko * G.n + L.k(s)
            else:
                continue
            out.append((f'as many as so far#{c}', lambda s, v=v, at=at: land(v(s) >= Y.cnt(*at(s)), Y.cnt(*at(s)) >= 0)))
            out.append((f'at most the pairs so far#{c}', lambda s, v=v, most=most: v(s) <= most(s)))
            before = (lambda s: a < L.k(s)) if not O else (lambda s: lor(a < ko, land(a == ko, b <= L.k(s))))
            out.append((f'as many as ever#{c}', lambda s, v=v, before=before: z3.ForAll([a, b], z3.Implies(land(b >= 0, b <= a, before(s)), Y.cnt(a, b) <= v(s)), patterns=[Y.cnt(a, b)])))
        return out
    E.providers.append(prov)
    outs = run(E, 'GraphSerializer::calculate_number_of_meridian_spanning_edges_for_graph', None, [graph_ptr(E, S, st)], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        E.vac.append(s)
        i, j = z3.Int(E.fname('i')), z3.Int(E.fname('j'))
        ensure(E, s, z3.Implies(land(j >= 0, j <= i, i < G.n), Y.cnt(i, j) <= r), 'there is a slot for every crossing edge')
        ensure(E, s, Y.cnt(G.n, 0) <= r, 'there is a slot for every crossing edge of all rows')
        ensure(E, s, land(r >= 0, r <= G.n * G.n), 'at most one slot per pair')


def graph_ptr(E, S, st):
    t = E.prog.func('GraphSerializer::serialize_to_file')['params'][0]
    S.gloc = E.new_cell(st, S.G.value)
    return Ptr([(z3.BoolVal(True), S.gloc)], t.strip())


def places(E):
    """Facts about the layout, by induction over the definitions."""
    i, j, k, a, b, f, r, z, s = z3.Ints('i j k a b f r z s')
    f1 = z3.Int('f1')
    F = z3.Function('f', IntS, IntS)
    sz = z3.Function('s', IntS, IntS)
    # first vertex of a polygon, first byte of a row: sums of what comes before
    for nm, size in (('polygon', sz), ('row', ceil8)):
        step = F(k + 1) == F(k) + size(k)
        real_lemma(E, f'{nm}: starts after what is before it, base', [F(a + 1) == F(a) + size(a)], F(a) + size(a) <= F(a + 1))
        real_lemma(E, f'{nm}: starts after what is before it, step', [a < k, F(a) + size(a) <= F(k), size(k) >= 0, step], F(a) + size(a) <= F(k + 1))
        real_lemma(E, f'{nm}: starts are not negative', [F(k) >= 0, size(k) >= 0, step], F(k + 1) >= 0)
    real_lemma(E, 'rows are not longer than the widest', [k >= 0, k < NMAX, F(k) <= k * (1 << 17), F(k + 1) == F(k) + ceil8(k)], F(k + 1) <= (k + 1) * (1 << 17))
    # closed form of the matrix size
    for c in range(8):
        cl = lambda c: 4 * a * a + 3 * a + (c * (a + 1) - 1 if c else 0)
        nx = cl(c + 1) if c < 7 else 4 * (a + 1) * (a + 1) + 3 * (a + 1)
        real_lemma(E, f'bytes of the first rows, remainder {c}', [a >= 0, k == 8 * a + c, F(k) == cl(c), F(k + 1) == F(k) + ceil8(k)], F(k + 1) == nx)
    # what a bit of a row byte says
    bs = [z3.Bool(f'b{t}') for t in range(8)]
    byte = sum([z3.If(x, I(1 << t), I(0)) for t, x in enumerate(bs)], I(0))
    for t in range(8):
        real_lemma(E, f'bit {t} of a row byte', [], ((byte / (1 << t)) % 2 == 1) == bs[t])
    real_lemma(E, 'a row byte is a byte', [], land(byte >= 0, byte <= 255))
    # edge numbers
    T = z3.Function('triangle', IntS, IntS)
    real_lemma(E, 'triangle numbers, one step', [i >= 0], ((i + 1) * (i + 1) + (i + 1)) / 2 == (i * i + i) / 2 + i + 1)
    real_lemma(E, 'triangle numbers grow, base', [T(i + 1) == T(i) + i + 1], T(i) + i < T(i + 1))
    real_lemma(E, 'triangle numbers grow, step', [i < k, i >= 0, T(i) + i < T(k), T(k + 1) == T(k) + k + 1], T(i) + i < T(k + 1))
    real_lemma(E, 'different edges have different numbers', [0 <= j, j <= i, 0 <= b, b <= a, i < a, T(i) + i < T(a)], j + T(i) != b + T(a))
    real_lemma(E, 'the number of an edge is positive', [i >= 1, j >= 0, T(0) == 0, T(0) + 0 < T(i)], j + T(i) > 0)


def closed(L, st, n):
    """Bytes of the first n rows, from the lemmas of `places`."""
    a, c = z3.Int('whole'), z3.Int('rest')
    st.assume(land(a >= 0, c >= 0, c < 8, n == 8 * a + c))
    return 4 * a * a + 3 * a + z3.If(c > 0, c * (a + 1) - 1, I(0)), a, c


def size(E):
    """The file is as large as what is written."""
    st = new_state()
    S = Setup(E, st)
    Y, G = S.L, S.G
    E.axioms.clear()
    E.unary = None
    f, a, c = closed(Y, st, G.n)
    outs = run(E, 'GraphSerializer::calculate_number_of_bytes_for_graph', None, [graph_ptr(E, S, st), Y.M], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        E.vac.append(s)
        for d in range(8):
            s1 = s.clone()
            s1.assume(c == d)
            need = 8 + 8 * G.np + 8 * G.n + (4 * a * a + 3 * a + (d * (a + 1) - 1 if d else 0)) + 8 * (Y.M + 1)
            ensure(E, s1, land(r >= need, r <= FMAX * 16), f'room for everything that is written, {d} vertices more than a multiple of eight')


# ------------------------------------------------------------------ the operating system
class System:
    """Files as the system calls leave them; mapping a file gives its bytes.  may_fail: any call may report an error."""

    def __init__(self, E, F, may_fail=False):
        self.E, self.F, self.fail = E, F, may_fail
        K = E.contracts
        K['open'] = self.open
        K['ftruncate'] = self.truncate
        K['close'] = lambda E, st, this, a, fn: self.status(st)
        K['handle_mmap_error'] = self.error
        K['mio::make_mmap_sink'] = K['mio::make_mmap_source'] = self.map
        E.opaque_hook = self.opaque
        self.file = None

    def status(self, st):
        if not self.fail:
            return I(0)
        r = z3.Int(self.E.fname('status'))
        st.assume(lor(r == 0, r == -1))
        return r

    def opaque(self, E, m, rec, loc, v, a, st, node, fn):
        if m == 'operator bool' and rec == 'std::error_code':
            return z3.Bool(E.fname('failed')) if self.fail else z3.BoolVal(False)
        return NotImplemented

    def error(self, E, st, this, a, fn):
        E.throw_if(st, z3.BoolVal(True), Opaque('std::runtime_error'))
        raise Dead()

    def open(self, E, st, this, a, fn):
        flags = a[1]
        if not z3.is_int_value(flags):
            raise Unsupported('flags of open')
        arr = z3.Const(E.fname('opened'), z3.ArraySort(IntS, IntS))
        n = z3.Int(E.fname('opened.len'))
        st.assume(land(n >= 0, n <= FMAX))
        if flags.as_long() & 0o1000:
            n = I(0)
        st.ghost['file'] = Vec(n, arr, None)
        fd = z3.Int(E.fname('fd'))
        st.assume(fd >= (-1 if self.fail else 0))
        return fd

    def truncate(self, E, st, this, a, fn):
        v = st.ghost.get('file')
        if v is None:
            raise Unsupported('ftruncate')
        b = z3.Const(E.fname('file'), v.arr.sort())
        o = z3.Int('qo')
        n = a[1]
        for w, (_, k, _) in READERS.items():
            W = self.F.W[w]
            st.assume(z3.ForAll([o], z3.Implies(land(o >= v.len, o + k <= n), W(b, o) == 0), patterns=[W(b, o)]))
        st.ghost['file'] = Vec(n, b, None)
        return self.status(st)

    def map(self, E, st, this, a, fn):
        v = st.ghost.get('file')
        if v is None:
            raise Unsupported('mapped file')
        return Vec(v.len, v.arr, fn['ret'].args[0])


def good(S, B, partial=None):
    """[(what, formula)]: the file B holds the graph."""
    Y, G, W = S.L, S.G, S.F.W
    p, q, i, j, m = z3.Ints('qp qq qi qj qm')
    pa = G.polys.arr
    cx = lambda t: (G.E.acc(G.C, lonlat_index(G.E, 0), t), G.E.acc(G.C, lonlat_index(G.E, 1), t))
    v = G.vx(pa[p], q)
    o = Y.poly(p) + 8 + 8 * q
    n = G.n
    return [('the number of polygons comes first', W['W8'](B, I(0)) == G.np),
            ('every polygon starts with its size', z3.ForAll([p], z3.Implies(land(p >= 0, p < G.np), W['W8'](B, Y.poly(p)) == G.sz(pa[p])), patterns=[G.flat(p)])),
            ('longitudes', z3.ForAll([p, q], z3.Implies(land(p >= 0, p < G.np, q >= 0, q < G.sz(pa[p])), W['W4'](B, o) == cx(v)[0]), patterns=[v])),
            ('latitudes', z3.ForAll([p, q], z3.Implies(land(p >= 0, p < G.np, q >= 0, q < G.sz(pa[p])), W['W4'](B, o + 4) == cx(v)[1]), patterns=[v])),
            ('rows of the matrix', z3.ForAll([i, j], z3.Implies(land(i >= 0, i < n, j >= 0, j < ceil8(i)), W['W1'](B, Y.at(i, j)) == Y.enc(i, j)), patterns=[Y.enc(i, j)])),
            ('the number of slots', W['W8'](B, Y.slots()) == Y.M),
            ('a slot for every crossing edge', z3.ForAll([i, j], z3.Implies(land(j >= 0, j < i, i < n, Y.cross(i, j)), land(Y.cnt(i, j) >= 0, Y.cnt(i, j) < Y.M, W['W8'](B, Y.slot(Y.cnt(i, j))) == Y.num(i, j))), patterns=[Y.cnt(i, j)])),
            ('nothing else in the slots', z3.ForAll([m], z3.Implies(land(m >= 0, m < Y.M), lor(W['W8'](B, Y.slot(m)) == 0, Y.isx(W['W8'](B, Y.slot(m))))), patterns=[Y.slot(m)]))]


def lonlat_index(E, k):
    """Position, in the packed Coordinate, of the field behind a getter."""
    st = new_state()
    c = E.fresh(rec_ty(E, 'Coordinate'), 'probe', st)
    x = lonlat(E, c, st)[k]
    for i, v in enumerate(c.f.values()):
        if v.eq(x):
            return i
    raise Unsupported('the fields behind the getters of Coordinate')


def places_so_far(S, E, L):
    """Invariants of the loops that compute where polygons and rows start."""
    Y, G = S.L, S.G
    t = z3.Int('qt')
    out = []
    for c, rp in enumerate(L.values(Vec, lambda v: v.arr.sort().range() == IntS)):
        arr = lambda s, rp=rp: E.flat(L.at(rp, s), s).arr
        for nm, f in (('polygons', lambda t: Y.poly(t)), ('rows', lambda t: Y.matrix() + Y.row(t))):
            if not E.quick(L.entry, arr(L.entry)[0] == f(I(0)), 300):
                continue
            g = G.flat(t) if nm == 'polygons' else Y.row(t)
            out.append((f'places of {nm} so far#{c}', lambda s, arr=arr, f=f, g=g: z3.ForAll([t], z3.Implies(land(t >= 0, t <= L.k(s)), arr(s)[t] == f(t)), patterns=[arr(s)[t], g])))
    return out


class Writing:
    """Invariants of the loops that write."""

    def __init__(self, S):
        self.S = S
        S.E.providers.append(self.provider)

    def files(self, L):
        return L.values(Vec, lambda v: v.ety is not None and v.ety.strip().c == 'int' and v.ety.strip().bits == 8)

    def provider(self, E, L):
        S, Y, G, W = self.S, self.S.L, self.S.G, self.S.F.W
        out = []
        t, o, p, q, i, j, m = z3.Ints('qt qo qp qq qi qj qm')
        fs = self.files(L)
        if not fs:
            return places_so_far(S, E, L)
        O = S.depth(E, L)
        top = O[0] if O else L
        ks = [x.k(x.head) for x in O]
        acc = accumulators(E, top)
        over = runs_over(E, top, G.np), runs_over(E, top, G.n)
        rp = fs[0]
        v0 = E.flat(L.at(rp, L.entry), L.entry)
        B = lambda s: E.flat(L.at(rp, s), s).arr
        fact = dict(good(S, v0.arr))

        def upto(vs, s, body, pat, eq=False):
            """before the current iteration, in the order of the loops"""
            at = ks + [L.k(s)]
            c = z3.BoolVal(False)
            for d in range(min(len(vs), len(at))):
                last = d == len(at) - 1
                c = lor(c, land(*[x == y for x, y in zip(vs[:d], at[:d])], vs[d] <= at[d] if eq and not last else vs[d] < at[d]))
                if eq and d == len(vs) - 1:
                    pass
            return c

        def same(nm, lo, hi):
            """words in front of lo, and from hi on, as at the start"""
            for w, (_, k, _) in READERS.items():
                if lo is not None:
                    out.append((f'{nm}: {w} before', lambda s, w=w, k=k: z3.ForAll([o], z3.Implies(o + k <= lo, W[w](B(s), o) == W[w](v0.arr, o)), patterns=[W[w](B(s), o)])))
                if hi is not None:
                    out.append((f'{nm}: {w} after', lambda s, w=w: z3.ForAll([o], z3.Implies(o >= (hi(s) if callable(hi) else hi), W[w](B(s), o) == W[w](v0.arr, o)), patterns=[W[w](B(s), o)])))
        pa = G.polys.arr
        if over[1] is not True and not acc:
            at = lambda s: ks + [L.k(s)]

            def polys(s, k):
                h = W['W8'](B(s), Y.poly(p)) == G.sz(pa[p])
                started = p < L.k(s) if not O else p <= ks[0]
                if k == 0:
                    return z3.ForAll([p], z3.Implies(land(p >= 0, p < G.np, started), h), patterns=[G.flat(p)])
                v = G.vx(pa[p], q)
                c = E.acc(G.C, lonlat_index(E, k - 1), v)
                done = p < L.k(s) if not O else lor(p < ks[0], land(p == ks[0], q < L.k(s)))
                return z3.ForAll([p, q], z3.Implies(land(p >= 0, p < G.np, q >= 0, q < G.sz(pa[p]), done), W['W4'](B(s), Y.poly(p) + 8 + 8 * q + 4 * (k - 1)) == c), patterns=[v])
            if len(O) <= 1:
                for k in range(3):
                    out.append((f'polygons written#{k}', lambda s, k=k: polys(s, k)))
                same('polygons', I(8), Y.matrix())
        if over[0] is not True and not acc:
            def rows(s):
                at = ks + [L.k(s)]
                done = i < at[0] if len(at) == 1 else lor(i < at[0], land(i == at[0], j < at[1]))
                return z3.ForAll([i, j], z3.Implies(land(i >= 0, i < G.n, j >= 0, j < ceil8(i), done), W['W1'](B(s), Y.at(i, j)) == Y.enc(i, j)), patterns=[Y.enc(i, j)])
            if len(O) <= 1:
                out.append(('rows written', rows))
                same('rows', Y.matrix(), Y.slots())
        if acc and len(O) <= 1:
            cur = lambda s: L.get(acc[0], s)
            out.append(('slots used', lambda s: cur(s) == (Y.cnt(L.k(s), 0) if not O else Y.cnt(ks[0], L.k(s)))))

            def slots(s):
                done = i < L.k(s) if not O else lor(i < ks[0], land(i == ks[0], j < L.k(s)))
                return z3.ForAll([i, j], z3.Implies(land(j >= 0, j < i, i < G.n, done, Y.cross(i, j)), land(Y.cnt(i, j) >= 0, Y.cnt(i, j) < cur(s), W['W8'](B(s), Y.slot(Y.cnt(i, j))) == Y.num(i, j))), patterns=[Y.cnt(i, j)])
            out.append(('slots written', slots))
            out.append(('slots hold crossing edges', lambda s: z3.ForAll([m], z3.Implies(land(m >= 0, m < cur(s)), Y.isx(W['W8'](B(s), Y.slot(m)))), patterns=[Y.slot(m)])))
            same('slots', Y.slot(0), lambda s: Y.slot(cur(s)))
        return out


def writer(E, faults=False):
    st = new_state()
    S = Setup(E, st)
    E.quick_ematch = True
    Y, G = S.L, S.G
    System(E, S.F, faults)
    Writing(S)
    E.contracts['GraphSerializer::calculate_number_of_meridian_spanning_edges_for_graph'] = lambda E, st, this, a, fn: Y.M

    def size(E, st, this, a, fn):
        n = z3.Int(E.fname('size'))
        E.oblige(st, a[1] == Y.M, 'precondition', 'the size is computed for the number of slots', E.cur_line)
        st.assume(land(n >= Y.slot(Y.M), n <= FMAX * 16))
        E.set_rng(n, (0, FMAX * 16))
        return n
    E.contracts['GraphSerializer::calculate_number_of_bytes_for_graph'] = size
    path = Opaque('path')
    outs = run(E, 'GraphSerializer::serialize_to_file', None, [graph_ptr(E, S, st), path], st)
    if not faults:
        ensure_no_throw(E, outs, 'saving succeeds when the file system does')
    for s, _ in returns(outs):
        E.vac.append(s)
        if faults:
            continue
        fs = [v for v in s.env.values() if isinstance(v, Vec) and v.ety is not None and v.ety.strip().c == 'int' and v.ety.strip().bits == 8]
        if len(fs) != 1:
            raise Unsupported('the mapped file')
        for nm, f in good(S, E.flat(fs[0], s).arr):
            ensure(E, s, f, f'the file holds the graph: {nm}')
        ensure(E, s, fs[0].len >= Y.slot(Y.M), 'the file is as long as its parts')
        ensure(E, s, E.get(S.gloc, s).f['#t'] == G.value.f['#t'], 'saving does not change the graph')


# ------------------------------------------------------------------ loading
class Loaded:
    """What the loader builds: polygons and a graph, known by their contracts (C15, C11)."""

    def __init__(self, S, good=True):
        self.S, E = S, S.E
        self.good = good
        K = E.contracts
        K['Polygon::Polygon'], K['Graph::Graph'] = self.polygon, self.graph
        K['Graph::add_edge'] = self.add
        K['Graph::add_directed_edge'] = lambda E, st, this, a, fn: self.add(E, st, this, a, fn, False)
        self.built = []
        self.isv = z3.Function('is_vertex_of_the_loaded_graph', S.G.C, BoolS)

    def polygon(self, E, st, this, a, fn):
        G = self.S.G
        if not a:
            return Rec('Polygon', {'#t': z3.Const('Polygon.default', G.P)}, rec_ty(E, 'Polygon'))
        w = E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0]
        if not isinstance(w, Vec):
            return NotImplemented
        w = E.flat(w, st)
        t = z3.Const(E.fname('polygon'), G.P)
        if not self.good:
            E.throw_if(st, z3.Bool(E.fname('rejected')), Opaque('std::runtime_error'))
        q = z3.Int('qq')
        if self.good and E.cur_loops:
            src = G.polys.arr[E.cur_loops[0].k(E.cur_loops[0].head)]
            d = z3.Int(E.fname('differs'))
            # the vertices of a polygon, normalised again, are those vertices (C15)
            st.assume(lor(w.len != G.sz(src), land(d >= 0, d < w.len, w.arr[d] != G.vx(src, d)),
                          land(G.sz(t) == G.sz(src), qall([q], z3.Implies(land(q >= 0, q < G.sz(src)), G.vx(t, q) == G.vx(src, q)), [G.vx(t, q), G.vx(src, q)]))))
        return Rec('Polygon', {'#t': t}, rec_ty(E, 'Polygon'))

    def graph(self, E, st, this, a, fn):
        G = self.S.G
        if len(a) != 1:
            return NotImplemented
        w = E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0]
        if not isinstance(w, Vec):
            return NotImplemented
        w = E.flat(w, st)
        t = z3.Const(E.fname('loaded'), G.G)
        n, va = z3.Int(E.fname('loaded.len')), z3.Const(E.fname('loaded.vertices'), z3.ArraySort(IntS, G.C))
        i = z3.Int('qi')
        if self.good:
            # the vertices of a graph are those of its polygons, one polygon after the other (C11)
            p, q = z3.Int(E.fname('p')), z3.Int(E.fname('q'))
            pin = land(p >= 0, p < G.np)
            E.oblige(st, w.len == G.np, 'post', 'as many polygons as saved')
            E.oblige(st, z3.Implies(pin, G.sz(w.arr[p]) == G.sz(G.polys.arr[p])), 'post', 'the polygons saved, in their order: sizes')
            E.oblige(st, z3.Implies(land(pin, q >= 0, q < G.sz(G.polys.arr[p])), G.vx(w.arr[p], q) == G.vx(G.polys.arr[p], q)), 'post', 'the polygons saved, in their order: vertices')
            n, va = G.n, G.verts.arr
        else:
            E.set_rng(n, (0, FMAX))
            st.assume(land(n >= 0, n <= FMAX))
        st.assume(qall([i], z3.Implies(land(i >= 0, i < n), self.isv(va[i])), [va[i]]))
        G.lists[t.get_id()] = {'verts': Vec(n, va, G.cty), 'polys': w}
        none = z3.K(G.C, z3.K(G.C, z3.BoolVal(False)))
        return Rec('Graph', {'#t': t, 'edge': none, 'direct': none}, rec_ty(E, 'Graph'))

    def add(self, E, st, this, a, fn, both=True):
        G = self.S.G
        g = E.get(this, st)
        x, y = G.cval(a[0], st), G.cval(a[1], st)
        cr = E.get(a[2].loc, st) if isinstance(a[2], Ref) else a[2]
        if 'edge' not in g.f:
            raise Unsupported('an edge added to some other graph')
        E.throw_if(st, land(x != y, lnot(land(self.isv(x), self.isv(y)))), Opaque('std::runtime_error'))
        def named(m, new):
            """m with the pairs named holding new(what they held)"""
            r = m
            for u, v in ((x, y), (y, x)) if both else ((x, y),):
                r = z3.Store(r, u, z3.Store(r[u], v, new(m[u][v])))
            return r
        t = [z3.Const(E.fname(n), g.f['edge'].sort()) for n in ('edges', 'directs')]
        st.assume(t[0] == z3.If(x != y, named(g.f['edge'], lambda o: z3.BoolVal(True)), g.f['edge']))
        st.assume(t[1] == z3.If(x != y, named(g.f['direct'], lambda o: lor(o, lnot(cr))), g.f['direct']))
        e2, d2 = t
        E.set(this, Rec('Graph', dict(g.f, edge=e2, direct=d2), g.ty), st)
        return VOID


class Reading:
    """Invariants of the loops that read the file B."""

    def __init__(self, S, Q, B):
        self.S, self.Q, self.B = S, Q, B
        self.pair = z3.Function('pair', IntS, IntS, BoolS)      # always true: the pairs of vertices looked at
        a, l = z3.Ints('qa ql')
        S.E.axioms.append(z3.ForAll([a, l], self.pair(a, l), patterns=[self.pair(a, l)]))
        S.E.providers.append(self.provider)
        S.E.loop_defs.append(self.facts)

    def facts(self, E, L):
        """What a byte of a row means, at the current byte and bit."""
        S, Y = self.S, self.S.L
        O = S.depth(E, L)
        if not O:
            k = L.k(L.head)
            return [S.G.step(k), Y.row(k + 1) == Y.row(k) + ceil8(k), Y.slot_def(k)]
        i, j = (O[-1].k(O[-1].head), L.k(L.head)) if len(O) == 1 else (O[0].k(O[0].head), O[1].k(O[1].head))
        out = [land(Y.enc(i, j) >= 0, Y.enc(i, j) <= 255)]
        if len(O) == 2:
            b = L.k(L.head)
            out += [S.num_def(i, 8 * j + b), Y.slot_def(Y.cnt(i, 8 * j + b)), z3.Implies(land(b >= 0, b < 8), E.Bit(Y.enc(i, j), b) == land(8 * j + b <= i, Y.adj(i, 8 * j + b)))]
        return out

    def provider(self, E, L):
        S, Y, G, W, B = self.S, self.S.L, self.S.G, self.S.F.W, self.B
        t, q, a, l = z3.Ints('qt qq qa ql')
        c1, c2 = z3.Const('qc', G.C), z3.Const('qd', G.C)
        O = S.depth(E, L)
        out = places_so_far(S, E, L) if not O else []
        for c, l0 in enumerate(accumulators(E, L)):
            if not O:
                out.append((f'place of the polygon#{c}', lambda s, l0=l0: L.get(l0, s) == Y.poly(L.k(s))))
        pa = G.polys.arr
        for c, rp in enumerate(L.values(Vec, lambda v: v.arr.sort().range() == G.P)):
            v = lambda s, rp=rp: E.flat(L.at(rp, s), s)
            out.append((f'as many polygons#{c}', lambda s, v=v: v(s).len == v(L.entry).len))
            out.append((f'polygons read#{c}', lambda s, v=v: qall([t], z3.Implies(land(t >= 0, t < L.k(s)), G.sz(v(s).arr[t]) == G.sz(pa[t])), [v(s).arr[t], pa[t]])))
            out.append((f'polygons read, vertices#{c}', lambda s, v=v: qall([t, q], z3.Implies(land(t >= 0, t < L.k(s), q >= 0, q < G.sz(pa[t])), G.vx(v(s).arr[t], q) == G.vx(pa[t], q)), [G.vx(v(s).arr[t], q), G.vx(pa[t], q)])))
        if O:
            ko = O[-1].k(O[-1].head)
            for c, rp in enumerate(L.values(Vec, lambda v: v.arr.sort().range() == G.C)):
                v = lambda s, rp=rp: E.flat(L.at(rp, s), s)
                out.append((f'as many vertices#{c}', lambda s, v=v: v(s).len == v(L.entry).len))
                out.append((f'vertices read#{c}', lambda s, v=v: qall([q], z3.Implies(land(q >= 0, q < L.k(s)), v(s).arr[q] == G.vx(pa[ko], q)), [v(s).arr[q], G.vx(pa[ko], q)])))
        for c, rp in enumerate(L.values(Map, lambda m: m.vty is None)):
            x = z3.Int('qx')
            dom = lambda s, rp=rp: L.at(rp, s).dom
            out.append((f'slots read#{c}', lambda s, dom=dom: qall([t], z3.Implies(land(t >= 0, t < L.k(s)), dom(s)[W['W8'](B, Y.slot(t))]), [Y.slot(t)])))
            out.append((f'numbers of crossing edges#{c}', lambda s, dom=dom: qall([x], z3.Implies(dom(s)[x], lor(x == 0, Y.isx(x))), [dom(s)[x]])))
        graphs = [rp for rp in L.values(Rec, lambda r: 'edge' in r.f)]
        for c, rp in enumerate(graphs):
            e = lambda s, rp=rp: L.at(rp, s).f['edge']
            d = lambda s, rp=rp: L.at(rp, s).f['direct']
            ks = [x.k(x.head) for x in O]
            out.append((f'the same graph#{c}', lambda s, rp=rp: L.at(rp, s).f['#t'] == L.at(rp, L.entry).f['#t']))
            out.append((f'edges of the graph#{c}', lambda s, e=e: qall([c1, c2], z3.Implies(e(s)[c1][c2], G.adj(c1, c2)), [e(s)[c1][c2]])))
            out.append((f'direct edges of the graph#{c}', lambda s, d=d: qall([c1, c2], z3.Implies(d(s)[c1][c2], lnot(G.xm(c1, c2))), [d(s)[c1][c2]])))

            def seen(s):
                k = L.k(s)
                at = ks + [k]
                if len(at) == 1:
                    return a < k
                last = 8 * at[1] + (at[2] if len(at) == 3 else 0)
                return lor(a < at[0], land(a == at[0], l < last))

            def read(s, e=e, d=d):
                u, v = G.verts.arr[a], G.verts.arr[l]
                return qall([a, l], z3.Implies(land(self.pair(a, l), l >= 0, l < a, a < G.n, seen(s), G.adj(u, v)),
                                                    land(e(s)[u][v], e(s)[v][u], z3.Implies(lnot(G.xm(u, v)), land(d(s)[u][v], d(s)[v][u])))), [self.pair(a, l)])
            if len(ks) <= 2:
                out.append((f'edges read#{c}', read))
        return out


def reader(E):
    """The loader, on a file that holds a graph."""
    st = new_state()
    S = Setup(E, st, pairs=False)
    E.sym_unroll, E.unroll_inner, E.quick_ematch = 0, False, True
    E.abstract_mul, E.small = True, NMAX
    Y, G = S.L, S.G
    E.loop_defs.clear()
    System(E, S.F)
    Q = Loaded(S)
    B = z3.Const('file', z3.ArraySort(IntS, IntS))
    n = z3.Int('file.len')
    E.set_rng(n, (0, FMAX * 16))
    st.assume(land(n >= Y.slot(Y.M), n <= FMAX * 16))
    st.ghost['file'] = Vec(n, B, None)
    for nm, f in good(S, B):
        st.assume(f)
    S.F.known['W8'] = [(I(0), G.np), (Y.slots(), Y.M)]
    R = Reading(S, Q, B)
    outs = run(E, 'GraphSerializer::deserialize_from_file', None, [Opaque('path')], st)
    ensure_no_throw(E, outs, 'loading a saved graph succeeds')
    for s, r in returns(outs):
        E.vac.append(s)
        g = E.get(r.alts[0][1], s)
        lists = G.lists[g.f['#t'].get_id()]
        a, b = [z3.Int(E.fname(x)) for x in 'ab']
        vs = lists['verts']
        ensure(E, s, vs.len == G.n, 'as many vertices as saved')
        s.assume(land(a >= 0, a < G.n, b >= 0, b < G.n, R.pair(a, b), R.pair(b, a)))
        ensure(E, s, vs.arr[a] == G.verts.arr[a], 'the vertices saved')
        u, v = G.verts.arr[a], G.verts.arr[b]
        e, x = g.f['edge'][u][v], land(g.f['edge'][u][v], lnot(g.f['direct'][u][v]))
        for nm, c in (('a later vertex', a < b), ('an earlier vertex', a > b), ('itself', a == b)):
            s1 = s.clone()
            s1.assume(c)
            ensure(E, s1, e == G.adj(u, v), f'the same adjacency, {nm}')
            ensure(E, s1, x == G.xm(u, v), f'the same meridian crossing flag, {nm}')


def hostile(E):
    """The loader, on any bytes, with any failing system call: an error or a graph, never an access outside the file."""
    st = new_state()
    coord_domain(E, lon=(-(1 << 31), (1 << 31) - 1), lat=(-(1 << 31), (1 << 31) - 1))
    S = Setup(E, st, pairs=False)
    E.sym_unroll, E.unroll_inner, E.quick_ematch = 0, False, True
    E.loop_defs.clear()
    E.axioms.clear()
    S.F = File(E, st)
    System(E, S.F, may_fail=True)
    Loaded(S, good=False)
    B = z3.Const('file', z3.ArraySort(IntS, IntS))
    n = z3.Int('file.len')
    E.set_rng(n, (0, (1 << 63) - 1))
    st.assume(land(n >= 0, n <= (1 << 63) - 1))
    st.ghost['file'] = Vec(n, B, None)
    outs = run(E, 'GraphSerializer::deserialize_from_file', None, [Opaque('path')], st)
    for s, x in throws(outs):
        ensure(E, s, z3.BoolVal(x.name.startswith('std::')), 'a bad file is reported as an error')
    for s, r in returns(outs):
        E.vac.append(s)
        g = [E.get(l, s) for _, l in r.alts]
        ensure(E, s, z3.BoolVal(len(g) == 1 and '#t' in g[0].f), 'a graph is returned')


TARGETS = [Target('words', words), Target('places', places), Target('crossing edges', crossings), Target('size', size), Target('writer', writer), Target('reader', reader), Target('any file', hostile), Target('writer under faults', lambda E: writer(E, True))]
