"""The representation invariant of Graph and its observers, for C09-C14 and C03.

The state of the graph is described by what its real queries answer (has_vertex, has_edge,
is_edge_meridian_crossing); fields are found by their types, the position of an edge in the matrix
is the one the real code computes."""
import z3
from ..engine import *
from ..spec import *
from .. import stl

NMAX = 1 << 20   # vertices of a graph: its matrix would take four terabytes

GI = z3.Function('cell_i', IntS, IntS, IntS)     # p mod n
GJ = z3.Function('cell_j', IntS, IntS, IntS)     # p div n
GL = z3.Function('cell_at', IntS, IntS, IntS, IntS)  # i + n * j


def roles(E):
    """Fields of Graph by type."""
    r = {}
    for f, t in E.rec_fields(rec_ty(E, 'Graph')):
        t = t.strip()
        k = None
        if t.c == 'rec' and t.name == 'std::vector':
            e = t.args[0].strip()
            if e.c == 'rec' and e.name == 'Polygon':
                k = 'polys'
            elif e.c == 'rec' and e.name == 'Coordinate':
                k = 'verts'
            elif e.c in ('int', 'enum'):
                k = 'cells'
            else:
                k = 'locks'
        elif t.c == 'rec' and t.name in ('std::unordered_map', 'std::map'):
            k = 'index'
        elif t.c == 'int':
            k = 'n'
        if k is None or k in r:
            raise Unsupported(f'field {f} of Graph')
        r[k] = f
    if set(r) != {'polys', 'verts', 'cells', 'locks', 'index', 'n'}:
        raise Unsupported('fields of Graph')
    return r


def setup(E):
    coord_domain(E)
    E.graph_roles = roles(E)
    E.field_range[('Graph', E.graph_roles['n'])] = (0, NMAX)
    E.dims = []
    E.index_hook = index_hook
    n, p = z3.Ints('qn qp')
    E.axioms.append(z3.ForAll([n, p], z3.Implies(land(n > 0, p >= 0), land(GI(n, p) >= 0, GI(n, p) < n, GJ(n, p) >= 0, GL(n, GI(n, p), GJ(n, p)) == p, z3.Implies(p < n * n, GJ(n, p) < n))),
                              patterns=[GI(n, p)]))
    i, j = z3.Ints('qi qj')
    E.axioms.append(z3.ForAll([n, i, j], z3.Implies(land(i >= 0, i < n, j >= 0, j < n), land(GL(n, i, j) >= 0, GL(n, i, j) < n * n, GI(n, GL(n, i, j)) == i, GJ(n, GL(n, i, j)) == j)),
                              patterns=[GL(n, i, j)]))


def cell_lemmas(E):
    """Row and column of a cell of an n by n matrix: what the index facts rest on."""
    n, i, j, p = z3.Ints('n i j p')
    real_lemma(E, 'i + n*j has row i', [n > 0, 0 <= i, i < n, 0 <= j], (i + n * j) % n == i)
    real_lemma(E, 'i + n*j has column j', [n > 0, 0 <= i, i < n, 0 <= j], (i + n * j) / n == j)
    q, r = z3.Ints('q r')
    real_lemma(E, 'i + n*j lies in the matrix', [0 <= i, i < n, 0 <= j, j < n, j + 1 <= n], land(i + n * j >= 0, i + n * j < n * n))
    real_lemma(E, 'a cell is its row plus n times its column', [n > 0, p >= 0], land(p == (p % n) + n * (p / n), p % n >= 0, p % n < n, p / n >= 0))
    real_lemma(E, 'the column of a cell is below n', [n > 0, r >= 0, q >= n, p == r + n * q], p >= n * n)


# ------------------------------------------------------------------ polynomials
def poly(t, named=None):
    """Integer polynomial {monomial: coefficient}, monomials are sorted tuples of atom ids; atoms by id."""
    atoms = {}

    def go(t):
        if z3.is_int_value(t):
            return {(): t.as_long()}
        if z3.is_add(t):
            r = {}
            for c in t.children():
                for m, k in go(c).items():
                    r[m] = r.get(m, 0) + k
            return r
        if z3.is_sub(t):
            cs = t.children()
            r = dict(go(cs[0]))
            for c in cs[1:]:
                for m, k in go(c).items():
                    r[m] = r.get(m, 0) - k
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return {m: -k for m, k in go(t.arg(0)).items()}
        if z3.is_mul(t):
            r = {(): 1}
            for c in t.children():
                p = go(c)
                q = {}
                for m, k in r.items():
                    for m2, k2 in p.items():
                        mm = tuple(sorted(m + m2))
                        q[mm] = q.get(mm, 0) + k * k2
                r = q
            return r
        if named and t.get_id() in named:
            return go(named[t.get_id()][1])
        atoms[t.get_id()] = t
        return {(t.get_id(),): 1}
    return {m: k for m, k in go(t).items() if k}, atoms


def unpoly(p, atoms):
    ts = []
    for m, k in sorted(p.items()):
        t = I(k)
        if m:
            t = None
            for a in m:
                t = atoms[a] if t is None else t * atoms[a]
            if k != 1:
                t = I(k) * t
        ts.append(t)
    return sum(ts[1:], ts[0]) if ts else I(0)


def split(idx, n, named=None):
    """(i, j) with idx = i + n*j, for n an atom or an atom plus one."""
    p, atoms = poly(idx, named)
    pn, an = poly(n, named)
    if pn == {(): 0} or len([m for m in pn if m]) != 1:
        return None
    main = [m for m in pn if m][0]
    if len(main) != 1 or pn[main] != 1 or pn.get((), 0) not in (0, 1):
        return None
    v = main[0]
    c0, c1 = {}, {}
    for m, k in p.items():
        d = m.count(v)
        if d == 0:
            c0[m] = k
        elif d == 1:
            c1[tuple(x for x in m if x != v)] = k
        else:
            return None
    if not c1:
        return None
    if pn.get((), 0):
        for m, k in c1.items():
            c0[m] = c0.get(m, 0) - k
    c0 = {m: k for m, k in c0.items() if k}
    return unpoly(c0, atoms), unpoly(c1, atoms)


def cell_facts(E, st, idx, n):
    r = split(idx, n, E.named)
    if r is None:
        return
    i, j = r
    ok = land(n > 0, i >= 0, i < n, j >= 0)
    f = z3.Implies(ok, land(idx >= 0, GI(n, idx) == i, GJ(n, idx) == j, GL(n, i, j) == idx, z3.Implies(j < n, idx < n * n)))
    k = ('cell', f.get_id())
    if k not in st.ghost:
        st.ghost[k] = f
        st.assume(f)


def index_hook(E, v, idx, st):
    if v.ety.strip().c not in ('int', 'enum'):
        return
    for n in E.dims:
        cell_facts(E, st, idx, n)


def add_dim(E, n):
    if not any(d.eq(n) for d in E.dims):
        E.dims.append(n)
        E.dims.append(n + 1)


def name_vec(E, st, v):
    """The same vector with a named array (merged arrays cannot stand in patterns)."""
    if z3.is_const(v.arr) or z3.is_store(v.arr) or z3.is_K(v.arr):
        if not has_ite(v.arr):
            return v
    a = z3.Const(E.fname('a'), v.arr.sort())
    st.assume(a == v.arr)
    return Vec(v.len, a, v.ety)


def has_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE) or any(has_ite(c) for c in t.children())


def tidy(E, st, g):
    """A graph value with named arrays."""
    r = E.graph_roles
    f = dict(g.f)
    for k in ('verts', 'cells'):
        f[r[k]] = name_vec(E, st, f[r[k]])
    m = f[r['index']]
    if has_ite(m.dom) or has_ite(m.val):
        d, v = z3.Const(E.fname('dom'), m.dom.sort()), z3.Const(E.fname('val'), m.val.sort())
        st.assume(land(d == m.dom, v == m.val))
        f[r['index']] = Map(m.kty, m.vty, d, v, m.size)
    return Rec(g.name, f, g.ty)


class View:
    """The parts of a graph value."""

    def __init__(self, E, g):
        r = E.graph_roles
        self.E, self.g = E, g
        self.n, self.verts, self.cells, self.locks, self.index, self.polys = (g.f[r[k]] for k in ('n', 'verts', 'cells', 'locks', 'index', 'polys'))


def valid_states(E, ety):
    """Values a cell may take: the declared states and their unions."""
    t = ety.strip()
    vals = {int(v) for v in E.prog.enums.get(t.s, {}).values()} if t.c == 'enum' else set()
    if not vals:
        raise Unsupported('edge states')
    while True:
        new = {a | b for a in vals for b in vals} - vals
        if not new:
            return sorted(vals)
        vals |= new


def inv(E, g, cells=True):
    """The representation invariant, as (name, formula)."""
    V = View(E, g)
    n, i, p = V.n, z3.Int('qi'), z3.Int('qp')
    c = z3.Const('qc', V.index.dom.sort().domain())
    out = [('number of vertices', land(n >= 0, V.verts.len == n)), ('one lock per vertex', V.locks.len == n), ('matrix size', V.cells.len == n * n)]
    val = V.index.val
    out.append(('indexed vertices', z3.ForAll([c], z3.Implies(V.index.dom[c], land(val[c] >= 0, val[c] < n, V.verts.arr[val[c]] == c)), patterns=[V.index.dom[c], val[c]])))
    out.append(('vertices are indexed', z3.ForAll([i], z3.Implies(land(i >= 0, i < n), V.index.dom[V.verts.arr[i]]), patterns=[V.verts.arr[i]])))
    if cells:
        gi, gj = GI(n, p), GJ(n, p)
        vs = valid_states(E, V.cells.ety)
        rng = land(V.cells.arr[p] >= vs[0], V.cells.arr[p] <= vs[-1]) if vs == list(range(vs[0], vs[-1] + 1)) else lor(*[V.cells.arr[p] == v for v in vs])
        used = lambda k: val[V.verts.arr[k]] == k
        inside = land(p >= 0, p < n * n)
        out.append(('cells hold states', z3.ForAll([p], z3.Implies(inside, rng), patterns=[V.cells.arr[p]])))
        for nm, f in (('row', used(gi)), ('column', used(gj)), ('diagonal', gi != gj)):
            out.append((f'cells in use: {nm}', z3.ForAll([p], z3.Implies(land(inside, V.cells.arr[p] != vs[0]), f), patterns=[V.cells.arr[p]])))
    return out


def fresh_graph(E, st, name='g'):
    """Location of an arbitrary graph that satisfies the invariant."""
    g = E.fresh(rec_ty(E, 'Graph'), name, st)
    V = View(E, g)
    add_dim(E, V.n)
    for _, f in inv(E, g):
        st.assume(f)
    return E.new_cell(st, g)


def ensure_inv(E, s, loc, what):
    g = tidy(E, s, E.get(loc, s))
    E.set(loc, g, s)
    for nm, f in inv(E, g):
        ensure(E, s, f, f'{what}: representation invariant ({nm})')


def observe(E, s, fname, this, args, pred=None, what=None):
    """(state, value) of a query that must not throw here."""
    outs = run(E, fname, this, args, s, pred)
    ensure_no_throw(E, outs, what or f'{fname} answers for known vertices')
    rs = returns(outs)
    if not rs:
        raise Unsupported(f'{fname} never returns')
    return E.merge_many(rs) if len(rs) > 1 else rs[0]


def known(E, s, loc, *cs):
    """Assumes that the graph has these vertices (as the real query answers)."""
    for c in cs:
        s, v = observe(E, s, 'Graph::has_vertex', loc, [c])
        s.assume(v)
    return s


def edge(E, s, loc, a, b):
    s, h = observe(E, s, 'Graph::has_edge', loc, [a, b])
    s, x = observe(E, s, 'Graph::is_edge_meridian_crossing', loc, [a, b])
    return s, h, x


def layout(E, st, loc):
    """cell(i, j): position of the edge from vertex i to vertex j, as the real has_edge computes it."""
    a, b = coord(E, st.clone(), 'la'), coord(E, st.clone(), 'lb')
    s = st.clone()
    V = View(E, E.get(loc, s))
    ia, ib = [V.index.val[E.pack(c, V.index.kty, s)] for c in (a, b)]
    n0 = len(E.obligs)
    E.suppress += 1
    try:
        outs = returns(run(E, 'Graph::has_edge', loc, [a, b], s))
    finally:
        E.suppress -= 1
    found = []

    def go(t):
        if z3.is_select(t) and t.arg(0).eq(V.cells.arr):
            found.append(t.arg(1))
        for c in t.children():
            go(c)
    for q, v in outs:
        go(v)
    for idx in found:
        r = split(idx, V.n, E.named)
        if r is not None:
            if r[0].eq(ia) and r[1].eq(ib):
                return lambda i, j, n=None: GL(V.n if n is None else n, i, j)
            if r[0].eq(ib) and r[1].eq(ia):
                return lambda i, j, n=None: GL(V.n if n is None else n, j, i)
    raise Unsupported('layout of the edge matrix')
