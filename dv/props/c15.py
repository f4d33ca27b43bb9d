"""C15: a polygon keeps exactly its corners, counter-clockwise."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from .c16 import coord_xy

NMAX = 1 << 20
CO = 'Coordinate'


def products(E, u, v):
    m = E.mul if E.abstract_mul else (lambda a, b: a * b)
    return m(u[0], v[1]) - m(u[1], v[0]), m(u[0], v[0]) + m(u[1], v[1])


def turn_of(E, p, q, r):
    """The boundary turns at q coming from p and going to r: not straight on."""
    c, d = products(E, sub(q, p), sub(r, q))
    return lor(c != 0, d < 0)


def multiple_contract(E):
    """Contract of the scalar multiple of parallel vectors, proved by `multiple`: there is one exactly when they are
    parallel, and it is negative exactly when they point in opposite directions."""
    def c(E, st, this, a, fn):
        u, v = lonlat(E, E.get(this, st), st), lonlat(E, E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0], st)
        x = z3.Real(E.fname('multiple'))
        c, dot = products(E, u, v)
        par = c == 0
        st.assume(z3.Implies(par, (x < 0) == (dot < 0)))
        return Opt(par, x, fn['ret'].strip())
    E.contracts['Coordinate::scalar_multiple_factor'] = c


def multiple(E):
    st = new_state()
    p, q = coord(E, st, 'p', 2 * LON, 2 * LAT), coord(E, st, 'q', 2 * LON, 2 * LAT)
    u, v = lonlat(E, p, st), lonlat(E, q, st)
    outs = run(E, 'Coordinate::scalar_multiple_factor', p, [q], st)
    ensure_no_throw(E, outs)
    par, dot = cross(u, v) == 0, u[0] * v[0] + u[1] * v[1]
    for s, r in returns(outs):
        ensure(E, s, r.has == par, 'a multiple exists exactly for parallel vectors')
        s.assume(par)
        # with u = (a, b), v = (c, d), a*d == b*c: a*dot == c*(a*a + b*b) and b*dot == d*(a*a + b*b)
        lemma(E, s, u[0] * dot == v[0] * (u[0] * u[0] + u[1] * u[1]), 'ring identity')
        lemma(E, s, u[1] * dot == v[1] * (u[0] * u[0] + u[1] * u[1]), 'ring identity')
        for i in (0, 1):
            g = u[i] != 0
            lemma(E, s, z3.Implies(g, u[0] * u[0] + u[1] * u[1] > 0), 'positive length')
            lemma(E, s, z3.Implies(g, (dot < 0) == (v[i] * u[i] < 0)), 'sign of the product from one component')
        zero = land(u[0] == 0, u[1] == 0)
        ensure(E, s, z3.Implies(zero, lnot(r.val < 0)), 'the multiple of no vector is not negative')
        ensure(E, s, z3.Implies(lnot(zero), (r.val < 0) == (dot < 0)), 'negative exactly in opposite directions')
        E.vac.append(s)


def vec_of(E, a, st):
    v = E.get(a.loc, st) if isinstance(a, Ref) else a
    if isinstance(v, Ptr):
        v = E.deref_value(v, st)
    return E.flat(v, st)


def orientation_fn(E):
    fs = [f for fs in E.prog.by_name.values() for f in fs if len(f['params']) == 1 and str(f.get('ret')) == 'Orientation' and 'vector<Coordinate' in str(f['params'][0]) and f.get('body') is not None]
    if len(fs) != 1:
        raise Unsupported('the function giving the orientation of a vertex list')
    return fs[0]


class Winding:
    """The trapezoid sum of a closed vertex list, defined by recursion; its definition is used one step at a time."""

    def __init__(self, E):
        self.E = E
        es = E.sort_of(rec_ty(E, CO))
        self.S = z3.Function('winding', z3.ArraySort(IntS, es), IntS, IntS, IntS)

    def term(self, arr, n, k):
        nx = z3.If(k == n - 1, I(0), k + 1)
        (x, y), (u, v) = coord_xy(self.E, arr[k]), coord_xy(self.E, arr[nx])
        return (u - x) * (v + y)

    def total(self, v):
        return self.S(v.arr, v.len, v.len)


def winding(E):
    """The orientation of a vertex list is the sign of its winding sum, computed without overflow."""
    coord_domain(E)
    f = orientation_fn(E)
    W = Winding(E)
    st = new_state()
    v = E.fresh(f['params'][0].strip(), 'vertices', st)
    st.assume(v.len <= NMAX)
    st.assume(W.S(v.arr, v.len, 0) == 0)
    B = 4 * LON * LAT

    def defs(E, L):
        k = L.k(L.head)
        return [W.S(v.arr, v.len, k + 1) == W.S(v.arr, v.len, k) + W.term(v.arr, v.len, k)]

    def prov(E, L):
        out = []
        for i, l in enumerate(L.leaves):
            if l.kind == 'val' and l.root != L.kcell and L.get(l, L.entry).sort() == IntS and l.delta is None:
                out.append((f'sum#{i}', lambda s, l=l: L.get(l, s) == W.S(v.arr, v.len, L.k(s))))
                out.append((f'bound#{i}', lambda s, l=l: land(L.get(l, s) <= B * L.k(s), L.get(l, s) >= -B * L.k(s))))
        return out
    E.loop_defs.append(defs)
    E.providers.append(prov)
    outs = run(E, f, None, [v], st)
    ensure_no_throw(E, outs)
    CW, CCW, COL = [I(E.prog.enums['Orientation'][n]) for n in ('CLOCKWISE', 'COUNTER_CLOCKWISE', 'COLLINEAR')]
    for s, r in returns(outs):
        t = W.total(v)
        ensure(E, s, r == z3.If(t > 0, CW, z3.If(t < 0, CCW, COL)), 'clockwise exactly when the winding sum is positive')
        E.vac.append(s)


class Corners:
    """The corners of a given vertex list: first the list without consecutive (cyclic) repetitions, then its turns."""

    def __init__(self, E, st, v):
        self.E, self.v = E, v
        es = E.sort_of(rec_ty(E, CO))
        at = lambda t: v.arr[t]
        self.T = z3.Function('turns', es, es, es, BoolS)
        self.once = Filter(E, st, 'once', lambda t: lor(t == 0, at(t) != at(t - 1)), at, es, v.len)
        R = self.R = self.once.rank(v.len)
        d = self.d = lambda m: at(self.once.un(m))
        st.assume(z3.Implies(v.len > 0, self.once.un(0) == 0))
        self.M = z3.Int('distinct')
        st.assume(self.M == z3.If(land(R > 1, d(R - 1) == at(0)), R - 1, R))
        self.prev = lambda i: z3.If(i == 0, self.M - 1, i - 1)
        self.next = lambda i: z3.If(i == self.M - 1, I(0), i + 1)
        self.args = lambda i: (d(self.prev(i)), d(i), d(self.next(i)))
        self.turns = Filter(E, st, 'turns', lambda i: self.T(*self.args(i)), d, es)
        self.turns.not_size = v.len
        E.loop_defs.append(self.defs)
        E.providers.append(self.provider)

    def defs(self, E, L):
        k = L.k(L.head)
        return [z3.Implies(land(k >= 0, k < self.M), self.T(*self.args(k)) == turn_of(E, *[coord_xy(E, x) for x in self.args(k)]))]

    def provider(self, E, L):
        out = []
        q = z3.Int('qd')
        if runs_over(E, L, self.v.len) is False:
            return out
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            if v0.arr.sort() != self.v.arr.sort():
                continue
            f = lambda s, rp=rp: E.flat(L.at(rp, s), s)
            out.append((f'last is the current one#{n}', lambda s, f=f: z3.Implies(L.k(s) > 0, land(f(s).len > 0, f(s).arr[f(s).len - 1] == self.v.arr[L.k(s) - 1], f(s).arr[0] == self.v.arr[0]))))
            out.append((f'neighbours differ#{n}', lambda s, f=f: z3.ForAll([q], z3.Implies(land(q >= 1, q < f(s).len), f(s).arr[q] != f(s).arr[q - 1]), patterns=[f(s).arr[q]])))
            g = E.flat(v0, L.entry)
            if not (z3.is_int_value(v0.len)):
                out.append((f'dropped equal the first#{n}', lambda s, f=f, g=g: land(f(s).len <= g.len, lor(f(s).len == g.len, f(s).len >= 1), z3.ForAll([q], z3.Implies(land(q >= f(s).len, q < g.len), g.arr[q] == g.arr[0]), patterns=[g.arr[q]]))))
        return out


def ctor(E):
    f = E.prog.func('Polygon::Polygon', lambda f: len(f['params']) == 1 and 'vector' in str(f['params'][0]))
    return f


def construct(E):
    coord_domain(E)
    E.abstract_mul = True
    multiple_contract(E)
    W = Winding(E)
    f = ctor(E)
    g = orientation_fn(E)
    seen = []

    def orient(E, st, this, a, fn):
        v = vec_of(E, a[0], st)
        seen.append(v)
        t = W.total(v)
        CW, CCW, COL = [I(E.prog.enums['Orientation'][n]) for n in ('CLOCKWISE', 'COUNTER_CLOCKWISE', 'COLLINEAR')]
        return z3.If(t > 0, CW, z3.If(t < 0, CCW, COL))
    E.contracts[g['name']] = orient
    st = new_state()
    v = E.fresh(f['params'][0].strip(), 'given', st)
    st.assume(v.len <= NMAX)
    K = Corners(E, st, v)
    l = E.new_cell(st, E.default_rec(rec_ty(E, 'Polygon'), st))
    outs = E.run(f, l, [Ref(E.new_cell(st, v))], st)
    ensure_no_throw(E, outs)
    for s, _ in returns(outs):
        r = vec_of(E, E.call_pure('Polygon::get_vertices', E.get(l, s), [], s), s)
        ensure(E, s, r.len == K.turns.rank(K.M), 'as many vertices as corners')
        V = seen[-1] if seen else r
        for n, fa in K.turns.facts(V, K.M):
            ensure(E, s, fa, f'the corners in the given order: {n}')
        i = z3.Int(E.fname('i'))
        rng = land(i >= 0, i < r.len)
        ensure(E, s, r.len == V.len, 'no corner is lost')
        ensure(E, s, z3.Implies(land(rng, r.len > 2), r.arr[i] == z3.If(W.total(V) > 0, V.arr[V.len - 1 - i], V.arr[i])), 'reversed exactly when clockwise')
        ensure(E, s, z3.Implies(land(rng, r.len <= 2), r.arr[i] == V.arr[i]), 'two corners keep their order')
        E.vac.append(s)


def segments(E):
    coord_domain(E)
    st = new_state()
    p = E.fresh(rec_ty(E, 'Polygon'), 'polygon', st)
    v = vec_of(E, E.call_pure('Polygon::get_vertices', p, [], st), st)
    st.assume(v.len <= NMAX)
    from .c16 import seg_ends

    def seg_is(t, i):
        nx = z3.If(i == v.len - 1, I(0), i + 1)
        return land(*[x == y for x, y in zip(seg_ends(E, t), coord_xy(E, v.arr[i]) + coord_xy(E, v.arr[nx]))])

    def facts(w, n):
        q = z3.Int('qs')
        return z3.ForAll([q], z3.Implies(land(q >= 0, q < n), seg_is(w.arr[q], q)), patterns=[w.arr[q]])

    def prov(E, L):
        out = []
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            if E.sort_of(v0.ety) != E.sort_of(rec_ty(E, 'LineSegment')):
                continue
            out.append((f'segments so far#{n}', lambda s, rp=rp: facts(E.flat(L.at(rp, s), s), L.k(s))))
            out.append((f'k-bound#{n}', lambda s: L.k(s) <= v.len))
        return out
    E.providers.append(prov)
    outs = run(E, 'Polygon::get_line_segments', p, [], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        r = E.flat(r, s)
        ensure(E, s, r.len == v.len, 'as many segments as vertices')
        i = z3.Int(E.fname('i'))
        ensure(E, s, z3.Implies(land(i >= 0, i < v.len), seg_is(r.arr[i], i)), 'segment i joins vertex i to the next, cyclically')
        E.vac.append(s)


def again(E):
    """Lemmas over the specification: the corners of a list of corners are that list, whichever way it is walked."""
    V = lambda n: (z3.Int(n + 'x'), z3.Int(n + 'y'))
    add = lambda a, b: (a[0] + b[0], a[1] + b[1])
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    along = lambda a, b: land(cross(a, b) == 0, dot(a, b) > 0)
    u, v, w = V('u'), V('v'), V('w')
    nz = lambda a: lor(a[0] != 0, a[1] != 0)
    real_lemma(E, 'a run extended by one more step straight on keeps its direction', [along(u, v), along(v, w)], along(u, w))
    real_lemma(E, 'a run extended by a step along it keeps its direction', [along(u, v), along(u, w)], along(u, add(v, w)))
    t = lambda a, b: lor(cross(a, b) != 0, dot(a, b) < 0)
    real_lemma(E, 'the turn between two runs is the turn between their first steps', [along(u, v), nz(w)], t(u, w) == t(v, w))
    real_lemma(E, 'the turn into a run is the turn into its first step', [along(u, v), nz(w)], t(w, u) == t(w, v))
    neg = lambda a: (-a[0], -a[1])
    real_lemma(E, 'walking backwards keeps the turns', [], t(neg(v), neg(u)) == t(u, v))
    a, b, c = V('a'), V('b'), V('c')
    z = lambda p, q: (q[0] - p[0]) * (q[1] + p[1])
    real_lemma(E, 'walking backwards negates the winding sum', [], z(b, a) == -z(a, b))
    o = V('o')
    real_lemma(E, 'translating along the equator keeps the winding sum', [], z((a[0] + o[0], a[1]), (b[0] + o[0], b[1])) == z(a, b))
    real_lemma(E, 'dropping a vertex of a straight run keeps the winding sum', [cross(sub(b, a), sub(c, b)) == 0], z(a, b) + z(b, c) == z(a, c))


TARGETS = [Target('multiple', multiple, budget=40), Target('winding', winding), Target('construct', construct), Target('segments', segments), Target('again', again)]

# contracts of the functions called, proved of their bodies
NEEDS = {'c18': ['orientation']}
