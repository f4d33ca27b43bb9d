"""C16: longitudes wrap by exactly one world period."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target

OFF = (0, PERIOD, -PERIOD)


def normalise(E):
    st = new_state()
    p = coord(E, st, 'p', (1 << 31) - 1, (1 << 31) - 1)
    x, y = lonlat(E, p, st)
    outs = run(E, 'coordinate_from_periodic_coordinate', None, [p], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        u, w = lonlat(E, v, s)
        ensure(E, s, w == y, 'normalising keeps the latitude')
        ensure(E, s, land(u >= -180000000, u <= 180000000), 'normalised longitude is in [-180, 180]')
        ensure(E, s, z3.Or(*[x - u == k * PERIOD for k in range(-7, 8)]), 'longitude changes by whole periods only')
        ensure(E, s, z3.Implies(land(x >= -180000000, x <= 180000000), u == x), 'a position in range is unchanged')
        E.vac.append(s)
    outs = run(E, 'is_coordinate_over_meridian', None, [p], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == lor(x < -180000000, x > 180000000), 'over the meridian exactly when outside [-180, 180]')


def copies(E):
    st = new_state()
    p = coord(E, st, 'p', 180000000)
    x, y = lonlat(E, p, st)
    outs = run(E, 'periodic_coordinates_from_coordinate', None, [p], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v.len == 3, 'three periodic copies')
        for i, o in enumerate(OFF):
            u, w = lonlat(E, E.vec_get(v, I(i), s), s)
            ensure(E, s, land(u == x + o, w == y), f'copy {i} is the translation by {o} microdegrees')
        E.vac.append(s)


def in_world(E, t, ty, lo, lon=180000000):
    """Elements of a vector lie in the world."""
    st = State()
    c = E.unpack(t, ty, st)
    x, y = lonlat(E, c, st)
    return land(x >= -lon, x <= lon, y >= -LAT, y <= LAT)


def forall_elems(E, st, v, f):
    i = z3.Int('qi')
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), f(v.arr[i])), patterns=[v.arr[i]]))


def coord_xy(E, t, ty=None):
    s = State()
    return lonlat(E, E.unpack(t, ty or rec_ty(E, 'Coordinate'), s), s)


def seg_ends(E, t):
    s = State()
    g = E.unpack(t, rec_ty(E, 'LineSegment'), s)
    a, b = E.call_pure('LineSegment::get_endpoint_1', g, [], s), E.call_pure('LineSegment::get_endpoint_2', g, [], s)
    return lonlat(E, a, s) + lonlat(E, b, s)


def off_of(j):
    return z3.If(j == 0, I(0), z3.If(j == 1, I(PERIOD), I(-PERIOD)))


def translated(E, a, src, kind):
    """a is src translated by the offset of copy j: a formula of j."""
    if kind == 'Coordinate':
        (u, w), (x, y) = coord_xy(E, a), coord_xy(E, src)
        return lambda j: land(u == x + off_of(j), w == y)
    A, S = seg_ends(E, a), seg_ends(E, src)
    return lambda j: land(A[0] == S[0] + off_of(j), A[1] == S[1], A[2] == S[2] + off_of(j), A[3] == S[3])


def copies_provider(kind):
    def prov(E, L):
        out = []
        if L.rng is None:
            return out
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            if E.sort_of(v0.ety) != E.sort_of(rec_ty(E, kind)) or E.sort_of(L.rng.ety) != E.sort_of(rec_ty(E, kind)):
                continue
            out.append((f'len#{n}=3k', lambda s, rp=rp: L.at(rp, s).len == 3 * L.k(s)))
            out.append((f'elems#{n}', lambda s, rp=rp: elems_formula(E, L.at(rp, s), L.rng, 3 * L.k(s), kind)))
        return out
    return prov


def elems_formula(E, v, src, n, kind):
    m = z3.Int('qm')
    f = translated(E, v.arr[m], src.arr[m / 3], kind)
    return z3.ForAll([m], z3.Implies(land(m >= 0, m < n), f(m % 3)), patterns=[v.arr[m]])


def sequences(fname, kind):
    def go(E):
        E.providers.append(copies_provider(kind))
        f = E.prog.func(fname)
        st = new_state()
        v = E.fresh(f['params'][0].strip(), 'in', st)
        if kind == 'Coordinate':
            forall_elems(E, st, v, lambda t: land(coord_xy(E, t)[0] >= -180000000, coord_xy(E, t)[0] <= 180000000))
        else:
            forall_elems(E, st, v, lambda t: land(*[z3.And(x >= -180000000, x <= 180000000) for x in (seg_ends(E, t)[0], seg_ends(E, t)[2])]))
        outs = run(E, fname, None, [v], st)
        ensure_no_throw(E, outs)
        for s, r in returns(outs):
            ensure(E, s, r.len == 3 * v.len, f'{fname}: three copies of each')
            ensure(E, s, elems_formula(E, r, v, 3 * v.len, kind), f'{fname}: copy j of element i is element i translated by offset j')
            E.vac.append(s)
    return go


TARGETS = [Target('normalise', normalise), Target('copies of a position', copies),
           Target('copies of positions', sequences('make_coordinates_periodic', 'Coordinate')),
           Target('copies of segments', sequences('make_segments_periodic', 'LineSegment'))]


def poly_verts(E, t):
    """Vertex list of a packed polygon."""
    s = State()
    v = E.call_pure('Polygon::get_vertices', E.unpack(t, rec_ty(E, 'Polygon'), s), [], s)
    v = E.get(v.loc, s) if isinstance(v, Ref) else v
    return E.deref_value(v, s) if isinstance(v, Ptr) else v


def moved(E, a, b, o):
    (u, w), (x, y) = coord_xy(E, a), coord_xy(E, b)
    return land(u == x + o, w == y)


def polygons(E):
    """Polygons enter by the contract C15 proves: a polygon made of the vertices of a polygon (here translated by a whole
    period, which changes no turn and no winding sum) has exactly those vertices."""
    f = E.prog.func('make_polygons_periodic')
    st = new_state()
    v = E.fresh(f['params'][0].strip(), 'in', st)
    q, m = z3.Int('qq'), z3.Int('qm')
    i = z3.Int('qi')
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), poly_verts(E, v.arr[i]).len >= 0), patterns=[v.arr[i]]))
    st.assume(z3.ForAll([i, q], z3.Implies(land(i >= 0, i < v.len, q >= 0, q < poly_verts(E, v.arr[i]).len), land(coord_xy(E, poly_verts(E, v.arr[i]).arr[q])[0] >= -180000000, coord_xy(E, poly_verts(E, v.arr[i]).arr[q])[0] <= 180000000)),
                        patterns=[poly_verts(E, v.arr[i]).arr[q]]))
    st.assume(v.len <= 1 << 20)
    pt = rec_ty(E, 'Polygon')
    ct = rec_ty(E, 'Coordinate')

    def ctor(E, st, this, a, fn):
        if len(a) != 1 or not E.cur_loops:
            return NotImplemented
        w = E.get(a[0].loc, st) if isinstance(a[0], Ref) else a[0]
        if not isinstance(w, Vec):
            return NotImplemented
        w = E.flat(w, st)
        src = poly_verts(E, v.arr[E.cur_loops[0].k(E.cur_loops[0].head)])
        p = E.fresh(pt, 'copy', st)
        r = poly_verts(E, E.pack(p, pt, st))
        same = land(r.len == w.len, z3.ForAll([q], z3.Implies(land(q >= 0, q < w.len), r.arr[q] == w.arr[q]), patterns=[r.arr[q]]))
        for o in OFF:
            d = z3.Int(E.fname('differs'))
            st.assume(lor(w.len != src.len, land(d >= 0, d < w.len, lnot(moved(E, w.arr[d], src.arr[d], o))), same))
        return p
    E.contracts['Polygon::Polygon'] = ctor

    def facts(w, n):
        P = poly_verts(E, w.arr[m])
        S = poly_verts(E, v.arr[m / 3])
        rng = land(m >= 0, m < n)
        return [z3.ForAll([m], z3.Implies(rng, P.len == S.len), patterns=[w.arr[m]]),
                z3.ForAll([m, q], z3.Implies(land(rng, q >= 0, q < S.len), moved(E, P.arr[q], S.arr[q], off_of(m % 3))), patterns=[P.arr[q]])]

    def prov(E, L):
        out = []
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            s = E.sort_of(v0.ety)
            if s == E.sort_of(pt) and not E.cur_loops:
                out.append((f'len#{n}=3k', lambda s, rp=rp: L.at(rp, s).len == 3 * L.k(s)))
                for j in range(2):
                    out.append((f'copies#{n}.{j}', lambda s, rp=rp, j=j: facts(E.flat(L.at(rp, s), s), 3 * L.k(s))[j]))
            elif E.cur_loops and s == E.sort_of(ct) and L.rng is not None:
                # one copy at a time: the copy in the making is the next of the list of copies
                outer = E.cur_loops[0].k(E.cur_loops[0].head)
                src = poly_verts(E, v.arr[outer])
                for _, loc in L.locals_of(lambda t: t.c == 'rec' and t.name == 'std::vector'):
                    w = E.get(loc, L.entry)
                    if isinstance(w, Vec) and E.sort_of(w.ety) == E.sort_of(pt) and not z3.eq(w.arr, v.arr):
                        j = w.len - 3 * outer
                        out.append((f'copy length#{n}', lambda s, rp=rp: L.at(rp, s).len == L.k(s)))
                        out.append((f'copy in the making#{n}', lambda s, rp=rp, j=j: z3.ForAll([q], z3.Implies(land(q >= 0, q < L.k(s)), moved(E, L.at(rp, s).arr[q], src.arr[q], off_of(j))), patterns=[L.at(rp, s).arr[q]])))
            elif E.cur_loops and v0.ety.strip().c == 'rec' and v0.ety.strip().name == 'std::vector':
                src = poly_verts(E, v.arr[E.cur_loops[0].k(E.cur_loops[0].head)])
                for j in range(3):
                    def el(s, rp=rp, j=j):
                        return E.vec_get(L.at(rp, s), I(j), s)
                    out.append((f'list {j} length#{n}', lambda s, el=el: el(s).len == L.k(s)))
                    out.append((f'list {j}#{n}', lambda s, el=el, j=j: z3.ForAll([q], z3.Implies(land(q >= 0, q < L.k(s)), moved(E, el(s).arr[q], src.arr[q], OFF[j])), patterns=[el(s).arr[q]])))
                out.append((f'lists#{n}', lambda s, rp=rp, v0=v0: L.at(rp, s).len == v0.len))
        return out
    E.providers.append(prov)
    outs = run(E, f, None, [v], st)
    ensure_no_throw(E, outs)
    for s, r in returns(outs):
        r = E.flat(r, s)
        ensure(E, s, r.len == 3 * v.len, 'three copies of each polygon')
        a, b = z3.Int(E.fname('m')), z3.Int(E.fname('q'))
        P, S = poly_verts(E, r.arr[a]), poly_verts(E, v.arr[a / 3])
        rng = land(a >= 0, a < r.len)
        ensure(E, s, z3.Implies(rng, P.len == S.len), 'a copy has as many vertices as the polygon')
        ensure(E, s, z3.Implies(land(rng, b >= 0, b < S.len), moved(E, P.arr[b], S.arr[b], off_of(a % 3))), 'copy j of polygon i is polygon i translated by offset j, vertex by vertex')
        E.vac.append(s)


TARGETS.append(Target('copies of polygons', polygons))
