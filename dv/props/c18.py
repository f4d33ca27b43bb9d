"""C18: coordinate arithmetic is exact and never overflows in the domain."""
import z3
from fractions import Fraction
from ..engine import *
from ..spec import *
from ..driver import Target

TINY = z3.RealVal('1/1000000')  # rounding errors of double arithmetic at a thousand degrees


def two(E):
    st = new_state()
    return st, coord(E, st, 'p'), coord(E, st, 'q')


def add_sub(E):
    for op, sg in (('operator+', 1), ('operator-', -1)):
        st, p, q = two(E)
        (px, py), (qx, qy) = lonlat(E, p, st), lonlat(E, q, st)
        outs = run(E, 'Coordinate::' + op, p, [q], st, lambda f: len(f['params']) == 1)
        ensure_no_throw(E, outs)
        for s, v in returns(outs):
            x, y = lonlat(E, v, s)
            ensure(E, s, x == px + sg * qx, f'{op}: longitude is the exact {"sum" if sg > 0 else "difference"}')
            ensure(E, s, y == py + sg * qy, f'{op}: latitude is exact')
            E.vac.append(s)
    st, p, q = two(E)
    px, py = lonlat(E, p, st)
    outs = run(E, 'Coordinate::operator-', p, [], st, lambda f: len(f['params']) == 0)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        x, y = lonlat(E, v, s)
        ensure(E, s, land(x == -px, y == -py), 'negation is exact')


def products(E):
    for fn, spec in (('dot_product_microdegrees', lambda a, b, c, d: a * c + b * d), ('cross_product_magnitude_microdegrees', lambda a, b, c, d: a * d - c * b)):
        st = new_state()
        # differences of positions of the domain are vectors twice as long
        p, q = coord(E, st, 'p', 2 * LON, 2 * LAT), coord(E, st, 'q', 2 * LON, 2 * LAT)
        (px, py), (qx, qy) = lonlat(E, p, st), lonlat(E, q, st)
        outs = run(E, 'Coordinate::' + fn, p, [q], st)
        ensure_no_throw(E, outs)
        for s, v in returns(outs):
            ensure(E, s, v == spec(px, py, qx, qy), f'{fn} is exact')
            E.vac.append(s)
    st = new_state()
    p = coord(E, st, 'p', 2 * LON, 2 * LAT)
    px, py = lonlat(E, p, st)
    outs = run(E, 'Coordinate::magnitude_squared_microdegrees', p, [], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == px * px + py * py, 'squared length is exact')


def orient_val(E, name):
    return I(E.prog.enums['Orientation'][name]) if isinstance(E.prog.enums.get('Orientation'), dict) else None


def orientation(E):
    CW, CCW, COL = (orient_val(E, n) for n in ('CLOCKWISE', 'COUNTER_CLOCKWISE', 'COLLINEAR'))
    st = new_state()
    p, q = coord(E, st, 'p', 2 * LON, 2 * LAT), coord(E, st, 'q', 2 * LON, 2 * LAT)
    (px, py), (qx, qy) = lonlat(E, p, st), lonlat(E, q, st)
    cr = px * qy - qx * py
    outs = run(E, 'Coordinate::vector_orientation', p, [q], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == z3.If(cr > 0, CCW, z3.If(cr < 0, CW, COL)), 'vector orientation is the sign of the cross product')
        E.vac.append(s)
        for s2, w in returns(run(E, 'Coordinate::vector_orientation', q, [p], s)):
            ensure(E, s2, land((v == CCW) == (w == CW), (v == CW) == (w == CCW), (v == COL) == (w == COL)), 'orientation is antisymmetric')
    outs = run(E, 'Coordinate::parallel', p, [q], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == (cr == 0), 'parallel exactly when the cross product is zero')
    st = new_state()
    a, b, c = [coord(E, st, n) for n in 'abc']
    (ax, ay), (bx, by), (cx, cy) = [lonlat(E, k, st) for k in (a, b, c)]
    sg = segment(E, st, 's', a, b)
    ar = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    outs = run(E, 'LineSegment::orientation_of_point_to_segment', sg, [c], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == z3.If(ar > 0, CCW, z3.If(ar < 0, CW, COL)), 'orientation of a point to a segment is the sign of the signed area')
        E.vac.append(s)
    outs = run(E, 'LineSegment::get_tangent_vector', sg, [], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        x, y = lonlat(E, v, s)
        ensure(E, s, land(x == bx - ax, y == by - ay), 'tangent vector is the exact difference')


def conversions(E):
    st = new_state()
    f = E.prog.func('Coordinate::Coordinate', lambda f: len(f['params']) == 2 and f['params'][0].c == 'float')
    x, y = z3.Real('lon_deg'), z3.Real('lat_deg')
    st.assume(land(x >= -541, x <= 541, y >= -90, y <= 90))
    l = E.new_cell(st, E.default_rec(rec_ty(E, 'Coordinate'), st))
    outs = E.run(f, l, [x, y], st)
    ensure_no_throw(E, outs)
    for s, _ in returns(outs):
        a, b = lonlat(E, E.get(l, s), s)
        for n, d, r in (('longitude', x, a), ('latitude', y, b)):
            rr = z3.ToReal(r)
            # the product with 1e6 is rounded once
            m = d * 1000000
            u = z3.RealVal(Fraction(1, 1 << 53)) * m
            ensure(E, s, z3.If(d >= 0, land(rr <= m + u, m - u < rr + 1), land(rr >= m + u, m - u > rr - 1)), f'{n} in degrees is truncated toward zero to the microdegree')
        E.vac.append(s)
    st = new_state()
    p = coord(E, st, 'p', 2 * LON, 2 * LAT)
    k = z3.Real('k')
    st.assume(land(k >= -1, k <= 1))
    px, py = lonlat(E, p, st)
    outs = run(E, 'Coordinate::operator*', p, [k], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        x, y = lonlat(E, v, s)
        for n, r, o in (('longitude', x, px), ('latitude', y, py)):
            e = z3.ToReal(r) - z3.ToReal(o) * k
            ensure(E, s, land(e * 2 <= 1 + TINY, e * 2 >= -1 - TINY), f'scaling rounds {n} to the nearest microdegree')
        E.vac.append(s)


TARGETS = [Target('sum and difference', add_sub), Target('products', products), Target('orientation', orientation), Target('conversions', conversions)]
