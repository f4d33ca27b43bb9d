"""C17: segment intersection is decided exactly."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


TINY = z3.RealVal('1/100000')


def four(E):
    st = new_state()
    a, b, c, d = [coord(E, st, n) for n in 'abcd']
    P = [lonlat(E, k, st) for k in (a, b, c, d)]
    return st, (a, b, c, d), P, segment(E, st, 's', a, b), segment(E, st, 't', c, d)


def spec_terms(P):
    """Cramer's rule for a + t(b-a) = c + u(d-c): D, tD, uD."""
    a, b, c, d = P
    n, m, p = sub(b, a), sub(c, d), sub(c, a)
    return n, cross(n, m), cross(p, m), cross(n, p)


def cramer(E):
    """The specification: with D != 0 the two lines meet in exactly one point, at t = Qx/D, u = Qy/D."""
    R = z3.Reals('ax ay bx by cx cy dx dy')
    P = [(R[i], R[i + 1]) for i in range(0, 8, 2)]
    n, D, Qx, Qy = spec_terms(P)
    a, b, c, d = P
    t, u = z3.Reals('t u')
    on = land(a[0] + t * (b[0] - a[0]) == c[0] + u * (d[0] - c[0]), a[1] + t * (b[1] - a[1]) == c[1] + u * (d[1] - c[1]))
    nx, ny, mx, my, px, py = z3.Reals('nx ny mx my px py')
    e = land(t * nx + u * mx == px, t * ny + u * my == py)
    DD, QX, QY = nx * my - ny * mx, px * my - py * mx, nx * py - ny * px
    real_lemma(E, 'any common point has tD = Qx', [px == t * nx + u * mx, py == t * ny + u * my], t * DD == QX)
    real_lemma(E, 'any common point has uD = Qy', [px == t * nx + u * mx, py == t * ny + u * my], u * DD == QY)
    real_lemma(E, 'the quotients give a common point', [DD != 0], land(QX * nx + QY * mx == px * DD, QX * ny + QY * my == py * DD))


def intersection(E):
    st, pts, P, s1, s2 = four(E)
    n, D, Qx, Qy = spec_terms(P)
    inside = lor(land(D > 0, Qx >= 0, Qx <= D, Qy >= 0, Qy <= D), land(D < 0, Qx <= 0, Qx >= D, Qy <= 0, Qy >= D))
    outs = run(E, 'LineSegment::intersection_with_segment', s1, [s2], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        lemma(E, s, z3.Implies(D != 0, v.has == inside), 'non-parallel: reported exactly when the closed segments share a point')
        x, y = lonlat(E, v.val, s)
        guard = land(D != 0, v.has)
        qs = quotient_lemmas(E, s, [x, y], guard, 2 * LON + 1)
        t = z3.Real(E.fname('t'))
        s.assume(z3.Implies(D != 0, t * z3.ToReal(D) == z3.ToReal(Qx)))
        for T in qs:
            lemma(E, s, z3.Implies(guard, T == t), 'the quotient computed is the parameter of the common point')
        for nm, r, o, dd in (('longitude', x, P[0][0], n[0]), ('latitude', y, P[0][1], n[1])):
            # |r - (o + dd*t)| <= 1/2, and the rounding errors of double arithmetic
            e = z3.ToReal(r - o) - z3.ToReal(dd) * t
            ensure(E, s, z3.Implies(guard, land(e * 2 <= 1 + 2 * TINY, e * 2 >= -1 - 2 * TINY)), f'{nm} of the reported point is the true one rounded')
        a, b, c, d = P
        eq = lambda p, q: land(p[0] == q[0], p[1] == q[1])
        e1, e2 = lor(eq(a, c), eq(a, d)), lor(eq(b, c), eq(b, d))
        ensure(E, s, z3.Implies(D == 0, v.has == lor(e1, e2)), 'parallel: reported exactly when they share an endpoint')
        r = (x, y)
        ensure(E, s, z3.Implies(land(D == 0, v.has), lor(land(e1, eq(r, a)), land(e2, eq(r, b)))), 'parallel: it is that endpoint')
        E.vac.append(s)


def on_segment(E):
    st = new_state()
    a, b, p = [coord(E, st, n) for n in 'abp']
    A, B, Q = [lonlat(E, k, st) for k in (a, b, p)]
    sg = segment(E, st, 's', a, b)
    ar = cross(sub(B, A), sub(Q, A))
    box = land(*[lor(land(A[i] <= Q[i], Q[i] <= B[i]), land(B[i] <= Q[i], Q[i] <= A[i])) for i in (0, 1)])
    outs = run(E, 'LineSegment::on_segment', sg, [p], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == land(ar == 0, box), 'on the segment exactly when collinear and between the endpoints')
        E.vac.append(s)


def adjacent(E):
    st = new_state()
    a, b, p = [coord(E, st, n) for n in 'abp']
    A, B, Q = [lonlat(E, k, st) for k in (a, b, p)]
    sg = segment(E, st, 's', a, b)
    eq = lambda p, q: land(p[0] == q[0], p[1] == q[1])
    outs = run(E, 'LineSegment::get_adjacent_to', sg, [p], st)
    for s, v in returns(outs):
        R = lonlat(E, v, s)
        ensure(E, s, lor(land(eq(Q, A), eq(R, B)), land(eq(Q, B), eq(R, A))), 'the other endpoint of the one asked for')
        E.vac.append(s)
    for s, x in throws(outs):
        ensure(E, s, z3.And(z3.Not(eq(Q, A)), z3.Not(eq(Q, B))), 'an error only for a position that is no endpoint')
    for fn, X in (('get_endpoint_1', A), ('get_endpoint_2', B)):
        for s, v in returns(run(E, 'LineSegment::' + fn, sg, [], st)):
            ensure(E, s, eq(lonlat(E, v, s), X), f'{fn} is the endpoint given')


TARGETS = [Target('specification', cramer), Target('intersection', intersection), Target('on segment', on_segment), Target('other endpoint', adjacent)]
