"""C06: the search is optimal for weightings up to one.  The invariants of C05, the distances kept along with them, and
the argument that the certificate the search ends with bounds every walk."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from .c05 import Search, final_maps


def search(E):
    S = Search(E, optimal=True)
    g = S.weight
    S.st.assume(land(g >= 0, g <= 1))
    outs = run(E, S.f, S.this, S.args, S.st)
    C = S.C
    n, w = z3.Const(E.fname('n'), C), z3.Const(E.fname('w'), C)
    i, j = z3.Int(E.fname('i')), z3.Int(E.fname('j'))
    for x, r in returns(outs):
        v = E.flat(r, x)
        ps, ds = final_maps(S, x)
        if not ds:
            ensure(E, x, land(v.len == 2, S.no_hits(j)), 'a path found without a search is direct')
            continue
        D = ds[-1]
        direct = land(v.len == 2, S.no_hits(j))
        leg = land(i >= 0, i < v.len - 1)
        d0 = lambda n: S.gd(D, n)
        ensure(E, x, lor(direct, z3.Implies(leg, d0(v.arr[i + 1]) >= d0(v.arr[i]) + S.leg(v.arr[i], v.arr[i + 1]))), 'the distance kept for a node of the path is at least that of its predecessor and the leg')
        ensure(E, x, lor(direct, z3.Implies(land(n != S.cd, S.reached(D, n), S.edge(S.mg, n, w), S.near(w)),
                                            lor(d0(S.cd) <= d0(n) + g * S.heur(n, S.cd), land(D.dom[w], D.val[w] <= d0(n) + S.leg(n, w))))),
               'every way on from a reached node is longer than the distance of the destination, or its distance is taken into account')
        E.vac.append(x)


def certificate(E):
    """No walk v[0..m] within the limit is shorter: induction over its nodes, and over those of the path."""
    S = Search(E, optimal=True)
    C = S.C
    cs, cd, g = S.cs, S.cd, S.weight
    v = z3.Const('v', z3.ArraySort(IntS, C))
    pre = z3.Function('walked', IntS, RealS)
    R, D = z3.Function('reached', C, BoolS), z3.Function('dist', C, RealS)
    d0 = lambda n: z3.If(n == cs, z3.RealVal(0), D(n))
    H = lambda n: S.heur(n, cd)
    i, m = z3.Ints('i m')
    P = lambda k: lor(d0(cd) <= pre(k) + H(v[k]), land(lor(v[k] == cs, R(v[k])), d0(v[k]) <= pre(k)))
    legc = S.leg(v[i], v[i + 1])
    a, b = v[i], v[i + 1]
    cert = z3.Implies(land(a != cd, lor(a == cs, R(a)), S.edge(S.mg, a, b), S.near(b)), lor(d0(cd) <= d0(a) + g * H(a), land(R(b), D(b) <= d0(a) + S.leg(a, b))))
    consistent = H(a) <= legc + H(b)
    base = [g >= 0, g <= 1, H(cd) == 0, H(a) >= 0, H(b) >= 0, legc >= 0]
    real_lemma(E, 'the estimate, weighted, is at most the estimate', [g >= 0, g <= 1, H(a) >= 0], g * H(a) <= H(a))
    wh = g * H(a) <= H(a)
    real_lemma(E, 'a walk starts at the source', [pre(0) == 0, v[0] == cs], P(0))
    real_lemma(E, 'what is walked is not negative', [pre(i) >= 0, pre(i + 1) == pre(i) + legc, legc >= 0], pre(i + 1) >= 0)
    real_lemma(E, 'one more leg', [H(cd) == 0, H(a) >= 0, H(b) >= 0, legc >= 0, wh, i >= 0, pre(i) >= 0, pre(i + 1) == pre(i) + legc, S.edge(S.mg, a, b), S.near(b), consistent, cert, P(i)], P(i + 1))
    real_lemma(E, 'at the destination', [H(cd) == 0, v[m] == cd, P(m), pre(m) >= 0], d0(cd) <= pre(m))
    # the path itself costs at most the distance kept for the destination
    p = z3.Const('p', z3.ArraySort(IntS, C))
    real_lemma(E, 'the path starts at the source', [p[0] == cs, pre(0) == 0], pre(0) <= d0(p[0]))
    real_lemma(E, 'one more leg of the path', [i >= 0, pre(i) <= d0(p[i]), pre(i + 1) == pre(i) + S.leg(p[i], p[i + 1]), d0(p[i + 1]) >= d0(p[i]) + S.leg(p[i], p[i + 1])], pre(i + 1) <= d0(p[i + 1]))


P = PERIOD


def unit(E, st):
    """a microdegree in degrees, as the code has it"""
    u = z3.simplify(E.call_pure('Coordinate::get_longitude', mk_coord(E, I(1), I(0), st), [], st))
    if not z3.is_rational_value(u):
        raise Unsupported('get_longitude')
    return u


def norms(E, st, u, dx, dy):
    """the lengths of (dx + k periods, dy) in degrees, k = -1, 0, 1"""
    out = {}
    for k in (-1, 0, 1):
        n = z3.Real(f'norm{k}')
        st.assume(land(n >= 0, n * n == (u * z3.ToReal(dx + k * P)) * (u * z3.ToReal(dx + k * P)) + (u * z3.ToReal(dy)) * (u * z3.ToReal(dy))))
        out[k] = n
    return out


def zmin(a, b):
    return z3.If(a <= b, a, b)


def distances(E):
    """What a leg costs and what the estimate is."""
    E.ieee = False
    st = new_state()
    a, b = coord(E, st, 'a', 180000000, LAT), coord(E, st, 'b', 180000000, LAT)
    (ax, ay), (bx, by) = lonlat(E, a, st), lonlat(E, b, st)
    N = norms(E, st, unit(E, st), ax - bx, ay - by)
    across = zmin(N[-1], N[1])
    for cr, p, q in ((False, a, b), (True, a, b), (False, b, a), (True, b, a)):
        s = st.clone()
        outs = run(E, 'ShortestPathComputer::distance_measurement', None, [p, q, z3.BoolVal(cr)], s)
        ensure_no_throw(E, outs)
        for x, r in returns(outs):
            ensure(E, x, r == (across if cr else N[0]), 'a leg over the meridian costs the length of its shorter copy' if cr else 'a leg costs its length')
            E.vac.append(x)

    def leg(E, st, this, args, fn):
        v = [E.get(z.loc, st) if isinstance(z, Ref) else z for z in args]
        p, q = [lonlat(E, z, st) for z in v[:2]]
        E.oblige(st, lor(land(p[0] == ax, p[1] == ay, q[0] == bx, q[1] == by), land(q[0] == ax, q[1] == ay, p[0] == bx, p[1] == by)), 'precondition', 'the distance of the two positions', E.cur_line, assume=False)
        return z3.If(v[2], across, N[0])
    E.contracts['ShortestPathComputer::distance_measurement'] = leg
    outs = run(E, 'ShortestPathComputer::heuristic_distance_measurement', None, [a, b], st.clone())
    ensure_no_throw(E, outs)
    for x, r in returns(outs):
        ensure(E, x, r == zmin(N[0], across), 'the estimate is the shortest straight distance over the periods')
        E.vac.append(x)


def triangle(E):
    """The estimate is consistent: estimate(a, c) <= length of the leg (a, b) + estimate(b, c)."""
    x1, y1, x2, y2, n1, n2, n3 = z3.Reals('x1 y1 x2 y2 n1 n2 n3')
    dot, crs = x1 * x2 + y1 * y2, x1 * y2 - x2 * y1
    q = z3.Real('q')
    real_lemma(E, 'Lagrange', [], (x1 * x1 + y1 * y1) * (x2 * x2 + y2 * y2) == dot * dot + crs * crs)
    # with q = n1 n2 >= 0 and q q = n1 n1 n2 n2
    A, B, Dt, Cr = z3.Reals('A B dot cross')
    real_lemma(E, 'Cauchy-Schwarz', [q >= 0, q * q == A * B, A * B == Dt * Dt + Cr * Cr], Dt <= q)
    real_lemma(E, 'a product of lengths', [n1 >= 0, n2 >= 0, q == n1 * n2, A == n1 * n1, B == n2 * n2], land(q >= 0, q * q == A * B))
    real_lemma(E, 'triangle inequality', [n1 >= 0, n2 >= 0, n3 >= 0, Dt <= q, q == n1 * n2, n3 * n3 == n1 * n1 + n2 * n2 + 2 * Dt], n3 <= n1 + n2)
    real_lemma(E, 'length of a sum', [A == x1 * x1 + y1 * y1, B == x2 * x2 + y2 * y2, Dt == dot], (x1 + x2) * (x1 + x2) + (y1 + y2) * (y1 + y2) == A + B + 2 * Dt)
    # periods: legs are one of the copies, and two periods off are never shorter than one
    len_ = z3.Function('len', RealS, RealS)     # length as a function of the longitude difference (for a fixed latitude difference)
    d, e = z3.Reals('d e')
    n, m = z3.Reals('n m')
    h = z3.Real('h')
    real_lemma(E, 'a nearer copy is not longer', [n >= 0, m >= 0, n * n == d * d + h * h, m * m == e * e + h * h, zabs(d) <= zabs(e)], n <= m)
    real_lemma(E, 'two periods off', [d >= -360000000, d <= 360000000], land(zabs(d + P) <= zabs(d + 2 * P), zabs(d - P) <= zabs(d - 2 * P)))
    # estimate = min over k of N_k; each N_k(a - b) + N_l(b - c) >= N_{k+l}(a - c)
    Na = {k: z3.Real(f'Na{k}') for k in (-1, 0, 1)}
    Nb = {k: z3.Real(f'Nb{k}') for k in (-1, 0, 1)}
    Nc = {k: z3.Real(f'Nc{k}') for k in (-2, -1, 0, 1, 2)}
    hyp = [Nc[k + l] <= Na[k] + Nb[l] for k in (-1, 0, 1) for l in (-1, 0, 1)] + [Nc[1] <= Nc[2], Nc[-1] <= Nc[-2]]
    est = lambda N: zmin(N[0], zmin(N[-1], N[1]))
    real_lemma(E, 'the estimate is consistent over a leg', hyp, land(est(Nc) <= Na[0] + est(Nb), est(Nc) <= zmin(Na[-1], Na[1]) + est(Nb)))
    z = z3.Reals('z0 z1')
    real_lemma(E, 'the estimate is zero at the destination', [z[0] >= 0, z[0] * z[0] == 0, z[1] >= 0], zmin(z[0], z[1]) == 0)


TARGETS = [Target('search', search), Target('no walk is shorter', certificate), Target('distances', distances), Target('triangle', triangle)]

ASSUMES = ['distances, estimates and weights are treated as mathematical reals; positions normalised to one world period', 'partial correctness: the loops are not proved to end']

# contracts of the functions called, proved of their bodies
NEEDS = {'c12': None, 'c16': ['normalise']}
