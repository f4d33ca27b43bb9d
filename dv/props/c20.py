"""C20: angular sorting is a strict weak order by exact angle."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


def half(v):
    """In [0, 180): first half turn."""
    return z3.Or(v[1] > 0, z3.And(v[1] == 0, v[0] > 0))


def zero(v):
    return z3.And(v[0] == 0, v[1] == 0)


def before(u, v):
    """The exact order around the origin: angle in [0, 360), then distance; the origin itself first."""
    c = cross(u, v)
    return z3.If(zero(u), z3.Not(zero(v)), z3.If(zero(v), z3.BoolVal(False),
                 z3.If(half(u) != half(v), half(u), z3.If(c != 0, c > 0, u[0] * u[0] + u[1] * u[1] < v[0] * v[0] + v[1] * v[1]))))


def angle_order(E):
    """The specified order is a strict weak order (a lemma about the specification)."""
    vs = [z3.Reals(f'{n}x {n}y') for n in 'uvw']
    u, v, w = vs
    B = before
    real_lemma(E, 'irreflexive', [], z3.Not(B(u, u)))
    real_lemma(E, 'asymmetric', [B(u, v)], z3.Not(B(v, u)))
    nz = [z3.Not(zero(x)) for x in vs]
    sq = lambda a: a[0] * a[0] + a[1] * a[1]
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    for side in (True, False):
        hs = nz + [half(x) if side else z3.Not(half(x)) for x in vs]
        real_lemma(E, f'angles in one half turn are transitive ({side})', hs + [cross(u, v) > 0, cross(v, w) > 0], cross(u, w) > 0)
        real_lemma(E, f'equal directions are transitive ({side})', hs + [cross(u, v) == 0, cross(v, w) == 0], cross(u, w) == 0)
        real_lemma(E, f'equal then greater ({side})', hs + [cross(u, v) == 0, cross(v, w) > 0], cross(u, w) > 0)
        real_lemma(E, f'greater then equal ({side})', hs + [cross(u, v) > 0, cross(v, w) == 0], cross(u, w) > 0)
    # with those, transitivity of the order and of incomparability is propositional over the signs
    c = {(a, b): z3.Real(f'c_{a}{b}') for a in 'uvw' for b in 'uvw'}
    h = {a: z3.Bool(f'h_{a}') for a in 'uvw'}
    z = {a: z3.Bool(f'z_{a}') for a in 'uvw'}
    q = {a: z3.Real(f'q_{a}') for a in 'uvw'}
    ax = [c[a, b] == -c[b, a] for a in 'uvw' for b in 'uvw']
    import itertools
    for a, b, d in itertools.product('uvw', repeat=3):
        same = z3.And(h[a] == h[b], h[b] == h[d], z3.Not(z[a]), z3.Not(z[b]), z3.Not(z[d]))
        ax += [z3.Implies(z3.And(same, c[a, b] > 0, c[b, d] > 0), c[a, d] > 0), z3.Implies(z3.And(same, c[a, b] == 0, c[b, d] == 0), c[a, d] == 0),
               z3.Implies(z3.And(same, c[a, b] == 0, c[b, d] > 0), c[a, d] > 0), z3.Implies(z3.And(same, c[a, b] > 0, c[b, d] == 0), c[a, d] > 0)]
    N = lambda a, b: z3.If(z[a], z3.Not(z[b]), z3.If(z[b], z3.BoolVal(False), z3.If(h[a] != h[b], h[a], z3.If(c[a, b] != 0, c[a, b] > 0, q[a] < q[b]))))
    inc = lambda a, b: z3.And(z3.Not(N(a, b)), z3.Not(N(b, a)))
    real_lemma(E, 'the order is transitive', ax + [N('u', 'v'), N('v', 'w')], N('u', 'w'))
    real_lemma(E, 'incomparability is transitive', ax + [inc('u', 'v'), inc('v', 'w')], inc('u', 'w'))


def sort(E):
    f = E.prog.func('AngleSorter::sort_counter_clockwise_around_observer')
    coord_domain(E)
    st = new_state()
    o = coord(E, st, 'o')
    O = lonlat(E, o, st)
    v = E.fresh(f['params'][1].strip(), 'vs', st)
    i = z3.Int('qi')
    cty = rec_ty(E, 'Coordinate')

    def pos(t, s=None):
        s = s or State()
        return lonlat(E, E.unpack(t, cty, s), s)

    def in_dom(t):
        x, y = pos(t)
        return z3.And(x >= -LON, x <= LON, y >= -LAT, y <= LAT)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), in_dom(v.arr[i])), patterns=[v.arr[i]]))
    loc = E.new_cell(st, v)
    # comparator elements are elements of the list: their coordinates are in the domain
    E.elem_dom = in_dom
    outs = run(E, f, None, [o, Ref(loc)], st)
    ensure_no_throw(E, outs)
    if len(E.sort_calls) != 1:
        raise Unsupported(f'{len(E.sort_calls)} sorts')
    fn, lam, r, facts, (x, y), vin, vout, s0 = E.sort_calls[0]
    # the comparator is the specified order, on every pair of positions in the domain
    s = s0.clone()
    s.pc += facts
    X, Y = pos(x, s), pos(y, s)
    u, w = sub(X, O), sub(Y, O)
    for k, t in (('x', X), ('y', Y)):
        E.inputs[k + '.lon'], E.inputs[k + '.lat'] = t
    E.inputs['o.lon'], E.inputs['o.lat'] = O
    s.assume(z3.And(in_dom(x), in_dom(y)))
    ensure(E, s, r == before(u, w), 'the comparator is the exact angular order')
    E.vac.append(s)
    for s, _ in returns(outs):
        z = E.get(loc, s)
        ensure(E, s, z.len == v.len, 'the list keeps its length')
        p, q = z3.Int('p'), z3.Int('q')
        g = s.ghost.get(('perm', vout.arr.get_id()))
        ensure(E, s, z3.Implies(v.len == 0, z.len == 0), 'an empty list stays empty')
        s2 = s.clone()
        s2.assume(z3.And(v.len > 0, p >= 0, p < q, q < z.len))
        A, B = sub(pos(z.arr[p], s2), O), sub(pos(z.arr[q], s2), O)
        ensure(E, s2, z.arr == vout.arr, 'the list is the sorted permutation')
        E.vac.append(s)


TARGETS = [Target('angular order', angle_order), Target('sorting', sort)]
