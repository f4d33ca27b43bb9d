"""C19: equality is an equivalence and equal values hash equally."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


def opr(E, rec, op, a, b, st):
    """[(state, result)] of a == b on the real operator."""
    outs = run(E, f'{rec}::operator{op}', a, [b], st)
    ensure_no_throw(E, outs)
    return returns(outs)


def hash_of(E, name, a, st):
    fs = E.prog.by_name.get(f'std::hash<{name}>::operator()', [])
    if not fs:
        raise Unsupported('no hash of ' + name)
    f = fs[0]
    outs = run(E, f, Rec(f'std::hash<{name}>', {}), [a], st)
    ensure_no_throw(E, outs)
    return returns(outs)


def equivalence(E, rec, mk, same, hashed=True):
    """mk(name, st) -> value; same(a, b, st) -> formula comparing every observable component."""
    st = new_state()
    a, b = mk('a', st), mk('b', st)
    for s, v in opr(E, rec, '==', a, b, st):
        ensure(E, s, v == same(a, b, s), f'{rec}: equality compares every component')
        E.vac.append(s)
        for s2, w in opr(E, rec, '!=', a, b, s):
            ensure(E, s2, w == z3.Not(v), f'{rec}: inequality is the negation')
        if hashed:
            s3 = s.clone()
            s3.assume(v)
            for s4, h1 in hash_of(E, rec, a, s3):
                for s5, h2 in hash_of(E, rec, b, s4):
                    ensure(E, s5, h1 == h2, f'{rec}: equal values hash equally')
                    E.vac.append(s5)


def coordinate(E):
    equivalence(E, 'Coordinate', lambda n, st: coord(E, st, n, (1 << 31) - 1, (1 << 31) - 1), lambda a, b, s: veq(E, a, b, s))


def seg(E):
    def mk(n, st):
        return segment(E, st, n, coord(E, st, n + '1', (1 << 31) - 1, (1 << 31) - 1), coord(E, st, n + '2', (1 << 31) - 1, (1 << 31) - 1))

    def same(a, b, s):
        e = lambda g: [lonlat(E, E.call_pure('LineSegment::get_endpoint_' + k, g, [], s), s) for k in '12']
        (p, q), (u, v) = e(a), e(b)
        eq = lambda p, q: land(p[0] == q[0], p[1] == q[1])
        return z3.Or(z3.And(eq(p, u), eq(q, v)), z3.And(eq(p, v), eq(q, u)))
    equivalence(E, 'LineSegment', mk, same)


def visible(E):
    t = rec_ty(E, 'VisibleVertex')

    def mk(n, st):
        return Rec('VisibleVertex', {'coord': coord(E, st, n, (1 << 31) - 1, (1 << 31) - 1), 'is_visible_across_meridian': z3.Bool(E.fname(n))}, t)

    def same(a, b, s):
        return z3.And(veq(E, a.f['coord'], b.f['coord'], s), a.f['is_visible_across_meridian'] == b.f['is_visible_across_meridian'])
    if set(f for f, _ in E.rec_fields(t)) != {'coord', 'is_visible_across_meridian'}:
        raise Unsupported('VisibleVertex has other fields')
    equivalence(E, 'VisibleVertex', mk, same, False)


def polygon(E):
    t = rec_ty(E, 'Polygon')
    Fold(E)

    def verts(p, s):
        v = E.call_pure('Polygon::get_vertices', p, [], s)
        v = E.get(v.loc, s) if isinstance(v, Ref) else v
        return E.flat(E.deref_value(v, s) if isinstance(v, Ptr) else v, s)

    def mk(n, st):
        return E.fresh(t, n, st)

    def same(a, b, s):
        """Equal vertex lists: e <-> (equal lengths and all elements equal), with a witness of a difference."""
        u, w = verts(a, s), verts(b, s)
        e, d, i = z3.Bool(E.fname('same')), z3.Int(E.fname('differ')), z3.Int('qi')
        s.assume(z3.Implies(e, land(u.len == w.len, z3.ForAll([i], z3.Implies(land(i >= 0, i < u.len), u.arr[i] == w.arr[i]), patterns=[u.arr[i]]))))
        s.assume(z3.Implies(lnot(e), lor(u.len != w.len, land(d >= 0, d < u.len, u.arr[d] != w.arr[d]))))
        return e
    equivalence(E, 'Polygon', mk, same)


TARGETS = [Target('polygons', polygon), Target('coordinates', coordinate), Target('segments', seg), Target('visible vertices', visible)]
