"""C21: a corner sees exactly the directions outside its polygon."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


def polyline(E, st, v1, v2, v3):
    f = E.prog.func('ThreeVertexPolyline::ThreeVertexPolyline')
    l = E.new_cell(st, E.default_rec(rec_ty(E, 'ThreeVertexPolyline'), st))
    E.call_function(f, l, [v1, v2, v3] if f['params'][0].c != 'ref' else [Ref(E.new_cell(st, v)) for v in (v1, v2, v3)], st)
    return E.get(l, st)


def corner(E):
    st = new_state()
    v1, v2, v3, p = [coord(E, st, n) for n in ('v1', 'v2', 'v3', 'p')]
    V1, V2, V3, Q = [lonlat(E, k, st) for k in (v1, v2, v3, p)]
    pl = polyline(E, st, v1, v2, v3)
    e1, e3, d = sub(V1, V2), sub(V3, V2), sub(Q, V2)
    turn = cross(sub(V2, V1), sub(V3, V2))
    st.assume(turn != 0)
    st.assume(z3.Not(z3.And(Q[0] == V2[0], Q[1] == V2[1])))
    outs = run(E, 'ThreeVertexPolyline::is_reflex', pl, [], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, v == (turn < 0), 'reflex exactly when the boundary turns right')
        E.vac.append(s)
    # the two edges span a wedge; turn = cross(e3, e1)
    lemma(E, st, turn == cross(e3, e1), 'turn is the cross product of the edges')
    c1, c3 = cross(e1, d), cross(e3, d)
    inside = z3.If(turn > 0, z3.And(c3 > 0, c1 < 0), z3.Not(z3.And(c1 >= 0, c3 <= 0)))
    first = lambda e: z3.If(e[0] != 0, e[0], e[1])
    along = lambda e: z3.If(e[0] != 0, d[0], d[1])
    for e, o in ((e1, e3), (e3, e1)):
        # e.i * cross(o, d) - d.i * cross(o, e) = o.i * cross(e, d)
        for i in (0, 1):
            lemma(E, st, e[i] * cross(o, d) - d[i] * cross(o, e) == o[i] * cross(e, d), 'ring identity')
    onray = [z3.And(cross(e, d) == 0, first(e) * along(e) > 0) for e in (e1, e3)]
    within = [z3.If(first(e) > 0, along(e) <= first(e), along(e) >= first(e)) for e in (e1, e3)]
    k = 100000
    far = [z3.If(first(e) > 0, k * (along(e) - first(e)) > first(e), k * (along(e) - first(e)) < first(e)) for e in (e1, e3)]
    outs = run(E, 'ThreeVertexPolyline::point_visible', pl, [p], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        ensure(E, s, z3.Implies(z3.And(inside, c1 != 0, c3 != 0), z3.Not(v)), 'strictly inside the wedge, off the lines of the edges: hidden')
        ensure(E, s, z3.Implies(z3.And(inside, z3.Or(c1 == 0, c3 == 0)), z3.Not(v)), 'strictly inside the wedge on the line of an edge: hidden')
        ensure(E, s, z3.Implies(z3.And(z3.Not(inside), c1 != 0, c3 != 0), v), 'outside the wedge: not hidden')
        ensure(E, s, z3.Implies(z3.And(z3.Not(inside), z3.Or(c1 == 0, c3 == 0), z3.Not(z3.Or(*onray))), v), 'on the line of an edge, outside the wedge: not hidden')
        for i in (0, 1):
            ensure(E, s, z3.Implies(z3.And(onray[i], within[i]), v), 'on an edge: not hidden')
            ensure(E, s, z3.Implies(z3.And(onray[i], far[i]), z3.Not(v)), 'beyond the end of an edge: hidden')
        E.vac.append(s)


TARGETS = [Target('corner', corner, budget=60)]
