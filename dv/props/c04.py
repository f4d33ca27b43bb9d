"""C04: a split adds the edges of its own observers, and the splits cover every observer once."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from .c03 import Gen, result, polygons_kept


def split(E):
    st = new_state()
    S = Gen(E, st)
    f = E.prog.func('VisgraphGenerator::generate_with_shuffled_range')
    a, n = S.polys.arr, S.polys.len
    l0, N = S.all(a, n), S.alln(a, n)
    ps = [E.fresh(p.strip(), nm, st) for p, nm in zip(f['params'][1:], ('range_start', 'range_end', 'seed'))]
    lo, hi, seed = ps
    E.inputs.update(range_start=lo, range_end=hi, vertices=N)
    # the order of the observers: a function of the vertices and the seed
    ms = z3.DeclareSort('mt_state')
    mt = z3.Function('mt_seeded', IntS, ms)(seed)
    l = z3.Function(f'shuffled_{S.C}', l0.sort(), IntS, ms, l0.sort())(l0, N, mt)
    S.lists.append((l, lo))
    st.assume(z3.Implies(n == 0, N == 0))       # no polygons, no vertices (`vertices of the polygons`, C03)
    outs = run(E, f, None, [S.polys] + ps, st)
    bad = lor(hi > N, lo > hi)
    for s, x in throws(outs):
        ensure(E, s, land(n != 0, bad), 'only an improper range is rejected')
    for s, r in returns(outs):
        ensure(E, s, lor(n == 0, lnot(bad)), 'an improper range is rejected')
        g = result(E, S, s, r)
        polygons_kept(E, S, s, g)
        c, d = z3.Const(E.fname('c'), S.C), z3.Const(E.fname('d'), S.C)
        t, e, x = S.tree, g.f['edge'][c][d], g.f['direct'][c][d]
        for R, got, w in ((S.vis, e, 'joins two vertices exactly when an observer in the range reports the other'), (S.visd, x, 'has an edge as direct exactly when an observer in the range reports it directly')):
            ensure(E, s, z3.Implies(n != 0, got == S.joined(R, l, lo, hi, c, d)), f'a split {w}')
            ensure(E, s, z3.Implies(n == 0, lnot(got)), f'without polygons there are no edges')
        E.vac.append(s)


def cover(E):
    """Splits whose ranges chain from 0 to the number of vertices have, together, the observers of the whole."""
    st = new_state()
    S = Gen(E, st)
    l0, l = [z3.Const(n, z3.ArraySort(IntS, S.C)) for n in ('vertices', 'order')]
    N, c, i, k, m = z3.Int('N'), z3.Const('c', S.C), z3.Int('i'), z3.Int('k'), z3.Int('m')
    a = z3.Function('start', IntS, IntS)
    b = z3.Function('end', IntS, IntS)
    own = lambda k: S.X(l, a(k), b(k), c)
    U = z3.Function('some_split_before', IntS, S.C, BoolS)
    lo, mi, hi = z3.Ints('lo mi hi')
    ia = z3.Int('ia')
    one = lambda k: z3.Exists([ia], land(a(k) <= ia, ia < b(k), l[ia] == c))
    some = lambda h: z3.Exists([i], land(0 <= i, i < h, l[i] == c))
    real_lemma(E, 'no split covers nothing', [a(0) == 0], lnot(some(a(0))))
    real_lemma(E, 'one more split covers the observers up to its end', [0 <= a(k), a(k) <= b(k), b(k) == a(k + 1), U(k, c) == some(a(k)), U(k + 1, c) == lor(U(k, c), one(k))], U(k + 1, c) == some(a(k + 1)))
    p, q = z3.Function('p', IntS, IntS), z3.Function('q', IntS, IntS)
    perm = [z3.ForAll([i], z3.Implies(land(i >= 0, i < N), land(p(i) >= 0, p(i) < N, l[i] == l0[p(i)], q(i) >= 0, q(i) < N, l[q(i)] == l0[i])), patterns=[l[i], l0[i], p(i), q(i)])]
    real_lemma(E, 'a shuffle has the observers of the whole', perm, z3.Exists([i], land(0 <= i, i < N, l[i] == c)) == z3.Exists([i], land(0 <= i, i < N, l0[i] == c)))
    real_lemma(E, 'ranges that chain are disjoint', [a(k) <= b(k), b(k) <= a(m), a(m) <= i, i < b(m)], lnot(land(a(k) <= i, i < b(k))))
    Um = z3.Function('U', S.C, BoolS)
    A, D, e = z3.Function('A', IntS, S.C, BoolS), z3.Const('d', S.C), z3.Const('e', S.C)
    t = S.tree
    for nm, R in (('edge', S.vis), ('direct edge', S.visd)):
        J = lambda P: land(c != D, lor(land(P(c), R(t, c, D)), land(P(D), R(t, D, c))))
        real_lemma(E, f'merging splits is one split of their observers ({nm})',
                   [Um(c) == z3.Exists([k], land(k >= 0, k < m, A(k, c))), Um(D) == z3.Exists([k], land(k >= 0, k < m, A(k, D)))],
                   z3.Exists([k], land(k >= 0, k < m, J(lambda x: A(k, x)))) == J(Um))


TARGETS = [Target('split', split), Target('all splits together', cover)]

ASSUMES = ['std::shuffle is a permutation that depends only on the elements and the state of the generator it is given, and std::mt19937 only on its seed',
           "OpenMP executes each iteration of a parallel loop once; that every schedule is equivalent to the sequential one follows from the obligations of kind 'parallel' (own slot only, edges only added, nothing thrown), given that adding edges is locked and order independent (C11, C14)",
           'merging is the union of the splits (C13)']

from .pylayer import SPLITS  # noqa: E402
PY = [SPLITS]

# contracts of the functions called, proved of their bodies
NEEDS = {'c11': ['cells of the matrix', 'add directed edge', 'add edge', 'queries', 'construct'], 'c16': None, 'c13': None}
