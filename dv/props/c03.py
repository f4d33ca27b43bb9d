"""C03: the visibility graph is the symmetric visibility relation.  What an observer sees is known by contract only."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from .c13 import Graphs


class Gen(Graphs):
    """Graph by its contract (C11), visibility as an arbitrary list for every observer and every list of obstacles."""

    def __init__(self, E, st, proved=True):
        Graphs.__init__(self, E)
        self.builds = []
        C, P = self.C, self.P
        E.opaque_recs['VistreeGenerator'] = z3.DeclareSort('VistreeGenerator#')
        self.VT = VT = E.opaque_recs['VistreeGenerator']
        ct = E.contracts
        self.pty = E.prog.func('VisgraphGenerator::polygon_vertices')['params'][0].strip()
        pa, ca = z3.ArraySort(IntS, P), z3.ArraySort(IntS, C)
        F = lambda n, *s: z3.Function(n, *s)
        self.mk = F('obstacles', pa, IntS, VT)
        self.per, self.pern = F('periodic', pa, IntS, pa), F('periodic.len', pa, IntS, IntS)
        self.all, self.alln = F('all_vertices', pa, IntS, ca), F('all_vertices.len', pa, IntS, IntS)
        fs = E.rec_fields(rec_ty(E, 'VisibleVertex'))
        if len(fs) != 2:
            raise Unsupported('VisibleVertex')
        self.vsort = E.sort_of(rec_ty(E, 'VisibleVertex'))
        vi = [i for i, (n, t) in enumerate(fs) if t.strip().name == 'Coordinate'][0]
        vb = [i for i, (n, t) in enumerate(fs) if t.strip().c == 'bool'][0]
        crd, flg = (lambda x: self.vsort.accessor(0, vi)(x)), (lambda x: self.vsort.accessor(0, vb)(x))
        self.vn, self.va = F('half_scan.len', VT, C, IntS), F('half_scan', VT, C, z3.ArraySort(IntS, self.vsort))
        self.vis, self.visd = F('reports', VT, C, C, BoolS), F('reports_directly', VT, C, C, BoolS)
        self.at, self.atd = F('reported_at', VT, C, C, IntS), F('reported_directly_at', VT, C, C, IntS)
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        t, c, d, i = z3.Const('qt', VT), z3.Const('qc', C), z3.Const('qd', C), z3.Int('qi')
        el = lambda j: self.va(t, c)[j]
        A([t, c, d], z3.Implies(self.vis(t, c, d), land(self.at(t, c, d) >= 0, self.at(t, c, d) < self.vn(t, c), crd(el(self.at(t, c, d))) == d)), self.vis(t, c, d))
        A([t, c, d], z3.Implies(self.visd(t, c, d), land(self.atd(t, c, d) >= 0, self.atd(t, c, d) < self.vn(t, c), crd(el(self.atd(t, c, d))) == d, lnot(flg(el(self.atd(t, c, d)))))), self.visd(t, c, d))
        A([t, c, i], z3.Implies(land(i >= 0, i < self.vn(t, c)), land(self.vis(t, c, crd(el(i))), lor(flg(el(i)), self.visd(t, c, crd(el(i)))))), el(i))
        A([t, c, d], z3.Implies(self.visd(t, c, d), self.vis(t, c, d)), self.visd(t, c, d))
        # the vertices the lists hold
        self.polys = E.fresh(self.pty, 'polygons', st)
        st.assume(self.polys.len <= 1 << 20)
        a, n = self.polys.arr, self.polys.len
        self.tree = self.mk(self.per(a, n), self.pern(a, n))
        self.given = F('given_vertex', C, BoolS)        # a vertex of some given polygon
        self.of, self.pos = F('given.polygon', C, IntS), F('given.position', C, IntS)
        A([c], z3.Implies(self.given(c), land(self.of(c) >= 0, self.of(c) < n, self.pv(a[self.of(c)], c))), self.given(c))
        A([i, c], z3.Implies(land(i >= 0, i < n, self.pv(a[i], c)), self.given(c)), self.pv(a[i], c))
        N = self.alln(a, n)
        E.axioms.append(land(N >= 0, N <= 1 << 20))
        L = self.all(a, n)
        A([i], z3.Implies(land(i >= 0, i < N), self.given(L[i])), L[i])
        A([c], z3.Implies(self.given(c), land(self.pos(c) >= 0, self.pos(c) < N, L[self.pos(c)] == c)), self.given(c))
        # an observer reports vertices of the given polygons, brought back into the world (C02, C17)
        A([c, d], z3.Implies(self.vis(self.tree, c, d), self.given(d)), self.vis(self.tree, c, d))
        ct['VistreeGenerator::VistreeGenerator'] = self.obstacles
        ct['VistreeGenerator::get_visible_vertices'] = self.visible
        ct['VisgraphGenerator::polygon_vertices'] = self.listed_vertices
        ct['make_polygons_periodic'] = self.periodic
        # c is one of L[lo..k)  (by recursion, for each list)
        self.X = z3.Function('among', ca, IntS, IntS, C, BoolS)
        l, lo, k = z3.Const('ql', ca), z3.Int('qlo'), z3.Int('qk')
        A([l, lo, c], lnot(self.X(l, lo, lo, c)), self.X(l, lo, lo, c))
        if proved:      # by the lemmas of `meaning`
            A([l, lo, k, c, i], z3.Implies(land(lo <= i, i < k, l[i] == c), self.X(l, lo, k, c)), z3.MultiPattern(self.X(l, lo, k, c), l[i]))
            w = F('among.at', ca, IntS, IntS, C, IntS)
            A([l, lo, k, c], z3.Implies(land(self.X(l, lo, k, c), lo <= k), land(w(l, lo, k, c) >= lo, w(l, lo, k, c) < k, l[w(l, lo, k, c)] == c)), self.X(l, lo, k, c))
        E.loop_defs.append(self.defs)
        E.providers.append(self.provider)
        self.lists = []

    def lst(self, a, st):
        v = self.E.get(a.loc, st) if isinstance(a, Ref) else a
        if not isinstance(v, Vec):
            return None
        return self.E.flat(v, st)

    def obstacles(self, E, st, this, a, fn):
        v = self.lst(a[0], st) if len(a) == 1 else None
        if v is None or v.arr.sort().range() != self.P:
            return NotImplemented
        return Rec('VistreeGenerator', {'#t': self.mk(v.arr, v.len)}, rec_ty(E, 'VistreeGenerator'))

    def periodic(self, E, st, this, a, fn):
        v = self.lst(a[0], st)
        n = self.pern(v.arr, v.len)
        st.assume(land(n >= 0, n <= 3 << 20))
        return Vec(n, self.per(v.arr, v.len), v.ety)

    def listed_vertices(self, E, st, this, a, fn):
        v = self.lst(a[0], st)
        n = self.alln(v.arr, v.len)
        st.assume(land(n >= 0, n <= 1 << 20))
        return Vec(n, self.all(v.arr, v.len), rec_ty(E, 'Coordinate'))

    def visible(self, E, st, this, a, fn):
        half = a[1] if len(a) > 1 else z3.BoolVal(False)
        half = E.get(half.loc, st) if isinstance(half, Ref) else half
        ensure(E, st, half, 'an observer is scanned over half a turn')
        t, c = E.get(this, st).f['#t'], self.val(a[0], st)
        st.assume(land(self.vn(t, c) >= 0, self.vn(t, c) <= 1 << 20))
        return Vec(self.vn(t, c), self.va(t, c), rec_ty(E, 'VisibleVertex'))


    # the edges after the observers L[lo..k)
    def joined(self, R, l, lo, k, c, d):
        t = self.tree
        return land(c != d, lor(land(self.X(l, lo, k, c), R(t, c, d)), land(self.X(l, lo, k, d), R(t, d, c))))

    def defs(self, E, L):
        if E.cur_loops:
            return []
        out = []
        c = z3.Const('qc', self.C)
        for l, lo in self.lists:
            k = lo + L.k(L.head)
            x = self.X(l, lo, k + 1, c)
            out.append(z3.ForAll([c], x == lor(self.X(l, lo, k, c), l[k] == c), patterns=[x, self.X(l, lo, k, c)]))
        return out

    def provider(self, E, L):
        c, d = z3.Const('qc', self.C), z3.Const('qd', self.C)
        out = []
        for n, rp in enumerate(L.values(Rec, lambda r: r.name == 'Graph' and 'edge' in r.f)):
            for m, (l, lo) in enumerate(self.lists):
                for nm, R, at in (('edge', self.vis, self.at), ('direct', self.visd, self.atd)):
                    fld = lambda s, rp=rp, nm=nm: L.at(rp, s).f[nm]
                    if not E.cur_loops:
                        out.append((f'{nm}s of the observers so far#{n}.{m}', lambda s, fld=fld, R=R, l=l, lo=lo: qall([c, d], fld(s)[c][d] == self.joined(R, l, lo, lo + L.k(s), c, d), [fld(s)[c][d]])))
                        continue
                    O = E.cur_loops[0]
                    k = lo + O.k(O.head)
                    o, t = l[k], self.tree
                    J = lambda c, d, R=R, l=l, lo=lo, k=k: self.joined(R, l, lo, k, c, d)
                    out.append((f'only {nm}s so far#{n}.{m}', lambda s, fld=fld, J=J, R=R, o=o: qall([c, d], z3.Implies(fld(s)[c][d], lor(J(c, d), land(c != d, lor(land(c == o, R(t, o, d)), land(d == o, R(t, o, c)))))), [fld(s)[c][d]])))
                    out.append((f'{nm}s before stay#{n}.{m}', lambda s, fld=fld, J=J: qall([c, d], z3.Implies(J(c, d), fld(s)[c][d]), [fld(s)[c][d]])))
                    out.append((f'{nm}s of the observer so far#{n}.{m}', lambda s, fld=fld, R=R, at=at, o=o: qall([d], z3.Implies(land(R(t, o, d), at(t, o, d) < L.k(s), d != o), land(fld(s)[o][d], fld(s)[d][o])), [R(t, o, d)])))
        return out


def result(E, S, s, r):
    if not isinstance(r, Ptr):
        raise Unsupported('result of the generator')
    g = E.deref_value(r, s)
    if not isinstance(g, Rec) or 'edge' not in g.f:
        raise Unsupported('the generated graph')
    return g


def polygons_kept(E, S, s, g):
    v = [x for x in S.builds if x[1].eq(g.f['#t'])][-1][2]
    p = S.polys
    i = z3.Int(E.fname('i'))
    ensure(E, s, land(v.len == p.len, z3.Implies(land(i >= 0, i < p.len), v.arr[i] == p.arr[i])), 'the graph is over the given polygons, in their order')


def generate(E):
    st = new_state()
    S = Gen(E, st)
    a, n = S.polys.arr, S.polys.len
    l, N = S.all(a, n), S.alln(a, n)
    S.lists.append((l, I(0)))
    outs = run(E, 'VisgraphGenerator::generate', None, [S.polys], st)
    ensure_no_throw(E, outs, 'generating succeeds')
    for s, r in returns(outs):
        g = result(E, S, s, r)
        polygons_kept(E, S, s, g)
        c, d = z3.Const(E.fname('c'), S.C), z3.Const(E.fname('d'), S.C)
        s.assume(lor(S.given(c), lnot(S.given(c))))
        t, e, x = S.tree, g.f['edge'][c][d], g.f['direct'][c][d]
        rep = lambda R: land(c != d, lor(land(S.given(c), R(t, c, d)), land(S.given(d), R(t, d, c))))
        ensure(E, s, S.X(l, I(0), N, c) == S.given(c), 'the observers are the vertices of the polygons')
        s.assume(land(S.X(l, I(0), N, c) == S.given(c), S.X(l, I(0), N, d) == S.given(d)))
        ensure(E, s, e == rep(S.vis), 'two vertices are joined exactly when one reports the other')
        ensure(E, s, x == rep(S.visd), 'an edge is direct exactly when it was reported directly')
        ensure(E, s, land(e == g.f['edge'][d][c], x == g.f['direct'][d][c]), 'the relation is symmetric')
        ensure(E, s, lnot(g.f['edge'][c][c]), 'there are no self edges')
        E.vac.append(s)


def flatten(E):
    """polygon_vertices lists the vertices of the polygons, all of them and nothing else."""
    from .c11 import poly_elems
    st = new_state()
    f = E.prog.func('VisgraphGenerator::polygon_vertices')
    polys = E.fresh(f['params'][0].strip(), 'polygons', st)
    inner, elem = poly_elems(E, polys, st)
    ps = E.sort_of(polys.ety)
    F = Flatten(E, st, 'vertices', inner, elem, E.sort_of(rec_ty(E, 'Coordinate')), lambda L: L.rng is not None and L.rng.arr.sort().range() == ps or runs_over(E, L, polys.len))
    st.assume(F.off(polys.len) <= 1 << 20)
    outs = run(E, f, None, [polys], st)
    ensure_no_throw(E, outs)
    for s, v in returns(outs):
        v = E.flat(v, s)
        p, q, i = z3.Int(E.fname('p')), z3.Int(E.fname('q')), z3.Int(E.fname('i'))
        ensure(E, s, v.len == F.off(polys.len), 'as many as the polygons have')
        ensure(E, s, z3.Implies(land(p >= 0, p < polys.len, q >= 0, q < inner(p)), land(F.off(p) + q >= 0, F.off(p) + q < v.len, v.arr[F.off(p) + q] == elem(p, q))), 'every vertex of every polygon is listed')
        ensure(E, s, z3.Implies(land(i >= 0, i < v.len), land(F.wp(i) >= 0, F.wp(i) < polys.len, F.wq(i) >= 0, F.wq(i) < inner(F.wp(i)), v.arr[i] == elem(F.wp(i), F.wq(i)))), 'everything listed is a vertex of a polygon')
        E.vac.append(s)


def meaning(E):
    """`among` is 'one of L[lo..k)': induction over k.  The order of the observers does not matter."""
    st = new_state()
    S = Gen(E, st, proved=False)
    l, lo, k, i = z3.Const('l', z3.ArraySort(IntS, S.C)), z3.Int('lo'), z3.Int('k'), z3.Int('i')
    c = z3.Const('c', S.C)
    some = lambda k: z3.Exists([i], land(lo <= i, i < k, l[i] == c))
    real_lemma(E, 'no observer before the first', [], S.X(l, lo, lo, c) == some(lo))
    real_lemma(E, 'one more observer', [lo <= k, S.X(l, lo, k + 1, c) == lor(S.X(l, lo, k, c), l[k] == c), S.X(l, lo, k, c) == some(k)], S.X(l, lo, k + 1, c) == some(k + 1))


TARGETS = [Target('generate', generate), Target('vertices of the polygons', flatten), Target('observers', meaning)]

ASSUMES = ["OpenMP executes each iteration of a parallel loop once; that every schedule is equivalent to the sequential one follows from the obligations of kind 'parallel' (own slot only, edges only added, nothing thrown), given that adding edges is locked and order independent (C11, C14)",
           'what a half scan reports is a function of the obstacles and the observer, and lies among the given vertices (C02, C17)']

from .pylayer import GENERATE  # noqa: E402
PY = [GENERATE]

# contracts of the functions called, proved of their bodies
NEEDS = {'c11': ['cells of the matrix', 'add directed edge', 'add edge', 'queries', 'construct'], 'c16': None}
