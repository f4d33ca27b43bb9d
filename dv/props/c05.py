"""C05, C06: the search.  Graph, index and distances are known by contracts; the loops are cut by the invariants of A*."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target
from .c08 import World


class Search(World):
    def __init__(self, E, optimal=False):
        World.__init__(self, E)
        self.optimal = optimal
        E.ieee = False
        C, G = self.C, self.G
        F = lambda n, *s: z3.Function(n, *s)
        self.mk = F('segment', C, C, self.LS)
        self.hn, self.ha = F('hits.len', self.IX, self.LS, IntS), F('hits', self.IX, self.LS, z3.ArraySort(IntS, self.LS))
        self.len, self.heur = F('length', C, C, BoolS, RealS), F('estimate', C, C, RealS)
        self.nn, self.na, self.np = F('neighbours.len', G, C, IntS), F('neighbours', G, C, z3.ArraySort(IntS, C)), F('neighbour_at', G, C, C, IntS)
        g, c, d, i = z3.Const('qg', G), z3.Const('qc', C), z3.Const('qd', C), z3.Int('qi')
        A = lambda vs, f, *pats: E.axioms.append(z3.ForAll(vs, f, patterns=list(pats)))
        A([g, c, d], z3.Implies(self.edge(g, c, d), land(self.np(g, c, d) >= 0, self.np(g, c, d) < self.nn(g, c), self.na(g, c)[self.np(g, c, d)] == d)), self.edge(g, c, d))
        A([g, c, i], z3.Implies(land(i >= 0, i < self.nn(g, c)), land(self.edge(g, c, self.na(g, c)[i]), self.np(g, c, self.na(g, c)[i]) == i)), self.na(g, c)[i])
        b = z3.Bool('qb')
        if optimal:
            A([c, d, b], self.len(c, d, b) >= 0, self.len(c, d, b))
            A([c, d], self.heur(c, d) >= 0, self.heur(c, d))
            A([c], self.heur(c, c) == 0, self.heur(c, c))
        ct, t1 = E.contracts, self.term
        ct['LineSegment::LineSegment'] = self.segment
        ct['SpatialSegmentIndex::intersect_with_segments'] = self.hits
        ct['ShortestPathComputer::distance_measurement'] = lambda E, st, this, a, fn: self.len(t1(a[0], st), t1(a[1], st), self.value(a[2], st))
        ct['ShortestPathComputer::heuristic_distance_measurement'] = lambda E, st, this, a, fn: self.heur(t1(a[0], st), t1(a[1], st))
        ct['ShortestPathComputer::create_modified_graph'] = self.searched
        self.st = st = new_state()
        self.this = self.computer(st)
        self.mg = z3.Const('searched', G)
        f = E.prog.func('ShortestPathComputer::shortest_path')
        self.f = f
        ps = [p.strip() for p in f['params']]
        if [p.c for p in ps] != ['rec', 'rec', 'float', 'bool', 'float']:
            raise Unsupported('parameters of shortest_path')
        self.args = [E.fresh(p, n, st) for p, n in zip(ps, ('source', 'destination', 'limit', 'correct', 'weight'))]
        s, d, self.limit, self.correct, self.weight = self.args
        s, d = self.norm(s.f['#t']), self.norm(d.f['#t'])
        self.si, self.se, self.cs = self.corrected(s)
        self.di, self.de, self.cd = self.corrected(d)
        # names, so that they may stand in patterns
        for n in ('cs', 'cd'):
            k = z3.Const({'cs': 'start', 'cd': 'end'}[n], C)
            st.assume(k == getattr(self, n))
            setattr(self, n, k)
        r = E.prog.rec_by_name['AStarHeapElement'][0]
        et = rec_ty(E, 'AStarHeapElement')
        fs = E.rec_fields(et)
        try:
            self.ni = [i for i, (n, t) in enumerate(fs) if t.strip().name == 'Coordinate'][0]
            self.hi = [i for i, (n, t) in enumerate(fs) if t.strip().c == 'float' and 'heur' in n][0]
            self.di_ = [i for i, (n, t) in enumerate(fs) if t.strip().c == 'float' and 'heur' not in n][0]
        except IndexError:
            raise Unsupported('AStarHeapElement')
        if len(fs) != 3:
            raise Unsupported('AStarHeapElement')
        self.es = E.sort_of(et)
        E.providers.append(self.provider)

    def segment(self, E, st, this, a, fn):
        if len(a) != 2:
            return NotImplemented
        return self.rec('LineSegment', self.mk(self.term(a[0], st), self.term(a[1], st)))

    def hits(self, E, st, this, a, fn):
        i, s = self.term(this, st), self.term(a[0], st)
        st.assume(land(self.hn(i, s) >= 0, self.hn(i, s) <= 1 << 40))
        return Vec(self.hn(i, s), self.ha(i, s), rec_ty(E, 'LineSegment'))

    def searched(self, E, st, this, a, fn):
        r = self.value(a[0], st)
        s, d, es, ed = self.correction(r)
        ensure(E, st, land(s == self.cs, d == self.cd), 'the graph is made for the corrected end points')
        ensure(E, st, land(es.has == self.si, z3.Implies(self.si, es.val.f['#t'] == self.se), ed.has == self.di, z3.Implies(self.di, ed.val.f['#t'] == self.de)), 'and for their shore edges')
        st.assume(land(self.vert(self.mg, s), self.vert(self.mg, d)))
        return Ptr([(z3.BoolVal(True), E.new_cell(st, self.rec('IGraph', self.mg)))], fn['ret'].strip())

    def neighbors(self, this, st, a):
        E = self.E
        g, c = self.term(this, st), self.term(a[0], st)
        E.throw_if(st, lnot(self.vert(g, c)), Opaque('std::runtime_error'))
        st.assume(land(self.nn(g, c) >= 0, self.nn(g, c) <= 1 << 40))
        return Vec(self.nn(g, c), self.na(g, c), rec_ty(E, 'Coordinate'))

    # ------------------------------------------------------------ vocabulary
    def leg(self, a, b):
        return self.len(b, a, self.cross(self.mg, a, b))

    def el(self, n, d):
        v = [None] * 3
        v[self.ni], v[self.di_], v[self.hi] = n, d, self.heur(n, self.cd)
        return self.es.mk(*v)

    def node(self, e):
        return self.es.accessor(0, self.ni)(e)

    def dist_of(self, e):
        return self.es.accessor(0, self.di_)(e)

    def near(self, n):
        return self.heur(self.cs, n) <= self.limit

    def reached(self, D, n):
        return lor(n == self.cs, D.dom[n])

    def gd(self, D, n):
        return z3.If(n == self.cs, z3.RealVal(0), D.val[n])

    def shore(self, h):
        return lor(land(self.si, h == self.se), land(self.di, h == self.de))

    def no_hits(self, j):
        s = self.mk(self.cs, self.cd)
        return z3.Implies(land(j >= 0, j < self.hn(self.idx, s)), self.shore(self.ha(self.idx, s)[j]))

    # ------------------------------------------------------------ invariants
    def provider(self, E, L):
        out = []
        C = self.C
        bags = L.values(Bag, lambda b: b.cnt.sort().domain() == self.es)
        maps = L.values(Map, lambda m: m.vty is not None and m.dom.sort().domain() == C)
        prevs = [m for m in maps if L.at(m, L.entry).val.sort().range() == C]
        dists = [m for m in maps if L.at(m, L.entry).val.sort().range() == RealS]
        if len(bags) == 1 and len(prevs) == 1 and len(dists) == 1:
            out += self.search_invariants(L, bags[0], prevs[0], dists[0])
        if not bags:
            out += self.walk_back(E, L)
            out += self.counting(E, L)
        return out

    def search_invariants(self, L, bag, prev, dist):
        E = self.E
        C, mg = self.C, self.mg
        B, P, D = (lambda s: L.at(bag, s)), (lambda s: L.at(prev, s)), (lambda s: L.at(dist, s))
        n, w, e = z3.Const('qn', C), z3.Const('qw', C), z3.Const('qe', self.es)
        out = []
        inner = bool(E.cur_loops)
        top = None
        if inner:
            O = E.cur_loops[0]
            for rp in O.values(Bag, lambda b: b.cnt.sort().domain() == self.es):
                c = O.at(rp, O.head).cnt
                k = ('top', c.get_id())
                if k in L.entry.ghost:
                    top = L.entry.ghost[k][0]
        out.append(('queued: sane', lambda s: qall([e], z3.Implies(B(s).cnt[e] > 0, land(e == self.el(self.node(e), self.dist_of(e)), lor(land(self.node(e) == self.cs, self.dist_of(e) == 0), land(D(s).dom[self.node(e)], D(s).val[self.node(e)] <= self.dist_of(e))))), [B(s).cnt[e]])))
        out.append(('as many predecessors as distances', lambda s: qall([n], P(s).dom[n] == D(s).dom[n], [P(s).dom[n], D(s).dom[n]])))
        out.append(('predecessors are joined', lambda s: qall([n], z3.Implies(P(s).dom[n], land(self.edge(mg, P(s).val[n], n), self.reached(D(s), P(s).val[n]))), [P(s).dom[n], P(s).val[n]])))
        out.append(('reached within the limit', lambda s: qall([n], z3.Implies(P(s).dom[n], self.near(n)), [P(s).dom[n]])))
        if self.optimal:
            out.append(('distances are not negative', lambda s: qall([n], z3.Implies(D(s).dom[n], D(s).val[n] >= 0), [D(s).dom[n]])))
            out.append(('distances add up', lambda s: qall([n], z3.Implies(P(s).dom[n], D(s).val[n] >= self.gd(D(s), P(s).val[n]) + self.leg(P(s).val[n], n)), [P(s).dom[n], P(s).val[n]])))

        def frontier(s, extra):
            x = D(s)
            return qall([n, w], z3.Implies(land(self.reached(x, n), self.edge(mg, n, w), self.near(w)),
                                           lor(B(s).cnt[self.el(n, self.gd(x, n))] > 0, land(x.dom[w], x.val[w] <= self.gd(x, n) + self.leg(n, w)), extra(s, n, w))), [self.edge(mg, n, w)])
        if not inner:
            out.append(('queued or done', lambda s: frontier(s, lambda *a: z3.BoolVal(False))))
        if inner and top is not None:
            tn, td = self.node(top), self.dist_of(top)
            out.append(('queued or done, or still to do', lambda s: frontier(s, lambda s, a, b: land(a == tn, self.gd(D(s), a) == td, self.np(mg, tn, b) >= L.k(s)))))
            out.append(('the one looked at', lambda s: land(top == self.el(tn, td), self.vert(mg, tn), lor(land(tn == self.cs, td == 0), land(D(s).dom[tn], D(s).val[tn] <= td)))))
        return out

    def walk_back(self, E, L):
        """the loop that follows the predecessors from the destination"""
        C, out = self.C, []
        maps = []
        for m in L.entry.env.values():
            if isinstance(m, Map) and m.vty is not None and m.dom.sort().domain() == C and m.val.sort().range() == C:
                maps.append(m)
        if len(maps) != 1:
            return out
        m = maps[0]
        i = z3.Int('qi')
        for rp in L.values(Vec, lambda v: v.ety.strip().name == 'Coordinate'):
            V = lambda s, rp=rp: L.at(rp, s)
            out.append(('one more node per step', lambda s, V=V: V(s).len == L.k(s)))
            out.append(('starts at the end', lambda s, V=V: z3.Implies(L.k(s) > 0, V(s).arr[0] == self.cd)))
            out.append(('goes back', lambda s, V=V: qall([i], z3.Implies(land(i >= 0, i < L.k(s)), land(V(s).arr[i] != self.cs, m.dom[V(s).arr[i]])), [V(s).arr[i]])))
            out.append(('goes back step by step', lambda s, V=V: qall([i], z3.Implies(land(i >= 1, i < L.k(s)), V(s).arr[i] == m.val[V(s).arr[i - 1]]), [V(s).arr[i]])))
            for rc in L.values(Rec, lambda r: r.name == 'Coordinate'):
                cur = lambda s, rc=rc: L.at(rc, s).f['#t']
                out.append(('the next node', lambda s, V=V, cur=cur: cur(s) == z3.If(L.k(s) == 0, self.cd, m.val[V(s).arr[L.k(s) - 1]])))
                out.append(('the next node was reached', lambda s, V=V, cur=cur: lor(L.k(s) == 0, cur(s) == self.cs, m.dom[cur(s)])))
        return out

    def counting(self, E, L):
        s = self.mk(self.cs, self.cd)
        out = []
        j = z3.Int('qj')
        for leaf in L.leaves:
            try:
                x = L.get(leaf, L.entry)
            except Exception:
                continue
            if isinstance(x, z3.ArithRef) and x.sort() == IntS:
                c = lambda st, leaf=leaf: L.get(leaf, st)
                nm = f'{leaf.root}'
                out.append((f'none counted so far {len(out)}', lambda st, c=c: z3.Implies(c(st) == 0, qall([j], z3.Implies(land(j >= 0, j < L.k(st)), self.shore(self.ha(self.idx, s)[j])), [self.ha(self.idx, s)[j]]))))
                out.append((f'no more counted than seen {len(out)}', lambda st, c=c: land(c(st) >= 0, c(st) <= L.k(st))))
            if isinstance(x, z3.BoolRef):
                c = lambda st, leaf=leaf: L.get(leaf, st)
                for want in (True, False):
                    out.append((f'none seen so far {want} {len(out)}', lambda st, c=c, want=want: z3.Implies(c(st) == z3.BoolVal(want), qall([j], z3.Implies(land(j >= 0, j < L.k(st)), self.shore(self.ha(self.idx, s)[j])), [self.ha(self.idx, s)[j]]))))
        return out


def final_maps(S, st):
    """(predecessors, distances) where the search ended"""
    E = S.E
    ps, ds = [], []
    for m in st.env.values():
        if isinstance(m, Map) and m.vty is not None and m.dom.sort().domain() == S.C:
            (ps if m.val.sort().range() == S.C else ds if m.val.sort().range() == RealS else []).append(m)
    return ps, ds


def search(E):
    S = Search(E)
    outs = run(E, S.f, S.this, S.args, S.st)
    C = S.C
    land_fail = land(lnot(S.correct), lor(S.si, S.di))
    n, w = z3.Const(E.fname('n'), C), z3.Const(E.fname('w'), C)
    i, j = z3.Int(E.fname('i')), z3.Int(E.fname('j'))
    for x, v in throws(outs):
        ps, ds = final_maps(S, x)
        if not ds:
            ensure(E, x, land_fail, 'before the search a request fails only for an end point on land')
            continue
        D = ds[-1]
        ensure(E, x, lor(land_fail, lnot(S.reached(D, S.cd))), 'an error means the destination was not reached')
        ensure(E, x, lor(land_fail, z3.Implies(land(S.reached(D, n), S.edge(S.mg, n, w), S.near(w)), S.reached(D, w))), 'and that all nodes joined to a reached node within the limit were reached')
    for x, r in returns(outs):
        v = E.flat(r, x)
        ensure(E, x, v.len >= 1, 'a path has a node')
        ensure(E, x, land(v.arr[0] == S.cs, v.arr[v.len - 1] == S.cd), 'a path goes from the source to the destination')
        leg = land(i >= 0, i < v.len - 1)
        direct = land(v.len == 2, S.no_hits(j))
        ensure(E, x, lor(direct, z3.Implies(leg, S.edge(S.mg, v.arr[i], v.arr[i + 1]))), 'a path is direct, with no hits but shore edges, or goes along edges of the graph searched')
        ensure(E, x, lor(direct, z3.Implies(leg, S.near(v.arr[i + 1]))), 'no node is beyond the search limit')
        E.vac.append(x)


TARGETS = [Target('search', search)]

ASSUMES = ['the priority queue returns an element its comparator prefers no other to (contract of std::priority_queue)', 'distances and the search limit are treated as mathematical reals; an infinite limit as one above all distances', 'partial correctness: the loops are not proved to end']

# contracts of the functions called, proved of their bodies
NEEDS = {'c12': None, 'c16': ['normalise']}
