"""Shared vocabulary of the contracts: building symbolic inputs, reading results."""
import z3
from fractions import Fraction
from .engine import *
from .engine import _fresh
from .frontend import Ty

LON = 540000001
LAT = 90000000
PERIOD = 360000001


def rec_ty(E, name):
    r = E.prog.rec_by_name[name][0]
    return Ty(c='rec', name=name, args=[], s=name, usr=r.get('usr') or next(u for u, x in E.prog.recs.items() if x is r))


def new_state():
    return State()


def coord(E, st, name, lon=LON, lat=LAT):
    """A position in the domain, built from its observable longitude and latitude."""
    t = rec_ty(E, 'Coordinate')
    c = E.fresh(t, name, st)
    x, y = lonlat(E, c, st)
    E.note_range(x, (-lon, lon), st)
    E.note_range(y, (-lat, lat), st)
    E.inputs[name + '.lon'], E.inputs[name + '.lat'] = x, y
    return c


def lonlat(E, c, st):
    return (E.call_pure('Coordinate::get_longitude_microdegrees', c, [], st), E.call_pure('Coordinate::get_latitude_microdegrees', c, [], st))


def mk_coord(E, x, y, st):
    f = E.prog.func('Coordinate::Coordinate', lambda f: len(f['params']) == 2 and f['params'][0].c == 'int')
    l = E.new_cell(st, E.default_rec(rec_ty(E, 'Coordinate'), st))
    E.call_function(f, l, [x, y], st)
    return E.get(l, st)


def segment(E, st, name, a, b):
    f = E.prog.func('LineSegment::LineSegment', lambda f: len(f['params']) == 2)
    l = E.new_cell(st, E.default_rec(rec_ty(E, 'LineSegment'), st))
    E.call_function(f, l, [Ref(E.new_cell(st, a)), Ref(E.new_cell(st, b))], st)
    return E.get(l, st)


def run(E, fname, this, args, st, pred=None):
    """Runs the real body of a function from st; returns its outcomes."""
    f = E.prog.func(fname, pred) if isinstance(fname, str) else fname
    loc = None
    if this is not None:
        loc = this if isinstance(this, Loc) else E.new_cell(st, this)
    a2 = []
    for p, a in zip(f['params'], args):
        a2.append(Ref(E.new_cell(st, a)) if p.c == 'ref' and not isinstance(a, Ref) else a)
    return E.run(f, loc, a2, st)


def ensure(E, st, f, desc):
    """A postcondition."""
    if isinstance(f, bool):
        f = z3.BoolVal(f)
    E.oblige(st, f, 'postcondition', desc, assume=False)


def ensure_no_throw(E, outs, desc='never throws'):
    for k, st, x in outs:
        if k == 'throw':
            ensure(E, st, z3.BoolVal(False), f'{desc} ({x.name})')


def returns(outs):
    return [(st, v) for k, st, v in outs if k == 'ret']


def throws(outs):
    return [(st, v) for k, st, v in outs if k == 'throw']


def zabs(x):
    return z3.If(x >= 0, x, -x)


def veq(E, a, b, st):
    """Equality of observable components of two coordinates."""
    x, y = lonlat(E, a, st)
    u, v = lonlat(E, b, st)
    return land(x == u, y == v)


def lambda_fn(E, pred):
    pass


def lemma(E, st, f, desc):
    """A fact proved as its own obligation, then used."""
    E.oblige(st, f, 'lemma', desc, assume=True)


def enumv(E, name):
    for en, vals in E.prog.enums.items():
        if isinstance(vals, dict) and name in vals:
            return I(vals[name])
        if isinstance(vals, list):
            for v in vals:
                if isinstance(v, (list, tuple)) and v[0] == name:
                    return I(v[1])
                if isinstance(v, dict) and v.get('name') == name:
                    return I(v.get('value', v.get('v')))
    raise Unsupported('enumerator ' + name)


def assume_all(st, *fs):
    for f in fs:
        st.assume(f)


def real_lemma(E, name, hyps, goal, inputs=None):
    """A lemma about the specification alone."""
    st = new_state()
    for h in hyps:
        st.assume(h)
    E.oblige(st, goal, 'lemma', name, assume=False)


def xy(E, c, st):
    return lonlat(E, c, st)


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def coord_domain(E, lon=LON, lat=LAT):
    """Every position held in a container lies in the domain (obliged where one is stored)."""
    t = rec_ty(E, 'Coordinate')
    st = new_state()
    c = E.fresh(t, 'probe', st)
    for v, r in zip(lonlat(E, c, st), (lon, lat)):
        for f, x in c.f.items():
            if x.eq(v):
                E.field_range[('Coordinate', f)] = r if isinstance(r, tuple) else (-r, r)
                break
        else:
            raise Unsupported('the fields behind the getters of Coordinate')


def strip_fl(t, memo=None):
    """The exact counterpart of a rounded term."""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i not in memo:
        if not z3.is_app(t) or not t.num_args():
            memo[i] = t
        elif t.decl().name() == 'fl':
            memo[i] = strip_fl(t.arg(0), memo)
        else:
            memo[i] = t.decl()(*[strip_fl(c, memo) for c in t.children()])
    return memo[i]


def fl_apps(t):
    """Rounded subterms, innermost first."""
    out, seen = [], set()

    def go(x):
        if x.get_id() in seen or not z3.is_app(x):
            return
        seen.add(x.get_id())
        for c in x.children():
            go(c)
        if x.num_args() and x.decl().name() == 'fl':
            out.append(x)
    go(t)
    return out


def template(E, s, name, n, f, args, guard=None):
    """A lemma f(vars) = (hypotheses, goal) over n reals, proved once for all values; then used for args under guard."""
    vs = [z3.Real(f'l{i}') for i in range(n)]
    hs, g = f(*vs)
    st = new_state()
    for h in hs:
        st.assume(h)
    k = ('template', name)
    if k not in E.__dict__.setdefault('templates', set()):
        E.templates.add(k)
        E.oblige(st, g, 'lemma', name, assume=False)
    hs, g = f(*args)
    for h in hs:
        lemma(E, s, h if guard is None else z3.Implies(guard, h), f'hypothesis of: {name}')
    s.assume(g if guard is None else z3.Implies(guard, g))


def quotient_lemmas(E, s, terms, guard, scale):
    """Error bounds of rounded quotients a/b with 0 <= a/b <= 1 under guard, and of their products with a number up to
    `scale`: proved as lemmas over all reals, then used.  Returns the exact quotients."""
    u = z3.RealVal(Fraction(1, 1 << 53))

    def name(t, nm):
        c = z3.Real(E.fname(nm))
        s.assume(c == t)
        return c
    near = lambda r, x: land(zabs(r - x) <= u * zabs(x))
    quot = {}
    for x in [a for t in terms for a in fl_apps(t)]:
        a = x.arg(0)
        if x.get_id() in quot:
            continue
        if z3.is_app_of(a, z3.Z3_OP_DIV):
            Q, D = name(strip_fl(a.arg(0)), 'Q'), name(strip_fl(a.arg(1)), 'D')
            q, d = name(a.arg(0), 'q'), name(a.arg(1), 'd')
            T, w, t = z3.Real(E.fname('T')), name(a, 'w'), name(x, 't')
            s.assume(z3.Implies(D != 0, T * D == Q))
            sign = land(D != 0, z3.If(D > 0, land(Q >= 0, Q <= D), land(Q <= 0, Q >= D)))
            template(E, s, 'rounded quotient of two rounded numbers', 7,
                     lambda Q, D, q, d, T, w, t: ([land(D != 0, z3.If(D > 0, land(Q >= 0, Q <= D), land(Q <= 0, Q >= D))), near(q, Q), near(d, D), T * D == Q, w * d == q, near(t, w)],
                                                  land(T >= 0, T <= 1, zabs(t - T) <= 5 * u)), [Q, D, q, d, T, w, t], guard)
            quot[x.get_id()] = (T, t)
        elif z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2:
            for n, t in (a.children(), a.children()[::-1]):
                if t.get_id() in quot and n.get_id() not in quot:
                    T, tc = quot[t.get_id()]
                    nn = name(n, 'n')
                    xx = name(x, 'x')
                    # n * t as the code writes it
                    p = name(a, 'p')
                    s.assume(p == nn * tc)
                    template(E, s, f'rounded product with a quotient, scale {scale}', 5,
                             lambda n, t, T, p, x: ([n <= scale, n >= -scale, T >= 0, T <= 1, zabs(t - T) <= 5 * u, near(x, p), p == n * t], zabs(x - n * T) <= scale * 7 * u),
                             [nn, tc, T, p, xx], guard)
                    s.assume(xx == x)
    return [q[0] for q in quot.values()]


def runs_over(E, L, n):
    """The loop makes n steps: True, False, or None when its bound is not evident."""
    from .loops import cond_bounds
    if L.rng is not None:
        return L.rng.len.eq(n)
    bs = [b for l in L.leaves if l.kind == 'val' and l.root != L.kcell and L.get(l, L.entry).sort() == IntS for b in cond_bounds(E, L, l, L.head)]
    return any(b.eq(n) for b in bs) if bs else None


class Filter:
    """The kept elements of a sequence, in order.  rank(t): kept elements before t; un(m): the m-th kept one.
    Both are specification functions, defined by recursion; their definition is used one step at a time."""

    def __init__(self, E, st, name, keep, elem, sort, size=None):
        self.E, self.size, self.not_size = E, size, None
        self.keep, self.elem, self.sort, self.name = keep, elem, sort, name
        self.rank = z3.Function(E.fname(name + '.rank'), IntS, IntS)
        self.un = z3.Function(E.fname(name + '.un'), IntS, IntS)
        st.assume(self.rank(0) == 0)
        E.providers.append(self.provider)
        E.loop_defs.append(self.defs)

    def defs(self, E, L):
        k = L.k(L.head)
        kp = self.keep(k)
        return [self.rank(k + 1) == self.rank(k) + z3.If(kp, I(1), I(0)), z3.Implies(kp, self.un(self.rank(k)) == k)]

    def facts(self, v, k):
        t, m = z3.Int('qt'), z3.Int('qm')
        kt, um = self.keep(t), self.un(m)
        return [('len', v.len == self.rank(k)),
                ('kept', z3.ForAll([t], z3.Implies(land(t >= 0, t < k), land(self.rank(t) >= 0, self.rank(t) <= v.len, z3.Implies(kt, land(self.rank(t) < v.len, v.arr[self.rank(t)] == self.elem(t), self.un(self.rank(t)) == t)))), patterns=[self.rank(t)])),
                ('from', z3.ForAll([m], z3.Implies(land(m >= 0, m < v.len), land(um >= 0, um < k, self.keep(um), v.arr[m] == self.elem(um), self.rank(um) == m)), patterns=[v.arr[m], um]))]

    def provider(self, E, L):
        out = []
        if self.size is not None and runs_over(E, L, self.size) is False or self.not_size is not None and runs_over(E, L, self.not_size):
            return out
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            if v0.arr.sort().range() != self.sort or not (z3.is_int_value(v0.len) and v0.len.as_long() == 0):
                continue
            for i in range(3):
                out.append((f'filter {self.name}#{n}.{i}', lambda s, rp=rp, i=i: self.facts(E.flat(L.at(rp, s), s), L.k(s))[i][1]))
        return out


class Flatten:
    """The elements of a sequence of sequences, in order: element q of sequence p at off(p) + q."""

    def __init__(self, E, st, name, inner, elem, sort, outer_is, total=None):
        """inner(p): length of sequence p; elem(p, q): its element; outer_is(L): the loop runs over the sequences."""
        self.inner, self.elem, self.sort, self.outer_is = inner, elem, sort, outer_is
        self.off = z3.Function(E.fname(name + '.off'), IntS, IntS)
        self.wp = z3.Function(E.fname(name + '.wp'), IntS, IntS)
        self.wq = z3.Function(E.fname(name + '.wq'), IntS, IntS)
        st.assume(self.off(0) == 0)
        E.providers.append(self.provider)
        E.loop_defs.append(self.defs)

    def level(self, E, L):
        if self.outer_is(L):
            return 0, None
        for O in reversed(E.cur_loops):
            if self.outer_is(O):
                return 1, O
        return None, None

    def defs(self, E, L):
        lv, O = self.level(E, L)
        k = L.k(L.head)
        if lv == 0:
            i = z3.Int('qi')
            return [self.off(k + 1) == self.off(k) + self.inner(k), self.inner(k) >= 0,
                    z3.ForAll([i], z3.Implies(land(i >= self.off(k), i < self.off(k + 1)), land(self.wp(i) == k, self.wq(i) == i - self.off(k))), patterns=[self.wp(i)])]
        if lv == 1:
            ko = O.k(O.head)
            return [self.wp(self.off(ko) + k) == ko, self.wq(self.off(ko) + k) == k]
        return []

    def facts(self, v, ko, ki, whole):
        """Everything before sequence ko, and ki elements of it."""
        p, q, i = z3.Ints('qp qq qi')
        n = self.off(ko) + ki
        done = lor(p < ko, land(p == ko, q < ki)) if not whole else p < ko
        return [v.len == n,
                z3.ForAll([p], z3.Implies(land(p >= 0, p < ko), land(self.off(p) >= 0, self.off(p) + self.inner(p) <= self.off(ko))), patterns=[self.off(p)]),
                z3.ForAll([p, q], z3.Implies(land(p >= 0, q >= 0, q < self.inner(p), done), land(self.off(p) >= 0, v.arr[self.off(p) + q] == self.elem(p, q))), patterns=[self.elem(p, q)]),
                z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(self.wp(i) >= 0, self.wq(i) >= 0, self.wq(i) < self.inner(self.wp(i)), self.wp(i) <= ko if not whole else self.wp(i) < ko, z3.Implies(self.wp(i) == ko, self.wq(i) < ki), v.arr[i] == self.elem(self.wp(i), self.wq(i)))), patterns=[v.arr[i], self.wp(i)]),
                self.off(ko) >= 0]

    def provider(self, E, L):
        lv, O = self.level(E, L)
        out = []
        if lv is None:
            return out
        for n, rp in enumerate(L.values(Vec)):
            v0 = L.at(rp, L.entry)
            if v0.arr.sort().range() != self.sort:
                continue
            for i in range(5):
                if lv == 0:
                    f = lambda s, rp=rp, i=i: self.facts(E.flat(L.at(rp, s), s), L.k(s), I(0), True)[i]
                else:
                    f = lambda s, rp=rp, i=i: self.facts(E.flat(L.at(rp, s), s), O.k(O.head), L.k(s), False)[i]
                out.append((f'flatten{lv}#{n}.{i}', f))
        return out



class Fold:
    """The values the accumulators of a loop take, as functions of the iteration (a definition: the loop is
    deterministic).  The first execution of a loop defines them, a later one of the same loop is compared with them."""

    def __init__(self, E):
        self.E = E
        self.defd = {}
        E.providers.append(self.provider)
        E.loop_defs.append(self.defs)
        self.cur = {}

    def accs(self, E, L):
        return [l for l in L.leaves if l.kind == 'val' and l.root != L.kcell and l.delta is None and L.get(l, L.entry).sort() == IntS]

    def provider(self, E, L):
        from .loops import iteration, save, restore
        key = id(L.node)
        acc = self.accs(E, L)
        if not acc or E.suppress:
            return []
        if key not in self.defd:
            Gs = [z3.Function(E.fname('trace'), IntS, IntS) for _ in acc]
            probe = L.head.clone()
            go = L.cond(probe.clone())
            n0, mark = len(probe.pc), next(_fresh)
            snap = save(E)
            E.suppress += 1
            E.cur_loops.append(L)
            try:
                _, nx, brks = iteration(E, probe, L.cond, L.body, L.inc)
            finally:
                E.suppress -= 1
                E.cur_loops.pop()
                restore(E, snap)
            if nx is None or brks:
                return []
            for G, l in zip(Gs, acc):
                L.entry.assume(G(0) == L.get(l, L.entry))
            self.defd[key] = (Gs, [L.get(l, L.head) for l in acc], L.k(L.head), nx.pc[n0:], [L.get(l, nx) for l in acc], mark, go)
            L.head.assume(land(*[G(0) == L.get(l, L.entry) for G, l in zip(Gs, acc)]))
        Gs = self.defd[key][0]
        if len(Gs) != len(acc):
            return []
        return [(f'trace#{i}', lambda s, G=G, l=l: L.get(l, s) == G(L.k(s))) for i, (G, l) in enumerate(zip(Gs, acc))]

    def defs(self, E, L):
        d = self.defd.get(id(L.node))
        if d is None:
            return []
        Gs, heads, k0, facts, ends, mark, go = d
        k = L.k(L.head)
        sub = [(k0, k)] + [(h, G(k)) for h, G in zip(heads, Gs)]
        have = {h.get_id() for h in heads} | {k0.get_id()}
        for f in facts + ends:
            for c in consts_of(f):
                n = str(c).rsplit('!', 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > mark and c.get_id() not in have:
                    have.add(c.get_id())
                    sub.append((c, z3.Const(E.fname(str(c)), c.sort())))
        return [z3.substitute(z3.Implies(go, land(*facts, *[G(k0 + 1) == e for G, e in zip(Gs, ends)])), *sub)]


def consts_of(t):
    from .solve import consts
    return [c for c in consts(t).values() if c.num_args() == 0]
