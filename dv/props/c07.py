"""C07: a batch is the individual requests, in order.  The single request is known by its contract only: what it does
(path or error, and which) is a function of the computer and of its arguments."""
import z3
from ..engine import *
from ..spec import *
from ..driver import Target


class Single:
    def __init__(self, E):
        self.E = E
        for n in ('ShortestPathComputer', 'Coordinate'):
            E.opaque_recs[n] = z3.DeclareSort(n + '#')
        self.S, self.C = E.opaque_recs['ShortestPathComputer'], E.opaque_recs['Coordinate']
        f = E.prog.func('ShortestPathComputer::shortest_path')
        self.f = f
        self.kinds = [p.strip().c for p in f['params']]
        sorts = [self.S] + [E.sort_of(p.strip()) for p in f['params']]
        self.ret = f['ret'].strip()
        F = lambda n, s: z3.Function(n, *sorts, s)
        self.fails, self.other = F('request_fails', BoolS), F('fails_otherwise', BoolS)
        self.len, self.arr = F('path.len', IntS), F('path', z3.ArraySort(IntS, self.C))
        self.Str = z3.DeclareSort('Message')
        E.contracts['ShortestPathComputer::shortest_path'] = self.call
        E.opaque_hook, E.opaque_ctor_hook = self.method, self.ctor
        E.string_sort = None

    def args(self, this, a, st):
        E = self.E
        v = [E.get(this, st).f['#t']]
        for x, p in zip(a, self.f['params']):
            x = E.get(x.loc, st) if isinstance(x, Ref) else x
            v.append(E.pack(x, p.strip(), st))
        return v

    def msg(self, E, args):
        return z3.Function('message', *[x.sort() for x in args], self.str_sort())(*args)

    def str_sort(self):
        r = self.E.prog.rec_by_name['BatchInterpolateResult'][0]
        for n, t in self.E.rec_fields(rec_ty(self.E, 'BatchInterpolateResult')):
            t = t.strip()
            if t.name == 'std::optional' and not t.args[0].strip().name.startswith('std::vector'):
                return self.E.sort_of(t.args[0])
        raise Unsupported('the batch result')

    def call(self, E, st, this, a, fn):
        v = self.args(this, a, st)
        f = self.fails(*v)
        exc = (self.msg(E, v),)
        E.throw_if(st, land(f, self.other(*v)), Opaque('std::out_of_range', exc))
        E.throw_if(st, f, Opaque('std::runtime_error', exc))
        n = self.len(*v)
        E.note_range(n, (0, 1 << 40), st)
        return Vec(n, self.arr(*v), self.ret.args[0])

    def method(self, E, m, rec, loc, v, a, st, node, fn):
        if m == 'what' and isinstance(v, Opaque) and v.args:
            return Opaque('what', v.args)
        return NotImplemented

    def ctor(self, E, e, t, args, st):
        if not t.name.startswith('std::basic_string') or not args:
            return NotImplemented
        v = E.ev(args[0], st)
        if isinstance(v, Opaque) and len(v.args) == 1 and isinstance(v.args[0], z3.ExprRef):
            return v.args[0]
        if isinstance(v, z3.ExprRef) and v.sort() == self.str_sort():
            return v
        return z3.Const(E.fname('string'), self.str_sort())


def fields(E, r):
    """(path, message) of a batch result"""
    p = [v for v in r.f.values() if isinstance(v, Opt) and isinstance(v.val, Vec)]
    m = [v for v in r.f.values() if isinstance(v, Opt) and not isinstance(v.val, Vec)]
    if len(p) != 1 or len(m) != 1:
        raise Unsupported('the batch result')
    return p[0], m[0]


def batch(E):
    S = Single(E)
    st = new_state()
    f = E.prog.func('ShortestPathComputer::shortest_paths')
    this = E.fresh(rec_ty(E, 'ShortestPathComputer'), 'computer', st)
    pairs = E.fresh(f['params'][0].strip(), 'pairs', st)
    opts = [E.fresh(p.strip(), f'option{i}', st) for i, p in enumerate(f['params'][1:])]
    E.note_range(pairs.len, (0, 1 << 32), st)
    rt = rec_ty(E, 'BatchInterpolateResult')
    # options by type and order: the individual request takes the pair, then the same options
    single = S.f['params']
    ensure(E, st, z3.BoolVal([p.strip().c for p in single[2:]] == [p.strip().c for p in f['params'][1:]]), 'the batch has the options of the request')

    def want(i, s):
        p = E.unpack(pairs.arr[i], pairs.ety, s, dom=False)
        a = [this.f['#t']] + [E.pack(p.f[x], single[j].strip(), s) for j, x in enumerate(('first', 'second'))] + opts
        return a

    def is_result(r, i, s):
        p, m = fields(E, r)
        a = want(i, s)
        bad = S.fails(*a)
        return land(p.has == lnot(bad), m.has == bad,
                    z3.Implies(lnot(bad), land(p.val.len == S.len(*a), p.val.arr == S.arr(*a))),
                    z3.Implies(bad, m.val == S.msg(E, a)))

    def provider(E, L):
        out = []
        for n, rp in enumerate(L.values(Vec, lambda v: v.ety.strip().name == 'BatchInterpolateResult')):
            v = lambda s, rp=rp: E.flat(L.at(rp, s), s)
            i = z3.Int('qi')
            out.append((f'one result per pair#{n}', lambda s, v=v: v(s).len == pairs.len))
            out.append((f'one result per pair so far#{n}', lambda s, v=v: v(s).len == L.k(s)))
            out.append((f'results so far#{n}', lambda s, v=v: z3.ForAll([i], z3.Implies(land(i >= 0, i < L.k(s)), is_result(E.unpack(v(s).arr[i], rt, s, dom=False), i, s)), patterns=[v(s).arr[i]] if pattern_ok(v(s).arr) else [pairs.arr[i]])))
        return out
    E.providers.append(provider)
    outs = run(E, f, this, [pairs] + opts, st)
    ensure_no_throw(E, outs, 'a batch never fails as a whole')
    for s, r in returns(outs):
        v = E.flat(r, s)
        ensure(E, s, v.len == pairs.len, 'one result per pair')
        i = z3.Int(E.fname('i'))
        s1 = s.clone()
        s1.assume(land(i >= 0, i < pairs.len))
        p, m = fields(E, E.unpack(v.arr[i], rt, s1))
        a = want(i, s1)
        bad = S.fails(*a)
        ensure(E, s1, p.has == lnot(bad), 'a path is present exactly when the individual request succeeds')
        ensure(E, s1, z3.Implies(lnot(bad), land(p.val.len == S.len(*a), p.val.arr == S.arr(*a))), 'the path is that of the individual request for the same pair with the same options')
        ensure(E, s1, m.has == bad, 'an error is present exactly when the individual request fails')
        ensure(E, s1, z3.Implies(bad, m.val == S.msg(E, a)), 'the error is that of the individual request')
        E.vac.append(s1)


TARGETS = [Target('batch', batch)]

ASSUMES = ["OpenMP executes each iteration of a parallel loop once; that every schedule is equivalent to the sequential one follows from the obligations of kind 'parallel' (own element only, nothing thrown)", 'a single request is a function of the computer and its arguments (const methods without mutable state)']

from .pylayer import SINGLE, BATCH, DEFAULTS  # noqa: E402
PY = [SINGLE, BATCH, DEFAULTS]
