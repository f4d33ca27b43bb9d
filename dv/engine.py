"""Verification-condition generator: symbolic execution of the typed C++ AST with state merging.

Every project function reached is either inlined or replaced by its contract; loops are cut by
invariants (see loops.py); standard-library operations are given by the contracts in stl.py.
Signed integers are mathematical integers with an overflow obligation on every operation, unsigned
integers wrap, double arithmetic rounds with relative error at most 2^-53 (with `ieee` off: real arithmetic, reported as an assumption)."""
import z3, itertools
from fractions import Fraction
from . import parallel
from .frontend import Ty, norm, INT32, INT64, UINT64, BOOL, DOUBLE, Program

IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Unsupported(Exception):
    pass


class Dead(Exception):
    """The current path has no continuation (it returned or threw)."""


# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ('name', 'f', 'ty')

    def __init__(self, name, f, ty=None):
        self.name, self.f, self.ty = name, f, ty

    def __repr__(self):
        return f'{self.name}{self.f}'


class Vec:
    __slots__ = ('len', 'arr', 'ety')

    def __init__(self, len, arr, ety):
        self.len, self.arr, self.ety = len, arr, ety


NOPAT = (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES)


def some_sub(t, pred):
    """pred holds of some subterm (each looked at once)"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if pred(x):
            return True
        todo.extend(x.children())
    return False


def pattern_ok(t):
    return not some_sub(t, lambda x: z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() in NOPAT))


def qall(vs, body, pats):
    """Universal formula with those patterns that may stand in one."""
    ps = [p for p in pats if pattern_ok(p) and p.num_args() > 0]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


class Map:
    """unordered_map / map (vty given) or unordered_set / set (vty None)."""
    __slots__ = ('kty', 'vty', 'dom', 'val', 'size')

    def __init__(self, kty, vty, dom, val, size):
        self.kty, self.vty, self.dom, self.val, self.size = kty, vty, dom, val, size


class Bag:
    """multimap / priority queue contents: how many copies of each element."""
    __slots__ = ('ety', 'cnt', 'size', 'cmp')

    def __init__(self, ety, cnt, size, cmp=None):
        self.ety, self.cnt, self.size, self.cmp = ety, cnt, size, cmp


class Opt:
    __slots__ = ('has', 'val', 'ty')

    def __init__(self, has, val, ty):
        self.has, self.val, self.ty = has, val, ty


class Ptr:
    """shared_ptr or raw pointer: alternatives [(condition, Loc)], last condition is True."""
    __slots__ = ('alts', 'null', 'ty')

    def __init__(self, alts, ty, null=None):
        self.alts, self.ty, self.null = alts, ty, null if null is not None else z3.BoolVal(False)


class Ref:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Lam:
    __slots__ = ('node', 'frame', 'copies')

    def __init__(self, node, frame, copies):
        self.node, self.frame, self.copies = node, frame, copies


class Iter:
    """Iterator: vec (loc, pos) | map (loc, key, present) | enum (a ghost enumeration Vec, pos)"""
    __slots__ = ('kind', 'loc', 'pos', 'key', 'present', 'extra')

    def __init__(self, kind, loc=None, pos=None, key=None, present=None, extra=None):
        self.kind, self.loc, self.pos, self.key, self.present, self.extra = kind, loc, pos, key, present, extra


class Opaque:
    """A value nothing is known about (strings, exceptions, streams, S2 objects)."""
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Void:
    pass


VOID = Void()


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __add__(self, el):
        return Loc(self.root, self.path + (el,))

    def __repr__(self):
        return f'Loc({self.root},{self.path})'


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'pc', 'ghost')

    def __init__(self, env=None, pc=None, ghost=None):
        self.env = env if env is not None else {}
        self.pc = pc if pc is not None else []
        self.ghost = ghost if ghost is not None else {}

    def clone(self):
        return State(dict(self.env), list(self.pc), dict(self.ghost))

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.pc.append(f)


class Frame:
    __slots__ = ('locals', 'this', 'returns', 'fn', 'ret_ref', 'parent')

    def __init__(self, fn, this=None):
        self.locals, self.this, self.returns, self.fn, self.parent = {}, this, [], fn, None


class Oblig:
    __slots__ = ('hyps', 'goal', 'kind', 'desc', 'func', 'line', 'inputs', 'status', 'backend', 'time', 'model', 'core', 'name')

    def __init__(self, hyps, goal, kind, desc, func, line, inputs):
        self.hyps, self.goal, self.kind, self.desc, self.func, self.line, self.inputs = hyps, goal, kind, desc, func, line, inputs
        self.status = self.backend = self.model = self.core = None
        self.time = 0.0


_fresh = itertools.count()


def has_quant(t):
    return some_sub(t, z3.is_quantifier)


def land(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys += [y for y in x]
        else:
            ys.append(x)
    ys = [z3.BoolVal(y) if isinstance(y, bool) else y for y in ys]
    ys = [y for y in ys if not z3.is_true(y)]
    if any(z3.is_false(y) for y in ys):
        return z3.BoolVal(False)
    return z3.And(*ys) if len(ys) > 1 else (ys[0] if ys else z3.BoolVal(True))


def lnot(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def lor(*xs):
    ys = [z3.BoolVal(y) if isinstance(y, bool) else y for y in xs]
    ys = [y for y in ys if not z3.is_false(y)]
    if any(z3.is_true(y) for y in ys):
        return z3.BoolVal(True)
    return z3.Or(*ys) if len(ys) > 1 else (ys[0] if ys else z3.BoolVal(False))


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == BoolS:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return lnot(c)
    return z3.If(c, a, b)


def I(n):
    return z3.IntVal(n)


def irange(ty):
    if ty.c == 'bool':
        return (0, 1)
    b = ty.bits or 32
    if ty.signed:
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return (0, (1 << b) - 1)


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.obligs = []
        self.trivial = 0            # obligations closed by interval arithmetic while generating
        self.quick_proved = 0
        self.par = None             # inside an iteration of a parallel loop
        self.omp_loops = 0
        self.suppress = 0           # >0: dry run, record nothing
        self.sinks = [[]]           # throw outcomes
        self.frames = []
        self.sorts = {}
        self.dts = {}
        self.rng_tab = {}
        self.contracts = {}         # qualified name (or usr) -> python function
        self.stl = {}
        self.axioms = []
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.dropped = []           # loop-invariant candidates that did not survive
        self.inv_provider = None
        self.loop_log = []
        self.cur_line = 0
        self.tag = ''
        self.type_inv = {}          # record name -> fn(engine, Rec) -> z3 Bool : container type invariants
        self.field_range = {}       # (record, field) -> (lo,hi)
        self.depth = 0
        self.inputs = {}
        self.oracle_calls = []
        from . import stl, loops
        self.stl_mod, self.loops_mod = stl, loops
        self._qs = None
        self.key_canon = {}
        self.opaque_hook = None
        self.opaque_ctor_hook = None
        self.sort_calls = []
        self.houdini = None
        self.cell_ty = {}
        self.loop_ids = {}
        self.cand_obligs = []
        self.cur_loops = []
        self.loop_stack = []
        self.dead_cands = set()
        self.loop_info = {}
        self.mod_cache = {}
        self.providers = []
        self.unroll_limit = 70
        self.ieee = True
        self.index_hook = None
        self.dims = []
        self.named = {}
        self.locks = None
        self.loop_defs = []         # instances, at the current iteration, of definitions of specification functions
        self.quick_ematch = False   # quick proofs by E-matching alone
        self.opaque_recs = {}       # records only their contracts look into: name -> sort
        self.sym_unroll = 8
        self.unrolling = False
        self.unroll_inner = False   # try it on innermost loops only
        self.guess = True           # guess simple relations between counters and the iteration
        self.unroll_ranges = False
        self.mul_f = None
        self.small = None           # worth trying as a bound of factors
        self.abstract_mul = False   # products of two unknowns are known only as a function of their factors
        self.push_named = False     # state what push_back keeps in a form that triggers on the old elements
        self.atoms = {}

    # ------------------------------------------------------------ fresh values and sorts
    def fname(self, n):
        return f'{n}!{next(_fresh)}'

    def rec_fields(self, ty):
        """[(field, Ty)] of a record type, bases first."""
        r = self.prog.recs.get(ty.usr) if ty.usr else None
        if r is None:
            rs = self.prog.rec_by_name.get(ty.name, [])
            r = rs[0] if rs else None
        if r is None:
            return None
        out = []
        for b in r['bases']:
            bf = self.rec_fields(b)
            if bf:
                out += bf
        return out + [(f['name'], f['t']) for f in r['fields']]

    def rec_decl(self, ty):
        r = self.prog.recs.get(ty.usr) if ty.usr else None
        if r is None:
            rs = self.prog.rec_by_name.get(ty.name, [])
            r = rs[0] if rs else None
        return r

    def sort_of(self, ty):
        ty = ty.strip()
        k = ty.key()
        if k in self.sorts:
            return self.sorts[k]
        s = self._sort_of(ty)
        self.sorts[k] = s
        return s

    def dt(self, name, fields):
        key = (name, tuple((f, s.sexpr() if hasattr(s, 'sexpr') else str(s)) for f, s in fields))
        if key not in self.dts:
            d = z3.Datatype(f'{name}_{len(self.dts)}')
            d.declare('mk', *[(f'{f}_', s) for f, s in fields])
            self.dts[key] = d.create()
        return self.dts[key]

    def _sort_of(self, ty):
        c = ty.c
        if c in ('int', 'enum'):
            return IntS
        if c == 'bool':
            return BoolS
        if c == 'float':
            return RealS
        if c == 'ptr':
            return self.sort_of(ty.to)
        if c == 'rec':
            n = ty.name
            if n in ('std::vector', 'std::initializer_list'):
                return self.vec_sort(self.sort_of(ty.args[0]))
            if n in ('std::unordered_map', 'std::map'):
                ks, vs = self.sort_of(ty.args[0]), self.sort_of(ty.args[1])
                return self.dt('Map', [('dom', z3.ArraySort(ks, BoolS)), ('val', z3.ArraySort(ks, vs)), ('size', IntS)])
            if n in ('std::unordered_set', 'std::set'):
                ks = self.sort_of(ty.args[0])
                return self.dt('Set', [('dom', z3.ArraySort(ks, BoolS)), ('size', IntS)])
            if n in ('std::multimap',):
                ps = self.dt('Pair', [('first', self.sort_of(ty.args[0])), ('second', self.sort_of(ty.args[1]))])
                return self.dt('Bag', [('cnt', z3.ArraySort(ps, IntS)), ('size', IntS)])
            if n == 'std::pair':
                return self.dt('Pair', [('first', self.sort_of(ty.args[0])), ('second', self.sort_of(ty.args[1]))])
            if n == 'std::optional':
                return self.dt('Opt', [('has', BoolS), ('val', self.sort_of(ty.args[0]))])
            if n in ('std::shared_ptr', 'std::unique_ptr'):
                return self.sort_of(ty.args[0])
            if n == 'std::array':
                return self.vec_sort(self.sort_of(ty.args[0]))
            if n in self.opaque_recs:
                return self.opaque_recs[n]
            fs = self.rec_fields(ty)
            if fs is not None:
                return self.dt(n.replace('::', '.'), [(f, self.sort_of(t)) for f, t in fs])
            if n.startswith('std::basic_string') or n in ('std::string', 'std::shared_mutex', 'std::mutex') or n.startswith('S2') or n.startswith('MutableS2'):
                return z3.DeclareSort('Opq_' + n.replace('::', '.'))
        raise Unsupported(f'no sort for type {ty}')

    def vec_sort(self, es):
        return self.dt('Vec', [('len', IntS), ('arr', z3.ArraySort(IntS, es))])

    def fresh(self, ty, name, st, rng=None):
        """A fresh symbolic value of a type; type invariants are assumed in st."""
        ty = ty.strip()
        c = ty.c
        if c in ('int', 'enum'):
            v = z3.Int(self.fname(name))
            r = rng or self.trange(ty)
            self.set_rng(v, r)
            st.assume(land(v >= r[0], v <= r[1]))
            return v
        if c == 'bool':
            return z3.Bool(self.fname(name))
        if c == 'float':
            return z3.Real(self.fname(name))
        if c == 'ptr':
            cell = self.new_cell(st, self.fresh(ty.to, name, st))
            return Ptr([(z3.BoolVal(True), cell)], ty)
        if c == 'rec':
            n = ty.name
            if n in ('std::vector', 'std::initializer_list'):
                l = z3.Int(self.fname(name + '.len'))
                self.set_rng(l, (0, 1 << 40))
                st.assume(land(l >= 0, l <= 1 << 40))
                a = z3.Const(self.fname(name + '.arr'), z3.ArraySort(IntS, self.sort_of(ty.args[0])))
                return Vec(l, a, ty.args[0])
            if n in ('std::unordered_map', 'std::map'):
                ks, vs = self.sort_of(ty.args[0]), self.sort_of(ty.args[1])
                sz = z3.Int(self.fname(name + '.size'))
                self.set_rng(sz, (0, 1 << 40))
                st.assume(land(sz >= 0, sz <= 1 << 40))
                return Map(ty.args[0], ty.args[1], z3.Const(self.fname(name + '.dom'), z3.ArraySort(ks, BoolS)),
                           z3.Const(self.fname(name + '.val'), z3.ArraySort(ks, vs)), sz)
            if n in ('std::unordered_set', 'std::set'):
                ks = self.sort_of(ty.args[0])
                sz = z3.Int(self.fname(name + '.size'))
                self.set_rng(sz, (0, 1 << 40))
                st.assume(land(sz >= 0, sz <= 1 << 40))
                return Map(ty.args[0], None, z3.Const(self.fname(name + '.dom'), z3.ArraySort(ks, BoolS)), None, sz)
            if n == 'std::multimap':
                et = self.pair_ty(ty.args[0], ty.args[1])
                sz = z3.Int(self.fname(name + '.size'))
                st.assume(sz >= 0)
                cnt = z3.Const(self.fname(name + '.cnt'), z3.ArraySort(self.sort_of(et), IntS))
                return Bag(et, cnt, sz)
            if n == 'std::optional':
                return Opt(z3.Bool(self.fname(name + '.has')), self.fresh(ty.args[0], name + '.val', st), ty)
            if n == 'std::pair':
                return Rec('std::pair', {'first': self.fresh(ty.args[0], name + '.first', st), 'second': self.fresh(ty.args[1], name + '.second', st)}, ty)
            if n == 'std::shared_ptr':
                cell = self.new_cell(st, self.fresh(ty.args[0], name, st))
                return Ptr([(z3.BoolVal(True), cell)], ty)
            if n == 'std::unique_ptr':
                return self.fresh(ty.args[0], name, st)
            if n in self.opaque_recs:
                return Rec(n, {'#t': z3.Const(self.fname(name), self.opaque_recs[n])}, ty)
            fs = self.rec_fields(ty)
            if fs is not None:
                r = Rec(n, {f: self.fresh(t, f'{name}.{f}', st, self.field_range.get((n, f))) for f, t in fs}, ty)
                if n in self.type_inv:
                    st.assume(self.type_inv[n](self, r))
                return r
            return Opaque(self.fname(name))
        raise Unsupported(f'fresh value of type {ty}')

    def flat(self, v, st):
        """The same vector with a named array, which can stand in quantifier patterns."""
        if not some_sub(v.arr, lambda t: z3.is_app_of(t, z3.Z3_OP_ITE) or z3.is_quantifier(t)):
            return v
        key = ('flat', v.arr.get_id())
        if key not in self.atoms:
            self.atoms[key] = (z3.Const(self.fname('a'), v.arr.sort()), v.arr)
        a = self.atoms[key][0]
        st.assume(a == v.arr)
        return Vec(v.len, a, v.ety)

    def trange(self, ty):
        """Range of an integer type; an enumeration holds its enumerators and their unions (obliged at every cast to it)."""
        if ty.c == 'enum':
            vs = [int(v) for v in self.prog.enums.get(ty.s, {}).values()]
            if vs and min(vs) >= 0:
                return (0, (1 << max(vs).bit_length()) - 1)
        return irange(ty if ty.bits else INT32)

    def set_rng(self, v, r):
        self.rng_tab[v.get_id()] = (r[0], r[1], v)

    def pair_ty(self, a, b):
        return Ty(c='rec', name='std::pair', args=[a, b], s=f'std::pair<{a},{b}>')

    # ------------------------------------------------------------ pack / unpack
    def pack(self, v, ty, st):
        ty = ty.strip()
        if isinstance(v, z3.ExprRef):
            s = self.sort_of(ty)
            if v.sort() != s:
                if s == RealS and v.sort() == IntS:
                    return z3.ToReal(v)
                raise Unsupported(f'pack {v.sort()} as {s}')
            return v
        if isinstance(v, Ptr):
            to = ty.args[0] if ty.c == 'rec' and ty.args else ty.to
            return self.pack(self.deref_value(v, st), to, st)
        if isinstance(v, Vec):
            return self.vec_sort(v.arr.sort().range()).mk(v.len, v.arr)
        if isinstance(v, Map):
            s = self.sort_of(ty)
            return s.mk(v.dom, v.val, v.size) if v.vty is not None else s.mk(v.dom, v.size)
        if isinstance(v, Bag):
            return self.sort_of(ty).mk(v.cnt, v.size)
        if isinstance(v, Opt):
            return self.sort_of(ty).mk(v.has, self.pack(v.val, ty.args[0], st))
        if isinstance(v, Rec):
            if v.name == 'std::pair':
                return self.sort_of(ty).mk(self.pack(v.f['first'], ty.args[0], st), self.pack(v.f['second'], ty.args[1], st))
            if v.name in self.opaque_recs:
                return v.f['#t']
            if v.name in self.type_inv and not self.suppress:
                self.oblige(st, self.type_inv[v.name](self, v), 'type-invariant', f'{v.name} stored in a container satisfies its type invariant')
            if ty.c == 'rec' and ty.name in ('std::unique_ptr',):
                return self.pack(v, ty.args[0], st)
            fs = self.rec_fields(ty)
            for f, t in fs:
                fr = self.field_range.get((v.name, f))
                if fr and isinstance(v.f[f], z3.ExprRef) and not self.in_range(v.f[f], fr, st):
                    self.oblige(st, land(v.f[f] >= fr[0], v.f[f] <= fr[1]), 'domain', f'{v.name} stored in a container lies in the domain')
                    self.note_range(v.f[f], fr, st, True)
            args = [self.pack(v.f[f], t, st) for f, t in fs]
            # mk(acc_i(x)...) = x
            if args and all(a.num_args() == 1 and a.decl().eq(self.sort_of(ty).accessor(0, i)) for i, a in enumerate(args)) and all(a.arg(0).eq(args[0].arg(0)) for a in args):
                return args[0].arg(0)
            return self.sort_of(ty).mk(*args)
        if isinstance(v, Opaque):
            return z3.Const(v.name, self.sort_of(ty))
        raise Unsupported(f'pack {type(v).__name__} as {ty}')

    def acc(self, sort, i, t):
        """accessor i applied to t, folded on constructors and through ite"""
        if t.decl().eq(sort.constructor(0)):
            return t.arg(i)
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return ite(t.arg(0), self.acc(sort, i, t.arg(1)), self.acc(sort, i, t.arg(2)))
        return sort.accessor(0, i)(t)

    def unpack(self, t, ty, st, dom=True):
        ty = ty.strip()
        c = ty.c
        if c in ('int', 'enum'):
            self.note_range(t, self.trange(ty), st)
            return t
        if c in ('bool', 'float'):
            return t
        if c == 'ptr':
            return Ptr([(z3.BoolVal(True), self.new_cell(st, self.unpack(t, ty.to, st)))], ty)
        if c == 'rec':
            n = ty.name
            s = self.sort_of(ty)
            if n in ('std::vector', 'std::initializer_list', 'std::array'):
                l = self.acc(s, 0, t)
                self.note_range(l, (0, 1 << 40), st)
                return Vec(l, self.acc(s, 1, t), ty.args[0])
            if n in ('std::unordered_map', 'std::map'):
                z = self.acc(s, 2, t)
                self.note_range(z, (0, 1 << 40), st)
                return Map(ty.args[0], ty.args[1], self.acc(s, 0, t), self.acc(s, 1, t), z)
            if n in ('std::unordered_set', 'std::set'):
                return Map(ty.args[0], None, self.acc(s, 0, t), None, self.acc(s, 1, t))
            if n == 'std::multimap':
                return Bag(self.pair_ty(ty.args[0], ty.args[1]), self.acc(s, 0, t), self.acc(s, 1, t))
            if n == 'std::pair':
                return Rec('std::pair', {'first': self.unpack(self.acc(s, 0, t), ty.args[0], st), 'second': self.unpack(self.acc(s, 1, t), ty.args[1], st)}, ty)
            if n == 'std::optional':
                return Opt(self.acc(s, 0, t), self.unpack(self.acc(s, 1, t), ty.args[0], st), ty)
            if n == 'std::shared_ptr':
                return Ptr([(z3.BoolVal(True), self.new_cell(st, self.unpack(t, ty.args[0], st)))], ty)
            if n == 'std::unique_ptr':
                return self.unpack(t, ty.args[0], st)
            if n in self.opaque_recs:
                return Rec(n, {'#t': t}, ty)
            fs = self.rec_fields(ty)
            if fs is not None:
                r = Rec(n, {}, ty)
                for i, (f, ft) in enumerate(fs):
                    x = self.acc(s, i, t)
                    fr = self.field_range.get((n, f))
                    if fr and ft.strip().c == 'int':
                        self.note_range(x, fr, st)
                    r.f[f] = self.unpack(x, ft, st)
                if n in self.type_inv:
                    self.note_fact(t, self.type_inv[n](self, r), st)
                return r
            return t
        raise Unsupported(f'unpack {ty}')

    def note_range(self, t, r, st, local=False):
        """t lies in r: a fact of its type (holds on every path), or local to the paths through st."""
        if z3.is_int_value(t):
            return
        if local:
            old = self.rng(t, 0, st)
            lo, hi = [x for x in (old[0], r[0]) if x is not None], [x for x in (old[1], r[1]) if x is not None]
            st.ghost[('lr', t.get_id())] = (max(lo) if lo else None, min(hi) if hi else None, t)
            return
        old = self.rng_tab.get(t.get_id())
        if old:
            if old[0] >= r[0] and old[1] <= r[1]:
                r = (old[0], old[1])
            else:
                r = (max(old[0], r[0]), min(old[1], r[1]))
        self.set_rng(t, r)
        f = land(t >= r[0], t <= r[1])
        k = ('rng', f.get_id())
        if k in st.ghost:
            return
        st.ghost[k] = f
        st.assume(f)

    def note_fact(self, t, f, st):
        k = ('fact', f.get_id())
        if k not in st.ghost:
            st.ghost[k] = f
            st.assume(f)

    def has_bound_var(self, t):
        return False

    # ------------------------------------------------------------ intervals
    def rng(self, t, d=0, st=None):
        if st is not None:
            r = st.ghost.get(('lr', t.get_id()))
            if r:
                return (r[0], r[1])
        r = self.rng_tab.get(t.get_id())
        if r:
            return (r[0], r[1])
        if z3.is_int_value(t):
            n = t.as_long()
            return (n, n)
        if d > 12 or not z3.is_app(t):
            return (None, None)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for a in t.children():
                l, h = self.rng(a, d + 1, st)
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h is None else hi + h
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            lo, hi = self.rng(cs[0], d + 1, st)
            for a in cs[1:]:
                l, h = self.rng(a, d + 1, st)
                lo = None if lo is None or h is None else lo - h
                hi = None if hi is None or l is None else hi - l
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            l, h = self.rng(t.arg(0), d + 1, st)
            return (None if h is None else -h, None if l is None else -l)
        if k == z3.Z3_OP_MUL:
            lo = hi = 1
            for a in t.children():
                l, h = self.rng(a, d + 1, st)
                if None in (l, h, lo, hi):
                    return (None, None)
                ps = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(ps), max(ps)
            cs = t.children()
            if len(cs) == 2 and cs[0].eq(cs[1]):
                lo = max(lo, 0)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            a, b = self.rng(t.arg(1), d + 1, st), self.rng(t.arg(2), d + 1, st)
            return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
        if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            n = t.arg(1).as_long()
            l, h = self.rng(t.arg(0), d + 1, st)
            return (None if l is None else l // n, None if h is None else h // n)
        if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            return (0, t.arg(1).as_long() - 1)
        return (None, None)

    def in_range(self, t, r, st=None):
        l, h = self.rng(t, 0, st)
        return l is not None and h is not None and l >= r[0] and h <= r[1]

    # ------------------------------------------------------------ obligations
    def oblige(self, st, f, kind, desc, line=None, assume=True):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.suppress:
            if assume:
                st.assume(f)
            return
        f = z3.simplify(f) if z3.is_app(f) and f.num_args() <= 3 and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) else f
        fn = self.frames[-1].fn['name'] if self.frames else '(spec)'
        if z3.is_true(f):
            self.trivial += 1
            return
        self.obligs.append(Oblig(list(st.pc), f, kind, desc, fn, line or self.cur_line, dict(self.inputs)))
        self.obligs[-1].name = f'{self.tag}:{kind}'
        if assume:
            st.assume(f)

    def quick(self, st, f, ms=400):
        """True if f is proved under st.pc quickly."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.quick_ematch:
            return self.ematch(st, f, ms)
        s = z3.Solver()
        s.set('timeout', ms)
        for a in self.axioms:
            s.add(a)
        for p in st.pc:
            s.add(p)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def ematch(self, st, f, ms=1000):
        """True if f is proved under st.pc by E-matching."""
        s = z3.SimpleSolver()
        s.set('mbqi', False)
        s.set('timeout', ms)
        for p in self.axioms + list(st.pc):
            s.add(p)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def infeasible(self, st, ms=300):
        s = z3.Solver()
        s.set('timeout', ms)
        for p in st.pc:
            s.add(p)
        return s.check() == z3.unsat

    def infeasible_with(self, st, c, ms=300):
        s = st.clone()
        s.assume(c)
        return self.infeasible(s, ms)

    def feasible_far(self, st, c, ms=150):
        """Definitely satisfiable (the loop may go on)."""
        s = z3.Solver()
        s.set('timeout', ms)
        for p in st.pc:
            if not has_quant(p):
                s.add(p)
        s.add(c)
        return s.check() == z3.sat and False

    def loop_name(self, node):
        return f'{self.frames[-1].fn["name"]}:{node.get("line")}:{self.loop_ids.setdefault(id(node), len(self.loop_ids))}'

    def oblige_cand(self, st, f, nid, nm, phase, line):
        if self.suppress:
            return
        if z3.is_true(f):
            return
        o = Oblig(list(st.pc), f, 'invariant', f'loop invariant "{nm}" {"holds on entry" if phase == "entry" else "is preserved"}', self.frames[-1].fn['name'], line, {})
        o.name = (nid, nm)
        self.cand_obligs.append(o)

    # ------------------------------------------------------------ cells and locations
    def new_cell(self, st, v, hint='c'):
        k = (hint, next(_fresh))
        st.env[k] = v
        return Loc(k)

    def step_get(self, v, el, st):
        k = el[0]
        if k == 'f':
            if isinstance(v, Ptr):
                v = self.deref_value(v, st)
            if not isinstance(v, Rec) or el[1] not in v.f:
                raise Unsupported(f'field {el[1]} of {v!r}')
            return v.f[el[1]]
        if k == 'i':
            return self.vec_get(v, el[1], st)
        if k == 'm':
            return self.unpack(z3.Select(v.val, self.pack(el[1], v.kty, st)), v.vty, st)
        if k == 'mp':
            x = self.unpack(z3.Select(v.val, self.pack(el[1], v.kty, st)), v.vty, st) if v.vty is not None else None
            return Rec('std::pair', {'first': el[1], 'second': x})
        if k == 'o':
            return v.val
        raise Unsupported(f'path {el}')

    def vec_get(self, v, idx, st):
        if not isinstance(v, Vec):
            raise Unsupported(f'index of {type(v).__name__}')
        return self.unpack(z3.simplify(z3.Select(v.arr, idx)) if self._is_store_chain(v.arr) else z3.Select(v.arr, idx), v.ety, st)

    def _is_store_chain(self, a):
        return z3.is_store(a) or z3.is_K(a)

    def get(self, loc, st):
        if self.locks:
            self.locks.access('read', loc, st)
        if loc.root not in st.env:
            raise Unsupported(f'unbound location {loc}')
        v = st.env[loc.root]
        if isinstance(v, Ref):
            return self.get(Loc(v.loc.root, v.loc.path + loc.path), st)
        shared = self.par.access('read', loc, st) if self.par else None
        for el in loc.path:
            v = self.step_get(v, el, st)
        if shared and isinstance(v, Vec):
            return Vec(v.len, z3.Const(self.fname('others'), v.arr.sort()), v.ety)
        return v

    def set(self, loc, val, st):
        v = st.env.get(loc.root)
        if isinstance(v, Ref):
            return self.set(Loc(v.loc.root, v.loc.path + loc.path), val, st)
        if self.locks:
            self.locks.access('write', loc, st, val)
        if self.par:
            self.par.access('write', loc, st)
        if ('frozen', loc.root) in st.ghost:
            raise Unsupported('write through a pointer whose pointee was shared by value')
        st.env[loc.root] = self._set(v, loc.path, val, st)

    def _set(self, v, path, val, st):
        if not path:
            return val
        el = path[0]
        if el[0] == 'f':
            if isinstance(v, Ptr):
                raise Unsupported('write through pointer in path')
            f = dict(v.f)
            f[el[1]] = self._set(v.f.get(el[1]), path[1:], val, st)
            return Rec(v.name, f, v.ty)
        if el[0] == 'i':
            new = val if len(path) == 1 else self._set(self.vec_get(v, el[1], st), path[1:], val, st)
            return Vec(v.len, z3.Store(v.arr, el[1], self.pack(new, v.ety, st)), v.ety)
        if el[0] == 'm':
            key = self.pack(el[1], v.kty, st)
            new = val if len(path) == 1 else self._set(self.unpack(z3.Select(v.val, key), v.vty, st), path[1:], val, st)
            return Map(v.kty, v.vty, v.dom, z3.Store(v.val, key, self.pack(new, v.vty, st)), v.size)
        if el[0] == 'mp':
            if len(path) < 2 or path[1] != ('f', 'second'):
                raise Unsupported('write to a map key')
            return self._set(v, (('m', el[1]),) + tuple(path[2:]), val, st)
        if el[0] == 'o':
            return Opt(v.has, self._set(v.val, path[1:], val, st), v.ty)
        raise Unsupported(f'set path {el}')

    def deref_locs(self, p):
        if isinstance(p, Loc):
            return [(z3.BoolVal(True), p)]
        return p.alts

    def deref_value(self, p, st):
        v = None
        for c, l in reversed(p.alts):
            x = self.get(l, st)
            v = x if v is None else self.merge(c, x, v, st, st, st)
        if v is None:
            raise Unsupported('null dereference')
        return v

    def deref(self, p, st):
        """Loc of the pointee; for several alternatives, a merged read-only copy."""
        if isinstance(p, (Rec, Vec, Map)) or (isinstance(p, Opaque)):
            raise Unsupported('deref of value')
        if len(p.alts) == 1:
            return p.alts[0][1]
        if not p.alts:
            raise Unsupported('null dereference')
        l = self.new_cell(st, self.deref_value(p, st))
        st.ghost[('frozen', l.root)] = True
        return l

    # ------------------------------------------------------------ merging
    POLY = ('Graph', 'IGraph', 'ModifiedGraph')

    def merge(self, c, a, b, sa, sb, st):
        """ite(c, a, b) on values; sa/sb are the states the values live in, st the merged one."""
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                raise Unsupported('merge of different sorts')
            r = ite(c, a, b)
            return r
        if type(a) is not type(b):
            raise Unsupported(f'merge {type(a).__name__} with {type(b).__name__}')
        if isinstance(a, Rec):
            if a.name != b.name:
                raise Unsupported('merge of different records')
            if all(a.f[k] is b.f[k] for k in a.f):
                return a
            return Rec(a.name, {k: self.merge(c, a.f[k], b.f[k], sa, sb, st) for k in a.f}, a.ty)
        if isinstance(a, Vec):
            return Vec(ite(c, a.len, b.len), ite(c, a.arr, b.arr), a.ety)
        if isinstance(a, Map):
            return Map(a.kty, a.vty, ite(c, a.dom, b.dom), ite(c, a.val, b.val) if a.vty is not None else None, ite(c, a.size, b.size))
        if isinstance(a, Bag):
            return Bag(a.ety, ite(c, a.cnt, b.cnt), ite(c, a.size, b.size), a.cmp)
        if isinstance(a, Opt):
            if z3.is_false(a.has) and not z3.is_false(b.has):
                return Opt(ite(c, a.has, b.has), b.val, b.ty)
            if z3.is_false(b.has) and not z3.is_false(a.has):
                return Opt(ite(c, a.has, b.has), a.val, a.ty)
            return Opt(ite(c, a.has, b.has), self.merge(c, a.val, b.val, sa, sb, st), a.ty)
        if isinstance(a, Ptr):
            if len(a.alts) == len(b.alts) == 1 and a.alts[0][1].root == b.alts[0][1].root and a.alts[0][1].path == b.alts[0][1].path:
                return a
            va = sa.env.get(a.alts[0][1].root) if a.alts else None
            vb = sb.env.get(b.alts[0][1].root) if b.alts else None
            if a.alts and b.alts and not (isinstance(va, Rec) and va.name in self.POLY) and not (isinstance(vb, Rec) and vb.name in self.POLY):
                m = self.merge(c, self.deref_value(a, sa), self.deref_value(b, sb), sa, sb, st)
                l = self.new_cell(st, m)
                for x in (a, b):
                    for _, al in x.alts:
                        st.ghost[('frozen', al.root)] = True
                st.ghost[('frozen', l.root)] = True
                return Ptr([(z3.BoolVal(True), l)], a.ty, ite(c, a.null, b.null))
            alts = [(land(c, x), l) for x, l in a.alts] + [(land(lnot(c), x), l) for x, l in b.alts]
            return Ptr(alts, a.ty, ite(c, a.null, b.null))
        if isinstance(a, Iter):
            if a.kind == b.kind == 'map':
                return Iter('map', a.loc, None, self.merge(c, a.key, b.key, sa, sb, st) if a.key is not b.key else a.key, ite(c, a.present, b.present))
            if a.kind == b.kind == 'mend':
                return a
            if a.kind == 'map' and b.kind == 'mend':
                return Iter('map', a.loc, None, a.key, land(c, a.present))
            if a.kind == 'mend' and b.kind == 'map':
                return Iter('map', b.loc, None, b.key, land(lnot(c), b.present))
            if a.kind == b.kind and a.pos is not None:
                return Iter(a.kind, a.loc, ite(c, a.pos, b.pos), extra=a.extra)
        if isinstance(a, Ref) and a.loc.root == b.loc.root and a.loc.path == b.loc.path:
            return a
        if isinstance(a, Ref) and a.loc.root == b.loc.root and len(a.loc.path) == len(b.loc.path):
            pa = []
            for x, y in zip(a.loc.path, b.loc.path):
                if x[0] == y[0] == 'i':
                    pa.append(('i', ite(c, x[1], y[1])))
                elif x == y:
                    pa.append(x)
                else:
                    break
            else:
                return Ref(Loc(a.loc.root, pa))
        if isinstance(a, Opaque):
            if a.name == b.name:
                return a
            return Opaque(self.fname('merged'), (c, a, b))
        if isinstance(a, Void):
            return a
        if isinstance(a, Lam) and a.node is b.node:
            return a
        raise Unsupported(f'merge of {type(a).__name__}')

    BR = {}     # branch decisions, by AST id

    def decide(self, st, c):
        """Restricts st to the paths where c holds."""
        self.BR[c.get_id()] = c
        st.pc.append(c)

    def merge_states(self, s1, s2, extra1=None, extra2=None):
        """Merges two states of disjoint paths; returns (state, condition of the first, merged extra)."""
        p1, p2 = s1.pc, s2.pc
        n = 0
        while n < len(p1) and n < len(p2) and (p1[n] is p2[n] or p1[n].eq(p2[n])):
            n += 1
        r1, r2 = p1[n:], p2[n:]
        BR = self.BR
        b1 = [x for x in r1 if x.get_id() in BR]
        b2 = [x for x in r2 if x.get_id() in BR]
        if not b1 or not b2:
            raise Unsupported('merge of states without a fork')
        c, c2 = land(*b1), land(*b2)
        pc = p1[:n] + [self.imp(c, x) for x in r1 if x.get_id() not in BR] + [self.imp(c2, x) for x in r2 if x.get_id() not in BR]
        if not (lnot(c).eq(c2) or lnot(c2).eq(c)):
            # common shape: c = A & B..., c2 = not A & ... ; keep what is certain
            o = lor(c, c2)
            if len(b1) == 1 and lnot(b1[0]).eq(b2[0]):
                o = lor(b1[0], land(*b2[1:]))
            elif len(b2) == 1 and lnot(b2[0]).eq(b1[0]):
                o = lor(b2[0], land(*b1[1:]))
            BR[o.get_id()] = o
            pc.append(o)
            if lnot(b1[0]).eq(b2[0]):
                c = b1[0]
        st = State({}, pc, {})
        for k, v in s1.ghost.items():
            if k in s2.ghost:
                if isinstance(k, tuple) and k[0] in ('rng', 'fact', 'frozen'):
                    st.ghost[k] = v
                elif isinstance(k, tuple) and k[0] == 'lr':
                    w = s2.ghost[k]
                    st.ghost[k] = (None if None in (v[0], w[0]) else min(v[0], w[0]), None if None in (v[1], w[1]) else max(v[1], w[1]), v[2])
                elif v is s2.ghost[k]:
                    st.ghost[k] = v
                else:
                    st.ghost[k] = self.merge(c, v, s2.ghost[k], s1, s2, st)
            elif isinstance(k, tuple) and k[0] == 'frozen':
                st.ghost[k] = v
        for k, v in s2.ghost.items():
            if isinstance(k, tuple) and k[0] == 'frozen':
                st.ghost[k] = v
        todo = []
        for k, v in s1.env.items():
            if k in s2.env:
                w = s2.env[k]
                if v is w:
                    st.env[k] = v
                else:
                    todo.append((k, v, w))
            else:
                st.env[k] = v
        for k, w in s2.env.items():
            if k not in s1.env:
                st.env[k] = w
        for k, v, w in todo:
            try:
                st.env[k] = self.merge(c, v, w, s1, s2, st)
            except Unsupported:
                if isinstance(k, tuple) and k[0] in ('tmp', 'loc'):
                    continue  # a dead local: reading it later is an unbound location
                raise
        ex = None
        if extra1 is not None:
            ex = self.merge(c, extra1, extra2, s1, s2, st)
        return st, c, ex

    def imp(self, c, x):
        if z3.is_true(x):
            return x
        return z3.Implies(c, x)

    def merge_many(self, outs):
        """[(state, value or None)] -> (state, value); merges siblings deepest first."""
        outs = list(outs)
        while len(outs) > 1:
            best = None
            for i in range(len(outs)):
                for j in range(i + 1, len(outs)):
                    p, q = outs[i][0].pc, outs[j][0].pc
                    n = 0
                    while n < len(p) and n < len(q) and (p[n] is q[n] or p[n].eq(q[n])):
                        n += 1
                    if best is None or n > best[0]:
                        best = (n, i, j)
            _, i, j = best
            st, _, ex = self.merge_states(outs[i][0], outs[j][0], outs[i][1], outs[j][1])
            outs = [o for k, o in enumerate(outs) if k not in (i, j)] + [(st, ex)]
        return outs[0]

    # ------------------------------------------------------------ control
    def throw_if(self, st, cond, exc):
        """Records a throw outcome under cond and continues with its negation."""
        if z3.is_false(cond):
            return
        t = st.clone()
        if not z3.is_true(cond):
            self.decide(t, cond)
            self.sinks[-1].append((t, exc))
            self.decide(st, lnot(cond))
        else:
            self.sinks[-1].append((t, exc))
            raise Dead()

    def branch(self, st, c, f1, f2):
        """Runs f1 under c and f2 under not c on copies, merges; mutates st to the merged state, returns the value."""
        if z3.is_true(c):
            return f1(st)
        if z3.is_false(c):
            return f2(st)
        outs = []
        for cond, f in ((c, f1), (lnot(c), f2)):
            s = st.clone()
            self.decide(s, cond)
            try:
                v = f(s)
                outs.append((s, v))
            except Dead:
                pass
        if not outs:
            raise Dead()
        s, v = self.merge_many([(s, VOID if v is None else v) for s, v in outs])
        st.env, st.pc, st.ghost = s.env, s.pc, s.ghost
        return v

    # ------------------------------------------------------------ functions
    def call_function(self, f, this, args, st):
        """args: list of Ref (for reference parameters) or values. Returns the value (or Ref for reference results)."""
        if self.depth > 60:
            raise Unsupported('call depth (recursion?)')
        fr = Frame(f, this)
        for p, a in zip(f['parms'], args):
            key = ('loc', next(_fresh))
            fr.locals[p['id']] = key
            self.cell_ty[key] = (p['t'], p.get('name'))
            st.env[key] = a
        fr.ret_ref = f['ret'].c == 'ref' if f.get('ret') else False
        self.frames.append(fr)
        self.depth += 1
        self.inlined.add(f['name'] if not f['name'].startswith('lambda') else 'lambda')
        line = self.cur_line
        if self.locks:
            self.locks.enter(f['name'], st)
        try:
            s = st.clone()
            alive = True
            try:
                if f.get('ctor'):
                    self.ctor_inits(f, this, s)
                self.exec(f['body'], s)
            except Dead:
                alive = False
            outs = list(fr.returns)
            if alive:
                outs.append((s, VOID))
            if self.locks:
                for o, _ in outs:
                    self.locks.leave(fr.locals.values(), o)
            if not outs:
                raise Dead()
            ms, v = self.merge_many(outs)
            st.env, st.pc, st.ghost = ms.env, ms.pc, ms.ghost
            return v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_line = line

    def ctor_inits(self, f, this, st):
        for i in f.get('inits', []):
            if 'field' in i:
                ft = dict(self.rec_fields(f['rect']))[i['field']]
                if ft.c == 'ref':
                    st_v = Ref(self.lv(i['e'], st))
                else:
                    st_v = self.init_value(ft, i['e'], st)
                self.set(this + ('f', i['field']), st_v, st)
            elif i.get('delegate'):
                v = self.ev(i['e'], st)
                self.set(this, v, st)
            elif 'base' in i:
                pass

    def default_rec(self, ty, st):
        c = self.contracts.get(ty.name + '::' + ty.name) if ty.name in self.opaque_recs else None
        if c is not None:
            r = c(self, st, None, [], None)
            if r is not NotImplemented:
                return r
        if ty.name in self.opaque_recs and ty.name + '::' + ty.name not in self.contracts:
            return Rec(ty.name, {'#t': z3.Const(ty.name + '.default', self.opaque_recs[ty.name])}, ty)
        d = self.rec_decl(ty)
        fs = {}
        inits = {f['name']: f.get('init') for f in d['fields']} if d else {}
        for n, t in self.rec_fields(ty):
            if inits.get(n) is not None:
                fs[n] = self.init_value(t, inits[n], st)
            else:
                try:
                    fs[n] = self.default_value(t, st)
                except Unsupported:
                    fs[n] = Opaque(self.fname(n))
        return Rec(ty.name, fs, ty)

    def default_value(self, ty, st, value_init=False):
        ty = ty.strip()
        if ty.c in ('int', 'enum'):
            return I(0) if value_init else self.fresh(ty, 'uninit', st)
        if ty.c == 'bool':
            return z3.BoolVal(False) if value_init else self.fresh(ty, 'uninit', st)
        if ty.c == 'float':
            return z3.RealVal(0) if value_init else self.fresh(ty, 'uninit', st)
        if ty.c == 'ptr':
            return Ptr([], ty, z3.BoolVal(True))
        if ty.c == 'arr':
            es = self.sort_of(ty.to)
            return Vec(I(ty.n), z3.Const(self.fname('arr'), z3.ArraySort(IntS, es)), ty.to)
        if ty.c == 'rec':
            v = self.stl_mod.default(self, ty, st)
            if v is not None:
                return v
            if ty.name in self.opaque_recs:
                r = self.default_rec(ty, st)
                if '#t' in r.f:
                    return r
            if self.rec_fields(ty) is not None:
                # run the default constructor if the project defines one
                for f in self.prog.by_name.get(ty.name + '::' + ty.name.split('::')[-1], []):
                    if f.get('ctor') and not f['params']:
                        l = self.new_cell(st, self.default_rec_shallow(ty, st))
                        self.call_function(f, l, [], st)
                        return self.get(l, st)
                if value_init:
                    r = self.default_rec(ty, st)
                    d = self.rec_decl(ty)
                    inits = {f['name']: f.get('init') for f in d['fields']}
                    for n, t in self.rec_fields(ty):
                        if inits.get(n) is None:
                            r.f[n] = self.default_value(t, st, True)
                    return r
                return self.default_rec(ty, st)
            return Opaque(self.fname(ty.name))
        raise Unsupported(f'default value of {ty}')

    def default_rec_shallow(self, ty, st):
        return self.default_rec(ty, st)

    def init_value(self, ty, e, st):
        if e is None:
            return self.default_value(ty, st)
        v = self.ev(e, st)
        return v

    def resolve(self, fn, objval=None):
        """The project function a call refers to (virtual dispatch on the object's record)."""
        u = fn.get('usr')
        if fn.get('virtual') and isinstance(objval, Rec):
            for m in self.prog.overrides.get(u, []):
                g = self.prog.funcs.get(m)
                if g and g.get('rec') == objval.name:
                    return g
        return self.prog.funcs.get(u)

    def bind_args(self, params, args, st):
        out = []
        for t, a in zip(params, args):
            if t.c == 'ref':
                out.append(Ref(self.lv(a, st)))
            else:
                out.append(self.ev(a, st))
        return out

    def invoke(self, fn, this, argnodes, st, node, virt=True):
        """Call of a function described by fn (project, contract or STL)."""
        objval = None
        key = fn['name']
        how = parallel.graph_call(self, st, fn, this, key)
        par = self.par
        if this is not None:
            try:
                self.par = None if how else par
                objval = self.get(this, st)
            except Unsupported:
                objval = None
            finally:
                self.par = par
        g = self.resolve(fn, objval) if (fn.get('virtual') and virt) else self.prog.funcs.get(fn.get('usr'))
        names = [key] if g is None or g['name'] == key else [g['name'], key]
        for n in names:
            if n in self.contracts:
                c = self.contracts[n]
                args = self.bind_args(fn['params'], argnodes, st)
                self.par = None if how else par
                try:
                    r = c(self, st, this, args, fn)
                finally:
                    self.par = par
                if how == 'any' and r is not NotImplemented:
                    if not z3.is_expr(r):
                        raise Unsupported('a list that other iterations change')
                    r = z3.Const(self.fname('any'), r.sort())       # other iterations may have changed it
                if r is not NotImplemented:
                    self.used_contracts.add(n)
                    return r
        if g is not None and g.get('body') is not None:
            if g.get('defaulted') and g.get('ctor') and g.get('copy'):
                pass
            else:
                return self.call_function(g, this, self.bind_args(g['params'], argnodes, st), st)
        return self.stl_mod.call(self, fn, this, argnodes, st, node)

    def call_lambda(self, lam, args, st):
        f = lam.node['fn'] if lam.node.get('fn') else None
        if f is None:
            sp = lam.node.get('specs') or []
            if len(sp) != 1:
                raise Unsupported('generic lambda')
            f = sp[0]
        fr = Frame(f, lam.frame.this)
        fr.locals = dict(lam.frame.locals)
        for did, v in lam.copies.items():
            key = ('loc', next(_fresh))
            fr.locals[did] = key
            st.env[key] = v
        for p, a in zip(f['parms'], args):
            key = ('loc', next(_fresh))
            fr.locals[p['id']] = key
            if p['t'].c == 'ref' and not isinstance(a, Ref):
                a = Ref(self.new_cell(st, a, 'tmp'))
            if p['t'].c != 'ref' and isinstance(a, Ref):
                a = self.get(a.loc, st)
            st.env[key] = a
        fr.ret_ref = f['ret'].c == 'ref'
        self.frames.append(fr)
        self.depth += 1
        line = self.cur_line
        try:
            s = st.clone()
            alive = True
            try:
                self.exec(f['body'], s)
            except Dead:
                alive = False
            outs = list(fr.returns)
            if alive:
                outs.append((s, VOID))
            if not outs:
                raise Dead()
            ms, v = self.merge_many(outs)
            st.env, st.pc, st.ghost = ms.env, ms.pc, ms.ghost
            return v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_line = line

    # ------------------------------------------------------------ statements
    # loop control: self.loop_frames[-1] = {'breaks': [...], 'continues': [...]}
    def exec(self, s, st):
        if s is None:
            return
        self.cur_line = s.get('line') or self.cur_line
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k} {s.get("cls", "")} at line {s.get("line")}')
        m(s, st)

    def x_Compound(self, s, st):
        if self.locks:
            fr = self.frames[-1]
            before = set(fr.locals.values())
            for b in s['body']:
                self.exec(b, st)
            self.locks.leave([k for k in fr.locals.values() if k not in before], st)
            return
        for b in s['body']:
            self.exec(b, st)

    def x_Null(self, s, st):
        pass

    def x_Expr(self, s, st):
        e = s['e']
        self.ev_discard(e, st)

    def ev_discard(self, e, st):
        if e is None:
            return
        if e.get('lv') and e['k'] in ('Assign', 'Unary', 'OpCall', 'MCall', 'Call', 'Ref', 'Member', 'Subscript'):
            if e['k'] in ('Ref', 'Member', 'Subscript'):
                return
            self.lv(e, st)
        else:
            self.ev(e, st)

    def x_Decl(self, s, st):
        for v in s['vars']:
            self.decl_var(v, st)

    def decl_var(self, v, st):
        fr = self.frames[-1]
        key = ('loc', next(_fresh))
        t = v['t']
        init = v.get('init')
        if t.c == 'ref':
            val = Ref(self.lv(init, st))
        elif init is None:
            val = self.default_value(t, st)
        else:
            val = self.init_value(t, init, st)
            val = self.name_value(val, v.get('name'), st)
        fr.locals[v['id']] = key
        self.cell_ty[key] = (t, v.get('name'))
        st.env[key] = val
        if 'bindings' in v:
            base = Loc(key)
            cur = self.get(base, st)
            names = list(cur.f) if isinstance(cur, Rec) else None
            if names is None:
                raise Unsupported('structured binding of ' + type(cur).__name__)
            for i, b in enumerate(v['bindings']):
                bk = ('loc', next(_fresh))
                fr.locals[b['id']] = bk
                st.env[bk] = Ref(base + ('f', names[i]))
                if 'hold' in b:
                    fr.locals[b['hold']['id']] = bk

    def name_value(self, val, name, st):
        """A non-linear value gets a name, so that obligations about it need not unfold it."""
        if isinstance(val, z3.ArithRef) and self.nonlinear(val):
            x = z3.Const(self.fname(name or 'v'), val.sort())
            if val.sort() == IntS:
                lo, hi = self.rng(val, 0, st)
                if lo is not None and hi is not None:
                    self.note_range(x, (lo, hi), st)
            st.assume(x == val)
            self.named[x.get_id()] = (x, val)
            return x
        if isinstance(val, z3.ArithRef) and val.sort() == IntS and z3.is_app_of(val, z3.Z3_OP_ITE) and not self.has_bound_var(val) and not all(z3.is_int_value(c) for c in val.children()[1:]):
            x = z3.Int(self.fname(name or 'v'))
            lo, hi = self.rng(val, 0, st)
            if (lo is None or lo < 0) and self.quick(st, val >= 0):
                lo = 0
            if lo is not None and hi is not None:
                self.note_range(x, (lo, hi), st, True)
            st.assume(x == val)
            return x
        return val

    def nonlinear(self, t, d=0):
        if not z3.is_app(t) or d > 8:
            return False
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(0 if (z3.is_int_value(c) or z3.is_rational_value(c)) else 1 for c in t.children()) > 1:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_TO_REAL):
            return any(self.nonlinear(c, d + 1) for c in t.children())
        return False

    def x_If(self, s, st):
        if s.get('init'):
            self.exec(s['init'], st)
        if s.get('var'):
            self.decl_var(s['var'], st)
        c = self.ev(s['c'], st)
        self.branch(st, c, lambda a: self.exec(s['then'], a), lambda a: self.exec(s['else'], a))

    def x_Return(self, s, st):
        fr = self.frames[-1]
        v = VOID
        if s['e'] is not None:
            v = Ref(self.lv(s['e'], st)) if fr.ret_ref else self.ev(s['e'], st)
        fr.returns.append((st.clone(), v))
        raise Dead()

    def x_Break(self, s, st):
        self.loop_stack[-1]['breaks'].append(st.clone())
        raise Dead()

    def x_Continue(self, s, st):
        self.loop_stack[-1]['continues'].append(st.clone())
        raise Dead()

    loop_stack = []

    def x_For(self, s, st):
        self.loops_mod.exec_for(self, s, st)

    def x_While(self, s, st):
        self.loops_mod.exec_while(self, s, st)

    def x_Do(self, s, st):
        raise Unsupported('do loop')

    def x_RangeFor(self, s, st):
        self.loops_mod.exec_range(self, s, st)

    def x_Try(self, s, st):
        self.sinks.append([])
        outs = []
        b = st.clone()
        try:
            self.exec(s['body'], b)
            outs.append(b)
        except Dead:
            pass
        finally:
            caught = self.sinks.pop()
        for cst, exc in caught:
            done = False
            for h in s['handlers']:
                m = self.exc_match(exc, h.get('var'))
                if m:
                    try:
                        if h.get('var'):
                            fr = self.frames[-1]
                            key = ('loc', next(_fresh))
                            fr.locals[h['var']['id']] = key
                            cst.env[key] = exc
                        self.exec(h['body'], cst)
                        outs.append(cst)
                    except Dead:
                        pass
                    done = True
                    break
            if not done:
                self.sinks[-1].append((cst, exc))
        if not outs:
            raise Dead()
        ms, _ = self.merge_many([(o, VOID) for o in outs])
        st.env, st.pc, st.ghost = ms.env, ms.pc, ms.ghost

    BASES = {'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::runtime_error': ['std::exception'],
             'std::logic_error': ['std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'],
             'std::bad_optional_access': ['std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
             'std::bad_alloc': ['std::exception'], 'std::system_error': ['std::runtime_error', 'std::exception']}

    def exc_match(self, exc, var):
        if var is None:
            return True
        t = var['t'].strip()
        return t.name == exc.name or t.name in self.BASES.get(exc.name, [])

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k} {e.get("cls", "")} at line {e.get("line")}')
        v = m(e, st)
        if isinstance(v, Ref):
            v = self.get(v.loc, st)
        return v

    def lv(self, e, st):
        """Location of an lvalue (or a temporary holding an rvalue)."""
        k = e['k']
        if k == 'Ref':
            if 'fn' in e:
                raise Unsupported('function reference')
            return self.ref_loc(e, st)
        if k == 'Member':
            if e['arrow']:
                b = self.ptr_loc(e['e'], st)
            else:
                b = self.lv(e['e'], st)
            return self.member_loc(b, e['field'], st)
        if k == 'This':
            return self.frames[-1].this
        if k == 'Unary' and e['op'] == '*':
            p = e['e']
            if p['k'] == 'This':
                return self.frames[-1].this
            v = self.ev(p, st)
            return self.deref(v, st)
        if k == 'Unary' and e['op'] in ('++', '--') and not e['post']:
            l = self.lv(e['e'], st)
            self.incdec(e, l, st)
            return l
        if k == 'Assign':
            return self.assign(e, st)
        if k == 'Cast' and e.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp'):
            return self.lv(e['e'], st)
        if k == 'Temp':
            v = self.ev(e['e'], st)
            return self.new_cell(st, v, 'tmp')
        if k == 'Subscript':
            idx = self.ev(e['r'], st)
            base = e['l']
            while base['k'] == 'Cast':
                base = base['e']
            l = self.lv(base, st)
            v = self.get(l, st)
            if isinstance(v, Vec):
                self.oblige(st, land(idx >= 0, idx < v.len), 'bounds', 'array index in range', e.get('line'))
            return l + ('i', idx)
        if k == 'Cond' and e.get('lv'):
            v = self.ev(e, st)
            return self.new_cell(st, v, 'tmp')
        if k in ('Call', 'MCall', 'OpCall'):
            v = getattr(self, 'e_' + k)(e, st)
            if isinstance(v, Ref):
                return v.loc
            return self.new_cell(st, v, 'tmp')
        if k == 'Load':
            return self.lv(e['e'], st)
        v = self.ev(e, st)
        return self.new_cell(st, v, 'tmp')

    def ref_loc(self, e, st):
        i = e['id']
        fr = self.frames[-1]
        if i not in fr.locals:
            raise Unsupported(f'reference to {e.get("name")} at line {e.get("line")}')
        key = fr.locals[i]
        v = st.env.get(key)
        if isinstance(v, Ref):
            return v.loc
        return Loc(key)

    def member_loc(self, b, field, st):
        return b + ('f', field)

    def ptr_loc(self, e, st):
        if e['k'] == 'This':
            return self.frames[-1].this
        v = self.ev(e, st)
        if isinstance(v, Ptr):
            return self.deref(v, st)
        raise Unsupported(f'-> on {type(v).__name__}')

    def e_Const(self, e, st):
        t, v = e['t'], e['v']
        if t.c == 'bool':
            return z3.BoolVal(bool(v))
        if t.c == 'float':
            if isinstance(v, str):
                return z3.Real('INFINITY') if v == 'inf' else z3.Real('NEG_INFINITY' if v == '-inf' else 'NAN')
            return z3.RealVal(v)
        v = int(v)
        if t.c in ('int', 'enum') and t.bits:
            lo, hi = irange(t)
            v = (v - lo) % (hi - lo + 1) + lo
        return I(v)

    def e_Str(self, e, st):
        return Opaque('str:' + (e.get('v') or ''))

    def e_Ref(self, e, st):
        if 'fn' in e:
            return Opaque('fn:' + e['fn']['name'], (e['fn'],))
        if e.get('global'):
            return Opaque('global:' + e.get('qname', e['name']))
        return self.get(self.ref_loc(e, st), st)

    def e_Load(self, e, st):
        return self.get(self.lv(e['e'], st), st)

    def e_Temp(self, e, st):
        return self.ev(e['e'], st)

    def e_Member(self, e, st):
        return self.get(self.lv(e, st), st)

    def e_This(self, e, st):
        return Ptr([(z3.BoolVal(True), self.frames[-1].this)], e['t'])

    def e_Subscript(self, e, st):
        return self.get(self.lv(e, st), st)

    def e_Null(self, e, st):
        return Ptr([], e['t'], z3.BoolVal(True))

    def e_StdInit(self, e, st):
        return self.ev(e['e'], st)

    def e_ValueInit(self, e, st):
        return self.default_value(e['t'], st, True)

    def e_InitList(self, e, st):
        t = e['t']
        if t.c == 'rec':
            fs = self.rec_fields(t)
            if fs is None:
                if not e['inits']:
                    return self.default_value(t, st, True)
                if t.name == 'std::array':
                    return self.ev(e['inits'][0], st)
                raise Unsupported(f'init list of {t}')
            f = {}
            for (n, ft), i in zip(fs, e['inits']):
                f[n] = self.init_value(ft, i, st)
            for n, ft in fs[len(e['inits']):]:
                f[n] = self.default_value(ft, st, True)
            return Rec(t.name, f, t)
        if t.c == 'arr':
            es = self.sort_of(t.to)
            arr = z3.Const(self.fname('arr'), z3.ArraySort(IntS, es))
            for i, x in enumerate(e['inits']):
                arr = z3.Store(arr, I(i), self.pack(self.ev(x, st), t.to, st))
            if e.get('filler') is not None and len(e['inits']) < (t.n or 0):
                fv = self.pack(self.ev(e['filler'], st), t.to, st)
                for i in range(len(e['inits']), t.n):
                    arr = z3.Store(arr, I(i), fv)
            return Vec(I(t.n), arr, t.to)
        if len(e['inits']) == 1:
            return self.ev(e['inits'][0], st)
        if not e['inits']:
            return self.default_value(t, st, True)
        raise Unsupported('init list')

    def e_ArrayCopy(self, e, st):
        return self.ev(e['e'], st)

    def e_Lambda(self, e, st):
        copies = {}
        fr = self.frames[-1]
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('init') is not None:
                copies[c['id']] = self.ev(c['init'], st)
            elif not c['byref']:
                copies[c['id']] = self.get(self.ref_loc(c, st), st)
        return Lam(e, fr, copies)

    def e_Throw(self, e, st):
        if e['e'] is None:
            raise Unsupported('rethrow')
        t = e['e']['t'].strip()
        exc = None
        try:
            v = self.ev(e['e'], st)
            exc = Opaque(t.name, v.args if isinstance(v, Opaque) else ())
        except Unsupported:
            exc = Opaque(t.name)
        self.sinks[-1].append((st.clone(), exc))
        raise Dead()

    def e_New(self, e, st):
        v = self.ev(e['e'], st) if e['e'] is not None else self.default_value(e['alloc'], st)
        return Ptr([(z3.BoolVal(True), self.new_cell(st, v))], e['t'])

    def e_Delete(self, e, st):
        return VOID

    def e_Cond(self, e, st):
        c = self.ev(e['c'], st)
        if e['t'].c == 'void':
            return self.branch(st, c, lambda s: (self.ev_discard(e['l'], s), VOID)[1], lambda s: (self.ev_discard(e['r'], s), VOID)[1])
        return self.branch(st, c, lambda s: self.ev(e['l'], s), lambda s: self.ev(e['r'], s))

    # ---- arithmetic
    def fit(self, v, ty, st, what, line=None):
        """Result of signed arithmetic: obligation that it fits; unsigned: wraps."""
        lo, hi = irange(ty)
        if self.in_range(v, (lo, hi), st):
            if not self.suppress and ty.signed:
                self.trivial += 1
            return v
        if ty.signed:
            self.oblige(st, land(v >= lo, v <= hi), 'overflow', f'{what} does not overflow {ty}', line)
            self.note_range(v, (lo, hi), st, True)
            return v
        if self.quick(st, land(v >= lo, v <= hi)):
            self.quick_proved += 1
            self.note_range(v, (lo, hi), st, True)
            return v
        return z3.simplify(v % (hi + 1)) if z3.is_int_value(v) else v % (hi + 1)

    def conv_int(self, v, to, st):
        lo, hi = irange(to)
        if self.in_range(v, (lo, hi), st):
            return v
        if self.quick(st, land(v >= lo, v <= hi)):
            self.quick_proved += 1
            self.note_range(v, (lo, hi), st, True)
            return v
        n = hi - lo + 1
        r = (v - lo) % n + lo if lo else v % n
        return z3.simplify(r) if z3.is_int_value(v) else r

    def trunc_real(self, r):
        if z3.is_app_of(r, z3.Z3_OP_TO_REAL):
            return r.arg(0)
        return ite(r >= 0, z3.ToInt(r), -z3.ToInt(-r))

    def e_Cast(self, e, st):
        ck = e['ck']
        t = e['t']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ArrayToPointerDecay', 'NoOp', 'BitCast'):
            if e['e']['k'] == 'Str':
                return self.ev(e['e'], st)
            return self.ev(e['e'], st)
        if ck == 'ToVoid':
            self.ev_discard(e['e'], st)
            return VOID
        v = self.ev(e['e'], st)
        if ck == 'IntegralCast':
            if isinstance(v, z3.BoolRef):
                return ite(v, I(1), I(0))
            if t.strip().c == 'enum':
                r = self.trange(t.strip())
                if not self.in_range(v, r, st):
                    self.oblige(st, land(v >= r[0], v <= r[1]), 'conversion', f'value converted to {t} is one of its values', e.get('line'))
                    self.note_range(v, r, st, True)
                return v
            return self.conv_int(v, t if t.bits else INT32, st)
        if ck == 'IntegralToBoolean':
            return z3.simplify(v != 0)
        if ck == 'IntegralToFloating':
            if isinstance(v, z3.BoolRef):
                v = ite(v, I(1), I(0))
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return self.fl(z3.ToReal(v), st) if self.ieee else z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            lo, hi = irange(t)
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                r = v.arg(0)
                if not self.in_range(r, (lo, hi), st):
                    self.oblige(st, land(r >= lo, r <= hi), 'conversion', f'floating value converted to {t} is in range', e.get('line'))
                self.note_range(r, (lo, hi), st, True)
                return r
            r = self.trunc_real(v)
            self.oblige(st, land(v > lo - 1, v < hi + 1), 'conversion', f'floating value converted to {t} is in range', e.get('line'))
            self.note_range(r, (lo, hi), st)
            return r
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToBoolean':
            return v != 0
        if ck == 'PointerToBoolean':
            return lnot(v.null)
        if ck == 'NullToPointer':
            return Ptr([], t, z3.BoolVal(True))
        if ck == 'UserDefinedConversion':
            return v
        raise Unsupported(f'cast {ck} at line {e.get("line")}')

    # IEEE double arithmetic: the exact result, rounded with relative error at most 2^-53 (no underflow: an assumption)
    def int_of(self, t):
        if z3.is_rational_value(t) and t.denominator_as_long() == 1:
            return I(t.numerator_as_long())
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return t.arg(0)
        return None

    def fl_arith(self, op, a, b, st):
        x = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
        if not self.ieee:
            return x
        if z3.is_rational_value(a) and z3.is_rational_value(b) and not (op == '/' and b.as_fraction() == 0):
            x = z3.simplify(x)
        elif op == '*' and (z3.is_rational_value(a) and abs(a.as_fraction()) == 1 or z3.is_rational_value(b) and abs(b.as_fraction()) == 1):
            return x
        elif op != '/':
            i, j = self.int_of(a), self.int_of(b)
            if i is not None and j is not None:
                x = z3.ToReal(i + j if op == '+' else i - j if op == '-' else i * j)
        return self.fl(x, st)

    def fl(self, x, st):
        if z3.is_rational_value(x):
            return z3.RealVal(Fraction(float(x.as_fraction())))
        i = self.int_of(x)
        if i is not None and self.in_range(i, (-(1 << 53), 1 << 53), st):
            return x
        self.assumed.add('double arithmetic rounds with relative error at most 2^-53; no result underflows or overflows')
        r = z3.Function('fl', RealS, RealS)(x)
        u = z3.RealVal(Fraction(1, 1 << 53))
        d = r - x
        self.note_fact(x, ite(x >= 0, land(d <= u * x, d >= -(u * x)), land(d >= u * x, d <= -(u * x))), st)
        if i is not None:
            self.note_fact(x, z3.Implies(land(i <= 1 << 53, i >= -(1 << 53)), r == x), st)
        return r

    def arith(self, op, a, b, ty, st, line):
        if ty.c == 'float':
            if op == '/':
                self.oblige(st, b != 0, 'division', 'floating division by a non-zero value', line)
            if op in ('+', '-', '*', '/'):
                return self.fl_arith(op, a, b, st)
            raise Unsupported('float op ' + op)
        if ty.c == 'bool':
            a, b = [ite(x, I(1), I(0)) if isinstance(x, z3.BoolRef) else x for x in (a, b)]
        if isinstance(a, z3.BoolRef):
            a = ite(a, I(1), I(0))
        if isinstance(b, z3.BoolRef):
            b = ite(b, I(1), I(0))
        if isinstance(a, Iter) or isinstance(b, Iter) or isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer arithmetic')
        na, nb = z3.is_int_value(a), z3.is_int_value(b)
        fold = (lambda x: z3.simplify(x)) if (na and nb) else (lambda x: x)
        if op == '+':
            if nb and b.as_long() == 0:
                return a
            if na and a.as_long() == 0:
                return b
            return self.fit(fold(a + b), ty, st, 'addition', line)
        if op == '-':
            if nb and b.as_long() == 0:
                return a
            return self.fit(fold(a - b), ty, st, 'subtraction', line)
        if op == '*':
            if nb and b.as_long() == 1:
                return a
            if na and a.as_long() == 1:
                return b
            if self.abstract_mul and not na and not nb:
                return self.fit(self.mul(a, b, st), ty, st, 'multiplication', line)
            return self.fit(fold(a * b), ty, st, 'multiplication', line)
        if op in ('/', '%'):
            self.oblige(st, b != 0, 'division', 'division by a non-zero value', line)
            la, _ = self.rng(a, 0, st)
            lb, _ = self.rng(b, 0, st)
            nonneg = (not ty.signed) or (la is not None and la >= 0 and lb is not None and lb >= 0) or self.quick(st, land(a >= 0, b > 0))
            if self.abstract_mul and not nb:
                ab = a if nonneg or (la is not None and la >= 0) else ite(a >= 0, a, -a)
                bb = b if nonneg or (lb is not None and lb >= 0) else ite(b >= 0, b, -b)
                q, m = z3.Function('quotient', IntS, IntS, IntS)(ab, bb), z3.Function('remainder', IntS, IntS, IntS)(ab, bb)
                st.assume(land(m >= 0, m < bb, q >= 0, q <= ab, z3.Implies(ab < bb, land(q == 0, m == ab)), z3.Implies(land(ab >= bb, ab < 2 * bb), land(q == 1, m == ab - bb))))
                if nonneg:
                    return q if op == '/' else m
                if op == '/':
                    return self.fit(ite((a >= 0) == (b > 0), q, -q), ty, st, 'division', line)
                return ite(a >= 0, m, -m)
            if nonneg:
                r = fold(a / b) if op == '/' else fold(a % b)
                self.div_facts(a, b, st)
                if op == '/':
                    ha = self.rng(a, 0, st)[1]
                    if ha is not None and not z3.is_int_value(r):
                        self.note_range(r, (0, ha), st, True)
                elif not z3.is_int_value(r):
                    hb, ha = self.rng(b, 0, st)[1], self.rng(a, 0, st)[1]
                    hs = [x for x in (hb - 1 if hb is not None else None, ha) if x is not None]
                    if hs:
                        self.note_range(r, (0, max(min(hs), 0)), st, True)
                return r
            ab = a if la is not None and la >= 0 else ite(a >= 0, a, -a)
            bb = b if lb is not None and lb >= 0 else ite(b >= 0, b, -b)
            q = ab / bb
            if op == '/':
                return self.fit(ite((a >= 0) == (b > 0), q, -q), ty, st, 'division', line)
            m = ab % bb
            r = ite(a >= 0, m, -m)
            return r
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b, ty, st, line)
        raise Unsupported('operator ' + op)

    def mul(self, a, b, st=None):
        """A product known only as a commutative function of its factors, within the range of the product."""
        if self.mul_f is None:
            self.mul_f = z3.Function('mul', IntS, IntS, IntS)
            x, y = z3.Ints('mx my')
            self.axioms.append(z3.ForAll([x, y], self.mul_f(x, y) == self.mul_f(y, x), patterns=[self.mul_f(x, y)]))
        t = self.mul_f(a, b)
        if st is not None:
            if self.small is not None:
                for x in (a, b):
                    if not self.in_range(x, (0, self.small), st) and self.ematch(st, land(x >= 0, x <= self.small)):
                        self.note_range(x, (0, self.small), st, True)
            (la, ha), (lb, hb) = self.rng(a, 0, st), self.rng(b, 0, st)
            if None not in (la, ha, lb, hb):
                c = [la * lb, la * hb, ha * lb, ha * hb]
                self.note_range(t, (min(c), max(c)), st, True)
                if self.small is not None:
                    st.assume(land(t >= min(c), t <= max(c)))
        return t

    def div_facts(self, a, b, st):
        if z3.is_int_value(b):
            return
        self.note_fact(a, z3.Implies(b > 0, land(a == b * (a / b) + a % b, a % b >= 0, a % b < b)), st)

    # bit operations -------------------------------------------------------------
    Bit = z3.Function('bit', IntS, IntS, BoolS)
    BAnd = z3.Function('bv_and', IntS, IntS, IntS)
    BOr = z3.Function('bv_or', IntS, IntS, IntS)
    BXor = z3.Function('bv_xor', IntS, IntS, IntS)
    Shl = z3.Function('bv_shl', IntS, IntS, IntS)

    def bits_of(self, x, n):
        if z3.is_int_value(x):
            v = x.as_long()
            return [z3.BoolVal(bool(v >> i & 1)) for i in range(n)]
        return [(x / (1 << i)) % 2 == 1 if i else x % 2 == 1 for i in range(n)]

    def from_bits(self, bs):
        r = None
        for i, b in enumerate(bs):
            if z3.is_false(b):
                continue
            t = ite(b, I(1 << i), I(0))
            r = t if r is None else r + t
        return r if r is not None else I(0)

    def hi_bit(self, x, st=None):
        l, h = self.rng(x, 0, st)
        if l is None or h is None or l < 0:
            return None
        return max(h.bit_length(), 1)

    def bitop(self, op, a, b, ty, st, line):
        if not z3.is_int_value(b):
            c = z3.simplify(b, som=True)
            b = c if z3.is_int_value(c) else b
        na, nb = z3.is_int_value(a), z3.is_int_value(b)
        if na and nb:
            x, y = a.as_long(), b.as_long()
            r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            return self.conv_int(I(r), ty, st)
        if op == '>>' and nb:
            if self.rng(a, 0, st)[0] is not None and self.rng(a, 0, st)[0] >= 0 or not ty.signed:
                r = a / (1 << b.as_long()) if b.as_long() else a
                return r
        if op == '<<' and nb and (not ty.signed or (self.rng(a, 0, st)[0] or 0) >= 0):
            if b.as_long() == 0:
                return a
            return self.fit(a * (1 << b.as_long()), ty, st, 'shift', line)
        if op == '&' and nb and (b.as_long() & (b.as_long() + 1)) == 0:
            if (self.rng(a, 0, st)[0] or -1) >= 0 or not ty.signed or self.rng(a, 0, st)[0] == 0:
                hb = self.hi_bit(a, st)
                if hb is not None and (1 << hb) - 1 <= b.as_long():
                    return a
                return a % (b.as_long() + 1)
        if op == '&' and na:
            return self.bitop(op, b, a, ty, st, line)
        w1, w2 = self.hi_bit(a, st), self.hi_bit(b, st)
        if op in ('&', '|', '^'):
            if op == '|':
                if na and a.as_long() == 0:
                    return b
                if nb and b.as_long() == 0:
                    return a
                # disjoint: one below 2^k, the other a multiple of 2^k
                for x, y in ((a, b), (b, a)):
                    k = self.pow2_factor(y)
                    lx, hx = self.rng(x, 0, st)
                    if k and lx is not None and lx >= 0 and hx is not None and hx < k:
                        r = x + y
                        hy = self.rng(y, 0, st)[1]
                        if hy is not None:
                            self.note_range(r, (0, hx + hy), st, True)
                        return r
            if w1 is not None and w2 is not None and max(w1, w2) <= 2:
                n = max(w1, w2)
                f = {'&': lambda x, y: land(x, y), '|': lambda x, y: lor(x, y), '^': lambda x, y: z3.Xor(x, y)}[op]
                r = self.from_bits([f(x, y) for x, y in zip(self.bits_of(a, n), self.bits_of(b, n))])
                if not z3.is_int_value(r):
                    self.note_range(r, (0, (1 << n) - 1), st)
                return r
        if op in ('&', '|', '^', '<<', '>>'):
            return self.uf_bitop(op, a, b, ty, st)
        raise Unsupported(f'bit operation {op}')

    def pow2_factor(self, y):
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MUL:
            for c in y.children():
                if z3.is_int_value(c):
                    v = c.as_long()
                    if v > 0:
                        return v & -v
        if z3.is_int_value(y) and y.as_long() > 0:
            return y.as_long() & -y.as_long()
        return None

    def uf_bitop(self, op, a, b, ty, st):
        """Bitwise operation over the uninterpreted bit predicate; see bit_axioms."""
        B = self.Bit
        a, b = self.atom(a, st), self.atom(b, st)
        self.assumed.add('bit axioms: bit(x,i) of |, &, ^, << and >> (standard two\'s complement definitions)')
        if op == '>>':
            r = z3.Function('bv_shr', IntS, IntS, IntS)(a, b)
            s = z3.Int('s')
            st.assume(z3.ForAll([s], z3.Implies(s >= 0, B(r, s) == B(a, s + b)), patterns=[B(r, s)]))
            st.assume((r % 2 == 1) == B(a, b))
            ra = self.rng(a, 0, st)
            self.note_range(r, (0, ra[1] if ra[1] is not None else irange(ty)[1]), st)
            return r
        if op == '<<':
            r = self.Shl(a, b)
            s = z3.Int('s')
            bits = ty.bits
            st.assume(z3.ForAll([s], z3.Implies(land(s >= 0, s < bits), B(r, s) == land(s >= b, B(a, s - b))), patterns=[B(r, s)]))
            self.note_range(r, irange(ty), st)
            if self.in_range(a, (0, 1), st):
                st.assume(z3.Implies(b < 8, r < 256))
                self.bit_facts(a, st)
            return r
        f = {'&': self.BAnd, '|': self.BOr, '^': self.BXor}[op]
        r = f(a, b)
        s = z3.Int('s')
        g = {'&': lambda x, y: land(x, y), '|': lambda x, y: lor(x, y), '^': lambda x, y: z3.Xor(x, y)}[op]
        st.assume(z3.ForAll([s], B(r, s) == g(B(a, s), B(b, s)), patterns=[B(r, s)]))
        self.bit_facts(a, st)
        self.bit_facts(b, st)
        w1, w2 = self.hi_bit(a, st), self.hi_bit(b, st)
        if op == '&' and (w1 or w2):
            w = min(x for x in (w1, w2) if x)
            self.note_range(r, (0, (1 << w) - 1), st)
            if self.in_range(r, (0, 1), st):
                st.assume(B(r, I(0)) == (r == 1))
        elif w1 and w2:
            self.note_range(r, (0, (1 << max(w1, w2)) - 1), st)
        else:
            self.note_range(r, irange(ty), st)
        return r

    def atom(self, x, st):
        """x, or a constant equal to it when x cannot stand in a quantifier pattern."""
        if z3.is_int_value(x) or z3.is_const(x):
            return x
        if not some_sub(x, lambda t: z3.is_quantifier(t) or (z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or t.sort() == BoolS))):
            return x
        key = ('atom', x.get_id())
        if key not in self.atoms:
            v = z3.Int(self.fname('w'))
            r = self.rng(x, 0, st)
            if r[0] is not None and r[1] is not None:
                self.set_rng(v, r)
            self.atoms[key] = (v, x)
        v = self.atoms[key][0]
        st.assume(v == x)
        return v

    def bit_facts(self, x, st):
        """bit() of constants and of 0/1 values."""
        B = self.Bit
        s = z3.Int('s')
        if z3.is_int_value(x):
            v = x.as_long()
            body = lor(*[s == i for i in range(v.bit_length()) if v >> i & 1]) if v else z3.BoolVal(False)
            self.note_fact(x, z3.ForAll([s], B(x, s) == body, patterns=[B(x, s)]), st)
        elif self.in_range(x, (0, 1), st):
            self.note_fact(x, z3.ForAll([s], B(x, s) == land(s == 0, x == 1), patterns=[B(x, s)]), st)

    CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
           '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

    def e_Binary(self, e, st):
        op = e['op']
        if op == '&&':
            a = self.ev(e['l'], st)
            if z3.is_false(a):
                return a
            return self.branch(st, a, lambda s: self.ev(e['r'], s), lambda s: z3.BoolVal(False))
        if op == '||':
            a = self.ev(e['l'], st)
            if z3.is_true(a):
                return a
            return self.branch(st, a, lambda s: z3.BoolVal(True), lambda s: self.ev(e['r'], s))
        if op == ',':
            self.ev_discard(e['l'], st)
            return self.ev(e['r'], st)
        a = self.ev(e['l'], st)
        b = self.ev(e['r'], st)
        if op in self.CMP:
            return self.compare(op, a, b, st)
        return self.arith(op, a, b, e['t'], st, e.get('line'))

    def compare(self, op, a, b, st):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if isinstance(a, z3.BoolRef) != isinstance(b, z3.BoolRef):
                a = ite(a, I(1), I(0)) if isinstance(a, z3.BoolRef) else a
                b = ite(b, I(1), I(0)) if isinstance(b, z3.BoolRef) else b
            if isinstance(a, z3.BoolRef):
                if op == '==':
                    return a if z3.is_true(b) else (b if z3.is_true(a) else a == b)
                if op == '!=':
                    return z3.Xor(a, b)
                a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
            if op in ('==', '!=') and a.eq(b):
                return z3.BoolVal(op == '==')
            r = self.CMP[op](a, b)
            if z3.is_int_value(a) and z3.is_int_value(b):
                return z3.simplify(r)
            if a.sort() == IntS and op in ('<', '<=', '>', '>='):
                (la, ha), (lb, hb) = self.rng(a, 0, st), self.rng(b, 0, st)
                if op in ('<', '>='):
                    if None not in (ha, lb) and ha < lb:
                        return z3.BoolVal(op == '<')
                    if None not in (la, hb) and la >= hb:
                        return z3.BoolVal(op == '>=')
                else:
                    if None not in (ha, lb) and ha <= lb:
                        return z3.BoolVal(op == '<=')
                    if None not in (la, hb) and la > hb:
                        return z3.BoolVal(op == '>')
            return r
        if isinstance(a, Iter) and isinstance(b, Iter):
            return self.stl_mod.iter_cmp(self, op, a, b, st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p = a if isinstance(a, Ptr) else b
            q = b if p is a else a
            if isinstance(q, Ptr) and not q.alts:
                return p.null if op == '==' else lnot(p.null)
        raise Unsupported(f'comparison {op} of {type(a).__name__}, {type(b).__name__}')

    def e_Unary(self, e, st):
        op = e['op']
        if op == '*':
            return self.get(self.lv(e, st), st)
        if op == '&':
            return Ptr([(z3.BoolVal(True), self.lv(e['e'], st))], e['t'])
        if op in ('++', '--'):
            l = self.lv(e['e'], st)
            old = self.get(l, st)
            self.incdec(e, l, st)
            return old if e['post'] else self.get(l, st)
        v = self.ev(e['e'], st)
        if op == '!':
            return lnot(v)
        if op == '-':
            if e['t'].c == 'float':
                return -v
            return self.fit(z3.simplify(-v) if z3.is_int_value(v) else -v, e['t'], st, 'negation', e.get('line'))
        if op == '+':
            return v
        if op == '~' and z3.is_int_value(v):
            return self.conv_int(I(~v.as_long()), e['t'], st)
        raise Unsupported('unary ' + op)

    def incdec(self, e, l, st):
        v = self.get(l, st)
        if isinstance(v, Iter):
            d = 1 if e['op'] == '++' else -1
            self.set(l, self.stl_mod.iter_add(self, v, I(d), st), st)
            return
        op = '+' if e['op'] == '++' else '-'
        one = I(1) if v.sort() == IntS else z3.RealVal(1)
        t = e['t'].strip()
        if t.c == 'int' and t.bits < 32:
            self.set(l, self.conv_int(v + 1 if op == '+' else v - 1, t, st), st)
        else:
            self.set(l, self.arith(op, v, one, t, st, e.get('line')), st)

    def assign(self, e, st):
        op = e['op']
        if op == '=':
            v = self.ev(e['r'], st)
            l = self.lv(e['l'], st)
            self.set(l, v, st)
            return l
        b = self.ev(e['r'], st)
        l = self.lv(e['l'], st)
        a = self.get(l, st)
        lt = e['lt']
        t = e['l']['t'].strip()
        if lt.c == 'float' and a.sort() == IntS:
            a = z3.ToReal(a)
        elif lt.c == 'int' and isinstance(a, z3.BoolRef):
            a = ite(a, I(1), I(0))
        elif lt.c == 'int' and t.c == 'int' and (lt.bits, lt.signed) != (t.bits, t.signed):
            a = self.conv_int(a, lt, st)
        r = self.arith(op[:-1], a, b, e['rt'], st, e.get('line'))
        if t.c == 'int':
            if r.sort() == RealS:
                rr = self.trunc_real(r)
                lo, hi = irange(t)
                self.oblige(st, land(r > lo - 1, r < hi + 1), 'conversion', 'floating value in range', e.get('line'))
                r = rr
            else:
                r = self.conv_int(r, t, st)
        elif t.c == 'bool' and r.sort() == IntS:
            r = r != 0
        self.set(l, r, st)
        return l

    def e_Assign(self, e, st):
        return self.get(self.assign(e, st), st)

    # ---- calls
    def e_Call(self, e, st):
        self.cur_line = e.get('line') or self.cur_line
        if 'fn' not in e:
            c = self.ev(e['callee'], st)
            raise Unsupported('indirect call')
        return self.invoke(e['fn'], None, e['args'], st, e)

    def e_MCall(self, e, st):
        self.cur_line = e.get('line') or self.cur_line
        fn = e['fn']
        if e['arrow']:
            if e['obj']['k'] == 'This':
                this = self.frames[-1].this
            else:
                p = self.ev(e['obj'], st)
                if isinstance(p, Ptr) and len(p.alts) > 1:
                    return self.call_alts(e, p, st)
                this = self.deref(p, st)
        else:
            this = self.lv(e['obj'], st)
        return self.invoke(fn, this, e['args'], st, e, not e.get('qualified'))

    def call_alts(self, e, p, st):
        """Method call through a pointer with several possible pointees."""
        alts = p.alts
        if len(alts) == 1:
            v = self.invoke(e['fn'], alts[0][1], e['args'], st, e)
            return self.get(v.loc, st) if isinstance(v, Ref) else v
        c, l = alts[0]

        def f1(s):
            v = self.invoke(e['fn'], l, e['args'], s, e)
            return self.get(v.loc, s) if isinstance(v, Ref) else v

        def f2(s):
            return self.call_alts(e, Ptr(alts[1:], p.ty), s)
        return self.branch(st, c, f1, f2)

    def e_OpCall(self, e, st):
        self.cur_line = e.get('line') or self.cur_line
        fn = e.get('fn')
        if fn is None:
            raise Unsupported('operator call')
        if fn.get('lambda') or (e['op'] == '()' and e['args'][0]['t'].strip().lam):
            f = self.ev(e['args'][0], st)
            if isinstance(f, Lam):
                args = self.bind_args(fn['params'], e['args'][1:], st)
                return self.call_lambda(f, args, st)
        g = self.prog.funcs.get(fn.get('usr'))
        if g is not None or fn['name'] in self.contracts:
            if e.get('member'):
                o = e['args'][0]
                this = self.lv(o, st)
                return self.invoke(fn, this, e['args'][1:], st, e)
            return self.invoke(fn, None, e['args'], st, e)
        return self.stl_mod.opcall(self, e, fn, st)

    def e_Construct(self, e, st):
        self.cur_line = e.get('line') or self.cur_line
        fn, t = e['fn'], e['t'].strip()
        g = self.prog.funcs.get(fn.get('usr'))
        if fn.get('copy') and len(e['args']) == 1 and (g is None or g.get('defaulted')):
            return self.ev(e['args'][0], st)
        cname = fn['name']
        if cname in self.contracts:
            r = self.contracts[cname](self, st, None, self.bind_args(fn['params'], e['args'], st), fn)
            if r is not NotImplemented:
                self.used_contracts.add(cname)
                return r
        if g is not None:
            args = self.bind_args(g['params'], e['args'], st)
            l = self.new_cell(st, self.default_rec(t, st))
            if not g.get('defaulted'):
                self.call_function(g, l, args, st)
            v = self.get(l, st)
            return v
        if self.rec_fields(t) is not None and not e['args']:
            return self.default_value(t, st)
        return self.stl_mod.construct(self, e, t, e['args'], st)

    def construct_from_values(self, ty, args, st):
        """T(args...) on already evaluated arguments (values or Refs), as emplace does."""
        ty = ty.strip()
        vals = [self.get(a.loc, st) if isinstance(a, Ref) else a for a in args]
        if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].name == ty.name:
            return vals[0]
        if ty.c != 'rec':
            return vals[0] if vals else self.default_value(ty, st, True)
        if ty.name == 'std::shared_ptr' or ty.name == 'std::unique_ptr' or ty.name == 'std::vector':
            if len(vals) == 1:
                return vals[0]
        if ty.name == 'std::pair':
            return Rec('std::pair', {'first': vals[0], 'second': vals[1]}, ty)
        short = ty.name.split('::')[-1]
        cands = [f for f in self.prog.by_name.get(ty.name + '::' + short, []) if f.get('ctor') and len(f['params']) == len(vals)]

        def fits(p, v):
            p = p.strip()
            if isinstance(v, z3.ExprRef):
                return {IntS: p.c in ('int', 'enum'), BoolS: p.c == 'bool', RealS: p.c == 'float'}.get(v.sort(), False)
            if isinstance(v, Rec):
                return p.c == 'rec' and p.name == v.name
            if isinstance(v, Vec):
                return p.c == 'rec' and p.name == 'std::vector'
            return True
        good = [f for f in cands if all(fits(p, v) for p, v in zip(f['params'], vals))]
        if not good and cands:
            good = cands[:1]
        if good:
            f = good[0]
            if f['name'] in self.contracts:
                a2 = [(a if isinstance(a, Ref) else Ref(self.new_cell(st, a, 'tmp'))) if p.c == 'ref' else v for p, a, v in zip(f['params'], args, vals)]
                r = self.contracts[f['name']](self, st, None, a2, f)
                if r is not NotImplemented:
                    self.used_contracts.add(f['name'])
                    return r
            bound = []
            for p, a, v in zip(f['params'], args, vals):
                if p.c == 'ref':
                    bound.append(a if isinstance(a, Ref) else Ref(self.new_cell(st, a, 'tmp')))
                else:
                    bound.append(v)
            l = self.new_cell(st, self.default_rec(ty, st))
            self.call_function(f, l, bound, st)
            return self.get(l, st)
        if not vals:
            return self.default_value(ty, st)
        fs = self.rec_fields(ty)
        if fs is not None and len(fs) == len(vals):
            return Rec(ty.name, {n: v for (n, _), v in zip(fs, vals)}, ty)
        raise Unsupported(f'construct {ty} from {len(vals)} arguments')

    # ------------------------------------------------------------ running a target
    def run(self, f, this, args, st):
        """Runs a function from a prepared state; returns [('ret', st, v)] + [('throw', st, exc)]."""
        self.sinks.append([])
        outs = []
        try:
            fr = Frame(f, this)
            for p, a in zip(f['parms'], args):
                key = ('loc', next(_fresh))
                fr.locals[p['id']] = key
                self.cell_ty[key] = (p['t'], p.get('name'))
                if p['t'].c == 'ref' and not isinstance(a, Ref):
                    a = Ref(self.new_cell(st, a))
                st.env[key] = a
            fr.ret_ref = f['ret'].c == 'ref'
            self.frames.append(fr)
            self.inlined.add(f['name'])
            s = st.clone()
            alive = True
            try:
                if f.get('ctor'):
                    self.ctor_inits(f, this, s)
                self.exec(f['body'], s)
            except Dead:
                alive = False
            outs = [('ret', a, self.get(v.loc, a) if isinstance(v, Ref) else v) for a, v in fr.returns]
            if alive:
                outs.append(('ret', s, VOID))
            if self.locks:
                for _, o, _ in outs:
                    self.locks.leave(fr.locals.values(), o)
            self.frames.pop()
        finally:
            th = self.sinks.pop()
        return outs + [('throw', s, x) for s, x in th]

    def call_pure(self, name, this_val, args, st, pred=None):
        """Evaluates a project function on values, in st (facts it assumes are added to st)."""
        f = self.prog.func(name, pred)
        l = self.new_cell(st, this_val) if this_val is not None else None
        a2 = []
        for p, a in zip(f['params'], args):
            a2.append(Ref(self.new_cell(st, a)) if p.c == 'ref' and not isinstance(a, Ref) else a)
        v = self.call_function(f, l, a2, st)
        return self.get(v.loc, st) if isinstance(v, Ref) else v
