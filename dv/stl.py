"""Contracts of the standard-library operations the code uses (assumed, listed in the trusted base)."""
import z3
from .engine import *
from .engine import _fresh
from .frontend import Ty, UINT64, INT64, BOOL

VECS = ('std::vector', 'std::initializer_list', 'std::array')
HMAPS = ('std::unordered_map', 'std::map')
SETS = ('std::unordered_set', 'std::set')
ITER_RECS = ('__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator',
             'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator_base', 'std::reverse_iterator')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr')
LOCKS = ('std::unique_lock', 'std::shared_lock', 'std::lock_guard', 'std::scoped_lock')


def short(n):
    """Last component of a qualified name (template arguments may contain ::)."""
    d = 0
    i = len(n) - 1
    if 'operator' in n:
        j = n.rfind('operator')
        if j == 0 or n[j - 2:j] == '::':
            return n[j:]
    while i > 0:
        if n[i] == '>':
            d += 1
        elif n[i] == '<':
            d -= 1
        elif d == 0 and n[i - 1:i + 1] == '::':
            return n[i + 1:]
        i -= 1
    return n


def empty_arr(E, es):
    return z3.Const(E.fname('arr'), z3.ArraySort(IntS, es))


def default(E, ty, st):
    n = ty.name
    if n in ('std::vector', 'std::initializer_list'):
        return Vec(I(0), empty_arr(E, E.sort_of(ty.args[0])), ty.args[0])
    if n == 'std::array':
        return Vec(I(ty.args[1]), empty_arr(E, E.sort_of(ty.args[0])), ty.args[0])
    if n in HMAPS:
        ks, vs = E.sort_of(ty.args[0]), E.sort_of(ty.args[1])
        return Map(ty.args[0], ty.args[1], z3.K(ks, z3.BoolVal(False)), z3.Const(E.fname('mapval'), z3.ArraySort(ks, vs)), I(0))
    if n in SETS:
        return Map(ty.args[0], None, z3.K(E.sort_of(ty.args[0]), z3.BoolVal(False)), None, I(0))
    if n == 'std::multimap':
        et = E.pair_ty(ty.args[0], ty.args[1])
        return Bag(et, z3.K(E.sort_of(et), I(0)), I(0))
    if n == 'std::priority_queue':
        return Bag(ty.args[0], z3.K(E.sort_of(ty.args[0]), I(0)), I(0))
    if n == 'std::optional':
        return Opt(z3.BoolVal(False), E.fresh(ty.args[0], 'unset', st), ty)
    if n == 'std::pair':
        return Rec('std::pair', {'first': E.default_value(ty.args[0], st, True), 'second': E.default_value(ty.args[1], st, True)}, ty)
    if n in ('std::shared_ptr', 'std::unique_ptr'):
        return Ptr([], ty, z3.BoolVal(True))
    if n in ('std::atomic', 'std::__atomic_base'):
        return I(0)
    return None


def key(E, v, st):
    """Canonical form of a map key: equal keys become the same term."""
    c = E.key_canon.get(v.name) if isinstance(v, Rec) else None
    return c(E, v, st) if c else v


def kterm(E, v, m, st):
    return E.pack(key(E, v, st), m.kty, st)


def coerce(x, ty):
    """An integer used where a floating value is wanted."""
    if isinstance(x, z3.ExprRef) and ty is not None and ty.strip().c == 'float':
        if x.sort() == IntS:
            return z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)
    return x


def deref_this(E, this, st):
    """The container a method is called on (through smart pointers)."""
    v = E.get(this, st)
    return v


def opt_ty(t):
    return Ty(c='rec', name='std::optional', args=[t], s=f'std::optional<{t}>')


# ------------------------------------------------------------------ enumerations of unordered containers
def enum_map(E, m, st):
    """The order in which a map or set is iterated: each element of the domain exactly once."""
    k = ('enum', m.dom.get_id())
    g = st.ghost.get(k)
    if g is not None:
        return g[0]
    ks = m.dom.sort().domain()
    arr = z3.Const(E.fname('keys'), z3.ArraySort(IntS, ks))
    ix = z3.Const(E.fname('ix'), z3.ArraySort(ks, IntS))
    i = z3.Int('ei')
    x = z3.Const('ex', ks)
    n = m.size
    st.assume(n >= 0)
    if not pattern_ok(m.dom):
        d = z3.Const(E.fname('dom'), m.dom.sort())
        st.assume(d == m.dom)
        st.ghost[('keep', k)] = m.dom
        m = Map(m.kty, m.vty, d, m.val, m.size)
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(m.dom[arr[i]], ix[arr[i]] == i)), patterns=[arr[i]]))
    st.assume(z3.ForAll([x], z3.Implies(m.dom[x], land(ix[x] >= 0, ix[x] < n, arr[ix[x]] == x)), patterns=[ix[x], m.dom[x]] if not z3.is_K(m.dom) else [ix[x]]))
    v = Vec(n, arr, m.kty)
    st.ghost[k] = (v, ix, m.dom)
    return v


def enum_bag(E, b, st):
    k = ('enum', b.cnt.get_id())
    g = st.ghost.get(k)
    if g is not None:
        return g[0]
    es = b.cnt.sort().domain()
    arr = z3.Const(E.fname('elems'), z3.ArraySort(IntS, es))
    ix = z3.Const(E.fname('ix'), z3.ArraySort(es, IntS))
    i, j = z3.Int('ei'), z3.Int('ej')
    x = z3.Const('ex', es)
    n = z3.Int(E.fname('n'))
    st.assume(n >= 0)
    st.assume(n == b.size)
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), b.cnt[arr[i]] > 0), patterns=[arr[i]]))
    st.assume(z3.ForAll([x], z3.Implies(b.cnt[x] > 0, land(ix[x] >= 0, ix[x] < n, arr[ix[x]] == x)), patterns=[b.cnt[x]] if not z3.is_K(b.cnt) else [ix[x]]))
    if b.ety.name == 'std::pair':
        f = E.sort_of(b.ety).accessor(0, 0)
        st.assume(z3.ForAll([i, j], z3.Implies(land(i >= 0, i < j, j < n), f(arr[i]) <= f(arr[j])), patterns=[z3.MultiPattern(arr[i], arr[j])]))
    v = Vec(n, arr, b.ety)
    st.ghost[k] = (v, ix, b.cnt)
    return v


def iter_begin(E, loc, st):
    v = E.get(loc, st)
    if isinstance(v, Vec):
        return Iter('vec', loc, I(0))
    if isinstance(v, Map):
        e = enum_map(E, v, st)
        return Iter('enum', loc, I(0), extra=(e, 'map'))
    if isinstance(v, Bag):
        e = enum_bag(E, v, st)
        return Iter('enum', loc, I(0), extra=(e, 'bag'))
    raise Unsupported(f'begin of {type(v).__name__}')


def iter_end(E, loc, st):
    v = E.get(loc, st)
    if isinstance(v, Vec):
        return Iter('vec', loc, v.len)
    if isinstance(v, Map):
        return Iter('mend', loc)      # becomes a position of the enumeration only when one is needed
    if isinstance(v, Bag):
        e = enum_bag(E, v, st)
        return Iter('enum', loc, e.len, extra=(e, 'bag'))
    raise Unsupported(f'end of {type(v).__name__}')


def norm_end(E, it, st):
    if it.kind != 'mend':
        return it
    e = enum_map(E, E.get(it.loc, st), st)
    return Iter('enum', it.loc, e.len, extra=(e, 'map'))


def iter_deref(E, it, st, node=None):
    """Location the iterator points at."""
    line = node.get('line') if node else None
    it = norm_end(E, it, st)
    if it.kind == 'vec':
        v = E.get(it.loc, st)
        E.oblige(st, land(it.pos >= 0, it.pos < v.len), 'bounds', 'iterator dereferenced inside its container', line)
        return it.loc + ('i', it.pos)
    if it.kind == 'map':
        E.oblige(st, it.present, 'bounds', 'iterator dereferenced is not end()', line)
        m = E.get(it.loc, st)
        if m.vty is None:
            return E.new_cell(st, it.key, 'tmp')
        return it.loc + ('mp', it.key)
    if it.kind == 'enum':
        e, what = it.extra
        E.oblige(st, land(it.pos >= 0, it.pos < e.len), 'bounds', 'iterator dereferenced inside its container', line)
        k = E.vec_get(e, it.pos, st)
        if what == 'map':
            m = E.get(it.loc, st)
            if m.vty is not None:
                return it.loc + ('mp', k)
        return E.new_cell(st, k, 'tmp')
    raise Unsupported('iterator dereference')


def iter_add(E, it, d, st):
    it = norm_end(E, it, st)
    if it.kind in ('vec', 'enum'):
        return Iter(it.kind, it.loc, z3.simplify(it.pos + d), extra=it.extra)
    raise Unsupported('iterator arithmetic')


def iter_cmp(E, op, a, b, st):
    if op in ('==', '!='):
        for x, y in ((a, b), (b, a)):
            if x.kind == 'map' and y.kind == 'mend':
                return lnot(x.present) if op == '==' else x.present
    a, b = norm_end(E, a, st), norm_end(E, b, st)
    if a.kind == b.kind and a.kind in ('vec', 'enum'):
        if a.loc.root != b.loc.root:
            ra = E.get(a.loc, st)
            rb = E.get(b.loc, st)
            if not (isinstance(ra, Vec) and isinstance(rb, Vec) and ra.arr.eq(rb.arr)):
                raise Unsupported('comparison of iterators of different containers')
        r = E.CMP[op](a.pos, b.pos)
        return z3.simplify(r) if z3.is_int_value(a.pos) and z3.is_int_value(b.pos) else r
    m, o = (a, b) if a.kind == 'map' else (b, a)
    if m.kind == 'map' and o.kind == 'enum' and op in ('==', '!='):
        e, what = o.extra
        if not o.pos.eq(e.len):
            raise Unsupported('map iterator compared with something other than end()')
        return lnot(m.present) if op == '==' else m.present
    if a.kind == b.kind == 'map' and op in ('==', '!='):
        kt = E.get(a.loc, st)
        same = kterm(E, a.key, kt, st) == kterm(E, b.key, kt, st)
        r = lor(land(lnot(a.present), lnot(b.present)), land(a.present, b.present, same))
        return r if op == '==' else lnot(r)
    raise Unsupported('iterator comparison')


# ------------------------------------------------------------------ derived vectors
def new_vec(E, st, ety, n, facts, name='v'):
    """Fresh vector of length n; facts(arr) are assumed of its contents."""
    arr = z3.Const(E.fname(name), z3.ArraySort(IntS, E.sort_of(ety)))
    for f in facts(arr):
        st.assume(f)
    return Vec(n, arr, ety)


def forall_idx(lo, hi, f, pat):
    i = z3.Int('qi')
    return z3.ForAll([i], z3.Implies(land(i >= lo, i < hi), f(i)), patterns=pat(i))


def concat(E, st, v, pos, w, wlo, whi, name='ins'):
    """v with w[wlo,whi) inserted at pos."""
    k = z3.simplify(whi - wlo)
    if z3.is_int_value(k) and k.as_long() == 0:
        return v
    n = z3.simplify(v.len + k)
    if z3.is_int_value(v.len) and v.len.as_long() == 0 and z3.is_int_value(wlo) and wlo.as_long() == 0:
        return Vec(whi, w.arr, v.ety)

    def facts(a):
        i = z3.Int('qi')
        return [z3.ForAll([i], z3.Implies(land(i >= 0, i < pos), a[i] == v.arr[i]), patterns=[a[i]]),
                z3.ForAll([i], z3.Implies(land(i >= pos, i < pos + k), a[i] == w.arr[wlo + (i - pos)]), patterns=[a[i]]),
                z3.ForAll([i], z3.Implies(land(i >= pos + k, i < n), a[i] == v.arr[i - k]), patterns=[a[i]])]
    return new_vec(E, st, v.ety, n, facts, name)


def range_of(E, a, b, st):
    """(Vec, lo, hi) of an iterator pair."""
    a, b = norm_end(E, a, st), norm_end(E, b, st)
    if a.kind == 'vec':
        return E.flat(E.get(a.loc, st), st), a.pos, b.pos
    if a.kind == 'enum':
        return a.extra[0], a.pos, b.pos
    raise Unsupported('iterator range')


def vec_eq(E, a, b, st):
    if a.arr.eq(b.arr) and a.len.eq(b.len):
        return z3.BoolVal(True)
    a, b = E.flat(a, st), E.flat(b, st)
    e = z3.Bool(E.fname('eq'))
    w = z3.Int(E.fname('w'))
    i = z3.Int('qi')
    st.assume(z3.Implies(e, land(a.len == b.len, z3.ForAll([i], z3.Implies(land(i >= 0, i < a.len), a.arr[i] == b.arr[i]), patterns=[a.arr[i], b.arr[i]]))))
    st.assume(z3.Implies(lnot(e), lor(a.len != b.len, land(w >= 0, w < a.len, a.arr[w] != b.arr[w]))))
    return e


def lam_formula(E, lam, ety, st, n=2, vec=None):
    """F, facts for lam(x1..xn) on arbitrary elements (of vec)."""
    cs = [z3.Const(E.fname('le'), E.sort_of(ety)) for _ in range(n)]
    s = st.clone()
    if vec is not None:
        for c in cs:
            i = z3.Int(E.fname('li'))
            s.assume(land(i >= 0, i < vec.len, vec.arr[i] == c))
    n0 = len(s.pc)
    args = [Ref(E.new_cell(s, E.unpack(c, ety, s), 'tmp')) for c in cs]
    E.sinks.append([])
    try:
        r = E.call_lambda(lam, args, s)
    finally:
        th = E.sinks.pop()
    if isinstance(r, Ref):
        r = E.get(r.loc, s)
    if th and any(not E.infeasible(t) for t, _ in th):
        raise Unsupported('lambda may throw')
    return r, s.pc[n0:], cs


def call_callable(E, f, args, st):
    if isinstance(f, Lam):
        r = E.call_lambda(f, args, st)
        return E.get(r.loc, st) if isinstance(r, Ref) else r
    if isinstance(f, Opaque) and f.name.startswith('fn:'):
        g = E.prog.funcs.get(f.args[0].get('usr'))
        if g:
            a2 = []
            for p, a in zip(g['params'], args):
                if p.c != 'ref' and isinstance(a, Ref):
                    a = E.get(a.loc, st)
                a2.append(a)
            r = E.call_function(g, None, a2, st)
            return E.get(r.loc, st) if isinstance(r, Ref) else r
    raise Unsupported('call of ' + type(f).__name__)


# ------------------------------------------------------------------ containers
def vec_method(E, m, loc, v, a, st, node, fn):
    """a(i): evaluated argument value; al(i): argument location."""
    n = len(node['args'])
    if m == 'size':
        return v.len
    if m == 'empty':
        return z3.simplify(v.len == 0) if z3.is_int_value(v.len) else v.len == 0
    if m in ('begin', 'cbegin'):
        return Iter('vec', loc, I(0))
    if m in ('end', 'cend'):
        return Iter('vec', loc, v.len)
    if m in ('reserve', 'shrink_to_fit') or m in ('sync', 'unmap') and fn.get('rec') == 'mio::basic_mmap':
        return VOID
    if m == 'capacity':
        return v.len
    if m in ('push_back', 'emplace_back'):
        if m == 'push_back':
            x = a(0)
        else:
            args = [a_ref(E, z, st) for z in node['args']]
            x = E.construct_from_values(v.ety, args, st)
        v = E.get(loc, st)
        if E.push_named and not z3.is_int_value(v.len):
            o = E.flat(v, st).arr
            arr = z3.Const(E.fname('pushed'), o.sort())
            i = z3.Int('qi')
            st.assume(arr == z3.Store(o, v.len, E.pack(x, v.ety, st)))
            st.assume(z3.ForAll([i], z3.Implies(i != v.len, arr[i] == o[i]), patterns=[o[i]]))
            st.assume(arr[v.len] == E.pack(x, v.ety, st))
        else:
            arr = z3.Store(v.arr, v.len, E.pack(x, v.ety, st))
        E.set(loc, Vec(z3.simplify(v.len + 1), arr, v.ety), st)
        if m == 'emplace_back':
            return Ref(loc + ('i', v.len))
        return VOID
    if m == 'pop_back':
        E.oblige(st, v.len > 0, 'bounds', 'pop_back on a non-empty vector', node.get('line'))
        E.set(loc, Vec(z3.simplify(v.len - 1), v.arr, v.ety), st)
        return VOID
    if m == 'clear':
        E.set(loc, Vec(I(0), v.arr, v.ety), st)
        return VOID
    if m in ('front', 'back'):
        E.oblige(st, v.len > 0, 'bounds', f'{m}() on a non-empty vector', node.get('line'))
        return Ref(loc + ('i', I(0) if m == 'front' else z3.simplify(v.len - 1)))
    if m == 'at':
        i = a(0)
        v = E.get(loc, st)
        E.throw_if(st, lnot(land(i >= 0, i < v.len)), Opaque('std::out_of_range'))
        return Ref(loc + ('i', i))
    if m == 'data':
        raise Unsupported('vector::data')
    if m == 'resize':
        k = a(0)
        x = a(1) if n > 1 else E.default_value(v.ety, st, True)
        v = E.get(loc, st)
        xt = E.pack(x, v.ety, st)
        if z3.is_int_value(v.len) and v.len.as_long() == 0:
            E.set(loc, Vec(k, z3.K(IntS, xt), v.ety), st)
            return VOID

        def facts(r):
            i = z3.Int('qi')
            return [z3.ForAll([i], z3.Implies(land(i >= 0, i < k), r[i] == z3.If(i < v.len, v.arr[i], xt)), patterns=[r[i]])]
        E.set(loc, new_vec(E, st, v.ety, k, facts), st)
        return VOID
    if m == 'insert':
        p = a(0)
        if n == 3:
            w, lo, hi = range_of(E, a(1), a(2), st)
            v = E.get(loc, st)
            E.set(loc, concat(E, st, v, p.pos, w, lo, hi), st)
            return Iter('vec', loc, p.pos)
        if n == 2:
            x = a(1)
            v = E.get(loc, st)
            w = Vec(I(1), z3.K(IntS, E.pack(x, v.ety, st)), v.ety)
            E.set(loc, concat(E, st, v, p.pos, w, I(0), I(1)), st)
            return Iter('vec', loc, p.pos)
    if m == 'erase':
        p = a(0)
        q = a(1).pos if n == 2 else p.pos + 1
        v = E.get(loc, st)
        if n == 1:
            E.oblige(st, land(p.pos >= 0, p.pos < v.len), 'bounds', 'erase inside the vector', node.get('line'))
        if z3.simplify(q == v.len) is not None and (q.eq(v.len) or z3.is_true(z3.simplify(q == v.len))):
            E.set(loc, Vec(p.pos, v.arr, v.ety), st)
            return Iter('vec', loc, p.pos)
        d = q - p.pos

        def facts(r):
            i = z3.Int('qi')
            return [z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len - d), r[i] == z3.If(i < p.pos, v.arr[i], v.arr[i + d])), patterns=[r[i]])]
        E.set(loc, new_vec(E, st, v.ety, v.len - d, facts), st)
        return Iter('vec', loc, p.pos)
    if m == 'swap':
        ol = E.lv(node['args'][0], st)
        w = E.get(ol, st)
        v = E.get(loc, st)
        E.set(ol, v, st)
        E.set(loc, w, st)
        return VOID
    if m == 'operator[]':
        i = a(0)
        v = E.get(loc, st)
        if E.index_hook:
            E.index_hook(E, v, i, st)
        E.oblige(st, land(i >= 0, i < v.len), 'bounds', 'vector index in range', node.get('line'))
        return Ref(loc + ('i', i))
    if m == 'operator=':
        x = a(0)
        E.set(loc, x, st)
        return Ref(loc)
    if m == 'assign' and n == 2:
        w, lo, hi = range_of(E, a(0), a(1), st)
        E.set(loc, concat(E, st, Vec(I(0), v.arr, v.ety), I(0), w, lo, hi), st)
        return VOID
    raise Unsupported(f'vector::{m}')


def a_ref(E, e, st):
    if e.get('lv'):
        return Ref(E.lv(e, st))
    return E.ev(e, st)


def map_default(E, m, st):
    return E.default_value(m.vty, st, True)


def map_put(E, loc, k, val, st, only_new=False):
    """Inserts or overwrites; returns whether it was new."""
    m = E.get(loc, st)
    kt = kterm(E, k, m, st)
    was = z3.Select(m.dom, kt)
    was = z3.simplify(was)
    newval = m.val
    if m.vty is not None:
        vt = E.pack(val, m.vty, st)
        newval = z3.Store(m.val, kt, ite(was, z3.Select(m.val, kt), vt) if only_new else vt)
    E.set(loc, Map(m.kty, m.vty, z3.Store(m.dom, kt, z3.BoolVal(True)), newval, m.size + ite(was, I(0), I(1))), st)
    return lnot(was)


def map_method(E, mm, loc, m, a, st, node, fn):
    n = len(node['args'])
    if mm == 'size':
        return m.size
    if mm == 'empty':
        e = z3.Bool(E.fname('empty'))
        x = z3.Const('ex', m.dom.sort().domain())
        w = z3.Const(E.fname('w'), m.dom.sort().domain())
        st.assume(z3.Implies(e, land(z3.ForAll([x], z3.Not(m.dom[x]), patterns=[m.dom[x]]) if not z3.is_K(m.dom) else z3.BoolVal(True), m.size == 0)))
        st.assume(z3.Implies(lnot(e), land(m.dom[w], m.size > 0)))
        return e
    if mm in ('begin', 'cbegin'):
        return iter_begin(E, loc, st)
    if mm in ('end', 'cend'):
        return iter_end(E, loc, st)
    if mm in ('reserve', 'rehash'):
        return VOID
    if mm in ('find', 'count', 'contains'):
        k = key(E, a(0), st)
        m = E.get(loc, st)
        p = z3.simplify(z3.Select(m.dom, E.pack(k, m.kty, st)))
        if mm == 'find':
            return Iter('map', loc, key=k, present=p)
        return p if mm == 'contains' else ite(p, I(1), I(0))
    if mm == 'at':
        k = key(E, a(0), st)
        m = E.get(loc, st)
        p = z3.simplify(z3.Select(m.dom, E.pack(k, m.kty, st)))
        E.throw_if(st, lnot(p), Opaque('std::out_of_range'))
        return Ref(loc + ('m', k))
    if mm == 'operator[]':
        k = key(E, a(0), st)
        m = E.get(loc, st)
        kt = E.pack(k, m.kty, st)
        was = z3.simplify(z3.Select(m.dom, kt))
        if not z3.is_true(was):
            if z3.is_false(was) or not E.quick(st, was, 250):
                d = E.pack(map_default(E, m, st), m.vty, st)
                m = E.get(loc, st)
                E.set(loc, Map(m.kty, m.vty, z3.Store(m.dom, kt, z3.BoolVal(True)), z3.Store(m.val, kt, ite(was, z3.Select(m.val, kt), d)), m.size + ite(was, I(0), I(1))), st)
        return Ref(loc + ('m', k))
    if mm in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if m.vty is None:
            if n == 1 and mm == 'insert' or mm == 'emplace':
                if mm == 'emplace':
                    k = E.construct_from_values(m.kty, [a_ref(E, z, st) for z in node['args']], st)
                else:
                    k = a(0)
                k = key(E, k, st)
                new = map_put(E, loc, k, None, st)
                return Rec('std::pair', {'first': Iter('map', loc, key=k, present=z3.BoolVal(True)), 'second': new})
            if n == 2 and mm == 'insert':
                w, lo, hi = range_of(E, a(0), a(1), st)
                d2 = z3.Const(E.fname('dom'), m.dom.sort())
                sz = z3.Int(E.fname('size'))
                i = z3.Int('qi')
                x = z3.Const('ex', m.dom.sort().domain())
                wit = z3.Const(E.fname('wit'), z3.ArraySort(m.dom.sort().domain(), IntS))
                st.assume(z3.ForAll([i], z3.Implies(land(i >= lo, i < hi), d2[w.arr[i]]), patterns=[w.arr[i]]))
                st.assume(z3.ForAll([x], z3.Implies(m.dom[x], d2[x]), patterns=[d2[x]]))
                st.assume(z3.ForAll([x], z3.Implies(d2[x], lor(m.dom[x], land(wit[x] >= lo, wit[x] < hi, w.arr[wit[x]] == x))), patterns=[d2[x]]))
                st.assume(sz >= m.size)
                E.set(loc, Map(m.kty, None, d2, None, sz), st)
                return VOID
        else:
            if mm == 'insert' and n == 1:
                p = a(0)
                k, val = p.f['first'], p.f['second']
            else:
                k = a(0)
                if n == 2:
                    val = a(1)
                else:
                    val = E.construct_from_values(m.vty, [a_ref(E, z, st) for z in node['args'][1:]], st)
            k = key(E, k, st)
            new = map_put(E, loc, k, val, st, only_new=(mm != 'insert_or_assign'))
            return Rec('std::pair', {'first': Iter('map', loc, key=k, present=z3.BoolVal(True)), 'second': new})
    if mm == 'erase' and n == 1:
        k = a(0)
        m = E.get(loc, st)
        if isinstance(k, Iter):
            k = norm_end(E, k, st)
            if k.kind == 'map':
                E.oblige(st, k.present, 'bounds', 'erase of a valid iterator', node.get('line'))
                k = k.key
            elif k.kind == 'enum':
                k = E.vec_get(k.extra[0], k.pos, st)
        kt = kterm(E, k, m, st)
        was = z3.simplify(z3.Select(m.dom, kt))
        E.set(loc, Map(m.kty, m.vty, z3.Store(m.dom, kt, z3.BoolVal(False)), m.val, m.size - ite(was, I(1), I(0))), st)
        return ite(was, I(1), I(0))
    if mm == 'clear':
        E.set(loc, Map(m.kty, m.vty, z3.K(m.dom.sort().domain(), z3.BoolVal(False)), m.val, I(0)), st)
        return VOID
    if mm == 'operator=':
        E.set(loc, a(0), st)
        return Ref(loc)
    raise Unsupported(f'map::{mm}')


def bag_add(E, loc, x, st):
    b = E.get(loc, st)
    t = E.pack(x, b.ety, st)
    E.set(loc, Bag(b.ety, z3.Store(b.cnt, t, z3.Select(b.cnt, t) + 1), b.size + 1, b.cmp), st)
    st.assume(z3.Select(b.cnt, t) >= 0)
    return t


def bag_del(E, loc, t, st):
    b = E.get(loc, st)
    E.set(loc, Bag(b.ety, z3.Store(b.cnt, t, z3.Select(b.cnt, t) - 1), b.size - 1, b.cmp), st)


def bag_method(E, mm, loc, b, a, st, node, fn):
    n = len(node['args'])
    if mm in ('empty', 'top', 'pop') and not z3.is_const(b.cnt):
        # a name that can stand in patterns
        k = ('named', b.cnt.get_id())
        if k not in st.ghost:
            c = z3.Const(E.fname('queue'), b.cnt.sort())
            st.assume(c == b.cnt)
            st.ghost[k] = (c, b.cnt)
        b = Bag(b.ety, st.ghost[k][0], b.size, b.cmp)
        if mm == 'pop':
            E.set(loc, b, st)
    if mm == 'size':
        return b.size
    if mm == 'empty':
        e = z3.Bool(E.fname('empty'))
        x = z3.Const('ex', b.cnt.sort().domain())
        w = z3.Const(E.fname('w'), b.cnt.sort().domain())
        if not z3.is_K(b.cnt):
            st.assume(z3.Implies(e, land(z3.ForAll([x], b.cnt[x] <= 0, patterns=[b.cnt[x]]), b.size == 0)))
        st.assume(z3.Implies(lnot(e), land(b.cnt[w] > 0, b.size > 0)))
        return e
    if mm in ('emplace', 'insert', 'push'):
        if mm == 'emplace' and n > 1 or mm == 'emplace':
            x = E.construct_from_values(b.ety, [a_ref(E, z, st) for z in node['args']], st)
        else:
            x = a(0)
        bag_add(E, loc, x, st)
        return VOID
    if mm == 'top':
        # an element no other element is preferred to
        k = ('top', b.cnt.get_id())
        if k not in st.ghost:
            t = z3.Const(E.fname('top'), b.cnt.sort().domain())
            E.oblige(st, b.size > 0, 'bounds', 'top() of a non-empty queue', node.get('line'))
            st.assume(z3.Select(b.cnt, t) > 0)
            if isinstance(b.cmp, Lam):
                r, facts, (x, y) = lam_formula(E, b.cmp, b.ety, st)
                z = z3.Const('ex', b.cnt.sort().domain())
                body = z3.Implies(land(b.cnt[z] > 0), lnot(r))
                body = z3.substitute(body, (x, t), (y, z))
                # cmp(top, z) is false for every z in the queue
                fs = [z3.substitute(f, (x, t), (y, z)) for f in facts]
                st.assume(z3.ForAll([z], z3.Implies(land(b.cnt[z] > 0, *fs), lnot(z3.substitute(r, (x, t), (y, z)))), patterns=[b.cnt[z]]))
            st.ghost[k] = (t, b.cnt)
        t = st.ghost[k][0]
        return Ref(E.new_cell(st, E.unpack(t, b.ety, st), 'tmp'))
    if mm == 'pop':
        k = ('top', b.cnt.get_id())
        if k not in st.ghost:
            bag_method(E, 'top', loc, b, a, st, node, fn)
        bag_del(E, loc, st.ghost[k][0], st)
        return VOID
    if mm in ('begin', 'cbegin'):
        return iter_begin(E, loc, st)
    if mm in ('end', 'cend'):
        return iter_end(E, loc, st)
    if mm in ('equal_range', 'lower_bound', 'upper_bound', 'find'):
        k = a(0)
        e = enum_bag(E, b, st)
        f = E.sort_of(b.ety).accessor(0, 0)
        i = z3.Int('qi')
        lo, hi = z3.Int(E.fname('lo')), z3.Int(E.fname('hi'))
        st.assume(land(lo >= 0, lo <= hi, hi <= e.len))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < e.len), land((f(e.arr[i]) < k) == (i < lo), (f(e.arr[i]) <= k) == (i < hi))), patterns=[e.arr[i]]))
        first, second = Iter('enum', loc, lo, extra=(e, 'bag')), Iter('enum', loc, hi, extra=(e, 'bag'))
        if mm == 'equal_range':
            return Rec('std::pair', {'first': first, 'second': second})
        if mm == 'lower_bound':
            return first
        if mm == 'upper_bound':
            return second
        return Iter('enum', loc, ite(lo < hi, lo, e.len), extra=(e, 'bag'))
    if mm == 'erase' and n == 1:
        it = a(0)
        if isinstance(it, Iter) and it.kind == 'enum':
            e = it.extra[0]
            E.oblige(st, land(it.pos >= 0, it.pos < e.len), 'bounds', 'erase of a valid iterator', node.get('line'))
            bag_del(E, loc, e.arr[it.pos], st)
            return Iter('enum', loc, it.pos + 1, extra=it.extra)
    if mm == 'operator=':
        E.set(loc, a(0), st)
        return Ref(loc)
    raise Unsupported(f'multimap/priority_queue::{mm}')


def opt_method(E, m, loc, v, a, st, node, fn):
    if m in ('has_value', 'operator bool'):
        return v.has
    if m == 'value':
        E.throw_if(st, lnot(v.has), Opaque('std::bad_optional_access'))
        return Ref(loc + ('o',))
    if m in ('operator*', 'operator->'):
        E.oblige(st, v.has, 'bounds', 'optional dereferenced holds a value', node.get('line'))
        return Ref(loc + ('o',))
    if m == 'value_or':
        d = a(0)
        return E.branch(st, v.has, lambda s: v.val, lambda s: d)
    if m == 'reset':
        E.set(loc, Opt(z3.BoolVal(False), v.val, v.ty), st)
        return VOID
    if m in ('operator=', 'emplace'):
        x = a(0)
        if isinstance(x, Opaque) and 'nullopt' in x.name:
            x = Opt(z3.BoolVal(False), v.val, v.ty)
        elif not isinstance(x, Opt):
            x = Opt(z3.BoolVal(True), x, v.ty)
        E.set(loc, x, st)
        return Ref(loc)
    raise Unsupported(f'optional::{m}')


def is_opq(name):
    return (name or '').startswith(('std::basic_string', 'std::basic_ostream', 'std::basic_stringstream', 'std::exception', 'std::runtime_error', 'fmt::',
                                    'std::allocator', 'std::error_code', 'std::hash', 'std::defer_lock_t', 'std::nullopt_t', 'std::mersenne', 'indicators::',
                                    'std::__cxx11::basic_string'))


# ------------------------------------------------------------------ entry points
def call(E, fn, this, argnodes, st, node):
    name = fn['name']
    rec = fn.get('rec') or ''
    m = short(name)
    node = {'args': argnodes, 'line': (node or {}).get('line')}

    def a(i):
        return E.ev(argnodes[i], st)

    def al(i):
        return E.lv(argnodes[i], st)

    if this is not None and rec.startswith('std::hash') and m == 'operator()':
        return hash_of(E, a(0), fn, st)
    if this is not None:
        try:
            v = E.get(this, st)
        except Unsupported:
            if m == 'operator=' and len(argnodes) == 1:
                E.set(this, a(0), st)
                return Ref(this)
            raise
        loc = this
        while isinstance(v, Ptr) and not (rec in PTRS or rec.startswith('std::__shared')):
            loc = E.deref(v, st)
            v = E.get(loc, st)
        if isinstance(v, Vec):
            return vec_method(E, m, loc, v, a, st, node, fn)
        if isinstance(v, Map):
            return map_method(E, m, loc, v, a, st, node, fn)
        if isinstance(v, Bag):
            return bag_method(E, m, loc, v, a, st, node, fn)
        if isinstance(v, Opt):
            return opt_method(E, m, loc, v, a, st, node, fn)
        if isinstance(v, Ptr):
            return ptr_method(E, m, loc, v, a, st, node)
        if rec in PTRS and m in ('get', 'operator->', 'operator*'):
            return Ptr([(z3.BoolVal(True), loc)], fn['ret']) if m != 'operator*' else Ref(loc)
        if isinstance(v, Iter):
            if m == 'operator*':
                return Ref(iter_deref(E, v, st, node))
            if m == 'operator->':
                return Ptr([(z3.BoolVal(True), iter_deref(E, v, st, node))], fn['ret'])
            if m in ('operator++', 'operator--'):
                w = iter_add(E, v, I(1 if m == 'operator++' else -1), st)
                E.set(loc, w, st)
                return v if argnodes else Ref(loc)
            if m in ('operator+', 'operator-') and len(argnodes) == 1:
                d = a(0)
                if isinstance(d, Iter):
                    return v.pos - d.pos
                return iter_add(E, v, d if m == 'operator+' else -d, st)
            if m in ('operator+=', 'operator-='):
                d = a(0)
                E.set(loc, iter_add(E, v, d if m == 'operator+=' else -d, st), st)
                return Ref(loc)
            if m == 'operator=':
                E.set(loc, a(0), st)
                return Ref(loc)
            if m in ('operator==', 'operator!=', 'operator<'):
                return iter_cmp(E, m[8:], v, a(0), st)
        if rec in ('std::atomic', 'std::__atomic_base') and isinstance(v, z3.ExprRef):
            t = fn['ret'] if fn['ret'].c == 'int' else UINT64
            if m == 'load' or m.startswith('operator ') or m.startswith('operator unsigned') or m == 'operator __integral_type':
                return v
            if m in ('operator++', 'fetch_add'):
                d = a(0) if m == 'fetch_add' else I(1)
                E.set(loc, E.arith('+', v, d, UINT64, st, node.get('line')), st)
                return v if (argnodes or m == 'fetch_add') else E.get(loc, st)
            if m in ('store', 'operator='):
                E.set(loc, a(0), st)
                return VOID
        if E.locks and (rec in LOCKS or rec in ('std::shared_mutex', 'std::mutex')):
            return E.locks.method(m, rec, loc, v, a, st, node)
        if isinstance(v, Lam) and m == 'operator()':
            return E.call_lambda(v, E.bind_args(fn['params'], argnodes, st), st)
        if isinstance(v, Rec) and m == 'operator=' and len(argnodes) == 1:
            x = a(0)
            E.set(loc, x, st)
            return Ref(loc)
        if isinstance(v, Opaque):
            return opaque_method(E, m, rec, loc, v, a, st, node, fn)
        raise Unsupported(f'method {name} on {type(v).__name__}')
    return free_call(E, fn, m, argnodes, a, al, st, node)


def ptr_method(E, m, loc, v, a, st, node):
    if m == 'operator->' or m == 'get':
        return v
    if m == 'operator*':
        E.oblige(st, lnot(v.null), 'null', 'dereferenced pointer is not null', node.get('line'))
        return Ref(E.deref(v, st))
    if m == 'operator bool':
        return lnot(v.null)
    if m == 'reset' and not node['args']:
        E.set(loc, Ptr([], v.ty, z3.BoolVal(True)), st)
        return VOID
    if m == 'operator=':
        E.set(loc, a(0), st)
        return Ref(loc)
    raise Unsupported(f'pointer method {m}')


def opaque_method(E, m, rec, loc, v, a, st, node, fn):
    h = E.opaque_hook
    if h is not None:
        r = h(E, m, rec, loc, v, a, st, node, fn)
        if r is not NotImplemented:
            return r
    if m == 'operator=':
        x = a(0)
        E.set(loc, x, st)
        return Ref(loc)
    if rec in LOCKS or rec in ('std::shared_mutex', 'std::mutex'):
        return VOID
    if v.name.startswith('std::mersenne'):
        E.set(loc, Opaque(v.name, ()), st)      # a draw: the state is no longer known
    if rec == 'std::hash' or v.name.startswith('std::hash'):
        return hash_of(E, a(0), fn, st)
    ret = fn.get('ret')
    if is_opq(rec):
        for x in range(len(node['args'])):
            try:
                a(x)
            except Unsupported:
                pass
        if ret is None or ret.c == 'void':
            return VOID
        if ret.c == 'ref' and ret.strip().name == rec:
            return Ref(loc)
        if m == 'what' or ret.c in ('ptr',) or (ret.c == 'rec' and E.prog.recs.get(ret.usr) is None) or ret.c == 'ref':
            return Opaque(E.fname(m))
        return E.fresh(ret, m, st)
    raise Unsupported(f'{rec}::{m}')


def hash_of(E, x, fn, st):
    ty = fn['params'][0].strip() if fn.get('params') else None
    t = E.pack(x, ty, st) if not isinstance(x, z3.ExprRef) else x
    f = z3.Function(f'std_hash_{t.sort()}', t.sort(), IntS)
    r = f(t)
    E.note_range(r, (0, (1 << 64) - 1), st)
    return r


def free_call(E, fn, m, argnodes, a, al, st, node):
    name = fn['name']
    n = len(argnodes)
    line = node.get('line')
    if name in ('std::move', 'std::forward', 'std::as_const'):
        return Ref(al(0)) if argnodes[0].get('lv') or argnodes[0].get('xv') else a(0)
    if name == 'std::make_optional':
        x = a(0)
        return Opt(z3.BoolVal(True), x, fn['ret'])
    if name in ('std::make_shared', 'std::make_unique'):
        t = fn['targs'][0]
        if t.c == 'rec' and (t.name in ('std::shared_mutex', 'std::mutex') or E.rec_fields(t) is None and t.name not in VECS):
            for i in range(n):
                E.ev(argnodes[i], st)
            l = E.new_cell(st, Opaque(E.fname(t.name)))
            return Ptr([(z3.BoolVal(True), l)], fn['ret'])
        v = E.construct_from_values(t, [a_ref(E, z, st) for z in argnodes], st)
        if name == 'std::make_unique':
            return v
        return Ptr([(z3.BoolVal(True), E.new_cell(st, v))], fn['ret'])
    if name == 'std::make_pair':
        return Rec('std::pair', {'first': a(0), 'second': a(1)}, fn['ret'])
    if name in ('std::min', 'std::max') and n == 2:
        x, y = a(0), a(1)
        return ite(y < x, y, x) if name == 'std::min' else ite(x < y, y, x)
    if name in ('std::min', 'std::max') and n == 3:
        lx, ly = al(0), al(1)
        f = a(2)
        p, q = (ly, lx) if name == 'std::min' else (lx, ly)
        c = call_callable(E, f, [Ref(p), Ref(q)], st)
        x, y = E.get(lx, st), E.get(ly, st)
        return E.branch(st, c, lambda s: y, lambda s: x)
    if name in ('std::min_element', 'std::max_element', 'std::minmax'):
        raise Unsupported(name)
    if name in ('memcpy', 'std::memcpy') and n == 3:
        p, q, k = a(0), a(1), a(2)
        lp, lq = [E.deref(x, st) if isinstance(x, Ptr) else x.loc for x in (p, q)]
        td, ts = [E.cell_ty.get(l.root, (None,))[0] if not l.path else None for l in (lp, lq)]
        if td is None or ts is None or td.strip().c != 'int' or ts.strip().c != 'int' or not z3.is_int_value(k) or not k.as_long() * 8 == td.strip().bits == ts.strip().bits:
            raise Unsupported('memcpy')
        E.set(lp, E.conv_int(E.get(lq, st), td.strip(), st), st)
        return p
    if name == 'std::swap':
        l1, l2 = al(0), al(1)
        x, y = E.get(l1, st), E.get(l2, st)
        E.set(l1, y, st)
        E.set(l2, x, st)
        return VOID
    if name in ('std::abs', 'abs', 'labs', 'std::labs', 'std::fabs', 'fabs', 'llabs'):
        x = a(0)
        t = fn['ret']
        if t.c == 'int':
            lo, hi = irange(t)
            E.oblige(st, x > lo, 'overflow', f'abs does not overflow {t}', line)
            l, h = E.rng(x, 0, st)
            r = ite(x >= 0, x, -x)
            if l is not None and h is not None:
                E.note_range(r, (0, max(abs(l), abs(h))), st, True)
            return r
        return ite(x >= 0, x, -x)
    if name in ('round', 'std::round', 'lround', 'std::lround', 'llround', 'std::llround'):
        x = a(0)
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            n = x.arg(0)
        else:
            n = z3.Function('round', RealS, IntS)(x)
            h = z3.RealVal('1/2')
            rn = z3.ToReal(n)
            E.note_fact(x, ite(x >= 0, land(rn - h <= x, x < rn + h), land(rn - h < x, x <= rn + h)), st)
        return n if 'l' in name.split('::')[-1] else z3.ToReal(n)
    if name in ('floor', 'std::floor'):
        return z3.ToReal(z3.ToInt(a(0)))
    if name in ('ceil', 'std::ceil'):
        return -z3.ToReal(z3.ToInt(-a(0)))
    if name in ('sqrt', 'std::sqrt'):
        x = a(0)
        E.oblige(st, x >= 0, 'domain', 'sqrt of a non-negative value', line)
        r = z3.Function('sqrt', RealS, RealS)(x)
        st.assume(z3.Implies(x >= 0, land(r >= 0, r * r == x)))
        return r
    if name in ('hypot', 'std::hypot') and n == 2:
        x, y = a(0), a(1)
        r = z3.Function('sqrt', RealS, RealS)(x * x + y * y)
        st.assume(land(r >= 0, r * r == x * x + y * y))
        return r
    if name in ('atan2', 'std::atan2'):
        return z3.Function('atan2', RealS, RealS, RealS)(*[z3.ToReal(x) if x.sort() == IntS else x for x in (a(0), a(1))])
    if name.startswith('fmt::') or name in ('strerror_r', '__errno_location'):
        for i in range(n):
            try:
                E.ev(argnodes[i], st)
            except Unsupported:
                pass
        return Opaque(E.fname('string'))
    if name == 'std::begin':
        return iter_begin(E, al(0), st)
    if name == 'std::end':
        return iter_end(E, al(0), st)
    if name in ('std::next', 'std::prev'):
        d = a(1) if n > 1 else I(1)
        it = a(0)
        return iter_add(E, it, d if name == 'std::next' else -d, st)
    if name == 'std::distance':
        return a(1).pos - a(0).pos
    if name == 'std::advance':
        l = al(0)
        E.set(l, iter_add(E, E.get(l, st), a(1), st), st)
        return VOID
    if name == 'std::back_inserter':
        return Iter('back', al(0))
    if name == 'std::reverse':
        i1, i2 = a(0), a(1)
        v = E.get(i1.loc, st)
        lo, hi = i1.pos, i2.pos

        def facts(r):
            i = z3.Int('qi')
            return [z3.ForAll([i], z3.Implies(land(i >= 0, i < v.len), r[i] == z3.If(land(i >= lo, i < hi), v.arr[lo + hi - 1 - i], v.arr[i])), patterns=[r[i]])]
        E.set(i1.loc, new_vec(E, st, v.ety, v.len, facts, 'rev'), st)
        return VOID
    if name == 'std::remove':
        i1, i2 = a(0), a(1)
        x = a(2)
        v = E.get(i1.loc, st)
        if not (z3.is_int_value(i1.pos) and i1.pos.as_long() == 0 and i2.pos.eq(v.len)):
            raise Unsupported('std::remove on part of a vector')
        xt = E.pack(x, v.ety, st)
        mlen, r, src = filtered(E, st, v, lambda el: el != xt)
        E.set(i1.loc, Vec(v.len, r, v.ety), st)
        return Iter('vec', i1.loc, mlen)
    if name in ('std::remove_if', 'std::copy_if') and n == (3 if name == 'std::remove_if' else 4):
        i1, i2 = a(0), a(1)
        v, lo, hi = range_of(E, i1, i2, st)
        if not (z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(v.len)):
            raise Unsupported(name + ' on part of a vector')
        f = a(n - 1)
        r, facts, (x,) = lam_formula(E, f, v.ety, st, 1, v)

        def keep(el):
            q = z3.substitute(r, (x, el))
            fs = [z3.substitute(z, (x, el)) for z in facts]
            q = land(*fs, q) if name == 'std::copy_if' else lor(lnot(q))
            return q
        mlen, arr, src = filtered(E, st, v, keep)
        if name == 'std::remove_if':
            E.set(i1.loc, Vec(v.len, arr, v.ety), st)
            return Iter('vec', i1.loc, mlen)
        o = a(2)
        if o.kind != 'back':
            raise Unsupported('copy_if target')
        t = E.get(o.loc, st)
        E.set(o.loc, concat(E, st, t, t.len, Vec(mlen, arr, v.ety), I(0), mlen), st)
        return o
    if name == 'std::sort' or name == 'std::stable_sort':
        i1, i2 = a(0), a(1)
        f = a(2) if n > 2 else None
        v = E.get(i1.loc, st)
        if not (z3.is_int_value(i1.pos) and i1.pos.as_long() == 0 and i2.pos.eq(v.len)):
            raise Unsupported('sort of part of a vector')
        E.set(i1.loc, sorted_vec(E, st, v, f, line), st)
        return VOID
    if name == 'std::shuffle':
        i1, i2 = a(0), a(1)
        v = E.get(i1.loc, st)
        if not (z3.is_int_value(i1.pos) and i1.pos.as_long() == 0 and i2.pos.eq(v.len)):
            raise Unsupported('shuffle of part of a vector')
        E.set(i1.loc, shuffled(E, st, v, al(2)), st)
        return VOID
    if name in ('std::find', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', 'std::find_if_not'):
        i1, i2 = a(0), a(1)
        v, lo, hi = range_of(E, i1, i2, st)
        if name == 'std::find':
            xt = E.pack(a(2), v.ety, st)
            pred = lambda el: el == xt
        else:
            f = a(2)
            r, facts, (x,) = lam_formula(E, f, v.ety, st, 1, v)
            pred = lambda el: z3.substitute(r, (x, el))
            if name == 'std::count_if':
                raise Unsupported(name)
            if name in ('std::all_of', 'std::find_if_not'):
                p0 = pred
                pred = lambda el: lnot(p0(el))
        p = z3.Int(E.fname('found'))
        i = z3.Int('qi')
        st.assume(land(p >= lo, p <= hi))
        st.assume(z3.Implies(p < hi, pred(v.arr[p])))
        st.assume(z3.ForAll([i], z3.Implies(land(i >= lo, i < p), lnot(pred(v.arr[i]))), patterns=[v.arr[i]]))
        if name in ('std::find', 'std::find_if', 'std::find_if_not'):
            return Iter(i1.kind, i1.loc, p, extra=i1.extra)
        return p < hi if name == 'std::any_of' else p == hi
    if name == 'std::accumulate' or name == 'std::transform' or name == 'std::for_each':
        raise Unsupported(name)
    if name == 'std::copy' and n == 3:
        v, lo, hi = range_of(E, a(0), a(1), st)
        o = a(2)
        if o.kind == 'back':
            t = E.get(o.loc, st)
            E.set(o.loc, concat(E, st, t, t.len, v, lo, hi), st)
            return o
    if name in ('omp_get_num_threads', 'omp_get_thread_num', 'omp_get_max_threads'):
        x = z3.Int(E.fname(name))
        r = (1, 1 << 20) if 'num_threads' in name or 'max' in name else (0, 1 << 20)
        E.set_rng(x, r)
        st.assume(land(x >= r[0], x <= r[1]))
        return x
    if name in ('memcpy', 'std::memcpy'):
        # only the reinterpretation of one integer as another of the same width
        d, s = argnodes[0], argnodes[1]

        def target(e):
            while e['k'] == 'Cast':
                e = e['e']
            if e['k'] == 'Unary' and e['op'] == '&':
                return e['e']
            raise Unsupported('memcpy')
        dn, sn = target(d), target(s)
        dt, stt = dn['t'].strip(), sn['t'].strip()
        ln = E.ev(argnodes[2], st)
        if dt.c == 'int' and stt.c == 'int' and dt.bits == stt.bits and z3.is_int_value(ln) and ln.as_long() * 8 == dt.bits:
            v = E.ev({'k': 'Load', 'e': sn, 't': stt}, st)
            E.set(E.lv(dn, st), E.conv_int(v, dt, st), st)
            return VOID
        raise Unsupported('memcpy')
    if name in ('std::operator==', 'std::operator!=') or m in ('operator==', 'operator!='):
        x, y = a(0), a(1)
        r = eq_values(E, x, y, st)
        return r if m == 'operator==' else lnot(r)
    if name.startswith('std::numeric_limits') or m in ('max', 'min') and 'numeric_limits' in name:
        t = fn['ret']
        lo, hi = irange(t)
        return I(hi if m == 'max' else lo)
    if name in ('std::get',):
        raise Unsupported(name)
    raise Unsupported(f'call of {name}')


def filtered(E, st, v, keep):
    """Order-preserving filter: (length, array, source index function)."""
    v = E.flat(v, st)
    ml = z3.Int(E.fname('flen'))
    r = z3.Const(E.fname('flt'), v.arr.sort())
    src = z3.Const(E.fname('src'), z3.ArraySort(IntS, IntS))
    dst = z3.Const(E.fname('dst'), z3.ArraySort(IntS, IntS))
    i, j = z3.Int('qi'), z3.Int('qj')
    st.assume(land(ml >= 0, ml <= v.len))
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < ml), land(src[i] >= 0, src[i] < v.len, r[i] == v.arr[src[i]], keep(v.arr[src[i]]), dst[src[i]] == i)), patterns=[r[i]]))
    st.assume(z3.ForAll([j], z3.Implies(land(j >= 0, j < v.len, keep(v.arr[j])), land(dst[j] >= 0, dst[j] < ml, src[dst[j]] == j, r[dst[j]] == v.arr[j])), patterns=[v.arr[j]]))
    st.assume(z3.ForAll([i, j], z3.Implies(land(i >= 0, i < j, j < ml), src[i] < src[j]), patterns=[z3.MultiPattern(src[i], src[j])]))
    return ml, r, src


def permuted(E, st, v):
    v = E.flat(v, st)
    r = z3.Const(E.fname('perm'), v.arr.sort())
    p = z3.Const(E.fname('p'), z3.ArraySort(IntS, IntS))
    q = z3.Const(E.fname('q'), z3.ArraySort(IntS, IntS))
    i = z3.Int('qi')
    n = v.len
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(p[i] >= 0, p[i] < n, r[i] == v.arr[p[i]], q[p[i]] == i)), patterns=[r[i]]))
    st.assume(z3.ForAll([i], z3.Implies(land(i >= 0, i < n), land(q[i] >= 0, q[i] < n, p[q[i]] == i, r[q[i]] == v.arr[i])), patterns=[v.arr[i]]))
    st.ghost[('perm', r.get_id())] = (p, q, v, r)
    return Vec(n, r, v.ety)


def shuffled(E, st, v, gloc):
    """A permutation that depends on nothing but the elements and the state of the generator, which it moves on."""
    v = E.flat(v, st)
    g = E.get(gloc, st)
    w = permuted(E, st, v)
    if isinstance(g, Opaque) and g.name.startswith('std::mersenne') and len(g.args) == 1 and isinstance(g.args[0], z3.ExprRef):
        x = g.args[0]
        if x.sort() == IntS:
            x = z3.Function('mt_seeded', IntS, z3.DeclareSort('mt_state'))(x)
        f = z3.Function(f'shuffled_{v.arr.sort().range()}', v.arr.sort(), IntS, x.sort(), v.arr.sort())
        st.assume(w.arr == f(v.arr, v.len, x))
        E.set(gloc, Opaque(g.name, (z3.Function('mt_after', x.sort(), IntS, x.sort())(x, v.len),)), st)
    else:
        E.set(gloc, Opaque('std::mersenne', ()), st)
    return w


def sorted_vec(E, st, v, f, line):
    w = permuted(E, st, v)
    if isinstance(f, Lam):
        r, facts, (x, y) = lam_formula(E, f, v.ety, st, 2, v)
        E.sort_calls.append((E.frames[-1].fn['name'] if E.frames else '', f, r, facts, (x, y), v, w, st.clone()))
        i, j = z3.Int('qi'), z3.Int('qj')
        sub = [(x, w.arr[j]), (y, w.arr[i])]
        fs = [z3.substitute(z, *sub) for z in facts]
        st.assume(z3.ForAll([i, j], z3.Implies(land(i >= 0, i < j, j < w.len, *fs), lnot(z3.substitute(r, *sub))), patterns=[z3.MultiPattern(w.arr[i], w.arr[j])]))
    else:
        raise Unsupported('sort comparator')
    return w


def eq_values(E, x, y, st):
    if isinstance(x, Vec) and isinstance(y, Vec):
        return vec_eq(E, x, y, st)
    if isinstance(x, Iter) and isinstance(y, Iter):
        return iter_cmp(E, '==', x, y, st)
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        return E.compare('==', x, y, st)
    if isinstance(x, Ptr) and isinstance(y, Ptr) and not y.alts:
        return x.null
    if isinstance(x, Ptr) and isinstance(y, Ptr) and not x.alts:
        return y.null
    if isinstance(x, Opt) and isinstance(y, Opaque) and 'nullopt' in y.name:
        return lnot(x.has)
    if isinstance(x, Rec) and isinstance(y, Rec) and x.name == y.name == 'std::pair':
        return land(*[eq_values(E, x.f[n], y.f[n], st) for n in x.f])
    if isinstance(x, Rec) and isinstance(y, Rec) and x.name == y.name:
        if x.name + '::operator==' in E.contracts or set(x.f) != {'#t'}:
            return E.call_pure(x.name + '::operator==', x, [y], st)
        if x.name == 'Coordinate':
            return x.f['#t'] == y.f['#t']
    raise Unsupported(f'== of {type(x).__name__}, {type(y).__name__}')


def opcall(E, e, fn, st):
    op, args = e['op'], e['args']
    name = fn['name']
    if op in ('==', '!=', '<', '<=', '>', '>='):
        x, y = E.ev(args[0], st), E.ev(args[1], st)
        if isinstance(x, Iter) and isinstance(y, Iter):
            return iter_cmp(E, op, x, y, st)
        if op in ('==', '!='):
            r = eq_values(E, x, y, st)
            return r if op == '==' else lnot(r)
        raise Unsupported('operator ' + op)
    if op == '-' and len(args) == 2:
        x = E.ev(args[0], st)
        y = E.ev(args[1], st)
        if isinstance(x, Iter) and isinstance(y, Iter):
            return x.pos - y.pos
        if isinstance(x, Iter):
            return iter_add(E, x, -y, st)
    if op == '+' and len(args) == 2 and not e.get('member'):
        x = E.ev(args[0], st)
        y = E.ev(args[1], st)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque(E.fname('string'))
    if op == '<<' and not e.get('member'):
        l = E.lv(args[0], st)
        try:
            E.ev(args[1], st)
        except Unsupported:
            pass
        return Ref(l)
    if op == '->' :
        # smart pointer or iterator
        l = E.lv(args[0], st)
        v = E.get(l, st)
        if isinstance(v, Ptr):
            if not z3.is_false(v.null):
                E.oblige(st, lnot(v.null), 'null', 'dereferenced pointer is not null', e.get('line'))
            return v
        if isinstance(v, Iter):
            return Ptr([(z3.BoolVal(True), iter_deref(E, v, st, e))], e['t'])
        if isinstance(v, Opt):
            E.oblige(st, v.has, 'bounds', 'optional dereferenced holds a value', e.get('line'))
            return Ptr([(z3.BoolVal(True), l + ('o',))], e['t'])
        return Ptr([(z3.BoolVal(True), l)], e['t'])   # unique_ptr is its pointee
    if op == '*' and len(args) == 1:
        l = E.lv(args[0], st)
        v = E.get(l, st)
        if isinstance(v, Ptr):
            E.oblige(st, lnot(v.null), 'null', 'dereferenced pointer is not null', e.get('line'))
            return Ref(E.deref(v, st))
        if isinstance(v, Iter):
            return Ref(iter_deref(E, v, st, e))
        if isinstance(v, Opt):
            return opt_method(E, 'operator*', l, v, None, st, {'args': [], 'line': e.get('line')}, fn)
        return Ref(l)
    if e.get('member'):
        this = E.lv(args[0], st)
        return call(E, fn, this, args[1:], st, e)
    return call(E, fn, None, args, st, e)


def construct(E, e, t, args, st):
    n = t.name
    if n in VECS or n in HMAPS or n in SETS or n in ('std::multimap', 'std::priority_queue', 'std::optional', 'std::pair', 'std::atomic'):
        vals = None
        args = [x for x in args if not (x['t'].strip().name or '').startswith('std::allocator') and not (x['t'].strip().name or '').startswith('std::hash') and not (x['t'].strip().name or '').startswith('std::equal_to')]
        if not args:
            return default(E, t, st)
        if n == 'std::atomic':
            return E.ev(args[0], st)
        if n == 'std::priority_queue':
            b = default(E, t, st)
            b.cmp = E.ev(args[0], st)
            return b
        if n == 'std::optional':
            x = E.ev(args[0], st)
            if isinstance(x, Opt):
                return x
            if isinstance(x, Opaque) and 'nullopt' in x.name:
                return default(E, t, st)
            return Opt(z3.BoolVal(True), coerce(x, t.args[0]), t)
        if n == 'std::pair':
            if len(args) == 2:
                return Rec('std::pair', {'first': coerce(E.ev(args[0], st), t.args[0]), 'second': coerce(E.ev(args[1], st), t.args[1])}, t)
            return E.ev(args[0], st)
        if n in VECS:
            ety = t.args[0]
            first = E.ev(args[0], st)
            if isinstance(first, Vec):
                return Vec(first.len, first.arr, ety)
            if isinstance(first, Iter):
                w, lo, hi = range_of(E, first, E.ev(args[1], st), st)
                return concat(E, st, Vec(I(0), w.arr, ety), I(0), w, lo, hi)
            if isinstance(first, z3.ExprRef) and first.sort() == IntS:
                x = E.ev(args[1], st) if len(args) > 1 else E.default_value(ety, st, True)
                return Vec(first, z3.K(IntS, E.pack(x, ety, st)), ety)
        if n in SETS or n in HMAPS:
            first = E.ev(args[0], st)
            if isinstance(first, Map):
                return first
            if isinstance(first, Vec) or isinstance(first, Iter):
                if isinstance(first, Iter):
                    w, lo, hi = range_of(E, first, E.ev(args[1], st), st)
                else:
                    w, lo, hi = first, I(0), first.len
                if n in SETS:
                    l = E.new_cell(st, default(E, t, st))
                    k = z3.simplify(hi)
                    if z3.is_int_value(k) and z3.is_int_value(lo) and k.as_long() <= 16:
                        for i in range(lo.as_long(), k.as_long()):
                            map_put(E, l, key(E, E.vec_get(w, I(i), st), st), None, st)
                        return E.get(l, st)
                    m = E.get(l, st)
                    d2 = z3.Const(E.fname('dom'), m.dom.sort())
                    sz = z3.Int(E.fname('size'))
                    i = z3.Int('qi')
                    x = z3.Const('ex', m.dom.sort().domain())
                    wit = z3.Const(E.fname('wit'), z3.ArraySort(m.dom.sort().domain(), IntS))
                    st.assume(z3.ForAll([i], z3.Implies(land(i >= lo, i < hi), d2[w.arr[i]]), patterns=[w.arr[i]]))
                    st.assume(z3.ForAll([x], z3.Implies(d2[x], land(wit[x] >= lo, wit[x] < hi, w.arr[wit[x]] == x)), patterns=[d2[x]]))
                    st.assume(sz >= 0)
                    return Map(m.kty, None, d2, None, sz)
            if isinstance(first, z3.ExprRef):
                return default(E, t, st)   # bucket count
    if n in ('std::shared_ptr', 'std::unique_ptr'):
        if not args:
            return Ptr([], t, z3.BoolVal(True))
        v = E.ev(args[0], st)
        return v
    if n in ITER_RECS or n.startswith('__gnu_cxx::__normal_iterator') or n.startswith('std::_Rb_tree') or n.startswith('std::__detail::_Node'):
        if args:
            return E.ev(args[0], st)
    if E.locks and n in LOCKS:
        return E.locks.construct(t, args, st, e.get('line'))
    if is_opq(n) or n in LOCKS or n in ('std::shared_mutex', 'std::mutex') or n.startswith('std::'):
        h = E.opaque_ctor_hook
        if h is not None:
            r = h(E, e, t, args, st)
            if r is not NotImplemented:
                return r
        vals = []
        for x in args:
            try:
                vals.append(E.ev(x, st))
            except Unsupported:
                pass
        return Opaque('std::nullopt_t' if 'nullopt' in n else (n if not n.startswith('std::basic_string') else E.fname('string')), tuple(vals))
    if t.lam and args:
        return E.ev(args[0], st)
    raise Unsupported(f'construct {t}')
