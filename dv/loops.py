"""Loops: constant-trip loops are unrolled completely; every other loop is cut by invariants.

Invariants are candidate formulas (generic ones here, property-specific ones from E.providers).  A
candidate is kept only if the obligations 'holds on entry' and 'is preserved' are discharged; the
driver (solve.py) drops the ones that are not and regenerates, so what remains is inductive."""
import z3
from .engine import *
from .engine import _fresh
from . import stl, parallel


class Leaf:
    """A part of the state the loop body may change."""
    __slots__ = ('root', 'path', 'kind', 'ty', 'name', 'old', 'delta')

    def __init__(self, root, path, kind, ty, name, old):
        self.root, self.path, self.kind, self.ty, self.name, self.old = root, path, kind, ty, name, old
        self.delta = None           # change over one iteration, when it is the same constant on every path

    def ident(self):
        return (self.root, self.path, self.kind)


class Loop:
    def __init__(self, E, node, entry, leaves, kcell, rng, head=None):
        self.E, self.node, self.entry, self.leaves, self.kcell, self.rng, self.head = E, node, entry, leaves, kcell, rng, head
        self.fn = E.frames[-1].fn
        self.frame = E.frames[-1]
        self.bound = None

    def k(self, st):
        return st.env[self.kcell]

    def roots(self):
        seen = []
        for l in self.leaves:
            if l.root not in seen:
                seen.append(l.root)
        return seen

    def get(self, leaf, st):
        v = st.env[leaf.root]
        return walk_get(self.E, v, leaf.path, st)

    def values(self, cls, pred=None):
        """(root, path) of modified values of a class, e.g. every modified Vec."""
        out = []
        seen = set()
        for l in self.leaves:
            p = l.path
            while True:
                try:
                    v = walk_get(self.E, self.entry.env[l.root], p, self.entry)
                except Exception:
                    break
                if isinstance(v, cls) and (l.root, p) not in seen and (pred is None or pred(v)):
                    seen.add((l.root, p))
                    out.append((l.root, p))
                if not p:
                    break
                p = p[:-1]
        return out

    def at(self, rp, st):
        return walk_get(self.E, st.env[rp[0]], rp[1], st)

    def local(self, name, st):
        for key in self.frame.locals.values():
            t = self.E.cell_ty.get(key)
            if t and t[1] == name and key in st.env:
                return self.E.get(Loc(key), st)
        return None

    def locals_of(self, pred):
        """Frame locals (and parameters) whose type satisfies pred: [(name, Loc)]."""
        out = []
        for key in self.frame.locals.values():
            t = self.E.cell_ty.get(key)
            if t and pred(t[0].strip()):
                out.append((t[1], Loc(key)))
        return out


def walk_get(E, v, path, st):
    if isinstance(v, Ref):
        v = E.get(v.loc, st)
    for el in path:
        if el[0] == 'f':
            if isinstance(v, Ptr):
                v = E.deref_value(v, st)
            v = v.f[el[1]]
        elif el[0] == 'o':
            v = v.val
        elif el[0] == 'p':
            v = E.deref_value(v, st)
        else:
            raise Unsupported('walk')
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


def diff(E, root, a, b, path, ty, name, out, sa, sb):
    if a is b:
        return
    if isinstance(a, z3.ExprRef):
        if not a.eq(b):
            out.append(Leaf(root, path, 'val', ty, name, a))
        return
    if type(a) is not type(b):
        raise Unsupported(f'loop changes the shape of {name}')
    if isinstance(a, Rec):
        fts = dict(E.rec_fields(a.ty)) if a.ty is not None and a.ty.name != 'std::pair' and E.rec_fields(a.ty) else {}
        for f in a.f:
            diff(E, root, a.f[f], b.f[f], path + (('f', f),), fts.get(f), name, out, sa, sb)
        return
    if isinstance(a, Vec):
        if not a.len.eq(b.len):
            out.append(Leaf(root, path, 'len', ty, name, a))
        if not a.arr.eq(b.arr):
            out.append(Leaf(root, path, 'arr', ty, name, a))
        return
    if isinstance(a, Map):
        if not a.dom.eq(b.dom) or not a.size.eq(b.size):
            out.append(Leaf(root, path, 'dom', ty, name, a))
        if a.vty is not None and not a.val.eq(b.val):
            out.append(Leaf(root, path, 'mval', ty, name, a))
        return
    if isinstance(a, Bag):
        if not a.cnt.eq(b.cnt):
            out.append(Leaf(root, path, 'cnt', ty, name, a))
        return
    if isinstance(a, Opt):
        if not a.has.eq(b.has):
            out.append(Leaf(root, path, 'has', ty, name, a))
        inner = a.val if a.val is not None else None
        diff(E, root, a.val, b.val, path + (('o',),), None, name, out, sa, sb)
        return
    if isinstance(a, Iter):
        if a.kind == b.kind and a.pos is not None and b.pos is not None:
            if not a.pos.eq(b.pos):
                out.append(Leaf(root, path, 'pos', ty, name, a))
            return
        raise Unsupported('loop modifies an iterator')
    if isinstance(a, Ref):
        if repr(a.loc) != repr(b.loc):
            raise Unsupported('loop changes a reference')
        return
    if isinstance(a, Ptr):
        if [repr(l) for _, l in a.alts] != [repr(l) for _, l in b.alts]:
            out.append(Leaf(root, path, 'ptr', ty, name, a))
        return
    if isinstance(a, (Opaque, Lam, Void)):
        out.append(Leaf(root, path, 'opaque', ty, name, a))
        return
    raise Unsupported(f'loop modifies {type(a).__name__}')


def fresh_like(E, t, name):
    return z3.Const(E.fname(name), t.sort())


def havoc_value(E, v, path, leaf, st):
    if path:
        el = path[0]
        if el[0] == 'f':
            f = dict(v.f)
            f[el[1]] = havoc_value(E, v.f[el[1]], path[1:], leaf, st)
            return Rec(v.name, f, v.ty)
        if el[0] == 'o':
            return Opt(v.has, havoc_value(E, v.val, path[1:], leaf, st), v.ty)
        raise Unsupported('havoc path')
    n = leaf.name or 'v'
    k = leaf.kind
    if k == 'val':
        x = fresh_like(E, v, n)
        if v.sort() == IntS and leaf.ty is not None:
            t = leaf.ty.strip()
            if t.c in ('int', 'enum') :
                r = E.trange(t)
                E.set_rng(x, r)
                st.assume(land(x >= r[0], x <= r[1]))
            elif t.c == 'rec' and t.name in ('std::atomic', 'std::__atomic_base'):
                E.set_rng(x, (0, (1 << 64) - 1))
                st.assume(land(x >= 0, x < (1 << 64)))
        return x
    if k == 'len':
        x = z3.Int(E.fname(n + '.len'))
        E.set_rng(x, (0, 1 << 40))
        st.assume(land(x >= 0, x <= 1 << 40))
        return Vec(x, v.arr, v.ety)
    if k == 'arr':
        return Vec(v.len, fresh_like(E, v.arr, n + '.arr'), v.ety)
    if k == 'dom':
        x = z3.Int(E.fname(n + '.size'))
        st.assume(land(x >= 0, x <= 1 << 40))
        return Map(v.kty, v.vty, fresh_like(E, v.dom, n + '.dom'), v.val, x)
    if k == 'mval':
        return Map(v.kty, v.vty, v.dom, fresh_like(E, v.val, n + '.val'), v.size)
    if k == 'cnt':
        x = z3.Int(E.fname(n + '.size'))
        st.assume(x >= 0)
        c = fresh_like(E, v.cnt, n + '.cnt')
        return Bag(v.ety, c, x, v.cmp)
    if k == 'has':
        return Opt(z3.Bool(E.fname(n + '.has')), v.val, v.ty)
    if k == 'pos':
        return Iter(v.kind, v.loc, z3.Int(E.fname(n + '.pos')), extra=v.extra)
    if k == 'ptr':
        to = v.ty.args[0] if v.ty.c == 'rec' and v.ty.args else v.ty.to
        l = E.new_cell(st, E.fresh(to, n, st))
        return Ptr([(z3.BoolVal(True), l)], v.ty, z3.Bool(E.fname(n + '.null')))
    if k == 'opaque':
        return Opaque(E.fname(n)) if isinstance(v, Opaque) else v
    raise Unsupported('havoc ' + k)


def havoc(E, st, leaves):
    for l in leaves:
        st.env[l.root] = havoc_value(E, st.env[l.root], l.path, l, st)


# ------------------------------------------------------------------ one iteration
def run_body(E, st, body):
    """Runs body with break/continue scopes; returns (states continuing, states breaking)."""
    E.loop_stack.append({'breaks': [], 'continues': []})
    outs = []
    try:
        s = st
        try:
            body(s)
            outs.append(s)
        except Dead:
            pass
        fr = E.loop_stack[-1]
        return outs + fr['continues'], fr['breaks']
    finally:
        E.loop_stack.pop()


def join(E, outs):
    if not outs:
        return None
    if len(outs) == 1:
        return outs[0]
    s, _ = E.merge_many([(o, VOID) for o in outs])
    return s


def iteration(E, st, cond, body, inc):
    """(exit state or None, state after one iteration or None, break states) from st."""
    c = cond(st)
    if z3.is_true(c):
        ex = None
        sb = st
    elif z3.is_false(c):
        return st, None, []
    else:
        ex = st.clone()
        E.decide(ex, lnot(c))
        sb = st.clone()
        E.decide(sb, c)
    conts, brks = run_body(E, sb, body)
    nx = join(E, conts)
    if nx is not None:
        try:
            inc(nx)
        except Dead:
            nx = None
    return ex, nx, brks


def adopt(st, s):
    st.env, st.pc, st.ghost = s.env, s.pc, s.ghost


def run_loop(E, node, st, cond, body, inc, kcell, rng=None):
    """Executes a loop; st becomes the state after it."""
    breaks = []
    n = 0
    if node.get('omp'):
        return cut_loop(E, node, st, cond, body, inc, kcell, rng, breaks)
    # complete unrolling while the condition is decided syntactically
    while True:
        probe = st.clone()
        c = cond(probe)
        if z3.is_false(c):
            adopt(st, probe)
            return finish(E, st, breaks, True)
        if not z3.is_true(c) or n >= E.unroll_limit:
            break
        conts, brks = run_body(E, probe, body)
        breaks += brks
        nx = join(E, conts)
        if nx is None:
            return finish(E, st, breaks, False)
        inc(nx)
        adopt(st, nx)
        n += 1
    if E.sym_unroll and (rng is None or E.unroll_ranges) and not (E.unroll_inner and has_loop(node['body'])):
        r = symbolic_unroll(E, node, st, cond, body, inc, breaks)
        if r is not None:
            return r
    cut_loop(E, node, st, cond, body, inc, kcell, rng, breaks)


def has_loop(n):
    if isinstance(n, dict):
        return n.get('k') in ('For', 'While', 'Do', 'RangeFor') or any(has_loop(v) for v in n.values())
    return isinstance(n, list) and any(has_loop(v) for v in n)


def finish(E, st, breaks, normal):
    outs = ([st.clone()] if normal else []) + breaks
    s = join(E, outs)
    if s is None:
        raise Dead()
    adopt(st, s)
    return True


def infeasible_with(E, st, c):
    if not E.unroll_inner:
        return E.infeasible_with(st, c)
    return qf_check(st, c) == z3.unsat


def qf_check(st, c):
    s = z3.Solver()
    s.set('timeout', 500)
    for p in st.pc:
        if not has_quant(p):
            s.add(p)
    s.add(c)
    return s.check()


def long_run(E, st, cond):
    """The distance to the bound is not small: no use to unroll."""
    q = st.clone()
    c = cond(q)
    if z3.is_not(c):
        c = c.arg(0)
        c = c.arg(0) > c.arg(1) if z3.is_app_of(c, z3.Z3_OP_LE) else c.arg(0) < c.arg(1) if z3.is_app_of(c, z3.Z3_OP_GE) else c
    for ops, d in (((z3.Z3_OP_LT, z3.Z3_OP_LE), 1), ((z3.Z3_OP_GT, z3.Z3_OP_GE), -1)):
        if z3.is_app(c) and c.decl().kind() in ops and c.arg(0).sort() == IntS:
            return qf_check(q, d * (c.arg(1) - c.arg(0)) > E.sym_unroll + 1) == z3.sat
    return False


def symbolic_unroll(E, node, st, cond, body, inc, breaks):
    """Unrolls a loop whose condition is provably false after a few iterations (an unwinding proof, not a bound)."""
    key = ('su', id(node), bool(E.suppress))    # a dry run may start from a special state
    limit = E.loop_info.get(key)
    if limit is None and E.unroll_inner and long_run(E, st, cond):
        limit = E.loop_info[key] = -1
    if limit is None:
        limit = -1
        snap = save(E)
        E.suppress += 1
        nested, E.unrolling = E.unrolling, True
        try:
            s = st.clone()
            for i in range(1, E.sym_unroll + 1):
                c = cond(s)
                if z3.is_false(c) or infeasible_with(E, s, c):
                    limit = i
                    break
                E.decide(s, c) if not z3.is_true(c) else None
                conts, brks = run_body(E, s, body)
                s = join(E, conts)
                if s is None:
                    limit = i + 1
                    break
                inc(s)
        except (Unsupported, Dead):
            pass
        finally:
            E.suppress -= 1
            E.unrolling = nested
            restore(E, snap)
        if limit > 0 and nested:    # in a state of the loop around it, when that is tried: says nothing elsewhere
            pass
        elif limit == 1:          # not even once, here: says nothing about the loop elsewhere
            if E.infeasible(st):
                limit = -1
        else:
            E.loop_info[key] = limit
    if limit < 0:
        return None
    exits = list(breaks)
    s = st.clone()
    for i in range(limit + 1):
        c = cond(s)
        if z3.is_false(c):
            exits.append(s)
            s = None
            break
        if i == limit - 1 or i == limit:
            E.oblige(s, lnot(c), 'unwinding', f'loop ends after {i} iterations', node.get('line'), assume=False)
            E.decide(s, lnot(c))
            exits.append(s)
            s = None
            break
        ex, s, brks = iteration(E, s, lambda q, c=c: c, body, inc)
        if ex is not None:
            exits.append(ex)
        exits += brks
        if s is None:
            break
    r = join(E, exits)
    if r is None:
        raise Dead()
    adopt(st, r)
    return True


def save(E):
    return (len(E.frames[-1].returns), len(E.sinks[-1]), [(len(x['breaks']), len(x['continues'])) for x in E.loop_stack], len(E.sort_calls))


def restore(E, s):
    del E.frames[-1].returns[s[0]:]
    del E.sinks[-1][s[1]:]
    for x, (b, c) in zip(E.loop_stack, s[2]):
        del x['breaks'][b:]
        del x['continues'][c:]
    del E.sort_calls[s[3]:]


def find_mods(E, node, st, cond, body, inc, kcell):
    key = (id(node), len(E.frames))
    names = {}
    leaves = {}
    snap = save(E)
    E.suppress += 1
    try:
        while True:
            s = st.clone()
            havoc(E, s, list(leaves.values()))
            base = s.clone()
            _, nx, brks = iteration(E, s, cond, body, inc)
            new = []
            ends = ([nx] if nx is not None else [])
            for e in ends:      # what changes only on the way out is as before at every head
                for root, a in base.env.items():
                    b = e.env.get(root)
                    if b is None or a is b:
                        continue
                    t = E.cell_ty.get(root, (None, None))
                    if isinstance(root, tuple) and root[0] == 'tmp' and root not in st.env:
                        continue
                    diff(E, root, a, b, (), t[0], t[1] or str(root[0]), new, base, e)
            added = False
            for l in new:
                if l.ident() not in leaves:
                    l.old = None
                    leaves[l.ident()] = l
                    added = True
            if not added:
                for l in leaves.values():
                    l.delta = leaf_delta(E, l, base, nx)
                break
    finally:
        E.suppress -= 1
        restore(E, snap)
    return list(leaves.values())


def leaf_delta(E, l, a, b):
    if b is None or l.kind not in ('val', 'len', 'pos'):
        return None
    try:
        x, y = (walk_get(E, s.env[l.root], l.path, s) for s in (a, b))
    except Exception:
        return None
    f = {'val': lambda v: v, 'len': lambda v: v.len, 'pos': lambda v: v.pos}[l.kind]
    x, y = f(x), f(y)
    if x.sort() != IntS or y.sort() != IntS:
        return None
    d = z3.simplify(y - x)
    return d.as_long() if z3.is_int_value(d) else None


def cut_loop(E, node, st, cond, body, inc, kcell, rng, breaks):
    if node.get('omp') and E.frames[-1].fn.get("omp_unknown"):
        raise Unsupported('an OpenMP directive')
    outer, E.par = E.par, None
    try:
        cut_loop1(E, node, st, cond, body, inc, kcell, rng, breaks, outer)
    finally:
        E.par = outer


def one_iteration(E, L, node, st, cond, body, inc, leaves, head, outer):
    if not node.get('omp'):
        E.par = outer
        return iteration(E, st, cond, body, inc)
    E.par = parallel.Par(E, L, node, head, leaves)
    n = len(E.sinks[-1])
    r = iteration(E, st, cond, body, inc)
    if not E.suppress:
        E.omp_loops += 1
        for x in E.sinks[-1][n:]:
            E.oblige(x[0], z3.BoolVal(False), 'parallel', 'no exception leaves an iteration of a parallel loop', node.get('line'))
        if r[2]:
            raise Unsupported('break out of a parallel loop')
    return r


def cut_loop1(E, node, st, cond, body, inc, kcell, rng, breaks, outer):
    leaves = find_mods(E, node, st, cond, body, inc, kcell)
    entry = st.clone()
    L = Loop(E, node, entry, leaves, kcell, rng)
    L.cond, L.body, L.inc = cond, body, inc
    head = st.clone()
    havoc(E, head, leaves)
    L.head = head
    cands = candidates(E, L, head)
    nid = E.loop_name(node)
    # entry
    for nm, f in cands:
        if (nid, nm) in E.dead_cands:
            continue
        g = f(entry)
        if g is None:
            continue
        E.oblige_cand(entry, g, nid, nm, 'entry', node.get('line'))
    live = [(nm, f) for nm, f in cands if (nid, nm) not in E.dead_cands]
    for nm, f in live:
        g = f(head)
        if g is not None:
            head.assume(g)
    for p in E.loop_defs:
        for g in p(E, L):
            head.assume(g)
    E.loop_log.append((E.frames[-1].fn['name'], node.get('line'), len(live)))
    L.live = [nm for nm, _ in live]
    E.cur_loops.append(L)
    try:
        ex, nx, brks = one_iteration(E, L, node, head.clone(), cond, body, inc, leaves, head, outer)
    finally:
        E.cur_loops.pop()
        E.par = None
    if nx is not None:
        for nm, f in live:
            g = f(nx)
            if g is not None:
                E.oblige_cand(nx, g, nid, nm, 'preserved', node.get('line'))
    outs = ([ex] if ex is not None else []) + brks + breaks
    s = join(E, outs)
    if s is None:
        raise Dead()
    adopt(st, s)


# ------------------------------------------------------------------ candidates
def candidates(E, L, head):
    """[(name, formula of a state)] in a fixed order."""
    out = []
    ent = L.entry
    k = L.k
    if L.rng is not None:
        out.append(('k-range', lambda s: land(k(s) >= 0, k(s) <= L.rng.len)))
    else:
        out.append(('k-nonneg', lambda s: k(s) >= 0))
    ints = []
    for i, l in enumerate(L.leaves):
        if l.root == L.kcell:
            continue
        if l.kind in ('val', 'pos'):
            def val(s, l=l):
                v = L.get(l, s)
                return v.pos if l.kind == 'pos' else v
            v0 = val(ent)
            if v0.sort() == IntS and not isinstance(v0, z3.BoolRef):
                ints.append((l, val, v0))
                nm = f'{l.name}#{i}'
                if l.delta is not None:
                    out.append((nm + '=dk', lambda s, val=val, v0=v0, d=l.delta: val(s) == v0 + d * k(s)))
                elif E.guess:
                    out.append((nm + '=k', lambda s, val=val, v0=v0: val(s) == v0 + k(s)))
                    out.append((nm + '=-k', lambda s, val=val, v0=v0: val(s) == v0 - k(s)))
                out.append((nm + '>=0', lambda s, val=val: val(s) >= 0))
                out.append((nm + '>=old', lambda s, val=val, v0=v0: val(s) >= v0))
                if E.guess:
                    out.append((nm + '<=old+k', lambda s, val=val, v0=v0: val(s) <= v0 + k(s)))
        if l.kind == 'len':
            def ln(s, l=l):
                return L.get(l, s).len
            n0 = ln(ent)
            nm = f'{l.name}.len#{i}'
            if l.delta is not None:
                out.append((nm + '=old+dk', lambda s, ln=ln, n0=n0, d=l.delta: ln(s) == n0 + d * k(s)))
            out.append((nm + '>=old', lambda s, ln=ln, n0=n0: ln(s) >= n0))
            out.append((nm + '<=old+k', lambda s, ln=ln, n0=n0: ln(s) <= n0 + k(s)))
        if l.kind == 'arr':
            def vv(s, l=l):
                return L.get(l, s)
            v0 = vv(ent)
            nm = f'{l.name}.arr#{i}'
            grows = any(x.kind == 'len' and x.root == l.root and x.path == l.path for x in L.leaves)
            if grows and not (z3.is_int_value(v0.len) and v0.len.as_long() == 0):
                def fr(s, vv=vv, v0=v0):
                    j = z3.Int('qj')
                    a, b = E.flat(vv(s), s), E.flat(v0, s)
                    return z3.ForAll([j], z3.Implies(land(j >= 0, j < v0.len), a.arr[j] == b.arr[j]), patterns=[a.arr[j]])
                out.append((nm + ' prefix', fr))
    # records with a type invariant
    for rp in L.values(Rec):
        r = L.at(rp, ent)
        if r.name in E.type_inv:
            out.append((f'inv {r.name} {rp[1]}', lambda s, rp=rp, r=r: E.type_inv[r.name](E, L.at(rp, s))))
    # i <= bound for a loop condition i < bound with an unmodified bound
    for l, val, v0 in ints:
        for j, b in enumerate(cond_bounds(E, L, l, head)):
            out.append((f'{l.name}<=bound{j}', lambda s, val=val, b=b: val(s) <= b))
    for p in E.providers:
        out += [('@' + nm, f) for nm, f in p(E, L)]
    return out


def cond_bounds(E, L, leaf, head):
    """Upper bounds the loop condition compares this variable with, when they do not depend on the loop."""
    s = head.clone()
    snap = save(E)
    E.suppress += 1
    try:
        c = L.cond(s)
    except (Unsupported, Dead):
        return []
    finally:
        E.suppress -= 1
        restore(E, snap)
    v = L.get(leaf, head)
    v = v.pos if leaf.kind == 'pos' else v
    out = []

    def visit(t):
        if z3.is_and(t):
            for x in t.children():
                visit(x)
            return
        if not z3.is_app(t) or t.num_args() != 2:
            if z3.is_not(t):
                u = t.arg(0)
                if u.num_args() == 2 and u.decl().kind() == z3.Z3_OP_EQ:
                    for x, y in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                        if x.eq(v):
                            out.append(y)
            return
        kd = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if kd == z3.Z3_OP_LT and a.eq(v):
            out.append(b)
        elif kd == z3.Z3_OP_GT and b.eq(v):
            out.append(a)
        elif kd == z3.Z3_OP_LE and a.eq(v):
            out.append(b + 1)
        elif kd == z3.Z3_OP_GE and b.eq(v):
            out.append(a + 1)
        elif kd == z3.Z3_OP_DISTINCT:
            for x, y in ((a, b), (b, a)):
                if x.eq(v):
                    out.append(y)
    visit(c)
    hv = set()
    for l in L.leaves:
        try:
            x, x0 = L.get(l, head), L.get(l, L.entry)
            for u, u0 in ([(x, x0)] if isinstance(x, z3.ExprRef) else [(x.len, x0.len), (x.arr, x0.arr)] if isinstance(x, Vec) else []):
                if not u.eq(u0):
                    hv.add(u.get_id())
        except Exception:
            pass

    return [b for b in out if not some_sub(b, lambda t: t.get_id() in hv)]


# ------------------------------------------------------------------ statements
def new_k(E, st):
    c = ('loc', next(_fresh))
    st.env[c] = I(0)
    E.cell_ty[c] = (None, 'k')
    return c


def exec_for(E, s, st):
    if s.get('init'):
        E.exec(s['init'], st)
    kc = new_k(E, st)

    def cond(q):
        return E.ev(s['c'], q) if s.get('c') is not None else z3.BoolVal(True)

    def body(q):
        E.exec(s['body'], q)

    def inc(q):
        if s.get('inc') is not None:
            E.ev_discard(s['inc'], q)
        q.env[kc] = z3.simplify(q.env[kc] + 1)
    run_loop(E, s, st, cond, body, inc, kc)


def exec_while(E, s, st):
    if s.get('var'):
        raise Unsupported('while with a declaration')
    kc = new_k(E, st)

    def inc(q):
        q.env[kc] = z3.simplify(q.env[kc] + 1)
    run_loop(E, s, st, lambda q: E.ev(s['c'], q), lambda q: E.exec(s['body'], q), inc, kc)


def exec_range(E, s, st):
    # the range is evaluated once and bound by reference
    r = s['range']
    loc = E.lv(r, st)
    v = E.get(loc, st)
    if isinstance(v, Ptr):
        loc = E.deref(v, st)
        v = E.get(loc, st)
    if isinstance(v, Rec):
        # a project type with begin()/end(): its only container is what they iterate
        it = project_begin(E, s, loc, v, st)
        loc = it.loc
        v = E.get(loc, st)
    kc = new_k(E, st)
    if isinstance(v, Vec):
        seq, what = v, 'vec'
    elif isinstance(v, Map):
        seq, what = stl.enum_map(E, v, st), 'map'
    elif isinstance(v, Bag):
        seq, what = stl.enum_bag(E, v, st), 'bag'
    else:
        raise Unsupported(f'range-for over {type(v).__name__}')

    def cond(q):
        c = q.env[kc] < seq.len
        if z3.is_int_value(q.env[kc]) and z3.is_int_value(seq.len):
            return z3.simplify(c)
        return c

    def body(q):
        kt = q.env[kc]
        if what == 'vec':
            el = loc + ('i', kt)
        elif what == 'map':
            x = E.vec_get(seq, kt, q)
            m = E.get(loc, q)
            el = loc + ('mp', x) if m.vty is not None else E.new_cell(q, x, 'tmp')
        else:
            el = E.new_cell(q, E.vec_get(seq, kt, q), 'tmp')
        var = dict(s['var'])
        fr = E.frames[-1]
        t = var['t']
        if t.c == 'ref':
            key = ('loc', next(_fresh))
            fr.locals[var['id']] = key
            E.cell_ty[key] = (t, var.get('name'))
            q.env[key] = Ref(el)
        else:
            key = ('loc', next(_fresh))
            fr.locals[var['id']] = key
            E.cell_ty[key] = (t, var.get('name'))
            q.env[key] = E.get(el, q)
        if var.get('bindings'):
            cur = E.get(el, q)
            names = list(cur.f)
            for i, b in enumerate(var['bindings']):
                bk = ('loc', next(_fresh))
                fr.locals[b['id']] = bk
                q.env[bk] = Ref(el + ('f', names[i]))
                if 'hold' in b:
                    fr.locals[b['hold']['id']] = bk
        E.exec(s['body'], q)

    def inc(q):
        q.env[kc] = z3.simplify(q.env[kc] + 1)
    rng = seq
    if z3.is_int_value(seq.len):
        rng = None
    run_loop(E, s, st, cond, body, inc, kc, rng=seq if not z3.is_int_value(seq.len) else None)


def project_begin(E, s, loc, v, st):
    f = None
    for n, fs in E.prog.by_name.items():
        if n == v.name + '::begin':
            f = fs[0]
    if f is None:
        raise Unsupported(f'range-for over {v.name}')
    it = E.call_function(f, loc, [], st)
    if isinstance(it, Ref):
        it = E.get(it.loc, st)
    return it
