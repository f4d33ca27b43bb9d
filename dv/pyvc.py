"""A verifier for the Python layer: symbolic execution of the real functions (their syntax trees, read from /repo on
every run), one path at a time, loops summarised by their effect per iteration; obligations go to z3.

Values: z3 integers, booleans and opaque objects; Seq (length, element at an index, whether the index is kept);
Rec (instances of project classes and of the native classes, by their constructor arguments); Python constants."""
import ast, os, time
import z3
from . import frontend

Py = z3.DeclareSort('Py')
I, B = z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


class Raised(Exception):
    def __init__(self, name, args=()):
        self.name, self.vals = name, args


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Infeasible(Exception):
    pass


class Seq:
    """Elements at(i) for those i < n that are kept, in order.  A filtered sequence has an unknown length."""

    def __init__(self, n, at, keep=None):
        self.n, self.at, self.keep = n, at, keep


class Cell:
    """A list: its content may grow."""

    def __init__(self, seq):
        self.seq = seq


class Rec:
    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Tup:
    def __init__(self, xs):
        self.xs = list(xs)


class Cls:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node


class Fun:
    def __init__(self, node, mod, env=None, me=None, name=None):
        self.node, self.mod, self.env, self.me, self.name = node, mod, env, me, name or getattr(node, 'name', 'lambda')


class Native:
    def __init__(self, name, me=None):
        self.name, self.me = name, me


class Bound:
    def __init__(self, obj, m):
        self.obj, self.m = obj, m


class Acc:
    """A list while a loop grows it: only what an iteration appends is known."""

    def __init__(self, cell):
        self.cell, self.new = cell, []


UNDEF = object()


class Exec:
    def __init__(self, contracts=None, root=None):
        self.root = root or frontend.REPO
        self.mods = {}
        self.contracts = dict(NATIVE)
        self.contracts.update(contracts or {})
        self.obligs = []
        self.inlined = set()
        self.facts = []
        self.sums = []

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(self.root, *name.split('.'))
        f = p + '.py' if os.path.exists(p + '.py') else p + '/__init__.py'
        if not os.path.exists(f):
            raise Unsupported('module ' + name)
        tree = ast.parse(open(f).read())
        m = {'#name': name}
        self.mods[name] = m
        for s in tree.body:
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    m[a.asname or a.name] = ('import', s.module, a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m[a.asname or a.name.split('.')[0]] = Native(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ClassDef):
                m[s.name] = Cls(s.name, name, s)
            elif isinstance(s, ast.FunctionDef):
                m[s.name] = Fun(s, name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                m[s.targets[0].id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                m[s.target.id] = ('expr', s.value)
        return m

    def glob(self, mod, name):
        m = self.module(mod)
        if name not in m:
            if name in BUILTIN:
                return Native('builtins.' + name)
            raise Unsupported('name ' + name)
        v = m[name]
        if isinstance(v, tuple) and v[0] == 'import':
            _, src, n = v
            if src and src.startswith('capi.') and not src.endswith('visibility_graphs'):
                v = self.glob(src, n)
            else:
                v = Native(f'{src}.{n}' if not (src or '').startswith('capi.') else 'visgraph.' + n)
            m[name] = v
        elif isinstance(v, tuple) and v[0] == 'expr':
            v = self.ev(v[1], {}, mod)
            m[name] = v
        return v

    def method(self, cls, name):
        for s in cls.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return s
        for b in cls.node.bases:
            try:
                c = self.ev(b, {}, cls.mod)
            except Unsupported:
                continue
            if isinstance(c, Cls):
                r = self.method(c, name)
                if r is not None:
                    return r
        return None

    # ---------------------------------------------------------------- paths
    def fresh(self, name, sort):
        self.count += 1
        c = z3.Const(f'{name}!{self.count}', sort)
        self.made.append(c)
        return c

    def assume(self, f):
        self.pc.append(f)

    def feasible(self, extra=()):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*self.pc, *self.facts, *extra)
        return s.check() != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.decisions
        if d['pos'] < len(d['taken']):
            v = d['taken'][d['pos']]
        else:
            yes, no = self.feasible([c]), self.feasible([z3.Not(c)])
            if not yes and not no:
                raise Infeasible()
            v = yes
            if yes and no:
                d['todo'].append(d['taken'][:d['pos']] + [False])
            d['taken'].append(v)
        d['pos'] += 1
        self.pc.append(c if v else z3.Not(c))
        return v

    def explore(self, f):
        """Every path of f(): yields (result of f, path condition)."""
        outer = getattr(self, 'decisions', None)
        pc0, n0 = list(self.pc), self.count
        todo = [[]]
        out = []
        while todo:
            if len(out) > 400:
                raise Unsupported('too many paths')
            self.decisions = {'pos': 0, 'taken': todo.pop(), 'todo': todo}
            self.pc = list(pc0)
            try:
                out.append((f(), list(self.pc)))
            except Infeasible:
                pass
        self.decisions, self.pc = outer, pc0
        return out

    def oblige(self, goal, desc, kind='postcondition', hyps=()):
        self.obligs.append((list(self.pc) + list(self.facts) + list(hyps), goal, desc, kind))

    # ---------------------------------------------------------------- statements
    def call(self, fn, args, kw=None):
        """Calls a project function; its result or an exception."""
        node, kw = fn.node, dict(kw or {})
        a = node.args
        if a.vararg or a.kwarg:
            raise Unsupported('variable arguments')
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(fn.env or {})
        args = ([fn.me] if fn.me is not None else []) + list(args)
        if len(args) > len(names):
            raise Unsupported('arguments of ' + fn.name)
        for n, v in zip(names, args):
            env[n] = v
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names[len(args):] + [k.arg for k in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
            elif n in dfl:
                env[n] = self.ev(dfl[n], {}, fn.mod)
            else:
                raise Unsupported(f'argument {n} of {fn.name}')
        if kw:
            raise Unsupported(f'arguments {list(kw)} of {fn.name}')
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env, fn.mod)
        self.inlined.add(f'{fn.mod.split(".")[-1]}.{fn.name}')
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 40:
            raise Unsupported('recursion')
        try:
            self.block(node.body, env, fn.mod)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env, mod)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.bind(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(ast.copy_location(as_load(s.target), s), env, mod)
            if isinstance(cur, (Cell, Acc)) and isinstance(s.op, ast.Add):
                self.extend(cur, self.ev(s.value, env, mod))
            else:
                self.bind(s.target, self.binop(s.op, cur, self.ev(s.value, env, mod)), env, mod)
        elif isinstance(s, ast.If):
            self.block(s.body if self.branch(self.truth(self.ev(s.test, env, mod))) else s.orelse, env, mod)
        elif isinstance(s, ast.For):
            self.loop(s, env, mod)
        elif isinstance(s, ast.Return):
            raise Return(self.ev(s.value, env, mod) if s.value else None)
        elif isinstance(s, ast.Raise):
            n = 'Exception'
            if s.exc is not None:
                c = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                n = getattr(c, 'id', getattr(c, 'attr', 'Exception'))
            raise Raised(n)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Break):
            raise Break()
        elif isinstance(s, ast.Continue):
            raise Continue()
        elif isinstance(s, ast.With):
            for w in s.items:
                v = self.ev(w.context_expr, env, mod)
                if w.optional_vars is not None:
                    self.bind(w.optional_vars, v, env, mod)
            self.block(s.body, env, mod)
        elif isinstance(s, ast.Assert):
            if not self.branch(self.truth(self.ev(s.test, env, mod))):
                raise Raised('AssertionError')
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fun(s, mod, env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    env[a.asname or a.name] = Native(a.name)
                elif (s.module or '').startswith('capi.') and not s.module.endswith('visibility_graphs'):
                    env[a.asname or a.name] = self.glob(s.module, a.name)
                else:
                    env[a.asname or a.name] = Native(f'{s.module}.{a.name}' if not s.module.startswith('capi.') else 'visgraph.' + a.name)
        else:
            raise Unsupported('statement ' + type(s).__name__)

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, xs):
                self.bind(e, x, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if not isinstance(o, Rec):
                raise Unsupported('assignment to an attribute')
            if getattr(o, 'born', 0) != len(self.loops):
                raise Unsupported('assignment to an attribute in a loop')
            o.f[t.attr] = v
        else:
            raise Unsupported('assignment')

    def unpack(self, v, n):
        if isinstance(v, Tup):
            if len(v.xs) != n:
                raise Unsupported('unpacking')
            return v.xs
        if is_obj(v):
            return [item(v, z3.IntVal(i)) for i in range(n)]
        raise Unsupported('unpacking')

    # ---------------------------------------------------------------- loops
    def loop(self, s, env, mod):
        if s.orelse:
            raise Unsupported('else of a loop')
        S = self.seq(self.ev(s.iter, env, mod))
        assigned = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        target = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        carried = {x: env[x] for x in assigned - target if x in env}
        i = self.fresh('i', I)
        pre = [i >= 0, i < S.n]
        if S.keep is not None:
            pre.append(S.keep(i))
        heads = {}
        for x, v in carried.items():
            if is_int(v):
                heads[x] = self.fresh(x + '@', I)
            else:
                heads[x] = UNDEF
        made0 = self.made
        self.made = []
        facts0 = self.facts
        self.facts = list(facts0)
        paths = []
        pc0 = len(self.pc)
        self.pc += pre
        npre = len(self.pc)

        def one():
            e = dict(env)
            accs = {}
            e2 = {k: v for k, v in e.items()}
            for x, h in heads.items():
                e2[x] = h
            self.loops.append(accs)
            ev0 = len(self.events)
            try:
                try:
                    self.bind(s.target, S.at(i), e2, mod)
                    self.block(s.body, e2, mod)
                    kind = 'next'
                except Continue:
                    kind = 'next'
                except Break:
                    kind = 'break'
                except Raised as r:
                    kind = r
                except Return:
                    raise Unsupported('return inside a loop')
                evs = self.events[ev0:]
                if any(x[0] not in QUIET for x in evs):
                    raise Unsupported('an effect inside a loop: ' + evs[0][0])
                del self.events[ev0:]
                return kind, {k: list(a.new) for k, a in accs.items()}, {x: e2.get(x, UNDEF) for x in carried}, dict((id(a.cell), a.cell) for a in accs.values())
            finally:
                self.loops.pop()
        try:
            paths = self.explore(one)
        finally:
            made, self.made = self.made, made0
            newfacts = self.facts[len(facts0):]
            self.facts = facts0
            self.pc = self.pc[:pc0]
        conds = [z3.And(*pc[npre:]) if len(pc) > npre else z3.BoolVal(True) for _, pc in paths]
        cells = {}
        for (k, new, ends, cs), _ in paths:
            cells.update(cs)
        # symbols of an iteration become functions of its index
        fun = [(c, z3.Function(str(c) + '()', I, c.sort())) for c in made if not any(c.eq(h) for h in heads.values() if h is not UNDEF)]

        def at_index(t, j):
            return z3.substitute(t, (i, j), *[(c, f(j)) for c, f in fun])

        def facts_at(j):
            for f in newfacts:
                g = z3.Implies(z3.And(*[at_index(p, j) for p in pre]), at_index(f, j))
                if not any(g.eq(x) for x in self.facts):
                    self.facts.append(g)
        used = set()
        for c in conds:
            used |= names(c)
        for h in heads.values():
            if h is not UNDEF and str(h) in used:
                raise Unsupported('a loop that branches on what it accumulates')
        # where it stops
        brk = [c for ((k, *_), _), c in zip(paths, conds) if k == 'break']
        raises = [(k, c) for ((k, *_), _), c in zip(paths, conds) if isinstance(k, Raised)]
        n = S.n
        if brk:
            if S.keep is not None:
                raise Unsupported('break in a filtered sequence')
            Bk = z3.Or(*brk)
            m = self.fresh('stop', I)
            q = z3.Int('qb')
            facts_at(m)
            self.fact(z3.And(m >= 0, m <= n, z3.Implies(m < n, at_index(Bk, m)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.Not(at_index(Bk, q))))))
            n = m
            for ((k, new, *_), _), c in zip(paths, conds):
                if k == 'break' and any(new.values()):
                    raise Unsupported('an element appended on the way out')
        for k, c in raises:
            w = self.fresh('raises', I)
            facts_at(w)
            if self.branch(z3.And(w >= 0, w < n, at_index(pre[2], w) if len(pre) > 2 else True, at_index(c, w))):
                raise k
        paths = [(p, c) for (p, _), c in zip(paths, conds) if p[0] == 'next']
        # lists
        for cid, cell in cells.items():
            if not empty(cell.seq if isinstance(cell, Cell) else None):
                raise Unsupported('a loop that extends a list that is not empty')
            vals = []
            for (k, new, ends, _), c in paths:
                v = new.get(cid, [])
                if len(v) > 1:
                    raise Unsupported('several elements appended in one iteration')
                vals.append((c, v[0] if v else UNDEF))
            keep = z3.Or(*[c for c, v in vals if v is not UNDEF]) if any(v is not UNDEF for _, v in vals) else z3.BoolVal(False)
            all_kept = all(v is not UNDEF for _, v in vals)
            vals = [(c, v) for c, v in vals if v is not UNDEF]

            def at(j, vals=vals):
                facts_at(j)
                v = subst(vals[-1][1], lambda t: at_index(t, j))
                for c, x in reversed(vals[:-1]):
                    v = self.merge(at_index(c, j), subst(x, lambda t: at_index(t, j)), v)
                return v
            k0 = S.keep

            def kp(j, keep=keep):
                facts_at(j)
                return z3.And(*([k0(j)] if k0 else []), at_index(keep, j))
            new = Seq(n, at, None if (all_kept and k0 is None) else kp)
            if isinstance(cell, Acc):
                raise Unsupported('a list of an outer loop grown in an inner loop')
            cell.seq = new
        # numbers
        for x, h in heads.items():
            ends = [(c, p[2][x]) for p, c in paths]
            if all(same(v, h) or v is carried[x] for _, v in ends):
                continue
            if h is UNDEF or not all(is_int(v) for _, v in ends):
                env[x] = UNDEF
                continue
            ds = [(c, z3.simplify(to_int(v) - h)) for c, v in ends]
            if any(str(h) in names(d) for _, d in ds):
                env[x] = UNDEF
                continue

            def el(j, ds=ds):
                facts_at(j)
                d = at_index(ds[-1][1], j)
                for c, v in reversed(ds[:-1]):
                    d = z3.If(at_index(c, j), at_index(v, j), d)
                return d
            env[x] = to_int(carried[x]) + self.sum(Seq(n, el, S.keep))
        for x in assigned - set(carried):
            env.pop(x, None)

    def fact(self, f):
        self.facts.append(f)

    def merge(self, c, a, b):
        if same(a, b):
            return a
        if is_int(a) and is_int(b):
            return z3.If(c, to_int(a), to_int(b))
        if is_boolv(a) and is_boolv(b):
            return z3.If(c, to_bool(a), to_bool(b))
        if is_obj(a) and is_obj(b):
            return z3.If(c, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls and set(a.f) == set(b.f):
            return Rec(a.cls, {k: self.merge(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
            return Tup([self.merge(c, x, y) for x, y in zip(a.xs, b.xs)])
        return Choice(c, a, b)

    def sum(self, S):
        """The sum of a sequence of integers: a number that depends on the elements only."""
        x = self.fresh('sum', I)
        w = self.fresh('w', I)
        el = S.at(w)
        if not is_int(el):
            raise Unsupported('sum')
        z = z3.Int('qs')
        self.fact(z3.Implies(S.n <= 0, x == 0))
        k = lambda S, j: S.keep(j) if S.keep else z3.BoolVal(True)
        # a sum of numbers that are not negative is not negative
        neg = z3.And(w >= 0, w < S.n, k(S, w), to_int(el) < 0)
        self.fact(z3.Or(x >= 0, neg))
        for y, T in self.sums:
            v = self.fresh('w', I)
            a, b = z3.If(k(S, v), to_int(S.at(v)), 0), z3.If(k(T, v), to_int(T.at(v)), 0)
            self.fact(z3.Or(x == y, S.n != T.n, z3.And(v >= 0, v < S.n, a != b)))
        self.sums.append((x, S))
        return x

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        return z3.IntVal(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else e.value

    def e_Name(self, e, env, mod):
        if e.id in env:
            v = env[e.id]
            if v is UNDEF:
                raise Unsupported('a variable carried around a loop')
            return v
        return self.glob(mod, e.id)

    def e_Attribute(self, e, env, mod):
        return self.attr(self.ev(e.value, env, mod), e.attr)

    def attr(self, o, n):
        if isinstance(o, Choice):
            return self.attr(o.a if self.branch(o.c) else o.b, n)
        if isinstance(o, Native):
            return Native(f'{o.name}.{n}')
        if isinstance(o, Cls):
            f = self.method(o, n)
            if f is None:
                if n == '__name__':
                    return o.name
                raise Unsupported('class attribute ' + n)
            return Fun(f, o.mod)
        if isinstance(o, Rec):
            if n in o.f:
                return o.f[n]
            if isinstance(o.cls, Cls):
                if f'{o.cls.name}.{n}()' in self.contracts:
                    return Bound(o, n)
                f = self.method(o.cls, n)
                if f is not None:
                    ds = [getattr(d, 'id', getattr(d, 'attr', '')) for d in f.decorator_list]
                    if 'property' in ds:
                        return self.call(Fun(f, o.cls.mod, None, o), [])
                    if 'staticmethod' in ds:
                        return Fun(f, o.cls.mod)
                    return Fun(f, o.cls.mod, None, o)
            h = self.contracts.get(f'{o.cls}.{n}')
            if h is not None:
                return h(self, o)
            return Bound(o, n)
        if is_obj(o):
            h = self.contracts.get('attr.' + n)
            if h is not None:
                return h(self, o)
            if f'.{n}()' in self.contracts:
                return Bound(o, n)
            return z3.Function('attr_' + n, Py, Py)(o)
        if isinstance(o, (Cell, Acc, Seq, str)):
            return Bound(o, n)
        raise Unsupported(f'attribute {n}')

    def e_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, mod)
                if not isinstance(v, Tup):
                    raise Unsupported('starred argument')
                args += v.xs
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('keyword arguments')
            kw[k.arg] = self.ev(k.value, env, mod)
        return self.apply(f, args, kw)

    def apply(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Fun):
            return self.call(f, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Bound):
            return self.bound(f.obj, f.m, args, kw)
        if isinstance(f, Native):
            h = self.contracts.get(f.name)
            if h is None:
                raise Unsupported('call of ' + f.name)
            return h(self, args, kw)
        raise Unsupported('call')

    def construct(self, c, args, kw):
        o = Rec(c, {})
        o.born = len(self.loops)
        init = self.method(c, '__init__')
        if init is not None:
            self.call(Fun(init, c.mod, None, o), args, kw)
            return o
        ds = [getattr(d, 'id', getattr(d, 'attr', getattr(getattr(d, 'func', None), 'id', ''))) for d in c.node.decorator_list]
        if 'dataclass' in ds:
            fs = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
            for n, v in zip(fs, args):
                o.f[n] = v
            o.f.update(kw)
            if set(o.f) != set(fs):
                raise Unsupported('fields of ' + c.name)
            return o
        if not args and not kw:
            return o
        raise Unsupported('constructor of ' + c.name)

    def bound(self, o, m, args, kw):
        if isinstance(o, Cell) and self.loops and m in ('append', 'extend'):
            a = self.loops[-1].get(id(o)) if not getattr(o, 'born', None) == len(self.loops) else None
            if getattr(o, 'born', 0) != len(self.loops):
                a = self.loops[-1].setdefault(id(o), Acc(o))
                if m == 'append':
                    a.new.append(args[0])
                    return None
                raise Unsupported('extend in a loop')
        if isinstance(o, Cell):
            if m == 'append':
                o.seq = concat(o.seq, Seq(z3.IntVal(1), lambda j, v=args[0]: v), self)
                return None
            if m == 'extend':
                self.extend(o, args[0])
                return None
            if m == 'copy':
                return self.cell(o.seq)
            if m == 'pop' and (not args or const_int(args[0]) == -1):
                s = self.seq(o)
                if s.keep is not None or self.loops and getattr(o, 'born', 0) != len(self.loops):
                    raise Unsupported('pop')
                if self.branch(s.n <= 0):
                    raise Raised('IndexError')
                v = s.at(s.n - 1)
                o.seq = Seq(s.n - 1, s.at)
                return v
        if is_obj(o) or isinstance(o, Rec):
            cls = (o.cls.name if isinstance(o.cls, Cls) else o.cls) if isinstance(o, Rec) else ''
            h = self.contracts.get(f'{cls}.{m}()') or self.contracts.get(f'.{m}()')
            if h is not None:
                return h(self, o, args, kw)
        if isinstance(o, str):
            return opaque(self, 'str.' + m)
        raise Unsupported('method ' + m)

    def extend(self, cell, v):
        if not isinstance(cell, Cell) or self.loops and getattr(cell, 'born', 0) != len(self.loops):
            raise Unsupported('extend in a loop')
        cell.seq = concat(cell.seq, self.seq(v), self)

    def cell(self, seq):
        c = Cell(seq)
        c.born = len(self.loops)
        return c

    def e_List(self, e, env, mod):
        xs = [self.ev(x, env, mod) for x in e.elts]
        return self.cell(Seq(z3.IntVal(len(xs)), lambda j: self.pick(xs, j)))

    def pick(self, xs, j):
        if not xs:
            raise Unsupported('element of an empty list')
        v = xs[-1]
        for n in range(len(xs) - 2, -1, -1):
            v = self.merge(j == n, xs[n], v)
        return v

    def e_Tuple(self, e, env, mod):
        return Tup([self.ev(x, env, mod) for x in e.elts])

    def e_JoinedStr(self, e, env, mod):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    self.ev(v.value, env, mod)
                except Unsupported:
                    pass
        return opaque(self, 'text')

    def e_Lambda(self, e, env, mod):
        return Fun(e, mod, env)

    def e_IfExp(self, e, env, mod):
        c = self.truth(self.ev(e.test, env, mod))
        return self.ev(e.body if self.branch(c) else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            if x is e.values[-1]:
                return v
            t = self.branch(self.truth(v))
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e.op, ast.USub) and is_int(v):
            return -to_int(v)
        if isinstance(v, float):
            return -v
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def binop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, (Cell, Seq)) and isinstance(b, (Cell, Seq)):
            return self.cell(concat(self.seq(a), self.seq(b), self))
        if isinstance(a, bool):
            a = z3.IntVal(int(a))
        if isinstance(b, bool):
            b = z3.IntVal(int(b))
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_int(a) and is_int(b):
            a, b = to_int(a), to_int(b)
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return self.mul(a, b)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.branch(b == 0):
                    raise Raised('ZeroDivisionError')
                return self.div(a, b, isinstance(op, ast.Mod))
            if isinstance(op, ast.Div):
                if self.branch(b == 0):
                    raise Raised('ZeroDivisionError')
                q = z3.Function('true_div', I, I, z3.RealSort())(a, b)
                return q
        if isinstance(a, (z3.ExprRef, float)) and isinstance(b, (z3.ExprRef, float)):
            f = z3.Function('op_' + type(op).__name__, Py, Py, Py)
            return f(self.obj(a), self.obj(b))
        raise Unsupported('operator ' + type(op).__name__)

    def mul(self, a, b):
        if z3.is_int_value(z3.simplify(a)) or z3.is_int_value(z3.simplify(b)):
            return a * b
        return a * b

    def div(self, a, b, mod):
        q, r = self.fresh('quot', I), self.fresh('rem', I)
        self.fact(z3.Implies(b != 0, z3.And(a == q * b + r, z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(b < 0, z3.And(r <= 0, r > b)))))
        # the same division gives the same result
        for a2, b2, q2, r2 in self.divs:
            self.fact(z3.Implies(z3.And(b == b2, b > 0), z3.And(z3.Implies(a <= a2, q <= q2), z3.Implies(a2 <= a, q2 <= q))))
            self.fact(z3.Implies(z3.And(a == a2, b == b2), z3.And(q == q2, r == r2)))
        self.divs.append((a, b, q, r))
        return r if mod else q

    def e_Compare(self, e, env, mod):
        l = self.ev(e.left, env, mod)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, env, mod)
            out.append(self.cmp(op, l, r))
            l = r
        if len(out) == 1:
            return out[0]
        return z3.And(*[to_bool(x) for x in out])

    def cmp(self, op, a, b):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(a, Choice):
            return self.cmp(op, a.a if self.branch(a.c) else a.b, b)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if a is None or b is None:
                x = b if a is None else a
                r = True if x is None else z3.Function('is_none', Py, B)(x) if is_obj(x) else False
            elif isinstance(a, (str, float, bool)) and isinstance(b, (str, float, bool)):
                r = a == b
            elif is_int(a) and is_int(b):
                r = to_int(a) == to_int(b)
            elif (is_obj(a) or isinstance(a, (str, z3.ExprRef))) and (is_obj(b) or isinstance(b, (str, z3.ExprRef))):
                r = self.obj(a) == self.obj(b)
            else:
                raise Unsupported('comparison')
            if neg:
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if is_int(a) and is_int(b):
            a, b = to_int(a), to_int(b)
            for k, f in ((ast.Lt, a < b), (ast.LtE, a <= b), (ast.Gt, a > b), (ast.GtE, a >= b)):
                if isinstance(op, k):
                    return f
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Tup):
            r = [self.cmp(ast.Eq(), a, x) for x in b.xs]
            r = z3.Or(*[to_bool(x) for x in r])
            return z3.Not(r) if neg else r
        if isinstance(a, (z3.ExprRef, float)) and isinstance(b, (z3.ExprRef, float)):
            return z3.Function('cmp_' + type(op).__name__, Py, Py, B)(self.obj(a), self.obj(b))
        raise Unsupported('comparison')

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                st = self.ev(e.slice.step, env, mod)
                if const_int(st) == -1 and e.slice.lower is None and e.slice.upper is None:
                    return self.cell(rev(self.seq(o)))
                raise Unsupported('slice')
            S = self.seq(o)
            if S.keep is not None:
                raise Unsupported('slice of a filtered sequence')
            lo = self.bnd(e.slice.lower, S, z3.IntVal(0), env, mod)
            hi = self.bnd(e.slice.upper, S, S.n, env, mod)
            n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return self.cell(Seq(n, lambda j: S.at(lo + j)))
        i = self.ev(e.slice, env, mod)
        if isinstance(o, Tup) and const_int(i) is not None:
            k = const_int(i)
            if not -len(o.xs) <= k < len(o.xs):
                raise Raised('IndexError')
            return o.xs[k]
        if isinstance(o, Native):
            return o      # typing
        if is_int(i):
            i = to_int(i)
            S = self.seq(o)
            if S.keep is not None:
                raise Unsupported('element of a filtered sequence')
            if getattr(S, 'tuple', False):
                return S.at(i)
            if self.branch(z3.Or(i >= S.n, i < -S.n)):
                raise Raised('IndexError')
            return S.at(i if const_int(i) is not None and const_int(i) >= 0 else z3.If(i >= 0, i, S.n + i))
        raise Unsupported('subscript')

    def bnd(self, e, S, dfl, env, mod):
        if e is None:
            return dfl
        v = self.ev(e, env, mod)
        if v is None:
            return dfl
        if not is_int(v):
            raise Unsupported('slice')
        v = to_int(v)
        v = z3.If(v < 0, v + S.n, v)
        return z3.simplify(z3.If(v < 0, z3.IntVal(0), z3.If(v > S.n, S.n, v)))

    def comp(self, e, env, mod):
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported('comprehension')
        g = e.generators[0]
        # as the loop it abbreviates
        name = '#comp'
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [e.elt], []))
        for c in reversed(g.ifs):
            body = ast.If(c, [body], [])
        loop = ast.For(g.target, g.iter, [body], [], None)
        ast.fix_missing_locations(ast.copy_location(loop, e))
        env2 = dict(env)
        env2[name] = self.cell(Seq(z3.IntVal(0), lambda j: None))
        self.loop(loop, env2, mod)
        return env2[name]

    e_ListComp = e_GeneratorExp = comp

    # ---------------------------------------------------------------- values
    def truth(self, v):
        if isinstance(v, Choice):
            return self.truth(v.a if self.branch(v.c) else v.b)
        if isinstance(v, z3.BoolRef) or isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_int(v):
            return to_int(v) != 0
        if isinstance(v, (Cell, Seq)):
            s = self.seq(v)
            if s.keep is not None:
                raise Unsupported('truth of a filtered list')
            return s.n > 0
        if isinstance(v, Tup):
            return bool(v.xs)
        if isinstance(v, (str, float)):
            return bool(v)
        if is_obj(v):
            return z3.Function('truth', Py, B)(v)
        return True

    def seq(self, v):
        if isinstance(v, Choice):
            return self.seq(v.a if self.branch(v.c) else v.b)
        if isinstance(v, Cell):
            if self.loops and any(id(v) in l for l in self.loops):
                raise Unsupported('reading a list a loop grows')
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, Tup):
            return Seq(z3.IntVal(len(v.xs)), lambda j: self.pick(v.xs, j))
        if is_obj(v):
            n = length(v)
            self.fact(n >= 0)
            return Seq(n, lambda j: item(v, j))
        raise Unsupported('not a sequence')

    def obj(self, v):
        """As an opaque object."""
        if is_obj(v):
            return v
        if isinstance(v, z3.ArithRef):
            return z3.Function('box_' + str(v.sort()), v.sort(), Py)(v)
        if isinstance(v, z3.BoolRef):
            return z3.Function('box_Bool', B, Py)(v)
        if isinstance(v, (str, float, bool)) or v is None:
            c = z3.Const('const ' + repr(v), Py)
            if isinstance(v, str) and v not in self.strs:
                self.strs[v] = c
                for w, d in list(self.strs.items()):
                    if w != v:
                        self.facts.append(c != d)
            return c
        if isinstance(v, Native):
            return z3.Const('native ' + v.name, Py)
        raise Unsupported('not an object: ' + type(v).__name__)

    def fold(self, f, S, init):
        """functools.reduce"""
        if S.keep is None and init is None:
            if self.branch(S.n <= 0):
                raise Raised('TypeError')
        a, b = self.fresh('a', I), self.fresh('b', I)
        r = self.apply(f, [a, b])
        if is_int(r):
            s = z3.Solver()
            s.add(to_int(r) != a + b)
            if s.check() == z3.unsat:
                t = self.sum(S)
                return t if init is None else to_int(init) + t
        raise Unsupported('reduce')

    # ---------------------------------------------------------------- running
    def paths(self, f, pre=()):
        """Runs f(X) on every path: list of (kind, value, events), in a state kept for obligations."""
        self.pc, self.facts, self.count, self.made, self.loops = list(pre), [], 0, [], []
        self.events, self.divs, self.strs, self.sums = [], [], {}, []

        def one():
            self.facts, self.count, self.made, self.loops = [], 0, [], []
            self.events, self.divs, self.strs, self.sums = [], [], {}, []
            try:
                v = f(self)
                return 'ret', v
            except Raised as r:
                return 'throw', r
        return self.explore(one)


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def as_load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def is_obj(v):
    return isinstance(v, z3.ExprRef) and v.sort() == Py


def is_int(v):
    return isinstance(v, z3.ArithRef) and v.sort() == I or isinstance(v, int) and not isinstance(v, bool)


def to_int(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def is_boolv(v):
    return isinstance(v, (bool, z3.BoolRef))


def to_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def const_int(v):
    if isinstance(v, int):
        return v
    if isinstance(v, z3.ArithRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
    return None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (str, float, bool)) and isinstance(b, (str, float, bool)):
        return type(a) is type(b) and a == b
    return False


def empty(s):
    return s is not None and const_int(s.n) == 0


def length(v):
    return z3.Function('len', Py, I)(v)


def item(v, j):
    return z3.Function('item', Py, I, Py)(v, j)


def rev(S):
    if S.keep is None:
        return Seq(S.n, lambda j: S.at(S.n - 1 - j))
    raise Unsupported('reversed')


def concat(a, b, X=None):
    if empty(a):
        return b
    if empty(b):
        return a
    if X is None or a.keep or b.keep:
        raise Unsupported('concatenation')
    return Seq(a.n + b.n, lambda j: X.merge(j < a.n, a.at(j), b.at(j - a.n)))


def subst(v, f):
    """f applied to every term of a value."""
    if isinstance(v, z3.ExprRef):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: subst(x, f) for k, x in v.f.items()})
    if isinstance(v, Tup):
        return Tup([subst(x, f) for x in v.xs])
    if isinstance(v, Cell):
        return Cell(subst(v.seq, f))
    if isinstance(v, Seq):
        q = z3.FreshInt('at')

        def back(g):
            return lambda j: subst(g(q), lambda t: z3.substitute(f(t), (q, j)))
        return Seq(f(v.n), back(v.at), back(v.keep) if v.keep else None)
    if isinstance(v, Choice):
        return Choice(f(v.c), subst(v.a, f), subst(v.b, f))
    if isinstance(v, (Fun, Bound)):
        raise Unsupported('a function stored by a loop')
    return v


def names(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                out.add(str(x))
            todo += x.children()
    return out


def opaque(X, name):
    return X.fresh(name, Py)


# -------------------------------------------------------------------- what is outside the project
def n_len(X, a, kw):
    s = X.seq(a[0])
    if s.keep is not None:
        raise Unsupported('length of a filtered list')
    return s.n


def n_map(X, a, kw):
    S = X.seq(a[1])
    e = ast.parse('[f(x) for x in s]', mode='eval').body
    return X.comp(e, {'f': a[0], 's': S}, 'builtins')


def n_enumerate(X, a, kw):
    S = X.seq(a[0])
    if S.keep is not None:
        raise Unsupported('enumerate of a filtered list')
    k = a[1] if len(a) > 1 else kw.get('start', z3.IntVal(0))
    return Seq(S.n, lambda j: Tup([to_int(k) + j, S.at(j)]))


def n_zip(X, a, kw):
    ss = [X.seq(x) for x in a]
    if any(s.keep is not None for s in ss):
        raise Unsupported('zip of a filtered list')
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(s.n < n, s.n, n)
    return Seq(n, lambda j: Tup([s.at(j) for s in ss]))


def n_range(X, a, kw):
    if len(a) == 1:
        lo, hi = z3.IntVal(0), to_int(a[0])
    elif len(a) == 2:
        lo, hi = to_int(a[0]), to_int(a[1])
    else:
        raise Unsupported('range')
    return Seq(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda j: lo + j)


def n_reduce(X, a, kw):
    return X.fold(a[0], X.seq(a[1]), a[2] if len(a) > 2 else None)


def n_sum(X, a, kw):
    return X.sum(X.seq(a[0])) + (to_int(a[1]) if len(a) > 1 else 0)


def n_minmax(pick):
    def f(X, a, kw):
        if len(a) != 2 or kw or not all(is_int(x) for x in a):
            raise Unsupported('min or max')
        x, y = map(to_int, a)
        return z3.If(x <= y, x, y) if pick == 'min' else z3.If(x >= y, x, y)
    return f


def n_list(X, a, kw):
    return X.cell(X.seq(a[0]) if a else Seq(z3.IntVal(0), lambda j: None))


def n_divmod(X, a, kw):
    return Tup([X.binop(ast.FloorDiv(), *a), X.binop(ast.Mod(), *a)])


def n_isinstance(X, a, kw):
    return z3.Function('isinstance', Py, Py, B)(X.obj(a[0]) if not isinstance(a[0], Rec) else opaque(X, 'o'), opaque(X, 'class'))


def n_join(X, a, kw):
    r = X.obj(a[0])
    for x in a[1:]:
        r = z3.Function('join', Py, Py, Py)(r, X.obj(x))
    return r


def n_int(X, a, kw):
    if len(a) == 1 and is_int(a[0]):
        return to_int(a[0])
    raise Unsupported('int()')


def n_str(X, a, kw):
    return z3.Function('str', Py, Py)(X.obj(a[0]))


def quiet(name):
    def f(X, a, kw):
        X.events.append((name, a))
        return None
    return f


BUILTIN = {'len', 'map', 'enumerate', 'zip', 'range', 'sum', 'min', 'max', 'list', 'tuple', 'divmod', 'isinstance', 'int', 'str', 'reversed', 'object', 'ValueError', 'RuntimeError', 'iter',
           'NotImplementedError', 'Exception', 'float', 'abs', 'bool', 'print', 'filter', 'TypeError', 'IndexError', 'property', 'staticmethod'}
METHODS = set()
QUIET = {'warn'}
NATIVE = {'builtins.len': n_len, 'builtins.map': n_map, 'builtins.enumerate': n_enumerate, 'builtins.zip': n_zip, 'builtins.range': n_range, 'builtins.sum': n_sum,
          'builtins.min': n_minmax('min'), 'builtins.max': n_minmax('max'), 'builtins.list': n_list, 'builtins.tuple': n_list, 'builtins.iter': lambda X, a, kw: a[0], 'builtins.divmod': n_divmod,
          'builtins.isinstance': n_isinstance, 'builtins.int': n_int, 'builtins.str': n_str, 'builtins.reversed': lambda X, a, kw: X.cell(rev(X.seq(a[0]))),
          'builtins.filter': lambda X, a, kw: X.comp(ast.parse('[x for x in s if f(x)]', mode='eval').body, {'f': a[0], 's': X.seq(a[1])}, 'builtins'),
          'functools.reduce': n_reduce, 'os.path.join': n_join, 'os.fspath': lambda X, a, kw: a[0], 'typing.cast': lambda X, a, kw: a[1], 'warnings.warn': quiet('warn'),
          'itertools.islice': lambda X, a, kw: X.cell(Seq(n_minmax('min')(X, [X.seq(a[0]).n, to_int(a[1])], {}), X.seq(a[0]).at)) if len(a) == 2 and X.seq(a[0]).keep is None else unsup('islice'),
          'operator.add': lambda X, a, kw: X.binop(ast.Add(), *a)}


def unsup(m):
    raise Unsupported(m)


# -------------------------------------------------------------------- equality as an obligation
def ensure_eq(X, a, b, desc, hyps=(), depth=0):
    """a and b are the same value (b is what the specification says)."""
    if depth > 8:
        raise Unsupported('comparison of deep values')
    if isinstance(a, Choice):
        ensure_eq(X, a.a, b, desc, list(hyps) + [a.c], depth + 1)
        ensure_eq(X, a.b, b, desc, list(hyps) + [z3.Not(a.c)], depth + 1)
        return
    if isinstance(b, Choice):
        ensure_eq(X, a, b.a, desc, list(hyps) + [b.c], depth + 1)
        ensure_eq(X, a, b.b, desc, list(hyps) + [z3.Not(b.c)], depth + 1)
        return
    if isinstance(b, (Cell, Seq)):
        if is_obj(a) or isinstance(a, (Cell, Seq, Tup)):
            s, t = X.seq(a), X.seq(b)
            j = X.fresh('any', I)
            h = list(hyps) + [j >= 0, j < t.n]
            X.oblige(s.n == t.n, desc + ' (number of elements)' if s.keep is None and t.keep is None else desc + ' (number of candidates)', hyps=hyps)
            if s.keep is not None or t.keep is not None:
                ks, kt = [q.keep(j) if q.keep else z3.BoolVal(True) for q in (s, t)]
                X.oblige(ks == kt, desc + ' (which elements)', hyps=h)
                h = h + [kt]
            n0 = len(X.facts)
            try:
                x, y = s.at(j), t.at(j)
            except Unsupported:
                if const_int(t.n) == 0:
                    return
                raise
            ensure_eq(X, x, y, desc, h, depth + 1)
            return
        X.oblige(z3.BoolVal(False), desc + ' (a sequence)', hyps=hyps)
        return
    if isinstance(b, Rec):
        if isinstance(a, Rec) and a.cls is b.cls or isinstance(a, Rec) and a.cls == b.cls:
            if set(a.f) != set(b.f):
                raise Unsupported('fields of ' + str(a.cls))
            for k in b.f:
                ensure_eq(X, a.f[k], b.f[k], f'{desc}: {k}', hyps, depth + 1)
            return
        if is_obj(a) or isinstance(a, Rec):
            raise Unsupported('a value of another class')
        X.oblige(z3.BoolVal(False), desc, hyps=hyps)
        return
    if isinstance(b, Tup):
        xs = X.unpack(a, len(b.xs))
        for n, (x, y) in enumerate(zip(xs, b.xs)):
            ensure_eq(X, x, y, f'{desc} [{n}]', hyps, depth + 1)
        return
    if isinstance(a, (Rec, Cell, Seq, Tup, Fun)):
        X.oblige(z3.BoolVal(False), desc, hyps=hyps)
        return
    if b is None or a is None:
        X.oblige(z3.BoolVal(a is b) if not (is_obj(a) or is_obj(b)) else z3.Function('is_none', Py, B)(a if is_obj(a) else b), desc, hyps=hyps)
        return
    if is_int(a) and is_int(b):
        X.oblige(to_int(a) == to_int(b), desc, hyps=hyps)
        return
    if is_boolv(a) and is_boolv(b):
        X.oblige(to_bool(a) == to_bool(b), desc, hyps=hyps)
        return
    X.oblige(X.obj(a) == X.obj(b), desc, hyps=hyps)


def decide(obligs, func, budget=20):
    out = []
    for hyps, goal, desc, kind in obligs:
        t0 = time.time()
        st, model = 'unknown', None
        for tactic in ('smt', 'nl'):
            s = z3.Solver() if tactic == 'smt' else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s.set('timeout', int(budget * 500))
            s.add(*hyps, z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                st = 'proved'
                break
            if r == z3.sat:
                st = 'refuted'
                m = s.model()
                model = {str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and len(str(m[d])) < 60}
                break
        out.append(dict(desc=desc, kind=kind, func=func, line=0, status=st, backend='z3', time=round(time.time() - t0, 3), model=model, goal=goal.sexpr()[:1500] if st != 'proved' else None, target=func))
    return out


def verify(func, f, contracts=None, budget=20, pre=()):
    """Runs f(X) — which executes real code and states obligations — on every path and discharges them."""
    X = Exec(contracts)
    try:
        def g(X):
            try:
                f(X)
                return None
            except Raised as r:
                X.oblige(z3.BoolVal(False), f'no {r.name} is raised')
                return None
        X.paths(g, pre)
        obl = decide(X.obligs, func, budget)
        return dict(obligs=obl, error=None, inlined=sorted(X.inlined))
    except Unsupported as e:
        import traceback
        return dict(obligs=[], error=f'unsupported: {e}', inlined=sorted(X.inlined), trace=traceback.format_exc())
