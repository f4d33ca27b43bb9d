"""Ghost locks: which per-vertex locks the running thread holds, as part of the state.

held[i] is 0 (free), 1 (shared) or 2 (exclusive) for the lock of index i.  Lock objects are values (lock
index, owned); they release when their block ends.  Every acquisition is obliged to respect the global
order, every access to a guarded entry to hold the locks the discipline asks for, every exit to hold none."""
import z3
from .engine import *
from .engine import _fresh

ROOT = ('locks',)
EXCL = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')


class Locks:
    def __init__(self, E, lock_field, cell_field, cell_rc):
        """cell_rc(idx): (row, column) of a guarded entry."""
        self.operations = ()        # each of these is a critical section of its own
        self.E, self.lock_field, self.cell_field, self.cell_rc = E, lock_field, cell_field, cell_rc
        self.accesses = []      # (state pc, kind, row, column, held, line, func)
        E.locks = self

    def begin(self, st):
        st.env[ROOT] = Rec('locks', {'held': z3.K(IntS, I(0)), 'released': z3.BoolVal(False)})

    def enter(self, name, st):
        if ROOT in st.env and name.split('::')[-1] in self.operations:
            self.set(st, self.held(st), z3.BoolVal(False))

    def held(self, st):
        return st.env[ROOT].f['held']

    def set(self, st, held, released=None):
        r = st.env[ROOT]
        st.env[ROOT] = Rec('locks', {'held': held, 'released': r.f['released'] if released is None else released})

    def index_of(self, loc, st):
        E = self.E
        while loc.root in st.env and isinstance(st.env[loc.root], (Ref, Ptr)):
            v = st.env[loc.root]
            l = v.loc if isinstance(v, Ref) else E.deref(v, st)
            loc = Loc(l.root, l.path + loc.path)
        p = loc.path
        for n in range(len(p) - 1):
            if p[n] == ('f', self.lock_field) and p[n + 1][0] == 'i':
                return p[n + 1][1]
        raise Unsupported('a lock on something else than a vertex')

    def acquire(self, i, mode, st, line):
        E = self.E
        h = self.held(st)
        k = z3.Int('ql')
        E.oblige(st, z3.ForAll([k], z3.Implies(h[k] != 0, k < i)), 'lock-order', 'locks are taken in increasing order, none twice', line, assume=False)
        self.set(st, z3.Store(h, i, I(mode)))

    def release(self, i, st, cond=None):
        h = self.held(st)
        if cond is not None and z3.is_false(z3.simplify(cond)):
            return
        n = z3.Store(h, i, I(0))
        if cond is None or z3.is_true(z3.simplify(cond)):
            self.set(st, n, z3.BoolVal(True))
        else:
            self.set(st, z3.If(cond, n, h), z3.Or(st.env[ROOT].f['released'], cond))

    # lock objects
    def construct(self, t, args, st, line):
        mode = 2 if t.name in EXCL else 1
        if not args:
            return Rec('lock', {'i': I(-1), 'own': z3.BoolVal(False)}, t)
        if len(args) > 1 and not self.is_tag(args[1]):
            raise Unsupported('lock of several mutexes')
        if args[0]['t'].strip().name in EXCL + ('std::shared_lock',):
            raise Unsupported('a moved lock')
        i = self.index_of(self.E.lv(args[0], st), st)
        own = True
        if len(args) > 1:
            n = args[1]['t'].strip().name
            own = n == 'std::adopt_lock_t'
            if n == 'std::try_to_lock_t':
                raise Unsupported('try_to_lock')
            if own:
                return Rec('lock', {'i': i, 'own': z3.BoolVal(True)}, t)
        if own:
            self.acquire(i, mode, st, line)
        return Rec('lock', {'i': i, 'own': z3.BoolVal(own)}, t)

    def is_tag(self, a):
        return a['t'].strip().name in ('std::defer_lock_t', 'std::adopt_lock_t', 'std::try_to_lock_t')

    def method(self, m, rec, loc, v, a, st, node):
        E = self.E
        if isinstance(v, Rec) and v.name == 'lock':
            mode = 2 if rec in EXCL else 1
            if m == 'lock':
                E.oblige(st, lnot(v.f['own']), 'lock-order', 'a lock is not taken twice', node.get('line'), assume=False)
                self.acquire(v.f['i'], mode, st, node.get('line'))
                E.set(loc, Rec('lock', {'i': v.f['i'], 'own': z3.BoolVal(True)}, v.ty), st)
                return VOID
            if m == 'unlock':
                E.oblige(st, v.f['own'], 'lock-order', 'only a held lock is released', node.get('line'), assume=False)
                self.release(v.f['i'], st)
                E.set(loc, Rec('lock', {'i': v.f['i'], 'own': z3.BoolVal(False)}, v.ty), st)
                return VOID
            if m in ('owns_lock', 'operator bool'):
                return v.f['own']
            raise Unsupported('lock::' + m)
        if rec in ('std::shared_mutex', 'std::mutex'):
            i = self.index_of(loc, st)
            if m in ('lock', 'lock_shared'):
                self.acquire(i, 2 if m == 'lock' else 1, st, node.get('line'))
                return VOID
            if m in ('unlock', 'unlock_shared'):
                E.oblige(st, self.held(st)[i] == (2 if m == 'unlock' else 1), 'lock-order', 'only a held lock is released', node.get('line'), assume=False)
                self.release(i, st)
                return VOID
        raise Unsupported(f'{rec}::{m}')

    def leave(self, keys, st):
        """Lock objects of a block (or frame) that ends."""
        if ROOT not in st.env:
            return
        for k in keys:
            v = st.env.get(k)
            if isinstance(v, Rec) and v.name == 'lock':
                self.release(v.f['i'], st, v.f['own'])
                st.env[k] = Rec('lock', {'i': v.f['i'], 'own': z3.BoolVal(False)}, v.ty)

    def access(self, kind, loc, st, val=None):
        p = loc.path
        for n in range(len(p) - 1):
            if p[n] == ('f', self.cell_field) and p[n + 1][0] == 'i':
                break
        else:
            if kind == 'write' and p and p[-1] == ('f', self.cell_field):
                self.E.oblige(st, z3.BoolVal(False), 'lock', 'the whole matrix is replaced without excluding every other thread', self.E.cur_line, assume=False)
            return
        if ROOT not in st.env or self.E.suppress:
            return
        idx = p[n + 1][1]
        r, c = self.cell_rc(idx)
        h = self.held(st)
        self.accesses.append((list(st.pc), kind, r, c, h, st.env[ROOT].f['released'], self.E.cur_line, self.E.frames[-1].fn['name'] if self.E.frames else '', val))
