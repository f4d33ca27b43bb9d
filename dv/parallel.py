"""Loops that OpenMP runs in parallel.  The verified iteration order is the sequential one; these obligations make every
other schedule equivalent to it: an iteration touches no shared variable that the loop changes except its own slot
(the element at its own index) and edges of a graph, which it only adds (adding commutes, C11, under locks, C14) and
whose presence, if it asks for it, may be anything.  No exception leaves the iteration."""
import re, os
import z3

ADDS = ('add_edge', 'add_directed_edge')
ASKS = ('has_edge', 'is_edge_meridian_crossing', 'get_neighbors')
FIXED = ('has_vertex', 'get_vertices', 'get_polygons')
CLAUSES = ('shared', 'default', 'schedule', 'num_threads', 'nowait', 'if')


def pragmas(path, cache={}):
    """(line after the directive, directive words, understood) of a source file."""
    if path in cache:
        return cache[path]
    out = []
    try:
        ls = open(path, errors='replace').read().split('\n')
    except OSError:
        ls = []
    i = 0
    while i < len(ls):
        m = re.match(r'\s*#\s*pragma\s+omp\b(.*)', ls[i])
        if m:
            t = m.group(1)
            while t.rstrip().endswith('\\') and i + 1 < len(ls):
                i += 1
                t = t.rstrip()[:-1] + ' ' + ls[i]
            t = re.sub(r'//.*|/\*.*?\*/', ' ', t)
            names = re.findall(r'[A-Za-z_]\w*', re.sub(r'\([^()]*(\([^()]*\)[^()]*)*\)', ' ', t))
            kinds = [n for n in names if n in ('parallel', 'for')]
            rest = [n for n in names if n not in ('parallel', 'for')]
            out.append((i + 2, kinds, bool(kinds) and all(n in CLAUSES for n in rest)))
        i += 1
    cache[path] = out
    return out


def mark(prog):
    """Marks the loops a directive stands before."""
    files = {}
    for f in prog.funcs.values():
        if f.get('body') is not None and f.get('file'):
            files.setdefault(f['file'], []).append(f)
    for path, fs in files.items():
        ps = pragmas(path)
        if not ps:
            continue
        loops = []

        def walk(n, f):
            if isinstance(n, dict):
                if n.get('k') in ('For', 'RangeFor') and n.get('line'):
                    loops.append((n['line'], n))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v, f)
            elif isinstance(n, list):
                for v in n:
                    walk(v, f)
        for f in fs:
            walk(f['body'], f)
            for line, kinds, ok in ps:
                if not ok and f['line'] <= line <= (f.get('endline') or 0):
                    f['omp_unknown'] = True
        for line, kinds, ok in ps:
            if 'for' in kinds:
                after = [x for x, _ in loops if x >= line]
                for x, n in loops:
                    if after and x == min(after):
                        n['omp'] = True


class Par:
    def __init__(self, E, L, node, head, leaves):
        self.E, self.node = E, node
        own = {L.kcell}
        iv = None
        init = node.get('init')
        if init is not None:
            for v in init.get('vars', init.get('decls', [])) if isinstance(init, dict) else []:
                key = E.frames[-1].locals.get(v.get('id'))
                if key is not None:
                    own.add(key)
                    iv = key
        self.iv = head.env[iv if iv is not None else L.kcell]
        self.shared = set(head.env) - own
        self.mods = {}
        for l in leaves:
            if l.root in self.shared:
                self.mods.setdefault(l.root, []).append(l)

    def oblige(self, st, f, what):
        if not z3.is_true(z3.simplify(f)):
            self.E.oblige(st, f, 'parallel', what, self.node.get('line'))

    def root(self, loc, st):
        v = st.env.get(loc.root)
        while type(v).__name__ == 'Ref':
            loc = v.loc
            v = st.env.get(loc.root)
        return loc.root

    def access(self, kind, loc, st):
        """None, or what a read of a shared container yields while other iterations fill it."""
        E = self.E
        if loc.root not in self.mods or E.suppress:
            return None
        out = None
        for l in self.mods[loc.root]:
            p, q = l.path, loc.path
            if any(a[0] != b[0] or (a[0] == 'f' and a[1] != b[1]) for a, b in zip(p, q)):
                continue
            if l.kind == 'arr' and len(q) > len(p) and q[len(p)][0] == 'i':
                self.oblige(st, q[len(p)][1] == self.iv, 'an iteration of a parallel loop touches only its own element')
            elif l.kind == 'arr' and kind == 'read' and len(q) <= len(p):
                out = 'any' if len(q) == len(p) else out
                if len(q) < len(p):
                    self.oblige(st, z3.BoolVal(False), 'an iteration of a parallel loop reads nothing others write')
            else:
                self.oblige(st, z3.BoolVal(False), f'an iteration of a parallel loop {kind}s no variable that others write')
        return out


def graph_call(E, st, fn, this, name):
    """None if the call is as usual; otherwise how a method of an object that iterations change is to be taken."""
    par = E.par
    if par is None or E.suppress or this is None:
        return None
    if par.root(this, st) not in par.mods:
        return None
    m = name.split('::')[-1]
    if m in ADDS or m in FIXED:
        return 'quiet'
    if m in ASKS:
        return 'any'
    return None
