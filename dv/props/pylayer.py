"""Contracts of the Python layer (graph_generator, graph_merger, path_interpolator, shapefile_reader, polygon), decided
by dv/pyvc.py on the real source.  The native module and pyshp are known by contract only."""
import z3
from .. import pyvc
from ..pyvc import *

IMPL = 'capi.src.implementation.'


def uf(name, *args):
    return z3.Function(name, *[a.sort() for a in args], Py)(*args)


# default arguments of the native binding (bindings.cpp)
DEFAULT = {'maximum_distance_to_search_from_source': pyvc.Native('math.inf'), 'correct_vertices_on_land': False, 'a_star_greediness_weighting': 1.0}


def is_none(t):
    return z3.Function('is_none', Py, z3.BoolSort())(t)


def result_field(n):
    """A batch result has a path or an error, never both (C07); error texts are not empty."""
    def f(X, o):
        e, p = uf('attr_error_msg', o), uf('attr_path', o)
        X.fact(z3.And(is_none(p) == z3.Not(is_none(e)), z3.Function('truth', Py, z3.BoolSort())(e) == z3.Not(is_none(e))))
        return uf('attr_' + n, o)
    return f


def event(name, names, result=None):
    """A native function whose calls are recorded, arguments by name."""
    def f(X, a, kw):
        args = dict(zip(names, a))
        if len(a) > len(names) or set(kw) - set(names) or set(kw) & set(args):
            raise Unsupported('arguments of ' + name)
        args.update(kw)
        for k in names:
            if k not in args and k in DEFAULT:
                args[k] = DEFAULT[k]
        r = X.fresh(name, Py) if result is None else result(X, args)
        X.events.append((name, args, r))
        return r
    return f


def native():
    OPT = ['source', 'destination', 'maximum_distance_to_search_from_source', 'correct_vertices_on_land', 'a_star_greediness_weighting']
    C = {}
    C['os.mkdir'] = C['os.makedirs'] = event('mkdir', ['path', 'mode'])
    C['visgraph.VisGraphCoord'] = lambda X, a, kw: Rec('VisGraphCoord', {'#longitude': a[0], '#latitude': a[1]}) if len(a) == 2 and not kw else pyvc.unsup('VisGraphCoord')
    C['visgraph.VisGraphPolygon'] = lambda X, a, kw: Rec('VisGraphPolygon', {'#vertices': X.seq(a[0])}) if len(a) == 1 and not kw else pyvc.unsup('VisGraphPolygon')
    # a native polygon has as many vertices as it was given (C19)
    C['VisGraphPolygon.vertices'] = lambda X, o: Seq(o.f['#vertices'].n, lambda j: X.fresh('vertex', Py), o.f['#vertices'].keep)
    C['visgraph.generate_visgraph'] = event('generate', ['polygons'])
    C['visgraph.generate_visgraph_with_shuffled_range'] = event('generate_range', ['polygons', 'start', 'end', 'seed'])
    C['visgraph.save_graph_to_file'] = event('save', ['graph', 'path'])
    C['visgraph.load_graph_from_file'] = lambda X, a, kw: uf('load', X.obj(a[0]))
    C['visgraph.merge_graphs'] = event('merge', ['graphs'])
    C['visgraph.VisGraphShortestPathComputer'] = lambda X, a, kw: uf('computer', X.obj(a[0]))
    C['.shortest_path()'] = lambda X, o, a, kw: event('shortest_path', ['self'] + OPT)(X, [o] + a, kw)
    C['.shortest_paths()'] = lambda X, o, a, kw: event('shortest_paths', ['self', 'source_dest_pairs'] + OPT[2:])(X, [o] + a, kw)
    C['attr.error_msg'], C['attr.path'] = result_field('error_msg'), result_field('path')
    C['ShapefileReader.read()'] = lambda X, o, a, kw: uf('read', X.obj((a + list(kw.values()))[0]))
    return C


def one_event(X, name):
    es = [e for e in X.events if e[0] == name]
    if len(es) != 1:
        X.oblige(z3.BoolVal(False), f'{name} is called once (not {len(es)} times)')
        raise Stop()
    return es[0][1], es[0][2]


class Stop(Exception):
    pass


def guarded(f):
    def g(X):
        try:
            f(X)
        except Stop:
            pass
    return g


def default_path(folder):
    return uf('join', folder, z3.Const("const 'default'", Py))


def ob(n):
    return z3.Const(n, Py)


def spec_polygons(X, P):
    a = lambda o, n: uf('attr_' + n, o)
    n = pyvc.length(P)
    X.fact(n >= 0)

    def poly(i):
        vs = a(pyvc.item(P, i), 'vertices')
        return Rec('VisGraphPolygon', {'#vertices': Seq(pyvc.length(vs), lambda j: Rec('VisGraphCoord', {'#longitude': a(pyvc.item(vs, j), 'longitude'), '#latitude': a(pyvc.item(vs, j), 'latitude')}))})
    return Seq(n, poly)


def gen_instance(X):
    return X.construct(X.glob(IMPL + 'graph_generator', 'GraphGenerator'), [], {})


@guarded
def generate(X):
    path, out = ob('shape_file'), ob('output')
    X.apply(X.attr(gen_instance(X), 'generate'), [path, out])
    g, graph = one_event(X, 'generate')
    ensure_eq(X, g['polygons'], spec_polygons(X, uf('read', path)), 'every polygon read is passed on, with every position unaltered')
    s, _ = one_event(X, 'save')
    ensure_eq(X, s['graph'], graph, 'the graph generated is the one saved')
    ensure_eq(X, s['path'], default_path(out), 'it is saved where it is looked for')


@guarded
def splits(X):
    path, out, seed = ob('shape_file'), ob('output'), ob('seed')
    i, m = z3.Int('split'), z3.Int('splits')
    X.assume(z3.And(0 <= i, i < m))
    P = uf('read', path)
    spec = spec_polygons(X, P)
    N = X.sum(Seq(spec.n, lambda k: spec.at(k).f['#vertices'].n))
    w = X.fresh('w', z3.IntSort())
    X.fact(N >= 0)      # a sum of lengths
    gen = gen_instance(X)
    f = X.attr(gen, 'generate_for_vertex_range')

    def once(k):
        X.events.clear()
        X.apply(f, [path, out, k, m, seed])
        g, graph = one_event(X, 'generate_range')
        ensure_eq(X, g['polygons'], spec, 'a split is generated from every polygon read, unaltered')
        ensure_eq(X, g['seed'], seed, 'every split shuffles with the seed given')
        s, _ = one_event(X, 'save')
        ensure_eq(X, s['graph'], graph, 'the graph of the split is the one saved')
        ensure_eq(X, s['path'], default_path(out), 'it is saved where it is looked for')
        a, b = g['start'], g['end']
        if not (is_int(a) and is_int(b)):
            raise Unsupported('range of a split')
        return to_int(a), to_int(b)
    a, b = once(i)
    X.oblige(a >= 0, 'ranges start within the vertices')
    X.oblige(a <= b, 'no range is reversed')
    X.oblige(b <= N, 'ranges end within the vertices')
    X.oblige(z3.Implies(i == 0, a == 0), 'the first range starts at the first vertex')
    X.oblige(z3.Implies(i == m - 1, b == N), 'the last range ends at the last vertex')
    if X.branch(i + 1 < m):
        a2, b2 = once(i + 1)
        X.oblige(a2 == b, 'every range starts where the one before it ends')


@guarded
def merge(X):
    files, out = ob('input_files'), ob('output')
    X.apply(X.attr(X.construct(X.glob(IMPL + 'graph_merger', 'GraphMerger'), [], {}), 'merge'), [files, out])
    m, merged = one_event(X, 'merge')
    n = pyvc.length(files)
    ensure_eq(X, m['graphs'], Seq(n, lambda i: uf('load', default_path(pyvc.item(files, i)))), 'every input graph is merged')
    s, _ = one_event(X, 'save')
    ensure_eq(X, s['graph'], merged, 'the merged graph is the one saved')
    ensure_eq(X, s['path'], default_path(out), 'it is saved where it is looked for')


OPTS = ['search_distance_from_source_limit', 'correct_vertices_on_land', 'a_star_greediness_weighting']
NAT = ['maximum_distance_to_search_from_source', 'correct_vertices_on_land', 'a_star_greediness_weighting']


def interpolator(X):
    return X.construct(X.glob(IMPL + 'path_interpolator', 'PathInterpolator'), [ob('graph_folder')], {})


def spec_coord(c):
    return Rec('VisGraphCoord', {'#longitude': uf('attr_longitude', c), '#latitude': uf('attr_latitude', c)})


def spec_path(X, p):
    cls = X.glob(IMPL + 'dtos.coordinate', 'Coordinate')
    return Seq(pyvc.length(p), lambda i: Rec(cls, {'latitude': uf('attr_latitude', pyvc.item(p, i)), 'longitude': uf('attr_longitude', pyvc.item(p, i))}))


@guarded
def single(X):
    p = interpolator(X)
    a, b = ob('coord_1'), ob('coord_2')
    opts = [ob(o) for o in OPTS]
    r = X.apply(X.attr(p, 'interpolate'), [a, b] + opts)
    q, path = one_event(X, 'shortest_path')
    ensure_eq(X, q['self'], uf('computer', uf('load', default_path(ob('graph_folder')))), 'paths are searched in the graph of the folder given')
    ensure_eq(X, q['source'], spec_coord(a), 'the source searched from is the one given')
    ensure_eq(X, q['destination'], spec_coord(b), 'the destination searched for is the one given')
    for o, n in zip(opts, NAT):
        ensure_eq(X, q[n], o, f'the request has the option given: {n}')
    ensure_eq(X, r, spec_path(X, path), 'the answer lists the positions of the path found')


def pair_list(X, n):
    t = ob(n)
    X.fact(pyvc.length(t) >= 0)
    return X.cell(Seq(pyvc.length(t), lambda i: Tup([pyvc.item(pyvc.item(t, i), z3.IntVal(k)) for k in (0, 1)])))


@guarded
def batch(X):
    p = interpolator(X)
    pairs, qs = ob('coord_pairs'), pair_list(X, 'coord_pairs')
    opts = [ob(o) for o in OPTS]
    r = X.apply(X.attr(p, 'batch_interpolate'), [qs] + opts)
    q, res = one_event(X, 'shortest_paths')
    ensure_eq(X, q['self'], uf('computer', uf('load', default_path(ob('graph_folder')))), 'paths are searched in the graph of the folder given')
    pr = lambda i, k: pyvc.item(pyvc.item(pairs, i), z3.IntVal(k))
    ensure_eq(X, q['source_dest_pairs'], Seq(pyvc.length(pairs), lambda i: Tup([spec_coord(pr(i, 0)), spec_coord(pr(i, 1))])), 'the pairs searched are those given, in order')
    for o, n in zip(opts, NAT):
        ensure_eq(X, q[n], o, f'every request of the batch has the option given: {n}')
    a = lambda i, n: uf('attr_' + n, pyvc.item(res, i))
    ensure_eq(X, r, Seq(pyvc.length(res), lambda i: Choice(is_none(a(i, 'error_msg')), spec_path(X, a(i, 'path')), None)), 'one answer per pair: the path found, or none where the request failed')


@guarded
def defaults(X):
    """Without options, a request and a batch ask for the same."""
    p = interpolator(X)
    X.apply(X.attr(p, 'interpolate'), [ob('a'), ob('b')])
    q, _ = one_event(X, 'shortest_path')
    X.events.clear()
    X.apply(X.attr(p, 'batch_interpolate'), [pair_list(X, 'pairs')])
    q2, _ = one_event(X, 'shortest_paths')
    for n in NAT:
        ensure_eq(X, q2[n], q[n], f'a batch has the default of a request: {n}')


# -------------------------------------------------------------------- shapefiles
def shape_contracts():
    C = native()
    del C['ShapefileReader.read()']
    C['shapefile.Reader'] = lambda X, a, kw: uf('reader', X.obj(a[0])) if len(a) == 1 and not kw else pyvc.unsup('shapefile.Reader')
    C['.shapes()'] = C['.iterShapes()'] = lambda X, o, a, kw: uf('shapes', o)
    C['builtins.str'] = lambda X, a, kw: X.obj(a[0])
    C['attr.parts'] = parts
    C['attr.points'] = points
    C['attr.shapeType'] = lambda X, o: z3.If(is_polygon(o), z3.IntVal(5), z3.Function('other_type', Py, z3.IntSort())(o))
    C['attr.shapeTypeName'] = lambda X, o: uf('attr_shapeTypeName', o)
    return C


def is_polygon(s):
    return uf('attr_shapeTypeName', s) == z3.Const("const 'POLYGON'", Py)


def npoints(s):
    return pyvc.length(uf('attr_points', s))


def nparts(s):
    return z3.Function('nparts', Py, z3.IntSort())(s)


def part(s, j):
    return z3.Function('part', Py, z3.IntSort(), z3.IntSort())(s, j)


def points(X, s):
    t = uf('attr_points', s)
    X.fact(pyvc.length(t) >= 0)
    return Seq(pyvc.length(t), lambda j: Tup([pyvc.item(pyvc.item(t, j), z3.IntVal(k)) for k in (0, 1)]))


def parts(X, s):
    """The rings of a shape start at increasing positions, the first at 0."""
    X.fact(z3.And(nparts(s) >= 0, npoints(s) >= 0, z3.Implies(nparts(s) > 0, part(s, z3.IntVal(0)) == 0), z3.Implies(nparts(s) > 1, z3.And(part(s, z3.IntVal(1)) >= 1, part(s, z3.IntVal(1)) < npoints(s)))))
    X.fact(z3.Function('other_type', Py, z3.IntSort())(s) != 5)
    return Seq(nparts(s), lambda j: part(s, j))


def read_shapes(X):
    path = ob('shape_file')
    r = X.apply(X.attr(X.construct(X.glob(IMPL + 'shapefiles.shapefile_reader', 'ShapefileReader'), [], {}), 'read'), [path])
    shapes = uf('shapes', uf('reader', path))
    S = X.seq(r)
    j, k = X.fresh('shape', z3.IntSort()), X.fresh('position', z3.IntSort())
    X.oblige(S.n == pyvc.length(shapes), 'every shape of the file is considered')
    X.assume(z3.And(j >= 0, j < pyvc.length(shapes)))
    s = pyvc.item(shapes, j)
    parts(X, s)
    ring = z3.If(nparts(s) > 1, part(s, z3.IntVal(1)), npoints(s))
    want = z3.And(is_polygon(s), ring > 3)
    keep = S.keep(j) if S.keep is not None else z3.BoolVal(True)
    X.oblige(keep == want, 'an obstacle for exactly the polygon shapes whose first ring lists more than three positions')
    if not X.branch(want):
        return
    vs = X.seq(X.attr(S.at(j), 'vertices'))
    if vs.keep is not None:
        raise Unsupported('vertices of an obstacle')
    X.oblige(vs.n == ring - 1, 'the obstacle has every position of the ring but the closing one')
    X.assume(z3.And(k >= 0, k < ring - 1))
    v = vs.at(k)
    pt = pyvc.item(uf('attr_points', s), k)
    ensure_eq(X, X.attr(v, 'longitude'), pyvc.item(pt, z3.IntVal(0)), 'its longitudes are the first axis of the positions, in order')
    ensure_eq(X, X.attr(v, 'latitude'), pyvc.item(pt, z3.IntVal(1)), 'its latitudes are the second axis of the positions, in order')


def target(name, fn, contracts=native, case=None):
    def f(seed, tier):
        r = pyvc.verify(name, fn, contracts(), budget=10 if tier == 'quick' else 60)
        from .. import pyharness
        h = pyharness.run(case, seed, 6 if tier == 'quick' and not r['error'] and all(o['status'] == 'proved' for o in r['obligs']) else 25) if case else None
        if h is not None:
            if h.get('failure'):
                bad = [o['desc'] for o in r['obligs'] if o['status'] != 'proved']
                r['failure'] = dict(h['failure'], obligations=bad)
            r['bounded'] = h.get('bounded')
        return r
    return (name, f)


GENERATE = target('generator passes on what is read', generate, case='generate')
SPLITS = target('ranges of the splits', splits, case='splits')
MERGE = target('merger passes on the inputs', merge, case='merge')
SINGLE = target('request of the interpolator', single, case='single')
BATCH = target('batch of the interpolator', batch, case='batch')
DEFAULTS = target('default options', defaults)
SHAPES = target('shapefile polygons', read_shapes, shape_contracts, case='shapes')
