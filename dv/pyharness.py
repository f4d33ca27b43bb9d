"""Bounded search on the Python layer: the real modules of /repo run with recording stand-ins for the native module and
pyshp.  A case is a random input; the oracle recomputes what the specification says.  Never counted as proof."""
import json, os, subprocess, sys, random, time
if __name__ != "__main__":
    from . import frontend

HERE = os.path.dirname(os.path.abspath(__file__))


def run(case, seed, secs):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='')
    try:
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'pyharness.py'), frontend.REPO, case, str(seed), str(secs)], capture_output=True, text=True, timeout=secs + 60, env=env)
        r = json.loads(p.stdout.splitlines()[-1])
    except Exception as e:
        return {'bounded': {'what': f'Python cases {case}', 'error': f'{type(e).__name__}: {e}'[:300]}}
    out = {'bounded': {'what': f'Python cases {case}: real modules with recording stand-ins for the native module and pyshp', 'evaluations': r['n'], 'error': r.get('error')}}
    if r.get('fail'):
        out['failure'] = {'what': r['fail']['what'], 'failing_input': r['fail']['input'], 'reproduce': f'cd /verif && python3-vt -B dv/pyharness.py {frontend.REPO} {case} {seed} {secs}'}
    return out


def main():
    import types, tempfile, shutil, atexit
    repo, case, seed, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    sys.path.insert(0, repo)
    events = []
    tmp = tempfile.mkdtemp(prefix='pyharness')
    atexit.register(shutil.rmtree, tmp, True)

    class Coord:
        def __init__(self, a, b):
            self.a, self.b = a, b
        longitude = property(lambda s: s.a)
        latitude = property(lambda s: s.b)

        def __eq__(s, o):
            return isinstance(o, Coord) and (s.a, s.b) == (o.a, o.b)

        def __repr__(s):
            return f'C({s.a},{s.b})'

    class Poly:
        def __init__(self, vs):
            self.vs = list(vs)
        vertices = property(lambda s: list(s.vs))

        def __eq__(s, o):
            return isinstance(o, Poly) and s.vs == o.vs

        def __repr__(s):
            return f'P{s.vs}'

    class Result:
        def __init__(s, path, error_msg):
            s.path, s.error_msg = path, error_msg
    answers = {}
    OPT = ['maximum_distance_to_search_from_source', 'correct_vertices_on_land', 'a_star_greediness_weighting']

    class Computer:
        def __init__(s, graph):
            s.graph = graph

        def shortest_path(s, source, destination, maximum_distance_to_search_from_source=float('inf'), correct_vertices_on_land=False, a_star_greediness_weighting=1.0):
            events.append(('path', s.graph, source, destination, maximum_distance_to_search_from_source, correct_vertices_on_land, a_star_greediness_weighting))
            r = answers['one'](source, destination)
            if r.error_msg is not None:
                raise RuntimeError(r.error_msg)
            return r.path

        def shortest_paths(s, source_dest_pairs, maximum_distance_to_search_from_source=float('inf'), correct_vertices_on_land=False, a_star_greediness_weighting=1.0):
            pairs = [tuple(p) for p in source_dest_pairs]
            events.append(('paths', s.graph, pairs, maximum_distance_to_search_from_source, correct_vertices_on_land, a_star_greediness_weighting))
            return [answers['one'](*p) for p in pairs]

    def rec(name, ret=None):
        def f(*a):
            events.append((name,) + tuple(list(x) if isinstance(x, (list, tuple)) else x for x in a))
            return ('result', name, len(events))
        return f
    nat = types.ModuleType('capi.src.implementation.visibility_graphs._vis_graph')
    for n, v in dict(VisGraph=object, VisGraphBatchInterpolateResult=Result, VisGraphCoord=Coord, VisGraphPolygon=Poly, VisGraphShortestPathComputer=Computer, VisGraphVisibleVertex=object, VistreeGenerator=object,
                     generate_visgraph=rec('generate'), generate_visgraph_with_shuffled_range=rec('range'), load_graph_from_file=lambda p: ('graph of', str(p)), merge_graphs=rec('merge'), save_graph_to_file=rec('save')).items():
        setattr(nat, n, v)
    sys.modules[nat.__name__] = nat
    shp = types.ModuleType('shapefile')
    files = {}

    class Reader:
        def __init__(s, path):
            s.path = path

        def __enter__(s):
            return s

        def __exit__(s, *a):
            return False

        def shapes(s):
            return list(files[s.path])

        def iterShapes(s):
            return iter(files[s.path])

        def __len__(s):
            return len(files[s.path])

        def shape(s, i=0):
            return files[s.path][i]

        def close(s):
            pass
    shp.Reader = Reader
    shp.POLYGON, shp.POLYLINE, shp.POINT, shp.NULL = 5, 3, 1, 0
    sys.modules['shapefile'] = shp
    rnd = random.Random(seed)

    class Fail(Exception):
        pass

    def need(c, what, **inp):
        if not c:
            raise Fail(what, {k: repr(v)[:1500] for k, v in inp.items()})
    dirs = [0]

    def out():
        dirs[0] += 1
        return os.path.join(tmp, f'o{dirs[0]}')
    f64 = lambda: rnd.choice([rnd.uniform(-180, 180), float(rnd.randint(-180, 180)), round(rnd.uniform(-180, 180), 6), -0.0, 180.0, -180.0])

    def polys():
        from capi.src.implementation.datastructures.polygon import Polygon
        from capi.src.implementation.dtos.coordinate import Coordinate
        return [Polygon([Coordinate(latitude=f64() / 2, longitude=f64()) for _ in range(rnd.choice([3, 3, 4, 5, 9]))]) for _ in range(rnd.choice([0, 1, 1, 2, 3, 6]))]

    def passed(ps):
        return [Poly([Coord(v.longitude, v.latitude) for v in p.vertices]) for p in ps]

    class FakeReader:
        def __init__(s, ps):
            s.ps = ps

        def read(s, path):
            events.append(('read', str(path)))
            return s.ps

    def of(name):
        return [e for e in events if e[0] == name]

    def generate():
        from capi.src.implementation.graph_generator import GraphGenerator
        ps, o = polys(), out()
        del events[:]
        GraphGenerator(FakeReader(ps)).generate('in.shp', o)
        g, s = of('generate'), of('save')
        need(len(g) == 1 and g[0][1] == passed(ps), 'the generator does not pass on every position of every polygon, unaltered', polygons=ps, passed=g)
        need(len(s) == 1 and s[0][1][1] == 'generate' and str(s[0][2]) == os.path.join(o, 'default'), 'the generated graph is not saved where it is looked for', saved=s)

    def splits():
        from capi.src.implementation.graph_generator import GraphGenerator
        ps, m, seed = polys(), rnd.choice([1, 2, 3, 5, 8, 13, rnd.randint(1, 60)]), rnd.randint(0, 1 << 31)
        n = sum(len(p.vertices) for p in ps)
        del events[:]
        order = list(range(m))
        rnd.shuffle(order)
        got = {}
        for i in order:
            o = out()
            k = len(events)
            GraphGenerator(FakeReader(ps)).generate_for_vertex_range('in.shp', o, i, m, seed)
            r = [e for e in events[k:] if e[0] == 'range']
            s = [e for e in events[k:] if e[0] == 'save']
            need(len(r) == 1 and r[0][1] == passed(ps), 'a split is not generated from every position of every polygon', polygons=ps, passed=r)
            need(r[0][4] == seed, 'a split shuffles with another seed', seed=seed, used=r[0][4])
            need(len(s) == 1 and s[0][1][1] == 'range' and str(s[0][2]) == os.path.join(o, 'default'), 'the graph of a split is not saved where it is looked for', saved=s)
            got[i] = (r[0][2], r[0][3])
        seen = [0] * n
        for i in range(m):
            a, b = got[i]
            need(isinstance(a, int) and isinstance(b, int) and 0 <= a <= b <= n, 'a range of a split is out of bounds', vertices=n, splits=m, split=i, range=(a, b))
            for j in range(a, b):
                seen[j] += 1
        need(all(x == 1 for x in seen), 'the ranges of the splits do not cover every vertex exactly once', vertices=n, splits=m, ranges=got)

    def merge():
        from capi.src.implementation.graph_merger import GraphMerger
        fs, o = [f'g{rnd.randint(0, 5)}' for _ in range(rnd.randint(0, 6))], out()
        del events[:]
        GraphMerger().merge(fs, o)
        m, s = of('merge'), of('save')
        need(len(m) == 1 and m[0][1] == [('graph of', os.path.join(f, 'default')) for f in fs], 'not every input graph is merged', files=fs, merged=m)
        need(len(s) == 1 and s[0][1][1] == 'merge' and str(s[0][2]) == os.path.join(o, 'default'), 'the merged graph is not saved where it is looked for', saved=s)

    def answer():
        tab = {}

        def one(a, b):
            k = (a.a, a.b, b.a, b.b)
            if k not in tab:
                r = rnd.random()
                tab[k] = Result(None, 'No path') if r < .3 else Result([Coord(f64(), f64() / 2) for _ in range(rnd.choice([0, 1, 2, 2, 3, 5]))], None)
            return tab[k]
        answers['one'] = one
        return one

    def options():
        return rnd.choice([float('inf'), 0.0, f64() + 200]), rnd.random() < .5, rnd.choice([1.0, 0.0, .5, rnd.random()])

    def interp():
        from capi.src.implementation.path_interpolator import PathInterpolator
        from capi.src.implementation.dtos.coordinate import Coordinate
        return PathInterpolator('folder'), lambda: Coordinate(latitude=f64() / 2, longitude=f64())

    def single():
        one = answer()
        p, c = interp()
        a, b, o = c(), c(), options()
        del events[:]
        r = one(Coord(a.longitude, a.latitude), Coord(b.longitude, b.latitude))
        try:
            got = p.interpolate(a, b, *o)
        except RuntimeError as e:
            need(r.error_msg is not None, 'a request fails that has a path', request=(a, b))
        else:
            need(r.error_msg is None, 'a failed request is answered', request=(a, b))
            need([(x.longitude, x.latitude) for x in got] == [(x.a, x.b) for x in r.path], 'the answer is not the path found', path=r.path, answer=got)
        e = of('path')
        need(len(e) == 1 and e[0][1] == ('graph of', os.path.join('folder', 'default')) and e[0][2:4] == (Coord(a.longitude, a.latitude), Coord(b.longitude, b.latitude)) and e[0][4:] == o, 'the request searched is not the one given', given=(a, b, o), searched=e)

    def batch():
        import warnings
        one = answer()
        p, c = interp()
        pairs, o = [(c(), c()) for _ in range(rnd.choice([0, 1, 2, 3, 6]))], options()
        if pairs and rnd.random() < .4:
            pairs.append(pairs[0])
        nat_pairs = [(Coord(a.longitude, a.latitude), Coord(b.longitude, b.latitude)) for a, b in pairs]
        want = [one(*q) for q in nat_pairs]
        del events[:]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = p.batch_interpolate(pairs, *o)
        e = of('paths')
        need(len(e) == 1 and e[0][2] == nat_pairs and e[0][3:] == o, 'the batch searched is not the one given', given=(pairs, o), searched=e)
        need(len(got) == len(pairs), 'not one answer per pair', pairs=pairs, answers=got)
        for w, g, q in zip(want, got, pairs):
            if w.error_msg is not None:
                need(g is None, 'a failed request of a batch is answered', pair=q, answer=g)
            else:
                need(g is not None and [(x.longitude, x.latitude) for x in g] == [(x.a, x.b) for x in w.path], 'an answer of a batch is not the path found', pair=q, path=w.path, answer=g)

    class Shape:
        pass

    def shapes():
        from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader
        ss, want = [], []
        kinds = [('POLYGON', 5)] * 6 + [('POLYLINE', 3), ('POINT', 1), ('NULL', 0), ('POLYGONZ', 15), ('MULTIPOINT', 8)]
        for _ in range(rnd.choice([0, 1, 2, 3, 6])):
            s = Shape()
            s.shapeTypeName, s.shapeType = rnd.choice(kinds)
            rings = []
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                r = [(f64(), f64() / 2) for _ in range(rnd.choice([1, 2, 3, 3, 4, 5, 8]))]
                if rnd.random() < .3:
                    r.insert(1, r[0])
                rings.append(r + [r[0]])
            if s.shapeTypeName == 'NULL':
                rings = []
            s.points = [p for r in rings for p in r]
            s.parts, k = [], 0
            for r in rings:
                s.parts.append(k)
                k += len(r)
            if rnd.random() < .1 and rings:
                s.points = [list(p) for p in s.points]
            s.bbox = [0, 0, 0, 0]
            ss.append(s)
            if s.shapeTypeName == 'POLYGON' and rings and len(rings[0]) > 3:
                want.append([tuple(p) for p in rings[0][:-1]])
        files['x.shp'] = ss
        got = ShapefileReader().read('x.shp')
        g = [[(v.longitude, v.latitude) for v in p.vertices] for p in got]
        need(g == want, 'the obstacles read are not the first rings of the polygon shapes', shapes=[(s.shapeTypeName, s.parts, s.points) for s in ss], read=g, expected=want)

    cases = dict(generate=generate, splits=splits, merge=merge, single=single, batch=batch, shapes=shapes)
    n, t0, r = 0, time.time(), {}
    f = cases[case]
    try:
        while time.time() - t0 < secs and n < 4000:
            n += 1
            f()
    except Fail as e:
        r['fail'] = {'what': e.args[0], 'input': e.args[1], 'case': n}
    except (OSError, AttributeError, ImportError, NotImplementedError, TypeError, KeyError, NameError) as e:
        # an operation the stand-ins do not know is not a verdict
        import traceback
        r['error'] = f'{type(e).__name__}: {e} ' + traceback.format_exc()[-400:]
        last = traceback.extract_tb(e.__traceback__)[-1]
        if not any(x in str(e) for x in ('Coord', 'Poly', 'Result', 'Computer', 'Reader', 'Shape', 'Fake', 'shapefile', '_vis_graph')) and last.filename.startswith(repo):
            r['fail'] = {'what': f'the Python layer fails: {type(e).__name__}: {e}', 'input': {'case': case, 'number': n, 'at': f'{last.filename}:{last.lineno}'}, 'case': n}
    except Exception as e:
        r['fail'] = {'what': f'the Python layer fails: {type(e).__name__}: {e}', 'input': {'case': case, 'number': n}, 'case': n}
    r['n'] = n
    print(json.dumps(r))


if __name__ == '__main__':
    main()
