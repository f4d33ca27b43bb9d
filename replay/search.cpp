// Cases of C01 to C08: sweeps, visibility graphs, searches.
#include <omp.h>
#include <s2/s2edge_crossings.h>
#include <s2/s2edge_distances.h>
#include <s2/s2latlng.h>
#include <s2/s2loop.h>

#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/graph/graph.hpp"
#include "hc.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"

using Polys = std::vector<std::vector<Coordinate>>;

static std::vector<Polygon> make(const Polys &ps) {
    std::vector<Polygon> o;
    for (auto &p : ps)
        o.push_back(Polygon(p));
    return o;
}
static Polys ccw(Polys ps) {
    for (auto &p : ps)
        if (area2(p) < 0)
            std::reverse(p.begin(), p.end());
    return ps;
}
static long norm_lon(long x) {
    while (x > MAXLON)
        x -= PER;
    while (x < -MAXLON)
        x += PER;
    return x;
}
struct Quiet { // the progress bar writes to std::cout
    std::streambuf *old;
    std::ostringstream sink;
    Quiet() { old = std::cout.rdbuf(sink.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(old); }
};

// strictly inside the interior wedge at vertex b of a counter-clockwise polygon
static bool in_wedge(const Coordinate &a, const Coordinate &b, const Coordinate &c, const Coordinate &p) {
    int turn = ori(a, b, c), x = ori(b, a, p), y = ori(b, c, p);
    return turn > 0 ? (x < 0 && y > 0) : (x < 0 || y > 0);
}
// on the outer side of the wedge, off both edges
static bool outside_wedge(const Coordinate &a, const Coordinate &b, const Coordinate &c, const Coordinate &p) {
    int turn = ori(a, b, c), x = ori(b, a, p), y = ori(b, c, p);
    return turn > 0 ? (x > 0 || y < 0) : (x > 0 && y < 0);
}
// crossing point of ow with pq is within 1.5 microdegrees of w
static bool rounds_to(const Coordinate &o, const Coordinate &w, const Coordinate &p, const Coordinate &q) {
    I128 nx = lon(w) - lon(o), ny = lat(w) - lat(o), mx = lon(q) - lon(p), my = lat(q) - lat(p);
    I128 den = nx * my - ny * mx;
    if (den == 0)
        return false;
    I128 num = (I128)(lon(p) - lon(o)) * my - (I128)(lat(p) - lat(o)) * mx; // o + n num/den
    long double t = (long double)num / (long double)den - 1.0L;
    return std::fabs((double)(t * (long double)nx)) <= 1.5 && std::fabs((double)(t * (long double)ny)) <= 1.5;
}

struct Scene {
    Polys ps;
    std::vector<Coordinate> verts;
};
static Scene make_scene(Rng &r, long maxlon, int want) {
    Scene s;
    s.ps = ccw(scene(r, maxlon, LAT, want));
    for (auto &p : s.ps) {
        D << S(p) << " ";
        for (auto &v : p)
            s.verts.push_back(v);
    }
    return s;
}

static void sweep(Rng &r, bool sound, bool complete) {
    auto s = make_scene(r, r.p(80) ? MAXLON : LON, (int)r.in(1, 9));
    if (s.ps.empty()) {
        nontrivial = false;
        return;
    }
    VistreeGenerator gen(make(s.ps));
    for (int k = 0; k < 6; ++k) {
        Coordinate o = r.pick(s.verts);
        std::optional<std::array<Coordinate, 2>> corner;
        if (r.p(35)) {
            auto a = r.pick(s.verts), b = r.pick(s.verts);
            long x = (lon(a) + lon(b)) / 2 + r.in(-2, 2), y = (lat(a) + lat(b)) / 2 + r.in(-2, 2);
            if (r.p(40))
                y = lat(a);
            if (r.p(20))
                x = lon(a);
            if (!in_dom(x, y))
                continue;
            o = mk(x, y);
        }
        bool off = true;
        for (auto &p : s.ps)
            for (size_t i = 0; i < p.size(); ++i) {
                if (eq(p[i], o))
                    corner = {p[(i + p.size() - 1) % p.size()], p[(i + 1) % p.size()]};
                else if (!eq(p[(i + 1) % p.size()], o) && on_seg(p[i], p[(i + 1) % p.size()], o))
                    off = false;
            }
        if (!off)
            continue;
        bool hs = r.p(40);
        auto keep = D.str();
        D << " observer " << S(o) << (hs ? " half scan" : "");
        auto vis = gen.get_visible_vertices(o, hs);
        auto is_reported = [&](const Coordinate &w) {
            int n = 0;
            for (auto &v : vis)
                n += lon(v.coord) == norm_lon(lon(w)) && lat(v.coord) == lat(w) && v.is_visible_across_meridian == (std::labs(lon(w)) > MAXLON);
            return n;
        };
        for (auto &v : vis) {
            bool known = false, fine = false;
            std::string why;
            for (auto &w : s.verts) {
                if (lon(v.coord) != norm_lon(lon(w)) || lat(v.coord) != lat(w))
                    continue;
                if (v.is_visible_across_meridian != (std::labs(lon(w)) > MAXLON))
                    continue;
                known = true;
                bool ok = !eq(w, o);
                if (!ok)
                    why = "the observer itself";
                for (auto &p : s.ps)
                    for (size_t i = 0; ok && i < p.size(); ++i) {
                        auto &a = p[i], &b = p[(i + 1) % p.size()];
                        if (cross_properly(o, w, a, b) && !rounds_to(o, w, a, b)) {
                            ok = false;
                            why = "although the edge " + S(a) + S(b) + " is in between";
                        }
                    }
                if (ok && corner && in_wedge((*corner)[0], o, (*corner)[1], w)) {
                    ok = false;
                    why = "through the inside of the polygon";
                }
                fine = fine || ok;
            }
            if (complete)
                CHECK(known, "reported " << S(v.coord) << " flagged " << v.is_visible_across_meridian << ", which is no vertex");
            if (sound && known)
                CHECK(fine, "reported " << S(v.coord) << " " << why);
        }
        if (complete) {
            for (auto &w : s.verts) {
                int copies = 0;
                for (auto &u : s.verts)
                    copies += norm_lon(lon(u)) == norm_lon(lon(w)) && lat(u) == lat(w) && (std::labs(lon(u)) > MAXLON) == (std::labs(lon(w)) > MAXLON);
                CHECK(is_reported(w) <= copies, S(w) << " is reported " << is_reported(w) << " times");
                if (eq(w, o))
                    continue;
                bool clear = !corner || outside_wedge((*corner)[0], o, (*corner)[1], w);
                for (auto &p : s.ps)
                    for (size_t i = 0; clear && i < p.size(); ++i) {
                        auto &a = p[i], &b = p[(i + 1) % p.size()];
                        if (!meet(o, w, a, b))
                            continue;
                        // touching only at an end of the sight line
                        bool at_w = (eq(a, w) && !on_seg(o, w, b) && !(ori(o, w, b) == 0 && on_seg(a, b, o))) || (eq(b, w) && !on_seg(o, w, a) && !(ori(o, w, a) == 0 && on_seg(a, b, o)));
                        bool at_o = (eq(a, o) && ori(o, w, b) != 0) || (eq(b, o) && ori(o, w, a) != 0);
                        if (!at_w && !at_o)
                            clear = false;
                    }
                if (!clear)
                    continue;
                if (hs && lat(w) < lat(o))
                    continue;
                CHECK(is_reported(w) >= 1, "the unobstructed vertex " << S(w) << " is not reported");
            }
        }
        D.str("");
        D << keep;
    }
}
CASE("C01", soundness) { sweep(r, true, false); }
CASE("C02", completeness) { sweep(r, false, true); }

// ---------------------------------------------------------------- graphs
struct GModel {
    std::vector<Coordinate> v;
    std::map<std::pair<size_t, size_t>, int> e; // 1 crossing only, 2 direct
    size_t idx(const Coordinate &c) const {
        for (size_t i = 0; i < v.size(); ++i)
            if (eq(v[i], c))
                return i;
        return (size_t)-1;
    }
    void add(const Coordinate &a, const Coordinate &b, bool f) {
        size_t i = idx(a), j = idx(b);
        CHECK(i != (size_t)-1 && j != (size_t)-1, "an edge to " << S(b) << ", which is no vertex");
        if (i == j)
            return;
        int &x = e[{i, j}], &y = e[{j, i}];
        x = std::max(x, f ? 1 : 2);
        y = std::max(y, f ? 1 : 2);
    }
};
static void same(const Graph &g, const GModel &m, const Polys &ps, const char *what) {
    auto q = g.get_polygons();
    CHECK(q.size() == ps.size(), what << ": " << q.size() << " polygons");
    for (size_t i = 0; i < ps.size(); ++i)
        CHECK(eqv(q[i].get_vertices(), ps[i]), what << ": polygon " << i);
    auto vs = g.get_vertices();
    CHECK(vs.size() == m.v.size(), what << ": " << vs.size() << " vertices");
    for (auto &x : m.v)
        CHECK(g.has_vertex(x), what << ": vertex " << S(x) << " is missing");
    for (size_t i = 0; i < m.v.size(); ++i)
        for (size_t j = 0; j < m.v.size(); ++j) {
            auto it = m.e.find({i, j});
            int x = it == m.e.end() ? 0 : it->second;
            CHECK(g.has_edge(m.v[i], m.v[j]) == (x != 0), what << ": edge " << S(m.v[i]) << S(m.v[j]) << " is " << !x);
            CHECK(g.is_edge_meridian_crossing(m.v[i], m.v[j]) == (x == 1), what << ": crossing mark of " << S(m.v[i]) << S(m.v[j]) << " is " << (x != 1));
        }
}
static std::vector<VisibleVertex> half(const VistreeGenerator &gen, const Coordinate &o) { return gen.get_visible_vertices(o, true); }
// scenes whose polygons reach over both sides of the meridian more often
static Scene world_scene(Rng &r, int want) {
    Scene s;
    Polys ps = ccw(scene(r, MAXLON, LAT, want));
    if (r.p(50)) { // push some polygons to the meridian
        Polys qs;
        for (auto &p : ps) {
            long hi = -LON, lo = LON;
            for (auto &c : p)
                hi = std::max(hi, lon(c)), lo = std::min(lo, lon(c));
            long d = r.p(50) ? MAXLON - hi - r.in(0, 3) * 1000 : -MAXLON - lo + r.in(0, 3) * 1000;
            std::vector<Coordinate> q;
            bool in = true;
            for (auto &c : p) {
                q.push_back(mk(lon(c) + d, lat(c)));
                in = in && std::labs(lon(c) + d) <= MAXLON;
            }
            bool ok = in;
            for (auto &o : qs)
                for (size_t i = 0; ok && i < q.size(); ++i)
                    for (size_t j = 0; ok && j < o.size(); ++j)
                        ok = !meet(q[i], q[(i + 1) % q.size()], o[j], o[(j + 1) % o.size()]);
            for (auto &o : qs)
                ok = ok && !strictly_inside(o, q[0]) && !strictly_inside(q, o[0]);
            if (ok)
                qs.push_back(q);
        }
        ps = qs;
    }
    s.ps = ps;
    for (auto &p : s.ps) {
        D << S(p) << " ";
        for (auto &v : p)
            s.verts.push_back(v);
    }
    return s;
}
static GModel expected_graph(const Scene &s, const VistreeGenerator &gen) {
    GModel m;
    m.v = s.verts;
    for (auto &v : s.verts)
        for (auto &w : half(gen, v))
            m.add(v, w.coord, w.is_visible_across_meridian);
    return m;
}
CASE("C03", visgraph) {
    auto s = world_scene(r, (int)r.in(0, 6));
    int threads = (int)r.in(1, 6);
    D << threads << " threads";
    omp_set_num_threads(threads);
    Quiet q;
    auto polys = make(s.ps);
    VistreeGenerator gen(make_polygons_periodic(polys));
    auto m = expected_graph(s, gen);
    auto g = VisgraphGenerator::generate(polys);
    same(*g, m, s.ps, "visibility graph");
    // every visible pair in the full scan sense is joined when unobstructed in both directions
    for (size_t i = 0; i < m.v.size(); ++i)
        CHECK(!g->has_edge(m.v[i], m.v[i]), "self edge");
}
CASE("C04", ranges) {
    auto s = world_scene(r, (int)r.in(1, 5));
    size_t n = s.verts.size();
    unsigned seed = (unsigned)r.in(0, 1000);
    D << "seed " << seed;
    if (!n) {
        nontrivial = false;
        return;
    }
    omp_set_num_threads((int)r.in(1, 4));
    Quiet q;
    auto polys = make(s.ps);
    VistreeGenerator gen(make_polygons_periodic(polys));
    auto m = expected_graph(s, gen);
    auto edges = [&](const Graph &g) {
        std::set<std::array<long, 5>> o;
        for (auto &a : s.verts)
            for (auto &b : s.verts)
                if (g.has_edge(a, b))
                    o.insert({lon(a), lat(a), lon(b), lat(b), g.is_edge_meridian_crossing(a, b)});
        return o;
    };
    using ES = std::set<std::array<long, 5>>;
    std::vector<ES> singles, want;
    std::vector<std::shared_ptr<Graph>> gs;
    for (size_t i = 0; i < n; ++i) {
        auto g = VisgraphGenerator::generate_with_shuffled_range(polys, i, i + 1, seed);
        singles.push_back(edges(*g));
        gs.push_back(g);
        GModel one;
        one.v = s.verts;
        for (auto &w : half(gen, s.verts[i]))
            one.add(s.verts[i], w.coord, w.is_visible_across_meridian);
        ES e;
        for (auto &x : one.e)
            e.insert({lon(one.v[x.first.first]), lat(one.v[x.first.first]), lon(one.v[x.first.second]), lat(one.v[x.first.second]), x.second == 1});
        want.push_back(e);
    }
    auto a = singles, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    CHECK(a == b, "the single ranges do not stand for every vertex once");
    // splits as the front end makes them
    size_t splits = (size_t)r.in(1, (long)n + 2), size = n / splits;
    D << " splits " << splits;
    std::vector<std::shared_ptr<Graph>> parts;
    for (size_t k = 0; k < splits; ++k) {
        size_t lo = size * k, hi = k < splits - 1 ? size * (k + 1) : n;
        auto g = VisgraphGenerator::generate_with_shuffled_range(polys, lo, hi, seed);
        std::map<std::array<long, 4>, long> u;
        for (size_t i = lo; i < hi; ++i)
            for (auto &x : singles[i]) {
                std::array<long, 4> key = {x[0], x[1], x[2], x[3]};
                auto it = u.find(key);
                u[key] = it == u.end() ? x[4] : (it->second && x[4]);
            }
        ES e;
        for (auto &x : u)
            e.insert({x.first[0], x.first[1], x.first[2], x.first[3], x.second});
        CHECK(edges(*g) == e, "range " << lo << " to " << hi << " does not add exactly the edges of its observers");
        parts.push_back(g);
    }
    auto merged = merge_graphs(parts);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            auto it = m.e.find({i, j});
            int x = it == m.e.end() ? 0 : it->second;
            CHECK(merged->has_edge(m.v[i], m.v[j]) == (x != 0), "merged splits: edge " << S(m.v[i]) << S(m.v[j]));
            CHECK(merged->is_edge_meridian_crossing(m.v[i], m.v[j]) == (x == 1), "merged splits: crossing mark of " << S(m.v[i]) << S(m.v[j]));
        }
    auto rejects = [&](size_t lo, size_t hi) {
        try {
            (void)VisgraphGenerator::generate_with_shuffled_range(polys, lo, hi, seed);
        } catch (const std::exception &) {
            return true;
        }
        return false;
    };
    CHECK(rejects(0, n + 1), "a range past the end is accepted");
    CHECK(rejects(1, 0), "a reversed range is accepted");
    CHECK(!rejects(n, n) && !rejects(0, n), "a proper range is rejected");
}

// ---------------------------------------------------------------- searches
static S2Point s2(const Coordinate &c) { return S2LatLng::FromE6((int)lat(c), (int)lon(c)).ToPoint(); }
static double dist(const Coordinate &a, const Coordinate &b, long k) {
    return std::hypot((double)(lon(a) - lon(b) + k * PER), (double)(lat(a) - lat(b))) * 1e-6;
}
static double direct(const Coordinate &a, const Coordinate &b) { return dist(a, b, 0); }
static double wrapped(const Coordinate &a, const Coordinate &b) { return std::min(dist(a, b, 1), dist(a, b, -1)); }
static double shortest(const Coordinate &a, const Coordinate &b) { return std::min(direct(a, b), wrapped(a, b)); }
// 1 inside, 0 outside, -1 too close to a boundary to say
static int on_land(const Polys &ps, const Coordinate &c) {
    for (auto &p : ps) {
        std::vector<S2Point> v;
        for (auto &x : p)
            v.push_back(s2(x));
        for (size_t i = 0; i < p.size(); ++i)
            if (eq(p[i], c))
                return 0;
        for (size_t i = 0; i < p.size(); ++i)
            if (S2::GetDistance(s2(c), v[i], v[(i + 1) % p.size()]).e7() < 10)
                return -1;
        S2Loop l(v);
        if (l.Contains(s2(c)))
            return 1;
    }
    return 0;
}
struct Query {
    Coordinate src, dst;
    double limit;
    bool correct;
    double w;
};
struct SearchScene {
    Polys ps;
    std::vector<Coordinate> verts;
    std::shared_ptr<Graph> g;
};
static SearchScene search_scene(Rng &r) {
    SearchScene s;
    // polygons small and away from the poles, so that straight lines and great circles agree on the sphere
    for (int t = 0; t < 40 && s.ps.empty(); ++t) {
        Polys ps;
        long n = r.in(3, 10), step = r.in(20000, 400000);
        long cx = r.p(60) ? r.in(-100000000, 100000000) : (r.p(50) ? MAXLON - 14 * step : -MAXLON + 14 * step), cy = r.in(-30000000, 30000000);
        for (int k = 0; k < 24 && (int)ps.size() < n; ++k) {
            std::vector<Coordinate> v;
            long R = r.in(1, 4), ox = r.in(-10, 10), oy = r.in(-10, 10);
            for (int i = (int)(r.p(60) ? 3 : r.in(4, 6)); i > 0; --i)
                v.push_back(mk(cx + (ox + r.in(-R, R)) * step, cy + (oy + r.in(-R, R)) * step));
            if (!simple_polygon(v))
                continue;
            bool ok = true;
            for (auto &q : ps) {
                for (size_t i = 0; ok && i < v.size(); ++i)
                    for (size_t j = 0; ok && j < q.size(); ++j)
                        ok = !meet(v[i], v[(i + 1) % v.size()], q[j], q[(j + 1) % q.size()]);
                ok = ok && !strictly_inside(v, q[0]) && !strictly_inside(q, v[0]);
            }
            if (ok)
                ps.push_back(v);
        }
        s.ps = ccw(ps);
    }
    for (auto &p : s.ps) {
        D << S(p) << " ";
        for (auto &v : p)
            s.verts.push_back(v);
    }
    auto polys = make(s.ps);
    if (r.p(50)) {
        Quiet q;
        omp_set_num_threads(2);
        s.g = VisgraphGenerator::generate(polys);
        D << "visibility graph; ";
    } else {
        s.g = std::make_shared<Graph>(polys);
        int density = (int)r.in(0, 60);
        D << "graph edges ";
        for (size_t i = 0; i < s.verts.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (r.p(density)) {
                    bool f = r.p(30);
                    s.g->add_edge(s.verts[i], s.verts[j], f);
                    D << i << "-" << j << (f ? "x " : " ");
                }
        if (r.p(30))
            for (int k = 0; k < 5; ++k) {
                size_t i = r.next() % s.verts.size(), j = r.next() % s.verts.size();
                s.g->remove_directed_edge(s.verts[i], s.verts[j]);
                D << "without " << i << ">" << j << " ";
            }
        D << "; ";
    }
    return s;
}
static Query query(Rng &r, const SearchScene &s, bool land) {
    Query q;
    auto any = [&] {
        auto &p = r.pick(s.ps);
        auto a = r.pick(p);
        if (r.p(25))
            return a;
        if (land && r.p(50)) { // inside a polygon
            long x = 0, y = 0;
            for (auto &c : p)
                x += lon(c), y += lat(c);
            return mk(x / (long)p.size() + r.in(-900, 900), y / (long)p.size() + r.in(-900, 900));
        }
        long d = r.p(70) ? 2000000 : 300000;
        auto c = mk(std::max(-MAXLON, std::min(MAXLON, lon(a) + r.in(-d, d))), lat(a) + r.in(-d, d));
        if (r.p(15))
            c = mk(lon(c) + (lon(c) > 0 ? -PER : PER), lat(c));
        return c;
    };
    q.src = any();
    q.dst = any();
    q.correct = land ? r.p(75) : r.p(20);
    double ws[] = {1, 1, 1, 0, 0.5, 0.25, 0.9};
    q.w = ws[r.in(0, 6)];
    q.limit = r.p(60) ? INFINITY : shortest(mk(norm_lon(lon(q.src)), lat(q.src)), mk(norm_lon(lon(q.dst)), lat(q.dst))) * (0.3 + 2 * r.u());
    D << "from " << S(q.src) << " to " << S(q.dst) << " limit " << q.limit << " correct " << q.correct << " weighting " << q.w;
    return q;
}
struct Result {
    bool ok;
    std::vector<Coordinate> path;
    std::string err;
};
static Result run(const ShortestPathComputer &c, const Query &q) {
    try {
        return {true, c.shortest_path(q.src, q.dst, q.limit, q.correct, q.w), ""};
    } catch (const std::exception &e) {
        return {false, {}, e.what()};
    }
}
struct Edge2 {
    Coordinate a, b;
};
// the closest obstacle edge, if there is one beyond doubt
static std::optional<Edge2> closest(const Polys &ps, const Coordinate &c) {
    double best = 1e9, second = 1e9;
    Edge2 e{c, c};
    for (auto &p : ps)
        for (size_t i = 0; i < p.size(); ++i) {
            double d = S2::GetDistance(s2(c), s2(p[i]), s2(p[(i + 1) % p.size()])).radians();
            if (d < best) {
                second = best;
                best = d;
                e = {p[i], p[(i + 1) % p.size()]};
            } else
                second = std::min(second, d);
        }
    if (second - best < 1e-10)
        return {};
    return e;
}
struct Searched { // the graph the search runs on
    std::map<Coordinate, std::map<Coordinate, bool, LessC>, LessC> adj;
};
static Searched searched(const SearchScene &s, const Coordinate *ends, const std::optional<Edge2> *shore) {
    Searched o;
    for (auto &a : s.verts)
        for (auto &b : s.verts)
            if (s.g->has_edge(a, b))
                o.adj[a][b] = s.g->is_edge_meridian_crossing(a, b);
    VistreeGenerator gen(make(s.ps));
    for (int i = 0; i < 2; ++i) {
        if (s.g->has_vertex(ends[i]))
            continue;
        for (auto &v : gen.get_visible_vertices(ends[i])) {
            if (shore[i] && ori(shore[i]->a, shore[i]->b, v.coord) > 0)
                continue;
            if (eq(v.coord, ends[i]))
                continue;
            bool f = v.is_visible_across_meridian;
            auto put = [&](const Coordinate &a, const Coordinate &b) {
                auto &m = o.adj[a];
                auto it = m.find(b);
                m[b] = it == m.end() ? f : (it->second && f);
            };
            put(ends[i], v.coord);
            put(v.coord, ends[i]);
        }
    }
    return o;
}
enum What { WALK, OPTIMAL, LAND };
static void search(Rng &r, What what) {
    auto s = search_scene(r);
    if (s.ps.empty()) {
        nontrivial = false;
        return;
    }
    ShortestPathComputer comp(s.g);
    auto keep = D.str();
    for (int k = 0; k < 6; ++k) {
        D.str("");
        D << keep;
        auto q = query(r, s, what == LAND);
        Coordinate ends[2] = {mk(norm_lon(lon(q.src)), lat(q.src)), mk(norm_lon(lon(q.dst)), lat(q.dst))};
        int land[2] = {on_land(s.ps, ends[0]), on_land(s.ps, ends[1])};
        if (land[0] < 0 || land[1] < 0)
            continue;
        auto res = run(comp, q);
        if (!q.correct && (land[0] || land[1])) {
            if (what == LAND)
                CHECK(!res.ok, "a path from or to land was returned although correction is off");
            continue;
        }
        std::optional<Edge2> shore[2];
        bool sure = true;
        for (int i = 0; i < 2; ++i)
            if (land[i]) {
                shore[i] = closest(s.ps, ends[i]);
                if (!shore[i])
                    sure = false;
            }
        if (!sure)
            continue;
        Coordinate given[2] = {ends[0], ends[1]};
        for (int i = 0; i < 2; ++i)
            if (land[i]) {
                if (!res.ok) {
                    sure = false;
                    continue;
                }
                auto c = i ? res.path.back() : res.path.front();
                if (what == LAND) {
                    double off = S2::GetDistance(s2(c), s2(shore[i]->a), s2(shore[i]->b)).degrees();
                    CHECK(off < 3e-6, "the corrected endpoint " << S(c) << " of " << S(given[i]) << " is not on the closest edge " << S(shore[i]->a) << S(shore[i]->b));
                    double want = S2::GetDistance(s2(given[i]), s2(shore[i]->a), s2(shore[i]->b)).degrees();
                    double got = S1Angle(s2(given[i]), s2(c)).degrees();
                    CHECK(std::fabs(got - want) < 3e-6, "the corrected endpoint " << S(c) << " of " << S(given[i]) << " is not its projection");
                }
                ends[i] = c;
            }
        if (what == LAND && res.ok) {
            CHECK(!res.path.empty(), "empty path");
            CHECK(eq(res.path.front(), ends[0]), "the path starts at " << S(res.path.front()) << " instead of the source");
            CHECK(eq(res.path.back(), ends[1]), "the path ends at " << S(res.path.back()) << " instead of the destination");
        }
        if (!sure)
            continue;
        // obstacle edges met by the direct segment
        int met = 0;
        bool doubt = false;
        for (auto &p : s.ps)
            for (size_t i = 0; i < p.size(); ++i) {
                auto &a = p[i], &b = p[(i + 1) % p.size()];
                bool is_shore = false;
                for (auto &e : shore)
                    is_shore = is_shore || (e && ((eq(e->a, a) && eq(e->b, b)) || (eq(e->a, b) && eq(e->b, a))));
                if (is_shore)
                    continue;
                if (S2::CrossingSign(s2(ends[0]), s2(ends[1]), s2(a), s2(b)) >= 0)
                    ++met;
            }
        (void)doubt;
        auto g = searched(s, ends, shore);
        auto within = [&](const Coordinate &c, double slack) { return shortest(ends[0], c) <= q.limit * (1 + slack) + slack; };
        // distances by Bellman's relaxation, with the limit a little larger and a little smaller
        auto solve = [&](double slack) {
            std::map<Coordinate, double, LessC> d;
            std::set<std::pair<double, std::pair<long, long>>> todo;
            d[ends[0]] = 0;
            todo.insert({0, {lon(ends[0]), lat(ends[0])}});
            while (!todo.empty()) {
                auto t = *todo.begin();
                todo.erase(todo.begin());
                auto c = mk(t.second.first, t.second.second);
                if (t.first > d[c])
                    continue;
                for (auto &x : g.adj[c]) {
                    if (!within(x.first, slack))
                        continue;
                    double nd = t.first + (x.second ? wrapped(c, x.first) : direct(c, x.first));
                    auto it = d.find(x.first);
                    if (it == d.end() || nd < it->second) {
                        d[x.first] = nd;
                        todo.insert({nd, {lon(x.first), lat(x.first)}});
                    }
                }
            }
            return d;
        };
        bool is_direct = res.ok && res.path.size() == 2 && met == 0;
        if (what == LAND && res.ok && !is_direct) {
            if (res.path.size() >= 2 && shore[0] && !s.g->has_vertex(ends[0]))
                CHECK(ori(shore[0]->a, shore[0]->b, res.path[1]) <= 0, "the path leaves towards the land side of the shore edge");
            if (res.path.size() >= 2 && shore[1] && !s.g->has_vertex(ends[1]))
                CHECK(ori(shore[1]->a, shore[1]->b, res.path[res.path.size() - 2]) <= 0, "the path arrives from the land side of the shore edge");
        }
        if (what == LAND) {
            // endpoints off land are joined to every vertex visible from them
            if (!is_direct && met != 0) {
                auto d = solve(-1e-9);
                if (d.count(ends[1]) && !eq(ends[0], ends[1]))
                    CHECK(res.ok, "no path although the endpoints are joined to visible vertices: " << res.err);
            }
            continue;
        }
        if (what == WALK) {
            if (res.ok) {
                CHECK(!res.path.empty() && eq(res.path.front(), ends[0]) && eq(res.path.back(), ends[1]), "the path " << S(res.path) << " does not join the endpoints");
                if (met == 0)
                    CHECK(res.path.size() == 2, "no obstacle edge is met by the direct segment, but the path is " << S(res.path));
                else {
                    for (size_t i = 0; i + 1 < res.path.size(); ++i) {
                        CHECK(g.adj[res.path[i]].count(res.path[i + 1]), "the leg " << S(res.path[i]) << S(res.path[i + 1]) << " is no edge; path " << S(res.path));
                        CHECK(within(res.path[i + 1], 1e-9), "node " << S(res.path[i + 1]) << " is farther than the limit; path " << S(res.path));
                    }
                }
            }
            if (met != 0) {
                auto hi = solve(1e-9), lo = solve(-1e-9);
                if (!hi.count(ends[1]))
                    CHECK(!res.ok, "a path was returned although there is none: " << S(res.path));
                if (lo.count(ends[1]))
                    CHECK(res.ok, "no path was returned although there is one: " << res.err);
            }
        }
        if (what == OPTIMAL && res.ok && met != 0) {
            auto lo = solve(-1e-9);
            double cost = 0;
            bool walk = true;
            for (size_t i = 0; i + 1 < res.path.size(); ++i) {
                auto &m = g.adj[res.path[i]];
                auto it = m.find(res.path[i + 1]);
                if (it == m.end()) {
                    walk = false;
                    break;
                }
                cost += it->second ? wrapped(res.path[i], res.path[i + 1]) : direct(res.path[i], res.path[i + 1]);
            }
            if (walk && lo.count(ends[1]))
                CHECK(cost <= lo[ends[1]] * (1 + 1e-9) + 1e-9, "the path " << S(res.path) << " costs " << cost << " but there is one of " << lo[ends[1]]);
        }
    }
}
CASE("C05", walk) { search(r, WALK); }
CASE("C06", optimal) { search(r, OPTIMAL); }
CASE("C08", land) { search(r, LAND); }
CASE("C07", batch) {
    auto s = search_scene(r);
    if (s.ps.empty()) {
        nontrivial = false;
        return;
    }
    ShortestPathComputer comp(s.g);
    std::vector<std::pair<Coordinate, Coordinate>> pairs;
    auto q = query(r, s, r.p(60));
    if (r.p(30))
        q.w = 1 + 3 * r.u();
    long n = r.in(0, 12);
    auto keep = D.str();
    for (long i = 0; i < n; ++i) {
        auto x = query(r, s, r.p(60));
        pairs.push_back({x.src, x.dst});
    }
    D.str("");
    D << keep << " pairs";
    for (auto &p : pairs)
        D << " " << S(p.first) << S(p.second);
    omp_set_num_threads((int)r.in(1, 6));
    auto res = comp.shortest_paths(pairs, q.limit, q.correct, q.w);
    CHECK(res.size() == pairs.size(), res.size() << " results for " << pairs.size() << " pairs");
    for (size_t i = 0; i < pairs.size(); ++i) {
        auto one = run(comp, {pairs[i].first, pairs[i].second, q.limit, q.correct, q.w});
        CHECK(res[i].path.has_value() == one.ok, "pair " << i << " answers differently: path " << res[i].path.has_value());
        CHECK(res[i].error_msg.has_value() == !one.ok, "pair " << i << ": error message present " << res[i].error_msg.has_value());
        if (one.ok)
            CHECK(eqv(*res[i].path, one.path), "pair " << i << " has the path " << S(*res[i].path) << " instead of " << S(one.path));
        else
            CHECK(*res[i].error_msg == one.err, "pair " << i << " has the error " << *res[i].error_msg << " instead of " << one.err);
    }
}
