// Cases of C09 to C14: graphs, overlays, merging, files, concurrency.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>

#include "datastructures/graph/graph.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include "hc.hpp"
#include "serialization/graph_serializer.hpp"

// What the graph must answer: 0 absent, 1 crossing only, 2 direct (also when both were added).
struct Model {
    std::vector<Coordinate> verts;
    std::map<std::pair<size_t, size_t>, int> e;
    size_t idx(const Coordinate &c) const {
        for (size_t i = 0; i < verts.size(); ++i)
            if (eq(verts[i], c))
                return i;
        return (size_t)-1;
    }
    void add(size_t a, size_t b, bool m) {
        if (a == b)
            return;
        int &x = e[{a, b}];
        x = std::max(x, m ? 1 : 2);
    }
    void del(size_t a, size_t b) { e.erase({a, b}); }
    int at(size_t a, size_t b) const {
        auto i = e.find({a, b});
        return i == e.end() ? 0 : i->second;
    }
};

static void sorted_unique(std::vector<Coordinate> v, const char *what) {
    std::sort(v.begin(), v.end(), LessC());
    for (size_t i = 0; i + 1 < v.size(); ++i)
        CHECK(!eq(v[i], v[i + 1]), what << " lists " << S(v[i]) << " twice");
}

template <class G> static void compare(const G &g, const Model &m, const char *what) {
    auto vs = g.get_vertices();
    sorted_unique(vs, what);
    CHECK(vs.size() == m.verts.size(), what << ": " << vs.size() << " vertices instead of " << m.verts.size());
    for (auto &v : vs)
        CHECK(m.idx(v) != (size_t)-1, what << ": unknown vertex " << S(v));
    for (size_t i = 0; i < m.verts.size(); ++i) {
        auto a = m.verts[i];
        CHECK(g.has_vertex(a), what << ": vertex " << S(a) << " is missing");
        std::set<Coordinate, LessC> nb;
        for (size_t j = 0; j < m.verts.size(); ++j) {
            int x = m.at(i, j);
            CHECK(g.has_edge(a, m.verts[j]) == (x != 0), what << ": has_edge(" << S(a) << "," << S(m.verts[j]) << ") is " << g.has_edge(a, m.verts[j]));
            CHECK(g.is_edge_meridian_crossing(a, m.verts[j]) == (x == 1), what << ": crossing(" << S(a) << "," << S(m.verts[j]) << ") should be " << (x == 1));
            if (x)
                nb.insert(m.verts[j]);
        }
        auto n = g.get_neighbors(a);
        sorted_unique(n, "neighbours");
        CHECK(n.size() == nb.size(), what << ": " << n.size() << " neighbours of " << S(a) << " instead of " << nb.size());
        for (auto &c : n)
            CHECK(nb.count(c), what << ": " << S(c) << " is no neighbour of " << S(a));
    }
}

static std::vector<Polygon> polys(const std::vector<std::vector<Coordinate>> &ps) {
    std::vector<Polygon> o;
    for (auto &p : ps)
        o.push_back(Polygon(p));
    return o;
}

static std::vector<Polygon> simple_polys(Rng &r, int want) {
    // many small triangles in a grid, so any number of vertices is quick to make
    std::vector<Polygon> o;
    long k = 0;
    long sx = r.p(20) ? 1 : r.in(1, 1000000);
    for (int i = 0; i < want; ++i, ++k) {
        long x = -MAXLON + r.in(0, 3) + (k % 17) * 10 * sx, y = -LAT + (k / 17) * 20 + r.in(0, 3);
        std::vector<Coordinate> v = {mk(x, y), mk(x + 3 * sx, y), mk(x + 3 * sx, y + 5)};
        if (r.p(50))
            v.push_back(mk(x, y + r.in(6, 9)));
        o.push_back(Polygon(v));
    }
    return o;
}

static Model model_of(const std::vector<Polygon> &ps) {
    Model m;
    for (auto &p : ps)
        for (auto &v : p.get_vertices())
            m.verts.push_back(v);
    return m;
}

static Coordinate fresh(Rng &r, const Model &m) {
    for (;;) {
        auto c = mk(r.in(-MAXLON, MAXLON), r.in(0, LAT));
        if (r.p(40))
            c = mk(r.in(-5, 5), r.in(1000, 1005));
        if (m.idx(c) == (size_t)-1)
            return c;
    }
}

static void op(Rng &r, IGraph &g, Model &m, bool vertices) {
    size_t n = m.verts.size();
    int k = (int)r.in(0, vertices ? 9 : 8);
    if (n == 0 || k == 9) {
        if (!vertices)
            return;
        if (n && r.p(30)) {
            auto c = m.verts[r.next() % n];
            D << "add_vertex" << S(c) << "; ";
            g.add_vertex(c);
            return;
        }
        auto c = fresh(r, m);
        D << "add_vertex" << S(c) << "; ";
        g.add_vertex(c);
        m.verts.push_back(c);
        return;
    }
    size_t a = r.next() % n, b = r.p(8) ? a : r.next() % n;
    if (n > 3 && r.p(60))
        a %= 3, b %= 4;
    auto &A = m.verts[a], &B = m.verts[b];
    bool f = r.p(50);
    if (k <= 2) {
        D << "add_edge" << S(A) << S(B) << f << "; ";
        g.add_edge(A, B, f);
        m.add(a, b, f);
        m.add(b, a, f);
    } else if (k <= 5) {
        D << "add_directed" << S(A) << S(B) << f << "; ";
        g.add_directed_edge(A, B, f);
        m.add(a, b, f);
    } else if (k == 6) {
        D << "remove_edge" << S(A) << S(B) << "; ";
        g.remove_edge(A, B);
        m.del(a, b);
        m.del(b, a);
    } else {
        D << "remove_directed" << S(A) << S(B) << "; ";
        g.remove_directed_edge(A, B);
        m.del(a, b);
    }
}

template <class F> static bool throws(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

CASE("C11", history) {
    auto ps = simple_polys(r, (int)r.in(0, 4));
    D << ps.size() << " polygons; ";
    Graph g(ps);
    Model m = model_of(ps);
    compare(g, m, "new graph");
    for (long i = r.in(1, 30); i > 0; --i) {
        op(r, g, m, true);
        if (r.p(15))
            compare(g, m, "graph");
    }
    compare(g, m, "graph");
    auto u = fresh(r, m);
    CHECK(!g.has_vertex(u), "unknown vertex is known");
    if (!m.verts.empty()) {
        auto a = r.pick(m.verts);
        CHECK(throws([&] { (void)g.has_edge(a, u); }) && throws([&] { (void)g.has_edge(u, a); }), "has_edge of an unknown vertex does not fail");
        CHECK(throws([&] { (void)g.is_edge_meridian_crossing(a, u); }) && throws([&] { (void)g.is_edge_meridian_crossing(u, a); }), "crossing query of an unknown vertex does not fail");
        CHECK(throws([&] { g.add_directed_edge(a, u, false); }) && throws([&] { g.remove_directed_edge(u, a); }), "edge update with an unknown vertex does not fail");
    }
    CHECK(throws([&] { (void)g.get_neighbors(u); }), "neighbours of an unknown vertex do not fail");
    compare(g, m, "graph after failed calls");
    auto p2 = g.get_polygons();
    CHECK(p2.size() == ps.size(), "polygons");
    for (size_t i = 0; i < p2.size(); ++i)
        CHECK(eqv(p2[i].get_vertices(), ps[i].get_vertices()), "polygon " << i);
}

CASE("C12", overlay) {
    auto ps = simple_polys(r, (int)r.in(0, 3));
    auto g = std::make_shared<Graph>(ps);
    Model m = model_of(ps);
    for (long i = r.in(0, 15); i > 0; --i)
        op(r, *g, m, false);
    D << "| overlay: ";
    Model base = m;
    ModifiedGraph o(g);
    compare(o, m, "fresh overlay");
    for (long i = r.in(1, 25); i > 0; --i) {
        op(r, o, m, true);
        if (r.p(15))
            compare(o, m, "overlay");
    }
    compare(o, m, "overlay");
    compare(*g, base, "base graph");
    auto p2 = o.get_polygons();
    CHECK(p2.size() == ps.size(), "polygons");
    for (size_t i = 0; i < p2.size(); ++i)
        CHECK(eqv(p2[i].get_vertices(), ps[i].get_vertices()), "polygon " << i);
    ModifiedGraph o2(g);
    compare(o2, base, "second overlay of the same base");
}

CASE("C13", merge) {
    auto pool = simple_polys(r, (int)r.in(1, 6));
    std::vector<std::shared_ptr<Graph>> gs;
    std::vector<Model> ms;
    std::set<size_t> used;
    for (long k = r.in(0, 4); k > 0; --k) {
        std::vector<Polygon> ps;
        for (size_t i = 0; i < pool.size(); ++i)
            if (r.p(60)) {
                ps.push_back(pool[i]);
                used.insert(i);
            }
        r.shuffle(ps);
        auto g = std::make_shared<Graph>(ps);
        Model m = model_of(ps);
        D << "graph of " << ps.size() << " polygons: ";
        for (long i = r.in(0, 25); i > 0; --i)
            op(r, *g, m, false);
        gs.push_back(g);
        ms.push_back(m);
    }
    Model want;
    for (auto i : used)
        for (auto &v : pool[i].get_vertices())
            want.verts.push_back(v);
    for (auto &m : ms)
        for (auto &x : m.e) {
            size_t a = want.idx(m.verts[x.first.first]), b = want.idx(m.verts[x.first.second]);
            want.add(a, b, x.second == 1);
            want.add(b, a, x.second == 1);
        }
    auto check = [&](const Graph &g, const char *what) {
        compare(g, want, what);
        auto p = g.get_polygons();
        CHECK(p.size() == used.size(), what << ": " << p.size() << " polygons instead of " << used.size());
        for (auto i : used) {
            int n = 0;
            for (auto &q : p)
                n += eqv(q.get_vertices(), pool[i].get_vertices());
            CHECK(n == 1, what << ": polygon " << i << " occurs " << n << " times");
        }
    };
    check(*merge_graphs(gs), "merged graph");
    for (size_t i = 0; i < gs.size(); ++i)
        compare(*gs[i], ms[i], "input graph after merging");
    r.shuffle(gs);
    check(*merge_graphs(gs), "merged graph in another order");
}

// ---------------------------------------------------------------- files
// mmap is replaced so that a read mapping ends exactly at an unreadable page.
static bool guard_reads = false;
#ifndef __SANITIZE_THREAD__
struct Guarded {
    char *base;
    size_t total, len;
    int fd;
    bool write;
    char *user;
};
static std::vector<Guarded> guarded;
extern "C" void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!guard_reads || fd < 0)
        return (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    struct stat st;
    if (fstat(fd, &st) || st.st_size == 0)
        return (void *)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    size_t page = 4096, body = (len + page - 1) / page * page, total = body + 4 * page;
    char *b = (char *)syscall(SYS_mmap, nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(b + 2 * page, body, PROT_READ | PROT_WRITE);
    char *u = b + 2 * page + (body - len);
    size_t got = 0;
    while (got < len) {
        ssize_t n = pread(fd, u + got, len - got, off + (off_t)got);
        if (n <= 0)
            break;
        got += (size_t)n;
    }
    bool w = prot & PROT_WRITE;
    if (!w)
        mprotect(b + 2 * page, body, PROT_READ);
    guarded.push_back({b, total, len, dup(fd), w, u});
    return u;
}
static Guarded *find_guarded(void *p) {
    for (auto &g : guarded)
        if ((char *)p >= g.base && (char *)p < g.base + g.total)
            return &g;
    return nullptr;
}
extern "C" int msync(void *p, size_t len, int flags) {
    auto *g = find_guarded(p);
    if (!g)
        return (int)syscall(SYS_msync, p, len, flags);
    if (g->write)
        (void)!pwrite(g->fd, g->user, g->len, 0);
    return 0;
}
extern "C" int munmap(void *p, size_t len) {
    auto *g = find_guarded(p);
    if (!g)
        return (int)syscall(SYS_munmap, p, len);
    if (g->write)
        (void)!pwrite(g->fd, g->user, g->len, 0);
    close(g->fd);
    syscall(SYS_munmap, g->base, g->total);
    guarded.erase(guarded.begin() + (g - guarded.data()));
    return 0;
}

#endif

static std::shared_ptr<Graph> random_symmetric(Rng &r, Model &m, std::vector<Polygon> &ps, int want) {
    ps = simple_polys(r, want);
    auto g = std::make_shared<Graph>(ps);
    m = model_of(ps);
    size_t n = m.verts.size();
    int density = (int)r.in(0, 100), cross = (int)r.in(0, 100);
    if (r.p(20))
        density = r.p(50) ? 0 : 100;
    if (r.p(30))
        cross = r.p(50) ? 0 : 100;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
            if (r.p(density)) {
                bool f = r.p(cross);
                g->add_edge(m.verts[i], m.verts[j], f);
                m.add(i, j, f);
                m.add(j, i, f);
                if (r.p(10)) {
                    g->add_edge(m.verts[i], m.verts[j], !f);
                    m.add(i, j, !f);
                    m.add(j, i, !f);
                }
            }
    D << ps.size() << " polygons, " << n << " vertices, density " << density << ", crossing " << cross;
    return g;
}
static std::string tmpfile_name() { return scratch_dir() + "/graph-" + std::to_string(getpid()); }
static std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), {});
}
static void spit(const std::string &p, const std::string &b) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(b.data(), (long)b.size());
}

static void same_graph(const Graph &l, const Model &m, const std::vector<Polygon> &ps) {
    auto q = l.get_polygons();
    CHECK(q.size() == ps.size(), "loaded " << q.size() << " polygons instead of " << ps.size());
    for (size_t i = 0; i < ps.size(); ++i)
        CHECK(eqv(q[i].get_vertices(), ps[i].get_vertices()), "loaded polygon " << i << " is " << S(q[i].get_vertices()) << " instead of " << S(ps[i].get_vertices()));
    CHECK(eqv(l.get_vertices(), m.verts), "loaded vertices differ");
    compare(l, m, "loaded graph");
}

CASE("C09", round_trip) {
    Model m;
    std::vector<Polygon> ps;
    auto g = random_symmetric(r, m, ps, (int)(r.p(70) ? r.in(0, 8) : r.in(0, 20)));
    auto f = tmpfile_name();
    if (r.p(30)) // a longer file was there before
        spit(f, std::string((size_t)r.in(0, 5000), (char)0xff));
    else
        unlink(f.c_str());
    GraphSerializer::serialize_to_file(g, f);
    compare(*g, m, "graph after saving");
    auto l = GraphSerializer::deserialize_from_file(f);
    unlink(f.c_str());
    same_graph(*l, m, ps);
}

CASE("C10", files) {
    Model m;
    std::vector<Polygon> ps;
    auto g = random_symmetric(r, m, ps, (int)(r.p(85) ? r.in(0, 6) : r.in(0, 20)));
    auto f = tmpfile_name();
    unlink(f.c_str());
    guard_reads = true;
    struct Off {
        ~Off() { guard_reads = false; }
    } off;
    GraphSerializer::serialize_to_file(g, f);
    auto good = slurp(f);
    {
        auto l = GraphSerializer::deserialize_from_file(f);
        same_graph(*l, m, ps);
    }
    auto base = D.str();
    for (int k = 0; k < 6; ++k) {
        auto b = good;
        std::ostringstream what;
        int how = (int)r.in(0, 4);
        if (how == 0 || b.empty()) {
            size_t n = (size_t)r.in(0, (long)b.size());
            if (r.p(30) && b.size() > 9)
                n = b.size() - (size_t)r.in(1, 9);
            b.resize(n);
            what << "; truncated to " << n << " of " << good.size() << " bytes";
        } else if (how == 1) {
            size_t at = 8 * (size_t)r.in(0, (long)b.size() / 8);
            if (at + 8 > b.size())
                at = b.size() - 8;
            if (r.p(40))
                at = b.size() - 8;
            if (r.p(30))
                at = 0;
            uint64_t v = r.p(40) ? (uint64_t)r.in(0, 40) : r.p(50) ? ~(uint64_t)0 - (uint64_t)r.in(0, 70) : (uint64_t)1 << r.in(0, 63);
            for (int i = 0; i < 8; ++i)
                b[at + (size_t)i] = (char)(v >> (8 * i));
            what << "; count at byte " << at << " set to " << v;
        } else if (how == 2) {
            for (long i = r.in(1, 8); i > 0; --i) {
                size_t at = (size_t)r.in(0, (long)b.size() - 1);
                b[at] = (char)r.next();
                what << "; byte " << at << " set to " << (int)(unsigned char)b[at];
            }
        } else if (how == 3) {
            b.assign((size_t)r.in(0, 200), (char)0);
            for (auto &x : b)
                x = (char)(r.p(70) ? r.in(0, 3) : (long)r.next());
            what << "; " << b.size() << " random bytes";
        } else {
            b += std::string((size_t)r.in(1, 30), (char)r.next());
            what << "; " << b.size() - good.size() << " bytes appended";
        }
        D.str("");
        D << base << what.str();
        spit(f, b);
        try {
            auto l = GraphSerializer::deserialize_from_file(f);
            CHECK(l != nullptr, "loading returned nothing");
            auto vs = l->get_vertices();
            for (size_t i = 0; i < vs.size() && i < 30; ++i)
                (void)l->get_neighbors(vs[i]);
        } catch (const std::exception &) {
        }
        // a failed load must leave nothing mapped behind that later loads trip over
    }
    unlink(f.c_str());
}

// ---------------------------------------------------------------- C14
static void concurrent(Rng &r, int nthreads, int nops, bool shared) {
    auto ps = simple_polys(r, (int)r.in(1, 3));
    auto g = std::make_shared<Graph>(ps);
    Model m = model_of(ps);
    size_t n = m.verts.size();
    struct Op {
        size_t a, b;
        bool f;
        int k;
    };
    // each thread updates pairs of its own, so the outcome is known; all threads query everything
    std::vector<std::vector<Op>> prog((size_t)nthreads);
    std::vector<std::vector<std::pair<size_t, size_t>>> own((size_t)nthreads);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (i != j)
                own[r.next() % (size_t)nthreads].push_back({i, j});
    for (int t = 0; t < nthreads; ++t)
        for (int i = 0; i < nops; ++i) {
            Op o;
            o.k = (int)r.in(0, 7);
            o.f = r.p(50);
            if (o.k <= 3 && own[(size_t)t].empty())
                o.k = 5;
            if (o.k <= 3 && !shared) {
                auto x = r.pick(own[(size_t)t]);
                o.a = x.first, o.b = x.second;
                if (o.k <= 2)
                    m.add(o.a, o.b, o.f);
                else
                    m.del(o.a, o.b);
            } else {
                o.a = r.next() % n, o.b = r.p(10) ? o.a : r.next() % n;
                if (r.p(50))
                    o.a %= 2, o.b %= 2;
                if (shared && o.k <= 3) {
                    o.k = 8;
                    m.add(o.a, o.b, o.f);
                    m.add(o.b, o.a, o.f);
                }
            }
            prog[(size_t)t].push_back(o);
        }
    D << nthreads << " threads of " << nops << " operations on " << n << " vertices, shared " << shared;
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (auto &p : prog)
        ts.emplace_back([&, p] {
            ready++;
            while (ready < nthreads)
                std::this_thread::yield();
            for (auto &o : p) {
                auto &a = m.verts[o.a], &b = m.verts[o.b];
                if (o.k <= 2)
                    g->add_directed_edge(a, b, o.f);
                else if (o.k == 3)
                    g->remove_directed_edge(a, b);
                else if (o.k == 4)
                    (void)g->get_neighbors(a);
                else if (o.k == 5)
                    (void)g->has_edge(a, b);
                else if (o.k == 6)
                    (void)g->is_edge_meridian_crossing(a, b);
                else if (o.k == 8)
                    g->add_edge(a, b, o.f);
                else
                    (void)g->has_vertex(a);
            }
        });
    for (auto &t : ts)
        t.join();
    compare(*g, m, "graph after concurrent operations");
}
CASE("C14", own_pairs) { concurrent(r, (int)r.in(2, 4), 60, false); }
CASE("C14", shared_adds) { concurrent(r, (int)r.in(2, 4), 60, true); }
CASE("C14", failed_calls) {
    // every lock is released again, also when a call fails
    auto ps = simple_polys(r, 1);
    Graph g(ps);
    auto v = g.get_vertices();
    auto u = mk(5, 5);
    D << "failed calls, then updates";
    CHECK(throws([&] { (void)g.has_edge(v[0], u); }), "no failure");
    CHECK(throws([&] { (void)g.has_edge(u, v[0]); }), "no failure");
    CHECK(throws([&] { g.add_directed_edge(v[0], u, false); }), "no failure");
    CHECK(throws([&] { g.remove_directed_edge(u, v[1]); }), "no failure");
    CHECK(throws([&] { (void)g.get_neighbors(u); }), "no failure");
    for (auto &a : v)
        for (auto &b : v) {
            g.add_edge(a, b, false);
            (void)g.has_edge(a, b);
            (void)g.is_edge_meridian_crossing(a, b);
            (void)g.get_neighbors(a);
            g.remove_edge(a, b);
        }
}
