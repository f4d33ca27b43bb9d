// Cases of C15 to C21: values, segments, polygons, sorting, corners.
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
#include "hc.hpp"
#include "types/polyline/three_vertex_polyline.hpp"
#include "types/visible_vertex/visible_vertex.hpp"

// ---------------------------------------------------------------- C16
CASE("C16", normalise) {
    long x = r.p(40) ? (long[]){MAXLON, -MAXLON, MAXLON + 1, -MAXLON - 1, MAXLON + PER, -MAXLON - PER, LON, -LON, PER, -PER, PER - MAXLON, 0, MAXLON - 1, 1 - MAXLON}[r.in(0, 13)] : r.in(-LON, LON), y = r.in(-LAT, LAT);
    D << x << "," << y;
    auto c = coordinate_from_periodic_coordinate(mk(x, y));
    CHECK(lat(c) == y, "latitude changed to " << lat(c));
    CHECK(std::labs(lon(c)) <= MAXLON, "normalised longitude " << lon(c) << " is out of range");
    CHECK((x - lon(c)) % PER == 0, "longitude changed by " << x - lon(c) << ", not whole periods");
    CHECK(std::labs(x) > MAXLON || lon(c) == x, "a longitude in range was changed to " << lon(c));
    CHECK(is_coordinate_over_meridian(mk(x, y)) == (std::labs(x) > MAXLON), "over-meridian answer");
}
static long shift(int k) { return k == 0 ? 0 : k == 1 ? PER : -PER; }
CASE("C16", copies) {
    auto s = scale(r);
    std::vector<Coordinate> v;
    for (long i = r.in(0, 6); i > 0; --i)
        v.push_back(pt(r, s, MAXLON));
    D << S(v);
    auto w = make_coordinates_periodic(v);
    CHECK(w.size() == 3 * v.size(), "copies of positions: " << w.size());
    std::vector<LineSegment> g;
    for (size_t i = 0; i + 1 < v.size(); ++i)
        g.emplace_back(v[i], v[i + 1]);
    auto h = make_segments_periodic(g);
    CHECK(h.size() == 3 * g.size(), "copies of segments: " << h.size());
    for (size_t i = 0; i < v.size(); ++i) {
        auto c = periodic_coordinates_from_coordinate(v[i]);
        CHECK(c.size() == 3, "number of copies " << c.size());
        for (int k = 0; k < 3; ++k) {
            auto e = mk(lon(v[i]) + shift(k), lat(v[i]));
            CHECK(eq(c[k], e), "copy " << k << " of " << S(v[i]) << " is " << S(c[k]));
            CHECK(eq(w[3 * i + k], e), "copy " << k << " of position " << i << " is " << S(w[3 * i + k]));
        }
    }
    for (size_t i = 0; i < g.size(); ++i)
        for (int k = 0; k < 3; ++k) {
            auto a = mk(lon(v[i]) + shift(k), lat(v[i])), b = mk(lon(v[i + 1]) + shift(k), lat(v[i + 1]));
            CHECK(eq(h[3 * i + k]->get_endpoint_1(), a) && eq(h[3 * i + k]->get_endpoint_2(), b), "copy " << k << " of segment " << i);
        }
}
CASE("C16", polygon_copies) {
    auto ps = scene(r, MAXLON, LAT, (int)r.in(0, 5));
    std::vector<Polygon> in;
    for (auto &p : ps) {
        D << S(p);
        in.push_back(Polygon(p));
    }
    auto out = make_polygons_periodic(in);
    CHECK(out.size() == 3 * in.size(), "number of copies " << out.size());
    for (size_t i = 0; i < in.size(); ++i)
        for (int k = 0; k < 3; ++k) {
            std::vector<Coordinate> e;
            for (auto &c : in[i].get_vertices())
                e.push_back(mk(lon(c) + shift(k), lat(c)));
            CHECK(eqv(out[3 * i + k].get_vertices(), e), "copy " << k << " of polygon " << i << " is " << S(out[3 * i + k].get_vertices()));
        }
}

// ---------------------------------------------------------------- C17
static void inter(const Coordinate &a, const Coordinate &b, const Coordinate &c, const Coordinate &d) {
    LineSegment s(a, b), t(c, d);
    auto v = s.intersection_with_segment(t);
    I128 nx = lon(b) - lon(a), ny = lat(b) - lat(a), mx = lon(d) - lon(c), my = lat(d) - lat(c);
    I128 den = nx * my - ny * mx;
    if (den == 0) {
        bool e = eq(a, c) || eq(a, d) || eq(b, c) || eq(b, d);
        CHECK(v.has_value() == e, "parallel segments: intersection " << v.has_value());
        if (v)
            CHECK((eq(*v, a) || eq(*v, b)) && (eq(*v, c) || eq(*v, d)), "parallel segments meet in " << S(*v));
        return;
    }
    CHECK(v.has_value() == meet(a, b, c, d), "intersection reported: " << v.has_value());
    if (v) {
        I128 q = (I128)(lon(c) - lon(a)) * my - (I128)(lat(c) - lat(a)) * mx;
        // true point a + n q / den; |result - true| < 1 microdegree
        I128 ex = (I128)(lon(*v) - lon(a)) * den - nx * q, ey = (I128)(lat(*v) - lat(a)) * den - ny * q;
        I128 ad = den < 0 ? -den : den;
        CHECK((ex < 0 ? -ex : ex) <= ad && (ey < 0 ? -ey : ey) <= ad, "reported point " << S(*v) << " is not within one microdegree");
    }
}
CASE("C17", intersection) {
    auto s = scale(r);
    Coordinate a = pt(r, s), b = pt(r, s), c = pt(r, s), d = pt(r, s);
    int m = (int)r.in(0, 7);
    if (m == 0) // c in the line of ab
        c = mk((lon(a) + lon(b)) / 2, (lat(a) + lat(b)) / 2);
    if (m == 1)
        c = a;
    if (m == 2)
        d = b;
    if (m == 3)
        d = mk(std::max(-LON, std::min(LON, lon(c) + lon(b) - lon(a))), std::max(-LAT, std::min(LAT, lat(c) + lat(b) - lat(a))));
    if (m == 4 && in_dom(lon(a) + r.in(-1, 1), lat(a)))
        c = mk(std::max(-LON, std::min(LON, lon(a) + r.in(-1, 1))), std::max(-LAT, std::min(LAT, lat(a) + r.in(-1, 1))));
    D << S(a) << S(b) << " with " << S(c) << S(d);
    inter(a, b, c, d);
    inter(c, d, a, b);
    inter(b, a, d, c);
    LineSegment g(a, b);
    CHECK(g.on_segment(c) == on_seg(a, b, c), "on_segment of " << S(c));
    auto mid = mk((lon(a) + lon(b)) / 2, (lat(a) + lat(b)) / 2);
    CHECK(g.on_segment(mid) == on_seg(a, b, mid), "on_segment of " << S(mid));
    auto beyond = mk(2 * lon(b) - lon(a), 2 * lat(b) - lat(a));
    if (in_dom(lon(beyond), lat(beyond)))
        CHECK(g.on_segment(beyond) == on_seg(a, b, beyond), "on_segment of " << S(beyond));
    CHECK(g.on_segment(a) && g.on_segment(b), "on_segment of an endpoint");
    CHECK(eq(g.get_adjacent_to(a), b) || eq(a, b), "other endpoint of the first");
    CHECK(eq(g.get_adjacent_to(b), a) || eq(a, b), "other endpoint of the second");
    CHECK(eq(g.get_endpoint_1(), a) && eq(g.get_endpoint_2(), b), "endpoints");
    if (!eq(c, a) && !eq(c, b)) {
        bool th = false;
        try {
            (void)g.get_adjacent_to(c);
        } catch (const std::exception &) {
            th = true;
        }
        CHECK(th, "other endpoint of a position that is no endpoint did not fail");
    }
}

// ---------------------------------------------------------------- C18
CASE("C18", arithmetic) {
    auto s = scale(r), s2 = r.p(50) ? s : scale(r);
    Coordinate a = pt(r, s), b = pt(r, s2), c = pt(r, s);
    if (r.p(20))
        b = a;
    if (r.p(20))
        c = mk((lon(a) + lon(b)) / 2, (lat(a) + lat(b)) / 2);
    D << S(a) << S(b) << S(c);
    CHECK(eq(-a, mk(-lon(a), -lat(a))), "negation " << S(-a));
    CHECK(eq(a + b, mk(lon(a) + lon(b), lat(a) + lat(b))), "sum " << S(a + b));
    CHECK(eq(a - b, mk(lon(a) - lon(b), lat(a) - lat(b))), "difference " << S(a - b));
    CHECK((I128)a.dot_product_microdegrees(b) == (I128)lon(a) * lon(b) + (I128)lat(a) * lat(b), "dot product");
    CHECK((I128)a.cross_product_magnitude_microdegrees(b) == (I128)lon(a) * lat(b) - (I128)lat(a) * lon(b), "cross product");
    CHECK((I128)a.magnitude_squared_microdegrees() == (I128)lon(a) * lon(a) + (I128)lat(a) * lat(a), "squared length");
    auto d = a - b, e = c - b;
    CHECK((I128)d.magnitude_squared_microdegrees() == (I128)lon(d) * lon(d) + (I128)lat(d) * lat(d), "squared length of a difference");
    CHECK((I128)d.cross_product_magnitude_microdegrees(e) == (I128)lon(d) * lat(e) - (I128)lat(d) * lon(e), "cross product of differences");
    CHECK(a.get_longitude_microdegrees_long() == lon(a) && a.get_latitude_microdegrees_long() == lat(a), "wide getters");
    auto o = [](int k) { return k > 0 ? Orientation::COUNTER_CLOCKWISE : k < 0 ? Orientation::CLOCKWISE : Orientation::COLLINEAR; };
    int k = sgn((I128)lon(d) * lat(e) - (I128)lat(d) * lon(e));
    CHECK(d.vector_orientation(e) == o(k), "orientation of vectors");
    CHECK(e.vector_orientation(d) == o(-k), "orientation is not antisymmetric");
    CHECK(d.parallel(e) == (k == 0), "parallel");
    CHECK(LineSegment(a, b).orientation_of_point_to_segment(c) == o(ori(a, b, c)), "orientation of a position to a segment");
    CHECK(LineSegment(b, a).orientation_of_point_to_segment(c) == o(-ori(a, b, c)), "orientation to the reversed segment");
    CHECK(eq(LineSegment(a, b).get_tangent_vector(), b - a), "tangent");
    double dd = std::hypot(1e-6 * lon(d), 1e-6 * lat(d));
    CHECK(std::fabs(d.magnitude() - dd) <= 1e-9 * (1 + dd), "length");
    auto f = d.scalar_multiple_factor(e);
    CHECK(f.has_value() == (k == 0), "scalar multiple presence");
    if (f && !(lon(d) == 0 && lat(d) == 0))
        CHECK(std::fabs(*f * lon(d) - lon(e)) <= 1 && std::fabs(*f * lat(d) - lat(e)) <= 1, "scalar multiple");
}
CASE("C18", degrees) {
    // multiples of 1/8 of a microdegree away from representability trouble
    long x = r.in(-LON, LON), y = r.in(-LAT, LAT);
    double fx = (double)x * 1e-6, fy = (double)y * 1e-6;
    double ox = (double)r.in(2, 8) / 10 * 1e-6, oy = (double)r.in(2, 8) / 10 * 1e-6;
    double gx = x >= 0 ? fx + ox : fx - ox, gy = y >= 0 ? fy + oy : fy - oy;
    D << x << "," << y << " plus " << ox << "," << oy;
    Coordinate c(gx, gy);
    CHECK(lon(c) == x && lat(c) == y, "construction from degrees gives " << S(c));
    CHECK(std::fabs(c.get_longitude() - fx) < 1e-9 && std::fabs(c.get_latitude() - fy) < 1e-9, "degrees");
    double k = r.p(30) ? (double)r.in(-1, 1) : (r.u() * 2 - 1);
    auto m = c * k;
    CHECK(std::fabs(lon(m) - lon(c) * k) <= 0.5000001 && std::fabs(lat(m) - lat(c) * k) <= 0.5000001, "scaling by " << k << " gives " << S(m));
    if (std::fabs(k) > 0.3) {
        double q = 1 / k;
        auto n = c / q;
        CHECK(std::fabs(lon(n) - lon(c) * k) <= 0.500001 && std::fabs(lat(n) - lat(c) * k) <= 0.500001, "dividing by " << q << " gives " << S(n));
    }
}

// ---------------------------------------------------------------- C19
template <class T> static void eqv3(const T &a, const T &b, bool same, const char *what) {
    CHECK((a == b) == same, what << ": == answers " << (a == b));
    CHECK((b == a) == same, what << ": == is not symmetric");
    CHECK((a != b) == !same, what << ": != is not the negation");
    CHECK(a == a, what << ": not reflexive");
}
template <class T> static void hashed(const T &a, const T &b, bool same, const char *what) {
    CHECK(std::hash<T>()(a) == std::hash<T>()(a), what << ": hash is not a function");
    if (same)
        CHECK(std::hash<T>()(a) == std::hash<T>()(b), what << ": equal values with different hashes");
    std::unordered_set<T> u{a};
    CHECK((u.find(b) != u.end()) == same, what << ": lookup under an equal value");
}
CASE("C19", values) {
    auto s = scale(r);
    Coordinate a = pt(r, s), b = pt(r, s), c = pt(r, s), d = pt(r, s);
    int m = (int)r.in(0, 6);
    if (m == 0)
        b = a;
    if (m == 1)
        c = a, d = b;
    if (m == 2)
        c = b, d = a;
    if (m == 3)
        b = mk(lat(a), std::max(-LAT, std::min(LAT, lon(a))));
    if (m == 4)
        c = a;
    if (m == 5)
        d = a;
    D << S(a) << S(b) << S(c) << S(d);
    eqv3(a, b, eq(a, b), "coordinates");
    hashed(a, b, eq(a, b), "coordinates");
    LineSegment g(a, b), h(c, d);
    bool same = (eq(a, c) && eq(b, d)) || (eq(a, d) && eq(b, c));
    eqv3(g, h, same, "segments");
    hashed(g, h, same, "segments");
    eqv3(g, LineSegment(b, a), true, "segment and its reverse");
    hashed(g, LineSegment(b, a), true, "segment and its reverse");
    bool f1 = r.p(50), f2 = r.p(50);
    VisibleVertex v{a, f1}, w{m == 6 ? a : c, f2};
    eqv3(v, w, eq(v.coord, w.coord) && f1 == f2, "visible vertices");
}
CASE("C19", polygons) {
    auto s = scale(r);
    std::vector<Coordinate> v;
    for (long i = r.in(3, 6); i > 0; --i)
        v.push_back(pt(r, s));
    auto w = v;
    int m = (int)r.in(0, 4);
    if (m == 1)
        w[r.in(0, (long)w.size() - 1)] = pt(r, s);
    if (m == 2)
        std::rotate(w.begin(), w.begin() + 1, w.end());
    if (m == 3)
        w.pop_back();
    if (m == 4)
        std::reverse(w.begin(), w.end());
    D << S(v) << " and " << S(w);
    Polygon p(v), q(w);
    bool same = eqv(p.get_vertices(), q.get_vertices());
    eqv3(p, q, same, "polygons");
    hashed(p, q, same, "polygons");
    Polygon c = p;
    eqv3(p, c, true, "a polygon and its copy");
    hashed(p, c, true, "a polygon and its copy");
}

// ---------------------------------------------------------------- C20
static int half(const Coordinate &o, const Coordinate &v) {
    long x = lon(v) - lon(o), y = lat(v) - lat(o);
    return (y > 0 || (y == 0 && x > 0)) ? 0 : 1;
}
static I128 d2(const Coordinate &o, const Coordinate &v) {
    return (I128)(lon(v) - lon(o)) * (lon(v) - lon(o)) + (I128)(lat(v) - lat(o)) * (lat(v) - lat(o));
}
CASE("C20", sorting) {
    auto s = scale(r);
    Coordinate o = pt(r, s);
    std::vector<Coordinate> v;
    for (long i = r.in(0, 24); i > 0; --i) {
        auto c = pt(r, s);
        int m = (int)r.in(0, 9);
        if (m == 0)
            c = o;
        if (m == 1)
            c = mk(lon(c), lat(o));
        if (m == 2)
            c = mk(lon(o), lat(c));
        if (m == 3 && !v.empty())
            c = r.pick(v);
        if (m == 4 && !v.empty()) {
            auto q = r.pick(v);
            long x = lon(o) + 2 * (lon(q) - lon(o)), y = lat(o) + 2 * (lat(q) - lat(o));
            if (in_dom(x, y))
                c = mk(x, y);
        }
        if (m == 5 && !v.empty()) {
            auto q = r.pick(v);
            long x = lon(o) - (lon(q) - lon(o)), y = lat(o) - (lat(q) - lat(o));
            if (in_dom(x, y))
                c = mk(x, y);
        }
        if (m == 6 && !v.empty()) {
            auto q = r.pick(v);
            long x = lon(q) + r.in(-1, 1), y = lat(q) + r.in(-1, 1);
            if (in_dom(x, y))
                c = mk(x, y);
        }
        v.push_back(c);
    }
    D << "observer " << S(o) << " list " << S(v);
    nontrivial = v.size() >= 2;
    auto w = v;
    AngleSorter::sort_counter_clockwise_around_observer(o, w);
    auto x = v, y = w;
    std::sort(x.begin(), x.end(), LessC());
    std::sort(y.begin(), y.end(), LessC());
    CHECK(eqv(x, y), "sorting lost or made up vertices: " << S(w));
    for (size_t i = 0; i + 1 < w.size(); ++i) {
        auto &a = w[i], &b = w[i + 1];
        if (eq(a, o))
            continue;
        CHECK(!eq(b, o), "the observer does not come first: " << S(w));
        int ha = half(o, a), hb = half(o, b);
        if (ha != hb) {
            CHECK(ha < hb, "order of " << S(a) << " and " << S(b));
            continue;
        }
        int k = ori(o, a, b);
        CHECK(k >= 0, "angle order of " << S(a) << " and " << S(b));
        if (k == 0)
            CHECK(d2(o, a) <= d2(o, b), "distance order of " << S(a) << " and " << S(b));
    }
}

// ---------------------------------------------------------------- C21
CASE("C21", corner) {
    auto s = scale(r);
    Coordinate a = pt(r, s), b = pt(r, s), c = pt(r, s), p = pt(r, s);
    int m = (int)r.in(0, 5);
    auto along = [&](const Coordinate &q, long num, long den) {
        long dx = lon(q) - lon(b), dy = lat(q) - lat(b);
        if (den > 1 && (dx % den || dy % den))
            den = 1;
        long x = lon(b) + dx / den * num, y = lat(b) + dy / den * num;
        if (in_dom(x, y))
            p = mk(x, y);
    };
    if (m == 0)
        along(a, r.in(-3, 4), r.in(1, 3));
    if (m == 1)
        along(c, r.in(-3, 4), r.in(1, 3));
    if (m == 2)
        p = mk(std::max(-LON, std::min(LON, lon(a) + r.in(-1, 1))), std::max(-LAT, std::min(LAT, lat(a) + r.in(-1, 1))));
    int turn = ori(a, b, c);
    if (turn == 0 || eq(p, b)) {
        nontrivial = false;
        return;
    }
    D << "corner " << S(a) << S(b) << S(c) << " position " << S(p);
    ThreeVertexPolyline t(a, b, c);
    CHECK(t.is_reflex() == (turn < 0), "is_reflex " << t.is_reflex());
    int x = ori(b, a, p), y = ori(b, c, p); // interior lies left of bc and right of ba
    auto dot = [&](const Coordinate &q) { return (I128)(lon(q) - lon(b)) * (lon(p) - lon(b)) + (I128)(lat(q) - lat(b)) * (lat(p) - lat(b)); };
    bool vis;
    if (x == 0 && dot(a) > 0) { // on the ray of the first edge
        double f = std::sqrt((double)d2(b, p) / (double)d2(b, a));
        if (f > 1 && f < 1.0001) {
            nontrivial = false;
            return;
        }
        vis = f <= 1;
    } else if (y == 0 && dot(c) > 0) {
        double f = std::sqrt((double)d2(b, p) / (double)d2(b, c));
        if (f > 1 && f < 1.0001) {
            nontrivial = false;
            return;
        }
        vis = f <= 1;
    } else {
        bool inside = turn > 0 ? (x < 0 && y > 0) : !(x >= 0 && y <= 0);
        vis = !inside;
    }
    CHECK(t.point_visible(p) == vis, "point_visible answers " << t.point_visible(p));
}

// ---------------------------------------------------------------- C15
static std::vector<Coordinate> expected(const std::vector<Coordinate> &in) {
    std::vector<Coordinate> v;
    for (auto &c : in)
        if (v.empty() || !eq(v.back(), c))
            v.push_back(c);
    while (v.size() > 1 && eq(v.front(), v.back()))
        v.pop_back();
    std::vector<Coordinate> f;
    long n = (long)v.size();
    for (long i = 0; i < n; ++i) {
        auto &a = v[(i + n - 1) % n], &b = v[i], &c = v[(i + 1) % n];
        bool straight = ori(a, b, c) == 0;
        I128 dot = (I128)(lon(b) - lon(a)) * (lon(c) - lon(b)) + (I128)(lat(b) - lat(a)) * (lat(c) - lat(b));
        if (!straight || dot < 0)
            f.push_back(b);
    }
    if (f.size() > 2 && area2(f) < 0)
        std::reverse(f.begin(), f.end());
    return f;
}
CASE("C15", polygon) {
    auto s = scale(r);
    std::vector<Coordinate> v;
    int m = (int)r.in(0, 4);
    if (m == 0) { // a simple polygon
        auto sc = scene(r, LON, LAT, 1);
        if (!sc.empty())
            v = sc[0];
    }
    if (m == 1) { // a sliver
        Coordinate a = pt(r, s), b = pt(r, s);
        v = {a, b, mk((lon(a) + lon(b)) / 2 + r.in(-1, 1), std::max(-LAT, std::min(LAT, (lat(a) + lat(b)) / 2 + r.in(-1, 1))))};
        for (auto &c : v)
            c = mk(std::max(-LON, std::min(LON, lon(c))), lat(c));
    }
    if (v.empty())
        for (long i = r.in(0, 9); i > 0; --i)
            v.push_back(pt(r, s));
    // repeat and insert vertices
    for (long k = r.in(0, 3); k > 0 && !v.empty(); --k) {
        size_t i = (size_t)r.in(0, (long)v.size() - 1);
        if (r.p(50))
            v.insert(v.begin() + (long)i, v[i]);
        else {
            auto &a = v[i], &b = v[(i + 1) % v.size()];
            if ((lon(a) + lon(b)) % 2 == 0 && (lat(a) + lat(b)) % 2 == 0)
                v.insert(v.begin() + (long)i + 1, mk((lon(a) + lon(b)) / 2, (lat(a) + lat(b)) / 2));
        }
    }
    if (r.p(30) && !v.empty())
        v.push_back(v[0]);
    if (r.p(30))
        std::reverse(v.begin(), v.end());
    D << S(v);
    auto e = expected(v);
    nontrivial = e.size() > 2;
    Polygon p(v);
    CHECK(eqv(p.get_vertices(), e), "vertices are " << S(p.get_vertices()) << " instead of " << S(e));
    CHECK(eqv(Polygon(p.get_vertices()).get_vertices(), p.get_vertices()), "constructing again changes the polygon");
    auto g = p.get_line_segments();
    CHECK(g.size() == e.size(), "number of segments " << g.size());
    for (size_t i = 0; i < g.size(); ++i)
        CHECK(eq(g[i].get_endpoint_1(), e[i]) && eq(g[i].get_endpoint_2(), e[(i + 1) % e.size()]), "segment " << i);
}
