// Random scenes: simple, pairwise disjoint polygons.
#include "hc.hpp"
I128 area2(const std::vector<Coordinate> &v) {
    I128 s = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        auto &a = v[i], &b = v[(i + 1) % v.size()];
        s += (I128)lon(a) * lat(b) - (I128)lat(a) * lon(b);
    }
    return s;
}
bool simple_polygon(const std::vector<Coordinate> &v) {
    size_t n = v.size();
    if (n < 3)
        return false;
    for (size_t i = 0; i < n; ++i) {
        if (ori(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0)
            return false;
        for (size_t j = i + 1; j < n; ++j) {
            if (eq(v[i], v[j]))
                return false;
            if (j == i + 1 || (i == 0 && j == n - 1))
                continue;
            if (meet(v[i], v[i + 1], v[j], v[(j + 1) % n]))
                return false;
        }
    }
    return true;
}
// strictly inside or outside by crossing count; positions on the boundary give false
bool strictly_inside(const std::vector<Coordinate> &v, const Coordinate &p) {
    bool in = false;
    size_t n = v.size();
    for (size_t i = 0; i < n; ++i) {
        auto &a = v[i], &b = v[(i + 1) % n];
        if (on_seg(a, b, p))
            return false;
        if ((lat(a) > lat(p)) != (lat(b) > lat(p))) {
            int o = ori(a, b, p);
            if ((lat(b) > lat(a)) ? o > 0 : o < 0)
                in = !in;
        }
    }
    return in;
}
static bool disjoint(const std::vector<Coordinate> &p, const std::vector<Coordinate> &q) {
    for (size_t i = 0; i < p.size(); ++i)
        for (size_t j = 0; j < q.size(); ++j)
            if (meet(p[i], p[(i + 1) % p.size()], q[j], q[(j + 1) % q.size()]))
                return false;
    return !strictly_inside(p, q[0]) && !strictly_inside(q, p[0]);
}
std::vector<std::vector<Coordinate>> scene(Rng &r, long maxlon, long maxlat, int want) {
    std::vector<std::vector<Coordinate>> ps;
    long n = r.in(4, 24);
    long step = r.p(40) ? r.in(1, 3) : r.p(50) ? r.in(1000, 200000) : std::max(1L, std::min(maxlon, maxlat) / (n + 8));
    long cx = 0, cy = 0;
    if (maxlon > (n + 8) * step && r.p(60)) {
        cx = r.in(-(maxlon - (n + 8) * step), maxlon - (n + 8) * step);
        if (r.p(40))
            cx = r.p(50) ? maxlon - (n + 8) * step : -(maxlon - (n + 8) * step);
    }
    if (maxlat > (n + 8) * step && r.p(50))
        cy = r.in(-(maxlat - (n + 8) * step), maxlat - (n + 8) * step);
    long stretch = maxlon / maxlat >= 2 && r.p(25) ? 2 : 1;
    for (int t = 0; t < want * 6 && (int)ps.size() < want; ++t) {
        std::vector<Coordinate> v;
        long k = r.p(50) ? 3 : r.in(3, 7), R = r.in(1, std::max(2L, n / 2)), ox = r.in(-n, n), oy = r.in(-n, n);
        for (long i = 0; i < k; ++i) {
            long x = cx + (ox + r.in(-R, R)) * step * stretch, y = cy + (oy + r.in(-R, R)) * step;
            x = std::max(-maxlon, std::min(maxlon, x));
            y = std::max(-maxlat, std::min(maxlat, y));
            v.push_back(mk(x, y));
        }
        if (k > 3 && r.p(60)) { // star-shaped order makes it simple more often
            double mx = 0, my = 0;
            for (auto &c : v)
                mx += lon(c), my += lat(c);
            mx /= k, my /= k;
            std::sort(v.begin(), v.end(), [&](const Coordinate &a, const Coordinate &b) { return std::atan2(lat(a) - my, lon(a) - mx) < std::atan2(lat(b) - my, lon(b) - mx); });
        }
        if (!simple_polygon(v))
            continue;
        bool ok = true;
        for (auto &q : ps)
            ok = ok && disjoint(v, q);
        if (ok)
            ps.push_back(v);
    }
    return ps;
}
