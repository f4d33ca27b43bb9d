// Bounded search for failing inputs on the real code: case generators and independent oracles.
#ifndef HC_HPP
#define HC_HPP
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <vector>

#include "types/coordinate/coordinate.hpp"
#include "types/line_segment/line_segment.hpp"
#include "types/polygon/polygon.hpp"

typedef __int128 I128;
static const long LON = 540000001, LAT = 90000000, PER = 360000001, MAXLON = 180000000;

struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    long in(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
    bool p(int percent) { return (long)(next() % 100) < percent; }
    double u() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <class T> T &pick(std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[next() % i]);
    }
};

struct Failure {
    std::string what;
};

extern std::ostringstream D; // the current case, written out
extern bool nontrivial;
#define CHECK(c, msg)                                                                                                  \
    do {                                                                                                               \
        if (!(c)) {                                                                                                    \
            std::ostringstream _o;                                                                                     \
            _o << msg;                                                                                                 \
            throw Failure{_o.str()};                                                                                   \
        }                                                                                                              \
    } while (0)

using CaseFn = std::function<void(Rng &)>;
struct Suite {
    std::string prop;
    std::vector<std::pair<std::string, CaseFn>> cases;
};
std::vector<Suite> &suites();
struct Reg {
    Reg(const char *prop, const char *name, CaseFn f) {
        for (auto &s : suites())
            if (s.prop == prop) {
                s.cases.push_back({name, f});
                return;
            }
        suites().push_back({prop, {{name, f}}});
    }
};
#define CASE(prop, name)                                                                                               \
    static void name(Rng &r);                                                                                          \
    static Reg reg_##name(prop, #name, name);                                                                          \
    static void name(Rng &r)

inline long lon(const Coordinate &c) { return c.get_longitude_microdegrees(); }
inline long lat(const Coordinate &c) { return c.get_latitude_microdegrees(); }
inline Coordinate mk(long x, long y) { return Coordinate((int32_t)x, (int32_t)y); }
inline std::string S(const Coordinate &c) { return "(" + std::to_string(lon(c)) + "," + std::to_string(lat(c)) + ")"; }
inline std::string S(const std::vector<Coordinate> &v) {
    std::string o = "[";
    for (auto &c : v)
        o += S(c) + " ";
    return o + "]";
}
inline int sgn(I128 x) { return x < 0 ? -1 : x > 0; }
inline int ori(const Coordinate &a, const Coordinate &b, const Coordinate &c) {
    return sgn((I128)(lon(b) - lon(a)) * (lat(c) - lat(a)) - (I128)(lat(b) - lat(a)) * (lon(c) - lon(a)));
}
struct LessC {
    bool operator()(const Coordinate &a, const Coordinate &b) const {
        return std::make_pair(lon(a), lat(a)) < std::make_pair(lon(b), lat(b));
    }
};
inline bool eq(const Coordinate &a, const Coordinate &b) { return lon(a) == lon(b) && lat(a) == lat(b); }
inline bool eqv(const std::vector<Coordinate> &a, const std::vector<Coordinate> &b) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!eq(a[i], b[i]))
            return false;
    return true;
}
// on the closed segment ab
inline bool on_seg(const Coordinate &a, const Coordinate &b, const Coordinate &c) {
    return ori(a, b, c) == 0 && std::min(lon(a), lon(b)) <= lon(c) && lon(c) <= std::max(lon(a), lon(b)) &&
           std::min(lat(a), lat(b)) <= lat(c) && lat(c) <= std::max(lat(a), lat(b));
}
inline bool meet(const Coordinate &a, const Coordinate &b, const Coordinate &c, const Coordinate &d) {
    if (on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b))
        return true;
    return ori(a, b, c) * ori(a, b, d) < 0 && ori(c, d, a) * ori(c, d, b) < 0;
}
inline bool cross_properly(const Coordinate &a, const Coordinate &b, const Coordinate &c, const Coordinate &d) {
    return ori(a, b, c) * ori(a, b, d) < 0 && ori(c, d, a) * ori(c, d, b) < 0;
}
// a position of the domain, at a scale chosen per case
struct Scale {
    long kind;
    long step, n;
};
inline Scale scale(Rng &r) {
    Scale s;
    s.kind = r.in(0, 5);
    s.n = r.in(2, 12);
    s.step = s.kind == 0 ? 1 : s.kind == 1 ? r.in(2, 1000) : s.kind == 2 ? 1000000 : s.kind == 3 ? r.in(1, 7500000) : 1;
    return s;
}
inline Coordinate pt(Rng &r, const Scale &s, long maxlon = LON) {
    if (s.kind <= 3)
        return mk(std::max(-maxlon, std::min(maxlon, r.in(-s.n, s.n) * s.step)), r.in(-s.n, s.n) * s.step);
    if (s.kind == 4)
        return mk(r.in(-maxlon, maxlon), r.in(-LAT, LAT));
    long e[] = {-maxlon, -maxlon + 1, maxlon, maxlon - 1, 0, -1, 1, MAXLON, -MAXLON, MAXLON + 1 > maxlon ? maxlon : MAXLON + 1};
    long f[] = {-LAT, -LAT + 1, LAT, LAT - 1, 0, 1, -1};
    return mk(r.p(70) ? e[r.in(0, 9)] : r.in(-maxlon, maxlon), r.p(70) ? f[r.in(0, 6)] : r.in(-LAT, LAT));
}
inline bool in_dom(long x, long y) { return std::labs(x) <= LON && std::labs(y) <= LAT; }
// obstacle scenes: simple, pairwise disjoint polygons
std::vector<std::vector<Coordinate>> scene(Rng &r, long maxlon, long maxlat, int want);
bool strictly_inside(const std::vector<Coordinate> &poly, const Coordinate &p);
bool simple_polygon(const std::vector<Coordinate> &v);
I128 area2(const std::vector<Coordinate> &v);
std::string scratch_dir();
#endif
