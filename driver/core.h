// Conformance driver for the TLA+ specifications in /verif/spec.
// Reads scenario scripts (one command per line), runs each scenario in a forked
// child against the real library through its public API, and records one JSON
// event per command (the projection of the abstract state) into the trace file.
#ifndef DRV_CORE_H
#define DRV_CORE_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <memory>
#include <functional>

#include <delynoi/models/basic/Point.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/voronoi/DelaunayToVoronoi.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>

typedef std::vector<std::string> Tok;

// A value outside what the trace can carry (NaN, infinity, out of range).
static const long BADNUM = 2000000001L;

struct NoSlot { std::string name; };        // a command on something whose making failed

struct Ctx {
    int p = 0;                       // lattice exponent: real = n * 2^-p
    FILE* out = nullptr;
    std::string id;
    std::map<std::string, std::shared_ptr<void> > slots;
    double real(long n) const { return std::ldexp((double) n, -p); }
    long fix(double x) const {
        double v = std::ldexp(x, p);
        if (!(std::fabs(v) < 2.0e9)) return BADNUM;
        return std::lround(v);
    }
    std::string num(double x) const { return std::to_string(fix(x)); }
    std::string pt(const Point& q) const { return "[" + num(q.getX()) + "," + num(q.getY()) + "]"; }
    std::string ptb(Point q) const {
        return "[" + num(q.getX()) + "," + num(q.getY()) + "," + (q.isInBoundary() ? "1" : "0") + "]";
    }
    template <class T> T& slot(const std::string& n) {
        auto it = slots.find(n);
        if (it == slots.end()) throw NoSlot{n};
        return *static_cast<T*>(it->second.get());
    }
    template <class T> T& put(const std::string& n, const T& v) {
        auto s = std::make_shared<T>(v);
        slots[n] = s;
        return *s;
    }
};

// x * 2^k as a wide integer: [sign, hi, mid, lo] in base 2^30 (TLC integers are 32 bit).
inline std::string wide(double x, int k) {
    double v = std::ldexp(x, k);
    if (!(std::fabs(v) < 1e26)) return "[9,0,0,0]";
    bool neg = v < 0;
    __int128 n = (__int128) std::fabs(std::nearbyint(v));
    const __int128 B = (__int128) 1 << 30;
    long lo = (long) (n % B), mid = (long) ((n / B) % B), hi = (long) (n / B / B);
    return std::string("[") + (neg ? "-1" : "1") + "," + std::to_string(hi) + "," + std::to_string(mid) + "," + std::to_string(lo) + "]";
}

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char) c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
template <class V, class F> std::string jlist(const V& v, F f) {
    std::string o = "[";
    bool first = true;
    for (const auto& e : v) { if (!first) o += ","; first = false; o += f(e); }
    return o + "]";
}
inline std::string jints(const std::vector<int>& v) { return jlist(v, [](int i) { return std::to_string(i); }); }
inline std::string jb(bool b) { return b ? "1" : "0"; }

// A word of a file: ["n", digits as a wide integer, how many of them are decimals, written as a plain integer] or ["s"].
inline std::string token(const std::string& w) {
    size_t i = 0; bool neg = false;
    if (i < w.size() && w[i] == '-') { neg = true; ++i; }
    if (i == w.size()) return "[\"s\"]";
    __int128 v = 0; int k = -1, digits = 0;
    for (; i < w.size(); ++i) {
        if (w[i] == '.' && k < 0) { k = 0; continue; }
        if (!isdigit(w[i]) || ++digits > 26) return "[\"s\"]";
        v = v * 10 + (w[i] - '0');
        if (k >= 0) ++k;
    }
    if (!digits) return "[\"s\"]";
    const __int128 B = (__int128) 1 << 30;
    return std::string("[\"n\",[") + (neg ? "-1" : "1") + "," + std::to_string((long) (v / B / B)) + "," + std::to_string((long) ((v / B) % B)) + "," + std::to_string((long) (v % B)) + "]," +
        std::to_string(k < 0 ? 0 : k) + "," + (k < 0 ? "1" : "0") + "]";
}
inline std::string line(const std::string& l) { std::istringstream s(l); std::string w, o = "["; bool first = true; while (s >> w) { o += (first ? "" : ",") + token(w); first = false; } return o + "]"; }

struct Args {                        // cursor over the tokens of a command
    const Tok& t; size_t i;
    Args(const Tok& tt, size_t start) : t(tt), i(start) {}
    bool more() const { return i < t.size(); }
    std::string s() { if (i >= t.size()) throw std::logic_error("driver: missing argument in " + t[0]); return t[i++]; }
    long n() { return std::stol(s()); }
    Point pt(const Ctx& c) { long a = n(), b = n(); return Point(c.real(a), c.real(b)); }
    std::vector<Point> pts(const Ctx& c) { long k = n(); std::vector<Point> r; for (long j = 0; j < k; ++j) r.push_back(pt(c)); return r; }
    std::vector<int> ints() { long k = n(); std::vector<int> r; for (long j = 0; j < k; ++j) r.push_back((int) n()); return r; }
};

// A command returns the JSON members of its event (without braces).
typedef std::string (*Cmd)(Ctx&, Args&);
void reg(const char* name, Cmd c);
struct Reg { Reg(const char* n, Cmd c) { reg(n, c); } };

#define CMD(NAME) \
    static std::string cmd_##NAME(Ctx& c, Args& a); \
    static Reg reg_##NAME(#NAME, cmd_##NAME); \
    static std::string cmd_##NAME(Ctx& c, Args& a)
#endif
