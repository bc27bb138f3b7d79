// Unique lists, neighbour maps, comparisons.
#include "core.h"
#include <delynoi/models/neighbourhood/EdgeData.h>

typedef std::vector<Point> Pts;
static std::string ji(int i) { return "[" + std::to_string(i) + ",0]"; }
static int in(Ctx&, Args& a, int*) { int i = (int) a.n(); a.n(); return i; }
static Point in(Ctx& c, Args& a, Point*) { return a.pt(c); }
static std::string el(Ctx&, int i) { return ji(i); }
static std::string el(Ctx& c, const Point& p) { return c.pt(p); }

template <class T> static std::string ulop(Ctx& c, Args& a, const std::string& op, const std::string& n, const char* kind) {
    typedef UniqueList<T> L;
    std::string arg = "[", ret = "[", other;
    if (op == "new") c.put<L>(n, L());
    else if (op == "push") { T x = in(c, a, (T*) 0); arg += el(c, x); ret += std::to_string(c.slot<L>(n).push_back(x)); }
    else if (op == "force") { T x = in(c, a, (T*) 0); arg += el(c, x); ret += std::to_string(c.slot<L>(n).force_push_back(x)); }
    else if (op == "pop") c.slot<L>(n).pop_front();
    else if (op == "del") { T x = in(c, a, (T*) 0); arg += el(c, x); c.slot<L>(n).delete_element(x); }
    else if (op == "list") { long k = a.n(); std::vector<T> v; for (long i = 0; i < k; ++i) { v.push_back(in(c, a, (T*) 0)); arg += (i ? "," : "") + el(c, v.back()); }
        std::vector<int> r = c.slot<L>(n).push_list(v); std::string s = jints(r); ret += s.substr(1, s.size() - 2); }
    else if (op == "from") { other = a.s(); std::vector<int> r = c.slot<L>(n).push_list(c.slot<L>(other)); std::string s = jints(r); ret += s.substr(1, s.size() - 2); }
    else if (op == "clear") c.slot<L>(n).clear();
    else if (op == "copy") { other = a.s(); c.slots[n] = std::make_shared<L>(c.slot<L>(other)); }
    else if (op == "assign") { other = a.s(); c.slot<L>(n) = c.slot<L>(other); }
    else if (op == "index") { T x = in(c, a, (T*) 0); arg += el(c, x); ret += std::to_string(c.slot<L>(n).indexOf(x)); }
    else if (op == "has") { T x = in(c, a, (T*) 0); arg += el(c, x); ret += jb(c.slot<L>(n).contains(x)); }
    else if (op == "common") { other = a.s(); ret += jb(c.slot<L>(n).hasCommonElement(c.slot<L>(other))); }
    else if (op == "eq") { other = a.s(); ret += jb(c.slot<L>(n) == c.slot<L>(other)); }
    else throw std::logic_error("driver: ul " + op);
    L& l = c.slot<L>(n);
    std::string at = "[";
    for (int i = 0; i < l.size(); ++i) at += (i ? "," : "") + el(c, l[i]);
    const L& k = l; std::vector<T> all = k.getList(), &ref = l.getList();
    std::string s2 = jlist(all, [&](const T& x) { return el(c, x); }), s3 = jlist(ref, [&](const T& x) { return el(c, x); });
    return "\"op\":" + jstr(op) + ",\"n\":" + jstr(n) + ",\"kind\":" + jstr(kind) + ",\"arg\":" + arg + "],\"ret\":" + ret + "],\"o\":" + jstr(other) +
        ",\"size\":" + std::to_string(l.size()) + ",\"list\":" + at + "],\"all\":" + s2 + ",\"ref\":" + s3;
}
// ul KIND OP NAME ... : an operation of a unique list, and what the list holds then
CMD(ul) { std::string k = a.s(), op = a.s(), n = a.s(); return k == "int" ? ulop<int>(c, a, op, n, "int") : ulop<Point>(c, a, op, n, "pt"); }

CMD(pm) { std::string op = a.s(), n = a.s(), ret = "[]", at = "[0,0]", ns = "[]";
    if (op == "new") c.put<PointMap>(n, PointMap());
    else {
        PointMap& m = c.slot<PointMap>(n);
        if (op == "ins") { Point p = a.pt(c); int i = (int) a.n(); at = c.pt(p); ns = "[" + std::to_string(i) + "]"; m.insert(p, i); }
        else if (op == "insl") { Point p = a.pt(c); std::vector<int> v = a.ints(); at = c.pt(p); ns = jints(v); m.insert(p, v); }
        else if (op == "get") { Point p = a.pt(c); at = c.pt(p); ret = jints(m.get(p).getNeighbours()); }
        else throw std::logic_error("driver: pm " + op);
    }
    PointMap& m = c.slot<PointMap>(n); std::string o = "["; bool first = true;
    for (auto& e : m.getMap()) { o += std::string(first ? "" : ",") + "[" + c.pt(e.first) + "," + jints(e.second.getNeighbours()) + "]"; first = false; }
    return "\"op\":" + jstr(op) + ",\"n\":" + jstr(n) + ",\"at\":" + at + ",\"ns\":" + ns + ",\"ret\":" + ret + ",\"size\":" + std::to_string(m.size()) + ",\"map\":" + o + "]"; }

static std::string jn(const NeighboursBySegment& x) { return "[" + std::to_string(x.getFirst()) + "," + std::to_string(x.getSecond()) + "]"; }
CMD(sm) { std::string op = a.s(), n = a.s(), ret = "[]", key = "[0,0]", ns = "[]";
    if (op == "new") c.put<SegmentMap>(n, SegmentMap());
    else if (op == "copy") { std::string f = a.s(); c.slots[n] = std::make_shared<SegmentMap>(c.slot<SegmentMap>(f)); key = jstr(f); }
    else {
        SegmentMap& m = c.slot<SegmentMap>(n); int i = (int) a.n(), j = (int) a.n(); IndexSegment s(i, j); key = "[" + std::to_string(i) + "," + std::to_string(j) + "]";
        if (op == "ins") { int k = (int) a.n(); ns = "[" + std::to_string(k) + "]"; m.insert(s, k); }
        else if (op == "insn") { int k = (int) a.n(), l = (int) a.n(); ns = "[" + std::to_string(k) + "," + std::to_string(l) + "]"; m.insert(s, NeighboursBySegment(k, l)); }
        else if (op == "get") ret = jn(m.get(s));
        else if (op == "has") ret = "[" + jb(m.containsSegment(s)) + "]";
        else if (op == "set") { int k = (int) a.n(), l = (int) a.n(); ns = "[" + std::to_string(k) + "," + std::to_string(l) + "]"; m.get(s).setFirst(k); m.get(s).setSecond(l); }
        else throw std::logic_error("driver: sm " + op);
    }
    SegmentMap& m = c.slot<SegmentMap>(n); std::string o = "["; bool first = true;
    for (auto& e : m.getMap()) { o += std::string(first ? "" : ",") + "[" + std::to_string(e.first.getFirst()) + "," + std::to_string(e.first.getSecond()) + "," +
        std::to_string(e.second.getFirst()) + "," + std::to_string(e.second.getSecond()) + "]"; first = false; }
    return "\"op\":" + jstr(op) + ",\"n\":" + jstr(n) + ",\"key\":" + key + ",\"ns\":" + ns + ",\"ret\":" + ret + ",\"size\":" + std::to_string(m.size()) + ",\"map\":" + o + "]"; }

template <class V, class F> static std::string pairs(const V& v, F f) { std::string o = "["; bool first = true;
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (f(v[i], v[j])) { o += std::string(first ? "" : ",") + "[" + std::to_string(i + 1) + "," + std::to_string(j + 1) + "]"; first = false; }
    return o + "]"; }
// pcmp n x y ... : which pairs of the points are equal, and which are in order
CMD(pcmp) { Pts p = a.pts(c); return "\"pts\":" + jlist(p, [&](const Point& q) { return c.pt(q); }) + ",\"eq\":" + pairs(p, [](const Point& x, const Point& y) { return x == y; }) +
    ",\"lt\":" + pairs(p, [](const Point& x, const Point& y) { return x < y; }); }
// icmp n i j ... : the same of index segments, neighbours and edges of the same two indexes
CMD(icmp) { long n = a.n(); std::vector<IndexSegment> s; std::vector<NeighboursBySegment> g; std::vector<EdgeData> e; std::vector<Key> k; std::string o = "[";
    for (long x = 0; x < n; ++x) { int i = (int) a.n(), j = (int) a.n(); s.push_back(IndexSegment(i, j)); g.push_back(NeighboursBySegment(i, j)); e.push_back(EdgeData(i, j)); k.push_back(Key(i, j));
        o += (x ? ",[" : "[") + std::to_string(i) + "," + std::to_string(j) + "]"; }
    std::vector<IndexSegment> t = s;
    return "\"in\":" + o + "],\"is\":" + pairs(s, [](const IndexSegment& x, const IndexSegment& y) { return x == y; }) + ",\"hs\":" + pairs(t, [](const IndexSegment& x, const IndexSegment& y) { return SegmentHasher()(x) == SegmentHasher()(y); }) +
        ",\"ng\":" + pairs(g, [](const NeighboursBySegment& x, const NeighboursBySegment& y) { return x == y; }) + ",\"nh\":" + pairs(g, [](const NeighboursBySegment& x, const NeighboursBySegment& y) { return NeighboursHasher()(x) == NeighboursHasher()(y); }) +
        ",\"ed\":" + pairs(e, [](const EdgeData& x, const EdgeData& y) { return x == y; }) + ",\"ke\":" + pairs(k, [](const Key& x, const Key& y) { return x == y && KeyHasher()(x) == KeyHasher()(y); }) +
        ",\"lt\":" + pairs(s, [](const IndexSegment& x, const IndexSegment& y) { return x < y; }); }
