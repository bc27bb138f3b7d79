// Polygons, segments, triangulators of polygons, hulls.
#include <set>
#include "core.h"

typedef std::vector<Point> Pts;
static std::string jp(Ctx& c, const Pts& v) { return jlist(v, [&](const Point& q) { return c.pt(q); }); }
static std::string jseg(const IndexSegment& e) { return "[" + std::to_string(e.getFirst()) + "," + std::to_string(e.getSecond()) + "]"; }
static bool identical(const Pts& a, const Pts& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].getX() != b[i].getX() || a[i].getY() != b[i].getY()) return false;
    return true;
}

// pts LIST n x y ...  : a list of points, which polygons have indexes into
CMD(pts) { std::string s = a.s(); Pts p = a.pts(c); c.put<Pts>(s, p); return "\"l\":" + jstr(s) + ",\"pts\":" + jp(c, p); }
static std::string made(Ctx& c, const std::string& s, const std::string& th) {
    return ",\"thrown\":" + jstr(th) + ",\"idx\":" + (th.empty() ? jints(const_cast<const Polygon&>(c.slot<Polygon>(s)).getPoints()) : "[]");
}
CMD(poly) { std::string s = a.s(), l = a.s(), th; std::vector<int> ix = a.ints(); Pts& p = c.slot<Pts>(l); std::string in = jints(ix);
    try { Polygon q(ix, p); c.put<Polygon>(s, q); } catch (std::invalid_argument&) { th = "invalid_argument"; }
    return "\"q\":" + jstr(s) + ",\"l\":" + jstr(l) + ",\"in\":" + in + made(c, s, th); }
CMD(polyp) { std::string s = a.s(), l = a.s(), th; Pts& p = c.slot<Pts>(l);
    try { Polygon q(p); c.put<Polygon>(s, q); } catch (std::invalid_argument&) { th = "invalid_argument"; }
    return "\"q\":" + jstr(s) + ",\"l\":" + jstr(l) + made(c, s, th); }
CMD(pcopy) { std::string s = a.s(), f = a.s(); { Polygon q(c.slot<Polygon>(f)); c.put<Polygon>(s, q); } return "\"q\":" + jstr(s) + ",\"from\":" + jstr(f) + made(c, s, ""); }
CMD(passign) { std::string s = a.s(), f = a.s(); c.slot<Polygon>(s) = c.slot<Polygon>(f); return "\"q\":" + jstr(s) + ",\"from\":" + jstr(f) + made(c, s, ""); }
CMD(pmut) { std::string s = a.s(), l = a.s(), th; c.slot<Polygon>(s).mutate(c.slot<Pts>(l));
    return "\"q\":" + jstr(s) + ",\"l\":" + jstr(l) + made(c, s, th); }
// psimple KIND LIST : is a polygon, region or hole accepted
CMD(psimple) { std::string k = a.s(), th; Pts p = a.pts(c), before = p;
    try {
        if (k == "polygon") Polygon q(p); else if (k == "region") Region q(p); else if (k == "hole") PolygonalHole q(p);
        else if (k == "mutate") { Pts t = {Point(0, 0), Point(1, 0), Point(0, 1)}; Polygon q(t); q.mutate(p); }
        else if (k == "regionmutate") { Pts t = {Point(0, 0), Point(1, 0), Point(0, 1)}; Region q(t); q.mutate(p); }
        else if (k == "indexes") { std::vector<int> ix; for (size_t i = 0; i < p.size(); ++i) ix.push_back((int) i); Polygon q(ix, p); }
        else if (k == "query") { std::vector<int> ix; for (size_t i = 0; i < p.size(); ++i) ix.push_back((int) i); if (Polygon(ix, p).isSelfIntersecting(p)) th = "invalid_argument"; }
        else throw std::logic_error("driver: psimple " + k);
    } catch (std::invalid_argument&) { th = "invalid_argument"; }
    return "\"k\":" + jstr(k) + ",\"pts\":" + jp(c, before) + ",\"thrown\":" + jstr(th) + ",\"same\":" + jb(identical(p, before)); }

// ask POLYGON LIST OP : one query
CMD(ask) { std::string s = a.s(), l = a.s(), op = a.s(); Pts& p = c.slot<Pts>(l); Pts before = p; Polygon& q = c.slot<Polygon>(s);
    std::string o = "\"q\":" + jstr(s) + ",\"l\":" + jstr(l) + ",\"op\":" + jstr(op);
    if (op == "area") o += ",\"w\":" + wide(q.getArea(p), 2 * c.p + 1);
    else if (op == "signed") o += ",\"w\":" + wide(q.signedArea(p), 2 * c.p + 1);
    else if (op == "centroid") o += ",\"v\":" + c.pt(q.getCentroid(p));
    else if (op == "average") o += ",\"v\":" + c.pt(q.getAverage(p));
    else if (op == "diameter") o += ",\"w\":" + wide(q.getDiameter(p), c.p + 8);
    else if (op == "longest") o += ",\"w\":" + wide(q.getMaxDistance(p), c.p + 8);
    else if (op == "clockwise") o += ",\"b\":" + jb(q.isClockwise(p));
    else if (op == "convex") o += ",\"b\":" + jb(q.isConvex(p));
    else if (op == "selfint") o += ",\"b\":" + jb(q.isSelfIntersecting(p));
    else if (op == "fixccw") q.fixCCW(p);
    else if (op == "sides") { std::vector<IndexSegment> v; q.getSegments(v); o += ",\"s\":" + jlist(v, jseg) + ",\"n\":" + std::to_string(q.numberOfSides()); }
    else if (op == "points") { Pts v = q.getPoints(p); o += ",\"vs\":" + jp(c, v); }
    else throw std::logic_error("driver: ask " + op);
    return o + ",\"idx\":" + jints(const_cast<const Polygon&>(q).getPoints()) + ",\"same\":" + jb(identical(p, before)); }
// edges POLYGON lo hi : which pairs of indexes of lo..hi are sides, which indexes are vertices
CMD(edges) { std::string s = a.s(); int lo = (int) a.n(), hi = (int) a.n(); Polygon& q = c.slot<Polygon>(s); std::string e, v;
    for (int i = lo; i <= hi; ++i) {
        if (q.isVertex(i)) v += (v.empty() ? "" : ",") + std::to_string(i);
        for (int j = lo; j <= hi; ++j) { IndexSegment g(i, j); if (i != j && q.containsEdge(g)) e += std::string(e.empty() ? "" : ",") + "[" + std::to_string(i) + "," + std::to_string(j) + "]"; }
    }
    return "\"q\":" + jstr(s) + ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"es\":[" + e + "],\"vs\":[" + v + "]"; }
// psame n i ... m i ... : polygons with these vertices of a row of points
static std::vector<Point> bow(int n) { std::vector<Point> v; for (int i = 0; i < n; ++i) v.push_back(Point(i, .001 * i * i)); return v; }
CMD(psame) { std::vector<int> i = a.ints(), j = a.ints(); int n = 1; for (int x : i) n = std::max(n, x + 1); for (int x : j) n = std::max(n, x + 1); std::vector<Point> v = bow(n); Polygon p(i, v), q(j, v);
    return "\"a\":" + jints(i) + ",\"b\":" + jints(j) + ",\"eq\":[" + jb(p == q) + "," + jb(q == p) + "],\"lt\":" + jb(p < q) + ",\"gt\":" + jb(q < p); }
// pcount lo n : how many different triangles there are with vertices among n indexes
CMD(pcount) { int lo = (int) a.n(), n = (int) a.n(); std::vector<Point> v = bow(lo + n); std::set<Polygon> s;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) { std::vector<int> t = {lo + k, lo + j, lo + i}; s.insert(Polygon(t, v)); }
    return "\"n\":" + std::to_string(n) + ",\"distinct\":" + std::to_string(s.size()); }
CMD(pequal) { std::string s = a.s(), t = a.s(); return "\"q\":" + jstr(s) + ",\"o\":" + jstr(t) + ",\"eq\":" + jb(c.slot<Polygon>(s) == c.slot<Polygon>(t)); }
// where KIND n x y ... k x y ... : which of the k points are in the polygon (region, hole, box) of the n points, and on its sides
CMD(where) { std::string k = a.s(); Pts p = a.pts(c), v = a.pts(c); std::string o = "\"k\":" + jstr(k) + ",\"ring\":" + jp(c, p) + ",\"at\":" + jp(c, v), in = "[", on = "[", ce = "[";
    std::unique_ptr<Polygon> q; std::unique_ptr<Region> r; std::unique_ptr<Hole> h; std::unique_ptr<BoundingBox> b;
    if (k == "polygon") q.reset(new Polygon(p)); else if (k == "region") r.reset(new Region(p)); else if (k == "hole") h.reset(new Hole(PolygonalHole(p)));
    else if (k == "box") b.reset(new BoundingBox(p[0], p[1])); else throw std::logic_error("driver: where " + k);
    for (size_t i = 0; i < v.size(); ++i) {
        if (i) { in += ","; on += ","; ce += ","; }
        in += jb(q ? q->containsPoint(p, v[i]) : r ? r->containsPoint(v[i]) : h ? h->containsPoint(v[i]) : b->contains(v[i]));
        on += q ? jb(q->inEdges(p, v[i])) : r ? jb(r->inEdges(v[i])) : "2";
        ce += q ? jseg(q->containerEdge(p, v[i])) : std::string("[-2,-2]");
    }
    return o + ",\"in\":" + in + "],\"on\":" + on + "],\"ce\":" + ce + "]"; }
// circum n ... : circumcenter of the triangle
CMD(circum) { Pts p = a.pts(c); Triangle t({0, 1, 2}, p); Point far(p[0].getX() + 4096, p[0].getY()); UniqueList<Point> u; u.push_back(far); std::vector<Point> w = {far};
    Triangle tu({0, 1, 2}, p, u), tv({0, 1, 2}, p, w), tw({0, 1, 2}, p, u); std::string th = "[";
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) th += std::string(th.size() > 1 ? "," : "") + "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(t.thirdPoint(EdgeData(i, j))) + "]";
    return "\"pts\":" + jp(c, p) + ",\"v\":" + c.pt(t.getCircumcenter()) + ",\"vs\":[" + c.pt(tu.getCircumcenter()) + "," + c.pt(tv.getCircumcenter()) + "," + c.pt(u[1]) + "," + c.pt(w[1]) + "]" +
        ",\"at\":[" + std::to_string(tu.getCircumcenterIndex()) + "," + std::to_string(tv.getCircumcenterIndex()) + "," + std::to_string(tw.getCircumcenterIndex()) + "," + std::to_string(u.size()) + "," + std::to_string(w.size()) + "]" +
        ",\"third\":" + th + "],\"null\":[" + jb(t.isNull()) + "," + jb(Triangle().isNull()) + "]"; }
CMD(box) { Point p = a.pt(c), q = a.pt(c); BoundingBox b(p, q); std::vector<PointSegment> s; b.getSegments(s);
    BoundingBox same(p, q), other(p, Point(q.getX() + (q.getX() > p.getX() ? 1 : -1), q.getY())); Point f = b.getFirst(), g = b.getSecond(), m((p.getX() + q.getX()) / 2, (p.getY() + q.getY()) / 2), o(2 * p.getX() - m.getX(), m.getY());
    return "\"a\":" + c.pt(p) + ",\"b\":" + c.pt(q) + ",\"x\":[" + c.num(b.xMin()) + "," + c.num(b.yMin()) + "," + c.num(b.xMax()) + "," + c.num(b.yMax()) + "],\"w\":" + c.num(b.getWidth()) +
        ",\"h\":" + c.num(b.getHeight()) + ",\"segs\":" + jlist(s, [&](const PointSegment& e) { return "[" + c.pt(e.getFirst()) + "," + c.pt(e.getSecond()) + "]"; }) +
        ",\"ends\":[" + c.pt(f) + "," + c.pt(g) + "],\"eq\":[" + jb(b == same) + "," + jb(b == other) + "],\"in\":[" + jb(b.contains(m)) + "," + jb(b.contains(o)) + "]"; }

// ptri SCHEME LIST n i ... : triangles of a polygon
CMD(ptri) { std::string k = a.s(), l = a.s(), th; Pts& p = c.slot<Pts>(l); Pts before = p; std::vector<int> ix = a.ints(); std::string in = jints(ix);
    Polygon q(ix, p); std::vector<Triangle> t;
    try {
        if (k == "ear") t = EarTriangulationGenerator().triangulate(q, p);
        else if (k == "center") t = CenterTriangulationGenerator().triangulate(q, p);
        else if (k == "delaunay") t = DelaunayTriangulationGenerator().triangulate(q, p);
        else throw std::logic_error("driver: ptri " + k);
    } catch (std::invalid_argument&) { th = "invalid_argument"; }
    return "\"k\":" + jstr(k) + ",\"l\":" + jstr(l) + ",\"before\":" + jp(c, before) + ",\"in\":" + in + ",\"thrown\":" + jstr(th) + ",\"after\":" + jp(c, p) +
        ",\"els\":" + jlist(t, [&](const Triangle& x) { return jints(x.getPoints()); }); }

// ---- segments ------------------------------------------------------------
struct Line : public PointSegment {          // meets: the protected query of the line through another segment; -1 if there is no such query
    Line(Point p, Point q) : PointSegment(p, q) {}
    template <class L> static auto ask(L& l, Point a, Point b, Point& i, int) -> decltype((int) l.intersectionInfinite(a, a, a, b, i)) { return l.intersectionInfinite(l.getFirst(), l.getSecond(), a, b, i); }
    template <class L> static int ask(L&, Point, Point, Point&, long) { return -1; }
    int meets(Point a, Point b, Point& i) { return ask(*this, a, b, i, 0); }
};
static std::string hit(Ctx& c, bool b, Point& i) { return "[" + jb(b) + "," + (b ? c.num(i.getX()) + "," + c.num(i.getY()) : std::string("0,0")) + "]"; }
// segs n (x y x y x y x y) ... : pairs of segments
CMD(segs) { long n = a.n(); std::string o = "\"q\":[";
    for (long k = 0; k < n; ++k) {
        Pts p; for (int i = 0; i < 4; ++i) p.push_back(a.pt(c));
        IndexSegment s(0, 1), t(2, 3); PointSegment ps(p[0], p[1]), pt(p[2], p[3]); Point i1, i2, i3;
        bool b1 = s.intersection(p, t, i1), b2 = s.intersection(p, pt, i2); int b3 = Line(p[0], p[1]).meets(p[2], p[3], i3);
        if (k) o += ",";
        o += "{\"p\":" + jp(c, p) + ",\"ii\":" + hit(c, b1, i1) + ",\"ip\":" + hit(c, b2, i2) + ",\"line\":" + (b3 < 0 ? std::string("[]") : hit(c, b3, i3)) + ",\"in\":" + jb(s.contains(p, t)) + ",\"within\":" + jb(s.isContained(pt, p)) +
            ",\"pc\":[" + jb(s.contains(p, p[2])) + "," + jb(ps.contains(p[2])) + "]" +
            ",\"eq\":" + jb(ps == pt) + ",\"col\":" + jb(geometry_functions::collinear(p[0], p[1], p[2])) + ",\"cols\":" + jb(geometry_functions::collinear(ps, pt)) + "}";
    }
    return o + "]"; }
// seg x y x y x y : one segment and a point
CMD(seg) { Pts p; for (int i = 0; i < 3; ++i) p.push_back(a.pt(c)); IndexSegment s(0, 1); PointSegment ps(p[0], p[1]);
    std::string o = "\"p\":" + jp(c, p) + ",\"len\":[" + wide(s.length(p), c.p + 8) + "," + wide(ps.length(), c.p + 8) + "],\"mid\":" + c.pt(s.middlePoint(p)) +
        ",\"ang\":[" + std::to_string(std::lround(std::ldexp(s.cartesianAngle(p), 20))) + "," + std::to_string(std::lround(std::ldexp(ps.cartesianAngle(), 20))) + "]" +
        ",\"ccw\":" + jb(s.isCCW(p, p[2])) + ",\"a2\":" + wide(geometry_functions::area2(p[0], p[1], p[2]), 2 * c.p) + ",\"ori\":" + wide(delynoi_utilities::orientation(p[0], p[1], p[2]), 2 * c.p) +
        ",\"ta\":" + wide(geometry_functions::triangleArea(p[0], p[1], p[2]), 2 * c.p + 1) + ",\"area\":" + wide(geometry_functions::area(p), 2 * c.p + 1) + ",\"vert\":[" + jb(s.isVertex(0)) + jb(s.isVertex(1)).insert(0, ",") + jb(s.isVertex(2)).insert(0, ",") + "]";
    s.orderCCW(p, p[2]);
    return o + ",\"after\":" + jseg(s); }
// angle n a ... : (degrees * 2^10) reduced to [0, 180)
CMD(angle) { long n = a.n(); std::string i = "[", o = "[", l = "["; std::vector<Angle> v;
    for (long k = 0; k < n; ++k) { long x = a.n(); v.push_back(Angle(std::ldexp((double) x, -10))); if (k) { i += ","; o += ","; l += ","; } i += std::to_string(x); o += std::to_string(std::lround(std::ldexp(v.back().angle, 10)));
        l += "[" + jb(k && v[k - 1] < v[k]) + "," + jb(k && v[k] < v[k - 1]) + "," + jb(v[k] < v[k]) + "]"; }
    return "\"in\":" + i + "],\"out\":" + o + "],\"lt\":" + l + "]"; }
// hull n x y ... : chains and antipodal pairs
CMD(hull) { Pts p = a.pts(c), in = p, u, l, q = p; convex::convexHull(p, u, l); std::vector<std::pair<Point, Point> > v = convex::rotatingCalipers(q);
    return "\"in\":" + jp(c, in) + ",\"up\":" + jp(c, u) + ",\"lo\":" + jp(c, l) + ",\"pairs\":" + jlist(v, [&](const std::pair<Point, Point>& e) { return "[" + c.pt(e.first) + "," + c.pt(e.second) + "]"; }); }
