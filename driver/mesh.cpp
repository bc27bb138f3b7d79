#include "core.h"
#include "gens.h"
#include <unistd.h>
#include <iomanip>

template <class T> static std::string jmesh(Ctx& c, Mesh<T>& m) {
    std::string o;
    std::vector<Point> pts = m.getPoints().getList();
    o += "\"pts\":" + jlist(pts, [&](const Point& q) { return c.ptb(q); });
    std::vector<T> els = m.getPolygons();
    o += ",\"els\":" + jlist(els, [&](const T& e) { return jints(e.getPoints()); });
    o += ",\"edges\":[";
    bool first = true;
    for (auto& e : m.getSegments()->getMap()) {
        if (!first) o += ","; first = false;
        o += "[" + std::to_string(e.first.getFirst()) + "," + std::to_string(e.first.getSecond()) + "," +
             std::to_string(e.second.getFirst()) + "," + std::to_string(e.second.getSecond()) + "]";
    }
    o += "],\"pmap\":[";
    first = true;
    for (auto& e : m.getPointMap()->getMap()) {
        if (!first) o += ","; first = false;
        o += "[" + c.pt(e.first) + "," + jints(e.second.getNeighbours()) + "]";
    }
    o += "],\"look\":[";          // neighbours of every side, asked for in the reverse direction
    first = true;
    for (T& e : els) {
        std::vector<IndexSegment> segs; e.getSegments(segs);
        for (IndexSegment& s : segs) {
            IndexSegment r(s.getSecond(), s.getFirst());
            if (!first) o += ","; first = false;
            if (!m.getSegments()->containsSegment(r)) o += "[" + std::to_string(r.getFirst()) + "," + std::to_string(r.getSecond()) + ",-9,-9]";
            else {
                NeighboursBySegment n = m.getNeighbours(r);
                o += "[" + std::to_string(r.getFirst()) + "," + std::to_string(r.getSecond()) + "," + std::to_string(n.getFirst()) + "," + std::to_string(n.getSecond()) + "]";
            }
        }
    }
    o += "],\"any\":[";            // and of pairs of points, whether or not they are a side
    int n = (int) pts.size(), k = n < 5 ? n : 5;
    for (int i = 0; i < k; ++i) for (int j = i + 1; j <= k; ++j) {
        int b = j < k ? j : n - 1 + (i % 2);
        if (i == b) continue;
        NeighboursBySegment s = m.getNeighbours(IndexSegment(i, b));
        o += std::string(o.back() == '[' ? "" : ",") + "[" + std::to_string(i) + "," + std::to_string(b) + "," + std::to_string(s.getFirst()) + "," + std::to_string(s.getSecond()) + "]";
    }
    o += "],\"after\":" + std::to_string(m.getSegments()->getMap().size());
    return o;
}

static std::string jregion(Ctx& c, Region& r) {
    std::vector<Point> rp = r.getRegionPoints();
    int n = r.numberOfSides();
    std::string o = "\"idx\":" + jints(const_cast<const Region&>(r).getPoints()) + ",\"ring\":[";
    for (int i = 0; i < n && i < (int) rp.size(); ++i) { if (i) o += ","; o += c.pt(rp[i]); }
    o += "],\"rp\":" + jlist(rp, [&](const Point& q) { return c.pt(q); });
    o += ",\"holes\":" + jlist(r.getHoles(), [&](const Hole& h0) { Hole h(h0); std::vector<Point> hp = h.getPoints();
        return "{\"c\":" + c.pt(h.getCenter()) + ",\"pts\":" + jlist(hp, [&](const Point& q) { return c.pt(q); }) + "}"; });
    std::vector<IndexSegment> s; r.getSegments(s);
    o += ",\"segs\":" + jlist(s, [&](const IndexSegment& e) { return "[" + std::to_string(e.getFirst()) + "," + std::to_string(e.getSecond()) + "]"; });
    std::vector<Point> sd = r.getSeedPoints();
    o += ",\"seeds\":" + jlist(sd, [&](const Point& q) { return c.pt(q); });
    BoundingBox b = r.getBox();
    o += ",\"box\":[" + c.num(b.xMin()) + "," + c.num(b.yMin()) + "," + c.num(b.xMax()) + "," + c.num(b.yMax()) + "]";
    return o;
}

// ---- regions -------------------------------------------------------------
static std::string jpts(Ctx& c, const std::vector<Point>& v) { return jlist(v, [&](const Point& q) { return c.pt(q); }); }
CMD(rg_new) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::string in = jpts(c, p); c.slots[s] = std::make_shared<Region>(p);
    return "\"r\":" + jstr(s) + ",\"in\":" + in + "," + jregion(c, c.slot<Region>(s)); }
// rg_poly NAME n x y ... k i ... : the region of a polygon with these vertices of the points
CMD(rg_poly) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::vector<int> ix = a.ints(); std::string in = jpts(c, p); Polygon q(ix, p); std::string of = jints(q.getPoints());
    c.slots[s] = std::make_shared<Region>(q, p); return "\"r\":" + jstr(s) + ",\"of\":" + jints(ix) + ",\"at\":" + of + ",\"in\":" + in + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_show) { std::string s = a.s(); return "\"r\":" + jstr(s) + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_copy) { std::string d = a.s(), s = a.s(); c.slots[d] = std::make_shared<Region>(c.slot<Region>(s)); return "\"r\":" + jstr(d) + ",\"from\":" + jstr(s) + "," + jregion(c, c.slot<Region>(d)); }
CMD(rg_assign) { std::string d = a.s(), s = a.s(); c.slot<Region>(d) = c.slot<Region>(s); return "\"r\":" + jstr(d) + ",\"from\":" + jstr(s) + "," + jregion(c, c.slot<Region>(d)); }
CMD(rg_mutate) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::string o = "\"r\":" + jstr(s) + ",\"in\":" + jpts(c, p);
    c.slot<Region>(s).mutate(p); return o + "," + jregion(c, c.slot<Region>(s)); }
static std::string addHole(Ctx& c, const std::string& s, Hole h) {
    std::string o = "\"r\":" + jstr(s); std::vector<Point> hp = h.getPoints();
    o += ",\"hole\":{\"c\":" + c.pt(h.getCenter()) + ",\"pts\":" + jlist(hp, [&](const Point& q) { return c.pt(q); }) + "}";
    std::string th = "";
    try { c.slot<Region>(s).addHole(h); } catch (std::invalid_argument& e) { th = "invalid_argument"; }
    return o + ",\"thrown\":" + jstr(th) + "," + jregion(c, c.slot<Region>(s));
}
CMD(rg_phole) { std::string s = a.s(); std::vector<Point> p = a.pts(c); Hole h = PolygonalHole(p); return addHole(c, s, h); }
// rg_rhole REGION n x y ... cx cy : a hole made of its points, center and sides: in any order, and either way around
CMD(rg_rhole) { std::string s = a.s(); std::vector<Point> p = a.pts(c); Point ce = a.pt(c); int n = (int) p.size(); std::vector<IndexSegment> g;
    for (int k = 0; k < n; ++k) { int i = (k * (n % 2 ? 2 : 1) + 1) % n, j = (i + 1) % n; g.push_back(p[0].getX() < ce.getX() ? IndexSegment(i, j) : IndexSegment(j, i)); }
    Hole h; h = Hole(p, ce, g); return "\"cc\":" + c.pt(ce) + "," + addHole(c, s, h); }
CMD(rg_chole) { std::string s = a.s(); Point ce = a.pt(c); long r = a.n(); Hole h = CircularHole(ce, c.real(r));
    return "\"cc\":" + c.pt(ce) + ",\"rad\":" + std::to_string(r) + "," + addHole(c, s, h); }
CMD(rg_cleanholes) { std::string s = a.s(); c.slot<Region>(s).cleanInternalHoles(); return "\"r\":" + jstr(s) + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_addseeds) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::string in = jlist(p, [&](const Point& q) { return c.pt(q); });
    c.slot<Region>(s).addSeedPoints(p); return "\"r\":" + jstr(s) + ",\"in\":" + in + "," + jregion(c, c.slot<Region>(s)); }
// rg_flagseeds : the same, of points every second one of which is flagged as a boundary point
CMD(rg_flagseeds) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::string in = jlist(p, [&](const Point& q) { return c.pt(q); }); for (size_t i = 0; i < p.size(); i += 2) p[i].setBoundary();
    c.slot<Region>(s).addSeedPoints(p); return "\"r\":" + jstr(s) + ",\"in\":" + in + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_generate) { std::string s = a.s(); size_t at = a.i; PointGenerator other = generator(c, a); a.i = at;   // functors have a state
    PointGenerator g = generator(c, a); int nx = (int) a.n(), ny = (int) a.n();
    std::vector<Point> grid; BoundingBox box = c.slot<Region>(s).getBox(); other.generate(grid, box, nx, ny);
    c.slot<Region>(s).generateSeedPoints(g, nx, ny);
    return "\"r\":" + jstr(s) + ",\"grid\":" + jpts(c, grid) + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_seedfile) { std::string s = a.s(); std::vector<Point> p = a.pts(c); std::string name = "seeds_" + std::to_string(getpid()) + ".txt";
    std::string path = utilities::getPath() + name;
    { std::ofstream f(path); f << std::setprecision(17) << p.size() << "\n"; int k = 0; for (Point& q : p) { f << q.getX() << (p.size() % 3 == 1 ? "\t" : p.size() % 3 == 2 ? "   " : " ") << q.getY() << (++k % 4 == 3 ? " " : "") << "\n"; } }
    c.slot<Region>(s).addSeedsFromFile(name); remove(path.c_str());
    return "\"r\":" + jstr(s) + ",\"in\":" + jpts(c, p) + "," + jregion(c, c.slot<Region>(s)); }
CMD(rg_cleanseeds) { std::string s = a.s(); c.slot<Region>(s).cleanSeedPoints(); return "\"r\":" + jstr(s) + "," + jregion(c, c.slot<Region>(s)); }

// rg_ask REGION OP : one question to the region as a polygon over its own points
CMD(rg_ask) { std::string s = a.s(), op = a.s(); Region& r = c.slot<Region>(s); std::vector<Point> p = r.getRegionPoints();
    std::string o = "\"r\":" + jstr(s) + ",\"op\":" + jstr(op);
    if (op == "area") o += ",\"w\":" + wide(r.getArea(p), 2 * c.p + 1);
    else if (op == "signed") o += ",\"w\":" + wide(r.signedArea(p), 2 * c.p + 1);
    else if (op == "centroid") o += ",\"v\":" + c.pt(r.getCentroid(p));
    else if (op == "average") o += ",\"v\":" + c.pt(r.getAverage(p));
    else if (op == "diameter") o += ",\"w\":" + wide(r.getDiameter(p), c.p + 8);
    else if (op == "longest") o += ",\"w\":" + wide(r.getMaxDistance(p), c.p + 8);
    else if (op == "clockwise") o += ",\"b\":" + jb(r.isClockwise(p));
    else if (op == "convex") o += ",\"b\":" + jb(r.isConvex(p));
    else if (op == "selfint") o += ",\"b\":" + jb(r.isSelfIntersecting(p));
    else if (op == "fixccw") r.fixCCW(p);
    else throw std::logic_error("driver: rg_ask " + op);
    return o + "," + jregion(c, r); }
// rg_where REGION n x y ... : which points the region contains, and has on its sides
CMD(rg_where) { std::string s = a.s(); Region& r = c.slot<Region>(s); std::vector<Point> v = a.pts(c); std::string in = "[", on = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) { in += ","; on += ","; } in += jb(r.containsPoint(v[i])); on += jb(r.inEdges(v[i])); }
    return "\"r\":" + jstr(s) + ",\"at\":" + jpts(c, v) + ",\"in\":" + in + "],\"on\":" + on + "]," + jregion(c, r); }

// ---- triangulations and Voronoi diagrams ------------------------------------

static std::vector<Point> seedsOf(Ctx& c, Args& a, Region& r) {
    if (a.more() && a.t[a.i] == "seeds") { a.s(); return a.pts(c); }
    return r.getSeedPoints();
}

CMD(voronoi) {                     // voronoi REGION [seeds n x y ...] [keep DIAGRAM TRIANGLES]
    std::string s = a.s(); Region& r = c.slot<Region>(s);
    std::vector<Point> sd = seedsOf(c, a, r);
    std::string in = jpts(c, sd);
    TriangleVoronoiGenerator g(sd, r);
    Mesh<Polygon> v = g.getMesh();
    Mesh<Polygon> d = g.getTriangulation();
    std::string k1, k2; if (a.more()) a.s(); if (a.more()) { k1 = a.s(); k2 = a.s(); }
    if (!k1.empty()) { c.slots[k1] = std::make_shared<Mesh<Polygon> >(v); c.slots[k2] = std::make_shared<Mesh<Polygon> >(d); }
    return "\"r\":" + jstr(s) + ",\"in\":" + in + ",\"m\":" + jstr(k1) + ",\"mt\":" + jstr(k2) + ",\"del\":{" + jmesh(c, d) + "},\"vor\":{" + jmesh(c, v) + "}";
}
CMD(gen) { std::string s = a.s(), rs = a.s(); Region& r = c.slot<Region>(rs); std::vector<Point> sd = seedsOf(c, a, r);
    c.slots[s] = std::make_shared<TriangleDelaunayGenerator>(sd, r); return "\"g\":" + jstr(s) + ",\"r\":" + jstr(rs) + ",\"in\":" + jpts(c, sd); }
CMD(constrained) { std::string s = a.s(); std::string keep = a.more() ? a.s() : ""; Mesh<Triangle> m = c.slot<TriangleDelaunayGenerator>(s).getConstrainedDelaunayTriangulation();
    if (!keep.empty()) c.slots[keep] = std::make_shared<Mesh<Triangle> >(m);
    return "\"g\":" + jstr(s) + ",\"m\":" + jstr(keep) + ",\"del\":{" + jmesh(c, m) + "}"; }
CMD(conforming) { std::string s = a.s(); std::string keep = a.more() ? a.s() : ""; Mesh<Triangle> m = c.slot<TriangleDelaunayGenerator>(s).getConformingDelaunayTriangulation();
    if (!keep.empty()) c.slots[keep] = std::make_shared<Mesh<Triangle> >(m);
    return "\"g\":" + jstr(s) + ",\"m\":" + jstr(keep) + ",\"del\":{" + jmesh(c, m) + "}"; }
CMD(restricted) {                  // restricted GEN KEEP n x1 y1 x2 y2 ...
    std::string s = a.s(), keep = a.s(); long k = a.n(); std::vector<PointSegment> v; std::string in = "[";
    for (long i = 0; i < k; ++i) { Point p = a.pt(c), q = a.pt(c); v.push_back(PointSegment(p, q)); if (i) in += ","; in += "[" + c.pt(p) + "," + c.pt(q) + "]"; }
    Mesh<Triangle> m = c.slot<TriangleDelaunayGenerator>(s).getConstrainedDelaunayTriangulation(v);
    if (keep != "-") c.slots[keep] = std::make_shared<Mesh<Triangle> >(m);
    return "\"g\":" + jstr(s) + ",\"m\":" + jstr(keep) + ",\"rs\":" + in + "],\"del\":{" + jmesh(c, m) + "}"; }
//The information behind a diagram, kept: diagrams can be made of it at any time
static std::string diagram(Ctx& c, DelaunayInfo info) { DelaunayToVoronoi v(info); return jmesh(c, v.getMesh()); }
CMD(info) { std::string s = a.s(), keep = a.s(); TriangleDelaunayGenerator& g = c.slot<TriangleDelaunayGenerator>(s);
    std::shared_ptr<DelaunayInfo> info = std::make_shared<DelaunayInfo>(g.getConformingDelaunay()); c.slots[keep] = info;
    Mesh<Polygon> d = g.initializeMesh<Polygon>();
    return "\"g\":" + jstr(s) + ",\"m\":" + jstr(keep) + ",\"mt\":\"\",\"del\":{" + jmesh(c, d) + "},\"vor\":{" + diagram(c, *info) + "}"; }
CMD(infovor) { std::string s = a.s(); return "\"m\":" + jstr(s) + ",\"del\":{" + diagram(c, c.slot<DelaunayInfo>(s)) + "}"; }
CMD(vreread) { std::string s = a.s(); return "\"m\":" + jstr(s) + ",\"del\":{" + jmesh(c, c.slot<Mesh<Polygon> >(s)) + "}"; }
CMD(reread) { std::string s = a.s(); return "\"m\":" + jstr(s) + ",\"del\":{" + jmesh(c, c.slot<Mesh<Triangle> >(s)) + "}"; }
