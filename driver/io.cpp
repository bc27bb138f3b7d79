// Files: meshes written and read, regions and maps written.
#include "core.h"
#include <unistd.h>
#include <iomanip>
#include <regex>

typedef std::vector<Point> Pts;
static std::string fresh(const char* what) { static int n = 0; return std::string(what) + "_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".txt"; }

// a file that may be written: every second one is there already, with other contents
static std::string target(const char* what) { static int k = 0; std::string f = fresh(what); if (k++ % 2 == 0) { std::ofstream o(utilities::getPath() + f); for (int i = 0; i < 400; ++i) o << "7 old line " << i << "\n"; } return f; }

static std::string slurp(const std::string& name) { std::string path = utilities::getPath() + name; std::ifstream f(path); std::string l, o = "["; bool first = true;
    if (!f) return "[[[\"s\"]]]";
    while (std::getline(f, l)) { o += (first ? "" : ",") + line(l); first = false; }
    f.close(); remove(path.c_str()); return o + "]"; }
// the lines of a stream that a mesh was written to between two others, without these; and whether they are there
static std::string between(const std::string& name, bool& ok) { std::string path = utilities::getPath() + name; std::ifstream f(path); std::string l; std::vector<std::string> v; while (std::getline(f, l)) v.push_back(l); f.close(); remove(path.c_str());
    ok = v.size() > 1 && v[0] == "# a line before" && v.back() == "# a line after"; return jlist(ok ? std::vector<std::string>(v.begin() + 1, v.end() - 1) : v, line); }
static std::string coord(const Point& q) { return "[" + wide(q.getX(), 60) + "," + wide(q.getY(), 60) + "]"; }

template <class T> static std::string shown(Mesh<T>& m) {
    Pts p = m.getPoints().getList(); std::vector<T> els = m.getPolygons(); std::string e; bool first = true;
    for (auto& x : m.getSegments()->getMap()) { e += std::string(first ? "" : ",") + "[" + std::to_string(x.first.getFirst()) + "," + std::to_string(x.first.getSecond()) + "]"; first = false; }
    return "\"co\":" + jlist(p, coord) + ",\"es\":[" + e + "],\"els\":" + jlist(els, [](const T& x) { return jints(x.getPoints()); });
}
template <class T> static std::string neighbours(Ctx& c, Mesh<T>& m) {
    std::string e, q, l; bool first = true;
    for (auto& x : m.getSegments()->getMap()) { e += std::string(first ? "" : ",") + "[" + std::to_string(x.first.getFirst()) + "," + std::to_string(x.first.getSecond()) + "," +
        std::to_string(x.second.getFirst()) + "," + std::to_string(x.second.getSecond()) + "]"; first = false; }
    first = true;
    for (auto& x : m.getPointMap()->getMap()) { q += std::string(first ? "" : ",") + "[" + c.pt(x.first) + "," + jints(x.second.getNeighbours()) + "]"; first = false; }
    first = true;
    for (const T& el : m.getPolygons()) { std::vector<int> v = el.getPoints();
        for (size_t i = 0; i < v.size(); ++i) { int a = v[(i + 1) % v.size()], b = v[i]; NeighboursBySegment n = m.getNeighbours(IndexSegment(a, b));
            l += std::string(first ? "" : ",") + "[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(n.getFirst()) + "," + std::to_string(n.getSecond()) + "]"; first = false; } }
    Pts p = m.getPoints().getList(); std::vector<T> els = m.getPolygons();
    std::string any; int n = (int) p.size();
    for (int i = 0; i < n && i < 5; ++i) for (int j = i + 1; j <= n && j <= 5; ++j) { NeighboursBySegment s = m.getNeighbours(IndexSegment(i, j));
        any += std::string(any.empty() ? "" : ",") + "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(s.getFirst()) + "," + std::to_string(s.getSecond()) + "]"; }
    return "\"any\":[" + any + "],\"after\":" + std::to_string(m.getSegments()->getMap().size()) + ",\"pts\":" + jlist(p, [&](const Point& x) { return c.ptb(x); }) + ",\"els\":" + jlist(els, [](const T& x) { return jints(x.getPoints()); }) +
        ",\"edges\":[" + e + "],\"pmap\":[" + q + "],\"look\":[" + l + "]";
}
template <class T> static std::string written(Mesh<T>& m) { static int k = 0; std::string f = target("mesh");
    if (k++ % 3 == 1) { std::ofstream o(utilities::getPath() + f); o << "# a line before\n" << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision()); m.printInStream(o); bool open = o.is_open() && o.good(), ok; o << "# a line after\n"; o.close();
        std::string l = between(f, ok); return shown(m) + ",\"around\":" + jb(ok && open) + ",\"lines\":" + l; }
    m.printInFile(f); return shown(m) + ",\"lines\":" + slurp(f); }

// mwrite KIND ... : a mesh, and the file it is written to.  KIND: poly n x y .. k (m i ..) .. / diagram REGION / triangles REGION
CMD(mwrite) { std::string k = a.s();
    if (k == "poly") {
        long n = a.n(); Pts p; for (long i = 0; i < n; ++i) { double x = std::ldexp((double) a.n(), -40), y = std::ldexp((double) a.n(), -40); long ex = a.n(); p.push_back(Point(std::ldexp(x, (int) ex), std::ldexp(y, (int) ex))); }
        long m = a.n(); std::vector<Polygon> v; SegmentMap* s = new SegmentMap; PointMap* q = new PointMap;
        for (long j = 0; j < m; ++j) { std::vector<int> ix = a.ints(); v.push_back(Polygon(ix, p)); std::vector<IndexSegment> g; v.back().getSegments(g); for (IndexSegment& e : g) s->insert(e, (int) j); for (int i : ix) q->insert(p[i], (int) j); }
        std::string in = "\"given\":{\"co\":" + jlist(p, coord) + ",\"els\":" + jlist(v, [](const Polygon& x) { return jints(x.getPoints()); }) + "},";
        UniqueList<Point> u; u.push_list(p);
        Mesh<Polygon> mesh = (n + m) % 2 ? Mesh<Polygon>(p, v, s, q) : Mesh<Polygon>(u, v, s, q);
        return in + written(mesh);
    }
    Region& r = c.slot<Region>(a.s()); Pts sd = r.getSeedPoints();
    if (k == "diagram") { TriangleVoronoiGenerator g(sd, r); Mesh<Polygon> m = g.getMesh(); return written(m); }
    if (k == "triangles") { TriangleDelaunayGenerator g(sd, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation(); return written(m); }
    throw std::logic_error("driver: mwrite " + k); }
// mlarge n : a mesh with n points in a row and one element of the last ones; of the file only the last lines are shown
CMD(mlarge) { long n = a.n(); Pts p; p.reserve(n); for (long i = 0; i < n; ++i) p.push_back(Point((double) (i % 1024), (double) (i / 1024)));
    std::vector<int> ix = {(int) n - 1, (int) n - 3, (int) n - 1026}; std::vector<Polygon> v; v.push_back(Polygon(ix, p));
    SegmentMap* s = new SegmentMap; PointMap* q = new PointMap; std::vector<IndexSegment> g; v[0].getSegments(g); for (IndexSegment& e : g) s->insert(e, 0);
    Mesh<Polygon> mesh(p, v, s, q); std::string f = target("mesh"), path = utilities::getPath() + f; mesh.printInFile(f);
    std::ifstream in(path); std::string l, first; std::vector<std::string> last; long count = 0;
    while (std::getline(in, l)) { if (!count++) first = l; last.push_back(l); if (last.size() > 64) last.erase(last.begin(), last.begin() + 32); }
    in.close(); remove(path.c_str());
    std::vector<std::string> tail(last.size() > 6 ? last.end() - 6 : last.begin(), last.end());
    return "\"count\":" + std::to_string(n) + ",\"els\":[" + jints(ix) + "],\"first\":" + line(first) + ",\"total\":" + std::to_string(count) + ",\"tail\":" + jlist(tail, line); }
// the mesh in a file, or in a stream after a line and before another one; false when the stream is then not at that one
template <class T> static bool take(Mesh<T>& t, const std::string& f, int start, bool stream) {
    if (!stream) { t.createFromFile(f, start); return true; }
    std::ifstream s(utilities::getPath() + f); std::string l; std::getline(s, l); t.createFromStream(s, start);
    return ((std::getline(s, l) && l != "") || std::getline(s, l)) && l == "# a line after"; }
// mread TYPE start style n x y ... k (m i ...) ... : a file with these points and elements is written and read
CMD(mread) { std::string k = a.s(); int start = (int) a.n(), style = (int) a.n(); Pts p = a.pts(c); long m = a.n(); std::vector<std::vector<int> > els; for (long j = 0; j < m; ++j) els.push_back(a.ints());
    std::string f = fresh("in"), path = utilities::getPath() + f, sp = style & 8 ? "\t" : style & 1 ? "  " : " ", end = style & 16 ? style & 2 ? " \r\n" : "\r\n" : style & 2 ? " \n" : "\n", lead = style & 32 ? style & 1 ? "\t " : " " : "";
    { std::ostringstream o; if (style & 64) o << "# a line before\n"; if (style & 4) o << std::scientific; o << std::setprecision(17) << lead << p.size() << end; for (Point& q : p) o << lead << q.getX() << sp << q.getY() << end;
      o << lead << els.size() << end; for (auto& e : els) { o << lead << e.size(); for (int i : e) o << sp << i; o << end; } if (style & 64) o << "# a line after\n"; std::string t = o.str(); if ((style & 192) == 128) t.erase(t.size() - 1); std::ofstream(path) << t; }
    bool around = true;
    std::string in = "\"k\":" + jstr(k) + ",\"start\":" + std::to_string(start) + ",\"in\":" + jlist(p, [&](const Point& q) { return c.pt(q); }) + ",\"given\":" + jlist(els, jints), out;
    if (k == "tri") { Mesh<Triangle> t; around = take(t, f, start, style & 64); out = neighbours(c, t); } else { Mesh<Polygon> t; around = take(t, f, start, style & 64); out = neighbours(c, t); }
    remove(path.c_str());
    return in + ",\"around\":" + jb(around) + ",\"mesh\":{" + out + "}"; }
// mmissing : a file that is not there
CMD(mmissing) { std::string th; try { Mesh<Polygon> t; t.createFromFile(fresh("none"), 0); } catch (std::runtime_error&) { th = "runtime_error"; } return "\"thrown\":" + jstr(th); }

// rwrite REGION : a region, and the file it is written to
CMD(rwrite) { std::string s = a.s(); Region& r = c.slot<Region>(s); std::string f = target("region"); Pts sd = r.getSeedPoints(); Pts rp = r.getRegionPoints(); std::vector<IndexSegment> g; r.getSegments(g);
    r.printInFile(f);
    return "\"r\":" + jstr(s) + ",\"pts\":" + jlist(rp, coord) + ",\"seeds\":" + jlist(sd, coord) + ",\"segs\":" + jlist(g, [](const IndexSegment& e) { return "[" + std::to_string(e.getFirst()) + "," + std::to_string(e.getSecond()) + "]"; }) +
        ",\"lines\":" + slurp(f); }
// twrite REGION FIRST : the input for Triangle of a region and its seeds, written in a folder of its own; the seeds before the region, or after it
CMD(twrite) { std::string s = a.s(); Region& r = c.slot<Region>(s); Pts sd = r.getSeedPoints(), rp = r.getRegionPoints(); UniqueList<Point> u; bool first = a.n(); if (first) u.push_list(sd); std::vector<int> ix = u.push_list(rp); u.push_list(sd);
    TriangleDelaunayGenerator g(sd, r); std::string home = utilities::getPath(), dir = home + "tri_XXXXXX"; if (!mkdtemp(&dir[0])) throw std::logic_error("driver: no folder");
    setenv("HOME", dir.c_str(), 1); if (!first) { std::ofstream o(dir + "/toTriangle.poly"); for (int i = 0; i < 400; ++i) o << "7 old line\n"; } std::string lines, th; try { g.writeTriangleInputFile(u, r, ix); lines = slurp("toTriangle.poly"); } catch (...) { setenv("HOME", home.c_str(), 1); throw; }
    setenv("HOME", home.c_str(), 1); rmdir(dir.c_str());
    Pts all = u.getList(); std::vector<IndexSegment> e; r.getSegments(e);
    return "\"pts\":" + jlist(all, coord) + ",\"ix\":" + jints(ix) + ",\"segs\":" + jlist(e, [](const IndexSegment& e) { return "[" + std::to_string(e.getFirst()) + "," + std::to_string(e.getSecond()) + "]"; }) +
        ",\"centers\":" + jlist(r.getHoles(), [](const Hole& h0) { Hole h(h0); return coord(h.getCenter()); }) + ",\"lines\":" + lines; }
// smwrite n (i j a b) ... / pmwrite n (x y a) ... : neighbour maps, and the files they are written to
CMD(smwrite) { long n = a.n(); SegmentMap m; std::string in = "[";
    for (long k = 0; k < n; ++k) { int i = (int) a.n(), j = (int) a.n(), x = (int) a.n(), y = (int) a.n(); m.insert(IndexSegment(i, j), NeighboursBySegment(x, y));
        in += (k ? ",[" : "[") + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(x) + "," + std::to_string(y) + "]"; }
    std::string f = target("sm"); m.printInFile(f); return "\"in\":" + in + "],\"lines\":" + slurp(f); }
CMD(pmwrite) { long n = a.n(); PointMap m; std::string in = "[";
    for (long k = 0; k < n; ++k) { Point p = a.pt(c); int x = (int) a.n(); m.insert(p, x); in += (k ? ",[" : "[") + coord(p) + "," + std::to_string(x) + "]"; }
    std::string f = target("pm"); m.printInFile(f); return "\"in\":" + in + "],\"lines\":" + slurp(f); }
