#include "gens.h"

Functor* functor(Ctx& c, Args& a, std::string* desc) {
    std::string k = a.s(), d = "{\"k\":" + jstr(k), sub;
    Functor* f = nullptr;
    if (k == "const") f = functions::constant();
    else if (k == "uni") { long n = a.n(), e = a.n(); f = functions::uniform(std::ldexp((double) n, -(int) e)); d += ",\"n\":" + std::to_string(n) + ",\"e\":" + std::to_string(e); }
    else if (k == "disp") { long x = a.n(); f = functions::displace_points(c.real(x)); d += ",\"d\":" + std::to_string(x); }
    else if (k == "alt") f = functions::constantAlternating();
    else if (k == "sin" || k == "cos") {
        long am = a.n(), fn = a.n(), fk = a.n(), ph = a.n();
        double fr = std::ldexp((double) fn, -(int) fk);
        f = k == "sin" ? functions::sine(c.real(am), fr, ph / 64.0) : functions::cosine(c.real(am), fr, ph / 64.0);
        d += ",\"a\":" + std::to_string(am) + ",\"fn\":" + std::to_string(fn) + ",\"fk\":" + std::to_string(fk) + ",\"ph\":" + std::to_string(ph);
    }
    else if (k == "rint" || k == "rdbl") { long lo = a.n(), hi = a.n();
        f = k == "rint" ? functions::random_integer(c.real(lo), c.real(hi)) : functions::random_double(c.real(lo), c.real(hi));
        d += ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi); }
    else if (k == "nint" || k == "ndbl") { Functor* g = functor(c, a, &sub); long lo = a.n(), hi = a.n();
        f = k == "nint" ? noise::random_integer_noise(g, c.real(lo), c.real(hi)) : noise::random_double_noise(g, c.real(lo), c.real(hi));
        d += ",\"f\":" + sub + ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi); }
    else if (k == "ref") { std::string s = a.s(); f = c.slot<Functor*>(s); d += ",\"f\":" + jstr(s); }
    else throw std::logic_error("driver: functor " + k);
    if (desc) *desc = d + "}";
    return f;
}

PointGenerator generator(Ctx& c, Args& a, std::string* desc) {
    std::string k = a.s(), d1, d2;
    if (k == "xy") {
        Functor* f = functor(c, a, &d1); Functor* g = functor(c, a, &d2);
        if (desc) *desc = "{\"k\":\"xy\",\"fx\":" + d1 + ",\"fy\":" + d2 + "}";
        return PointGenerator(f, g);
    }
    Functor* f = functor(c, a, &d1);
    if (desc) *desc = "{\"k\":" + jstr(k) + ",\"f\":" + d1 + "}";
    return PointGenerator(f, k == "x" ? functions::independent_variable::x : k == "y" ? functions::independent_variable::y : functions::independent_variable::both);
}

static std::string jp(Ctx& c, const std::vector<Point>& v) { return jlist(v, [&](const Point& q) { return c.pt(q); }); }

// fn NAME F : a functor.  apply NAME n x... : its values, one after the other.
CMD(fn) { std::string s = a.s(), d; Functor* f = functor(c, a, &d); c.put<Functor*>(s, f); return "\"f\":" + jstr(s) + ",\"def\":" + d; }
CMD(apply) { std::string s = a.s(); long n = a.n(); std::string xs = "[", ys = "[";
    for (long i = 0; i < n; ++i) { long x = a.n(); if (i) { xs += ","; ys += ","; } xs += std::to_string(x); ys += c.num(c.slot<Functor*>(s)->apply(c.real(x))); }
    return "\"f\":" + jstr(s) + ",\"xs\":" + xs + "],\"ys\":" + ys + "]"; }
// uint lo hi n : n random integers
CMD(uint) { int lo = (int) a.n(), hi = (int) a.n(); long n = a.n(); std::vector<int> v; for (long i = 0; i < n; ++i) v.push_back(utilities::random_integer(lo, hi));
    return "\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"out\":" + jints(v); }
// pg NAME G : a point generator.  grid NAME x1 y1 x2 y2 nx ny k : appended to k points that were there before.
CMD(pg) { std::string s = a.s(), d, th;
    size_t at = a.i;
    try { PointGenerator g = generator(c, a, &d); c.slots[s] = std::make_shared<PointGenerator>(g); } catch (std::invalid_argument&) { th = "invalid_argument"; a.i = at; d = "{\"k\":" + jstr(a.s()) + "}"; }
    return "\"g\":" + jstr(s) + ",\"def\":" + d + ",\"thrown\":" + jstr(th); }
CMD(grid) { std::string s = a.s(); Point p = a.pt(c), q = a.pt(c); int nx = (int) a.n(), ny = (int) a.n(); long k = a.n();
    std::vector<Point> out; for (long i = 0; i < k; ++i) out.push_back(Point(c.real(7 * i + 1), c.real(i)));
    BoundingBox b(p, q); c.slot<PointGenerator>(s).generate(out, b, nx, ny);
    return "\"g\":" + jstr(s) + ",\"box\":[" + c.num(p.getX()) + "," + c.num(p.getY()) + "," + c.num(q.getX()) + "," + c.num(q.getY()) + "],\"nx\":" + std::to_string(nx) +
        ",\"ny\":" + std::to_string(ny) + ",\"pre\":" + std::to_string(k) + ",\"out\":" + jp(c, out); }

// ---- configuration and circles ----------------------------------------------
static std::string jconf() { DelynoiConfig* d = DelynoiConfig::instance();
    return "\"grade\":" + std::to_string(d->getDiscretizationGrade()) + ",\"scale\":" + std::to_string(d->getScale()) + ",\"prec\":" + std::to_string(d->getPrecision()) +
        ",\"tol\":" + std::to_string(std::lround(std::ldexp(d->getTolerance(), 30))); }
CMD(conf) { return jconf(); }
CMD(cset) { std::string w = a.s(); long v = a.n(); DelynoiConfig* d = DelynoiConfig::instance();
    if (w == "grade") d->setDiscretizationGrade((int) v); else if (w == "scale") d->setScale((int) v); else if (w == "prec") d->setPrecision((int) v);
    else if (w == "tol") d->setTolerance(std::ldexp((double) v, -30)); else if (w == "pname") d->setPrecision((Precision::precision) v); else throw std::logic_error("driver: cset " + w);
    return "\"w\":" + jstr(w) + ",\"v\":" + std::to_string(v) + "," + jconf(); }
CMD(circle) { Point ce = a.pt(c); long r = a.n(); std::vector<Point> v = Circle(c.real(r), ce).discretizeCircle();
    return "\"c\":" + c.pt(ce) + ",\"rad\":" + std::to_string(r) + ",\"pts\":" + jp(c, v); }
CMD(chole) { Point ce = a.pt(c); long r = a.n(); Hole h = CircularHole(ce, c.real(r)); std::vector<Point> v = h.getPoints();
    std::vector<IndexSegment> s; h.getSegments(s, 0);
    return "\"c\":" + c.pt(ce) + ",\"rad\":" + std::to_string(r) + ",\"pts\":" + jp(c, v) + ",\"hc\":" + c.pt(h.getCenter()) + ",\"segs\":" +
        jlist(s, [&](const IndexSegment& e) { return "[" + std::to_string(e.getFirst()) + "," + std::to_string(e.getSecond()) + "]"; }); }
CMD(arc) { Point ce = a.pt(c); long r = a.n(), d1 = a.n(), d2 = a.n(); std::vector<Point> v = delynoi_utilities::generateArcPoints(ce, c.real(r), d1 / 64.0, d2 / 64.0);
    return "\"c\":" + c.pt(ce) + ",\"rad\":" + std::to_string(r) + ",\"d1\":" + std::to_string(d1) + ",\"d2\":" + std::to_string(d2) + ",\"pts\":" + jp(c, v); }

CMD(cnames) { return "\"small\":" + std::to_string((int) Precision::precision::small) + ",\"mid\":" + std::to_string((int) Precision::precision::mid) + ",\"large\":" + std::to_string((int) Precision::precision::large); }
// peq P Q : are they the same point, and is Q found in a list that holds P
CMD(peq) { Point p = a.pt(c), q = a.pt(c); UniqueList<Point> l; l.push_back(p);
    return "\"a\":" + c.pt(p) + ",\"b\":" + c.pt(q) + ",\"eq\":" + jb(p == q) + ",\"found\":" + jb(l.contains(q)) + ",\"less\":[" + jb(p < q) + "," + jb(q < p) + "],\"segs\":" + jb(PointSegment(Point(9, 9), p) == PointSegment(q, Point(9, 9))); }
// tnear A B P : is P on the segment, on the side of a polygon, on the line; tmeet A B C D : do the segments meet; tang A B : are the angles in order
CMD(tnear) { std::vector<Point> p; for (int i = 0; i < 3; ++i) p.push_back(a.pt(c)); std::vector<Point> ring = {p[0], p[1], Point((p[0].getX() + p[1].getX()) / 2 - 4 * (p[1].getY() - p[0].getY()), (p[0].getY() + p[1].getY()) / 2 + 4 * (p[1].getX() - p[0].getX()))};
    Polygon q(ring); IndexSegment e = q.containerEdge(ring, p[2]);
    return "\"p\":" + jp(c, p) + ",\"ans\":[" + jb(PointSegment(p[0], p[1]).contains(p[2])) + "," + jb(IndexSegment(1, 0).contains(p, p[2])) + "," + jb(geometry_functions::collinear(p[0], p[1], p[2])) + "," + jb(q.inEdges(ring, p[2])) + "," + jb(e.getFirst() != -1) + "]"; }
CMD(tmeet) { std::vector<Point> p; for (int i = 0; i < 4; ++i) p.push_back(a.pt(c)); Point i, j, k;
    return "\"p\":" + jp(c, p) + ",\"ans\":[" + jb(IndexSegment(0, 1).intersection(p, IndexSegment(2, 3), i)) + "," + jb(IndexSegment(2, 3).intersection(p, PointSegment(p[0], p[1]), j)) + "]"; }
CMD(tang) { long x = a.n(), y = a.n(); Angle u(std::ldexp((double) x, -20)), v(std::ldexp((double) y, -20)); return "\"a\":" + std::to_string(x) + ",\"b\":" + std::to_string(y) + ",\"less\":[" + jb(u < v) + "," + jb(v < u) + "]"; }
CMD(ccut) { std::vector<Point> r = a.pts(c), h = a.pts(c), o; std::string th; Region R(r);
    try { R.addHole(PolygonalHole(h)); } catch (std::invalid_argument&) { th = "invalid_argument"; }
    o = R.getRegionPoints();
    return "\"ring\":" + jp(c, r) + ",\"hole\":" + jp(c, h) + ",\"thrown\":" + jstr(th) + ",\"out\":" + jp(c, o); }
