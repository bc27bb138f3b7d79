// Vectors, angles, lists and texts.
#include "core.h"
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <utilities/maputils.h>
#include <algorithm>

static std::string codes(const std::string& s) { return jlist(s, [](char x) { return std::to_string((int) (unsigned char) x); }); }
static std::string coord(double x) { return wide(x, 60); }

// vec x y x y k : two vectors, and a factor
CMD(vec) { Point p = a.pt(c), q = a.pt(c); long k = a.n(); double f = std::ldexp((double) k, -4); Point d = p - q; Pair<double> u(p.getX(), p.getY()), v(q.getX(), q.getY()), s = u + v, m = u * f, n = utilities::normalize(u);
    Pair<int> iu((int) c.fix(p.getX()) % 7, (int) c.fix(p.getY()) % 7), iv((int) c.fix(q.getX()) % 7, (int) c.fix(q.getY()) % 7), is = iu + iv; Pair<double> w(u);
    auto pair = [&](const Pair<double>& x) { return "[" + c.num(x.first) + "," + c.num(x.second) + "]"; };
    auto unit = [&](double x) { return std::to_string(std::fabs(x) < 2 ? std::lround(std::ldexp(x, 28)) : BADNUM); };
    auto less = [&](bool x, bool y, bool z) { return "[" + jb(x) + "," + jb(y) + "," + jb(z) + "]"; };
    return "\"p\":" + c.pt(p) + ",\"q\":" + c.pt(q) + ",\"k\":" + std::to_string(k) + ",\"minus\":" + c.pt(d) + ",\"plus\":" + pair(s) + ",\"times\":" + pair(m) + ",\"copy\":" + pair(w) + ",\"unit\":[" + unit(n.first) + "," + unit(n.second) + "]" +
        ",\"cross\":" + wide(delynoi_utilities::crossProduct(p, q), 2 * c.p) + ",\"dot\":" + wide(u.dot(v), 2 * c.p) + ",\"sq\":[" + wide(p.squareNorm(), 2 * c.p) + "," + wide(delynoi_utilities::squareNorm(p), 2 * c.p) + "]" +
        ",\"norm\":" + wide(delynoi_utilities::norm(p), c.p + 8) + ",\"sign\":[" + std::to_string(utilities::sign(p.getX())) + "," + std::to_string(utilities::sign((int) k)) + "]" +
        ",\"rel\":[" + jb(u == v) + "," + jb(u == w) + "," + jb(u < v) + "," + jb(v < u) + "," + jb(u < w) + "]" +
        ",\"iu\":[" + std::to_string(iu.first) + "," + std::to_string(iu.second) + "],\"iv\":[" + std::to_string(iv.first) + "," + std::to_string(iv.second) + "],\"ints\":[" + std::to_string(is.first) + "," + std::to_string(is.second) + "," + std::to_string(iu.dot(iv)) + "],\"irel\":" + less(iu == iv, iu < iv, iv < iu); }
// deg n a ... : degrees * 2^10, in radians * 2^24 and from there in degrees
CMD(deg) { long n = a.n(); std::string i, o;
    for (long k = 0; k < n; ++k) { long x = a.n(); double r = utilities::radian(std::ldexp((double) x, -10)), d = utilities::degrees(r); i += (k ? "," : "") + std::to_string(x);
        o += std::string(k ? "," : "") + "[" + std::to_string(std::lround(std::ldexp(r, 24))) + "," + std::to_string(std::lround(std::ldexp(d, 10))) + "]"; }
    return "\"in\":[" + i + "],\"out\":[" + o + "]"; }
// find n a ... k b ... : where the b are in the list of the a; and the numbers from 0 to n, after the ones there were
CMD(find) { std::vector<int> v = a.ints(), w = a.ints(), t = w; std::vector<int> r; for (int x : w) r.push_back(utilities::indexOf(v, x)); delynoi_utilities::TrivialIndexVector(t, (int) v.size());
    std::vector<Point> ps; std::vector<int> rp; for (int x : v) ps.push_back(Point(x, -x)); for (int x : w) rp.push_back(utilities::indexOf(ps, Point(x, -x)));
    return "\"in\":" + jints(v) + ",\"of\":" + jints(w) + ",\"at\":" + jints(r) + ",\"pat\":" + jints(rp) + ",\"trivial\":" + jints(t); }
// words n c ... : the words of a line of these characters, and its parts between commas
CMD(words) { std::vector<int> v = a.ints(); std::string s(v.begin(), v.end()); std::vector<std::string> w = utilities::splitBySpaces(s), p = utilities::split(s, std::regex(","));
    return "\"in\":" + jints(v) + ",\"out\":" + jlist(w, codes) + ",\"parts\":" + jlist(p, codes); }
// texts i j x y x y prec : the texts of pairs of indexes, points, segments and numbers
CMD(texts) { int i = (int) a.n(), j = (int) a.n(); Point p = a.pt(c), q = a.pt(c); int prec = (int) a.n();
    std::string t = "[" + line(IndexSegment(i, j).getString()) + "," + line(EdgeData(i, j).getString()) + "," + line(NeighboursBySegment(i, j).getString()) + "," + line(NeighboursBySegment(Pair<int>(i, j)).getString()) + "," + line(utilities::toString<int>(i) + " " + utilities::toString(j)) + "]";
    return "\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"p\":[" + coord(p.getX()) + "," + coord(p.getY()) + "],\"q\":[" + coord(q.getX()) + "," + coord(q.getY()) + "],\"prec\":" + std::to_string(prec) +
        ",\"ints\":" + t + ",\"pt\":" + line(p.getString()) + ",\"seg\":" + line(PointSegment(p, q).getString()) + ",\"num\":" + line(utilities::toString<double>(p.getX()) + " " + utilities::toString(q.getY())) +
        ",\"fixed\":" + line(utilities::toStringWithPrecision(p.getX(), prec) + " " + utilities::toStringWithPrecision(q.getY(), prec)) + ",\"whole\":" + codes(p.getString()); }
// edge i j n t ... : an edge that is given triangles
CMD(edge) { int i = (int) a.n(), j = (int) a.n(); std::vector<int> v = a.ints(); EdgeData e(i, j); for (int t : v) e.setTriangle(t); NeighboursBySegment n(i); int one = n.getSecond(); n.setNeighbour(j); NeighboursBySegment m(Pair<int>(i, j)); NeighboursByPoint b(i); for (int t : v) b.add(t); b.insert({j, i}); NeighboursByPoint d(v);
    return "\"ts\":" + jints(v) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"edge\":[" + std::to_string(e.p1) + "," + std::to_string(e.p2) + "," + std::to_string(e.t1) + "," + std::to_string(e.t2) + "]" +
        ",\"nb\":[" + std::to_string(n.getFirst()) + "," + std::to_string(n.getSecond()) + "," + std::to_string(m.getFirst()) + "," + std::to_string(m.getSecond()) + "," + std::to_string(one) + "],\"list\":" + jints(b.getNeighbours()) + ",\"all\":" + jints(d.getNeighbours()); }
// entries n k v ... : the keys and the values of a map from numbers to eighths of numbers
CMD(entries) { long n = a.n(); std::map<int, double> m; std::string in; for (long i = 0; i < n; ++i) { int k = (int) a.n(); long v = a.n(); m[k] = std::ldexp((double) v, -3); in += std::string(i ? "," : "") + "[" + std::to_string(k) + "," + std::to_string(v) + "]"; }
    std::vector<double> ks(m.size()), vs(m.size()); std::transform(m.begin(), m.end(), ks.begin(), map_utils::GetKeys()); std::transform(m.begin(), m.end(), vs.begin(), map_utils::GetValues());
    auto eighths = [](double x) { return std::to_string(std::lround(std::ldexp(x, 3))); };
    return "\"in\":[" + in + "],\"keys\":" + jlist(ks, eighths) + ",\"values\":" + jlist(vs, eighths); }
