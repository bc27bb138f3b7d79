"""Geometry used to generate inputs only (never to judge results).  Coordinates are integers."""
import math, random

U = 1 << 10            # input coordinates of mesh scenarios are multiples of this many lattice units
P = 20                 # lattice exponent of mesh scenarios: real = n * 2^-20
ONE = 1 << 20          # the real number 1


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def area2(r):
    return sum(r[i][0] * r[(i + 1) % len(r)][1] - r[i][1] * r[(i + 1) % len(r)][0] for i in range(len(r)))


def dist_seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = 0 if l2 == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def sides(r):
    return [(r[i], r[(i + 1) % len(r)]) for i in range(len(r))]


def inter(a, b, c, d):
    s = lambda x: (x > 0) - (x < 0)
    return s(cross(a, b, c)) * s(cross(a, b, d)) < 0 and s(cross(c, d, a)) * s(cross(c, d, b)) < 0


def seg_dist(a, b, c, d):
    if inter(a, b, c, d):
        return 0.0
    return min(dist_seg(a, c, d), dist_seg(b, c, d), dist_seg(c, a, b), dist_seg(d, a, b))


def ring_dist(p, r):
    return min(dist_seg(p, a, b) for a, b in sides(r))


def rings_dist(r, q):
    return min(seg_dist(a, b, c, d) for a, b in sides(r) for c, d in sides(q))


def inside(p, r):
    c = False
    for a, b in sides(r):
        if (a[1] <= p[1]) != (b[1] <= p[1]):
            k = cross(a, b, p)
            if (k > 0) == (b[1] > a[1]):
                c = not c
    return c


def good_ring(r, sep, min_angle=14):
    """Simple, with sides and gaps of at least sep, and no angle under min_angle degrees."""
    n = len(r)
    for i in range(n):
        a, b, c = r[i - 1], r[i], r[(i + 1) % n]
        u, v = (a[0] - b[0], a[1] - b[1]), (c[0] - b[0], c[1] - b[1])
        lu, lv = math.hypot(*u), math.hypot(*v)
        if lu < sep or lv < sep:
            return False
        ang = math.degrees(math.acos(max(-1, min(1, (u[0] * v[0] + u[1] * v[1]) / lu / lv))))
        if ang < min_angle:
            return False
        if 180 - ang < 1 and cross(a, b, c) != 0:
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if seg_dist(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]) < sep:
                return False
    return area2(r) != 0


class Rnd(random.Random):
    def q(self, lo, hi):
        """A real number of [lo, hi] on the input grid, as lattice units."""
        return self.randint(int(lo * ONE) // U, int(hi * ONE) // U) * U

    def convex(self, cx, cy, rad, n):
        angs = sorted(self.uniform(0, 2 * math.pi) for _ in range(n))
        return [(round((cx + rad * math.cos(t)) * ONE / U) * U, round((cy + rad * math.sin(t)) * ONE / U) * U) for t in angs]

    def star(self, cx, cy, rad, n):
        angs = [2 * math.pi * (i + self.uniform(-.3, .3)) / n for i in range(n)]
        return [(round((cx + k * math.cos(t)) * ONE / U) * U, round((cy + k * math.sin(t)) * ONE / U) * U)
                for t in angs for k in [rad * self.uniform(.35, 1)]]

    def rect(self, x, y, w, h):
        return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]

    def ring(self, size=32.0, sep=1.0, center=None):
        """A domain ring of about the given size (reals)."""
        cx, cy = center if center else (0, 0)
        while True:
            k = self.choice(['rect', 'rect', 'tri', 'convex', 'star', 'star', 'ell', 'tee', 'comb', 'spiral', 'rectmid', 'ustep'])
            s = self.uniform(.5, 1) * size / 2
            x0, y0, S = round((cx - s) * ONE / U) * U, round((cy - s) * ONE / U) * U, round(2 * s * ONE / U) * U
            f = lambda a: round(a * S / U) * U
            if k == 'rect':
                r = self.rect(x0, y0, S, f(self.uniform(.4, 1)))
            elif k == 'tri':
                r = self.convex(cx, cy, s, 3)
            elif k == 'convex':
                r = self.convex(cx, cy, s, self.randint(4, 8))
            elif k == 'star':
                if self.random() < .1:          # of many sides
                    n = self.randint(16, 90)
                    r = [(round((cx + q * math.cos(t)) * ONE / U) * U, round((cy + q * math.sin(t)) * ONE / U) * U)
                         for i in range(n) for t in [2 * math.pi * (i + self.uniform(-.2, .2)) / n] for q in [s * self.uniform(.85, 1)]]
                else:
                    r = self.star(cx, cy, s, self.randint(5, 10))
            elif k == 'ell':
                a, b = f(self.uniform(.3, .7)), f(self.uniform(.3, .7))
                r = [(x0, y0), (x0 + S, y0), (x0 + S, y0 + b), (x0 + a, y0 + b), (x0 + a, y0 + S), (x0, y0 + S)]
            elif k == 'tee':
                r = [(x0 + f(.3), y0), (x0 + f(.6), y0), (x0 + f(.6), y0 + f(.5)), (x0 + S, y0 + f(.5)), (x0 + S, y0 + S),
                     (x0, y0 + S), (x0, y0 + f(.5)), (x0 + f(.3), y0 + f(.5))]
            elif k == 'comb':
                r = [(x0, y0), (x0 + S, y0), (x0 + S, y0 + S), (x0 + f(.8), y0 + f(.3)), (x0 + f(.6), y0 + S), (x0 + f(.4), y0 + f(.3)),
                     (x0 + f(.2), y0 + S), (x0, y0 + S)]
            elif k == 'spiral':
                r = [(x0, y0), (x0 + S, y0), (x0 + S, y0 + S), (x0 + f(.3), y0 + S), (x0 + f(.3), y0 + f(.5)), (x0 + f(.6), y0 + f(.5)),
                     (x0 + f(.6), y0 + f(.75)), (x0 + f(.8), y0 + f(.75)), (x0 + f(.8), y0 + f(.25)), (x0, y0 + f(.25))]
            elif k == 'rectmid':
                r = [(x0, y0), (x0 + f(.5), y0), (x0 + S, y0), (x0 + S, y0 + f(.25)), (x0 + S, y0 + S), (x0, y0 + S)]
            else:
                r = [(x0, y0), (x0 + S, y0), (x0 + S, y0 + S), (x0 + f(.7), y0 + S), (x0 + f(.7), y0 + f(.3)), (x0 + f(.3), y0 + f(.3)),
                     (x0 + f(.3), y0 + S), (x0, y0 + S)]
            j = self.randrange(len(r))
            r = r[j:] + r[:j]
            if good_ring(r, sep * ONE):
                return r

    def hole(self, ring, others, size, sep=1.0, tries=60):
        """A hole inside of the ring, away from it and from the other holes; None if there is no room."""
        xs, ys = [v[0] for v in ring], [v[1] for v in ring]
        for _ in range(tries):
            cx, cy = self.uniform(min(xs), max(xs)) / ONE, self.uniform(min(ys), max(ys)) / ONE
            s = self.uniform(.5, 1) * size / 2
            k = self.choice(['rect', 'tri', 'convex', 'star', 'ell', 'u'])
            if k == 'rect':
                h = self.rect(round((cx - s) * ONE / U) * U, round((cy - s) * ONE / U) * U, round(2 * s * ONE / U) * U, round(s * self.uniform(.6, 2) * ONE / U) * U)
            elif k == 'tri':
                h = self.convex(cx, cy, s, 3)
            elif k == 'convex':
                h = self.convex(cx, cy, s, self.randint(4, 6))
            elif k == 'star':
                h = self.star(cx, cy, s, self.randint(5, 7))
            elif k == 'u':                   # thin: its centroid is not in it
                a, b, q, t = round((cx - s) * ONE / U) * U, round((cy - s) * ONE / U) * U, lambda t: round(t * 2 * s * ONE / U) * U, self.choice([.2, .26])
                h = [(a, b), (a + q(1), b), (a + q(1), b + q(1.2)), (a + q(1 - t), b + q(1.2)), (a + q(1 - t), b + q(t)), (a + q(t), b + q(t)), (a + q(t), b + q(1.2)), (a, b + q(1.2))]
                if self.random() < .3:
                    h = h[:4] + [(a + q(1 - t), b + q(t)), (a, b + q(t))]
                if self.random() < .5:
                    h = [(v[1] - b + a, v[0] - a + b) for v in h]
                k = self.randrange(len(h))
                h = h[k:] + h[:k]
            else:
                a, b, q = round((cx - s) * ONE / U) * U, round((cy - s) * ONE / U) * U, lambda t: round(t * 2 * s * ONE / U) * U
                h = [(a, b), (a + q(1), b), (a + q(1), b + q(.4)), (a + q(.4), b + q(.4)), (a + q(.4), b + q(1)), (a, b + q(1))]
            if self.random() < .4:
                h = h[::-1]
            if not good_ring(h, min(sep, size / 8) * ONE, 20):
                continue
            if inside(h[0], ring) and rings_dist(h, ring) >= sep * ONE and \
                    all(rings_dist(h, o) >= sep * ONE and not inside(h[0], o) and not inside(o[0], h) for o in others):
                return h
        return None

    def seeds(self, ring, holes, n, outside=.15, margin=.3, onring=True):
        """Seeds: most inside, some outside, some on the sides, some repeated or on a grid."""
        xs, ys = [v[0] for v in ring], [v[1] for v in ring]
        x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
        out = []
        mode = self.choice(['random', 'random', 'grid', 'mixed' if onring else 'random', 'circle'])
        cand = []
        if mode == 'grid' or mode == 'circle' and n < 4:
            k = max(2, int(math.sqrt(n)) + 1)
            cand = [(x0 + (x1 - x0) * i // (k + 1) // U * U, y0 + (y1 - y0) * j // (k + 1) // U * U) for i in range(1, k + 1) for j in range(1, k + 1)]
        elif mode == 'circle':
            cx, cy, r = (x0 + x1) // 2 // U * U, (y0 + y1) // 2 // U * U, min(x1 - x0, y1 - y0) // 40 // U * U
            cand = [(cx + r * a, cy + r * b) for a, b in [(5, 0), (3, 4), (0, 5), (-4, 3), (-5, 0), (-3, -4), (0, -5), (4, -3)]]
        tries = 0
        while len(out) < n and tries < 40 * n + 40:
            tries += 1
            if cand:
                p = cand.pop(0)
            elif mode == 'mixed' and self.random() < .2:
                a, b = self.choice(sides(ring))
                if (a[0] + b[0]) % (2 * U) or (a[1] + b[1]) % (2 * U):
                    continue
                p = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
                if p not in out:
                    out.append(p)
                continue
            elif mode == 'mixed' and self.random() < .1:
                p = self.choice(ring)
                if p not in out:
                    out.append(p)
                continue
            else:
                m = (x1 - x0) // 8 // U if self.random() < outside else 0
                p = (self.randint(x0 // U - m, x1 // U + m) * U, self.randint(y0 // U - m, y1 // U + m) * U)
            if ring_dist(p, ring) < margin * ONE or any(ring_dist(p, h) < margin * ONE for h in holes):
                continue
            if any(abs(p[0] - o[0]) < margin * ONE and abs(p[1] - o[1]) < margin * ONE for o in out):
                continue
            out.append(p)
            if mode == 'mixed' and self.random() < .08:
                out.append(p)
        return out


def fmt(pts):
    return str(len(pts)) + ''.join(' %d %d' % p for p in pts)


# which arguments of a command are points: the index of the first list of points
LISTS = {'rg_new': 2, 'rg_poly': 2, 'rg_flagseeds': 2, 'rg_mutate': 2, 'rg_phole': 2, 'rg_rhole': 2, 'rg_addseeds': 2, 'rg_seedfile': 2, 'rg_where': 2}


def mapped(s, f):
    """The scenario, with f of every coordinate (and whether it is a y); None if it has points that can not be changed."""
    """The scenario, with all its points moved; None if it has something that can not be."""
    out = [s[0]]
    for l in s[1:]:
        w = l.split()
        if w[0] == 'rg_generate':
            return None
        if w[0] in LISTS:
            at = [LISTS[w[0]] + 1 + i for i in range(2 * int(w[LISTS[w[0]]]) + 2 * (w[0] == 'rg_rhole'))]
        elif w[0] == 'rg_chole':
            at = [2, 3]
        elif 'seeds' in w:
            k = w.index('seeds') + 1
            at = [k + 1 + i for i in range(2 * int(w[k]))]
        elif w[0] == 'restricted':
            at = [4 + i for i in range(4 * int(w[3]))]
        else:
            at = []
        for j, i in enumerate(at):
            w[i] = str(f(int(w[i]), j % 2))
        out.append(' '.join(w))
    return out


def moved(s, dx, dy):
    return mapped(s, lambda v, y: v + (dy if y else dx))


def spread(seed, scenarios, share=.3):
    """Some of the scenarios far away from the origin, at coordinates with many bits."""
    out = []
    for i, s in enumerate(scenarios):
        r = Rnd('%s/spread/%d' % (seed, i))
        m = None
        if r.random() < share:
            off = lambda: r.choice([-1, 1]) * r.choice([r.randint(0, 600 << 20), r.randint(600 << 20, 1400 << 20)])
            k = 32767 if s[0].split()[1][:3] == 'cut' else 0          # see gen_mesh.snapped
            m = moved(s, off() & ~k, off() & ~k)
        out.append(m or s)
    return out


# scenarios that have the same meaning at every scale
SCALED = {k: ['16', '14'] for k in ('region', 'poly', 'simp', 'where', 'ptri', 'seg', 'hull')}
# different points of a computed mesh are different points of the lattice, too
SCALED['mesh'] = ['17', '17', '23']
SCALED['poly'] = SCALED['simp'] = SCALED['hull'] = ['16', '14', '23', '26']
SCALED.update(gen=['12', '16', '26'], circ=['14', '26'], mread=['23', '26'])
SCALED['ptri'] = ['16', '14', '23']


def rescale(seed, scenarios, share=.15):
    """Some of the scenarios on another lattice: everything in them is 8, 16 or 64 times as large, or as small.
    (Not where a region has to tell what is on its sides: Clipper rounds them by less than the lattice shows.)"""
    sides = ('rg_where', 'rg_addseeds', 'rg_flagseeds', 'rg_seedfile', 'rg_generate')
    for i, s in enumerate(scenarios):
        r = Rnd('%s/scale/%d' % (seed, i))
        w = s[0].split()
        if w[2] in SCALED and w[3] == '20' and r.random() < share and not (w[2] == 'region' and any(l.startswith(sides) for l in s)):
            s[0] = ' '.join(w[:3] + [r.choice(SCALED[w[2]] if w[1][:3] != 'cut' else ['17'])])
    return scenarios


def hash32(k):
    """The hash of the library, to find inputs on which it collides."""
    i32 = lambda x: (x + (1 << 31)) % (1 << 32) - (1 << 31)
    k = (k ^ 61) ^ (k >> 16)
    k = i32(k + (k << 3))
    k = k ^ (k >> 4)
    k = i32(k * 0x27d4eb2d)
    return k ^ (k >> 15)


_pairs = {}


def colliding(n=400):
    """Pairs of pairs of indexes under n whose hashes have the same sum."""
    if n not in _pairs:
        h = [hash32(i) for i in range(n)]
        by = {}
        for i in range(n):
            for j in range(i):
                by.setdefault(h[i] + h[j], []).append((j, i))
        _pairs[n] = [(v[a], v[b]) for v in by.values() for a in range(len(v)) for b in range(a)]
    return _pairs[n]
