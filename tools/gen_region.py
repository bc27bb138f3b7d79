"""Histories of regions: outlines, holes, seeds, copies."""
from geo import *
from gen_mesh import crossing_hole

GRID_FUNS = ['const', 'uni 1 1', 'uni 3 2', 'disp 2097152', 'alt', 'sin 5242880 1 3 0', 'cos 3145728 1 2 30']


def functor(r):
    return r.choice(GRID_FUNS)


def generator(r):
    k = r.choice(['xy', 'xy', 'x', 'y'])
    return 'xy %s %s' % (functor(r), functor(r)) if k == 'xy' else '%s %s' % (k, functor(r))


class Reg:
    def __init__(self, ring, holes=(), cut=False):
        self.ring, self.holes, self.cut = ring, list(holes), cut

    def copy(self):
        return Reg(self.ring, self.holes, self.cut)


def new_ring(r, size):
    off = (r.choice([0, 0, r.uniform(-300, 300)]), r.choice([0, 0, r.uniform(-300, 300)]))
    ring = r.ring(size, 1.0, off)
    return ring[::-1] if r.random() < .35 else ring


ASKS = ['area', 'area', 'centroid', 'centroid', 'diameter', 'diameter', 'average', 'longest', 'signed', 'clockwise', 'convex', 'selfint', 'fixccw', 'where', 'where']


def new(r, n, ring):
    """Of the points of the ring, or of a polygon over more points in another order."""
    if r.random() < .7:
        return 'rg_new %s %s' % (n, fmt(ring))
    x = r.random()
    if x < .3:                       # two indexes swapped, or a rotated list
        ix = list(range(len(ring)))
        k = r.randrange(len(ix))
        i, j = r.sample(range(len(ix)), 2)
        ix[i], ix[j] = ix[j], ix[i]
        more = r.choice([0, 0, 2])
        ix = [i + more for i in ix]
        pts = [None] * (len(ring) + more)
    else:
        ix = r.sample(range(len(ring) + r.choice([0, 1, 5])), len(ring))
        pts = [None] * (max(ix) + 1)
    for i, v in zip(ix, ring):
        pts[i] = v
    pts = [v or (r.q(-300, 300), r.q(-300, 300)) for v in pts]
    return 'rg_poly %s %s %d %s' % (n, fmt(pts), len(ix), ' '.join(map(str, ix)))


def hole(r, n, h):
    """As a polygon, or as points, center and sides."""
    if r.random() < .25:
        xs, ys = [v[0] for v in h], [v[1] for v in h]
        for _ in range(60):
            c = (r.randint(min(xs), max(xs)), r.randint(min(ys), max(ys)))
            if inside(c, h) and ring_dist(c, h) > .05 * ONE:
                return 'rg_rhole %s %s %d %d' % ((n, fmt(h)) + c)
    return 'rg_phole %s %s' % (n, fmt(h))


def history(r, sid, size=32, ops=10, holes=.4, seeds=.35, circ=True, asks=0):
    L, regs = [], {}
    names = ['A', 'B', 'C']
    ring = new_ring(r, size)
    regs['A'] = Reg(ring)
    L.append(new(r, 'A', ring))
    for _ in range(ops):
        if r.random() < .06:             # cuts are rounded to at least as fine a grid
            L.append('cset scale %d' % r.choice([100000, 131072, 200000, 1000000]))
        elif r.random() < .04:
            L.append('cset grade %d' % r.choice([3, 4, 5, 7, 12, 20, 33]))
        n = r.choice(sorted(regs))
        g = regs[n]
        if r.random() < asks:
            for op in [r.choice(ASKS) for _ in range(r.randint(1, 4))]:
                if op == 'where':
                    pts = r.seeds(g.ring, [], r.randint(2, 6), outside=.4, onring=False) + ([r.choice(g.ring)] if not g.cut else [])
                    L.append('rg_where %s %s' % (n, fmt(pts)))
                else:
                    L.append('rg_ask %s %s' % (n, op))
            continue
        x = r.random()
        if x < holes:
            k = r.choice(['in', 'in', 'in', 'cross', 'cross', 'out', 'circ' if circ else 'in', 'clean', 'cover'])
            if k == 'clean':
                if r.random() < .4:
                    L.append('rg_cleanholes ' + n)
                    g.holes = []
                continue
            if g.cut and k != 'out':
                continue
            if k == 'in':
                h = r.hole(g.ring, g.holes, size / r.choice([3, 4, 6]))
                if h:
                    g.holes.append(h)
                    L.append(hole(r, n, h))
            elif k == 'cross':
                h = crossing_hole(r, g.ring)
                if h and all(rings_dist(h, o) > .6 * ONE and not inside(o[0], h) for o in g.holes):
                    L.append('rg_phole %s %s' % (n, fmt(h)))
                    g.cut = True
            elif k == 'out':
                xs = [v[0] for v in g.ring]
                d = max(xs) - min(xs)
                h = [(a + r.choice([-1, 1]) * 0 + 2 * d // U * U, b) for a, b in r.star(0, 0, size / 4, 6)]
                h = [(a + max(xs) // U * U, b) for a, b in h]
                if good_ring(h, .5 * ONE):
                    L.append('rg_phole %s %s' % (n, fmt(h)))
            elif k == 'cover':
                if g.holes:
                    continue
                xs, ys = [v[0] for v in g.ring], [v[1] for v in g.ring]
                m = int(r.uniform(1, 9) * ONE) // U * U
                L.append('rg_phole %s %s' % (n, fmt(r.rect(min(xs) - m, min(ys) - m, max(xs) - min(xs) + 2 * m, max(ys) - min(ys) + 2 * m))))
            else:
                xs, ys = [v[0] for v in g.ring], [v[1] for v in g.ring]
                if r.random() < .3:              # a circle that crosses the outline, or is away from it
                    R = int(r.uniform(.8, size / 5) * ONE) // U * U
                    c = (r.randint(min(xs) // U, max(xs) // U) * U, r.randint(min(ys) // U, max(ys) // U) * U)
                    if abs(ring_dist(c, g.ring) - R) > .01 * ONE and all(ring_dist(c, o) > R + .6 * ONE and not inside(c, o) for o in g.holes):
                        L.append('rg_chole %s %d %d %d' % (n, c[0], c[1], R))
                        if ring_dist(c, g.ring) < R:
                            g.cut = True
                        elif inside(c, g.ring):
                            g.holes.append([(c[0] + int(R * math.cos(t * math.pi / 6)), c[1] + int(R * math.sin(t * math.pi / 6))) for t in range(12)])
                    continue
                for _ in range(30):
                    rad = r.uniform(.8, size / 6)
                    c = (r.randint(min(xs) // U, max(xs) // U) * U, r.randint(min(ys) // U, max(ys) // U) * U)
                    if inside(c, g.ring) and ring_dist(c, g.ring) > (rad + .5) * ONE and all(
                            ring_dist(c, o) > (rad + .5) * ONE and not inside(c, o) for o in g.holes):
                        R = int(rad * ONE) // U * U
                        L.append('rg_chole %s %d %d %d' % (n, c[0], c[1], R))
                        g.holes.append([(c[0] + int(R * math.cos(t * math.pi / 6)), c[1] + int(R * math.sin(t * math.pi / 6))) for t in range(12)])
                        break
        elif x < holes + seeds:
            k = r.choice(['add', 'add', 'add', 'file', 'gen', 'clean'])
            if k == 'clean':
                L.append('rg_cleanseeds ' + n)
            elif k == 'gen':
                L.append('rg_generate %s %s %d %d' % (n, generator(r), r.randint(1, 5), r.randint(1, 5)))
            else:
                s = r.seeds(g.ring, g.holes, r.randint(0, 7) if r.random() < .96 else r.randint(40, 120), outside=.4, onring=not g.cut)
                if g.holes and r.random() < .3:      # seeds on the edges and at the vertices of holes
                    h = r.choice(g.holes)
                    a, b = r.choice(sides(h))
                    if (a[0] + b[0]) % (2 * U) == 0 and (a[1] + b[1]) % (2 * U) == 0:
                        s.append(((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
                    s.append(a)
                    r.shuffle(s)
                L.append('%s %s %s' % (r.choice(['rg_addseeds'] * 3 + ['rg_flagseeds']) if k == 'add' else 'rg_seedfile', n, fmt(s)))
        else:
            k = r.choice(['new', 'copy', 'copy', 'assign', 'mutate', 'show'])
            if k == 'new':
                m = r.choice(names)
                ring = new_ring(r, size)
                regs[m] = Reg(ring)
                L.append(new(r, m, ring))
            elif k == 'copy':
                m = r.choice(names)
                if m != n:
                    regs[m] = g.copy()
                    L.append('rg_copy %s %s' % (m, n))
            elif k == 'assign':
                m = r.choice(sorted(regs))
                regs[m] = g.copy()
                L.append('rg_assign %s %s' % (m, n))
            elif k == 'mutate':
                ring = new_ring(r, size) if not g.holes else g.ring[1:] + g.ring[:1]
                if not g.holes and not g.cut and r.random() < .5:        # another ring with as many vertices
                    f, dx, dy = r.choice([.5, 1, 2]), r.q(-40, 40), r.q(-40, 40)
                    ring = [(int(v[0] * f) // U * U + dx, int(v[1] * f) // U * U + dy) for v in g.ring]
                    ring = ring if good_ring(ring, .5 * ONE, 10) else g.ring[1:] + g.ring[:1]
                g.ring, g.cut = ring, False
                L.append('rg_mutate %s %s' % (n, fmt(ring)))
            else:
                L.append('rg_show ' + n)
    for n in sorted(regs):
        L.append('rg_show ' + n)
    return ['scenario %s region %d' % (sid, P)] + L


def suite(seed, tag, n, **k):
    return [history(Rnd('%s/%s/%d' % (seed, tag, i)), '%s%d' % (tag, i), **k) for i in range(n)]


def holes_suite(seed, n):
    """One hole after the other, mostly crossing ones, and no more."""
    out = []
    for i in range(n):
        r = Rnd('%s/holes/%d' % (seed, i))
        out.append(history(r, 'hole%d' % i, size=r.choice([16, 32, 64]), ops=r.randint(1, 5), holes=1.0, seeds=0))
    return out
