"""Polygons, their questions, containment, triangulators, segments and hulls."""
from geo import *


def simple(r):
    """No two sides of the (integer) ring touch except at their common vertex."""
    n = len(r)
    if n < 3 or len(set(r)) < n:
        return False

    def on(a, b, v):
        return cross(a, b, v) == 0 and min(a[0], b[0]) <= v[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= v[1] <= max(a[1], b[1])
    for i in range(n):
        a, b = r[i], r[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = r[j], r[(j + 1) % n]
            if j == i + 1:
                if on(a, b, d) or on(c, d, a):
                    return False
                if n == 3 and cross(a, b, d) == 0:
                    return False
            elif i == 0 and j == n - 1:
                if on(a, b, c) or on(c, d, b):
                    return False
            elif inter(a, b, c, d) or on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
                return False
    return area2(r) != 0


def untangle(r):
    """2-opt moves until no two sides cross; None if it does not get there."""
    r = list(r)
    n = len(r)
    for _ in range(300):
        done = True
        for i in range(n - 1):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if inter(r[i], r[i + 1], r[j], r[(j + 1) % n]):
                    r[i + 1:j + 1] = r[i + 1:j + 1][::-1]
                    done = False
        if done:
            return r
    return None


def convexhull(pts):
    pts = sorted(set(pts))

    def half(p):
        h = []
        for q in p:
            while len(h) > 1 and cross(h[-2], h[-1], q) <= 0:
                h.pop()
            h.append(q)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def small_ring(r, ext=8, nmax=10):
    """A simple ring of small integers, rarely one of many vertices."""
    large = r.random() < .03
    while True:
        k = 'large' if large else r.choice(['rand', 'rand', 'rand', 'convex', 'hist', 'stair', 'star', 'comb', 'spiral', 'mids', 'tri'])
        if k == 'rand':
            n = r.randint(3, nmax)
            p = list({(r.randint(0, ext), r.randint(0, ext)) for _ in range(n)})
            r.shuffle(p)
            q = untangle(p) if len(p) >= 3 else None
        elif k == 'large':
            n, lo = r.randint(20, 60), r.choice([.6, .8, 1])
            q = [(round(30 + 30 * t * math.cos(2 * math.pi * i / n)), round(30 + 30 * t * math.sin(2 * math.pi * i / n))) for i in range(n) for t in [r.uniform(lo, 1)]]
        elif k == 'tri':
            q = [(r.randint(0, ext), r.randint(0, ext)) for _ in range(3)]
        elif k == 'convex':
            q = convexhull([(r.randint(0, ext), r.randint(0, ext)) for _ in range(r.randint(4, 12))])
        elif k == 'hist':
            q, x = [(0, 0)], 0
            w = r.randint(2, 5)
            hs = [r.randint(1, ext) for _ in range(w)]
            q += [(w, 0)]
            for i in range(w - 1, -1, -1):
                q += [(i + 1, hs[i]), (i, hs[i])]
            q = [v for i, v in enumerate(q) if v not in q[:i]]
        elif k == 'stair':
            n = r.randint(2, 4)
            q = [(0, 0), (n, 0)]
            for i in range(n):
                q += [(n - i, i + 1), (n - i - 1, i + 1)]
        elif k == 'star':
            n = r.randint(4, 8)
            c = ext / 2
            q = [(round(c + c * t * math.cos(2 * math.pi * i / n)), round(c + c * t * math.sin(2 * math.pi * i / n))) for i in range(n) for t in [r.uniform(.2, 1)]]
        elif k == 'comb':
            n = r.randint(2, 4)
            h = r.randint(2, ext)
            q = [(0, 0)] + [(2 * n, 0)]
            for i in range(n, 0, -1):
                q += [(2 * i - 1, h), (2 * i - 2, 1)]
            q[1] = (2 * n, 1)
        elif k == 'spiral':
            q = [(0, 0), (6, 0), (6, 6), (1, 6), (1, 2), (4, 2), (4, 4), (3, 4), (3, 3), (2, 3), (2, 5), (5, 5), (5, 1), (0, 1)]
        else:
            q = [(0, 0), (2, 0), (4, 0), (4, 3), (4, 6), (2, 6), (0, 6), (0, 1)]
            for _ in range(r.randint(0, 4)):
                q.pop(r.randrange(len(q)))
        if not q:
            continue
        if r.random() < .4:                            # vertices in the middle of sides
            o = []
            for a, b in sides(q):
                o.append(a)
                if r.random() < .3 and (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                    o.append(((a[0] + b[0]) // 2, (a[1] + b[1]) // 2))
            q = o
        if not simple(q):
            continue
        t = r.randrange(8)                             # symmetries
        if t & 1:
            q = [(b, a) for a, b in q]
        if t & 2:
            q = [(-a, b) for a, b in q]
        if t & 4:
            q = [(a, -b) for a, b in q]
        j = r.randrange(len(q))
        q = q[j:] + q[:j]
        return q[::-1] if r.random() < .4 else q


def place(r, pts, ref=None, tiny=False):
    """Scaled and moved to where the lattice has room; tiny: sometimes to a thousandth."""
    if ref is None:
        g = 1 << r.choice([16, 17, 18, 19, 20, 20, 21] + [10, 12, 14] * tiny)
        ref = (g, r.choice([0, 0, r.randint(-900, 900)]) * (1 << 20), r.choice([0, 0, r.randint(-900, 900)]) * (1 << 20))
    g, ox, oy = ref
    return [(x * g + ox, y * g + oy) for x, y in pts], ref


QUESTIONS = ['area', 'area', 'longest', 'signed', 'centroid', 'centroid', 'average', 'diameter', 'diameter', 'clockwise', 'convex', 'selfint', 'fixccw', 'sides', 'points']


def history(r, sid):
    """Polygons over lists of points, and questions in any order."""
    L = ['scenario %s poly 20' % sid]
    lists = {}
    polys = {}
    k = 0
    for _ in range(r.randint(8, 22)):
        x = r.random()
        if not polys or x < .15:
            # a list with the vertices of one to three rings, mixed
            rings = [small_ring(r) for _ in range(r.choice([1, 1, 2, 3]))]
            ref = None
            allp, rr = [], []
            for q in rings:
                p, ref = place(r, [(a + 70 * len(rr), b) for a, b in q], ref, True)
                rr.append(p)
                allp += p
            if len(rings) == 1 and r.random() < .4:
                order = list(allp)
            else:
                order = list(allp)
                r.shuffle(order)
            name = 'L%d' % k
            k += 1
            lists[name] = order
            L.append('pts %s %s' % (name, fmt(order)))
            for p in rr:
                n = 'P%d' % r.randint(0, 3)
                if order == p:
                    L.append('polyp %s %s' % (n, name))
                else:
                    L.append('poly %s %s %d %s' % (n, name, len(p), ' '.join(str(order.index(v)) for v in p)))
                polys[n] = name
        elif x < .25:
            n = r.choice(sorted(polys))
            m = r.choice(['P0', 'P1', 'P2', 'P3'])
            if m in polys and r.random() < .6:
                L.append('passign %s %s' % (m, n))
            elif m != n:
                L.append('pcopy %s %s' % (m, n))
            else:
                continue
            polys[m] = polys[n]
        elif x < .33:
            n = r.choice(sorted(polys))
            p, _ = place(r, small_ring(r), None, True)
            name = 'L%d' % k
            k += 1
            lists[name] = p
            L.append('pts %s %s' % (name, fmt(p)))
            L.append('pmut %s %s' % (n, name))
            polys[n] = name
        elif x < .4:
            n = r.choice(sorted(polys))
            L.append('edges %s %d %d' % (n, -1, min(len(lists[polys[n]]), 14)))
        elif x < .45:
            L.append('pequal %s %s' % (r.choice(sorted(polys)), r.choice(sorted(polys))))
        else:
            n = r.choice(sorted(polys))
            for _ in range(r.randint(1, 4)):
                L.append('ask %s %s %s' % (n, polys[n], r.choice(QUESTIONS)))
    for _ in range(2):
        p = [(r.randint(-40, 40) * (1 << 18), r.randint(-40, 40) * (1 << 18)) for _ in range(3)]
        if abs(area2(p)) > 1 << 40:
            L.append('circum ' + fmt(p))
    return L


def simp(r, sid):
    L = ['scenario %s simp 20' % sid]
    for _ in range(10):
        if r.random() < .4:
            q = small_ring(r)
            if len(q) > 20 and r.random() < .5:        # one tangle in a long ring
                i, j = sorted(r.sample(range(len(q)), 2))
                q[i + 1:j + 1] = q[i + 1:j + 1][::-1]
        else:
            n = r.randint(4, 8)
            e = r.choice([3, 5, 8, 12])
            q = [(r.randint(0, e), r.randint(0, e)) for _ in range(n)]
            if r.random() < .8:
                q = list(dict.fromkeys(q))
            if r.random() < .5 and len(q) >= 5:        # nearly simple: one tangle
                u = untangle(q) if len(set(q)) == len(q) else None
                if u:
                    i, j = sorted(r.sample(range(len(u)), 2))
                    u[i + 1:j + 1] = u[i + 1:j + 1][::-1]
                    q = u
        if len(q) < 3:
            continue
        if r.random() < .1:                            # a vertex twice in a row
            i = r.randrange(len(q))
            q = q[:i] + [q[i]] + q[i:]
        p, _ = place(r, q)
        if len(set(q)) < 3 or area2(q) == 0 and r.random() < .9:
            continue
        kinds = ['polygon', 'region', 'hole', 'mutate', 'regionmutate', 'query'] + ['indexes'] * simple(q)
        L.append('psimple %s %s' % (r.choice(kinds), fmt(p)))
    for _ in range(3):                                 # the same vertices, nearly the same, or with the same hash
        x = r.random()
        if x < .5:
            a, b = r.choice(colliding())
            m = r.sample([i for i in range(400) if i not in a + b], r.randint(1, 4))
            a, b = sorted(list(a) + m), sorted(list(b) + m)
        else:
            a = sorted(r.sample(range(r.choice([6, 30, 2000])), r.randint(3, 6)))
            b = list(a)
            if x < .75:
                k = r.randrange(len(b))
                b[k] = r.choice([i for i in range(max(a) + 3) if i not in a])
                b = sorted(b)
            elif x < .8:
                b = b[:-1] if len(b) > 3 else b
        for v in (a, b):
            k = r.randrange(len(v))
            v[:] = v[k:] + v[:k]
            if r.random() < .5:
                v.reverse()
        L.append('psame %d %s %d %s' % (len(a), ' '.join(map(str, a)), len(b), ' '.join(map(str, b))))
    if r.random() < .02:
        L.append('pcount %d %d' % (r.randint(0, 300), r.randint(20, 64)))
    return L


def where(r, sid):
    L = ['scenario %s where 20' % sid]
    for _ in range(3):
        q = small_ring(r)
        if r.random() < .25:
            q = [(r.randint(0, 6), r.randint(0, 6)), (r.randint(0, 6), r.randint(0, 6))]
            if q[0][0] == q[1][0] or q[0][1] == q[1][1]:
                continue
            kind = 'box'
        else:
            kind = r.choice(['polygon', 'polygon', 'region', 'hole'])
        x0, x1 = min(v[0] for v in q), max(v[0] for v in q)
        y0, y1 = min(v[1] for v in q), max(v[1] for v in q)
        h = r.choice([1, 2, 2, 4])                     # lattice points, halves, quarters
        at = sorted({(r.randint(h * (x0 - 1), h * (x1 + 1)), r.randint(h * (y0 - 1), h * (y1 + 1))) for _ in range(40)})[:34]
        for a, b in sides(q):                          # vertices and points of sides
            at.append((a[0] * h, a[1] * h))
            d = math.gcd(abs(b[0] - a[0]), abs(b[1] - a[1])) * h
            t = r.randint(0, d)
            at.append((a[0] * h + (b[0] - a[0]) * h // d * t, a[1] * h + (b[1] - a[1]) * h // d * t) if d and (b[0] - a[0]) * h % d == 0 else (a[0] * h, a[1] * h))
        g = 1 << r.choice([18, 19, 20])
        ref = (g // h, r.choice([0, 0, r.randint(-900, 900)]) * (1 << 20), r.choice([0, r.randint(-900, 900)]) * (1 << 20))
        ring, _ = place(r, [(a * h, b * h) for a, b in q], ref)
        pts, _ = place(r, at, ref)
        for a, b in r.sample(sides(ring), min(4, len(ring))) if kind != 'box' else []:       # near a side
            l = math.hypot(b[0] - a[0], b[1] - a[1])
            t, d = r.uniform(.1, .9), r.choice([-1, 1]) * r.choice([1, 1.5, 2, 4]) * 1024
            pts.append((round(a[0] + t * (b[0] - a[0]) - d * (b[1] - a[1]) / l), round(a[1] + t * (b[1] - a[1]) + d * (b[0] - a[0]) / l)))
        if kind != 'box' and r.random() < .08:             # a vertex twice in a row
            i = r.randrange(len(ring))
            ring = ring[:i] + [ring[i]] + ring[i:]
        L.append('where %s %s %s' % (kind, fmt(ring), fmt(pts)))
        if kind == 'box':
            L.append('box %d %d %d %d' % (ring[0] + ring[1]))
    return L


def ptri(r, sid):
    L = ['scenario %s ptri 20' % sid]
    for i in range(r.randint(1, 3)):
        n = r.choice([1, 1, 2])
        rr, ref, allp = [], None, []
        for j in range(n):
            q = small_ring(r, nmax=r.choice([6, 10, 14]))
            if r.random() < .3:
                q = convexhull([(r.randint(0, 8), r.randint(0, 8)) for _ in range(r.randint(4, 14))])
                if len(q) < 3:
                    continue
                q = q[::-1] if r.random() < .3 else q
            p, ref = place(r, [(a + 70 * j, b) for a, b in q], ref)
            rr.append(p)
            allp += p
        if not rr:
            continue
        extra, _ = place(r, [(-100 - k, 50) for k in range(r.choice([0, 0, 1, 3]))], ref)
        allp += extra
        if r.random() < .7:
            r.shuffle(allp)
        L.append('pts L%d %s' % (i, fmt(allp)))
        for _ in range(r.randint(1, 4)):
            p = r.choice(rr)
            L.append('ptri %s L%d %d %s' % (r.choice(['ear', 'ear', 'center', 'delaunay', 'delaunay']), i, len(p), ' '.join(str(allp.index(v)) for v in p)))
    return L


def seg(r, sid):
    L = ['scenario %s seg 20' % sid]
    for _ in range(3):
        e = r.choice([3, 6, 10])
        g = 1 << r.choice([9, 12, 14, 16, 18, 18, 19, 19, 20, 20])
        off = (r.choice([0, 0, r.randint(-500, 500)]) << 20, r.choice([0, r.randint(-500, 500)]) << 20)
        items = []
        while len(items) < 12:
            p = [(r.randint(0, e), r.randint(0, e)) for _ in range(4)]
            if p[0] == p[1] or p[2] == p[3]:
                continue
            x = r.random()
            if x < .1:
                p[2:] = r.choice([p[:2], p[1::-1]])
            elif x < .2:
                p[2] = p[r.randrange(2)]
            elif x < .3:
                d = (p[1][0] - p[0][0], p[1][1] - p[0][1])
                a, b = r.sample(range(-1, 4), 2)
                p = [(p[0][0] * 2, p[0][1] * 2), (p[1][0] * 2, p[1][1] * 2), (p[0][0] * 2 + a * d[0], p[0][1] * 2 + a * d[1]), (p[0][0] * 2 + b * d[0], p[0][1] * 2 + b * d[1])]
            if p[2] == p[3]:
                continue
            items.append(p)
        L.append('segs %d %s' % (len(items), ' '.join('%d %d' % (x * g + off[0], y * g + off[1]) for p in items for x, y in p)))
    for _ in range(8):
        g = 1 << r.choice([14, 18, 20, 22])
        p = [(r.randint(-30, 30) * g, r.randint(-30, 30) * g) for _ in range(3)]
        if r.random() < .3:
            p[1] = r.choice([(p[0][0], p[1][1]), (p[1][0], p[0][1])])
        if r.random() < .15:
            p[2] = p[0]
        if p[0] != p[1]:
            L.append('seg ' + ' '.join('%d %d' % v for v in p))
    a = [r.choice([r.randint(-1000, 1000) * 1024, r.randint(-8, 8) * 45 * 1024, r.randint(-800 * 1024, 800 * 1024)]) for _ in range(8)]
    L.append('angle %d %s' % (len(a), ' '.join(map(str, a))))
    return L


def hull(r, sid):
    L = ['scenario %s hull 20' % sid]
    for _ in range(4):
        e = r.choice([2, 3, 4, 8, 20])
        n = r.randint(2, 14)
        if r.random() < .04:
            e, n = r.choice([8, 60, 200]), r.randint(30, 150)
        p = [(r.randint(0, e), r.randint(0, e)) for _ in range(n)]
        if r.random() < .15:
            p = [(x, 2 * x) for x, _ in p]
        elif r.random() < .1:
            p = [(3, y) for _, y in p]
        elif r.random() < .3:
            p = small_ring(r)
        if len(set(p)) < 2:
            continue
        p, _ = place(r, p)
        L.append('hull ' + fmt(p))
    return L


MAKE = {'poly': history, 'simp': simp, 'where': where, 'ptri': ptri, 'seg': seg, 'hull': hull}


def suite(seed, kind, n):
    out = []
    for i in range(n):
        s = MAKE[kind](Rnd('%s/%s/%d' % (seed, kind, i)), '%s%d' % (kind, i))
        if len(s) > 1:
            out.append(s)
    return out
