"""Scenarios of mesh sessions."""
from geo import *


class Circle(list):
    """The vertices of a circle, which the library rounds differently."""


def region(r, lines, size, nholes, name='R', cut=True):
    """Commands that build a region; returns its ring and holes (a generator's view: rings that were cut are not tracked)."""
    off = (r.choice([0, 0, 0, r.uniform(-300, 300)]), r.choice([0, 0, 0, r.uniform(-300, 300)]))
    ring = r.ring(size, 1.0, off)
    if r.random() < .35:
        ring = ring[::-1]
    lines.append('rg_new %s %s' % (name, fmt(ring)))
    holes = []
    if nholes and r.random() < .3:           # circles, of many sides or of few
        grade = r.choice([12, r.randint(3, 20), r.randint(20, 33)])
        lines.append('cset grade %d' % grade)
        xs, ys = [v[0] for v in ring], [v[1] for v in ring]
        for _ in range(20 * nholes):
            if len(holes) >= nholes + 2:
                break
            R, c = int(r.uniform(.05, .2) * size * ONE) // U * U, (r.randint(min(xs) // U, max(xs) // U) * U, r.randint(min(ys) // U, max(ys) // U) * U)
            h = Circle((c[0] + int(R * math.cos(t * 2 * math.pi / grade)), c[1] + int(R * math.sin(t * 2 * math.pi / grade))) for t in range(grade))
            if R > 1.2 * ONE and inside(c, ring) and ring_dist(c, ring) > R + ONE and all(ring_dist(c, o) > R + ONE and not inside(c, o) for o in holes):
                holes.append(h)
                lines.append('rg_chole %s %d %d %d' % (name, c[0], c[1], R))
        return ring, holes
    for _ in range(nholes):
        h = r.hole(ring, holes, size / (r.choice([4, 6]) if nholes < 4 else r.randint(8, 12)))
        if h:
            holes.append(h)
            lines.append('rg_phole %s %s' % (name, fmt(h)))
    return ring, holes


def segments_for(r, ring, holes, seeds, n):
    """Restricted segments inside the domain, between seeds, vertices and new points, in general position."""
    from itertools import combinations
    segs = []
    pool = [s for s in seeds if inside(s, ring) and not any(inside(s, h) for h in holes)] + list(ring) + [v for h in holes if not isinstance(h, Circle) for v in h]
    tries = 0
    while len(segs) < n and tries < 80:
        tries += 1
        ends = []
        for _ in range(2):
            if r.random() < .6:
                ends.append(r.choice(pool))
            else:
                xs, ys = [v[0] for v in ring], [v[1] for v in ring]
                ends.append((r.randint(min(xs) // U, max(xs) // U) * U, r.randint(min(ys) // U, max(ys) // U) * U))
        a, b = ends
        if math.hypot(a[0] - b[0], a[1] - b[1]) < ONE:
            continue
        ok = all(inside(p, ring) and not any(inside(p, h) for h in holes) and
                 min([ring_dist(p, ring)] + [ring_dist(p, h) for h in holes]) > .5 * ONE for p in ends if p not in pool)
        # the segment keeps away from every side it does not share an end with, and leaves the others inwards
        for c, d in [s for q in [ring] + holes for s in sides(q)]:
            if a in (c, d) or b in (c, d):
                o = [p for p in (a, b) if p not in (c, d)]
                if not o or dist_seg(o[0], c, d) < .5 * ONE:
                    ok = False
            elif seg_dist(a, b, c, d) < .3 * ONE:
                ok = False
        m = ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
        if not ok or not inside(m, ring) or any(inside(m, h) for h in holes):
            continue
        for p in pool + [e for s in segs for e in s]:
            if p not in (a, b) and dist_seg(p, a, b) < .1 * ONE and not (p in seeds and abs(cross(a, b, p)) == 0):
                ok = False
        for c, d in segs:
            if {a, b} == {c, d}:
                ok = False
            elif set((a, b)) & set((c, d)):
                sh = [p for p in (a, b) if p in (c, d)][0]
                o1 = b if a == sh else a
                o2 = d if c == sh else c
                if dist_seg(o1, c, d) < .3 * ONE or dist_seg(o2, a, b) < .3 * ONE:
                    ok = False
            elif not inter(a, b, c, d) and seg_dist(a, b, c, d) < .3 * ONE:
                ok = False
        if ok:
            segs.append((a, b))
    return segs


def beside_segments(r, ring, holes, seeds, segs):
    """Seeds that a segment passes by very near, and that it does not pass through."""
    out = []
    for a, b in segs:
        l = math.hypot(a[0] - b[0], a[1] - b[1])
        for _ in range(r.randint(0, 2)):
            t, h = r.uniform(.15, .85), r.choice([-1, 1]) * 10 ** r.uniform(-3.2, -1.5) * ONE
            p = (round(a[0] + t * (b[0] - a[0]) - h * (b[1] - a[1]) / l), round(a[1] + t * (b[1] - a[1]) + h * (b[0] - a[0]) / l))
            if (all(math.hypot(p[0] - q[0], p[1] - q[1]) > .3 * ONE for q in seeds + out + [a, b]) and min(ring_dist(p, q) for q in [ring] + holes) > .3 * ONE
                    and all((c, d) == (a, b) or dist_seg(p, c, d) > .2 * ONE for c, d in segs)):
                out.append(p)
    return out


def through_scenario(r, sid, kind):
    """Restricted segments that pass through several seeds exactly, and cross each other in between."""
    size = r.choice([12, 16, 24])
    ring = [(0, 0), (size * ONE, 0), (size * ONE, size * ONE), (0, size * ONE)]
    if r.random() < .3:
        ring = [(x + r.randint(-3, 3) * U, y + r.randint(-3, 3) * U) for x, y in ring]
    L = ['rg_new R ' + fmt(ring)]
    f = ONE // r.choice([1, 1, 2, 3, 4, 5, 7])
    lim = (size - 1) * ONE
    segs, on = [], []
    for _ in range(40):
        if len(segs) == r.choice([2, 3, 3, 4, 5]):
            break
        d = (r.randint(-5, 5), r.randint(-5, 5))
        if d == (0, 0):
            continue
        k = r.randint(2, 6)
        g = f * r.choice([1, 1, 2, 3])
        a = (r.randint(ONE // f, lim // f) * f, r.randint(ONE // f, lim // f) * f)
        if segs and r.random() < .3:                              # through a point of another one
            a = r.choice(on)
            a = (a[0] - g * d[0] * (k // 2), a[1] - g * d[1] * (k // 2))
        b = (a[0] + g * d[0] * k, a[1] + g * d[1] * k)
        if not all(ONE <= v <= lim for v in a + b):
            continue
        mid = [(a[0] + g * d[0] * i, a[1] + g * d[1] * i) for i in range(1, k) if r.random() < .6]
        mine = [a, b] + mid
        # points of one segment are on the others, or away from them
        ok = all(q == p or math.hypot(p[0] - q[0], p[1] - q[1]) > .1 * ONE for p in mine for q in on)
        ok = ok and all(cross(c, e, p) == 0 and dist_seg(p, c, e) < 1 or dist_seg(p, c, e) > .1 * ONE for p in mine for c, e, _ in segs)
        ok = ok and all(cross(a, b, p) == 0 and dist_seg(p, a, b) < 1 or dist_seg(p, a, b) > .1 * ONE for p in on)
        # no overlaps; no three through a point that is not a vertex
        ok = ok and all(d[0] * (e[1] - c[1]) != d[1] * (e[0] - c[0]) or cross(c, e, a) != 0 for c, e, _ in segs)
        cuts = []
        for c, e, m in segs:
            den = (b[0] - a[0]) * (e[1] - c[1]) - (b[1] - a[1]) * (e[0] - c[0])
            if den:
                t = ((c[0] - a[0]) * (e[1] - c[1]) - (c[1] - a[1]) * (e[0] - c[0])) / den
                x = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
                cuts.append(x)
        for i in range(len(cuts)):
            for j in range(i):
                if math.hypot(cuts[i][0] - cuts[j][0], cuts[i][1] - cuts[j][1]) < .1 * ONE and not any(math.hypot(cuts[i][0] - v[0], cuts[i][1] - v[1]) < 1 for v in on + mine):
                    ok = False
        if ok:
            segs.append((a, b, mid))
            on += mine
    ends = [p for a, b, _ in segs for p in (a, b)]
    seeds = list(dict.fromkeys([p for _, _, m in segs for p in m] + [p for p in ends if r.random() < .5]))
    for _ in range(r.randint(0, 4)):
        p = (r.randint(ONE // U, lim // U) * U, r.randint(ONE // U, lim // U) * U)
        if all(dist_seg(p, a, b) > .2 * ONE for a, b, _ in segs) and all(math.hypot(p[0] - q[0], p[1] - q[1]) > .2 * ONE for q in seeds):
            seeds.append(p)
    r.shuffle(seeds)
    if seeds:
        L.append('rg_addseeds R ' + fmt(seeds))
    L += ['gen G R', 'restricted G A %d %s' % (len(segs), ' '.join('%d %d %d %d' % ((a + b) if r.random() < .5 else (b + a)) for a, b, _ in segs))]
    return ['scenario %s mesh %d' % (sid, P)] + L


def crossing_hole(r, ring, sep=.4):
    """A polygon that crosses the ring in general position (or contains, or splits it)."""
    xs, ys = [v[0] for v in ring], [v[1] for v in ring]
    w = max(max(xs) - min(xs), max(ys) - min(ys)) / ONE
    for _ in range(200):
        a, b = r.choice(sides(ring))
        t = r.uniform(.1, .9)
        cx, cy = (a[0] + t * (b[0] - a[0])) / ONE, (a[1] + t * (b[1] - a[1])) / ONE
        k = r.choice(['convex', 'rect', 'star', 'strip', 'tri', 'big'])
        s = r.uniform(.05, .3) * w
        if k == 'rect':
            h = r.rect(round((cx - s) * ONE / U) * U, round((cy - s) * ONE / U) * U, round(2 * s * ONE / U) * U, round(2 * s * r.uniform(.5, 1) * ONE / U) * U)
        elif k == 'strip':
            h = r.rect(round((cx - s / 4) * ONE / U) * U, round((cy - 2 * s) * ONE / U) * U, round(s / 2 * ONE / U) * U, round(4 * s * ONE / U) * U)
            if r.random() < .5:
                h = [(y - round(cy * ONE / U) * U + round(cx * ONE / U) * U, x - round(cx * ONE / U) * U + round(cy * ONE / U) * U) for x, y in h][::-1]
        elif k == 'star':
            h = r.star(cx, cy, s, r.randint(5, 8))
        elif k == 'big':
            h = r.convex(cx, cy, s * 4, r.randint(4, 7))
        else:
            h = r.convex(cx, cy, s, 3 if k == 'tri' else r.randint(4, 7))
        if r.random() < .4:
            h = h[::-1]
        if not good_ring(h, sep * ONE, 20):
            continue
        if any(ring_dist(v, ring) < sep * ONE for v in h) or any(ring_dist(v, h) < sep * ONE for v in ring):
            continue
        # crossings away from each other and transversal
        xs_ = []
        ok = True
        for p, q in sides(h):
            for c, d in sides(ring):
                if inter(p, q, c, d):
                    den = (q[0] - p[0]) * (d[1] - c[1]) - (q[1] - p[1]) * (d[0] - c[0])
                    lp, lc = math.hypot(q[0] - p[0], q[1] - p[1]), math.hypot(d[0] - c[0], d[1] - c[1])
                    if abs(den) / lp / lc < .2:
                        ok = False
                        break
                    u = ((c[0] - p[0]) * (d[1] - c[1]) - (c[1] - p[1]) * (d[0] - c[0])) / den
                    xs_.append((p[0] + u * (q[0] - p[0]), p[1] + u * (q[1] - p[1])))
        if not ok or any(math.hypot(x[0] - y[0], x[1] - y[1]) < sep * ONE for i, x in enumerate(xs_) for y in xs_[:i]):
            continue
        return h
    return None


def snapped(s):
    """Everything at multiples of 1/32, which cutting the region leaves as they are: if it were moved against the seeds by less than
    the tolerance, corners on one line would be so, too, and for such points being the same is no equivalence (known finding of C21)."""
    return mapped(s, lambda v, y: (v + 16384) >> 15 << 15)


def again(m):
    return ('vreread ' if m[0] in 'VW' else 'infovor ' if m[0] == 'I' else 'reread ') + m


def mesh_scenario(r, sid, kind, size=32, nseeds=12):
    """kind: vor, tri, restricted, session, cut."""
    L = []
    ring, holes = region(r, L, size, r.choice([0, 0, 1, 1, 2, 3]) if r.random() < .95 else r.randint(4, 12))
    if kind == 'cut':
        for _ in range(r.randint(1, 2)):
            h = crossing_hole(r, ring)
            if h and all(rings_dist(h, o) > .6 * ONE and not inside(o[0], h) for o in holes):
                L.append('rg_phole R ' + fmt(h))
                holes = holes + [h]
                break
    seeds = r.seeds(ring, holes, r.randint(0, nseeds), onring=kind != 'cut')
    if r.random() < .3:                      # some of the seeds have another one very near
        free = lambda p: (inside(p, ring) and not any(inside(p, h) for h in holes) and min([ring_dist(p, q) for q in [ring] + holes]) > .2 * ONE
                          and not any(0 < math.hypot(p[0] - s[0], p[1] - s[1]) < .2 * ONE for s in seeds))
        for p in [p for p in seeds if free(p)]:
            if r.random() < .3:
                seeds.insert(r.randint(0, len(seeds)), (p[0] + r.choice([-1, 1]) * r.randint(0, 16) * U, p[1] + r.choice([-1, 1]) * r.randint(4, 16) * U))
    viareg = r.random() < .6
    beside = kind == 'restricted' and r.random() < .4
    if beside:
        viareg = True
    elif viareg:
        L.append(r.choice(['rg_addseeds R ', 'rg_addseeds R ', 'rg_flagseeds R ']) + fmt(seeds))
    # without a region that takes them in, the seeds are all given to the generator
    arg = '' if viareg else ' seeds ' + fmt([s for s in seeds if inside(s, ring) and not any(inside(s, h) for h in holes)] if r.random() < .6 else seeds)
    if kind in ('vor', 'cut'):
        L.append('voronoi R' + arg)
        if kind == 'cut':
            L += ['gen G R' + arg, 'constrained G A']
    elif kind == 'tri':
        L += ['gen G R' + arg, r.choice(['constrained', 'conforming']) + ' G A']
    elif kind == 'restricted':
        segs = segments_for(r, ring, holes, seeds, r.choice([1, 2, 3, 4, r.randint(5, 12)]))
        if beside:
            seeds += beside_segments(r, ring, holes, seeds, segs)
            r.shuffle(seeds)
            L.append('rg_addseeds R ' + fmt(seeds))
        L += ['gen G R' + arg, 'restricted G A %d %s' % (len(segs), ' '.join('%d %d %d %d' % (a + b) for a, b in segs))]
    else:
        L.append('gen G R' + arg)
        kept = []
        names = ['G']
        for i in range(r.randint(3, 7)):
            op = r.choice(['constrained', 'conforming', 'restricted', 'voronoi', 'info', 'reread', 'gen', 'mutate'])
            g = r.choice(names)
            if op == 'reread':
                if kept:
                    L.append(again(r.choice(kept)))
            elif op == 'gen':
                names.append('G%d' % i)
                L.append('gen G%d R%s' % (i, arg))
            elif op == 'voronoi':
                L.append('voronoi R%s keep V%d W%d' % (arg, i, i))
                kept += ['V%d' % i, 'W%d' % i]
            elif op == 'info':
                L.append('info %s I%d' % (g, i))
                kept.append('I%d' % i)
            elif op == 'mutate':
                # the generators keep the region they were built with
                L.append('rg_mutate R ' + fmt(ring[1:] + ring[:1]))
            elif op == 'restricted':
                segs = segments_for(r, ring, holes, seeds, r.randint(0, 2))
                kept.append('M%d' % i)
                L.append('restricted %s M%d %d %s' % (g, i, len(segs), ' '.join('%d %d %d %d' % (a + b) for a, b in segs)))
            else:
                kept.append('M%d' % i)
                L.append('%s %s M%d' % (op, g, i))
        for m in kept:
            L.append(again(m))
    s = ['scenario %s mesh %d' % (sid, P)] + L
    return snapped(s) if kind == 'cut' else s


def colliding_scenario(r, sid, kind):
    """A mesh with two edges whose keys have the same hash: seeds that are each other's nearest have these indexes."""
    L = []
    ring, holes = region(r, L, 160, r.choice([0, 0, 1]))
    (a, b), (c, d) = r.choice([h for h in colliding() if max(h[0] + h[1]) < 200])
    seeds = []
    for _ in range(8):
        s = r.seeds(ring, holes, 230, outside=0, onring=False)
        s = [p for p in dict.fromkeys(s) if inside(p, ring) and not any(inside(p, h) for h in holes)]
        seeds = s if len(s) > len(seeds) else seeds
    near = lambda p: min((q for q in seeds if q != p), key=lambda q: (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2)
    pairs = [(p, near(p)) for p in seeds if p < near(p) and near(near(p)) == p]
    if len(pairs) < 2 or len(seeds) <= max(a, b, c, d):
        return mesh_scenario(r, sid, kind)
    want = dict(zip((a, b, c, d), [p for q in r.sample(pairs, 2) for p in q]))
    rest = [p for p in seeds if p not in want.values()]
    seeds = [want[i] if i in want else rest.pop() for i in range(len(seeds))]
    L.append('rg_addseeds R ' + fmt(seeds))
    L += ['voronoi R'] if kind in ('vor', 'cut') else ['gen G R', r.choice(['constrained', 'conforming']) + ' G A']
    return ['scenario %s mesh %d' % (sid, P)] + L


def suite(seed, kinds, n, size=32, nseeds=12, make=mesh_scenario):
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        r = Rnd('%s/%s/%d' % (seed, k, i))
        out.append(make(r, '%s%d' % (k, i), k, *([size, nseeds] if make is mesh_scenario else [])))
    return out


if __name__ == '__main__':
    import sys
    for s in suite(sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])):
        print('\n'.join(s))
