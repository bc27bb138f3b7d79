"""Unique lists, neighbour maps, comparisons."""
from geo import *


def points(r, n, tol):
    """Clusters of points that are within tol of one another, far from the others; tol in lattice units."""
    d = max(tol - 1, 0)
    j = d // 2
    out = []
    cells = r.choice([2, 3, 4]) if n < 40 else r.randint(8, 20)
    gap = max(4 * tol, r.choice([64, 1 << 12, 1 << 20]))
    off = (r.choice([0, 0, r.randint(-1000, 1000) << 20]), r.choice([0, r.randint(-1000, 1000) << 20]))
    for _ in range(n):
        x, y = r.randint(0, cells) * gap + off[0], r.randint(0, cells) * gap + off[1]
        if r.random() < .5:
            x, y = x + r.randint(-j, j), y + r.randint(-j, j)
        if r.random() < .1 and j:
            x, y = x + r.choice([-j, j]) - r.choice([0, 0]), y
            x = (x - off[0] + gap // 2) // gap * gap + off[0] + max(-j, min(j, (x - off[0] + gap // 2) % gap - gap // 2))
        out.append((x, y))
    return out


TOLS = [(10737, 10)] * 6 + [(1024 * 100 + 1, 100), (1024 * 1000 + 1, 1000)]


def lists(r, sid, ops=30):
    L = ['scenario %s ul 20' % sid]
    kind = r.choice(['int', 'int', 'pt', 'pt'])
    long = r.random() < .04                   # lists of many elements
    tol = 10
    if kind == 'pt' and r.random() < .3:
        v, tol = r.choice(TOLS)
        L.append('cset tol %d' % v)
    if kind == 'int':
        dom = [(r.choice([i, i, i * 7 - 3, -i]), 0) for i in range(150 if long else r.choice([3, 5, 8]))]
    else:
        dom = points(r, 80 if long else 12, tol)
    el = lambda: '%d %d' % r.choice(dom)
    names, size = [], {}
    for n in ['A', 'B'][:r.choice([1, 2, 2])]:
        L.append('ul %s new %s' % (kind, n))
        names.append(n)
    known = {n: [] for n in names}            # an upper bound of nothing: only to know that a list is not empty
    for _ in range(r.randint(6, ops)):
        n = r.choice(names)
        x = r.random()
        if x < .3:
            L.append('ul %s push %s %s' % (kind, n, el()))
            known[n].append(1)
        elif x < .36:
            L.append('ul %s force %s %s' % (kind, n, el()))
            known[n].append(1)
        elif x < .46:
            k = r.randint(0, 70 if long else 6)
            L.append('ul %s list %s %d %s' % (kind, n, k, ' '.join(el() for _ in range(k))))
            if k:
                known[n].append(1)
        elif x < .58:
            # the front exists if fewer elements were taken than insertions of something surely new
            L.append('ul %s push %s %s' % (kind, n, el()))
            L.append('ul %s pop %s' % (kind, n))
        elif x < .68:
            L.append('ul %s del %s %s' % (kind, n, el()))
        elif x < .7:
            L.append('ul %s clear %s' % (kind, n))
        elif x < .8:
            L.append('ul %s %s %s %s' % (kind, r.choice(['index', 'has']), n, el()))
        elif len(names) > 1:
            m = [a for a in names if a != n][0]
            L.append('ul %s %s %s %s' % (kind, r.choice(['from', 'common', 'common', 'eq', 'copy', 'assign']), n, m))
    for n in names:
        for d in r.sample(sorted(set(dom)), min(len(set(dom)), 16)):
            L.append('ul %s %s %s %d %d' % (kind, r.choice(['index', 'has']), n, d[0], d[1]))
    return L


def maps(r, sid):
    L = ['scenario %s maps 20' % sid]
    tol = 10
    if r.random() < .3:
        v, tol = r.choice(TOLS)
        L.append('cset tol %d' % v)
    many = r.random() < .05
    dom = points(r, r.randint(60, 160) if many else r.randint(4, 14), tol)
    x = r.random()
    if x < .35:
        L.append('pm new M')
        known = []
        for k in range(r.randint(80, 200) if many else r.randint(4, 20)):
            p = r.choice(dom)
            y = r.random()
            if y < .5 or not known:
                L.append('pm ins M %d %d %d' % (p + (r.randint(0, 9),)))
                known.append(p)
            elif y < .7:
                v = [r.randint(0, 9) for _ in range(r.randint(1, 4))]
                L.append('pm insl M %d %d %d %s' % (p + (len(v), ' '.join(map(str, v)))))
                known.append(p)
            else:
                L.append('pm get M %d %d' % r.choice(known))
    elif x < .7:
        L.append('sm new M')
        n = r.choice([3, 5, 9]) if not many else r.choice([15, 100])
        hits = r.choice(colliding()) if r.random() < .5 else None      # different segments with the same hash
        known = []
        for k in range(r.randint(80, 250) if many else r.randint(4, 25)):
            i, j = r.sample(range(n), 2)
            if hits and r.random() < .5:
                i, j = r.choice(hits)
                if r.random() < .5:
                    i, j = j, i
            elif r.random() < .2:
                i, j = i * 1000003, j * 1000003
            y = r.random()
            if y < .5 or not known:
                L.append('sm ins M %d %d %d' % (i, j, r.randint(0, 9)))
                known.append((i, j))
            elif y < .6:
                L.append('sm insn M %d %d %d %d' % (i, j, r.randint(0, 9), r.randint(-1, 9)))
                known.append((i, j))
            elif y < .75:
                a, b = r.choice(known)
                L.append('sm get M %d %d' % r.choice([(a, b), (b, a)]))
            elif y < .82:
                a, b = r.choice(known)
                L.append('sm set M %d %d %d %d' % (r.choice([(a, b), (b, a)]) + (r.randint(0, 9), r.randint(-1, 9))))
            else:
                L.append('sm has M %d %d' % (i, j))
        if r.random() < .3:
            L += ['sm copy N M', 'sm ins N 1 2 77', 'sm has M 2 1', 'sm get N 2 1']
    else:
        L.append('pcmp ' + fmt(dom[:40]))
        n = r.choice([3, 4, 8])
        v = [tuple(r.sample(range(n), 2)) for _ in range(12)]
        L.append('icmp %d %s' % (len(v), ' '.join('%d %d' % e for e in v)))
    return L


MAKE = {'ul': lists, 'maps': maps}


def suite(seed, kind, n):
    return [MAKE[kind](Rnd('%s/%s/%d' % (seed, kind, i)), '%s%d' % (kind, i)) for i in range(n)]
