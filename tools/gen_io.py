"""Files: meshes, regions and maps written, meshes read."""
from geo import *
from gen_mesh import mesh_scenario
import math


def planar_mesh(r):
    """Polygons on a distorted grid, in lattice units: points and element index lists (counter-clockwise or not)."""
    nx, ny = r.randint(1, 4), r.randint(1, 4)
    if r.random() < .05:
        nx, ny = r.randint(3, 14), r.randint(3, 10)
    u = r.choice([ONE, ONE // 4, 3 * ONE + 1])
    off = (r.choice([0, r.randint(-500, 500) * ONE]), r.choice([0, r.randint(-500, 500) * ONE]))
    pts = [(off[0] + i * u + r.randint(-u // 5, u // 5), off[1] + j * u + r.randint(-u // 5, u // 5)) for j in range(ny + 1) for i in range(nx + 1)]
    els = []
    for j in range(ny):
        if r.random() < .08:                   # a whole row
            a = j * (nx + 1)
            els.append([a + i for i in range(nx + 1)] + [a + 2 * nx + 1 - i for i in range(nx + 1)])
            continue
        for i in range(nx):
            a = j * (nx + 1) + i
            q = [a, a + 1, a + nx + 2, a + nx + 1]
            if r.random() < .4:
                k = r.randint(0, 1)
                q = q[k:] + q[:k]
                els += [q[:3], [q[0], q[2], q[3]]]
            elif r.random() < .9:
                els.append(q)
    if not els:
        els = [[0, 1, nx + 2]]
    els = [e[k:] + e[:k] for e in els for k in [r.randrange(len(e))]]
    return pts, els


def used_only(pts, els):
    used = sorted({i for e in els for i in e})
    at = {i: k for k, i in enumerate(used)}
    return [pts[i] for i in used], [[at[i] for i in e] for e in els]


def shuffled(r, pts, els):
    o = list(range(len(pts)))
    r.shuffle(o)
    inv = {v: k for k, v in enumerate(o)}
    return [pts[i] for i in o], [[inv[i] for i in e] for e in els]




def write(r, sid):
    L = ['scenario %s mwrite 20' % sid]
    for _ in range(r.randint(1, 3)):
        if r.random() < .6:
            L.append(r.choice(['cset prec %d' % r.randint(0, 17), 'cset pname %d' % r.choice([6, 10, 16])]))
        pts, els = shuffled(r, *planar_mesh(r))
        if r.random() < .04:
            els = []
        # coordinates of many digits: a lattice point, as a mantissa of 60 bits or less
        ex = r.choice([0, 0, 0, -4, 4])
        fine = r.random() < .6
        out = []
        for p in pts:
            x, y = p[0] << 20, p[1] << 20
            if fine:
                x, y = x + r.randint(-999999, 999999), y + r.randint(-999999, 999999)
            x, y = (v if abs(v) < 1 << 53 else v >> 8 << 8 for v in (x, y))
            out.append('%d %d %d' % (x, y, ex))
        L.append('mwrite poly %d %s %d %s' % (len(pts), ' '.join(out), len(els), ' '.join('%d %s' % (len(e), ' '.join(map(str, e))) for e in els)))
    return L


def write_real(r, sid):
    """A computed mesh, written."""
    S = mesh_scenario(r, sid, 'vor', 32, r.choice([4, 12]))
    L = ['scenario %s mwrite 20' % sid]
    if r.random() < .5:
        L.append('cset prec %d' % r.randint(4, 17))
    L += [l for l in S[1:] if l.startswith('rg_')]
    L.append('mwrite %s R' % r.choice(['diagram', 'triangles']))
    return L


def read(r, sid):
    L = ['scenario %s mread 20' % sid]
    tri = r.random() < .4
    pts, els = planar_mesh(r)
    if tri:
        els = [t for e in els if len(e) < 5 for t in ([e] if len(e) == 3 else [e[:3], [e[0]] + e[2:]])] or [els[0][:3]]
    pts, els = shuffled(r, *(used_only(pts, els) if r.random() < .7 else (pts, els)))
    if r.random() < .4:                      # points that are in the file twice
        n = len(pts)
        for _ in range(r.randint(1, 4)):
            k = r.randrange(n)
            j = r.randint(-2, 2)
            pts.append((pts[k][0] + j, pts[k][1] - j))
            els = [[len(pts) - 1 if i == k and r.random() < .5 else i for i in e] for e in els]
        pts, els = shuffled(r, pts, els)
    if r.random() < .03:
        els = []
    s = r.choice([0, 0, 1, 1, r.randint(2, 50), -3])
    els = [[i + s for i in e] for e in els]
    L.append('mread %s %d %d %s %d %s' % ('tri' if tri else 'poly', s, r.randint(0, 3) + (4 if r.random() < .2 else 0) + (8 if r.random() < .2 else 0) + (16 if r.random() < .2 else 0) + (32 if r.random() < .2 else 0) + (64 if r.random() < .3 else 0) + (128 if r.random() < .1 else 0), fmt(pts), len(els),
                                           ' '.join('%d %s' % (len(e), ' '.join(map(str, e))) for e in els)))
    if r.random() < .1:
        L.append('mmissing')
    return L


def points(l):
    """The points of a command on a region."""
    v = list(map(int, l.split()[2:]))
    return [(v[2 * i + 1], v[2 * i + 2]) for i in range(v[0])]


def regions(r, sid):
    L = ['scenario %s rwrite 20' % sid]
    x = r.random()
    if x < .6:
        S = mesh_scenario(r, sid, 'vor', *r.choice([(32, 0), (32, 4), (32, 12), (32, 12), (200, 90)]))
        L += [l for l in S[1:] if l.startswith('rg_')]
        if r.random() < .3:
            L.append('rg_cleanseeds R')
        ring = points(L[1])
        if not any(l.startswith('rg_phole') for l in L) or r.random() < .5:
            more = r.seeds(ring, [points(l) for l in L if l.startswith('rg_phole')], r.randint(0, 5), outside=0)
            more += r.sample(ring, r.randint(0, 2))
            r.shuffle(more)
            if more:
                L.append('%s R %s' % (r.choice(['rg_addseeds', 'rg_flagseeds']), fmt(more)))
        L.append('rwrite R')
        L.append('twrite R 0')
        L.append('twrite R 1')
    elif x < .8:
        n = r.choice([4, 30, 2000000])
        keys = sorted({tuple(sorted(r.sample(range(n), 2))) for _ in range(r.choice([r.randint(1, 20), r.randint(1, 20), r.randint(1, 20), r.randint(0, 2)]) if r.random() < .93 or n < 30 else r.randint(60, 150))})
        e = [k if r.random() < .5 else k[::-1] for k in keys]
        L.append('smwrite %d %s' % (len(e), ' '.join('%d %d %d %d' % (k[0], k[1], r.randint(0, 3000000), r.choice([-1, r.randint(0, 3000000)])) for k in e)))
    else:
        pts = sorted({(r.randint(-40, 40) * ONE + r.choice([0, ONE // 2, 12345]), r.randint(-40, 40) * ONE) for _ in range(r.choice([r.randint(1, 15), r.randint(1, 15), r.randint(1, 15), r.randint(0, 2)]) if r.random() < .93 else r.randint(60, 150))})
        L.append('pmwrite %d %s' % (len(pts), ' '.join('%d %d %d' % (p + (r.randint(0, 3000000),)) for p in pts)))
    return L


MAKE = {'mwrite': write, 'mwreal': write_real, 'mread': read, 'rwrite': regions}


def suite(seed, kind, n):
    return [MAKE[kind](Rnd('%s/%s/%d' % (seed, kind, i)), '%s%d' % (kind, i)) for i in range(n)]


def large(n):
    return ['scenario large%d mwrite 20' % n, 'mlarge %d' % n]


if __name__ == '__main__':
    import sys
    for s in suite(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print('\n'.join(s))
