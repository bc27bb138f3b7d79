"""Functions, point generators, random functions, circles, configuration."""
from geo import *
from gen_mesh import crossing_hole


def even(x):
    return x // 2 * 2


def fdef(r, exact):
    k = r.choice(['const', 'uni', 'uni', 'disp', 'alt', 'alt', 'sin', 'cos'])
    if k == 'uni':
        return 'uni %d %d' % (r.choice([1, 3, -5, 2, 0, 7]), r.randint(0, 3))
    if k == 'disp':
        return 'disp %d' % even(int(r.uniform(-4, 4) * ONE))
    if k in ('sin', 'cos'):
        return '%s %d %d %d %d' % (k, int(r.uniform(-6, 6) * ONE), r.choice([1, 1, 3, -2, 5]), r.randint(0, 4), r.choice([0, 30, 90, -45, 15, 200, 37]) * 64 + r.choice([0, 0, 32, r.randint(-63, 63)]))
    return k


def gen_scenario(r, sid):
    """Functions shared by generators, which are called again and again."""
    L = ['scenario %s gen 20' % sid]
    exact = r.random() < .7
    names = []
    for i in range(r.randint(1, 4)):
        L.append('fn F%d %s' % (i, fdef(r, exact)))
        names.append('F%d' % i)
    stateful = any(l.split()[2] in ('alt',) for l in L if l.startswith('fn'))
    gens = []
    for i in range(r.randint(1, 3)):
        k = r.choice(['xy', 'xy', 'x', 'y'] + (['both'] if r.random() < .15 else []))
        if k == 'xy':
            a, b = r.choice(names), r.choice(names)
            if a == b:                   # the order of the two calls is not defined
                if L[1 + names.index(a)].split()[2] in ('alt', 'disp'):
                    continue
            L.append('pg G%d xy ref %s ref %s' % (i, a, b))
        else:
            L.append('pg G%d %s ref %s' % (i, k, r.choice(names)))
        if k != 'both':
            gens.append('G%d' % i)
    used = set()
    nxs = [1, 2, 3, 4, 5, 7, 9]
    for _ in range(r.randint(1, 5)):
        if not gens or r.random() < .25:
            f = r.choice(names)
            n = r.randint(1, 12)
            pool = [int(r.uniform(-20, 20) * 16) * 65536 for _ in range(r.randint(1, 5))]
            if stateful and not exact:
                continue
            L.append('apply %s %d %s' % (f, n, ' '.join(str(r.choice(pool)) for _ in range(n))))
            continue
        g = r.choice(gens)
        if stateful and not exact:
            if used:
                continue
            used.add(g)
        nx, ny = r.choice(nxs), r.choice(nxs)
        if r.random() < .04:
            nx, ny = r.choice([(r.randint(20, 60), ny), (nx, r.randint(20, 60)), (r.randint(12, 30), r.randint(12, 30))])
        if exact:
            w, h = r.randint(1, 8 if max(nx, ny) < 12 else 2) * max(nx - 1, 1) * (1 << 16), r.randint(1, 8) * max(ny - 1, 1) * (1 << 16)
            x, y = r.randint(-20, 20) << 16, r.randint(-20, 20) << 16
        else:
            w, h = int(r.uniform(.5, 40) * ONE), int(r.uniform(.5, 40) * ONE)
            x, y = int(r.uniform(-40, 40) * ONE), int(r.uniform(-40, 40) * ONE)
        c = r.randint(0, 3)
        p = [(x, y, x + w, y + h), (x + w, y, x, y + h), (x, y + h, x + w, y), (x + w, y + h, x, y)][c]
        L.append('grid %s %d %d %d %d %d %d %d' % ((g,) + p + (nx, ny, r.choice([0, 0, 2, 5]))))
    return L


def rand_scenario(r, sid):
    L = ['scenario %s rand 20' % sid]
    base = fdef(r, True)
    if r.random() < .35:
        base = 'const'
    L.append('fn B ' + base)
    ks = []
    for i in range(r.randint(1, 3)):
        k = r.choice(['rint', 'rdbl', 'nint', 'ndbl', 'nint', 'ndbl'])
        unit = k in ('rint', 'nint')
        lo = r.randint(-6, 6) if k[0] == 'r' else r.choice([0, 0, 1, 1, 2, -1])
        hi = lo + r.choice([0, 1, 2, 3, 6])
        lo, hi = lo << 20, hi << 20
        if not unit:
            lo += r.randint(0, ONE // 2)
            hi += r.randint(ONE // 2, ONE)
        elif r.random() < .4:                # bounds that are not integers, with some between them
            lo -= r.randint(0, ONE - 1)
            hi += r.randint(0, ONE - 1)
        L.append('fn R%d %s%s %d %d' % (i, k, ' ref B' if k[0] == 'n' else '', lo, hi))
        ks.append('R%d' % i)
    n = r.choice([30, 60, 320])
    for k in ks:
        pool = [int(r.uniform(-20, 20) * 16) * 65536 for _ in range(r.randint(1, 6))]
        L.append('apply %s %d %s' % (k, n, ' '.join(str(r.choice(pool)) for _ in range(n))))
    if base.split()[0] in ('disp', 'alt'):
        L.append('apply B 3 %d %d %d' % (ONE, 2 * ONE, ONE))
    if r.random() < .5 and base.split()[0] not in ('disp', 'alt'):
        L.append('pg G xy ref %s ref %s' % (r.choice(ks), r.choice(ks + ['B'])))
    else:
        L.append('pg G x ref %s' % r.choice(ks))
    L.append('grid G 0 0 %d %d 4 3 %d' % (3 * ONE, 2 * ONE, r.choice([0, 2])))
    for _ in range(r.randint(1, 4)):         # one after the other: the bounds are the ones of every call
        lo = r.choice([0, 0, -3, 5, r.randint(-1000000, 1000000)])
        L.append('uint %d %d %d' % (lo, lo + r.choice([0, 1, 2, 5, 7, 40, 1000000]), r.choice([20, 320])))
    return L


def circle_scenario(r, sid):
    L = ['scenario %s circ 20' % sid]
    for _ in range(r.randint(3, 8)):
        if r.random() < .5:
            L.append('cset grade %d' % r.choice([3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 30, 36, 64, 100, 360, r.randint(3, 400)]))
        c = '%d %d' % (int(r.uniform(-100, 100) * ONE), int(r.uniform(-100, 100) * ONE))
        rad = int(r.choice([r.uniform(.1, 2), r.uniform(2, 100), 1.0, 5.0]) * ONE)
        k = r.choice(['circle', 'chole', 'arc', 'arc'])
        if k == 'arc':
            a, b = r.choice([(0, 90), (0, 360), (90, 0), (-90, 90), (45, 45 + 180), (r.randint(-720, 720), r.randint(-720, 720)), (180, 360), (350, 370)])
            f = (0, 0) if r.random() < .5 else (r.randint(-63, 63), r.randint(-63, 63))
            L.append('arc %s %d %d %d' % (c, rad, a * 64 + f[0], b * 64 + f[1]))
        else:
            L.append('%s %s %d' % (k, c, rad))
    return L


def conf_scenario(r, sid):
    L = ['scenario %s conf 20' % sid, 'conf', 'cnames']
    tol = 10737
    for _ in range(r.randint(4, 12)):
        k = r.choice(['grade', 'scale', 'prec', 'pname', 'tol', 'circle', 'arc', 'peq', 'peq', 'near', 'near', 'meet', 'ang', 'ccut', 'conf', 'print', 'chole'])
        c = '%d %d' % (int(r.uniform(-100, 100) * ONE), int(r.uniform(-100, 100) * ONE))
        if k == 'grade':
            L.append('cset grade %d' % r.randint(3, 60))
        elif k == 'scale':
            L.append('cset scale %d' % r.choice([10, 50, 100, 128, 1000, 4096, 20000, 100000]))
        elif k == 'prec':
            L.append('cset prec %d' % r.randint(1, 17))
        elif k == 'pname':
            L.append('cset pname %d' % r.choice([6, 10, 16]))
        elif k == 'tol':
            tol = r.choice([1 << 12, 10737, 1 << 16, 1 << 20, 1 << 24, 1 << 27, 1 << 29]) + r.randint(0, 7)
            L.append('cset tol %d' % tol)
        elif k in ('circle', 'chole'):
            L.append('%s %s %d' % (k, c, int(r.uniform(1, 50) * ONE)))
        elif k == 'arc':
            L.append('arc %s %d %d %d' % (c, int(r.uniform(1, 50) * ONE), r.randint(-180 * 64, 180 * 64), r.randint(-180 * 64, 360 * 64)))
        elif k == 'peq':
            u = tol >> 10        # the tolerance in lattice units
            d = lambda: r.choice([0, 0, u // 2, u - 2, -(u - 2), u + 3, 2 * u + 3, -u - 3, -u // 2, 5 * u + 9]) if u > 8 else r.choice([0, 0, 5 * u + 9, -5 * u - 9])
            x, y = int(r.uniform(-100, 100) * ONE), int(r.uniform(-100, 100) * ONE)
            L.append('peq %d %d %d %d' % (x, y, x + d(), y + d()))
        elif k in ('near', 'meet') and 1 << 14 <= tol <= 1 << 23:
            u = tol >> 10
            x, y, ang, l = r.uniform(-50, 50), r.uniform(-50, 50), r.uniform(0, 2 * math.pi), r.uniform(.6, 1.9)
            at = lambda s, t: (round((x + s * math.cos(ang) - t * math.sin(ang)) * ONE), round((y + s * math.sin(ang) + t * math.cos(ang)) * ONE))
            gap = r.choice([0, u / 64, u / 16, 12 * u, 16 * u, 40 * u, .04 * ONE]) / ONE * r.choice([-1, 1])
            if k == 'near':
                L.append('tnear %d %d %d %d %d %d' % (at(0, 0) + at(l, 0) + at(r.uniform(.4, .6) * l, gap)))
            elif r.random() < .6:
                s, m = r.uniform(.2, .8) * l, r.uniform(-.8, .8)
                L.append('tmeet %d %d %d %d %d %d %d %d' % (at(0, 0) + at(l, 0) + at(s, gap) + at(s + m, gap + math.copysign(r.uniform(1, 2), gap))))
            else:                # beyond an end
                s = l + abs(gap)
                L.append('tmeet %d %d %d %d %d %d %d %d' % (at(0, 0) + at(l, 0) + at(s, -1) + at(s, r.uniform(.5, 2))))
        elif k == 'ang':
            u = tol >> 10
            x = r.randint(10 << 20, 160 << 20)
            L.append('tang %d %d' % (x, x + r.choice([0, 1, -1]) * r.choice([u // 2, u + 9, 2 * u + 9, u * 10 + 9])))
        elif k == 'ccut' and tol < 1 << 21:
            # a rectangle with a notch; the coordinates are not multiples of 1/scale
            q = lambda a, b: int(r.uniform(a, b) * ONE)
            x0, y0, w, h = q(-50, 0), q(-50, 0), q(20, 60), q(20, 60)
            ring = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]
            a, b, d = q(3, 6), q(11, 15), q(3, 9)
            hole = r.choice([[(x0 + a, y0 - d), (x0 + b, y0 - d), (x0 + b, y0 + d), (x0 + a, y0 + d)],
                             [(x0 - d, y0 + a), (x0 + d, y0 + a), (x0 + d, y0 + b), (x0 - d, y0 + b)],
                             [(x0 + w - d, y0 + h - d), (x0 + w + d, y0 + h - d), (x0 + w + d, y0 + h + d), (x0 + w - d, y0 + h + d)]])
            L.append('ccut %s %s' % (fmt(ring), fmt(hole)))
        elif k == 'print':
            L.append('conf')
    L.append('conf')
    return L


def suite(seed, kind, n):
    f = {'gen': gen_scenario, 'rand': rand_scenario, 'circ': circle_scenario, 'conf': conf_scenario}[kind]
    out = []
    for i in range(n):
        r = Rnd('%s/%s/%d' % (seed, kind, i))
        s = f(r, '%s%d' % (kind, i))
        out.append(s)
    return out
