"""Vectors, angles, lists, lines and texts."""
from geo import *

CHARS = [32] * 4 + [9, 10, 13, 11, 12, 44, 44] + list(range(48, 58)) + [45, 46, 101, 65, 122]


def number(r):
    return r.choice([0, r.randint(-9, 9) * ONE, r.randint(-900, 900) * 65536, r.randint(-(1 << 29), 1 << 29), r.randint(-3, 3)])


def basics(r, sid):
    L = ['scenario %s basics %d' % (sid, r.choice([20, 20, 20, 30, 40]))]
    vecs = L[0].split()[-1] != '20'          # vectors of other magnitudes
    for _ in range(r.randint(4, 9)):
        x = 0 if vecs else r.random()
        if x < .35:
            p, q = (number(r), number(r)), (number(r), number(r))
            if r.random() < .2:
                q = r.choice([p, (p[0], q[1]), (q[0], p[1])])
            if p != (0, 0):
                L.append('vec %d %d %d %d %d' % (p + q + (r.choice([-32, -16, -5, 0, 8, 16, 24, 40]),)))
        elif x < .5:
            v = [r.choice([r.randint(-359, 360) * 1024, r.choice([-270, -180, -90, 0, 90, 180, 270, 360]) * 1024, r.randint(-368639, 368640)]) for _ in range(8)]
            L.append('deg %d %s' % (len(v), ' '.join(map(str, v))))
        elif x < .62:
            n, m = r.choice([(2, 9), (4, 9), (9, 9), (40, 60), (1000000, 200)])
            v = [r.randint(-n, n) for _ in range(r.randint(0, m))]
            w = [r.choice(v) if v and r.random() < .3 else r.randint(-n, n) for _ in range(r.randint(0, m))]
            L.append('find %d %s %d %s' % (len(v), ' '.join(map(str, v)), len(w), ' '.join(map(str, w))))
        elif x < .75:
            v = [r.choice(CHARS) for _ in range(r.choice([r.randint(0, 24), r.randint(0, 24), r.randint(200, 700)]))]
            L.append('words %d %s' % (len(v), ' '.join(map(str, v))))
        elif x < .9:
            i, j = (r.choice([0, -1, r.randint(0, 99), r.randint(100000, 2000000000)]) for _ in range(2))
            # numbers that are written without an exponent
            p, q = [tuple(r.choice([0, 1, -1]) * r.randint(1 << 8, 999999 << 10) for _ in range(2)) for _ in range(2)]
            L.append('texts %d %d %d %d %d %d %d' % ((i, j) + p + q + (r.randint(0, 17),)))
        elif x < .94:
            v = [(r.randint(-9, 9), r.randint(-999, 999)) for _ in range(r.choice([r.randint(0, 6), r.randint(0, 6), r.randint(0, 40)]))]
            L.append('entries %d %s' % (len(v), ' '.join('%d %d' % e for e in v)))
        else:
            v = [r.randint(0, 99) for _ in range(r.randint(0, 3))]
            L.append('edge %d %d %d %s' % (r.randint(0, 999), r.randint(0, 999), len(v), ' '.join(map(str, v))))
    return L


def suite(seed, n):
    return [basics(Rnd('%s/basics/%d' % (seed, i)), 'basics%d' % i) for i in range(n)]
