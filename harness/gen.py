"""Inputs.  Everything is derived from an explicit random.Random."""
import random, zlib
import numpy as np

def rng(seed, *tags):
    return random.Random('%s|%s' % (seed, '|'.join(map(str, tags))))

def num(r, m=3, dens=(1, 1, 1, 2, 3)):
    return [r.randint(-m, m), r.randint(-m, m), r.choice(dens)]

def vec(r, n=6, m=3, dens=(1, 1, 1, 2, 3)):
    return np.array([num(r, m, dens) for _ in range(n)], dtype=np.int64)

def cen(r):
    """centres a user would use: origin, lattice points, body centres, edge centres, and generic ones"""
    k = r.randrange(7)
    if k == 0:
        return np.array([[0, 0, 1]] * 6)
    if k == 1:
        return np.array([[r.randint(-2, 2), 0, 1] for _ in range(6)])
    if k == 2:
        return np.array([[1, 0, 2]] * 6)
    if k == 3:
        return np.array([[r.choice((0, 1)), 0, 2] if r.random() < .5 else [0, 0, 1] for _ in range(6)])
    if k == 4:                                    # multiples of the irrational unit alone
        return np.array([[0, r.randint(-2, 2), r.choice((1, 1, 2))] for _ in range(6)])
    if k == 5:                                    # a single coordinate
        c = np.array([[0, 0, 1]] * 6)
        c[r.randrange(5)] = [[0, 1, 1], [0, -1, 2], [1, 0, 2], [-1, 0, 1]][r.randrange(4)]
        return c
    return vec(r, 6, 3, (1, 2, 3))

def simplex(r, P, m=2, dens=(1, 1, 2)):
    a = np.array([vec(r, 6, m, dens) for _ in range(4 if P == 'ico' else 3)])
    if P == 'dode':
        a[:, 5] = (0, 0, 1)      # the sixth axis is formal
    return a

def wide(r, *sh, e=45, dens=(1, 1, 2)):
    """numbers far beyond 32 bits and beyond the integers floating point holds exactly"""
    n = 1
    for k in sh:
        n *= k
    return np.array([num(r, 1 << r.choice((20, 33, e)), dens) for _ in range(n)], dtype=np.int64).reshape(*sh, 3)

def low(a):
    """the same numbers in lowest terms"""
    g = np.gcd.reduce(a, axis=-1)
    a = a // g[..., None]
    return a * np.where(a[..., 2] < 0, -1, 1)[..., None]

def unit_pow(P, k):
    """(a, b) of tau^-k resp. (2-sqrt3)^k"""
    a, b = 1, 0
    for _ in range(abs(k)):
        if P == 'ico':
            a, b = (b - a, a) if k > 0 else (b, a + b)          # (a+b tau)(tau-1); tau-1 = 1/tau
        else:
            a, b = (2 * a - (3 * b) // 2, 2 * b - 2 * a) if k > 0 else (2 * a + (3 * b) // 2, 2 * b + 2 * a)
    return a, b

def thin(r, P, total):
    """a simplex with edges scaled by powers of the unit: large cancelling components, tiny measure"""
    d = 3 if P == 'ico' else 2
    while True:
        base = [[r.randint(-1, 1) for _ in range(6)] for _ in range(d)]
        if P == 'dode':
            for b in base:
                b[5] = 0
        ks = [r.randint(0, total) for _ in range(d - 1)]
        ks.sort()
        ks = [y - x for x, y in zip([0] + ks, ks + [total])]
        vs = [np.array([[0, 0, 1]] * 6)]
        for b, k in zip(base, ks):
            u, w = unit_pow(P, k)
            vs.append(np.array([[x * u, x * w, 1] for x in b]))
        if all(any(b) for b in base):
            break
    r.shuffle(vs)
    return np.array(vs)
