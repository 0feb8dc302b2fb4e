"""Domains to feed to the code.  Only makes inputs; nothing here decides anything.
A small exact arithmetic in Q(w) is used to keep the generated complexes non-degenerate."""
from fractions import Fraction as Fr
import itertools, math
import numpy as np
import gen
from gen import low

class Q:
    """a + b w, with R w^2 = P w + S"""
    __slots__ = ('a', 'b')
    def __init__(s, a, b=0):
        s.a, s.b = Fr(a), Fr(b)

KP = {'ico': (Fr(1), Fr(1)), 'dode': (Fr(0), Fr(3, 4))}     # w^2 = p w + q
ROOT = {'ico': (1 + 5 ** .5) / 2, 'dode': 3 ** .5 / 2}
def add(x, y): return (x[0] + y[0], x[1] + y[1])
def sub(x, y): return (x[0] - y[0], x[1] - y[1])
def mul(P, x, y):
    p, q = KP[P]
    bb = x[1] * y[1]
    return (x[0] * y[0] + q * bb, x[0] * y[1] + x[1] * y[0] + p * bb)
def iszero(x): return x[0] == 0 and x[1] == 0
def val(P, x): return float(x[0]) + float(x[1]) * ROOT[P]

H = Fr(1, 2)
PERP = {'ico': [[(0, 1), (-1, 0), (-1, 0), (0, 0), (0, -1), (0, 0)], [(-1, 0), (0, 0), (0, 0), (0, 1), (-1, 0), (0, 1)],
                [(0, 0), (0, 1), (0, -1), (1, 0), (0, 0), (-1, 0)]],
        'dode': [[(0, -1), (1, 0), (0, 0), (-H, 0), (0, 0), (0, 0)], [(-H, 0), (0, 0), (1, 0), (0, -1), (0, 0), (0, 0)]]}
PAR = {'ico': [[1, 0, 0, 0, -1, 0], [0, 0, 0, 1, 0, 1], [0, 1, -1, 0, 0, 0]],
       'dode': None}

def qv(v):
    return [(Fr(int(t[0]), int(t[2])), Fr(int(t[1]), int(t[2]))) for t in v]

def perp(P, v):
    x = qv(v)
    out = []
    for row in PERP[P]:
        s = (Fr(0), Fr(0))
        for c, t in zip(row, x):
            s = add(s, mul(P, (Fr(c[0]), Fr(c[1])), t))
        out.append(s)
    return tuple(out)

def det(P, rows):
    if len(rows) == 2:
        return sub(mul(P, rows[0][0], rows[1][1]), mul(P, rows[0][1], rows[1][0]))
    s = (Fr(0), Fr(0))
    for i, j, k, g in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)):
        m = mul(P, mul(P, rows[0][i], rows[1][j]), rows[2][k])
        s = add(s, (g * m[0], g * m[1]))
    return s

def sdet(P, T):
    p = [perp(P, v) for v in T]
    return det(P, [[sub(a, b) for a, b in zip(x, p[0])] for x in p[1:]])

def flat(P, T):
    return iszero(sdet(P, T))

def toarr(v):
    """list of 6 (a,b) Fractions -> (6,3) int array in lowest terms"""
    out = []
    for a, b in v:
        c = math.lcm(a.denominator, b.denominator)
        out.append([int(a * int(c)), int(b * int(c)), int(c)])
    return low(np.array(out, dtype=np.int64))

def vadd(u, v): return [add(a, b) for a, b in zip(u, v)]
def vsub(u, v): return [sub(a, b) for a, b in zip(u, v)]
def vsc(P, c, v): return [mul(P, c, x) for x in v]
ZERO6 = [(Fr(0), Fr(0))] * 6

def addv(u, v):
    return toarr(vadd(qv(u), qv(v)))
def comb(P, vs, ws):
    """sum of weight * vector; weights are (a, b) pairs or rationals"""
    s = ZERO6
    for v, w in zip(vs, ws):
        w = w if isinstance(w, tuple) else (Fr(w), Fr(0))
        s = vadd(s, vsc(P, w, qv(v)))
    return toarr(s)

# ----------------------------------------------------------------- lifts
def par_vec(r, P):
    """a 6D vector with zero perpendicular component"""
    if P == 'ico':
        w = [[(1, 0), (0, 1), (0, 1), (0, 0), (-1, 0), (0, 0)], [(0, 1), (0, 0), (0, 0), (1, 0), (0, 1), (1, 0)],
             [(0, 0), (1, 0), (-1, 0), (0, -1), (0, 0), (0, 1)]]
        s = ZERO6
        for k in w:
            s = vadd(s, vsc(P, (Fr(r.randint(-1, 1)), Fr(0)), [(Fr(a), Fr(b)) for a, b in k]))
        return toarr(s)
    # dode: solve for x1, x2 given x0, x3 rational multiples; the fifth coordinate is purely parallel
    x0, x3 = Fr(r.randint(-1, 1)), Fr(r.randint(-1, 1))
    v = [(x0, Fr(0)), (H * x3, x0), (H * x0, x3), (x3, Fr(0)), (Fr(r.randint(-1, 1)), Fr(0)), (Fr(0), Fr(0))]
    return toarr(v)

def relift(r, P, obj, prob=.4):
    """same positions, other 6D representatives for some of the vertices"""
    out = obj.copy()
    flatv = out.reshape(-1, 6, 3)
    for i in range(len(flatv)):
        if r.random() < prob:
            flatv[i] = addv(flatv[i], par_vec(r, P))
    return out

# ----------------------------------------------------------------- shapes
def basis(r, P, scale=((1, 0), (0, 1), (1, 0), (-1, 0), (1, -1))):
    """DIM independent 6D vectors (axes, or small combinations, times units)"""
    d = 3 if P == 'ico' else 2
    while True:
        bs = []
        for _ in range(d):
            if r.random() < .6:
                e = [0] * 6
                e[r.randrange(6 if P == 'ico' else 4)] = r.choice((1, -1))
            else:
                e = [r.randint(-1, 1) for _ in range(6)]
            if P == 'dode':
                e[4] = e[5] = 0
            s = r.choice(scale) if P == 'ico' else r.choice(((1, 0), (1, 0), (0, 2), (-1, 0)))
            bs.append(toarr(vsc(P, (Fr(s[0]), Fr(s[1])), [(Fr(x), Fr(0)) for x in e])))
        z = np.array([[0, 0, 1]] * 6)
        if not flat(P, [z] + bs):
            return bs

def kuhn(P, o, bs):
    """the cell o + [0,1]^d in basis bs, divided into d! simplices; face-to-face between neighbouring cells"""
    out = []
    for p in itertools.permutations(range(len(bs))):
        v = [o]
        for k in p:
            v.append(addv(v[-1], bs[k]))
        out.append(v)
    return out

def grid(P, o, bs, cells):
    out = []
    for c in cells:
        x = o
        for k, n in enumerate(c):
            for _ in range(abs(n)):
                x = addv(x, bs[k]) if n > 0 else toarr(vsub(qv(x), qv(bs[k])))
        out += kuhn(P, x, bs)
    return np.array(out)

def polycube(r, P, n, o=None, bs=None):
    """n cells grown at random: convex, non-convex, with holes or touching in corners"""
    d = 3 if P == 'ico' else 2
    bs = bs or basis(r, P)
    o = o if o is not None else origin(r, P)
    cells = {(0,) * d}
    while len(cells) < n:
        c = list(r.choice(sorted(cells)))
        c[r.randrange(d)] += r.choice((-1, 1))
        cells.add(tuple(c))
    return grid(P, o, bs, sorted(cells))

def box(P, o, bs, dims):
    return grid(P, o, bs, list(itertools.product(*[range(k) for k in dims])))

def origin(r, P):
    v = gen.vec(r, 6, 1, (1, 1, 2))
    v[:, 1] = [r.choice((0, 0, 1)) for _ in range(6)]
    if P == 'dode':
        v[5] = (0, 0, 1)
    return low(v)

def subset(r, obj, k):
    return obj[sorted(r.sample(range(len(obj)), min(k, len(obj))))]

def star(r, P, obj):
    """divide one simplex at an interior point (rational barycentric weights)"""
    i = r.randrange(len(obj))
    T = obj[i]
    ws = [r.randint(1, 2) for _ in T]
    c = comb(P, list(T), [Fr(w, sum(ws)) for w in ws])
    new = []
    for k in range(len(T)):
        N = T.copy()
        N[k] = c
        new.append(N)
    return np.concatenate([obj[:i], np.array(new), obj[i + 1:]])

def shuffled(r, obj):
    o = obj[r.sample(range(len(obj)), len(obj))]
    return np.array([t[r.sample(range(len(t)), len(t))] for t in o])

def simplex(r, P, m=1, dens=(1, 1, 2)):
    """a non-degenerate simplex with small coordinates"""
    while True:
        s = low(gen.simplex(r, P, m, dens))
        if P == 'dode':
            s[:, 4] = s[0, 4]
        if not flat(P, s):
            return s

def hv(*x):
    return low(np.array([[int(t), 0, 2] for t in x]))
# asymmetric unit of a convex icosahedral domain about the origin (the documentation's first example),
# and of a dodecagonal one
SEED = {'ico': np.array([[hv(0, 0, 0, 0, 0, 0), hv(1, -1, -1, -1, -1, -1), hv(1, -1, -1, 1, -1, -1), hv(1, -1, -1, 0, -1, 0)]])}

def rest(r, P, obj, k):
    """obj without k of its simplices"""
    return subset(r, obj, max(1, len(obj) - k))
