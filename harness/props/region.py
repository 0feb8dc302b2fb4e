"""B01-B04: intersections and asymmetric parts."""
import numpy as np
import core, gen, geo, kin
from core import Session
from fractions import Fraction as Fr

def nv(P):
    return 4 if P == 'ico' else 3

def small(x, lim=40):
    return abs(x).max() <= lim

def pair(r, P, k):
    """two simplices in a special or general position"""
    n = nv(P)
    T = geo.simplex(r, P)
    c = lambda *ws: geo.comb(P, list(T), [Fr(w) for w in ws])
    for _ in range(50):
        S = T.copy()
        i, j, l = r.sample(range(n), 3)
        if k == 0:
            S = geo.simplex(r, P)                                          # general
        elif k == 1:
            S[i] = geo.origin(r, P)                                        # shared facet, same or other side
        elif k == 2:
            S[i], S[j] = geo.origin(r, P), geo.origin(r, P)                # shared edge (vertex)
        elif k == 3:
            for m in range(n):                                             # shared vertex
                if m != i:
                    S[m] = geo.origin(r, P)
        elif k == 4:
            w = [Fr(1, n)] * n                                             # strictly nested
            g = c(*w)
            S = np.array([geo.comb(P, [v, g], [Fr(1, 2), Fr(1, 2)]) for v in T])
        elif k == 5:
            S[i] = geo.comb(P, [T[i], T[j]], [Fr(1, 2), Fr(1, 2)])         # nested, sharing a facet
        elif k == 6:
            S[i] = geo.comb(P, [T[i], T[j]], [Fr(1, 2), Fr(1, 2)])         # nested, touching two edges
            S[l] = geo.comb(P, [T[l], T[j]], [Fr(1, 2), Fr(1, 2)])
        elif k == 7:
            t = geo.toarr(geo.vsub(geo.qv(T[i]), geo.qv(T[j])))            # translated by half an edge: partly common facets
            t = geo.comb(P, [t], [r.choice((Fr(1, 2), Fr(-1, 2), Fr(1)))])
            S = np.array([geo.addv(v, t) for v in T])
        elif k == 8:
            S = np.array([geo.comb(P, [T[i], v], [Fr(2), Fr(-1)]) for v in T])   # point reflection in a vertex: touches there
        elif k == 9:
            g = geo.comb(P, [T[i], T[j]], [Fr(1, 2), Fr(1, 2)])
            S = np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in T])      # reflection in an edge centre
        elif k == 10:
            w = [Fr(0)] * n
            for m in r.sample(range(n), 3):
                w[m] = Fr(1, 3)
            g = c(*w)
            S = np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in T])      # reflection in a face centre
        elif k == 11:
            S = S[r.sample(range(n), n)]                                   # identical
        elif k == 12:
            a = geo.comb(P, [T[i], T[j]], [Fr(3, 2), Fr(-1, 2)])           # shared facet plane, larger
            S[i] = a
        elif k == 13:
            e = Fr(1, r.choice((7, 20, 60, 300)))                               # almost identical: a thin piece is missing
            S[i] = geo.comb(P, [T[i], T[j]], [1 - e, e])
        elif k == 14:
            e = Fr(1, r.choice((7, 20, 60, 300)))                               # a thin piece in common
            S = np.array([geo.comb(P, [T[i], v, T[j]], [Fr(2) - e, Fr(-1), e]) for v in T])
        elif k == 15:
            e = Fr(1, r.choice((5, 16)))                                   # slightly larger about an inner point
            g = c(*[Fr(1, n)] * n)
            S = np.array([geo.comb(P, [v, g], [1 + e, -e]) for v in T])
            S[i] = T[i]
        elif k == 17:
            f = r.choice((Fr(5, 4), Fr(3, 2), Fr(2), Fr(3, 4)))            # every vertex cut off: the most facets and vertices in common
            g = c(*[Fr(1, n)] * n)
            S = np.array([geo.comb(P, [g, v], [1 + f, -f]) for v in T])
            if r.random() < .5:
                S[i] = geo.comb(P, [S[i], S[j]], [Fr(9, 8), Fr(-1, 8)])
        else:
            g = c(*[Fr(1, n)] * n)                                         # crossing without vertices inside the other
            S = np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in T])
        if small(S, 400) and not geo.flat(P, S):
            break
    else:
        S = T.copy()
    u = r.choice((0, 0, 0, 0, 2, 4, 6)) if P == 'ico' else r.choice((0, 0, 0, 0, 1, 2, 3))
    if u:                                                                  # the same on a smaller scale
        f = tuple(map(Fr, gen.unit_pow(P, u)))
        T, S = (np.array([geo.comb(P, [v], [f]) for v in X]) for X in (T, S))
    o = (T, S) if r.random() < .5 else (S, T)
    return tuple(geo.relift(r, P, geo.shuffled(r, np.array([x])), .3 if k % 2 else 0) for x in o)
NPAIR = 18

def domains(r, P, k):
    """two domains (face-to-face complexes)"""
    bs = geo.basis(r, P, scale=((1, 0), (1, 0), (0, 1)))
    o = geo.origin(r, P)
    A = geo.polycube(r, P, 1 if P == 'ico' else r.choice((1, 2, 3)), o, bs)
    half = lambda b: geo.comb(P, [b], [r.choice((Fr(1, 2), Fr(-1, 2)))])
    if k == 0:                       # the same cell, moved by half an edge
        t = half(bs[0])
        B = np.array([[geo.addv(v, t) for v in T] for T in A])
    elif k == 1:                     # moved by a half diagonal, part of it
        t = geo.addv(half(bs[0]), half(bs[1]))
        B = np.array([[geo.addv(v, t) for v in T] for T in A])
        B = geo.rest(r, P, B, r.randint(1, 2))
    elif k == 2:                     # a neighbouring cell (common facet only)
        B = geo.grid(P, o, bs, [(1,) + (0,) * (len(bs) - 1)])
        if r.random() < .5:
            B = np.concatenate([B, A[:1]])
    elif k == 3:                     # refined copy
        B = geo.star(r, P, A)
    elif k == 4:                     # far away
        B = np.array([[geo.addv(geo.addv(v, bs[0]), geo.comb(P, [bs[0]], [Fr(3)])) for v in T] for T in A])
    elif k == 5:                     # a simplex through the domain
        B = np.array([geo.simplex(r, P)])
    elif k == 6:                     # two separate pieces against a big simplex
        B = np.array([geo.comb(P, [o] + bs, [Fr(1)] + [Fr(0)] * len(bs))] +
                     [geo.comb(P, [o, b], [Fr(1), Fr(2)]) for b in bs])[None]
        A = geo.rest(r, P, A, 2)
    elif k == 7:                     # a subset and the whole
        B = geo.subset(r, A, max(1, len(A) // 2))
    elif k == 11:                    # every simplex divided
        A = np.array([geo.simplex(r, P)])
        if r.random() < .5:
            A = np.concatenate([A, [[geo.addv(v, geo.comb(P, [bs[0]], [Fr(7)])) for v in A[0]]]])
        B = np.concatenate([geo.star(r, P, A[i:i + 1]) for i in range(len(A))])
        if r.random() < .4:
            B = B[1:]
    else:
        A = np.array(geo.kuhn(P, o, bs))
        c = geo.comb(P, [o] + bs, [Fr(1)] + [Fr(1, 2)] * len(bs))
        if k == 8:                   # simplices inside the domain, each across several of its cells
            f = r.choice((Fr(1, 2), Fr(1, 3)))
            B = [[geo.comb(P, [c, v], [1 + f, -f]) for v in A[0]]]
            if r.random() < .6:      # and one that reaches out of it
                B.append([geo.comb(P, [c, v], [1 + f, -f]) for v in A[1]])
                B[1][r.randrange(nv(P))] = geo.addv(B[1][0], geo.comb(P, [bs[0]], [Fr(2)]))
            B = np.array(B)
            if any(geo.flat(P, T) for T in B):
                B = B[:1]
        elif k == 9:                 # a larger cell around it, divided otherwise
            f = r.choice((Fr(1, 2), Fr(1)))
            B = np.array([[geo.comb(P, [c, v], [-f, 1 + f]) for v in T] for T in geo.star(r, P, np.array([A[0]]))])
            B = np.concatenate([B, [[geo.comb(P, [c, v], [-f, 1 + f]) for v in T] for T in A[1:]]])
        else:                        # pieces around a hole, and something across the hole
            cells = [(0, 0), (1, 0), (2, 0), (2, 1), (0, 1)] if P == 'dode' else [(0, 0, 0), (1, 0, 0), (1, 1, 0)]
            A = geo.grid(P, o, bs, cells)
            B = np.array([[geo.comb(P, [o] + bs, [Fr(1)] + w) for w in
                           ([Fr(0), Fr(1, 2)] + [Fr(0)] * (len(bs) - 2), [Fr(5, 2), Fr(1, 2)] + [Fr(0)] * (len(bs) - 2),
                            [Fr(3, 2), Fr(3, 2)] + [Fr(1, 2)] * (len(bs) - 2), [Fr(1), Fr(1, 2), Fr(1)][:len(bs)])[:nv(P)]]])
            if geo.flat(P, B[0]):
                B = np.array([geo.simplex(r, P)])
            if P == 'ico':
                A = geo.subset(r, A, 9)
    return geo.shuffled(r, A), geo.shuffled(r, B)
NDOM = 12

def entry(ns, P, how):
    D, I = ns.two_occupation_domains, ns.intsct
    kw = 'kind' if P == 'ico' else 'select'
    if how == 'convex':
        return lambda a, b: D.intersection_convex(a, b)
    if how == 'default':
        return lambda a, b: D.intersection(a, b)
    return lambda a, b: D.intersection(a, b, **{kw: how})

def call(s, ns, P, how, A, B):
    o, x = core.attempt(entry(ns, P, how), A, B)
    s.event('meet', [core.enc(A), core.enc(B)], o, more={'how': str(how)})
    return x

HOW = ('default', 'standard', 'simple', None)
def job_pairs(P, seed, n):
    r = gen.rng(seed, 'pairs', P, n)
    ns = core.pkg(P)
    s = Session('pair%d/%d' % (n % NPAIR, n))
    A, B = pair(r, P, n % NPAIR)
    how = HOW[(n // NPAIR) % 4]
    call(s, ns, P, how, A, B)
    call(s, ns, P, r.choice(HOW), geo.shuffled(r, B), geo.shuffled(r, A))
    if P == 'dode':
        A, B = pair(r, P, (n + 5) % NPAIR)
        call(s, ns, P, how, A, B)
        call(s, ns, P, r.choice(HOW), B, A)
    return [s]

def job_domains(P, seed, n):
    r = gen.rng(seed, 'domains', P, n)
    ns = core.pkg(P)
    s = Session('dom%d/%d' % (n % NDOM, n))
    A, B = domains(r, P, n % NDOM)
    how = HOW[(n // NDOM + n % NDOM) % 4]
    call(s, ns, P, how, A, B)
    call(s, ns, P, 'simple' if how != 'simple' else 'standard', B, A)
    return [s]

def job_sym(P, seed, n):
    """symmetric domains of the kind the library is made for, against a simplex or each other"""
    r = gen.rng(seed, 'symdom', P, n)
    ns = core.pkg(P)
    s = Session('sym/%d' % n)
    z = np.array([[0, 0, 1]] * 6)
    if P == 'dode':
        seed_t = dode_seed(r)
        A = core.attempt(ns.occupation_domain.symmetric, seed_t, z)[1]
        t = np.array([[r.choice((0, 0, 1, -1)), 0, 1] for _ in range(4)] + [[0, 0, 1]] * 2)
        B = core.attempt(ns.occupation_domain.shift, A, t)[1]
        if not (isinstance(A, np.ndarray) and isinstance(B, np.ndarray)):
            s.event('crash')
            return [s]
        call(s, ns, P, HOW[n % 4], seed_t, B)
        call(s, ns, P, HOW[(n + 1) % 4], B, A[:6])
        return [s]
    e = geo.SEED['ico']
    A = core.attempt(ns.occupation_domain.symmetric, e, z)[1]
    if not isinstance(A, np.ndarray):
        s.event('crash')
        return [s]
    t = np.array([[r.choice((0, 0, 1, -1)), 0, r.choice((1, 2))] for _ in range(6)])
    t = gen.low(t)
    B = core.attempt(ns.occupation_domain.shift, A, t)[1]
    call(s, ns, P, HOW[n % 4], e, B)
    return [s]

def dode_seed(r, c=None):
    """a triangle with a corner at the origin spanning one twenty-fourth of the plane; the expanded domain
    is a regular dodecagon for c = 1/2, otherwise star-shaped"""
    z = np.array([[0, 0, 1]] * 6)
    a, b = z.copy(), z.copy()
    a[0], b[3] = (1, 0, 1), (1, 0, 1)
    c = c or r.choice((Fr(1, 2), Fr(1, 2), Fr(3, 5), Fr(1, 3), Fr(1)))
    return np.array([[z, a, geo.comb('dode', [a, b], [c, c])]])

def poke(r, P):
    """two simplices: a corner, an edge or a facet of the second reaches into the first through one of its facets"""
    d = 3 if P == 'ico' else 2
    T = geo.simplex(r, P)
    m = r.randint(1, d)                         # vertices inside
    def pt(inside):
        while True:
            w = [Fr(r.randint(1, 4)) for _ in range(d + 1)]
            w = [x / sum(w) for x in w]
            if not inside:                      # beyond the facet opposite to vertex 0
                e = Fr(r.randint(1, 3), 3)
                w = [-e] + [x * (1 + e) / (1 - w[0]) for x in w[1:]]
            return geo.comb(P, list(T), w)
    while True:
        B = np.array([pt(i < m) for i in range(d + 1)])
        if not geo.flat(P, B):
            break
    return np.array([T]), geo.shuffled(r, B[None])

def convex(r, P, k):
    if k % 8 == 7:
        A, B = poke(r, P)
        return (A, B) if r.random() < .5 else (B, A)
    if k % 4 == 0:
        return pair(r, P, (k // 4) % NPAIR)
    bs = geo.basis(r, P, scale=((1, 0), (1, 0), (0, 1)))
    o = geo.origin(r, P)
    A = geo.kuhn(P, o, bs)
    A = np.array(A)
    if k % 4 == 1:
        t = geo.comb(P, bs, [r.choice((Fr(0), Fr(1, 2), Fr(-1, 2), Fr(1))) for _ in bs])
        B = np.array([[geo.addv(v, t) for v in T] for T in A])
    elif k % 4 == 2:
        B = np.array([geo.simplex(r, P)])
    else:
        t = geo.comb(P, bs, [Fr(1)] + [r.choice((Fr(0), Fr(1, 2))) for _ in bs[1:]])   # touching from outside
        B = np.array([[geo.addv(v, t) for v in T] for T in A])
        if r.random() < .5:
            B = np.array([geo.comb(P, [o] + bs, [Fr(1)] + [Fr(0)] * len(bs))] +
                         [geo.comb(P, [o, b], [Fr(1), Fr(3, 2)]) for b in bs])[None]
    if k % 2:
        A, B = geo.relift(r, P, A, .2), B
    return geo.shuffled(r, A), geo.shuffled(r, B)

def job_convex(P, seed, n):
    r = gen.rng(seed, 'convex', P, n)
    ns = core.pkg(P)
    s = Session('convex%d/%d' % (n % 4, n))
    A, B = convex(r, P, n)
    call(s, ns, P, 'convex', A, B)
    call(s, ns, P, 'convex', B, A)
    call(s, ns, P, 'standard', A, B)
    return [s]

def job_convex_pair(P, seed, n):
    """every kind of pair of simplices, one of them divided"""
    r = gen.rng(seed, 'convexpair', P, n)
    ns = core.pkg(P)
    s = Session('convexpair%d/%d' % (n % NPAIR, n))
    A, B = pair(r, P, n % NPAIR)
    if n % 3 == 1 and abs(A).max() < 60:
        A = geo.shuffled(r, geo.star(r, P, A))
    call(s, ns, P, 'convex', A, B)
    call(s, ns, P, 'convex', B, A)
    return [s]

def job_convex_sym(P, seed, n):
    r = gen.rng(seed, 'convexsym', P, n)
    ns = core.pkg(P)
    s = Session('convexsym/%d' % n)
    z = np.array([[0, 0, 1]] * 6)
    e = geo.SEED['ico'] if P == 'ico' else dode_seed(r)
    A = core.attempt(ns.occupation_domain.symmetric, e, z)[1]
    if not isinstance(A, np.ndarray):
        s.event('crash')
        return [s]
    m = 6 if P == 'ico' else 4
    t = gen.low(np.array([[r.choice((0, 0, 1, -1)), 0, r.choice((1, 2))] for _ in range(m)] + [[0, 0, 1]] * (6 - m)))
    B = core.attempt(ns.occupation_domain.shift, A, t)[1]
    if P == 'dode' and not convex_dode(A):
        A, B = np.array([A[0]]), np.array([B[0]])
    call(s, ns, P, 'convex', A, B)
    return [s]

def convex_dode(A):
    from props import comb
    return comb.geo_convex('dode', A)

def job_cone(P, seed, n):
    r = gen.rng(seed, 'cone', P, n)
    ns = core.pkg(P)
    OD = ns.occupation_domain
    s = Session('cone%d/%d' % (n % 4, n))
    z = np.array([[0, 0, 1]] * 6)
    e = geo.SEED['ico'][0]
    if n % 4 == 0:                       # the fundamental cone of a symmetric domain about any site
        c = gen.low(gen.cen(r)) if n else z
        c = c if small(c, 3) else z
        A = core.attempt(OD.shift, geo.SEED['ico'], c)[1]
        A = core.attempt(OD.symmetric, A, c)[1]
        if not isinstance(A, np.ndarray):
            s.event('crash')
            return [s]
        vs = e[1:][r.sample(range(3), 3)]
        s.event('whole', [core.enc(A)])
        x = s.call('cone', OD.asymmetric, A, c, vs)
        if isinstance(x, np.ndarray):
            o, _ = core.attempt(OD.symmetric, x, c)
            s.event('expanded', [core.enc(x)], o)
        return [s]
    if n % 4 == 1:
        A = np.array([geo.simplex(r, P)])
    elif n % 4 == 2:
        A = geo.polycube(r, P, 1)
    else:
        A = geo.star(r, P, np.array([geo.simplex(r, P)]))
    c = r.choice((z, A[0][0], geo.origin(r, P), geo.comb(P, list(A[0]), [Fr(1, 4)] * 4)))
    vs = np.array(geo.basis(r, P, scale=((1, 0), (-1, 0), (0, 1))))
    if r.random() < .3:                  # short vectors: the cut at five times the vectors matters
        vs = np.array([geo.comb(P, [v], [Fr(1, 10)]) for v in vs])
    s.call('cone', OD.asymmetric, A, c, vs)
    return [s]

def siblings(r, P, B, base=None):
    """domains that share length, first simplex, centroids ... with B, in pieces that do not overlap"""
    n = nv(P)
    out = []
    mid = lambda T: geo.comb(P, list(T), [Fr(1, n)] * n)
    def scale(T, f):
        g = mid(T)
        return np.array([geo.comb(P, [v, g], [f, 1 - f]) for v in T])
    far = np.array([[9, 0, 1]] + [[0, 0, 1]] * 5)
    if len(B) > 1:                     # the first simplex stays, the others are elsewhere, smaller, or gone
        out.append(np.array([B[0]] + [[geo.addv(v, far) for v in T] for T in B[1:]]))
        out.append(np.array([B[0]] + [scale(T, Fr(1, 2)) for T in B[1:]]))
        out.append(np.array(list(B[:-1]) + [scale(B[-1], Fr(1, 2))]))
        out.append(np.array([scale(B[0], Fr(1, 2))] + list(B[1:])))
        out.append(np.array([[geo.addv(v, far) for v in B[0]]] + list(B[1:])))
    out.append(np.array([scale(T, Fr(1, 2)) for T in B]))                                   # same centroids
    g = mid(B[0])
    out.append(np.array([[geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in T] for T in B]))    # mirrored about a centroid
    t = geo.comb(P, [B[0][0], B[0][1]], [Fr(1, 2), Fr(-1, 2)])
    out.append(np.array([[geo.addv(v, t) for v in T] for T in B]))
    out.append(B[::-1].copy())
    y = B.copy(); y[..., 2] *= 2; out.append(gen.low(y))                                    # same numerators
    return [y for y in out if small(y, 60)]

def job_kin(P, seed, n):
    r = gen.rng(seed, 'meetkin', P, n)
    ns = core.pkg(P)
    s = Session('kin/%d' % n)
    A, B = domains(r, P, (7, 0, 2, 5, 8, 1)[n % 6])
    A, B = geo.subset(r, A, 2 if P == 'ico' else 4), geo.subset(r, B, 3 if P == 'ico' else 4)
    how = HOW[n % 4]
    kin.meet(r, P, lambda y: call(s, ns, P, how, A, y), B, siblings(r, P, B), most=6)
    kin.meet(r, P, lambda y: call(s, ns, P, how, y, B), A, siblings(r, P, A), most=6)
    # each of them against its own last and first simplex
    s2 = Session('kin-own/%d' % n)
    B = B if len(B) > 1 else geo.subset(r, geo.polycube(r, P, 1 if P == 'ico' else 2), 3)
    fam = siblings(r, P, B)
    def own(y):
        for k in {0, len(y) - 1}:
            call(s2, ns, P, how, y[k:k + 1], y)
            call(s2, ns, P, how, y, y[k:k + 1])
    kin.meet(r, P, own, B, fam, most=5)
    return [s, s2]

def job_convex_kin(P, seed, n):
    r = gen.rng(seed, 'convkin', P, n)
    ns = core.pkg(P)
    s = Session('kin/%d' % n)
    A, B = convex(r, P, (4, 1, 2, 7)[n % 4])
    from props import comb
    ok = lambda y: comb.geo_convex(P, y)
    kin.meet(r, P, lambda y: call(s, ns, P, 'convex', A, y), B, siblings(r, P, B), fit=ok)
    kin.meet(r, P, lambda y: call(s, ns, P, 'convex', y, B), A, siblings(r, P, A), fit=ok)
    return [s]

def job_cone_kin(P, seed, n):
    r = gen.rng(seed, 'conekin', P, n)
    OD = core.pkg(P).occupation_domain
    s = Session('kin/%d' % n)
    A = np.array([geo.simplex(r, P)]) if n % 2 else geo.subset(r, geo.polycube(r, P, 1), 2)
    c = r.choice((A[0][0], geo.comb(P, list(A[0]), [Fr(1, 4)] * 4)))
    vs = np.array(geo.basis(r, P, scale=((1, 0), (-1, 0), (0, 1))))
    kin.meet(r, P, lambda y: s.call('cone', OD.asymmetric, y, c, vs), A, siblings(r, P, A), most=5)
    y = c.copy(); y[..., 2] *= 2
    kin.meet(r, P, lambda d: s.call('cone', OD.asymmetric, A, d, vs), c, [gen.low(y), A[-1][1], geo.comb(P, [c], [Fr(-1)])])
    neg = vs.copy(); neg[..., :2] *= -1
    one = vs.copy(); one[0][..., :2] *= -1
    kin.meet(r, P, lambda w: s.call('cone', OD.asymmetric, A, c, w), vs, [neg, one, vs[::-1].copy()])
    return [s]

def run_meet(c, P):
    q = c.tier == 'quick'
    js = [(P, 'job_pairs', {'seed': c.seed, 'n': i}) for i in range((136 if P == 'ico' else 170) if q else 1360)]
    js += [(P, 'job_domains', {'seed': c.seed, 'n': i}) for i in range(48 if q else 288)]
    js += [(P, 'job_kin', {'seed': c.seed, 'n': i}) for i in range(12 if q else 90)]
    js += [(P, 'job_sym', {'seed': c.seed, 'n': i}) for i in range((4 if P == 'ico' else 12) if q else 40)]
    c.traces_of('ConfReg', core.run_jobs('region', js))

def run_convex(c):
    q = c.tier == 'quick'
    js = []
    for P in ('ico', 'dode'):
        js += [(P, 'job_convex', {'seed': c.seed, 'n': i}) for i in range((32 if P == 'ico' else 64) if q else 320)]
        js += [(P, 'job_convex_pair', {'seed': c.seed, 'n': i}) for i in range(2 * NPAIR if q else 10 * NPAIR)]
        js += [(P, 'job_convex_kin', {'seed': c.seed, 'n': i}) for i in range(8 if q else 80)]
        js += [(P, 'job_convex_sym', {'seed': c.seed, 'n': i}) for i in range(3 if q else 20)]
    c.traces_of('ConfReg', core.run_jobs('region', js))

def run_cone(c):
    q = c.tier == 'quick'
    k = [('ico', 'job_cone_kin', {'seed': c.seed, 'n': i}) for i in range(8 if q else 60)]
    c.traces_of('ConfReg', core.run_jobs('region', k + [('ico', 'job_cone', {'seed': c.seed, 'n': i}) for i in range(32 if q else 240)]))
