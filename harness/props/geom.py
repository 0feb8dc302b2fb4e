"""G01, G02: predicates and intersections of segments."""
import random
import numpy as np
import core, gen, geo, kin
from core import Session
from fractions import Fraction as Fr

def W(P, *ws):
    return [w if isinstance(w, tuple) else (Fr(w), Fr(0)) for w in ws]

def scaled(r, P, obj, ks=None):
    """the same configuration, made smaller by a power of the unit (coordinates stay moderate)"""
    k = r.choice(ks or ((0, 0, 0, 2, 4, 7) if P == 'ico' else (0, 0, 0, 1, 2, 3)))
    if not k:
        return obj
    u = gen.unit_pow(P, k)
    u = (Fr(u[0]), Fr(u[1]))
    return np.array([geo.toarr(geo.vsc(P, u, geo.qv(v))) for v in obj.reshape(-1, 6, 3)]).reshape(obj.shape)

FR = [Fr(0), Fr(0), Fr(1), Fr(1, 2), Fr(1, 3), Fr(1, 4), Fr(2, 3)]
OUT = [Fr(1, 1000), Fr(1, 50), Fr(1, 3), Fr(1), Fr(2), Fr(1, 5000)]
def weights(r, n, kind, m=4, OUT=OUT):
    """barycentric weights: 'in', 'face' (one zero), 'vertex', 'edge', 'out' (one negative)"""
    if kind == 'vertex':
        w = [Fr(0)] * n
        w[r.randrange(n)] = Fr(1)
        return w
    if kind == 'near':                            # next to a vertex, beyond one or two of the facets there, or inside
        w = [Fr(0)] * n
        w[r.randrange(n)] = Fr(1)
        for i in r.sample(range(n), r.randint(1, n - 1)):
            e = r.choice((Fr(1, 50), Fr(1, 400), Fr(1, 2500))) * r.choice((1, 1, -1))
            j = w.index(max(w))
            if i != j:
                w[i] += -e; w[j] += e
        return w
    w = [Fr(r.randint(1, m)) for _ in range(n)]
    zero = {'in': 0, 'face': 1, 'edge': n - 2, 'out': 0, 'outface': 1}[kind]
    for i in r.sample(range(n), zero):
        w[i] = Fr(0)
    t = sum(w)
    w = [x / t for x in w]
    if kind.startswith('out'):
        i, j = r.sample([k for k in range(n) if w[k] > 0] or [0, 1], 2) if sum(x > 0 for x in w) > 1 else r.sample(range(n), 2)
        d = w[i] + r.choice(OUT)
        w[i] -= d
        w[j] += d
    return w

def num(P, v):
    """perpendicular position as floats"""
    p = [geo.val(P, c) for c in geo.perp(P, v)]
    return np.array(p if len(p) == 3 else p + [geo.val(P, geo.qv(v)[5])])

def fnum(P, vs):
    return np.array([num(P, v) for v in vs])

def via(s, op, fn, exact, given):
    """record exact arguments while the function gets their floating-point views"""
    o, _ = core.attempt(fn, *given)
    s.event(op, [core.enc(x) for x in exact], o)

def job_pred(P, seed, n):
    r = gen.rng(seed, 'pred', P, n)
    ns = core.pkg(P)
    N, U, M = ns.numericalc, ns.utils, ns.math1
    d = 3 if P == 'ico' else 2
    tau = N.inside_outside_tetrahedron_tau if P == 'ico' else N.inside_outside_triangle_tau
    flt = N.inside_outside_tetrahedron if P == 'ico' else N.inside_outside_triangle
    s = Session('pred/%d' % n)
    T = scaled(r, P, geo.simplex(r, P))
    for kind in ('in', 'face', 'edge', 'vertex', 'out', 'out', 'outface', 'out', 'near', 'near', 'near'):
        p = geo.comb(P, list(T), weights(r, d + 1, kind))
        if r.random() < .4:
            p = geo.addv(p, geo.par_vec(r, P))
        s.call('in_simplex', tau, p, T)
        via(s, 'in_simplex', flt, (p, T), (num(P, p), fnum(P, T)))
    for _ in range(3):
        p = geo.origin(r, P)
        s.call('in_simplex', tau, p, T)
    # domains: non-convex, with a point in the missing part, on shared facets, outside
    x = scaled(r, P, geo.rest(r, P, geo.polycube(r, P, r.choice((1, 2))), r.randint(0, 3)))
    for kind in ('in', 'face', 'vertex', 'out', 'out', 'near', 'near'):
        p = geo.comb(P, list(x[r.randrange(len(x))]), weights(r, d + 1, kind))
        s.call('in_domain', N.inside_outside_obj_tau, p, x)
        via(s, 'in_domain', N.inside_outside_obj, (p, x), (num(P, p), np.array([fnum(P, t) for t in x])))
    if n % 10 == 0:                   # many simplices, many points
        bs = geo.basis(r, P)
        y = geo.shuffled(r, geo.box(P, geo.origin(r, P), bs, (4, 3, 2) if d == 3 else (9, 8)))
        for kind in ('in', 'face', 'out', 'out'):
            s.call('in_domain', N.inside_outside_obj_tau, geo.comb(P, list(y[r.choice((0, -1, len(y) // 2))]), weights(r, d + 1, kind)), y)
        b3 = [geo.origin(r, P) for _ in range(3)]
        if P == 'dode':
            for b in b3:
                b[5] = gen.low(np.array([gen.num(r, 2)]))[0]
        q = [geo.comb(P, b3, weights(r, 3, r.choice(('in', 'out', 'face')))) for _ in range(40)]
        o = q[7].copy(); o[5 if P == 'dode' else 2] += np.array([1, 0, 0]) * o[5 if P == 'dode' else 2][2]
        for z in (np.array(q), np.array(q[:39] + [o]), np.array([o] + q[:20])):
            s.call('coplanar', M.coplanar_check, z)
            s.call('coplanar', N.coplanar_check_numeric_tau, z)
    # segments
    for _ in range(2):
        g = T[r.sample(range(d + 1), 2)]
        for kind in ('in', 'vertex', 'out', 'out'):
            p = geo.comb(P, list(g), weights(r, 2, kind))
            if r.random() < .4:
                p = geo.addv(p, geo.par_vec(r, P))
            s.call('on_segment', N.point_on_segment, p, g)
        w = weights(r, 3, r.choice(('in', 'out')))
        s.call('on_segment', N.point_on_segment, geo.comb(P, [g[0], g[1], T[0] if r.random() < .3 else geo.origin(r, P)],
               [w[0] + w[2] - Fr(1, r.choice((20, 400, 3000))), w[1], Fr(1, r.choice((20, 400, 3000)))]), g)
    # triangles
    t3 = T[r.sample(range(d + 1), 3)]
    for kind in ('in', 'face', 'vertex', 'out', 'outface', 'near', 'near'):
        p = geo.comb(P, list(t3), weights(r, 3, kind))
        s.call('on_triangle', N.on_out_surface, p, t3)
    if P == 'ico':
        apex = [v for v in T if not any(np.array_equal(v, u) for u in t3)][0]
        for h in (Fr(1, 4), Fr(-1, 2), Fr(1)):
            w = weights(r, 3, 'in')
            p = geo.comb(P, list(t3) + [apex], [w[0] - h, w[1], w[2], h])
            s.call('on_triangle', N.on_out_surface, p, t3)
    # coplanarity, under many orders and generator states
    base = [geo.origin(r, P) for _ in range(3)] if r.random() < .6 else list(t3)
    if P == 'dode' and r.random() < .7:
        for b in base:
            b[5] = gen.low(np.array([gen.num(r, 2)]))[0]
    pts = base + [geo.comb(P, base, weights(r, 3, r.choice(('in', 'out', 'face')))) for _ in range(r.choice((1, 2, 3)))]
    off = geo.origin(r, P)
    if P == 'dode':
        off[5] = (r.choice((1, 2)), 0, 1)
    for q in (pts, pts + [off], pts[:3], pts[:2], [pts[0], pts[1], geo.comb(P, pts[:2], [Fr(1, 2), Fr(1, 2)]), geo.comb(P, pts[:2], [Fr(2), Fr(-1)])],
              [pts[0], pts[1], geo.comb(P, pts[:2], [Fr(1, 2), Fr(1, 2)]), off, pts[2]]):
        for k in range(3):
            q = np.array([q[i] for i in r.sample(range(len(q)), len(q))])
            random.seed(n + k); np.random.seed(n + k)
            s.call('coplanar', M.coplanar_check, q)
            s.call('coplanar', N.coplanar_check_numeric_tau, q)
            via(s, 'coplanar', N.coplanar_check_numeric, (q,), (fnum(P, q),))
    for a, b in ((np.array(pts[:3]), np.array(pts[-3:])), (np.array(pts[:3]), np.array([pts[1], off, pts[2]])),
                 (np.array(pts[:3]), np.array([off, pts[-1], pts[0]])), (T[:3], T[1:] if P == 'ico' else T[::-1])):
        if len({geo.perp(P, v) for v in a}) == 3 and len({geo.perp(P, v) for v in b}) == 3:
            s.call('coplanar2', U.coplanar_check_two_triangles, a, b)
    return [s]

def wt(r, n, kind):
    return weights(r, n, kind, 2, [Fr(1), Fr(1, 2), Fr(1, 10)])

LIM = 400

def job_seg(P, seed, n):
    r = gen.rng(seed, 'seg', P, n)
    ns = core.pkg(P)
    N, I = ns.numericalc, ns.intsct
    s = Session('seg/%d' % n)
    for rep in range(2):
        T = scaled(r, P, geo.simplex(r, P), (0, 0, 1, 3) if P == 'ico' else (0, 0, 1))
        tri = T[r.sample(range(len(T)), 3)]
        apex = [v for v in T if not any(np.array_equal(v, u) for u in tri)]
        segs = []
        for kind in ('in', 'face', 'vertex', 'edge', 'out', 'outface', 'in', 'out'):
            p = geo.comb(P, list(tri), wt(r, 3, kind))
            # a segment through p in the direction of some other point
            if P == 'ico':
                q = r.choice((apex[0], apex[0], geo.origin(r, P)))
            else:
                q = r.choice((tri[0], tri[1], geo.origin(r, P), geo.comb(P, list(tri), [Fr(3, 4), Fr(-1, 4), Fr(1, 2)])))
            if geo.perp(P, q) == geo.perp(P, p):
                continue
            for t in r.sample((Fr(-1), Fr(0), Fr(-1, 3), Fr(1, 10), Fr(1, 4), Fr(-2)), 2):
                a = geo.comb(P, [p, q], [1 - t, t])
                e = r.choice((Fr(1), Fr(2), Fr(1, 2)))
                b = geo.comb(P, [p, q], [1 - e, e])
                if r.random() < .3:
                    b = geo.addv(b, geo.par_vec(r, P))
                segs.append(np.array([a, b] if r.random() < .5 else [b, a]))
        if P == 'ico':
            # lying in the plane, parallel to it, and along an edge
            segs.append(np.array([geo.comb(P, list(tri), wt(r, 3, 'in')), geo.comb(P, list(tri), wt(r, 3, 'out'))]))
            segs.append(np.array([tri[0], tri[1]]))
            segs.append(np.array([apex[0], geo.comb(P, [apex[0], tri[0], tri[1]], [Fr(1), Fr(-1), Fr(1)])]))
        else:
            segs.append(np.array([tri[0], tri[1]]))
            segs.append(np.array([geo.comb(P, list(tri), wt(r, 3, 'in')), geo.comb(P, list(tri), wt(r, 3, 'in'))]))
            segs.append(np.array([geo.comb(P, list(tri), [Fr(2), Fr(-1), Fr(0)]), geo.comb(P, list(tri), [Fr(-1), Fr(2), Fr(0)])]))
        segs = [g for g in segs if geo.perp(P, g[0]) != geo.perp(P, g[1])]
        # the exact formulas multiply many coordinates: keep the results inside 64 bits
        segs = [g for g in segs if abs(g).max() <= LIM]
        for g in segs:
            a, b = ('seg_tri', 'seg_tri_point') if P == 'ico' else ('seg_outline', 'seg_outline_points')
            s.call(a, N.check_intersection_segment_surface_numerical_6d_tau, g, tri)
            via(s, a, N.check_intersection_segment_surface_numerical, (g, tri), (fnum(P, g), fnum(P, tri)))
            s.call(b, I.intersection_segment_surface, g, tri)
            h = tri[r.sample(range(3), 2)]
            if r.random() < .5:
                m = geo.comb(P, list(g), wt(r, 2, r.choice(('in', 'vertex', 'in', 'out'))))
                h = np.array([geo.comb(P, [m, tri[0]], [Fr(3, 2), Fr(-1, 2)]), tri[0]])
                if r.random() < .3:
                    h = np.array([m, geo.origin(r, P)])
                if geo.perp(P, h[0]) == geo.perp(P, h[1]):
                    continue
            if abs(h).max() > LIM:
                continue
            for x, y in ((g, h), (h, g)):
                for f, u in ((N.check_intersection_two_segment_numerical_6d_tau, (x, y)),
                             (N.check_intersection_two_segment_numerical, (fnum(P, x), fnum(P, y)))):
                    o, v = core.attempt(f, *u)
                    if P == 'ico' and o['k'] == 'int':
                        o = core.enc(int(v) != 3)
                    s.event('seg_seg', [core.enc(x), core.enc(y)], o)
                s.call('seg_seg_point', I.intersection_two_segment, x, y)
    return [s]

def job_pred_kin(P, seed, n):
    r = gen.rng(seed, 'predkin', P, n)
    ns = core.pkg(P)
    N, U, M = ns.numericalc, ns.utils, ns.math1
    d = 3 if P == 'ico' else 2
    tau = N.inside_outside_tetrahedron_tau if P == 'ico' else N.inside_outside_triangle_tau
    s = Session('kin/%d' % n)
    T = geo.simplex(r, P)
    p = geo.comb(P, list(T), weights(r, d + 1, r.choice(('in', 'face', 'out'))))
    solid = lambda t: not geo.flat(P, t)
    near = [geo.comb(P, list(T), weights(r, d + 1, k)) for k in ('in', 'out', 'out', 'face', 'vertex')]
    kin.meet(r, P, lambda q: s.call('in_simplex', tau, q, T), p, kin.relatives(r, P, p) + near)
    kin.meet(r, P, lambda t: s.call('in_simplex', tau, p, t), T, fit=solid)
    x = geo.polycube(r, P, 1 if P == 'ico' else 2)
    p = geo.comb(P, list(x[-1]), weights(r, d + 1, r.choice(('in', 'out'))))
    kin.meet(r, P, lambda y: s.call('in_domain', N.inside_outside_obj_tau, p, y), x, fit=lambda y: all(solid(t) for t in y))
    near = [geo.comb(P, list(r.choice(x)), weights(r, d + 1, k)) for k in ('in', 'out', 'out')]
    kin.meet(r, P, lambda q: s.call('in_domain', N.inside_outside_obj_tau, q, x), p, near)
    g = T[:2].copy()
    p = geo.comb(P, list(g), weights(r, 2, r.choice(('in', 'out'))))
    apart = lambda t: len({geo.perp(P, v) for v in t}) == len(t)
    near = [geo.comb(P, list(g), weights(r, 2, k)) for k in ('in', 'out', 'vertex')]
    kin.meet(r, P, lambda h: s.call('on_segment', N.point_on_segment, p, h), g, [g[::-1].copy(), np.array([p, g[1]]) if apart([p, g[1]]) else g,
             np.array([g[0], geo.comb(P, list(g), [Fr(2, 3), Fr(1, 3)])]), np.array([g[0], geo.origin(r, P)])], fit=apart)
    kin.meet(r, P, lambda q: s.call('on_segment', N.point_on_segment, q, g), p, near)
    a = [geo.origin(r, P) for _ in range(3)]
    if P == 'dode':
        for b in a:
            b[5] = gen.low(np.array([gen.num(r, 2)]))[0]
    c = np.array(a + [geo.comb(P, a, weights(r, 3, 'out'))])
    e = c.copy(); e[3] = geo.addv(c[3], np.array([[0, 0, 1]] * 5 + [[1, 0, 1]]) if P == 'dode' else geo.origin(r, P))
    f = c.copy(); f[1] = e[3]
    h = c[[0, 3, 1, 2]]
    for fn in (M.coplanar_check, N.coplanar_check_numeric_tau):
        kin.meet(r, P, lambda t: s.call('coplanar', fn, t), c, [e, f, h, np.array([c[0], c[1], c[2], geo.comb(P, list(c[:3]), [Fr(1, 2), Fr(1, 4), Fr(1, 4)])])])
    A = c[:3]
    kin.meet(r, P, lambda t: s.call('coplanar2', U.coplanar_check_two_triangles, A, t), c[1:], [e[1:], f[1:], e[[1, 3, 2]]], fit=lambda t: apart(t) and apart(A))
    return [s]

def job_seg_kin(P, seed, n):
    r = gen.rng(seed, 'segkin', P, n)
    ns = core.pkg(P)
    N, I = ns.numericalc, ns.intsct
    s = Session('kin/%d' % n)
    while True:
        T = geo.simplex(r, P)
        tri = T[:3]
        p = geo.comb(P, list(tri), wt(r, 3, 'in'))
        q = T[3] if P == 'ico' else geo.comb(P, list(tri), [Fr(2), Fr(-1), Fr(0)])
        if geo.perp(P, p) != geo.perp(P, q):
            break
    mk = lambda t, e: np.array([geo.comb(P, [p, q], [1 - t, t]), geo.comb(P, [p, q], [1 - e, e])])
    g = mk(Fr(-1), Fr(1))
    alt = [mk(Fr(1, 4), Fr(1)), mk(Fr(-1), Fr(2)), mk(Fr(-1, 3), Fr(1)), g[::-1].copy(), np.array([g[0], tri[0]]), np.array([tri[1], g[1]]),
           mk(Fr(-1), Fr(1)) * np.array([1, 1, 2]), np.array([g[0], geo.origin(r, P)])]
    fit = lambda h: abs(h).max() <= LIM and len({geo.perp(P, v) for v in h}) == len(h) and (len(h) < 3 or not geo.flat(P, h) if P == 'dode' else True)
    alt = [gen.low(h) for h in alt]
    a, b = ('seg_tri', 'seg_tri_point') if P == 'ico' else ('seg_outline', 'seg_outline_points')
    if not fit(g):
        return [s]
    kin.meet(r, P, lambda h: s.call(b, I.intersection_segment_surface, h, tri), g, alt, fit=fit)
    kin.meet(r, P, lambda h: s.call(a, N.check_intersection_segment_surface_numerical_6d_tau, h, tri), g, alt, fit=fit)
    tris = [tri[[1, 2, 0]], np.array([tri[0], tri[1], geo.comb(P, list(tri), [Fr(1, 4), Fr(1, 4), Fr(1, 2)])]),
            np.array([tri[0], tri[2], geo.comb(P, list(tri), [Fr(-1), Fr(1), Fr(1)])]),
            np.array([geo.comb(P, [geo.comb(P, list(tri), [Fr(1, 3)] * 3), v], [Fr(2), Fr(-1)]) for v in tri])]
    kin.meet(r, P, lambda h: s.call(b, I.intersection_segment_surface, g, h), tri, tris, fit=fit)
    k = tri[[0, 1]]
    if fit(k):
        for h0 in (g, tri[[1, 2]]):
            kin.meet(r, P, lambda h: s.call('seg_seg_point', I.intersection_two_segment, h, k), h0, alt, fit=fit)
            kin.meet(r, P, lambda h: s.call('seg_seg_point', I.intersection_two_segment, k, h), h0, alt, fit=fit)
    return [s]

def job_seg_end(P, seed, n):
    """crossings close to the ends of the segments: at 1/m of their length, inside and outside"""
    r = gen.rng(seed, 'segend', P, n)
    ns = core.pkg(P)
    N, I = ns.numericalc, ns.intsct
    s = Session('end/%d' % n)
    one = lambda i, m: np.array([[m if j == i else 0, 0, 1] for j in range(6)])
    for m in (50, 300, 700, 2000, 3000):
        ax = r.sample(range(4 if P == 'dode' else 6), 3)
        o = geo.origin(r, P) if n % 2 else np.array([[0, 0, 1]] * 6)
        u, v, w = (one(i, 1) for i in ax)
        # across from o + (m-1) u to o - u (resp. short of o)
        for sg in (-1, 1):
            g = np.array([geo.comb(P, [o, u], [Fr(1), Fr(m)]), geo.comb(P, [o, u], [Fr(1), Fr(sg)])])
            if r.random() < .5:
                g = g[::-1].copy()
            h = np.array([geo.comb(P, [o, v], [Fr(1), Fr(1)]), geo.comb(P, [o, v], [Fr(1), Fr(-1)])])
            s.call('seg_seg_point', I.intersection_two_segment, g, h)
            s.call('seg_seg_point', I.intersection_two_segment, h, g)
            # ending just before / at / just behind the end of the other
            h = np.array([geo.comb(P, [o, v], [Fr(1), Fr(-sg, m)]), geo.comb(P, [o, v], [Fr(1), Fr(1)])])
            h2 = np.array([geo.comb(P, [o, v, u], [Fr(1), Fr(-1), Fr(m - 1 if sg < 0 else m + 1)]), geo.comb(P, [o, v, u], [Fr(1), Fr(1), Fr(m - 1 if sg < 0 else m + 1)])])
            g0 = np.array([o, geo.comb(P, [o, u], [Fr(1), Fr(m)])])
            for k in (h, h2):
                s.call('seg_seg_point', I.intersection_two_segment, g0, k)
                s.call('seg_seg_point', I.intersection_two_segment, k, g0)
            # just beyond, resp. within, the border of a triangle
            if m < 1500 and P == 'ico':
                for a, b, e in ((v, w, (0, 1)), (w, v, (1, 1)), (v, w, (1, 2))):
                    tri = np.array([geo.comb(P, [o, a], [Fr(1), Fr(sg, m)]), geo.comb(P, [o, a, b], [Fr(1), Fr(sg, m) + e[0], Fr(1)]),
                                    geo.comb(P, [o, a, b], [Fr(1), Fr(1), Fr(-1, e[1])])])
                    g1 = np.array([geo.comb(P, [o, u], [Fr(1), Fr(1)]), geo.comb(P, [o, u], [Fr(1), Fr(-1)])])
                    if not any(geo.perp(P, tri[i]) == geo.perp(P, tri[j]) for i in range(3) for j in range(i)):
                        tri = tri[r.sample(range(3), 3)]
                        s.call('seg_tri', N.check_intersection_segment_surface_numerical_6d_tau, g1, tri)
                        s.call('seg_tri_point', I.intersection_segment_surface, g1, tri)
            # crossing at a small angle
            if m < 1500:
                h = np.array([geo.comb(P, [o, u, v], [Fr(1), Fr(1), Fr(1, m)]), geo.comb(P, [o, u, v], [Fr(1), Fr(-1), Fr(-1, m)])])
                h3 = np.array([geo.comb(P, [o, u, v], [Fr(1), Fr(1), Fr(1, m)]), geo.comb(P, [o, u, v], [Fr(1), Fr(1, 2), Fr(1, 2 * m)])])
                g1 = np.array([geo.comb(P, [o, u], [Fr(1), Fr(1)]), geo.comb(P, [o, u], [Fr(1), Fr(-1)])])
                for k in (h, h3):
                    s.call('seg_seg_point', I.intersection_two_segment, g1, k)
                    s.call('seg_seg_point', I.intersection_two_segment, k, g1)
            if P == 'ico':
                tri = np.array([geo.comb(P, [o, v], [Fr(1), Fr(2)]), geo.comb(P, [o, w], [Fr(1), Fr(2)]), geo.comb(P, [o, v, w], [Fr(1), Fr(-1), Fr(-1)])])
                s.call('seg_tri_point', I.intersection_segment_surface, g, tri)
            else:
                tri = np.array([geo.comb(P, [o, v], [Fr(1), Fr(1)]), geo.comb(P, [o, v], [Fr(1), Fr(-1)]), geo.comb(P, [o, u, v], [Fr(1), Fr(-3), Fr(1, 2)])])
                if not geo.flat(P, tri):
                    s.call('seg_outline_points', I.intersection_segment_surface, g, tri)
    return [s]

def run_pred(c):
    k = 40 if c.tier == 'quick' else 600
    kin = [(P, 'job_pred_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(8 if c.tier == 'quick' else 80)]
    c.traces_of('ConfGeo', core.run_jobs('geom', kin + [(P, 'job_pred', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))

def run_seg(c):
    k = 40 if c.tier == 'quick' else 600
    kin = [(P, f, {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for f in ('job_seg_kin', 'job_seg_end') for i in range(8 if c.tier == 'quick' else 80)]
    c.traces_of('ConfGeo', core.run_jobs('geom', kin + [(P, 'job_seg', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))
