"""M01, M02: measures and translation."""
import numpy as np
import core, gen, kin
from core import Session, i32
from gen import low

ONE = [core.z(1), core.z(0), core.z(1)]
def fac(n):
    return {'k': 'factor', 'v': [core.z(n), core.z(0), core.z(1)]}

def domain(r, P, k, m=2, dens=(1, 1, 2)):
    return np.array([low(gen.simplex(r, P, m, dens)) for _ in range(k)])

def fns(ns, P):
    U, OD = ns.utils, ns.occupation_domain
    if P == 'ico':
        return OD.volume, U.obj_volume_6d, U.tetrahedron_volume_6d, U.tetrahedron_volume
    return OD.volume, U.obj_area_6d, U.triangle_area_6d, U.triangle_area

def job_vol(P, seed, n):
    r = gen.rng(seed, 'vol', P, n)
    ns = core.pkg(P)
    V, VO, VT, V3 = fns(ns, P)
    nv = 4 if P == 'ico' else 3
    out = []
    # values
    s = Session('value/%d' % n)
    for big in (2, 5, 12):
        x = domain(r, P, 2, big, (1, 1, 2) if big < 12 else (1,))
        s.call('measure', VT, x[0])
        s.call('measure', V, x[0])
        s.call('measure', V, x)
        s.call('measure', VO, x)
        y = x[0].copy()
        y[:, :, :] = y[list(r.sample(range(nv), nv))]
        s.call('measure', VT, y)
    s.call('measure', VO, domain(r, P, 6).reshape(3, 2, nv, 6, 3))
    s.call('measure', V, domain(r, P, 4).reshape(2, 2, nv, 6, 3))
    s.call('measure', V, domain(r, P, 4).reshape(1, 4, nv, 6, 3))
    s.call('measure', V, domain(r, P, 1))
    # stacks of domains, some of them alike
    x = domain(r, P, 2)
    for y in (np.array([x, x]), np.array([x, domain(r, P, 2), x]), np.array([x[:1], x[1:], x[:1], x[:1]])):
        s.call('measure', V, y)
        s.call('measure', VO, y)
    pts = np.array([gen.vec(r, 3, 4, (1, 1, 2, 3)) for _ in range(nv)])
    s.call('measure3', V3, low(pts))
    s.call('measure3', V3, low(pts[::-1].copy()))
    # degenerate: repeated vertex, collinear / coplanar, all equal, same point in different lifts
    x = domain(r, P, 1)[0]
    y = x.copy(); y[1] = y[0]
    s.call('measure', VT, y)
    y = x.copy(); y[:] = y[0]
    s.call('measure', VT, y)
    y = x.copy(); y[2] = ns.math1.add_vectors(ns.math1.mul_vector(y[0], np.array([2, 0, 1])), ns.math1.mul_vector(y[1], np.array([-1, 0, 1])))
    s.call('measure', VT, y)
    if P == 'ico':
        y = x.copy(); y[3] = low(ns.math1.centroid(x[:3]))
        s.call('measure', VT, y)
        y = x.copy(); t = np.array([[1, 0, 1], [0, 1, 1], [0, 1, 1], [0, 0, 1], [-1, 0, 1], [0, 0, 1]])
        y[2] = ns.math1.add_vectors(y[1], t)       # same perpendicular point
        s.call('measure', VT, y)
    s.call('measure', VO, np.array([x, y, x]))
    # negative denominators and unreduced numbers on input
    y = x.copy(); y = y * np.array([-2, -2, -2])
    s.call('measure', VT, y)
    # thin simplices: the sign of the determinant cannot be seen in floating point
    for total in ((2, 12, 30, 42) if P == 'ico' else (2, 6, 10, 15)):
        y = gen.thin(r, P, total)
        s.call('measure', VT, y)
        z = y.copy(); z[0], z[1] = y[1].copy(), y[0].copy()
        s.call('measure', VT, z)
        s.call('measure', V, np.array([y, z]))
    # volumes that nearly agree: a domain is the sum of its own simplices
    for k in (3, 40, 300, 20000):
        y = low(gen.simplex(r, P, 1, (1,)))
        a, b = y.copy(), y.copy()
        a[0] = b[0] = (0, 0, 1)
        a[1:, :, 2] *= k
        b[1:, :, 2] *= k + 1
        s.call('measure', V, np.array([low(a), low(b)]))
        s.call('measure', VO, np.array([low(a), low(b), low(a)]))
    out.append(s)
    # histories
    s = Session('history/%d' % n)
    x = domain(r, P, r.choice((1, 2, 3)))
    s.event('load', [core.enc(x)])
    s.call('volume', V, x)
    ops = core.attempt(ns.symmetry.icosasymop if P == 'ico' else ns.symmetry.dodesymop)[1]
    for step in range(4):
        k = r.randrange(4)
        if k == 0:
            t = low(gen.vec(r, 6, 3, (1, 2, 3)))
            y = s.call('shift', ns.occupation_domain.shift, x, t)
            f = None
        elif k == 1:
            o, y = core.attempt(ns.symmetry.symop_obj, ops[r.randrange(len(ops))], x, low(gen.cen(r)))
            s.event('moved', [core.enc(x), fac(1)], o)
        elif k == 2:
            y = x[r.sample(range(len(x)), len(x))].copy()
            y = np.array([t[r.sample(range(nv), nv)] for t in y])
            s.event('moved', [core.enc(x), fac(1)], core.enc(y))
        else:
            if len(x) > 3:
                continue
            o, y = core.attempt(ns.occupation_domain.symmetric, x, low(gen.cen(r)))
            s.event('moved', [core.enc(x), fac(len(ops))], o)
            if isinstance(y, np.ndarray):
                s.call('volume', V, y)
            break
        if not isinstance(y, np.ndarray):
            break
        x = y
        s.call('volume', V, x)
    out.append(s)
    return out

def job_shift(P, seed, n):
    r = gen.rng(seed, 'shift', P, n)
    ns = core.pkg(P)
    OD, U = ns.occupation_domain, ns.utils
    s = Session('shift/%d' % n)
    raw = n % 5 == 4
    x = domain(r, P, (1, 2, 3, 7)[n % 4], 2 if n % 3 else 40, (1, 2, 3, 5))
    if raw:
        x = x * np.array([-3, -3, -3])       # not in lowest terms on input
    s.event('load', [core.enc(x)])
    ts = [gen.vec(r, 6, 3, (1, 2, 3)), np.array([[0, 0, 1]] * 6), np.array([[0, 0, 1]] * 6), gen.vec(r, 6, 50, (1, 7, -2))]
    ts[1][r.randrange(6)] = gen.num(r, 3)
    ts.insert(0 if raw else n % 5, np.array([[0, 0, r.choice((1, 1, 3, -2))]] * 6))       # no shift at all
    for t in ts:
        y = s.call('shift', r.choice((OD.shift, U.shift_object)), x, t)
        if not isinstance(y, np.ndarray):
            return [s]
        back = t.copy(); back[:, :2] *= -1
        z = s.call('shift', OD.shift, y, back)
        if not isinstance(z, np.ndarray):
            return [s]
        x = s.call('shift', OD.shift, z, t)
        if not isinstance(x, np.ndarray):
            return [s]
    s2 = Session('commute/%d' % n)
    x = domain(r, P, 1)
    c, t = low(gen.cen(r)), low(gen.vec(r, 6, 2, (1, 2)))
    s2.event('load', [core.enc(x)])
    e = core.attempt(OD.symmetric, x, c)[1]
    xt = core.attempt(OD.shift, x, t)[1]
    if isinstance(e, np.ndarray) and isinstance(xt, np.ndarray):
        a = core.attempt(OD.shift, e, t)[0]
        b = core.attempt(OD.symmetric, xt, ns.math1.add_vectors(c, t))[0]
        s2.event('same', [a, b])
    else:
        s2.event('same', [core.enc(None), core.enc(None)])
    return [s, s2]

def job_kin(P, seed, n):
    r = gen.rng(seed, 'volkin', P, n)
    ns = core.pkg(P)
    V, VO, VT, V3 = fns(ns, P)
    s = Session('kin/%d' % n)
    x = domain(r, P, (2, 3, 5, 4)[n % 4])
    # two of the measures interleaved
    kin.meet(r, P, lambda y: (s.call('measure', V, y), s.call('measure', VO, y)), x)
    kin.meet(r, P, lambda y: (s.call('measure', VT, y), s.call('measure', V, y)), x[0])
    x = domain(r, P, 4).reshape(2, 2, *x.shape[1:])
    y = x.copy(); y[1] = x[0]
    z = x.copy(); z[1, 0] = x[0, 0]
    kin.meet(r, P, lambda t: (s.call('measure', V, t), s.call('measure', VO, t)), x, [y, z, x[::-1].copy()])
    p = gen.low(np.array([gen.vec(r, 3, 4, (1, 2, 3)) for _ in range(x.shape[-3])]))
    q = p.copy(); q[..., 2] = np.where(q[..., 2] == 1, 2, 1)
    m = p.copy(); m[..., 1] *= -1
    kin.meet(r, P, lambda t: s.call('measure3', V3, t), p, [low(q), low(m), p[::-1].copy()])
    return [s]

def job_shift_kin(P, seed, n):
    r = gen.rng(seed, 'shiftkin', P, n)
    OD = core.pkg(P).occupation_domain
    s = Session('kin/%d' % n)
    def go(x, t):
        s.event('load', [core.enc(x)])
        s.call('shift', OD.shift, x, t)
    x, t = domain(r, P, (1, 2, 3)[n % 3]), low(gen.vec(r, 6, 3, (1, 2, 3)))
    kin.meet(r, P, lambda y: go(y, t), x)
    kin.meet(r, P, lambda u: go(x, u), t)
    return [s]

def job_vol_big(P, seed, n):
    r = gen.rng(seed, 'volbig', P, n)
    ns = core.pkg(P)
    V, VO, VT, V3 = fns(ns, P)
    nv = 4 if P == 'ico' else 3
    s = Session('large/%d' % n)
    dens = ((1,), (1, 2), (1, 2, 3), (2, 3, 5))[n % 4]
    x = domain(r, P, 210 if n % 4 < 3 else 40, 2, dens)
    s.call('measure', V, x)
    s.call('measure', VO, x)
    s.call('measure', V, x[:200 if n % 4 < 3 else 40].reshape(5, -1, nv, 6, 3))
    # the same simplex many times, and with every sign of the determinant
    y = np.array([x[0], x[0][::-1], x[0][list(range(1, nv)) + [0]]] * 5)
    s.call('measure', V, y)
    s.call('measure', VO, y)
    # sums that cancel in one part of the number: numerators that become divisible by the denominator
    for den in (2, 3, 5, 6):
        z = domain(r, P, 1, 2, (1,))[0]
        z[0] = 0; z[0, :, 2] = 1
        z = gen.low(z * np.array([1, 1, den]))
        for k in (1, den, den ** 2, den ** 3):
            s.call('measure', V, np.array([z] * k))
    return [s]

def job_shift_big(P, seed, n):
    r = gen.rng(seed, 'shiftbig', P, n)
    ns = core.pkg(P)
    s = Session('large/%d' % n)
    x = domain(r, P, 150, 3, (1, 2, 3))
    s.event('load', [core.enc(x)])
    t = low(gen.vec(r, 6, 3, (1, 2, 3)))
    y = s.call('shift', ns.occupation_domain.shift, x, t)
    if isinstance(y, np.ndarray):
        s.call('shift', ns.utils.shift_object, y, t)
    s2 = Session('wide/%d' % n)
    for e in (34, 54, 58):
        x = low(gen.wide(r, 2, 4 if P == 'ico' else 3, 6, e=e, dens=(1,)))
        for t in (low(gen.vec(r, 6, 3, (1,))), low(gen.wide(r, 6, e=e, dens=(1,)))):
            s2.event('load', [core.enc(x)])
            s2.call('shift', ns.occupation_domain.shift, x, t)
            s2.event('load', [core.enc(x)])
            s2.call('shift', ns.utils.shift_object, x, t)
    return [s, s2]

def run_vol(c):
    k = 24 if c.tier == 'quick' else 240
    big = [(P, 'job_vol_big', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(4 if c.tier == 'quick' else 24)]
    big += [(P, 'job_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(8 if c.tier == 'quick' else 80)]
    c.traces_of('ConfMeas', core.run_jobs('meas', big + [(P, 'job_vol', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))

def run_shift(c):
    k = 24 if c.tier == 'quick' else 240
    big = [(P, 'job_shift_big', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(2 if c.tier == 'quick' else 12)]
    big += [(P, 'job_shift_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(6 if c.tier == 'quick' else 60)]
    c.traces_of('ConfMeas', core.run_jobs('meas', big + [(P, 'job_shift', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))
