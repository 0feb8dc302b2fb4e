"""A03: vector, matrix and centroid algebra."""
import numpy as np
import core, gen, kin
from core import Session, i32

D = (1, 1, 2, 3, -1, -2, 5)

def arr(r, *sh, m=4, dens=D):
    n = int(np.prod(sh)) if sh else 1
    return np.array([gen.num(r, m, dens) for _ in range(n)], dtype=np.int64).reshape(*sh, 3)

def job(P, seed, n):
    r = gen.rng(seed, 'A03', P, n)
    ns = core.pkg(P)
    M, U = ns.math1, ns.utils
    out = []
    def one(tag, op, fn, *args, rec=None):
        s = Session('%s/%s/%s/%d' % (op, tag, n, len(out)))
        if rec is None:
            s.call(op, fn, *args)
        else:
            o, _ = core.attempt(fn, *args)
            s.event(op, rec, o)
        out.append(s)
    big = lambda: r.choice((3, 3, 8, 40))
    for k in (2, 3, 6):
        m = big()
        a, b = arr(r, k, m=m), arr(r, k, m=m)
        one(k, 'add_vectors', M.add_vectors, a, b)
        one(k, 'sub_vectors', M.sub_vectors, a, b)
        one('self%d' % k, 'sub_vectors', M.sub_vectors, a, a)
        one(k, 'mul_vector', M.mul_vector, a, arr(r, m=m)[...].reshape(3))
        one('zero%d' % k, 'mul_vector', M.mul_vector, a, np.array([0, 0, 1]))
        one(k, 'inner_product', M.inner_product, a, b)
        one(k, 'dot_product', M.dot_product, a, b)
        one('mis%d' % k, 'inner_product', M.inner_product, a, arr(r, k + 1))
        one('mis%d' % k, 'dot_product', M.dot_product, a, arr(r, k + 1))
    one(3, 'outer_product', M.outer_product, arr(r, 3, m=big()), arr(r, 3, m=big()))
    # large numbers: the results still fit into 64 bits, a detour through 32 bits or floating point does not
    w = lambda *sh, e=40, dens=(1, 1, 2): arr(r, *sh, m=1 << e, dens=dens)
    one('wide', 'add_vectors', M.add_vectors, w(6, e=55), w(6, e=55))
    one('wide', 'sub_vectors', M.sub_vectors, w(6, e=55), w(6, e=55))
    one('wide', 'mul_vector', M.mul_vector, w(6, e=30), w(e=25).reshape(3))
    one('wide', 'mul_vectors', M.mul_vectors, w(2, 6, e=30), w(e=25).reshape(3))
    one('wide', 'inner_product', M.inner_product, w(3, e=27), w(3, e=27))
    one('wide', 'outer_product', M.outer_product, w(3, e=27), w(3, e=27))
    one('wide', 'dot_product', M.dot_product, w(3, 3, e=27, dens=(1,)), w(3, e=27))
    one('wide', 'dot_product_1', M.dot_product_1, np.array([[r.randint(-9, 9) for _ in range(6)] for _ in range(6)]), w(6, e=52))
    one('wide', 'det_matrix', M.det_matrix, w(3, 3, e=16, dens=(1,)))
    one('wide', 'centroid', M.centroid, w(4, 6, e=50))
    one('wide', 'centroid_obj', M.centroid_obj, w(2, 4, 6, e=45, dens=(1,)))
    one('wide', 'middle_position', U.middle_position, w(6, e=50), w(6, e=50))
    if n % 8 == 0:                   # long
        one('long', 'mul_vectors', M.mul_vectors, arr(r, 140, 6), arr(r).reshape(3))
        one('long', 'mul_vectors', M.mul_vectors, arr(r, 70, 4, 6), arr(r).reshape(3))
        one('long', 'centroid', M.centroid, arr(r, 150, 6, dens=(1,)))
        one('long', 'centroid_obj', M.centroid_obj, arr(r, 70, 3, 6, dens=(1, 2)))
        one('long', 'add_vectors', M.add_vectors, arr(r, 150), arr(r, 150))
        one('long', 'inner_product', M.inner_product, arr(r, 60, dens=(1, 2)), arr(r, 60, dens=(1,)))
        one('long', 'dot_product', M.dot_product, arr(r, 20, 8, dens=(1,)), arr(r, 8, 20, dens=(1, 2)))
    for ax in range(3):              # one pair of axes at a time
        a = np.array([[0, 0, 1]] * 3); a[ax] = gen.num(r, 3, D)
        one('axis%d' % ax, 'outer_product', M.outer_product, a, arr(r, 3))
    for sh in ((1, 6), (2, 6), (3, 3), (5, 6)):
        one('x'.join(map(str, sh)), 'mul_vectors', M.mul_vectors, arr(r, *sh), arr(r).reshape(3))
    for sh in ((1, 3, 6), (2, 4, 6), (3, 2, 6)):
        one('x'.join(map(str, sh)), 'mul_vectors', M.mul_vectors, arr(r, *sh), arr(r).reshape(3))
    for s, t, u in ((2, 3, 4), (3, 3, 3), (1, 2, 1), (4, 2, 3), (6, 6, 1), (2, 4, 3)):
        one('%dx%dv' % (s, t), 'dot_product', M.dot_product, arr(r, s, t), arr(r, t))
        one('%dx%dx%d' % (s, t, u), 'dot_product', M.dot_product, arr(r, s, t, m=2), arr(r, t, u, m=2))
        im = np.array([[r.randint(-4, 4) for _ in range(t)] for _ in range(s)], dtype=np.int64)
        one('%dx%dv' % (s, t), 'dot_product_1', M.dot_product_1, im, arr(r, t))
        one('%dx%dx%d' % (s, t, u), 'dot_product_1', M.dot_product_1, im, arr(r, t, u))
        one('mis%dx%dv' % (s, t), 'dot_product', M.dot_product, arr(r, s, t), arr(r, t + 1))
        one('mis%dx%dm' % (s, t), 'dot_product', M.dot_product, arr(r, s, t + 1), arr(r, t, u))
        one('mis%dx%dv' % (s, t), 'dot_product_1', M.dot_product_1, im, arr(r, t + 1))
        one('mis%dx%dm' % (s, t), 'dot_product_1', M.dot_product_1, im, arr(r, t + 1, u))
    for k in range(3):
        one('r%d' % k, 'det_matrix', M.det_matrix, arr(r, 3, 3, m=2, dens=(1, 1, 2, -1)))
    perm = r.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)])
    a = np.zeros((3, 3, 3), dtype=np.int64); a[:, :, 2] = 1
    for i in range(3):
        a[i][perm[i]] = gen.num(r, 4, D)
    one('perm', 'det_matrix', M.det_matrix, a)
    for k in (1, 2, 3, 4, 5):
        one(k, 'centroid', M.centroid, arr(r, k, 6, m=big(), dens=(1, 2, 3)))
    for k in (1, 2, 3, 5):
        for nv in (3, 4):
            one('%dx%d' % (k, nv), 'centroid_obj', M.centroid_obj, arr(r, k, nv, 6, dens=(1, 2)))
    one('', 'middle_position', U.middle_position, arr(r, 6), arr(r, 6))
    ms = [arr(r).reshape(3) for _ in range(6)]
    v = arr(r, 6)
    one('', 'mtrixcal', M.mtrixcal, *ms, v)
    for k, e in ((2, 5), (3, 0), (3, 1), (3, 4), (6, 3), (2, 40), (4, 2), (2, 6 + n % 12), (3, 2 + n % 8)):
        im = np.array([[r.randint(-2, 2) for _ in range(k)] for _ in range(k)], dtype=np.int64)
        if e == 40:
            im = np.array([[1, 1], [1, 0]], dtype=np.int64); e = 80 + n % 9   # beyond 2^53, inside 2^63
        one('%d^%d' % (k, e), 'matrixpow', M.matrixpow, im, e, rec=[core.enc(im), i32(e)])
    # integer matrices of determinant +-1, negative powers
    q = np.array([[1, 0, 0], [r.randint(-2, 2), 1, 0], [r.randint(-2, 2), r.randint(-2, 2), -1]], dtype=np.int64)
    e = -r.randint(1, 3)
    one('neg', 'matrixpow', M.matrixpow, q, e, rec=[core.enc(q), i32(e)])
    return out

def job_kin(P, seed, n):
    r = gen.rng(seed, 'A03kin', P, n)
    ns = core.pkg(P)
    M, U = ns.math1, ns.utils
    s = Session('kin/%d' % n)
    a, b = gen.low(arr(r, 6, dens=(1, 2, 3))), gen.low(arr(r, 6, dens=(1, 2, 3)))
    for op, fn in (('add_vectors', M.add_vectors), ('sub_vectors', M.sub_vectors), ('inner_product', M.inner_product), ('dot_product', M.dot_product),
                   ('middle_position', U.middle_position)):
        kin.meet(r, P, lambda y: s.call(op, fn, a, y), b)
        kin.meet(r, P, lambda y: s.call(op, fn, y, b), a)
    a, b = gen.low(arr(r, 3, dens=(1, 2, 3))), gen.low(arr(r, 3, dens=(1, 2, 3)))
    def alt(x):
        out = []
        y = x.copy(); y[..., 2] = np.where(y[..., 2] == 1, 2, 1); out.append(gen.low(y))
        for j in (0, 1):
            y = x.copy(); y[..., j] *= -1; out.append(gen.low(y))
        y = x.copy(); y[..., :2] = y[..., 1::-1]; out.append(gen.low(y))
        out.append(x[::-1].copy())
        return out
    kin.meet(r, P, lambda y: s.call('outer_product', M.outer_product, a, y), b, alt(b))
    kin.meet(r, P, lambda y: s.call('outer_product', M.outer_product, y, b), a, alt(a))
    m = gen.low(arr(r, 3, 3, m=3, dens=(1, 1, 2)))
    kin.meet(r, P, lambda y: s.call('det_matrix', M.det_matrix, y), m, alt(m) + [np.swapaxes(m, 0, 1).copy()])
    kin.meet(r, P, lambda y: s.call('dot_product', M.dot_product, y, a), m, alt(m) + [np.swapaxes(m, 0, 1).copy()])
    kin.meet(r, P, lambda y: s.call('dot_product', M.dot_product, m, y), a, alt(a))
    q = np.array([[r.randint(-4, 4) for _ in range(3)] for _ in range(3)], dtype=np.int64)
    kin.meet(r, P, lambda y: s.call('dot_product_1', M.dot_product_1, y, a), q, [q.T.copy(), -q, q[::-1].copy()])
    def mp(y):
        for e in (2, 3):
            o, _ = core.attempt(M.matrixpow, y, e)
            s.event('matrixpow', [core.enc(y), i32(e)], o)
    kin.meet(r, P, mp, q, [q.T.copy(), -q, q[::-1].copy()])
    t = gen.low(arr(r, dens=(1, 2, 3)).reshape(3))
    u = gen.low(np.array([gen.simplex(r, P) for _ in range(3)]))
    kin.meet(r, P, lambda y: s.call('centroid', M.centroid, y), u[0])
    kin.meet(r, P, lambda y: s.call('centroid_obj', M.centroid_obj, y), u)
    kin.meet(r, P, lambda y: s.call('mul_vectors', M.mul_vectors, y, t), u[0])
    kin.meet(r, P, lambda y: s.call('mul_vectors', M.mul_vectors, y, t), u)
    kin.meet(r, P, lambda y: s.call('mul_vector', M.mul_vector, y, t), u[0][0])
    tt = [np.array([t[0], t[1], t[2] + 1]), np.array([t[1], t[0], t[2]]), np.array([-t[0], t[1], t[2]])]
    kin.meet(r, P, lambda y: s.call('mul_vector', M.mul_vector, u[0][0], y), t, tt)
    kin.meet(r, P, lambda y: s.call('mul_vectors', M.mul_vectors, u[0], y), t, tt)
    return [s]

def run(c):
    n = 24 if c.tier == 'quick' else 240
    jobs = [(P, 'job', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(n)]
    jobs += [(P, 'job_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(n // 4)]
    c.traces_of('ConfAlg', core.run_jobs('A03', jobs))
