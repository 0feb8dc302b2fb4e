"""Relatives of an input: other inputs that agree with it in something a shortcut could
look at instead of the whole (some simplices, centroids, numerators, rational parts, length,
first and last entries, identity of the array) and differ in what counts.

A kin session makes the same call with an input, its relatives, an array that is overwritten
in place, and the input again; every answer is judged on its own."""
import numpy as np
import gen, geo
from fractions import Fraction as Fr

def relatives(r, P, x):
    """x: (6,3), (n,6,3) or (k,n,6,3)"""
    low = gen.low
    x = low(np.array(x))
    out = []
    def put(y):
        y = low(np.array(y))
        if y.shape == x.shape and not np.array_equal(x, y) and not any(np.array_equal(y, z) for z in out):
            out.append(y)
    # the same numerators over other denominators
    y = x.copy(); y[..., 2] = np.where(y[..., 2] == 1, 2, 1); put(y)
    y = x.copy(); y[..., 2] *= 2; put(y)
    y = x.copy(); y[..., :5, 2] = y[..., :5, 2] * np.array([r.choice((1, 3)) for _ in range(5)]); put(y)
    # the irrational, resp. the rational, parts only
    for j in (0, 1):
        y = x.copy(); y[..., :4, j] += y[..., :4, 2] * np.array([r.randint(-1, 1) for _ in range(4)]); put(y)
        y = x.copy(); y[..., j] *= -1; put(y)
    y = x.copy(); y[..., :2] *= -1; put(y)
    y = x.copy(); y[..., :2] = y[..., 1::-1]; put(y)
    # coordinates exchanged
    i, j = r.sample(range(4), 2)
    y = x.copy(); y[..., [i, j], :] = y[..., [j, i], :]; put(y)
    # a shift too small to see in floating point
    a, b = gen.unit_pow(P, 40 if P == 'ico' else 14)
    e = np.array([[0, 0, 1]] * 6); e[r.randrange(4)] = (a, b, 1)
    if x.ndim > 2:
        y = x.copy()
        f = y.reshape(-1, 6, 3); k = r.randrange(len(f)); f[k] = geo.addv(f[k], e)
        put(y)
    else:
        put(geo.addv(x, e) if x.ndim == 2 else x)
    if x.ndim >= 3:
        # the same points in another order
        y = x.copy(); f = y.reshape(-1, 6, 3); f[:] = f[::-1].copy(); put(y)
        # first and last point kept
        y = x.copy(); f = y.reshape(-1, 6, 3)
        for k in range(1, len(f) - 1):
            f[k] = geo.origin(r, P)
        put(y)
    if x.ndim == 4:
        n, m = x.shape[:2]
        if n > 1:
            y = x.copy(); y[-1] = geo.simplex(r, P); put(y)                     # all but the last
            y = x.copy(); y[0] = geo.simplex(r, P); put(y)                      # all but the first
            y = x.copy(); y[1:] = np.array([[geo.addv(v, x[0][0]) for v in t] for t in x[1:]]); put(y)
            y = x.copy(); y[-1] = x[0]; put(y)                                  # one twice
            y = x.copy(); y[0][0], y[1][0] = x[1][0].copy(), x[0][0].copy(); put(y)
        if n > 2:
            y = x.copy(); y[1:-1] = np.array([geo.simplex(r, P) for _ in range(n - 2)]); put(y)
        # the same centroids
        y = x.copy()
        for k in range(n):
            g = geo.comb(P, list(x[k]), [Fr(1, m)] * m)
            y[k] = np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in x[k]])
        put(y)
        y = x.copy()
        k = r.randrange(n); u = geo.origin(r, P)
        y[k][0] = geo.addv(x[k][0], u); y[k][1] = geo.addv(x[k][1], geo.comb(P, [u], [Fr(-1)]))
        put(y)
    if P == 'dode':
        for y in out:
            y[..., 5, :] = x[..., 5, :]
    return out

def meet(r, P, call, x, ys=None, fit=None, most=None):
    """call(x), call(relatives), call(an array overwritten in place), call(x)"""
    ys = relatives(r, P, x) if ys is None else ys
    if fit:
        ys = [y for y in ys if fit(y)]
    if most and len(ys) > most:
        ys = [ys[i] for i in sorted(r.sample(range(len(ys)), most))]
    call(x)
    for y in ys:
        call(y)
        if r.random() < .3:
            call(x)
    if ys:
        buf = np.array(x)
        call(buf)
        for y in ys[:2]:
            buf[...] = y
            call(buf)
        p = np.array(x)[..., ::1]
        call(p)
    call(x)
