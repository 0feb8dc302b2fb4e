"""A04: projections and floating-point views."""
import numpy as np
import core, gen, kin
from core import Session
from props.A03 import arr

def job(P, seed, n):
    r = gen.rng(seed, 'A04', P, n)
    ns = core.pkg(P)
    M, N, I = ns.math1, ns.numericalc, ns.intsct
    nv = 4 if P == 'ico' else 3
    out = []
    def one(tag, op, fn, *args):
        s = Session('%s/%s/%d/%d' % (op, tag, n, len(out)))
        s.call(op, fn, *args)
        out.append(s)
    D = (1, 1, 2, 3, -1, 5)
    vs = [('rnd', arr(r, 6, m=r.choice((3, 20)), dens=D))]
    ax = n % 6                           # each axis alone, rational / irrational / mixed
    for t in ((1, 0, 1), (0, 1, 1), (2, -3, 4), (-5, 2, -3)):
        v = np.array([[0, 0, 1]] * 6); v[ax] = t
        vs.append(('axis%d' % ax, v))
    f = [1, 1]
    while len(f) < 16:
        f.append(f[-1] + f[-2])
    v = np.array([[f[r.randint(3, 14)] * r.choice((-1, 1)), f[r.randint(3, 14)] * r.choice((-1, 1)), r.choice((1, 2))] for _ in range(6)])
    vs.append(('fib', v))
    for tag, v in vs:
        one(tag, 'projection', M.projection, v)
        one(tag, 'projection3', M.projection3, v)
        if P == 'ico':
            one(tag, 'projection_perp', M.projection_perp, v)
            w = core.attempt(M.projection_perp, v)[1]
            if isinstance(w, np.ndarray) and w.shape == (6, 3):
                one(tag + '-twice', 'projection_perp', M.projection_perp, w)
        one(tag, 'numeric_value', N.numeric_value, v[r.randrange(6)])
        one(tag, 'numerical_vector', N.numerical_vector, v)
        one(tag, 'length_numerical', N.length_numerical, v)
        one(tag, 'get_internal_component_numerical', N.get_internal_component_numerical, v)
        fv = np.array([(int(a) + int(b) * r.choice((0.5, 0.25, -1.5))) / 2.0 for a, b, _ in v])
        one(tag, 'projection_numerical', N.projection_numerical, fv)
        one(tag, 'projection3_numerical', N.projection3_numerical, fv)
        one(tag, 'distance_in_perp_space', I.distance_in_perp_space, v, arr(r, 6))
    for v in (arr(r, 6, m=1 << 45, dens=(1, 2)), arr(r, 6, m=1 << 20, dens=(1, 3, 7, -11, 1009)), np.array([[0, 0, 1]] * 6)):
        one('wide', 'projection', M.projection, v)
        one('wide', 'projection3', M.projection3, v)
        if P == 'ico':
            one('wide', 'projection_perp', M.projection_perp, v)
    for k in (1, 2, 3, 5) + ((140,) if n % 8 == 0 else ()):
        vs = arr(r, k, 6, dens=D)
        one(k, 'numerical_vectors', N.numerical_vectors, vs)
        one(k, 'get_internal_component_sets_numerical', N.get_internal_component_sets_numerical, vs)
        fv = np.array([[r.randint(-40, 40) / 8.0 for _ in range(6)] for _ in range(k)])
        one(k, 'projection_sets_numerical', N.projection_sets_numerical, fv)
        one(k, 'projection3_sets_numerical', N.projection3_sets_numerical, fv)
    def simplex():
        # the sixth axis is formal in the dodecagonal setting: domains are planar
        a = arr(r, nv, 6, dens=(1, 1, 2))
        if P == 'dode':
            a[:, 5] = (0, 0, 1)
        return a
    one('', 'triangle_area', N.triangle_area, arr(r, 3, 3))
    one('flat', 'triangle_area', N.triangle_area, np.array([[[0, 0, 1]] * 3, [[1, 0, 1]] * 3, [[0, 1, 2]] * 3]))
    ft = lambda k: np.array([[r.randint(-40, 40) / 8.0 for _ in range(3)] for _ in range(k)])
    one('', 'triangle_area_numerical', N.triangle_area_numerical, ft(3))
    if P == 'ico':
        one('', 'tetrahedron_volume_numerical', N.tetrahedron_volume_numerical, ft(4))
        one('', 'obj_volume_numerical', N.obj_volume_numerical, np.array([ft(4), ft(4), ft(4)]))
        one('', 'simplex_volume_6d_numerical', N.tetrahedron_volume_6d_numerical, simplex())
    else:
        one('', 'simplex_volume_6d_numerical', N.triangle_volume_6d_numerical, simplex())
    for k in (1, 3):
        one(k, 'obj_volume_6d_numerical', N.obj_volume_6d_numerical, np.array([simplex() for _ in range(k)]))
        one(k, 'ball_radius_obj', I.ball_radius_obj, np.array([simplex() for _ in range(k)]), arr(r, 6))
    t = simplex()
    one('', 'ball_radius', I.ball_radius, t, arr(r, 6))
    one('cen', 'ball_radius', I.ball_radius, t, M.centroid(t))
    return out

def job_kin(P, seed, n):
    r = gen.rng(seed, 'A04kin', P, n)
    ns = core.pkg(P)
    M, N, I = ns.math1, ns.numericalc, ns.intsct
    s = Session('kin/%d' % n)
    # floating-point views lose digits where large parts cancel
    fit = lambda y: abs(y).max() < 1000
    v, c = gen.low(arr(r, 6, dens=(1, 2, 3))), gen.low(arr(r, 6, dens=(1, 2)))
    fs = [('projection', M.projection), ('projection3', M.projection3), ('numerical_vector', N.numerical_vector), ('length_numerical', N.length_numerical),
          ('get_internal_component_numerical', N.get_internal_component_numerical)]
    if P == 'ico':
        fs.append(('projection_perp', M.projection_perp))
    kin.meet(r, P, lambda y: [s.call(op, fn, y) for op, fn in fs], v, fit=fit)
    kin.meet(r, P, lambda y: s.call('distance_in_perp_space', I.distance_in_perp_space, y, c), v, fit=fit)
    kin.meet(r, P, lambda y: s.call('distance_in_perp_space', I.distance_in_perp_space, v, y), c, fit=fit)
    x = np.array([gen.low(gen.simplex(r, P)) for _ in range(3)])
    vol = N.tetrahedron_volume_6d_numerical if P == 'ico' else N.triangle_volume_6d_numerical
    kin.meet(r, P, lambda y: (s.call('simplex_volume_6d_numerical', vol, y), s.call('ball_radius', I.ball_radius, y, c),
                              s.call('numerical_vectors', N.numerical_vectors, y),
                              s.call('get_internal_component_sets_numerical', N.get_internal_component_sets_numerical, y)), x[0], fit=fit)
    kin.meet(r, P, lambda y: (s.call('obj_volume_6d_numerical', N.obj_volume_6d_numerical, y), s.call('ball_radius_obj', I.ball_radius_obj, y, c)), x, fit=fit)
    kin.meet(r, P, lambda y: (s.call('ball_radius', I.ball_radius, x[0], y), s.call('ball_radius_obj', I.ball_radius_obj, x, y)), c, fit=fit)
    return [s]

def run(c):
    n = 24 if c.tier == 'quick' else 360
    jobs = [(P, 'job', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(n)]
    jobs += [(P, 'job_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(n // 4)]
    c.traces_of('ConfProj', core.run_jobs('A04', jobs))
