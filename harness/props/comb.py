"""C01, C02, C03: duplicates, cells and borders, hulls and simplification."""
import numpy as np
import core, gen, geo, kin
from core import Session, i32
from fractions import Fraction as Fr

def shapes(r, P, n):
    """a domain made of face-to-face simplices"""
    k = n % 8
    big = P == 'dode'
    if k == 0:
        x = geo.polycube(r, P, 1)
    elif k == 1:
        x = geo.polycube(r, P, r.choice((2, 3)))
    elif k == 2:
        x = geo.rest(r, P, geo.polycube(r, P, 2), r.randint(1, 3))
    elif k == 3:
        x = geo.subset(r, geo.polycube(r, P, 2), r.randint(1, 4))
    elif k == 4:
        b = geo.basis(r, P)
        x = geo.box(P, geo.origin(r, P), b, (2, 1, 1)[:len(b)] if not big else (3, 2))
    elif k == 5:
        x = geo.star(r, P, geo.polycube(r, P, 1))
    elif k == 6:
        x = geo.star(r, P, np.array([geo.simplex(r, P)]))
        if r.random() < .5:
            x = geo.star(r, P, x)
    else:
        x = np.array([geo.simplex(r, P)])
    return geo.shuffled(r, x)

def ring(r, P):
    """cells around a hole (dode: annulus; ico: frame of 8 cells)"""
    bs = geo.basis(r, P)
    cells = [(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)]
    if P == 'ico':
        cells = [c + (0,) for c in cells[:r.choice((3, 5, 8))]]
    return geo.grid(P, geo.origin(r, P), bs, cells)

# ----------------------------------------------------------------- C01
def job_dedup(P, seed, n):
    r = gen.rng(seed, 'dedup', P, n)
    ns = core.pkg(P)
    U = ns.utils
    out = []
    s = Session('dedup/%d' % n)
    pool = [geo.origin(r, P) for _ in range(r.choice((1, 2, 5)))]
    for p in list(pool):
        for _ in range(r.choice((0, 1, 2))):
            pool.append(geo.addv(p, geo.par_vec(r, P)))       # same position, other vector
        q = p.copy()
        i = r.randrange(5)
        q[i] = gen.low(np.array([gen.num(r, 2)]))[0]          # differs in one component
        pool.append(q)
        # same rational part, other irrational part; and the other way round
        q = p.copy(); q[i][1] += r.choice((1, -1)) * q[i][2]; pool.append(q)
        q = p.copy(); q[i][0] += r.choice((1, -1)) * q[i][2]; pool.append(q)
        # a position less than 1e-6 away
        a, b = gen.unit_pow(P, r.choice((32, 36)) if P == 'ico' else 11)
        e = np.array([[0, 0, 1]] * 6); e[r.randrange(4)] = (a, b, 1)
        pool.append(geo.addv(p, e))
    # vectors of 6D that differ in a single component, whichever it is
    q = np.array(r.choice(pool))
    six = [q]
    for i in range(6):
        for d in ((1, 0), (0, 1)):
            t = q.copy(); t[i][:2] += np.array(d) * q[i][2]; six.append(t)
    r.shuffle(six)
    s.call('dedup', U.remove_doubling, np.array(six + six[::2]))
    s.call('remove', U.remove_vectors, np.array(six), np.array(six[:1] + six[5:7]))
    s.call('remove1', U.remove_vector, np.array(six), np.array(six[3]))
    vs = np.array([r.choice(pool) for _ in range(r.choice((1, 3, 8, 16)))])
    s.call('dedup', U.remove_doubling, vs)
    s.call('dedup_perp', U.remove_doubling_in_perp_space, vs)
    vs = np.array(pool + pool[::-1])
    s.call('dedup', U.remove_doubling, vs)
    s.call('dedup_perp', U.remove_doubling_in_perp_space, vs)
    vs = geo.relift(r, P, shapes(r, P, n))
    s.call('dedup', U.remove_doubling, vs)
    s.call('dedup_perp', U.remove_doubling_in_perp_space, vs)
    out.append(s)

    s = Session('equiv/%d' % n)
    nv = 4 if P == 'ico' else 3
    fs = {2: U.equivalent_edges, 3: U.equivalent_triangles}
    if P == 'ico':
        fs[4] = U.equivalent_tetrahedra
    for m in sorted(fs):
        for t in range(3):
            while True:
                a = np.array(r.sample(pool, min(m, len(pool))))
                if len({geo.perp(P, v) for v in a}) == m:
                    break
                pool.append(geo.origin(r, P))
            perm = a[r.sample(range(m), m)]
            b = geo.relift(r, P, perm, .7)
            c = b.copy()
            for _ in range(20):
                c[r.randrange(m)] = r.choice(pool)
                if len({geo.perp(P, v) for v in c}) == m:
                    break
            else:
                c = b
            d = b.copy()
            i = r.randrange(m)
            d[i] = d[i].copy(); d[i][r.randrange(4)] += np.array([0, r.choice((1, -1)), 0])
            d = gen.low(d)
            if len({geo.perp(P, v) for v in d}) != m:
                d = b
            # nothing but the points counts: equal centroid, equal volume, mirror images
            g = geo.comb(P, list(a), [Fr(1, m)] * m)
            e = np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in b])
            f = b.copy()
            if m > 2:
                i, j = r.sample(range(m), 2)
                u = geo.par_vec(r, P) if r.random() < .2 else geo.origin(r, P)
                f[i], f[j] = geo.addv(f[i], u), geo.addv(f[j], geo.comb(P, [u], [Fr(-1)]))
            h = b.copy(); h[0] = geo.comb(P, [b[0], b[1]], [Fr(-1), Fr(2)])
            for y in (e, f, h):
                if len({geo.perp(P, v) for v in y}) == m:
                    s.call('equiv', fs[m], a, y)
                    s.call('equiv', U.equivalent, a, y)
            for y in (perm, b, c, d):
                s.call('equiv', fs[m], a, y)
                s.call('equiv', U.equivalent, a, y)
                s.call('equiv', U.equivalent, a.reshape(1, m, 6, 3), y.reshape(1, m, 6, 3))
    for t in range(6):
        a = r.choice(pool)
        b = geo.addv(a, geo.par_vec(r, P)) if r.random() < .5 else r.choice(pool)
        s.call('equiv_vertex', U.equivalent_vertices, a, b)
        s.call('equiv_vertex', U.equivalent, a, b)
    out.append(s)

    s = Session('remove/%d' % n)
    vs = np.array(pool)
    for k in (1, 2, len(pool)):
        g = np.array(r.sample(pool, min(k, len(pool))))
        s.call('remove', U.remove_vectors, vs, g)
        s.call('remove', U.remove_vectors, np.array(pool + pool), g)
    g = np.array([geo.origin(r, P) for _ in range(2)] + [pool[0]])
    s.call('remove', U.remove_vectors, vs, g)
    s.call('remove', U.remove_vectors, g, vs)
    for v in (r.choice(pool), pool[0], pool[-1], geo.origin(r, P)):
        s.call('remove1', U.remove_vector, vs, v)
    out.append(s)
    return out

def job_pairs(P, seed, n):
    """two simplices with 0 .. all vertices in common, two segments, reordering"""
    r = gen.rng(seed, 'pairs', P, n)
    ns = core.pkg(P)
    U = ns.utils
    d = 3 if P == 'ico' else 2
    con = U.check_connectivity_tetrahedra if P == 'ico' else U.check_connectivity_triangles
    com = U.get_common_triangle_in_two_tetrahedra if P == 'ico' else U.get_common_edge_in_two_triangles
    out = []
    s = Session('facets/%d' % n)
    for k in (d, d, d - 1, 0, d + 1, d):
        A = geo.simplex(r, P)
        B = A.copy()
        for i in r.sample(range(d + 1), d + 1 - k):
            B[i] = geo.origin(r, P)
            if r.random() < .4:                                # close to the vertex it replaces
                a, b = gen.unit_pow(P, r.choice((6, 20, 32)) if P == 'ico' else r.choice((3, 11)))
                e = np.array([[0, 0, 1]] * 6); e[r.randrange(4)] = (a, b, 1)
                B[i] = geo.addv(A[i], e)
        if len({geo.perp(P, v) for v in B}) != d + 1:
            continue
        B = geo.relift(r, P, geo.shuffled(r, np.array([B]))[0], r.choice((0, .5)))
        A = geo.shuffled(r, np.array([A]))[0]
        s.call('connect', con, A, B)
        s.call('common', com, A, B)
    x = shapes(r, P, n)
    for _ in range(6):
        if len(x) > 1:
            i, j = r.sample(range(len(x)), 2)
            s.call('connect', con, x[i], x[j])
            s.call('common', com, x[i], x[j])
    out.append(s)
    s = Session('sort/%d' % n)
    x = geo.relift(r, P, shapes(r, P, n), .3)
    s.call('sort_obj', U.sort_obj, x)
    s.call('sort', U.sort_vctors, x.reshape(-1, 6, 3))
    s.call('sort', U.sort_vctors, x[0])
    s.call('sort', U.sort_vctors, np.array([geo.origin(r, P) for _ in range(r.choice((1, 2, 9)))]))
    out.append(s)
    return out

def job_join(P, seed, n):
    r = gen.rng(seed, 'join', P, n)
    U = core.pkg(P).utils
    s = Session('join/%d' % n)
    for t in range(6):
        A, B, C = geo.simplex(r, P)[:3]
        w = r.choice((Fr(1, 2), Fr(1, 3), Fr(1, 7), Fr(5, 6)))
        m = geo.comb(P, [A, B], [w, 1 - w])
        far = geo.comb(P, [A, B], [Fr(-1), Fr(2)])
        bent = geo.comb(P, [A, B, C], [-w, 1 + w - Fr(1, 20), Fr(1, 20)])
        for S, T in (((A, m), (m, B)), ((A, B), (B, far)), ((A, B), (B, bent)), ((A, B), (A, m)), ((A, m), (B, far)), ((A, C), (C, B)), ((A, B), (A, B))):
            S = np.array([S[i] for i in r.sample((0, 1), 2)])
            T = np.array([T[i] for i in r.sample((0, 1), 2)])
            if r.random() < .3:
                T = geo.relift(r, P, T, .5)
            s.call('join', U.two_segment_into_one, S, T)
    return [s]

# ----------------------------------------------------------------- C02
def call_n(s, op, fn, x, n, **kw):
    o, _ = core.attempt(fn, x, **kw)
    s.event(op, [core.enc(x), i32(n)], o)

def job_cells(P, seed, n):
    r = gen.rng(seed, 'cells', P, n)
    ns = core.pkg(P)
    U, OD = ns.utils, ns.occupation_domain
    x = ring(r, P) if n % 9 == 8 else shapes(r, P, n)
    if n % 2:
        x = geo.relift(r, P, x)
    s = Session('cells/%d' % n)
    if P == 'ico':
        s.call('surface', U.generator_surface_1, x)
        call_n(s, 'unique', U.generator_unique_triangles, x, 3)
        o, t = core.attempt(U.get_tetrahedron_surface, x[0])
        s.event('all_cells', [core.enc(x[:1]), i32(3)], o)
        o, t = core.attempt(U.get_tetrahedron_edge, x[0])
        s.event('all_cells', [core.enc(x[:1]), i32(2)], o)
        tri = geo.subset(r, np.concatenate([x[:, :3], x[:, 1:]]), 6)
        call_n(s, 'all_cells', U.generator_all_edges, tri, 2)
        call_n(s, 'unique', U.generator_unique_edges, tri, 2)
    else:
        o, t = core.attempt(U.get_triangle_edge, x[0])
        s.event('all_cells', [core.enc(x[:1]), i32(2)], o)
    call_n(s, 'all_cells', U.generator_all_edges, x, 2)
    call_n(s, 'unique', U.generator_unique_edges, x, 2)
    e = np.concatenate([x[:, :2], x[:, 1:3], x[:, [1, 0]]])
    call_n(s, 'unique', U.generator_unique_edges, e, 2)
    s.call('border', OD.generate_border_edges, x)
    if P == 'dode':
        s.call('border', OD.outline, x)
        s.call('border_tri', U.surface_cleaner, x)
    else:
        o, t = core.attempt(U.generator_surface_1, x)
        if isinstance(t, np.ndarray) and t.ndim == 4:
            s.call('border_tri', U.surface_cleaner, t)
            s.call('border_tri', U.surface_cleaner, t[:len(t) // 2 + 1])
    # a facet bent slightly inwards or outwards
    s2 = Session('dent/%d' % n)
    d = 3 if P == 'ico' else 2
    eps = Fr(1, (4, 8, 20, 60)[n % 4])       # a bend the tolerance of point_on_segment leaves no doubt about
    T = geo.simplex(r, P)
    for sg in (1, -1):
        g = geo.comb(P, list(T), [sg * eps] + [(1 - sg * eps) / d] * d)
        y = geo.shuffled(r, np.array([list(T[:1]) + [T[i] for i in range(1, d + 1) if i != k] + [g] for k in range(1, d + 1)]))
        s2.call('border', OD.generate_border_edges, y)
        if P == 'dode':
            s2.call('border', OD.outline, y)
    return [s, s2]

# ----------------------------------------------------------------- C03
def job_hull(P, seed, n):
    r = gen.rng(seed, 'hull', P, n)
    ns = core.pkg(P)
    U, OD = ns.utils, ns.occupation_domain
    tri = U.tetrahedralization_points if P == 'ico' else U.triangulation_points
    out = []
    s = Session('points/%d' % n)
    d = 3 if P == 'ico' else 2
    # general points, plus points in the middle of edges and faces, plus a flat set
    pts = [geo.origin(r, P) for _ in range(d + 1 + n % 4)]
    if n % 3 == 1:
        pts.append(geo.comb(P, pts[:2], [Fr(1, 2), Fr(1, 2)]))
        pts.append(geo.comb(P, pts[:3], [Fr(1, 4), Fr(1, 4), Fr(1, 2)]))
    seen, q = set(), []
    for v in pts:
        k = geo.perp(P, v)
        if k not in seen:
            seen.add(k)
            q.append(v)
    s.call('triang', tri, np.array(q))
    c = geo.polycube(r, P, 1)
    v = c.reshape(-1, 6, 3)
    u = [v[0]]
    for w in v[1:]:
        if not any(np.array_equal(w, y) for y in u):
            u.append(w)
    s.call('triang', tri, np.array(geo.shuffled(r, np.array([u])))[0])
    # the same kind of point sets, thin or on a small scale
    T = gen.low(gen.thin(r, P, 4 + n % 9))
    if not geo.flat(P, T):
        s.call('triang', tri, T)
        g = geo.comb(P, list(T), [Fr(1, d + 1)] * (d + 1))
        s.call('triang', tri, np.array(list(T) + [g]))
    f = tuple(map(Fr, gen.unit_pow(P, (3 + n % 5) if P == 'ico' else (1 + n % 4))))
    s.call('triang', tri, np.array([geo.comb(P, [v], [f]) for v in q]))
    if n % 4 == 0:                   # many points: on a grid, scattered
        b = geo.basis(r, P)
        g = [geo.comb(P, b, [Fr(int(t)) for t in w]) for w in np.ndindex(*((3, 3, 3) if P == 'ico' else (5, 6)))]
        r.shuffle(g)
        s.call('triang', tri, np.array(g))
        q, seen = [], set()
        while len(q) < (14 if P == 'ico' else 24):
            v = geo.origin(r, P)
            if geo.perp(P, v) not in seen:
                seen.add(geo.perp(P, v))
                q.append(v)
        s.call('triang', tri, np.array(q))
    out.append(s)
    for t in range(2):
        x = shapes(r, P, n + 3 * t)
        if n % 9 == 8 and t == 0:
            x = ring(r, P)
        if n % 2:
            x = geo.relift(r, P, x, .2)
        s = Session('simplify/%d/%d' % (n, t))
        if geo_convex(P, x):
            s.call('hull', U.generate_convex_hull, x)
        y = s.call('simplify', OD.simplification, x, verbose=n % 2)
        if geo_convex(P, x) and isinstance(y, np.ndarray):             # again, on a decomposition that need not be face-to-face
            s.call('hull', U.generate_convex_hull, y)
            s.call('simplify', OD.simplification, geo.shuffled(r, y))
        out.append(s)
    # nearly convex domains: a facet with a shallow dent, or a shallow bump
    eps = Fr(1, (4, 8, 20, 60)[n % 4])       # a bend the tolerance of point_on_segment leaves no doubt about
    T = geo.simplex(r, P)
    for sg in (1, -1):
        g = geo.comb(P, list(T), [sg * eps] + [(1 - sg * eps) / d] * d)
        x = [list(T[:1]) + [T[i] for i in range(1, d + 1) if i != k] + [g] for k in range(1, d + 1)]
        s = Session('dent/%d/%d' % (n, sg))
        x = geo.shuffled(r, np.array(x))
        s.call('simplify', OD.simplification, x)
        if sg < 0:
            s.call('hull', U.generate_convex_hull, x)
        out.append(s)
    if n % 9 == 0:
        s = Session('resimplify/%d' % n)
        z = np.array([[0, 0, 1]] * 6)
        from props import region
        x = core.attempt(OD.symmetric, geo.SEED['ico'] if P == 'ico' else region.dode_seed(r, Fr(1, 2)), z)[1]
        if isinstance(x, np.ndarray):
            y = s.call('simplify', OD.simplification, x)
            if isinstance(y, np.ndarray):
                s.call('simplify', OD.simplification, y)
        out.append(s)
    # merging two simplices
    s = Session('merge/%d' % n)
    f = U.merge_two_tetrahedra if P == 'ico' else U.merge_two_triangles
    T = geo.simplex(r, P)
    w = Fr(r.randint(1, 3), 4)
    m = geo.comb(P, [T[0], T[1]], [w, 1 - w])
    A, B = T.copy(), T.copy()
    A[0], B[1] = m, m
    C = T.copy(); C[0] = geo.comb(P, [T[0], T[1]], [Fr(-1, 2), Fr(3, 2)])
    D = geo.simplex(r, P)
    Ep = T.copy(); Ep[0] = geo.comb(P, list(T[:3]), [Fr(-1), Fr(1), Fr(1)])
    for a, b in ((A, B), (B, A), (T, C), (T, A), (T, D), (A, D), (T, Ep), (Ep, T)):
        pa, pb = geo.shuffled(r, np.array([a]))[0], geo.shuffled(r, np.array([b]))[0]
        s.call('merge', f, pa, pb)
        s.call('merge', f, pa, geo.relift(r, P, pb))
    out.append(s)
    return out

def job_hand(P, seed, n):
    """simplification by hand: chosen vertices, list by list"""
    r = gen.rng(seed, 'hand', P, n)
    ns = core.pkg(P)
    OD = ns.occupation_domain
    d = 3 if P == 'ico' else 2
    x = geo.polycube(r, P, r.choice((1, 2)))
    import tempfile, shutil
    root = tempfile.mkdtemp(prefix="vrf-hand-")
    try:
        o, vs = core.attempt(OD.simple_hand_step1, x, root, 'o')
    finally:

        shutil.rmtree(root, ignore_errors=True)
    s = Session('hand/%d' % n)
    s.event('dedup_perp', [core.enc(x)], o)
    if not isinstance(vs, np.ndarray) or vs.ndim != 3:
        return [s]
    idx = {geo.perp(P, v): i + 1 for i, v in enumerate(vs)}
    if n % 3 == 0 and geo_convex(P, x):
        lists = [list(range(1, len(vs) + 1))]
    elif n % 3 == 1:
        lists = [[idx[geo.perp(P, v)] for v in T] for T in x[:4]]
    else:
        k = 6 if P == 'ico' else 2                  # the simplices of one cell
        lists = []
        for i in range(0, len(x), k):
            l = []
            for v in x[i:i + k].reshape(-1, 6, 3):
                if idx[geo.perp(P, v)] not in l:
                    l.append(idx[geo.perp(P, v)])
            if geo_convex(P, x[i:i + k]):
                lists.append(l)
    for l in lists:
        r.shuffle(l)
    if not lists:
        return [s]
    o, _ = core.attempt(OD.simple_hand_step2, vs, lists)
    s.event('hand', [core.enc(vs), {'k': 'list', 'v': [{'k': 'list', 'v': [i32(i) for i in l]} for l in lists]}], o)
    return [s]

def geo_convex(P, x):
    """only used to decide whether to call generate_convex_hull, which is specified for convex domains"""
    from scipy.spatial import ConvexHull
    p = np.array([[geo.val(P, c) for c in geo.perp(P, v)] for v in x.reshape(-1, 6, 3)])
    v = sum(abs(geo.val(P, geo.sdet(P, t))) for t in x) / (6 if P == 'ico' else 2)
    try:
        return abs(ConvexHull(p).volume - v) < 1e-7 * v
    except Exception:
        return False

def wide(r, P, n):
    bs = geo.basis(r, P)
    dims = ((7, 6), (3, 2, 2)) if n % 2 == 0 else ((12, 3), (5, 2, 1))
    return geo.box(P, geo.origin(r, P), bs, dims[P == 'ico'])

def job_dedup_big(P, seed, n):
    r = gen.rng(seed, 'dedupbig', P, n)
    U = core.pkg(P).utils
    s = Session('large/%d' % n)
    x = wide(r, P, n)
    y = geo.relift(r, P, geo.shuffled(r, x), .3)
    s.call('dedup', U.remove_doubling, y)
    s.call('dedup_perp', U.remove_doubling_in_perp_space, y)
    v = y.reshape(-1, 6, 3)
    s.call('dedup', U.remove_doubling, v)
    s.call('dedup_perp', U.remove_doubling_in_perp_space, v)
    s.call('remove', U.remove_vectors, v, v[r.sample(range(len(v)), 60)])
    s.call('sort', U.sort_vctors, v)
    # numbers beyond 53 bits, one apart
    s2 = Session('wide/%d' % n)
    for e in (33, 48, 54):
        p = [gen.low(gen.wide(r, 6, e=e, dens=(1,))) for _ in range(2)]
        if P == 'dode':
            for q in p:
                q[5] = (0, 0, 1)
        for q in list(p):
            for i in range(4):
                for j in (0, 1):
                    t = q.copy(); t[i][j] += 1; p.append(t)
        w = np.array([p[i] for i in r.sample(range(len(p)), len(p))] + p[::3])
        s2.call('dedup', U.remove_doubling, w)
        s2.call('remove', U.remove_vectors, w, w[:3])
        s2.call('remove1', U.remove_vector, w, w[5])
        if e < 50:
            s2.call('dedup_perp', U.remove_doubling_in_perp_space, w)
            for k in range(4):
                s2.call('equiv_vertex', U.equivalent_vertices, w[0], w[k])
    return [s, s2]

def job_cells_big(P, seed, n):
    r = gen.rng(seed, 'cellsbig', P, n)
    ns = core.pkg(P)
    U, OD = ns.utils, ns.occupation_domain
    s = Session('large/%d' % n)
    x = geo.shuffled(r, wide(r, P, n))
    if n == 1:
        x = geo.relift(r, P, x)
    if P == 'ico':
        s.call('surface', U.generator_surface_1, x)
        call_n(s, 'unique', U.generator_unique_triangles, x, 3)
    call_n(s, 'unique', U.generator_unique_edges, x, 2)
    call_n(s, 'all_cells', U.generator_all_edges, x, 2)
    s2 = Session('large-border/%d' % n)
    if P == 'dode':
        x = geo.shuffled(r, geo.box(P, geo.origin(r, P), geo.basis(r, P), ((6, 3), (10, 2))[n % 2]))
    if n % 2 or P == 'dode':
        s2.call('border', OD.generate_border_edges, x)
    return [s, s2]

def job_soup(P, seed, n):
    """simplices that share vertices, edges and facets in any number, overlapping as they like"""
    r = gen.rng(seed, 'soup', P, n)
    U = core.pkg(P).utils
    d = 3 if P == 'ico' else 2
    s = Session('soup/%d' % n)
    pts = []
    while len(pts) < d + 3:
        v = geo.origin(r, P)
        if all(geo.perp(P, v) != geo.perp(P, w) for w in pts):
            pts.append(v)
    import itertools
    cells = [c for c in itertools.combinations(range(d + 3), d + 1) if not geo.flat(P, [pts[i] for i in c])]
    cells = r.sample(cells, min(len(cells), r.randint(2, 9)))
    x = geo.relift(r, P, geo.shuffled(r, np.array([[pts[i] for i in c] for c in cells])), .2)
    if P == 'ico':
        s.call('surface', U.generator_surface_1, x)
        call_n(s, 'unique', U.generator_unique_triangles, x, 3)
    call_n(s, 'unique', U.generator_unique_edges, x, 2)
    call_n(s, 'all_cells', U.generator_all_edges, x, 2)
    return [s]

def job_dedup_kin(P, seed, n):
    r = gen.rng(seed, 'dedupkin', P, n)
    U = core.pkg(P).utils
    d = 3 if P == 'ico' else 2
    s = Session('kin/%d' % n)
    apart = lambda t: len({geo.perp(P, v) for v in t}) == len(t)
    x = np.array([geo.simplex(r, P) for _ in range(3)])
    kin.meet(r, P, lambda y: (s.call('dedup', U.remove_doubling, y), s.call('dedup_perp', U.remove_doubling_in_perp_space, y)), x)
    v = x.reshape(-1, 6, 3)
    kin.meet(r, P, lambda y: (s.call('dedup', U.remove_doubling, y), s.call('dedup_perp', U.remove_doubling_in_perp_space, y), s.call('sort', U.sort_vctors, y)), v)
    kin.meet(r, P, lambda y: s.call('remove', U.remove_vectors, v, y), v[:4])
    kin.meet(r, P, lambda y: s.call('remove', U.remove_vectors, y, v[:4]), v)
    kin.meet(r, P, lambda y: s.call('remove1', U.remove_vector, v, y), v[2])
    fs = {2: U.equivalent_edges, 3: U.equivalent_triangles}
    if P == 'ico':
        fs[4] = U.equivalent_tetrahedra
    for m in sorted(fs):
        a = x[0][:m]
        ys = kin.relatives(r, P, a) + [a[::-1].copy(), geo.relift(r, P, a[::-1].copy(), .7)]
        kin.meet(r, P, lambda y: (s.call('equiv', fs[m], a, y), s.call('equiv', U.equivalent, a, y)), a, ys, fit=apart)
        kin.meet(r, P, lambda y: (s.call('equiv', fs[m], y, a), s.call('equiv', U.equivalent, y, a)), a, ys, fit=apart)
    kin.meet(r, P, lambda y: (s.call('equiv_vertex', U.equivalent_vertices, v[0], y), s.call('equiv_vertex', U.equivalent, y, v[0])), v[0])
    con = U.check_connectivity_tetrahedra if P == 'ico' else U.check_connectivity_triangles
    com = U.get_common_triangle_in_two_tetrahedra if P == 'ico' else U.get_common_edge_in_two_triangles
    A = x[0]
    B = A.copy(); B[0] = x[1][0]
    if apart(B):
        ys = kin.relatives(r, P, B)
        for k in range(1, d + 1):
            y = A.copy(); y[k] = x[1][0]; ys.append(y)
            y = B.copy(); y[k] = x[2][k]; ys.append(y)
        kin.meet(r, P, lambda y: (s.call('connect', con, A, y), s.call('common', com, A, y)), B, ys, fit=apart)
        kin.meet(r, P, lambda y: (s.call('connect', con, y, A), s.call('common', com, y, A)), B, ys, fit=apart)
    return [s]

def job_cells_kin(P, seed, n):
    r = gen.rng(seed, 'cellskin', P, n)
    ns = core.pkg(P)
    U, OD = ns.utils, ns.occupation_domain
    s = Session('kin/%d' % n)
    x = geo.subset(r, geo.polycube(r, P, 1 if P == 'ico' else 2), 4)
    solid = lambda y: not any(geo.flat(P, t) for t in y)
    def cells(y):
        if P == 'ico':
            s.call('surface', U.generator_surface_1, y)
            call_n(s, 'unique', U.generator_unique_triangles, y, 3)
        call_n(s, 'unique', U.generator_unique_edges, y, 2)
        call_n(s, 'all_cells', U.generator_all_edges, y, 2)
    kin.meet(r, P, cells, x, fit=solid)
    # outlines: of domains that stay face-to-face
    s2 = Session('kin-border/%d' % n)
    x = geo.shuffled(r, geo.polycube(r, P, 1 if P == 'ico' else 2))
    g = lambda T: geo.comb(P, list(T), [Fr(1, len(T))] * len(T))
    m = g(x[0])
    far = np.array([[1, 0, 1]] * 4 + [[0, 0, 1]] * 2)
    ys = [np.array([[geo.comb(P, [m, v], [Fr(2), Fr(-1)]) for v in T] for T in x]), np.array([[geo.addv(v, far) for v in T] for T in x]),
          x[::-1].copy(), x[1:].copy(), np.concatenate([x[:1], x[2:]]), x[:-1].copy()]
    y = x.copy(); y[:, :, :, :2] *= -1; ys.append(y)
    y = x.copy(); y[..., 2] *= 2; ys.append(gen.low(y))
    def border(y):
        s2.call('border', OD.generate_border_edges, y)
        if P == 'dode':
            s2.call('border', OD.outline, y)
    same = [y for y in ys if y.shape == x.shape and solid(y)]
    kin.meet(r, P, border, x, same, most=4)
    for y in ys:
        if y.shape != x.shape:
            border(y)
    return [s, s2]

def job_hull_kin(P, seed, n):
    r = gen.rng(seed, 'hullkin', P, n)
    ns = core.pkg(P)
    U, OD = ns.utils, ns.occupation_domain
    d = 3 if P == 'ico' else 2
    tri = U.tetrahedralization_points if P == 'ico' else U.triangulation_points
    s = Session('kin/%d' % n)
    T = geo.simplex(r, P)
    g = geo.comb(P, list(T), [Fr(1, d + 1)] * (d + 1))
    p = np.array(list(T) + [g])
    alt = [np.array([geo.comb(P, [g, v], [Fr(2), Fr(-1)]) for v in p])]
    y = p.copy(); y[-1] = geo.comb(P, list(T), [Fr(2, d + 1), Fr(0)] + [Fr(1, d + 1)] * (d - 1)); alt.append(y)
    y = p.copy(); y[0] = geo.comb(P, [g, T[0]], [Fr(-1), Fr(2)]); alt.append(y)
    y = p.copy(); y[..., :2] *= -1; alt.append(y)
    y = p.copy(); y[..., 2] *= 2; alt.append(gen.low(y))
    kin.meet(r, P, lambda t: s.call('triang', tri, t), p, alt)
    x = geo.shuffled(r, geo.polycube(r, P, 1 if P == 'ico' else 2))
    m = geo.comb(P, list(x[0]), [Fr(1, d + 1)] * (d + 1))
    alt = [np.array([[geo.comb(P, [m, v], [Fr(2), Fr(-1)]) for v in t] for t in x]), np.array([[geo.addv(v, T[0]) for v in t] for t in x])]
    y = x.copy(); y[..., 2] *= 2; alt.append(gen.low(y))
    y = x.copy(); y[..., :2] *= -1; alt.append(y)
    kin.meet(r, P, lambda y: s.call('simplify', OD.simplification, y), x, alt, most=3)
    if geo_convex(P, x):
        kin.meet(r, P, lambda y: s.call('hull', U.generate_convex_hull, y), x, alt)
    f = U.merge_two_tetrahedra if P == 'ico' else U.merge_two_triangles
    w = geo.comb(P, [T[0], T[1]], [Fr(1, 4), Fr(3, 4)])
    A, B = T.copy(), T.copy()
    A[0], B[1] = w, w
    alt = [geo.simplex(r, P)]
    for k in range(d + 1):
        y = B.copy(); y[k] = geo.comb(P, [B[k], T[(k + 1) % (d + 1)]], [Fr(3, 2), Fr(-1, 2)]); alt.append(y)
    # only pairs that do not overlap are specified
    h = geo.comb(P, list(B), [Fr(1, d + 1)] * (d + 1))
    alt = [y for y in alt if not geo.flat(P, y)]
    kin.meet(r, P, lambda y: s.call('merge', f, A, y), B, alt)
    kin.meet(r, P, lambda y: s.call('merge', f, y, A), B, alt)
    return [s]

def run_dedup(c):
    k = 24 if c.tier == 'quick' else 300
    big = [(P, 'job_dedup_big', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(2 if c.tier == 'quick' else 10)]
    big += [(P, 'job_dedup_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(6 if c.tier == 'quick' else 60)]
    c.traces_of('ConfComb', core.run_jobs('comb', big + [(P, f, {'seed': c.seed, 'n': i}) for f in ('job_dedup', 'job_pairs') for P in ('ico', 'dode') for i in range(k)]))

def run_cells(c):
    k = 27 if c.tier == 'quick' else 300
    q = c.tier == 'quick'
    big = [(P, 'job_cells_big', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(2 if q else 6)]
    big += [(P, 'job_soup', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(12 if q else 150)]
    big += [(P, 'job_cells_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(6 if q else 40)]
    c.traces_of('ConfComb', core.run_jobs('comb', big + [(P, 'job_cells', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))

def run_hull(c):
    k = 27 if c.tier == 'quick' else 300
    kin = [(P, 'job_hull_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(6 if c.tier == 'quick' else 60)]
    c.traces_of('ConfComb', core.run_jobs('comb', kin + [(P, f, {'seed': c.seed, 'n': i}) for f in ('job_hull', 'job_hand', 'job_join') for P in ('ico', 'dode') for i in range(k)]))
