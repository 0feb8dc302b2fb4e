"""S01, S02: the group and its action; S03: expansion; S04: sites and cosets; S05: similarity."""
import numpy as np
import core, gen, kin
from core import Session, i32
from props.A03 import arr

def start(P, key):
    ns = core.pkg(P)
    s = Session(key)
    fn = ns.symmetry.icosasymop if P == 'ico' else ns.symmetry.dodesymop
    ops = s.call('ops', fn)
    return ns, s, ops

def low(a):
    """the same numbers in lowest terms"""
    g = np.gcd.reduce(a, axis=-1)
    a = a // g[..., None]
    return a * np.where(a[..., 2] < 0, -1, 1)[..., None]

def job_apply(P, seed, n):
    r = gen.rng(seed, 'apply', P, n)
    ns, s, ops = start(P, 'apply/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S = ns.symmetry
    def ap(fn, i, x, c):
        o, _ = core.attempt(fn, ops[i], x, c)
        s.event('apply', [i32(i), core.enc(x), core.enc(c)], o)
    idx = list(range(n, len(ops), 12)) or [0]
    for i in idx:
        c = gen.cen(r)
        v = arr(r, 6, m=4, dens=(1, 2, 3, -1))
        ap(S.symop_vec, i, v, c)
        ap(S.symop_obj, i, v, c)
        ap(S.symop_vec, i, c, c)                                # the centre stays
        ap(S.symop_vecs, i, arr(r, r.choice((1, 2, 3, 4, 5)), 6, m=3), c)
        ap(S.symop_obj, i, arr(r, r.choice((1, 2, 4)), 6, m=3), c)
        ap(S.symop_obj, i, np.array([gen.simplex(r, P) for _ in range(r.choice((1, 2, 3)))]), c)
        e = np.array([[0, 0, 1]] * 6); e[r.randrange(6)] = (1, 0, 1)
        ap(S.symop_vec, i, e, np.array([[0, 0, 1]] * 6))
    return [s]

def job_apply_kin(P, seed, n):
    r = gen.rng(seed, 'applykin', P, n)
    ns, s, ops = start(P, 'kin/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S = ns.symmetry
    def ap(fn, i, x, c):
        o, _ = core.attempt(fn, ops[i], x, c)
        s.event('apply', [i32(i), core.enc(x), core.enc(c)], o)
    c, i = low(gen.cen(r)), r.randrange(len(ops))
    v = low(gen.vec(r, 6, 3, (1, 2, 3)))
    x = np.array([low(gen.simplex(r, P)) for _ in range(2)])
    kin.meet(r, P, lambda y: ap(S.symop_vec, i, y, c), v)
    kin.meet(r, P, lambda y: ap(S.symop_vecs, i, y, c), x[0])
    kin.meet(r, P, lambda y: ap(S.symop_obj, i, y, c), x)
    for fn, y in ((S.symop_vec, v), (S.symop_vecs, x[0]), (S.symop_obj, x)):
        kin.meet(r, P, lambda d: ap(fn, i, y, d), c)
    for j in r.sample(range(len(ops)), 6):
        ap(S.symop_obj, j, x, c)
        ap(S.symop_vec, j, v, c)
    return [s]

def job_apply_wide(P, seed, n):
    """large coordinates, large arrays"""
    r = gen.rng(seed, 'applywide', P, n)
    ns, s, ops = start(P, 'wide/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S = ns.symmetry
    def ap(fn, i, x, c):
        o, _ = core.attempt(fn, ops[i], x, c)
        s.event('apply', [i32(i), core.enc(x), core.enc(c)], o)
    for k in range(6):
        i = r.randrange(len(ops))
        e = (40, 52, 56)[k % 3]
        c = (low(gen.cen(r)), low(gen.wide(r, 6, e=e)))[k % 2]
        ap(S.symop_vec, i, low(gen.wide(r, 6, e=e)), c)
        ap(S.symop_vecs, i, low(gen.wide(r, 4, 6, e=e)), c)
        ap(S.symop_obj, i, low(gen.wide(r, 2, 4 if P == 'ico' else 3, 6, e=e)), c)
    c = low(gen.cen(r))
    ap(S.symop_vecs, r.randrange(len(ops)), low(arr(r, 150 + n, 6, m=3, dens=(1, 2))), c)
    ap(S.symop_obj, r.randrange(len(ops)), low(np.array([gen.simplex(r, P) for _ in range(130 + n)])), c)
    return [s]

def job_expand_wide(P, seed, n):
    r = gen.rng(seed, 'expandwide', P, n)
    ns, s, ops = start(P, 'wide/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S, OD = ns.symmetry, ns.occupation_domain
    k = 4 if P == 'ico' else 3
    c = (low(gen.cen(r)), low(gen.wide(r, 6)))[n % 2]
    x = low(gen.wide(r, 1, k, 6))
    s.call('expand', OD.symmetric, x, c)
    s.call('equivalent_vec', S.generator_equivalent_vec, x[0][0], c)
    x = low(np.array([gen.simplex(r, P, 2, (1,)) for _ in range(12 if P == 'ico' else 50)]))
    s.call('expand', OD.symmetric, x, low(gen.cen(r)))
    kind = 'tetrahedron' if P == 'ico' else 'triangle'
    fl = getattr(S, 'generator_obj_symmetric_%s_specific_symop' % kind)
    x = low(np.array([gen.simplex(r, P) for _ in range(110)]))
    l = r.sample(range(len(ops)), 2)
    o, _ = core.attempt(fl, x, c, l)
    s.event('expand_list', [core.enc(x), core.enc(c), {'k': 'list', 'v': [i32(i) for i in l]}], o)
    i = r.randrange(len(ops))
    o, _ = core.attempt(OD.symmetric_0, x, c, i)
    s.event('apply', [i32(i), core.enc(x), core.enc(c)], o)
    return [s]

def job_expand_kin(P, seed, n):
    r = gen.rng(seed, 'expandkin', P, n)
    ns, s, ops = start(P, 'kin/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S, OD = ns.symmetry, ns.occupation_domain
    kind = 'tetrahedron' if P == 'ico' else 'triangle'
    fl = getattr(S, 'generator_obj_symmetric_%s_specific_symop' % kind)
    G = len(ops)
    k = 1 if P == 'ico' else 2
    x = np.array([low(gen.simplex(r, P)) for _ in range(k)])
    c = low(gen.vec(r, 6, 3, (1, 2, 3)) if n % 2 else gen.cen(r))
    l = r.sample(range(G), 3)
    def full(y, d):
        s.call('expand', OD.symmetric, y, d)
    def part(y, d):
        i = l[0]
        o, _ = core.attempt(OD.symmetric_0, y, d, i)
        s.event('apply', [i32(i), core.enc(y), core.enc(d)], o)
        o, _ = core.attempt(fl, y, d, l)
        s.event('expand_list', [core.enc(y), core.enc(d), {'k': 'list', 'v': [i32(i) for i in l]}], o)
    few = 4 if P == 'ico' else None
    kin.meet(r, P, lambda y: full(y, c), x, most=few)
    kin.meet(r, P, lambda d: full(x, d), c, most=few)
    kin.meet(r, P, lambda y: part(y, c), np.concatenate([x, [low(gen.simplex(r, P))]]))
    kin.meet(r, P, lambda d: part(x, d), c)
    v = low(gen.vec(r, 6, 2, (1, 2)))
    kin.meet(r, P, lambda w: s.call('equivalent_vec', S.generator_equivalent_vec, w, c), v, most=few)
    kin.meet(r, P, lambda d: s.call('equivalent_vec', S.generator_equivalent_vec, v, d), c, most=few)
    return [s]

def job_expand(P, seed, n):
    r = gen.rng(seed, 'expand', P, n)
    ns, s, ops = start(P, 'expand/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S, OD = ns.symmetry, ns.occupation_domain
    kind = 'tetrahedron' if P == 'ico' else 'triangle'
    G = len(ops)
    def ex(fn, x, c):
        s.call('expand', fn, x, c)
    def exl(fn, x, c, l):
        o, _ = core.attempt(fn, x, c, l)
        l = [l] if isinstance(l, int) else l
        s.event('expand_list', [core.enc(x), core.enc(c), {'k': 'list', 'v': [i32(i) for i in l]}], o)
    c = gen.cen(r)
    k = n % 4 + 1 if P == 'dode' else n % 2 + 1
    x = np.array([low(gen.simplex(r, P)) for _ in range(k)])
    if n % 3 == 1:
        x[0][0] = low(c)          # a vertex on the centre: images coincide there
    if n % 3 == 2:
        x[0] = low(np.array([c] * x.shape[1]))      # fully degenerate: 'exactly once' per operation even then
    ex(OD.symmetric, x, c)
    ex(OD.symmetric, x[0], c)
    if n % 4 == 0:
        ex(S.generator_obj_symmetric_obj, x, c)
        ex(getattr(S, 'generator_obj_symmetric_' + kind), x, c)
        ex(S.generator_obj_symmetric_vec, x[0][:2], c)
        if P == 'ico':
            ex(S.generator_obj_symmetric_surface, x[:, :3], c)
    f0 = getattr(S, 'generator_obj_symmetric_%s_0' % kind)
    fl = getattr(S, 'generator_obj_symmetric_%s_specific_symop' % kind)
    for i in sorted({0, G - 1, r.randrange(G), r.randrange(G), r.randrange(G)}):
        for fn in (OD.symmetric_0, f0):
            for y in (x, x[0]):
                o, _ = core.attempt(fn, y, c, i)
                s.event('apply', [i32(i), core.enc(y), core.enc(c)], o)
        if P == 'dode':
            o, _ = core.attempt(S.generator_symmetric_vec_0, x[0][0], c, i)
            s.event('apply', [i32(i), core.enc(x[0][0]), core.enc(c)], o)
    for l in ([r.randrange(G)], r.sample(range(G), 3), sorted(r.sample(range(G), 7), reverse=True), [5, 2, 5]):
        exl(fl, x, c, l)
        exl(fl, x[0], c, l)
    v = low(gen.vec(r, 6, 2, (1, 2)))
    sp = np.array([[1, 0, 1]] + [[0, 0, 1]] * 5)        # on a symmetry axis: fewer images
    for w in (v, sp, low(c), x[0][1]):
        s.call('equivalent_vec', S.generator_equivalent_vec, w, c)
        s.call('equivalent_vectors', S.generator_equivalent_vectors, np.array([w]), c)
    s.call('equivalent_vec', S.generator_equivalent_vec, np.array([v, sp]), c)
    # next to a symmetry axis or the centre: all images are distinct, however close
    a, b = gen.unit_pow(P, r.choice((20, 32, 40)) if P == 'ico' else r.choice((6, 10, 14)))
    for w in ((sp, low(c)) if P == 'dode' else (r.choice((sp, low(c))),)):
        t = np.array([[0, 0, 1]] * 6); t[r.randrange(1, 4)] = (a, b, 1)
        w = ns.math1.add_vectors(w, t)
        s.call('equivalent_vec', S.generator_equivalent_vec, w, c)
        s.call('equivalent_vectors', S.generator_equivalent_vectors, np.array([w]), c)
    s.call('equivalent_vectors', S.generator_equivalent_vectors, x[0], c)
    if P == 'ico':      # different lifts of one point
        t = np.array([[1, 0, 1], [0, 1, 1], [0, 1, 1], [0, 0, 1], [-1, 0, 1], [0, 0, 1]])
        w = ns.math1.add_vectors(v, t)
        s.call('equivalent_vectors', S.generator_equivalent_vectors, np.array([v, w, v]), c)
    return [s]

NEAR = [(6, 7), (13, 15), (84, 97), (181, 209), (1170, 1351), (2521, 2911), (16296, 18817), (35113, 40545), (226974, 262087), (489061, 564719)]
def sites(r, n):
    z = [0, 0, 1]
    if n == 0:
        return [np.array([z] * 6), np.array([[1, 0, 1], [-2, 0, 1], [3, 0, 1], [0, 0, 1], [1, 0, 1], z])]
    if n == 1:
        return [np.array([[1, 0, 2]] * 4 + [z, z]), np.array([[1, 0, 2]] * 5 + [z]), np.array([[3, 0, 2], z, [-5, 0, 2], z, z, z])]
    if n == 2:
        return [np.array([[1, 0, 3], [2, 0, 3], [1, 0, 3], [2, 0, 3], z, z]), np.array([z, z, z, z, [1, 0, 3], z])]
    d = r.choice((2, 2, 3, 4, 6))
    v = [[r.randint(-d, 2 * d), 0, d] for _ in range(4)]
    out = []
    if n % 3 == 0:
        v[3] = list(v[0]); v[2] = list(v[1])             # fixed by the mirror
    if n % 3 == 1 and r.random() < .5:
        v = [[r.randint(0, 1), 0, 2] for _ in range(4)]
    out.append(np.array(v + [[r.randint(-2, 2), 0, r.choice((1, 2))], z]))
    out.append(np.array([gen.num(r, 2, (1, 2)) for _ in range(4)] + [z, z]))
    # images that nearly differ by lattice vectors: q sqrt(3)/2 close to an integer p
    p, q = r.choice(NEAR)
    k, t = r.choice(((1, 2), (1, 1), (2, 1), (1, 3))), np.array([z] * 6)
    for i in r.sample(range(4), r.choice((1, 1, 2, 4))):
        t[i] = r.choice(((0, q * k[0], k[1]), (-p * k[0], q * k[0], k[1]), (p * k[0], -q * k[0], 2 * k[1])))
    out.append(t)
    return out

def job_site(P, seed, n):
    r = gen.rng(seed, 'site', P, n)
    ns, s, ops = start(P, 'site/%d' % n)
    if not isinstance(ops, list):
        return [s]
    S = ns.symmetry
    def rec(op, v, fn, *a):
        o, _ = core.attempt(fn, v, *a)
        s.event(op, [core.enc(v)], o)
    vs = [low(v) for v in sites(r, n)]
    # the same kind of site, moved by an operation and a lattice vector; sites on any of the mirror lines, up to a lattice vector
    M = ns.math1
    for v in list(vs) + [low(np.array([a, b, b, a] + [[0, 0, 1]] * 2)) for a, b in [(gen.num(r, 5, (1, 2, 3, 5, 7)), gen.num(r, 5, (1, 2, 4, 11)))]]:
        w = core.attempt(S.symop_vec, ops[r.randrange(len(ops))], v, np.array([[0, 0, 1]] * 6))[1]
        if isinstance(w, np.ndarray):
            t = np.array([[r.choice((0, 0, 1, -1, 25, -40)), 0, 1] for _ in range(5)] + [[0, 0, 1]])
            w = core.attempt(M.add_vectors, w, t)[1]
            if isinstance(w, np.ndarray):
                vs.append(low(w))
    for v in vs:
        for nd in (5, 4):
            rec('site_symmetry', v, S.site_symmetry, nd)
            rec('coset', v, S.coset, nd)
            rec('site_symmetry_and_coset', v, S.site_symmetry_and_coset, nd, 0)
        rec('site_symmetry', v, S.site_symmetry)
        rec('coset', v, S.coset)
        rec('site_symmetry_and_coset', v, S.site_symmetry_and_coset, 5, 1)
    def both(v):
        rec('site_symmetry', v, S.site_symmetry, 5)
        rec('coset', v, S.coset, 5)
    if n % 6 == 0:
        kin.meet(r, P, both, low(r.choice(sites(r, n))))
    return [s]

def job_sim(P, seed, n):
    r = gen.rng(seed, 'sim', P, n)
    ns, s, ops = start(P, 'sim/%d' % n)
    S, OD = ns.symmetry, ns.occupation_domain
    def sim(fn, x, m):
        o, y = core.attempt(fn, x, m)
        s.event('similarity', [core.enc(x), i32(m)], o)
        return y if isinstance(y, np.ndarray) and y.shape == x.shape else None
    x = np.array([gen.simplex(r, P) for _ in range(r.choice((1, 2, 3)))])
    for m in (n % 9 - 4, r.randint(-8, 8), 0):
        v = gen.vec(r, 6, 4, (1, 2, 3))
        sim(S.similarity_vec, v, m)
        sim(S.similarity_triangle, x[0], m)
        sim(S.similarity_obj, x, m)
        y = sim(OD.similarity, x, m)
        if y is not None:
            y = sim(OD.similarity, y, r.randint(-5, 5))     # compositions
        y = sim(OD.similarity, x, m)
        if y is not None:
            sim(OD.similarity, y, -m)
    for m in (r.randint(9, 20), r.randint(21, 58), -r.randint(9, 20), -r.randint(21, 58)):    # beyond 32 bits
        sim(S.similarity_vec, gen.vec(r, 6, 4, (1, 2, 3)), m)
        y = sim(OD.similarity, x, m)
        if y is not None:
            sim(OD.similarity, y, -m)
    # components over one denominator: common factors arise in the products
    for den in (2, 3, 6, 1 + n % 12):
        for m in (r.choice((1, 2, 3)), -r.choice((1, 2, 3)), 4 + n % 5):
            v = low(gen.vec(r, 6, 7, (den,)))
            sim(S.similarity_vec, v, m)
            y = np.array([low(np.array([gen.vec(r, 6, 7, (den,)) for _ in range(3)])) for _ in range(2)])
            sim(S.similarity_triangle, y[0], m)
            sim(OD.similarity, y, m)
    if n % 12 == 5:
        y = low(np.array([gen.simplex(r, P) for _ in range(120)]))
        sim(OD.similarity, y, r.choice((1, -1, 2)))
        sim(OD.similarity, low(gen.wide(r, 2, 3, 6, e=48)), r.choice((1, -1, 2, 3)))
    m = r.choice((1, -1, 2, 3))
    if n % 3 == 0:
        x = low(x)
        kin.meet(r, P, lambda y: sim(OD.similarity, y, m), x)
        kin.meet(r, P, lambda y: sim(S.similarity_vec, y, m), x[0][1])
    e = np.array([[0, 0, 1]] * 6); e[n % 6] = (1, 0, 1)
    for m in (1, -1, 2, -2):
        sim(S.similarity_vec, e, m)
    return [s]

def group_model(c, pk):
    out, st = core.tlc('GroupModel', {'PKG': '"%s"' % pk}, c.work, spec='Spec',
                       extra_cfg='INVARIANT GroupInv HasInverse InOps\n')
    c.model('GroupModel/' + pk, out, st)
    if st['distinct'] != {'ico': 120, 'dode': 24}[pk]:
        raise core.TlcError('group of order %d' % st['distinct'])

def run_action(c, pk):
    group_model(c, pk)
    k = 24 if c.tier == 'quick' else 120
    kin = [(pk, f, {'seed': c.seed, 'n': i}) for f in ('job_apply_kin', 'job_apply_wide') for i in range(6 if c.tier == 'quick' else 60)]
    c.traces_of('ConfSym', core.run_jobs('sym', kin + [(pk, 'job_apply', {'seed': c.seed * 1000 + i // 12, 'n': i % 12}) for i in range(k)]))

def run_expand(c):
    for pk in ('ico', 'dode'):
        group_model(c, pk)
    k = (8, 24) if c.tier == 'quick' else (48, 240)
    kin = [(P, 'job_expand_wide', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(2 if c.tier == 'quick' else 12)]
    kin += [(P, 'job_expand_kin', {'seed': c.seed, 'n': i}) for P, m in (('ico', 4), ('dode', 8)) for i in range(m if c.tier == 'quick' else 40)]
    c.traces_of('ConfSym', core.run_jobs('sym', kin + [('ico', 'job_expand', {'seed': c.seed, 'n': i}) for i in range(k[0])] +
                                         [('dode', 'job_expand', {'seed': c.seed, 'n': i}) for i in range(k[1])]))

def run_site(c):
    group_model(c, 'dode')
    k = 48 if c.tier == 'quick' else 600
    c.traces_of('ConfSym', core.run_jobs('sym', [('dode', 'job_site', {'seed': c.seed, 'n': i}) for i in range(k)]))

def run_sim(c):
    group_model(c, 'dode')
    k = 48 if c.tier == 'quick' else 600
    c.traces_of('ConfSym', core.run_jobs('sym', [('dode', 'job_sim', {'seed': c.seed, 'n': i}) for i in range(k)]))
