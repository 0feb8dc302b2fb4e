"""X03: which requests are answered."""
import os, hashlib, shutil, tempfile
import numpy as np
import core, gen, geo
from core import Session
from props.arith import emitted

def answer(o):
    return 'refused' if o['k'] in ('none', 'exc') else 'value'

def digest(x):
    if isinstance(x, np.ndarray):
        return hashlib.sha256(repr(x.ravel().tolist()).encode()).hexdigest()[:16]
    return repr(x)[:60]

def asks(P, ns, dom, c, k):
    M, S, U, O, D = ns.math1, ns.symmetry, ns.utils, ns.occupation_domain, ns.two_occupation_domains
    T = 'tetrahedron' if P == 'ico' else 'triangle'
    num = np.array([1, 1, 2])
    op = getattr(S, 'icosasymop' if P == 'ico' else 'dodesymop')()[k]
    return {'add_vectors': lambda x: M.add_vectors(x, x), 'sub_vectors': lambda x: M.sub_vectors(x, x),
            'mul_vector': lambda x: M.mul_vector(x, num), 'mul_vectors': lambda x: M.mul_vectors(x, num),
            'centroid': M.centroid, 'centroid_obj': M.centroid_obj,
            'symmetric': lambda x: O.symmetric(x, c), 'symmetric_0': lambda x: O.symmetric_0(x, c, k),
            'expand': lambda x: S.generator_obj_symmetric_obj(x, c), 'transform': lambda x: S.symop_obj(op, x, c),
            'expand_by': lambda x: getattr(S, 'generator_obj_symmetric_%s_specific_symop' % T)(x, c, [k, 0]),
            'shift': lambda x: O.shift(x, c), 'volume': lambda x: O.volume(x),
            'measure': U.obj_volume_6d if P == 'ico' else U.obj_area_6d,
            'simplex_measure': U.tetrahedron_volume_6d if P == 'ico' else U.triangle_area_6d,
            'dedup': U.remove_doubling, 'dedup_perp': U.remove_doubling_in_perp_space,
            'all_edges': U.generator_all_edges, 'unique_edges': U.generator_unique_edges,
            'meet_first': lambda x: D.intersection(x, dom), 'meet_second': lambda x: D.intersection(dom, x),
            'convex_first': lambda x: D.intersection_convex(x, dom), 'convex_second': lambda x: D.intersection_convex(dom, x),
            'equivalent': lambda x: U.equivalent(x, x)}

def job_ask(P, seed, n):
    r = gen.rng(seed, 'ask', P, n)
    ns = core.pkg(P)
    T = geo.simplex(r, P)
    cell = geo.polycube(r, P, 1)
    dom = np.array([T])
    k = r.randrange(24)
    c = gen.cen(r)
    if P == 'dode':
        c[5] = (0, 0, 1)
    out = []
    for f, fn in asks(P, ns, dom, c, k).items():
        s = Session('ask/%s/%d' % (f, n))
        forms = [('one', 3, T), ('one', 4, T[None]), ('one', 5, T[None, None]), ('v', 2, T[0]), ('num', 1, T[0][0]), ('none', 0, None)]
        forms += [('cell', 4, cell), ('cell', 5, cell[None])]
        r.shuffle(forms)
        for name, rank, x in forms:
            if f.startswith(('meet', 'convex')) and name == 'cell':
                continue
            o, v = core.attempt(fn, None if x is None else x.copy())
            if f in ('dedup', 'dedup_perp') and isinstance(v, np.ndarray):
                v = np.array(sorted(v.reshape(-1, 18).tolist()))
            s.event('ask', [], more={'f': f, 'n': rank, 'x': name, 'ans': answer(o), 'd': digest(v)})
        out.append(s)
    s = Session('numbers/%d' % n)
    M = ns.math1
    for t in range(12):
        a = np.array(gen.num(r, 9))
        b = np.array(gen.num(r, 9)) if t % 2 else np.array([0, 0, r.choice((1, 2, -3, 7))])
        if t % 4 == 2:
            a = np.array([0, 0, 1])
        s.call('divide', M.div, a, b)
    for t in range(16):
        sh = [[r.randint(1, 4) for _ in range(r.choice((1, 2, 2, 3)))] for _ in range(2)]
        if r.random() < .6:
            sh[1][0] = sh[0][-1]
        A, B = (np.array([gen.num(r, 3) for _ in range(int(np.prod(q)))]).reshape(*q, 3) for q in sh)
        o, v = core.attempt(M.dot_product, A, B)
        s.event('product', [], more={'sh': sh, 'ans': answer(o)})
        Ai = A[..., 0].copy()
        if len(sh[0]) == 2:
            o, v = core.attempt(M.dot_product_1, Ai, B)
            s.event('product', [], more={'sh': sh, 'ans': answer(o)})
        o, v = core.attempt(M.matrixpow, Ai, r.choice((0, 1, 2, 3)))
        s.event('power', [], more={'sh': sh[0], 'ans': answer(o)})
    out.append(s)
    s = Session('load/%d' % n)
    d = tempfile.mkdtemp(prefix='vrf-guard-')
    try:
        O = ns.occupation_domain
        kind = 'tetrahedron' if P == 'ico' else 'triangle'
        core.attempt(O.write_xyz, cell, d, 'there', kind)
        for name in ('there', 'absent', 'there'):
            o, v = core.attempt(O.read_xyz, d, name, kind)
            s.event('load', [], more={'exists': name == 'there', 'ans': answer(o)})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out.append(s)
    return out

def job_store(P, seed, n, items):
    ns = core.pkg(P)
    out = []
    np3 = 4 if P == 'ico' else 3
    for q, h in enumerate(items):
        r = gen.rng(seed, 'store', P, n, q)
        cell = geo.polycube(r, P, 1)
        s = Session('store/' + ';'.join('%s%s' % (k, m) for _, k, m in h))
        d = tempfile.mkdtemp(prefix='vrf-guard-')
        f = os.path.join(d, 'o.xyz')
        look = lambda: hashlib.sha256(open(f, 'rb').read()).hexdigest()[:16] if os.path.exists(f) else ''
        try:
            for _, kind, m in h:
                np_ = {'tetrahedron': 4, 'triangle': 3, 'edge': 2}.get(kind, 1)
                if kind == 'vertex':
                    x = {0: None, 1: cell[0][0][0], 2: cell[0][0], 3: cell[r.randrange(len(cell))], 4: cell, 5: cell[None]}[m]
                else:
                    x = cell[r.sample(range(len(cell)), r.randint(1, len(cell)))][:, :min(np_, np3)]
                    x = {0: None, 1: cell[0][0][0], 2: cell[0][0], 3: x[0], 4: x, 5: x[None]}[m]
                b = look()
                how = (lambda x: ns.occupation_domain.write_xyz(x, d, 'o', kind))
                o, _ = core.attempt(how, x)
                s.event('store', [], more={'kind': kind, 'n': m, 'ans': answer(o), 'before': b, 'after': look()})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out.append(s)
    return out

def run(c):
    q = c.tier == 'quick'
    jobs = []
    for P in ('ico', 'dode'):
        out, st = core.tlc('Guard', {'PKG': '"%s"' % P, 'Depth': 2 if q else 3, 'Emit': 'TRUE'}, c.work, spec='GuardSpec',
                           extra_cfg='INVARIANT LastAccepted\nINVARIANT EmitInv\n')
        c.model('Guard %s (exhaustive)' % P, out, st)
        h = emitted(out)
        gen.rng(c.seed, 'guard', P).shuffle(h)
        h = h[:6000]
        jobs += [(P, 'job_store', {'seed': c.seed, 'n': j, 'items': h[j::8]}) for j in range(8)]
        jobs += [(P, 'job_ask', {'seed': c.seed, 'n': j}) for j in range(8 if q else 60)]
    c.traces_of('ConfGuard', core.run_jobs('guard', jobs))
