"""X01: calls change nothing but their result and depend on nothing but their arguments."""
import os, sys, json, hashlib, random, shutil, subprocess, tempfile, threading
import numpy as np
from fractions import Fraction as Fr
import core, gen, geo
from core import Session, enc
from gen import low
from props.arith import emitted

def dig(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]

# ------------------------------------------------------------ the caller's data
def context(r, P, root):
    """arrays and files of one session, by name"""
    d = 3 if P == 'ico' else 2
    bs = geo.basis(r, P, scale=((1, 0), (1, 0), (0, 1)))
    o = geo.origin(r, P)
    f = r.choice((Fr(1), Fr(1), Fr(1, 5), Fr(7, 3)))
    bs, o = [geo.comb(P, [b], [f]) for b in bs], geo.comb(P, [o], [f])
    dom = geo.polycube(r, P, 1 if P == 'ico' else 2, o, bs)
    half = geo.comb(P, [bs[0]], [Fr(1, 2)])
    dom2 = np.array([[geo.addv(v, half) for v in T] for T in dom])
    if P == 'ico':
        dom = geo.rest(r, P, dom, 2)
        dom2 = geo.rest(r, P, dom2, r.choice((2, 2, 3)))
    dom, dom2 = geo.shuffled(r, dom), geo.shuffled(r, dom2)
    tet = dom[0].copy()
    tet2 = dom2[0].copy()
    x = {'dom': dom, 'dom2': dom2, 'tet': tet, 'tet2': tet2, 'one': tet[None].copy(),
         'tri': tet[:3].copy(), 'tri2': tet2[:3].copy(), 'tris': np.array([T[:3] for T in dom]),
         'seg': tet[:2].copy(), 'seg2': np.array([tet[0], tet2[1]]), 'edges': np.array([T[:2] for T in dom]),
         'vecs': dom.reshape(-1, 6, 3).copy(), 'vecs2': np.array([tet[0], tet[1], tet2[0], tet2[0]]),
         'v': tet[1].copy(), 'w': tet2[2].copy(), 'c': gen.cen(r), 'c0': np.array([[0, 0, 1]] * 6), 'org': np.array(o),
         'a': np.array(gen.num(r, 4)), 'b': np.array([r.randint(1, 4), r.randint(-3, 3), 2]),
         'v3': gen.vec(r, 3, 3), 'w3': gen.vec(r, 3, 3), 'tet3': np.array([gen.vec(r, 3, 3) for _ in range(d + 1)]),
         'm3': np.array([gen.vec(r, 3, 2, (1,)) for _ in range(3)]), 'im': np.array([[1, 1], [1, 0]]) ,
         'unred': tet * np.array([-2, -2, -2]),
         'idx': [0, 3, 5], 'idx2': [1, 2, 7], 'half6': [0.5] * 6, 'site': np.array([[r.choice((0, 1)), 0, 2] for _ in range(6)])}
    if P == 'dode':
        for k in ('c', 'site'):
            x[k][5] = (0, 0, 1)
        x['site'][4] = (0, 0, 1)
    x['mat'] = np.array([gen.vec(r, 6, 2, (1, 2)) for _ in range(6)])
    R = {'ico': (1 + 5 ** .5) / 2, 'dode': 3 ** .5 / 2}[P]
    x['fv6'] = (x['v'][:, 0] + R * x['v'][:, 1]) / x['v'][:, 2]
    fp = lambda v: np.array(([geo.val(P, t) for t in geo.perp(P, v)] + [0.0])[:3])
    x['m6'] = np.array([[r.randint(-2, 2) for _ in range(6)] for _ in range(6)])
    far = geo.addv(geo.addv(tet[0], tet[1]), np.array([[-a, -b, c] for a, b, c in tet[2]]))
    if d == 3:
        x['next'] = np.array([geo.addv(geo.addv(tet[0], tet[1]), np.array([[-a, -b, c] for a, b, c in tet[3]])), tet[0], tet[1], tet[2]])
    else:
        x['next'] = np.array([far, tet[0], tet[1]])
    x['ext'] = np.array([tet[i].copy() for i in range(d - 1)] + [tet[d], geo.addv(geo.addv(tet[d], tet[d]), np.array([[-a, -b, c] for a, b, c in tet[d - 1]]))])
    x['coll'] = np.array([tet[1], geo.addv(geo.addv(tet[1], tet[1]), np.array([[-a, -b, c] for a, b, c in tet[0]]))])
    x['near'] = np.array([geo.addv(tet[0], geo.comb(P, [bs[0]], [Fr(0)]))] + [geo.addv(tet[0], geo.comb(P, [geo.addv(v, np.array([[-a, -b, c] for a, b, c in tet[0]]))], [Fr(2, 3)])) for v in tet[1:]])
    x['fp'] = fp(x['w'])
    x['fseg'] = np.array([fp(v) for v in x['seg']])
    x['fseg2'] = np.array([fp(v) for v in x['seg2']])
    x['ftri'] = np.array([fp(v) for v in x['tri']])
    x['ftet'] = np.array([fp(v) for v in tet])
    x['fdom'] = np.array([[fp(v) for v in T] for T in dom])
    x['fv6s'] = np.array([x['fv6'], x['fv6'] * 2])
    x['cone'] = np.array(bs[:3]) if P == 'ico' else None
    if x['cone'] is None:
        del x['cone']
    x['vlist'] = [[1, 2, 3, 4], [2, 1, 3, 4, 1, 3, 5]]
    x['merge'] = [[1, 2, 3, 4], [1, 2, 3]] if P == 'dode' else [[1, 2, 3, 4]]
    # a convex partition for the convex routines
    x['cell'] = geo.polycube(r, P, 1, o, bs)
    x['cell2'] = np.array([[geo.addv(v, half) for v in T] for T in x['cell']])
    f = os.path.join(root, 'in.xyz')
    n = 4 if P == 'ico' else 3
    with open(f, 'w') as h:
        h.write('%d\nfile\n' % (len(dom) * n))
        for i, v in enumerate(dom.reshape(-1, 6, 3)):
            h.write('Xx 0.0 0.0 0.0 # %3d-the simplex %d-th vertex # %s\n' % (i // n, i % n, ' '.join(str(t) for t in v.ravel())))
    return x

def catalogue(P):
    """(name, module, function, arguments by name, takes verbose, writes files)"""
    T = 'tetrahedron' if P == 'ico' else 'triangle'
    L = []
    def f(mod, name, *args, verb=False, out=False, **kw):
        L.append((mod, name, args, verb, out, kw))
    for op in ('add', 'sub', 'mul', 'div'):
        f('math1', op, 'a', 'b')
    f('math1', 'sign', 'a')
    f('math1', 'add_vectors', 'v', 'w'); f('math1', 'sub_vectors', 'v', 'w')
    f('math1', 'mul_vector', 'v', 'b'); f('math1', 'mul_vectors', 'vecs', 'b')
    f('math1', 'outer_product', 'v3', 'w3'); f('math1', 'inner_product', 'v3', 'w3'); f('math1', 'inner_product', 'v', 'w')
    f('math1', 'dot_product', 'mat', 'v'); f('math1', 'dot_product_1', 'm6', 'v')
    f('math1', 'projection', 'v'); f('math1', 'projection3', 'v'); f('math1', 'projection_perp', 'v')
    f('math1', 'centroid', 'tet'); f('math1', 'centroid_obj', 'dom')
    f('math1', 'coplanar_check', 'vecs2'); f('math1', 'coplanar_check', 'vecs')
    f('math1', 'matrixpow', 'im', 3); f('math1', 'det_matrix', 'm3')
    N = 'numericalc'
    f(N, 'coplanar_check_numeric_tau', 'vecs'); f(N, 'coplanar_check_numeric', 'ftet')
    f(N, 'point_on_segment', 'w', 'seg'); f(N, 'on_out_surface', 'w', 'tri')
    f(N, 'numeric_value', 'a'); f(N, 'numerical_vector', 'v'); f(N, 'numerical_vectors', 'vecs'); f(N, 'length_numerical', 'v3')
    f(N, 'check_intersection_segment_surface_numerical_6d_tau', 'seg2', 'tri'); f(N, 'check_intersection_segment_surface_numerical', 'fseg2', 'ftri')
    f(N, 'check_intersection_two_segment_numerical_6d_tau', 'seg', 'seg2'); f(N, 'check_intersection_two_segment_numerical', 'fseg', 'fseg2')
    f(N, 'triangle_area', 'tri'); f(N, 'triangle_area_numerical', 'ftri')
    f(N, 'inside_outside_obj_tau', 'w', 'dom'); f(N, 'inside_outside_obj', 'fp', 'fdom')
    f(N, 'inside_outside_%s_tau' % T, 'w', 'tet'); f(N, 'inside_outside_' + T, 'fp', 'ftet')
    f(N, 'get_internal_component_numerical', 'v'); f(N, 'get_internal_component_sets_numerical', 'vecs')
    f(N, 'projection_numerical', 'fv6'); f(N, 'projection_sets_numerical', 'fv6s')
    f(N, 'projection3_numerical', 'fv6'); f(N, 'projection3_sets_numerical', 'fv6s')
    f(N, 'obj_volume_6d_numerical', 'dom')
    if P == 'ico':
        f(N, 'tetrahedron_volume_6d_numerical', 'tet'); f(N, 'obj_volume_numerical', 'fdom'); f(N, 'tetrahedron_volume_numerical', 'ftet')
    S = 'symmetry'
    f(S, 'icosasymop' if P == 'ico' else 'dodesymop')
    f(S, 'generator_obj_symmetric_obj', 'dom', 'c'); f(S, 'generator_equivalent_vec', 'v', 'c'); f(S, 'generator_equivalent_vectors', 'vecs2', 'c')
    f(S, 'generator_obj_symmetric_vec', 'vecs2', 'c')
    f(S, 'generator_obj_symmetric_%s_specific_symop' % T, 'dom', 'c', 'idx'); f(S, 'generator_obj_symmetric_%s_0' % T, 'dom', 'c', 3)
    if P == 'dode':
        f(S, 'similarity', 2); f(S, 'similarity_obj', 'dom', 1); f(S, 'similarity_vec', 'v', -1); f(S, 'similarity_triangle', 'tri', 2)
        f(S, 'site_symmetry', 'site'); f(S, 'coset', 'site'); f(S, 'site_symmetry_and_coset', 'site', 5, 0)
        f(S, 'is_lattice_vector', 'v'); f(S, 'translation', 2)
    U = 'utils'
    f(U, 'shift_object', 'dom', 'c')
    for n in (('obj_volume_6d', 'tetrahedron_volume_6d', 'tetrahedron_volume') if P == 'ico' else ('obj_area_6d', 'triangle_area_6d', 'triangle_area')):
        f(U, n, 'dom' if 'obj' in n else 'tet' if '6d' in n else 'tet3')
    f(U, 'obj_volume_6d' if P == 'ico' else 'obj_area_6d', 'one')
    f(U, 'remove_doubling', 'vecs'); f(U, 'remove_doubling_in_perp_space', 'vecs'); f(U, 'remove_doubling_in_perp_space', 'dom')
    f(U, 'generator_all_edges', 'dom'); f(U, 'generator_unique_edges', 'dom'); f(U, 'generator_unique_edges', 'edges'); f(U, 'get_triangle_edge', 'tri')
    f(U, 'generate_convex_hull', 'dom'); f(U, 'generate_convex_hull', 'cell')
    f(U, 'surface_cleaner', 'tris'); f(U, 'equivalent', 'dom', 'dom2'); f(U, 'equivalent_triangles', 'tri', 'tri2'); f(U, 'equivalent_edges', 'seg', 'seg2'); f(U, 'equivalent_vertices', 'v', 'w')
    f(U, 'sort_vctors', 'vecs'); f(U, 'sort_obj', 'dom'); f(U, 'remove_vectors', 'vecs', 'vecs2'); f(U, 'remove_vector', 'vecs', 'v')
    f(U, 'two_segment_into_one', 'seg', 'coll'); f(U, 'two_segment_into_one', 'seg', 'seg2'); f(U, 'coplanar_check_two_triangles', 'tri', 'tri2'); f(U, 'middle_position', 'v', 'w')
    if P == 'ico':
        f(U, 'generator_surface_1', 'dom', verb=True); f(U, 'generator_unique_triangles', 'dom'); f(U, 'get_tetrahedron_surface', 'tet'); f(U, 'get_tetrahedron_edge', 'tet')
        f(U, 'equivalent_tetrahedra', 'tet', 'tet2'); f(U, 'tetrahedralization_points', 'vecs'); f(U, 'merge_two_tetrahedra', 'tet', 'ext')
        f(U, 'check_connectivity_tetrahedra', 'tet', 'next'); f(U, 'check_connectivity_tetrahedra', 'tet', 'tet2'); f(U, 'get_common_triangle_in_two_tetrahedra', 'tet', 'next'); f(U, 'get_common_triangle_in_two_tetrahedra', 'tet', 'tet2'); f(U, 'get_sets_of_coplanar_triangles', 'tris')
    else:
        f(U, 'triangulation_points', 'vecs'); f(U, 'merge_two_triangles', 'tri', 'ext'); f(U, 'check_connectivity_triangles', 'tri', 'next'); f(U, 'check_connectivity_triangles', 'tri', 'tri2'); f(U, 'get_common_edge_in_two_triangles', 'tri', 'next'); f(U, 'get_common_edge_in_two_triangles', 'tri', 'tri2')
    X = 'intsct'
    f(X, 'ball_radius_obj', 'dom', 'v'); f(X, 'ball_radius', 'tet', 'v'); f(X, 'distance_in_perp_space', 'v', 'w')
    f(X, 'rough_check_intersection_%s_obj' % T, 'tet', 'w', 1.0)
    f(X, 'intersection_two_segment', 'seg', 'seg2'); f(X, 'intersection_segment_surface', 'seg2', 'tri')
    if P == 'ico':
        f(X, 'check_intersection_two_tetrahedron_4', 'tet', 'tet2'); f(X, 'intersection_two_tetrahedron_4', 'tet', 'near')
    else:
        f(X, 'check_intersection_two_triangles', 'tet', 'tet2'); f(X, 'intersection_two_triangles', 'tet', 'near')
    f(X, 'intersection_two_obj_1', 'dom', 'dom2', verb=True); f(X, 'intersection_two_obj_convex', 'cell', 'cell2', verb=True)
    O = 'occupation_domain'
    f(O, 'volume', 'dom'); f(O, 'symmetric', 'dom', 'c'); f(O, 'symmetric_0', 'dom', 'c', 3); f(O, 'shift', 'dom', 'c'); f(O, 'simplification', 'cell', verb=True); f(O, 'simplification', 'dom', verb=True)
    f(O, 'generate_border_edges', 'cell')
    f(O, 'write_xyz', 'dom', '@', 'o', verb=True, out=True); f(O, 'write', 'dom', '@', 'o', format='xyz', select=T, verb=True, out=True)
    f(O, 'write_xyz', 'vecs', '@', 'o', verb=True, out=True, select='vertex'); f(O, 'write_xyz', 'edges', '@', 'o', verb=True, out=True, select='edge')
    for m in ('normal', 'simple', 'podatm'):
        f(O, 'write_vesta', 'dom', '@', 'o', verb=True, out=True, select=m)
    f(O, 'write_vesta', 'edges', '@', 'o', verb=True, out=True, select='egdes')
    f(O, 'write', 'dom', '@', 'o', format='vesta', verb=True, out=True)
    f(O, 'obj2podatm', 'one', 1, '@', 'o', out=True); f(O, 'simple_hand_step1', 'dom', '@', 'o', out=True); f(O, 'simple_hand_step2', 'vecs', 'merge')
    f(O, 'read_xyz', '@', 'in', verb=True); f(O, 'read_xyz', '@', 'in', select='vertex', verb=True)
    if P == 'ico':
        f(O, 'asymmetric', 'cell', 'org', 'cone'); f(O, 'write_podatm', 'vecs', 'c', 'vlist', '@', 'o', verb=True, out=True)
        f(O, 'write_podatm', 'vecs', 'c0', 'vlist', '@', 'o', verb=True, out=True, shift='half6')
    else:
        f(O, 'outline', 'cell'); f(O, 'similarity', 'dom', 1)
    W = 'two_occupation_domains'
    f(W, 'intersection', 'dom', 'dom2', verb=True); f(W, 'intersection_convex', 'cell', 'cell2', verb=True)
    if P == 'ico':
        f(W, 'intersection', 'dom', 'dom2', verb=True, kind='simple')
    # the same functions with other options and other data
    f(O, 'write_vesta', 'dom', '@', 'o', verb=True, out=True, select='normal', color='r')
    f(O, 'write', 'dom', '@', 'o', format='vesta', verb=True, out=True, color='b')
    f(O, 'obj2podatm', 'one', 2, '@', 'o', out=True)
    if P == 'dode':
        f(S, 'similarity', -1); f(S, 'similarity_obj', 'dom', -2); f(S, 'translation', 1)
        f(S, 'site_symmetry', 'site', ndim=5); f(S, 'coset', 'c0')
    else:
        f('math1', 'matrixpow', 'im', 2)
    f(S, 'generator_obj_symmetric_%s_0' % T, 'dom', 'c', 5); f(O, 'symmetric_0', 'dom', 'c', 1)
    other = {'dom': 'dom2', 'tet': 'tet2', 'tri': 'tri2', 'seg': 'seg2', 'v': 'w', 'a': 'b', 'cell': 'cell2', 'c': 'c0', 'idx': 'idx2', 'vecs': 'vecs2', 'v3': 'w3'}
    seen = {label(t) for t in L}
    for mod, name, args, verb, out, kw in list(L):
        if name in ('simple_hand_step2', 'write_podatm', 'asymmetric', 'generate_border_edges', 'simplification'):
            continue
        if len(args) and len(set(args)) > 1 and any(t in other.values() for t in args):
            a2 = tuple(reversed(args)) if len(args) == 2 and all(isinstance(t, str) for t in args) and set(args) <= set(other) | set(other.values()) and other.get(args[0]) == args[1] else args
        else:
            a2 = tuple(other.get(t, t) if isinstance(t, str) else t for t in args)
        t2 = (mod, name, a2, verb, out, kw)
        if label(t2) not in seen:
            seen.add(label(t2))
            L.append(t2)
    return L

def digest_of(x, root):
    def one(v):
        if isinstance(v, np.ndarray):
            return dig([v.tolist(), str(v.dtype), list(v.shape)])
        return dig(repr(v))
    out = [{'n': k, 'd': one(v)} for k, v in sorted(x.items())]
    with open(os.path.join(root, 'in.xyz')) as f:
        out.append({'n': 'in.xyz', 'd': dig(f.read())})
    return out

def label(t):
    mod, name, args, verb, outf, kw = t
    return '%s.%s(%s)' % (mod, name, ','.join([str(a) for a in args] + ['%s=%s' % p for p in sorted(kw.items())]))

def args_of(x, t):
    return [x[p] for p in t[2] if isinstance(p, str) and p in x] + [x[p] for _, p in sorted(t[5].items()) if isinstance(p, str) and p in x]

def ident(x, t, root):
    """the identity of a call: the function, its plain arguments and the contents of the others"""
    c = [[v.tolist(), str(v.dtype)] if isinstance(v, np.ndarray) else repr(v) for v in args_of(x, t)]
    plain = ['~' if isinstance(p, str) and p in x else repr(p) for p in t[2]] + ['%s=%s' % (k, '~' if isinstance(p, str) and p in x else repr(p)) for k, p in sorted(t[5].items())]
    if '@' in t[2] and not t[4]:                # reads a file
        with open(os.path.join(root, 'in.xyz')) as f:
            c.append(f.read())
    return '%s.%s(%s)#%s' % (t[0], t[1], ','.join(plain), dig(c)[:8])

def perform(ns, x, root, t, loud):
    mod, name, args, verb, outf, kw = t
    fn = getattr(getattr(ns, mod), name)
    a = [root if p == '@' else (x[p] if isinstance(p, str) and p in x else p) for p in args]
    kw = {k: x[p] if isinstance(p, str) and p in x else p for k, p in kw.items()}
    if verb:
        kw['verbose'] = int(loud)
    o, r = core.attempt(fn, *a, **kw)
    files = {}
    if outf:
        for f in sorted(os.listdir(root)):
            if f.startswith('o.'):
                with open(os.path.join(root, f), errors='replace') as h:
                    files[f] = h.read().replace(root, '@')
                os.remove(os.path.join(root, f))
    return o, r, files, a

def arrays(r, depth=0):
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, (list, tuple)) and depth < 2:
        for t in r:
            yield from arrays(t, depth + 1)

def value(o, files):
    return dig([o, files])

def one(s, ns, x, root, t, loud, names=''):
    c = ident(x, t, root)
    before = digest_of(x, root)
    o, r, files, a = perform(ns, x, root, t, loud)
    after = digest_of(x, root)
    s.event('call', [], value(o, files), more={'c': c, 'before': before, 'after': after, 'what': json.dumps(o)[:120]})
    return r

def job_hist(P, seed, items, n):
    """items: (history, catalogue indices of its calls); every history starts from a library nobody has used"""
    ns = core.pkg(P)
    cat = catalogue(P)
    out = []
    for q, (h, ids) in enumerate(items):
        s = core.apart(history, P, seed, n, q, ns, cat, h, ids)
        if s is None:
            s = Session('history/%s/%s' % (label(cat[ids[0]]), ';'.join('%s%s' % tuple(e) for e in h)))
            s.event('crash')
        out.append(s)
    return out

def history(P, seed, n, q, ns, cat, h, ids):
    r = gen.rng(seed, 'pure', P, n, q)
    root = tempfile.mkdtemp(prefix='vrf-pure-')
    try:
        x = context(r, P, root)
        first = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in x.items()}
        s = Session('history/%s/%s' % (label(cat[ids[0]]), ';'.join('%s%s' % tuple(e) for e in h)))
        last = None
        how = q % 3
        for op, k in h:
            if op in ('call', 'loud'):
                last = one(s, ns, x, root, cat[ids[k - 1]], 1 + q % 3 if op == 'loud' else 0)
            elif op in ('assign', 'restore'):
                # the caller overwrites its own arrays in place
                a, b = (k // 10, k % 10) if op == 'assign' else (k, k)
                if a <= len(ids) and b <= len(ids):
                    src = first if op == 'restore' else x
                    A, B = args_of(x, cat[ids[a - 1]]), args_of(src, cat[ids[b - 1]])
                    if len(A) == len(B):
                        new = [v.copy() if isinstance(v, np.ndarray) else None for v in B]
                        for u, v in zip(A, new):
                            if isinstance(u, np.ndarray) and v is not None and u.shape == v.shape and u.dtype == v.dtype:
                                u[...] = v
                last = None
                s.event(op)
            elif op == 'reseed':
                v = r.getrandbits(32)
                random.seed(v); np.random.seed(v)
                s.event('reseed')
            elif op == 'scribble':
                mine = [t for t in x.values() if isinstance(t, np.ndarray)]
                for t in arrays(last):
                    if t.flags.writeable and t.size and not any(np.shares_memory(t, m) for m in mine):
                        if how == 0:
                            t[...] = 7
                        elif how == 1:
                            t[...] = t[::-1].copy() if t.ndim and len(t) > 1 else 5
                        else:
                            t.flat[0] = 9
                if isinstance(last, list) and not any(last is v for v in x.values()):
                    if how == 0:
                        del last[:]
                    elif how == 1:
                        last.reverse()
                    else:
                        del last[1:]
                how = (how + 1) % 3
                last = None
                s.event('scribble')
        return s
    finally:
        shutil.rmtree(root, ignore_errors=True)

def job_threads(P, seed, n, ids):
    out = core.apart(threads, P, seed, n, ids)
    if out is None:
        s = Session('threads/%d' % n)
        s.event('crash')
        out = [s]
    return out

def threads(P, seed, n, ids):
    """the same calls from several threads at once; first each of them alone"""
    ns = core.pkg(P)
    cat = [catalogue(P)[i] for i in ids]
    r = gen.rng(seed, 'thr', P, n)
    root = tempfile.mkdtemp(prefix='vrf-pure-')
    s = Session('threads/%d' % n)
    try:
        x = context(r, P, root)
        for t in cat:
            one(s, ns, x, root, t, False)
        before = digest_of(x, root)
        res = []
        def work(k):
            for rep in range(3):
                for t in cat[k:] + cat[:k]:
                    mod, name, args, verb, outf, kw = t
                    a = [root if p == '@' else (x[p] if isinstance(p, str) and p in x else p) for p in args]
                    kw = {k: x[p] if isinstance(p, str) and p in x else p for k, p in kw.items()}
                    try:
                        v = enc(getattr(getattr(ns, mod), name)(*a, **kw))
                    except Exception as e:
                        v = {'k': 'exc', 'v': type(e).__name__}
                    res.append((ident(x, t, root), value(v, {})))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        with core.quiet():
            th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
            [t.start() for t in th]
            [t.join() for t in th]
        sys.setswitchinterval(old)
        after = digest_of(x, root)
        for l, v in res:
            s.event('call', [], v, more={'c': l, 'before': before, 'after': after, 'what': 'in a thread'})
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return [s]

def job_fresh(P, seed, n, part, of):
    """every call in this interpreter and in fresh ones with other hash seeds and orders"""
    r = gen.rng(seed, 'fresh', P, n)
    s = Session('fresh/%d/%d' % (n, part))
    for hs in ('0', '1', '77'):
        code = ('import sys, json; sys.path.insert(0, %r)\nimport core\nfrom props import pure\n'
                'print("RES " + json.dumps(pure.fresh(%r, %r, %r, %r, %r, %r)))' % (core.HERE, P, seed, n, part, of, hs))
        p = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=600)
        ls = [l for l in p.stdout.splitlines() if l.startswith('RES ')]
        if not ls:
            s.event('crash')
            break
        for e in json.loads(ls[0][4:]):
            s.event('call', [], e['r'], more={k: e[k] for k in ('c', 'before', 'after', 'what')})
    return [s]

def fresh(P, seed, n, part, of, hs):
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    ns = core.pkg(P)
    cat = catalogue(P)[part::of]
    if hs == '1':
        cat = cat[::-1]
    elif hs != '0':
        random.Random(hs).shuffle(cat)
    root = tempfile.mkdtemp(prefix='vrf-pure-')
    try:
        x = context(gen.rng(seed, 'fresh', P, n), P, root)
        s = Session('x')
        for t in cat + (cat if hs == '0' else []):
            one(s, ns, x, root, t, False)
        return s.ev
    finally:
        shutil.rmtree(root, ignore_errors=True)

def job_long(P, seed, n, k, ids):
    out = core.apart(long, P, seed, n, k, ids)
    if out is None:
        s = Session('long/%d' % n)
        s.event('crash')
        out = [s]
    return out

def long(P, seed, n, k, ids):
    """a long life: the same calls with the data of many users, then those of the first users again"""
    ns = core.pkg(P)
    cat = catalogue(P)
    s = Session('long/%d' % n)
    root = tempfile.mkdtemp(prefix='vrf-pure-')
    try:
        users = []
        for u in range(k):
            os.makedirs('%s/%d' % (root, u))
            users.append(context(gen.rng(seed, 'long', P, n, u), P, '%s/%d' % (root, u)))
        for u in list(range(k)) + [0, 1, k - 1]:
            for i in ids:
                one(s, ns, users[u], '%s/%d' % (root, u), cat[i], False)
        return [s]
    finally:
        shutil.rmtree(root, ignore_errors=True)

SLOW = ('symmetric(dom', 'symmetric_obj(dom', 'convex_hull(', 'convex', 'simplification', 'border', 'intersection_two_obj', 'intersection(', 'asymmetric', 'vesta', 'outline', 'surface_cleaner')
def run(c):
    q = c.tier == 'quick'
    cfg = 'INVARIANT Frame\nINVARIANT Deterministic\nINVARIANT EmitInv\n'
    out, st = core.tlc('Pure', {'NCall': 3, 'Depth': 4 if q else 5, 'Emit': 'TRUE'}, c.work, spec='Spec', extra_cfg=cfg)
    c.model('Pure (exhaustive)', out, st)
    h = emitted(out)
    r = gen.rng(c.seed, 'purehist')
    jobs = []
    for P in ('ico', 'dode'):
        cat = catalogue(P)
        m = len(cat)
        items = []
        for i in range(m):
            # the caller overwrites what it was given, then asks again: every way of overwriting it
            items += [([['call', 1], ['scribble', 0]] * 4 + [['call', 1]], [i])]
            same = [j for j in range(m) if j != i and cat[j][:2] == cat[i][:2]]
            for j in same:
                items.append(([['call', 1], ['call', 2], ['call', 1], ['assign', 12], ['call', 1], ['restore', 1], ['call', 1], ['assign', 21], ['call', 2]], [i, j]))
            for hh in r.sample(h, 2 if q else 30):
                items.append((hh, [i, r.choice(same) if same and r.random() < .5 else r.randrange(m), r.randrange(m)]))
        r.shuffle(items)
        k = 24
        jobs += [(P, 'job_hist', {'seed': c.seed, 'items': items[j::k], 'n': j}) for j in range(k)]
        pure = [i for i in range(m) if not cat[i][4] and 'convex' not in label(cat[i]) and not label(cat[i]).startswith('utils.coplanar_check_two')]
        r.shuffle(pure)
        jobs += [(P, 'job_threads', {'seed': c.seed, 'n': j, 'ids': pure[j::8]}) for j in range(8)]
        jobs += [(P, 'job_fresh', {'seed': c.seed, 'n': j, 'part': p, 'of': 4}) for j in range(1 if q else 6) for p in range(4)]
        cheap = [i for i in range(m) if not any(w in label(cat[i]) for w in SLOW)]
        r.shuffle(cheap)
        jobs += [(P, 'job_long', {'seed': c.seed, 'n': j, 'k': 10 if q else 40, 'ids': cheap[j::6]}) for j in range(6)]
        c.notes.setdefault('catalogue', {})[P] = m
    c.traces_of('ConfPure', core.run_jobs('pure', jobs))
