"""F01, F02, F03: files."""
import os, shutil, tempfile
import numpy as np
from fractions import Fraction as Fr
import core, gen, geo, files, kin
from core import Session, i32, enc
from gen import low
from props.arith import emitted

ROOT = {'ico': (1 + 5 ** .5) / 2, 'dode': 3 ** .5 / 2}

def decs(obj):
    """half a unit of the last digit plus what floating point may lose on numbers of this size"""
    m = int(np.abs(obj).max()) if obj.size else 1
    q = lambda h: core.zq(h + 1e-14 * m + 1e-12)         # 45 units in the last place
    return {'dec': q(5.1e-7), 'dec3': q(5.1e-4)}

def perps(P, obj):
    return {tuple(tuple(t) for t in geo.perp(P, v)) for v in obj.reshape(-1, 6, 3)}

def clear(P, obj):
    """distinct vertices can be told apart in six decimals"""
    p = np.array([[geo.val(P, t) for t in v] for v in perps(P, obj)])
    d = np.abs(p[:, None] - p[None]).max(axis=2)
    n6 = obj.reshape(-1, 6, 3)
    return len(p) < 2 or d[~np.eye(len(p), dtype=bool)].min() > 1e-3

def domain(r, P, k=None):
    k = r.randrange(6) if k is None else k
    while True:
        if k == 0:
            o = np.array([geo.simplex(r, P)])
        elif k == 1:
            o = np.array([geo.simplex(r, P) for _ in range(r.randint(2, 4))])
        elif k == 2:
            o = geo.polycube(r, P, 1 if P == 'ico' else r.randint(1, 3))
        elif k == 3:
            o = geo.star(r, P, np.array([geo.simplex(r, P)]))
        elif k == 4:
            o = geo.rest(r, P, geo.polycube(r, P, 1 if P == 'ico' else 3), r.randint(1, 2))
        else:
            o = geo.relift(r, P, geo.polycube(r, P, 1 if P == 'ico' else 2))
        o = geo.shuffled(r, o)
        if clear(P, o):
            return o

def edges(obj):
    out = []
    for T in obj:
        for i in range(len(T)):
            for j in range(i):
                out.append([T[i], T[j]])
    return np.array(out)

def some(r, P, kind):
    d = domain(r, P)
    if kind == 'tetrahedron' or (kind == 'triangle' and P == 'dode'):
        return d
    if kind == 'triangle':
        return np.array([T[r.sample(range(4), 3)] for T in d])
    if kind == 'edge':
        e = edges(d)
        return e[r.sample(range(len(e)), r.randint(1, len(e)))]
    v = d.reshape(-1, 6, 3)
    return v[r.sample(range(len(v)), r.randint(1, len(v)))]

def rough(r, o, k):
    """coordinates as the library accepts them: not reduced, negative denominators, large numbers"""
    o = o.copy()
    if k == 1:
        o *= r.choice((2, -1, -3))
    if k == 2:
        for v in o.reshape(-1, 3):
            v *= r.choice((1, -1, 2, 5))
    if k == 3:
        o[..., :2] *= 10 ** r.randint(3, 9)
    if k == 4:                                     # up to the last digit of a 64-bit integer
        for v in o.reshape(-1, 3):
            v[:2] = (r.randint(-10 ** 17, 10 ** 17), r.randint(-10 ** 17, 10 ** 17))
    return o

class Box:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vrf-files-')
    def __enter__(self):
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def kinds(P):
    return ('tetrahedron', 'triangle', 'edge', 'vertex') if P == 'ico' else ('triangle', 'edge', 'vertex')

SLOT = {1: ('', 'tmp'), 2: ('sub/deep', 'tmp'), 3: ('', 'tmp2'), 4: ('dir.d/', 'od.xyz')}

def place(path, obj, kind):
    """a coordinate file made by hand, without a newline at its end"""
    rows = obj.reshape(-1, 6, 3)
    n = {'tetrahedron': 4, 'triangle': 3, 'edge': 2, 'vertex': 1}[kind]
    out = ['%d' % len(rows), 'made by hand']
    for i, v in enumerate(rows):
        c = '# %d-th vertex # # #' % i if kind == 'vertex' else '# %3d-the %s %d-th vertex #' % (i // n, kind, i % n)
        out.append('Xx 0.0 0.0 0.0 %s %s' % (c, ' '.join(str(int(t)) for t in v.ravel())))
    with open(path, 'w') as f:
        f.write('\n'.join(out))

def do_write(s, r, ns, P, root, slot, obj, kind, via=None):
    OD = ns.occupation_domain
    sub, base = SLOT[slot]
    path = os.path.join(root, sub)
    via = via if via is not None else r.randrange(3)
    dflt = 'tetrahedron' if P == 'ico' else 'triangle'
    vb = r.randrange(2)
    if via == 0:
        o, _ = core.attempt(OD.write, obj, path, base, format='xyz', select=kind, verbose=vb)
    else:
        os.makedirs(path, exist_ok=True)
        if via == 1 and kind == dflt:
            o, _ = core.attempt(OD.write_xyz, obj, path, base)
        else:
            o, _ = core.attempt(OD.write_xyz, obj, path=path, basename=base, select=kind, verbose=vb)
    f = files.parsed(files.xyz, os.path.join(path, base + '.xyz'))
    s.event('write', [enc(obj), i32(slot), enc(kind)], o, more=dict(decs(obj), file=f))

def do_read(s, r, ns, P, root, slot, kind):
    OD = ns.occupation_domain
    sub, base = SLOT[slot]
    path = os.path.join(root, sub)
    dflt = 'tetrahedron' if P == 'ico' else 'triangle'
    if kind == dflt and r.random() < .5:
        o, x = core.attempt(OD.read_xyz, path, base)
    else:
        o, x = core.attempt(OD.read_xyz, path=path, basename=base, select=kind, verbose=r.randrange(2))
    s.event('read', [i32(slot), enc(kind)], o)
    return x

COLOURS = ('r', 'b', 'k', 'p', 'l', 'y', 'c', 's', 'red', 'blue', 'black', 'pink', 'lime', 'yellow', 'cyan', 'silver', 'q', (10, 20, 30), [0, 255, 7],
           [1, 1, 1], (1, 0, 255), [0, 20, 1], (0, 0, 0), [255, 255, 255], [128, 2, 1])

def do_vesta(s, r, ns, P, root, slot, obj, mode, colour, via=1):
    OD = ns.occupation_domain
    sub, base = SLOT[slot]
    path = os.path.join(root, sub)
    vb = r.randrange(2)
    if via == 0:          # the general writer
        kw = {} if P == 'ico' or mode == 'normal' else {'select': mode}
        o, _ = core.attempt(OD.write, obj, path, base, format='vesta', color=colour, verbose=vb, **kw)
    elif mode == 'normal' and r.random() < .5:
        o, _ = core.attempt(OD.write_vesta, obj, path, base, color=colour)
    else:
        o, _ = core.attempt(OD.write_vesta, obj, path, base, color=colour, select=mode, verbose=vb)
    f = files.parsed(files.vesta, os.path.join(path, base + '.vesta'))
    c = {'k': 'list', 'v': [i32(t) for t in colour]} if not isinstance(colour, str) else enc(colour)
    s.event('vesta', [enc(obj), enc(mode), c], o, more=dict(decs(obj), file=f))

def do_pod(s, r, ns, P, root, slot, obj, serial=1):
    OD = ns.occupation_domain
    sub, base = SLOT[slot]
    path = os.path.join(root, sub)
    for e in ('.atm', '.pod'):
        try:
            os.remove(os.path.join(path, base + e))
        except OSError:
            pass
    if serial == 1 and r.random() < .5:
        o, _ = core.attempt(OD.obj2podatm, obj, path=path, basename=base)
    else:
        o, _ = core.attempt(OD.obj2podatm, obj, serial, path, base)
    s.event('pod', [enc(obj), i32(serial)], o, more=dict(decs(obj), file=files.podatm0(path, base)))

def job_hist(P, seed, hists, n):
    """replay histories of Files"""
    r = gen.rng(seed, 'fhist', P, n)
    ns = core.pkg(P)
    out = []
    for h in hists:
        s = Session('history/' + ';'.join(''.join(map(str, x)) for x in h))
        cat = {}
        for o in (1, 2, 3):
            kind = r.choice(kinds(P))
            x = some(r, P, kind)
            if r.random() < .3:
                x = rough(r, x, r.randrange(4))
            cat[o] = (x, kind)
        with Box() as root:
            for op, slot, o in h:
                x, kind = cat[o]
                if op == 'write':
                    do_write(s, r, ns, P, root, slot, x, kind)
                elif op == 'read':
                    do_read(s, r, ns, P, root, slot, kind)
                elif op == 'place':
                    sub, base = SLOT[slot]
                    os.makedirs(os.path.join(root, sub), exist_ok=True)
                    place(os.path.join(root, sub, base + '.xyz'), x, kind)
                    s.event('place', [enc(x), i32(slot), enc(kind)])
                elif op == 'vesta':
                    d = domain(r, P)
                    do_vesta(s, r, ns, P, root, slot, d, 'normal', 'k')
                elif op == 'pod':
                    do_pod(s, r, ns, P, root, slot, domain(r, P))
        out.append(s)
    return out

def job_xyz(P, seed, n):
    """every kind and size of object, chains of reading and writing, the list of vertices for merging by hand"""
    r = gen.rng(seed, 'xyz', P, n)
    ns = core.pkg(P)
    out = []
    for kind in kinds(P):
        for k in range(4 if kind == 'tetrahedron' else 5):
            s = Session('object/%s/%d/%d' % (kind, k, n))
            with Box() as root:
                x = rough(r, some(r, P, kind), k)
                do_write(s, r, ns, P, root, 1, x, kind, k % 3)
                y = do_read(s, r, ns, P, root, 1, kind)
                do_read(s, r, ns, P, root, 1, 'vertex')
                if isinstance(y, np.ndarray) and y.shape == x.shape:
                    j = r.choice((2, 4))
                    do_write(s, r, ns, P, root, j, y, kind)
                    do_read(s, r, ns, P, root, j, kind)
            out.append(s)
    s = Session('hand/%d' % n)
    with Box() as root:
        for k in range(3):
            x = domain(r, P)
            o, v = core.attempt(ns.occupation_domain.simple_hand_step1, x, root, 'hand%d' % k)
            s.event('hand', [enc(x)], o, more=dict(decs(x), file=files.parsed(files.xyz, root + '/hand%d.xyz' % k)))
    out.append(s)
    return out

def large(r, P, n):
    """a large domain: a grid, or many simplices without any relation"""
    if n % 2:
        return np.array([geo.simplex(r, P) for _ in range(n)])
    while True:
        bs = geo.basis(r, P)
        d = 3 if P == 'ico' else 2
        per = 6 if P == 'ico' else 2
        side = 1
        while per * side ** d < n:
            side += 1
        cells = [()]
        for _ in range(d):
            cells = [c + (i,) for c in cells for i in range(side)]
        o = geo.shuffled(r, geo.grid(P, geo.origin(r, P), bs, cells))[:n]
        if clear(P, o):
            return o

def job_xyz_big(P, seed, n, kind, size):
    r = gen.rng(seed, 'xyzbig', P, n)
    ns = core.pkg(P)
    s = Session('large/%s/%d' % (kind, n))
    d = large(r, P, size)
    if kind == 'edge':
        d = edges(d)
    elif kind == 'vertex':
        d = d.reshape(-1, 6, 3)
    elif kind == 'triangle' and P == 'ico':
        d = d[:, :3]
    with Box() as root:
        for x in (d, d[:3]):          # a short file replaces a long one
            do_write(s, r, ns, P, root, 1, x, kind)
            do_read(s, r, ns, P, root, 1, kind)
            do_read(s, r, ns, P, root, 1, 'vertex')
    return [s]

def job_vesta_big(P, seed, n, mode, size):
    r = gen.rng(seed, 'vestabig', P, n)
    ns = core.pkg(P)
    s = Session('large/%s/%d' % (mode, n))
    x = large(r, P, size)
    if mode == 'egdes':
        x = edges(x)
    with Box() as root:
        do_vesta(s, r, ns, P, root, 1, x, mode, r.choice(COLOURS), 0 if mode == 'normal' and n % 2 else 1)
    return [s]

def job_vesta(P, seed, n):
    r = gen.rng(seed, 'vesta', P, n)
    ns = core.pkg(P)
    out = []
    for mode in ('normal', 'simple', 'podatm', 'egdes'):
        for k in range(3):
            s = Session('%s/%d/%d' % (mode, k, n))
            x = domain(r, P, (n + 2 * k) % 6)
            if mode == 'egdes':
                x = edges(x)
                x = x[r.sample(range(len(x)), r.randint(1, len(x)))]
            with Box() as root:
                do_vesta(s, r, ns, P, root, 1, x, mode, r.choice(COLOURS), 0 if mode == 'normal' and k == 0 else 1)
                do_vesta(s, r, ns, P, root, 1, x[:1], mode, r.choice(COLOURS))
            out.append(s)
    # the outline of a domain, as generated by the library
    s = Session('border/%d' % n)
    x = domain(r, P, 2)
    with Box() as root:
        o, e = core.attempt(ns.occupation_domain.generate_border_edges, x)
        if isinstance(e, np.ndarray) and e.ndim == 4 and len(e):
            do_vesta(s, r, ns, P, root, 1, e, 'egdes', 'r')
    out.append(s)
    return out

def alike(r, P, x):
    """other objects whose file is as long, has the same lines in another order, the same first lines ..."""
    ys = [x[::-1].copy()]
    f = x.reshape(-1, 6, 3)
    y = f[r.sample(range(len(f)), len(f))].reshape(x.shape); ys.append(y)
    if len(x) > 2:
        y = x.copy(); y[1], y[2] = x[2].copy(), x[1].copy(); ys.append(y)
    y = x.copy(); y[..., [0, 1], :] = y[..., [1, 0], :]; ys.append(y)
    y = f.copy(); y[-1] = f[0]; ys.append(y.reshape(x.shape))
    y = f.copy(); y[-1, 0, 0] += 1; ys.append(y.reshape(x.shape))
    y = f.copy(); y[-1, 3, 1] += y[-1, 3, 2]; ys.append(y.reshape(x.shape))
    return [y for y in ys if not np.array_equal(x, y)]

def job_xyz_kin(P, seed, n):
    r = gen.rng(seed, 'xyzkin', P, n)
    ns = core.pkg(P)
    out = []
    for kind in kinds(P):
        s = Session('kin/%s/%d' % (kind, n))
        x = low(some(r, P, kind))
        with Box() as root:
            def go(y):
                do_write(s, r, ns, P, root, 1, y, kind)
                z = do_read(s, r, ns, P, root, 1, kind)
                if isinstance(z, np.ndarray) and z.size and r.random() < .5:      # what is done to the answer is not seen by the next reader
                    z[...] = 7
                    do_read(s, r, ns, P, root, 1, kind)
            kin.meet(r, P, go, x, alike(r, P, x))
            # two files of one name in two places, written and read in turns
            for y in alike(r, P, x)[:2]:
                do_write(s, r, ns, P, root, 1, x, kind)
                do_write(s, r, ns, P, root, 2, y, kind)
                do_read(s, r, ns, P, root, 1, kind)
                do_read(s, r, ns, P, root, 2, kind)
            # a file replaced from outside
            sub, base = SLOT[1]
            for y in (x, x[::-1].copy()):
                place(os.path.join(root, sub, base + '.xyz'), y, kind)
                s.event('place', [enc(y), i32(1), enc(kind)])
                do_read(s, r, ns, P, root, 1, kind)
        out.append(s)
    return out

def job_vesta_kin(P, seed, n):
    r = gen.rng(seed, 'vestakin', P, n)
    ns = core.pkg(P)
    out = []
    for mode in ('normal', 'simple', 'podatm', 'egdes'):
        s = Session('kin/%s/%d' % (mode, n))
        x = geo.subset(r, domain(r, P, (1, 2)[n % 2]), 4)
        if mode == 'egdes':
            x = edges(x)[:6]
        ys = [y for y in alike(r, P, x) if clear(P, y) and all(len(perps(P, t)) == len(t) for t in y)]
        with Box() as root:
            kin.meet(r, P, lambda y: do_vesta(s, r, ns, P, root, 1, y, mode, 'k'), x, ys)
            for c in COLOURS[n::4]:
                do_vesta(s, r, ns, P, root, 1, x[:2], mode, c)
        out.append(s)
    return out

def job_pod_kin(P, seed, n):
    r = gen.rng(seed, 'podkin', P, n)
    ns = core.pkg(P)
    s = Session('kin/%d' % n)
    x = fan(r, P) if n % 2 else domain(r, P, 1)
    ys = [y for y in alike(r, P, x) if clear(P, y) and not any(geo.flat(P, t) for t in y)]
    with Box() as root:
        kin.meet(r, P, lambda y: do_pod(s, r, ns, P, root, 1, y, 3), x, ys)
        for k in (1, 2, 1):
            do_pod(s, r, ns, P, root, 1, x, k)
    return [s]

def fan(r, P, relift=False):
    """simplices around one vertex"""
    while True:
        o = geo.origin(r, P)
        pts = [geo.simplex(r, P)[0] for _ in range(r.randint(4, 6))]
        d = 3 if P == 'ico' else 2
        k = r.randint(1, 4)
        obj = np.array([[o] + r.sample(pts, d) for _ in range(k)])
        if P == 'dode':
            obj[:, :, 4] = o[4]
        if any(geo.flat(P, T) for T in obj):
            continue
        if relift:
            obj = geo.relift(r, P, obj)
        obj = geo.shuffled(r, obj)
        if clear(P, obj):
            return obj

def job_pod(P, seed, n):
    r = gen.rng(seed, 'pod', P, n)
    ns = core.pkg(P)
    out = []
    for k in range(8):
        s = Session('pod/%d/%d' % (k, n))
        x = [lambda: fan(r, P), lambda: fan(r, P, True), lambda: domain(r, P, 0), lambda: domain(r, P, 2), lambda: domain(r, P, 1),
             lambda: domain(r, P, 3), lambda: domain(r, P, 4), lambda: domain(r, P, 5)][k]()
        with Box() as root:
            do_pod(s, r, ns, P, root, r.choice((1, 2)), x, r.choice((1, 2, 17)))
        out.append(s)
    # many simplices around one vertex, and one that misses it, early or late
    s = Session('stray/%d' % n)
    d = 3 if P == 'ico' else 2
    for tries in range(20):
        o = geo.origin(r, P)
        pts = [geo.simplex(r, P)[0] for _ in range(8)]
        x = np.array([[o] + r.sample(pts, d) for _ in range(r.randint(9, 16))])
        y = np.array([r.sample(pts, d + 1)])
        if P == 'dode':
            x[:, :, 4] = o[4]; y[:, :, 4] = o[4]
        z = np.concatenate([x, y]) if n % 3 else np.concatenate([x[:3], y, x[3:]])
        if not any(geo.flat(P, T) for T in z) and clear(P, z):
            x = geo.shuffled(r, x)
            z[:len(z) - 1 if n % 3 else 3] = np.array([T[r.sample(range(d + 1), d + 1)] for T in z[:len(z) - 1 if n % 3 else 3]])
            with Box() as root:
                do_pod(s, r, ns, P, root, 1, x, 1)
                do_pod(s, r, ns, P, root, 1, z, 1)
            break
    out.append(s)
    if n % 16 == 0:
        # more than 99 simplices and vertices around one vertex: the shape of an expanded domain
        s = Session('large/%d' % n)
        while True:
            a = geo.simplex(r, P)
            o, x = core.attempt(ns.occupation_domain.symmetric, np.array([a] if P == 'ico' else [a, np.vstack([a[:1], geo.simplex(r, P)[1:]])]), a[0])
            if isinstance(x, np.ndarray) and clear(P, x):
                break
            if not isinstance(x, np.ndarray):
                break
        if isinstance(x, np.ndarray):
            with Box() as root:
                do_pod(s, r, ns, P, root, 1, x, 120)
        out.append(s)
    if P == 'ico':
        for k in range(4):
            s = Session('handpod/%d/%d' % (k, n))
            x = domain(r, P, (2, 3, 5, 1)[k])
            with Box() as root:
                # the list of vertices as the library gives it
                o, v = core.attempt(ns.occupation_domain.write_vesta, x, root, 'v', color='k', select='podatm')
                if not (isinstance(v, np.ndarray) and v.ndim == 3):
                    v = x.reshape(-1, 6, 3)
                m = len(v)
                vl = []
                for _ in range(r.randint(1, 3)):
                    c = r.randint(1, m)
                    oth = [i for i in range(1, m + 1) if i != c]
                    l = [c]
                    for _t in range(r.randint(1, 4)):
                        l += r.sample(oth, 3)
                    vl.append(l)
                pos = gen.cen(r)
                kw, sh = {}, [0.0] * 6
                if r.random() < .5:
                    sh = [r.choice((0.0, 0.5, -0.25, 1.5)) for _ in range(6)]
                    kw = {'shift': sh}
                o, _ = core.attempt(ns.occupation_domain.write_podatm, v, pos, vl, path=os.path.join(root, 'w'), basename='m', **kw)
                f = files.parsed(files.handpod, os.path.join(root, 'w'), 'm')
                s.event('handpod', [enc(v), enc(pos), {'k': 'list', 'v': [{'k': 'list', 'v': [i32(t) for t in l]} for l in vl]},
                                    {'k': 'farr', 'sh': [6], 'v': [core.zq(t) for t in sh]}], o, more=dict(decs(v), file=f))
            out.append(s)
    return out

def run_xyz(c):
    q = c.tier == 'quick'
    cst = {'Depth': 3, 'NSlot': 2, 'NObj': 2, 'Emit': 'TRUE'}
    out, st = core.tlc('Files', cst, c.work, spec='Spec', extra_cfg='INVARIANT ReadBack\nINVARIANT EmitInv\n')
    c.model('Files (exhaustive, depth 3)', out, st)
    h = emitted(out)
    out, st = core.tlc('Files', dict(cst, Depth=7, NSlot=3, NObj=3), c.work, spec='Spec', extra_cfg='INVARIANT ReadBack\nINVARIANT EmitInv\n',
                       args=['-simulate', 'num=%d' % (3000 if q else 20000), '-depth', '8', '-seed', str(c.seed)], workers=1)
    c.notes.setdefault('models', []).append({'model': 'Files (simulation, depth 7)', 'states': st['generated']})
    h2 = emitted(out)
    r = gen.rng(c.seed, 'fsel')
    h = h if not q else r.sample(h, min(len(h), 160))
    h2 = r.sample(h2, min(len(h2), 60 if q else 600))
    jobs = []
    for P in ('ico', 'dode'):
        hh = h + h2
        jobs += [(P, 'job_hist', {'seed': c.seed, 'hists': hh[i::16], 'n': i}) for i in range(16)]
        jobs += [(P, 'job_xyz_kin', {'seed': c.seed, 'n': i}) for i in range(6 if q else 60)]
        jobs += [(P, 'job_xyz', {'seed': c.seed, 'n': i}) for i in range(8 if q else 60)]
        big = [(kinds(P)[0], 130), (kinds(P)[0], 401), ('triangle', 1100), ('edge', 300), ('vertex', 500)]
        jobs += [(P, 'job_xyz_big', {'seed': c.seed, 'n': i, 'kind': b[0], 'size': b[1]}) for i, b in enumerate(big * (1 if q else 4))]
    c.traces_of('ConfFile', core.run_jobs('filep', jobs))

def run_vesta(c):
    k = 12 if c.tier == 'quick' else 100
    big = [('normal', 120), ('normal', 105), ('simple', 40), ('egdes', 24), ('podatm', 36)] * (1 if c.tier == 'quick' else 4)
    c.traces_of('ConfFile', core.run_jobs('filep', [(P, 'job_vesta_big', {'seed': c.seed, 'n': i, 'mode': b[0], 'size': b[1]})
                                                    for P in ('ico', 'dode') for i, b in enumerate(big)] +
                                          [(P, 'job_vesta_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(4 if c.tier == 'quick' else 40)] +
                                          [(P, 'job_vesta', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))

def run_pod(c):
    k = 16 if c.tier == 'quick' else 150
    kin = [(P, 'job_pod_kin', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(6 if c.tier == 'quick' else 60)]
    c.traces_of('ConfFile', core.run_jobs('filep', kin + [(P, 'job_pod', {'seed': c.seed, 'n': i}) for P in ('ico', 'dode') for i in range(k)]))
