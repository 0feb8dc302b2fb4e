"""X02: whole sessions over a store of domains and files."""
import os, shutil, tempfile
import numpy as np
from fractions import Fraction as Fr
import core, gen, geo
from core import Session, enc, i32
from props import region, comb
from props.arith import emitted

Z6 = np.array([[0, 0, 1]] * 6)

def seeds(r, P):
    """two asymmetric units about two sites, a plain domain; two shift vectors; the cone of asymmetric parts"""
    c = [Z6.copy(), Z6.copy()]
    if P == 'ico':
        u = geo.SEED['ico']
        c[1][r.randrange(6)] = r.choice(((1, 0, 1), (1, 0, 2), (-1, 0, 1)))
        a = u if r.random() < .6 else geo.star(r, P, u)
        b = geo.rest(r, P, geo.star(r, P, u), r.choice((0, 1, 2)))
        pl = np.array([geo.simplex(r, P)]) if r.random() < .6 else geo.kuhn(P, Z6, geo.basis(r, P, scale=((1, 0),)))
        pl = np.array(pl)
        ts = [np.array([[r.choice((0, 0, 0, 1, -1)), 0, r.choice((1, 2))] for _ in range(6)]) for _ in range(2)]
        ts[0][r.randrange(6)] = (1, 0, 1)
    else:
        a = region.dode_seed(r)
        c[1][r.randrange(4)] = r.choice(((1, 0, 1), (1, 0, 2), (-1, 0, 1)))
        b = region.dode_seed(r)
        if r.random() < .5:
            b = geo.star(r, P, b)
        pl = geo.polycube(r, P, r.choice((1, 2)), Z6, geo.basis(r, P))
        ts = [np.array([[r.choice((0, 0, 1, -1)), 0, r.choice((1, 2))] for _ in range(4)] + [[0, 0, 1]] * 2) for _ in range(2)]
        ts[0][r.randrange(4)] = (1, 0, 1)
    if r.random() < .3:                                # a long way
        ts[1][r.randrange(4)] = (r.choice((4, 7, -5)), r.choice((0, 0, 3)), 1)
    ts = [gen.low(t) for t in ts]
    b = np.array([[geo.addv(v, c[1]) for v in T] for T in b])
    return [(geo.shuffled(r, a), c[0]), (geo.shuffled(r, b), c[1]), (geo.shuffled(r, pl), None)], ts, c

CAP = {'ico': (200, 2, 260), 'dode': (700, 8, 260)}
def job_sess(P, seed, n, hists):
    ns = core.pkg(P)
    return [one(P, ns, seed, '%d.%d' % (n, q), h) for q, h in enumerate(hists)]

def one(P, ns, seed, tag, h):
    OD, TD = ns.occupation_domain, ns.two_occupation_domains
    r = gen.rng(seed, 'sess', P, tag)
    sd, ts, cs = seeds(r, P)
    mcap, xcap, scap = CAP[P]
    s = Session('session/%s/%s' % (tag, ' '.join(e[0] for e in h)))
    dom, cen, files = {}, {}, {}
    root = tempfile.mkdtemp(prefix='vrf-sess-')
    hows = ('default', 'standard', 'simple', None)
    cone = geo.SEED['ico'][0][1:]
    keep = {} if r.random() < .7 else None           # a user who reuses arrays: same object, new contents
    def put(j, x, c):
        if isinstance(x, np.ndarray):
            if keep is not None and x.dtype == np.int64 and x.ndim == 4:
                b = keep.setdefault((j, x.shape), np.zeros(x.shape, dtype=np.int64))
                b[...] = x
                x = b
            dom[j], cen[j] = x, c
        else:
            dom.pop(j, None)
            cen.pop(j, None)
    def ev(op, i, j, o, a=(), k=0):
        s.event(op, list(a), o, more={'i': i, 'j': j, 'k': k})
    def centre(j):
        if cen.get(j) is not None:
            ev('centre', 0, j, None, [enc(cen[j])])
    try:
        for op, i, j, x in h:
            if op == 'seed':
                d, c = sd[i - 1]
                put(j, d.copy(), c)
                ev('seed', 0, j, None, [enc(d)])
                centre(j)
                continue
            if op == 'read':
                if i not in files:
                    continue
                o, y = core.attempt(OD.read_xyz, root, 'f%d' % i)
                ev('read', i, j, o)
                put(j, y, files[i])
                centre(j)
                continue
            if i not in dom:
                continue
            A = dom[i]
            if op == 'volume':
                o, _ = core.attempt(OD.volume, A)
                ev('volume', i, 0, o)
            elif op == 'write':
                sel = 'tetrahedron' if P == 'ico' else 'triangle'
                o, _ = core.attempt(OD.write, A, root, 'f%d' % j, format='xyz', select=sel) if r.random() < .5 else core.attempt(OD.write_xyz, A, root, 'f%d' % j)
                ev('write', i, j, {'k': 'exc', 'v': o['v']} if o['k'] == 'exc' else None)
                if r.random() < .3:                                # a picture of it, beside it
                    core.attempt(OD.write_vesta, A, root, 'f%d' % j, color='r', select=r.choice(('normal', 'simple')))
                files[j] = cen[i]
            elif op == 'expand':
                if cen[i] is None or len(A) > xcap:
                    continue
                o, y = core.attempt(OD.symmetric, A, cen[i])
                ev('expand', i, j, o)
                put(j, y, None)
            elif op == 'shift':
                t = ts[x - 1]
                o, y = core.attempt(OD.shift, A, t)
                c = None if cen[i] is None else geo.addv(cen[i], t)
                ev('shift', i, j, o, [enc(t)])
                put(j, y, c)
                centre(j)
            elif op == 'sim':
                if P == 'ico' or abs(A[..., 2]).max() > 100 or abs(A).max() > 3000:
                    continue
                m = r.choice((1, -1))
                o, y = core.attempt(OD.similarity, A, m)
                ev('sim', i, j, o, [i32(m)])
                put(j, y, cen[i] if cen[i] is not None and np.array_equal(cen[i], Z6) else None)
                centre(j)
            elif op == 'simplify':
                if len(A) > (12 if P == 'ico' else 30) and not (len(A) <= scap and comb.geo_convex(P, A)):
                    continue
                o, y = core.attempt(OD.simplification, A)
                ev('simplify', i, j, o)
                put(j, y, cen[i])
                centre(j)
            elif op == 'asym':
                if P != 'ico' or len(A) > mcap:
                    continue
                c = cs[x - 1]
                ev('centre', 0, j, None, [enc(c)])
                vs = cone[r.sample(range(3), 3)]
                o, y = core.attempt(OD.asymmetric, A, c, vs)
                ev('asym', i, j, o, [enc(vs)])
                put(j, y, c)
                # slot j may be emptied: its centre is then set again before use
            elif op == 'meet':
                if x not in dom or len(A) * len(dom[x]) > mcap or max(abs(A).max(), abs(dom[x]).max()) > 20000:
                    continue
                B = dom[x]
                if comb.geo_convex(P, A) and comb.geo_convex(P, B) and r.random() < .5:
                    o, y = core.attempt(TD.intersection_convex, A, B)
                    ev('meet', i, 0, o, k=x)
                o, y = core.attempt(region.entry(ns, P, r.choice(hows)), A, B)
                ev('meet', i, j, o, k=x)
                put(j, y, cen[i] if cen[i] is not None else cen[x])
                centre(j)
        return s
    finally:
        shutil.rmtree(root, ignore_errors=True)

def run(c):
    q = c.tier == 'quick'
    cfg = ''.join('INVARIANT %s\n' % x for x in ('Provenance', 'AsymOK', 'Laws', 'Commute'))
    out, st = core.tlc('Session', {'Depth': 3 if q else 4, 'NSlot': 2, 'NFile': 1, 'Emit': 'FALSE'}, c.work, spec='Spec', extra_cfg=cfg)
    c.model('Session (exhaustive)', out, st)
    jobs = []
    for P in ('ico', 'dode'):
        hs = []
        for d, k in ((7, 120), (10, 120)) if q else ((6, 300), (9, 400), (14, 400)):
            out, st = core.tlc('Session', {'Depth': d, 'NSlot': 3, 'NFile': 2, 'Emit': 'TRUE'}, c.work, spec='Spec',
                               extra_cfg='INVARIANT EmitInv\n', args=['-simulate', 'num=%d' % k, '-depth', str(d + 2), '-seed', str(c.seed * 7 + d + (P == 'ico'))], workers=1)
            c.model('Session (random behaviours of length %d)' % d, out, st, ok='Finished in')
            seen = set()
            for h in emitted(out):                     # one behaviour per random walk
                if str(h[:-1]) not in seen:
                    seen.add(str(h[:-1]))
                    hs.append(h)
        # a loop over positions: the same steps again and again, on the same slots
        r = gen.rng(c.seed, 'loops', P)
        ops = {'shift': lambda: ['shift', 2, 2, r.choice((1, 2))], 'meet': lambda: ['meet', 1, 3, 2], 'teem': lambda: ['meet', 2, 3, 1], 'volume': lambda: ['volume', r.choice((2, 3)), 0, 0],
               'write': lambda: ['write', 2, 1, 0], 'read': lambda: ['read', 1, 3, 0], 'simplify': lambda: ['simplify', 2, 3, 0], 'asym': lambda: ['asym', 2, 3, r.choice((1, 2))],
               'expand': lambda: ['expand', 2, 3, 0], 'sim': lambda: ['sim', 2, 3, 0]}
        for _ in range(24 if q else 200):
            h = [['seed', r.choice((1, 2, 3, 3)), 1, 0], ['seed', r.choice((1, 2, 3, 3)), 2, 0]]
            body = [r.choice((('meet',), ('teem',), ('teem', 'meet'), ('write', 'read'), tuple(r.sample(sorted(set(ops) - {'shift'}), 2)))) for _ in range(1)][0]
            both = r.random() < .5
            for _ in range(4):
                for b in body + ('shift',):
                    h.append(ops[b]())
                if both:                                    # the other one moves along
                    h.append(['shift', 1, 1, h[-1][3]])
            hs.append(h)
        c.notes.setdefault('histories', {})[P] = len(hs)
        k = 48
        jobs += [(P, 'job_sess', {'seed': c.seed, 'n': j, 'hists': hs[j::k]}) for j in range(k)]
    res = core.run_jobs('sess', jobs)
    did = c.notes.setdefault('events_by_kind', {})
    for P in res:
        for s in res[P]:
            for e in s['ev']:
                k = '%s %s %s' % (P, e['op'], e['r']['k'])
                did[k] = did.get(k, 0) + 1
    c.traces_of('ConfSess', res)
