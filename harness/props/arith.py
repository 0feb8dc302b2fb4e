"""A01 / A02: scalar arithmetic."""
import json, itertools, math, re
from fractions import Fraction
import numpy as np
import core, gen
from core import Session, Sub

OPS = ('add', 'sub', 'mul', 'div')

def A(t):
    return np.array(t, dtype=np.int64)

def pairs(P, ops, xs):
    """one event per (op, x, y), all in sessions of a few hundred"""
    m = core.pkg(P).math1
    out = []
    for tag, x, y, op in xs:
        s = Session('%s/%s/%s/%s' % (tag, op, '.'.join(map(str, x)), '.'.join(map(str, y))))
        s.call(op, getattr(m, op), A(x), A(y), more={'i': [0, 0], 'd': 0})
        out.append(s)
    return out

LITS = {1: (1, 1, 2), 2: (-3, 2, 1), 3: (0, -1, 3), 4: (2, 0, 5)}

def histories(P, hists):
    m = core.pkg(P).math1
    out = []
    for h in hists:
        s = Session('calc/' + ';'.join(''.join(map(str, x)) for x in h))
        regs = [A(LITS[i]) for i in h[0]]
        s.event('load', [core.enc(r) for r in regs])
        for op, i, j, d in h[1:]:
            r = s.call(op, getattr(m, op), regs[i - 1], regs[j - 1], more={'i': [i, j], 'd': d})
            if not (isinstance(r, np.ndarray) and r.shape == (3,)):
                break
            if max(abs(int(t)) for t in r) > 2 ** 62:
                break             # operands are 64-bit integers
            regs[d - 1] = r
        out.append(s)
    return out

def exact(P, op, x, y):
    """the result in lowest terms, only to select inputs whose results fit into 64 bits"""
    p, q = (1, 1) if P == 'ico' else (Fraction(3, 4), 0)          # root^2 = p + q root
    a, b, c, d = Fraction(x[0], x[2]), Fraction(x[1], x[2]), Fraction(y[0], y[2]), Fraction(y[1], y[2])
    if op == 'add':
        u, v = a + c, b + d
    elif op == 'sub':
        u, v = a - c, b - d
    elif op == 'mul':
        u, v = a * c + p * b * d, a * d + b * c + q * b * d
    else:
        n = c * c + q * c * d - p * d * d
        if n == 0:
            return None
        e, f = (c + q * d) / n, -d / n
        u, v = a * e + p * b * f, a * f + b * e + q * b * f
    m = math.lcm(u.denominator, v.denominator)
    return int(u * m), int(v * m), m

def corpus(P, tier, seed):
    r = gen.rng(seed, 'arith', P)
    out = []
    comp = (-2, -1, 0, 1, 2, 3)
    dens = (1, 2, -1, -3, 6)
    base = [(a, b, c) for a in comp for b in comp for c in dens]
    allp = [(x, y, op) for x in base for y in base for op in OPS]
    n = 6000 if tier == 'quick' else len(allp)
    out += [('small', x, y, op) for x, y, op in (r.sample(allp, n) if n < len(allp) else allp)]
    # every divisor against a few numerators, every zero form
    zeros = [(0, 0, c) for c in (1, 2, -1, -5, 7)]
    for z in zeros:
        for x in r.sample(base, 12) + zeros:
            for op in OPS:
                out.append(('zero', z, x, op))
                out.append(('zero', x, z, op))
    # magnitudes: all bit lengths whose products still fit into 64 bits
    lim = {'add': 31, 'sub': 31, 'mul': 31, 'div': 21}
    for _ in range(600 if tier == 'quick' else 6000):
        op = r.choice(OPS)
        b = r.randint(2, lim[op])
        g = lambda bb: r.choice((-1, 1)) * r.getrandbits(r.randint(0, bb))
        x = (g(b), g(b), g(b) or 1)
        y = (g(b), g(b), g(b) or 1)
        k = r.choice((1, 1, 2, 3, 6, 12, 360))     # common factors
        y = tuple(k * t for t in y) if abs(k) * 2 ** b < 2 ** (lim[op] + 1) else y
        out.append(('bits', x, y, op))
    # operands and result fit into 64 bits, the products on the way need not
    n = 0
    while n < (600 if tier == 'quick' else 6000):
        op = r.choice(OPS)
        g = lambda bb: r.choice((-1, 1)) * r.getrandbits(r.randint(0, bb))
        m = r.choice((10, 20, 29, 40, 60))
        x = (g(m), g(m), g(m) or 1)
        k = r.randrange(4)
        if k == 0:
            y = (g(m), g(m), x[2])                                  # the same denominator
        elif k == 1:
            y = (g(m), g(m), g(8) or 1)
        elif k == 2:
            y = exact(P, 'mul', x, (g(20), g(20), g(10) or 1)) or (1, 0, 1)   # a quotient with small terms
        else:
            f = r.choice((2, 3, 1 << 20, 10 ** 9, (1 << 31) - 1))     # common factors
            y = tuple(f * t for t in (g(30), g(30), g(30) or 1))
        if r.random() < .5:
            x, y = y, x
        z = exact(P, op, x, y)
        if max(map(abs, x + y)) < 2 ** 63 and (z is None or max(map(abs, z)) < 2 ** 63):
            out.append(('huge', x, y, op))
            n += 1
    # values beyond 2^53, where a detour through floating point loses digits
    for _ in range(300 if tier == 'quick' else 2000):
        op = r.choice(OPS)
        b = r.randint(53, 58)
        x = (r.choice((-1, 1)) * (r.getrandbits(b) | (1 << b - 1) | 1), r.choice((-1, 0, 1)) * (r.getrandbits(b) | 1), 1)
        if op in ('add', 'sub'):
            y = (r.getrandbits(b), -r.getrandbits(b) | 1, 1)
        else:
            y = r.choice([(1, 0, 1), (-1, 0, 1), (3, 0, 1), (0, 1, 1), (2, 0, 1), (1, 0, 2), (1, 0, -3)])
        out.append(('wide', x, y, op))
    # conjugates, units, fractional powers of the units: where cancellation is exact
    unit = {'ico': (0, 1, 1), 'dode': (2, 2, 1)}[P]
    p = (1, 0, 1)
    fibs = []
    for _ in range(12):
        fibs.append(p)
        a, b, _c = p
        p = (b, a + b, 1) if P == 'ico' else (2 * a + 1.5 * b, 2 * a + 2 * b, 1)
        if p[0] != int(p[0]):
            p = (p[0] * 2, p[1] * 2, 2)
        p = tuple(int(t) for t in p)
        if max(map(abs, p)) > 200000:
            break
    conj = lambda t: (t[0] + t[1], -t[1], t[2]) if P == 'ico' else (t[0], -t[1], t[2])
    for x in fibs:
        for y in fibs:
            for op in OPS:
                out.append(('unit', x, conj(y), op))
                out.append(('unit', conj(x), y, op))
    return out

def run(c, P):
    # 1. the reference arithmetic itself: field laws on everything a short calculation reaches
    depth = 2 if c.tier == 'quick' else 3
    out, st = core.tlc('Calc', {'PKG': '"%s"' % P, 'Depth': 1 if c.tier == 'quick' else 2, 'Emit': 'TRUE'}, c.work,
                       spec='Spec', extra_cfg='INVARIANT CanonInv\nINVARIANT Laws\nINVARIANT EmitInv\n')
    c.model('Calc (exhaustive)', out, st)
    hists = emitted(out)
    out, st = core.tlc('Calc', {'PKG': '"%s"' % P, 'Depth': 5, 'Emit': 'TRUE'}, c.work, spec='Spec',
                       extra_cfg='INVARIANT CanonInv\nINVARIANT EmitInv\n',
                       args=['-simulate', 'num=%d' % (60 if c.tier == 'quick' else 600), '-depth', '6', '-seed', str(c.seed)])
    c.notes.setdefault('models', []).append({'model': 'Calc (simulation)', 'states': st['generated']})
    hists += emitted(out)
    r = gen.rng(c.seed, 'hist', P)
    cap = 3000 if c.tier == 'quick' else 60000
    hists = hists if len(hists) <= cap else r.sample(hists, cap)
    if c.tier == 'thorough':
        selftest(c)
    # 2. the implementation against it
    xs = corpus(P, c.tier, c.seed)
    jobs = [(P, 'pairs', {'ops': OPS, 'xs': xs[i::16]}) for i in range(16)]
    jobs += [(P, 'histories', {'hists': hists[i::8]}) for i in range(8)]
    c.traces_of('ConfArith', core.run_jobs('arith', jobs))

def selftest(c):
    """the Java overrides compute what the TLA+ definitions say"""
    res = []
    for pure in (False, True):
        out, st = core.tlc('SelfTest', {}, c.work, spec='Spec', pure=pure, workers=1)
        m = re.search(r'<<\s*"SELF".*?(?=\n(Finished|Model|Computed|Progress))', out, re.S)
        if not m:
            raise core.TlcError(out[-2000:])
        res.append(m.group(0))
    if res[0] != res[1] or len(res[0]) < 10000:
        raise core.TlcError('overrides and definitions disagree')
    c.notes['override_selftest'] = 'identical output (%d characters) with and without the Java overrides' % len(res[0])

def emitted(out):
    h = []
    for line in out.splitlines():
        m = re.match(r'"?HIST (.*?)"?$', line.strip())
        if m:
            h.append(json.loads(m.group(1).replace('\\"', '"')))
    seen, res = set(), []
    for x in h:
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res
