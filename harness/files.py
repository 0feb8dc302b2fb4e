"""Reading the files the library writes into their fields (no judgement here)."""
import os, re
from fractions import Fraction
from core import z

def dec(t):
    """a decimal number, exactly"""
    if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', t):
        raise ValueError('number expected: ' + t[:30])
    f = Fraction(t)
    return [z(f.numerator), z(f.denominator)]

def small(t):
    n = int(t)
    if abs(n) > 2 ** 30:
        raise ValueError('number too large: ' + t[:30])
    return n

def lines(path):
    with open(path, encoding='utf-8') as f:
        return f.read().split('\n')

def parsed(fn, *a):
    try:
        d = fn(*a)
        d['ok'] = True
        d.setdefault('why', '')
        return d
    except (ValueError, IndexError, OSError, UnicodeError, StopIteration) as e:
        return {'ok': False, 'why': re.sub(r'[^A-Za-z0-9 .:_-]', ' ', '%s %s' % (type(e).__name__, e))[:80]}

def _vol(t):
    m = re.search(r'(-?\d+) (-?\d+) (-?\d+) \(\s*(\S+?)\)\s*$', t)
    if not m:
        raise ValueError('volume expected')
    return {'k': 'vol', 'v': [z(int(m.group(i))) for i in (1, 2, 3)], 'f': dec(m.group(4))}

def xyz(path):
    ls = lines(path)
    n = small(ls[0].split()[0])
    d = {'n': n, 'rows': [], 'vol': {'k': 'none'}, 'per': []}
    for l in ls[2:]:
        if not l.strip():
            continue
        t = l.split()
        if t[0] == 'Xx':
            ints = [int(x) for x in t[-18:]]
            lab = [int(x) for x in re.findall(r'(-?\d+)-th', l)]
            if len(t) < 23:
                raise ValueError('short line')
            d['rows'].append({'xyz': [dec(x) for x in t[1:4]], 'lab': lab,
                              'c': [[z(ints[3 * i + j]) for j in range(3)] for i in range(6)]})
        elif t[0].startswith('volume'):
            d['vol'] = _vol(l)
        else:
            m = re.match(r'\s*(\d+)-the', l)
            if not m:
                raise ValueError('unknown line')
            d['per'].append({'i': int(m.group(1)), 'v': _vol(l)})
    return d

def vesta(path):
    it = iter([l.strip() for l in lines(path)])
    mols, m, sec = [], None, None
    rows = []
    zero = lambda t: all(x == '0' for x in t)
    for l in it:
        t = l.split()
        if not t:
            continue
        if t[0] == 'MOLECULE':
            m = {'atoms': [], 'theri': [], 'bonds': [], 'sitet': []}
            mols.append(m)
            sec = None
        elif t[0] in ('STRUC', 'THERI', 'SBOND', 'SITET'):
            sec = t[0]
        elif sec and zero(t):
            sec = None
        elif sec == 'STRUC':
            m['atoms'].append({'i': small(t[0]), 'sym': t[1], 'lab': t[2], 'xyz': [dec(x) for x in t[4:7]]})
            next(it)
        elif sec == 'THERI':
            m['theri'].append(t[1])
        elif sec == 'SITET':
            m['sitet'].append(t[1])
        elif sec == 'SBOND':
            m['bonds'].append({'i': small(t[0]), 'a': t[1], 'b': t[2], 'lo': dec(t[3]), 'hi': dec(t[4]), 'rgb': [small(x) for x in t[-3:]]})
    return {'mols': mols}

def podatm(path, base):
    ex = [os.path.exists('%s/%s.%s' % (path, base, e)) for e in ('atm', 'pod')]
    if ex != [True, True]:
        return {'exists': ex}
    a = [l for l in lines('%s/%s.atm' % (path, base)) if l.strip()]
    p = [l for l in lines('%s/%s.pod' % (path, base)) if l.strip()]
    h = a[0].split()
    xs = [l for l in a if l.startswith('x=')]
    if len(xs) != 1:
        raise ValueError('one position expected')
    ph = p[0].split()
    ej = [l for l in p if l.startswith('ej=')]
    nth = [l for l in p if l.startswith('nth=')]
    if len(nth) != 1:
        raise ValueError('one index list expected')
    nt = nth[0].split()[1:]
    return {'exists': ex, 'serial': [small(h[0]), small(h[3]), small(ph[0])], 'x': [dec(t) for t in xs[0].split()[1:]],
            'nej': small(ph[1]), 'ej': [[dec(t) for t in l.split()[1:]] for l in ej],
            'nth': small(nt[0]), 'idx': [small(t) for t in nt[1:]]}

def podatm0(path, base):
    d = parsed(podatm, path, base)
    d.setdefault('exists', [os.path.exists('%s/%s.%s' % (path, base, e)) for e in ('atm', 'pod')])
    return d

def handpod(path, base):
    a = [l for l in lines('%s/%s.atm' % (path, base)) if l.strip()]
    p = [l for l in lines('%s/%s.pod' % (path, base)) if l.strip()]
    atm, pod = [], []
    for l in a:
        t = l.split()
        if "'Em'" in l:
            atm.append({'serial': small(t[0])})
        elif t[0] == 'x=':
            atm[-1]['x'] = [dec(x) for x in t[1:7]]
        elif t[0] == 'xi=':
            atm[-1]['xi'] = [dec(x) for x in t[1:7]]
    io = small(re.search(r'io=(\d+)', p[0]).group(1))
    for l in p:
        t = l.split()
        if "'comment'" in l:
            pod.append({'serial': small(t[0]), 'nej': small(t[1]), 'ej': [], 'nth': -1, 'idx': []})
        elif t[0] == 'ej=':
            pod[-1]['ej'].append([dec(x) for x in t[1:7]])
        elif t[0] == 'nth=':
            pod[-1]['nth'] = small(t[1])
            pod[-1]['idx'] = [small(x) for x in t[2:]]
    for e in atm:
        if 'x' not in e or 'xi' not in e:
            raise ValueError('incomplete entry')
    return {'atm': atm, 'pod': pod, 'io': io}
