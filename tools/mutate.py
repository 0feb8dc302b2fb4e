"""development aid: random small mutations of covered library lines, run against the quick checks that cover them.
usage: mutate.py COVDIR OUT N SEED [file-substring]"""
import ast, collections, glob, os, random, shutil, subprocess, sys, time
cov, out, N, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else ''
hit = collections.defaultdict(lambda: collections.defaultdict(set))
for d in glob.glob(cov + '/*'):
    for f in glob.glob(d + '/*'):
        for l in open(f):
            a, n = l.strip().rsplit(':', 1)
            hit[a][int(n)].add(os.path.basename(d))
COST = dict(A01=9, A02=9, A03=8, A04=8, S01=10, S02=5, S03=25, S04=11, S05=7, M01=14, M02=10, C01=14, C02=30, C03=39, G01=20, G02=22,
            B01=15, B02=10, B03=35, B04=10, F01=20, F02=9, F03=8, X02=40)
FIRST = {'math1': ['A01', 'A02', 'A03', 'A04'], 'numericalc': ['A04', 'G01', 'G02'], 'symmetry': ['S02', 'S05', 'S04', 'S01', 'S03'],
         'utils': ['M02', 'M01', 'C01', 'C02', 'C03'], 'intsct': ['G02', 'B02', 'B04', 'B01', 'B03'], 'occupation_domain': ['F03', 'F02', 'F01', 'C03', 'M02'],
         'two_occupation_domains': ['B01', 'B02', 'B03']}
def cands(path, key):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, c: off[ln - 1] + c
    res = []
    def rep(n, new, what):
        a, z = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        res.append((n.lineno, a, z, new.encode(), what))
    CM = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
    BO = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Mod: '+', ast.FloorDiv: '*'}
    tree = ast.parse(src)
    fn = {}
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if not hasattr(n, 'lineno') or n.lineno not in hit[key]:
                    continue
                g = lambda x: ast.get_source_segment(src, x)
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CM:
                    rep(n, '%s%s%s' % (g(n.left), CM[type(n.ops[0])], g(n.comparators[0])), 'cmp')
                elif isinstance(n, ast.BinOp) and type(n.op) in BO:
                    rep(n, '(%s)%s(%s)' % (g(n.left), BO[type(n.op)], g(n.right)), 'op')
                elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 50:
                    rep(n, '%d' % (n.value + 1), 'const+')
                    if n.value > 0:
                        rep(n, '%d' % (n.value - 1), 'const-')
                elif isinstance(n, ast.Constant) and type(n.value) is bool:
                    rep(n, str(not n.value), 'bool')
                elif isinstance(n, ast.BoolOp):
                    s = (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % g(v) for v in n.values)
                    rep(n, s, 'boolop')
                elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno:
                    rep(n, 'pass', 'del')
                elif isinstance(n, ast.Break):
                    rep(n, 'pass', 'nobreak')
                elif isinstance(n, ast.If) and n.test.lineno == n.test.end_lineno:
                    rep(n.test, 'not (%s)' % g(n.test), 'notif')
                    rep(n.test, 'False', 'iffalse')
                elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and n.lineno == n.end_lineno:
                    rep(n, '%s(%s,%s)' % (g(n.func), g(n.args[1]), g(n.args[0])), 'swap')
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    rep(n, '(%s)' % g(n.operand), 'neg')
    return b, res
r = random.Random(seed)
files = [f for f in sorted(glob.glob('/repo/src/pyqcstrc/*2/*.py')) if only in f]
pool = []
for f in files:
    k = f.split('/pyqcstrc/')[1]
    b, res = cands(f, k)
    if res:
        pool.append((f, k, b, res))
t0 = time.time()
kills = collections.Counter()
for i in range(N):
    f, k, b, res = pool[i % len(pool)]
    ln, a, z, new, what = r.choice(res)
    src_line = b.splitlines()[ln - 1].decode()
    if 'verbose' in src_line or 'print(' in src_line or src_line.lstrip().startswith('def '):
        continue
    m = b[:a] + new + b[z:]
    try:
        compile(m, f, 'exec')
    except SyntaxError:
        continue
    w = '/tmp/mut/w%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo/src/pyqcstrc', w + '/src/pyqcstrc')
    open(w + '/src/pyqcstrc/' + k, 'wb').write(m)
    cs = hit[k][ln]
    mod = os.path.basename(f)[:-3]
    order = [c for c in FIRST.get(mod, []) if c in cs] + sorted((c for c in cs if c not in FIRST.get(mod, [])), key=lambda c: COST.get(c, 50))
    res1 = []
    killed = None
    for c in order[:7]:
        p = subprocess.run(['python3', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py'), c, 'quick'], env=dict(os.environ, VERIF_REPO=w, VERIF_EVID='/tmp/mut/ev%d' % os.getpid(), VERIF_CALL_LIMIT='60'),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        res1.append('%s=%d' % (c, p.returncode))
        if p.returncode:
            killed = c if p.returncode == 1 else c + '!%d' % p.returncode
            break
    line = b.splitlines()[ln - 1].decode().strip()
    with open(out, 'a') as h:
        h.write('%s %s:%d [%s] %s   ==> %s   {%s}\n' % ('killed ' + killed if killed else 'SURVIVED', k, ln, what, line[:110], new.decode()[:90], ' '.join(res1)))
    kills[bool(killed)] += 1
    shutil.rmtree(w, ignore_errors=True)
print(kills, time.time() - t0)
