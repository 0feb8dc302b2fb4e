"""seed.py <spec.py>: make /verif/seeded/<id>/ from a list of edits and confirm it.
Each entry: id, property, file, edits [(old, new)], demo (python source), needs, breaks.
Builds the patch in /repo's working tree, runs the stable tests and the demonstration, and undoes it."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PRE = '''import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
import numpy as np
'''
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d):
    return sh('bash', d + '/demo.sh', cwd=R)
def main(path):
    ns = {}
    exec(open(path).read(), ns)
    only = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        assert not sh('git', '-C', R, 'status', '--porcelain', '-uno').stdout.strip(), 'dirty /repo'
        d = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            for f, old, new in b['edits']:
                p = os.path.join(R, 'src/pyqcstrc', f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (b['id'], n, f, old[:80]))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.py', 'w').write(PRE + b['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            x = sh('bash', '/opt/vp/build.sh')
            r1 = demo(d)
            t = sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
            o = json.load(open('/tmp/seed_out.json'))
            passed = set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
        r0 = demo(d)
        bad = base - passed
        ok = x.returncode == 0 and r0.returncode == 0 and r1.returncode != 0 and not bad
        print(b['id'], 'OK' if ok else 'REJECTED', 'build', x.returncode, 'clean', r0.returncode, 'bug', r1.returncode, 'failing', sorted(bad)[:3])
        if not ok:
            print(r0.stdout[-600:] if r0.returncode else '', r1.stdout[-300:])
            shutil.rmtree(d)
main(sys.argv[1])
