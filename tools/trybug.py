"""trybug.py <seeded id>... : run the check of each planted bug's property on a copy of /repo with the bug in it"""
import sys, os, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    pid = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    d = '/tmp/trybug/%s' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo/src', d + '/src'], check=True)
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, '%s/seeded/%s/patch.diff' % (V, i)], check=True, cwd='/')
    t = time.time()
    p = subprocess.run(['python3', V + '/check.py', pid, 'quick'], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    l = [x for x in p.stdout.splitlines() if x.startswith('rejected')]
    print(i, pid, 'CAUGHT' if p.returncode == 1 else 'MISSED' if p.returncode == 0 else 'ERROR', '%.0fs' % (time.time() - t), len(l), (l or [''])[0][:160], flush=True)
    shutil.rmtree(d)
