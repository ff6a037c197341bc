"""Runs the quick check of the property of each planted change against a scratch
copy of /repo with the change.  usage: try_seeded.py [-p C..] [id ...]"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args[:1] == ['-p']:
    prop = args[1]
    args = args[2:]
ids = args or sorted(os.listdir(V + '/seeded'))
scratch = '/tmp/try_%d' % os.getpid()
missed = []
for i in ids:
    d = V + '/seeded/' + i
    p = prop or json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=scratch, check=True)
        t = time.time()
        r = subprocess.run([V + '/check.sh', p, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, env=dict(os.environ, MESHLESS_REPO=scratch, VERIF_SEED='1', VERIF_TIER='quick'))
        lines = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
        ok = r.returncode == 1 and lines
        if not ok:
            missed.append(i)
        print('%-28s %s %s rc=%d %.0fs %s' % (i, p, 'caught' if ok else 'MISSED', r.returncode, time.time() - t,
              '' if ok else r.stdout[-300:]), flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
print('missed:', missed)
