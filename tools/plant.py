"""Turns a description of a planted change into /verif/seeded/<id>/ after
confirming, in a scratch copy, that it applies to original lines, builds, passes
the stable tests, and that its demonstration tells the two trees apart.

usage: plant.py FILE [id ...]   FILE is a Python file defining BUGS, a list of
dicts: id, property, needs, breaks, edits=[(file, old, new)], demo (text)."""
import json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SCRATCH = '/tmp/plant_%d' % os.getpid()
PY = '/opt/venv/bin/python'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
               PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, timeout=300, **kw)


def tests_pass(tree):
    ids = []
    for s in STABLE:
        mod, t = s.split('::')
        ids.append(mod.replace('.', '/') + '.py::' + t)
    r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] + ids, tree)
    m = re.search(r'(\d+) passed', r.stdout)
    return r.returncode == 0 and m and int(m.group(1)) == len(STABLE), r.stdout


def original_lines(tree, patch):
    """every hunk must remove at least one line of the base commit"""
    base = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], '/repo').stdout.split()[-1]
    f = None
    ok = bad = 0
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
            blame = run(['git', 'blame', '-l', '--root', 'HEAD', '--', f], '/repo').stdout.splitlines()
        m = re.match(r'@@ -(\d+)', line)
        if m:
            no = int(m.group(1))
        elif line.startswith('-') and not line.startswith('---'):
            if blame[no-1].lstrip('^').startswith(base[:30]):
                ok += 1
            else:
                bad += 1
            no += 1
        elif line.startswith(' '):
            no += 1
    return ok, bad


def plant(b):
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    shutil.copytree('/repo', SCRATCH, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    tmpd = SCRATCH + '_demo'
    if os.path.exists(tmpd):
        shutil.rmtree(tmpd)
    os.makedirs(tmpd)
    try:
        with open(tmpd + '/demo.sh', 'w') as fh:
            fh.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(tmpd + '/demo.py', 'w') as fh:
            fh.write('from demolib import *\n\n' + b['demo'].strip('\n') + '\nprint("ok")\n')
        shutil.copy(os.path.join(HERE, 'demolib.py'), tmpd)
        r = run(['bash', tmpd + '/demo.sh'], SCRATCH)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        run(['git', 'init', '-q'], SCRATCH)
        run(['git', 'add', '-f', 'meshless', 'theory'], SCRATCH)
        run(['git', '-c', 'user.email=a@b', '-c', 'user.name=a', 'commit', '-qm', 'x'], SCRATCH)
        for f, old, new in b['edits']:
            p = os.path.join(SCRATCH, 'meshless', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d occurrences of %r' % (f, s.count(old), old)
            with open(p, 'w') as fh:
                fh.write(s.replace(old, new))
        patch = run(['git', 'diff'], SCRATCH).stdout
        ok, bad = original_lines(SCRATCH, patch)
        if not ok or bad:
            return 'original lines: %d, others: %d' % (ok, bad)
        good, out = tests_pass(SCRATCH)
        if not good:
            return 'tests fail\n' + out[-1200:]
        r = run(['bash', tmpd + '/demo.sh'], SCRATCH)
        if r.returncode == 0:
            return 'demo passes with the change'
        dst = os.path.join(SEEDED, b['id'])
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(tmpd, dst)
        with open(dst + '/patch.diff', 'w') as fh:
            fh.write(patch)
        with open(dst + '/meta.json', 'w') as fh:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, fh, indent=1)
            fh.write('\n')
        a = run(['git', 'apply', '--check', dst + '/patch.diff'], '/repo')
        if a.returncode:
            return 'does not apply: ' + a.stdout
        return 'ok   [' + r.stdout.strip().splitlines()[-1][:100] + ']'
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        shutil.rmtree(tmpd, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    for b in ns['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print('%-28s %s' % (b['id'], plant(b)), flush=True)
