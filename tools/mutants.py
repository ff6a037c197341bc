"""Small syntactic changes of meshless, one at a time: those which pass the
stable tests are given to the quick checks until one of them reports.

usage: mutants.py [-n PERFILE] [file ...]     survivors are listed at the end"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plant

E = 'espim/plate2d_'
ORDER = {
    'espim/read_mesh.py': 'C01 C02 C23 C24 C20',
    E + 'calc_k0.py': 'C04 C03 C24 C23 C13 C20',
    E + 'calc_kG.py': 'C12 C23 C06 C13 C20',
    E + 'add_k0s.py': 'C10 C11 C09',
    E + 'add_k0s_cell_based.py': 'C09 C11 C23 C06',
    E + 'add_k0s_cell_based_no_smoothing.py': 'C09 C11 C23 C06',
    E + 'add_k0s_edge_based.py': 'C09 C11 C23 C06',
    'espim/classes.py': 'C03 C21 C01 C20',
    'utils.py': 'C21 C04 C20',
    'logger.py': 'C23',
    'interpolate.py': 'C15 C16',
    'dev/sympytools.py': 'C17 C18 C19',
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult}


def sites(tree):
    """(node path index, kind) of every possible change"""
    out = []
    names = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            names.setdefault(f.name, sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}))
    doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    for k, n in enumerate(ast.walk(tree)):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            out.append((k, 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((k, 'bin'))
        elif isinstance(n, ast.AugAssign):
            out += [(k, 'aug'), (k, 'del')]
        elif isinstance(n, ast.Constant) and n.value is not None:
            out.append((k, 'const'))
            if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1):
                out.append((k, 'dec'))
        elif isinstance(n, ast.UnaryOp):
            out.append((k, 'un'))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out += [(k, 'true'), (k, 'false')] if not isinstance(n, ast.While) else [(k, 'false')]
        elif isinstance(n, ast.BoolOp):
            out += [(k, 'bool'), (k, 'first')]
        elif isinstance(n, (ast.Assign, ast.Raise, ast.Assert, ast.Continue, ast.Break)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((k, 'del'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id[-1:].isdigit():
            out.append((k, 'name'))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr[-1:].isdigit():
            out.append((k, 'attr'))
    return out


def bump(s):
    return s[:-1] + str(int(s[-1]) % 3 + 1)


def change(tree, k, kind):
    n = list(ast.walk(tree))[k]
    before = ast.unparse(n)[:90]
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind in ('bin', 'aug'):
        n.op = BIN[type(n.op)]()
    elif kind == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, (int, float)) else v + 'X' if isinstance(v, str) else v
    elif kind == 'dec':
        n.value -= 1
    elif kind == 'un':
        return before, (n, n.operand)
    elif kind == 'true':
        n.test = ast.Constant(True)
    elif kind == 'false':
        n.test = ast.Constant(False)
    elif kind == 'bool':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'first':
        n.values = n.values[1:] + n.values[1:]
    elif kind == 'del':
        return before, (n, ast.Pass())
    elif kind == 'name':
        n.id = bump(n.id)
    elif kind == 'attr':
        n.attr = bump(n.attr)
    return before, None


class Replace(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit(self, n):
        if n is self.a:
            return ast.copy_location(self.b, n)
        return self.generic_visit(n)


def mutants(f, per):
    src = open('/repo/meshless/' + f).read()
    tree = ast.parse(src)
    s = sites(tree)
    nodes = list(ast.walk(tree))
    # long matrix lines get few, everything else all
    long_lines = {i+1 for i, l in enumerate(src.split('\n')) if l.lstrip().startswith(('k0[', 'kG['))}
    short = [x for x in s if getattr(nodes[x[0]], 'lineno', 0) not in long_lines]
    longs = [x for x in s if getattr(nodes[x[0]], 'lineno', 0) in long_lines]
    random.Random(7).shuffle(short)
    random.Random(8).shuffle(longs)
    for k, kind in short[:per] + longs[:per//6]:
        t = copy.deepcopy(tree)
        line = getattr(nodes[k], 'lineno', 0)
        try:
            before, rep = change(t, k, kind)
            if rep:
                t = Replace(*rep).visit(t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            compile(new, f, 'exec')
        except Exception:
            continue
        if new != ast.unparse(tree):
            yield dict(file=f, line=line, kind=kind, before=before, new=new)


def tests(m, w):
    d = '/tmp/mut_%d_%d' % (os.getpid(), w)
    try:
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        open(d + '/meshless/' + m['file'], 'w').write(m['new'])
        try:
            return bool(plant.tests_pass(d)[0])
        except subprocess.TimeoutExpired:
            return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    per = 60
    if a[:1] == ['-n']:
        per, a = int(a[1]), a[2:]
    left = []
    for f in a or ORDER:
        ms = list(mutants(f, per))
        with cf.ThreadPoolExecutor(7) as ex:
            ok = list(ex.map(tests, ms, range(len(ms))))
        alive = [m for m, o in zip(ms, ok) if o]
        print('%s: %d changes, %d pass the tests' % (f, len(ms), len(alive)), flush=True)
        d = '/tmp/mut_%d' % os.getpid()
        for m in alive:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
            open(d + '/meshless/' + m['file'], 'w').write(m['new'])
            by = None
            for c in ORDER[f].split():
                try:
                    r = subprocess.run([V + '/check.sh', c, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                       universal_newlines=True, timeout=600, env=dict(os.environ, MESHLESS_REPO=d))
                    if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout:
                        by = c
                        break
                    if r.returncode != 0:
                        by = c + '(rc %d)' % r.returncode
                except subprocess.TimeoutExpired:
                    by = c + '(time)'
            print('   %-8s %s:%d %s %s' % (by or 'SURVIVES', f, m['line'], m['kind'], m['before'].replace('\n', ' ')), flush=True)
            if not by:
                left.append(m)
        shutil.rmtree(d, ignore_errors=True)
    print('\nsurvivors: %d' % len(left))
    for m in left:
        print('  %s:%d %s %s' % (m['file'], m['line'], m['kind'], m['before'].replace('\n', ' ')))


main()
