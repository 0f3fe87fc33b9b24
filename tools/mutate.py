#!/opt/venv/bin/python
"""mutate.py WORKDIR FILE...: plant small syntactic changes one by one in a scratch copy of /repo and list those after which the
recorded behaviour is the same as before (tools/rectrace.py): places the drivers do not reach, or changes without an effect.
MUT_WIDE=1: other variables, swapped arguments, shortened loops, lost copies, keywords and cache keys; MUT_MAX samples."""
import ast, json, os, random, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {'boxes': 'C20', 'crystals': 'C08', 'dualops': 'C20', 'operators': 'C20', 'insertion': 'C24 C01 C02 C17', 'partitions': 'C16 C17 C10 C09 C11 C18 C20',
         'permutations': 'C03 C05 C06 C07 C04 C25 C11 C08', 'polynomials': 'C14 C13 C11 C12', 'symmetric': 'C13 C25 C11 C12 C18', 'tableaux': 'C21 C10 C09 C18 C08 C17 C01 C02 C11',
         'utils': 'C25 C11 C12 C13', 'vectors': 'C15 C12 C20', 'vst': 'C19', 'words': 'C22 C08 C04', 'cached': 'C09 C10 C11'}
SKIP = ('compare', 'print_', '__repr__', 'test_')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.BitOr: '&', ast.BitAnd: '|', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(n, new, what):
        a, z = pos(n)
        out.append((n.lineno, what, a, z, new))

    def text(n):
        a, z = pos(n)
        return b[a:z].decode()

    names = {}
    for d in ast.walk(tree):
        if isinstance(d, ast.FunctionDef):
            names[d.name] = sorted({x.id for x in ast.walk(d) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in d.args.args} - {'self', 'cls'})
    caches = sorted({x.id for x in tree.body if isinstance(x, ast.Assign) for x in x.targets if isinstance(x, ast.Name) and x.id.endswith('CACHE')})
    pick = random.Random(7)

    def wide(n, fn):
        # other variables, swapped arguments, shorter loops, lost copies and keywords, shared caches
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names.get(fn, []):
            for v in pick.sample([v for v in names[fn] if v != n.id], min(2, len(names[fn]) - 1)):
                put(n, v, 'name')
        if isinstance(n, ast.Name) and n.id in caches:
            for v in pick.sample([v for v in caches if v != n.id], min(1, len(caches) - 1)):
                put(n, v, 'cache')
        if isinstance(n, ast.Call):
            for k in range(len(n.args) - 1):
                a, z = pos(n.args[k])[0], pos(n.args[k + 1])[1]
                out.append((n.lineno, 'swap', a, z, text(n.args[k + 1]) + ', ' + text(n.args[k])))
            for k in n.keywords:
                if k.arg:
                    a = pos(k.value)[0] - len(k.arg) - 1
                    z = pos(k.value)[1]
                    if b[a:a + len(k.arg)].decode() == k.arg:
                        out.append((n.lineno, 'keyword', a, z, '') if b[a - 2:a] != b', ' else (n.lineno, 'keyword', a - 2, z, ''))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                put(n, text(n.func.value), 'no copy')
            if isinstance(n.func, ast.Name) and n.func.id == 'abs':
                put(n, '(' + text(n.args[0]) + ')', 'no abs')
        if isinstance(n, (ast.For, ast.comprehension)):
            it = text(n.iter)
            put(n.iter, 'list(' + it + ')[:-1]', 'not the last')
            put(n.iter, 'list(' + it + ')[1:]', 'not the first')
            put(n.iter, 'list(' + it + ')[::-1]', 'backwards')
            put(n.iter, 'list(' + it + ')[:3]', 'three at most')
        if isinstance(n, ast.Slice):
            for q in (n.lower, n.upper):
                if q is not None:
                    put(q, text(q) + ' + 1', 'slice')
                    put(q, text(q) + ' - 1', 'slice')
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            put(n, '(' + text(n.elts[1]) + ', ' + text(n.elts[0]) + ')', 'swap')
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 2:
            k = pick.randrange(len(n.elts))
            put(n, '(' + ', '.join(text(e) for j, e in enumerate(n.elts) if j != k) + ')', 'shorter key')

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            if any(fn.startswith(s) for s in SKIP):
                return
        if isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            parts = [n.left] + n.comparators
            for k, op in enumerate(n.ops):
                a, z = pos(parts[k])[1], pos(parts[k + 1])[0]
                mid = b[a:z].decode()
                core = mid.strip(' ()')
                if type(op) in CMP and '(' not in mid and ')' not in mid:
                    out.append((n.lineno, 'cmp %s->%s' % (core, CMP[type(op)]), a, z, ' ' + CMP[type(op)] + ' '))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, z = pos(n.left)[1], pos(n.right)[0]
            mid = b[a:z].decode()
            if '(' not in mid and ')' not in mid:
                out.append((n.lineno, 'bin %s->%s' % (mid.strip(), BIN[type(n.op)]), a, z, ' ' + BIN[type(n.op)] + ' '))
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'bool')
            elif type(n.value) is int:
                put(n, str(n.value + 1), 'int %d->%d' % (n.value, n.value + 1))
                if n.value > 0:
                    put(n, str(n.value - 1), 'int %d->%d' % (n.value, n.value - 1))
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                new = (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + text(w) + ')' for j, w in enumerate(n.values) if j != k)
                put(n, '(' + new + ')', 'drop operand %d' % k)
            put(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join('(' + text(w) + ')' for w in n.values) + ')', 'and/or')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(' + text(n.operand) + ')', 'drop unary')
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True', 'if True')
            put(n.test, 'False', 'if False')
        if isinstance(n, ast.While):
            put(n.test, 'False', 'while False')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, 'True', 'no filter')
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'pass')
        if isinstance(n, ast.AugAssign):
            put(n, 'pass', 'drop augassign')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'drop call')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'list', 'set', 'tuple', 'max', 'min', 'all', 'any') and len(n.args) == 1:
            if n.func.id in ('sorted', 'reversed'):
                put(n, 'list(' + text(n.args[0]) + ')', n.func.id + '->list')
            elif n.func.id in ('list',):
                put(n, '(' + text(n.args[0]) + ')', 'no copy')
            elif n.func.id in ('max', 'min', 'all', 'any'):
                put(n.func, {'max': 'min', 'min': 'max', 'all': 'any', 'any': 'all'}[n.func.id], n.func.id)
        if os.environ.get('MUT_WIDE'):
            wide(n, fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(n, ast.FunctionDef) and (c in n.decorator_list):
                continue
            walk(c, fn)
    for n in tree.body:
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            walk(n, '')
    seen, res = set(), []
    for m in out:
        if m[2:] not in seen:
            seen.add(m[2:])
            res.append(m)
    return b, res


def run(job):
    work, f, props, b, (line, what, a, z, new), k = job
    d = os.path.join(work, 'm%d' % os.getpid())
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
    p = os.path.join(d, f)
    orig = open(p, 'rb').read()
    nb = b[:a] + new.encode() + b[z:]
    try:
        compile(nb, f, 'exec')
    except SyntaxError:
        return None
    open(p, 'wb').write(nb)
    env = dict(os.environ, VERIF_REPO=d, VERIF_OP_LIMIT='10', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    try:
        for q in props:
            try:
                rc = subprocess.run(['/opt/venv/bin/python', HERE + '/rectrace.py', q, '/tmp/mut/base/%s.json' % q], env=env, timeout=240,
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                rc = 2
            if rc:
                return None
    finally:
        open(p, 'wb').write(orig)
    src = b.decode().split('\n')[line - 1].strip()
    return '%s:%d [%s -> %s] %s' % (f, line, b[a:z].decode().replace('\n', ' ')[:50], new[:50], src[:150])


def main():
    work = sys.argv[1]
    os.makedirs(work, exist_ok=True)
    n = int(os.environ.get('MUT_MAX', '100000'))
    for f in sys.argv[2:]:
        b, ms = mutants(open('/repo/' + f).read())
        rng = random.Random(1)
        if os.environ.get('MUT_WIDE'):
            ms = [m for m in ms if m[1] in ('name', 'cache', 'swap', 'keyword', 'no copy', 'no abs', 'not the last', 'not the first', 'backwards', 'three at most', 'slice', 'shorter key')]
        if len(ms) > n:
            ms = rng.sample(ms, n)
        ms.sort()
        props = PROPS[f[:-3]].split()
        live = 0
        with cf.ProcessPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
            for r in ex.map(run, [(work, f, props, b, m, k) for k, m in enumerate(ms)], chunksize=1):
                if r:
                    live += 1
                    print(r, flush=True)
        print('## %s: %d mutants, %d unnoticed' % (f, len(ms), live), flush=True)


main()
