#!/usr/bin/env python3
"""Development aid (not a check): mutants of /repo's source which still pass its tests.

mutate.py make OUTDIR [--seed N] [--sample N] [--jobs N]   write surviving mutants as patches
mutate.py detect OUTDIR [--jobs N]                         run the checks against each of them
"""
import ast, copy, json, os, random, subprocess, sys, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
FILES = ['_base.py', '_diffgeom.py', '_geomalg.py', '_intersect.py', '_interpolate.py', '_smooth.py', '_distance.py', '_numeric.py', '_utils.py', 'curves.py']
PROPS = {'_base.py': 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C30 C15 C16 C17 C18 C19 C20 C11 C26 C14'.split(),
         '_diffgeom.py': 'C11 C12 C13 C14 C15'.split(), '_geomalg.py': 'C15 C16 C17 C18 C19 C20 C21 C22'.split(),
         '_intersect.py': 'C24 C22 C21 C23 C28'.split(), '_interpolate.py': 'C25 C26 C28'.split(), '_smooth.py': 'C27 C28'.split(),
         '_distance.py': ['C30'], '_numeric.py': 'C30 C25 C01 C07 C17'.split(), '_utils.py': 'C11 C12 C01'.split(), 'curves.py': ['C29']}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
NAMES = {'minimum': 'maximum', 'maximum': 'minimum', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'floor': 'ceil', 'p1': 'p2', 'p2': 'p1', 'frenet1': 'frenet2', 'segment1': 'segment2', 'obj1': 'obj2', 'isclose': 'equal', 'before': 'after', 'after': 'before', 'cos': 'sin', 'is2d': 'is3d', 'curve1': 'curve2', 's1': 's2', 'argmin': 'argmax', 'nanmin': 'nanmax', 'beg': 'end'}


def sites(tree):
    """(node id path, list of edits) as functions of a fresh tree: yields (index of node in walk order, variant)"""
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for v in range(len(CMP[type(n.ops[0])])):
                yield i, ('cmp', v)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, ('bin', 0)
            if isinstance(n.op, (ast.Sub, ast.Div)):
                yield i, ('swap', 0)
        elif isinstance(n, ast.BoolOp):
            yield i, ('bool', 0)
            for v in range(len(n.values)):
                yield i, ('drop', v)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            yield i, ('un', 0)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                yield i, ('const', not n.value)
            elif isinstance(n.value, int):
                yield i, ('const', n.value + 1)
                yield i, ('const', n.value - 1)
            elif isinstance(n.value, float):
                yield i, ('const', n.value * 2 + 0.5)
        elif isinstance(n, ast.If):
            yield i, ('iffalse', 0)
            yield i, ('iftrue', 0)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield i, ('args', 0)
            for v in range(len(n.keywords)):
                yield i, ('kw', v)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'reshape', 'transpose'):
                yield i, ('peel', 0)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield i, ('attr', 0)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            yield i, ('name', 0)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            yield i, ('del', 0)
        elif isinstance(n, ast.AugAssign):
            yield i, ('del', 0)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield i, ('del', 0)
        elif isinstance(n, ast.Raise):
            yield i, ('del', 0)


def apply(tree, i, e):
    n = list(ast.walk(tree))[i]
    k, v = e
    if k == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])][v]()
    elif k == 'bin':
        n.op = BIN[type(n.op)][0]()
    elif k == 'swap':
        n.left, n.right = n.right, n.left
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == 'drop':
        del n.values[v]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif k == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if not isinstance(n.op, ast.UAdd):
            x = n.operand
            n.op, n.operand = ast.Not(), ast.UnaryOp(ast.Not(), x)
    elif k == 'const':
        n.value = v
    elif k == 'iffalse':
        n.test = ast.Constant(False)
    elif k == 'iftrue':
        n.test = ast.Constant(True)
    elif k == 'args':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == 'kw':
        del n.keywords[v]
    elif k == 'peel':
        n.args, n.keywords, n.func = [n.func.value], [], ast.Name('_same', ast.Load())
    elif k in ('attr',):
        n.attr = NAMES[n.attr]
    elif k == 'name':
        n.id = NAMES[n.id]
    elif k == 'del':
        pass
    return n, k


def mutant_source(src, i, e):
    """textual edit of the statement which holds the node (keeps the rest of the file)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    parent = {}
    for p in nodes:
        for c in ast.iter_child_nodes(p):
            parent[c] = p
    s = n
    while not isinstance(s, ast.stmt):
        s = parent[s]
    lines = src.split('\n')
    if isinstance(n, ast.If) and e[0] in ('iffalse', 'iftrue'):
        t = n.test
        a, b = (t.lineno, t.col_offset), (t.end_lineno, t.end_col_offset)
        new = 'False' if e[0] == 'iffalse' else 'True'
    elif e[0] == 'del':
        a, b, new = (s.lineno, s.col_offset), (s.end_lineno, s.end_col_offset), 'pass'
    else:
        a, b = (n.lineno, n.col_offset), (n.end_lineno, n.end_col_offset)
        m, _ = apply(tree, i, e)
        if e[0] == 'peel':
            new = ast.unparse(m.args[0])
        else:
            new = ast.unparse(m)
            if isinstance(m, (ast.BinOp, ast.BoolOp, ast.Compare, ast.UnaryOp)):
                new = '(' + new + ')'
    pos = lambda p: sum(len(l.encode()) + 1 for l in lines[:p[0] - 1]) + p[1]
    raw = src.encode()
    return (raw[:pos(a)] + new.encode() + raw[pos(b):]).decode(), a[0]


def interesting(src, tree):
    """line numbers of code in functions, without docstrings, __repr__, annotations"""
    bad = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', '__hash__'):
            bad |= {id(m) for m in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.arguments, ast.AnnAssign)):
            for f in ('returns', 'annotation'):
                if getattr(n, f, None) is not None:
                    bad |= {id(m) for m in ast.walk(getattr(n, f))}
        if isinstance(n, ast.arg) and n.annotation is not None:
            bad |= {id(m) for m in ast.walk(n.annotation)}
        if isinstance(n, ast.Raise) and n.exc is not None:
            bad |= {id(m) for m in ast.walk(n.exc)}
        if isinstance(n, ast.JoinedStr):
            bad |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id in ('ty', 't'):
            bad |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
            bad |= {id(m) for a in n.args for m in ast.walk(a)}
    return bad


def make(out, seed, sample, jobs):
    os.makedirs(out, exist_ok=True)
    cand = []
    for f in FILES:
        src = open('%s/skcurve/%s' % (REPO, f)).read()
        tree = ast.parse(src)
        bad = interesting(src, tree)
        nodes = list(ast.walk(tree))
        for i, e in sites(tree):
            if id(nodes[i]) not in bad:
                cand.append((f, i, e))
    random.Random(seed).shuffle(cand)
    print(len(cand), 'candidates')
    cand = cand[:sample]

    def one(c):
        f, i, e = c
        src = open('%s/skcurve/%s' % (REPO, f)).read()
        try:
            new, line = mutant_source(src, i, e)
            compile(new, f, 'exec')
        except Exception as err:
            return None
        if new == src:
            return None
        d = tempfile.mkdtemp(prefix='mut_')
        try:
            shutil.copytree(REPO, d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
            open(d + '/r/skcurve/' + f, 'w').write(new)
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=d + '/r', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, env=dict(os.environ, PYTHONPATH=d + '/r'))
            except subprocess.TimeoutExpired:
                return None
            if r.returncode:
                return None
            name = '%s-%d-%s-%d' % (f[:-3].strip('_'), line, e[0], i)
            p = subprocess.run(['diff', '-u', '--label', 'a/skcurve/' + f, '--label', 'b/skcurve/' + f, '%s/skcurve/%s' % (REPO, f), d + '/r/skcurve/' + f], stdout=subprocess.PIPE)
            open(os.path.join(out, name + '.diff'), 'wb').write(p.stdout)
            return name
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(jobs) as ex:
        got = [x for x in ex.map(one, cand) if x]
    print(len(got), 'survive the tests')


def enclosing(src, line):
    """qualified name of the outermost function around a line"""
    best = None
    def walk(node, prefix):
        nonlocal best
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and min([c.lineno] + [d.lineno for d in c.decorator_list]) <= line <= c.end_lineno:
                if isinstance(c, ast.ClassDef):
                    walk(c, prefix + [c.name])
                else:
                    best = '.'.join(prefix + [c.name])
    walk(ast.parse(src), [])
    return best


def relevant(f, diff, ev):
    line = int([l for l in diff.splitlines() if l.startswith('@@')][0].split()[1].lstrip('-').split(',')[0])
    body = diff.split('@@')[2].splitlines()[1:] if '@@' in diff else []
    for l in body:
        if l.startswith('-'):
            break
        line += 1
    name = enclosing(open(os.path.join(REPO, 'skcurve', f)).read(), line)
    full = 'skcurve.%s.%s' % (f[:-3], name)
    out = sorted((len(fs), p) for p, fs in ev.items() if full in fs)
    return full, [p for _, p in out]


def detect(out, only, jobs):
    res = {}
    rf = os.path.join(out, 'results.json')
    if os.path.exists(rf):
        res = json.load(open(rf))
    ev = {}
    base = os.environ.get('MUT_EVIDENCE', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'))
    for x in os.listdir(base):
        if x.endswith('.json'):
            ev[x[:-5]] = json.load(open(os.path.join(base, x)))['coverage']['functions_encoded']

    def one(fn):
        diff = open(os.path.join(out, fn)).read()
        f = [x for x in FILES + ['plot.py'] if diff.splitlines()[0].strip().endswith('/' + x)][0]
        name, props = relevant(f, diff, ev)
        d = tempfile.mkdtemp(prefix='mut_')
        caught, seen = None, []
        try:
            shutil.copytree(REPO, d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__'))
            subprocess.check_call(['patch', '-s', '-p1', '-i', os.path.join(out, fn)], cwd=d + '/r')
            for c in props[:20]:
                r = subprocess.run(['python3-vt', '/verif/check.py', c, '--jobs', '2'], env=dict(os.environ, VERIF_REPO=d + '/r', VERIF_FAILFAST='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
                seen.append(c if r.returncode == 0 else '%s:%d' % (c, r.returncode))
                if r.returncode == 1:
                    caught = c
                    break
        finally:
            shutil.rmtree(d)
        res[fn[:-5]] = {'caught': caught, 'function': name, 'ran': seen}
        json.dump(res, open(rf, 'w'), indent=1)
        print(fn[:-5], name, caught, seen, flush=True)

    todo = [fn for fn in sorted(os.listdir(out)) if fn.endswith('.diff') and fn[:-5] not in res and only in fn]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--sample', type=int, default=300)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--only', default='')
    a = ap.parse_args()
    make(a.out, a.seed, a.sample, a.jobs) if a.cmd == 'make' else detect(a.out, a.only, a.jobs)
