#!/usr/bin/env python3
"""Development: mutants of the package that pass the stable tests, tried against the checks.

mutate.py FILE[:first-last] OUT.jsonl [--workers N] [--sample N] [--checks C22,C23,...]

Each mutant changes one expression or statement.  Scratch copies only; results (killed by the tests,
caught by a check, survived) are appended to OUT.jsonl, one line per mutant.
"""
import warnings
warnings.simplefilter("ignore")
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
CHECKS = {
    'collocation/polynomial.py': 'C02 C03 C04 C05 C01 C06 C10 C12',
    'collocation/butcher.py': 'C05 C14 C15 C17',
    'collocation/piecewise_poly.py': 'C08 C07 C06 C09 C17',
    'collocation/collocation.py': 'C16 C17 C15 C10 C11 C12 C13 C14 C18 C36 C37',
    'system_trajectory.py': 'C13',
    'dae_model.py': 'C19 C20 C21 C38 C14 C18',
    'inequality.py': 'C33 C32',
    'structure3.py': 'C22 C35 C27 C34 C33 C25 C23 C29 C31 C26 C30 C28 C24',
}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [l.encode() for l in src.splitlines(True)]
        self.out = []
        self.fn = []

    def off(self, line, col):
        return len(b''.join(self.lines[:line - 1])) + col

    def rep(self, node, text, what):
        a, b = self.off(node.lineno, node.col_offset), self.off(node.end_lineno, node.end_col_offset)
        s = self.src.encode()
        self.out.append((node.lineno, '.'.join(self.fn), what, (s[:a] + text.encode() + s[b:]).decode()))

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()

    def stmt(self, n):
        self.rep(n, 'pass', 'drop: ' + self.seg(n).split('\n')[0][:70])

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.stmt(n)
            self.generic_visit(n)

    def visit_Assign(self, n):
        if not isinstance(n.targets[0], ast.Name):
            self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.stmt(n)

    def visit_Assert(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_If(self, n):
        t = self.seg(n.test)
        self.rep(n.test, 'not (%s)' % t, 'negate: ' + t[:70])
        self.rep(n.test, 'False', 'never: ' + t[:70])
        self.rep(n.test, 'True', 'always: ' + t[:70])
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, self.seg(n.body), 'first of: ' + self.seg(n)[:70])
        self.rep(n, self.seg(n.orelse), 'second of: ' + self.seg(n)[:70])
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.rep(n, '(' + ((' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % self.seg(w) for w in n.values if w is not v)) + ')',
                     'without %s: %s' % (self.seg(v)[:40], self.seg(n)[:60]))
        self.rep(n, '(' + ((' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % self.seg(w) for w in n.values)) + ')', 'and/or: ' + self.seg(n)[:60])
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!=', '<=', '>='], ast.NotEq: ['==', '<', '>']}
            for o in m.get(type(n.ops[0]), []):
                self.rep(n, '%s %s %s' % (self.seg(n.left), o, self.seg(n.comparators[0])), '%s in: %s' % (o, self.seg(n)[:60]))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        m = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['*'], ast.MatMult: ['*']}
        for o in m.get(type(n.op), []):
            self.rep(n, '%s %s %s' % (self.seg(n.left), o, self.seg(n.right)), '%s in: %s' % (o, self.seg(n)[:60]))
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.rep(n, self.seg(n.left), 'left of: ' + self.seg(n)[:60])
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.rep(n, self.seg(n.operand), 'without unary: ' + self.seg(n)[:60])
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), 'flip %s' % n.value)
        elif isinstance(n.value, int):
            self.rep(n, '(%d)' % (n.value + 1), '%s -> +1' % n.value)
            if n.value:
                self.rep(n, '(%d)' % (n.value - 1), '%s -> -1' % n.value)
        elif n.value is None:
            pass

    def visit_Call(self, n):
        if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [self.seg(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            self.rep(n, '%s(%s)' % (self.seg(n.func), ', '.join(a)), 'swap args: ' + self.seg(n)[:60])
        for k in n.keywords:
            if k.arg:
                rest = [self.seg(x) for x in n.args] + ['%s=%s' % (q.arg, self.seg(q.value)) if q.arg else '**' + self.seg(q.value) for q in n.keywords if q is not k]
                self.rep(n, '%s(%s)' % (self.seg(n.func), ', '.join(rest)), 'without keyword %s: %s' % (k.arg, self.seg(n)[:60]))
        if isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'sorted', 'list', 'abs', 'copy', 'deepcopy') and len(n.args) == 1:
            self.rep(n, self.seg(n.args[0]), 'without %s: %s' % (n.func.id, self.seg(n)[:60]))
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == 'T':
            self.rep(n, self.seg(n.value), 'without .T: ' + self.seg(n)[:60])
        if n.attr in ('rows', 'columns'):
            self.rep(n, self.seg(n.value) + '.' + ('columns' if n.attr == 'rows' else 'rows'), 'rows/columns: ' + self.seg(n)[:60])
        self.generic_visit(n)

    def visit_Slice(self, n):
        for k in ('lower', 'upper', 'step'):
            if getattr(n, k) is not None:
                p = {q: (self.seg(getattr(n, q)) if getattr(n, q) is not None and q != k else '') for q in ('lower', 'upper', 'step')}
                self.rep(n, '%s:%s:%s' % (p['lower'], p['upper'], p['step']), 'without %s: %s' % (k, self.seg(n)[:60]))
        self.generic_visit(n)


def mutants(path, lo, hi):
    src = open(path).read()
    g = Gen(src)
    g.visit(ast.parse(src))
    seen = set()
    for line, fn, what, text in g.out:
        if lo <= line <= hi and text != src and text not in seen:
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            seen.add(text)
            yield line, fn, what, text


def tests(r, tmp):
    env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    x = os.path.join(tmp, 'junit.xml')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--junitxml', x, 'test'], cwd=r, env=env, capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    import xml.etree.ElementTree as E
    ok = set()
    try:
        for c in E.parse(x).getroot().iter('testcase'):
            if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
                ok.add(c.get('classname') + '::' + c.get('name'))
    except Exception:
        return False
    os.remove(x)
    return not (STABLE - ok)


def main():
    a = sys.argv[1:]
    opt = {}
    while any(x.startswith('--') for x in a):
        i = next(i for i, x in enumerate(a) if x.startswith('--'))
        opt[a[i][2:]] = a[i + 1]
        del a[i:i + 2]
    name, _, rng = a[0].partition(':')
    lo, hi = (int(q) for q in rng.split('-')) if rng else (0, 10**9)
    done = set()
    if os.path.exists(a[1]):
        done = {(d['file'], d['line'], d['what']) for d in map(json.loads, open(a[1]))}
    todo = [m for m in mutants(os.path.join(REPO, 'casadi_extras', name), lo, hi) if (name, m[0], m[2]) not in done]
    random.Random(int(opt.get('seed', 1))).shuffle(todo)
    todo = todo[:int(opt.get('sample', 10**9))]
    if 'list' in opt:
        for m in sorted(todo)[:]:
            print(m[0], m[1], m[2])
        print(len(todo))
        return
    checks = opt.get('checks', CHECKS[name].replace(' ', ',')).split(',')
    base = tempfile.mkdtemp(prefix='mut')
    workers = int(opt.get('workers', 3))
    free = []
    for i in range(workers):
        d = '%s/w%d' % (base, i)
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(V, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        free.append(d)
    orig = open(os.path.join(REPO, 'casadi_extras', name)).read()
    out = open(a[1], 'a')

    def one(m):
        d = free.pop()
        try:
            line, fn, what, text = m
            p = os.path.join(d, 'repo', 'casadi_extras', name)
            open(p, 'w').write(text)
            t = time.time()
            res = dict(file=name, line=line, fn=fn, what=what)
            if not tests(d + '/repo', d):
                res['result'] = 'tests'
            else:
                res['result'] = 'survived'
                res['inconclusive'] = {}
                for c in checks:
                    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_JOBS=opt.get('jobs', '2'), PYTHONDONTWRITEBYTECODE='1')
                    try:
                        q = subprocess.run([d + '/verif/check.py', c], cwd=d + '/verif', env=env, capture_output=True, text=True, timeout=1500)
                        rc, so = q.returncode, q.stdout
                    except subprocess.TimeoutExpired:
                        rc, so = 99, ''
                    inc = sum('INCONCLUSIVE' in l for l in so.split('\n'))
                    if inc or rc not in (0, 1):
                        res['inconclusive'][c] = [rc, inc]
                    if rc == 1:
                        res['result'] = c
                        break
            res['wall'] = round(time.time() - t, 1)
            open(p, 'w').write(orig)
            out.write(json.dumps(res) + '\n')
            out.flush()
        finally:
            free.append(d)

    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    main()
