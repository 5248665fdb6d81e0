'''Behaviour-preserving edits of a copy of /repo, to see that the checks stay quiet on them.

  refactor.py SEED [--frac F] [--workers N] [CHECK ...]

Rewrites every function of nbc (not its tests) at random: local variables renamed, bodies moved into helpers,
returned values named first, branches swapped, comparisons turned round, for-loops over range written as while,
and-conditions nested. Then runs the quick checks against the copy; every one has to stay quiet.
'''
import ast, os, random, shutil, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FUNC = (ast.FunctionDef, ast.Lambda, ast.ClassDef)

def simple(node):
    return isinstance(node, (ast.Constant, ast.Name))

class Names(ast.NodeTransformer):
    def __init__(self, table): self.table = table
    def visit_Name(self, node):
        node.id = self.table.get(node.id, node.id)
        return node

class Edit(ast.NodeTransformer):
    def __init__(self, rnd, frac):
        self.rnd, self.frac, self.n, self.count, self.cls = rnd, frac, 0, {}, ''
    def hit(self, kind):
        if self.rnd.random() < self.frac:
            self.count[kind] = self.count.get(kind, 0) + 1
            return True
    def fresh(self):
        self.n += 1
        return 'v%d_' % self.n
    def visit_ClassDef(self, node):
        old, self.cls = self.cls, node.name
        self.generic_visit(node)
        self.cls = old
        out = []
        for f in node.body:
            plain = isinstance(f, ast.FunctionDef) and not f.decorator_list and f.args.args and not f.name.startswith('__') \
                and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs and f.args.args[0].arg == 'self'
            if plain and self.hit('helper'):
                name = '_%s_%s_body' % (node.name, f.name.strip('_'))
                args = [a.arg for a in f.args.args]
                inner = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), f.body, [], type_params=[])
                f.body = [ast.parse('return self.%s(%s)' % (name, ', '.join(args[1:]))).body[0]]
                out.append(inner)
            out.append(f)
        node.body = out
        return node
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        inner = [n for n in ast.walk(node) if isinstance(n, FUNC + (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and n is not node]
        if not [n for n in inner if isinstance(n, FUNC)] and not [n for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal))] \
                and not [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id in ('locals', 'eval', 'exec', 'vars')] and self.hit('rename'):
            params = {a.arg for a in node.args.args + node.args.kwonlyargs} | {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
            names = {n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
            table = {n: n + '_x' for n in names}
            node.body = [Names(table).visit(s) for s in node.body]
            for s in node.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.ExceptHandler) and n.name in table: n.name = table[n.name]
                    if isinstance(n, ast.alias) and (n.asname or n.name) in table: n.asname = table[n.asname or n.name]
        return node
    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and not simple(node.value) and self.hit('name result'):
            v = self.fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]
        return node
    def visit_If(self, node):
        self.generic_visit(node)
        t = node.test
        if node.orelse and self.hit('swap branches'):
            return ast.If(ast.UnaryOp(ast.Not(), t), node.orelse, node.body)
        if not node.orelse and isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and self.hit('nest and'):
            rest = t.values[1:]
            return ast.If(t.values[0], [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), node.body, [])], [])
        return node
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            a, op, b = node.left, type(node.ops[0]), node.comparators[0]
            if op in FLIP and (simple(a) or simple(b)) and self.hit('turn comparison'):
                return ast.Compare(b, [FLIP[op]()], [a])
            if op in NEG and op not in (ast.Lt, ast.Gt, ast.LtE, ast.GtE) and self.hit('negate comparison') and op not in (ast.Eq, ast.NotEq):
                return ast.UnaryOp(ast.Not(), ast.Compare(a, [NEG[op]()], [b]))
        elif len(node.ops) == 2 and simple(node.comparators[0]) and self.hit('split chain'):
            m = node.comparators[0]
            return ast.BoolOp(ast.And(), [ast.Compare(node.left, [node.ops[0]], [m]), ast.Compare(m, [node.ops[1]], [node.comparators[1]])])
        return node
    def visit_For(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id in ('range', 'xrange') and isinstance(node.target, ast.Name) \
                and not node.orelse and len(node.iter.args) < 3 and not [n for n in ast.walk(node) if isinstance(n, ast.Continue)] and self.hit('loop as while'):
            i, end = self.fresh(), self.fresh()
            a = node.iter.args
            code = ast.parse('%s = %s\n%s = %s\nwhile %s < %s:\n    %s = %s\n    %s += 1\n' % (i, ast.unparse(a[0]) if len(a) == 2 else '0', end, ast.unparse(a[-1]), i, end, node.target.id, i, i)).body
            code[-1].body += node.body
            return code
        if self.hit('iterate a name') and not simple(node.iter):
            v = self.fresh()
            return [ast.Assign([ast.Name(v, ast.Store())], node.iter), ast.For(node.target, ast.Name(v, ast.Load()), node.body, node.orelse)]
        return node

def main(argv):
    frac, workers, jobs, checks = 0.6, 2, '2', []
    seed = int(argv.pop(0))
    while argv:
        a = argv.pop(0)
        if a == '--frac': frac = float(argv.pop(0))
        elif a == '--workers': workers = int(argv.pop(0))
        elif a == '--jobs': jobs = argv.pop(0)
        else: checks.append(a)
    checks = checks or ['C%02d' % i for i in range(1, 47)]
    dest = '/tmp/vf-refactor-%d' % seed
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree('/repo', dest, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    rnd, total = random.Random(seed), {}
    for root, _, files in os.walk(dest + '/nbc'):
        for f in sorted(files):
            if f.endswith('.py') and f not in ('test_pyecdsa.py', '_version.py'):
                p = os.path.join(root, f)
                e = Edit(rnd, frac)
                tree = ast.fix_missing_locations(e.visit(ast.parse(open(p).read())))
                open(p, 'w').write(ast.unparse(tree) + '\n')
                for k, v in e.count.items(): total[k] = total.get(k, 0) + v
    print('edits', total, flush=True)
    shutil.copytree(HERE, dest + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    def run(c):
        env = dict(os.environ, VF_REPO=dest, PYTHONPATH=dest + '/verif:' + dest, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONWARNINGS='ignore', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
        out = subprocess.run(['python3-vt', '-m', 'vf.run', c, '--tier', 'quick', '--jobs', jobs], cwd=dest + '/verif', env=env, capture_output=True, text=True)
        return c, out.returncode, out.stdout[-1500:] + out.stderr[-500:]
    bad = 0
    with cf.ThreadPoolExecutor(workers) as pool:
        for c, rc, out in pool.map(run, checks):
            if rc: bad += 1
            print(c, 'quiet' if not rc else 'ALARM rc=%d\n%s' % (rc, out), flush=True)
    if not bad: shutil.rmtree(dest)
    return bad > 0

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
