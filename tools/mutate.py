"""Mutation testing of the checks themselves (a development tool, no check).

    python3-vt tools/mutate.py OUT.jsonl FILE[:CHECK,CHECK...] ... [--max N]

Makes small changes to one source file at a time in scratch copies under /tmp,
runs the checks named (or those whose anchors name the file) against the copy
and records which check noticed; survivors are for a human to read."""
import ast, json, os, random, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = '/tmp/vf-mutants'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<',
       ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.Div: '*', ast.Pow: '*'}


class Src(object):
    def __init__(self, text):
        self.text = text
        self.lines = text.encode().splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l))
        self.b = text.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(text):
    s = Src(text)
    tree = ast.parse(text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    skip = set()
    for n in tree.body:            # the constants and imports at the top are not behaviour worth mutating
        if isinstance(n, (ast.Assign, ast.Import, ast.ImportFrom)) and os.environ.get('MUT_TOP') is None:
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):       # prints and logs
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in os.environ.get('MUT_SKIP', '').split(','):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and s.seg(n.value.func).split('.')[-1] in ('print', 'print_', 'log'):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.name in ('__main__', 'main'):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.If) and s.seg(n.test).startswith('__name__'):
            skip |= set(ast.walk(n))
    out = []

    def rep(n, new, what):
        a, b = s.span(n)
        out.append((n.lineno, what, s.b[a:b].decode(), new, a, b))

    for n in ast.walk(tree):
        if n in skip or n in docs or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                rep(n, '(%s %s %s)' % (s.seg(n.left), new, s.seg(n.comparators[0])), 'compare')
        elif isinstance(n, ast.Compare):
            for i in range(len(n.ops)):
                for new in CMP[type(n.ops[i])][:1]:
                    parts = [s.seg(n.left)]
                    for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
                        sym = new if i == j else {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}[type(o).__name__]
                        parts += [sym, s.seg(c)]
                    rep(n, '(' + ' '.join(parts) + ')', 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            rep(n, '(%s %s %s)' % (s.seg(n.left), BIN[type(n.op)], s.seg(n.right)), 'binop')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + w.join('(%s)' % s.seg(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                w = ' and ' if isinstance(n.op, ast.And) else ' or '
                rep(n, '(' + w.join('(%s)' % s.seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % s.seg(n.operand), 'not')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, repr(not v), 'const')
            elif isinstance(v, int):
                if abs(v) < 1 << 40:
                    rep(n, '(%d)' % (v + 1), 'const')
                    if v:
                        rep(n, '(%d)' % (v - 1), 'const')
                else:
                    rep(n, '(%d)' % (v ^ 2), 'const')
            elif isinstance(v, bytes) and n.col_offset and v:
                rep(n, repr(v[:-1] + bytes([v[-1] ^ 1])), 'const')
            elif isinstance(v, str) and v and len(v) < 20:
                rep(n, repr(v + 'x'), 'const')
        elif isinstance(n, (ast.If, ast.While)):
            if not (isinstance(n.test, ast.Constant)):
                rep(n.test, '(not (%s))' % s.seg(n.test), 'negate')
            if isinstance(n, ast.If):
                rep(n.test, 'False', 'never')
        elif isinstance(n, ast.IfExp):
            rep(n, '(%s)' % s.seg(n.body), 'ifexp')
            rep(n, '(%s)' % s.seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, 'return None', 'return')
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Delete, ast.Break, ast.Continue, ast.Assert)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            rep(n, '%s(%s, %s)' % (s.seg(n.func), s.seg(n.args[1]), s.seg(n.args[0])), 'swap args')
    seen, res = set(), []
    for line, what, old, new, a, b in out:
        t = (s.b[:a] + new.encode() + s.b[b:]).decode()
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((line, what, old, new, t))
    return res


DRIVER = r'''
import importlib, os, sys, tempfile, time, shutil, json
from vf import core, run
checks, frac, seed = sys.argv[1].split(','), float(sys.argv[2]), sys.argv[3]
import resource
for pid in checks:
    prop = importlib.import_module('vf.checks.' + pid.lower()).PROP
    known = run.load_known(pid)
    root = tempfile.mkdtemp(prefix='vf-mut-')
    os.chmod(root, 0o755)
    try:
        for i, sub in enumerate(prop.subs):
            sub.quick = max(3, int(sub.quick * frac))
            k = max(1, int(1 / frac)) if sub.enum is not None else 1
            def fn(scratch, sub=sub, k=k):
                if sub.enum is not None and sub.gen is None and k > 1:
                    return core.run_task(sub, 'quick', seed, 1, k, core.Ctx(scratch, known), time.time() + 240, 0)
                return core.run_task(sub, 'quick', seed, 0, 1, core.Ctx(scratch, known), time.time() + 240, 0)
            t = time.time()
            r = core.run_tasks([(sub.name, fn)], 1, tempfile.mkdtemp(dir=root), time.time() + 300)[0]
            if isinstance(r, Exception):
                print('KILLED', pid, sub.name, 'HARNESS ' + str(r)[-300:].replace('\n', ' ')); sys.exit()
            if r.harness:
                print('KILLED', pid, sub.name, 'HARNESS ' + r.harness[-300:].replace('\n', ' ')); sys.exit()
            if r.failure:
                print('KILLED', pid, sub.name, r.failure['error'][:200].replace('\n', ' ')); sys.exit()
    finally:
        shutil.rmtree(root, ignore_errors=True)
print('SURVIVED')
'''


def main():
    args = sys.argv[1:]
    cap = int(args[args.index('--max') + 1]) if '--max' in args else 10**9
    workers = int(args[args.index('--workers') + 1]) if '--workers' in args else 8
    for o in ('--max', '--workers'):
        if o in args:
            i = args.index(o)
            del args[i:i + 2]
    out, files = args[0], args[1:]
    anchors = {}
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        for f in p['anchors']['files']:
            anchors.setdefault(f, []).append(p['id'])
    jobs = []
    snap, done = {}, set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['old'], d['new']))
    for spec in files:
        f, _, c = spec.partition(':')
        checks = c or ','.join(anchors.get(f, []))
        snap[f] = open('/repo/' + f).read()
        ms = mutants(snap[f])
        random.Random(f).shuffle(ms)
        for m in ms[:cap]:
            if (f, m[0], m[2][:200], m[3][:200]) not in done:
                jobs.append((f, checks) + m)
        print(f, checks, len(ms), 'mutants', flush=True)
    jobs = jobs[::-1]
    lock = threading.Lock()
    fh = open(out, 'a')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/x', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')

    def worker(w):
        d = '%s/w%d-%d' % (BASE, os.getpid(), w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/nbc', d + '/nbc', ignore=shutil.ignore_patterns('__pycache__'))
        e = dict(env, VF_REPO=d, PYTHONPATH=ROOT + ':' + d, VF_SHRINK='0')
        while True:
            with lock:
                if not jobs:
                    break
                f, checks, line, what, old, new, text = jobs.pop()
            orig = snap[f]
            open(d + '/' + f, 'w').write(text)
            t0 = time.time()
            res = 'SURVIVED'
            for frac in ('0.08', os.environ.get('MUT_FRAC', '0.4')):
                p = subprocess.Popen(['python3-vt', '-c', DRIVER, checks, frac, '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, universal_newlines=True, start_new_session=True)
                try:
                    o = p.communicate(timeout=1500)[0]
                except subprocess.TimeoutExpired:
                    import signal
                    os.killpg(p.pid, signal.SIGKILL)
                    o = 'KILLED TIMEOUT'
                res = ([l for l in o.splitlines() if l.startswith(('KILLED', 'SURVIVED'))] or ['ODD ' + o[-300:]])[-1]
                if res != 'SURVIVED':
                    break
            open(d + '/' + f, 'w').write(orig)
            with lock:
                fh.write(json.dumps(dict(file=f, line=line, what=what, old=old[:200], new=new[:200], res=res, s=round(time.time() - t0, 1))) + '\n')
                fh.flush()
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
