"""Runs checks against small planted changes in scratch copies (a development tool, no check).

    python3 tools/trybug.py BUGS.py [--workers N] [--frac F] [NAME...]

BUGS.py defines BUGS = [(name, 'C01,C02', file, [(old, new), ...]), ...]; prints which check noticed each."""
import os, shutil, subprocess, sys, threading, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
DRIVER = re.search(r"DRIVER = r'''(.*?)'''", open(HERE + '/mutate.py').read(), re.S).group(1)


def main():
    a = sys.argv[1:]
    opt = {'--workers': '6', '--frac': '1'}
    for o in opt:
        if o in a:
            i = a.index(o)
            opt[o] = a[i + 1]
            del a[i:i + 2]
    ns = {}
    exec(open(a[0]).read(), ns)
    jobs = [b for b in ns['BUGS'] if not a[1:] or b[0] in a[1:]][::-1]
    lock = threading.Lock()

    def worker(w):
        d = '/tmp/vf-try/%d-%d' % (os.getpid(), w)
        while True:
            with lock:
                if not jobs:
                    break
                name, checks, f, edits = jobs.pop()
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copytree('/repo/nbc', d + '/nbc', ignore=shutil.ignore_patterns('__pycache__'))
            bad = None
            if isinstance(f, str):
                edits = [(f, x, y) for x, y in edits]
            for f1, x, y in edits:
                s = open(d + '/' + f1).read()
                if s.count(x) != 1:
                    bad = 'text found %d times: %r' % (s.count(x), x[:60])
                open(d + '/' + f1, 'w').write(s.replace(x, y))
            t = time.time()
            if bad:
                res = 'BAD ' + bad
            else:
                env = dict(os.environ, VF_REPO=d, PYTHONPATH=ROOT + ':' + d, VF_SHRINK='0', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
                p = subprocess.Popen(['python3-vt', '-c', DRIVER, checks, opt['--frac'], '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=d, universal_newlines=True)
                try:
                    o = p.communicate(timeout=1200)[0]
                except subprocess.TimeoutExpired:
                    p.kill()
                    o = 'KILLED TIMEOUT'
                res = ([l for l in o.splitlines() if l.startswith(('KILLED', 'SURVIVED'))] or ['ODD ' + o[-600:]])[-1]
            with lock:
                print('%-10s %-28s %5.1f s  %s' % ('MISSED' if res == 'SURVIVED' else res.split()[0], name, time.time() - t, res[:230]), flush=True)
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(int(opt['--workers']))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
