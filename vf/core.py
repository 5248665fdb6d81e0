"""Engine of the checks: generated cases, oracles, shrinking, replay, evidence.

A property check is a module vf/checks/cNN.py that registers *sub-checks* on a
``Prop``.  A sub-check is a function ``f(case, t)`` over a *case*: a plain
Python literal produced by a Hypothesis strategy (histories are lists of
operation tuples) or by an enumeration.  Any exception that leaves ``f`` is a
violation of the property; ``HarnessError`` and failures outside ``f`` are
errors of the check (exit status 2), never alarms.
"""
import ast, gc, hashlib, itertools, json, os, pickle, random, resource, shutil
import signal, sys, tempfile, time, traceback

REPO = os.environ.get('VF_REPO', '/repo')     # set by tools/mutate.py only
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(BaseException):
    "The check itself is broken (not the code under test)."


class CaseTimeout(BaseException):
    "A single case used more CPU time than any correct behaviour needs."


class Abort(KeyboardInterrupt):
    "Stops Hypothesis from shrinking any further."


class Fail(AssertionError):
    pass


def expect(cond, msg='', *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def same(got, want, what=''):
    if got != want or type(got) is float and got != got:
        raise Fail('%s: got %s, want %s' % (what, short(got), short(want)))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n // 2] + '...(%d chars)...' % len(s) + s[-n // 3:]


def raises(excs, fn, *a, **k):
    """fn must raise one of excs; any other outcome is a violation."""
    try:
        r = fn(*a, **k)
    except excs as e:
        return e
    except Exception as e:
        raise Fail('expected %s, got %s: %s' % (excs, type(e).__name__, short(str(e)))) from e
    raise Fail('expected %s, got result %s' % (excs, short(r)))


class T(object):
    "What a running case records about itself."
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.labels = []
        self._nontrivial = None
        self.case = case

    def nontrivial(self, flag=True):
        self._nontrivial = bool(flag) if self._nontrivial is None else (self._nontrivial or bool(flag))

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def known(self, fid, what=''):
        """The case failed in the way of the listed finding `fid`.  If the
        finding is not listed, this is a violation like any other."""
        if fid in self.ctx.known:
            self.ctx.known_hits.add(fid)
            return
        raise Fail('%s (not a listed finding)' % (what or fid))

    def scratch(self):
        return self.ctx.scratch


class Sub(object):
    def __init__(self, name, fn, gen=None, enum=None, quick=100, thorough=None, shards=None,
                 rule='', cpu=60, fuzz=True):
        self.name, self.fn, self.gen, self.enum = name, fn, gen, enum
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards, self.rule, self.cpu = shards, rule, cpu
        self.fuzz = fuzz      # also drive it by coverage in the thorough tier


class Prop(object):
    def __init__(self, pid, level='exploration', assumptions=()):
        self.pid, self.level = pid, level
        self.subs = []
        self.assumptions = list(assumptions)

    def sub(self, name, **kw):
        def deco(fn):
            self.subs.append(Sub(name, fn, **kw))
            return fn
        return deco


# ------------------------------------------------------------------ per-case

class DetEntropy(object):
    "os.urandom stand-in: a stream fixed by the case, so every failure replays."
    def __init__(self, key):
        self.key, self.n = key, 0

    def __call__(self, size):
        out = b''
        while len(out) < size:
            out += hashlib.sha512(self.key + b'%d' % self.n).digest()
            self.n += 1
        return out[:size]


class Ctx(object):
    def __init__(self, scratch, known):
        self.scratch = scratch
        self.known = known
        self.known_hits = set()


def _alarm(signum, frame):
    raise CaseTimeout('case exceeded its CPU time limit')


def run_case(sub, case, ctx):
    """Run one case under its CPU limit with deterministic entropy."""
    t = T(ctx, case)
    key = hashlib.sha256(repr(case).encode('utf-8', 'backslashreplace')).digest()
    random.seed(key)
    real = os.urandom
    os.urandom = DetEntropy(key)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu, 5)
    try:
        sub.fn(case, t)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.urandom = real
    return t


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.harness = None
        self.truncated = 0
        self.known_hits = set()

    def account(self, sub, case, t):
        self.evaluations += 1
        nt = True if t._nontrivial is None else t._nontrivial
        r = repr(case)
        if nt:
            h = hashlib.blake2b((sub.name + r).encode('utf-8', 'backslashreplace'), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and (len(self.nontrivial) in (3, 17) or len(r) < 400 and not self.samples):
                    self.samples.append({'sub': sub.name, 'case': short(case, 600)})
        for l in set(t.labels):
            self.labels[sub.name + ':' + l] = self.labels.get(sub.name + ':' + l, 0) + 1


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if '/vf/core.py' not in f.filename and 'hypothesis' not in f.filename]
    tail = ' <- '.join('%s:%d' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else
                                  os.path.basename(f.filename), f.lineno) for f in reversed(where[-4:]))
    return '%s: %s [%s]' % (type(e).__name__, short(str(e), 500), tail)


def run_task(sub, tier, seed, shard, nshards, ctx, deadline, shrink_s=40):
    st = Stats()
    best = {}

    def fail(case, e):
        r = repr(case)
        if 'r' not in best or len(r) < len(best['r']):
            best.update(r=r, err=_describe(e))
        best.setdefault('t0', time.time())

    def one(case):
        try:
            t = run_case(sub, case, ctx)
        except (HarnessError, Abort):
            raise
        except CaseTimeout as e:
            fail(case, e)
            raise Abort()
        except Exception as e:
            fail(case, e)
            if time.time() - best['t0'] > shrink_s:
                raise Abort()
            raise
        if not best:
            st.account(sub, case, t)
        elif time.time() - best['t0'] > shrink_s:
            raise Abort()

    try:
        if sub.enum is not None:
            for case in itertools.islice(sub.enum(tier), shard, None, nshards):
                if time.time() > deadline:
                    st.truncated += 1
                    continue
                try:
                    one(case)
                except (Exception, Abort):
                    if not best:
                        raise
                    break
        if sub.gen is not None and not best:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings
            n = sub.quick * 2 if tier == "quick" else sub.thorough
            n = n // nshards + (1 if shard < n % nshards else 0)
            strat = sub.gen(tier) if callable(sub.gen) else sub.gen

            def body(case):
                if time.time() > deadline and not best:
                    st.truncated += 1
                    return
                one(case)

            test = given(strat)(body)
            test = settings(max_examples=max(n, 1), database=None, deadline=None, print_blob=False,
                            report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example])(test)
            s = int.from_bytes(hashlib.sha256(('%s:%s:%d' % (seed, sub.name, shard)).encode()).digest()[:8], 'big')
            test = hypothesis.seed(s)(test)
            try:
                test()
            except (Exception, Abort):
                if not best:
                    raise
        if best:
            st.failure = {'sub': sub.name, 'case': best['r'], 'error': best['err']}
    except BaseException as e:
        st.harness = '%s: %s' % (sub.name, ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    st.known_hits = ctx.known_hits
    return st


# ------------------------------------------------------------------ scheduling

def limit_memory(gb=4):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30),) * 2)
    except Exception:
        pass


def in_child(fn, path, scratch):
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        os.setpgid(0, 0)
        os.chdir(scratch)
        limit_memory()
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 1)
        if not os.environ.get('VF_DEBUG'):
            os.dup2(null, 2)
        sys.stdout = open('/dev/null', 'w')
        res = fn()
        with open(path, 'wb') as f:
            pickle.dump(res, f)
        code = 0
    except BaseException:
        try:
            with open(path + '.err', 'w') as f:
                traceback.print_exc(file=f)
        except BaseException:
            pass
    finally:
        os._exit(code)


def run_tasks(tasks, jobs, root, hard_deadline):
    """tasks: list of (label, fn(scratch)->result).  Returns results in order."""
    results = [None] * len(tasks)
    running = {}
    todo = list(range(len(tasks)))[::-1]
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop()
            scratch = os.path.join(root, 't%d' % i)
            os.mkdir(scratch)
            path = os.path.join(root, 'r%d' % i)
            pid = in_child(lambda: tasks[i][1](scratch), path, scratch)
            running[pid] = (i, path, scratch)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard_deadline:
                for p in list(running):
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
                hard_deadline += 1e9
            time.sleep(0.005)
            continue
        if pid not in running:
            continue
        i, path, scratch = running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)   # anything the worker left behind
        except OSError:
            pass
        try:
            with open(path, 'rb') as f:
                results[i] = pickle.load(f)
        except Exception:
            err = ''
            if os.path.exists(path + '.err'):
                err = open(path + '.err').read()
            results[i] = RuntimeError('worker for %s died (status %d) %s' % (tasks[i][0], status, err))
        shutil.rmtree(scratch, ignore_errors=True)
    return results
