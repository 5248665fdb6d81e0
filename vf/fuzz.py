"""Coverage-guided search (atheris / libFuzzer) over the same cases: libFuzzer
mutates the bytes from which Hypothesis draws a case, guided by the branches
taken inside nbc.  Used by the thorough tier."""
import hashlib, os, pickle, random, resource, signal, sys, time
from . import core


def run(prop, sub, seed, scratch, known, deadline, seconds):
    end = min(deadline, time.time() + seconds)
    path = os.path.join(scratch, 'fuzz.pickle')
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            _child(prop, sub, seed, scratch, known, end, path)
            code = 0
        except BaseException:
            import traceback
            with open(path + '.err', 'w') as f:
                traceback.print_exc(file=f)
        finally:
            os._exit(code)
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end + 120:
            os.kill(pid, signal.SIGKILL)
        time.sleep(.05)
    st = core.Stats()
    if os.path.exists(path):
        with open(path, 'rb') as f:
            st = pickle.load(f)
    elif os.path.exists(path + '.err'):
        st.harness = '%s (atheris): %s' % (sub.name, open(path + '.err').read()[-2000:])
    return st


def _child(prop, sub, seed, scratch, known, end, path):
    import atheris
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY,) * 2) if False else None
    ctx = core.Ctx(scratch, known)
    st = core.Stats()
    best = {}
    last = [time.time()]

    def save():
        st.known_hits = ctx.known_hits
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(st, f)
        os.replace(path + '.tmp', path)

    def body(case):
        try:
            t = core.run_case(sub, case, ctx)
        except core.HarnessError:
            raise
        except (Exception, core.CaseTimeout) as e:
            r = repr(case)
            if 'r' not in best or len(r) < len(best['r']):
                best.update(r=r, err=core._describe(e))
            raise core.Fail('found')
        st.account(sub, case, t)

    strat = sub.gen('thorough') if callable(sub.gen) else sub.gen
    test = settings(max_examples=10, database=None, deadline=None, print_blob=False, phases=(Phase.generate,),
                    suppress_health_check=list(HealthCheck))(given(strat)(body))
    one = test.hypothesis.fuzz_one_input

    def shrink(data):
        t0, n = time.time(), len(data) // 2
        while n and time.time() - t0 < 40:
            i, hit = 0, False
            while i < len(data) and time.time() - t0 < 40:
                for new in (data[:i] + data[i + n:], data[:i] + bytes(len(data[i:i + n])) + data[i + n:]):
                    if new == data or len(new) == len(data) and sum(map(bool, new)) >= sum(map(bool, data)):
                        continue
                    try:
                        one(new)
                    except core.Fail:
                        data, hit = new, True
                        break
                    except Exception:
                        pass
                else:
                    i += n
            n = n if hit and n == 1 else n // 2
            if not hit and n == 0:
                break

    def target(data):
        try:
            one(data)
        except core.Fail:
            shrink(data)
            st.failure = {'sub': sub.name, 'case': best['r'], 'error': best['err']}
            save()
            os._exit(0)
        now = time.time()
        if now - last[0] > 2 or now > end:
            last[0] = now
            save()
            if now > end:
                os._exit(0)

    corpus = os.path.join(scratch, 'corpus')
    os.mkdir(corpus)
    rnd = random.Random('%s:%s' % (seed, sub.name))
    for i in range(60):
        with open(os.path.join(corpus, '%d' % i), 'wb') as f:
            f.write(bytes(rnd.choice([rnd.getrandbits(8), rnd.getrandbits(8), 0, 255]) for _ in range(rnd.choice([16, 64, 256, 1024, 4096]))))
    s = int.from_bytes(hashlib.sha256(('%s:%s' % (seed, sub.name)).encode()).digest()[:4], 'big') or 1
    with atheris.instrument_imports(include=['nbc']):
        atheris.Setup(['fuzz', '-seed=%d' % s, '-max_len=6000', '-rss_limit_mb=0', '-timeout=600', '-artifact_prefix=%s/' % scratch, '-len_control=20',
                       '-max_total_time=%d' % max(1, int(end - time.time()) + 30), '-print_final_stats=0', corpus], target)
        save()
        atheris.Fuzz()
