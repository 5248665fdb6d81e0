import json, os, resource, signal, sys
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, HarnessError, short
from .. import gen, wal

PROP = Prop('C06', level='fault_enumeration', assumptions=[
    'a crash is the death of the process between two Python-level steps (lines, calls into C, audited system operations) with its buffers lost; partial kernel writes are covered by the write-limit sub-check',
    'a loss of power keeps the directory operations done so far and any part of the content that was not synced may be lost (journalling file systems)',
    'a single fault per save; stray files are only judged when the fault did not hit a clean-up'])


class Crash(object):
    """Kills the process at step k of the traced code: every executed line and
    every call into or return from C counts as a step."""
    def __init__(self, k, marks=None):
        self.k, self.n, self.marks = k, 0, marks

    def step(self, what=None):
        self.n += 1
        if self.n == self.k:
            os._exit(77)
        if self.marks is not None and what is not None:
            self.marks.append((self.n, what))

    def trace(self, frame, event, arg):
        self.step()
        return self.trace

    def prof(self, frame, event, arg):
        if event in ('c_call', 'c_return', 'c_exception'):
            mod = getattr(arg, '__module__', None) or type(getattr(arg, '__self__', None)).__module__
            self.step('io' if mod in ('posix', 'io', '_io', 'os', 'shutil', 'nt') else None)

    def run(self, fn):
        sys.setprofile(self.prof)
        sys.settrace(self.trace)
        try:
            fn()
        finally:
            sys.settrace(None)
            sys.setprofile(None)


def child(fn):
    """run fn in a forked child; returns (status, pickled-literal result)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            res = fn()
            os.write(w, repr(res).encode())
            code = 0
        except BaseException as e:
            try:
                os.write(w, repr(('raised', type(e).__name__, str(e)[:200])).encode())
            except OSError:
                pass
            code = 4
        finally:
            os._exit(code)
    os.close(w)
    out = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), (eval(out.decode()) if out else None)


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


class Place(object):
    "a wallet file with an old wallet in it (or none), perhaps reached by a link"
    serial = 0

    def __init__(self, t, old, oldpass, link, name='wallet.dat'):
        from nbc.wallet import saveTo
        Place.serial += 1
        self.dir = os.path.join(t.scratch(), 'd%d' % Place.serial)
        os.makedirs(self.dir + '/real')
        self.real = self.dir + '/real/' + name
        self.path = self.real
        if link:
            self.path = self.dir + '/link.dat'
            os.symlink('real/' + name, self.path)
        self.old = None
        if old is not None:
            saveTo(self.real, old, oldpass)
            self.old = read(self.real)
        self.files = self.listing()

    def listing(self):
        return sorted(os.path.join(d, f) for d, _, fs in os.walk(self.dir) for f in fs)

    def reset(self):
        for p in self.listing():
            if p not in self.files:
                os.unlink(p)
        if self.old is None:
            if os.path.lexists(self.real):
                os.unlink(self.real)
        elif read(self.real) != self.old:
            with open(self.real, 'wb') as f:
                f.write(self.old)
        if self.path != self.real and not os.path.islink(self.path):
            if os.path.lexists(self.path):
                os.unlink(self.path)
            os.symlink('real/' + os.path.basename(self.real), self.path)

    def state(self, want, npass, what):
        """'old', 'new' or a violation, as seen through the name saved to"""
        from nbc.wallet import loadFrom
        now = read(self.path)
        if now == self.old:
            return 'old'
        try:
            w = loadFrom(self.path, npass)
        except Exception as e:
            raise Fail('%s: the file holds neither wallet: %s (%s)' % (what, short(now), e))
        same(wal.view(w), want, '%s: file content' % what)
        return 'new'

    def drop(self):
        import shutil
        shutil.rmtree(self.dir)


passes = st.one_of(st.just(b''), wal.passphrases())
walls = st.tuples(wal.specs(1), st.booleans())


def make(w):
    spec, public = w
    ref = wal.Ref(spec)
    return wal.build_public(spec, ref) if public else wal.build(spec)


saves = st.tuples(st.one_of(st.none(), walls, walls), passes, walls, passes, st.booleans())


def setup(t, c):
    old, opass, new, npass, link = c[:5]
    w = make(new)
    if new[1] and npass:
        t.label('passphrase unused')
    pl = Place(t, None if old is None else make(old), opass, link)
    return pl, w, wal.view(w)


@PROP.sub('crash', fuzz=False, gen=st.tuples(saves, st.lists(st.integers(0, 10**6), min_size=4, max_size=4)), quick=24, thorough=1200, cpu=300,
          rule='the process is killed at every step that touches the file system, its neighbours, and random other steps of a save; non-trivial when an old wallet existed and both outcomes were seen')
def crash(c, t):
    from nbc.wallet import saveTo, loadFrom, Address
    sv, extra = c
    pl, w, want = setup(t, sv)
    other = Address(privKey=wal.ref_wif(77, True), vcn=3) if extra[0] % 2 else make(((('hd', b'other seed', (), False, 9)), True))
    npass = sv[3]

    def dry():
        marks = []
        cr = Crash(0, marks)
        cr.run(lambda: saveTo(pl.path, w, npass))
        return cr.n, [n for n, _ in marks]
    code, res = child(dry)
    expect(code == 0, 'saving failed: %s', res)
    total, marks = res
    same(pl.state(want, npass, 'after saving') == 'new' or pl.old is not None and read(pl.path) == pl.old, True, 'a returned save')
    points = {m + d for m in marks for d in range(-2, 4)} | {e % total + 1 for e in extra} | set(range(max(1, total - 12), total + 1))
    points = sorted(p for p in points if 1 <= p <= total)
    if len(points) > 400:
        points = points[::len(points) // 400 + 1]
    seen = set()
    for k in points:
        pl.reset()
        code, res = child(lambda: Crash(k).run(lambda: saveTo(pl.path, w, npass)))
        if code not in (77, 0):
            raise HarnessError('crash child: %s %s' % (code, res))
        if code == 0:
            t.label('ran past the crash point')
        seen.add(pl.state(want, npass, 'after a crash at step %d of %d' % (k, total)))
        t.label('crash points: %s' % '<50' if len(points) < 50 else '>=50')
    # the number of a process may be that of the one that died: a leftover is not taken for one's own work
    def one_pid(fn):
        os.getpid = lambda: 4711
        fn()
    for k in ([x for x in points if x > 1][-3:] + points[len(points) // 2:][:2] + points[-25::3])[:10]:
        pl.reset()
        child(lambda: one_pid(lambda: Crash(k).run(lambda: saveTo(pl.path, w, npass))))
        code, res = child(lambda: one_pid(lambda: saveTo(pl.path, other, npass)))
        if code == 0:
            expect(read(pl.path) is not None, 'nothing saved')
            got = loadFrom(pl.path, npass)
            same(wal.view(got), wal.view(other), 'what a save by a process of the same number left')
        else:
            pl.state(want, npass, 'after a refused save by a process of the same number')
    pl.reset()
    # life goes on after a crash: the next save works and holds
    saveTo(pl.path, w, npass)
    expect(read(pl.path) is not None, 'nothing saved')
    pl.state(want, npass, 'after the next save')
    t.nontrivial(sv[0] is not None and seen == {'old', 'new'})
    t.label('seen ' + '/'.join(sorted(seen)))
    pl.drop()


def kinds(tier):
    "every kind of wallet as the new one over one of the same kind, with and without a passphrase, and over none"
    out = []
    for i, (spec, public) in enumerate([(('addr', 7, True, False, 258), True), (('addr', 9, False, True, 0), True), (('addr', 11, True, False, 65535), False), (('addr', 13, False, False, 16), False),
                                        (('hd', b'kinds', (), False, 77), True), (('hd', b'kinds', (2**31 + 1,), True, 78), False)]):
        for p in (b'', b'passphrase'):
            if p and public:
                continue
            out.append((((((spec[0],) + (spec[1] + 1 if spec[0] == 'addr' else b'other',) + spec[2:]), public), b'', (spec, public), p, False), [i, i * 77, i * 131, 5]))
    return out


@PROP.sub('crash-kinds', fuzz=False, enum=kinds, quick=12, cpu=300,
          rule='as crash, for each kind of wallet (imported, deterministic, public-only, any form, encrypted or not) over one of the same kind')
def crash_kinds(c, t):
    crash(c, t)


@PROP.sub('write-limit', fuzz=False, gen=st.tuples(saves, st.lists(st.integers(0, 700), min_size=3, max_size=6)), quick=40, thorough=2000, cpu=300,
          rule='the medium takes only the first n bytes of any file (0, 1, some, one short, exactly enough); non-trivial when an old wallet existed and a save failed')
def write_limit(c, t):
    from nbc.wallet import saveTo
    sv, limits = c
    pl, w, want = setup(t, sv)
    npass = sv[3]
    saveTo(pl.path, w, npass)
    fresh = read(pl.path)
    size = len(fresh)
    failed = 0
    for lim in sorted(set(l for l in limits + [0, 1, size - 1, size])):
        pl.reset()

        def run():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            saveTo(pl.path, w, npass)
        code, res = child(run)
        state = pl.state(want, npass, 'medium full after %d of %d bytes' % (lim, size))
        if code == 0:
            expect(state == 'new' or fresh == pl.old and lim >= size, 'save returned without saving (%d of %d bytes fit)', lim, size)
        else:
            failed += 1
            same(res[1], 'OSError', 'error for a full medium %s' % (res,))
            same(read(pl.path), pl.old, 'old file after a failed save')
            same(pl.listing(), pl.files, 'files left after a failed save')
            expect(lim < size, 'save failed although everything fits: %s', res)
    t.nontrivial(sv[0] is not None and failed)
    t.label('failed' if failed else 'none failed')
    pl.drop()


@PROP.sub('faults', fuzz=False, gen=saves, quick=32, thorough=1500, cpu=300,
          rule='each audited file-system operation of a save fails in turn with an I/O error; non-trivial when an old wallet existed')
def faults(c, t):
    from nbc.wallet import saveTo
    pl, w, want = setup(t, c)
    npass = c[3]
    pl.reset()
    FS = ('open', 'os.', 'shutil.', 'tempfile.')
    SKIP = ('os.listdir', 'os.scandir', 'os.fork')

    def run(k):
        cnt = [0]
        hit = []

        def hook(name, args):
            if name.startswith(FS) and name not in SKIP and cnt[0] >= 0:
                p = args[0] if args else None
                if name == 'open' and not (isinstance(p, str) and p.startswith(pl.dir)):
                    return
                cnt[0] += 1
                if cnt[0] == k:
                    hit.append((name, str(p)))
                    raise OSError(5, 'injected fault', str(p))
        sys.addaudithook(hook)
        err = None
        try:
            saveTo(pl.path, w, npass)
        except OSError as e:
            err = str(e)
        finally:
            n = cnt[0]
            cnt[0] = -10**9
        return n, hit, err
    saveTo(pl.path, w, npass)
    fresh = read(pl.path)
    code, res = child(lambda: run(0))
    expect(code == 0 and res[2] is None, 'saving failed: %s', res)
    for k in range(1, res[0] + 1):
        pl.reset()
        code, r = child(lambda: run(k))
        expect(code == 0, 'a failing file operation (%d) surfaced as %s', k, r)
        _, hit, err = r
        state = pl.state(want, npass, 'after a fault in %s' % (hit,))
        if err is None:
            expect(state == 'new' or fresh == pl.old, 'a save returned in spite of a fault in %s without saving', hit)
        else:
            same(read(pl.path), pl.old, 'old file after a failed save (%s)' % (hit,))
            if not any(h[0] in ('os.remove', 'os.unlink', 'os.rmdir') for h in hit):
                same(pl.listing(), pl.files, 'files left after a fault in %s' % (hit,))
        for h in hit:
            t.label('fault in ' + h[0])
    t.nontrivial(c[0] is not None)
    pl.drop()


@PROP.sub('refused', fuzz=False, gen=st.tuples(saves, st.sampled_from(['str', 'bytearray', 'int', 'list', 'missing dir', 'is a dir', 'read-only dir', 'read-only file', 'bad wallet'])),
          quick=100, thorough=4000, cpu=120,
          rule='saves that cannot be done: wrong passphrase type, no such directory, not writable for this user, not a wallet')
def refused(c, t):
    from nbc.wallet import saveTo
    sv, how = c
    sv = sv[:2] + ((sv[2][0], False),) + sv[3:]
    pl, w, want = setup(t, sv)
    path, npass = pl.path, sv[3]
    bad = {'str': 'password', 'bytearray': bytearray(b'password'), 'int': 12345, 'list': [b'password']}
    t.label(how)
    if how in bad:
        raises((ValueError, TypeError), saveTo, path, w, bad[how])
    elif how == 'missing dir':
        raises(OSError, saveTo, pl.dir + '/nowhere/w.dat', w, npass)
    elif how == 'is a dir':
        raises(OSError, saveTo, pl.dir + '/real', w, npass)
    elif how == 'bad wallet':
        raises((AttributeError, TypeError, ValueError), saveTo, path, object(), npass)
    else:
        if os.getuid() != 0:
            pl.drop()
            t.nontrivial(False)
            return
        if pl.old is None and how == 'read-only file':
            with open(pl.real, 'wb') as f:
                f.write(b'old')
            pl.old = b'old'
            pl.files = pl.listing()
        for p in [t.scratch(), pl.dir, os.path.dirname(t.scratch())]:
            os.chmod(p, 0o755)
        os.chmod(pl.dir + '/real', 0o755 if how == 'read-only dir' else 0o777)
        if pl.old is not None:
            os.chmod(pl.real, 0o666 if how == 'read-only dir' else 0o444)

        def run():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            try:
                saveTo(path, w, npass)
            except OSError as e:
                return str(e)
        code, err = child(run)
        expect(code == 0, 'a save that is not permitted surfaced as %s', err)
        if err is None:
            expect(how == 'read-only dir' and pl.old is not None, 'save returned for %s', how)
            expect(pl.state(want, npass, how) == 'new', 'nothing was saved')
            pl.drop()
            return
    same(read(pl.path), pl.old, 'old file after a refused save (%s)' % how)
    same(pl.listing(), pl.files, 'files left after a refused save (%s)' % how)
    t.nontrivial(True)
    pl.drop()


@PROP.sub('access', fuzz=False, gen=st.tuples(saves, st.one_of(st.sampled_from([0o600, 0o640, 0o644, 0o660, 0o400, 0o444]), st.integers(0, 0o777), st.integers(0o1000, 0o1777)), st.sampled_from([0o022, 0, 0o077]), st.sampled_from([(0, 0), (65534, 65534), (1234, 4321)])), quick=60, thorough=2000, cpu=60,
          rule='an existing file keeps its permissions and its owner when another wallet is saved to it; non-trivial with permissions a new file would not get')
def access(c, t):
    from nbc.wallet import saveTo
    sv, mode, umask, owner = c
    pl, w, want = setup(t, sv)
    if pl.old is None or os.getuid() != 0:
        t.nontrivial(False)
        pl.drop()
        return
    os.chmod(pl.real, mode)
    os.chown(pl.real, *owner)
    t.nontrivial(mode != 0o666 & ~umask)

    def run():
        os.umask(umask)
        saveTo(pl.path, w, sv[3])
        return True
    code, res = child(run)
    expect(code == 0, 'saving failed: %s', res)
    st_ = os.stat(pl.real)
    same(oct(st_.st_mode & 0o7777), oct(mode), 'permissions after a save')
    same((st_.st_uid, st_.st_gid), owner, 'owner after a save')
    pl.state(want, sv[3], 'after saving')
    pl.drop()


NAMES = ['w', 'w.tmp', 'w.dat', 'w.dat.tmp', 'w.new', 'w.bak', 'w~', '.w', '.w.swp', 'w.dat.new', 'w.dat.bak', 'w.dat~', 'w.old', 'w.json', 'w.part', 'tmp', 'w.1.tmp', 'a b.dat', '#w#', 'w' * 120]


@PROP.sub('neighbours', fuzz=False, gen=st.tuples(saves, st.sampled_from(NAMES), st.lists(st.sampled_from(NAMES), min_size=2, max_size=8, unique=True), st.lists(st.integers(0, 10**6), min_size=6, max_size=12)), quick=30, thorough=1500, cpu=120,
          rule='wallets of many names beside others with similar names; one is saved, or the process is killed at steps of the save: the others keep their content, and it holds the old wallet or the new one')
def neighbours(c, t):
    from nbc.wallet import saveTo
    sv, name, others, extra = c
    old, opass, new, npass, link = sv
    w = make(new)
    want = wal.view(w)
    pl = Place(t, None if old is None else make(old), opass, link, name)
    d = os.path.dirname(pl.real)
    beside = {}
    for i, o in enumerate(others):
        if o != name:
            beside[os.path.join(d, o)] = b'{"type": "other", "n": %d}' % i * (1 + i * 200)
    for p, b in beside.items():
        with open(p, 'wb') as f:
            f.write(b)
    pl.files = pl.listing()
    t.nontrivial(bool(beside))

    def undisturbed(what):
        for p, b in beside.items():
            expect(read(p) == b, '%s: %s beside %s was changed to %s', what, os.path.basename(p), name, short(read(p)))

    def dry():
        marks = []
        cr = Crash(0, marks)
        cr.run(lambda: saveTo(pl.path, w, npass))
        return cr.n, [n for n, _ in marks]
    code, res = child(dry)
    expect(code == 0, 'saving %s failed: %s', name, res)
    undisturbed('after a save')
    expect(pl.state(want, npass, 'after saving') == 'new' or pl.old is not None, 'nothing saved')
    same(pl.listing(), sorted(set(pl.files) | {pl.real}), 'files after a save')
    total, marks = res
    points = sorted({marks[e % len(marks)] + e % 3 - 1 for e in extra} | {e % total + 1 for e in extra[:2]} | {total - 3})
    for k in points:
        pl.reset()
        child(lambda: Crash(k).run(lambda: saveTo(pl.path, w, npass)))
        undisturbed('after a crash')
        pl.state(want, npass, 'after a crash at step %d of %d' % (k, total))
    pl.drop()


_shim = []


def journal_shim():
    "the library that notes writes and syncs of a child (vf/shim/fsjournal.c)"
    import subprocess, tempfile
    if not _shim:
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shim', 'fsjournal.c')
        fd, so = tempfile.mkstemp('.so', 'vf-fsj-')
        os.close(fd)
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('fsjournal.c: ' + r.stderr[-400:])
        _shim.append(so)
        import atexit
        atexit.register(lambda: os.path.exists(so) and os.unlink(so))
    return _shim[0]


def journaled(cases, base, log):
    "in the child: the saves of each case to one file, with every write and sync noted"
    import ctypes
    lib = ctypes.CDLL(None)
    from nbc.wallet import saveTo

    class T(object):
        @staticmethod
        def scratch():
            return base
        label = staticmethod(lambda *a: None)
    lib.fsj_start(b'/nonexistent', log)
    with open(base + '/self', 'w') as f:
        f.write('x')
    lib.fsj_stop()
    os.unlink(base + '/self')
    for c in cases:
        pl, w, _ = setup(T, c)
        os.write(log, b'case %d\n' % (pl.old is not None))
        saveTo(pl.path, w, c[3])        # everything is imported and warm; the file holds one wallet now
        pl.reset()
        lib.fsj_start(os.fsencode(pl.real), log)
        os.write(log, b'begin 0 %d\n' % (os.stat(pl.real).st_ino if pl.old is not None else 0))
        saveTo(pl.path, w, c[3])
        lib.fsj_stop()
        os.write(log, b'end 0 %d\n' % os.stat(pl.real).st_ino)
        pl.drop()


@PROP.sub('power-loss', fuzz=False, gen=st.lists(saves, min_size=3, max_size=6), quick=12, thorough=400, cpu=200,
          rule='what a save writes, syncs and renames is noted by a library preloaded into a child; at no moment may the name saved to stand for content that is not yet on the disk, which a loss of power would lose; non-trivial when an old wallet existed')
def power_loss(c, t):
    import subprocess
    so = journal_shim()
    base = os.path.join(t.scratch(), 'pl%d' % Place.serial)
    Place.serial += 1
    os.makedirs(base)
    r, w = os.pipe()
    env = dict(os.environ, LD_PRELOAD=so)
    try:
        p = subprocess.Popen([sys.executable, '-c', 'import sys; from vf.checks import c06; c06.journaled(eval(sys.stdin.read()), %r, %d)' % (base, w)], stdin=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[w], env=env)
    finally:
        os.close(w)
    p.stdin.write(repr(c).encode())
    p.stdin.close()
    log = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        log += b
    os.close(r)
    err = p.stderr.read().decode('utf-8', 'replace')
    p.stderr.close()
    if p.wait():
        raise Fail('saving failed: %s' % err[-300:])
    head, _, log = log.partition(b'case')
    if b'write' not in head:
        raise HarnessError('nothing was noted: %r' % head)
    log = b'case' + log
    t.nontrivial(b'case 1' in log)
    dirty, at, n, on = set(), 0, 0, False
    for line in log.decode().split('\n'):
        f = line.split()
        if not f or f[0] == 'case':
            n += bool(f)
            on = False
            continue
        op, ino, at = f[0], int(f[1]), int(f[2])
        if op == 'begin':
            dirty, steps, on = set(), [], True
        if not on:
            raise HarnessError('journal %r' % line)
        steps.append(op)
        if op == 'write':
            dirty.add(ino)
        elif op == 'sync':
            dirty.discard(ino)
        elif op == 'all':
            dirty.clear()
        expect(at not in dirty, 'save %d: after %r the file at the name holds content that was never synced', n, steps)
        if op == 'end':
            expect(at, 'save %d left no file', n)
    same(n, len(c), 'saves noted')
