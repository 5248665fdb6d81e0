import io, json, socket, threading, time, urllib.error, urllib.request
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail, short
from .. import gen

PROP = Prop('C44', assumptions=['urlopen and getaddrinfo are stand-ins (no network); a number is a JSON integer, or an integral float; what a true/false value, a text of digits or a sloppy index gives is only required not to be an error',
                                'time limits are checked with a slack of seconds, against sources that hang until the end of the case',
                                'the resolved addresses of one case are distinct'])


def util():
    from nbc import util
    return util


HOOKS = {}


def hook(obj, name):
    "the stand-in is in place before the code is imported, however it imports it"
    HOOKS[name] = getattr(obj, name)
    setattr(obj, name, lambda *a, **k: HOOKS[name](*a, **k))


hook(urllib.request, 'urlopen')
hook(socket, 'getaddrinfo')


class Patch(object):
    "replaces a function for the length of a case"
    def __init__(self, obj, name, new):
        self.name, self.new = name, new

    def __enter__(self):
        self.old = HOOKS[self.name]
        HOOKS[self.name] = self.new

    def __exit__(self, *a):
        HOOKS[self.name] = self.old


class Response(io.BytesIO):
    status = code = 200

    def getcode(self):
        return 200

    def info(self):
        return {}
    headers = {}


ERRORS = {'url': lambda: urllib.error.URLError('no route'), 'http': lambda: urllib.error.HTTPError('http://x', 404, 'gone', {}, None), 'timeout': lambda: socket.timeout('timed out'),
          'reset': lambda: ConnectionResetError(104, 'reset'), 'value': lambda: ValueError('bad'), 'odd': lambda: RuntimeError('\u20ac'), 'key': lambda: KeyError('x')}


class BadBody(Response):
    def read(self, *a):
        raise ConnectionResetError(104, 'reset')


def opener(answer, seen):
    def urlopen(req, *a, **k):
        seen.append(req if isinstance(req, str) else req.get_full_url())
        if answer[0] == 'error':
            raise ERRORS[answer[1]]()
        if answer[0] == 'read':
            return BadBody(b'')
        return Response(answer[1])
    return urlopen


keys = st.one_of(st.sampled_from(['height', 'data', 'nb', 'last_block', '0', '1', '-1', '', 'blocks', 'a b', '\u20ac']), st.text(alphabet=st.characters(blacklist_characters='/', blacklist_categories=('Cs',)), max_size=4))
nums = st.one_of(gen.ints(-2**70, 2**70), st.integers(0, 10**6), st.integers(0, 400).map(lambda k: 10**k))
leaf = st.one_of(nums, nums, nums, nums, nums, nums, nums, nums, st.floats(allow_nan=True), st.booleans(), st.none(), st.text(max_size=6), st.sampled_from(['12', '-5', 'x', '', '1e3', '12.5', ' 7 ']))
docs = st.recursive(leaf, lambda c: st.one_of(st.dictionaries(keys, c, max_size=4), st.lists(c, max_size=4)), max_leaves=12)
NOTHING = object()
UNSURE = object()


def follow(doc, path):
    for comp in path.split('/'):
        if isinstance(doc, dict):
            if comp not in doc:
                return NOTHING
            doc = doc[comp]
        elif isinstance(doc, list):
            if not (comp.isascii() and comp.isdigit() and str(int(comp)) == comp):
                try:
                    int(comp)
                    return UNSURE
                except ValueError:
                    return NOTHING
            if int(comp) >= len(doc):
                return NOTHING
            doc = doc[int(comp)]
        else:
            return NOTHING
    if isinstance(doc, bool):
        return UNSURE
    if isinstance(doc, int):
        return doc
    if isinstance(doc, float):
        if doc != doc or doc in (float('inf'), float('-inf')):
            return NOTHING
        return int(doc) if doc == int(doc) else UNSURE
    if isinstance(doc, str):
        try:
            int(doc)
            return UNSURE
        except ValueError:
            return NOTHING
    return NOTHING


@st.composite
def fetches(draw):
    doc = draw(st.one_of(docs, st.dictionaries(keys, docs, min_size=1, max_size=3), st.dictionaries(keys, st.one_of(st.dictionaries(keys, leaf, min_size=1, max_size=3), st.lists(leaf, min_size=1, max_size=4)), min_size=1, max_size=3)))
    # mostly walk along the document
    path, d = [], doc
    for _ in range(draw(st.sampled_from([6, 6, 6, 6, 1, 2, 3]))):
        if isinstance(d, dict) and d and draw(st.integers(0, 9)):
            k = draw(st.sampled_from(sorted(d)))
            path.append(k)
            d = d[k]
        elif isinstance(d, list) and d and draw(st.integers(0, 9)):
            i = draw(st.one_of(st.integers(0, len(d) - 1), st.integers(0, len(d))))
            path.append(str(i))
            d = d[i] if i < len(d) else None
        elif not path or draw(st.integers(0, 11)) == 0:
            path.append(draw(keys))
            d = None
    if not path:
        path = [draw(keys)]
    return json.dumps(doc), '/'.join(path), draw(st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'utf-8-sig']))


def number(got, want, what):
    expect(got is None or type(got) is int, '%s: result %r', what, got)
    if want is NOTHING:
        same(got, None, what)
    elif want is not UNSURE:
        same(got, want, what)


@PROP.sub('paths', gen=fetches(), quick=3000, thorough=200000, rule='JSON documents and paths that lead along them, beside them or beyond; non-trivial when a number is there')
def paths(c, t):
    text, path, enc = c
    doc = json.loads(text)
    want = follow(doc, path)
    t.nontrivial(isinstance(want, int))
    t.label('number' if isinstance(want, int) else 'nothing' if want is NOTHING else 'not judged')
    f = util().fetch_url_json_path_int('http://host.invalid/doc', path)
    seen = []
    with Patch(urllib.request, 'urlopen', opener(('doc', text.encode(enc)), seen)):
        for _ in range(2):
            number(f(), want, 'path %r in %s' % (path, short(text)))
    same(seen, ['http://host.invalid/doc'] * 2, 'addresses fetched')


@PROP.sub('large-documents', enum=lambda tier: [(shape, n, i) for shape in ('list', 'dict', 'deep-list', 'deep-dict', 'mixed') for n in (1, 2, 9, 10, 11, 12, 100, 101, 257, 300) for i in (0, 1, n // 2, n - 2, n - 1, n, n + 1) if i >= 0], quick=350,
          rule='exhaustive: long lists, large objects and deep documents, asked for the first, middle, last entry and beyond')
def large(c, t):
    shape, n, i = c
    if shape == 'list':
        doc, path = {'data': [1000 + x for x in range(n)]}, 'data/%d' % i
    elif shape == 'dict':
        doc, path = {'k%d' % x: 1000 + x for x in range(n)}, 'k%d' % i
    elif shape == 'deep-list':
        doc, path = 7, '/'.join(['0'] * i)
        for _ in range(n):
            doc = [doc, 8]
    elif shape == 'deep-dict':
        doc, path = 7, '/'.join('k%d' % x for x in range(i))
        for x in reversed(range(n)):
            doc = {'k%d' % x: doc, 'other': 8}
    else:
        doc, path = [{'0': [y * 1000 + x for x in range(n)], 'n': n} for y in range(n)], '%d/0/%d' % (n - 1, i)
    if not path:
        path = 'x'
    want = follow(doc, path)
    t.nontrivial(isinstance(want, int))
    f = util().fetch_url_json_path_int('http://host.invalid/doc', path)
    with Patch(urllib.request, 'urlopen', opener(('doc', json.dumps(doc).encode()), [])):
        number(f(), want, 'path %r in a document of %d' % (short(path), n))


raw = st.one_of(gen.data(60), st.text(max_size=20).map(lambda s: s.encode('utf-8', 'surrogatepass')), st.sampled_from([b'', b'{', b'[', b'{"a":1', b'nul', b'NaN', b'[' * 100000, b'{"a":' * 50000, b'"\\ud800"', b'{"a": "\\ud800"}', b'1' * 5000, b'{"a":' + b'9' * 5000 + b'}', b'\xff\xfe\0', b'<html>']),
                 st.tuples(docs.map(lambda d: json.dumps(d).encode()), st.lists(gen.mutation(), min_size=1, max_size=3)).map(lambda a: gen.mutate(*a)))


@PROP.sub('bad-documents', gen=st.tuples(raw, st.one_of(st.sampled_from(['a', 'height', 'data/0', '', '/', '0', 'a/b/c']), keys)), quick=1500, thorough=100000, rule='documents that are no JSON, cut, damaged or nested very deeply: nothing, never an error')
def bad(c, t):
    body, path = c
    f = util().fetch_url_json_path_int('http://host.invalid/doc', path)
    with Patch(urllib.request, 'urlopen', opener(('doc', body), [])):
        got = f()
    try:
        doc = json.loads(body)
        want = follow(doc, path)
    except Exception:
        want = NOTHING
    t.nontrivial(want is NOTHING)
    number(got, want, 'path %r in %s' % (path, short(body)))


@PROP.sub('errors', enum=lambda tier: [(k, e) for k in ('json', 'int') for e in sorted(ERRORS) + ['read', 'bad-url']], rule='every failure of the fetch itself, and an address that is none')
def errors(c, t):
    k, e = c
    url = 'http://host.invalid/' if e != 'bad-url' else 'no address'
    f = util().fetch_url_json_path_int(url, 'a') if k == 'json' else util().fetch_url_int(url)
    with Patch(urllib.request, 'urlopen', opener(('read',) if e == 'read' else ('error', e if e != 'bad-url' else 'url'), [])):
        same(f(), None, 'result after %s' % e)


@PROP.sub('plain', gen=st.one_of(nums.map(lambda n: str(n).encode()), st.tuples(nums, st.sampled_from(['%d\n', ' %d', '%d\r\n'])).map(lambda a: (a[1] % a[0]).encode()), raw), quick=800, thorough=50000, rule='plain-text numbers and other bodies; non-trivial for a number')
def plain(c, t):
    f = util().fetch_url_int('http://host.invalid/n')
    with Patch(urllib.request, 'urlopen', opener(('doc', c), [])):
        got = f()
    s = c.strip(b' \r\n')
    digits = s[1:] if s[:1] == b'-' else s
    if digits.isdigit() and len(digits) < 4000:
        t.nontrivial()
        same(got, int(s), 'number')
    else:
        t.nontrivial(False)
        try:
            int(c)
            number(got, UNSURE, 'body')
        except ValueError:
            number(got, NOTHING, 'body %s' % short(c))


class Coin(object):
    pass


source = st.one_of(st.tuples(st.just('value'), st.integers(0, 10**6)), st.tuples(st.just('value'), st.integers(0, 10**6)), st.tuples(st.just('none'), st.just(0)), st.tuples(st.just('raise'), st.sampled_from(sorted(ERRORS))),
                   st.tuples(st.just('hang'), st.sampled_from(['value', 'raise'])), st.tuples(st.just('soon'), st.integers(0, 5)))


@PROP.sub('gathering', fuzz=False, gen=st.lists(source, max_size=10), quick=64, thorough=1500, cpu=120, rule='mixes of sources that answer, give nothing, fail, hang past the limit or answer a little later; non-trivial when one hangs and one answers')
def gathering(c, t):
    kinds = [k for k, _ in c]
    t.nontrivial('hang' in kinds and 'value' in kinds)
    release = threading.Event()
    returned, lock = {}, threading.Lock()

    def make(i, kind, x):
        def f():
            if kind == 'hang':
                release.wait(60)
                if x == 'raise':
                    raise RuntimeError('late')
                return -1
            if kind == 'soon':
                time.sleep(x / 100.)
            if kind == 'raise':
                raise ERRORS[x]()
            with lock:
                returned[i] = time.time()
            return None if kind == 'none' else 1000 * i + x
        return f
    coin = Coin()
    coin.block_height_guess = [('s%d' % i, make(i, k, x)) for i, (k, x) in enumerate(c)]
    limit = 1.0 if 'hang' in kinds else 10.0
    t0 = time.time()
    try:
        got = util().guess_block_height(coin, timeout=limit)
        took = time.time() - t0
        expect(took < limit + 6 + 0.05 * len(c), 'took %.1f s with a limit of %.1f s', took, limit)
        first = dict(got)
    finally:
        release.set()
    for i, (k, x) in enumerate(c):
        name = 's%d' % i
        if k in ('value', 'soon'):
            if name in first:
                same(first[name], 1000 * i + x, 'answer of %s' % name)
            else:
                expect(i not in returned or returned[i] > t0 + limit - .5, 'the answer of %s is missing from %r', name, first)
        else:
            same(first.get(name), None, 'answer of %s (%s)' % (name, k))
    expect(set(first) <= {'s%d' % i for i in range(len(c))}, 'names %r', first)
    if 'hang' in kinds:
        time.sleep(.05)
        same(dict(got), first, 'result after late answers')
        if 'value' in kinds:
            same(util().guess_block_height(type('C', (), {'block_height_guess': []})(), timeout=1), {}, 'another gathering')


@PROP.sub('time-limit', enum=lambda tier: [(n, l, a) for n in ((2, 6, 20) if tier == 'quick' else (1, 2, 3, 6, 10, 20, 40)) for l in (.2, .5) for a in (0, 2)] + [(20, 1.5, 1)], cpu=120,
          rule='up to forty hanging sources, and two that answer: the limit holds for all of them together (a run that takes longer is repeated, as the machine may be busy)')
def time_limit(c, t):
    hang, limit, answers = c
    t.nontrivial(hang > 1)
    for attempt in range(4):
        release = threading.Event()
        coin = Coin()
        coin.block_height_guess = [('h%d' % i, lambda: release.wait(60) and None) for i in range(hang)] + [('a%d' % i, lambda i=i: i) for i in range(answers)]
        t0 = time.time()
        try:
            got = util().guess_block_height(coin, timeout=limit)
        finally:
            took = time.time() - t0
            release.set()
        expect(all(got.get('h%d' % i) is None for i in range(hang)), 'answers %r', got)
        if took < (1.4 if limit > 1 else 2) * limit + .3:
            if all(got.get('a%d' % i) == i for i in range(answers)):
                return
    raise Fail('took %.1f s with a limit of %.1f s, answers %r' % (took, limit, got))


@PROP.sub('late-answers', fuzz=False, enum=lambda tier: [(l, f) for l in ((1.6,) if tier == 'quick' else (.8, 1.6, 4)) for f in ((.7,), (0, .55), (.6, 0, .3), (.4, None, .7, None), (.65, .65, .65))], cpu=120,
          rule='sources that answer late, but well within the limit, beside quick and hanging ones: their answers are waited for (a run on a machine so busy that an answer came past the limit is repeated)')
def late_answers(c, t):
    limit, when = c
    for attempt in range(6):
        release, times = threading.Event(), {}

        def make(i, f):
            def late():
                release.wait(f * limit if f is not None else 60)
                if release.is_set():
                    return None
                times[i] = time.time()
                return 7000 + i
            return late
        coin = Coin()
        coin.block_height_guess = [('s%d' % i, make(i, f)) for i, f in enumerate(when)]
        t0 = time.time()
        try:
            got = dict(util().guess_block_height(coin, timeout=limit))
        finally:
            took = time.time() - t0
            release.set()
        missing = [i for i, f in enumerate(when) if f is not None and got.get('s%d' % i) != 7000 + i]
        if not missing:
            return
        for i in missing:
            expect(times.get(i, t0 + limit) > t0 + limit * .85, 'the answer of s%d, given after %.2f of %.1f s, is missing from %r', i, times.get(i, 0) - t0, limit, got)
        expect(took > limit * .85, 'given up after %.2f of %.1f s, with the answers %r', took, limit, got)


ip = st.integers(1, 2**32 - 1).map(lambda v: '.'.join(map(str, v.to_bytes(4, 'big'))))


@PROP.sub('seeds', fuzz=False, gen=st.tuples(st.lists(st.one_of(st.lists(ip, max_size=8), st.lists(ip, max_size=8), st.sampled_from(['error', 'hang', 'odd']), st.sampled_from([60, 250, 300, 1100])), max_size=8), st.integers(0, 3)), quick=120, thorough=4000, cpu=120,
          rule='seeds that resolve to any number of distinct addresses, fail or hang; popped from one or several threads; non-trivial with two seeds answering')
def seeds(c, t):
    answers, threads = c
    used, table = set(), {}
    for i, a in enumerate(answers):
        if isinstance(a, int):       # that many
            a = ['10.%d.%d.%d' % (i, x >> 8, x & 255) for x in range(a)]
        if isinstance(a, list):
            a = [x for j, x in enumerate(a) if x not in used and x not in a[:j]]
            used.update(a)
        table['seed%d.invalid' % i] = a
    t.nontrivial(sum(bool(a) and isinstance(a, list) for a in table.values()) > 1)
    release = threading.Event()

    def getaddrinfo(host, port, *args, **kw):
        a = table[host]
        if a == 'error':
            raise socket.gaierror(-2, 'Name or service not known')
        if a == 'odd':
            raise ValueError('odd')
        if a == 'hang':
            release.wait(60)
            return []
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (x, port)) for x in a]
    from nbc.util import bootstrap
    want = sorted((x, 1000 + i) for i, h in enumerate(sorted(table, key=lambda h: int(h[4:].split('.')[0]))) if isinstance(table[h], list) for x in table[h])
    with Patch(socket, 'getaddrinfo', getaddrinfo):
        try:
            t0 = time.time()
            s = bootstrap.DNSSeeder([('seed%d.invalid' % i, 1000 + i) for i in range(len(answers))])
            expect(time.time() - t0 < 20, 'starting took long')
            t0 = time.time()
            while len(s) < len(want) and time.time() - t0 < 20:
                time.sleep(.002)
            same(len(s), len(want), 'addresses found')
            got, lock = [], threading.Lock()
            share = len(want) // (threads + 1)

            def take(n):
                for _ in range(n):
                    a = s.pop()
                    with lock:
                        got.append(a)
            ts = [threading.Thread(target=take, args=(share,)) for _ in range(threads)]
            [x.start() for x in ts]
            take(len(want) - share * threads)
            [x.join(20) for x in ts]
            same(sorted(tuple(a) for a in got), want, 'addresses handed out')
            same(len(s), 0, 'addresses left')
        finally:
            release.set()
