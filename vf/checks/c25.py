import hashlib, math
from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec
from .c18 import NAMES, lib

PROP = Prop('C25', assumptions=['reachability of large ranges is judged by buckets of the range; an entropy source that never yields an acceptable value may be given up on with an error',
                                'orders far above a power of 256 are rare among the slow cases because the documented rejection rate makes them slow'])
BYSEED = ['overshoot_modulo', 'trytryagain', 'truncate_bytes', 'truncate_bits']


def U():
    from nbc.util.ecdsa import util
    return util


class Feed(object):
    "entropy: literal bytes first, then a deterministic stream"
    def __init__(self, seed, first=b''):
        self.buf, self.seed, self.n, self.calls = first, seed, 0, 0

    def __call__(self, n):
        self.calls += 1
        while len(self.buf) < n:
            self.buf += hashlib.sha512(b'%d/%d' % (self.seed, self.n)).digest()
            self.n += 1
        out, self.buf = self.buf[:n], self.buf[n:]
        return out


# orders whose top byte is not tiny (few rejections), of any size, and the small ones
fair = st.one_of(st.sampled_from([ec.BY_NAME[n].n for n in NAMES]), st.integers(1, 66).flatmap(lambda k: gen.ints(1 << 8 * k - 4, (1 << 8 * k) - 1)),
                 st.integers(1, 66).flatmap(lambda k: st.integers(1, 5).map(lambda d: (1 << 8 * k) - d)), st.integers(2, 300), st.sampled_from([2, 3, 4, 5, 128, 255]))
anyorder = st.one_of(fair, gen.ints(2, 2**540), st.integers(1, 540).flatmap(lambda k: st.integers(-2, 3).map(lambda d: max(2, (1 << k) + d))))


@PROP.sub('random', gen=st.tuples(fair, st.integers(0, 2**32), st.lists(st.one_of(st.binary(min_size=1, max_size=70), st.sampled_from([b'\xff' * 70, b'\0' * 70, b'\xff' * 66 + b'\xfe' * 66])), max_size=3)), quick=1500, thorough=60000,
          rule='orders of every size x entropy beginning with chosen bytes (all ones, zeros, around the order); non-trivial when a value was rejected')
def rnd(c, t):
    u = U()
    n, seed, first = c
    f = Feed(seed, b''.join(first))
    size = (n.bit_length() + 7) // 8
    edge = b''.join(v.to_bytes(size, 'big') for v in (n - 1, n, n - 2) if 0 <= v < 1 << 8 * size)
    for head in (b''.join(first), edge, edge[size:], b'\xff' * size, b'\0' * size):
        f = Feed(seed, head)
        v = u.randrange(n, f)
        expect(type(v) is int and 1 <= v < n, 'randrange(%d) gave %r', n, v)
        t.nontrivial(f.calls > 1)
        same(u.randrange(n, Feed(seed, head)), v, 'randrange with the same entropy')
    raises(Exception, u.randrange, 1, Feed(seed))
    raises(Exception, u.randrange, 0, Feed(seed))


@PROP.sub('broken-source', gen=st.tuples(st.sampled_from([251, 2**16 - 17, gen.N256, 2**255 - 19]), st.sampled_from([0, 1, 0x7f, 0x80, 0xff])), quick=12, thorough=40,
          rule='an entropy source stuck at one byte gives a value in range or an error, in bounded time')
def broken(c, t):
    u = U()
    n, x = c
    try:
        v = u.randrange(n, lambda k: bytes([x]) * k)
    except Exception:
        t.label('gave up')
        return
    expect(1 <= v < n, 'out of range %r', v)


def small_orders(tier):
    for n in list(range(2, 34)) + [40, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300]:
        yield n


@PROP.sub('reach', enum=small_orders, quick=12, cpu=120, rule='small orders: every value of the range is met, none more than three times as often as another (64 to 200 draws per value)')
def reach(n, t):
    u = U()
    per = 64 if n < 257 else 8
    f = Feed(n)
    cnt = {}
    for _ in range(per * n):
        v = u.randrange(n, f)
        cnt[v] = cnt.get(v, 0) + 1
    if per == 64:
        same(sorted(cnt), list(range(1, n)), 'values met for order %d' % n)
        expect(max(cnt.values()) <= 3 * min(cnt.values()), 'order %d: frequencies %r', n, cnt)
    else:
        expect(min(cnt) >= 1 and max(cnt) < n and len(cnt) > n * .95, 'order %d: %d values met', n, len(cnt))


@PROP.sub('spread', gen=st.tuples(fair.filter(lambda n: n > 2**20), st.integers(0, 2**32)), quick=64, thorough=2000, rule='400 draws fall in every sixteenth of the range, the lowest bits take every value, and none repeats')
def spread(c, t):
    u = U()
    n, seed = c
    f = Feed(seed)
    vs = [u.randrange(n, f) for _ in range(400)]
    expect(all(1 <= v < n for v in vs), 'out of range')
    same({(v - 1) * 16 // (n - 1) for v in vs}, set(range(16)), 'sixteenths of the range of %d' % n)
    same({v & 15 for v in vs}, set(range(16)), 'low bits')
    expect(len(set(vs)) >= (399 if n > 2**40 else 380), 'repeated values')


seeds = st.one_of(st.binary(max_size=40), st.text(max_size=20), gen.blob(32))


def nbytes(n):
    "bytes that hold the order"
    return (n.bit_length() + 7) // 8


def stream(seed, n):
    "the generator behind a seed: SHA-256 of prng-<block>-<seed>"
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(('prng-%d-%s' % (i, seed)).encode()).digest()
        i += 1
    return out[:n]


def again(seed, n):
    "the first of the stream's numbers, of as many bits as the range needs, that falls in it"
    bits = (n - 1).bit_length()
    size = (bits + 7) // 8
    i = 1
    while True:
        v = (int.from_bytes(stream(seed, i * size)[-size:], 'big') & ((1 << bits) - 1)) + 1
        if v < n:
            return v
        i += 1


@PROP.sub('seeded', gen=st.tuples(st.sampled_from(BYSEED), seeds, anyorder), quick=1500, thorough=60000,
          rule='seed x order of 2 to 540 bits (around every power of two and of 256) x method; against the documented derivation (a key derived once must be derivable for ever); non-trivial for an order that does not fill whole bytes')
def seeded(c, t):
    u = U()
    how, seed, n = c
    fn = getattr(u, 'randrange_from_seed__' + how)
    if how.startswith('truncate') and isinstance(seed, str):
        seed = seed.encode('utf-8', 'ignore')
    t.label(how)
    t.nontrivial(n.bit_length() % 8 != 0)
    try:
        v = fn(seed, n)
    except TypeError:
        if not how.startswith('truncate'):
            raise
        t.known('C25-truncate', '%s raises TypeError' % how)
        return
    expect(type(v) is int and 1 <= v < n, '%s(%d) gave %r', how, n, v)
    same(fn(seed, n), v, 'repeated call')
    if how == 'overshoot_modulo':
        same(v, int.from_bytes(stream(seed, 2 * nbytes(n)), 'big') % (n - 1) + 1, 'overshoot_modulo(%r, %d)' % (seed, n))
    elif how == 'trytryagain' and int(math.log(n - 1, 2) + 1) == (n - 1).bit_length():
        same(v, again(seed, n), 'trytryagain(%r, %d)' % (seed, n))


@PROP.sub('distinct', gen=st.tuples(st.sampled_from(BYSEED[:2]), fair, st.binary(max_size=20), st.integers(0, 2)), quick=120, thorough=4000,
          rule='300 seeds that differ in one place (start, end, one number inside) give different values (all of them for large orders, most of the range for small ones)')
def distinct(c, t):
    u = U()
    how, n, base, where = c
    fn = getattr(u, 'randrange_from_seed__' + how)
    mk = [lambda i: base + b'%d' % i, lambda i: b'%d' % i + base, lambda i: base + bytes([i >> 8, i & 255]) + base][where]
    vs = [fn(mk(i), n) for i in range(300)]
    expect(all(1 <= v < n for v in vs), 'out of range')
    exp = (n - 1) * (1 - (1 - 1 / (n - 1)) ** 300) if n < 10**6 else 300
    if n > 2**48:
        same(len(set(vs)), 300, 'distinct values')
        same({(v - 1) * 8 // (n - 1) for v in vs}, set(range(8)), 'eighths of the range')
    else:
        expect(len(set(vs)) >= exp * .7 - 3, '%d distinct values for order %d, expected about %d', len(set(vs)), n, exp)
    if n > 2**60:
        # another order of the same size and of another size: not the same numbers
        for m in (n - 2, n >> 9):
            ws = [fn(mk(i), m) for i in range(60)]
            same(len(set(ws)), 60, 'distinct values for another order')
            expect(all(1 <= w < m for w in ws), 'out of range')


@PROP.sub('wallet-keys', enum=lambda tier: range(1 if tier == 'quick' else 20), quick=1, cpu=120, rule='96 generated wallets have keys in every quarter of the range, odd and even')
def wallet_keys(c, t):
    from nbc.wallet import Address
    ks = [wal.wif_scalar(Address.generate().privKey) for _ in range(96)]
    same({k * 4 // gen.N256 for k in ks}, {0, 1, 2, 3}, 'quarters of the range met')
    same({k & 1 for k in ks}, {0, 1}, 'lowest bits met')
    same(len(set(ks)), 96, 'distinct keys')


@PROP.sub('keys', gen=st.tuples(st.sampled_from(NAMES), st.integers(0, 2**32)), quick=36, thorough=1200, rule='generated signing keys and wallets hold a scalar in range and its public point')
def keys(c, t):
    from nbc.util.ecdsa import SigningKey
    from nbc.wallet import Address
    name, seed = c
    R = ec.BY_NAME[name]
    sk = SigningKey.generate(lib(name), entropy=Feed(seed))
    k = int.from_bytes(sk.to_string(), 'big')
    expect(1 <= k < R.n, 'generated key out of range')
    P = R.mul(k, R.g)
    l = R.size if hasattr(R, 'size') else (R.n.bit_length() + 7) // 8
    same(sk.get_verifying_key().to_string(), P[0].to_bytes(l, 'big') + P[1].to_bytes(l, 'big'), 'public key')
    same(SigningKey.generate(lib(name), entropy=Feed(seed)).to_string(), sk.to_string(), 'the same entropy')
    a, b = Address.generate(), Address.generate()
    ka, kb = (wal.wif_scalar(w.privKey) for w in (a, b))
    expect(1 <= ka < gen.N256 and 1 <= kb < gen.N256 and ka != kb, 'generated wallet keys')
    same(a.pubKey, ec.full(wal.point(ka)), 'wallet public key')


@PROP.sub('nonces', enum=lambda tier: [(i, j) for j in range(3 if tier == 'quick' else 30) for i in range(len(NAMES))], quick=18, thorough=180, cpu=120,
          rule='the nonces of signatures on every curve, worked out from the numbers with the key: in range, drawn from the source that was given (also one that starts with all ones), new for every signature')
def nonces(c, t):
    from nbc.util.ecdsa import SigningKey
    i, j = c
    name = NAMES[i]
    R = ec.BY_NAME[name]
    n, d = R.n, 1 + (0x9e3779b97f4a7c15 * (7 * i + j + 1)) ** 9 % (R.n - 1)
    size = (n.bit_length() + 7) // 8
    sk = SigningKey.from_secret_exponent(d, lib(name))
    head = [b'', b'\xff' * size, n.to_bytes(size, 'big')][j % 3]
    t.label(name)
    raw = lambda r, s, o: (r, s)

    def nonce(z, rs):
        k = pow(rs[1], -1, n) * (z + d * rs[0]) % n
        expect(1 <= k < n, 'nonce out of range')
        return k
    dig = [hashlib.sha1(b'%d/%d' % (j, x)).digest() for x in range(3)]
    zs = [int.from_bytes(x, 'big') for x in dig]
    f = Feed(j, head)
    a = [nonce(z, sk.sign_digest(x, entropy=f, sigencode=raw)) for x, z in zip(dig, zs)]
    expect(f.calls >= 3, 'the entropy source was asked %d times for 3 signatures', f.calls)
    same(len(set(a)), 3, 'distinct nonces of three signatures from one source')
    same(nonce(zs[0], sk.sign_digest(dig[0], entropy=Feed(j, head), sigencode=raw)), a[0], 'nonce from the same entropy again')
    same(nonce(zs[0], sk.sign(b'%d/0' % j, entropy=Feed(j, head), hashfunc=hashlib.sha1, sigencode=raw)), a[0], 'nonce of a signature of data from the same entropy')
    expect(nonce(zs[0], sk.sign_digest(dig[0], entropy=Feed(j + 1000), sigencode=raw)) not in a, 'the same nonce from other entropy')
    b = [nonce(z, sk.sign_digest(x, sigencode=raw)) for x, z in zip(dig[:1] * 2 + dig, zs[:1] * 2 + zs)]
    same(len(set(a + b)), 8, 'distinct nonces of signatures with the system\'s entropy')
    # the whole range is in use
    if j % 3 == 0:
        same(nonce(zs[1], sk.sign_digest(dig[1], entropy=Feed(1, (n - 2).to_bytes(size, 'big')), sigencode=raw)) in (n - 1, n - 2), True, 'nonce at the top of the range')
