from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C02', assumptions=['an encoding is "well formed" when it is the canonical DER of two non-negative integers; for others only soundness of a yes is required'])
N = wal.N

nums = st.one_of(st.integers(0, 2**256 + 300), gen.ints(0, 2**280), st.sampled_from([0, 1, N - 1, N, N + 1, 2 * N, 2**256 - 1, 2**256]))


def pubs():
    return st.one_of(
        st.tuples(st.just('good'), st.booleans()),
        st.tuples(st.just('mut'), st.booleans(), st.lists(gen.mutation(), min_size=1, max_size=3)),
        st.tuples(st.just('raw'), gen.data(70)),
        st.tuples(st.just('x'), st.sampled_from([2, 3, 4, 5, 0, 6, 7]), gen.ints(0, 2**256 - 1)),
        st.tuples(st.just('neg'), st.booleans()),
    )


part = st.tuples(st.sampled_from([2, 2, 2, 2, 2, 3, 0, 0x30, 0x82]), st.sampled_from(['good', 'good', 'empty', 'zero', 'one', 'neg', 'zeros', 'ff']), st.sampled_from([0, 0, 0, 0, 1, -1, 0x50, 0x7f, None]))


def part_bytes(p, v):
    "one element: tag, content, and a length that may be off"
    tag, what, d = p
    body = {'good': v.to_bytes((v.bit_length() + 8) // 8, 'big'), 'empty': b'', 'zero': b'\0', 'one': b'\1', 'neg': b'\x80' + bytes(31), 'zeros': bytes(33), 'ff': b'\xff' * 33}[what]
    if d is None:
        return bytes([tag])
    return bytes([tag]) + bytes([max(0, len(body) + d) & 0xff]) + body


def sigs():
    return st.one_of(
        st.tuples(st.just('good'),),
        st.tuples(st.just('high'),),
        st.tuples(st.just('mut'), st.lists(gen.mutation(), min_size=1, max_size=3)),
        st.tuples(st.just('raw'), gen.data(90)),
        st.tuples(st.just('nums'), nums, nums),
        st.tuples(st.just('plus'), st.sampled_from([(1, 0), (0, 1), (1, 1)]), st.sampled_from([N, 2**256, 2**264, 2 * N, N << 256, 2**512, 2**256 - N]), st.sampled_from([1, 1, 2, 255, -1])),
        st.tuples(st.just('rnum'), nums),
        st.tuples(st.just('snum'), nums),
        st.tuples(st.just('infinity'), st.integers(1, N - 1)),
        st.tuples(st.just('der'), st.lists(st.one_of(st.binary(max_size=5), st.sampled_from(
            [b'\x30', b'\x02', b'\x80', b'\x81', b'\x82', b'\xff', b'\x00', b'\x01', b'\x20', b'\x30\x06\x02\x01\x01\x02\x01\x01', b'\x30\x00'])), max_size=8)),
        st.tuples(st.just('pad'), st.integers(0, 4), st.integers(0, 4), st.binary(max_size=3), st.binary(max_size=3), st.booleans()),
        st.tuples(st.just('parts'), st.tuples(part, part, st.sampled_from([b'', b'', b'\0', b'\2\0', b'\2'])), st.sampled_from([0, 0, 0, 1, -1, -2, 7, -5])),
        st.tuples(st.just('biglen'), st.integers(1, 9), st.binary(max_size=9)),
    )


def make_sig(d, r, s, z, k):
    how = d[0]
    if how == 'good':
        return wal.der_sig(r, s)
    if how == 'high':
        return wal.der_sig(r, N - s)
    if how == 'mut':
        return gen.mutate(wal.der_sig(r, s), d[1])
    if how == 'raw':
        return d[1]
    if how == 'nums':
        return wal.der_sig(d[1], d[2])
    if how == 'rnum':
        return wal.der_sig(d[1], s)
    if how == 'snum':
        return wal.der_sig(r, d[1])
    if how == 'plus':                          # the right numbers modulo something
        return wal.der_sig(*[abs(v + w * d[2] * d[3]) for v, w in zip((r, s), d[1])])
    if how == 'infinity':                      # u1*G + u2*Q is the neutral element
        return wal.der_sig(-z * pow(k, -1, N) % N, d[1])
    if how == 'der':
        return b''.join(d[1])
    if how == 'parts':
        body = part_bytes(d[1][0], r) + part_bytes(d[1][1], s) + d[1][2]
        return b'\x30' + bytes([max(0, len(body) + d[2]) & 0xff]) + body
    if how == 'biglen':
        return b'\x30' + bytes([0x80 | d[1]]) + d[2] + wal.der_sig(r, s)
    _, a, b, inner, outer, long = d
    def i(v, n):
        body = b'\0' * n + v.to_bytes((v.bit_length() + 8) // 8, 'big')
        return b'\x02' + wal.der_len(len(body)) + body
    body = i(r, a) + i(s, b) + inner
    l = b'\x81' + bytes([len(body)]) if long and len(body) < 256 else wal.der_len(len(body))
    return b'\x30' + l + body + outer


def make_pub(d, K):
    how = d[0]
    if how == 'good':
        return ec.compress(K) if d[1] else ec.full(K)
    if how == 'neg':
        K = wal.C.neg(K)
        return ec.compress(K) if d[1] else ec.full(K)
    if how == 'mut':
        return gen.mutate(ec.compress(K) if d[1] else ec.full(K), d[2])
    if how == 'raw':
        return d[1]
    tag, x = d[1], d[2]
    b = bytes([tag]) + x.to_bytes(32, 'big')
    if tag in (4, 6, 7):
        P = wal.C.lift(x, 0)
        b += (P[1] if P else 1).to_bytes(32, 'big')
    return b


case = st.tuples(gen.scalars(), gen.scalars(), wal.messages(), pubs(), sigs())


def verdict(K, msg, sig):
    """True/False when decided; 'sound' when only a yes is constrained"""
    if K is None:
        return False
    z = wal.digest_int(msg)
    rs = wal.strict_sig(sig)
    if rs is not None:
        return ec.ecdsa_verify(wal.C, K, z, *rs)
    rs = wal.liberal_sig(sig)
    if rs is None or not ec.ecdsa_verify(wal.C, K, z, *rs):
        return False
    return 'sound'


@PROP.sub('verify', gen=case, quick=600, thorough=20000,
          rule='message x public-key bytes (valid, mutated, raw) x signature bytes (valid, boundary numbers, crafted to hit the neutral element, mutated, sloppy DER, raw); non-trivial when key and signature both decode')
def verify(c, t):
    from nbc.util import ecc
    d, nonce, msg, pd, sd = c
    K = wal.point(d)
    z = wal.digest_int(msg)
    r, s = ec.ecdsa_sign(wal.C, d, z, nonce)
    pub, sig = make_pub(pd, K), make_sig(sd, r, s, z, d)
    P = wal.decode_pub(pub)
    want = verdict(P, msg, sig)
    got = ecc.verify(msg, pub, sig)
    t.label('pub-' + pd[0], 'sig-' + sd[0], 'want-%s' % want)
    t.nontrivial(P is not None and wal.liberal_sig(sig) is not None)
    expect(got in (True, False) and isinstance(got, bool), 'answer is %r', got)
    if want != 'sound':
        same(got, want, 'verdict for pub=%s sig=%s' % (pub.hex(), sig.hex()))
    t.label('got-%s' % got)


@PROP.sub('wallets', gen=st.tuples(wal.specs(1), wal.messages(), gen.scalars(), sigs()), quick=160, thorough=6000,
          rule='the same signatures offered to wallet objects and to alerts; non-trivial when the signature decodes')
def wallets(c, t):
    from nbc.protocol import Alert
    spec, msg, nonce, sd = c
    ref = wal.Ref(spec)
    z = wal.digest_int(msg)
    r, s = ec.ecdsa_sign(wal.C, ref.k, z, nonce)
    sig = make_sig(sd, r, s, z, ref.k)
    want = verdict(ref.K, msg, sig)
    t.nontrivial(wal.liberal_sig(sig) is not None)
    t.label('want-%s' % want)
    for w, what in ((wal.build_public(spec, ref).verify(msg, sig), 'wallet'),
                    (Alert(msg, sig).verify(ref.pub), 'alert')):
        expect(isinstance(w, bool), '%s answers %r', what, w)
        if want != 'sound':
            same(w, want, what + ' verdict')


def high_point(i):
    "the i-th point of the curve whose x is at least the group order (r is x - n then)"
    x = N + i
    while wal.C.lift(x, 0) is None:
        x += 1
    return x, wal.C.lift(x, i & 1)


@PROP.sub('wrapped-r', gen=st.tuples(st.one_of(st.integers(0, 300), gen.ints(0, wal.C.p - N - 400)), gen.scalars(), wal.messages(), st.sampled_from(['as it is', 'x', 'r+1', 's+1', 'message', 'high s']), st.booleans()), quick=120, thorough=4000,
          rule='signatures whose nonce point has an x coordinate between the group order and the field prime, for the key they fit: accepted with x - n, refused with x itself and after changes')
def wrapped(c, t):
    from nbc.util import ecc
    i, s, msg, how, comp = c
    x, R = high_point(i)
    r, z = x - N, wal.digest_int(msg)
    if r == 0:
        return
    Q = wal.C.mul(pow(r, -1, N), wal.C.add(wal.C.mul(s, R), wal.C.mul(-z % N, wal.C.g)))
    if Q is None:
        return
    pub = ec.compress(Q) if comp else ec.full(Q)
    expect(ec.ecdsa_verify(wal.C, Q, z, r, s), 'HARNESS: the crafted signature is wrong')
    want = how in ('as it is', 'high s')
    if how == 'x':
        r = x
    elif how == 'r+1':
        r += 1
    elif how == 's+1':
        s += 1
    elif how == 'message':
        msg += b'!'
    elif how == 'high s':
        s = N - s
    t.label(how)
    same(ecc.verify(msg, pub, wal.der_sig(r, s)), want, 'verdict for %s' % how)


SHIFTS = [N, 2 * N, -N, 2**255, 2**256, 2**256 - N, 2**257, 2**264, 2**512, N << 64, N << 256, wal.C.p, wal.C.p - N, 2**32, 2**64, 2**128, 1, -1]


@PROP.sub('congruent', gen=st.tuples(gen.scalars(), gen.scalars(), wal.messages(), st.booleans(), st.lists(st.tuples(st.sampled_from(SHIFTS), st.sampled_from([1, 1, 1, 2, 255]), st.sampled_from([(1, 0), (0, 1), (1, 1), (1, -1)])), min_size=6, max_size=14)),
          quick=60, thorough=3000, rule='good signatures with multiples of the group order, the field prime or powers of two added to either number: only numbers below the group order count')
def congruent(c, t):
    from nbc.util import ecc
    d, nonce, msg, comp, shifts = c
    K = wal.point(d)
    z = wal.digest_int(msg)
    r, s = ec.ecdsa_sign(wal.C, d, z, nonce)
    pub = ec.compress(K) if comp else ec.full(K)
    same(ecc.verify(msg, pub, wal.der_sig(r, s)), True, 'verdict')
    for by, times, (a, b) in [(2**256, 1, (1, 0)), (2**256, 1, (0, 1)), (N, 1, (1, 0)), (N, 1, (0, 1))] + shifts:
        r2, s2 = abs(r + a * by * times), abs(s + b * by * times)
        same(ecc.verify(msg, pub, wal.der_sig(r2, s2)), ec.ecdsa_verify(wal.C, K, z, r2, s2), 'verdict for r=%x s=%x' % (r2, s2))


@PROP.sub('anywhere', enum=lambda tier: [(d, num, testnet, how) for d in (0, 1, 2, 127, 128, 254, 255) for num in ((0, 2**31, 2**32 - 1) if d else (0,)) for testnet in (False, True) for how in ('as it is', 'message', 'high s', 's+1')][::1 if tier == 'thorough' else 3], quick=160,
          rule='exhaustive (quick: every third): signatures made by the reference offered to public-only deterministic wallets at special depths and child numbers')
def anywhere(c, t):
    from nbc.wallet import HDWallet
    depth, num, testnet, how = c
    h = b58.dsha(repr(c).encode())
    k = int.from_bytes(h, 'big') % wal.N
    n = ec.Node(k, wal.point(k), b58.dsha(b'c'), depth, b58.dsha(b'f')[:4] if depth else bytes(4), num)
    w = HDWallet.from_extended_key(b58.enc_check(n.extended(False, testnet)), vcn=1)
    msg = h[:depth % 30 + 1]
    r, s = ec.ecdsa_sign(wal.C, k, wal.digest_int(msg), int.from_bytes(b58.dsha(h), 'big') % N)
    s = N - s if how == 'high s' else s + (how == 's+1')
    t.label(how)
    same(w.verify(msg + b'x' * (how == 'message'), wal.der_sig(r, s)), how in ('as it is', 'high s'), 'verdict (%s)' % how)
