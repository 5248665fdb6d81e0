from hypothesis import strategies as st
from ..core import Prop, expect, same, raises, Fail
from .. import gen, wal
from ..refs import ec, b58

PROP = Prop('C15')


@PROP.sub('agree', gen=st.tuples(gen.scalars(), gen.scalars(), st.booleans(), st.booleans(), st.booleans()), quick=160, thorough=5000,
          rule='two key pairs in all encodings')
def agree(c, t):
    from nbc.util import ecc
    a, b, ca, cb, cw = c
    A, B = wal.point(a), wal.point(b)
    want = wal.C.mul(a, B)[0].to_bytes(32, 'big')
    t.label('short' if want[0] == 0 else 'full')
    enc = lambda P, x: ec.compress(P) if x else ec.full(P)
    same(ecc.shared_secret(enc(B, cb), wal.ref_wif(a, cw)), want, 'secret of a')
    same(ecc.shared_secret(enc(A, ca), wal.ref_wif(b, not cw)), want, 'secret of b')


@PROP.sub('short-secret', gen=st.integers(1, 2**48), quick=24, thorough=300,
          rule='the other key is searched so that the x coordinate of the product starts with a zero byte')
def short_secret(c, t):
    from nbc.util import ecc
    a = c
    A = wal.point(a)
    P, b = A, 1
    while P is None or P[0] >> 248:
        P = wal.C.add(P, A)
        b += 1
        if b > 3000:
            t.nontrivial(False)
            return
    want = P[0].to_bytes(32, 'big')
    same(ecc.shared_secret(ec.compress(A), wal.ref_wif(b, True)), want, 'secret')


@PROP.sub('wrapped-secret', gen=st.tuples(gen.scalars(), st.integers(0, 400), st.booleans(), st.booleans()), quick=40, thorough=800,
          rule='the product point has an x coordinate at or above the group order, or a tiny one')
def wrapped(c, t):
    from nbc.util import ecc
    a, d, comp, low = c
    P = None
    while P is None:
        x = d if low else wal.N + d
        P = wal.C.lift(x, a & 1)
        d += 1
    B = wal.C.mul(pow(a, -1, wal.N), P)
    t.label('low' if low else 'above')
    same(ecc.shared_secret(ec.compress(B) if comp else ec.full(B), wal.ref_wif(a, True)), x.to_bytes(32, 'big'), 'secret')


@PROP.sub('bad-public', gen=st.tuples(gen.scalars(), gen.scalars(), st.booleans(), st.lists(gen.mutation(), min_size=1, max_size=2)), quick=250, thorough=8000,
          rule='altered public keys; non-trivial when they encode no point')
def bad_public(c, t):
    from nbc.util import ecc
    a, b, comp, muts = c
    B = wal.point(b)
    pub = gen.mutate(ec.compress(B) if comp else ec.full(B), muts)
    K = wal.decode_pub(pub)
    t.nontrivial(K is None)
    if K is None:
        raises(ValueError, ecc.shared_secret, pub, wal.ref_wif(a, True))
    else:
        same(ecc.shared_secret(pub, wal.ref_wif(a, True)), wal.C.mul(a, K)[0].to_bytes(32, 'big'), 'secret')


@PROP.sub('bad-private', gen=st.tuples(gen.scalars(), st.one_of(
    st.tuples(st.just('range'), st.one_of(st.sampled_from([0, wal.N, wal.N + 1, 2**256 - 1]), st.integers(wal.N, 2**256 - 1)), st.booleans()),
    st.tuples(st.just('text'), gen.scalars(), st.lists(st.tuples(st.integers(0, 50), st.integers(0, 57)), min_size=1, max_size=2)))), quick=150, thorough=4000,
    rule='private keys out of range or mistyped')
def bad_private(c, t):
    from nbc.util import ecc
    b, x = c
    if x[0] == 'range':
        text = wal.ref_wif(x[1], x[2])
    else:
        text = bytearray(wal.ref_wif(x[1], True))
        for i, ch in x[2]:
            text[i % len(text)] = b58.A[ch]
        text = bytes(text)
        if text == wal.ref_wif(x[1], True):
            t.nontrivial(False)
            return
    raises(ValueError, ecc.shared_secret, ec.compress(wal.point(b)), text)


SPECIAL = [1, 2, 3, wal.N - 1, wal.N - 2, wal.N // 2, wal.N // 2 + 1]


@PROP.sub('special', enum=lambda tier: [(a, b) for a in SPECIAL for b in SPECIAL], quick=49, rule='exhaustive over pairs of special private keys')
def special(c, t):
    from nbc.util import ecc
    a, b = c
    want = wal.point(a * b % wal.N)[0].to_bytes(32, 'big')
    for comp in (True, False):
        enc = ec.compress if comp else ec.full
        same(ecc.shared_secret(enc(wal.point(b)), wal.ref_wif(a, comp)), want, 'secret of a')
        same(ecc.shared_secret(enc(wal.point(a)), wal.ref_wif(b, not comp)), want, 'secret of b')


@PROP.sub('not-wif', gen=st.tuples(gen.scalars(), gen.scalars(), st.booleans(), st.one_of(
    st.sampled_from(['raw', 'hex', 'HEX', 'empty', 'version', 'nocheck', 'public', 'address', 'long', 'short', '33', '32', 'partial', 'newline', 'space']), st.tuples(st.just('cut'), st.integers(1, 51)), st.tuples(st.just('ext'), st.text(alphabet=b58.A.decode(), min_size=1, max_size=5).map(lambda s: s.encode())),
    st.tuples(st.just('front'), st.text(alphabet=b58.A.decode(), min_size=1, max_size=5).map(lambda s: s.encode())))), quick=150, thorough=4000,
    rule='what is no private key text: raw numbers, hex, other versions and lengths under a right checksum, public keys, addresses, texts cut or extended')
def not_wif(c, t):
    from nbc.util import ecc
    a, b, comp, how = c
    raw = a.to_bytes(32, 'big')
    w = wal.ref_wif(a, comp)
    pub = ec.compress(wal.point(a))
    kind = how if isinstance(how, str) else how[0]
    t.label(kind)
    bad = {'raw': lambda: raw, 'hex': lambda: raw.hex().encode(), 'HEX': lambda: raw.hex().upper().encode(), 'empty': lambda: b'', 'version': lambda: b58.enc_check(b'\x81' + raw + b'\1' * comp),
           'nocheck': lambda: b58.enc(b'\x80' + raw + b'\1' * comp), 'public': lambda: b58.enc_check(pub), 'address': lambda: b58.address(pub, 0, b'\0'), 'long': lambda: b58.enc_check(b'\x80' + raw + b'\1\1'), 'short': lambda: b58.enc_check(b'\x80' + raw[1:]),
           '33': lambda: b58.enc_check(b'\x80' + raw + b'\2'), '32': lambda: b58.enc_check(raw), 'partial': lambda: b58.enc_check(bytes([1, 2, 3, 4, 5, 6, 7, 8]) + raw),
           'newline': lambda: w + b'\n', 'space': lambda: b' ' + w, 'cut': lambda: w[:-how[1]], 'ext': lambda: w + how[1], 'front': lambda: how[1] + w}[kind]()
    raises(ValueError, ecc.shared_secret, ec.compress(wal.point(b)), bad)


@PROP.sub('special-points', enum=lambda tier: [(i, b, comp) for i in range(len(wal.special_points())) for b in (1, 2, 3, wal.N - 1, wal.N - 2, wal.N // 2, wal.N // 2 + 1, None) for comp in (False, True)][::1 if tier == 'thorough' else 3], quick=400,
          rule='exhaustive (quick: every third): public keys with special coordinates (small, round, next to the field prime or the group order) and special private keys')
def special_points(c, t):
    from nbc.util import ecc
    i, b, comp = c
    P = wal.special_points()[i]
    b = b or int.from_bytes(b58.dsha(repr(c).encode()), 'big') % wal.N
    same(ecc.shared_secret(ec.compress(P) if comp else ec.full(P), wal.ref_wif(b, i % 2 == 0)), wal.C.mul(b, P)[0].to_bytes(32, 'big'), 'secret')
